import itertools
import os
import shutil
import tempfile
import threading
import time

from rocketry.args import Arg
from rocketry.conditions import FuncCond
from rvm.sim import App, Clock

ID = "P26"
RULE = ("random sessions (every execution, disabled or not, conditions true, false or failing, pending batches, tasks that fail, create or remove tasks, startup and shutdown tasks) on which Session.run is called "
        "repeatedly with random selections and options; the calls and records of each are compared with the selection and everything settable with how it was before, and the session is then run as usual; "
        "distinct: (selection features, options, task features, exception)")
ASSUMES = ["a task set to run earlier (with a pending batch) counts as selected", "the process limit leaves room for the selected tasks", "the session is not running while run is called", "tasks that start or end the session are not looked at here"]


class Asked:
    "Condition function that knows when it was asked"

    def __init__(self, value):
        self.value, self.n = value, 0

    def __call__(self):
        self.n += 1
        if self.value == "raise":
            raise RuntimeError("planned")
        return self.value


def asks(cond, asked, task, session, scheduler=None):
    "Whether the condition is (still) the one that asks this"
    n = asked.n
    try:
        cond.observe(task=task, session=session) if scheduler is None else cond.observe(scheduler=scheduler, session=session)
    except Exception:
        pass
    return asked.n > n


def selection(ctx):
    rng = ctx.rng
    procs = rng.random() < 0.08
    modes = ["main", "async", "thread"] + (["process"] if procs else [])
    app = App(Clock(), execution=rng.choice(modes), cycle_sleep=0.0005, max_process_count=20,
              silence_cond_check=rng.random() < 0.7)
    session = app.session
    dir = tempfile.mkdtemp(prefix="rvm-") if procs else None
    pid = os.getpid()
    calls, lock = [], threading.Lock()
    shut = Asked(False)
    has_shut = rng.random() < 0.5
    if has_shut:
        session.config.shut_cond = FuncCond(shut)
    session.parameters["sp"] = 7
    plan, made = {}, []
    count = itertools.count()

    def add(name, created=False):
        does = rng.choice(["ok", "ok", "ok", "fail", "create", "remove", "rename", "disable"]) if not created else "ok"
        cond = Asked(rng.choice([True, False, False, "raise"] if not created else [False]))
        execution = rng.choice([None] + modes)
        if does in ("create", "remove", "rename", "disable") and "process" in (execution, session.config.execution):
            does = "ok"
        kind = rng.choice(["plain"] * 8 + ["startup", "shutdown"]) if not created else "plain"
        kw = dict(execution=execution, priority=rng.choice([-1, 0, 0, 2]), disabled=rng.random() < 0.25, on_startup=kind == "startup", on_shutdown=kind == "shutdown",
                  multilaunch=rng.choice([None, True, False]), timeout=rng.choice([None, 600]), description=rng.choice([None, "text"]))
        none = rng.random() < 0.3

        def func(own=None, sp=Arg("sp")):
            if os.getpid() != pid:
                open(os.path.join(dir, f"{name}={own}={sp}={time.monotonic_ns()}"), "w").close()
            else:
                with lock:
                    calls.append((name, own, sp, "main" if threading.current_thread() is threading.main_thread() else "thread"))
            if does == "fail":
                raise RuntimeError("planned failure")
            if does == "create":
                made.append(add(f"made {next(count)}", created=True))
            elif does == "remove":
                others = [n for n, p in plan.items() if p["created"] and n in session]
                if others:
                    session.remove_task(others[0])
                    del plan[others[0]]
            elif does == "rename" and rng.random() < 0.5:
                session[name].description = "changed by itself"
            elif does == "disable":
                session[name].priority = 99
        params = {"own": name} if rng.random() < 0.7 else {}
        if rng.random() < 0.5:
            task = app.add(func, name, None if none else FuncCond(cond), parameters=params, **kw)
        else:
            session.create_task(name=name, start_cond=None if none else FuncCond(cond), parameters=params, **kw)(func)
            task = session[name]
        plan[name] = dict(task=task, cond=None if none else cond, does=does, kind=kind, kw=kw, params=params, created=created, raises=cond.value == "raise" and not none)
        return name

    for i in range(rng.randint(1, 6)):
        # (some of the names are parts of others)
        add(rng.choice(sorted(plan)) + rng.choice(["00", ".x", " "]) + str(i) if plan and rng.random() < 0.4 else rng.choice(["t", "task ", "x.y"]) + str(i))

    def snapshot():
        shot = {}
        for name, p in plan.items():
            task = p["task"]
            shot[name] = dict(name=task.name, disabled=task.disabled, execution=task.execution, priority=task.priority, timeout=task.timeout, multilaunch=task.multilaunch, description=task.description,
                              on_startup=task.on_startup, on_shutdown=task.on_shutdown, parameters=(sorted(task.parameters.keys()), task.parameters["own"] if "own" in task.parameters.keys() else None), start=id(task.start_cond), end=id(task.end_cond), func=task.func,
                              pending=[dict(b) for b in task.batches])
        return shot

    session_shot = lambda: (dict(session.parameters), session.config.execution, session.config.max_process_count, session.config.task_pre_exist, session.config.shut_cond)
    history = []
    try:
        for _ in range(rng.randint(1, 4)):
            # someone may have set tasks to run
            for name, p in plan.items():
                p["batches"] = []
                if p["task"].batches and rng.random() < 0.5:
                    p["task"].batches.clear()
                if rng.random() < 0.12 and p["kind"] == "plain":
                    p["task"].run(own=f"batch{rng.randrange(9)}")
            names = list(plan)
            chosen = rng.sample(names, rng.randint(0, len(names)))
            execution = rng.choice([None, None] + modes)
            obey = rng.random() < 0.35
            before, sbefore, n_rec = snapshot(), session_shot(), len(app.tap.recs)
            calls.clear()
            if dir:
                for fn in os.listdir(dir):
                    os.unlink(os.path.join(dir, fn))
            kw = {}
            if execution or rng.random() < 0.3:
                kw["execution"] = execution
            if obey or rng.random() < 0.3:
                kw["obey_cond"] = obey
            # a condition that fails takes the session down if not silenced
            falls = obey and not session.config.silence_cond_check and any(
                plan[n]["raises"] and not plan[n]["task"].disabled and not plan[n]["task"].batches for n in chosen)
            here = set(plan)
            made.clear()
            exc = None
            try:
                given = []
                for n in chosen:
                    # (the name, the task or the function of the task)
                    form = rng.choice([n, plan[n]["task"]] + [plan[n]["task"].func] * hasattr(plan[n]["task"].func, "__rocketry__"))
                    ctx.saw("given_" + ("name" if form is n else "task" if form is plan[n]["task"] else "function"))
                    given.append(form)
                session.run(*given, **kw)
            except Exception as e:
                exc = e
            after = snapshot()
            how = dict(chosen=chosen, options=kw, falls=falls, error=repr(exc)[:300], tasks={n: (p["does"], p["kind"], before.get(n, {}).get("disabled"), p["cond"] and p["cond"].value, len(before[n]["pending"]) if n in before else None) for n, p in plan.items()})
            ctx.check((exc is not None) == falls and (exc is None or "planned" in str(exc) or "planned" in str(exc.__cause__)), "error", "running selected tasks raised something (or nothing though a condition failed)", **how)
            ctx.saw("runs")
            ctx.saw("fell" if falls else "went_well")
            if made:
                ctx.saw("created_tasks")
            if dir:
                for fn in os.listdir(dir):
                    name, own, sp, _ = fn.split("=")
                    calls.append((name, own, int(sp), "process"))
            recs = app.tap.recs[n_rec:]
            for name in here & set(plan):
                p = plan[name]
                b = before[name]
                mine = [c for c in calls if c[0] == name]
                runs = [r for r in recs if r.task == name and r.action == "run"]
                ends = [r for r in recs if r.task == name and r.action in ("success", "fail")]
                pending = b["pending"]
                feat = dict(task=name, calls=len(mine), runs=len(runs), ends=len(ends), **how)
                sel = name in chosen
                if not falls:
                    if not sel:
                        if p["kind"] == "plain":
                            # (a batch set to run earlier is run in any case)
                            ctx.check(len(mine) == len(runs) == int(bool(pending)), "other-ran", "a task that was not selected ran", **feat)
                            ctx.saw("not_selected")
                            if pending:
                                ctx.saw("not_selected_pending")
                    elif not obey:
                        ctx.check(len(mine) == len(runs) == len(ends) == 1, "not-once", "a selected task did not run exactly once", **feat)
                        ctx.saw("selected")
                        ctx.saw("selected_disabled", int(b["disabled"]))
                    else:
                        due = bool(pending) or (not b["disabled"] and p["cond"] is not None and p["cond"].value is True)
                        if p["kind"] == "plain":
                            ctx.check(len(mine) == len(runs) == len(ends) == int(due), "obey", "a selected task should have run exactly when its condition allows", due=due, **feat)
                            ctx.saw("obeyed_due" if due else "obeyed_not_due")
                else:
                    ctx.check(len(mine) <= 1 and (sel or p["kind"] != "plain" or not mine or pending), "falling", "a task ran too many times or was not selected", **feat)
                ctx.sig(sel, obey, execution, p["kw"]["execution"], p["kind"], b["disabled"], bool(pending), p["does"], falls, p["cond"] and p["cond"].value)
                e = (execution if sel else None) or p["kw"]["execution"] or session.config.execution
                for c in mine:
                    ctx.check(c[3] == {"async": "main"}.get(e, e), "execution", "a selected task was executed elsewhere", want=e, got=c[3], **feat)
                    ctx.saw(f"calls_{e}")
                    ctx.check(c[2] == 7, "session-parameter", "a selected task did not get the parameter of the session", got=c[2], **feat)
                    if not pending:
                        ctx.check(str(c[1]) == str(p["params"].get("own")), "parameter", "a selected task did not get its own parameters", got=c[1], want=p["params"], **feat)
                    elif c[1] not in [str(x.get("own")) for x in pending] + [p["params"].get("own"), None]:
                        ctx.fail("parameter", "a selected task got parameters of no one", got=c[1], **feat)
                # (a process may end while it is being terminated)
                if ends and not (falls and any(r.task == name and r.action == "terminate" for r in recs)):
                    want = "fail" if p["does"] == "fail" else "success"
                    ctx.check(p["task"].status == want == ends[-1].action, "status", "the status of a task that was run is not what happened", got=p["task"].status, want=want, **feat)
                    ctx.saw("statuses")
                # as it was
                for key, value in b.items():
                    if key == "pending":
                        if not sel and not falls:
                            ctx.check(after[name][key] == value[1:], "pending", "pending runs of a task that was not selected changed", got=after[name][key], want=value, **feat)
                    else:
                        ctx.check(after[name][key] == value, f"not-restored-{key}", "a setting of a task was not as before", got=after[name][key], want=value, selected=sel, **feat)
                if p["cond"] is not None:
                    ctx.check(asks(p["task"].start_cond, p["cond"], p["task"], session), "not-restored-cond", "the condition of a task is not the same as before", **feat)
                ctx.check(session[name] is p["task"], "lost", "a task is not in the session any more", **feat)
                ctx.saw("restored")
            ctx.check(session_shot()[:-1] == sbefore[:-1], "not-restored-session", "the session is not as before", got=session_shot()[:-1], want=sbefore[:-1], **how)
            cond = session.config.shut_cond
            if has_shut:
                ctx.check(cond is not None and asks(cond, shut, None, session, session.scheduler), "not-restored-shut", "the shut condition is not the same as before", **how)
            else:
                ctx.check(cond is None or not cond.observe(scheduler=session.scheduler, session=session), "not-restored-shut", "the session got a shut condition", **how)
            for name in made:
                if name in plan:
                    ctx.check(name in session and plan[name]["task"] in session.tasks, "created-lost", "a task created by a selected task is not in the session", **how)
            history.append((len(chosen), obey, execution))
        # ... and the session works as usual
        if rng.random() < 0.6 and not procs:
            for p in plan.values():
                p["task"].batches.clear()
            session.config.silence_cond_check = True
            n_rec = len(app.tap.recs)
            app.cycles = 0
            app.stop_after(cycles=2)
            out = app.serve(real_yield=0.001)
            if out.exception:
                raise out.exception
            if out.stopped:
                ctx.inconclusive(out.stopped)
            recs = app.tap.recs[n_rec:]
            for name, p in plan.items():
                if p["created"] or p["kind"] != "plain" or p["task"] not in session.tasks:
                    continue
                n = sum(r.task == name and r.action == "run" for r in recs)
                due = not p["kw"]["disabled"] and p["cond"] is not None and p["cond"].value is True
                multi = p["kw"]["multilaunch"]
                e = p["kw"]["execution"] or session.config.execution
                want = {0} if not due else {2} if e == "main" else {1, 2}
                ctx.check(n in want, "usual", "the session does not work as usual after running selected tasks", task=name, runs=n, want=want, multilaunch=multi, execution=e)
                ctx.saw("usual_due" if due else "usual_not_due")
        app.close()
        ctx.sample(history)
    finally:
        if dir:
            shutil.rmtree(dir, ignore_errors=True)


KINDS = {"selection": (selection, 500, 8000)}
FLOORS = {"calls_async": 200, "calls_main": 200, "calls_process": 5, "calls_thread": 200, "created_tasks": 50, "fell": 8, "not_selected": 700, "obeyed_due": 50, "obeyed_not_due": 150, "restored": 1800, "selected": 600, "selected_disabled": 150, "usual_due": 40}
