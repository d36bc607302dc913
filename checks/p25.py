import os
import tempfile
import threading
import time

from rocketry import Grouper
from rocketry.args import Arg
from rocketry.conditions import FuncCond
from rocketry.tasks import CodeTask, CommandTask, FuncTask
from rvm.sim import App, Clock

ID = "P25"
RULE = ("random sequences of creating (in every way, names taken or free, each setting for existing names), renaming, changing, removing and looking up tasks and including groups, compared after every step with a "
        "model of names, objects and settings; then the session is run and the included tasks must start exactly when both their own and the group's condition say so, in the execution told, with the group's "
        "parameters, logged to the session's log; distinct: (operation, way, setting, taken, group features)")
ASSUMES = ["no two tasks of a group get each other's name from the prefix", "a function finds its task unless the task is renamed", "tasks are not renamed to a taken name when existing names are ignored"]

NAMES = ("a", "b", "A", "a.b", "a - 1", "task one", "x")


class Marked(FuncCond):
    "Condition whose function tells it was asked (the session may copy the condition)"

    def __init__(self):
        asked = self.asked = []
        super().__init__(lambda: asked.append(1) or False)

    def is_asked_by(self, cond, task):
        n = len(self.asked)
        cond.observe(task=task, session=task.session)
        return len(self.asked) > n


class Model:
    def __init__(self, ctx, session):
        self.ctx, self.session = ctx, session
        self.tasks = {}     # name -> dict(task, settings, func)

    def verify(self, op, how):
        ctx, session = self.ctx, self.session
        got = sorted(str(t.name) for t in session.tasks)
        if not ctx.check(got == sorted(self.tasks), "names", f"the tasks of the session are not right after {op}", got=got, want=sorted(self.tasks), how=how):
            return False
        for name, d in self.tasks.items():
            task = d["task"]
            ctx.check(session[name] is task, "by-name", f"a task is not found by its name after {op}", name=name, how=how)
            ctx.check(session[task] is task, "by-object", f"a task is not found by itself after {op}", name=name, how=how)
            ctx.check(name in session and task in session, "contains", f"a task is not in the session after {op}", name=name, how=how)
            if d["func"] is not None:
                ctx.check(session[d["func"]] is task and d["func"] in session, "by-function", f"a task is not found by its function after {op}", name=name, how=how)
                ctx.saw("by_function")
            ctx.check(task.session is session, "session", f"the session of a task is another after {op}", name=name, how=how)
            for key, want in d["settings"].items():
                value = getattr(task, key)
                if key == "parameters":
                    value = dict(value)
                elif key == "timeout" and value is not None:
                    value = value.total_seconds()
                ok = value is want if key == "func" else want.is_asked_by(value, task) if isinstance(want, Marked) else value == want
                ctx.check(ok, f"setting-{key}", f"a setting of a task is not what it was set after {op}", name=name, got=value, want=want, how=how)
            ctx.saw("tasks_verified")
        for name in ("nonexistent", *NAMES):
            if name not in self.tasks:
                ctx.check(name not in session, "not-contains", f"a name that is not in use is in the session after {op}", name=name, how=how)
                try:
                    found = session[name]
                except KeyError:
                    pass
                else:
                    ctx.fail("found", f"a task that is not in the session is found after {op}", name=name, found=found, how=how)
        return True


def rand_settings(rng):
    kw = {}
    if rng.random() < 0.5:
        kw["priority"] = rng.choice([-1, 0, 3])
    if rng.random() < 0.3:
        kw["disabled"] = rng.random() < 0.5
    if rng.random() < 0.4:
        kw["execution"] = rng.choice(["main", "async", "thread", "process"])
    if rng.random() < 0.3:
        kw["timeout"] = rng.choice([1, 60.5])
    if rng.random() < 0.3:
        kw["description"] = rng.choice(["text", ""])
    if rng.random() < 0.3:
        kw["multilaunch"] = rng.random() < 0.5
    if rng.random() < 0.3:
        kw["permanent"] = rng.random() < 0.5
    if rng.random() < 0.3:
        kw["parameters"] = {"p": rng.randrange(5)}
    if rng.random() < 0.4:
        kw["start_cond"] = Marked()
    if rng.random() < 0.2:
        kw["end_cond"] = Marked()
    if rng.random() < 0.2:
        kw[rng.choice(["on_startup", "on_shutdown"])] = True
    return kw


def make_func():
    def func(p=None, gp=None):
        return 1
    return func


def registry(ctx):
    rng = ctx.rng
    app = App(Clock(), execution="main")
    session = app.session
    m = Model(ctx, session)
    gone = []

    def create():
        way = rng.choice(["create", "decorator", "class", "app", "command", "code"])
        name = rng.choice(NAMES)
        mode = session.config.task_pre_exist
        taken = name in m.tasks
        kw = rand_settings(rng)
        func = make_func()
        named = rng.random() < 0.8 or way in ("command", "code")
        if not named:
            func.__name__ = name        # the name comes from the function
        nkw = {"name": name} if named else {}
        if way == "class" and not named:
            func.__module__ = "__main__"
        before = set(session.tasks)
        error = task = None
        try:
            if way == "create":
                task = session.create_task(func=func, **nkw, **kw)
            elif way == "decorator":
                got = session.create_task(**nkw, **kw)(func)
                ctx.check(got is func, "decorated", "a decorated function is not the function any more")
            elif way == "app":
                got = app.app.task(**nkw, **kw)(func)
                ctx.check(got is func, "decorated", "a decorated function is not the function any more")
            elif way == "class":
                task = FuncTask(func, session=session, **nkw, **kw)
            elif way == "command":
                kw.pop("execution", None) if kw.get("execution") == "async" else None
                task = CommandTask(command=["echo"], session=session, **nkw, **kw)
            else:
                task = CodeTask(code="x = 1", session=session, **nkw, **kw)
        except (ValueError, KeyError) as exc:
            error = exc
        how = dict(way=way, name=name, mode=mode, taken=taken, named=named, settings=kw, error=repr(error)[:200])
        ctx.sig("create", way, mode, taken, named)
        if taken and mode == "raise":
            ctx.check(error is not None, "not-rejected", "a task with a name in use was not rejected", **how)
            ctx.saw("rejected")
        else:
            ctx.check(error is None, "rejected", "a task was rejected for no reason", **how)
        new = set(session.tasks) - before
        if error is not None or (taken and mode in ("raise", "ignore")):
            ctx.check(not new and set(session.tasks) == before, "changed", "a creation that was rejected or ignored changed the tasks", **how)
            if taken and mode == "ignore" and way in ("decorator", "app"):
                # the function is now another name of the task there was
                ctx.saw("ignored")
        else:
            if not ctx.check(len(new) == 1 and before <= set(session.tasks), "not-added", "the task was not added (alone)", new=new, **how):
                return "create", how
            task = new.pop()
            if taken:
                ctx.check(task.name != name and str(task.name).startswith(name) and task.name not in m.tasks, "rename", "a task whose name was in use did not get a free name", got=task.name, **how)
                ctx.saw("renamed_at_creation")
            else:
                ctx.check(task.name == name, "name", "the task got another name", got=task.name, **how)
            if way not in ("command", "code"):
                kw = {**kw, "func": func}
            m.tasks[task.name] = {"task": task, "settings": kw, "func": func if way in ("decorator", "app") else None}
            ctx.saw("created")
        return "create", how

    def remove():
        way = rng.choice(["name", "object", "delete", "unknown", "function"])
        if way == "unknown" or not m.tasks:
            target = rng.choice(["nonexistent"] + gone[-2:] + [n for n in NAMES if n not in m.tasks])
            if target in m.tasks:
                return "nothing", {}
            try:
                session.remove_task(target)
            except KeyError:
                ctx.saw("remove_unknown")
            else:
                ctx.fail("removed-unknown", "removing a task that is not there did not fail", target=str(target))
            return "remove", dict(way=way)
        name = rng.choice(list(m.tasks))
        d = m.tasks.pop(name)
        if way == "delete":
            d["task"].delete()
        else:
            session.remove_task(name if way == "name" else d["task"] if way == "object" or d["func"] is None else d["func"])
        if d["task"] in session.tasks or name in session:
            ctx.fail("still-there", "a removed task is still in the session", name=name, way=way)
        gone.append(d["task"])
        ctx.saw("removed")
        ctx.sig("remove", way)
        return "remove", dict(name=name, way=way)

    def change():
        if not m.tasks:
            return "nothing", {}
        name = rng.choice(list(m.tasks))
        d = m.tasks[name]
        new = rng.choice(NAMES + ("new name",))
        mode = session.config.task_pre_exist
        if rng.random() < 0.5 and new != name and not (new in m.tasks and mode == "ignore"):
            taken = new in m.tasks
            error = None
            try:
                d["task"].name = new
            except ValueError as exc:
                error = exc
            ctx.check((error is not None) == (taken and mode == "raise"), "rename-error", "renaming should fail exactly when the name is in use", new=new, taken=taken, mode=mode, error=repr(error)[:200])
            if error is None:
                got = d["task"].name
                ctx.check(got == new if not taken else got not in m.tasks and str(got).startswith(new), "rename", "a renamed task has another name", got=got, new=new, taken=taken)
                d["func"] = None
                m.tasks[got] = m.tasks.pop(name)
                ctx.saw("renamed")
            ctx.sig("rename", taken, mode)
            return "rename", dict(name=name, new=new, mode=mode)
        key, value = rng.choice([("priority", rng.randrange(9)), ("disabled", rng.random() < 0.5), ("execution", rng.choice(["main", "thread"])), ("description", "other")])
        setattr(d["task"], key, value)
        d["settings"][key] = value
        ctx.saw("changed")
        return "change", dict(name=name, key=key)

    def group():
        prefix, cond, execution = rng.choice([None, "", "g.", "a."]), FuncCond(lambda: True) if rng.random() < 0.5 else None, rng.choice([None, None, "main", "thread"])
        g = Grouper(**{k: v for k, v in dict(prefix=prefix, start_cond=cond, execution=execution).items() if v is not None or rng.random() < 0.5})
        mode = session.config.task_pre_exist
        mine = []
        for name in rng.sample(("a", "b", "A", "task one", "x"), rng.choice([0, 1, 2, 3])):
            final = (prefix or "") + name
            if final in m.tasks and mode == "raise" and rng.random() < 0.8:
                continue
            kw = rand_settings(rng)
            func = make_func()
            g.task(name=name, **kw)(func)
            mine.append((name, final, kw, func, g.session[name]))
        params = {k: rng.randrange(9) for k in rng.sample(["q", "r", "s"], rng.randint(0, 3))}
        g.params(**params)
        want_params = {**dict(session.parameters), **params}
        clash = [f for _, f, _, _, _ in mine if f in m.tasks]
        error = None
        before = set(session.tasks)
        try:
            app.app.include_grouper(g)
        except (KeyError, ValueError) as exc:
            error = exc
        how = dict(prefix=prefix, execution=execution, mode=mode, clash=clash, error=repr(error)[:200])
        ctx.sig("group", prefix, cond is not None, execution, mode, bool(clash), len(mine))
        if clash and mode == "raise":
            ctx.check(error is not None, "group-not-rejected", "a group with a name in use was not rejected", **how)
            ctx.check(before <= set(session.tasks), "group-changed", "a rejected group changed the tasks there were", **how)
            # (the other tasks of it may or may not be there)
            for t in set(session.tasks) - before:
                session.remove_task(t)
            ctx.saw("group_rejected")
            return "group", how
        if not ctx.check(error is None, "group-rejected", "a group was rejected for no reason", **how):
            return None, how
        new = set(session.tasks) - before
        ctx.check(before <= set(session.tasks), "group-changed", "including a group removed tasks", **how)
        for name, final, kw, func, task in mine:
            if final in clash and mode == "ignore":
                ctx.check(task not in new, "group-ignored", "a task of a group should have been ignored", **how)
                continue
            if not ctx.check(task in new, "group-missing", "a task of a group was not added", task=name, **how):
                continue
            if final in clash:
                ctx.check(str(task.name).startswith(final) and task.name not in m.tasks, "group-rename", "a task of a group whose name was in use did not get a free name", got=task.name, **how)
                ctx.saw("group_renamed")
            else:
                ctx.check(task.name == final, "group-name", "a task of a group has a wrong name", got=task.name, want=final, **how)
            kw = dict(kw)
            kw["execution"] = kw.get("execution", execution)
            ctx.check(task.get_execution() == (kw["execution"] or session.config.execution), "group-execution", "a task of a group has another execution", got=task.get_execution(), want=kw["execution"], **how)
            kw.pop("start_cond", None)
            kw["func"] = func
            m.tasks[task.name] = {"task": task, "settings": kw, "func": func if task.name == name else None}
            ctx.saw("grouped")
        ctx.check(dict(session.parameters) == want_params, "group-parameters", "the parameters of the group were not added", got=dict(session.parameters), want=want_params, **how)
        return "group", how

    log = []
    for _ in range(rng.randint(5, 25)):
        op = rng.choice([create, create, create, remove, change, group])
        what, how = op()
        if rng.random() < 0.2:
            session.config.task_pre_exist = rng.choice(["raise", "raise", "ignore", "rename"])
        log.append(what)
        if what is None or not m.verify(what, how):
            break
    if rng.random() < 0.1:
        session.clear()
        ctx.check(not session.tasks and not dict(session.parameters), "clear", "the session is not empty after clearing")
    app.close()
    ctx.sample(log)


def running(ctx):
    "What the included tasks do"
    rng = ctx.rng
    clock = Clock()
    default = rng.choice(["main", "async", "thread"])
    app = App(clock, execution=default, cycle_sleep=0.01)
    session = app.session
    session.parameters["sp"] = "own"
    calls, lock = [], threading.Lock()
    procs = rng.random() < 0.1
    dir = tempfile.mkdtemp(prefix="rvm-") if procs else None
    try:
        plan, gconds = {}, {}
        groups = []
        for gi in range(rng.randint(1, 3)):
            prefix = rng.choice([None, f"g{gi}.", f"g{gi}/"])
            kind = rng.choice(["none", "flag", "flag", "string", "object"])
            flag = {"v": False}
            cond = {"none": None, "flag": FuncCond(lambda flag=flag: flag["v"]), "string": rng.choice(["true", "false", "true & true", "~true"]), "object": FuncCond(lambda: True) | FuncCond(lambda: False)}[kind]
            fixed = {"none": True, "string": cond in ("true", "true & true") if kind == "string" else None, "object": True}.get(kind)
            execution = rng.choice([None, "main", "async", "thread"] + (["process"] if procs else []))
            g = Grouper(prefix=prefix, start_cond=cond, execution=execution)
            gconds[gi] = (kind, flag, fixed)
            g.params(**{"gp": f"group{gi}", f"only{gi}": gi})
            if rng.random() < 0.5:
                g.param("made")(lambda gi=gi: f"made{gi}")
            for ti in range(rng.randint(1, 3)):
                name = f"t{gi}{ti}"
                final = (prefix or "") + name
                own = {"v": False}
                e = rng.choice([None, None, "main", "thread", "async"])

                def func(gp, sp=Arg("sp"), final=final):
                    if os.getpid() != pid:
                        open(os.path.join(dir, f"{final.replace('/', '_')}={gp}={sp}={time.monotonic_ns()}"), "w").close()
                        return
                    with lock:
                        calls.append((final, gp, sp, threading.current_thread() is threading.main_thread()))
                if e == "async" or (e is None and execution == "async"):
                    inner = func

                    async def func(gp, sp=Arg("sp"), inner=inner):
                        inner(gp, sp)
                how = rng.choice(["flag", "flag", "none"])
                g.task(FuncCond(lambda own=own: own["v"]) if how == "flag" else None, name=name, execution=e)(func)
                plan[final] = dict(group=gi, own=own if how == "flag" else None, execution=e or execution or default)
            groups.append(g)
        pid = os.getpid()
        order = list(range(len(groups)))
        rng.shuffle(order)
        for gi in order:
            app.app.include_grouper(groups[gi])
        last = order[-1]
        snap = {}

        def wait():
            end = time.monotonic() + 20
            while time.monotonic() < end and any(t.is_alive() for t in session.tasks if t.get_execution() in ("thread", "process")):
                time.sleep(0.0005)
            session.scheduler.handle_logs() if procs else None

        def before(n):
            wait()
            for p in plan.values():
                if p["own"] is not None:
                    p["own"]["v"] = rng.random() < 0.6
            for kind, flag, _ in gconds.values():
                flag["v"] = rng.random() < 0.6
            snap["recs"] = len(app.tap.recs)
            snap["alive"] = {t.name for t in session.tasks if t.is_alive()}

        def after(n):
            wait()
            new = app.tap.recs[snap["recs"]:]
            for name, p in plan.items():
                kind, flag, fixed = gconds[p["group"]]
                group_says = fixed if fixed is not None else flag["v"]
                want = p["own"] is not None and p["own"]["v"] and group_says and name not in snap["alive"]
                got = sum(r.task == name and r.action == "run" for r in new)
                ctx.check(got == int(want), "group-start", "a task of a group should start exactly when its own and the group's conditions are true", task=name, own=p["own"], group=group_says, kind=kind, starts=got,
                          recs=[r for r in app.tap.recs if r.task == name][-4:])
                ctx.saw("due" if want else "not_due")
                ctx.sig("run", kind, p["execution"], want, group_says)
        app.at_cycle(before)
        app.after_cycle(after)
        app.stop_after(cycles=10)
        out = app.serve(real_yield=0.0005)
        app.close()
        if out.exception:
            raise out.exception
        if out.stopped:
            ctx.inconclusive(out.stopped)
        if procs:
            for fn in os.listdir(dir):
                final, gp, sp, _ = fn.split("=")
                calls.append((final, gp, sp, "process"))
        for name, p in plan.items():
            mine = [c for c in calls if c[0] == (name if p["execution"] != "process" else name.replace("/", "_"))]
            runs = [r for r in app.tap.recs if r.task == name and r.action == "run"]
            ok = [r for r in app.tap.recs if r.task == name and r.action == "success"]
            ctx.check(len(mine) == len(runs) == len(ok), "group-calls", "the runs of a task of a group are not as many as its calls", task=name, calls=len(mine), runs=len(runs), successes=len(ok), execution=p["execution"])
            stored = [r for r in app.repo.filter_by(task_name=name).all() if r.action == "run"]
            ctx.check(len(stored) == len(runs), "group-log", "the runs of a task of a group are not in the log of the session", stored=len(stored), runs=len(runs))
            where = {"main": True, "async": True, "thread": False, "process": "process"}[p["execution"]]
            for c in mine:
                ctx.check(c[3] == where, "group-execution", "a task of a group was executed elsewhere", task=name, execution=p["execution"])
                ctx.check(c[1] == f"group{last}" and c[2] == "own", "group-parameters", "a task of a group got wrong parameters", got=c[1:3], want=(f"group{last}", "own"))
                ctx.saw(f"calls_{p['execution']}")
        ctx.sample({n: (p["group"], p["execution"]) for n, p in plan.items()})
    finally:
        if dir:
            import shutil
            shutil.rmtree(dir, ignore_errors=True)


KINDS = {"registry": (registry, 600, 10000), "running": (running, 300, 4000)}
FLOORS = {"by_function": 4000, "calls_async": 400, "calls_main": 400, "calls_process": 4, "calls_thread": 400, "created": 1200, "due": 1300, "not_due": 3000, "group_rejected": 20, "group_renamed": 40, "grouped": 600, "ignored": 40, "rejected": 400, "removed": 400, "renamed": 150, "renamed_at_creation": 150}
