import datetime
import logging
import multiprocessing
import sys
import threading
import time

import rocketry.args
from redbird.repos import MemoryRepo
from rocketry import Rocketry
from rocketry.exc import TaskInactionException
from rocketry.log import MinimalRunRecord, RunRecord, TaskLogRecord, TaskRunRecord
from rvm.runs import OUTCOMES
from rvm.sim import App, Clock, SharedClock
from checks.p18 import TermBench

ID = "P23"
RULE = ("overlapping runs of main, async, thread and process tasks with every outcome, terminations and timeouts, in random order; before and after every cycle the status and the six latest times of every "
        "task - by method, by attribute, cached or read from the log - must be those of its latest records, and every end record must carry the start of its own run, its end and their "
        "difference, also as stored; distinct: (execution, status, mode, runs alive, outcome, simultaneous runs, model)")
ASSUMES = ["judged when no thread of the task is in the middle of logging", "a status has its time a moment before its record"]

ACTIONS = ("run", "success", "fail", "terminate", "inaction", "crash")
NEAR = 5e-4
UTC = datetime.timezone.utc


def stamp(dt):
    return None if dt is None else dt.astimezone(UTC).timestamp() if dt.tzinfo else dt.replace(tzinfo=UTC).timestamp()


class B(TermBench):
    def __init__(self, *args, **kwargs):
        self.by_token = {}
        self.seen_inside = []
        super().__init__(*args, **kwargs)

    def enter(self, task, token, kwargs):
        self.by_token[token] = threading.current_thread()
        t = self.session[task]
        self.seen_inside.append((task, token, t.status, stamp(t.last_run)))
        super().enter(task, token, kwargs)

    def make_body(self, task, execution):
        if execution == "main":
            self.bodies = self.bodies or {}
            self.bodies[task] = "plain"
            return super(TermBench, self).make_body(task, execution)
        return super().make_body(task, execution)


def scenario(ctx, execs, n_tasks, n_cycles):
    rng = ctx.rng
    procs = "process" in execs
    model = rng.choice([RunRecord, TaskRunRecord, MinimalRunRecord])
    force = rng.random() < 0.4
    with B(ctx, clock=SharedClock() if procs else Clock(), model=model, config={"multilaunch": False, "force_status_from_logs": force, "max_process_count": 50, "cycle_sleep": rng.choice([0.01, 0.1])}) as b:
        clock, session = b.clock, b.session
        names, multi = [], {}
        for i in range(n_tasks):
            e, name = rng.choice(execs), f"t{i}"
            names.append(name)
            # (processes log their start later than they are started: overlapping ones in no special order)
            multi[name] = e != "process" and rng.random() < 0.5
            b.add(name, e, multilaunch=multi[name], timeout=rng.choice([0.4, 1e9, 1e9]) if e != "process" else 1e9)
        held, snap = [], {"released": {}}

        def live(task=None):
            ended = {r.run_id for r in b.app.tap.recs if r.action != "run"}
            return [r.run_id for r in b.app.tap.recs if r.action == "run" and r.run_id not in ended and task in (None, r.task)]

        def gone(token):
            return any(r.run_id == token and r.action != "run" for r in b.app.tap.recs)

        def finish(token):
            "Let the run end and - a thread or a process - wait for it"
            task = b.tokens[token]["task"]
            e = b.execution[task]
            snap["released"][token] = clock.peek()
            b.release(token)
            end = time.monotonic() + 20
            if e == "thread":
                while time.monotonic() < end and not gone(token):
                    time.sleep(0.0003)
                b.by_token[token].join(20)
            elif e == "process":
                while time.monotonic() < end and token not in b.child_calls(task) and token in live():
                    time.sleep(0.001)
                pid = b.child_calls(task).get(token, {}).get("pid")
                while time.monotonic() < end and any(p.pid == pid for p in multiprocessing.active_children()):
                    time.sleep(0.001)

        def settle():
            "Threads that are going to end have ended (those that were told to)"
            end = time.monotonic() + 20
            for task in names:
                if b.execution[task] != "thread":
                    continue
                while time.monotonic() < end:
                    going = [t for t in live(task) if t in b.by_token and b.bodies[task] == "listen" and t in snap["told"]]
                    if not going:
                        break
                    time.sleep(0.0003)
                for token, th in list(b.by_token.items()):
                    if b.tokens[token]["task"] == task and gone(token):
                        th.join(20)

        def judge(when):
            for name in names:
                task = session[name]
                for attempt in range(1000):
                    mine = [r for r in list(b.app.tap.recs) if r.task == name]
                    if b.execution[name] == "thread":
                        for r in mine:
                            if r.action != "run" and r.run_id in b.by_token:
                                b.by_token[r.run_id].join(20)
                    got, attr = task.get_status(), task.status
                    values = [(a, way, stamp(f())) for a in ACTIONS for way, f in ((f"get_last_{a}()", getattr(task, f"get_last_{a}")), (f"last_{a}", lambda: getattr(task, f"last_{a}")))]
                    if sum(r.task == name for r in list(b.app.tap.recs)) == len(mine):
                        # no thread was logging in the meantime (or is in the middle of it)
                        if b.execution[name] != "thread" or got == attr == (mine[-1].action if mine else None) or attempt > 5:
                            break
                        time.sleep(0.005)
                want = mine[-1].action if mine else None
                how = dict(task=name, execution=b.execution[name], force=force, when=when, multilaunch=multi[name], log=mine[-6:])
                ctx.check(got == want, "status", "the status is not that of the latest record of the task", got=got, want=want, **how)
                ctx.check(attr == want, "status-attr", "the status attribute is not that of the latest record of the task", got=attr, want=want, **how)
                for a, way, g in values:
                    t = next((r.created for r in reversed(mine) if r.action == a), None)
                    ctx.check((g is None) == (t is None) and (g is None or abs(g - t) < NEAR), f"last-{a}", f"{way} is not the time of the latest such record of the task", got=g, want=t, **how)
                ctx.saw("judged")
                ctx.saw(f"status_{want}")
                ctx.saw("judged_overlapping", int(len(live(name)) > 1))
                ctx.sig(b.execution[name], want, force, min(len(live(name)), 3), when)

        def before(n):
            snap["told"] = set()
            clock.advance(rng.choice([0, 0, 0.1, 0.3, 0.5]))
            draining = n >= n_cycles
            if not draining:
                for _ in range(rng.choice([0, 1, 1, 2, 3])):
                    task = rng.choice(names)
                    held.append(b.submit(task, rng.choice(["success", "fail", "inaction", "terminate", "none", "fail-odd"]), gated=True))
            alive = set(live())
            todo = [t for t in held if t in alive and (rng.random() < 0.35 or draining)]
            rng.shuffle(todo)
            for token in todo:
                held.remove(token)
                finish(token)
            if todo and procs:
                # the end of a process is read later than it took place
                clock.advance(rng.choice([0, 0.02, 0.07]))
            for name in names:
                # (a process killed while it is logging can leave the queue of the logs locked for good)
                busy = b.execution[name] == "process" and (not live(name) or any(t in b.open for t in live(name)))
                if not draining and rng.random() < 0.1 and b.execution[name] != "main" and not busy:
                    session[name].terminate()
                    snap["told"].update(live(name))
            for t in live():
                # (may also reach its timeout on the cycle)
                if session[b.tokens[t]["task"]].timeout.total_seconds() < 1e8:
                    start = next(r.created for r in b.app.tap.recs if r.run_id == t)
                    if clock.peek() - start > 0.4 - NEAR:
                        snap["told"].add(t)
                    elif clock.peek() - start > 0.2:
                        clock.advance(0.3)
                        snap["told"].add(t)
            settle_all = [t for t in live() if session[b.tokens[t]["task"]].timeout.total_seconds() < 1e8]
            for t in settle_all:
                start = next(r.created for r in b.app.tap.recs if r.run_id == t)
                if clock.peek() - start > 0.4 - NEAR:
                    snap["told"].add(t)
            judge("before")

        def after(n):
            settle()
            judge("after")
        b.app.at_cycle(before)
        b.app.after_cycle(after)
        out = b.serve(n_cycles + 3)
        ctx.sample({n: (b.execution[n], b.bodies[n], multi[n]) for n in names})
        if out.exception is not None:
            raise out.exception
        if out.stopped:
            ctx.inconclusive(out.stopped)
        judge("end")
        for task, token, status, last in b.seen_inside:
            if not multi[task]:
                ctx.check(status == "run", "status-inside", "the status of a running task is not run", task=task, token=token, status=status)
                start = next((r.created for r in b.recs if r.run_id == token and r.action == "run"), None)
                ctx.check(last is not None and start is not None and abs(last - start) < NEAR, "last-inside", "the latest run of a running task is not the one running", task=task, token=token, last=last, start=start)
                ctx.saw("inside")
        stored = {}
        for r in b.app.repo.filter_by().all():
            stored.setdefault((r.task_name, r.run_id), []).append(r)
        runs = {}
        for r in b.recs:
            runs.setdefault((r.task, r.run_id), []).append(r)
        spans = []
        for (task, token), rs in runs.items():
            d, e = b.tokens.get(token), b.execution[task]
            how = dict(task=task, token=token, execution=e, records=[(r.action, r.created, r.start, r.end, r.runtime) for r in rs])
            if not ctx.check(len(rs) == 2 and rs[0].action == "run", "records", "a run is not logged once as started and once as ended", **how):
                continue
            a, z = rs
            spans.append((task, a.created, z.created))
            ctx.check(a.start is not None and abs(a.start - a.created) < NEAR, "start", "a start record does not carry the time of the start", **how)
            ctx.check(z.start == a.start, "own-start", "an end record does not carry the start of its own run", **how)
            # (the clock of a process goes on by itself between the readings)
            ctx.check(z.end is not None and -NEAR < z.created - z.end < (2 if e == "process" else NEAR), "end", "an end record does not carry the time of the end", **how)
            ctx.check(z.end is not None and z.runtime is not None and z.start is not None and abs(z.runtime - (z.end - z.start)) < 1e-6, "runtime", "the runtime is not the time between the start and the end", **how)
            if token in snap["released"] and z.action == OUTCOMES[d["outcome"]] and z.action != "terminate" and e != "main":
                ctx.check(z.end is None or z.end >= snap["released"][token] - NEAR, "end-early", "the run is logged to have ended before it did", released=snap["released"][token], **how)
            if e != "main":
                ctx.saw("long_runs", int(z.created - a.created > 0.05))
            ctx.saw(f"ends_{e}")
            kept = stored.get((task, token), [])
            if ctx.check([k.action for k in kept] == [r.action for r in rs], "stored", "the records of the run are not stored", stored=[k.action for k in kept], **how):
                for k, r in zip(kept, rs):
                    ctx.check(abs(k.created - r.created) < 1e-6, "stored-created", "a stored record has another time", got=k.created, **how)
                    if model is TaskRunRecord:
                        want = {"start": r.start, "end": r.end, "runtime": r.runtime}
                        got = {"start": stamp(k.start), "end": stamp(k.end), "runtime": None if k.runtime is None else k.runtime.total_seconds()}
                        ok = all((got[x] is None) == (want[x] is None) and (got[x] is None or abs(got[x] - want[x]) < 2e-6) for x in want)
                        ctx.check(ok, "stored-times", "the times of a stored record are not those of the run", got=got, want=want, **how)
                        ctx.saw("stored_times")
                ctx.saw("stored")
            ctx.sig("run", e, z.action, d and d["outcome"], model.__name__)


def local(ctx):
    scenario(ctx, ["main", "async", "async"], ctx.rng.randint(1, 4), 12)


def threads(ctx):
    scenario(ctx, ["thread", "thread", "async"], ctx.rng.randint(1, 3), 10)


def processes(ctx):
    scenario(ctx, ["process", "process", "async"], ctx.rng.randint(1, 3), 7)


def clocks(ctx):
    "Sessions one after another in the same process, each with its own time (as when testing), logging with the same logger"
    rng = ctx.rng
    basename = f"rvmc{ctx.index}.task"
    sched = f"rvmc{ctx.index}.scheduler"
    for name in (basename, sched):
        logging.getLogger(name).propagate = False
    logging.getLogger(sched).addHandler(logging.NullHandler())
    shared = MemoryRepo(model=RunRecord) if rng.random() < 0.5 else None
    try:
        for life in range(rng.randint(2, 5)):
            own = rng.random() < 0.75
            clock = Clock(1.6e9 + rng.randint(-2 * 10 ** 8, 2 * 10 ** 8)) if own else None
            now = clock.peek if own else time.time
            repo = shared or MemoryRepo(model=RunRecord)
            app = Rocketry(config=dict(task_logger_basename=basename, scheduler_logger_basename=sched, execution="main", time_func=clock.now if own else None), logger_repo=repo)
            before = len(repo.filter_by().all())
            outcomes = {}

            def body(task=rocketry.args.Task()):
                if outcomes[task.name] == "fail":
                    raise ValueError("planned")
                if outcomes[task.name] == "inaction":
                    raise TaskInactionException()
            names = [f"job{life}{i}" for i in range(rng.randint(1, 3))]
            for name in names:
                app.session.create_task(func=body, name=name)
            first = now()
            for _ in range(rng.randint(1, 3)):
                for name in names:
                    outcomes[name] = rng.choice(["success", "fail", "inaction"])
                app.session.run(*names)
                if own:
                    clock.advance(rng.uniform(1, 1e6))
            last = now()
            recs = repo.filter_by().all()[before:]
            ctx.check(len(recs) > 0, "no-records", "nothing was logged")
            for rec in recs:
                ctx.check(first - NEAR <= rec.created <= last + NEAR, "foreign-time", "a record was logged with the time of another session", life=life, own=own, created=rec.created, first=first, last=last)
                ctx.saw("clock_records")
            for name in names:
                task = app.session[name]
                mine = [r for r in recs if r.task_name == name]
                ctx.eq(task.status, mine[-1].action, "status", "the status is not that of the latest record", life=life)
                for action in ("run", "success", "fail", "inaction"):
                    want = [r.created for r in mine if r.action == action]
                    got = stamp(getattr(task, f"last_{action}"))
                    ctx.check((got is None) == (not want) and (got is None or abs(got - want[-1]) < 0.05), "time", "a latest time is not that of the record", life=life, action=action, got=got, want=want[-1:], own=own)
            ctx.sig("clocks", life > 0, own, shared is None, len(names))
            ctx.saw("clock_sessions")
    finally:
        for name in (basename, sched):
            lg = logging.root.manager.loggerDict.pop(name, None)
            if lg is not None:
                lg.handlers.clear()


def settings(ctx):
    "Threads of tasks end while the settings of the tasks are being changed on the main thread"
    rng = ctx.rng
    app = App(Clock(), execution="thread", cycle_sleep=0.0005, multilaunch=False)
    session = app.session
    gates, outcomes, names = {}, {}, [f"t{i}" for i in range(rng.randint(1, 3))]

    def body(name):
        gates[name].wait(30)
        if outcomes[name] == "fail":
            raise ValueError("planned")
        if outcomes[name] == "inaction":
            raise TaskInactionException()
    for name in names:
        app.add(lambda name=name: body(name), name)
    n_rounds = rng.randint(3, 8)
    wrote = {}

    def before(n):
        for name in names:
            gates[name], outcomes[name] = threading.Event(), rng.choice(["success", "fail", "inaction"])
            session[name].run()

    def after(n):
        "The runs are alive: let them end while the settings are changed"
        threads = {name: [r.task for r in session[name]._run_stack if r.is_alive()] for name in names}
        for name in names:
            gates[name].set()
        k, end = 0, time.monotonic() + 20
        while time.monotonic() < end and any(t.is_alive() for ts in threads.values() for t in ts):
            k += 1
            for name in names:
                task = session[name]
                for attr, value in (("priority", k % 7), ("description", f"text {k}"), ("timeout", 1000 + k), ("disabled", bool(k % 2))):
                    setattr(task, attr, value)
                wrote[name] = k
        for name in names:
            task = session[name]
            rec = [r for r in app.tap.recs if r.task == name][-1]
            how = dict(task=name, round=n, assigned=wrote.get(name))
            ctx.eq(rec.action, outcomes[name], "settings-record", "the run has another outcome in the log", **how)
            ctx.eq(task.status, rec.action, "settings-status", "the status is not that of the latest record though the run has ended", **how)
            got = stamp(getattr(task, f"last_{rec.action}"))
            ctx.check(got is not None and abs(got - rec.created) < 0.05, "settings-time", "the latest time is not that of the latest record", got=got, want=rec.created, **how)
            if name in wrote:
                k = wrote[name]
                now = (task.priority, task.description, task.timeout.total_seconds(), task.disabled)
                ctx.check(now == (k % 7, f"text {k}", 1000 + k, bool(k % 2)), "settings-lost", "a setting that was set while a run ended is not what was set", got=now, k=k, **how)
            ctx.saw("ended_while_setting")
            ctx.sig("settings", outcomes[name], len(names), min(wrote.get(name, 0), 5))
    app.at_cycle(before)
    app.after_cycle(after)
    app.stop_after(cycles=n_rounds)
    interval = sys.getswitchinterval()
    sys.setswitchinterval(rng.choice([1e-6, 1e-5, 1e-4]))
    try:
        out = app.serve(real_yield=0.0001)
    finally:
        sys.setswitchinterval(interval)
        for gate in gates.values():
            gate.set()
    if out.exception is not None:
        raise out.exception
    if out.stopped:
        ctx.inconclusive(out.stopped)
    app.close()


KINDS = {"settings": (settings, 60, 1000), "clocks": (clocks, 60, 800), "local": (local, 350, 5000), "threads": (threads, 160, 2500), "processes": (processes, 50, 700)}
FLOORS = {"clock_sessions": 150, "ends_async": 1300, "ends_main": 550, "ends_process": 90, "ends_thread": 450, "inside": 1000, "judged": 13000, "judged_overlapping": 800, "long_runs": 1500, "status_None": 1500, "status_fail": 1500,
          "status_inaction": 800, "status_run": 4000, "status_success": 1600, "status_terminate": 2500, "stored": 2500, "stored_times": 1500}
