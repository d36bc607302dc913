import asyncio
import functools
import json
import os
import shutil
import tempfile
import threading
import weakref

from rocketry import Session as NewSession
from rocketry.args import Arg, Config, Session, SimpleArg, Task
from rocketry.conditions import FuncCond, SchedulerCycles
from rocketry.exc import TaskInactionException, TaskTerminationException
from rocketry.tasks import CodeTask, FuncTask
from rvm.runs import PlannedError
from rvm.sim import App, Clock

ID = "P24"
RULE = ("random numbers of plain and generator hooks (functions, partials, methods) of startup, cycle, shutdown, task creation and execution, asking random arguments, over sessions with restarts and main, "
        "async, thread and process tasks of every outcome, and tasks created in many ways into two sessions; the trace of hook parts, bodies and starts is checked against a bracket grammar; "
        "distinct: (kind of hook, plain/generator, number, argument, outcome, execution)")
ASSUMES = ["hooks themselves do not raise"]

KINDS_OF = ("startup", "cycle", "shutdown", "init", "execute")


class Trace:
    """What happened, in order. Child processes write to a file of their own"""

    def __init__(self, dir):
        self.dir, self.pid = dir, os.getpid()
        self.events = []
        self.lock = threading.Lock()
        self.keep = []

    def unit(self):
        "Identifies the run the hook is called in"
        try:
            t = asyncio.current_task()
        except RuntimeError:
            t = None
        self.keep.append(t)
        return f"{os.getpid()}-{threading.get_ident()}-{id(t)}"

    def add(self, *what):
        with self.lock:
            self.events.append(what)
            if os.getpid() != self.pid:
                with open(os.path.join(self.dir, f"{os.getpid()}.jsonl"), "a") as f:
                    f.write(json.dumps(what) + "\n")

    def read(self):
        for fn in sorted(os.listdir(self.dir)):
            for line in open(os.path.join(self.dir, fn)):
                self.events.append(tuple(json.loads(line)))


_traces = weakref.WeakSet()


def unlock():
    for trace in list(_traces):
        trace.lock = threading.Lock()


os.register_at_fork(after_in_child=unlock)


OUTCOME = {"success": None, "fail": "PlannedError", "inaction": "TaskInactionException", "terminate": "TaskTerminationException", "fail-key": "KeyError", "cancelled": "CancelledError"}


def end(outcome):
    if outcome == "fail":
        raise PlannedError("planned")
    if outcome == "fail-key":
        raise KeyError("planned")
    if outcome == "inaction":
        raise TaskInactionException()
    if outcome == "terminate":
        raise TaskTerminationException()


def make_hook(rng, trace, session, kind, number):
    "-> (hook, is generator, argument it asks)"
    gen = rng.random() < 0.6
    arg = rng.choice(["none", "session", "config", "value"] + (["task"] if kind in ("init", "execute") else []) + (["arg"] if kind in ("init", "execute") else []))
    default = {"none": None, "session": Session(), "config": Config(), "value": SimpleArg(f"v{number}"), "task": Task(), "arg": Arg("par")}[arg]
    ident = f"{kind}{number}"

    def tell(x):
        if arg == "session":
            return x is session
        if arg == "config":
            return x is session.config
        if arg == "value":
            return x == f"v{number}"
        if arg == "arg":
            return x == "session parameter"
        if arg == "task":
            return getattr(x, "name", "unnamed") if kind == "execute" else id(x)
        return x is None

    def outcome(sent):
        if kind == "execute":
            if not isinstance(sent, tuple) or len(sent) != 3:
                return f"? {sent!r}"
            return None if sent == (None, None, None) else sent[0].__name__ if isinstance(sent[1], sent[0]) else f"? {sent!r}"
        return None

    if gen:
        def hook(x=default):
            trace.add("pre", kind, ident, trace.unit(), tell(x))
            sent = yield
            trace.add("post", kind, ident, trace.unit(), tell(x), outcome(sent))
        if rng.random() < 0.15:
            def hook(x=default):        # noqa: one that yields twice: the rest of it is nobody's business
                trace.add("pre", kind, ident, trace.unit(), tell(x))
                sent = yield
                trace.add("post", kind, ident, trace.unit(), tell(x), outcome(sent))
                yield
                trace.add("again", kind, ident)
    else:
        def hook(x=default):
            trace.add("pre", kind, ident, trace.unit(), tell(x))
    form = rng.choice(["func", "func", "partial", "method"])
    if form == "partial":
        inner = hook
        if gen:
            def base(junk, x=default):
                return (yield from inner(x))
        else:
            def base(junk, x=default):
                return inner(x)
        hook = functools.partial(base, 1)
    elif form == "method":
        inner = hook
        if gen:
            class Owner:
                def hook(self, x=default):
                    return (yield from inner(x))
        else:
            class Owner:
                def hook(self, x=default):
                    return inner(x)
        hook = Owner().hook
    return hook, gen, arg


def scenario(ctx, execs):
    rng = ctx.rng
    dir = tempfile.mkdtemp(prefix="rvm-")
    trace = Trace(dir)
    _traces.add(trace)
    clock = Clock()
    app = App(clock, cycle_sleep=rng.choice([0.01, 0.1]), restarting="recall", multilaunch=False, timeout=1e9, max_process_count=50)
    session = app.session
    session.parameters["par"] = "session parameter"
    other = NewSession(task_logger_basename=app.basename, scheduler_logger_basename="rvm.scheduler")
    other.parameters["par"] = "session parameter"
    if rng.random() < 0.5:
        # which one is the default should make no difference
        other.set_as_default()
    hooks = {k: [] for k in KINDS_OF}
    hooks["init-other"] = []

    def register(kind, s=session):
        key = kind if s is session else "init-other"
        hook, gen, arg = make_hook(rng, trace, s, kind, f"{len(hooks[key])}{'x' if s is other else ''}")
        hooks[key].append((f"{kind}{len(hooks[key])}{'x' if s is other else ''}", gen, arg))
        way = {"startup": rng.choice([s.hook_startup, app.app.setup]), "cycle": s.hook_scheduler_cycle, "shutdown": s.hook_shutdown, "init": s.hook_task_init, "execute": s.hook_task_execute}[kind]
        if kind == "startup" and rng.random() < 0.3:
            app.app.setup(hook)
        else:
            way()(hook)
        ctx.saw(f"hooks_{kind}")
        ctx.sig("hook", kind, gen, arg)

    try:
        for kind in ("execute", "startup", "cycle", "shutdown"):
            for _ in range(rng.choice([0, 1, 1, 2, 4])):
                register(kind)
        flags, conf, bodies = {}, {}, {}

        def body(name, execution):
            if execution == "async":
                async def run(outcome="success"):
                    trace.add("enter", name, trace.unit())
                    try:
                        for _ in range(rng.choice([0, 1, 5, 20])):
                            await asyncio.sleep(0.02)
                    except asyncio.CancelledError:
                        trace.add("exit", name, trace.unit(), "cancelled")
                        raise
                    trace.add("exit", name, trace.unit(), outcome)
                    end(outcome)
            else:
                def run(outcome="success"):
                    trace.add("enter", name, trace.unit())
                    trace.add("exit", name, trace.unit(), outcome)
                    end(outcome)
            return run
        n_tasks = rng.randint(2, 6)
        creations = []
        for i in range(n_tasks):
            # hooks are registered and tasks created in turns
            if rng.random() < 0.5:
                register("init")
            if rng.random() < 0.3:
                register("init", other)
            where = session if rng.random() < 0.75 else other
            e, name = rng.choice(execs), f"t{i}"
            mark = len(trace.events)
            want = hooks["init" if where is session else "init-other"][:]
            func = body(name, e)
            way = rng.choice(["create", "decorator", "class", "code"])
            kw = dict(name=name, execution=e)
            if where is session:
                flags[name] = False
                conf[name] = e
                role = rng.choice(["normal", "normal", "normal", "on_startup", "on_shutdown"])
                if role != "normal":
                    kw[role] = True
                kw["start_cond"] = FuncCond(lambda name=name: flags[name])
                bodies[name] = role
            if way == "create":
                where.create_task(func=func, **kw)
            elif way == "decorator":
                where.create_task(**kw)(func)
            elif way == "class":
                FuncTask(func, session=where, **kw)
            else:
                if where is session:
                    FuncTask(session=where, **kw)(func)
                else:
                    CodeTask(code="x = 1", session=where, **kw)
            got = trace.events[mark:]
            task = where[name]
            expect = [("pre", "init", ident) for ident, _, _ in want] + [("post", "init", ident) for ident, gen, _ in want if gen]
            ctx.check([g[:3] for g in got] == expect, "init", "the hooks of creating a task were not called once each in order", got=[g[:3] for g in got], want=expect, way=way, session="own" if where is session else "other")
            args = {ident: arg for ident, _, arg in want}
            for g in got:
                ok = g[4] == id(task) if args.get(g[2]) == "task" else g[4] is True
                ctx.check(ok, "init-argument", "a hook of creating a task did not get what it asked", hook=g[2], asked=args.get(g[2]), way=way)
            ctx.saw("creations")
            creations.append(way)
        mark = len(trace.events)
        lives, cycles = rng.choice([1, 1, 2]), rng.randint(1, 6)
        state = {"life": 0}

        # after the hooks of the user: what starts, and when
        class Starts:
            pass
        tap_emit = app.tap.emit

        def emit(record):
            tap_emit(record)
            if getattr(record, "action", None) == "run":
                trace.add("start", record.task_name)
        app.tap.emit = emit

        def before(n):
            for name in flags:
                flags[name] = rng.random() < 0.6
                if flags[name]:
                    session[name].parameters["outcome"] = rng.choice([o for o in OUTCOME if o != "cancelled"])

        def after(n):
            for name in flags:
                if conf[name] == "async" and rng.random() < 0.15:
                    session[name].terminate()
            if n >= cycles:
                app.cycles = 0
                state["life"] += 1
                if state["life"] < lives:
                    session.restart()
                else:
                    session.shut_down()
        app.at_cycle(before)
        app.after_cycle(after)
        for name in flags:
            flags[name] = rng.random() < 0.7
        procs = "process" in execs
        out = app.serve(real_yield=0.002 if procs else 0.0003 if "thread" in execs else 0)
        app.close()
        if out.exception:
            raise out.exception
        if out.stopped:
            ctx.inconclusive(out.stopped)
        main = trace.events[mark:]
        trace.read()
        everything = trace.events[mark:]
        ctx.sample({"hooks": {k: len(v) for k, v in hooks.items()}, "tasks": conf, "lives": lives, "cycles": cycles})

        # -- the scheduler: startup (cycle)* shutdown, each with its brackets
        seq = [e for e in main if (e[0] in ("pre", "post") and e[1] in ("startup", "cycle", "shutdown")) or e[0] == "start"]
        pos = 0

        def expect(part, kind):
            nonlocal pos
            want = [(part, kind, ident) for ident, gen, _ in hooks[kind] if part == "pre" or gen]
            while pos < len(seq) and seq[pos][0] == "start" and want:
                pos += 1
            got = [e[:3] for e in seq[pos:pos + len(want)]]
            ok = ctx.check(got == want, f"{kind}-{part}", f"the hooks of {kind} ({part}) were not called once each in order at the right time", got=got, want=want, at=pos, life=life, trace=[e[:3] for e in seq[max(0, pos - 6):pos + 8]])
            for e in seq[pos:pos + len(want)]:
                if ok:
                    ctx.check(e[4] is True, f"{kind}-argument", "a hook did not get what it asked", event=e)
            ctx.saw(f"{kind}_{part}", len(want))
            pos += len(want)
            return ok

        def between(kind, roles):
            nonlocal pos
            n = pos
            while n < len(seq) and seq[n][0] == "start":
                ctx.check(bodies[seq[n][1]] in roles, f"{kind}-inside", f"a task was started on the wrong side of the hooks of {kind}", task=seq[n][1], role=bodies[seq[n][1]])
                ctx.saw(f"starts_in_{kind}")
                n += 1

        phases = [("startup", ("on_startup",)), *[("cycle", ("normal",))] * cycles, ("shutdown", ("on_shutdown",))]
        good = True
        for life in range(lives):
            for kind, roles in phases:
                if not hooks[kind]:
                    # nothing marks the phase
                    continue
                loose = any(not hooks[k] for k in ("startup", "cycle", "shutdown")) or any(not any(g for _, g, _ in hooks[k]) for k in ("startup", "cycle", "shutdown")) or procs
                good = good and expect("pre", kind)
                if good and not loose:
                    between(kind, roles)
                if any(gen for _, gen, _ in hooks[kind]):
                    good = good and expect("post", kind)
        if good:
            rest = [e for e in seq[pos:] if e[0] != "start"]
            ctx.check(not rest, "extra", "hooks of the scheduler were called too many times", rest=rest)
        ctx.check(not any(e[0] == "again" for e in everything), "resumed", "a hook was resumed twice")

        # -- the runs: all pre, body, all post - in the thread, process and task of the run
        units = {}
        for e in everything:
            if e[0] in ("enter", "exit"):
                units.setdefault(e[2], []).append(e)
            elif e[0] in ("pre", "post") and e[1] == "execute":
                units.setdefault(e[3], []).append(e)
        # a thread or a task may serve several runs (main): split by the bodies
        runs = sum(r.action == "run" for r in app.tap.recs)
        n = told = 0
        pres = [("pre", ident) for ident, _, _ in hooks["execute"]]
        posts = [("post", ident) for ident, gen, _ in hooks["execute"] if gen]
        args = {ident: arg for ident, _, arg in hooks["execute"]}
        size = len(pres) + len(posts) + 2
        for unit, es in units.items():
            ctx.check(len(es) % size == 0, "execute-count", "the hooks of a run were not called once each", events=[(e[0], e[1] if e[0] in ("enter", "exit") else e[2]) for e in es], hooks=pres + posts)
            for k in range(0, len(es) - len(es) % size, size):
                run = es[k:k + size]
                n += 1
                inner = [e for e in run if e[0] in ("enter", "exit")]
                if len(inner) != 2:
                    ctx.fail("execute-bracket", "the hooks of a run are not around it", events=run)
                    continue
                name, outcome = inner[0][1], inner[1][3]
                got = [(e[0], e[1] if e[0] in ("enter", "exit") else e[2]) for e in run]
                want = pres + [("enter", name), ("exit", name)] + posts
                ctx.check(got == want, "execute-bracket", "the hooks of a run were not called once each, in order, around it", got=got, want=want, execution=conf[name], outcome=outcome)
                for e in run:
                    if e[0] in ("pre", "post"):
                        ok = e[4] == name if args[e[2]] == "task" else e[4] is True
                        ctx.check(ok, "execute-argument", "a hook of a run did not get what it asked", event=e, asked=args[e[2]], task=name, execution=conf[name])
                    if e[0] == "post":
                        ctx.check(e[5] == OUTCOME[outcome], "execute-outcome", "a hook did not get the outcome of the run", got=e[5], want=OUTCOME[outcome], execution=conf[name])
                        ctx.saw("outcomes_told")
                ctx.saw(f"runs_{conf[name]}")
                ctx.saw(f"outcome_{outcome}")
                told += outcome in ("terminate", "cancelled")
                ctx.sig("run", conf[name], outcome, len(pres), len(posts))
        # (a task can be cancelled before it gets to begin)
        unbegun = sum(r.action == "terminate" for r in app.tap.recs) - told
        ctx.check(n + unbegun == runs, "execute-runs", "there are runs without their hooks or hooks without a run", bracketed=n, runs=runs, cancelled_before=unbegun)
    finally:
        session.set_as_default()
        shutil.rmtree(dir, ignore_errors=True)


def local(ctx):
    scenario(ctx, ["main", "async", "async"])


def threads(ctx):
    scenario(ctx, ["thread", "async"])


def processes(ctx):
    scenario(ctx, ["process", "thread"])


KINDS = {"local": (local, 500, 8000), "threads": (threads, 200, 3000), "processes": (processes, 60, 800)}
FLOORS = {"creations": 1100, "cycle_post": 1200, "cycle_pre": 2000, "hooks_init": 900, "outcomes_told": 1400, "runs_async": 700, "runs_main": 350, "runs_process": 60, "runs_thread": 280, "shutdown_post": 350,
          "shutdown_pre": 600, "starts_in_cycle": 200, "starts_in_shutdown": 20, "starts_in_startup": 20, "startup_post": 300, "startup_pre": 500, "outcome_cancelled": 30, "outcome_terminate": 200}
