import asyncio
import multiprocessing
import threading
import time

from rocketry.args import Arg, FuncArg, TerminationFlag
from rocketry.conditions import FuncCond
from rocketry.exc import TaskSetupError, TaskTerminationException
from rvm.runs import PlannedError, OddError
from rvm.sim import App, Clock

ID = "P19"
RULE = ("healthy control tasks of every execution type whose triggers flip on each cycle, beside tasks that fail at random cycles in their body, in forming an argument (of the task, of the signature, of the "
        "session or of the call), in their start or end condition, or by a missing or surplus argument; silenced: each control task must start exactly when triggered and the faulty ones be recorded as "
        "failed (or not started); not silenced: one such fault is armed at one cycle while other runs are alive and the scheduler must stop on that cycle with that error, with everything ended and "
        "recorded; distinct: (place of the fault, execution, outcome, silenced, materialization)")
ASSUMES = ["a process does not end by itself while it is being terminated", "the log store accepts the records", "the hooks and the run id function do not fail"]

FAULTS = ("body", "param-task", "param-sign", "param-session", "param-call", "param-nested", "start_cond", "end_cond", "missing", "surplus")


def slow():
    time.sleep(60)


def fine():
    return 1


class Fault:
    "Something that fails when it is armed"

    def __init__(self, rng):
        self.armed = False
        self.rng = rng
        self.raised = 0

    def boom(self, *args, **kwargs):
        if self.armed:
            self.raised += 1
            raise self.error("planned fault")
        return "ok"

    def error(self, text):
        return self.rng.choice([PlannedError, KeyError, ValueError, AttributeError, RuntimeError, TypeError, OSError])(text)


def mark(exc):
    "The error the harness raised, or None"
    seen = 0
    while exc is not None and seen < 10:
        if "planned fault" in str(exc):
            return exc
        exc, seen = exc.__cause__ or exc.__context__, seen + 1
    return None


class World:
    def __init__(self, ctx, execs, config):
        self.ctx, self.rng = ctx, ctx.rng
        self.clock = Clock()
        self.app = App(self.clock, timeout=1e9, max_process_count=50, cycle_sleep=0.01, **config)
        self.session = self.app.session
        self.execs = execs
        self.trigger, self.execution, self.fault, self.kind = {}, {}, {}, {}
        self.others, self.called = set(threading.enumerate()), []
        self.config = config

    def add(self, name, kind, e):
        rng, world = self.rng, self
        self.trigger[name], self.execution[name], self.kind[name] = False, e, kind
        f = self.fault[name] = Fault(rng)
        kw = {"start_cond": FuncCond(lambda: world.trigger[name]), "parameters": {}}
        if kind == "start_cond":
            kw["start_cond"] = FuncCond(lambda: f.boom() == "ok" and world.trigger[name])
            if rng.random() < 0.5:
                kw["start_cond"] = rng.choice([lambda c: c & FuncCond(lambda: True), lambda c: ~(~c), lambda c: FuncCond(lambda: False) | c])(kw["start_cond"])
        if kind == "end_cond":
            kw["end_cond"] = FuncCond(lambda: f.boom() != "ok")
        if kind == "param-task":
            kw["parameters"] = {"x": FuncArg(f.boom)}
        if kind == "param-session":
            self.session.parameters[f"x_{name}"] = FuncArg(f.boom)
            kw["parameters"] = {}
        if kind == "param-nested":
            self.session.parameters[f"n_{name}"] = FuncArg(f.boom)
            kw["parameters"] = {"x": Arg(f"n_{name}")}
        body = self.body(name, kind, e, f)
        if kind == "surplus":
            kw["parameters"] = {"zzz": 1}
        return self.app.add(body, name, execution=e, priority=rng.randrange(4), **kw)

    def body(self, name, kind, e, f):
        world = self

        def note():
            world.called.append(name)
        if kind == "body":
            def body():
                note()
                f.boom()
        elif kind == "param-sign":
            def body(x=FuncArg(f.boom)):
                note()
        elif kind in ("param-task", "param-call", "param-nested"):
            def body(x="default"):
                note()
        elif kind == "param-session":
            ns = {"note": note}
            exec(f"def body(x_{name}):\n    note()\n", ns)
            body = ns["body"]
        elif kind == "missing":
            def body(never_given):
                note()
        else:
            def body():
                note()
        if e == "async" and kind not in ("param-session", "missing") and self.rng.random() < 0.7:
            sync = body
            if kind == "body":
                async def body():
                    note()
                    await asyncio.sleep(0)
                    f.boom()
            elif kind == "param-sign":
                async def body(x=FuncArg(f.boom)):
                    note()
            elif kind.startswith("param"):
                async def body(x="default"):
                    note()
            else:
                async def body():
                    note()
        return body

    def settle(self):
        "Wait for the threads and processes of the earlier cycle"
        end = time.monotonic() + 25
        for t in threading.enumerate():
            if t not in self.others and "Feeder" not in t.name:
                t.join(max(0, end - time.monotonic()))
        while multiprocessing.active_children() and time.monotonic() < end:
            time.sleep(0.0005)

    def raises(self, name):
        "Whether the armed fault of the task is the scheduler's to raise"
        k, e = self.kind[name], self.execution[name]
        if k in ("start_cond", "end_cond"):
            return "cond"
        if k.startswith("param"):
            if e == "main" or (e in ("thread", "process") and self.config["param_materialize"] == "pre" and k != "param-nested") :
                return "prerun"
            if e in ("thread", "process") and k == "param-nested":
                # a reference is resolved before the task is handed over
                return "prerun"
        return None


def silenced(ctx, execs, n_cycles):
    rng = ctx.rng
    w = World(ctx, execs, {"silence_cond_check": True, "silence_task_prerun": True, "param_materialize": rng.choice(["pre", "post"])})
    try:
        controls = [f"ok{i}" for i in range(rng.randint(1, 3))]
        faulty = [f"bad{i}" for i in range(rng.randint(1, 4))]
        for name in controls:
            w.add(name, "control", rng.choice(execs))
        for name in faulty:
            kind, e = rng.choice(FAULTS), rng.choice(execs)
            # (a short process would race with its termination)
            w.add(name, kind, e if (kind, e) != ("end_cond", "process") else "async")
        snap = {}

        def before(n):
            w.settle()
            last = n >= n_cycles
            for name in controls + faulty:
                w.trigger[name] = not last and rng.random() < 0.6
                w.fault[name].armed = name in faulty and not last and rng.random() < 0.5
            for name in faulty:
                if w.kind[name] == "param-call" and w.trigger[name]:
                    w.session[name].run(x=FuncArg(w.fault[name].boom))
            snap["seen"] = len(w.app.tap.recs)
            snap["want"] = {n: w.trigger[n] and not (w.kind[n] == "start_cond" and w.fault[n].armed) for n in controls + faulty}
            snap["armed"] = {n: w.fault[n].armed for n in faulty}
            snap["expect"] = snap.get("expect", [])
            snap["expect"].append((snap["want"], snap["armed"]))

        def after(n):
            new = [r for r in w.app.tap.recs[snap["seen"]:]]
            for name in controls + faulty:
                got = sum(r.action == "run" and r.task == name for r in new)
                want = int(snap["want"][name])
                ctx.check(got == want, "disturbed" if name in controls else "faulty-start",
                          "a task was not started (or was started) because another one failed" if name in controls else "a failing task should start exactly when its condition is true",
                          task=name, kind=w.kind[name], execution=w.execution[name], started=got, triggered=w.trigger[name], cycle=n, faults={b: (w.kind[b], w.execution[b], snap["armed"][b]) for b in faulty})
                ctx.saw("control_cycles", name in controls)
        w.app.at_cycle(before)
        w.app.after_cycle(after)
        w.app.stop_after(cycles=n_cycles + 2)
        slow_loop = 0.001 if "process" in execs else 0
        out = w.app.serve(max_steps=100_000, real_yield=slow_loop)
        ctx.sample({n: (w.kind[n], w.execution[n]) for n in faulty})
        if out.exception is not None:
            ctx.fail("scheduler-died", f"the scheduler died although the errors are silenced: {out.exception!r}", faults={b: (w.kind[b], w.execution[b]) for b in faulty})
            return
        if out.stopped:
            ctx.inconclusive(out.stopped)
        ctx.check(not out.unretrieved, "unretrieved", "an error of a task got lost in the event loop", errors=out.unretrieved)
        for name in controls + faulty:
            k, e = w.kind[name], w.execution[name]
            runs = {}
            for r in w.app.tap.recs:
                if r.task == name:
                    runs.setdefault(r.run_id, []).append(r)
            outcomes = [[r.action for r in rs] for rs in runs.values()]
            started = [armed.get(name) for want, armed in snap["expect"] if want[name]]
            if not ctx.check(all(len(o) == 2 and o[0] == "run" for o in outcomes) and len(outcomes) == len(started), "records",
                             "a run is not logged once as started and once as ended", task=name, kind=k, execution=e, records=outcomes[:8], expected=len(started)):
                continue
            for o, armed in zip(outcomes, started):
                if k == "end_cond":
                    good = o[1] in ("success", "terminate")
                    if e in ("main",):
                        good = o[1] == "success"
                elif k in ("missing", "surplus"):
                    good = o[1] == "fail"
                elif k in ("control", "start_cond") or not armed:
                    good = o[1] == "success"
                else:
                    good = o[1] == "fail"
                ctx.check(good, "outcome", "a failing task is not recorded as it ended", task=name, kind=k, execution=e, outcome=o[1], armed=armed, materialize=w.config["param_materialize"])
                ctx.saw(f"faults_{k}", bool(armed))
                ctx.saw(f"runs_{e}")
                ctx.sig(k, e, o[1], True, w.config["param_materialize"])
            if e not in ("process",) and k.startswith("param"):
                calls = w.called.count(name)
                good = sum(1 for armed in started if not armed)
                ctx.check(calls == good, "called", "the function was called although its argument could not be formed (or was not called)", task=name, kind=k, execution=e, calls=calls, wanted=good)
    finally:
        w.settle()
        w.app.close()


def stops(ctx, execs, n_cycles):
    "Not silenced"
    rng = ctx.rng
    which = rng.choice(["cond", "prerun", "none"])
    w = World(ctx, execs, {"silence_cond_check": which != "cond", "silence_task_prerun": which != "prerun", "param_materialize": rng.choice(["pre", "post"])})
    try:
        names = ["bad", "ok0", "ok1"]
        for _ in range(200):
            kind, e = rng.choice(FAULTS[:8]), rng.choice(execs)
            w.kind["bad"], w.execution["bad"] = kind, e
            if (kind, e) == ("end_cond", "process"):
                continue
            r = w.raises("bad")
            if (which == "none") == (r is None) and (which == "none" or r == which):
                break
        else:
            return
        w.add("bad", kind, e)
        for name in names[1:]:
            w.add(name, "control", rng.choice([x for x in execs if x != "process"]))
        # long runs to be closed down
        long = {}
        ended = []

        async def forever():
            try:
                await asyncio.sleep(1e6)
            finally:
                ended.append("async")

        def listen(flag=TerminationFlag()):
            long["thread"] = threading.current_thread()
            if flag.wait(20):
                ended.append("thread")
                raise TaskTerminationException("planned")
        longs = {}
        for le, body in (("async", forever), ("thread", listen), ("process", slow)):
            if le in execs and rng.random() < 0.6:
                w.app.add(body, f"long-{le}", execution=le, priority=rng.randrange(4))
                w.session[f"long-{le}"].run()
                longs[f"long-{le}"] = le
        hook = {"down": 0}
        if rng.random() < 0.5:
            w.app.add(lambda: hook.__setitem__("down", hook["down"] + 1), "closing", execution="main", on_shutdown=True)
            shut = 1
        else:
            shut = 0
        at = rng.randint(2, n_cycles)
        state = {"n": 0}

        def before(n):
            if not longs:
                w.settle()
            state["n"] = n
            for name in names:
                w.trigger[name] = rng.random() < 0.6 and n <= n_cycles
                w.fault[name].armed = False
            if n == at:
                w.trigger["bad"] = True
                w.fault["bad"].armed = True
                if kind == "param-call":
                    w.session["bad"].run(x=FuncArg(w.fault["bad"].boom))
            elif kind == "param-call":
                w.trigger["bad"] = False
            if longs and n < at:
                # keep to what surely can run at the cycle of the fault
                w.trigger["bad"] = False
            state["seen"] = len(w.app.tap.recs)

        def after(n):
            state["finished"] = n
            w.fault["bad"].armed = False
        w.app.at_cycle(before)
        w.app.after_cycle(after)
        w.app.stop_after(cycles=n_cycles + 2)

        @w.app.after_cycle
        def end_longs(n):
            if n >= n_cycles + 2:
                for name in longs:
                    w.session[name].terminate()
        out = w.app.serve(max_steps=100_000, real_yield=0.001 if "process" in execs else 0)
        how = dict(kind=kind, execution=e, materialize=w.config["param_materialize"], cycle=state["n"], armed_at=at, exception=repr(out.exception), longs=sorted(longs))
        ctx.sample({k: str(v) for k, v in how.items()})
        if out.stopped:
            ctx.inconclusive(out.stopped)
        if which == "none":
            ctx.check(out.exception is None, "scheduler-died", "the scheduler died of a failure of a task", **how)
            ctx.saw("body_failures")
        else:
            if not ctx.check(out.exception is not None and state["n"] == at and state["finished"] == at - 1, "not-stopped", "the scheduler did not stop on an error that is not silenced", **how):
                return
            ctx.check(mark(out.exception) is not None, "other-error", "the scheduler stopped with another error", **how)
            if which == "prerun":
                ctx.check(isinstance(out.exception, TaskSetupError), "error-type", "an error before the run should come out as a setup error of the task", **how)
            ctx.saw("stopped_" + which)
            ctx.saw("stopped_with_runs", bool(longs))
            for name, le in longs.items():
                acts = [r.action for r in w.app.tap.recs if r.task == name]
                if acts:
                    ctx.check(acts == ["run", "terminate"], "not-closed", "a run that was alive when the scheduler stopped for an error is not recorded as terminated", task=name, records=acts, **how)
                    ctx.saw("closed_" + le)
        ctx.check(hook["down"] == shut, "shutdown-task", "the shutdown task should run once also when the scheduler stops for an error", runs=hook["down"], **how)
        ctx.check(not w.session.scheduler.is_alive, "is-alive", "the scheduler says to be alive after having stopped", **how)
        alive = [n for n in w.trigger if w.session[n].is_alive()] + [n for n in longs if w.session[n].is_alive()]
        ctx.check(not alive, "left-alive", "runs were left alive when the scheduler stopped", alive=alive, **how)
        ctx.check("thread" not in long or not long["thread"].is_alive(), "thread-left", "a thread of a task was left running", **how)
        ctx.check(not multiprocessing.active_children(), "process-left", "a process of a task was left running", **how)
        runs = {}
        for r in w.app.tap.recs:
            runs.setdefault((r.task, r.run_id), []).append(r.action)
        for key, acts in runs.items():
            ctx.check(len(acts) == 2 and acts[0] == "run", "records", "a run is not logged once as started and once as ended", run=key, records=acts, **how)
        if which == "prerun":
            last = [r.action for r in w.app.tap.recs if r.task == "bad"][-2:]
            ctx.check(last == ["run", "fail"], "not-failed", "the run that could not be formed is not recorded as failed", records=last, **how)
        ctx.sig(kind, e, which, sorted(longs.values()), w.config["param_materialize"])
    finally:
        for p in multiprocessing.active_children():
            p.kill()
        w.settle()
        w.app.close()


def local(ctx):
    silenced(ctx, ["main", "async"], 12)


def threads(ctx):
    silenced(ctx, ["thread", "thread", "main", "async"], 10)


def processes(ctx):
    silenced(ctx, ["process", "process", "async", "thread", "main"], 6)


def stops_local(ctx):
    stops(ctx, ["main", "async"], 6)


def stops_threads(ctx):
    stops(ctx, ["main", "async", "thread"], 6)


def stops_processes(ctx):
    stops(ctx, ["process", "thread", "async", "main"], 4)


KINDS = {"local": (local, 400, 5000), "threads": (threads, 200, 3000), "processes": (processes, 60, 800),
         "stops_local": (stops_local, 400, 5000), "stops_threads": (stops_threads, 250, 3000), "stops_processes": (stops_processes, 80, 800)}
FLOORS = {'body_failures': 90, 'closed_async': 120, 'closed_process': 14, 'closed_thread': 55, 'control_cycles': 6700, 'faults_body': 190, 'faults_end_cond': 200, 'faults_missing': 200, 'faults_param-call': 200, 'faults_param-nested': 160, 'faults_param-session': 200, 'faults_param-sign': 150, 'faults_param-task': 170, 'faults_surplus': 160, 'runs_async': 2800, 'runs_main': 2800, 'runs_process': 120, 'runs_thread': 980, 'stopped_cond': 100, 'stopped_prerun': 99, 'stopped_with_runs': 145}
