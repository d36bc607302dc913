import asyncio
import json
import os
import shutil
import tempfile
import threading
import time
from typing import Any, Optional

from rocketry.core import Task
from rocketry.exc import TaskInactionException, TaskTerminationException
from rocketry.tasks import FuncTask
from rvm.sim import App, Clock

ID = "P31"
RULE = ("task classes of the user (over Task and FuncTask, sync and async execute, with own success, failure, finish, filter and naming methods) run on every execution type with every outcome, errors raised in the own methods, "
        "terminations and batches; per run the methods must be called exactly once as the run ended, with its return value, error or status, and the filters must have decided what the run got; "
        "distinct: (base, execution, outcome, method that raises, filter, ended as)")
ASSUMES = ["runs of one task do not overlap (the methods are not told which run they are called for)", "a terminated process calls nothing"]

OUTCOMES = ("success", "success", "none", "fail", "inaction", "terminate", "hang")
STATUS = {"success": "succeeded", "fail": "failed", "inaction": "inaction", "terminate": "termination"}


class OwnError(Exception):
    pass


class Book:
    "What the methods were called with, in this process or in those of the tasks"

    def __init__(self):
        self.pid, self.lock, self.events = os.getpid(), threading.Lock(), []
        self.dir = tempfile.mkdtemp(prefix="rvm-")
        self.open = set()

    def note(self, task, what, value):
        place = "process" if os.getpid() != self.pid else "main" if threading.current_thread() is threading.main_thread() else "thread"
        if place == "process":
            with open(os.path.join(self.dir, f"events-{os.getpid()}"), "a") as f:
                f.write(json.dumps([task, what, value, place]) + "\n")
        else:
            with self.lock:
                self.events.append([task, what, value, place])

    def of(self, task):
        "(of processes in the order of the runs: they do not overlap)"
        out = [e for e in self.events if e[0] == task]
        names = [n for n in os.listdir(self.dir) if n.startswith("events-")]
        for name in sorted(names, key=lambda n: os.stat(os.path.join(self.dir, n)).st_mtime_ns):
            with open(os.path.join(self.dir, name)) as f:
                out += [e for e in map(json.loads, f) if e[0] == task]
        return out


def classes(book):
    def perform(name, token, outcome, params):
        book.note(name, "execute", {"token": token, **params})
        if outcome == "success":
            return f"out-{token}"
        if outcome == "fail":
            raise OwnError(token)
        if outcome == "inaction":
            raise TaskInactionException()
        if outcome == "terminate":
            raise TaskTerminationException()

    class Calls:
        def process_success(self, output):
            book.note(self.name, "success", output)
            if self.breaks == "success":
                raise OwnError("success method")

        def process_failure(self, exc_type, exc_val, exc_tb):
            book.note(self.name, "failure", [exc_type.__name__, str(exc_val), exc_tb is not None])
            if self.breaks == "failure":
                raise OwnError("failure method")

        def process_finish(self, *args, **kwargs):
            book.note(self.name, "finish", [*args, *kwargs.values()])
            super().process_finish(*args, **kwargs)

        def prefilter_params(self, params):
            book.note(self.name, "pre", sorted(k for k in params.keys() if not k.startswith("_")))
            params = super().prefilter_params(params)
            if self.filters == "pre":
                return {k: v for k, v in params.items() if k != "shared"}
            return params

        def postfilter_params(self, params):
            book.note(self.name, "post", sorted(k for k in params.keys() if not k.startswith("_")))
            params = super().postfilter_params(params)
            if self.filters == "post":
                return {k: (f"filtered {v}" if k == "shared" else v) for k, v in params.items()}
            return params

        def get_default_name(self, number=None, **kwargs):
            return f"{type(self).__name__} {number}"

    class Sync(Calls, Task):
        breaks: Optional[str]
        filters: Optional[str]
        number: int = 0

        def execute(self, token, outcome, own="default", shared="missing"):
            if outcome == "hang":
                end = time.monotonic() + 30
                while token not in book.open and time.monotonic() < end and book.pid == os.getpid():
                    time.sleep(0.0005)
            return perform(self.name, token, outcome, {"own": own, "shared": shared})

    class Async(Calls, Task):
        breaks: Optional[str]
        filters: Optional[str]
        number: int = 0

        async def execute(self, token, outcome, own="default", shared="missing"):
            while outcome == "hang" and token not in book.open and book.pid == os.getpid():
                await asyncio.sleep(0.05)
            return perform(self.name, token, outcome, {"own": own, "shared": shared})

    class Func(Calls, FuncTask):
        breaks: Optional[str]
        filters: Optional[str]
        number: int = 0

    return Sync, Async, Func, perform


def scenario(ctx, execs, n_tasks, n_cycles):
    rng = ctx.rng
    book = Book()
    app = App(Clock(), execution="main", multilaunch=False, max_process_count=20, cycle_sleep=rng.choice([0.01, 0.1]), timeout=1e9)
    session = app.session
    procs = "process" in execs
    try:
        Sync, Async, Func, perform = classes(book)
        session.parameters["shared"] = "session value"
        session.parameters["unused"] = "never"
        plan, runs = {}, {}
        for i in range(n_tasks):
            e, base = rng.choice(execs), rng.choice([Sync, Async, Func])
            named = rng.random() < 0.5
            kw = dict(breaks=rng.choice([None, None, None, "success", "failure"]), filters=rng.choice([None, None, "pre", "post"]), execution=e, session=session, number=i, priority=rng.randrange(2))
            if named:
                kw["name"] = f"task {i}"
            if rng.random() < 0.5:
                kw["parameters"] = {"own": f"of the task {i}"}
            if base is Func:
                def func(token, outcome, own="default", shared="missing", i=i):
                    return perform(plan_name[i], token, outcome, {"own": own, "shared": shared})
                kw["func"] = func
            task = base(**kw)
            name = kw.get("name") or (f"{base.__name__} {i}")
            plan_name[i] = name
            if not ctx.check(task.name == name and session[name] is task, "name", "a task of an own class is not in the session with the name it gives", got=task.name, want=name):
                return
            plan[name] = dict(kw, base=base.__name__, hangs=base is Async and e == "async" or base is Sync and e == "thread", task=task)
            runs[name] = []
        count = [0]

        def before(n):
            for name, p in plan.items():
                live = [t for t in runs[name] if t["token"] in {r.run_id for r in app.tap.recs if r.task == name and r.action == "run"} and not t.get("ended")]
                ended = {r.run_id for r in app.tap.recs if r.task == name and r.action != "run"}
                live = [t for t in live if t["token"] not in ended]
                for t in live:
                    if t["outcome"] == "hang":
                        if p["execution"] == "async" and rng.random() < 0.5 and not t.get("asked"):
                            t["asked"] = True
                            p["task"].terminate()
                        else:
                            book.open.add(t["token"])
                if n < n_cycles and not live and not p["task"].batches and rng.random() < 0.8:
                    outcome = rng.choice(OUTCOMES)
                    if outcome == "hang" and not p["hangs"]:
                        outcome = "fail"
                    count[0] += 1
                    t = dict(token=f"{name}-{count[0]}", outcome=outcome)
                    if rng.random() < 0.3:
                        t["own"] = f"of the run {count[0]}"
                    runs[name].append(t)
                    p["task"].run(**t)
            if n >= n_cycles:
                book.open.update(t["token"] for ts in runs.values() for t in ts)
        app.at_cycle(before)
        app.stop_after(cycles=n_cycles + 2)
        session.config.func_run_id = lambda task, params=None: params["token"]
        out = app.serve(max_steps=60_000, real_yield=0.002 if procs else 0.0003 if "thread" in execs else 0)
        if out.exception is not None:
            raise out.exception
        if out.stopped:
            ctx.inconclusive(out.stopped)
        ctx.sample({n: (p["base"], p["execution"], p["breaks"], p["filters"], len(runs[n])) for n, p in plan.items()})
        for name, p in plan.items():
            judge(ctx, app, book, name, p, runs[name])
    finally:
        app.close()
        shutil.rmtree(book.dir, ignore_errors=True)


plan_name = {}


def judge(ctx, app, book, name, p, runs):
    e = p["execution"]
    events = book.of(name)
    main = [x for x in events if x[1] == "pre"]
    rest = [x for x in events if x[1] != "pre"]
    pos = 0
    started = [t for t in runs if any(r.run_id == t["token"] for r in app.tap.recs)]
    ctx.check(len(main) == len(started), "pre-count", "the parameters of the runs were not filtered once a run before handing them over", calls=len(main), runs=len(started), task=name, execution=e)
    for x in main:
        ctx.check(x[3] == "main" and x[2] == ["shared", "unused"], "pre", "the filter on the main thread was called elsewhere or with something else than the parameters of the session", call=x, execution=e)
    for t in started:
        acts = [r.action for r in app.tap.recs if r.run_id == t["token"] and r.task == name]
        mine = []
        # the events of the run: up to its finish
        while pos < len(rest):
            mine.append(rest[pos])
            pos += 1
            if mine[-1][1] == "finish":
                break
        how = dict(task=name, base=p["base"], execution=e, outcome=t["outcome"], breaks=p["breaks"], filters=p["filters"], log=acts, calls=[(x[1], x[2]) for x in mine])
        outcome = t["outcome"]
        killed = bool(t.get("asked"))
        returns = f"out-{t['token']}" if outcome == "success" else None
        want, end = [], None
        if killed and "terminate" in acts:
            end = "terminate"
        elif outcome in ("success", "none", "hang"):
            want.append(["success", returns])
            end = "success"
            if p["breaks"] == "success":
                want.append(["failure", ["OwnError", "success method", True]])
                end = "fail"
        elif outcome == "fail":
            want.append(["failure", ["OwnError", t["token"], True]])
            end = "fail"
        else:
            end = outcome
        want.append(["finish", [STATUS[end]]])
        got = [[x[1], x[2]] for x in mine if x[1] in ("success", "failure", "finish")]
        ctx.check(acts == ["run", end], "log", "the end of the run in the log is not what happened", want=end, **how)
        ctx.check(got == want, "methods", "the methods were not called once as the run ended", want=want, **how)
        place = {"async": "main", "main": "main"}.get(e, e)
        ctx.check(all(x[3] == place for x in mine), "place", "the methods were called elsewhere than where the task runs", want=place, got=[x[3] for x in mine], **how)
        posts = [x[2] for x in mine if x[1] == "post"]
        # (those given to the task or the run are not the business of the filters)
        ctx.check(posts == [["shared"] if p["filters"] != "pre" else []], "post", "the filter where the task runs was not called once with what was left", got=posts, **how)
        ran = [x[2] for x in mine if x[1] == "execute"]
        if not (killed and end == "terminate"):
            own = t.get("own") or p.get("parameters", {}).get("own") or "default"
            shared = {"pre": "missing", "post": "filtered session value", None: "session value"}[p["filters"]]
            ctx.check(ran == [{"token": t["token"], "own": own, "shared": shared}], "arguments", "the run did not get what the filters let through", want=(own, shared), got=ran, **how)
        if end == "success":
            ctx.saw("successes_" + e)
        ctx.saw("runs_" + e)
        ctx.saw("ended_" + end)
        ctx.saw("broken_" + str(p["breaks"]))
        ctx.sig(p["base"], e, outcome, p["breaks"], p["filters"], end)
    ctx.check(pos == len(rest), "extra", "methods were called without a run", calls=rest[pos:], task=name, execution=e)


def local(ctx):
    scenario(ctx, ["main", "async"], ctx.rng.randint(1, 4), 12)


def threads(ctx):
    scenario(ctx, ["thread", "thread", "async"], ctx.rng.randint(1, 3), 10)


def processes(ctx):
    scenario(ctx, ["process", "process", "main"], ctx.rng.randint(1, 3), 5)


KINDS = {"local": (local, 400, 6000), "threads": (threads, 150, 2500), "processes": (processes, 60, 800)}
FLOORS = {"broken_failure": 700, "broken_success": 700, "ended_fail": 1200, "ended_inaction": 500, "ended_success": 1300, "ended_terminate": 600, "runs_async": 1600, "runs_main": 1500, "runs_process": 70, "runs_thread": 400, "successes_process": 20}
