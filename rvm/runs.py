"""A bench of tasks fed with tokens: every run carries a token (also its run id), an outcome it is
told to have and a gate it waits at, so that runs overlap the way the harness decides.

The same bodies are used on every execution type. In-process bodies report to ``bench.calls``;
child processes leave files in a scratch directory.
"""
import asyncio
import collections
import contextlib
import json
import multiprocessing
import os
import shutil
import sys
import tempfile
import threading
import time

from rocketry.args import FuncArg
from rocketry.exc import SchedulerExit, SchedulerRestart, TaskInactionException, TaskTerminationException

from .sim import App, Clock, TERMINAL


class PlannedError(Exception):
    planned = True


class OddError(Exception):
    "Not picklable and with arguments of its own"
    planned = True

    def __init__(self, a, b):
        super().__init__(f"odd {a}")
        self.lock = threading.Lock()


class Box:
    "A value of the user's own"

    def __init__(self, token):
        self.token = token

    def __eq__(self, other):
        return type(other) is Box and self.token == other.token

    def __repr__(self):
        return f"Box({self.token})"

    __hash__ = None


VALUES = ("dict", "none", "zero", "false", "empty-list", "empty-str", "str", "bytes", "nested", "box", "big", "float", "set", "exc", "params")


def value(kind, token):
    return {"dict": lambda: {"token": token}, "none": lambda: None, "zero": lambda: 0, "false": lambda: False, "empty-list": lambda: [], "empty-str": lambda: "",
            "str": lambda: token, "bytes": lambda: token.encode(), "nested": lambda: {"a": [token, (1, {2: None})]}, "box": lambda: Box(token),
            "big": lambda: token * 20_000, "float": lambda: 1e-9, "set": lambda: {token, 1}, "exc": lambda: ("run", "fail"), "params": lambda: {"action": "fail", "task_name": token}}[kind]()


def act(outcome, token):
    "What a body does in the end"
    if outcome.startswith("ret-"):
        return value(outcome[4:], token)
    if outcome == "success":
        return {"token": token}
    if outcome == "none":
        return None
    if outcome == "big":
        return {"token": token, "data": "x" * 300_000}
    if outcome == "fail":
        raise PlannedError(f"planned {token}")
    if outcome == "fail-key":
        raise KeyError(f"planned {token}")
    if outcome == "fail-odd":
        raise OddError(f"planned {token}", 1)
    if outcome == "fail-assert":
        assert False, f"planned {token}"
    if outcome == "fail-os":
        raise TimeoutError(f"planned {token}")
    if outcome == "fail-chain":
        try:
            {}["x"]
        except KeyError as exc:
            raise PlannedError(f"planned {token} ääkköset \N{SNOWMAN}") from exc
    if outcome == "inaction":
        raise TaskInactionException(f"planned {token}")
    if outcome == "terminate":
        raise TaskTerminationException(f"planned {token}")
    if outcome == "cancelled":
        raise asyncio.CancelledError(f"planned {token}")
    if outcome == "exit":
        sys.exit(7)
    if outcome == "exit-zero":
        sys.exit()
    if outcome == "quit":
        raise SchedulerExit(f"planned {token}")
    if outcome == "restart":
        raise SchedulerRestart(f"planned {token}")
    raise AssertionError(outcome)


OUTCOMES = {"success": "success", "none": "success", "big": "success", "fail": "fail", "fail-key": "fail", "fail-odd": "fail", "fail-assert": "fail",
            "fail-os": "fail", "fail-chain": "fail", "inaction": "inaction", "terminate": "terminate"}

# Runs that end in ways of their own: on any execution / where they do not end the scheduler
ODD = {"cancelled": ("terminate",), "bad-args": ("fail",)}
ODD_APART = {"exit": ("fail",), "exit-zero": ("fail", "success"), "quit": ("success",), "restart": ("success",)}

GATE_S = 30


class Bench:
    def __init__(self, ctx, config=None, model=None, clock=None, **kwargs):
        self.ctx, self.rng = ctx, ctx.rng
        self.clock = clock or Clock()
        self.lock = threading.Lock()
        self.calls = []                      # (task, token, kwargs) of in-process bodies
        self.active = collections.Counter()  # in-process bodies inside, by task
        self.max_active = collections.Counter()
        self.gates = {}                      # token -> Event
        self.open = set()
        self.threads = collections.defaultdict(list)   # task -> threads its bodies have been in
        self.tokens = {}                     # token -> dict(task, outcome, extra, order)
        self.execution = {}
        self.order = collections.defaultdict(list)
        self.n = 0
        self.draining = False
        self.dir = tempfile.mkdtemp(prefix="rvm-")
        conf = dict(execution="async", cycle_sleep=0.1, timeout=1e9, func_run_id=self.run_id, silence_task_prerun=True)
        conf.update(config or {})
        if model is not None:
            kwargs["model"] = model
        self.app = App(self.clock, **kwargs, **conf)
        self.session = self.app.session

    @staticmethod
    def run_id(task=None, params=None):
        if params is not None and "token" in params:
            return params["token"]
        return None

    # -- bodies
    def enter(self, task, token, kwargs):
        with self.lock:
            self.calls.append((task, token, kwargs))
            self.threads[task].append(threading.current_thread())
            self.active[task] += 1
            self.max_active[task] = max(self.max_active[task], self.active[task])

    def exit(self, task):
        with self.lock:
            self.active[task] -= 1

    def make_body(self, task, execution):
        bench = self
        path = self.dir

        if execution == "async":
            async def body(token, outcome, **kwargs):
                bench.enter(task, token, kwargs)
                try:
                    while token not in bench.open:
                        await asyncio.sleep(0.05)
                finally:
                    bench.exit(task)
                return act(outcome, token)
        elif execution == "main":
            def body(token, outcome, **kwargs):
                bench.enter(task, token, kwargs)
                bench.exit(task)
                return act(outcome, token)
        elif execution == "thread":
            def body(token, outcome, **kwargs):
                bench.enter(task, token, kwargs)
                try:
                    bench.gate(token).wait(GATE_S)
                finally:
                    bench.exit(task)
                return act(outcome, token)
        else:
            def body(token, outcome, **kwargs):
                process_enter(path, task, token, kwargs)
                end = time.monotonic() + GATE_S
                while not os.path.exists(os.path.join(path, f"gate-{token}")) and time.monotonic() < end:
                    time.sleep(0.002)
                process_exit(path, task, token)
                return act(outcome, token)
        return body

    def gate(self, token):
        with self.lock:
            return self.gates.setdefault(token, threading.Event())

    def release(self, token):
        if token in self.open:
            return
        self.open.add(token)
        task = self.tokens[token]["task"]
        if self.execution[task] == "process":
            open(os.path.join(self.dir, f"gate-{token}"), "w").close()
        else:
            self.gate(token).set()

    def release_all(self):
        self.draining = True
        for token in list(self.tokens):
            self.release(token)

    # -- tasks
    def add(self, name, execution, **kwargs):
        self.execution[name] = execution
        return self.app.add(self.make_body(name, execution), name, execution=execution, **kwargs)

    def submit(self, task, outcome="success", gated=False, **extra):
        token = f"{task}-{self.n}"
        self.n += 1
        self.tokens[token] = {"task": task, "outcome": outcome, "extra": extra}
        self.order[task].append(token)
        if not gated:
            self.release(token)
        if outcome == "bad-args":
            def boom():
                raise PlannedError(f"planned {token}")
            self.session[task].run(token=token, outcome=outcome, odd=FuncArg(boom), **extra)
        else:
            self.session[task].run(token=token, outcome=outcome, **extra)
        return token

    def alive(self, task):
        "Tokens of the runs of the task that are alive, by what the operating system / the log says"
        e = self.execution[task]
        recs = [r for r in self.app.tap.recs if r.task == task]
        ended = {r.run_id for r in recs if r.action != "run"}
        live = {r.run_id for r in recs if r.action == "run" and r.run_id not in ended}
        if e == "process":
            pids = {p.pid for p in multiprocessing.active_children()}
            live |= {t for t, d in self.child_calls(task).items() if d["pid"] in pids}
        elif e == "thread":
            # a thread lives a moment longer than its records
            live |= {t.name for t in list(self.threads[task]) if t.is_alive()}
        return live

    def child_calls(self, task):
        out = {}
        for fn in os.listdir(self.dir):
            if fn.startswith(f"call-{task}-"):
                for line in open(os.path.join(self.dir, fn)):
                    if line.endswith("\n"):
                        d = json.loads(line)
                        out[d["token"]] = d
        return out

    def serve(self, cycles, max_steps=60_000):
        procs = any(e == "process" for e in self.execution.values())
        threads = any(e == "thread" for e in self.execution.values())
        self.app.stop_after(cycles=cycles)

        def open_gates(n):
            if n >= cycles:
                self.release_all()
        self.app.after_cycle(open_gates)
        out = self.app.serve(max_steps=max_steps, real_yield=0.002 if procs else 0.0003 if threads else 0)
        self.out = out
        self.recs = list(self.app.tap.recs)
        self.read_process_calls()
        return out

    def read_process_calls(self):
        self.overlaps = []
        for fn in sorted(os.listdir(self.dir)):
            if fn.startswith("call-"):
                # the last line of a process that was terminated can be a part of one
                for line in open(os.path.join(self.dir, fn)):
                    if line.endswith("\n"):
                        d = json.loads(line)
                        self.calls.append((d["task"], d["token"], d["kwargs"]))
            if fn.startswith("overlap-"):
                with contextlib.suppress(ValueError):
                    self.overlaps.append(json.load(open(os.path.join(self.dir, fn))))

    def close(self):
        for ev in self.gates.values():
            ev.set()
        self.app.close()
        shutil.rmtree(self.dir, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()

    # -- generic oracle
    def check_accounting(self, ctx, must_start=True, outcomes=True):
        "Every token: one invocation, one run record, one end record with its outcome - and nothing else is in the log"
        by_id = collections.defaultdict(list)
        for r in self.recs:
            by_id[r.run_id].append(r)
        calls = collections.Counter(token for _, token, _ in self.calls)
        for token, d in self.tokens.items():
            recs = by_id.pop(token, [])
            runs = [r for r in recs if r.action == "run"]
            ends = [r for r in recs if r.action != "run"]
            how = dict(token=token, outcome=d["outcome"], execution=self.execution[d["task"]], records=recs)
            if not recs and not must_start:
                ctx.check(calls[token] == 0, "ran-unlogged", "a run took place but there is no record of it", **how)
                continue
            ctx.check(len(runs) == 1, "run-records", f"{len(runs)} start records for one run", **how)
            ctx.check(len(ends) == 1, "end-records", f"{len(ends)} end records for one run", **how)
            ctx.check(calls[token] == (d["outcome"] != "bad-args"), "invocations", f"the task function was called {calls[token]} times for one run", **how)
            if len(runs) == 1 and len(ends) == 1:
                ctx.check(runs[0].seq < ends[0].seq, "record-order", "the end of the run was logged before its start", **how)
                ctx.check(all(r.task == d["task"] for r in recs), "record-task", "the records are of another task", **how)
                if outcomes:
                    want = ODD.get(d["outcome"]) or ODD_APART.get(d["outcome"]) or (OUTCOMES[d["outcome"]],)
                    ctx.check(ends[0].action in want, "wrong-outcome", f"the run ended as {' or '.join(want)} but {ends[0].action} was logged", **how)
                    if want == ("fail",) and d["outcome"] != "exit":
                        ctx.check(f"planned {token}" in (ends[0].exc_text or ""), "no-traceback", "the failure was logged without its exception", exc=ends[0].exc_text, **how)
            ctx.saw("runs_accounted")
            ctx.saw("runs_" + self.execution[d["task"]])
            ctx.sig(self.execution[d["task"]], d["outcome"], len(recs))
        ctx.check(not by_id, "stray-records", "there are records of runs that were never asked for", records=dict(by_id))


def process_enter(path, task, token, kwargs):
    act_path = os.path.join(path, f"active-{task}-{token}")
    open(act_path, "w").close()
    others = [f for f in os.listdir(path) if f.startswith("active-")]
    same = [f for f in others if f.startswith(f"active-{task}-")]
    with open(os.path.join(path, f"overlap-{token}"), "w") as f:
        json.dump({"task": task, "token": token, "same": len(same), "all": len(others)}, f)
    with open(os.path.join(path, f"call-{token}"), "a") as f:
        f.write(json.dumps({"task": task, "token": token, "kwargs": kwargs, "pid": os.getpid()}) + "\n")


def process_exit(path, task, token):
    os.unlink(os.path.join(path, f"active-{task}-{token}"))
