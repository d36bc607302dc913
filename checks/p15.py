import multiprocessing
import os
import pickle
import threading
import time

from rocketry.args import Return
from rvm.runs import Bench, VALUES, value

ID = "P15"
RULE = ("producer tasks of every execution type return values of many kinds (also None, falsy, big and own objects) or fail, overlapping and ending in random order, also a child "
        "process that ends exactly while another one is being started; after every cycle the kept return values are compared with the log (latest success), and consumer tasks "
        "of every execution type must receive the kept value, the default or fail if there is none; distinct: (execution, kind of value, outcome) and (consumer execution, kind received)")
ASSUMES = ["threaded producers have one run at a time (the order of simultaneous threads is not defined)", "values of child processes can be pickled"]

MISSING = "<missing>"


def same(a, b):
    return type(a) is type(b) and a == b


class P15Bench(Bench):
    inject = 0

    def run_id(self, task=None, params=None):
        # called while a run is being started
        if self.inject and self.execution.get(task.name) == "process" and self.rng.random() < self.inject:
            held = [t for t, d in self.tokens.items() if t not in self.open and self.execution[d["task"]] == "process"]
            started = {r.run_id for r in self.app.tap.recs}
            held = [t for t in held if t in started]
            if held:
                n = len(multiprocessing.active_children())
                for t in self.rng.sample(held, self.rng.randint(1, len(held))):
                    self.release(t)
                end = time.monotonic() + 5
                while len(multiprocessing.active_children()) == n and time.monotonic() < end:
                    time.sleep(0.001)
                self.ctx.saw("ended_while_another_started")
        if params is not None and "token" in params:
            return params["token"]
        return None


def latest(recs, tokens, task):
    "What the log says the return value is"
    for r in reversed(recs):
        if r.task == task and r.action == "success":
            d = tokens[r.run_id]
            return value(d["outcome"][4:], r.run_id)
    return MISSING


def mixed(ctx, execs, n_tasks, n_cycles, inject=0):
    rng = ctx.rng
    with P15Bench(ctx, config={"multilaunch": False, "max_process_count": 6, "silence_task_prerun": True, "param_materialize": rng.choice(["pre", "post"])}) as b:
        b.inject = inject
        emit, main = b.app.tap.emit, threading.main_thread()

        def slow_emit(record):
            "Threads stay for a while right after they have logged"
            emit(record)
            if threading.current_thread() is not main and record.action == "success":
                ctx.saw("lingered")
                time.sleep(0.004)
        b.app.tap.emit = slow_emit
        prods, cons, received, cycle_starts, body_at = [], {}, [], [0], {}
        for i in range(n_tasks):
            e = rng.choice(execs)
            b.add(f"p{i}", e, multilaunch=e != "thread" and rng.random() < 0.4, priority=rng.randrange(3))
            prods.append(f"p{i}")
        for i in range(rng.randint(1, 3)):
            e = rng.choice(execs)
            src = rng.choice(prods)
            default = rng.choice([MISSING, "a default", None])
            add_consumer(b, f"c{i}", e, src, default, received, body_at)
            cons[f"c{i}"] = (e, src, default)
        held = []

        def before(n):
            ending = n > n_cycles - 3
            if not ending and rng.random() < 0.8:
                for _ in range(rng.randint(1, 3)):
                    outcome = rng.choice(["ret-" + v for v in VALUES] + ["fail", "inaction", "terminate"] * 2)
                    held.append(b.submit(rng.choice(prods), outcome, gated=rng.random() < 0.7))
            while held and (rng.random() < 0.4 or ending):
                b.release(held.pop(rng.randrange(len(held))))
            for c in cons:
                if not ending and rng.random() < 0.3:
                    b.session[c].run(ctoken=f"{c}-{n}")
            cycle_starts.append(len(b.app.tap.recs))

        def in_flight(task):
            "Values a thread may have just stored although it has not logged it yet"
            ended = {r.run_id for r in b.app.tap.recs if r.action != "run"}
            if b.execution[task] != "thread":
                return []
            return [value(b.tokens[r.run_id]["outcome"][4:], r.run_id) for r in b.app.tap.recs if r.task == task and r.action == "run" and r.run_id not in ended
                    and b.tokens[r.run_id]["outcome"].startswith("ret-")]

        def kept(task):
            try:
                return b.session.returns[b.session[task]]
            except KeyError:
                return MISSING

        def after(n):
            for p in prods:
                may = in_flight(p)
                recs0 = list(b.app.tap.recs)
                got = kept(p)
                recs1 = list(b.app.tap.recs)
                wants = [latest(recs0, b.tokens, p), latest(recs1, b.tokens, p)] + may
                ctx.check(any(same(got, w) for w in wants), "wrong-return", "the return value kept for the task is not what its latest successful run returned", task=p,
                          execution=b.execution[p], got=repr(got)[:200], want=repr(wants[0])[:200])
                ctx.saw("missing" if got is MISSING else "kept")
        b.app.at_cycle(before)
        b.app.after_cycle(after)
        out = b.serve(n_cycles + 12)
        ctx.sample({n: b.execution[n] for n in prods})
        if out.exception is not None:
            raise out.exception
        if out.stopped:
            ctx.inconclusive(out.stopped)
        for p in prods:
            got, want = kept(p), latest(b.recs, b.tokens, p)
            ctx.check(same(got, want), "wrong-return-end", "after the shut down the return value is not what the latest successful run returned", task=p, execution=b.execution[p],
                      got=repr(got)[:200], want=repr(want)[:200])
        for token, d in b.tokens.items():
            end = [r for r in b.recs if r.run_id == token and r.action != "run"]
            if end:
                ctx.sig(b.execution[d["task"]], d["outcome"], end[0].action)
                ctx.saw("runs_" + b.execution[d["task"]])
                if d["outcome"].startswith("ret-"):
                    ctx.check(end[0].action == "success", "not-success", "a run that returned was not logged as success", token=token, rec=end[0], outcome=d["outcome"])

        # consumers
        for fn in sorted(os.listdir(b.dir)):
            if fn.startswith("recv-"):
                with open(os.path.join(b.dir, fn), "rb") as f:
                    received.append(pickle.load(f))
        got_by = {c: v for _, c, v in received}
        ctx.check(len(got_by) == len(received), "consumer-twice", "a consumer was called twice for one run")
        ids = {}
        for r in b.recs:
            if r.task in cons:
                ids.setdefault(r.run_id, {})[r.action] = r
        for cid, recs in ids.items():
            c = next(iter(recs.values())).task
            e, src, default = cons[c]
            start = recs.get("run")
            if not ctx.check(start is not None and len(recs) == 2, "consumer-records", "a consumer run is not properly logged", recs=recs):
                continue
            # main/async read it when the body starts, threads and processes right before they are started
            if e in ("main", "async") and cid in body_at:
                lo = hi = body_at[cid]
            else:
                lo = max((k for k in cycle_starts if k <= start.seq), default=0)
                hi = start.seq if e in ("thread", "process") else max(r.seq for r in recs.values())
            ks = list(range(lo, hi + 1))
            if b.execution[src] == "thread":
                # it may have stored the value and not have logged it yet
                ks += [r.seq + 1 for r in b.recs[hi:] if r.task == src and r.action == "success"][:1]
            wants = [latest(b.recs[:k], b.tokens, src) for k in ks]
            wants = [default if w is MISSING else w for w in wants]
            if cid in got_by:
                got = got_by[cid]
                ok = any(same(got, w) for w in wants)
                ctx.check(ok, "consumer-value", "a task asking for the return value of another got something else", consumer=c, execution=e, source=src, source_execution=b.execution[src],
                          got=repr(got)[:200], want=[repr(w)[:80] for w in wants[-3:]])
                ctx.check(recs.get("success") is not None, "consumer-outcome", "a consumer that got its value was not logged as success", recs=recs)
                ctx.saw("consumed")
                ctx.saw("consumed_" + e)
                ctx.saw("consumed_default", got is default or got == default)
            else:
                ctx.check("fail" in recs, "consumer-outcome", "a consumer was not called but it is not logged as failed", recs=recs)
                ctx.check(any(w is MISSING for w in wants), "consumer-not-called", "there was a return value but the consumer was not called with it", consumer=c, execution=e, source=src, recs=recs)
                ctx.saw("consumer_no_value")
            ctx.sig("consumer", e, b.execution[src], cid in got_by)


def add_consumer(b, name, execution, src, default, received, body_at):
    path = b.dir
    b.execution[name] = execution
    arg = Return(src) if default is MISSING else Return(src, default=default)
    if execution == "async":
        async def body(ctoken, val=arg):
            body_at[ctoken] = len(b.app.tap.recs)
            received.append((name, ctoken, val))
    elif execution in ("main", "thread"):
        def body(ctoken, val=arg):
            body_at[ctoken] = len(b.app.tap.recs)
            received.append((name, ctoken, val))
    else:
        def body(ctoken, val=arg):
            with open(os.path.join(path, f"recv-{ctoken}"), "wb") as f:
                pickle.dump((name, ctoken, val), f)

    def run_id(task=None, params=None):
        return params["ctoken"] if params is not None and "ctoken" in params else f"{name}-late{time.monotonic_ns()}"
    b.app.add(body, name, execution=execution, func_run_id=run_id)


def local(ctx):
    mixed(ctx, ["async", "async", "main"], ctx.rng.randint(1, 3), 14)


def threads(ctx):
    mixed(ctx, ["thread", "thread", "async", "main"], ctx.rng.randint(1, 3), 14)


def processes(ctx):
    mixed(ctx, ["process", "process", "process", "async"], ctx.rng.randint(1, 3), 12, inject=0.4)


KINDS = {"local": (local, 400, 5000), "threads": (threads, 200, 3000), "processes": (processes, 80, 800)}
FLOORS = {"kept": 10000, "missing": 2000, "consumed_async": 700, "consumed_main": 400, "consumed_thread": 200, "consumed_process": 120, "consumed_default": 400, "consumer_no_value": 200, "runs_process": 300, "runs_thread": 600,
          "ended_while_another_started": 40}
