import asyncio
import datetime
import os
import signal
import threading
import time

from rocketry.args import TerminationFlag
from rocketry.conditions import FuncCond
from rocketry.exc import TaskTerminationException
from rvm.runs import Bench, GATE_S, act, process_enter, process_exit, OUTCOMES

ID = "P18"
RULE = ("overlapping runs of async, thread (listening to the flag or not) and process tasks with own, session-wide, no or permanent timeouts in every notation, end conditions that flip and requests to "
        "terminate, over virtual time that jumps around the timeouts; on each cycle a run that is overdue, whose end condition is true or that was asked to terminate must end as terminated and no "
        "other run may; distinct: (execution, reason, simultaneous runs, permanent, kind of timeout, body)")
ASSUMES = ["terminated bodies let the cancellation through (threads: listen to the flag)", "a run within 5 ms of its timeout is not judged", "a process does not end by itself while it is being terminated"]

EPS = 0.005


class TermBench(Bench):
    bodies = None
    thread_of = None

    def make_body(self, task, execution):
        b, path, rng = self, self.dir, self.rng
        self.bodies = self.bodies or {}
        self.thread_of = self.thread_of or {}
        kind = rng.choice({"async": ["plain", "plain", "cleanup", "own"], "thread": ["listen", "listen", "deaf"], "process": ["plain"]}[execution])
        self.bodies[task] = kind
        if execution == "async":
            async def body(token, outcome):
                b.enter(task, token, {})
                try:
                    while token not in b.open:
                        await asyncio.sleep(0.05)
                except asyncio.CancelledError:
                    if kind == "cleanup":
                        await asyncio.sleep(0.03)
                        await asyncio.sleep(0)
                    if kind == "own":
                        raise TaskTerminationException("planned")
                    raise
                finally:
                    b.exit(task)
                return act(outcome, token)
        elif execution == "thread":
            if kind == "listen":
                def body(token, outcome, flag=TerminationFlag()):
                    b.thread_of[token] = threading.current_thread()
                    b.enter(task, token, {})
                    try:
                        end = time.monotonic() + GATE_S
                        while token not in b.open and time.monotonic() < end:
                            if flag.wait(0.0005):
                                raise TaskTerminationException("planned")
                    finally:
                        b.exit(task)
                    return act(outcome, token)
            else:
                def body(token, outcome):
                    b.thread_of[token] = threading.current_thread()
                    b.enter(task, token, {})
                    try:
                        b.gate(token).wait(GATE_S)
                    finally:
                        b.exit(task)
                    return act(outcome, token)
        else:
            def body(token, outcome):
                process_enter(path, task, token, {})
                end = time.monotonic() + GATE_S
                while not os.path.exists(os.path.join(path, f"gate-{token}")) and time.monotonic() < end:
                    time.sleep(0.002)
                return act(outcome, token)
        return body


def timeout_form(rng, seconds):
    return rng.choice([lambda: seconds, lambda: f"{seconds} seconds", lambda: datetime.timedelta(seconds=seconds), lambda: f"{int(seconds * 1000)} ms" if seconds * 1000 % 1 == 0 else seconds])()


def mixed(ctx, execs, n_tasks, n_cycles):
    rng = ctx.rng
    session_timeout = rng.choice([0.7, 3, 1e6])
    with TermBench(ctx, config={"multilaunch": rng.random() < 0.5, "max_process_count": 50, "timeout": timeout_form(rng, session_timeout) if rng.random() < 0.7 else session_timeout,
                                "cycle_sleep": rng.choice([0.01, 0.1])}) as b:
        clock = b.clock
        names, at_startup, limit, permanent, kinds, end_cond = [], [], {}, {}, {}, {}
        for i in range(n_tasks):
            e, name = rng.choice(execs), f"t{i}"
            names.append(name)
            kw = {}
            kinds[name] = rng.choice(["session", "own", "own", "never", "permanent"])
            limit[name] = session_timeout
            if kinds[name] == "own":
                limit[name] = rng.choice([0.25, 0.5, 1, 2, 5])
                kw["timeout"] = timeout_form(rng, limit[name])
            elif kinds[name] == "never":
                limit[name] = 1e12
                kw["timeout"] = "never"
            elif kinds[name] == "permanent":
                kw["permanent"] = True
                limit[name] = 1e12
                if rng.random() < 0.5:
                    kw["timeout"] = 0.3
            if rng.random() < 0.5:
                end_cond[name] = False
                kw["end_cond"] = FuncCond(lambda name=name: end_cond[name])
            if rng.random() < 0.2:
                # is started once, when the scheduler starts
                at_startup.append(names.pop())
                kw.update(on_startup=True, start_cond=FuncCond(lambda: False))
            b.add(name, e, disabled=rng.random() < 0.2, **kw)
        held, asked, snap = [], {}, {}
        for name in at_startup:
            held.append(b.submit(name, rng.choice(["success", "fail"]), gated=True))

        def start_of(token):
            return next((r.created for r in b.app.tap.recs if r.run_id == token and r.action == "run"), None)

        def live():
            recs = b.app.tap.recs
            ended = {r.run_id for r in recs if r.action != "run"}
            return [r.run_id for r in recs if r.action == "run" and r.run_id not in ended]

        def ended_by(token):
            return [r.action for r in b.app.tap.recs if r.run_id == token and r.action != "run"]

        def finish(token):
            "Let the run end by itself and wait for it"
            task = b.tokens[token]["task"]
            b.release(token)
            e = b.execution[task]
            if e == "async" or token not in live():
                return
            end = time.monotonic() + 20
            if e == "process":
                import multiprocessing
                while time.monotonic() < end and token not in b.child_calls(task) and token in live():
                    time.sleep(0.001)
                pid = b.child_calls(task).get(token, {}).get("pid")
                while time.monotonic() < end and any(p.pid == pid for p in multiprocessing.active_children()):
                    time.sleep(0.001)
                # (the record of its end is read on the next cycle)
                snap["finished"].add(token)
            else:
                while time.monotonic() < end and not ended_by(token):
                    time.sleep(0.0005)
                while time.monotonic() < end and any(t.is_alive() for t in b.threads[task]) and len(live()) == 0:
                    time.sleep(0.0005)

        snap["finished"] = set()

        def before(n):
            snap["draining"] = n >= n_cycles
            if rng.random() < 0.2 or snap["draining"]:
                # on hold: nothing new starts but what is running is still looked after
                b.session.scheduler.on_hold = not snap["draining"] and not b.session.scheduler.on_hold
            snap["hold"] = b.session.scheduler.on_hold
            if not snap["draining"] and names:
                for _ in range(rng.choice([0, 1, 1, 2])):
                    held.append(b.submit(rng.choice(names), rng.choice(["success", "success", "fail", "none"]), gated=True))
            clock.advance(rng.choice([0, 0, 0.05, 0.2, 0.24, 0.5, 1, 2, 2.5]))
            started = set(live())
            for token in list(held):
                if token in started and (rng.random() < 0.15 or snap["draining"]):
                    held.remove(token)
                    finish(token)
                    ctx.saw("ended_by_itself")
            for name in end_cond:
                end_cond[name] = not snap["draining"] and rng.random() < 0.2
            snap["asked"] = set()
            alive = set(live())
            for token, thread in list(b.thread_of.items()):
                if token not in alive:
                    # (it may have logged its end but not left yet)
                    thread.join(20)
            for name in names + at_startup:
                ask = not snap["draining"] and rng.random() < 0.12
                # threads: a request may be withdrawn by the end of an earlier run that is still terminating
                if ask and not any(t in alive and t in asked and b.tokens[t]["task"] == name and b.bodies[name] == "listen" for t in b.thread_of):
                    b.session[name].terminate()
                    snap["asked"].add(name)
            snap["t0"] = clock.peek()
            snap["live"] = [t for t in live() if not (t in b.open and b.execution[b.tokens[t]["task"]] != "async")]
            snap["seen"] = len(b.app.tap.recs)

        def after(n):
            t1 = clock.peek()
            new = b.app.tap.recs[snap["seen"]:]
            runs_now = [r.run_id for r in new if r.action == "run"]
            counts = {}
            for t in snap["live"]:
                counts[b.tokens[t]["task"]] = counts.get(b.tokens[t]["task"], 0) + 1
            for token in snap["live"] + runs_now:
                task = b.tokens[token]["task"]
                e = b.execution[task]
                st = start_of(token)
                deaf = b.bodies[task] == "deaf"
                fresh = token in runs_now
                must = None
                if task in snap["asked"] and not (fresh and not counts.get(task)):
                    must = "asked"
                elif end_cond.get(task):
                    must = "end_cond"
                elif not fresh and snap["t0"] - st > limit[task] + EPS:
                    must = "timeout"
                may = task in snap["asked"] or end_cond.get(task) or t1 - st > limit[task] - EPS
                if token in b.open and e == "async":
                    # it may also have ended by itself
                    must = None
                if may:
                    asked.setdefault(token, n)
                if must and e == "thread" and not deaf and token not in b.open:
                    end = time.monotonic() + 20
                    while not ended_by(token) and time.monotonic() < end:
                        time.sleep(0.0005)
                got = ended_by(token)
                how = dict(token=token, execution=e, body=b.bodies[task], reason=must, alive_for=t1 - st, timeout=limit[task], kind=kinds[task], ended=got)
                if must and not deaf:
                    ctx.check(got == ["terminate"], "not-terminated", "a run that should be terminated was not", **how)
                    ctx.saw("terminated_" + must)
                    ctx.saw("terminated_on_hold", snap["hold"])
                    ctx.saw("terminated_of_startup", task in at_startup)
                    ctx.saw("terminated_" + e)
                    ctx.sig(e, must, min(counts.get(task, 0), 3), kinds[task], b.bodies[task])
                if "terminate" in got:
                    ctx.check(token in asked and not deaf, "terminated", "a run was terminated for no reason", **how)
                else:
                    ctx.saw("left_alone")
                    ctx.saw("left_alone_permanent", kinds[task] in ("permanent", "never"))
        b.app.at_cycle(before)
        b.app.after_cycle(after)

        def drain(n):
            "Processes that are alive when the gates open: not to be terminated while they end"
            if n >= n_cycles + 3:
                for token in live():
                    if b.execution[b.tokens[token]["task"]] == "process":
                        finish(token)
        b.app.after_cycle(drain)
        out = b.serve(n_cycles + 3)
        ctx.sample({n: (b.execution[n], kinds[n], limit[n]) for n in names + at_startup})
        if out.exception is not None:
            raise out.exception
        if out.stopped:
            ctx.inconclusive(out.stopped)
        for token, d in b.tokens.items():
            recs = [r for r in b.recs if r.run_id == token]
            e = b.execution[d["task"]]
            actions = [r.action for r in recs]
            if not actions and b.session[d["task"]].batches:
                continue
            if ctx.check(len(actions) == 2 and actions[0] == "run", "records", "a run is not logged once as started and once as ended", token=token, actions=actions, execution=e, body=b.bodies[d["task"]]):
                if actions[1] != "terminate":
                    ctx.check(actions[1] == OUTCOMES[d["outcome"]], "outcome", "a run that was not terminated has another outcome than it had", token=token, actions=actions, outcome=d["outcome"], execution=e)
                elif token not in asked:
                    # shutting down: permanent tasks are terminated
                    last = recs[-1].created - recs[0].created
                    ctx.check(kinds[d["task"]] == "permanent" or last > limit[d["task"]] - EPS, "terminated", "a run was terminated for no reason when shutting down", token=token, execution=e, recs=recs)


def asyncs(ctx):
    mixed(ctx, ["async"], ctx.rng.randint(1, 4), 25)


def threads(ctx):
    mixed(ctx, ["thread", "thread", "async"], ctx.rng.randint(1, 3), 20)


def processes(ctx):
    mixed(ctx, ["process", "process", "async"], ctx.rng.randint(1, 3), 14)


class Stuck(BaseException):
    pass


def stuck(signum, frame):
    raise Stuck()


def writing(ctx):
    "A process is terminated just when it delivers what it returned: the others go on"
    rng = ctx.rng
    wall = 45
    with TermBench(ctx, config={"multilaunch": rng.random() < 0.5, "max_process_count": 50, "cycle_sleep": 0.05}) as b:
        armed, hit, held = {}, [], []
        n_cycles = rng.randint(6, 10)
        victims, others = [f"w{i}" for i in range(rng.randint(1, 2))], [f"o{i}" for i in range(rng.randint(1, 2))]

        def end_of(name):
            def cond():
                token = armed.pop(name, None)
                if token is None:
                    return False
                # the body returns now: while this is looked at, nobody reads what the processes write
                b.release(token)
                time.sleep(rng.choice([0.02, 0.05]))
                hit.append(token)
                return True
            return FuncCond(cond)
        for name in victims:
            b.add(name, "process", end_cond=end_of(name))
        for name in others:
            b.add(name, rng.choice(["process", "process", "thread", "async"]))

        def live(name):
            recs = [r for r in b.app.tap.recs if r.task == name]
            ended = {r.run_id for r in recs if r.action != "run"}
            return [r.run_id for r in recs if r.action == "run" and r.run_id not in ended]

        def before(n):
            if n >= n_cycles:
                return
            for name in victims:
                now = [t for t in live(name) if t not in b.open]
                if now and len(now) == len(live(name)):
                    end = time.monotonic() + 20
                    while not set(now) <= set(b.child_calls(name)) and time.monotonic() < end:
                        time.sleep(0.001)
                    armed[name] = now[0]
                elif not live(name):
                    b.submit(name, rng.choice(["big", "big", "big", "success", "fail-chain"]), gated=True)
            if rng.random() < 0.6:
                held.append(b.submit(rng.choice(others), rng.choice(["success", "fail", "none", "big"])))
        b.app.at_cycle(before)
        old = signal.signal(signal.SIGALRM, stuck)
        signal.setitimer(signal.ITIMER_REAL, wall)
        try:
            out = b.serve(n_cycles + 2)
        except Stuck:
            ctx.check(False, "stuck", "the scheduler got stuck when a process was terminated while it was logging", hit=hit, records=[(r.task, r.action, r.run_id) for r in b.app.tap.recs][-6:])
            return
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
        if out.exception is not None:
            raise out.exception
        if out.stopped:
            ctx.inconclusive(out.stopped)
        ctx.saw("terminated_while_writing", len(hit))
        ctx.sig("writing", min(len(hit), 5), len(others))
        for token, d in b.tokens.items():
            actions = [r.action for r in b.recs if r.run_id == token]
            if not actions and b.session[d["task"]].batches:
                continue
            ends = actions[1:]
            right = {OUTCOMES[d["outcome"]]}
            if token in hit:
                # (it ends by itself at the same time: either or both)
                ok = 1 <= len(ends) <= 2 and set(ends) <= right | {"terminate"}
            else:
                ok = len(ends) == 1 and set(ends) == right
            ctx.check(actions[:1] == ["run"] and ok, "writing-records", "the runs are not logged right when a process was terminated while it was logging", token=token, actions=actions, hit=token in hit, outcome=d["outcome"])


KINDS = {"writing": (writing, 40, 600), "asyncs": (asyncs, 400, 6000), "threads": (threads, 200, 3000), "processes": (processes, 60, 800)}
FLOORS = {"terminated_while_writing": 60, "terminated_on_hold": 300, "terminated_of_startup": 80, "ended_by_itself": 2000, "left_alone": 10000, "left_alone_permanent": 4500, "terminated_asked": 900, "terminated_async": 2000, "terminated_end_cond": 900, "terminated_process": 90, "terminated_thread": 300, "terminated_timeout": 600}
