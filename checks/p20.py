import asyncio
import itertools
import multiprocessing
import threading
import time

from rocketry.conditions import FuncCond, SchedulerCycles
from rocketry.exc import SchedulerExit
from rvm.runs import OUTCOMES, PlannedError
from checks.p18 import TermBench

ID = "P20"
RULE = ("overlapping held runs of async, thread (listening to the flag or not) and process tasks, some permanent, with an own or the session's timeout or an end condition that turns true, when the scheduler is asked to shut down - by a call, a forced call, two calls "
        "(also while it is waiting), the shut condition, an error, the exit exception, an exit of the program or cancelling the scheduler; from a hook, a task, a thread or between the cycles; with or without instant shut down - and the runs are let to end "
        "at later virtual times or never; every run must have its one right end in the log, nothing be alive, no cycle nor ordinary run follow, and the session be usable again; "
        "distinct: (way, place, execution, body, what became of the run)")
ASSUMES = ["threads that do not listen to the termination flag end by themselves", "a process does not end by itself while it is being terminated"]

WAYS = ("call", "call", "force", "twice", "late-force", "cond", "cycles", "error", "exit", "instant", "cancel", "sysexit", "sysexit-cond")
FORCED = ("force", "twice", "error", "exit", "instant", "sysexit-cond")


def scenario(ctx, execs, n_tasks, rounds):
    rng = ctx.rng
    procs = "process" in execs
    session_limit = rng.choice([1e9, 1e9, 1.5])
    ids = itertools.count()

    def run_id(task=None, params=None):
        return params["token"] if params is not None and "token" in params else f"other-{next(ids)}"
    with TermBench(ctx, config={"func_run_id": run_id, "multilaunch": rng.random() < 0.5, "max_process_count": 50, "timeout": session_limit, "cycle_sleep": rng.choice([0.01, 0.1])}) as b:
        clock, app, session = b.clock, b.app, b.session
        state = {"way": None, "at": None, "place": None}
        limit, permanent, names, end_after = {}, {}, [], {}
        for i in range(n_tasks):
            e, name = rng.choice(execs), f"t{i}"
            names.append(name)
            kw = {}
            permanent[name] = rng.random() < 0.15
            limit[name] = session_limit
            if permanent[name]:
                kw["permanent"] = True
                limit[name] = 1e9
            elif rng.random() < 0.4:
                limit[name] = kw["timeout"] = rng.choice([0.5, 1, 2])
            elif rng.random() < 0.3:
                # its end condition becomes true during the shut down
                end_after[name] = rng.choice([0.1, 0.5, 1])
                kw["end_cond"] = FuncCond(lambda name=name: "t" in state and clock.peek() >= state["t"] + end_after[name])
            b.add(name, e, priority=rng.randrange(3), **kw)
        flags = {"shut": False, "raise": False}
        ticks, closed = [], []

        def request():
            way = state["way"]
            state["t"] = clock.peek()
            state["seen"] = len(app.tap.recs)
            if way in ("call", "instant", "late-force"):
                session.shut_down()
            elif way == "force":
                session.shut_down(force=True)
            elif way == "twice":
                session.shut_down()
                session.shut_down()
            elif way == "cond":
                flags["shut"] = True
            elif way == "cancel":
                state["serve"].cancel()

        def in_main():
            ticks.append(app.cycles)
            if state["at"] == app.cycles:
                if state["place"] == "main":
                    request()
                if state["way"] in ("exit", "sysexit"):
                    state["t"] = clock.peek()
                    raise SchedulerExit() if state["way"] == "exit" else SystemExit(3)
        app.add(in_main, "tick", start_cond="true", execution="main", priority=rng.choice([-1, 5]))

        async def in_async():
            request()

        def in_thread():
            request()
        app.add(in_async, "req-async", execution="async")
        app.add(in_thread, "req-thread", execution="thread")

        def bad():
            if flags["raise"]:
                flags["raise"] = False
                state["t"] = clock.peek()
                if state["way"] == "sysexit-cond":
                    raise rng.choice([SystemExit, KeyboardInterrupt])()
                raise PlannedError("planned")
            return False
        app.add(lambda: None, "bad", start_cond=FuncCond(bad), execution="main", priority=rng.choice([-2, 9]))
        n_down = rng.choice([0, 0, 1, 2])
        real_threads = False
        for i in range(n_down):
            if rng.random() < 0.5:
                e = rng.choice(["main", "thread", "async"])
                real_threads |= e == "thread"
                app.add(lambda i=i: closed.append(i), f"down{i}", on_shutdown=True, execution=e)
            else:
                async def down(i=i):
                    await asyncio.sleep(0.2)
                    closed.append(i)
                app.add(down, f"down{i}", on_shutdown=True, execution="async")

        def live():
            ended = {r.run_id for r in app.tap.recs if r.action != "run"}
            return [r.run_id for r in app.tap.recs if r.action == "run" and r.run_id in b.tokens and r.run_id not in ended]

        async def nap(seconds):
            "(an exit of a task cancels everything in the event loop)"
            try:
                await asyncio.sleep(seconds)
            except asyncio.CancelledError:
                if state["way"] != "sysexit" or not session.scheduler.is_alive:
                    raise

        async def aside():
            "Goes on while the scheduler is shutting down"
            while "t" not in state:
                await nap(0.01)
            if state["place"] == "between" and not state.get("asked"):
                state["asked"] = True
                request()
            t0 = clock.peek()
            todo = sorted(state["plan"].items(), key=lambda x: x[1])
            if state["way"] == "late-force":
                todo = sorted(todo + [(None, state["late"])], key=lambda x: x[1])
            for token, offset in todo:
                if offset is None or offset > 1e8:
                    continue
                while clock.peek() < t0 + offset:
                    await nap(min(0.05, max(t0 + offset - clock.peek(), 0.001)))
                if token is None:
                    state["forced_at"] = clock.peek()
                    session.shut_down(force=rng.choice([True, None]))
                else:
                    state["released"][token] = clock.peek()
                    b.release(token)

        async def trigger_between():
            while app.cycles < state["at"]:
                await asyncio.sleep(0.003)
            await asyncio.sleep(rng.choice([0, 0.001, 0.005]))
            state["t"] = clock.peek()

        def before(n):
            if n == 1:
                state["serve"] = asyncio.current_task()
                state["aside"] = asyncio.ensure_future(aside())
                if state["place"] == "between":
                    state["between"] = asyncio.ensure_future(trigger_between())
            if n <= state["at"]:
                for _ in range(rng.choice([0, 1, 2]) if not (procs and n == state["at"]) else 0):
                    token = b.submit(rng.choice(names), rng.choice(["success", "fail", "none", "success"]), gated=True)
                    e, task = b.execution[b.tokens[token]["task"]], b.tokens[token]["task"]
                    offset = rng.choice([0.02, 0.3, 0.7, 1.5, 3])
                    deaf = b.bodies[task] == "deaf"
                    if e != "async" and (limit[task] < 1e8 or task in end_after) and not deaf:
                        offset = 1e9        # real time: either its timeout or its end
                    if state["way"] in FORCED and not deaf:
                        offset = 1e9
                    if state["way"] == "late-force" and e != "async" and not deaf:
                        offset = 1e9
                    if permanent[task] and not deaf:
                        offset = 1e9
                    state["plan"][token] = offset
            for name in names:      # (says nothing of the runs that were asked or are alive)
                if rng.random() < 0.15:
                    session[name].disabled = not session[name].disabled
                    ctx.saw("switched")
            if n == state["at"]:
                if state["place"] == "before":
                    request()
                if state["place"] == "async":
                    session["req-async"].run()
                if state["place"] == "thread":
                    session["req-thread"].run()
                if state["way"] in ("error", "sysexit-cond"):
                    flags["raise"] = True
                if state["way"] == "cycles":
                    state["t"] = clock.peek()

        def after(n):
            if n == state["at"] and state["place"] == "after":
                request()
            state["after"] = len(app.tap.recs)
            state["cycles_done"] = n
        app.at_cycle(before)
        app.after_cycle(after)
        session.config.shut_cond = FuncCond(lambda: flags["shut"])
        own_cond = session.config.shut_cond

        for rnd in range(rounds):
            state.clear()
            state.update(way=rng.choice(WAYS + (("call", "cond", "cycles") * 3 if procs else ())), at=rng.randint(2, 5), plan={}, released={}, late=rng.choice([0.05, 0.4, 1]))
            way = state["way"]
            state["place"] = rng.choice(["before", "after", "main", "async", "thread", "between"]) if way not in ("cycles", "error", "exit", "sysexit", "sysexit-cond") else way
            if way == "cancel":
                state["place"] = rng.choice(["after", "between"])
            session.config.instant_shutdown = way == "instant"
            session.config.shut_cond = SchedulerCycles() >= state["at"] if way == "cycles" else own_cond
            flags.update({"shut": False, "raise": False})
            app.cycles = 0
            ticks.clear()
            closed.clear()
            first = len(app.tap.recs)
            b.draining = False
            out = app.serve(max_steps=60_000, real_yield=0.002 if procs else 0.0003 if "thread" in execs else 0)
            b.recs = list(app.tap.recs)
            how = dict(way=way, place=state["place"], at=state["at"], round=rnd)
            ctx.sample({"tasks": {n: (b.execution[n], b.bodies[n], limit[n], permanent[n]) for n in names}, **how})
            if out.stopped:
                # it did not end: who is it waiting for?
                waiting = [t for t in live()]
                stuck = [(t, b.execution[b.tokens[t]["task"]], b.bodies[b.tokens[t]["task"]], t in b.open) for t in waiting]
                if out.stopped == "step budget" and all(b.bodies[b.tokens[t]["task"]] == "deaf" and t not in b.open for t in waiting) and waiting:
                    ctx.inconclusive(out.stopped)
                ctx.fail("never-ends", "the scheduler did not shut down", waiting=stuck, **how)
                return
            if way == "error":
                ctx.check(isinstance(out.exception, PlannedError), "error", "the scheduler should stop with the error", exception=repr(out.exception), **how)
            elif way == "sysexit":
                ctx.check(isinstance(out.exception, SystemExit), "sysexit", "the exit of the task should end the program", exception=repr(out.exception), **how)
            elif way == "cancel":
                ctx.check(isinstance(out.exception, asyncio.CancelledError) or out.exception is None, "cancel", "cancelling the scheduler should end it", exception=repr(out.exception), **how)
            elif out.exception is not None and not (way == "sysexit-cond" and isinstance(out.exception, (SystemExit, KeyboardInterrupt))):
                raise out.exception
            slack = {"async": 1, "between": 1, "thread": 50}.get(state["place"], 0)
            ctx.check(state["at"] <= app.cycles <= state["at"] + slack, "cycles", "the scheduler did not end after the cycle it was asked to", cycles=app.cycles, **how)
            ctx.check(session.scheduler.is_alive is False, "is-alive", "the scheduler says to be alive", **how)
            alive = [t.name for t in session.tasks if t.is_alive()]
            ctx.check(not alive, "task-alive", "tasks are alive after the shut down", alive=alive, **how)
            def living():
                return [t.name for ts in b.threads.values() for t in ts if t is not threading.main_thread() and t.is_alive()]
            threads = living()
            end = time.monotonic() + 2
            while threads and time.monotonic() < end:
                time.sleep(0.001)
                threads = living()
            ctx.check(not threads, "thread-alive", "threads of tasks are alive after the shut down", threads=threads, **how)
            kids = multiprocessing.active_children()
            ctx.check(not kids, "process-alive", "processes of tasks are alive after the shut down", kids=[k.pid for k in kids], **how)
            ctx.check(sorted(closed) == list(range(n_down)) or (way not in ("call", "cond", "cycles") and len(set(closed)) == len(closed)), "shutdown-tasks",
                      "the shutdown tasks should run once each", ran=closed, n=n_down, **how)
            recs = b.recs[first:]
            # no ordinary run after the last cycle
            if way not in ("error", "exit", "sysexit", "sysexit-cond", "cancel"):
                late = [r for r in b.recs[state["after"]:] if r.action == "run" and not r.task.startswith("down")]
                ctx.check(not late, "late-start", "a task was started after the last cycle", records=late, **how)
            t_end = clock.peek()
            runs = {}
            for r in recs:
                runs.setdefault((r.task, r.run_id), []).append(r)
            slow = []
            for (task, rid), rs in runs.items():
                acts = [r.action for r in rs]
                if not ctx.check(len(acts) == 2 and acts[0] == "run", "records", "a run is not logged once as started and once as ended", task=task, run=rid, records=acts, **how):
                    continue
                if rid not in b.tokens:
                    continue
                e, body, d = b.execution[task], b.bodies[task], b.tokens[rid]
                own = OUTCOMES[d["outcome"]]
                start, over = rs[0].created, rs[0].created + limit[task]
                rel = state["released"].get(rid)
                got = acts[1]
                forced = way in FORCED
                forced_at = state.get("forced_at")
                deaf = body == "deaf"
                if deaf:
                    want = own
                    slow.append(rid)
                elif forced:
                    # (may have ended by its timeout already: the same)
                    want = "terminate"
                elif permanent[task]:
                    want = "terminate"
                else:
                    ends = min(over, forced_at or 1e18)
                    if task in end_after:
                        ends = min(ends, max(start, state["t"] + end_after[task]))
                        ctx.saw("end_conds")
                    if way == "sysexit" and e == "async":
                        ends = min(ends, state["t"])    # the event loop is closed
                    if rel is None:
                        want = "terminate"
                    elif e == "async":
                        want = own if rel < ends - 0.2 else "terminate" if rel > ends + 0.2 else None
                    else:
                        want = own if ends > 1e8 + start else None
                if session_limit < 1e8 and rs[1].created - start > session_limit:
                    ctx.saw("session_timeouts")
                if want is not None:
                    ctx.check(got == want, "fate", "a run did not end the way it should in the shut down", task=task, execution=e, body=body, got=got, want=want, permanent=permanent[task], timeout=limit[task],
                              alive_for=rs[1].created - start, released=rel and rel - start, forced_at=forced_at and forced_at - start, **how)
                    ctx.saw(("finished_" if got != "terminate" else "terminated_") + e)
                    ctx.sig(way, state["place"], e, body, got, permanent[task])
            ctx.saw("way_" + way)
            # (while real threads or processes are at work the virtual time runs freely)
            if (way in FORCED or state.get("forced_at")) and not slow and set(execs) == {"async"} and not real_threads and state["place"] != "thread":
                t0 = state.get("forced_at") or state["t"]
                ctx.check(t_end - t0 < 2.0 + 0.15 * len(runs), "force-slow", "a forced shut down took long", took=t_end - t0, **how)
                ctx.saw("forced_quick")
            # the runs that were asked but never started wait for the next round: give them up
            for name in names:
                session[name].batches.clear()
            for t in ("req-async", "req-thread"):
                session[t].batches.clear()


def asyncs(ctx):
    scenario(ctx, ["async"], ctx.rng.choice([1, 2, 3, 4, 15]), ctx.rng.choice([1, 2, 3]))


def threads(ctx):
    scenario(ctx, ["thread", "thread", "async"], ctx.rng.randint(1, 3), ctx.rng.choice([1, 2]))


def processes(ctx):
    scenario(ctx, ["process", "process", "async"], ctx.rng.randint(1, 3), 1)


KINDS = {"asyncs": (asyncs, 500, 6000), "threads": (threads, 250, 3000), "processes": (processes, 200, 2000)}
FLOORS = {"finished_async": 300, "finished_process": 25, "finished_thread": 90, "forced_quick": 150, "terminated_async": 700, "terminated_process": 40, "terminated_thread": 100,
          "way_call": 100, "way_cond": 50, "way_cycles": 50, "way_error": 50, "way_exit": 50, "way_force": 50, "way_instant": 50, "way_late-force": 50, "way_cancel": 40, "way_sysexit": 40, "way_sysexit-cond": 40, "end_conds": 100, "session_timeouts": 50, "way_twice": 50}
