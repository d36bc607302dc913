import asyncio
import multiprocessing
import os
import time

from rocketry.conditions import FuncCond
from rvm.runs import Bench, GATE_S, process_enter, process_exit

ID = "P14"
RULE = ("tasks of every execution type with simultaneous runs allowed, denied or left to the session and random process limits; runs are asked manually or started by their condition "
        "and held at gates; counters inside the bodies (files for child processes) watch how many are inside at a time, and on each cycle a waiting run for which there is room must start; "
        "distinct: (execution, task setting, session setting, kind of start, runs alive, started)")
ASSUMES = ["a run that dies during the cycle frees its place at the latest for the next cycle"]


def mixed(ctx, execs, n_tasks, n_cycles):
    rng = ctx.rng
    session_multi = rng.random() < 0.4
    limit = rng.randint(1, 3)
    with Bench(ctx, config={"multilaunch": session_multi, "max_process_count": limit, "cycle_sleep": rng.choice([0.01, 0.1])}) as b:
        names, auto, trigger, allowed = [], set(), {}, {}
        for i in range(n_tasks):
            e = rng.choice(execs)
            name = f"t{i}"
            names.append(name)
            setting = rng.choice([None, True, False, False])
            allowed[name] = session_multi if setting is None else setting
            kw = {"priority": rng.randrange(3)}
            if setting is not None or rng.random() < 0.3:
                kw["multilaunch"] = setting
            if rng.random() < 0.3:
                auto.add(name)
                trigger[name] = False
                add_auto(b, name, e, start_cond=FuncCond(lambda name=name: trigger[name]), **kw)
            else:
                b.add(name, e, **kw)
        held, snap = [], {}
        manual = [n for n in names if n not in auto]

        def before(n):
            ending = n > n_cycles - 4
            for name in auto:
                trigger[name] = not ending and rng.random() < 0.5
            if manual and not ending and rng.random() < 0.8:
                for _ in range(rng.randint(1, 3)):
                    held.append(b.submit(rng.choice(manual), rng.choice(["success", "fail", "none"]), gated=rng.random() < 0.8))
            while held and (rng.random() < 0.35 or ending):
                b.release(held.pop(rng.randrange(len(held))))
            snap["pending"] = {n: bool(b.session[n].batches) or (n in auto and trigger[n]) for n in names}
            snap["alive"] = {n: len(b.alive(n)) for n in names}
            snap["procs"] = len(multiprocessing.active_children())
            snap["seen"] = len(b.app.tap.recs)

        def after(n):
            new = [r for r in b.app.tap.recs[snap["seen"]:] if r.action == "run"]
            procs = snap["procs"] + sum(b.execution[r.task] == "process" for r in new)
            for name in names:
                starts = sum(r.task == name for r in new)
                e = b.execution[name]
                room = allowed[name] or not snap["alive"][name]
                if e == "process":
                    room = room and procs < limit
                ctx.check(starts <= 1, "started-twice", "a task started more than once on one cycle", task=name, execution=e)
                if room and snap["pending"][name]:
                    ctx.check(starts == 1, "not-started", "there was room for a run that was waiting but it did not start", task=name, execution=e, alive=snap["alive"], procs=procs, limit=limit)
                    ctx.saw("started_when_room")
                elif snap["pending"][name]:
                    ctx.saw("waited")
                    ctx.saw("waited_" + e)
                if snap["alive"][name] and starts and allowed[name]:
                    ctx.saw("simultaneous_" + e)
                ctx.sig(e, b.session[name].multilaunch, session_multi, name in auto, min(snap["alive"][name], 3), starts)
        b.app.at_cycle(before)
        b.app.after_cycle(after)
        out = b.serve(n_cycles + 8)
        ctx.sample({n: (b.execution[n], allowed[n]) for n in names})
        if out.exception is not None:
            raise out.exception
        if out.stopped:
            ctx.inconclusive(out.stopped)
        for name in names:
            e = b.execution[name]
            if allowed[name]:
                continue
            n = b.max_active[name]
            ctx.check(n <= 1, "overlap", f"{n} runs of a task were inside its function at the same time", task=name, execution=e)
            # the same by the log
            live = set()
            for r in b.recs:
                if r.task == name:
                    if r.action == "run":
                        ctx.check(not live, "overlap-log", "a run started while another of the task had not ended", task=name, execution=e, rec=r)
                        live.add(r.run_id)
                    else:
                        live.discard(r.run_id)
        for d in b.overlaps:
            if not allowed[d["task"]]:
                ctx.check(d["same"] <= 1, "overlap-process", "runs of a task overlap as processes", **d)
            ctx.check(d["all"] <= limit, "too-many-processes", f"{d['all']} task processes alive with the limit {limit}", **d)
            ctx.saw("process_runs")
            ctx.saw("process_at_limit", d["all"] == limit)


def add_auto(b, task, execution, **kwargs):
    "A task that is started by its condition and stays alive for some cycles"
    rng, path = b.rng, b.dir
    b.execution[task] = execution
    count = iter(range(10**6))

    def run_id(t=None, params=None):
        return f"{task}-a{next(count)}"

    if execution == "async":
        async def body():
            b.enter(task, None, {})
            try:
                end = b.app.cycles + rng.randrange(4)
                while b.app.cycles < end and not b.draining:
                    await asyncio.sleep(0.05)
            finally:
                b.exit(task)
    elif execution == "main":
        def body():
            b.enter(task, None, {})
            b.exit(task)
    elif execution == "thread":
        def body():
            b.enter(task, None, {})
            try:
                end = b.app.cycles + rng.randrange(4)
                limit = time.monotonic() + GATE_S
                while b.app.cycles < end and not b.draining and time.monotonic() < limit:
                    time.sleep(0.0005)
            finally:
                b.exit(task)
    else:
        def body():
            token = f"{task}-p{os.getpid()}"
            process_enter(path, task, token, {})
            time.sleep(0.001 * (os.getpid() % 20))
            process_exit(path, task, token)
    b.app.add(body, task, execution=execution, func_run_id=run_id, **kwargs)


def local(ctx):
    mixed(ctx, ["async", "async", "main"], ctx.rng.randint(1, 4), 14)


def threads(ctx):
    mixed(ctx, ["thread", "thread", "async"], ctx.rng.randint(1, 4), 14)


def processes(ctx):
    mixed(ctx, ["process", "process", "process", "thread"], ctx.rng.randint(1, 4), 12)


KINDS = {"local": (local, 400, 5000), "threads": (threads, 200, 3000), "processes": (processes, 70, 800)}
FLOORS = {"started_when_room": 4000, "waited_async": 1000, "waited_thread": 500, "waited_process": 200, "simultaneous_async": 400, "simultaneous_thread": 200,
          "simultaneous_process": 10, "process_runs": 250, "process_at_limit": 60}
