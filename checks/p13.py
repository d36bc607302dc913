from rvm.runs import Bench, OUTCOMES, ODD, ODD_APART
from rocketry.session import Config
from rocketry.tasks import run_id
from rocketry.log import RunRecord, MinimalRunRecord

ID = "P13"
RULE = ("random mixes of tasks on main, async, thread and process execution (with and without simultaneous runs of a task), each run with its own token and a planned outcome "
        "(returns, many kinds of exceptions, inaction, self-termination, being cancelled, exiting, arguments that cannot be formed), held at gates and released in random order; after the scheduler has shut down the log must "
        "account for each token exactly once; run ids made by rocketry (uuid, increment) and own ones must tell the runs apart; distinct: (execution, outcome, simultaneous, overlap)")
ASSUMES = ["the log store accepts the records", "children are not killed from the outside"]


def mixed(ctx, execs, n_tasks, n_cycles, rate):
    rng = ctx.rng
    with Bench(ctx, config={"multilaunch": rng.random() < 0.3, "cycle_sleep": rng.choice([0.01, 0.1, None]),
                            "param_materialize": rng.choice(["pre", "post"])}) as b:
        names = []
        for i in range(n_tasks):
            e = rng.choice(execs)
            kw = {}
            if rng.random() < 0.4:
                kw["multilaunch"] = rng.random() < 0.7
            b.add(f"t{i}", e, priority=rng.randrange(3), **kw)
            names.append(f"t{i}")
        held = []

        def before(n):
            if n < n_cycles - 3 and rng.random() < rate:
                for _ in range(rng.randint(1, 3)):
                    gated = rng.random() < 0.6
                    name, outcome = rng.choice(names), rng.choice(list(OUTCOMES))
                    if rng.random() < 0.25:
                        outcome = rng.choice(list(ODD) + list(ODD_APART) * (b.execution[name] in ("thread", "process")))
                        ctx.saw("odd_" + outcome)
                    t = b.submit(name, outcome, gated=gated)
                    if gated:
                        held.append(t)
            while held and (rng.random() < 0.4 or n > n_cycles - 4):
                b.release(held.pop(rng.randrange(len(held))))
            ctx.saw("overlapping_cycles", sum(b.session[t].is_alive() for t in names) > 1)
        b.app.at_cycle(before)
        # Let the queues drain before shutting down
        out = b.serve(n_cycles + 40)
        ctx.sample({n: b.execution[n] for n in names})
        if out.exception is not None:
            ctx.fail("scheduler-died", f"the scheduler died because of its tasks: {out.exception!r}", tokens=b.tokens)
            return
        if out.stopped:
            ctx.inconclusive(out.stopped)
        ctx.check(not out.pending, "left-pending", "coroutines were left behind by the scheduler", n=out.pending)
        drained = all(not b.session[n].batches for n in names)
        b.check_accounting(ctx, must_start=drained)
        if drained:
            ctx.saw("drained")


def local(ctx):
    mixed(ctx, ["main", "async"], ctx.rng.randint(1, 4), 12, 0.8)


def threads(ctx):
    mixed(ctx, ["thread", "thread", "async", "main"], ctx.rng.randint(1, 4), 12, 0.8)


def processes(ctx):
    mixed(ctx, ["process", "process", "thread", "async"], ctx.rng.randint(1, 3), 8, 0.7)


def ids(ctx):
    "Run ids made by rocketry: the records of a run carry the same id and no other run alive (uuid: no other run) has it"
    rng = ctx.rng
    execs = rng.choice([["main", "async"], ["main", "async"], ["thread", "async"], ["process", "async"]])
    ways = {"uuid": run_id.uuid, "increment": run_id.increment}
    default = rng.choice(["default", "increment", "own"])
    config = {"multilaunch": rng.random() < 0.7, "max_process_count": 50}
    config["func_run_id"] = Config().func_run_id if default == "default" else ways["increment"] if default == "increment" else Bench.run_id
    with Bench(ctx, config=config) as b:
        names, way = [], {}
        for i in range(rng.randint(1, 3)):
            name, kw = f"t{i}", {}
            way[name] = default
            if rng.random() < 0.4:
                way[name] = rng.choice(["uuid", "increment", "own"])
                kw["func_run_id"] = ways.get(way[name], Bench.run_id)
            b.add(name, rng.choice(execs), **kw)
            names.append(name)
        held = []

        def before(n):
            if n < 9 and rng.random() < 0.8:
                for _ in range(rng.randint(1, 3)):
                    gated = rng.random() < 0.6
                    t = b.submit(rng.choice(names), rng.choice(["success", "fail", "inaction"]), gated=gated)
                    if gated:
                        held.append(t)
            while held and (rng.random() < 0.35 or n > 9):
                b.release(held.pop(rng.randrange(len(held))))
        b.app.at_cycle(before)
        out = b.serve(45)
        if out.exception is not None or out.stopped or any(b.session[n].batches for n in names):
            ctx.check(out.exception is None, "scheduler-died", f"the scheduler died because of its tasks: {out.exception!r}")
            ctx.inconclusive("not drained")
        for name in names:
            recs = [r for r in b.recs if r.task == name]
            open_, used, ends, overlap = {}, set(), [], 0
            how = dict(way=way[name], execution=b.execution[name], records=recs)
            for r in recs:
                ctx.check(isinstance(r.run_id, str) and r.run_id != "", "no-run-id", "a record has no run id", **how)
                if r.action == "run":
                    ctx.check(r.run_id not in open_, "shared-run-id", "two runs alive have the same run id", id=r.run_id, **how)
                    if way[name] in ("default", "uuid"):
                        ctx.check(r.run_id not in used, "reused-run-id", "two runs have the same run id", id=r.run_id, **how)
                    open_[r.run_id] = r
                    used.add(r.run_id)
                    overlap = max(overlap, len(open_))
                else:
                    ctx.check(r.run_id in open_, "end-run-id", "the end of a run has not the run id of its start", id=r.run_id, **how)
                    open_.pop(r.run_id, None)
                    ends.append(r.action)
            ctx.check(not open_, "no-end", "a run was not ended by its id", left=list(open_), **how)
            want = [OUTCOMES[b.tokens[t]["outcome"]] for t in b.order[name]]
            ctx.eq(sorted(ends), sorted(want), "wrong-outcome", "the ends are not those of the runs", **how)
            if way[name] == "own":
                ctx.eq(sorted(used), sorted(b.order[name]), "own-run-id", "the run ids are not what the function gave", **how)
            ctx.saw("ids_" + way[name], len(want))
            ctx.saw("ids_overlapping", overlap > 1)
            ctx.sig("ids", way[name], b.execution[name], min(overlap, 4), len(want) > 1)


KINDS = {"ids": (ids, 120, 2000), "local": (local, 500, 6000), "threads": (threads, 250, 3000), "processes": (processes, 60, 800)}
FLOORS = {"ids_default": 150, "ids_increment": 200, "ids_overlapping": 60, "runs_main": 800, "runs_async": 800, "runs_thread": 500, "runs_process": 80, "overlapping_cycles": 500, "drained": 500, "odd_bad-args": 300, "odd_cancelled": 300, "odd_exit": 25, "odd_exit-zero": 20, "odd_quit": 15, "odd_restart": 15}
