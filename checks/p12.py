import asyncio
import datetime
import operator

from rvm import ref_time as R
from rvm.hist import HistApp, rand_history, Ev
from rvm.sim import App, Clock
from rvm.drive import Planned, to_ts
from rocketry.log import MinimalRecord, MinimalRunRecord, RunRecord
from redbird.repos import MemoryRepo

ID = "P12"
RULE = ("tasks with several simultaneous runs of random lengths (async and threads); is running / more than / less than / between and counts of running instances are observed "
        "on every cycle and compared with the runs in the log that have no end, from the live runs and from the log alone, also after restarts over dead runs; "
        "distinct: (condition, comparison, live runs, mode, execution)")
ASSUMES = ["durations within 5 ms of the limit of the condition are not judged"]

OPS = {"==": operator.eq, "!=": operator.ne, "<": operator.lt, ">": operator.gt, "<=": operator.le, ">=": operator.ge}
TASKS = ["a", "b"]


def rand_cond(rng, unit):
    "-> (condition, task, near, far, function(count), label)"
    from rocketry import conds as C
    task = rng.choice(TASKS + [None])
    base = C.running if task is None else C.running(task)
    form = rng.choice(["plain", "plain", "count", "count", "more", "less", "between"])
    near, far, ref = 0, None, (lambda n: n > 0)
    if form == "plain":
        cond = base
        label = "plain"
    elif form == "count":
        op, v = rng.choice(list(OPS)), rng.randrange(4)
        cond = OPS[op](base, v)
        ref = lambda n: OPS[op](n, v)
        label = f"{op}{v}"
    else:
        near, far = sorted([rng.random() * unit * 1.2, rng.random() * unit * 1.5])
        if form == "more":
            cond, far = base.more_than(f"{near:.3f} seconds"), None
        elif form == "less":
            cond, near = base.less_than(f"{far:.3f} seconds"), 0
        else:
            cond = base.between(f"{near:.3f} seconds", f"{far:.3f} seconds")
        label = form
    return cond, task or "a", round(near, 3), None if far is None else round(far, 3), ref, label


def live_runs(recs, task):
    ended = {r.run_id for r in recs if r.task == task and r.action != "run"}
    return [r for r in recs if r.task == task and r.action == "run" and r.run_id not in ended]


def judge(ctx, app, conds, runs_of, mode, execution):
    me = app.session["a"]
    with app.clock.hold():
        now = app.clock.peek()
        for cond, task, near, far, ref, label in conds:
            alive = runs_of(task)
            ages = [now - s for s in alive]
            if any(abs(a - near) < 0.005 and near or (far is not None and abs(a - far) < 0.005) for a in ages):
                ctx.saw("edge_skipped")
                continue
            n = sum(near <= a and (far is None or a <= far) for a in ages)
            want = ref(n)
            got = cond.observe(task=me, session=app.session)
            ctx.check(bool(got) == want, f"running-{mode}", "the running condition does not agree with the runs under way", cond=f"{task} {label} {near} {far}", ages=ages, count=n,
                      got=got, want=want, execution=execution)
            ctx.saw("true" if want else "false")
            ctx.saw(f"mode_{mode}")
            ctx.sig(label, min(n, 4), len(ages) > n, mode, execution, want)


def live(ctx):
    from rocketry.conditions import FuncCond
    rng = ctx.rng
    clock = Clock()
    force = rng.random() < 0.5
    unit = rng.choice([0.5, 20, 3000])
    model = rng.choice([RunRecord, MinimalRunRecord])
    app = App(clock, model=model, force_status_from_logs=force, cycle_sleep=unit / 20, multilaunch=True)
    go = {}

    def make(name):
        async def body():
            o = rng.random()
            await asyncio.sleep(unit * rng.random() * 1.5)
            if o < 0.3:
                raise Planned("planned")
        return body
    for n in TASKS:
        app.add(make(n), n, start_cond=FuncCond(lambda n=n: go.get(n)), execution="async")
    conds = [rand_cond(rng, unit) for _ in range(8)]

    def before(k):
        for n in TASKS:
            go[n] = rng.random() < 0.25
        judge(ctx, app, conds, lambda t: [r.start for r in live_runs(app.tap.recs, t)], "logs" if force else "live", "async")
        if rng.random() < 0.1:
            t = app.session[rng.choice(TASKS)]
            t.terminate()
    app.at_cycle(before)
    app.stop_after(cycles=25)
    out = app.serve()
    app.close()
    if out.exception:
        raise out.exception
    if out.stopped:
        ctx.inconclusive(out.stopped)
    ctx.sample(f"unit {unit} s, {'log only' if force else 'live'}: {[c[5] for c in conds]}")
    ctx.saw("runs", sum(r.action == "run" for r in app.tap.recs))


def woken(ctx):
    "A new scheduler does not take the runs of a dead one for running"
    rng = ctx.rng
    start = to_ts(datetime.datetime(2022, 3, 1) + R.TD(seconds=rng.randrange(86400 * 300)))
    events = rand_history(rng, TASKS, start, span=rng.choice([5, 100, 5000]), unfinished=True)
    force = rng.random() < 0.6
    with_id = rng.random() < 0.6
    repo = MemoryRepo(model=MinimalRunRecord if with_id else MinimalRecord)
    app = HistApp([], start, repo=repo, force_status_from_logs=force)
    for e in events:
        kw = {"run_id": e.run_id} if with_id else {}
        repo.add(repo.model(task_name=e.task, action=e.action, created=e.t, **kw))
    for n in TASKS:
        app.add(lambda: None, n, execution="main")
    conds = [rand_cond(rng, 5000) for _ in range(8)]

    def look(k):
        judge(ctx, app, conds, lambda t: [], "woken-logs" if force else "woken", "-")
    app.inside(look, cycles=2)
    if any(e.action == "run" and not any(x.run_id == e.run_id and x is not e for x in events) for e in events):
        ctx.saw("dead_runs")


KINDS = {"live": (live, 800, 12000), "woken": (woken, 400, 6000)}
FLOORS = {"true": 3000, "false": 5000, "mode_live": 5000, "mode_logs": 5000, "dead_runs": 60, "runs": 3000}
