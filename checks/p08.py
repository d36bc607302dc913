import datetime
import operator

from rvm import ref_time as R
from rvm.hist import HistApp, rand_history, Ev
from rvm.sim import App, Clock

ID = "P08"
RULE = ("sessions that wake up with a random task log and keep running tasks with random outcomes; has started/succeeded/failed/finished/terminated/inacted "
        "conditions over anchored, sliding and open periods with random comparisons are observed at many instants and compared with counting the records "
        "in the window the calendar reference gives, with the cached statuses and with the log-only mode side by side; "
        "distinct: (action, kind of period, comparison, count, last occurrence before/in/after the window, mode)")
ASSUMES = ["instants within 2 ms of a record being at the very edge of a window are not judged"]

OPS = {"==": operator.eq, "!=": operator.ne, "<": operator.lt, ">": operator.gt, "<=": operator.le, ">=": operator.ge}
UTC = datetime.timezone.utc
TASKS = ["a", "b", "me"]
ACTIONS = {"TaskStarted": ("run",), "TaskSucceeded": ("success",), "TaskFailed": ("fail",), "TaskFinished": ("success", "fail", "terminate"),
           "TaskTerminated": ("terminate",), "TaskInacted": ("inaction",)}


def to_dt(t):
    return datetime.datetime.fromtimestamp(t, tz=UTC).replace(tzinfo=None)


def to_ts(dt):
    return dt.replace(tzinfo=UTC).timestamp()


def rand_period(rng):
    "-> (period, function(now datetime) -> (left, right), label)"
    from rocketry.time import TimeDelta, TimeSpanDelta, always
    r = rng.random()
    if r < 0.15:
        return None, (lambda now: (datetime.datetime(1980, 1, 1), now)), "none"
    if r < 0.22:
        return always, (lambda now: (datetime.datetime(1980, 1, 1), now)), "always"
    if r < 0.45:
        td = R.TD(seconds=rng.choice([0.5, 20, 600, 3600, 86400, 20 * 86400]) * rng.random())
        return TimeDelta(td), (lambda now: (now - td, now)), "past"
    if r < 0.55:
        near, far = sorted(R.TD(seconds=rng.choice([0.5, 20, 600, 3600, 86400, 20 * 86400]) * rng.random()) for _ in range(2))
        return TimeSpanDelta(near=near, far=far), (lambda now: (now - far, now - near)), "span"
    while True:
        spec = R.rand_spec(rng, ("minute", "hour", "day", "week", "month"))
        if not spec.month_ended:
            break
    return spec.build(), spec.back, spec.scope + ":" + spec.kind


def rand_cond(rng, own):
    from rocketry import conditions as K
    cls = rng.choice(list(ACTIONS))
    period, window, label = rand_period(rng)
    task = None if own else rng.choice(TASKS)
    args = {}
    if period is not None or rng.random() < 0.5:
        args["period"] = period
    if task:
        args["task"] = task
    base = getattr(K, cls)(**args)
    ops = rng.choice([[], [], ["=="], ["=="], [">"], [">="], ["<"], ["<="], ["!="], [">=", "<="], [">", "<"]])
    vals = [rng.choice([0, 0, 1, 1, 2, 3]) for _ in ops]
    cond = base
    for o, v in zip(ops, vals):
        cond = OPS[o](cond, v)

    def ref(n):
        return all(OPS[o](n, v) for o, v in zip(ops, vals)) if ops else n > 0
    comp = " ".join(f"{o}{v}" for o, v in zip(ops, vals))
    return cond, cls, task or "me", window, ref, label, comp


def judge(ctx, app, conds, events, mode):
    "Observe all the conditions now; the clock stands still"
    me = app.session["me"]
    with app.clock.hold():
        now = to_dt(app.clock.peek())
        for cond, cls, task, window, ref, label, comp in conds:
            left, right = window(now)
            lt, rt = to_ts(left), to_ts(right)
            mine = [e.t for e in events if e.task == task and e.action in ACTIONS[cls]]
            if any(abs(t - lt) < 0.002 or (abs(t - rt) < 0.002 and right != now) for t in mine):
                ctx.saw("edge_skipped")
                continue
            n = sum(lt <= t <= rt for t in mine)
            want = ref(n)
            # (the task or its function if it was decorated)
            by = me.func if hasattr(me.func, "__rocketry__") and ctx.rng.random() < 0.3 else me
            got = cond.observe(task=by, session=app.session)
            ctx.saw("observed_by_function", int(by is not me))
            ctx.check(got == want, f"count-{mode}", "the condition on the past runs does not agree with the log", cond=f"{cls} of {task} {label} {comp}",
                      now=now, window=f"{left} - {right}", count=n, got=got, want=want, events=[e for e in events if e.task == task][-12:])
            last = max(mine, default=None)
            pos = "none" if last is None else "before" if last < lt else "in" if last <= rt else "after"
            ctx.saw(f"last_{pos}")
            ctx.saw("true" if want else "false")
            ctx.saw(f"mode_{mode}")
            ctx.sig(cls, label, comp, min(n, 3), pos, mode)


def history(ctx):
    rng = ctx.rng
    start = to_ts(datetime.datetime(2021, 1, 1) + R.TD(seconds=rng.randrange(86400 * 1500)))
    events = rand_history(rng, TASKS, start)
    force = rng.random() < 0.4
    app = HistApp(events, start, force_status_from_logs=force)
    for name in TASKS:
        app.session.create_task(name=name, execution="main")(lambda: None)
    conds = [rand_cond(rng, rng.random() < 0.4) for _ in range(12)]
    ctx.sample(f"{conds[0][1]} of {conds[0][2]} {conds[0][5]} {conds[0][6]}; {len(events)} records")
    mode = "logs" if force else "cached"

    def look(n):
        judge(ctx, app, conds, events, mode)
        app.clock.advance(rng.choice([0.5, 7, 61, 1000, 3700, 40000, 100000, 86400 * 9]) * rng.random())
    app.inside(look, cycles=6)


def live(ctx):
    "The log grows by real runs"
    from rocketry.exc import TaskInactionException
    from rocketry.conditions import FuncCond
    rng = ctx.rng
    start = to_ts(datetime.datetime(2021, 1, 1) + R.TD(seconds=rng.randrange(86400 * 1500)))
    events = rand_history(rng, TASKS, start)
    force = rng.random() < 0.4
    execution = rng.choice(["main", "async"])
    app = HistApp(events, start, force_status_from_logs=force, execution=execution)
    clock = app.clock
    plan = {}

    def make(name):
        def body():
            clock.advance(rng.random() * 3)
            if plan[name] == "fail":
                raise RuntimeError("planned")
            if plan[name] == "inaction":
                raise TaskInactionException()

        async def abody():
            body()
        return body if execution == "main" else abody
    for name in TASKS:
        app.add(make(name), name, execution=execution, start_cond=FuncCond(lambda name=name: plan.get(name) is not None))
    conds = [rand_cond(rng, rng.random() < 0.4) for _ in range(8)]

    def before(n):
        for name in TASKS:
            plan[name] = rng.choice([None, None, "success", "fail", "inaction"])

    def after(n):
        seen = events + [Ev(r.task, r.action, r.created, r.run_id) for r in app.tap.recs]
        clock.advance(0.01)
        judge(ctx, app, conds, seen, "logs" if force else "cached")
        clock.advance(rng.choice([0.5, 7, 61, 1000, 3700, 40000, 100000, 86400 * 9]) * rng.random())
    app.at_cycle(before)
    app.after_cycle(after)
    app.stop_after(cycles=10)
    out = app.serve()
    app.close()
    if out.exception:
        raise out.exception
    ctx.saw("live_runs", len(app.tap.recs))


KINDS = {"history": (history, 1200, 20000), "live": (live, 500, 8000)}
FLOORS = {"true": 5000, "false": 5000, "last_before": 2000, "last_in": 2000, "last_after": 500, "last_none": 1000, "mode_cached": 5000, "mode_logs": 5000,
          "live_runs": 3000}
