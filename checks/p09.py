import datetime

from rvm import ref_time as R
from rvm.drive import Drive, to_dt, to_ts
from rvm.hist import rand_history

ID = "P09"
RULE = ("a task scheduled once per period (hourly/daily/weekly/... with between, before, after, on, starting; also start-based like cron) is driven through random "
        "instants around the window edges, with random outcomes, earlier logs, restarts and crashes; on each cycle it must start if and only if the instant is "
        "in the window and nothing has run to an end in that window; distinct: (period, kind, outcome mix seen, due or not)")
ASSUMES = ["instants within 20 ms before a window edge are not judged", "a crashed run does not count as a run of the period (start-based: it does)"]

WRAPPERS = {"second": "secondly", "minute": "minutely", "hour": "hourly", "day": "daily", "week": "weekly", "month": "monthly"}
LENGTH = {"second": 1, "minute": 60, "hour": 3600, "day": 86400, "week": 604800, "month": 86400 * 30, "year": 86400 * 365}
ENDS = ("success", "fail", "terminate", "inaction")


def build(rng, spec, started):
    from rocketry.conditions import TaskExecutable, TaskRunnable
    from rocketry import conds as C
    if started:
        return lambda: TaskRunnable(period=spec.build())
    w = WRAPPERS.get(spec.scope)
    if w is None or rng.random() < 0.3:
        return lambda: TaskExecutable(period=spec.build())
    w = getattr(C, w)
    if spec.kind == "full":
        return lambda: w
    if spec.kind == "at":
        meth = rng.choice(["at", "on"])
        return lambda: getattr(w, meth)(spec.start.value)
    if spec.kind == "starting":
        return lambda: w.starting(spec.start.value)
    if spec.kind == "after":
        return lambda: w.after(spec.start.value)
    if spec.kind == "before":
        return lambda: w.before(spec.end.value)
    return lambda: w.between(spec.start.value, spec.end.value)


def once(ctx):
    rng = ctx.rng
    while True:
        spec = R.rand_spec(rng, ("minute", "hour", "hour", "day", "day", "day", "week", "week", "month", "year"))
        if not spec.month_ended:
            break
    started = rng.random() < 0.25
    start_dt = datetime.datetime(2021, 1, 1) + R.TD(seconds=rng.randrange(86400 * 1500))
    start = to_ts(start_dt)
    events = rand_history(rng, ["job"], start, span=LENGTH[spec.scope] * 2) if rng.random() < 0.5 else []
    actions = ("run",) if started else ENDS

    def eligible(now, log):
        dt = to_dt(now)
        if not spec.contains(dt):
            return False
        left, _ = spec.back(dt)
        left = to_ts(left)
        if any(abs(e.t - left) < 0.002 for e in log):
            return None
        return not any(e.t >= left for e in log if e.action in actions)

    def step(now):
        dt = to_dt(now)
        r = rng.random()
        if r < 0.25:
            nxt = min(to_ts(e) for e in spec.edges(dt) + [spec.next_boundary(dt)] if e > dt)
            return nxt - now + rng.choice([0.01, 0.5, 30]) * rng.random()
        if r < 0.35:
            nxt = min(to_ts(e) for e in spec.edges(dt) + [spec.next_boundary(dt)] if e > dt)
            return max(0, nxt - now - rng.choice([0.2, 1, 30]) * rng.random())
        if r < 0.6:
            return rng.random() * 0.5
        return rng.random() * LENGTH[spec.scope] * rng.choice([0.05, 0.3, 1.2])

    def edges(now, log):
        return [to_ts(e) for e in spec.edges(to_dt(now))] + [to_ts(spec.next_boundary(to_dt(now)))]

    cond = build(rng, spec, started)
    d = Drive(ctx, cond, eligible, step, events=events, start=start, sessions=rng.choice([1, 2, 3]), cycles=rng.choice([12, 25]),
              edges=edges, label=f"{spec!r} {'start-based' if started else ''}", durations=[0, 0.01, 0.5, 5, LENGTH[spec.scope] * 0.3], key="once-started" if started else "once")
    d.run()
    ctx.sample(f"{spec!r}{' start-based' if started else ''}")
    ctx.saw("starts", d.starts)
    ctx.sig(spec.scope, spec.kind, spec.wraps, started, d.starts > 0)
    for e in d.events:
        ctx.saw("outcome_" + e.action)
    ctx.sig(repr(spec))


KINDS = {"once": (once, 2500, 40000)}
FLOORS = {"start_due": 2500, "not_due": 5000, "crashes": 60, "busy": 100, "outcome_fail": 300, "outcome_inaction": 300, "outcome_success": 500}
