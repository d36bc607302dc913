import datetime

from rvm import ref_time as R
from rvm.drive import Drive, to_dt, to_ts
from rvm.hist import rand_history

ID = "P10"
RULE = ("a task on every(interval) based on run, success, fail or finish, on retry(n), or a combination, driven through random instants beside the moment the interval "
        "has passed, with random outcomes, earlier logs, restarts and crashes; on each cycle it must start if and only if the interval since the latest such event has passed "
        "/ the task failed last and at most n times in a row; distinct: (condition, based on, outcomes seen, due or not)")
ASSUMES = ["instants within 20 ms before the end of the interval are not judged"]

ENDS = ("success", "fail", "terminate", "inaction")
BASED = {"run": ("run",), "success": ("success",), "fail": ("fail",), "finish": ENDS}


def _every(rng):
    from rocketry.conds import every
    delta = rng.choice([0.5, 5, 60, 3600, 86400, 5 * 86400])
    based = rng.choice(list(BASED))
    text = {0.5: ["500 ms", "0.5 s"], 5: ["5 seconds", "5s"], 60: ["1 min", "60 seconds"], 3600: ["1 hour", "60 min"], 86400: ["1 day", "24 h"],
            5 * 86400: ["5 days", "120 hours"]}[delta]
    text = rng.choice(text)
    kw = {} if based == "run" and rng.random() < 0.5 else {"based": based}

    def due(now, log):
        return not any(now - delta <= e.t <= now for e in log if e.action in BASED[based])
    return (lambda: every(text, **kw)), due, delta, lambda log: [e.t + delta for e in log], f"every {text} based on {based}", ("every", based)


def _retry(rng):
    from rocketry.conds import retry
    n = rng.choice([None, 0, 1, 1, 2, 3, -1])

    def due(now, log):
        if not log or log[-1].action != "fail":
            return False
        if n in (None, -1):
            return True
        row = 0
        for e in reversed(log):
            if e.action == "fail":
                row += 1
            elif e.action != "run":
                break
        return row <= n
    return (lambda: retry if n is None else retry(n)), due, None, lambda log: [], f"retry {n}", ("retry", n)


def _daily(rng):
    from rocketry import conds as C
    scope = rng.choice(["hour", "day"])
    w = {"hour": C.hourly, "day": C.daily}[scope]

    def due(now, log):
        left = to_ts(R.cycle_start(scope, to_dt(now)))
        return not any(e.t >= left for e in log if e.action in ENDS)

    def edges(log):
        out = []
        for e in log[-3:]:
            cs = R.cycle_start(scope, to_dt(e.t))
            out += [to_ts(R.cycle_shift(scope, cs, i)) for i in range(-1, 30)]
        return out
    return (lambda: w), due, {"hour": 3600, "day": 86400}[scope], edges, scope, (scope,)


def drive(ctx):
    rng = ctx.rng
    form = rng.choice(["every", "every", "every", "retry", "daily|retry", "every|retry", "every&true", "every&daily"])
    if form == "retry":
        parts = [_retry(rng)]
    elif form == "daily|retry":
        parts = [_daily(rng), _retry(rng)]
    elif form == "every|retry":
        parts = [_every(rng), _retry(rng)]
    elif form == "every&daily":
        parts = [_every(rng), _daily(rng)]
    else:
        parts = [_every(rng)]
    unit = max([p[2] or 1 for p in parts])
    any_ = "|" in form

    def make():
        from rocketry.conds import true
        cond = parts[0][0]()
        if form == "every&true":
            return cond & true
        for p in parts[1:]:
            cond = (cond | p[0]()) if any_ else (cond & p[0]())
        return cond

    def eligible(now, log):
        vals = [p[1](now, log) for p in parts]
        return any(vals) if any_ else all(vals)

    def edges(now, log):
        return [e for p in parts for e in p[3](log[-6:])]

    def step(now):
        r = rng.random()
        ahead = [e for e in edges(now, d.cur) if e > now] if d.cur else []
        if r < 0.3 and ahead:
            return min(ahead) - now + rng.choice([0.005, 0.3, 0.1 * unit]) * rng.random()
        if r < 0.4 and ahead:
            return max(0, min(ahead) - now - rng.choice([0.2, 0.05 * unit]) * rng.random())
        if r < 0.6:
            return rng.random() * 0.3
        return rng.random() * unit * rng.choice([0.1, 0.6, 1.5])
    start = to_ts(datetime.datetime(2021, 1, 1) + R.TD(seconds=rng.randrange(86400 * 1500)))
    events = rand_history(rng, ["job"], start, span=unit * 3) if rng.random() < 0.6 else []
    label = " and/or ".join(p[4] for p in parts) + f" ({form})"
    d = Drive(ctx, make, eligible, step, events=events, start=start, sessions=rng.choice([1, 2, 3]), cycles=rng.choice([12, 25]), edges=edges, label=label,
              durations=[0, 0.01, 0.3, unit * 0.3, unit * 1.2], key=parts[0][5][0], outcomes=rng.choice([("success", "fail"), ("fail",), ("success", "fail", "fail", "fail", "inaction")]))
    d.cur = list(events)
    # steps aim at the edges of the log so far
    log_of = d.log
    d.log = lambda app: d.__dict__.__setitem__("cur", log_of(app)) or d.cur
    d.run()
    ctx.sample(label)
    ctx.saw("starts", d.starts)
    for p in parts:
        ctx.saw("with_" + p[5][0])
    ctx.sig(form, tuple(p[5] for p in parts), d.starts > 0, len(events) > 0)
    fails = 0
    for e in d.events:
        ctx.saw("outcome_" + e.action)
        fails = fails + 1 if e.action == "fail" else (fails if e.action == "run" else 0)
        if fails > 2:
            ctx.saw("long_fail_rows")


KINDS = {"drive": (drive, 1800, 30000)}
FLOORS = {"start_due": 2500, "not_due": 5000, "crashes": 60, "busy": 100, "with_every": 500, "with_retry": 300, "long_fail_rows": 100}
