import datetime

from rvm import ref_time as R

ID = "P02"
RULE = ("random anchored periods rolled forward and back from random instants and instants at/beside the window edges, "
        "compared with the window enumerated on the calendar; chains of rolls must visit every window in order; "
        "non-trivial: the roll moved to another window or the instant was within 1 s of an edge; "
        "distinct: (scope, kind, wraps, full, inside, at-edge, direction)")
ASSUMES = ["dates 2019-2026"]


def _cmp(ctx, spec, dt, direction, got, want, key):
    left, right = got.left, got.right
    ok = (left, right) == want
    if not ok and spec.month_ended and left == want[0] and right == want[1] - R.US:
        ctx.check(False, "year-month-end-last-microsecond", "a year window ending with a month ends a microsecond early",
                  spec=spec, dt=dt)
        return True
    if not ok and spec.month_ended and any(dt + R.US == r or dt == r for _, r in spec.windows(dt)):
        ctx.check(False, "year-month-end-last-microsecond", "a year window ending with a month ends a microsecond early",
                  spec=spec, dt=dt)
        return True
    return ctx.check(ok, key, f"{direction} gave another window than the calendar", spec=spec, dt=dt,
                     got=(str(left), str(right)), want=tuple(map(str, want)))


def roll(ctx):
    rng = ctx.rng
    spec = R.rand_spec(rng)
    period = spec.build()
    tz = None
    if rng.random() < 0.15:
        tz = datetime.timezone(datetime.timedelta(minutes=rng.choice([-570, -300, 0, 60, 345, 840])))
    ctx.sample(repr(spec))
    for dt in R.rand_dts(rng, spec, 12):
        inside = spec.contains(dt)
        edge = any(abs(e - dt) <= R.TD(seconds=1) for e in spec.edges(dt))
        arg = dt.replace(tzinfo=tz) if tz else dt
        for direction, want in (("rollforward", spec.forward(dt)), ("rollback", spec.back(dt))):
            got = getattr(period, direction)(arg)
            if tz:
                ctx.check(got.left.tzinfo is tz and got.right.tzinfo is tz, "tz-lost", "the time zone was lost in rolling", spec=spec)
                got = type(got)(got.left.replace(tzinfo=None), got.right.replace(tzinfo=None), closed=got.closed)
            _cmp(ctx, spec, dt, direction, got, want, f"{direction}-{spec.scope}{'-full' if spec.is_full else ''}")
            ctx.saw(direction)
            if not inside or edge:
                ctx.saw("moved" if not inside else "at_edge")
                ctx.sig(spec.scope, spec.kind, spec.wraps, spec.is_full, inside, edge, direction)
            if not spec.is_full:
                # A window that is not a single point contains its left end
                ctx.check(got.left in got or got.is_empty is False, "empty-window", "rolling gave a window without any points",
                          spec=spec, dt=dt, got=got)


def chain(ctx):
    "Rolling from the end of a window gives the next one: no window is skipped or repeated"
    rng = ctx.rng
    spec = R.rand_spec(rng)
    if spec.is_full:
        return
    period = spec.build()
    dt = R.rand_dt(rng)
    back = rng.random() < 0.5
    n = 14
    wins = spec.windows(dt, 20 if back else 1, 1 if back else 20)
    if back:
        expected = [w for w in wins if w[1] <= dt][::-1][:n]
        cur = dt if not spec.contains(dt) else max(l for l, r in wins if l <= dt)
        got = []
        for _ in range(len(expected)):
            i = period.rollback(cur - R.US if got or spec.contains(dt) else cur)
            # a running window is cut at the instant, so step to its start
            got.append((i.left, i.right))
            cur = i.left
    else:
        expected = [w for w in wins if w[0] > dt][:n]
        cur = dt if not spec.contains(dt) else min(r for l, r in wins if r > dt)
        got = []
        for _ in range(len(expected)):
            i = period.rollforward(cur)
            got.append((i.left, i.right))
            cur = i.right if i.right > i.left else i.right + R.US
    ctx.saw("chains")
    ctx.saw("chained_windows", len(expected))
    ctx.sig("chain", spec.scope, spec.kind, spec.wraps, back)
    # Adjacent windows (ie. short months) are not merged on the calendar: compare the starts only
    if spec.month_ended:
        ok = [g[0] for g in got] == [w[0] for w in expected]
    else:
        ok = got == expected or (back and [g[0] for g in got] == [w[0] for w in expected])
    ctx.check(ok, f"chain-{'back' if back else 'forward'}-{spec.scope}", "rolling window by window skipped or repeated one",
              spec=spec, dt=dt, got=[tuple(map(str, g)) for g in got][:4], want=[tuple(map(str, w)) for w in expected][:4])


KINDS = {"roll": (roll, 10000, 150000), "chain": (chain, 3000, 40000)}
FLOORS = {"rollforward": 30000, "rollback": 30000, "moved": 10000, "at_edge": 10000, "chained_windows": 10000}
