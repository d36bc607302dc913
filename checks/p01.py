from rvm import ref_time as R

ID = "P01"
RULE = ("random anchored periods (second..year; between/after/before/at/starting/full; int, str, float and named "
        "points; wrapped windows; short months and leap years), each probed at random instants and at/1 us beside the "
        "edges of its windows; non-trivial: a probe within 1 s of an edge; distinct: (scope, kind, wraps, edge side, verdict, form of the points)")
ASSUMES = ["naive datetimes", "dates 2019-2026"]


def membership(ctx):
    rng = ctx.rng
    spec = R.rand_spec(rng)
    period = spec.build()
    ctx.sample(repr(spec))
    for dt in R.rand_dts(rng, spec, 40):
        want = spec.contains(dt)
        got = dt in period
        ctx.saw("inside" if want else "outside")
        near = [e for e in spec.edges(dt) if abs(e - dt) <= R.TD(seconds=1)]
        if near:
            ctx.saw("near_edge")
            ctx.sig(spec.scope, spec.kind, spec.wraps, [(e - dt).total_seconds() for e in near], want,
                    type(spec.start and spec.start.value).__name__, type(spec.end and spec.end.value).__name__)
        if want and not got and R.month_end_quirk(spec, dt):
            ctx.check(False, "year-month-end-last-microsecond",
                      "the last microsecond of the last month of a year window is left out", spec=spec, dt=dt)
            continue
        ctx.check(got == want, f"membership-{spec.scope}-{'wrapped' if spec.wraps else 'plain'}",
                  "membership differs from the calendar", spec=spec, period=repr(period), dt=dt, got=got, want=want)


def aware(ctx):
    "The same holds for the wall clock of aware datetimes"
    import datetime
    rng = ctx.rng
    spec = R.rand_spec(rng)
    period = spec.build()
    tz = datetime.timezone(datetime.timedelta(minutes=rng.choice([-570, -300, 0, 60, 120, 345, 840])))
    for dt in R.rand_dts(rng, spec, 15):
        want = spec.contains(dt)
        got = dt.replace(tzinfo=tz) in period
        ctx.saw("aware")
        if want and not got and R.month_end_quirk(spec, dt):
            ctx.check(False, "year-month-end-last-microsecond",
                      "the last microsecond of the last month of a year window is left out", spec=spec, dt=dt)
            continue
        ctx.check(got == want, f"aware-membership-{spec.scope}", "membership of an aware datetime differs from its wall clock",
                  spec=spec, dt=dt, tz=tz, got=got, want=want)
        ctx.sig("aware", spec.scope, spec.kind, want)


def invalid(ctx):
    "Points that do not exist are refused when the period is made"
    rng = ctx.rng
    bad = {
        "minute": [60, -1, 75], "hour": [60, -1, 99, "61 past"], "day": [24, -1, 30, "25:00", "10:61"],
        "week": [0, 8, -1, "Foo", "Caturday 10:00"], "month": [0, 32, -1, "33rd", "40."],
        "year": [0, 13, -1, "Foo"],
    }
    scope = rng.choice(list(bad))
    value = rng.choice(bad[scope])
    cls = R.CLASSES[scope]
    how = rng.choice(["start", "end", "at"])
    try:
        {"start": lambda: cls(value, None), "end": lambda: cls(None, value), "at": lambda: cls.at(value)}[how]()
    except (ValueError, KeyError, TypeError, AttributeError):
        refused = True
    else:
        refused = False
    ctx.saw("invalid_points")
    ctx.sig("invalid", scope, value, how)
    ctx.check(refused, "invalid-point-accepted", "a point outside of the cycle was accepted", scope=scope, value=value, how=how)


KINDS = {"membership": (membership, 12000, 200000), "aware": (aware, 500, 8000), "invalid": (invalid, 150, 300)}
FLOORS = {"inside": 20000, "outside": 20000, "near_edge": 20000, "aware": 1000, "invalid_points": 100}
