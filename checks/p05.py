import datetime
from fractions import Fraction

ID = "P05"
RULE = ("random duration texts made of value/unit tokens in every spelling, order, separator, decimals, sign and HH:MM:SS tails, compared with "
        "exact rational arithmetic; sliding windows (past/future, near/far) probed at random instants and at/beside both edges; "
        "distinct: (units used, decimals, clock tail, sign, separators) and (kind of window, side, inside, at edge)")
ASSUMES = ["durations below 10000 of the largest unit", "a text ends with a unit or the seconds (no trailing separator)"]

TD = datetime.timedelta
US = TD(microseconds=1)
UNITS = {
    "microsecond": (1, ["microseconds", "microsecond", "μs"]),
    "millisecond": (1000, ["milliseconds", "millisecond", "ms"]),
    "second": (10**6, ["seconds", "second", "secs", "sec", "s"]),
    "minute": (60 * 10**6, ["minutes", "minute", "mins", "min", "m"]),
    "hour": (3600 * 10**6, ["hours", "hour", "hrs", "hr", "h"]),
    "day": (86400 * 10**6, ["days", "day", "d"]),
}


def rand_duration(rng, max_tokens=4, sign=True, units=UNITS):
    "-> (text, exact microseconds, signature)"
    names = rng.sample(sorted(units), rng.randint(1, min(max_tokens, len(units))))
    if rng.random() < 0.7:
        names.sort(key=lambda u: -UNITS[u][0])
    total = Fraction(0)
    text = ""
    forms = []
    for name in names:
        mult, spellings = UNITS[name]
        r = rng.random()
        if r < 0.7:
            num = str(rng.choice([0, 1, 2, 5, 10, 59, 60, 61, 100, rng.randrange(10000)]))
        else:
            num = f"{rng.randrange(500)}.{rng.randrange(1000):03d}".rstrip("0")
            num = num if num[-1] != "." else num + "5"
        if text:
            text += rng.choice([" ", ", ", ",", ""])
        spelled = rng.choice(spellings)
        text += num + rng.choice([" ", "", "", "  "]) + spelled
        total += Fraction(num) * mult
        forms.append((name, spelled, "." in num))
    tail = False
    if rng.random() < 0.2:
        h, m, s = rng.randrange(48), rng.randrange(60), rng.randrange(60)
        sec = f"{s:02d}" if rng.random() < 0.6 else f"{s:02d}.{rng.randrange(1000):03d}"
        if rng.random() < 0.4:
            text, total, forms = "", Fraction(0), []
        text += (" " if text else "") + f"{h:02d}:{m:02d}:{sec}"
        total += h * UNITS["hour"][0] + m * UNITS["minute"][0] + Fraction(sec) * 10**6
        tail = True
    neg = False
    if sign and rng.random() < 0.25:
        pre = rng.choice(["-", "+", "- ", "--", "-+"])
        text = pre + text
        neg = pre.count("-") % 2 == 1
        total = -total if neg else total
    return text, total, (tuple(forms), tail, neg)


def close(td, us):
    return abs(Fraction(td // US) - us) <= 1 and (us.denominator != 1 or abs(td // US - us) == 0)


def text(ctx):
    from rocketry.pybox.time import to_timedelta
    from rocketry.time import TimeDelta
    rng = ctx.rng
    for _ in range(10):
        s, want, sig = rand_duration(rng)
        got = to_timedelta(s)
        ctx.check(close(got, want), "value", "the duration text means another length of time", text=s, got=got, want_us=want)
        past = TimeDelta(s).past
        ctx.check(close(past, abs(want)), "window", "a window given with a duration text has another length", text=s, got=past, want_us=want)
        ctx.saw("texts")
        ctx.sig("t", sig)
    ctx.sample(s)


def used(ctx):
    "Where the texts go: timeouts, every, retries of configurations"
    from rocketry import Rocketry
    from rocketry.conds import every
    rng = ctx.rng
    s, want, sig = rand_duration(rng, sign=False)
    n, want_n = rng.randrange(1, 10**6), None
    app = Rocketry(config={"timeout": s, "execution": "async"})
    ctx.check(close(app.session.config.timeout, want), "config-timeout", "timeout of the session is another length of time", text=s, got=app.session.config.timeout)
    app2 = Rocketry(config={"timeout": n / 10, "execution": "async"})
    ctx.check(abs(app2.session.config.timeout - TD(seconds=n / 10)) <= US, "config-timeout-number", "a number as timeout is not seconds", n=n / 10)
    t = app.session.create_task(func=lambda: None, name="a", timeout=s)
    t = app.session["a"]
    ctx.check(close(t.timeout, want), "task-timeout", "timeout of the task is another length of time", text=s, got=t.timeout)
    p = every(s).period
    ctx.check(close(p.past, want), "every", "every(...) is another length of time", text=s, got=p.past)
    ctx.saw("used")


def window(ctx):
    from rocketry.time import TimeDelta, TimeSpanDelta
    rng = ctx.rng
    ref = datetime.datetime(2023, 5, 17, 12) + TD(seconds=rng.randrange(-10**8, 10**8), microseconds=rng.randrange(10**6))
    arg = lambda: rng.choice([TD(), TD(seconds=rng.randrange(1, 10**6)), TD(days=rng.randrange(400)), TD(microseconds=rng.randrange(10**9))])

    def form(td):
        r = rng.random()
        if r < 0.3:
            return f"{td // US} microseconds"
        if r < 0.5:
            return -td
        return td
    edges = []
    if rng.random() < 0.5:
        past, future = arg(), arg()
        which = rng.choice(["past", "future", "both"])
        kw = {}
        if which != "future":
            kw["past"] = form(past)
        else:
            past = TD()
        if which != "past":
            kw["future"] = form(future)
        else:
            future = TD()
        p = TimeDelta(**kw)
        if rng.random() < 0.5:
            p = p.use_reference(ref)
        else:
            p = TimeDelta(reference=ref, **kw)
        inside = lambda t: ref - past <= t <= ref + future
        edges = [ref - past, ref + future, ref]
        back, fwd = (lambda d: (d - past, d)), (lambda d: (d, d + future))
        ctx.sample(f"TimeDelta({kw})")
    else:
        which = "span"
        near, far = sorted([arg(), arg()])
        kw = {"near": form(near)}
        if rng.random() < 0.3:
            far = None
        else:
            kw["far"] = form(far)
        if rng.random() < 0.2:
            near = TD()
            kw.pop("near")
        p = TimeSpanDelta(**kw).use_reference(ref)
        inside = lambda t: abs(t - ref) >= near and (far is None or abs(t - ref) <= far)
        edges = [ref - near, ref + near, ref] + ([ref - far, ref + far] if far is not None else [])
        lo, hi = datetime.datetime(1970, 1, 3, 2), datetime.datetime(2260, 1, 1)
        back = lambda d: (d - far if far is not None else lo, d - near)
        fwd = lambda d: (d + near, d + far if far is not None else hi)
        ctx.sample(f"TimeSpanDelta({kw})")
    for _ in range(10):
        dt = rng.choice(edges) + rng.choice([TD(), US, -US, TD(seconds=rng.randrange(-100, 100)), TD(days=rng.randrange(-900, 900))])
        want = inside(dt)
        ctx.check((dt in p) == want, "sliding-membership-" + which, "membership in a sliding window is not its distance from the reference",
                  window=repr(p), ref=ref, dt=dt, want=want)
        ctx.saw("inside" if want else "outside")
        ctx.sig("w", which, want, dt < ref, dt in edges)
        for name, f in (("rollback", back), ("rollforward", fwd)):
            got = getattr(p, name)(dt)
            ctx.check((got.left, got.right) == f(dt), "sliding-" + name, f"{name} gave another window", window=repr(p), dt=dt, got=got, want=f(dt))
            ctx.saw("rolls")


KINDS = {"text": (text, 1500, 30000), "used": (used, 200, 2000), "window": (window, 1500, 30000)}
FLOORS = {"texts": 10000, "inside": 2000, "outside": 2000, "rolls": 8000, "used": 150}
