import calendar
import datetime

from rvm.sim import App, Clock, ts

ID = "P04"
RULE = ("random crontab expressions (values, lists, ranges, steps, names, both day fields) against an independent crontab evaluator: "
        "membership and rolls at random instants and minute edges, and whole simulated schedules driven by the expression; "
        "distinct: (form of each field, inside, day rule used, kind of roll)")
ASSUMES = ["dates 2019-2028", "a star inside a list, steps over the day of month combined with a day of week and ranges over the end of a field are not generated",
           "the last microsecond of a month is not probed when the month field is set (known finding of P01)"]

D, TD = datetime.datetime, datetime.timedelta
MIN = TD(minutes=1)
MONTHS = ["jan", "feb", "mar", "apr", "may", "jun", "jul", "aug", "sep", "oct", "nov", "dec"]
DAYS = ["mon", "tue", "wed", "thu", "fri", "sat", "sun"]
FIELDS = {"minute": (0, 59), "hour": (0, 23), "dom": (1, 31), "month": (1, 12), "dow": (0, 6)}


def rand_field(rng, field, allow_step=True):
    "-> (expression, set of values, form)"
    lo, hi = FIELDS[field]
    everything = set(range(lo, hi + 1))

    def name(v):
        if field == "month" and rng.random() < 0.3:
            return rng.choice([str.lower, str.title, str.upper])(MONTHS[v - 1])
        if field == "dow":
            if rng.random() < 0.3:
                return rng.choice([str.lower, str.title])(DAYS[(v - 1) % 7])
            if v == 0 and rng.random() < 0.4:
                return "7"
        return str(v)

    def atom():
        r = rng.random()
        if r < 0.4:
            v = rng.randint(lo, hi)
            return name(v), {v}, "v"
        if r < 0.7 or not allow_step:
            a = rng.randint(lo, hi)
            b = rng.randint(a, hi)
            if field == "dow" and rng.random() < 0.3:
                # a week may also end on Sunday
                a = rng.randint(1, 6)
                return f"{a}-7", set(range(a, 7)) | {0}, "r7"
            return f"{a}-{b}", set(range(a, b + 1)), "r"
        step = rng.choice([1, 2, 3, 4, 5, 7, 10, 15, 20, 25, 31, 40])
        step = min(step, hi)
        if r < 0.8:
            return f"*/{step}", set(range(lo, hi + 1, step)), "s*"
        if r < 0.9:
            a = rng.randint(lo, hi)
            return f"{a}/{step}", set(range(a, hi + 1, step)), "s1"
        a = rng.randint(lo, hi)
        b = rng.randint(a, hi)
        return f"{a}-{b}/{step}", set(range(a, b + 1, step)), "sr"

    r = rng.random()
    if r < {"minute": 0.15, "hour": 0.3, "dom": 0.5, "month": 0.6, "dow": 0.5}[field]:
        return "*", everything, "*"
    if r < 0.85:
        return atom()
    parts = [atom() for _ in range(rng.randint(2, 4))]
    return ",".join(p[0] for p in parts), set().union(*(p[1] for p in parts)), "L" + "".join(sorted({p[2] for p in parts}))


class Ref:
    def __init__(self, rng, dense=False):
        self.f, self.s, self.form = {}, {}, {}
        for field in FIELDS:
            self.f[field], self.s[field], self.form[field] = rand_field(rng, field, allow_step=True)
        if dense:
            for field in ("month", "dom", "dow"):
                if rng.random() < 0.6:
                    self.f[field], self.s[field], self.form[field] = "*", set(range(FIELDS[field][0], FIELDS[field][1] + 1)), "*"
        if self.f["dom"] != "*" and self.f["dow"] != "*":
            # crontabs differ on whether a stepped star counts as restricted
            for field in ("dom", "dow"):
                while "s*" in self.form[field] or self.f[field] == "*":
                    self.f[field], self.s[field], self.form[field] = rand_field(rng, field)

    @property
    def args(self):
        return [self.f[k] for k in ("minute", "hour", "dom", "month", "dow")]

    def __repr__(self):
        return " ".join(self.args)

    def day_ok(self, d):
        if d.month not in self.s["month"]:
            return False
        dom = d.day in self.s["dom"]
        dow = d.isoweekday() % 7 in self.s["dow"]
        if self.f["dom"] != "*" and self.f["dow"] != "*":
            return dom or dow
        return dom and dow

    def match(self, dt):
        return dt.minute in self.s["minute"] and dt.hour in self.s["hour"] and self.day_ok(dt)

    def next(self, dt, limit=500):
        "First instant >= dt that matches"
        if self.match(dt):
            return dt
        t = dt.replace(second=0, microsecond=0) + MIN
        end = dt + TD(days=limit)
        while t < end:
            if not self.day_ok(t):
                t = (t + TD(days=1)).replace(hour=0, minute=0)
            elif t.hour not in self.s["hour"]:
                t = (t + TD(hours=1)).replace(minute=0)
            elif t.minute not in self.s["minute"]:
                t += MIN
            else:
                return t
        return None

    def prev_minute(self, dt, limit=500):
        "Start of the latest matching minute that starts before dt"
        t = dt - TD(microseconds=1)
        t = t.replace(second=0, microsecond=0)
        end = dt - TD(days=limit)
        while t > end:
            if not self.day_ok(t):
                t = t.replace(hour=0, minute=0) - MIN
            elif t.hour not in self.s["hour"]:
                t = t.replace(minute=0) - MIN
            elif t.minute not in self.s["minute"]:
                t -= MIN
            else:
                return t
        return None

    @property
    def rule(self):
        return (self.f["dom"] != "*") + 2 * (self.f["dow"] != "*")


def rand_dt(rng, ref):
    r = rng.random()
    if r < 0.1:
        # around the ends of months (leap days as well)
        y, m = rng.randint(2019, 2027), rng.randint(1, 12)
        base = D(y, m, calendar.monthrange(y, m)[1], 23, 59) + MIN * rng.randint(-3, 3)
    elif r < 0.4:
        day = D(2019, 1, 1) + TD(days=rng.randrange(3285))
        t = ref.next(day)
        base = (t or day) + MIN * rng.choice([-1, 0, 0, 0, 1])
    else:
        base = D(2019, 1, 1) + MIN * rng.randrange(3285 * 1440)
    base = base.replace(second=0, microsecond=0)
    return base + rng.choice([TD(), TD(), TD(seconds=rng.randrange(60), microseconds=rng.randrange(999999)), MIN - TD(microseconds=2)])


def period(ctx):
    from rocketry.time import Cron
    from rocketry.conds import cron as cron_cond
    rng = ctx.rng
    ref = Ref(rng)
    ctx.sample(repr(ref))
    made = rng.choice(["args", "kwargs", "cond"])
    if made == "args":
        cron = Cron(*ref.args)
    elif made == "kwargs":
        cron = Cron(**{k: v for k, v in zip(("minute", "hour", "day_of_month", "month", "day_of_week"), ref.args) if v != "*"})
    else:
        cron = cron_cond(repr(ref)).period
    forms = tuple(ref.form.values())
    for _ in range(4):
        dt = rand_dt(rng, ref)
        want = ref.match(dt)
        got = dt in cron
        ctx.check(got == want, f"membership", "membership of the instant differs from crontab", cron=ref, dt=dt, got=got, want=want)
        ctx.saw("inside" if want else "outside")
        ctx.sig("m", forms, want)
        left = ref.next(dt)
        if left is not None:
            got = cron.rollforward(dt)
            right = left.replace(second=0, microsecond=0) + MIN
            ctx.check(got.left == left and got.right in (right, right - TD(microseconds=1)), "forward", "the next window is not crontab's next minute",
                      cron=ref, dt=dt, got=got, want=f"{left} - {right}")
            ctx.saw("forward")
            ctx.sig("f", ref.rule, forms)
        if dt.second == 0 and dt.microsecond == 0:
            continue
        prev = ref.prev_minute(dt)
        if prev is not None:
            got = cron.rollback(dt)
            right = min(dt, prev + MIN)
            ctx.check(got.left == prev and right - TD(microseconds=1) <= got.right <= right, "back", "the previous window is not crontab's previous minute",
                      cron=ref, dt=dt, got=got, want=f"{prev} - {right}")
            ctx.saw("back")


def schedule(ctx):
    "The task runs once in every matching minute and never elsewhere"
    from rocketry.conds import cron as cron_cond
    rng = ctx.rng
    ref = Ref(rng, dense=True)
    start = ref.next(D(2021, 1, 1) + TD(days=rng.randrange(1500)))
    if start is None:
        ctx.saw("never")
        return
    start = start.replace(second=0) - MIN * rng.randint(1, 20)
    ctx.sample(f"{ref} from {start}")
    clock = Clock(start.replace(tzinfo=datetime.timezone.utc).timestamp())
    sleep = rng.choice([13, 17, 29])
    app = App(clock, execution=rng.choice(["main", "async"]), cycle_sleep=sleep)
    runs, seen = [], []

    async def body():
        runs.append(clock.dt())

    def body_sync():
        runs.append(clock.dt())

    form = rng.choice(["string", "args"])
    cond = cron_cond(repr(ref)) if form == "string" else cron_cond(**dict(zip(("minute", "hour", "day_of_month", "month", "day_of_week"), ref.args)))
    app.add(body_sync if app.session.config.execution == "main" else body, "job", start_cond=cond, execution=app.session.config.execution)
    app.at_cycle(lambda n: seen.append(clock.dt()))
    app.stop_after(cycles=rng.choice([90, 200]))
    out = app.serve()
    app.close()
    if out.exception:
        raise out.exception
    if out.stopped:
        ctx.inconclusive(out.stopped)
    floor = lambda t: t.replace(second=0, microsecond=0)
    got = [floor(t) for t in runs]
    sampled = []
    for t in seen:
        if ref.match(t) and floor(t) not in sampled:
            sampled.append(floor(t))
    ctx.check(sorted(got) == sorted(set(got)), "twice-in-minute", "the task ran twice in the same minute", cron=ref, runs=got)
    ctx.check(got == sampled, "wrong-minutes", "the task did not run in exactly the minutes crontab gives", cron=ref, start=start,
              missing=sorted(set(sampled) - set(got))[:5], extra=sorted(set(got) - set(sampled))[:5])
    ctx.saw("scheduled_runs", len(got))
    ctx.saw("cycles", len(seen))
    ctx.sig("s", ref.rule, tuple(ref.form.values()), len(got) > 0)


KINDS = {"period": (period, 5000, 100000), "schedule": (schedule, 500, 8000)}
FLOORS = {"inside": 500, "outside": 1000, "forward": 2000, "back": 1000, "scheduled_runs": 300}
