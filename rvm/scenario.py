"""Scenarios drawn beforehand, to be replayed under different circumstances."""
import asyncio
import datetime
import itertools

from rocketry.conditions import FuncCond
from rocketry.exc import TaskInactionException

from .drive import Planned, to_ts
from .sim import App, Clock

NAMES = ["a", "b", "c d", "e,\"f"]
TEXTS = ["plain", "comma, and 'quotes' \"here\"", "two\nlines", "ünïcode ✓", "semi;colon", "100 %s %d", "<tag> & \\ /"]


DAYS = ["Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun"]
MONTHS = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"]


def rand_expr(rng):
    "A condition on the calendar as an expression"
    hm = lambda: f"{rng.randrange(24):02}:{rng.randrange(60):02}"
    dom = lambda: rng.choice(["1st", "2nd", "3rd", "7th", "12th", "20th", "27th"])
    level = rng.choice(["hour", "day", "day", "day", "week", "week", "month", "cron", "cron", "sched", "delta"])
    if level == "cron":
        f = lambda n, lo: rng.choice(["*", "*", str(rng.randrange(lo, n)), f"*/{rng.choice([2, 3, 5])}", f"{rng.randrange(lo, n // 2)}-{rng.randrange(n // 2, n)}"])
        return f"{rng.choice(['cron', 'cron', 'crontime'])}('{f(60, 0)} {f(24, 0)} {rng.choice(['*', '*', f(28, 1)])} * {rng.choice(['*', '*', f(6, 0)])}')"
    if level == "sched":
        return f"SchedulerStarted(period=TimeDelta('{rng.randint(2, 40)} hours'))"
    if level == "delta":
        return f"(TaskStarted(period=TimeDelta('{rng.randint(2, 40)} hours')) < {rng.randint(1, 3)})"
    base = rng.choice([{"hour": "hourly", "day": "daily", "week": "weekly", "month": "monthly"}[level], f"time_of_{level}", f"{rng.choice(['started', 'succeeded', 'failed', 'finished'])}.this_{level}"])
    point = {"hour": lambda: f"{rng.randrange(60):02}:00", "day": hm, "week": lambda: rng.choice(DAYS) + rng.choice(["", f" {hm()}"]), "month": lambda: dom() + rng.choice(["", f" {hm()}"])}[level]
    form = rng.choice(["plain", "between", "between", "after", "before", "at", "starting"])
    if form == "plain" and not base.startswith("time_of"):
        return base
    if form == "between":
        return f"{base}.between('{point()}', '{point()}')"
    if form == "at":
        return f"{base}.at('{point()}')" if level in ("day", "hour") else f"{base}.on('{rng.choice(DAYS) if level == 'week' else dom()}')"
    if form == "starting" and not base.startswith("time_of"):
        return f"{base}.starting('{point()}')"
    return f"{base}.{rng.choice(['after', 'before'])}('{point()}')"


def rand_spec(rng, names, me, unit, calendar=False):
    "A start condition as data"
    def leaf():
        if calendar and rng.random() < 0.75:
            e = rand_expr(rng)
            return ("expr", e if rng.random() < 0.8 else "~" + e)
        k = rng.choice(["every", "every", "every-based", "after", "after", "hist", "hist", "count", "running", "retry", "string", "cycle"])
        t = rng.choice(names)
        d = round(unit * rng.choice([1.37, 2.61, 5.3]), 2)
        if k == "every":
            return (k, f"{d} seconds")
        if k == "every-based":
            return (k, f"{d} seconds", rng.choice(["run", "success", "fail", "finish"]))
        if k == "after":
            return (k, rng.choice(["success", "fail", "finish"]), t)
        if k == "hist":
            return (k, rng.choice(["started", "succeeded", "failed", "finished"]), rng.choice(["this_minute", "this_hour", "today"]), rng.choice([t, None]), rng.random() < 0.4)
        if k == "count":
            return (k, rng.choice(["TaskStarted", "TaskSucceeded", "TaskFailed", "TaskFinished"]), t, rng.choice([">=", "<", "=="]), rng.randrange(4))
        if k == "running":
            return (k, t, rng.choice([None, f"{d} seconds"]), rng.random() < 0.5)
        if k == "retry":
            return (k, rng.randint(1, 2))
        if k == "string":
            return (k, rng.choice([f"every {d} seconds", "minutely", "time of minute between 10 and 40", f"after task '{t}'" if '"' not in t else "hourly", "secondly"]))
        return (k, rng.randint(2, 4))
    x = leaf()
    if rng.random() < 0.4:
        x = (rng.choice(["and", "or"]), x, leaf())
    return x


def build(spec, app):
    from rocketry import conds as C, conditions as D
    import operator
    k = spec[0]
    if k == "expr":
        from rocketry import time as T
        return eval(spec[1], {**vars(T), **vars(D), **vars(C)})
    if k == "every":
        return C.every(spec[1])
    if k == "every-based":
        return C.every(spec[1], based=spec[2])
    if k == "after":
        return getattr(C, {"success": "after_success", "fail": "after_fail", "finish": "after_finish"}[spec[1]])(spec[2])
    if k == "hist":
        base = getattr(C, spec[1])
        if spec[3] is not None:
            base = base(task=spec[3])
        x = getattr(base, spec[2])
        return ~x if spec[4] else x
    if k == "count":
        ops = {">=": operator.ge, "<": operator.lt, "==": operator.eq}
        return ops[spec[3]](getattr(D, spec[1])(task=spec[2]), spec[4])
    if k == "running":
        x = C.running(spec[1])
        if spec[2]:
            x = x.more_than(spec[2])
        return ~x if spec[3] else x
    if k == "retry":
        return C.retry(spec[1])
    if k == "string":
        return spec[1]
    if k == "cycle":
        return FuncCond(lambda: app.cycles % spec[1] == 0)
    from rocketry.parse import parse_condition
    p, q = (build(s, app) for s in spec[1:])
    p, q = (parse_condition(x, session=app.session) if isinstance(x, str) else x for x in (p, q))
    return p & q if k == "and" else p | q


class Script:
    "Everything that is to happen, drawn before"

    def __init__(self, rng, calendar=False):
        self.unit = rng.choice([2000, 9000, 40000, 200000]) if calendar else rng.choice([1, 4, 17, 300])
        self.names = rng.sample(NAMES, rng.randint(2, 4))
        self.start = to_ts(datetime.datetime(2022, 3, 1) + datetime.timedelta(seconds=rng.randrange(86400 * 300))) + (0.123 if calendar else 0)
        self.specs = {n: rand_spec(rng, self.names, n, self.unit, calendar) for n in self.names}
        self.ends = {n: (rng.choice([None, None, ("every", f"{self.unit * 3} seconds"), ("hist", "succeeded", "this_minute", rng.choice(self.names), False)])) for n in self.names}
        self.execs = {n: rng.choice(["main", "async", "async"]) for n in self.names}
        self.timeout = {n: rng.choice([None, None, self.unit * 1.1]) for n in self.names}
        self.runs = {n: [(rng.choice(["success", "success", "fail", "fail", "inaction"]), rng.choice([0, 0.1, 0.5, 2]) * rng.random() * self.unit, rng.choice(TEXTS)) for _ in range(60)] for n in self.names}
        self.disabled = {n: {rng.randrange(30) for _ in range(rng.choice([0, 0, 2]))} for n in self.names}
        self.sessions = [dict(cycles=rng.randint(5, 22), force=rng.random() < 0.35, dies=rng.random() < 0.3, gap=rng.choice([0.7, 3.1, 60.3, 5000]) * self.unit, instant=rng.random() < 0.4) for _ in range(rng.randint(1, 3))]
        self.sleeps = [rng.choice([0.21, 0.43, 0.97, 1.31]) * self.unit for _ in range(80)]
        self.commands = [(rng.randrange(1, 25), rng.choice(self.names), rng.choice(["run", "terminate"])) for _ in range(rng.choice([0, 0, 1, 3]))]
        self.queries = rng.sample(self.names, 2)


def replay(script, open_repo, shift=0, look=None, **config):
    "-> the trace: one list of observations in order"
    trace, errors = [], []
    counts = dict.fromkeys(script.names, 0)
    ids = itertools.count()
    now = script.start + shift
    logged = []
    for number, ses in enumerate(script.sessions):
        clock = Clock(now)
        app = App(clock, repo=open_repo(), force_status_from_logs=ses["force"], cycle_sleep=script.unit * 0.37, instant_shutdown=ses["instant"], func_run_id=lambda task=None, params=None: f"r{next(ids)}", **config)
        sleeps = itertools.cycle(script.sleeps)

        def make(name):
            def plan():
                x = script.runs[name][counts[name] % 60]
                counts[name] += 1
                return x

            def finish(outcome, text):
                if outcome == "fail":
                    raise Planned(text)
                if outcome == "inaction":
                    raise TaskInactionException(text)

            async def abody():
                outcome, length, text = plan()
                await asyncio.sleep(length)
                finish(outcome, text)

            def body():
                outcome, length, text = plan()
                clock.advance(length)
                finish(outcome, text)
            return body if script.execs[name] == "main" else abody
        for n in script.names:
            spec, end = script.specs[n], script.ends[n]
            app.add(make(n), n, start_cond=build(spec, app), end_cond=build(end, app) if end else None, execution=script.execs[n], timeout=script.timeout[n], priority=script.names.index(n))
        dead = {"since": None}

        def before(k):
            app.session.config.cycle_sleep = next(sleeps)
            for n in script.names:
                t = app.session[n]
                t.disabled = k in script.disabled[n]
            for cycle, n, what in script.commands:
                if cycle == k:
                    getattr(app.session[n], what)()
            with clock.hold():
                for n in script.names:
                    t = app.session[n]
                    seen = (t.status, t.is_running, *(None if x is None else x.timestamp() - shift for x in (t.last_run, t.last_success, t.last_fail, t.last_terminate, t.last_inaction)), t.start_cond.observe(task=t))
                    trace.append((number, k, n, seen))
                    if look:
                        look(app, t)
            if ses["dies"] and dead["since"] is None and (k == ses["cycles"] or (k > 2 and any(app.session[n].is_running for n in script.names))):
                # nothing of what happens from here on is seen by anyone
                dead["since"] = len(app.tap.recs), len(trace)
                for h in app.logger.handlers:
                    if h is not app.tap:
                        h.addFilter(lambda record: False)
        app.at_cycle(before)
        app.stop_after(cycles=ses["cycles"])
        out = app.serve()
        recs, end_ = app.tap.recs, len(trace)
        if dead["since"]:
            recs, end_ = recs[:dead["since"][0]], dead["since"][1]
        del trace[end_:]
        for r in recs:
            trace.append((number, "record", r.task, r.action, r.created - shift, r.run_id, r.exc_text and r.exc_text.splitlines()[-1]))
        logged += recs
        if out.exception:
            raise out.exception
        if out.stopped:
            return None, None, out.stopped
        now = clock.peek() + ses["gap"]
        last = app
        app.close()
    return trace, logged, last


def close(g, w):
    "Equal but for the last digits of the times"
    if g is None or w is None or type(g) is not type(w):
        return False
    if isinstance(g, tuple):
        return len(g) == len(w) and all(a == b or close(a, b) for a, b in zip(g, w))
    return isinstance(g, float) and abs(g - w) < 1e-5
