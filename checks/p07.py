import datetime

from rvm import ref_time as R
from rvm.hist import HistApp, rand_history
from rvm.sim import ts
from checks import p04, p05

ID = "P07"
RULE = ("every documented condition sentence with random values and quoted names, written as text and built with the API side by side; both are observed "
        "inside a running session with a random task history at several instants and have to agree; sentences combined with ~, &, | and parentheses "
        "with random spacing have to follow the precedence ~ over & over |; distinct: (sentence, truth) and (expression shape, truth)")
ASSUMES = ["names without quotes, operators and parentheses (reserved in the sentences)"]

D, TD = datetime.datetime, datetime.timedelta
TASKS = ["a", "b", "my task", "do-things:x", "get  the new files", "me"]
SCOPES = {"minute": "minutely", "hour": "hourly", "day": "daily", "week": "weekly", "month": "monthly"}
THIS = {"minute": "this minute", "hour": "this hour", "day": "today", "week": "this week", "month": "this month"}


def point(rng, scope):
    "Texts of points of time in a period"
    if scope == "second":
        return f"{rng.randrange(1, 999)} ms"
    if scope == "minute":
        return f"{rng.randrange(60)}" if rng.random() < 0.5 else f"{rng.randrange(60):02d}"
    if scope == "hour":
        return f"{rng.randrange(60):02d}:{rng.randrange(60):02d}"
    if scope == "day":
        return f"{rng.randrange(24):02d}:{rng.randrange(60):02d}"
    if scope == "week":
        d = rng.choice(["Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun", "Monday", "sunday", "Friday"])
        return d + (f" {rng.randrange(24):02d}:{rng.randrange(60):02d}" if rng.random() < 0.4 else "")
    n = rng.randint(1, 28)
    return rng.choice(["1st", "2nd", "3rd", "4th", "15th", "21st", "22nd", "28th"]) + (f" {rng.randrange(24):02d}:00" if rng.random() < 0.4 else "")


def time_scoped(rng, scope, options):
    "-> (text suffix, function(wrapper) -> condition, label)"
    opt = rng.choice(options)
    if opt is None:
        return "", (lambda w: w.get_cond()), "full"
    a, b = point(rng, scope), point(rng, scope)
    if opt == "between":
        return f" between {a} and {b}", (lambda w: w.between(a, b)), opt
    if opt == "before":
        return f" before {a}", (lambda w: w.before(a)), opt
    if opt == "after":
        return f" after {a}", (lambda w: w.after(a)), opt
    if opt == "starting":
        return f" starting {a}", (lambda w: w.starting(a)), opt
    if opt == "on":
        a = a.split(" ")[0]
        return f" on {a}", (lambda w: w.on(a)), opt
    raise ValueError(opt)


def atom(rng):
    "-> (text, condition, label)"
    from rocketry import conds as C
    from rocketry.conditions import (DependSuccess, DependFailure, DependFinish, TaskStarted, TaskFailed, TaskSucceeded, TaskFinished,
                                     TaskTerminated, TaskInacted, TaskRunning, SchedulerStarted, SchedulerCycles, IsPeriod,
                                     ParamExists, IsEnv)
    from rocketry.conditions import Not
    from rocketry.time import TimeDelta
    kind = rng.choice(["exec", "exec", "timeof", "timeof", "every", "cron", "dep", "deps", "has", "has", "has", "running", "sched", "cycles", "param", "env", "const"])
    task = rng.choice(TASKS)
    if kind == "exec":
        scope = rng.choice(list(SCOPES))
        opts = [None, "between", "before", "after", "starting"] + (["on"] if scope in ("week", "month") else [])
        if scope == "minute":
            opts = [None]
        suffix, f, label = time_scoped(rng, scope, opts)
        return SCOPES[scope] + suffix, f(getattr(C, SCOPES[scope])), f"{SCOPES[scope]} {label}"
    if kind == "timeof":
        scope = rng.choice(["hour", "day", "week", "month"])
        opts = ["between", "before", "after"] + (["on"] if scope in ("week", "month") else [])
        suffix, f, label = time_scoped(rng, scope, opts)
        return f"time of {scope}" + suffix, f(getattr(C, f"time_of_{scope}")), f"time of {scope} {label}"
    if kind == "every":
        s, _, _ = p05.rand_duration(rng, max_tokens=2, sign=False)
        return f"every {s}", C.every(s), "every"
    if kind == "cron":
        ref = p04.Ref(rng, dense=True)
        return f"cron {ref!r}", C.cron(repr(ref)), "cron"
    acts = {"succeeded": (DependSuccess, C.after_success), "failed": (DependFailure, C.after_fail), "finished": (DependFinish, C.after_finish)}
    if kind == "dep":
        act = rng.choice(list(acts))
        cls, func = acts[act]
        text = f"after task '{task}' {act}" if act != "succeeded" or rng.random() < 0.5 else f"after task '{task}'"
        return text, func(task), f"after task {act}"
    if kind == "deps":
        act = rng.choice(list(acts))
        names = rng.sample(TASKS[:5], rng.randint(1, 3))
        anyall = rng.choice(["any", "all"])
        func = getattr(C, f"after_{anyall}_{ {'succeeded': 'success', 'failed': 'fail', 'finished': 'finish'}[act]}")
        listed = ", ".join(f"'{n}'" for n in names)
        text = f"after {'any ' if anyall == 'any' else ''}tasks {listed}" + (f" {act}" if act != "succeeded" or rng.random() < 0.5 else "")
        return text, func(*names), f"after {anyall} {act}"
    if kind == "has":
        act, cls, wrapper = rng.choice([("failed", TaskFailed, C.failed), ("succeeded", TaskSucceeded, C.succeeded), ("finished", TaskFinished, C.finished),
                                        ("started", TaskStarted, C.started), ("terminated", TaskTerminated, None), ("inacted", TaskInacted, None)])
        own = rng.random() < 0.4
        prefix = "" if own else f"task '{task}' "
        kw = {} if own else {"task": task}
        r = rng.random()
        if r < 0.15:
            return f"{prefix}has {act}", cls(**kw), f"has {act}"
        if r < 0.35:
            s, _, _ = p05.rand_duration(rng, max_tokens=2, sign=False)
            return f"{prefix}has {act} {rng.choice(['in past', 'past'])} {s}", cls(period=TimeDelta(s), **kw), f"has {act} past"
        scope = rng.choice(["hour", "day", "week", "month"])
        opts = [None, "between", "before", "after"] + (["on"] if scope in ("week", "month") else [])
        suffix, f, label = time_scoped(rng, scope, opts)
        text = f"{prefix}has {act} {THIS[scope]}" + suffix
        if wrapper is not None:
            w = wrapper if own else wrapper(task)
            return text, f(getattr(w, "today" if scope == "day" else f"this_{scope}")), f"has {act} {scope} {label}"
        period = f(getattr(C, f"time_of_{scope}")).period
        return text, cls(period=period, **kw), f"has {act} {scope} {label}"
    if kind == "running":
        return rng.choice(["", "while "]) + f"task '{task}' is running", C.running(task), "running"
    if kind == "sched":
        s = f"{rng.randrange(0, 120)} {rng.choice(['seconds', 'minutes'])}"
        if rng.random() < 0.5:
            return f"scheduler has run over {s}", ~SchedulerStarted(period=TimeDelta(s)), "scheduler over"
        return f"scheduler started {s} ago", SchedulerStarted(period=TimeDelta(s)), "scheduler started"
    if kind == "cycles":
        n = rng.randrange(5)
        r = rng.random()
        if r < 0.35:
            return f"scheduler has more than {n} cycles", C.scheduler_cycles(more_than=n), "cycles >"
        if r < 0.7:
            return f"scheduler has less than {n} cycles", C.scheduler_cycles(less_than=n), "cycles <"
        return f"scheduler has {n} cycles", SchedulerCycles() == n, "cycles =="
    if kind == "param":
        names = rng.sample(["x", "y", "z", "other thing", "one  more of them"], rng.randint(1, 3))
        if rng.random() < 0.5:
            return "param " + ", ".join(f"'{n}'" for n in names) + " exists", ParamExists(*names), "param exists"
        val = rng.choice(["1", "foo"])
        return f"param '{names[0]}' is '{val}'", ParamExists(**{names[0]: val}), "param is"
    if kind == "env":
        v = rng.choice(["prod", "dev"])
        return f"env '{v}'", IsEnv(v), "env"
    v = rng.choice(["true", "false", "always true", "always false", "always", "never"])
    return v, C.true if v in ("true", "always true", "always") else C.false, v


def world(ctx):
    "A session with a history; -> (app, start)"
    rng = ctx.rng
    start = (D(2021, 1, 1) + TD(seconds=rng.randrange(86400 * 1500))).replace(tzinfo=datetime.timezone.utc).timestamp()
    events = rand_history(rng, TASKS, start)
    app = HistApp(events, start, force_status_from_logs=rng.random() < 0.3)
    for name in TASKS:
        app.add(lambda: None, name, execution="main")
    if rng.random() < 0.7:
        app.session.parameters["env"] = rng.choice(["prod", "dev"])
    for k in rng.sample(["x", "y", "z", "other thing", "one  more of them"], 2):
        app.session.parameters[k] = rng.choice(["1", "foo"])
    return app, start


def steps(rng, clock, n):
    clock.advance(rng.choice([0.5, 7, 61, 1000, 3700, 40000, 100000]) * rng.random())


def sentence(ctx):
    from rocketry.parse import parse_condition
    rng = ctx.rng
    app, start = world(ctx)
    pairs = []
    for _ in range(12):
        text, cond, label = atom(rng)
        if rng.random() < 0.2:
            text = " " * rng.randrange(3) + text + " " * rng.randrange(3)
        pairs.append((text, parse_condition(text, session=app.session), cond, label))
    ctx.sample(pairs[0][0])
    me = app.session["me"]

    def look(n):
        with app.clock.hold():
            observe()
        steps(rng, app.clock, n)

    def observe():
        for text, parsed, cond, label in pairs:
            want = bool(cond.observe(task=me, session=app.session))
            got = bool(parsed.observe(task=me, session=app.session))
            ctx.check(got == want, f"sentence-{label}", "the sentence does not mean what the API condition means", text=text, got=got, want=want,
                      time=app.clock.dt())
            ctx.saw("true" if want else "false")
            ctx.sig(label, want)
    app.inside(look, cycles=4)


def expression(ctx):
    from rocketry.parse import parse_condition
    rng = ctx.rng
    app, start = world(ctx)
    leaves = []
    for _ in range(4):
        text, cond, label = atom(rng)
        leaves.append((text, cond))
    me = app.session["me"]
    now = {}

    def ws():
        return " " * rng.choice([0, 1, 1, 2])

    def build(depth, level):
        "-> (text, function) with level: 0 or, 1 and, 2 unary/atom"
        if level == 2 or depth == 0:
            r = rng.random()
            if r < 0.3:
                t, f = build(depth - 1 if depth else 0, 2)
                return f"~{ws()}{t}", lambda: not f()
            if r < 0.55 and depth > 0:
                t, f = build(depth - 1, 0)
                return f"({ws()}{t}{ws()})", f
            i = rng.randrange(len(leaves))
            return leaves[i][0], lambda: now[i]
        n = rng.choice([1, 1, 2, 3])
        parts = [build(depth, level + 1) for _ in range(n)]
        op = "|" if level == 0 else "&"
        text = f"{ws()}{op}{ws()}".join(p[0] for p in parts)
        funcs = [p[1] for p in parts]
        comb = any if level == 0 else all
        return text, lambda: comb([f() for f in funcs])
    made = []
    for _ in range(5):
        text, f = build(rng.choice([1, 2, 2, 3]), 0)
        made.append((text, f, parse_condition(text, session=app.session)))
    ctx.sample(made[0][0])

    def look(n):
        with app.clock.hold():
            observe()
        steps(rng, app.clock, n)

    def observe():
        for i, (_, cond) in enumerate(leaves):
            now[i] = bool(cond.observe(task=me, session=app.session))
        for text, f, parsed in made:
            want = f()
            got = bool(parsed.observe(task=me, session=app.session))
            ctx.check(got == want, "expression", "the expression does not follow the precedence of its operators", text=text, got=got, want=want, leaves=now)
            ctx.saw("expr_true" if want else "expr_false")
            shape = "".join(c for c in text if c in "~&|()")
            ctx.sig("e", shape, want)
    app.inside(look, cycles=3)


def periods(ctx):
    "The same for texts of time periods"
    from rocketry.parse import parse_time
    from rocketry import conds as C
    rng = ctx.rng
    parts, periods_ = [], []
    for _ in range(rng.randint(1, 3)):
        scope = rng.choice(["hour", "day", "week", "month"])
        opts = ["between", "before", "after"] + (["on"] if scope in ("week", "month") else [])
        suffix, f, label = time_scoped(rng, scope, opts)
        parts.append(f"time of {scope}" + suffix)
        periods_.append(f(getattr(C, f"time_of_{scope}")).period)
    ops = [rng.choice("&|") for _ in parts[1:]]
    text = parts[0] + "".join(f" {o} {p}" for o, p in zip(ops, parts[1:]))
    parsed = parse_time(text)
    ctx.sample(text)
    for _ in range(6):
        dt = R.rand_dt(rng)
        vals = [dt in p for p in periods_]
        groups = [[vals[0]]]
        for o, v in zip(ops, vals[1:]):
            if o == "&":
                groups[-1].append(v)
            else:
                groups.append([v])
        want = any(all(g) for g in groups)
        ctx.check((dt in parsed) == want, "period-text", "the text of the period does not mean the combination of its parts", text=text, dt=dt, want=want)
        ctx.saw("period_texts")
        ctx.sig("p", tuple(ops), want)


KINDS = {"sentence": (sentence, 900, 12000), "expression": (expression, 500, 8000), "periods": (periods, 400, 8000)}
FLOORS = {"true": 3000, "false": 3000, "expr_true": 1000, "expr_false": 1000, "period_texts": 1500}
