import datetime
import re

from rocketry import args as A
from rocketry import conds as C
from rocketry.conditions import FuncCond, IsEnv, IsPeriod, ParamExists, SchedulerCycles, SchedulerStarted, TaskCond
from rocketry.core import BaseCondition
from rocketry.parse import parse_condition
from rocketry.time import TimeDelta
from rvm import ref_time as R
from rvm.sim import App, Clock, ts

ID = "P27"
RULE = ("sessions in virtual time with watching tasks, each started by one random condition: scheduler cycles and up-time (API, text), parameters and environment that change, current time in random periods, custom functions, "
        "classes and sentences with their own arguments and with the session, task and parameters asked as arguments, conditions that run as tasks, and combinations; another session is the default one every now and then and the "
        "scheduler is restarted; each cycle every watching task must start exactly if the reference says so at that instant; shut conditions must end the session at the first cycle they are true; distinct: (condition kind, form, truth, restarted)")
ASSUMES = ["moments within a millisecond of a boundary are not judged"]

D, TD = datetime.datetime, datetime.timedelta
EPS = 1e-3


class Own(BaseCondition):
    "User's condition class"

    def __init__(self, table, tag, seen):
        self.table, self.tag, self.seen = table, tag, seen

    def get_state(self, task=A.Task(), session=A.Session()):
        self.seen.append((task, session))
        return self.table[self.tag]


class World:
    def __init__(self, ctx):
        self.ctx, rng = ctx, ctx.rng
        self.rng = rng
        self.start = ts(rng.randint(2020, 2026), rng.randint(1, 12), rng.randint(1, 28), rng.randrange(24), rng.randrange(60), rng.randrange(60))
        self.clock = Clock(self.start)
        self.app = App(self.clock, execution="main", cycle_sleep=0.05)
        self.session = self.app.session
        self.table = {}         # tag -> truth now
        self.started = None     # when the scheduler (re)started
        self.done = 0           # cycles done since
        self.n = 0
        self.own_sp = {}
        self.seen = []          # what the conditions were given
        self.taskconds = {}     # sentence -> [(time, value)]
        self.other = App(Clock(self.start + 12345), execution="main")
        self.other.session.parameters["x"] = "other"
        self.other.session.parameters["env"] = "other"
        self.setup()

    def setup(self):
        app, session, rng = self.app.app, self.session, self.rng
        table, seen = self.table, self.seen
        session.parameters["sp"] = "session param"

        self.custom = {}

        @app.cond()
        def plain():
            return table["plain"]
        self.custom["plain"] = plain

        @app.cond()
        def with_arg(tag, mul=1):
            return table[tag, mul]
        self.custom["with_arg"] = with_arg

        @app.cond()
        def asking(tag, task=A.Task(), session=A.Session(), sp=A.Arg("sp")):
            seen.append((task, session))
            seen.append(("sp", (tag, sp)))
            return table[tag]
        self.custom["asking"] = asking

        @app.cond("is simple")
        def simple():
            return table["simple"]

        @app.cond(re.compile(r"is (?P<tag>\w+) at (?P<place>\w+)"))
        def is_at(tag, place):
            return table[tag, place]

        @app.cond(["light is on", re.compile(r"light is on in (?P<room>\w+)")])
        def light(room="hall", task=A.Task()):
            seen.append((task, None))
            return table["light", room]
        self.tc_active = rng.choice([None, 3, 30])
        self.tc_mode = rng.choice(["main", "async"])
        self.tc_every = rng.choice([1, 5, 20])
        world = self

        @TaskCond(session=session, syntax=re.compile(r"slow (?P<what>\w+) is ready"), start_cond=f"every {self.tc_every} seconds", priority=100, execution=self.tc_mode,
                  **({"active_time": f"past {self.tc_active} seconds"} if self.tc_active else {}))
        def slow(what):
            value = table["slow", what]
            if value == "fail":
                raise RuntimeError("planned failure")
            world.taskconds.setdefault(what, []).append((world.clock.peek(), value))
            return rng.choice([True, True, 1, "yes"] if value else [False, False, None, 0, ""])

    # ---- conditions with their references
    def leaf(self):
        rng, table = self.rng, self.table
        kind = rng.choice(["cycles", "cycles", "uptime", "uptime", "param", "param", "env", "period", "period", "plain", "with_arg", "with_arg", "asking", "class", "simple", "is_at", "is_at", "light", "slow", "lambda"])
        if kind == "cycles":
            n = rng.randrange(12)
            form = rng.choice(["more", "less", "both", "==", "!=", ">=", "<=", "text more", "text less", "text =", "bare", "chain"])
            m = n + rng.randrange(5)
            cond, ref = {
                "more": (lambda: C.scheduler_cycles(more_than=n), lambda k: k > n),
                "less": (lambda: C.scheduler_cycles(less_than=n), lambda k: k < n),
                "both": (lambda: C.scheduler_cycles(more_than=n, less_than=m), lambda k: n < k < m),
                "==": (lambda: SchedulerCycles() == n, lambda k: k == n),
                "!=": (lambda: SchedulerCycles() != n, lambda k: k != n),
                ">=": (lambda: SchedulerCycles() >= n, lambda k: k >= n),
                "<=": (lambda: SchedulerCycles() <= n, lambda k: k <= n),
                "text more": (lambda: f"scheduler has more than {n} cycles", lambda k: k > n),
                "text less": (lambda: f"scheduler has less than {n} cycles", lambda k: k < n),
                "text =": (lambda: f"scheduler has {n} cycles", lambda k: k == n),
                "bare": (lambda: SchedulerCycles(), lambda k: k > 0),
                "chain": (lambda: (SchedulerCycles() >= n) < m, lambda k: n <= k < m),
            }[form]
            return cond(), lambda: ref(self.done), f"cycles {form}"
        if kind == "uptime":
            a = rng.choice([0.5, 1, 2, 5, 10, 30, 60, 120])
            b = a * rng.choice([2, 3, 10])
            ta, tb = f"{a} seconds", f"{b} seconds"
            form = rng.choice(["more", "less", "both", "obj", "not obj", "text over", "text started", "str"])
            cond, ref = {
                "more": (lambda: C.scheduler_running(more_than=ta), lambda u: u >= a),
                "less": (lambda: C.scheduler_running(less_than=ta), lambda u: u <= a),
                "both": (lambda: C.scheduler_running(more_than=ta, less_than=tb), lambda u: a <= u <= b),
                "obj": (lambda: SchedulerStarted(period=TimeDelta(ta)), lambda u: u <= a),
                "not obj": (lambda: ~SchedulerStarted(period=TimeDelta(ta)), lambda u: u > a),
                "text over": (lambda: f"scheduler has run over {ta}", lambda u: u > a),
                "text started": (lambda: f"scheduler started {ta} ago", lambda u: u <= a),
                "str": (lambda: SchedulerStarted(period=f"past {ta}"), lambda u: u <= a),
            }[form]

            def uptime():
                u = self.now - self.started
                if any(abs(u - x) < EPS for x in (a, b)):
                    return None
                return ref(u)
            return cond(), uptime, f"uptime {form}"
        if kind == "param":
            names = rng.sample(["x", "y", "zed zed"], rng.randint(1, 3))
            form = rng.choice(["names", "values", "mixed", "text exists", "text is"])
            vals = {k: rng.choice([1, "1", "foo", None]) for k in names}
            params = self.session.parameters
            if form == "names":
                return ParamExists(*names), lambda: all(k in self.params for k in names), "param names"
            if form == "values":
                return ParamExists(**vals), lambda: all(k in self.params and self.params[k] == v for k, v in vals.items()), "param values"
            if form == "mixed":
                return ParamExists("sp", **vals), lambda: all(k in self.params and self.params[k] == v for k, v in vals.items()), "param mixed"
            if form == "text exists":
                return "param " + ", ".join(f"'{n}'" for n in names) + " exists", lambda: all(k in self.params for k in names), "param text exists"
            v = rng.choice(["1", "foo"])
            return f"param '{names[0]}' is '{v}'", lambda: self.params.get(names[0], 0) == v, "param text is"
        if kind == "env":
            v = rng.choice(["prod", "dev"])
            return (IsEnv(v) if rng.random() < 0.5 else f"env '{v}'"), lambda: self.params.get("env") == v, "env"
        if kind == "period":
            spec = R.rand_spec(rng, scopes=("minute", "minute", "hour", "day", "week", "month", "year"))

            def current():
                dt = D.fromtimestamp(self.now, datetime.timezone.utc).replace(tzinfo=None)
                if R.month_end_quirk(spec, dt) or any(abs((e - dt).total_seconds()) < EPS for e in spec.edges(dt)):
                    return None
                return spec.contains(dt)
            return IsPeriod(period=spec.build()), current, f"period {spec.scope} {spec.kind}"
        tag = f"tag{self.n}"
        self.n += 1
        if kind == "plain":
            table.setdefault("plain", False)
            # (both the condition itself and a "call" of it)
            return (self.custom["plain"] if rng.random() < 0.5 else self.custom["plain"]()), lambda: table["plain"], "custom plain"
        if kind == "with_arg":
            mul = rng.choice([1, 2, "s"])
            table[tag, mul] = False
            form = rng.choice(["args", "kwargs", "mixed", "default"])
            if form == "default":
                table[tag, 1] = False
                return self.custom["with_arg"](tag), lambda: table[tag, 1], "custom default"
            cond = {"args": lambda: self.custom["with_arg"](tag, mul), "kwargs": lambda: self.custom["with_arg"](mul=mul, tag=tag), "mixed": lambda: self.custom["with_arg"](tag, mul=mul)}[form]()
            return cond, lambda: table[tag, mul], f"custom {form}"
        if kind == "asking":
            table[tag] = False
            if rng.random() < 0.3:
                # given explicitly
                own = "session param" if rng.random() < 0.5 else f"own {tag}"
                self.own_sp[tag] = own
                return (self.custom["asking"](tag, sp=own) if rng.random() < 0.5 else self.custom["asking"](sp=own, tag=tag)), lambda: table[tag], "custom overriding"
            return self.custom["asking"](tag), lambda: table[tag], "custom asking"
        if kind == "class":
            table[tag] = False
            return Own(table, tag, self.seen), lambda: table[tag], "custom class"
        if kind == "simple":
            table.setdefault("simple", False)
            return "is simple", lambda: table["simple"], "sentence simple"
        if kind == "is_at":
            place = rng.choice(["home", "work"])
            table[tag, place] = False
            return f"is {tag} at {place}", lambda: table[tag, place], "sentence args"
        if kind == "light":
            room = rng.choice(["hall", "attic", None])
            table.setdefault(("light", room or "hall"), False)
            return ("light is on" if room is None else f"light is on in {room}"), lambda: table["light", room or "hall"], f"sentence {'default' if room is None else 'list'}"
        if kind == "slow":
            name = rng.choice(["disk", "net", "cpu"])
            table.setdefault(("slow", name), False)

            def slow():
                seen = self.taskconds.get(name)
                if not seen:
                    return False
                t, value = seen[-1]
                if self.now - t < EPS and (self.tc_active or self.tc_mode == 'async') or self.tc_active and (abs(self.now - t - self.tc_active) < EPS * 10):
                    return None
                return value and (not self.tc_active or self.now - t < self.tc_active)
            return f"slow {name} is ready", slow, "taskcond"
        table[tag] = False
        return FuncCond(lambda: table[tag]), lambda: table[tag], "lambda"

    def tree(self, depth=1):
        rng = self.rng
        if depth and rng.random() < 0.35:
            op = rng.choice("&|~")
            if op == "~":
                c, r, label = self.tree(depth - 1)
                return ~self.obj(c), lambda: None if r() is None else not r(), f"~{label}"
            c1, r1, l1 = self.tree(depth - 1)
            c2, r2, l2 = self.tree(depth - 1)

            def both():
                a, b = r1(), r2()
                if op == "&":
                    return False if a is False or b is False else None if a is None or b is None else True
                return True if a is True or b is True else None if a is None or b is None else False
            if isinstance(c1, str) and isinstance(c2, str) and rng.random() < 0.7:
                c1, c2 = (f"({c})" if "&" in c or "|" in c else c for c in (c1, c2))
                return f"{c1} {op} {c2}", both, f"{l1} {op} {l2}"
            c1, c2 = self.obj(c1), self.obj(c2)
            return (c1 & c2 if op == "&" else c1 | c2), both, f"{l1} {op} {l2}"
        return self.leaf()

    def obj(self, cond):
        return parse_condition(cond, session=self.session) if isinstance(cond, str) else cond

    # ---- the world turns
    def turn(self):
        rng = self.rng
        for key in self.table:
            if rng.random() < 0.5:
                self.table[key] = rng.random() < 0.5
            if isinstance(key, tuple) and key[0] == "slow" and rng.random() < 0.1:
                self.table[key] = "fail"
        params = self.session.parameters
        for key in ("x", "y", "zed zed", "env"):
            r = rng.random()
            if r < 0.15:
                params[key] = rng.choice([1, "1", "foo", None]) if key != "env" else rng.choice(["prod", "dev", "test"])
            elif r < 0.22 and key in params:
                rest = {k: params[k] for k in ("x", "y", "zed zed", "env", "sp") if k in params and k != key}
                params.clear()
                params.update(rest)
        self.params = {k: params[k] for k in ("x", "y", "zed zed", "env") if k in params}


def watch(ctx):
    rng = ctx.rng
    w = World(ctx)
    app, session, clock = w.app, w.session, w.clock
    watchers = {}
    ran = []
    for i in range(rng.randint(3, 10)):
        cond, ref, label = w.tree(2)
        name = f"watch{i}"
        app.add(lambda name=name: ran.append(name), name, cond)
        watchers[name] = (ref, label)
    session.config.silence_task_prerun = False if rng.random() < 0.3 else True
    restarts = {"n": 0}
    hold = {}
    restart_at = rng.choice([None, None, rng.randint(3, 25)])
    n_cycles = rng.randint(10, 45)
    jump = rng.choice([0.3, 1, 5, 60, 3600])

    def on_startup():
        # the moment is between these two readings; nothing advances the clock in between but ticks
        w.started = clock.peek()
        w.done = 0
    session.hooks.scheduler_startup.append(on_startup)
    starts = lambda: {n: len(app.tap.of(n, "run")) for n in watchers}

    def before(n):
        clock.advance(rng.expovariate(1 / jump))
        w.turn()
        if rng.random() < 0.5:
            (w.other.session if rng.random() < 0.7 else session).set_as_default()
        hold["ctx"] = clock.hold()
        hold["ctx"].__enter__()
        w.now = clock.peek()
        w.seen.clear()
        hold["starts"] = starts()
        ran.clear()

    def after(n):
        got = starts()
        for name, (ref, label) in watchers.items():
            want = ref()
            k = got[name] - hold["starts"][name]
            if want is None:
                ctx.saw("not_judged")
                continue
            ctx.check(k == int(bool(want)) and ran.count(name) == k, "truth", "a task with the condition should start exactly when the condition is true", condition=label, want=want, starts=k, calls=ran.count(name), cycle=w.done,
                      uptime=w.now - w.started, params=w.params, restarted=restarts["n"], now=D.fromtimestamp(w.now, datetime.timezone.utc))
            ctx.saw("true" if want else "false")
            kind = label.split(" ")[0] if not any(o in label for o in "&|~") else "combined"
            ctx.saw(f"{kind}_{bool(want)}".lower())
            ctx.sig(label, bool(want), restarts["n"])
        own = set(session.tasks)
        for a, b in w.seen:
            if a == "sp":
                tag, value = b
                ctx.check(value == w.own_sp.get(tag, "session param"), "given-param", "a condition was given another parameter than that of the session (or its own)", got=b, want=w.own_sp.get(tag))
            else:
                ctx.check(a in own and b in (None, session), "given", "a condition was given another task or session", task=a, session=b)
            ctx.saw("given")
        hold["ctx"].__exit__(None, None, None)
        w.done += 1
        if restart_at is not None and n == restart_at and not restarts["n"]:
            restarts["n"] += 1
            ctx.saw("restarts")
            session.restart()
    app.at_cycle(before)
    app.after_cycle(after)
    app.stop_after(cycles=n_cycles)
    out = app.serve()
    app.close()
    w.other.close()
    if out.exception:
        raise out.exception
    if out.stopped:
        ctx.inconclusive(out.stopped)
    ctx.check(app.cycles == n_cycles, "cycles", "the session did not go on as long as told", got=app.cycles, want=n_cycles)
    ctx.sample({n: label for n, (_, label) in watchers.items()})


def shut(ctx):
    "The session ends after the first cycle after which the shut condition is true"
    rng = ctx.rng
    w = World(ctx)
    app, session, clock = w.app, w.session, w.clock
    while True:
        cond, ref, label = w.tree(1)
        if not any(k in label for k in ("asking", "overriding", "class", "list", "default", "taskcond")):     # (there is no task to be asked)
            break
    session.config.shut_cond = w.obj(cond)
    state = {"true": None}

    def on_startup():
        w.started, w.done = clock.peek(), 0
        yield
        ask(0)
    session.hooks.scheduler_startup.append(on_startup)
    app.at_cycle(lambda n: state.get("hold") and state.pop("hold").__exit__(None, None, None))

    def after(n):
        w.done += 1
        ask(n)

    def ask(n):
        clock.advance(rng.expovariate(1 / 3))
        w.turn()
        state["hold"] = clock.hold()
        state["hold"].__enter__()
        w.now = clock.peek()
        want = ref()
        ctx.saw("shut_asked")
        ctx.check(state["true"] is None, "shut-late", "the session went on though its shut condition was true", condition=label, cycle=n, at=state["true"])
        if want:
            state["true"] = (n,)
        elif want is None:
            state["true"] = state["true"] or -1
            session.shut_down()
        if n >= 40:
            state["forced"] = True
            session.shut_down()
    app.after_cycle(after)
    out = app.serve()
    if state.get("hold"):
        state.pop("hold").__exit__(None, None, None)
    app.close()
    w.other.close()
    if out.exception:
        raise out.exception
    if out.stopped:
        ctx.inconclusive(out.stopped)
    if state["true"] == -1:
        return
    ctx.check(state["true"] is not None or state.get("forced"), "shut-early", "the session ended though its shut condition was not true", condition=label, cycles=app.cycles)
    ctx.saw("shut_true" if state["true"] else "shut_never")
    ctx.sig("shut", label, bool(state["true"]))
    ctx.sample(label)


KINDS = {"watch": (watch, 300, 5000), "shut": (shut, 200, 3000)}
FLOORS = {"combined_false": 4000, "combined_true": 3500, "custom_false": 1500, "custom_true": 1500, "cycles_false": 900, "cycles_true": 600, "env_false": 400, "env_true": 120, "given": 5000, "lambda_true": 400, "param_false": 1200, "param_true": 250, "period_false": 800, "period_true": 700, "restarts": 30, "sentence_false": 1600, "sentence_true": 1400, "shut_asked": 700, "shut_true": 70, "taskcond_false": 350, "taskcond_true": 150, "uptime_false": 1000, "uptime_true": 600}
