import os
import pickle
import shutil
import sys
import tempfile
import threading
import time

from rocketry.args import Arg, CliArg, Config, EnvArg, FuncArg, Private, Return, Session, SimpleArg, Task, TerminationFlag, argument
from rocketry.core import Task as BaseTask
from rvm.sim import App, Clock

ID = "P16"
RULE = ("task functions with random signatures (with and without defaults, keyword-only, **kwargs, arguments as defaults) get values from the run, the task, the signature and the session - "
        "plain values, functions with nested arguments, references and chains of references to session parameters, pipes, return values, environment, command line, task, session, config, private - "
        "on main, async, thread and process with both kinds of materialization; what the function received is compared with a resolution reference and the stored parameters must stay as they were; "
        "distinct: (execution, source, kind of value, called or failed)")
ASSUMES = ["values handed to child processes can be pickled", "session parameters change only between runs"]

NAMES = ["a", "b", "c", "d", "e", "f"]
ENV = "RVM_P16_"


class Missing(Exception):
    "No value (KeyError in the real one)"


class Broken(Exception):
    "Another error"


def describe(v):
    if isinstance(v, BaseTask):
        return ("task", v.name)
    if type(v).__name__ == "Session" and hasattr(v, "scheduler"):
        return ("session", v.config.task_logger_basename)
    if type(v).__name__ == "Config" and hasattr(v, "task_logger_basename"):
        return ("config", v.task_logger_basename)
    if isinstance(v, threading.Event):
        return ("event",)
    if isinstance(v, tuple):
        return tuple(describe(x) for x in v)
    return v


class World:
    def __init__(self, rng, app):
        self.rng, self.app = rng, app
        self.session = {}        # name -> (arg, expect, kind)
        self.returns = {}        # task -> value
        self.evals = []          # (id, pid, thread) of the in-process evaluations of functions
        self.n = 0
        self.funcs = {}          # id of the argument -> (id, materialization, argument)

    def uid(self):
        self.n += 1
        return self.n

    def plain(self):
        rng = self.rng
        return rng.choice([lambda: self.uid(), lambda: f"v{self.uid()}", lambda: None, lambda: 0, lambda: "", lambda: [self.uid()], lambda: {"k": self.uid()}, lambda: False,
                           lambda: ("t", self.uid())])()

    def arg(self, depth=2, args=True):
        "-> (argument or value, expect(task), kind)"
        rng = self.rng
        kinds = ["plain"] * (1 if depth == 2 else 3) + (["simple", "private", "arg", "arg", "func", "func", "env", "cli", "task", "other", "session", "config", "return", "pipe"] if args else [])
        kind = rng.choice(kinds)
        if depth <= 0 and kind in ("func", "pipe"):
            kind = "simple"
        if kind == "plain":
            v = self.plain()
            return v, (lambda t: v), kind
        if kind == "simple":
            v = self.plain()
            return SimpleArg(v), (lambda t: v), kind
        if kind == "private":
            v = self.plain()
            return Private(v), (lambda t: v), kind
        if kind == "arg":
            key = rng.choice(list(self.session) + ["nothing"])
            if rng.random() < 0.4:
                default = self.plain()
                return Arg(key, default=default), (lambda t: self.look(key, t, default)), "arg-default"
            return Arg(key), (lambda t: self.look(key, t)), kind
        if kind == "env":
            var, default = ENV + rng.choice("AB"), rng.choice(["dflt", None])
            arg = EnvArg(var) if default is None else EnvArg(var, default=default)

            def expect(t):
                if var in os.environ:
                    return os.environ[var]
                if default is None:
                    raise Missing()
                return default
            return arg, expect, kind
        if kind == "cli":
            par, default = rng.choice(["--rvm-x", "--rvm-y"]), rng.choice(["dflt", None])
            arg = CliArg(par) if default is None else CliArg(par, default=default)

            def expect(t):
                if par in sys.argv:
                    return sys.argv[sys.argv.index(par) + 1]
                if default is None:
                    raise Missing()
                return default
            return arg, expect, kind
        if kind == "task":
            return Task(), (lambda t: ("task", t)), kind
        if kind == "other":
            return Task("prod"), (lambda t: ("task", "prod")), kind
        if kind == "session":
            return Session(), (lambda t: ("session", self.app.basename)), kind
        if kind == "config":
            return Config(), (lambda t: ("config", self.app.basename)), kind
        if kind == "return":
            src = rng.choice(["prod", "never", "absent"])
            default = rng.choice([None, "no return"])
            arg = Return(src) if default is None else Return(src, default=default)

            def expect(t):
                if src == "absent":
                    raise Broken()
                if src in self.returns:
                    return self.returns[src]
                if default is None:
                    raise Missing()
                return default
            return arg, expect, kind
        if kind == "pipe":
            parts = [self.arg(depth - 1) for _ in range(rng.randint(2, 3))]
            parts = [p if not p[2] == "plain" else (SimpleArg(p[0]), p[1], "simple") for p in parts]
            arg = parts[0][0]
            for p in parts[1:]:
                arg = arg >> p[0]

            def expect(t):
                for p in parts:
                    try:
                        return p[1](t)
                    except Missing:
                        continue
                raise Missing()
            return arg, expect, kind
        # func
        uid = self.uid()
        nested = [self.arg(depth - 1) for _ in range(rng.randint(0, 2))]
        nested = [p for p in nested if p[2] != "plain"]
        scope = {f"d{i}": p[0] for i, p in enumerate(nested)}
        own = self.plain() if rng.random() < 0.3 else None
        sig = ", ".join((["own"] if own is not None else []) + [f"n{i}=d{i}" for i in range(len(nested))])
        evals = self.evals
        scope["note"] = lambda: evals.append((uid, os.getpid(), threading.get_ident()))
        body = "".join(f"n{i}, " for i in range(len(nested)))
        exec(f"def fn({sig}):\n    note()\n    return ('f', {uid}, {'own' if own is not None else 'None'}, {body})\n", scope)
        fn = scope["fn"]
        how = rng.choice([None, None, "pre", "post"])
        args = {"materialize": how} if how else {}
        if own is not None:
            arg = FuncArg(fn, own, **args) if rng.random() < 0.5 else FuncArg(fn, own=own, **args)
        else:
            arg = FuncArg(fn, **args) if rng.random() < 0.6 else argument(**args)(fn)
        self.funcs[id(arg)] = (uid, how, arg)
        return arg, (lambda t: ("f", uid, own) + tuple(p[1](t) for p in nested)), "func"

    def look(self, key, task, *default):
        try:
            if key not in self.session:
                raise Missing()
            return self.session[key][1](task)
        except Missing:
            if default:
                return default[0]
            raise

    def set_session(self):
        "(Re)set some session parameters, in an order without circles"
        rng = self.rng
        for name in rng.sample(NAMES + ["x", "y", "z"], rng.randint(1, 4)):
            saved = dict(self.session)
            # only refer to what comes before in this order
            self.session = {k: v for k, v in saved.items() if k < name}
            spec = self.arg()
            # a function as a session parameter may also be set with the decorator
            self.session = saved
            self.session[name] = spec
            if rng.random() < 0.3 and isinstance(spec[0], FuncArg) and not spec[0].args and not spec[0].kwargs and spec[0].materialize is None:
                self.app.app.param(name)(spec[0].func)
            else:
                self.app.app.params(**{name: spec[0]})


class Sig:
    def __init__(self, world, rng):
        names = rng.sample(NAMES, rng.randint(0, 4))
        self.params, scope = [], {}
        parts, seen_default, star = [], False, False
        for n in names:
            kw_only = star or rng.random() < 0.2
            if kw_only and not star:
                parts.append("*")
                star = True
            r = rng.random()
            if r < 0.35 and (star or not seen_default):
                default = None
                parts.append(n)
            else:
                seen_default = True
                default = world.arg() if r < 0.75 else (lambda v: (v, (lambda t: v), "plain"))(world.plain())
                scope["d_" + n] = default[0]
                parts.append(f"{n}=d_{n}")
            self.params.append((n, default))
        self.var = rng.random() < 0.25
        if self.var:
            parts.append("**rest")
        self.names = names
        self.text = ", ".join(parts)
        self.scope = scope
        self.got = "dict(" + ", ".join([f"{n}={n}" for n in names] + (["**rest"] if self.var else [])) + ")"

    def make(self, sink, is_async):
        scope = dict(self.scope, sink=sink)
        exec(f"{'async ' if is_async else ''}def body({self.text}):\n    return sink({self.got})\n", scope)
        return scope["body"]


def resolve(ctx, execs, n_rounds):
    rng = ctx.rng
    clock = Clock()
    materialize = rng.choice(["pre", "post"])
    app = App(clock, execution="main", silence_task_prerun=True, param_materialize=materialize, cycle_sleep=0.01)
    world = World(rng, app)
    path = tempfile.mkdtemp(prefix="rvm-")
    env0 = {k: os.environ.get(k) for k in (ENV + "A", ENV + "B")}
    argv0 = list(sys.argv)
    calls = {}
    try:
        os.environ[ENV + "A"] = f"env{rng.randrange(100)}"
        sys.argv[:] = argv0 + ["--rvm-x", f"cli{rng.randrange(100)}"]
        app.add(lambda: None, "never", execution="main")

        def produce(v):
            return v
        app.add(produce, "prod", execution="main")
        world.set_session()
        tasks = {}
        for i in range(rng.randint(2, 4)):
            name, e = f"t{i}", rng.choice(execs)
            sig = Sig(world, rng)
            own = {}
            for n in NAMES:
                if (n in sig.names or sig.var) and rng.random() < 0.25:
                    own[n] = world.arg()
            calls[name] = []

            def sink(got, name=name, e=e):
                got = {k: describe(v) for k, v in got.items()}
                if e == "process":
                    with open(os.path.join(path, f"{name}.{time.monotonic_ns()}"), "wb") as f:
                        pickle.dump(got, f)
                else:
                    calls[name].append(got)
                return got
            if e in ("main", "async", "thread") and not sig.scope and not sig.var and rng.random() < 0.3:
                # a task class of the user
                scope = {"Base": BaseTask, "sink": sink}
                exec(f"class Own(Base):\n    def execute(self, {sig.text}):\n        return sink({sig.got})\n", scope)
                scope["Own"](name=name, session=app.session, execution=e, parameters={k: v[0] for k, v in own.items()})
                ctx.saw("own_class")
            else:
                app.add(sig.make(sink, is_async=rng.random() < 0.5), name, execution=e, parameters={k: v[0] for k, v in own.items()})
            tasks[name] = (e, sig, own)
        expected = {name: [] for name in tasks}
        stored = {name: dict(app.session[name].parameters.items()) for name in tasks}
        state = {}

        def settle():
            end = time.monotonic() + 20
            while any(app.session[t].is_alive() for t in tasks if tasks[t][0] in ("thread", "process")) and time.monotonic() < end:
                time.sleep(0.001)

        def before(n):
            settle()
            if n > n_rounds:
                return
            if rng.random() < 0.5:
                world.set_session()
            if rng.random() < 0.3:
                v = world.plain()
                app.session["prod"].run(v=v)
                state["prod"] = v
                return
            state["session"] = dict(app.session.parameters.items())
            for name, (e, sig, own) in tasks.items():
                if rng.random() < 0.8:
                    batch = {k: world.arg() for k in NAMES if (k in sig.names or sig.var) and rng.random() < 0.2}
                    x = expect(world, name, sig, own, batch)
                    x["funcs"] = [world.funcs[id(v[0])][:2] for v in batch.values() if v[2] == "func"]
                    expected[name].append(x)
                    given = {k: v[0] for k, v in batch.items()}
                    if rng.random() < 0.5:
                        app.session[name].run(**given)
                    else:
                        app.session[name].run(given)
            state["check"] = True

        def after(n):
            settle()
            if "prod" in state:
                world.returns["prod"] = state.pop("prod")
            if state.pop("check", False):
                now = dict(app.session.parameters.items())
                ctx.check(same_items(now, state["session"]), "session-params-changed", "running tasks changed the session parameters", now=types(now), before=types(state["session"]))
                for name in tasks:
                    now = dict(app.session[name].parameters.items())
                    ctx.check(same_items(now, stored[name]), "task-params-changed", "running a task changed its stored parameters", now=types(now), before=types(stored[name]), execution=tasks[name][0])
                    ctx.check(not app.session[name].batches, "batch-left", "the parameters of the run were left to the task", task=name)
        app.at_cycle(before)
        app.after_cycle(after)
        app.stop_after(cycles=n_rounds + 2)
        out = app.serve(real_yield=0.001 if "process" in execs or "thread" in execs else 0)
        settle()
        if out.exception is not None:
            raise out.exception
        if out.stopped:
            ctx.inconclusive(out.stopped)
        for fn in sorted(os.listdir(path), key=lambda f: int(f.rsplit(".", 1)[1])):
            with open(os.path.join(path, fn), "rb") as f:
                calls[fn.split(".")[0]].append(pickle.load(f))
        for name, (e, sig, own) in tasks.items():
            want_calls = [x["got"] for x in expected[name] if x["got"] is not None]
            got = calls[name]
            ctx.check(len(got) == len(want_calls), "call-count", f"the function was called {len(got)} times when {len(want_calls)} runs had all of their arguments", execution=e, signature=sig.text,
                      got=got[-3:], want=want_calls[-3:], plan=expected[name][-4:])
            for g, w in zip(got, want_calls):
                ctx.check(g == w, "wrong-arguments", "the function received other arguments than it was entitled to", execution=e, signature=sig.text, got=g, want=w,
                          plan=[x for x in expected[name] if x["got"] is w])
            ends = [r.action for r in app.tap.recs if r.task == name and r.action != "run"]
            wants = ["success" if x["got"] is not None else "fail" for x in expected[name]]
            ctx.check(ends == wants, "wrong-outcome", "a run with its arguments should succeed and one without them should fail", execution=e, signature=sig.text, got=ends, want=wants,
                      errors=[(r.exc_text or "")[-2500:] for r in app.tap.recs if r.task == name and r.action == "fail"][-2:])
            for x in expected[name]:
                for uid, how in x["funcs"] if x["got"] is not None else ():
                    # a function given just for this run: called once, on the right side
                    where = [(pid, tid) for u, pid, tid in world.evals if u == uid]
                    pre = (how or materialize) == "pre" and e in ("thread", "process")
                    want = 0 if e == "process" and not pre else 1
                    ctx.check(len(where) == want, "argument-calls", f"a function argument was called {len(where)} times for one run in the main process", execution=e, materialize=how or materialize)
                    if where and e in ("thread", "process"):
                        ctx.check((where[0][1] == threading.get_ident()) == pre, "argument-where", "a function argument was called on the wrong side of the start of the task", execution=e,
                                  materialize=how or materialize)
                    ctx.saw("materialized_pre" if pre else "materialized_post")
                for n, (src, kind) in x["sources"].items():
                    ctx.sig(e, src, kind, x["got"] is not None)
                    ctx.saw(f"from_{src}")
                ctx.saw("called_" + e if x["got"] is not None else "failed_" + e)
                ctx.saw("called" if x["got"] is not None else "failed")
            ctx.sample({"execution": e, "signature": sig.text, "got": got[:1]})
    finally:
        sys.argv[:] = argv0
        for k, v in env0.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
        app.close()
        shutil.rmtree(path, ignore_errors=True)


def types(d):
    return {k: type(v).__name__ for k, v in d.items()}


def same_items(a, b):
    return list(a) == list(b) and all(a[k] is b[k] for k in a)


def expect(world, task, sig, own, batch):
    "What the function should get"
    got, sources = {}, {}
    failed = False
    for n, default in sig.params:
        if n in batch:
            src, spec = "run", batch[n]
        elif n in own:
            src, spec = "task", own[n]
        elif default is not None and default[2] != "plain":
            src, spec = "signature", default
        elif n in world.session:
            src, spec = "session", world.session[n]
        elif default is not None:
            src, spec = "default", default
        else:
            failed = True
            sources[n] = ("nowhere", "-")
            continue
        sources[n] = (src, spec[2])
        try:
            got[n] = spec[1](task)
        except (Missing, Broken):
            failed = True
    if sig.var:
        for src, pool in (("run", batch), ("task", own)):
            for n, spec in pool.items():
                if n not in sig.names and n not in sources:
                    sources[n] = ("rest-" + src, spec[2])
                    try:
                        got[n] = spec[1](task)
                    except (Missing, Broken):
                        failed = True
    return {"got": None if failed else got, "sources": sources}


def local(ctx):
    resolve(ctx, ["main", "async"], 8)


def threads(ctx):
    resolve(ctx, ["thread", "thread", "main"], 6)


def processes(ctx):
    resolve(ctx, ["process"], 4)


KINDS = {"local": (local, 600, 9000), "threads": (threads, 300, 4000), "processes": (processes, 70, 800)}
FLOORS = {"called_main": 1200, "called_async": 1000, "called_thread": 500, "called_process": 120, "failed": 1500, "from_run": 1800, "from_task": 1800, "from_signature": 2500, "from_session": 1800,
          "from_default": 600, "materialized_pre": 15, "materialized_post": 200, "own_class": 60}
