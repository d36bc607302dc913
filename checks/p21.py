import asyncio

from rocketry.conditions import FuncCond
from rvm.runs import PlannedError
from rvm.sim import App, Clock

ID = "P21"
RULE = ("random sets of main, async and thread tasks whose conditions, switches, priorities and requested runs are changed between the cycles or in the middle of one by a task, tasks added and removed, the "
        "scheduler put on hold, restarted and shut down, with startup and shutdown tasks of every kind; the starts of each phase (startup, every cycle, shutdown) must be exactly the due tasks, in the "
        "order of priority; distinct: (phase, execution, due or why not, requested, tasks in the cycle)")
ASSUMES = ["tasks of equal priority run in any order", "a task is considered with the switches it has when its turn comes"]


class World:
    def __init__(self, ctx, execs):
        rng = self.rng = ctx.rng
        self.ctx = ctx
        self.clock = Clock()
        self.real = "thread" in execs
        self.execs = execs
        self.app = App(self.clock, execution="async", cycle_sleep=rng.choice([0.01, 0.1, None]), restarting="recall", multilaunch=False, timeout=1e9)
        self.session = self.app.session
        self.model = {}          # name -> dict(cond, disabled, priority, batches, execution, kind)
        self.removed = set()
        self.hold = False
        self.inside = False
        self.closing = False
        self.n = 0
        self.trace = []
        self.orders = {}         # what the switcher does on the cycle
        self.life = 0

    # -- tasks
    def body(self, name, execution):
        w, rng = self, self.rng

        def end():
            if rng.random() < 0.2:
                raise PlannedError("planned")
        if execution == "async":
            async def run():
                until = w.app.cycles + rng.choice([0, 0, 0, 1, 2])
                await asyncio.sleep(0)
                while not w.closing and (w.inside or w.app.cycles < until):
                    await asyncio.sleep(0.001)
                end()
        else:
            def run():
                end()
        return run

    def add(self, kind="normal", in_cycle=False):
        rng = self.rng
        name = f"{kind[:2]}{self.n}"
        self.n += 1
        m = {"cond": rng.random() < 0.5, "disabled": rng.random() < 0.25, "priority": rng.choice([-20, -2, 0, 0, 0, 2, 4, 30]), "batches": 0, "execution": rng.choice(self.execs), "kind": kind, "has_cond": True}
        kw = {}
        if kind in ("startup", "both"):
            kw["on_startup"] = True
        if kind in ("shutdown", "both"):
            kw["on_shutdown"] = True
        if kind == "both":
            m["execution"] = "main"      # (otherwise it may still be alive from the startup)
        if kind != "normal":
            m["has_cond"] = rng.random() < 0.4
        if m["has_cond"]:
            kw["start_cond"] = FuncCond(lambda: m["cond"])
        if m["disabled"] or rng.random() < 0.5:
            kw["disabled"] = m["disabled"]
        if m["priority"] or rng.random() < 0.5:
            kw["priority"] = m["priority"]
        self.app.add(self.body(name, m["execution"]), name, execution=m["execution"], **kw)
        self.model[name] = m
        return name

    def alive(self, name):
        recs = [r for r in self.app.tap.recs if r.task == name]
        return bool(recs) and recs[-1].action == "run"

    # -- switching
    def switch(self, name, kind=None):
        "Change something about a task"
        rng, m, task = self.rng, self.model[name], self.session[name]
        kind = kind or rng.choice(["cond", "cond", "cond", "disabled", "disabled", "priority", "run"])
        if kind == "cond":
            m["cond"] = not m["cond"]
        elif kind == "disabled":
            m["disabled"] = not m["disabled"]
            if rng.random() < 0.5 or not m["disabled"]:
                task.disabled = m["disabled"]
            else:
                task.disabled = True
        elif kind == "priority":
            m["priority"] = task.priority = rng.choice([-20, -2, 0, 2, 4, 30])
        elif kind == "run" and m["kind"] == "normal":
            for _ in range(rng.choice([1, 1, 2])):
                m["batches"] += 1
                task.run()

    def set_hold(self, value):
        self.hold = value
        self.session.scheduler.on_hold = value

    def due(self, name):
        m = self.model[name]
        if self.hold:
            return False, "hold"
        if m["execution"] != "main" and self.alive(name):
            return False, "alive"
        if m["batches"]:
            return True, "requested"
        if m["disabled"]:
            return False, "disabled"
        return m["cond"], "cond"

    def phase_due(self, name, phase):
        m = self.model[name]
        if m["disabled"]:
            return False, "disabled"
        if not m["has_cond"]:
            return True, "no-cond"
        return m["cond"], "cond"

    def judge(self, phase, names, recs, how):
        "The starts in the records against those that were due"
        ctx = self.ctx
        runs = [r.task for r in recs if r.action == "run"]
        for name in names:
            want, why = self.plan[name]
            got = runs.count(name)
            m = self.planned[name]
            ctx.check(got == (1 if want else 0), f"{phase}-{'missing' if want and not got else 'twice' if want else 'extra'}",
                      f"in {phase} a task {'should have started once' if want else 'should not have started'}", task=name, times=got, why=why, model=m, runs=runs, **how)
            ctx.saw(f"{phase}_{'started' if want else 'not_started'}")
            if not want:
                ctx.saw(f"kept_{why}")
            ctx.sig(phase, m["execution"], want, why, m["kind"], min(len(names), 8))
        strange = [t for t in runs if t not in names and t != "switcher"]
        ctx.check(not strange, f"{phase}-strange", f"tasks that are none of its business were started in {phase}", tasks=strange, runs=runs, **how)
        prios = [self.planned[t]["priority"] for t in runs if t in self.planned]
        ctx.check(prios == sorted(prios, reverse=True), f"{phase}-order", f"the tasks of {phase} did not start in the order of priority", runs=runs, priorities=prios, **how)
        if len(set(prios)) > 1:
            ctx.saw(f"ordered_{phase}")

    def snapshot(self, names, how):
        self.plan = {n: how(n) for n in names}
        self.planned = {n: dict(self.model[n]) for n in names}
        self.mark = len(self.app.tap.recs)

    def names(self, *kinds):
        return [n for n, m in self.model.items() if m["kind"] in kinds]


def scenario(ctx, execs):
    rng = ctx.rng
    w = World(ctx, execs)
    app, session = w.app, w.session
    for _ in range(rng.randint(1, 6)):
        w.add()
    for kind in ("startup", "shutdown", "both"):
        for _ in range(rng.choice([0, 0, 1, 2])):
            w.add(kind)
    lives = rng.choice([1, 1, 2, 3])
    length = [rng.randint(2, 8) for _ in range(lives)]
    state = {"starts": 0, "ends": 0}

    # the one that switches in the middle of the cycle; nothing else has the same priority
    has_switcher = rng.random() < 0.6
    sw_prio = rng.choice([31, 1, -1, 3])

    def switcher():
        for kind, arg in w.orders.pop(app.cycles, []):
            if kind == "hold":
                w.set_hold(arg)
            elif kind == "add":
                state["new"].add(w.add())
            elif arg in w.model:
                w.switch(arg, kind)
        # those that come after
        for name in w.plan:
            if w.planned[name]["priority"] < sw_prio:
                w.plan[name] = w.due(name)
                w.planned[name] = {**w.model[name], "priority": w.planned[name]["priority"]}
    if has_switcher:
        app.add(switcher, "switcher", execution="main", start_cond=FuncCond(lambda: app.cycles in w.orders), priority=sw_prio)

    @session.hook_startup()
    def starting():
        ctx.check(app.cycles == 0 or w.life > 0, "startup-late", "the startup hook was called late")
        app.cycles = 0
        w.closing = False
        w.set_hold(False)
        w.snapshot(w.names("startup", "both"), lambda n: w.phase_due(n, "startup"))
        state["starts"] += 1
        yield
        w.judge("startup", list(w.plan), app.tap.recs[w.mark:], dict(life=w.life))
        state["quiet"] = len(app.tap.recs)

    @session.hook_shutdown()
    def stopping():
        w.closing = True
        quiet = [r for r in app.tap.recs[state["quiet"]:] if r.action == "run"]
        ctx.check(not quiet, "between", "tasks were started between the phases", records=quiet)
        w.snapshot(w.names("shutdown", "both"), lambda n: w.phase_due(n, "shutdown"))
        state["ends"] += 1
        yield
        w.judge("shutdown", list(w.plan), app.tap.recs[w.mark:], dict(life=w.life))
        w.life += 1

    def wait_threads():
        # (a thread lives a bit longer than its last record)
        import time
        if w.real:
            end = time.monotonic() + 20
            while time.monotonic() < end and any(session[n].is_alive() for n, m in w.model.items() if m["execution"] == "thread"):
                time.sleep(0.0002)

    def before(n):
        wait_threads()
        w.inside = True
        quiet = [r for r in app.tap.recs[state["quiet"]:] if r.action == "run"]
        ctx.check(not quiet, "between", "tasks were started between the cycles", records=quiet)
        w.snapshot(w.names("normal"), w.due)
        # removed or added tasks: the tasks of a cycle are chosen at its beginning
        state["new"] = set()
        state["orders"] = n in w.orders

    def after(n):
        names = [x for x in w.plan if x not in state["new"]]
        recs = app.tap.recs[w.mark:]
        if has_switcher and state["orders"]:
            ran = any(r.task == "switcher" and r.action == "run" for r in recs)
            ctx.check(ran != state["held"], "switcher", "the switching task should start unless the scheduler is on hold", held=state["held"], cycle=n)
            w.orders.pop(n, None)
        w.judge("cycle", names, recs, dict(cycle=n, life=w.life, hold=w.hold))
        for name in names:
            if w.plan[name][0] and w.planned[name]["batches"]:
                w.model[name]["batches"] -= 1
        # between the cycles
        for _ in range(rng.choice([0, 1, 2, 3])):
            name = rng.choice(list(w.model))
            w.switch(name)
        if rng.random() < 0.15:
            w.set_hold(True)
        elif rng.random() < 0.4:
            w.set_hold(False)
        if rng.random() < 0.1:
            w.add()
        normal = w.names("normal")
        if rng.random() < 0.08 and len(normal) > 1:
            name = rng.choice(normal)
            if not w.alive(name):
                session.remove_task(rng.choice([name, session[name]]))
                del w.model[name]
                ctx.saw("removed")
        if has_switcher and rng.random() < 0.5:
            todo = []
            for _ in range(rng.choice([1, 2, 3])):
                kind = rng.choice(["hold", "hold", "cond", "cond", "disabled", "run", "add"])
                arg = rng.random() < 0.7 if kind == "hold" else rng.choice(w.names("normal") or ["-"])
                todo.append((kind, arg))
            w.orders[n + 1] = todo
        state["held"] = w.hold
        if n >= length[w.life]:
            w.orders.clear()
            # also with the scheduler on hold
            if w.life + 1 < lives:
                w.set_hold(False)
                session.restart()
                ctx.saw("restarts")
            else:
                ctx.saw("shut_on_hold", int(w.hold))
                session.shut_down()
        w.inside = False
        state["quiet"] = len(app.tap.recs)
    app.at_cycle(before)
    app.after_cycle(after)
    out = app.serve(real_yield=0.0003 if w.real else 0)
    app.close()
    ctx.sample({n: {k: v for k, v in m.items()} for n, m in w.model.items()})
    if out.exception:
        raise out.exception
    if out.stopped:
        ctx.inconclusive(out.stopped)
    ctx.check(state["starts"] == state["ends"] == lives, "lives", "the scheduler should start up and shut down as many times as asked", startups=state["starts"], shutdowns=state["ends"], lives=lives)
    runs = sum(r.action == "run" for r in app.tap.recs)
    ends = len(app.tap.recs) - runs
    ctx.check(runs == ends, "ends", "not every start has its end", starts=runs, ends=ends)


def local(ctx):
    scenario(ctx, ["main", "async"])


def threads(ctx):
    scenario(ctx, ["thread", "main", "async"])


KINDS = {"local": (local, 700, 10000), "threads": (threads, 200, 3000)}
FLOORS = {"cycle_not_started": 9000, "cycle_started": 2800, "kept_alive": 600, "kept_cond": 2500, "kept_disabled": 3000, "kept_hold": 3000, "ordered_cycle": 600, "ordered_shutdown": 80, "ordered_startup": 100,
          "removed": 150, "restarts": 250, "shut_on_hold": 100, "shutdown_not_started": 400, "shutdown_started": 400, "startup_not_started": 400, "startup_started": 450}
