import asyncio
import datetime

from rvm import ref_time as R
from rvm.hist import HistApp, rand_history, Ev
from rvm.sim import App, Clock
from rvm.drive import Planned, to_ts
from rocketry.exc import TaskInactionException

ID = "P11"
RULE = ("random pipelines (chains, diamonds, cycles of tasks) on after success/fail/finish of one, any or all tasks, with random outcomes, triggers, earlier logs and "
        "execution types; every start must be justified by the log at that point (a wanted end newer than the task's own latest start) and every task that is due at the "
        "beginning of a cycle must start in it; distinct: (condition, any/all, number of upstream tasks, truth, execution)")
ASSUMES = ["finished means succeeded or failed", "all(...) asks each upstream task to have ended after the own latest start"]

ACTS = {"success": ("success",), "fail": ("fail",), "finish": ("success", "fail")}


def one(task, act, dep, log):
    ends = [i for i, e in enumerate(log) if e.task == dep and e.action in ACTS[act]]
    starts = [i for i, e in enumerate(log) if e.task == task and e.action == "run"]
    if not ends:
        return False
    return not starts or ends[-1] > starts[-1]


def by_time(log):
    "A thread takes the time of its record before it gets to log it: the order of times can differ from the order of arrival"
    return sorted(log, key=lambda r: r.created)


def rand_dep(rng, names):
    "-> (condition, function(task, log), label)"
    from rocketry import conds as C
    from rocketry.parse import parse_condition
    act = rng.choice(list(ACTS))
    word = {"success": "succeeded", "fail": "failed", "finish": "finished"}[act]
    form = rng.choice(["one", "one", "all", "any"])
    if form == "one":
        dep = rng.choice(names)
        cond = rng.choice([lambda: getattr(C, f"after_{act}")(dep), lambda: f"after task '{dep}' {word}"])()
        return cond, (lambda task, log: one(task, act, dep, log)), f"{act}({dep})", (form, act, 1)
    deps = rng.sample(names, min(len(names), rng.randint(2, 3)))
    listed = ", ".join(f"'{d}'" for d in deps)
    text = f"after {'any ' if form == 'any' else ''}tasks {listed} {word}"
    cond = rng.choice([lambda: getattr(C, f"after_{form}_{act}")(*deps), lambda: text])()
    comb = all if form == "all" else any
    return cond, (lambda task, log: comb(one(task, act, d, log) for d in deps)), f"{form} {act}({','.join(deps)})", (form, act, len(deps))


def history(ctx):
    rng = ctx.rng
    names = ["a", "b", "c", "me"]
    start = to_ts(datetime.datetime(2021, 1, 1) + R.TD(seconds=rng.randrange(86400 * 1500)))
    events = rand_history(rng, names, start, span=rng.choice([60, 7200]))
    app = HistApp(events, start, force_status_from_logs=rng.random() < 0.3)
    for n in names:
        app.add(lambda: None, n, execution="main")
    from rocketry.parse import parse_condition
    conds = [rand_dep(rng, names[:3]) for _ in range(8)]

    def look(n):
        for cond, ref, label, sig in conds:
            cond = parse_condition(cond, session=app.session) if isinstance(cond, str) else cond
            want = ref("me", events)
            got = cond.observe(task=app.session["me"], session=app.session)
            ctx.check(bool(got) == want, "depend-history", "the pipeline condition does not agree with the order of the log", cond=label, got=got, want=want, events=events)
            ctx.saw("true" if want else "false")
            ctx.sig("h", sig, want)
    app.inside(look)
    ctx.sample(f"{conds[0][2]} over {len(events)} records")


def pipeline(ctx):
    from rocketry.conditions import FuncCond
    rng = ctx.rng
    clock = Clock()
    execution = rng.choice(["main", "async", "async", "thread"])
    force = rng.random() < 0.3
    app = App(clock, execution=execution, force_status_from_logs=force, cycle_sleep=0.01)
    n = rng.randint(3, 6)
    names = [f"t{i}" for i in range(n)]
    trigger = {}
    deps = {}

    def outcome():
        return rng.choice(["success", "success", "fail", "fail", "inaction"])

    def finish(o):
        if o == "fail":
            raise Planned("planned")
        if o == "inaction":
            raise TaskInactionException()

    def make(name):
        def body():
            finish(outcome())

        async def abody():
            o = outcome()
            for _ in range(rng.choice([0, 0, 1, 3])):
                await asyncio.sleep(0.011)
            finish(o)
        return abody if execution == "async" else body
    for i, name in enumerate(names):
        if i == 0 or (i == 1 and rng.random() < 0.5):
            trigger[name] = False
            app.add(make(name), name, execution=execution, start_cond=FuncCond(lambda name=name: trigger[name]), priority=rng.randrange(3))
        else:
            # mostly upstream tasks, sometimes a cycle
            pool = names[:i] if rng.random() < 0.8 else [x for x in names if x != name]
            cond, ref, label, sig = rand_dep(rng, pool)
            deps[name] = (ref, label, sig)
            app.add(make(name), name, execution=execution, start_cond=cond, priority=rng.randrange(3))
    snap = {}

    def log():
        return list(app.tap.recs)

    def before(k):
        for name in trigger:
            trigger[name] = rng.random() < 0.5
        snap["log"] = log()
        # (a thread lives a bit longer than its last record)
        snap["alive"] = {name: app.session[name].is_alive() for name in names}
        ended = {r.task for r in snap["log"] if r.action != "run"}
        snap["alive"][None] = execution == "thread" and any(snap["alive"][name] for name in ended)

    def after(k):
        old, new = snap["log"], log()
        for name, (ref, label, sig) in deps.items():
            mine = [r for r in old if r.task == name]
            alive = (bool(mine) and mine[-1].action == "run") or (execution == "thread" and snap["alive"][name])
            started = sum(r.task == name and r.action == "run" for r in new[len(old):])
            if not alive and ref(name, old) and ref(name, by_time(old)) and not snap["alive"][None]:
                ctx.check(started >= 1, "not-started", "a task whose upstream had ended did not start on the cycle", task=name, cond=label, log=new[-12:], execution=execution)
                ctx.saw("due")
                ctx.sig("p", sig, True, execution)
            else:
                ctx.saw("not_due")
    app.at_cycle(before)
    app.after_cycle(after)
    app.stop_after(cycles=20)
    out = app.serve(real_yield=0.0005 if execution == "thread" else 0)
    app.close()
    if out.exception:
        raise out.exception
    if out.stopped:
        ctx.inconclusive(out.stopped)
    recs = app.tap.recs
    for i, r in enumerate(recs):
        if r.action == "run" and r.task in deps:
            ref, label, sig = deps[r.task]
            ctx.check(ref(r.task, recs[:i]) or (execution == "thread" and ref(r.task, [x for x in by_time(recs) if x.created < r.created])), "started-unjustified", "a task started although its upstream had not ended as wanted since its latest start", task=r.task, cond=label,
                      log=recs[max(0, i - 12):i + 1], execution=execution)
            ctx.saw("dependent_starts")
            ctx.saw(f"starts_{execution}")
    ctx.sample({k: v[1] for k, v in deps.items()})


KINDS = {"history": (history, 900, 15000), "pipeline": (pipeline, 500, 8000)}
FLOORS = {"true": 1000, "false": 2000, "due": 1000, "not_due": 3000, "dependent_starts": 1000, "starts_thread": 100, "starts_async": 200, "starts_main": 200}
