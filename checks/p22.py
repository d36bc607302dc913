import asyncio
import datetime
import os
import shutil
import tempfile

from redbird.repos import CSVFileRepo, MemoryRepo
from rocketry.conditions import FuncCond
from rocketry.exc import TaskInactionException
from rocketry.log import LogRecord, MinimalRecord, MinimalRunRecord, RunRecord, TaskLogRecord, TaskRunRecord
from rvm.hist import Ev, HistApp, rand_history
from rvm.runs import PlannedError
from rvm.sim import App, Clock, ts

ID = "P22"
RULE = ("logs made by random histories and by real sessions (overlapping runs of main, async and thread tasks with every outcome, startup tasks, restarts) are cut after any record - the point the scheduler "
        "died - and a scheduler with the same tasks, some new and some gone, is started over what remains, dies again and so on; after startup every task's status and times must be those of its latest records and "
        "exactly the tasks whose latest record is a start must have got one crash record; distinct: (latest record, records of the task, mode, store, model, life)")
ASSUMES = ["times in the log are distinct and the clock does not go back over a restart", "records of a task are in the order of their times"]

ACTIONS = ("run", "success", "fail", "terminate", "inaction", "crash")
NAMES = ("a", "A", "a.b", "a b", "ab", "b", "run", "b.a")
MODELS = (MinimalRecord, MinimalRunRecord, LogRecord, RunRecord, TaskLogRecord, TaskRunRecord)
UTC = datetime.timezone.utc
EPS = 2e-6       # datetimes are in whole microseconds
NEAR = 5e-4      # the time of a status is read a moment (of virtual time) before that of its record


def stamp(dt):
    return None if dt is None else dt.astimezone(UTC).timestamp() if dt.tzinfo else dt.replace(tzinfo=UTC).timestamp()


def known(log, name):
    mine = [e for e in log if e.task == name]
    last = {a: max((e.t for e in mine if e.action == a), default=None) for a in ACTIONS}
    status = max(mine, key=lambda e: e.t).action if mine else None
    return mine, status, last


def look(ctx, app, log, began, how):
    """Right after the startup

    log: the records the scheduler found; what it found out is compared with it
    """
    fresh = list(app.tap.recs)
    for name in sorted(t.name for t in app.session.tasks):
        task = app.session[name]
        mine, status, last = known(log, name)
        new = [r for r in fresh if r.task == name]
        crashes = [r for r in new if r.action == "crash"]
        want = 1 if status == "run" else 0
        sit = dict(task=name, log=mine[-6:], **how)
        if not ctx.check(len(crashes) == want, "crash-records", "a task that was running when the scheduler died should get one crash record" if want else "a task that was not running got a crash record",
                         records=new, **sit):
            continue
        if want:
            status = "crash"
            last["crash"] = crashes[0].created
            ctx.check(crashes[0].created >= began, "crash-time", "the crash is logged to the past", crash=crashes[0].created, began=began, **sit)
            ctx.saw("crashes")
        others = [r for r in new if r.action != "crash"]
        if others:
            # a startup task
            started = [r for r in others if r.action == "run"]
            ctx.check(task.on_startup, "stray", "a task got records in the startup", records=others, **sit)
            ctx.check(not crashes or crashes[0].seq < started[0].seq, "crash-late", "the crash was logged after the task was started again", records=new, **sit)
            for r in others:
                status, last[r.action] = r.action, r.created
            ctx.saw("startup_tasks")
        mine_now = {r.action for r in new}
        got = task.get_status()
        ctx.check(got == status, "status", "the status of the task is not that of its latest record", got=got, want=status, **sit)
        ctx.check(task.status == status, "status-attr", "the status attribute of the task is not that of its latest record", got=task.status, want=status, **sit)
        for a in ACTIONS:
            for what, value in ((f"get_last_{a}()", getattr(task, f"get_last_{a}")()), (f"last_{a}", getattr(task, f"last_{a}"))):
                t = stamp(value)
                ctx.check((t is None) == (last[a] is None) and (t is None or abs(t - last[a]) < (NEAR if a in mine_now else EPS)), f"last-{a}", f"{what} is not the time of the latest such record", got=t, want=last[a], **sit)
        ctx.saw("tasks_judged")
        ctx.saw(f"latest_{status}")
        ctx.sig(status, min(len(mine), 5), bool(others), how["force"], how["store"], how["model"], min(how["life"], 2))


class Store:
    def __init__(self, kind, model, dir, number):
        self.kind, self.model = kind, model
        if kind == "memory":
            self.repo = MemoryRepo(model=model)
        else:
            self.repo = CSVFileRepo(filename=os.path.join(dir, f"log{number}.csv"), model=model)
            self.repo.create() if hasattr(self.repo, "create") else None

    def records(self):
        return list(self.repo.filter_by().all())

    def take(self, items):
        for item in items:
            self.repo.add(item)


def events(items):
    out = []
    for r in items:
        get = r.get if isinstance(r, dict) else lambda k, r=r: getattr(r, k, None)
        out.append(Ev(get("task_name"), get("action"), float(get("created")), get("run_id")))
    return out


def history(ctx):
    "Written logs, started over each of the prefixes of it"
    rng = ctx.rng
    names = rng.sample(NAMES, rng.randint(1, 5))
    start = ts(2022, rng.randint(1, 12), rng.randint(1, 28), rng.randrange(24))
    log = rand_history(rng, names, start, unfinished=True, span=rng.choice([60, 86400, 40 * 86400]))
    cuts = range(len(log) + 1) if len(log) <= 12 else sorted(rng.sample(range(len(log) + 1), 12))
    force = rng.random() < 0.4
    for cut in cuts:
        app = HistApp(log[:cut], start, force_status_from_logs=force, cycle_sleep=0.01)
        here = [n for n in names if rng.random() < 0.9] + (["new"] if rng.random() < 0.3 else [])
        for n in here:
            app.add(lambda: None, n, execution="main", disabled=rng.random() < 0.2, on_startup=rng.random() < 0.1, on_shutdown=rng.random() < 0.1)
        app.inside(lambda n: look(ctx, app, log[:cut], start, dict(force=force, store="memory", model="MinimalRunRecord", life=0, cut=cut)))
    ctx.sample(f"{log}")


def lives(ctx, execs):
    "Real sessions that die after a record and are started again over what was left"
    rng = ctx.rng
    model, kind = rng.choice(MODELS), rng.choice(["memory", "memory", "csv"])
    dir = tempfile.mkdtemp(prefix="rvm-")
    names = rng.sample(NAMES, rng.randint(1, 4))
    conf = {n: dict(execution=rng.choice(execs), on_startup=rng.random() < 0.1, multilaunch=rng.random() < 0.3, timeout=rng.choice([0.3, 1, 1e9])) for n in names}
    items, now = [], ts(2023, 5, 17, 12)
    try:
        for life in range(rng.randint(2, 4)):
            store = Store(kind, model, dir, life)
            store.take(items)
            clock = Clock(now)
            force = rng.random() < 0.3
            app = App(clock, repo=store.repo, force_status_from_logs=force, cycle_sleep=rng.choice([0.01, 0.1]))
            log = events(items)
            flags = {}
            over = [False]

            def outcome():
                o = rng.choice(["success", "success", "fail", "inaction"])
                if o == "fail":
                    raise PlannedError("planned")
                if o == "inaction":
                    raise TaskInactionException()

            def make(name, execution):
                if execution == "async":
                    async def body():
                        for _ in range(rng.choice([0, 1, 5, 50])):
                            if over[0]:
                                break
                            await asyncio.sleep(0.05)
                        outcome()
                else:
                    def body():
                        outcome()
                return body
            for name, kw in conf.items():
                if rng.random() < 0.9:
                    flags[name] = False
                    app.add(make(name, kw["execution"]), name, start_cond=FuncCond(lambda name=name: flags[name]) if not kw["on_startup"] else None, **kw)
            judged = []

            @app.session.hook_startup()
            def startup():
                yield
                # (the records of threads: read until they are silent)
                for t in app.session.tasks:
                    import time
                    end = time.monotonic() + 20
                    while t.is_alive_as_thread() and time.monotonic() < end:
                        time.sleep(0.0002)
                look(ctx, app, log, now, dict(force=force, store=kind, model=model.__name__, life=life))
                judged.append(1)

            def before(n):
                for name in flags:
                    flags[name] = rng.random() < 0.4
                if rng.random() < 0.1:
                    app.session[rng.choice(list(flags))].terminate() if flags else None

            def after(n):
                if n >= cycles:
                    over[0] = True
            cycles = rng.randint(1, 6)
            app.at_cycle(before)
            app.after_cycle(after)
            app.stop_after(cycles=cycles)
            out = app.serve(real_yield=0.0003 if "thread" in execs else 0)
            app.close()
            if out.exception:
                raise out.exception
            if out.stopped:
                ctx.inconclusive(out.stopped)
            ctx.check(len(judged) == 1, "startup", "the scheduler did not start")
            left = store.records()
            old = len(items)
            ctx.check(len(left) == old + len(app.tap.recs), "store", "the log does not have the records that were logged", before=old, logged=len(app.tap.recs), after=len(left))
            # dies at some record of this life (also in the middle of its startup)
            cut = rng.randint(old, len(left)) if rng.random() < 0.9 else len(left)
            ctx.saw("cuts")
            items = left[:cut]
            now = clock.peek() + rng.choice([0.01, 1, 3600, 1e6])
        ctx.sample({"conf": conf, "records": len(items), "store": kind, "model": model.__name__})
    finally:
        shutil.rmtree(dir, ignore_errors=True)


def local(ctx):
    lives(ctx, ["main", "async"])


def threads(ctx):
    lives(ctx, ["thread", "async"])


KINDS = {"history": (history, 300, 5000), "local": (local, 300, 5000), "threads": (threads, 120, 2000)}
FLOORS = {"crashes": 1200, "cuts": 450, "latest_None": 1500, "latest_crash": 1200, "latest_fail": 250, "latest_inaction": 150, "latest_run": 40, "latest_success": 500, "latest_terminate": 100,
          "startup_tasks": 350, "tasks_judged": 4000}
