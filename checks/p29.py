import datetime
import functools
import itertools
import os
import shutil
import tempfile

from redbird.repos import CSVFileRepo, MemoryRepo, SQLRepo
from rocketry.conditions import SchedulerCycles
from rocketry.log import LogRecord, MinimalRecord, MinimalRunRecord, RunRecord, TaskLogRecord, TaskRunRecord
from rvm.scenario import Script, TEXTS, close, replay
from rvm.sim import App, Clock

ID = "P29"
RULE = ("one random scenario (tasks with schedules, pipelines, retries, history and running conditions, outcomes and lengths of the runs, restarts, deaths of the scheduler, cached or log read statuses) is replayed on memory, CSV "
        "and SQL stores with each record model: starts, records, statuses and times given out on every cycle must be the same, and the records read back (whole, per task, per action, per time) equal the ones logged; "
        "and parallel runs in threads and processes against file stores; distinct: (store, model, conditions, actions, sessions)")
ASSUMES = ["the store keeps the order of the records", "an empty error text and none are the same in a CSV file"]

MODELS = {"minimal": MinimalRecord, "minimal-run": MinimalRunRecord, "log": LogRecord, "run": RunRecord, "task": TaskLogRecord, "task-run": TaskRunRecord, "dict": dict}


class Store:
    "A place for the log in a scratch folder; opened again after a restart"

    def __init__(self, form, model, folder):
        self.form, self.name, self.model = form, model, MODELS[model]
        self.file = os.path.join(folder, f"{form}-{model}")
        self.memory = None
        self.engines = []

    def open(self):
        if self.form == "memory":
            if self.memory is None:
                self.memory = MemoryRepo() if self.model is dict else MemoryRepo(model=self.model)
            return self.memory
        if self.form == "csv":
            kw = {"fieldnames": ["task_name", "action", "created", "run_id"]} if self.model is dict else {"model": self.model}
            return CSVFileRepo(filename=self.file + ".csv", **kw)
        from sqlalchemy import create_engine
        engine = create_engine(f"sqlite:///{self.file}.db")
        self.engines.append(engine)
        if self.form == "sql" and "task" not in self.name:      # (SQLite gives back no time differences if the table is not declared)
            return SQLRepo(engine=engine, table="log", if_missing="create", model=self.model, id_field="created")
        orm = orm_of(self.name)
        orm.metadata.create_all(engine)
        return SQLRepo(engine=engine, model_orm=orm, model=self.model, id_field="id")

    def close(self):
        for e in self.engines:
            e.dispose()


@functools.lru_cache(None)
def orm_of(name):
    "A table with a running number, as advised in the documentation"
    from sqlalchemy import Column, DateTime, Float, Integer, Interval, String
    from sqlalchemy.orm import declarative_base
    types = {int: Integer, float: Float, str: String, datetime.datetime: DateTime, datetime.timedelta: Interval}
    cols = {f: Column(types[x.type_]) for f, x in MODELS[name].__fields__.items()}
    return type("Log", (declarative_base(),), {"__tablename__": "log", "id": Column(Integer, primary_key=True, autoincrement=True), **cols})


def forms(rng, n):
    all_ = [(f, m) for f in ("memory", "csv", "sql", "sql-id") for m in MODELS if not (m == "dict" and f != "memory") and (f, m) != ("memory", "run")]
    return [("memory", "run")] + rng.sample(all_, n)


def value(record, field):
    return record.get(field) if isinstance(record, dict) else getattr(record, field, None)


def compare(ctx, rec, got, what, **how):
    "A record that was logged and the same read back"
    ctx.eq((value(got, "task_name"), value(got, "action")), (rec.task, rec.action), "read-back", "another record was read back", what=what, **how)
    ctx.check(abs(float(value(got, "created")) - rec.created) < 1e-6, "read-back", "the time of a record changed", got=value(got, "created"), want=rec.created, **how)
    if value(got, "run_id") is not None or "run" in how["model"]:
        ctx.eq(value(got, "run_id"), rec.run_id, "read-back", "the run id of a record changed", **how)
    if how["model"] in ("log", "run", "task", "task-run", "dict"):
        ctx.eq(value(got, "message"), rec.message, "read-back", "the message of a record changed", **how)
        ctx.eq(value(got, "exc_text") or None, rec.exc_text or None, "read-back", "the error text of a record changed", **how)
    if how["model"] in ("task", "task-run"):
        for f in ("start", "end"):
            w, g = getattr(rec, f), value(got, f)
            w = w.timestamp() if hasattr(w, "timestamp") else w
            ctx.check((w is None) == (g is None) and (w is None or abs(g.timestamp() - w) < 2e-5), "read-back", "the start or end in a record changed", field=f, got=g, want=w, **how)
        w, g = rec.runtime, value(got, "runtime")
        w = w.total_seconds() if hasattr(w, "total_seconds") else w
        ctx.check((w is None) == (g is None) and (w is None or abs(g.total_seconds() - w) < 2e-5), "read-back", "the runtime in a record changed", got=g, want=w, **how)


def same(ctx):
    rng = ctx.rng
    script = Script(rng)
    folder = tempfile.mkdtemp(prefix="rvm-")
    stores = []
    try:
        base = None
        for form, model in forms(rng, 3):
            store = Store(form, model, folder)
            stores.append(store)
            trace, logged, app = replay(script, store.open)
            if trace is None:
                ctx.inconclusive(app)
            how = dict(store=form, model=model)
            if base is None:
                base = trace
                ctx.saw("records", len(logged))
                ctx.saw("observations", len(trace))
                for r in logged:
                    ctx.saw(f"action_{r.action}")
            else:
                for i, (g, w) in enumerate(itertools.zip_longest(trace, base)):
                    if g != w and not close(g, w):
                        ctx.fail("trace", "the same scenario goes another way with another store of the log", got=g, want=w, before=base[max(i - 4, 0):i], specs=script.specs, sessions=script.sessions, **how)
                        break
                ctx.check(True, "trace", "")
                ctx.saw("replays")
            ctx.saw(f"store_{form}")
            ctx.saw(f"model_{model}")
            # Reading back
            repo = store.open()
            got = list(repo.filter_by().all())
            if ctx.check(len(got) == len(logged), "read-back", "the store does not have as many records as were logged", got=len(got), want=len(logged), **how):
                for r, g in zip(logged, got):
                    compare(ctx, r, g, "all", **how)
            n = script.queries[0]
            action = rng.choice(["run", "success", "fail"])
            got = list(repo.filter_by(task_name=n, action=action).all())
            want = [r for r in logged if r.task == n and r.action == action]
            if ctx.check(len(got) == len(want), "query", "another number of records of a task and action", got=len(got), want=len(want), task=n, action=action, **how):
                for r, g in zip(want, got):
                    compare(ctx, r, g, "query", **how)
            ctx.saw("records_read", len(logged))
            ctx.sig(form, model, sorted({str(s[0]) for s in script.specs.values()}), sorted({r.action for r in logged}), len(script.sessions), any(s["force"] for s in script.sessions))
        # through the session
        fresh = App(Clock(script.start + 10 ** 6), repo=stores[-1].open())
        for n in script.names:
            fresh.add(lambda: None, n)
        got = list(fresh.session.get_task_log())
        if ctx.check(len(got) == len(logged), "session-log", "the session gives another number of records", got=len(got), want=len(logged), **how):
            for r, g in zip(logged, got):
                compare(ctx, r, g, "session", **how)
        got = list(fresh.session[n].logger.get_records())
        want = [r for r in logged if r.task == n]
        if ctx.check(len(got) == len(want), "task-log", "the log of a task has another number of records", got=len(got), want=len(want), task=n, **how):
            for r, g in zip(want, got):
                compare(ctx, r, g, "task", **how)
        last = fresh.session[n].logger.get_latest()
        ctx.check((last is None) == (not want) and (last is None or abs(float(value(last, "created")) - want[-1].created) < 1e-6), "latest", "the latest record of a task is another", got=str(last)[:200], **how)
        fresh.close()
        ctx.sample(dict(specs=str(script.specs), sessions=len(script.sessions)))
    finally:
        for s in stores:
            s.close()
        shutil.rmtree(folder, ignore_errors=True)


# -- Parallel runs against a file ---------------------------------------------

def proc_ok(x):
    return x


def proc_fail(x):
    raise ValueError(TEXTS[x % len(TEXTS)])


def parallel(ctx):
    rng = ctx.rng
    folder = tempfile.mkdtemp(prefix="rvm-")
    form, model = rng.choice(["csv", "csv", "sql-id", "memory"]), rng.choice(["run", "minimal-run", "task-run", "log", "minimal", "task"])
    store = Store(form, model, folder)
    procs = rng.random() < 0.3
    app = App(Clock(), repo=store.open(), cycle_sleep=0.001, max_process_count=8)
    try:
        plan = {}
        for i in range(rng.randint(2, 5)):
            name = f"t{i}"
            ok = rng.random() < 0.6
            ex = rng.choice(["thread", "thread", "async", "main"] + (["process"] * 2 if procs else []))
            app.add(proc_ok if ok else proc_fail, name, execution=ex, parameters={"x": i})
            plan[name] = ok, ex
        rounds = rng.randint(1, 4)
        app.session.config.shut_cond = SchedulerCycles() >= 1
        for _ in range(rounds):
            for n in plan:
                app.session[n].run()
            app.session.config.shut_cond = SchedulerCycles() >= 1
            out = app.serve(real_yield=0.0005)
            if out.exception:
                raise out.exception
            if out.stopped:
                ctx.inconclusive(out.stopped)
        got = list(store.open().filter_by().all())
        how = dict(store=form, model=model)
        if ctx.check(len(got) == len(app.tap.recs), "parallel", "the store does not have as many records as were logged", got=len(got), want=len(app.tap.recs), plan=plan, **how):
            for g, r in zip(sorted(got, key=lambda g: float(value(g, "created"))), sorted(app.tap.recs, key=lambda r: r.created)):
                compare(ctx, r, g, "parallel", **how)
        for n, (ok, ex) in plan.items():
            acts = [value(g, "action") for g in got if value(g, "task_name") == n]
            ctx.eq(acts, ["run", "success" if ok else "fail"] * rounds, "parallel", "the store does not have the runs in order", task=n, execution=ex, **how)
            ctx.saw(f"parallel_{ex}", rounds)
        ctx.saw(f"parallel_store_{form}")
        ctx.sig("parallel", form, model, sorted({x for _, x in plan.values()}), rounds)
    finally:
        app.close()
        store.close()
        shutil.rmtree(folder, ignore_errors=True)


KINDS = {"same": (same, 160, 4000), "parallel": (parallel, 80, 1200)}
FLOORS = {"replays": 300, "observations": 9000, "records_read": 10000, "store_csv": 50, "store_sql": 40, "store_sql-id": 40, "model_dict": 5, "model_minimal": 30, "model_minimal-run": 30, "model_log": 30, "model_task": 30,
          "model_task-run": 30, "action_crash": 5, "action_terminate": 60, "parallel_thread": 100, "parallel_process": 20}
