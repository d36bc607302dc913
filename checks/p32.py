import logging
import shutil
import tempfile
import threading

from redbird.logging import RepoHandler
from redbird.oper import between, greater_equal, in_, less_than, not_equal
from redbird.repos import MemoryRepo
from rocketry.args import Task, TaskLogger
from rocketry.exc import TaskInactionException
from rocketry.log import RunRecord
from rvm.sim import App, Clock, Tap
from checks.p29 import Store, value

ID = "P32"
RULE = ("sessions whose tasks (names that begin alike) run with every outcome while the log is queried from outside, from hooks, from tasks and from threads - everything, by action, by time, by run, latest and first, of a task and of the "
        "session - and while the repository of the log is replaced (through the session, a task or the argument, in setup, between cycles, between sessions) by empty or filled ones in memory, CSV or SQL, and other handlers come and go: "
        "each answer must be the records that were logged to the repository in use, in order, and each record be in exactly the repository in use then, once; "
        "distinct: (query, of what, from where, size of answer, store, statuses from logs, replaced how)")
ASSUMES = ["queries are made when no run is being logged", "replaced when no thread or process runs"]

NAMES = ["a", "a b", "a.b", "aa", "b", "task", "task - 1", "TASK"]


def plain(rec):
    return (value(rec, "task_name"), value(rec, "action"), round(float(value(rec, "created")), 5), value(rec, "run_id"))


def scenario(ctx):
    rng = ctx.rng
    folder = tempfile.mkdtemp(prefix="rvm-")
    force = rng.random() < 0.4
    clock = Clock()
    stores = []

    def store():
        s = Store(rng.choice(["memory"] * 5 + ["csv", "sql-id"]), rng.choice(["run", "minimal-run"]), folder)
        s.file += str(len(stores))
        stores.append(s)
        return s.open()
    app = App(clock, execution="main", cycle_sleep=0.01, force_status_from_logs=force, repo=store())
    session = app.session
    old = []            # (repository, what should be in it) of the ones replaced
    now = {"repo": app.repo, "recs": [], "extra": []}
    names = rng.sample(NAMES, rng.randint(1, 4))
    outcomes, asked = {}, []
    try:
        def body(name):
            clock.advance(rng.choice([0.001, 0.1, 3]))
            if outcomes[name] == "fail":
                raise ValueError("planned")
            if outcomes[name] == "inaction":
                raise TaskInactionException()
            if outcomes[name] == "query":
                asked.append("task")
                queries("task")

        def add(name):
            if rng.random() < 0.5:
                app.add(lambda: body(name), name)
            else:
                def func(logger=TaskLogger(), task=Task()):
                    ctx.check(logger.task_name in (None, name) and task.name == name, "argument", "the logger given to a task is of another", got=logger.task_name, task=name)
                    ctx.eq(logger._get_repo() is now["repo"], True, "argument-repo", "the logger given to a task does not read the log of the session")
                    body(name)
                app.add(func, name)
        for name in names:
            add(name)

        def expected():
            "All that should be in the repository in use"
            return now["recs"]

        def collect(force_all=False):
            "What was logged since goes to the repository in use"
            n = now.get("seen", 0)
            now["recs"] += [(r.task, r.action, round(r.created, 5), r.run_id) for r in app.tap.recs[n:]]
            now["seen"] = len(app.tap.recs)

        def queries(where):
            collect()
            all_ = expected()
            for _ in range(rng.randint(1, 4)):
                of = rng.choice(names + ["session", "session"])
                mine = [r for r in all_ if of in ("session", r[0])]
                logger = session[of].logger if of != "session" else None
                kind = rng.choice(["all", "action", "actions", "not", "time", "after", "run", "records", "latest", "latest-action", "first", "count", "task-name", "log"])
                action = rng.choice(["run", "success", "fail", "inaction", "terminate"])
                times = [r[2] for r in mine] or [0]
                lo, hi = sorted([rng.choice(times) - rng.choice([0.01, 5]), rng.choice(times) + rng.choice([0.01, 5])])
                ask = logger.filter_by if logger else session.get_repo().filter_by
                by = lambda f: [r for r in mine if f(r)]
                if kind == "all":
                    got, want = ask().all(), mine
                elif kind == "action":
                    got, want = ask(action=action).all(), by(lambda r: r[1] == action)
                elif kind == "actions":
                    got, want = ask(action=in_(["run", action])).all(), by(lambda r: r[1] in ("run", action))
                elif kind == "not":
                    got, want = ask(action=not_equal(action)).all(), by(lambda r: r[1] != action)
                elif kind == "time":
                    got, want = ask(created=between(lo, hi)).all(), by(lambda r: lo <= r[2] <= hi)
                elif kind == "after":
                    got, want = ask(created=greater_equal(lo), action=action).all(), by(lambda r: lo <= r[2] and r[1] == action)
                elif kind == "run":
                    rid = rng.choice([r[3] for r in mine] or ["nothing"])
                    got, want = ask(run_id=rid).all(), by(lambda r: r[3] == rid)
                elif kind == "records" and logger:
                    got, want = list(logger.get_records(action=action)), by(lambda r: r[1] == action)
                elif kind == "log" or kind == "records":
                    # (the log of the session)
                    mine = all_
                    got, want = list(session.get_task_log(action=action)), [r for r in all_ if r[1] == action]
                    of = "session"
                elif kind == "latest" and logger:
                    got, want = logger.get_latest(), mine[-1:]
                elif kind == "latest-action" and logger:
                    got, want = logger.get_latest(action=action), by(lambda r: r[1] == action)[-1:]
                elif kind == "count":
                    got, want = ask(action=action).count(), len(by(lambda r: r[1] == action))
                elif kind == "task-name":
                    # (of a task: always its own)
                    other = rng.choice(names)
                    got = ask(task_name=other).all()
                    want = mine if logger else by(lambda r: r[0] == other)
                else:
                    kind = "first"
                    got, want = ask(created=less_than(hi)).first(), by(lambda r: r[2] < hi)[:1]
                how = dict(query=kind, of=of, where=where, action=action, repo=type(now["repo"]).__name__, logged=all_[-8:])
                if kind == "count":
                    ctx.check(got == want, "query-count", "a query counts another number of records than were logged", got=got, want=want, **how)
                    n = want
                else:
                    got = [] if got is None else got if isinstance(got, list) else [got]
                    got = [plain(g) for g in got]
                    ctx.check(got == want, f"query-{kind}", "a query of the log does not give the records that were logged", got=got[-6:], want=want[-6:], n=(len(got), len(want)), **how)
                    n = len(want)
                ctx.saw("answers")
                ctx.saw("answers_some" if n else "answers_none")
                ctx.saw("asked_" + where)
                ctx.saw("of_session" if of == "session" else "of_task")
                ctx.sig(kind, of == "session", where, min(n, 3), type(now["repo"]).__name__, force, now.get("how"))

        def fill(repo):
            "Records of an earlier life in the new repository"
            recs = []
            t = clock.peek() - rng.randint(10 ** 5, 10 ** 6)
            for i in range(rng.choice([0, 0, 2, 5])):
                for name in rng.sample(names, min(2, len(names))):
                    for action in ("run", rng.choice(["success", "fail"])):
                        t += rng.randint(1, 1000)
                        repo.add(record(repo.model, name, action, t, f"old{i}"))
                        recs.append((name, action, round(t, 5), f"old{i}"))
            return recs

        def replace(how):
            collect()
            repo = store()
            recs = fill(repo)
            old.append((now["repo"], list(now["recs"])))
            if how == "task":
                session[rng.choice(names)].logger.set_repo(repo)
            elif how == "argument":
                TaskLogger().get_value(session=session).set_repo(repo)
            else:       # by hand, as in the documentation
                app.logger.handlers = [h for h in app.logger.handlers if not hasattr(h, "repo")]
                app.logger.addHandler(RepoHandler(repo))
            now.update(repo=repo, recs=recs, how=how)
            ctx.check(session.get_repo() is repo, "replaced", "the session does not read the new repository", how=how)
            ctx.saw("replaced")

        def statuses(where):
            "With statuses from the log they are those of the repository in use"
            collect()
            for name in names:
                mine = [r for r in expected() if r[0] == name]
                got = session[name].get_status()
                if force:
                    ctx.check(got == (mine[-1][1] if mine else None), "status", "the status is not that of the latest record in the repository in use", got=got, log=mine[-4:], where=where, replaced=now.get("how"))
                    last = [r[2] for r in mine if r[1] == "run"]
                    t = session[name]._get_last_action("run")
                    ctx.check((t is None) == (not last) and (t is None or abs(t - last[-1]) < 1e-3), "last-run", "the latest run is not that of the repository in use", got=t, log=mine[-4:], where=where)
                    ctx.saw("statuses")

        def before(n):
            if rng.random() < 0.5:
                queries("before")
            if rng.random() < 0.12:
                replace(rng.choice(["task", "argument", "hand"]))
                statuses("replaced")
            if rng.random() < 0.15:
                # one more that is not for reading, or one less
                if now["extra"] and rng.random() < 0.5:
                    tap, first, last = now["extra"].pop(rng.randrange(len(now["extra"])))
                    app.logger.removeHandler(tap)
                    ctx.eq(len(tap.recs), len(app.tap.recs) - first, "handler", "another handler did not get every record once")
                    ctx.saw("handlers")
                else:
                    tap = Tap()
                    now["extra"].append((tap, len(app.tap.recs), None))
                    app.logger.addHandler(tap)
            for name in names:
                outcomes[name] = rng.choice(["success", "success", "fail", "inaction", "query"])
                if rng.random() < 0.6:
                    session[name].run()
            clock.advance(rng.choice([0, 0.5, 100, 10 ** 5]))

        def after(n):
            statuses("after")
            if rng.random() < 0.4:
                queries("after")
            if rng.random() < 0.15:
                th = threading.Thread(target=queries, args=("thread",))
                th.start()
                th.join()
            if n >= state["until"]:
                session.shut_down()
        state = {"until": 0}
        app.at_cycle(before)
        app.after_cycle(after)

        def setup():
            if rng.random() < 0.3:
                replace(rng.choice(["task", "argument", "hand"]))
                state["replaced"] = True
            yield
            # the statuses are now those of the log
            collect()
            for name in names:
                mine = [r for r in expected() if r[0] == name]
                if mine or force:
                    got = session[name].status if not force else session[name].get_status()
                    ctx.check(got == (mine[-1][1] if mine else None), "startup-status", "the status after starting is not that of the repository in use", got=got, log=mine[-4:], replaced=state.get("replaced"))
                    ctx.saw("startup_statuses")
        session.hooks.scheduler_startup.append(setup)
        for life in range(rng.randint(1, 3)):
            state.update(until=app.cycles + rng.randint(3, 8), replaced=False)
            out = app.serve()
            if out.exception is not None:
                raise out.exception
            if out.stopped:
                ctx.inconclusive(out.stopped)
            queries("outside")
            if rng.random() < 0.3:
                replace(rng.choice(["task", "argument", "hand"]))
        collect()
        for repo, recs in old + [(now["repo"], now["recs"])]:
            got = [plain(r) for r in repo.filter_by().all()]
            ctx.check(got == recs, "contents", "a repository does not have exactly the records logged while it was in use", got=got[-6:], want=recs[-6:], n=(len(got), len(recs)), repo=type(repo).__name__)
            ctx.saw("repositories")
        ctx.saw("records", len(app.tap.recs))
        ctx.sample({"names": names, "records": len(app.tap.recs), "repositories": [type(r).__name__ for r, _ in old], "force": force})
    finally:
        app.close()
        for s in stores:
            s.close()
        shutil.rmtree(folder, ignore_errors=True)


def record(model, name, action, t, run_id):
    fields = {}
    for field, info in model.__fields__.items():
        if info.required:
            fields[field] = {str: "x", int: 20, float: 0.0}.get(info.type_, "x")
    fields.update(task_name=name, action=action, created=t, run_id=run_id)
    return model(**fields)


KINDS = {"scenario": (scenario, 400, 6000)}
FLOORS = {"answers": 5500, "answers_none": 1400, "answers_some": 4000, "asked_after": 1400, "asked_before": 1800, "asked_outside": 650, "asked_task": 1100,
          "asked_thread": 500, "handlers": 40, "replaced": 340, "repositories": 470, "startup_statuses": 460, "statuses": 1800}
