import logging
import multiprocessing
import threading
import time

from rocketry.exc import TaskLoggingError
from rvm.runs import OUTCOMES, Bench
from checks.p18 import TermBench

ID = "P34"
RULE = ("random mixes of main, async, thread and process tasks (with and without simultaneous runs) whose log store refuses some of the records - the start, the end or both of chosen runs, or everything for a "
        "stretch of cycles - with errors of several kinds; runs end by themselves, by a request to terminate or in the shut down; silenced: the scheduler must go on, other runs be accounted for as if nothing had happened, each "
        "run call its function at most once and the failed task be left failed, free to run again; not silenced: it must stop with the logging error and nothing alive; "
        "distinct: (execution, refused record, outcome, silenced, outage)")
ASSUMES = ["terminated bodies let the cancellation through (threads: listen to the flag)", "the log can be read all the time", "a process does not end by itself while it is being terminated"]


class Odd(Exception):
    def __init__(self, a, b):
        super().__init__(f"odd {a}")


ERRORS = (lambda: OSError(28, "No space left on device"), lambda: ConnectionError("gone"), lambda: KeyError("column"), lambda: Odd(1, 2), lambda: ValueError("bad"))


class StoreBench(TermBench):
    def make_body(self, task, execution):
        if execution == "main":
            self.bodies = self.bodies or {}
            self.bodies[task] = "plain"
            return Bench.make_body(self, task, execution)
        return super().make_body(task, execution)


class Refusing(logging.Handler):
    "The store that is down: is asked before the others"

    def __init__(self, rng, app):
        super().__init__()
        self.rng, self.app = rng, app
        self.armed = set()      # (run id, "run" or "end")
        self.outage = False
        self.attempts = []      # (task, run id, action, refused)
        self.first = None       # cycle of the first refusal

    def emit(self, record):
        part = "run" if record.action == "run" else "end"
        refused = self.outage or (record.run_id, part) in self.armed
        self.attempts.append((record.task_name, record.run_id, record.action, refused))
        if refused:
            if self.first is None:
                self.first = self.app.cycles
            raise self.rng.choice(ERRORS)()


def scenario(ctx, execs, n_tasks, n_cycles):
    rng = ctx.rng
    procs = "process" in execs
    silenced, multilaunch = rng.random() < 0.7, rng.random() < 0.4
    with StoreBench(ctx, config={"multilaunch": multilaunch, "max_process_count": 50, "timeout": 1e9, "cycle_sleep": rng.choice([0.01, 0.1]), "silence_task_logging": silenced}) as b:
        app, session = b.app, b.session
        store = Refusing(rng, app)
        app.logger.handlers.insert(0, store)
        names = []
        for i in range(n_tasks):
            names.append(f"t{i}")
            b.add(names[-1], rng.choice(execs), priority=rng.randrange(3))
        app.add(lambda: None, "tick", start_cond="true", execution="main")
        outage = (rng.randint(2, n_cycles - 3), rng.randint(1, 3)) if rng.random() < 0.3 else None
        held, asked = [], set()
        late = rng.random() < 0.3       # runs go on when the scheduler is asked to shut down

        def before(n):
            if outage:
                store.outage = outage[0] <= n < sum(outage)
            if n < n_cycles - 3:
                for _ in range(rng.choice([0, 1, 1, 2])):
                    gated, name = rng.random() < 0.6, rng.choice(names)
                    t = b.submit(name, rng.choice(["success", "none", "fail", "fail-odd", "inaction", "terminate"]), gated=gated)
                    if gated and b.execution[name] != "main":
                        held.append(t)
                    b.tokens[t]["refuse"] = ()
                    if not outage and rng.random() < 0.35:
                        b.tokens[t]["refuse"] = rng.choice([("run",), ("end",), ("run", "end")])
                        store.armed.update((t, part) for part in b.tokens[t]["refuse"])
            while held and (rng.random() < 0.4 or n > n_cycles - 4) and not (late and n > n_cycles - 6):
                t = held.pop(rng.randrange(len(held)))
                name = b.tokens[t]["task"]
                live = [t for t, d in b.tokens.items() if d["task"] == name and any(a[1] == t for a in store.attempts) and not any(a[1] == t and a[2] != "run" for a in store.attempts)]
                # (a process would race with its termination)
                if rng.random() < 0.25 and session[name].is_alive() and (b.execution[name] != "process" or not any(t in b.open for t in live)):
                    session[name].terminate()
                    asked.add(name)
                    ctx.saw("asked")
                    if b.bodies[name] != "deaf":
                        # (ends by the termination, or with the others)
                        continue
                b.release(t)
            if n > n_cycles - 3 and not late:
                b.release_all()
        app.at_cycle(before)

        def on_shutdown():
            store.down = len(store.attempts)
            for t, d in b.tokens.items():
                if b.bodies[d["task"]] == "deaf" or (late and not (store.first is not None and not silenced)):
                    b.release(t)
            yield
        session.hooks.scheduler_shutdown.append(on_shutdown)
        out = b.serve(n_cycles + (0 if late else 25 if procs else 10))
        how = dict(silenced=silenced, outage=outage, execs=sorted(set(execs)))
        ctx.sample({"tasks": {n: (b.execution[n], b.bodies[n]) for n in names}, **{k: str(v) for k, v in how.items()}})
        refused = [a for a in store.attempts if a[3]]
        ctx.saw("refused_records", len(refused))
        if out.stopped:
            ctx.fail("stuck", "the scheduler did not end", why=out.stopped, refused=refused[:6], **how)
            return
        lost = [u for u in out.unretrieved if "TaskLoggingError" in u or "planned" not in u]
        ctx.check(not lost, "unretrieved", "an error got lost in the event loop", errors=lost, **how)
        if silenced or not refused:
            ctx.check(out.exception is None, "scheduler-died", "the scheduler died although the errors in logging are silenced", exception=repr(out.exception), cause=repr(getattr(out.exception, "__cause__", None)), refused=refused[:6], **how)
            if out.exception is not None:
                return
        else:
            ctx.check(isinstance(out.exception, TaskLoggingError), "not-stopped", "the scheduler should stop with the error in logging", exception=repr(out.exception), refused=refused[:6], executions=b.execution, **how)
            ctx.check(app.cycles <= store.first + (60 if procs or "thread" in execs else 1), "stopped-late", "the scheduler did not stop after the cycle of the error", cycles=app.cycles, first=store.first, refused=refused[:6], **how)
            ctx.saw("stopped")
        # nothing is left
        alive = [t.name for t in session.tasks if t.is_alive()]
        ctx.check(not alive, "task-alive", "tasks are alive after the shut down", alive=alive, **how)
        end = time.monotonic() + 2
        while (left := [t.name for ts in b.threads.values() for t in ts if t is not threading.main_thread() and t.is_alive()]) and time.monotonic() < end:
            time.sleep(0.001)
        ctx.check(not left, "thread-alive", "threads of tasks are alive after the shut down", threads=left, **how)
        kids = multiprocessing.active_children()
        ctx.check(not kids, "process-alive", "processes of tasks are alive after the shut down", kids=[k.pid for k in kids], **how)
        # the others have gone on
        if silenced:
            starts = sum(a[0] == "tick" and a[2] == "run" for a in store.attempts)
            ctx.check(starts == app.cycles, "disturbed", "a task was not started on each cycle because the logging of others failed", starts=starts, cycles=app.cycles, **how)
            waiting = {} if late else {n: len(session[n].batches) for n in names if session[n].batches}
            ctx.check(not waiting, "not-started", "runs that were asked were never started", waiting=waiting, executions=b.execution, refused=refused[:6], **how)
        for token, d in b.tokens.items():
            task, own = d["task"], OUTCOMES[d["outcome"]]
            e = b.execution[task]
            mine = [a for a in store.attempts if a[1] == token]
            recs = [r.action for r in b.recs if r.run_id == token]
            n_calls = sum(t == token for _, t, _ in b.calls)
            tell = dict(task=task, token=token, execution=e, body=b.bodies[task], refuse=d["refuse"], outcome=d["outcome"], attempts=mine, records=recs, calls=n_calls, asked=task in asked, **how)
            ctx.check(n_calls <= 1, "calls", "a function was called many times for a run", **tell)
            if not mine:
                ctx.check(n_calls == 0, "unlogged", "a run was not even tried to be logged", **tell)
                continue
            fine = {own, "terminate"} if task in asked or not silenced or token not in b.open else {own}
            hit = [a for a in mine if a[3]]
            if not hit:
                # (a process may have just ended by itself when terminated)
                both = e == "process" and "terminate" in fine and len(recs) == 3 and recs[2] in fine
                ctx.check((len(recs) == 2 or both) and recs[0] == "run" and recs[1] in fine, "accounting", "a run is not logged once as started and once as ended although its records are not refused", **tell)
                ctx.check(n_calls == 1 or "terminate" in recs, "calls", "the function was not called", **tell)
                ctx.saw("fine_" + e)
            else:
                ends = [a for a in recs if a != "run"]
                tried = [a[2] for a in mine if a[2] != "run"]
                ctx.check(tried, "no-end", "the end of a run was not even tried to be logged", **tell)
                ctx.check(len(ends) <= 1 or (e == "process" and "terminate" in fine), "ends", "many ends were logged for a run", **tell)
                if not outage and "end" not in d["refuse"]:
                    # only the start was refused: either it did not take place and failed or it did what it did
                    ctx.check(ends and (ends[0] in fine if n_calls else ends[0] in ("fail", "terminate")), "end", "the end in the log is not what happened", **tell)
                if outage and ends and n_calls:
                    ctx.check(ends[0] in fine | {"fail"}, "end", "the end in the log is not what happened", **tell)
                ctx.saw(f"refused_{e}")
                ctx.saw("refused_" + "_".join(d["refuse"]), bool(d["refuse"]))
            ctx.sig(e, d["refuse"], recs[-1] if recs else None, silenced, bool(outage), bool(hit))
        for name in names:
            last = [a for a in store.attempts if a[0] == name]
            if last:
                # (parallel threads set the status just after they have logged)
                near = last[-4:] if b.execution[name] == "thread" and multilaunch else last[-1:]
                want = {"fail" if a[3] else a[2] for a in near if a[2] != "run"} or {"fail"}
                ctx.check(session[name].status in want, "status", "the status is not as the latest run ended (failed if its end could not be logged)", got=session[name].status, want=sorted(want), task=name,
                          execution=b.execution[name], attempts=last[-4:], **how)
                ctx.saw("statuses")
        ctx.saw("refused_late", any(a[3] for a in store.attempts[store.down:]))
        ctx.saw("outages", bool(outage))
        ctx.saw("silenced" if silenced else "raising")


def local(ctx):
    scenario(ctx, ["main", "async"], ctx.rng.randint(1, 4), 12)


def threads(ctx):
    scenario(ctx, ["thread", "thread", "async", "main"], ctx.rng.randint(1, 4), 12)


def processes(ctx):
    scenario(ctx, ["process", "process", "async"], ctx.rng.randint(1, 3), 8)


KINDS = {"local": (local, 500, 6000), "threads": (threads, 250, 3000), "processes": (processes, 120, 1500)}
FLOORS = {"asked": 100, "fine_async": 500, "fine_main": 500, "fine_process": 50, "fine_thread": 200, "refused_async": 250, "refused_main": 200, "refused_process": 25, "refused_thread": 80,
          "refused_end": 130, "refused_run": 130, "refused_run_end": 130, "outages": 80, "stopped": 80, "statuses": 600}
