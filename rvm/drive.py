"""One task under a start condition, driven through random instants, outcomes and restarts.

The oracle asks on every cycle: should the task start now, given the log so far?
"""
import asyncio
import datetime

from redbird.repos import MemoryRepo
from rocketry.log import MinimalRunRecord, RunRecord
from rocketry.exc import TaskInactionException

from .hist import Ev, fill
from .sim import App, Clock, TERMINAL

UTC = datetime.timezone.utc


def to_dt(t):
    return datetime.datetime.fromtimestamp(t, tz=UTC).replace(tzinfo=None)


def to_ts(dt):
    return dt.replace(tzinfo=UTC).timestamp()


class Planned(Exception):
    planned = True


class Drive:
    """eligible(now, events) -> bool: what the condition should say, events: the log of the task in order

    step(now) -> seconds the clock moves before the next cycle
    outcome(rng) -> (outcome, duration of the body)
    """

    def __init__(self, ctx, make_cond, eligible, step, events=(), start=None, sessions=1, cycles=25, key="start", force=None, execution=None,
                 outcomes=("success", "success", "fail", "inaction"), crash=0.3, margin=0.02, edges=None, durations=None, label="", task_kwargs=None,
                 config=None):
        self.__dict__.update({k: v for k, v in locals().items() if k not in ("self",)})
        self.rng = ctx.rng
        self.events = list(events)
        self.starts = 0
        self.judged = 0

    def log(self, app):
        return self.events + [Ev(r.task, r.action, r.created, r.run_id) for r in app.tap.recs]

    def run(self):
        rng, ctx = self.rng, self.ctx
        now = self.start
        repo = MemoryRepo(model=RunRecord if False else MinimalRunRecord)
        fill(repo, self.events)
        for i in range(self.sessions):
            now = self.session(repo, now, i)
            if now is None:
                return
            if i + 1 < self.sessions and rng.random() < self.crash:
                # the scheduler dies in the middle of a run
                now += self.step(now)
                ev = Ev("job", "run", round(now, 3), f"x{i}")
                fill(repo, [ev])
                self.events.append(ev)
                ctx.saw("crashes")
                now += 0.5
            now += self.step(now)

    def session(self, repo, start, number):
        rng, ctx = self.rng, self.ctx
        clock = Clock(start)
        force = rng.random() < 0.3 if self.force is None else self.force
        execution = self.execution or rng.choice(["main", "async"])
        app = App(clock, repo=repo, force_status_from_logs=force, cycle_sleep=0.001, **(self.config or {}))
        state = {"busy": False, "ran": 0}

        def plan():
            return rng.choice(self.outcomes), (rng.choice(self.durations) if self.durations else rng.choice([0, 0.01, 0.5, 5])) * rng.random()

        def finish(outcome):
            if outcome == "fail":
                raise Planned("planned")
            if outcome == "inaction":
                raise TaskInactionException()

        def body():
            state["ran"] += 1
            outcome, dur = plan()
            clock.advance(dur)
            finish(outcome)

        async def abody():
            state["ran"] += 1
            state["busy"] = True
            outcome, dur = plan()
            try:
                end = clock.peek() + dur
                while clock.peek() < end and app.cycles < self.cycles:
                    await asyncio.sleep(0.001)
            finally:
                state["busy"] = False
            finish(outcome)

        cond = self.make_cond()
        app.add(body if execution == "main" else abody, "job", start_cond=cond, execution=execution, **(self.task_kwargs or {}))
        stop_at = {"n": self.cycles}

        def alive():
            recs = app.tap.recs
            return bool(recs) and recs[-1].action == "run"

        def before(n):
            clock.advance(self.step(clock.peek()))
            if self.edges:
                # do not judge right at an edge
                for _ in range(20):
                    t = clock.peek()
                    if any(0 <= e - t <= self.margin or 0 < t - e < 0.002 for e in self.edges(t, self.log(app))):
                        clock.advance(self.margin * 1.5)
                    else:
                        break
            self.t0 = clock.peek()
            self.n0 = sum(r.action == "run" for r in app.tap.recs)
            self.alive0 = alive()
            self.log0 = self.log(app)

        def after(n):
            runs = sum(r.action == "run" for r in app.tap.recs) - self.n0
            if self.alive0 and runs == 0 and not alive():
                # it finished at some point during the cycle: both are fine
                ctx.saw("busy_skipped")
                return
            want = False if self.alive0 else self.eligible(self.t0, self.log0)
            if want is None:
                ctx.saw("unjudged")
                return
            if self.alive0 and runs and not want:
                # finished and started again during the cycle
                ctx.saw("busy_skipped")
                return
            ctx.check(runs == (1 if want else 0), f"{self.key}-{'missing' if want else 'extra'}",
                      "the task did not start although it should have" if want else "the task started although it should not have",
                      condition=self.label, now=to_dt(self.t0), busy=self.alive0, force_status_from_logs=force, session=number, log=self.log0[-8:], starts=runs)
            self.judged += 1
            self.starts += runs
            ctx.saw("start_due" if want else "not_due")
            row = 0
            for e in reversed(self.log0):
                if e.action == "fail":
                    row += 1
                elif e.action != "run":
                    break
            ctx.sig(self.label.split(" and/or ")[0], want, self.log0[-1].action if self.log0 else None, min(row, 4), self.alive0, force, number > 0)
            if self.alive0:
                ctx.saw("busy")
        app.at_cycle(before)
        app.after_cycle(after)
        app.stop_after(cycles=self.cycles)
        out = app.serve()
        app.close()
        if out.exception:
            raise out.exception
        if out.stopped:
            ctx.inconclusive(out.stopped)
        self.events += [Ev(r.task, r.action, r.created, r.run_id) for r in app.tap.recs]
        return clock.peek()
