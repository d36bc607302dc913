"""Deterministic simulation of a rocketry session.

* ``Clock``   virtual time. ``session.config.time_func`` is ``clock.now``; every reading is
              strictly greater than the one before it, so the order of readings is the order
              of events.
* ``SimLoop`` an asyncio loop whose time is the virtual clock: when nothing is ready it jumps
              to the next timer instead of sleeping.
* ``App``     a rocketry application with a private task logger, a readable repo and a tap
              (logging handler) that records every task log record in arrival order.

Only the public API of rocketry is used.
"""
import asyncio
import contextlib
import datetime
import gc
import itertools
import logging
import mmap
import os
import selectors
import struct
import threading
import time as _time
import weakref

from redbird.repos import MemoryRepo

import rocketry
from rocketry import Rocketry
from rocketry.log import MinimalRecord, MinimalRunRecord, LogRecord, RunRecord, TaskLogRecord, TaskRunRecord

TICK = 1e-5

UTC = datetime.timezone.utc


def ts(*args):
    "Timestamp of a (naive, local time zone is UTC in the checks) datetime"
    return datetime.datetime(*args, tzinfo=UTC).timestamp()


_clocks = weakref.WeakSet()


def _renew_locks():
    "A forked child must not inherit a lock some thread held"
    for clock in list(_clocks):
        clock._lock = threading.Lock()


os.register_at_fork(after_in_child=_renew_locks)


class SimStop(BaseException):
    "The simulation was cut off (step budget or nothing left to wait for)"


class Clock:
    def __init__(self, start=None, tick=TICK):
        self.t = ts(2023, 5, 17, 12, 0) if start is None else start
        self.tick = tick
        self._lock = threading.Lock()
        _clocks.add(self)

    def now(self):
        with self._lock:
            self.t += self.tick
            return self.t

    __call__ = now

    @contextlib.contextmanager
    def hold(self):
        "Readings stand still"
        tick, self.tick = self.tick, 0
        try:
            yield
        finally:
            self.tick = tick

    def peek(self):
        return self.t

    def advance(self, seconds):
        with self._lock:
            self.t += seconds

    def set(self, t):
        with self._lock:
            self.t = max(self.t, t)

    def dt(self):
        return datetime.datetime.fromtimestamp(self.t, tz=UTC).replace(tzinfo=None)


class SharedClock(Clock):
    "A clock the child processes read too: they see the time of the parent go on"

    def __init__(self, *args, **kwargs):
        self._mem = mmap.mmap(-1, 8)
        self._owner = os.getpid()
        self._extra = 0
        super().__init__(*args, **kwargs)

    @property
    def t(self):
        return struct.unpack("d", self._mem[:8])[0]

    @t.setter
    def t(self, value):
        self._mem[:8] = struct.pack("d", value)

    def now(self):
        if os.getpid() == self._owner:
            return super().now()
        # (a child does not move the time, but its readings are increasing)
        self._extra += 1
        return self.t + self._extra * 1e-6


class _Selector:
    def __init__(self, loop):
        self._sel = selectors.DefaultSelector()
        self._loop = loop

    def select(self, timeout=None):
        loop = self._loop
        loop.steps += 1
        if loop.steps > loop.max_steps:
            raise SimStop("step budget")
        if timeout is None:
            # Nothing scheduled: only something from outside (thread) could wake us up
            events = self._sel.select(5)
            if not events:
                raise SimStop("nothing to wait for")
            return events
        if timeout > 0:
            loop.clock.advance(timeout)
        if loop.real_yield:
            _time.sleep(loop.real_yield)
        return self._sel.select(0)

    def __getattr__(self, name):
        return getattr(self._sel, name)


class SimLoop(asyncio.SelectorEventLoop):
    def __init__(self, clock, max_steps=200_000, real_yield=0):
        self.clock = clock
        self.steps = 0
        self.max_steps = max_steps
        self.real_yield = real_yield
        super().__init__(_Selector(self))
        self._clock_resolution = 1e-6

    def time(self):
        return self.clock.peek()


class Outcome:
    def __init__(self):
        self.exception = None     # exception out of serve()
        self.stopped = None       # SimStop reason, if cut off
        self.unretrieved = []     # asyncio "exception was never retrieved" reports
        self.steps = 0
        self.result = None


def run_coro(coro, clock, max_steps=200_000, debug=False, real_yield=0):
    "Run the coroutine on a virtual time loop"
    out = Outcome()
    loop = SimLoop(clock, max_steps=max_steps, real_yield=real_yield)
    loop.set_debug(debug)
    loop.set_exception_handler(lambda lp, context: out.unretrieved.append(
        f"{context.get('message')}: {context.get('exception')!r}"
    ))
    asyncio.set_event_loop(loop)
    try:
        out.result = loop.run_until_complete(coro)
    except SimStop as exc:
        out.stopped = str(exc)
    except (Exception, KeyboardInterrupt, SystemExit, asyncio.CancelledError) as exc:
        out.exception = exc
    finally:
        out.steps = loop.steps
        pending = [t for t in asyncio.all_tasks(loop) if not t.done()]
        out.pending = len(pending)
        loop.max_steps = loop.steps + 10_000
        for t in pending:
            t.cancel()
        if pending:
            try:
                loop.run_until_complete(asyncio.gather(*pending, return_exceptions=True))
            except BaseException:
                pass
        gc.collect(1)
        asyncio.set_event_loop(None)
        loop.close()
    return out


_counter = itertools.count()


class Rec:
    "One task log record as it was logged"
    __slots__ = ("task", "action", "run_id", "created", "start", "end", "runtime", "exc_text", "thread", "seq", "message")

    def __repr__(self):
        return f"<{self.seq} {self.task}:{self.action} id={self.run_id} t={self.created:.5f}>"


class Tap(logging.Handler):
    "Records every record the task logger handles"

    def __init__(self):
        super().__init__()
        self.recs = []

    def emit(self, record):
        r = Rec()
        r.task = getattr(record, "task_name", None)
        r.action = getattr(record, "action", None)
        r.run_id = getattr(record, "run_id", None)
        r.created = record.created
        r.start = getattr(record, "start", None)
        r.end = getattr(record, "end", None)
        r.runtime = getattr(record, "runtime", None)
        r.exc_text = getattr(record, "exc_text", None)
        if r.exc_text is None and record.exc_info and isinstance(record.exc_info, tuple) and record.exc_info[0]:
            r.exc_text = logging.Formatter().formatException(record.exc_info)
        r.message = record.getMessage()
        r.thread = threading.get_ident()
        r.seq = len(self.recs)
        self.recs.append(r)

    def of(self, task, *actions):
        return [r for r in self.recs if r.task == task and (not actions or r.action in actions)]


class App:
    """A private rocketry application

    Every App gets its own logger name: rocketry wraps the record factory of the logger once per
    logger (not per session), so sharing one name between clocks would mix them up.
    """
    def __init__(self, clock, model=RunRecord, repo=None, task_logger=None, tap=True, **config):
        n = next(_counter)
        self.clock = clock
        self.basename = task_logger or f"rvm{n}.task"
        config.setdefault("execution", "async")
        config.setdefault("cycle_sleep", 0.1)
        config.setdefault("restarting", "recall")    # (the default replaces this very process)
        config.setdefault("func_run_id", self._next_run_id)
        self._ids = itertools.count()
        self.repo = MemoryRepo(model=model) if repo is None else repo
        logger = logging.getLogger(self.basename)
        logger.propagate = False
        sched = logging.getLogger(f"rvm{n}.scheduler")
        sched.propagate = False
        sched.addHandler(logging.NullHandler())
        self.app = Rocketry(
            config=dict(
                task_logger_basename=self.basename,
                scheduler_logger_basename=f"rvm{n}.scheduler",
                time_func=clock.now,
                **config
            ),
            logger_repo=self.repo,
        )
        self.session = self.app.session
        self.tap = Tap()
        if tap:
            logger.addHandler(self.tap)
        self.logger = logger
        self.session.set_as_default()
        self.cycles = 0
        self._at_cycle = []      # callbacks f(cycle) before the cycle's tasks
        self._after_cycle = []

        app = self

        def on_cycle():
            app.cycles += 1
            for func in list(app._at_cycle):
                func(app.cycles)
            yield
            for func in list(app._after_cycle):
                func(app.cycles)

        self.session.hooks.scheduler_cycle.append(on_cycle)

    def _next_run_id(self, task=None, params=None):
        return f"r{next(self._ids)}"

    def at_cycle(self, func):
        self._at_cycle.append(func)
        return func

    def after_cycle(self, func):
        self._after_cycle.append(func)
        return func

    def stop_after(self, cycles=None, until=None):
        "Ask a graceful shut down after so many cycles / once the virtual time is reached"
        state = {"done": False}

        def stop(n):
            if state["done"]:
                return
            if (cycles is not None and n >= cycles) or (until is not None and self.clock.peek() >= until):
                state["done"] = True
                self.session.shut_down()
        self.after_cycle(stop)

    def task(self, *args, **kwargs):
        return self.app.task(*args, **kwargs)

    def add(self, func, name, start_cond=None, **kwargs):
        "Create a function task, return the Task"
        self.session.create_task(func=func, name=name, start_cond=start_cond, **kwargs)
        return self.session[name]

    def serve(self, max_steps=200_000, debug=False, real_yield=0):
        self.out = run_coro(self.app.serve(), self.clock, max_steps=max_steps, debug=debug, real_yield=real_yield)
        return self.out

    def close(self):
        "Free the loggers"
        for name in list(logging.root.manager.loggerDict):
            if name == self.basename or name.startswith(self.basename + "."):
                lg = logging.root.manager.loggerDict[name]
                if isinstance(lg, logging.Logger):
                    lg.handlers.clear()
                    for attr in ("makeRecord", "__rocketry_wrapped__"):
                        lg.__dict__.pop(attr, None)
        self.session.hooks.scheduler_cycle.clear()


def pair_runs(recs):
    """Group the records of each task by run id -> {task: {run_id: [rec, ...]}}"""
    runs = {}
    for r in recs:
        runs.setdefault(r.task, {}).setdefault(r.run_id, []).append(r)
    return runs


TERMINAL = ("success", "fail", "terminate", "inaction", "crash")
