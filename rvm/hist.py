"""Sessions that wake up with a task log written by an earlier scheduler."""
import datetime

from redbird.repos import MemoryRepo
from rocketry.log import MinimalRunRecord

from .sim import App, Clock, ts

D, TD = datetime.datetime, datetime.timedelta
UTC = datetime.timezone.utc


class Ev:
    __slots__ = ("task", "action", "t", "run_id")

    def __init__(self, task, action, t, run_id):
        self.task, self.action, self.t, self.run_id = task, action, t, run_id

    def __repr__(self):
        return f"{self.task}:{self.action}@{datetime.datetime.fromtimestamp(self.t, tz=UTC):%m-%d %H:%M:%S.%f}({self.run_id})"


def rand_history(rng, names, end, outcomes=("success", "success", "fail", "fail", "terminate", "inaction", "crash"), max_runs=6, span=None,
                 unfinished=False):
    "Sequential runs of each of the tasks before the given time -> events in the order they were logged"
    events = []
    n = 0
    for name in names:
        runs = rng.choice([0, 1, 2, 3, rng.randint(0, max_runs)])
        reach = span or rng.choice([60, 600, 7200, 86400, 3 * 86400, 10 * 86400, 40 * 86400])
        # whole milliseconds: nothing is lost when records travel through files
        points = sorted(rng.sample(range(2, max(int(reach * 1000), 100)), 2 * runs), reverse=True)
        for i in range(runs):
            n += 1
            rid = f"h{n}"
            a, b = (round(end - points[2 * i + k] / 1000, 3) for k in (0, 1))
            events.append(Ev(name, "run", a, rid))
            if unfinished and i == runs - 1 and rng.random() < 0.4:
                continue
            events.append(Ev(name, rng.choice(outcomes), b, rid))
    events.sort(key=lambda e: e.t)
    return events


def fill(repo, events):
    for e in events:
        repo.add(MinimalRunRecord(task_name=e.task, action=e.action, created=e.t, run_id=e.run_id))


class HistApp(App):
    "An application with a log of earlier runs; func(app) is called inside the first cycle"

    def __init__(self, events, start, model=MinimalRunRecord, repo=None, **config):
        clock = Clock(start)
        repo = MemoryRepo(model=model) if repo is None else repo
        fill(repo, events)
        super().__init__(clock, repo=repo, **config)

    def inside(self, func, cycles=1):
        "Serve; call the function in the cycles"
        self.at_cycle(lambda n: func(n) if n <= cycles else None)
        self.stop_after(cycles=cycles)
        out = self.serve()
        self.close()
        if out.exception:
            raise out.exception
        return out
