import datetime
import os
import time

from redbird.repos import MemoryRepo
from rocketry.log import MinimalRecord, MinimalRunRecord, RunRecord, TaskRunRecord
from rvm.scenario import Script, close, replay

ID = "P30"
RULE = ("one random scenario of tasks on calendar schedules (time of hour, day, week and month, cron, histories of periods, spans of time, pipelines, running times, restarts, deaths) is replayed in a session without a time zone on a "
        "computer in UTC and again, moved in time by the difference, with a time zone set, on a computer in another zone, and both: starts, statuses and conditions on every cycle must be the same by the wall clock; "
        "the times given out must be in the zone; distinct: (way, sign and kind of the offset, conditions, actions)")
ASSUMES = ["zones of a constant difference; of the zones with summer time only days at which the difference does not change"]

OFFSETS = [-720, -570, -300, -90, -60, 0, 60, 120, 180, 330, 345, 540, 765, 840]
REAL = ["Europe/Helsinki", "America/New_York", "Australia/Lord_Howe", "Asia/Kolkata"]


class Computer:
    "The time zone of this computer"

    def __init__(self, tz):
        self.tz = tz

    def __enter__(self):
        self.before = os.environ.get("TZ")
        os.environ["TZ"] = self.tz
        time.tzset()

    def __exit__(self, *args):
        if self.before is None:
            del os.environ["TZ"]
        else:
            os.environ["TZ"] = self.before
        time.tzset()


def posix(minutes):
    "(the sign is the other way in the names)"
    m = abs(minutes)
    return f"XXX{'-' if minutes >= 0 else '+'}{m // 60}:{m % 60:02}"


def zones(ctx):
    rng = ctx.rng
    script = Script(rng, calendar=True)
    model = rng.choice([RunRecord, MinimalRunRecord, MinimalRecord, TaskRunRecord])
    span = sum(s["gap"] for s in script.sessions) + sum(script.sleeps) * 2 + 86400 * 3

    def run(shift, look=None, **config):
        repo = MemoryRepo(model=model)
        return replay(script, lambda: repo, shift=shift, look=look, **config)
    base, logged, stop = run(0)
    if base is None:
        ctx.inconclusive(stop)
    ctx.saw("records", len(logged))
    for r in logged:
        ctx.saw(f"action_{r.action}")
    for way in rng.sample(["session", "session-far", "computer", "both", "real"], 3):
        offset = rng.choice(OFFSETS)
        zone, machine = None, "UTC"
        if way == "session":
            zone = datetime.timezone(datetime.timedelta(minutes=offset))
        elif way == "session-far":
            offset = rng.choice([-1, 1]) * rng.randrange(1, 1439)
            zone = datetime.timezone(datetime.timedelta(minutes=offset), "far away")
        elif way == "computer":
            machine = posix(offset)
        elif way == "both":
            zone = datetime.timezone(datetime.timedelta(minutes=offset))
            machine = posix(rng.choice(OFFSETS))
        else:
            machine = rng.choice(REAL)
            with Computer(machine):
                diffs = {datetime.datetime.fromtimestamp(script.start + d * 43200).astimezone().utcoffset() for d in range(-4, int(span / 43200) + 5)}
            if len(diffs) > 1:
                ctx.saw("transition_skipped")
                continue
            offset = diffs.pop().total_seconds() / 60
        want = datetime.timedelta(minutes=offset)
        how = dict(way=way, offset=offset, computer=machine)

        def look(app, task):
            for name in ("last_run", "last_success", "last_fail", "last_terminate"):
                x = getattr(task, name)
                if x is None:
                    continue
                ctx.check((x.utcoffset() == want) if zone is not None else x.tzinfo is None, "zone-of-times", "the times given out are not in the zone of the session", attribute=name, got=x, zone=str(zone), **how)
                ctx.saw("times_given")
        with Computer(machine):
            trace, recs, stop = run(-offset * 60, look=look, **({} if zone is None else {"timezone": zone}))
        if trace is None:
            ctx.inconclusive(stop)
        for i in range(max(len(trace), len(base))):
            g, w = (x[i] if i < len(x) else None for x in (trace, base))
            if g != w and not close(g, w):
                ctx.fail("trace", "the same scenario goes another way in another time zone", got=g, want=w, before=base[max(i - 3, 0):i], specs=script.specs, start=datetime.datetime.fromtimestamp(script.start, datetime.timezone.utc), **how)
                break
        ctx.check(True, "trace", "")
        ctx.saw("replays")
        ctx.saw(f"way_{way}")
        ctx.saw("observations", len(trace))
        ctx.sig(way, (offset > 0) - (offset < 0), bool(offset % 60), sorted({s[0] + (s[1].split("(")[0] if s[0] == "expr" else "") for s in script.specs.values()}))
    ctx.sample(dict(specs=str(script.specs), sessions=len(script.sessions)))


KINDS = {"zones": (zones, 300, 6000)}
FLOORS = {"replays": 400, "observations": 40000, "times_given": 50000, "way_both": 80, "way_computer": 80, "way_session": 80, "way_session-far": 80, "way_real": 40, "action_run": 3000, "action_crash": 15, "action_terminate": 150}
