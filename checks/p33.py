import json
import os
import pathlib
import shutil
import signal
import subprocess
import sys
import tempfile
import time

import rocketry

ID = "P33"
RULE = ("real programs, run by an interpreter of their own in a scratch folder, restart their scheduler a number of times - every way of restarting, asked by a task on every execution, a hook, a startup task or another thread, by an "
        "exception, once or by many at the same time - while other tasks are running; the programs write down what happens and the order is judged: the lives, the arguments, processes, closing down, the log over the lives; "
        "distinct: (way, asker, tasks running, store, shutdown, life)")
ASSUMES = ["a program that has done nothing for 20 s on two tries is stuck", "the program's folder and arguments stay valid over the restarts"]

PROGRAM = r'''
import asyncio, datetime, json, os, sys, threading, time
LEFT = float(os.environ["RVM_DEADLINE"]) - time.time()
if LEFT < 0:
    os._exit(9)
guard = threading.Timer(LEFT, os._exit, (9,))  # does not outlive the check
guard.daemon = True
guard.start()
CONF = json.load(open("conf.json"))
EVENTS = os.path.abspath("events.jsonl")


def emit(ev, **kwargs):
    line = json.dumps({"ev": ev, "pid": os.getpid(), **kwargs}) + "\n"
    fd = os.open(EVENTS, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
    os.write(fd, line.encode())
    os.close(fd)


def lives():
    with open(EVENTS) as f:
        return sum('"ev": "begin"' in line for line in f)


from rocketry import Rocketry, Session
from rocketry.args import Session as Sess, TerminationFlag
from rocketry.conds import cron, every, true
from rocketry.exc import SchedulerRestart
from rocketry.conditions import SchedulerCycles
from redbird.repos import CSVFileRepo, MemoryRepo
from rocketry.log import RunRecord

repo = CSVFileRepo(filename="log.csv", model=RunRecord) if CONF["store"] == "csv" else MemoryRepo(model=RunRecord)
config = {"restarting": CONF["mode"], "cycle_sleep": 0.005, "execution": "main", "instant_shutdown": CONF["instant"], "multilaunch": False, "max_process_count": 8}
if CONF["late_config"]:
    config.pop("restarting")
app = Rocketry(logger_repo=repo, config=config)
session = app.session
timed = []


def last():
    return lives() >= CONF["lives"]


def ask(how):
    emit("ask", how=how, n=lives())
    if CONF["late_config"]:
        session.config.restarting = CONF["mode"]
    if how == "raise":
        raise SchedulerRestart("again")
    session.restart()


@session.hook_startup()
def starting(scheduler=None):
    emit("begin", argv=sys.argv, env=os.environ.get("RVM_MARK"), cwd=os.getcwd())
    yield
    emit("up")
    if CONF["asker"] == "hook" and not last():
        ask("call")


@session.hook_shutdown()
def closing(scheduler=None):
    emit("closing")
    yield
    emit("closed", alive=[t.name for t in session.tasks if t.is_alive()])


def asker():
    if last():
        session.shut_down()
        emit("bye")
    elif CONF["asker"] in ("main", "async", "thread"):
        for _ in range(CONF["times"]):
            ask(CONF["how"])
    elif CONF["asker"] == "outside" and lives() not in timed:
        timed.append(lives())  # one for a life, so that none is late
        th = threading.Timer(0.02, ask, args=("call",))
        th.daemon = True
        th.start()


async def async_asker():
    asker()

execution = CONF["asker"] if CONF["asker"] in ("main", "async", "thread") else "main"
app.task(SchedulerCycles.from_magic(__ge__=CONF["cycles"]), name="asker", execution=execution)(async_asker if execution == "async" else asker)


def body(name, sleep, flag=None):
    emit("start", task=name)
    t = time.monotonic()
    while time.monotonic() - t < sleep:
        if flag is not None and flag.is_set():
            from rocketry.exc import TaskTerminationException
            emit("end", task=name, how="flag")
            raise TaskTerminationException()
        time.sleep(0.005)
    emit("end", task=name)


def thread_body(flag=TerminationFlag()):
    body("on-thread", CONF["sleep"], flag)


def process_body():
    body("on-process", CONF["sleep"])


async def async_body():
    emit("start", task="on-async")
    t = time.monotonic()
    try:
        while time.monotonic() - t < CONF["sleep"]:
            await asyncio.sleep(0.005)
    except asyncio.CancelledError:
        emit("end", task="on-async", how="cancel")
        raise
    emit("end", task="on-async")


def at_start():
    body("at-start", 0)
    if CONF["asker"] == "startup" and not last():
        ask(CONF["how"] if CONF["how"] == "call" else "call")


def at_end():
    body("at-end", CONF["end_sleep"])


def rare():
    body("rare", 0)


def fails():
    emit("start", task="fails")
    emit("end", task="fails")
    raise RuntimeError("planned")

BODIES = {"on-thread": (thread_body, "thread"), "on-process": (process_body, "process"), "on-async": (async_body, "async"), "rare": (rare, CONF["rare_exec"]), "fails": (fails, "main")}
if __name__ == "__main__":
    for name in CONF["tasks"]:
        func, ex = BODIES[name]
        if name == "rare":
            cond = every("20 hours")
        else:
            cond = SchedulerCycles.from_magic(__eq__=CONF["cycles_body"])
        app.task(cond, name=name, execution=ex, permanent=name == CONF["permanent"])(func)
    if "at-start" in CONF["special"]:
        app.task(on_startup=True, name="at-start", execution=CONF["start_exec"])(at_start)
    if "at-end" in CONF["special"]:
        app.task(on_shutdown=True, name="at-end", execution=CONF["end_exec"])(at_end)
    emit("program")
    try:
        app.run()
    except BaseException as exc:
        emit("raised", error=repr(exc))
        raise
    emit("returned", statuses={t.name: t.status for t in session.tasks}, log=None if CONF["store"] == "csv" else [[r.task_name, r.action, r.run_id] for r in session.get_repo().filter_by().all()])
'''

TEXTS = ["x", "two words", "", " lead", "a'b", 'say "hi"', "$HOME", "`id`", "*", "åäö-ß", "-dash", "--opt=1", "semi;colon", "a\nb", "back\\slash", "&& true", "%s", "#", "~", ">out", "!"]
STUCK, LIMIT = 20, 30


def alive(sid):
    "Processes of the session that are not dead"
    out = []
    for p in os.listdir("/proc"):
        if p.isdigit():
            try:
                with open(f"/proc/{p}/stat") as f:
                    rest = f.read().rpartition(")")[2].split()
            except OSError:
                continue
            if int(rest[3]) == sid and rest[0] not in "ZX":
                out.append(int(p))
    return out


def read(path):
    try:
        with open(path) as f:
            return [json.loads(line) for line in f if line.endswith("\n")]
    except FileNotFoundError:
        return []


def run(folder, where, conf, args):
    "-> (events, return code, stuck)"
    events = os.path.join(folder, "events.jsonl")
    for name in ("events.jsonl", "log.csv"):
        if os.path.exists(os.path.join(folder, name)):
            os.unlink(os.path.join(folder, name))
    env = dict(os.environ, RVM_MARK=conf["mark"], RVM_DEADLINE=str(time.time() + LIMIT + 15), PYTHONDONTWRITEBYTECODE="1",
               PYTHONPATH=os.path.dirname(os.path.dirname(os.path.abspath(rocketry.__file__))))
    with open(os.path.join(folder, "output.txt"), "w") as out:
        proc = subprocess.Popen([sys.executable, where, *args], cwd=folder, env=env, stdin=subprocess.DEVNULL, stdout=out, stderr=out, start_new_session=True)
    began = moved = time.monotonic()
    size, empty = -1, 0
    stuck = None
    try:
        while True:
            time.sleep(0.02)
            proc.poll()
            now = time.monotonic()
            new = os.path.getsize(events) if os.path.exists(events) else 0
            if new != size:
                size, moved = new, now
                if sum(e["ev"] == "begin" for e in read(events)) > conf["lives"] + 2:
                    break
            # Ended when no process of the program remains (looked at a few times)
            empty = empty + 1 if proc.returncode is not None and not alive(proc.pid) else 0
            if empty > 5:
                break
            if now - moved > STUCK or (now - began > LIMIT):
                stuck = "no event for long" if now - moved > STUCK else "slow"
                break
    finally:
        try:
            os.killpg(proc.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        for pid in alive(proc.pid):
            try:
                os.kill(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        proc.wait()
    return read(events), proc.returncode, stuck


def scenario(ctx):
    rng = ctx.rng
    folder = tempfile.mkdtemp(prefix="rvm-")
    mode = rng.choice(["replace", "relaunch", "fresh", "recall"])
    special = [s for s in ("at-start", "at-end") if rng.random() < 0.6]
    asker = rng.choice(["main", "async", "thread", "outside", "hook", "startup"])
    if asker == "startup" and "at-start" not in special:
        special.insert(0, "at-start")
    how = rng.choice(["call", "call", "raise"]) if asker == "main" else "call"
    tasks = [t for t in ("on-thread", "on-process", "on-async", "rare", "fails") if rng.random() < (0.3 if t == "on-process" else 0.6)]
    n = rng.randint(2, 4)
    conf = {
        "mode": mode, "late_config": rng.random() < 0.2, "asker": asker, "how": how, "times": rng.choice([1, 1, 2, 5]), "lives": n, "store": rng.choice(["csv", "csv", "memory"]), "instant": rng.random() < 0.25,
        "tasks": tasks, "special": special, "sleep": rng.choice([0, 0.05, 0.2]), "end_sleep": rng.choice([0, 0.05]), "cycles": rng.randint(1, 4), "cycles_body": rng.randint(0, 4),
        "rare_exec": rng.choice(["main", "thread"]), "start_exec": rng.choice(["main", "thread"]), "end_exec": rng.choice(["main", "thread"]), "mark": rng.choice(TEXTS),
        "permanent": rng.choice(["on-thread", "on-async", None, None]),
    }
    args = [rng.choice(TEXTS) for _ in range(rng.randint(0, 4))]
    sub = rng.choice(["", "sub", "sub dir", "it's $x"])
    where = os.path.join(sub, rng.choice(["app.py", "the app.py", "app"]))
    if rng.random() < 0.3:
        where = os.path.join(folder, where)
    elif rng.random() < 0.5:
        where = os.path.join(".", where)
    path = pathlib.Path(folder, where)
    path.parent.mkdir(exist_ok=True)
    path.write_text(PROGRAM)
    pathlib.Path(folder, "conf.json").write_text(json.dumps(conf))
    try:
        events, code, stuck = run(folder, where, conf, args)
        if stuck:
            events, code, stuck = run(folder, where, conf, args)
        if stuck == "slow":
            ctx.inconclusive("the program was still going")
        output = pathlib.Path(folder, "output.txt").read_text(errors="replace")
        log = read_log(folder, conf, events)
        judge(ctx, conf, [where, *args], events, code, stuck, output, log, folder)
    finally:
        shutil.rmtree(folder, ignore_errors=True)


def read_log(folder, conf, events):
    if conf["store"] == "csv":
        import csv
        try:
            with open(os.path.join(folder, "log.csv"), newline="") as f:
                return [(r["task_name"], r["action"], r["run_id"]) for r in csv.DictReader(f)]
        except FileNotFoundError:
            return []
    logs = [e["log"] for e in events if e["ev"] == "returned"]
    return [tuple(r) for r in logs[-1]] if logs else []


def judge(ctx, conf, argv, events, code, stuck, output, log, folder):
    mode, n = conf["mode"], conf["lives"]
    tell = dict(conf=conf, argv=argv, events=[{k: v for k, v in e.items() if k not in ("argv", "log")} for e in events][-40:], output=output[-600:], code=code)
    ctx.check(not stuck, "stuck", "the program got stuck", **tell)
    if stuck:
        return
    begins = [i for i, e in enumerate(events) if e["ev"] == "begin"]
    if not ctx.check(len(begins) == n, "lives", "the scheduling was not started as many times as it should", lives=len(begins), want=n, **tell):
        return
    raised = [e for e in events if e["ev"] == "raised"]
    ctx.check(not raised, "raised", "running the application raised an error", raised=raised, **tell)
    ctx.check(code == 0, "exit", "the program did not exit properly", **tell)
    pids = [events[i]["pid"] for i in begins]
    if mode in ("replace", "recall"):
        ctx.check(len(set(pids)) == 1, "same-process", "the restart should keep the process", pids=pids, **tell)
    else:
        ctx.check(len(set(pids)) == n, "new-process", "the restart should make a new process", pids=pids, **tell)
    programs = sum(e["ev"] == "program" for e in events)
    ctx.check(programs == (1 if mode == "recall" else n), "programs", "the program was not started as many times as it should", programs=programs, **tell)
    returned = sum(e["ev"] == "returned" for e in events)
    ctx.check(returned == (1 if mode in ("recall", "replace") else n), "returned", "running returned a wrong number of times", returned=returned, **tell)
    for life, i in enumerate(begins):
        begin = events[i]
        ctx.check(begin["argv"] == argv, "argv", "the program was restarted with other arguments", got=begin["argv"], want=argv, life=life, **tell)
        ctx.check(begin["env"] == conf["mark"] and begin["cwd"] == os.path.realpath(folder), "surroundings", "the program was restarted in another environment", env=begin["env"], cwd=begin["cwd"], **tell)
        end = begins[life + 1] if life + 1 < n else len(events)
        mine = events[i:end]
        if mode in ("relaunch", "fresh"):
            # The old process may still be returning
            mine = [e for e in mine if e["ev"] not in ("returned", "program")]
        evs = [e["ev"] for e in mine]
        for ev in ("up", "closing", "closed"):
            ctx.check(evs.count(ev) == 1, "closing", f"a life of the scheduler should have exactly one {ev!r} before the next one starts", life=life, evs=evs, **tell)
        if evs.count("closed") != 1 or evs.count("closing") != 1:
            continue
        k = evs.index("closed")
        ctx.check(mine[k]["alive"] == [], "alive", "tasks were alive when the scheduler had closed down", alive=mine[k]["alive"], life=life, **tell)
        late = [e for e in mine[k + 1:] if e["ev"] in ("start", "end")]
        ctx.check(not late, "late", "a task was running after the scheduler had closed down", late=late, life=life, **tell)
        # Special tasks once in each life
        for name in conf["special"]:
            at = [j for j, e in enumerate(mine) if e["ev"] == "start" and e["task"] == name]
            ctx.check(len(at) == 1, "special", "a startup or shutdown task should run once in each life", task=name, starts=len(at), life=life, **tell)
            if name == "at-end" and at:
                ctx.check(at[0] > evs.index("closing"), "special-order", "a shutdown task was run before the closing down", life=life, **tell)
            ctx.saw("special")
        # Bodies that started have ended
        for name in conf["tasks"]:
            s = sum(e["ev"] == "start" and e["task"] == name for e in mine)
            f = sum(e["ev"] == "end" and e["task"] == name for e in mine)
            if name == "on-process" and conf["instant"]:
                continue
            ctx.check(s == f, "bodies", "a task that was running was not ended before the restart", task=name, starts=s, ends=f, life=life, **tell)
            graceful = not conf["instant"] and name != conf["permanent"]
            if graceful:
                cut = [e for e in mine if e["ev"] == "end" and e["task"] == name and e.get("how")]
                ctx.check(not cut or life == n - 1, "graceful", "a running task was terminated by a restart that waits for the tasks", task=name, life=life, **tell)
            closing = evs.index("closing")
            if s and any(e["ev"] == "end" and e["task"] == name for e in mine[closing:]):
                ctx.saw("alive_at_restart")
                ctx.sig(mode, conf["asker"], conf["how"], name, conf["store"], conf["instant"], life)
        ctx.sig(mode, conf["asker"], conf["how"], conf["store"], conf["instant"], life)
        ctx.saw("lives")
    # The log over the lives
    crashes = [r for r in log if r[1] == "crash"]
    ctx.check(not crashes, "crash", "a restart left a run without an end", crashes=crashes, log=log[-20:], **tell)
    runs = {}
    for name, action, run_id in log:
        runs.setdefault((name, run_id), []).append(action)
    bad = {str(k): v for k, v in runs.items() if len(v) != 2 or v[0] != "run" or v[1] == "run"}
    ctx.check(not bad, "log", "a run does not have a start and an end in the log", bad=bad, **tell)
    whole = conf["store"] == "csv" or mode == "recall"
    if whole:
        for name in conf["special"]:
            k = sum(r[0] == name and r[1] == "run" for r in log)
            ctx.check(k == n, "log-special", "the log over the lives lacks runs of startup or shutdown tasks", task=name, runs=k, **tell)
    if "rare" in conf["tasks"]:
        k = sum(e["ev"] == "start" and e["task"] == "rare" for e in events)
        if whole:
            ctx.check(k <= 1, "rare", "a task to be run once in 20 hours was run again after a restart", runs=k, log=log[-20:], **tell)
        else:
            ctx.check(k <= n, "rare", "a task to be run once in 20 hours was run more than once in a life", runs=k, **tell)
        if k:
            ctx.saw("rare")
    ctx.saw("mode_" + mode)
    ctx.saw("asker_" + conf["asker"])
    if conf["how"] == "raise":
        ctx.saw("raised")
    ctx.sample({"mode": mode, "asker": conf["asker"], "argv": argv, "lives": n, "events": len(events)})


KINDS = {"scenario": (scenario, 60, 1000)}
FLOORS = {"lives": 110, "alive_at_restart": 25, "mode_fresh": 5, "mode_recall": 5, "mode_relaunch": 5, "mode_replace": 5, "special": 60, "rare": 10}
