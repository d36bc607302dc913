"""Check runner: cases -> worker processes -> verdicts, evidence, replay files.

A check module (checks/<id>.py) declares

    ID        property id
    RULE      how cases are made and what makes one non-trivial
    KINDS     {kind: (function(ctx), n_quick, n_thorough)}
    FLOORS    {counter: minimum} - monitors that must have observed something,
              otherwise the run is inconclusive (exit 2), never "held"
    ASSUMES   list of assumption strings (optional)

One case is a call ``function(ctx)``; everything random in it comes from
``ctx.rng``, which is derived from (VERIF_SEED, property, kind, index), so a
replay file only has to name these.
"""
import argparse
import collections
import faulthandler
import gc
import hashlib
import importlib
import json
import os
import random
import select
import signal
import subprocess
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
EVIDENCE = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.json")

CPU_LIMIT_S = 60        # user CPU seconds one case may burn (typical: < 0.5 s)
STALL_S = 75            # wall seconds without finishing a case before the worker is restarted
STALL_TRIES = 3         # a case that stalls this many times in a row is a finding

_SAMPLE_MAX = 6


class CpuBudget(BaseException):
    "A case burned its whole CPU budget (endless loop in the code under test)"


class Inconclusive(Exception):
    "The harness could not bring the case about (nothing is claimed about it)"


def case_rng(seed, prop, kind, index):
    raw = f"{seed}|{prop}|{kind}|{index}".encode()
    return random.Random(int.from_bytes(hashlib.sha256(raw).digest()[:8], "big"))


def _text(value):
    "Some objects (conditions without text) cannot be shown"
    try:
        return str(value)[:2000]
    except Exception as exc:
        return f"<{type(value).__name__}: {type(exc).__name__}>"


class Ctx:
    "What a case sees"

    def __init__(self, prop, kind, index, seed, tier):
        self.prop, self.kind, self.index = prop, kind, index
        self.seed, self.tier = seed, tier
        self.rng = case_rng(seed, prop, kind, index)
        self.cov = collections.Counter()
        self.sigs = set()
        self.samples = []
        self.violations = []
        self.soft = []

    # -- observations
    def saw(self, name, n=1):
        "Count a monitor observation"
        self.cov[name] += n

    def sig(self, *parts):
        "Register a distinct non-trivial case/state signature"
        raw = repr(parts).encode()
        self.sigs.add(hashlib.blake2b(raw, digest_size=8).hexdigest())

    def sample(self, text):
        if len(self.samples) < 2:
            self.samples.append(text if isinstance(text, (str, dict, list)) else repr(text))

    # -- verdicts
    def fail(self, key, what, /, **detail):
        if len(self.violations) < 20:
            self.violations.append({
                "key": key, "what": what,
                "detail": {k: (v if isinstance(v, (int, float, bool, type(None))) else _text(v)) for k, v in detail.items()},
            })

    def check(self, ok, key, what, /, **detail):
        self.cov["oracle_checks"] += 1
        if not ok:
            self.fail(key, what, **detail)
        return bool(ok)

    def eq(self, got, want, key, what, /, **detail):
        return self.check(got == want, key, what, got=repr(got), want=repr(want), **detail)

    def inconclusive(self, why):
        raise Inconclusive(why)


def _blame(exc):
    "Whose frame is the innermost one: 'repo', 'verif' or None"
    repo_pkg = os.path.join(REPO, "rocketry") + os.sep
    whose = None
    for f in traceback.extract_tb(exc.__traceback__):
        path = os.path.abspath(f.filename)
        if path.startswith(repo_pkg):
            whose = "repo"
        elif path.startswith(VERIF + os.sep):
            whose = "verif"
    return whose


def _exc_in_repo(exc):
    """Whether the exception is the code under test's doing

    Exceptions the harness raises on purpose in task bodies are marked (planned): they are not
    supposed to come out. Other exceptions out of the harness' own frames are the harness' bugs.
    """
    seen = set()
    while exc is not None and id(exc) not in seen:
        seen.add(id(exc))
        if getattr(exc, "planned", False):
            return True
        if _blame(exc) == "repo":
            return True
        exc = exc.__cause__
    return False


def _last_repo_frame(exc):
    repo_pkg = os.path.join(REPO, "rocketry") + os.sep
    last = None
    for f in traceback.extract_tb(exc.__traceback__):
        if os.path.abspath(f.filename).startswith(repo_pkg):
            last = f
    return f"{os.path.relpath(last.filename, REPO)}:{last.name}" if last else "?"


def run_case(mod, kind, index, seed, tier):
    ctx = Ctx(mod.ID, kind, index, seed, tier)
    func = mod.KINDS[kind][0]

    def on_cpu(signum, frame):
        raise CpuBudget()

    old = signal.signal(signal.SIGVTALRM, on_cpu)
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT_S)
    status = "ok"
    try:
        func(ctx)
    except Inconclusive as exc:
        status = f"inconclusive: {exc}"
    except CpuBudget as exc:
        where = _last_repo_frame(exc)
        ctx.fail("endless-loop", "the call never came back (CPU budget exhausted)", where=where,
                 trace="".join(traceback.format_exception(exc))[-1500:])
    except KeyboardInterrupt:
        raise
    except BaseException as exc:  # noqa
        if _exc_in_repo(exc):
            ctx.fail(f"unexpected-{type(exc).__name__}", f"unexpected {type(exc).__name__} out of the code under test: {str(exc)[:200]}",
                     where=_last_repo_frame(exc), trace="".join(traceback.format_exception(exc))[-3000:])
        else:
            status = "harness-error: " + "".join(traceback.format_exception(exc))[-3000:]
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)
    return {
        "kind": kind, "index": index, "status": status, "cov": dict(ctx.cov),
        "sigs": sorted(ctx.sigs), "samples": ctx.samples, "violations": ctx.violations,
    }


# ---------------------------------------------------------------- worker

def load(prop):
    return importlib.import_module(f"checks.{prop.lower()}")


def setup_process():
    warnings.simplefilter("ignore")
    import logging
    logging.raiseExceptions = False
    logging.lastResort = logging.NullHandler()


def worker(prop, seed, tier):
    "Reads '<kind> <index>' lines, answers one JSON line per case"
    out = os.fdopen(os.dup(1), "w", buffering=1)
    # whatever the code under test prints must not get mixed with the protocol
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    setup_process()
    mod = load(prop)
    faulthandler.enable()
    n = 0
    for line in sys.stdin:
        kind, index = line.split()
        faulthandler.dump_traceback_later(STALL_S - 5, exit=False)
        res = run_case(mod, kind, int(index), seed, tier)
        faulthandler.cancel_dump_traceback_later()
        out.write(json.dumps(res) + "\n")
        out.flush()
        n += 1
        if n % 20 == 0:
            gc.collect()
    os._exit(0)


class Pool:
    def __init__(self, prop, seed, tier, n):
        self.args = (prop, seed, tier)
        self.n = n
        self.scratch = []

    def spawn(self, slot):
        prop, seed, tier = self.args
        errpath = os.path.join(EVIDENCE, "tmp", f"{prop}.{os.getpid()}.{slot}.stderr")
        err = open(errpath, "w")
        p = subprocess.Popen(
            [sys.executable, "-X", "faulthandler", os.path.join(VERIF, "check.py"), prop, "--worker", "--seed", str(seed), "--tier", tier],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=err, cwd=VERIF,
            start_new_session=True,
        )
        err.close()
        self.scratch.append(errpath)
        return {"p": p, "buf": b"", "case": None, "since": None, "err": errpath}

    def kill(self, w):
        try:
            os.killpg(w["p"].pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        w["p"].wait()
        for f in (w["p"].stdin, w["p"].stdout):
            try:
                f.close()
            except OSError:
                pass

    def run(self, cases, deadline, on_result):
        queue = collections.deque(cases)
        tries = collections.Counter()
        workers = [self.spawn(i) for i in range(min(self.n, max(1, len(cases))))]
        stalls = []
        stop = False
        skipped = 0

        def give(w):
            nonlocal skipped
            if queue and not stop:
                if time.monotonic() > deadline:
                    skipped += len(queue)
                    queue.clear()
                    w["case"] = None
                    return
                kind, index = queue.popleft()
                w["case"] = (kind, index)
                w["since"] = time.monotonic()
                try:
                    w["p"].stdin.write(f"{kind} {index}\n".encode())
                    w["p"].stdin.flush()
                except BrokenPipeError:
                    pass
            else:
                w["case"] = None

        for w in workers:
            give(w)
        while any(w["case"] for w in workers):
            fds = {w["p"].stdout.fileno(): w for w in workers if w["case"]}
            ready, _, _ = select.select(list(fds), [], [], 1.0)
            for fd in ready:
                w = fds[fd]
                data = os.read(fd, 1 << 16)
                if not data:
                    # Died
                    case = w["case"]
                    code = w["p"].wait()
                    tail = open(w["err"]).read()[-2500:]
                    tries[case] += 1
                    self.kill(w)
                    slot = workers.index(w)
                    workers[slot] = nw = self.spawn(f"{slot}r{sum(tries.values())}")
                    if tries[case] < STALL_TRIES:
                        queue.appendleft(case)
                    else:
                        stalls.append((case, f"worker died with exit code {code}", tail))
                        stop = True
                    give(nw)
                    continue
                w["buf"] += data
                while b"\n" in w["buf"]:
                    line, w["buf"] = w["buf"].split(b"\n", 1)
                    if on_result(json.loads(line)) == "stop" and not stop:
                        stop = True
                        skipped += len(queue)
                    give(w)
            now = time.monotonic()
            for slot, w in enumerate(workers):
                if w["case"] and now - w["since"] > STALL_S:
                    case = w["case"]
                    tail = open(w["err"]).read()[-4000:]
                    tries[case] += 1
                    self.kill(w)
                    workers[slot] = nw = self.spawn(f"{slot}s{sum(tries.values())}")
                    if tries[case] < STALL_TRIES:
                        queue.appendleft(case)
                    else:
                        stalls.append((case, f"the case stalled {STALL_TRIES} times", tail))
                        stop = True
                    give(nw)
        for w in workers:
            self.kill(w)
        for path in self.scratch:
            try:
                os.unlink(path)
            except OSError:
                pass
        return stalls, skipped, sum(tries.values())


# ---------------------------------------------------------------- main

def known_findings(prop):
    try:
        data = json.load(open(KNOWN))
    except FileNotFoundError:
        return {}
    return {e["key"]: e for e in data if e["property"] == prop and e["status"] == "open"}


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--worker", action="store_true")
    ap.add_argument("--replay")
    ap.add_argument("--kind")
    ap.add_argument("--index", type=int)
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    args = ap.parse_args(argv)
    prop = args.prop

    if args.worker:
        worker(prop, args.seed, args.tier)
        return 0

    os.makedirs(os.path.join(EVIDENCE, "tmp"), exist_ok=True)
    os.makedirs(os.path.join(EVIDENCE, "replay"), exist_ok=True)

    setup_process()
    if args.replay or args.index is not None:
        kind, index, seed, tier = args.kind, args.index, args.seed, args.tier
        if args.replay:
            d = json.load(open(args.replay))
            kind, index, seed, tier = d["kind"], d["index"], d["seed"], d["tier"]
        mod = load(prop)
        res = run_case(mod, kind, index, seed, tier)
        print(json.dumps(res, indent=1))
        return 1 if res["violations"] else (0 if res["status"] == "ok" else 2)

    t0 = time.monotonic()
    mod = load(prop)
    slot = 1 if args.tier == "quick" else 2
    cases = []
    kinds = {k: v for k, v in mod.KINDS.items() if args.kind in (None, k)}
    per_kind = {k: list((k, i) for i in range(v[slot])) for k, v in kinds.items()}
    # interleave the kinds so that a cut-off never starves one of them
    n_max = max(len(v) for v in per_kind.values())
    for k, v in per_kind.items():
        cases += [((i + 0.5) / len(v), c) for i, c in enumerate(v)] if v else []
    cases = [c for _, c in sorted(cases)]

    cov, sigs, samples, viols = collections.Counter(), set(), [], []
    status = collections.Counter()
    problems = []
    by_kind = collections.Counter()
    loops, bad = [0], [0]
    known = known_findings(prop)

    def on_result(res):
        cov.update(res["cov"])
        sigs.update(res["sigs"])
        by_kind[res["kind"]] += 1
        if len(samples) < _SAMPLE_MAX and res["samples"] and sum(1 for s in samples if s["kind"] == res["kind"]) < 2:
            samples.append({"kind": res["kind"], "index": res["index"], "case": res["samples"][0]})
        for v in res["violations"]:
            viols.append((res["kind"], res["index"], v))
        loops[0] += sum(1 for v in res["violations"] if v["key"] == "endless-loop")
        st = res["status"].split(":")[0]
        status[st] += 1
        if st != "ok" and len(problems) < 10:
            problems.append({"kind": res["kind"], "index": res["index"], "status": res["status"]})
        # enough is known: no need to burn the CPU budget over and over again
        if any(v["key"] not in known for v in res["violations"]):
            bad[0] += 1
        slow = args.tier == "quick" and bad[0] >= 5 and time.monotonic() - t0 > 60
        return "stop" if loops[0] >= 6 or len(viols) > 5000 or slow else None

    budget = float(os.environ.get("VERIF_BUDGET_S", 600 if args.tier == "quick" else 3 * 3600))
    pool = Pool(prop, args.seed, args.tier, args.jobs)
    stalls, skipped, retries = pool.run(cases, t0 + budget, on_result)

    for (kind, index), why, tail in stalls:
        if f"{os.sep}rocketry{os.sep}" in tail:
            viols.append((kind, index, {"key": "stalled", "what": why + " inside the code under test", "detail": {"stack": tail[-3000:]}}))
        else:
            problems.append({"kind": kind, "index": index, "status": why + "\n" + tail[-1500:]})
            status["stalled"] += 1

    seen_known, fresh = {}, []
    for kind, index, v in viols:
        if v["key"] in known:
            seen_known.setdefault(v["key"], (kind, index, v))
        else:
            fresh.append((kind, index, v))

    floors = {} if args.kind else getattr(mod, "FLOORS", {})
    missed = {k: (cov.get(k, 0), m) for k, m in floors.items() if cov.get(k, 0) < m}

    wall = time.monotonic() - t0
    n_viol = len({v["key"] for _, _, v in fresh})
    evidence = {
        "property": prop, "tier": args.tier, "seed": args.seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(by_kind.values()),
            "distinct_nontrivial": len(sigs),
            "rule": mod.RULE,
            "samples": samples,
            "cases_by_kind": dict(by_kind),
            "monitor_observations": dict(sorted(cov.items())),
            "case_status": dict(status),
            "cases_skipped_for_time": skipped,
            "worker_restarts": retries,
            "floors": {k: {"seen": cov.get(k, 0), "min": m} for k, m in floors.items()},
            "known_findings_seen": sorted(seen_known),
        },
        "wall_s": round(wall, 2),
        "violations": n_viol,
        "assumptions": getattr(mod, "ASSUMES", []),
    }
    if problems:
        evidence["coverage"]["problems"] = problems[:3]
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, f"{prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1)

    for key, (kind, index, v) in sorted(seen_known.items()):
        print(f"KNOWN-FINDING: property={prop} {known[key]['what']}")

    if fresh:
        printed = set()
        for kind, index, v in fresh:
            if v["key"] in printed:
                continue
            printed.add(v["key"])
            safe = "".join(c if c.isalnum() or c in "-_" else "_" for c in v["key"])[:60]
            path = os.path.join(EVIDENCE, "replay", f"{prop}-{safe}-{kind}-{index}.json")
            with open(path, "w") as f:
                json.dump({"property": prop, "kind": kind, "index": index, "seed": args.seed, "tier": args.tier,
                           "violation": v, "replay": f"bash /verif/run.sh {prop} --replay {path}"}, f, indent=1)
            print(f"VIOLATION property={prop} replay={path}")
            print(f"  {v['key']}: {v['what']} {json.dumps(v['detail'])[:600]}")
        print(f"{prop} {args.tier}: {len(fresh)} violating observations ({n_viol} distinct) in {sum(by_kind.values())} cases, {wall:.1f} s")
        return 1
    if missed or status.get("harness-error") or status.get("stalled") or status.get("inconclusive", 0) > 0.02 * max(50, sum(by_kind.values())):
        print(f"INCONCLUSIVE property={prop}: floors missed {missed}, status {dict(status)}")
        for p in problems[:3]:
            print("  ", p["kind"], p["index"], p["status"][:1500])
        return 2
    print(f"{prop} {args.tier}: held on {sum(by_kind.values())} cases ({len(sigs)} distinct non-trivial, "
          f"{cov.get('oracle_checks', 0)} oracle checks), {wall:.1f} s")
    return 0
