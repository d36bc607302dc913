"""python3 tools/plant.py SPEC.py [--skip-tests]

Confirms a planted bug in a scratch copy of /repo and keeps it as /verif/seeded/<id>/.
SPEC.py: ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)], DEMO = "python source" (exit code tells).
Only reads /repo; the scratch copy is removed.
"""
import json, os, re, runpy, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
DEMO_SH = '#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore TZ=UTC\nexec timeout 200 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def main(spec, skip):
    s = runpy.run_path(spec)
    bid, prop = s["ID"], s["PROPERTY"]
    work = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
    repo, demo = os.path.join(work, "repo"), os.path.join(work, "demo")
    try:
        shutil.copytree("/repo", repo, symlinks=True)
        for fn, old, new in s["EDITS"]:
            path = os.path.join(repo, fn)
            text = open(path).read()
            assert text.count(old) == 1, (bid, fn, text.count(old), old)
            open(path, "w").write(text.replace(old, new))
        diff = subprocess.run(["git", "-C", repo, "diff"], capture_output=True, text=True, check=True).stdout
        assert diff.strip()
        os.mkdir(demo)
        open(os.path.join(demo, "demo.py"), "w").write(s["DEMO"])
        open(os.path.join(demo, "demo.sh"), "w").write(DEMO_SH)
        good = [subprocess.run(["bash", os.path.join(demo, "demo.sh")], cwd="/repo", capture_output=True, text=True) for _ in range(2)]
        bad = [subprocess.run(["bash", os.path.join(demo, "demo.sh")], cwd=repo, capture_output=True, text=True) for _ in range(2)]
        ok = all(g.returncode == 0 for g in good) and all(b.returncode != 0 for b in bad)
        if not ok:
            print(bid, "DEMO WRONG", [g.returncode for g in good], [b.returncode for b in bad], good[0].stdout[-300:], good[0].stderr[-1500:], "PATCHED:", bad[0].stdout[-300:], bad[0].stderr[-1500:])
            return
        missing = []
        if not skip:
            env = dict(os.environ, PYTHONPATH=repo)
            subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "--continue-on-collection-errors", "--ignore=rocketry/test/session/test_control.py",
                            "--ignore=rocketry/test/schedule/test_multilaunch.py", "--ignore=rocketry/test/schedule/test_terminate.py", f"--basetemp={work}/tmp", "-o", "junit_family=xunit2",
                            f"--junitxml={work}/junit.xml", "rocketry"], cwd=repo, env=env, capture_output=True)
            subprocess.run(["/usr/bin/python3", "/opt/vp/results.py", f"{work}/out.json", f"junit:{work}/junit.xml"], check=True, capture_output=True)
            missing = sorted(set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - set(json.load(open(f"{work}/out.json"))["passed"]))
        if missing:
            print(bid, "TESTS CATCH IT:", len(missing), missing[:3])
            return
        shutil.rmtree(os.path.join(VERIF, "seeded", bid), ignore_errors=True)
        shutil.copytree(demo, os.path.join(VERIF, "seeded", bid))
        open(os.path.join(VERIF, "seeded", bid, "patch.diff"), "w").write(diff)
        json.dump({"property": prop, "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, open(os.path.join(VERIF, "seeded", bid, "meta.json"), "w"), indent=1)
        r = None
        if os.path.exists(os.path.join(VERIF, "checks", prop.lower() + ".py")):
            r = subprocess.run(["bash", os.path.join(VERIF, "run.sh"), prop], env=dict(os.environ, VERIF_REPO=repo), capture_output=True, text=True)
        print(bid, prop, "kept; check:", None if r is None else r.returncode, "" if r is None else "\n   ".join(r.stdout.splitlines()[:3])[:600], (bad[0].stderr.strip().splitlines() or [""])[-1][:200])
    finally:
        shutil.rmtree(work)


main(sys.argv[1], "--skip-tests" in sys.argv)
