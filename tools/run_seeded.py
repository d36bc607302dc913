"""python3 tools/run_seeded.py [ID...]: runs the check of each planted bug on a scratch copy of /repo with the patch; records the results."""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(ROOT, "tools", "seeded_results.json")
res = json.load(open(p)) if os.path.exists(p) else {}
ids = sys.argv[1:] or sorted(os.listdir(os.path.join(ROOT, "seeded")))
for d in ids:
    prop = json.load(open(os.path.join(ROOT, "seeded", d, "meta.json")))["property"]
    work = tempfile.mkdtemp(prefix="seeded-", dir="/tmp")
    try:
        repo = os.path.join(work, "repo")
        shutil.copytree("/repo", repo, symlinks=True)
        subprocess.run(["git", "-C", repo, "apply", os.path.join(ROOT, "seeded", d, "patch.diff")], check=True)
        r = subprocess.run(["bash", os.path.join(ROOT, "run.sh"), prop], env=dict(os.environ, VERIF_REPO=repo), capture_output=True, text=True)
        ok = r.returncode == 1 and f"VIOLATION property={prop} " in r.stdout
        res[d] = prop if ok else f"missed (exit {r.returncode})"
        print(d, res[d], flush=True)
    finally:
        shutil.rmtree(work)
json.dump(res, open(p, "w"), indent=1, sort_keys=True)
