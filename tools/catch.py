"""Run the check of each planted bug against a patched scratch copy: python3 tools/catch.py [id...]."""
import json, pathlib, shutil, subprocess, sys, os, time
sys.path.insert(0, str(pathlib.Path(__file__).parent))
from plant import V, copy
ids = sys.argv[1:] or sorted(p.name for p in (V / "seeded").iterdir() if (p / "patch.diff").exists())
for i in ids:
    d = copy(i + "-catch")
    subprocess.run(["git", "apply", "--unsafe-paths", f"--directory={d}", str(V / "seeded" / i / "patch.diff")], cwd="/", check=True)
    prop = json.load(open(V / "seeded" / i / "meta.json"))["property"]
    t = time.time()
    r = subprocess.run(["./run.sh", prop, "quick"], cwd=V, env=dict(os.environ, PBT_REPO=str(d), VERIF_SEED=os.environ.get("VERIF_SEED", "1")), capture_output=True, text=True)
    line = [x for x in r.stdout.splitlines() if "VIOLATION" in x][:1]
    print(i, prop, "CAUGHT" if r.returncode == 1 and line else f"MISSED rc={r.returncode}", f"{time.time()-t:.0f}s", line, (r.stdout+r.stderr)[-300:] if r.returncode not in (0, 1) else "", flush=True)
    shutil.rmtree(d)
