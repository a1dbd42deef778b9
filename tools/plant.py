"""Author and confirm planted bugs: python3 tools/plant.py make <id> | check <id>... (scratch copies under /tmp/plant).

make: seeded/<id>/edit.py-like spec is read from stdin as JSON {"file":..., "edits":[[old,new],...]} or a list of those;
      writes patch.diff.   check: clean demo passes, patched demo fails, stable tests still pass."""
import json, os, pathlib, shutil, subprocess, sys, concurrent.futures as cf
import xml.etree.ElementTree as ET

V = pathlib.Path(__file__).resolve().parent.parent
ENV = dict(os.environ, OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg",
           PYTHONHASHSEED="0")


def copy(name):
    d = pathlib.Path("/tmp/plant") / name
    shutil.rmtree(d, ignore_errors=True)
    d.mkdir(parents=True)
    subprocess.run(f"git -C /repo archive HEAD | tar x -C {d}", shell=True, check=True)
    return d


def make(pid):
    specs = json.load(sys.stdin)
    specs = specs if isinstance(specs, list) else [specs]
    d = copy(pid + "-make")
    run = lambda *a, **k: subprocess.run(a, cwd=d, check=True, **k)
    run("git", "init", "-q"); run("git", "add", "-A"); run("git", "-c", "user.name=a", "-c", "user.email=a@b", "commit", "-qm", "x")
    for s in specs:
        p = d / s["file"]
        t = p.read_text()
        for old, new in s["edits"]:
            assert t.count(old) == 1, (t.count(old), old)
            t = t.replace(old, new)
        p.write_text(t)
    out = V / "seeded" / pid
    out.mkdir(parents=True, exist_ok=True)
    (out / "patch.diff").write_bytes(run("git", "diff", stdout=subprocess.PIPE).stdout)
    shutil.rmtree(d)
    print((out / "patch.diff").read_text())


def demo(pid, d):
    return subprocess.run(["bash", str(V / "seeded" / pid / "demo.sh")], cwd=d, env=ENV, capture_output=True, text=True, timeout=300)


def check(pid, tests=True):
    d = copy(pid)
    try:
        a = demo(pid, d)
        if a.returncode:
            return f"{pid}: demo fails on clean tree\n{a.stdout[-1500:]}{a.stderr[-1500:]}"
        subprocess.run(["git", "apply", "--unsafe-paths", f"--directory={d}", str(V / "seeded" / pid / "patch.diff")], cwd="/", check=True)
        b = demo(pid, d)
        if b.returncode == 0:
            return f"{pid}: demo passes with the patch\n{b.stdout[-1500:]}"
        msg = (b.stdout + b.stderr).strip().splitlines()[-1:]
        if not tests:
            return f"{pid}: demo ok {msg}"
        xml = d / "out.xml"
        subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "--tb=short",
                        "--continue-on-collection-errors", "-o", "junit_family=xunit2", f"--junitxml={xml}"], cwd=d,
                       env=dict(ENV, PYTHONPATH=str(d)), capture_output=True)
        stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        got = {}
        for c in ET.parse(xml).iter("testcase"):
            ok = not any(x.tag in ("failure", "error", "skipped") for x in c)
            got[(c.get("classname"), c.get("name"))] = ok
        names = {f"{k[0]}::{k[1]}": v for k, v in got.items()}

        missing = [s for s in stable if not names.get(s, False)]
        return f"{pid}: demo ok {msg}; stable tests broken: {len(missing)} of {len(stable)} {missing[:5]}"
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] == "make":
        make(sys.argv[2])
    else:
        with cf.ThreadPoolExecutor(3) as ex:
            for r in ex.map(lambda p: check(p, sys.argv[1] == "check"), sys.argv[2:]):
                print(r, flush=True)
