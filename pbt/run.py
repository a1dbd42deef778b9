"""Command line: decide one property, or replay one saved case."""
from __future__ import annotations

import atexit, hashlib, importlib, json, os, pathlib, shutil, sys, tempfile, time, traceback
from collections import Counter

from . import bootstrap

VERIF = bootstrap.VERIF
WORKERS = int(os.environ.get("PBT_WORKERS", "8"))


def load(prop_id):
    bootstrap.ensure_hypothesis()
    scratch = tempfile.mkdtemp(prefix="pbt-")
    owner = os.getpid()
    atexit.register(lambda: os.getpid() == owner and shutil.rmtree(scratch, ignore_errors=True))
    os.chdir(scratch)               # the package writes a log file into the working directory
    bootstrap.use_repo()
    return importlib.import_module(f"pbt.{prop_id.lower()}").PROP, scratch


def known_findings(prop_id):
    """Lines 'finding: property=<id> sub=<sub> case=<file> what=<text>' of known_findings.txt."""
    out = []
    for line in (VERIF / "known_findings.txt").read_text().splitlines():
        if line.startswith("finding: "):
            head, _, what = line[len("finding: "):].partition(" what=")
            d = dict(part.split("=", 1) for part in head.split())
            d["what"] = what
            if d["property"] == prop_id:
                out.append(d)
    return out


def fork_task(task):
    """Runs ``task`` in a child; returns (pid, read end)."""
    r, w = os.pipe()
    sys.stdout.flush(); sys.stderr.flush()
    pid = os.fork()
    if pid:
        os.close(w)
        return pid, r
    code = 0
    try:
        os.close(r)
        work = tempfile.mkdtemp(dir=os.getcwd())
        os.chdir(work)
        tempfile.tempdir = work
        data = json.dumps(task()).encode()
        with os.fdopen(w, "wb") as f:
            f.write(data)
    except BaseException:
        traceback.print_exc()
        code = 1
    os._exit(code)


def schedule(tasks, stop, ending=()):
    """Runs the generator of (label, callable) with WORKERS children; yields results."""
    import selectors
    sel = selectors.DefaultSelector()
    running, buffers = {}, {}
    tasks = iter(tasks)
    exhausted = False
    while True:
        while not exhausted and len(running) < WORKERS and not stop():
            nxt = next(tasks, None)
            if nxt is None:
                exhausted = True
                break
            pid, r = fork_task(nxt[1])
            running[r] = (pid, nxt[0]); buffers[r] = b""
            sel.register(r, selectors.EVENT_READ)
        if not running:
            return
        for key, _ in sel.select():
            chunk = os.read(key.fd, 1 << 20)
            if chunk:
                buffers[key.fd] += chunk
                continue
            sel.unregister(key.fd); os.close(key.fd)
            pid, label = running.pop(key.fd)
            _, status = os.waitpid(pid, 0)
            data = buffers.pop(key.fd)
            if status or not data:
                yield dict(sub=label, violation=None, error=f"worker for {label} ended with status {status}",
                           evaluations=0, nontrivial=[], labels={}, samples=[], wall=0.0)
            else:
                yield json.loads(data)
            if ending:
                for pid, _ in running.values():
                    os.kill(pid, 9)
                    os.waitpid(pid, 0)
                return


def write_replay(prop_id, sub, violation, tier, seed):
    folder = VERIF / "replays"
    folder.mkdir(exist_ok=True)
    body = dict(property=prop_id, sub=sub, case=violation["case"], message=violation["message"],
                trace=violation.get("trace", ""), seed=seed, tier=tier)
    text = json.dumps(body, indent=1)
    path = folder / f"{prop_id}-{sub}-{hashlib.sha256(text.encode()).hexdigest()[:8]}.json"
    path.write_text(text)
    return path


def replay(path):
    body = json.loads(pathlib.Path(path).resolve().read_text())
    prop, _ = load(body["property"])
    from . import core
    sub = next(s for s in prop.subs if s.name == body["sub"])
    try:
        core.run_case(sub, body["case"], core.Ctx())
    except Exception as exc:
        if isinstance(exc, core.HARNESS_ERRORS) and not core.raised_by_artist(exc):
            raise
        traceback.print_exc()
        print(f"{body['property']}/{sub.name}: {core.describe(exc)}")
        print(f"VIOLATION property={body['property']} replay={path}")
        return 1
    print(f"{body['property']}/{sub.name}: the property holds for this case")
    return 0


def decide(prop_id, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    prop, _ = load(prop_id)
    from . import core
    only = os.environ.get("PBT_ONLY")
    subs = [s for s in prop.subs if not only or s.name in only.split(",")]
    budget = float(os.environ.get("PBT_BUDGET_S", "420")) if tier == "thorough" else 1e9
    scale = float(os.environ.get("PBT_SCALE", "1"))

    def tasks():
        r = 0
        while True:
            any_left = False
            for s in sorted(subs, key=lambda s: -s.shards):
                if r >= s.rounds:
                    continue
                any_left = True
                n = max(1, round(s.quick * scale * (2 if tier == "thorough" else 1) / s.shards))
                for k in range(s.shards):
                    tag = f"{seed}|{k}|{r}"
                    yield s.name, (lambda s=s, n=n, tag=tag: core.run_sub(prop_id, s, n, tag))
            r += 1
            if tier == "quick" or not any_left:
                return

    results, halted, ending = [], [], []

    def stop():
        return bool(halted) or time.time() - t0 > budget

    for res in schedule(tasks(), stop, ending):
        results.append(res)
        if res["violation"] or res["error"]:
            halted.append(res)
            if core.FAST and res["violation"]:
                ending.append(True)

    # known findings: replay each of them, in this order, in a child of its own.
    known_lines = []
    for k in known_findings(prop_id):
        sub = next(s for s in prop.subs if s.name == k["sub"])
        case = json.loads((VERIF / k["case"]).read_text())["case"]

        def task(sub=sub, case=case):
            try:
                core.run_case(sub, case, core.Ctx())
            except core.HARNESS_ERRORS:
                raise
            except Exception as exc:
                return dict(message=core.describe(exc))
            return dict(message=None)

        for res in schedule([(k["sub"], task)], lambda: False):
            if res.get("message"):
                known_lines.append(f"KNOWN-FINDING: property={prop_id} {k['what']}")
            else:
                print(f"note: listed finding no longer fails: {k['what']}")

    nontrivial = set()
    labels, per_sub, samples = Counter(), {}, []
    for res in results:
        nontrivial |= {f"{res['sub']}:{h}" for h in res["nontrivial"]}
        for l, c in res["labels"].items():
            labels[f"{res['sub']}: {l}"] += c
        d = per_sub.setdefault(res["sub"], dict(evaluations=0, nontrivial=0, cpu_s=0.0))
        d["evaluations"] += res["evaluations"]; d["cpu_s"] = round(d["cpu_s"] + res["wall"], 2)
        if sum(1 for x in samples if x["sub"] == res["sub"]) < 2:
            samples += res["samples"][:1]
    for key in nontrivial:
        per_sub[key.split(":")[0]]["nontrivial"] += 1
    bad = [r for r in results if r["violation"]]
    errors = [r for r in results if r["error"]]
    evidence = dict(
        property=prop_id, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=sum(r["evaluations"] for r in results),
            distinct_nontrivial=len(nontrivial), rule=prop.rule,
            samples=samples[:24], sub_checks=per_sub, labels=dict(sorted(labels.items()))),
        assumptions=prop.assumptions, wall_s=round(time.time() - t0, 2), violations=len(bad))
    out = VERIF / "evidence"
    out.mkdir(exist_ok=True)
    (out / f"{prop_id}.json").write_text(json.dumps(evidence, indent=1))

    for line in known_lines:
        print(line)
    for name, d in per_sub.items():
        print(f"{prop_id}/{name}: {d['evaluations']} cases, {d['nontrivial']} distinct non-trivial, {d['cpu_s']} s")
    if bad:
        r = min(bad, key=lambda r: len(json.dumps(r["violation"]["case"])))
        path = write_replay(prop_id, r["sub"], r["violation"], tier, seed)
        print(f"{prop_id}/{r['sub']}: {r['violation']['message']}")
        print(f"VIOLATION property={prop_id} replay={path}")
        return 1
    if errors:
        for r in errors:
            print(f"ERROR in {prop_id}/{r['sub']}:\n{r['error']}", file=sys.stderr)
        return 3
    vacuous = [n for n, d in per_sub.items() if d["nontrivial"] == 0]
    if vacuous:
        print(f"ERROR: no non-trivial case in {vacuous}", file=sys.stderr)
        return 3
    print(f"{prop_id}: held on {evidence['coverage']['evaluations']} cases, {evidence['wall_s']} s")
    return 0


def main(argv):
    if argv[:1] == ["--replay"]:
        return replay(os.path.abspath(argv[1]))
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    return decide(argv[0], tier)


if __name__ == "__main__":
    try:
        code = main(sys.argv[1:])
    except Exception:
        traceback.print_exc()
        code = 3
    sys.stdout.flush()
    sys.exit(code)
