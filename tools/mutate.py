"""Mutation campaign (development aid): python3 tools/mutate.py FILE_GLOB[,..] COUNT SEED [JOBS]   results -> /tmp/w/mut/*.jsonl
    python3 tools/mutate.py again FILE_GLOB JOBS    repeats the survivors

Random small edits of artist/*.py; each runs the checks listed for its file (no shrinking) until one reports a violation.
Survivors are read by hand: equivalent, outside the stated domain, or a gap in the checks."""
import ast, concurrent.futures as cf, fnmatch, json, os, pathlib, random, re, shutil, subprocess, sys, time

V = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get("MUT_REPO", "/tmp/dev/repo"))
CHECKS = {
    "raytracing/geometry.py": "C01 C02 C03 C05", "raytracing/heliostat_ray_tracer.py": "C05 C06 C04 C10 C08 C35", "raytracing/blocking.py": "C08 C09 C10 C35",
    "raytracing/sampling.py": "C23 C06 C07", "nurbs/surfaces.py": "C11 C31 C32", "nurbs/utils.py": "C11 C28", "geometry/rotations.py": "C13 C07",
    "geometry/transforms.py": "C13 C12 C20 C31", "geometry/coordinates.py": "C14 C03", "field/actuators_ideal.py": "C15 C16", "field/actuators_linear.py": "C15 C16",
    "field/actuators.py": "C15 C18", "field/kinematics_rigid_body.py": "C16 C17 C18 C32", "field/kinematics.py": "C18 C16", "field/heliostat_group.py": "C18 C17",
    "field/heliostat_group_rigid_body.py": "C16 C17 C18", "field/heliostat_field.py": "C20 C31 C18", "field/surface.py": "C31 C20", "field/solar_tower.py": "C03 C19 C20",
    "field/tower_target_areas*.py": "C20 C19 C03", "scene/*.py": "C07 C20", "flux/bitmap.py": "C22", "scenario/scenario.py": "C19 C20 C21 C05",
    "scenario/h5_scenario_generator.py": "C20", "scenario/surface_generator.py": "C26 C31", "io/h5_scenario_parser.py": "C20", "io/*.py": "C21", "optim/loss.py": "C24",
    "optim/regularizers.py": "C24", "optim/training.py": "C25 C30 C33", "optim/kinematics_reconstructor.py": "C27 C33 C30", "optim/surface_reconstructor.py": "C28 C33 C30",
    "optim/aim_point_optimizer.py": "C29 C33 C30", "util/env.py": "C23 C30", "util/config.py": "C20", "util/__init__.py": "C36"}
SWAP = [("_u", "_e"), ("_e", "_u"), ("width", "height"), ("height", "width"), ("low", "high"), ("high", "low"), ("start", "end"), ("end", "start"), ("first", "second"),
        ("second", "first"), ("planar", "cylindrical"), ("east", "north"), ("north", "up"), ("up", "east"), ("min", "max"), ("max", "min"), ("sin", "cos"), ("cos", "sin"),
        ("all", "any"), ("any", "all"), ("sum", "mean"), ("mean", "sum"), ("ceil", "floor"), ("floor", "ceil"), ("zeros", "ones"), ("argmin", "argmax"), ("1", "2"), ("2", "1"),
        ("lower", "upper"), ("upper", "lower"), ("train", "test"), ("test", "train"), ("u", "e"), ("e", "n"), ("n", "u"), ("x", "y"), ("y", "z"), ("intersection", "union"),
        ("normals", "points"), ("points", "normals"), ("clone", "detach"), ("initial", "final"), ("row", "column"), ("in", "out"), ("minimum", "maximum"), ("maximum", "minimum")]
CMP = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!="}
BIN = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.BitAnd: "&", ast.BitOr: "|", ast.FloorDiv: "//", ast.Mod: "%"}
ALT = {"<": ["<=", ">"], "<=": ["<"], ">": [">=", "<"], ">=": [">"], "==": ["!="], "!=": ["=="], "+": ["-"], "-": ["+"], "*": ["/"], "/": ["*"], "&": ["|"], "|": ["&"],
       "//": ["*"], "%": ["*"]}


def sites(path):
    src = path.read_text()
    lines = src.splitlines(keepends=True)
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()))
    b = src.encode()
    pos = lambda ln, col: offs[ln - 1] + col
    seg = lambda n: (pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset))
    out = []
    tree = ast.parse(src)
    skip = []
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(getattr(n.body[0], "value", None), ast.Constant):
            skip.append(seg(n.body[0]))
        if isinstance(n, ast.FunctionDef):
            for a in [n.returns] + [x.annotation for x in n.args.args + n.args.kwonlyargs]:
                if a is not None:
                    skip.append(seg(a))
        if isinstance(n, ast.AnnAssign):
            skip.append(seg(n.annotation))
        if isinstance(n, (ast.Import, ast.ImportFrom, ast.Raise)):
            skip.append(seg(n))
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and ast.unparse(n.value.func).startswith(("log.", "warnings.", "logging.")):
            skip.append(seg(n))
    def add(lo, hi, new, kind):
        if not any(a <= lo and hi <= c for a, c in skip):
            out.append((lo, hi, new, kind))
    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            lo, hi = seg(n.left)[1], seg(n.comparators[0])[0]
            op = CMP[type(n.ops[0])]
            t = b[lo:hi].decode()
            for a in ALT[op]:
                add(lo, hi, t.replace(op, a), "cmp")
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            lo, hi = seg(n.left)[1], seg(n.right)[0]
            op = BIN[type(n.op)]
            t = b[lo:hi].decode()
            if t.count(op) == 1:
                for a in ALT[op]:
                    add(lo, hi, t.replace(op, a), "bin")
            lo, hi = seg(n)
            add(lo, hi, "(" + b[slice(*seg(n.left))].decode() + ")", "dropright")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Invert, ast.Not)):
            add(seg(n)[0], seg(n.operand)[0], "", "unary")
        if isinstance(n, ast.Constant) and type(n.value) in (int, float):
            lo, hi = seg(n)
            if type(n.value) is int:
                add(lo, hi, str(n.value + 1), "const"); add(lo, hi, str(n.value - 1), "const")
            else:
                add(lo, hi, repr((n.value * 1e4 if abs(n.value) < 1e-3 else n.value * 1.5) if n.value else 0.5), "const")
        if isinstance(n, ast.Constant) and type(n.value) is bool:
            add(*seg(n), str(not n.value), "bool")
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            if not isinstance(n, ast.While):
                add(*seg(n.test), "True", "iftrue")
            add(*seg(n.test), "False", "iffalse")
        if isinstance(n, ast.Attribute) and ast.unparse(n.value) == "indices" or isinstance(n, (ast.Name, ast.Attribute)):
            lo, hi = seg(n)
            word = n.id if isinstance(n, ast.Name) else n.attr
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                continue
            lo = hi - len(word.encode())
            parts = word.split("_")
            for x, y in SWAP:
                x, y = x.strip("_"), y.strip("_")
                for i, p in enumerate(parts):
                    if p == x:
                        new = "_".join(parts[:i] + [y] + parts[i + 1:])
                        if new in ("sum", "mean", "all", "any", "min", "max", "sin", "cos", "ceil", "floor", "zeros", "ones", "detach", "clone") or re.search(rf"\b{new}\b", src) or \
                                re.search(rf"^{new}\b", IND, re.M):
                            add(lo, hi, new, "name")
        if isinstance(n, (ast.AugAssign, ast.Expr)) or (isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Subscript, ast.Attribute))):
            add(*seg(n), "pass", "delete")
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("clone", "detach", "clamp", "abs", "flip", "squeeze", "contiguous"):
            add(*seg(n), b[slice(*seg(n.func.value))].decode(), "dropcall")
    uniq = {}
    for o in out:
        uniq[o[:3]] = o
    return b, sorted(uniq.values())


IND = (REPO / "artist/util/indices.py").read_text()
OUT = pathlib.Path("/tmp/w/mut"); OUT.mkdir(parents=True, exist_ok=True)


def run(job):
    rel, (lo, hi, new, kind), checks, num = job
    d = pathlib.Path("/tmp/mut") / f"{os.getpid()}-{num}"
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(REPO / "artist", d / "artist", ignore=shutil.ignore_patterns("__pycache__"))
    os.symlink(REPO / "tests", d / "tests")
    p = d / "artist" / rel
    b = p.read_bytes()
    line = b[:lo].count(b"\n") + 1
    p.write_bytes(b[:lo] + new.encode() + b[hi:])
    rec = dict(file=rel, line=line, kind=kind, old=b[lo:hi].decode(), new=new, text=b.splitlines()[line - 1].decode().strip(), lo=lo, hi=hi)
    t0 = time.time()
    try:
        compile(p.read_text(), "x", "exec")
    except SyntaxError:
        rec["result"] = "SYNTAX"; shutil.rmtree(d); return rec
    rec["result"] = "SURVIVED"
    for c in checks:
        r = subprocess.run(["./run.sh", c, "quick"], cwd=V, env=dict(os.environ, PBT_REPO=str(d), PBT_FAST="1", PBT_WORKERS=os.environ.get("MUT_WORKERS", "1")), capture_output=True, text=True)
        if r.returncode == 1 and "VIOLATION" in r.stdout:
            rec["result"] = "CAUGHT " + c
            break
        if r.returncode != 0:
            rec["result"] = f"ERROR {c} {r.returncode} " + (r.stdout + r.stderr)[-300:]
            break
    rec["s"] = round(time.time() - t0)
    shutil.rmtree(d)
    return rec


def again(glob, jobs):
    last = {}
    for q in sorted(OUT.glob("*.jsonl"), key=lambda q: q.stat().st_mtime):
        for l in q.read_text().splitlines():
            r = json.loads(l)
            last[r["file"], r["lo"], r["hi"], r["new"]] = r
    todo = [r for k, r in sorted(last.items()) if r["result"] == "SURVIVED" and fnmatch.fnmatch(r["file"], glob)]
    work = [(r["file"], (r["lo"], r["hi"], r["new"], r["kind"]), next(c for k, c in CHECKS.items() if fnmatch.fnmatch(r["file"], k)).split(), 10**6 + i) for i, r in enumerate(todo)]
    print(len(work), "survivors", flush=True)
    with cf.ThreadPoolExecutor(jobs) as ex, open(OUT / f"again-{int(time.time())}.jsonl", "a") as f:
        for rec in ex.map(run, work):
            f.write(json.dumps(rec) + "\n"); f.flush()
            print(rec["result"][:60], rec["file"], rec["line"], rec["kind"], repr(rec["old"][:60]), "->", repr(rec["new"][:60]), "|", rec["text"][:100], rec.get("s"), flush=True)


if __name__ == "__main__":
    if sys.argv[1] == "again":
        again(sys.argv[2], int(sys.argv[3]))
        sys.exit()
    globs, count, seed = sys.argv[1].split(","), int(sys.argv[2]), int(sys.argv[3])
    jobs = int(sys.argv[4]) if len(sys.argv) > 4 else 4
    R = random.Random(seed)
    pool = []
    for g in globs:
        for f in sorted((REPO / "artist").glob(g)):
            rel = str(f.relative_to(REPO / "artist"))
            ch = next((c for k, c in CHECKS.items() if fnmatch.fnmatch(rel, k)), None)
            if ch:
                pool += [(rel, s, ch.split()) for s in sites(f)[1]]
    print(len(pool), "sites", flush=True)
    done = set()
    for q in OUT.glob("*.jsonl"):
        for l in q.read_text().splitlines():
            r = json.loads(l); done.add((r["file"], r["lo"], r["hi"], r["new"]))
    pool = [p for p in pool if (p[0], *p[1][:3]) not in done]
    # spread over lines: at most one pick per (file, line) before a second
    R.shuffle(pool)
    import itertools
    seen, first, rest = set(), [], []
    for p in pool:
        b = (REPO / "artist" / p[0]).read_bytes()
        k = (p[0], b[:p[1][0]].count(b"\n"))
        (rest if k in seen else first).append(p); seen.add(k)
    picks = (first + rest)[:count]
    log = OUT / f"{sys.argv[1].replace('/', '_').replace('*', '+').replace(',', '-')[:80]}-{seed}.jsonl"
    with cf.ThreadPoolExecutor(jobs) as ex, open(log, "a") as f:
        for rec in ex.map(run, [(*p, i) for i, p in enumerate(picks)]):
            f.write(json.dumps(rec) + "\n"); f.flush()
            if not rec["result"].startswith("CAUGHT"):
                print(rec["result"][:60], rec["file"], rec["line"], rec["kind"], repr(rec["old"][:60]), "->", repr(rec["new"][:60]), "|", rec["text"][:100], rec.get("s"), flush=True)
    print("done", time.ctime())
