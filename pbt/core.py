"""Small engine on top of hypothesis: sub-checks, sharded execution, evidence, replay files."""
from __future__ import annotations

import dataclasses, errno, hashlib, json, math, os, signal, sys, time, traceback
from collections import Counter
from typing import Any, Callable

import numpy as np
import torch


class Violation(AssertionError):
    """The property does not hold for the current case."""


class CaseTimeout(Violation):
    """The code under test did not come back (CPU time far beyond the usual)."""


@dataclasses.dataclass
class Sub:
    name: str
    fn: Callable[[Any, "Ctx"], None]
    strategy: Any
    quick: int
    shards: int = 1
    rounds: int = 1000          # cap on thorough rounds
    cpu_limit: float = 60.0     # CPU seconds for one case before it counts as not terminating
    rule: str = ""


@dataclasses.dataclass
class Prop:
    id: str
    rule: str
    subs: list[Sub] = dataclasses.field(default_factory=list)
    assumptions: list[str] = dataclasses.field(default_factory=list)

    def sub(self, name, strategy, quick, shards=1, rounds=1000, cpu_limit=60.0):
        def deco(fn):
            self.subs.append(Sub(name, fn, strategy, quick, shards, rounds, cpu_limit))
            return fn
        return deco


class Ctx:
    """Per-case bookkeeping."""

    def __init__(self):
        self.trivial = True
        self.labels: list[str] = []

    def nontrivial(self, flag=True):
        if flag:
            self.trivial = False

    def label(self, text):
        self.labels.append(str(text))


# ---------------------------------------------------------------- oracles
def fail(message):
    raise Violation(message)


def require(cond, message):
    if not bool(cond):
        raise Violation(message)


def np64(x):
    if isinstance(x, torch.Tensor):
        return x.detach().cpu().numpy().astype(np.float64)
    return np.asarray(x, dtype=np.float64)


def close(actual, expected, what, atol=1e-6, rtol=1e-6, mask=None):
    """Elementwise |a-e| <= atol + rtol*|e|; shapes must agree; nan/inf only where expected."""
    a, e = np64(actual), np64(expected)
    if a.shape != e.shape:
        raise Violation(f"{what}: shape {a.shape} instead of {e.shape}")
    tol = np.asarray(atol) + rtol * np.abs(e)
    bad = ~(np.abs(a - e) <= tol)
    bad &= ~((a == e))
    if mask is not None:
        bad &= np.broadcast_to(np.asarray(mask, dtype=bool), bad.shape)
    if bad.any():
        idx = tuple(int(i) for i in np.argwhere(bad)[0])
        raise Violation(
            f"{what}: {int(bad.sum())}/{bad.size} differ, first at {idx}: got {a[idx]!r}, "
            f"expected {e[idx]!r} (tolerance {float(np.broadcast_to(tol, a.shape)[idx]):.3g})"
        )


def same(actual, expected, what):
    if isinstance(actual, torch.Tensor) or isinstance(expected, torch.Tensor):
        a, e = torch.as_tensor(actual), torch.as_tensor(expected)
        if a.shape != e.shape or not torch.equal(a.to(torch.float64), e.to(torch.float64)):
            raise Violation(f"{what}: got {a.tolist()!r:.300}, expected {e.tolist()!r:.300}")
    elif actual != expected:
        raise Violation(f"{what}: got {actual!r:.300}, expected {expected!r:.300}")


def raises(fn, kinds, what):
    """``fn`` must reject its input with one of ``kinds``."""
    try:
        fn()
    except kinds:
        return
    raise Violation(f"{what}: accepted instead of rejected")


def T(x, dtype=torch.float32):
    return torch.tensor(np.asarray(x), dtype=dtype)


def rng(seed):
    """Expands a drawn integer into bulk data; the integer is part of the case."""
    return np.random.default_rng(int(seed))


DEV = torch.device("cpu")
FAST = bool(os.environ.get("PBT_FAST"))      # development: stop at the first failure, do not shrink


# ---------------------------------------------------------------- running
def canonical(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"), allow_nan=True)


def _on_cpu_limit(signum, frame):
    raise CaseTimeout("no result within the CPU limit of one case (normal: well below a second)")


HARNESS_ERRORS = (MemoryError, KeyboardInterrupt, SystemExit, ImportError, OSError)


def raised_by_artist(exc):
    """File errors are the machine's unless the code under test looked for the wrong file."""
    return (isinstance(exc, OSError) and exc.errno in (None, errno.ENOENT, errno.EEXIST, errno.EISDIR, errno.ENOTDIR, errno.EBADF, errno.EINVAL)
            and any("/artist/" in f.filename for f in traceback.extract_tb(exc.__traceback__)))


def run_case(sub: Sub, case, ctx):
    """Runs one case; Violation for anything that contradicts the property."""
    torch.manual_seed(0)
    np.random.seed(0)
    signal.signal(signal.SIGVTALRM, _on_cpu_limit)
    signal.setitimer(signal.ITIMER_VIRTUAL, sub.cpu_limit)
    try:
        sub.fn(case, ctx)
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def describe(exc):
    if isinstance(exc, Violation):
        return str(exc)
    tb = traceback.extract_tb(exc.__traceback__)
    where = [f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb if "/artist/" in f.filename]
    place = where[-1] if where else f"{os.path.basename(tb[-1].filename)}:{tb[-1].lineno}"
    return f"{type(exc).__name__} on valid input at {place}: {exc}"


def run_sub(prop_id, sub: Sub, count, seed_tag):
    """Generated search for one sub-check; returns a JSON-able result."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, settings
    import hypothesis.internal.conjecture.engine as engine
    engine.MAX_SHRINKING_SECONDS = 45

    stats = dict(evaluations=0, nontrivial=set(), labels=Counter(), samples=[])
    failures: list[tuple[Any, BaseException]] = []
    seed = int.from_bytes(hashlib.sha256(f"{prop_id}|{sub.name}|{seed_tag}".encode()).digest()[:8], "big")

    @hypothesis.seed(seed)
    @settings(max_examples=count, database=None, deadline=None, print_blob=False,
              report_multiple_bugs=False, phases=(Phase.generate,) if FAST else (Phase.generate, Phase.shrink),
              suppress_health_check=list(HealthCheck))
    @hypothesis.given(case=sub.strategy)
    def test(case):
        ctx = Ctx()
        text = canonical(case)
        case = json.loads(text)     # exactly what a replay sees
        stats["evaluations"] += 1
        try:
            run_case(sub, case, ctx)
        except hypothesis.errors.HypothesisException:
            raise
        except HARNESS_ERRORS as exc:
            if raised_by_artist(exc):
                failures.append((case, exc))
            raise
        except Exception as exc:
            failures.append((case, exc))
            raise
        for l in ctx.labels:
            stats["labels"][l] += 1
        if not ctx.trivial:
            h = hashlib.sha256(text.encode()).hexdigest()[:16]
            if h not in stats["nontrivial"]:
                stats["nontrivial"].add(h)
                if len(stats["samples"]) < 2:
                    stats["samples"].append(dict(sub=sub.name, case=text[:1500]))

    result = dict(sub=sub.name, violation=None, error=None)
    t0 = time.time()
    try:
        test()
    except BaseException as exc:
        if failures and (not isinstance(exc, HARNESS_ERRORS) or raised_by_artist(exc)):
            case, e = failures[-1]
            result["violation"] = dict(case=case, message=describe(e),
                                       trace="".join(traceback.format_exception(e))[-3000:])
        else:
            result["error"] = "".join(traceback.format_exception(exc))[-3000:]
    result.update(evaluations=stats["evaluations"], nontrivial=sorted(stats["nontrivial"]),
                  labels=dict(stats["labels"]), samples=stats["samples"], wall=time.time() - t0)
    return result
