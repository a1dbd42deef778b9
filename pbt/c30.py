from hypothesis import strategies as st
import numpy as np
import torch

import artist.raytracing  # noqa: F401
from artist.optim.loss import AngleLoss, FocalSpotLoss
from artist.util.env import setup_distributed_environment

from . import c27, c28, c29, opt
from .core import DEV, Prop, T, close, fail, np64, require, same
from .gen import fl
from .ranks import Unusable, on_ranks
from .scene import group_arrays

PROP = Prop("C30", "several ranks of which at least two have work, and the single process finds something else than it started with",
            assumptions=["ranks are processes on one machine that talk gloo over the loopback network",
                         "the light source has next to no extent (ranks draw different rays)",
                         "aim points: motor positions of several ranks and of one are compared after one step where heliostats block each other (next to no gradient makes full steps)"])


def within(world, groups, work, case):
    """Results of ``work(case, setup)`` on all ranks, and in a single process."""
    return on_ranks(world, distributed, work, groups, case, what=f"{groups} groups on "), on_ranks(1, work, case, None)[0]


def distributed(work, groups, case):
    with setup_distributed_environment(number_of_heliostat_groups=groups, device=torch.device("cpu")) as d:
        if not d["is_distributed"]:
            raise Unusable("no process group")
        return work(case, d)


def busy(case, world, groups, masks):
    """Ranks with samples."""
    if world <= groups:
        return min(world, sum(1 for m in masks if any(m)))
    return sum(min(sum(1 for x in m if x), world // groups + (i < world % groups)) for i, m in enumerate(masks))


def plain(history):
    return [[{k: (v if isinstance(v, list) else {q: np64(w).tolist() for q, w in v.items()}) for k, v in g.items()} for g in r] for r in history]


def agree(out, what):
    """All ranks return the same."""
    for r, o in enumerate(out[1:], 1):
        for k in out[0]:
            a, b = out[0][k], o[k]
            if k == "history":
                same(repr(b), repr(a), f"{what}: loss histories on rank {r} and rank 0")
                continue
            for i, (x, y) in enumerate(zip(a, b)):
                require(x.shape == y.shape and np.array_equal(x, y, equal_nan=True), f"{what}: {k} of group {i} on ranks 0 and {r} differ: {x} and {y}")


def kinematics(case, ddp, method):
    truth, start, g = c27.true_and_initial(case)
    data = c27.measure(case, truth, g)
    if method == c27.TRACE:
        real = opt.plant(truth, case["specs"], case["planes"], case["cylinders"])
        for i, (m, d) in enumerate(zip(case["masks"], data)):
            if any(m):
                d["flux"] = opt.trace(real, i, m, d["motors"], d["inc"], d["index"], case["res"], 50, case["dni"])[0] + 1e-3
    sc, final, history = c27.run(case, start, data, method, (lambda s: FocalSpotLoss(scenario=s)) if method == c27.TRACE else (lambda s: AngleLoss()), ddp=ddp)
    return dict(parameters=[np64(x) for x in c27.deviations(sc)], final=[final], history=plain(history),
                start=[np64(T(a["kinematics_rotation_deviation_parameters"])) for a in start])


def by_alignment(case, ddp):
    return kinematics(case, ddp, c27.ALIGN)


def by_flux(case, ddp):
    return kinematics(case, ddp, c27.TRACE)


def surfaces(case, ddp):
    _, data = c28.measured(case)
    start = c28.arrays(case)
    sc, final, history = c28.run(case, start, data, ddp)
    groups = sc.heliostat_field.heliostat_groups
    return dict(parameters=[np64(g.nurbs_control_points.detach()) for g in groups], points=[np64(g.surface_points) for g in groups],
                normals=[np64(g.surface_normals) for g in groups], final=[final], history=plain(history),
                start=[np64(T(a["nurbs_control_points"])) for a in start])


def compare(case, world, work, ctx, what, rate, flux=True):
    groups, masks = len(case["specs"]), case["masks"]
    out, alone = within(world, groups, work, case)
    agree(out, what)
    nested = world > groups
    got = out[0]
    same(np.isinf(got["final"][0]).tolist(), np.isinf(alone["final"][0]).tolist(), f"{what}: heliostats without a loss")
    slack = 0.25 * case["lr"] * (case["epochs"] + 1) if nested and flux else 1e-7
    for k in ("parameters", "points"):
        for i, (a, b) in enumerate(zip(got.get(k, []), alone.get(k, []))):
            if not nested or not flux:
                require(np.array_equal(a, b), f"{what}: {k} of group {i} found by {world} ranks and by one differ by {np.abs(a - b).max()}")
            elif k == "parameters" and min(h["total_loss"][0] for h in alone["history"][0]) > 0.02:
                # Adam turns next to no gradient into a full step: some parameters may differ
                d = np.abs(a - b)[..., 2] if a.ndim == 5 else np.abs(a - b)
                d = np.sort(d.ravel())[: int(rate * d.size) or 1]
                require(d.max() <= slack, f"{what}: {k} of group {i} found by {world} ranks and by one differ by {d.max()}, learning rate {case['lr']}")
    # histories: each group once per rank that has it
    owners = {}
    for r in range(world):
        for g in ([r % groups] if nested else [g for g in range(groups) if g % world == r]):
            owners.setdefault(g, []).append(r)
    mine, theirs = got["history"], iter(alone["history"][0])
    require(len(mine) == world, f"{what}: histories of {len(mine)} ranks")
    per_group = {g: next(theirs) for g in range(groups) if any(masks[g])}
    require(sum(map(len, mine)) == sum(len(o) for g, o in owners.items() if any(masks[g])), f"{what}: histories of {[len(x) for x in mine]} groups")
    first = {round(h["total_loss"][0], 9) for h in per_group.values()}
    for h in (h for r in mine for h in r):
        want = min(per_group.values(), key=lambda w: abs(w["total_loss"][0] - h["total_loss"][0]))
        if not nested or not flux:
            require(h in per_group.values(), f"{what}: loss history {h} is none of {per_group}")
        else:
            close(h["total_loss"][0], want["total_loss"][0], f"{what}: loss of the first epoch on one of {world} ranks and alone", atol=2e-3, rtol=5e-3)
            require(len(h["total_loss"]) == len(want["total_loss"]) or len(first) > 1, f"{what}: {len(h['total_loss'])} epochs and alone {len(want['total_loss'])}")
    n = busy(case, world, groups, masks)
    ctx.label(f"{what}: {'nested' if nested else 'not nested'}, {'idle ranks' if n < world else 'all busy'}")
    ctx.nontrivial(n > 1 and any((a != b).any() for a, b in zip(alone["parameters"], alone["start"])))


@st.composite
def more(draw, cases):
    """The same with up to three groups and up to five ranks."""
    groups = draw(st.sampled_from([1, 2, 2, 3]))
    case = draw(cases((groups, groups)))
    return case | dict(epochs=min(case["epochs"], 3)), draw(st.sampled_from([2, 2, 3, 4, 5]))


@PROP.sub("alignment", more(lambda n: c27.cases(c27.ALIGN, n)), quick=30, shards=2)
def alignment(case, ctx):
    compare(*case, by_alignment, ctx, "alignment", 1.0, flux=False)


@PROP.sub("flux", more(lambda n: c27.cases(c27.TRACE, n)), quick=30, shards=2)
def flux(case, ctx):
    compare(*case, by_flux, ctx, "flux", 0.8)


@PROP.sub("surface", more(c28.cases), quick=30, shards=2)
def surface(case, ctx):
    compare(*case, surfaces, ctx, "surface", 0.6)


@st.composite
def sparse(draw):
    case = draw(c29.cases())
    for i, s in enumerate(case["specs"]):
        s["positions"] = [[(j - 1) * 25.0 + 8.0 * i, 30.0 + 25 * j, 0.0] for j in range(min(len(s["positions"]), 3))]
    case["planes"] = [dict(p, center=[p["center"][0], 0.0, 60.0]) for p in case["planes"]]
    case["cylinders"] = [dict(p, center=[p["center"][0], 0.0, 60.0]) for p in case["cylinders"]]
    return case | dict(rays=1, cov=1e-16, epochs=min(case["epochs"], 2)), draw(st.sampled_from([2, 2, 3, 4, 5]))


def aims(case, ddp):
    start = c29.aligned(c29.build(case), case)
    goal = c29.desired(case, start)
    res = c29.run(case, goal, 20 * case["dni"], case["epochs"], ddp)
    return dict(motors=[np64(m) for m in res["motors"]], fractions=res["fractions"], final=[np.array(res["final"])], history=res["history"],
                start=[np64(m) for m in start])


@PROP.sub("aim", sparse(), quick=30, shards=2)
def aim(case, ctx):
    case, world = case
    groups = len(case["specs"])
    out, alone = within(world, groups, aims, case)
    got = out[0]
    for r, o in enumerate(out):
        for k in ("motors", "fractions", "final"):
            require(all(np.array_equal(a, b, equal_nan=True) for a, b in zip(o[k], got[k])), f"{k} on ranks 0 and {r} differ: {got[k]} and {o[k]}")
        same(repr(o["history"]), repr(got["history"]), f"history on rank {r} and rank 0")
        for k, v in alone["history"].items():
            close(o["history"][k][:1], v[:1], f"{k} of the first epoch on rank {r}", atol=2e-4 if k != "flux_integral" else 2e-2, rtol=5e-3)
    # the last epoch belongs to the motor positions found
    start = c29.aligned(c29.build(case), case)
    goal = c29.desired(case, start)
    flux, *fractions = c29.traced(case, [T(m) for m in got["motors"]])
    for k, name in enumerate(("intercept", "on target", "blocking")):
        close(got["fractions"][k], fractions[k], f"{name} factors", atol=1e-5)
    if flux.sum() > 1e-2 * np64(goal).sum():
        close(got["history"]["flux_loss"][-1], c29.evaluate(case, flux, goal), "loss of the last epoch", atol=2e-4, rtol=5e-3)
    for g, (a, b, s) in enumerate(zip(got["motors"], alone["motors"], alone["start"])):
        # Adam turns next to no gradient into a full step: some motors may go elsewhere
        close(np.median(np.abs(a - b)), 0 * a[0, 0], f"motors of group {g} of {world} ranks and of one", atol=0.1 * np.abs(b - s).max() + 1e-4)
        require(bool((np.abs(a - s) <= 1.05 * np.maximum(np.abs(b - s).max(1, keepdims=True), 0) + np.abs(b - s).max() * 0.5 + 1e-4).all()),
                f"motors of group {g} move by {a - s} on {world} ranks and by {b - s} alone")
    masks = [[1] * len(s["positions"]) for s in case["specs"]]
    n = busy(case, world, groups, masks)
    ctx.label(f"aim: {'nested' if world > groups else 'not nested'}, {'idle ranks' if n < world else 'all busy'}")
    ctx.nontrivial(n > 1 and any((a != b).any() for a, b in zip(alone["motors"], alone["start"])))


@st.composite
def packed(draw):
    """Two or three groups of heliostats that stand in each other's light and move a lot, on at most as many ranks as groups."""
    case = draw(c29.cases().filter(lambda c: len(c["specs"]) > 1))
    return case | dict(rays=1, cov=1e-16, lr=draw(st.sampled_from([1e-3, 3e-3, 1e-2] if any(x["kind"] == "ideal" for x in case["specs"]) else [1e-2, 3e-2, 0.1])), epochs=draw(st.integers(1, 3)), scheduler="exponential", tolerance=1e-12,
                       batch=100), draw(st.integers(2, len(case["specs"])))


@PROP.sub("aim_blocked", packed(), quick=30, shards=2)
def aim_blocked(case, ctx):
    """Every rank knows how the heliostats of the other ranks have moved when these block light."""
    case, world = case
    out, alone = within(world, len(case["specs"]), aims, case)
    got = out[0]
    for r, o in enumerate(out):
        for k in ("motors", "fractions", "final"):
            require(all(np.array_equal(a, b, equal_nan=True) for a, b in zip(o[k], got[k])), f"{k} on ranks 0 and {r} differ: {got[k]} and {o[k]}")
    start = c29.aligned(c29.build(case), case)
    # the last epoch belongs to the motor positions found
    flux, *fractions = c29.traced(case, [T(m) for m in got["motors"]])
    for k, name in enumerate(("intercept", "on target", "blocking")):
        close(got["fractions"][k], fractions[k], f"{name} factors of {world} ranks and of their motor positions", atol=1e-5)
    goal = c29.desired(case, start)
    if flux.sum() > 1e-2 * np64(goal).sum():
        close(got["history"]["flux_loss"][-1], c29.evaluate(case, flux, goal), "loss of the last epoch", atol=2e-4, rtol=5e-3)
    # once a heliostat has lost the receiver, next to no gradient makes full steps: the first step is comparable
    lit = case["epochs"] == 1 and c29.traced(case, start)[2].min() > 0.05
    for g, (a, b, s) in enumerate(zip(got["motors"], alone["motors"], alone["start"])):
        if lit:
            close(np.median(np.abs(a - b)), 0 * a[0, 0], f"motors of group {g} of {world} ranks and of one", atol=0.1 * np.abs(b - s).max() + 1e-4)
    moved = c29.traced(case, [T(m) if g else s for g, (m, s) in enumerate(zip(got["motors"], start))])[3]
    n = len(start[0])
    ctx.label("blockers of other ranks matter" if np.abs(moved[n:] - fractions[2][n:]).max() > 1e-4 else "no blockers of other ranks")
    ctx.nontrivial(bool((fractions[2] < 1).any()) and any((a != b).any() for a, b in zip(alone["motors"], alone["start"])))
