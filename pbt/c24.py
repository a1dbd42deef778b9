from functools import partial

from hypothesis import strategies as st
import numpy as np
import torch

import artist.raytracing  # noqa: F401
from artist.optim.loss import (AngleLoss, CosineSimilarityLoss, FocalSpotLoss, KLDivergenceLoss, PixelLoss, VectorLoss,
                               reduce_loss_per_sample)
from artist.optim.regularizers import IdealSurfaceRegularizer, SmoothnessRegularizer

from .c22 import image, mean_pixel
from .core import DEV, Prop, T, close, np64, raises, require, rng
from .gen import fl, seeds, unit
from .refs import receiver_point
from .scene import cylinder_spec, field_plane, scenario, spec32

PROP = Prop("C24", "at least two different samples whose loss is clearly above zero; control points that really moved",
            assumptions=["Measured images carry energy (a dark image has no relative pixel loss)."])


def judge(loss, p, t, want, kw, what, atol, rtol=1e-4, per=(), zero_atol=None):
    """Formula, sign, zero, and independence of the other samples."""
    before = p.clone(), t.clone()
    out = loss(p, t, **kw)
    require(torch.equal(p, before[0]) and torch.equal(t, before[1]), f"{what}: the arguments are changed")
    require(tuple(out.shape) == np.shape(want), f"{what}: shape {tuple(out.shape)}")
    close(out, want, what, atol=atol, rtol=rtol)
    require(bool((out >= -np.max(atol)).all()), f"{what}: negative {out}")
    z = loss(t.clone(), t, **kw)
    close(z, np.zeros(np.shape(want)), f"{what} of the truth itself", atol=atol if zero_atol is None else zero_atol)
    n = p.shape[0]
    cut = lambda rows: {k: (v[rows] if k in per else v) for k, v in kw.items()}
    for k in range(n):
        close(loss(p[k:k + 1], t[k:k + 1], **cut(slice(k, k + 1)))[0], np64(out[k]), f"{what} of sample {k} alone", atol=atol, rtol=rtol)
    rows = torch.arange(n - 1, -1, -1)
    close(loss(p[rows], t[rows], **cut(rows)), np64(out)[::-1], f"{what} in reversed order", atol=atol, rtol=rtol)
    return np64(out)


@st.composite
def vectors(draw):
    return dict(n=draw(st.integers(1, 6)), inner=draw(st.sampled_from([(3,), (4,), (2, 3), (5, 4)])), seed=draw(seeds),
                scale=draw(st.sampled_from([1e-3, 1.0, 100.0])), near=draw(st.sampled_from([0.0, 1e-3, 1.0])))


@PROP.sub("vector_and_direction", vectors(), quick=300)
def vector_and_direction(case, ctx):
    g = rng(case["seed"])
    t = g.normal(size=(case["n"], *case["inner"])) * case["scale"]
    p = t + g.normal(size=t.shape) * case["scale"] * case["near"]
    P, Q = T(p), T(t)
    p, t = np64(P), np64(Q)
    dims = tuple(range(1, p.ndim))
    o = judge(VectorLoss(), P, Q, ((p - t) ** 2).sum(dims), dict(reduction_dimensions=dims), "vector loss", atol=1e-6 * case["scale"] ** 2)
    raises(lambda: VectorLoss()(P, Q), (ValueError,), "vector loss without reduction dimensions")
    if p.ndim > 2:
        judge(VectorLoss(), P, Q, ((p - t) ** 2).sum(2), dict(reduction_dimensions=(2,)), "vector loss over the last dimension",
              atol=1e-6 * case["scale"] ** 2)
    # directions in homogeneous coordinates
    a, b = g.normal(size=(case["n"], 3)), g.normal(size=(case["n"], 3))
    kind = g.integers(0, 4, case["n"])
    b[kind == 1] = a[kind == 1]
    b[kind == 2] = -a[kind == 2]
    b[kind == 3] = a[kind == 3] + 1e-2 * b[kind == 3]
    a, b = a * g.uniform(0.1, 30, (case["n"], 1)), b * g.uniform(0.1, 30, (case["n"], 1))
    A, B = T(np.pad(a, ((0, 0), (0, 1)))), T(np.pad(b, ((0, 0), (0, 1))))
    a, b = unit(np64(A)[:, :3]), unit(np64(B)[:, :3])
    angle = np.arctan2(np.linalg.norm(np.cross(a, b), axis=1), (a * b).sum(1))
    judge(AngleLoss(), A, B, angle, {}, "angle", atol=2e-6 / np.maximum(np.sin(angle), 2e-6 ** 0.5) + 1e-6, zero_atol=2e-3)
    judge(CosineSimilarityLoss(), A, B, 1 - (a * b).sum(1), {}, "cosine distance", atol=2e-6)
    if (g.random() < 0.5):
        lifted = A.clone()
        lifted[:, 3] = 1.0
        close(AngleLoss()(lifted, B), angle, "angle ignores the fourth coordinate", atol=2e-6 / np.maximum(np.sin(angle), 2e-6 ** 0.5) + 1e-6)
    ctx.nontrivial(case["n"] > 1 and case["near"] > 0 and (o > 0).sum() > 1)


@st.composite
def pictures(draw):
    p, c = draw(st.lists(field_plane(), min_size=1, max_size=2)), draw(st.lists(cylinder_spec(), min_size=0, max_size=2))
    n = draw(st.integers(1, 5))
    styles = st.sampled_from(["noise", "sparse", "one", "blob", "corner", "ramp"])
    return dict(planes=p, cylinders=c, target=[draw(st.integers(0, len(p) + len(c) - 1)) for _ in range(n)],
                prediction=[draw(styles | st.just("empty")) for _ in range(n)], truth=[draw(styles) for _ in range(n)],
                H=draw(st.integers(2, 24)), W=draw(st.integers(2, 24)), scale=[draw(st.sampled_from([1.0, 50.0, 2e3])) for _ in range(2)],
                seed=draw(seeds))


def kl(p, t):
    p, t = [x / np.maximum(np.abs(x).sum((1, 2), keepdims=True), 1e-12) + 1e-12 for x in (p, t)]
    return t * (np.log(t) - np.log(p))


@PROP.sub("flux", pictures(), quick=300, shards=2)
def flux(case, ctx):
    g = rng(case["seed"])
    H, W = case["H"], case["W"]
    P, Q = [T(np.stack([image(s, H, W, g) for s in case[k]]) * f + (1e-30 if k == "empty" else 0))
            for k, f in zip(("prediction", "truth"), case["scale"])]
    p, t = np64(P), np64(Q)
    ok = t.sum((1, 2)) > 0.1
    if not ok.any():
        return
    P, Q, p, t = P[torch.tensor(ok)], Q[torch.tensor(ok)], p[ok], t[ok]
    index = torch.tensor(case["target"])[torch.tensor(ok)]
    n = len(p)
    dims = dict(reduction_dimensions=(1, 2))
    want = ((p - t) ** 2).sum((1, 2)) / t.sum((1, 2))
    a = judge(PixelLoss(), P, Q, want, dims, "pixel loss", atol=1e-6 * (1 + want.max()))
    k = kl(p, t)
    b = judge(KLDivergenceLoss(), P, Q, k.sum((1, 2)), dims, "Kullback-Leibler divergence", atol=3e-5)
    # only the shapes count, however bright the images are
    lit = p.sum((1, 2)) > 0.1
    f, h = float(g.uniform(0.2, 20)), float(g.uniform(0.2, 20))
    close(KLDivergenceLoss()(P * f, Q * h, **dims), k.sum((1, 2)), "divergence of brighter images", atol=3e-5, mask=lit)
    close(PixelLoss()(P * f, Q * f, **dims), want * f, "pixel loss of equally brighter images", rtol=1e-4, atol=1e-6 * (1 + want.max()))
    for loss in (PixelLoss(), KLDivergenceLoss()):
        raises(lambda: loss(P, Q), (ValueError,), "flux loss without reduction dimensions")
    # focal spots
    sc = scenario([dict(kind="ideal", positions=[[0.0, 50.0, 0.0]], half=[1.0, 1.0], facets=1, side=1, cant=0.0, bump=0.0, deviation=0.0,
                        seed=0)], case["planes"], case["cylinders"])
    planes, cyls = [spec32(s) for s in case["planes"]], [spec32(s) for s in case["cylinders"]]
    spots = []
    for x in (p, t):
        com, lit_x = mean_pixel(x)
        spots.append(np.array([receiver_point(planes, cyls, i, (c[0] + 0.5) / W, (c[1] + 0.5) / H) for i, c in zip(index.tolist(), com)]))
    size = max([max(s["width"], s["height"]) for s in planes] + [s["radius"] * s["opening"] + s["height"] for s in cyls])
    want = np.linalg.norm(spots[0] - spots[1], axis=1)
    fs = FocalSpotLoss(scenario=sc)
    kw = dict(target_area_indices=index[torch.tensor(lit)], device=DEV)
    if lit.any():
        L = torch.tensor(lit)
        c = judge(fs, P[L], Q[L], want[lit], kw, "focal spot distance", atol=2e-4 * (1 + size), per=("target_area_indices",), zero_atol=1e-6)
        raises(lambda: fs(P, Q, device=DEV), (ValueError,), "focal spot loss without target areas")
        raises(lambda: fs(P, Q, target_area_indices=index), (ValueError,), "focal spot loss without device")
        ctx.nontrivial(n > 1 and (a > 1e-3).sum() > 1 and (b > 1e-3).sum() > 1 and (c > 0.05).sum() > 1 and H != W)
    ctx.label("cylinder" if any(i >= len(planes) for i in index.tolist()) else "flat only")


@st.composite
def reduction_case(draw):
    return dict(heliostats=draw(st.integers(1, 6)), samples=draw(st.integers(1, 6)), rest=draw(st.integers(0, 5)),
                kind=draw(st.sampled_from(["mean", "sum", "median", "max", "min"])), seed=draw(seeds))


@PROP.sub("per_heliostat", reduction_case(), quick=250)
def per_heliostat(case, ctx):
    n, k = case["heliostats"], case["samples"]
    x = T(rng(case["seed"]).random(n * k + min(case["rest"], k - 1)))
    out = reduce_loss_per_sample(x, k, partial(getattr(torch, case["kind"]), dim=-1))
    v = np.sort(np64(x)[:n * k].reshape(n, k), 1)
    want = dict(mean=v.mean(1), sum=v.sum(1), median=v[:, (k - 1) // 2], max=v[:, -1], min=v[:, 0])[case["kind"]]
    require(isinstance(out, torch.Tensor) and tuple(out.shape) == (n,), f"one {case['kind']} per heliostat: {out}")
    close(out, want, f"{case['kind']} per heliostat", atol=1e-6, rtol=1e-6)
    ctx.nontrivial(n > 1 and k > 1)


@st.composite
def nets(draw):
    return dict(shape=[draw(st.integers(1, 4)), draw(st.integers(1, 4)), draw(st.integers(2, 7)), draw(st.integers(2, 7))],
                kind=draw(st.sampled_from(["any", "shift", "one", "none", "facet shifts"])), scale=draw(st.sampled_from([1e-3, 0.1, 1.0])), seed=draw(seeds))


@PROP.sub("regularizers", nets(), quick=300)
def regularizers(case, ctx):
    g = rng(case["seed"])
    n, f, a, b = case["shape"]
    origin = g.uniform(-2, 2, size=(n, f, a, b, 3))
    d = np.zeros_like(origin)
    if case["kind"] == "any":
        d = g.normal(size=d.shape)
    elif case["kind"] == "shift":
        d = d + g.normal(size=3)
    elif case["kind"] == "facet shifts":
        d = d + g.normal(size=(n, f, 1, 1, 3))
    elif case["kind"] == "one":
        where = tuple(int(g.integers(k)) for k in d.shape)
        d[where] = 1.0
    C, O = T(origin + d * case["scale"]), T(origin)
    c, o = np64(C), np64(O)
    d = c - o
    s, i = SmoothnessRegularizer(reduction_dimensions=(1,)), IdealSurfaceRegularizer(reduction_dimensions=(1,))
    before = C.clone(), O.clone()
    S, I = s(current_control_points=C, original_control_points=O, device=DEV), i(current_control_points=C, original_control_points=O, device=DEV)
    require(torch.equal(C, before[0]) and torch.equal(O, before[1]), "the control points are changed")
    pad = np.pad(d, ((0, 0), (0, 0), (1, 1), (1, 1), (0, 0)), mode="edge")
    lap = 4 * d - pad[:, :, :-2, 1:-1] - pad[:, :, 2:, 1:-1] - pad[:, :, 1:-1, :-2] - pad[:, :, 1:-1, 2:]
    e = 1e-6                                                       # control points of two metres in float32
    tol = lambda v: 40 * e * np.sqrt(v) * f + (40 * e) ** 2 * f
    ws, wi = (lap ** 2).mean((2, 3, 4)).sum(1), (d ** 2).mean((2, 3, 4)).sum(1)
    close(S, ws, "smoothness per heliostat", atol=tol(ws), rtol=1e-4)
    close(I, wi, "deviation per heliostat", atol=tol(wi), rtol=1e-4)
    require(bool((S >= 0).all() and (I >= 0).all()), "negative regularisation")
    if case["kind"] == "none":
        require(not S.any() and not I.any(), f"regularisation of unchanged control points {S}, {I}")
    elif case["kind"] in ("shift", "facet shifts"):
        require(bool((S <= 1e-9).all()), f"smoothness term of uniformly displaced facets {S}")
        require(bool((I > 0).all()), "displacement not seen")
    elif case["kind"] == "one":
        hit = np.arange(n) == where[0]
        require((np64(S)[hit] > 0).all() and (np64(I)[hit] > 0).all(), "single displaced control point not seen")
        require(not np64(S)[~hit].any() and not np64(I)[~hit].any(), "another heliostat is charged")
    # the whole field or single facets
    close(SmoothnessRegularizer((0, 1))(C, O, device=DEV), ws.sum(), "smoothness of the field", atol=tol(ws).sum(), rtol=1e-4)
    close(IdealSurfaceRegularizer((0, 1))(C, O, device=DEV), wi.sum(), "deviation of the field", atol=tol(wi).sum(), rtol=1e-4)
    close(IdealSurfaceRegularizer((0,))(C, O, device=DEV), (d ** 2).mean((2, 3, 4)).sum(0), "deviation per facet", atol=tol(wi).sum(), rtol=1e-4)
    # moved elsewhere, both regularisers stay the same
    off = T(np.array([1.0, -0.5, 0.25]))
    close(i(C + off, O + off, device=DEV), wi, "deviation far away", atol=2 * tol(wi), rtol=1e-3)
    ctx.nontrivial(case["kind"] in ("any", "one") and n > 1 and f > 1)
    ctx.label(case["kind"])
