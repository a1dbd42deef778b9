from hypothesis import strategies as st
import numpy as np
import torch

from artist.raytracing import HeliostatRayTracer

from .core import DEV, Prop, T, close, np64, require, rng, same
from .gen import fl, seeds
from .refs import splat
from .scene import scenario

PROP = Prop("C04", "at least one ray with positive intensity strictly inside the bitmap at a fractional position; for sums per "
                   "receiver, a receiver that gets several heliostats")


def tracer(res, planes=1, cylinders=1):
    P = [dict(center=[0, 0, 40], normal=[0, 1.0, 0], width=6, height=5)] * planes
    C = [dict(center=[0, 0, 40], normal=[0, 1.0, 0], axis=[0, 0, 1.0], radius=3, height=5, opening=3)] * cylinders
    sc = scenario([dict(kind="ideal", positions=[[0, 50, 0]], half=[1, 1], facets=1, side=1, cant=0.0, bump=0.0, deviation=0.0,
                        seed=1)], P, C, rays=1)
    g = sc.heliostat_field.heliostat_groups[0]
    g.activate_heliostats(torch.tensor([1]), device=DEV)
    return HeliostatRayTracer(sc, g, blocking_active=False, bitmap_resolution=torch.tensor(res))


@st.composite
def splat_case(draw):
    res = [draw(st.integers(2, 40)), draw(st.integers(2, 40))]

    def pos(n):     # inside, on a pixel centre, or clearly outside
        return fl(0, float(np.nextafter(np.float32(n - 1), np.float32(0)))) | st.integers(0, n - 2).map(float) | fl(n, 3 * n) | fl(-2 * n, -1)
    shape = [draw(st.integers(1, 3)), draw(st.integers(1, 3)), draw(st.integers(1, 5))]
    explicit = draw(st.booleans())
    n = int(np.prod(shape))
    out = dict(res=res, shape=shape, seed=draw(seeds), explicit=None)
    if explicit:
        out["explicit"] = [[draw(pos(res[0])), draw(pos(res[1])), draw(st.sampled_from([0.0, 1.0]) | fl(0, 5))] for _ in range(n)]
    else:
        out["shape"] = [shape[0], shape[1], draw(st.integers(1, 60))]
    return out


def rays_of(case):
    W, H = case["res"]
    g = rng(case["seed"])
    if case["explicit"]:
        a = np.array(case["explicit"]).reshape(*case["shape"], 3)
        e, u, w = a[..., 0], a[..., 1], a[..., 2]
    else:
        e, u = g.random(case["shape"]) * (W - 1), g.random(case["shape"]) * (H - 1)
        w = g.random(case["shape"]) * (g.random(case["shape"]) < 0.9)
        off = g.random(case["shape"])
        e = np.where(off < 0.1, e + W, e)
        u = np.where(off > 0.92, u + H, u)
    return T(e), T(u), T(w)


@PROP.sub("splat", splat_case(), quick=700, shards=2)
def splatting(case, ctx):
    W, H = case["res"]
    e, u, w = rays_of(case)
    t = tracer(case["res"])
    img = t.bilinear_splatting(e, u, w, device=DEV)
    require(tuple(img.shape) == (case["shape"][0], H, W), f"bitmap shape {tuple(img.shape)}")
    E, U, Wt = np64(e), np64(u), np64(w)
    inside = (E >= 0) & (E < W - 1) & (U >= 0) & (U < H - 1)
    tot = (Wt * inside).sum((1, 2))
    close(img.sum((1, 2)), tot, "total energy", atol=1e-5, rtol=2e-5)
    require(bool((img >= -1e-6).all()), "negative deposit")
    cols, rows = np.arange(W), np.arange(H)[::-1]
    for h in range(len(tot)):
        ref = splat(E[h], U[h], Wt[h], W, H)
        close(img[h], ref, f"bitmap {h}", atol=1e-5 * (1 + Wt[h].sum()), rtol=1e-5)
        if tot[h] > 1e-3:
            close((np64(img[h]) * cols[None]).sum() / tot[h], (E[h] * Wt[h] * inside[h]).sum() / tot[h], "centroid east", atol=1e-3)
            close((np64(img[h]) * rows[:, None]).sum() / tot[h], (U[h] * Wt[h] * inside[h]).sum() / tot[h], "centroid up", atol=1e-3)
    # additive over rays and independent of the other heliostats
    half = t.bilinear_splatting(e[:, :, ::2], u[:, :, ::2], w[:, :, ::2], device=DEV) + (
        t.bilinear_splatting(e[:, :, 1::2], u[:, :, 1::2], w[:, :, 1::2], device=DEV) if e.shape[2] > 1 else 0)
    close(half, img, "sum of partial bitmaps", atol=1e-5 * (1 + Wt.sum()))
    close(t.bilinear_splatting(e[:1], u[:1], w[:1], device=DEV)[0], img[0], "bitmap computed alone", atol=1e-6 * (1 + Wt.sum()))
    close(t.bilinear_splatting(e, u, 2 * w, device=DEV), 2 * np64(img), "twice the intensity", atol=1e-6 * (1 + Wt.sum()))
    ctx.nontrivial(((Wt > 0) & inside & (E % 1 != 0)).any())
    ctx.label("square" if W == H else "rectangular")


@st.composite
def sums_case(draw):
    p, c = draw(st.integers(1, 3)), draw(st.integers(1, 3))
    return dict(res=[draw(st.integers(2, 12)), draw(st.integers(2, 12))], planes=p, cylinders=c,
                index=draw(st.lists(st.integers(0, p + c - 1), min_size=1, max_size=8)), seed=draw(seeds))


@PROP.sub("per_receiver", sums_case(), quick=300)
def per_receiver(case, ctx):
    W, H = case["res"]
    b = rng(case["seed"]).random((len(case["index"]), H, W))
    t = tracer(case["res"], case["planes"], case["cylinders"])
    b32 = T(b)
    out = t.get_bitmaps_per_target(b32, torch.tensor(case["index"]), device=DEV)
    n = case["planes"] + case["cylinders"]
    ref = np.zeros((n, H, W))
    np.add.at(ref, case["index"], np64(b32))
    close(out, ref, "bitmaps per receiver", atol=1e-6)
    same(b32, T(b), "bitmaps per heliostat after summation")
    ctx.nontrivial(len(set(case["index"])) < len(case["index"]))
