import math

from hypothesis import strategies as st
import numpy as np
import torch

import artist.raytracing  # noqa: F401
from artist.flux import bitmap

from .core import DEV, Prop, T, close, np64, require, rng, same
from .gen import fl, seeds
from .scene import field_cylinder, field_plane, tower

PROP = Prop("C22", "images with several bright pixels and unequal width and height; profiles with slope and plateau",
            assumptions=["Images carry an energy well above the 1e-8 that the code adds to the sum, or none at all.",
                         "Cropped images have at least two pixels per direction (corner-aligned sampling needs them)."])

STYLES = ["noise", "sparse", "one", "blob", "corner", "empty", "ramp"]


def image(style, H, W, g):
    u, e = np.mgrid[0:H, 0:W]
    if style == "noise":
        return g.random((H, W))
    if style == "sparse":
        return g.random((H, W)) * (g.random((H, W)) < 0.2)
    if style == "one":
        a = np.zeros((H, W))
        a[g.integers(H), g.integers(W)] = 1.0
        return a
    if style == "corner":
        a = np.zeros((H, W))
        a[-(g.random() < 0.5), -(g.random() < 0.5)] = 1.0
        return a
    if style == "blob":
        c, s = g.uniform(0, 1, 2) * [H - 1, W - 1], g.uniform(0.5, 4)
        return np.exp(-((u - c[0]) ** 2 + (e - c[1]) ** 2) / (2 * s * s))
    if style == "ramp":
        return (u + 2 * e + 1.0) / (H + W)
    return np.zeros((H, W))


images = st.fixed_dictionaries(dict(H=st.integers(1, 40), W=st.integers(1, 40), styles=st.lists(st.sampled_from(STYLES), min_size=1, max_size=5),
                                    scale=st.sampled_from([1.0, 255.0, 0.01, 3e4]), seed=seeds))


def mean_pixel(a):
    u, e = np.mgrid[0:a.shape[1], 0:a.shape[2]]
    s = a.sum((1, 2))
    ok = s > 0
    s = np.where(ok, s, 1)
    return np.stack([(a * e).sum((1, 2)) / s, (a * u).sum((1, 2)) / s], 1), ok


@PROP.sub("centre", images, quick=400, shards=2)
def centre(case, ctx):
    g = rng(case["seed"])
    H, W = case["H"], case["W"]
    a = np.stack([image(s, H, W, g) for s in case["styles"]]).astype(np.float32) * np.float32(case["scale"])
    x = T(a)
    before = x.clone()
    out = bitmap.get_center_of_mass(x, device=DEV)
    require(torch.equal(x, before), "the images are not changed")
    a = np64(x)
    lit = a.sum((1, 2)) > 1e-2       # otherwise the energy is comparable to the added epsilon
    a = a[lit | (a.sum((1, 2)) == 0)]
    x, out = T(a), out[torch.tensor(lit | ~np64(x).any((1, 2)))]
    want, ok = mean_pixel(a)
    require(tuple(out.shape) == (len(a), 2), f"shape {tuple(out.shape)}")
    close(out, want, "centre of mass", atol=2e-5 * (H + W) + 1e-4)
    # shifted by padding, scaled
    k = [int(v) for v in g.integers(0, 4, 4)]
    shifted = bitmap.get_center_of_mass(T(np.pad(a, ((0, 0), (k[0], k[1]), (k[2], k[3])))), device=DEV)
    close(shifted, want + np.where(ok[:, None], [k[2], k[0]], 0), "centre of mass of the shifted image", atol=2e-5 * (H + W + 8) + 1e-4)
    close(bitmap.get_center_of_mass(x * 7.0, device=DEV), want, "centre of mass of the brighter image", atol=2e-5 * (H + W) + 1e-4)
    # mirrored
    close(bitmap.get_center_of_mass(x.flip(2), device=DEV)[:, 0], np.where(ok, W - 1 - want[:, 0], 0), "mirrored image", atol=2e-5 * (H + W) + 1e-4)
    ctx.nontrivial(H != W and any((a[i] > 0).sum() > 2 for i in range(len(a))))
    if not ok.all():
        ctx.label("with an empty image")


@st.composite
def crop_case(draw):
    p, c = draw(st.lists(field_plane(), min_size=1, max_size=3)), draw(st.lists(field_cylinder(), max_size=2))
    n = draw(st.integers(1, 5))
    return dict(planes=p, cylinders=c, images=[dict(style=draw(st.sampled_from(STYLES)), target=draw(st.integers(0, len(p) + len(c) - 1))) for _ in range(n)],
                H=draw(st.integers(2, 32)), W=draw(st.integers(2, 32)), size=draw(st.none() | st.tuples(fl(0.2, 15), fl(0.2, 15)).map(list)), seed=draw(seeds))


def sample(a, x, y):
    """Bilinear values at pixel coordinates, zero outside the image."""
    H, W = a.shape
    pad = np.pad(a, 1)
    x, y = np.clip(x + 1, 0, W + 1), np.clip(y + 1, 0, H + 1)
    i, j = np.minimum(np.floor(y).astype(int), H), np.minimum(np.floor(x).astype(int), W)
    v, w = y - i, x - j
    return (pad[i, j] * (1 - v) * (1 - w) + pad[i, j + 1] * (1 - v) * w + pad[i + 1, j] * v * (1 - w) + pad[i + 1, j + 1] * v * w)


@PROP.sub("crop", crop_case(), quick=300, shards=2)
def crop(case, ctx):
    g = rng(case["seed"])
    H, W = case["H"], case["W"]
    tw = tower(case["planes"], case["cylinders"])
    # single flux images in any unit, from dim to bright
    scale = g.choice([1.0, 1.0, 1e-4, 1e-2, 255.0, 3e4], len(case["images"]))
    a = np64(T(np.stack([image(i["style"], H, W, g) * s for i, s in zip(case["images"], scale)])))
    idx = torch.tensor([i["target"] for i in case["images"]])
    kw = {} if case["size"] is None else dict(crop_width=case["size"][0], crop_height=case["size"][1])
    cw, ch = case["size"] or default_size()
    x = T(a)
    before = x.clone()
    out = bitmap.crop_flux_distributions_around_center(x, tw, idx, device=DEV, **kw)
    require(torch.equal(x, before), "the images are not changed")
    require(tuple(out.shape) == a.shape, f"shape {tuple(out.shape)}")
    P = len(case["planes"])
    for k, i in enumerate(case["images"]):
        r = case["planes"][i["target"]] if i["target"] < P else case["cylinders"][i["target"] - P]
        width = r["width"] if i["target"] < P else r["radius"] * r["opening"]
        com, ok = mean_pixel(a[k:k + 1])
        if not ok[0]:
            close(out[k], np.zeros((H, W)), "crop of an empty image")
            continue
        total = a[k].sum()
        if total < 1e-5:
            continue
        xs = com[0, 0] + (np.arange(W) - (W - 1) / 2) * cw / width
        ys = com[0, 1] + (np.arange(H) - (H - 1) / 2) * ch / r["height"]
        X, Y = np.meshgrid(xs, ys)
        close(out[k], sample(a[k], X, Y), f"image {k} cropped to {cw} m x {ch} m of {width} m x {r['height']} m", 
              atol=scale[k] * (3e-5 + 1e-8 / total) * (W + H) * max(1, cw / width, ch / r["height"]))
    one = bitmap.crop_flux_distributions_around_center(x[:1], tw, idx[:1], device=DEV, **kw)
    close(one[0], np64(out[0]), "crop of a single image", atol=1e-5 * scale[0])
    ctx.nontrivial(len({i["target"] for i in case["images"]}) > 1 and H != W)
    ctx.label("cylinder" if any(i["target"] >= P for i in case["images"]) else "flat only")


def default_size():
    from artist.util import constants
    return constants.utis_crop_width, constants.utis_crop_height


@PROP.sub("trapezoid", st.integers(1, 200).flatmap(lambda n: st.fixed_dictionaries(dict(total=st.just(n), slope=st.integers(0, 80), plateau=st.integers(0, n + 20)))), quick=400)
def trapezoid(case, ctx):
    n, s, p = case["total"], case["slope"], case["plateau"]
    out = np64(bitmap.trapezoid_distribution(total_width=n, slope_width=s, plateau_width=p, device=DEV))
    require(out.shape == (n,), f"length {out.shape}")
    d = np.abs(np.arange(n) - (n - 1) / 2) - p / 2
    close(out, np.where(d <= 0, 1.0, 0.0) if s == 0 else np.clip(1 - d / s, 0, 1), "profile", atol=1e-6)
    same(out.tolist(), out[::-1].tolist(), "symmetry")
    # in words: as many ones as the plateau is wide (where it has the parity of the total width), slopes of equal steps, zeros beyond
    if (n - p) % 2 == 0 and 0 < p <= n:
        same(int((out == 1).sum()), p, "width of the plateau")
        rest = (n - p) // 2
        if s and rest:
            close(out[:rest][::-1], np.clip(1 - (np.arange(rest) + 0.5) / s, 0, 1), "slope", atol=1e-6)
    ctx.nontrivial(s > 0 and 0 < p < n)
    ctx.label("cut off" if 2 * s + p > n else "padded")
