from hypothesis import strategies as st
import math
import numpy as np
import torch

from artist.raytracing.geometry import line_cylinder_intersections
from artist.scene.rays import Rays

from .core import DEV, Prop, T, close, np64, require, rng
from .gen import fl, h4, rand_dirs, seeds, unit
from .refs import cylinder_hits
from .scene import cylinder_areas, cylinder_spec, spec32

PROP = Prop("C02", "a ray bundle with at least one clear hit and one clear miss")


@st.composite
def cylinder_case(draw):
    targets = draw(st.lists(cylinder_spec(), min_size=1, max_size=3))
    h = draw(st.integers(1, 4))
    return dict(targets=targets, default_index=draw(st.integers(0, 9)) == 0,
                index=[draw(st.integers(0, len(targets) - 1)) for _ in range(h)],
                points=draw(st.integers(1, 10)), rays=draw(st.integers(1, 4)),
                res=[draw(st.integers(2, 80)), draw(st.integers(2, 80))],
                reach=draw(fl(0.5, 1.5)), spread=draw(fl(3, 120)), inside=draw(st.integers(0, 5)) == 0, seed=draw(seeds))


def aimed_rays(g, spec, points, rays, reach, spread, inside):
    s = spec32(spec)
    n, ax, r = s["normal"], s["axis"], s["radius"]
    v = np.cross(ax, n)

    def at(phi, z, rad):
        return s["center"] + rad[..., None] * (np.cos(phi)[..., None] * n + np.sin(phi)[..., None] * v) + z[..., None] * ax

    phi0 = (g.random(points) - 0.5) * min(2 * math.pi, s["opening"] * 1.3)
    dist = r * g.random(points) * 0.8 if inside else r * 1.2 + g.random(points) * spread
    if not inside:
        near = g.random(points) < 0.25
        dist = np.where(near, r + 10 ** g.uniform(-1.5, 0.3, points), dist)
    o = at(phi0, g.normal(size=points) * spread * 0.2, dist)
    phi = phi0 + g.normal(size=(rays, points)) * 0.6
    z = (g.random((rays, points)) - 0.5) * reach * s["height"]
    d = unit(at(phi, z, np.full((rays, points), r)) - o)
    kind = g.random((rays, points))
    d = np.where((kind < 0.1)[..., None], -d, d)
    d = np.where(((kind >= 0.1) & (kind < 0.2))[..., None], rand_dirs(g, (rays, points)), d)
    d = np.where(((kind >= 0.2) & (kind < 0.23))[..., None], ax * np.sign(g.random() - 0.5), d)
    return o, d


@PROP.sub("cylinder", cylinder_case(), quick=1200, shards=4)
def cylinder(case, ctx):
    g = rng(case["seed"])
    index = [0] * len(case["index"]) if case["default_index"] else case["index"]
    H, R, P = len(index), case["rays"], case["points"]
    o, d = zip(*(aimed_rays(g, case["targets"][i], P, R, case["reach"], case["spread"], case["inside"]) for i in index))
    o, d = T(h4(np.stack(o), 1)), T(h4(np.stack(d), 0))
    m = T(g.random((H, R, P)) * 2)
    inputs = [x.clone() for x in (o, d, m)]
    e, u, dist, inten = line_cylinder_intersections(
        rays=Rays(d, m), points_at_ray_origins=o, target_areas=cylinder_areas(case["targets"]),
        target_area_indices=None if case["default_index"] else torch.tensor(index),
        bitmap_resolution=torch.tensor(case["res"]), device=DEV)
    hits = misses = 0
    for h, i in enumerate(index):
        s = spec32(case["targets"][i])
        ref = cylinder_hits(np64(o)[h, :, :3], np64(d)[h, :, :, :3], np64(m)[h], s["center"], s["normal"], s["axis"],
                            s["radius"], s["height"], s["opening"], *case["res"])
        hit, miss = ref["hit"] & ref["sure"], ~ref["hit"] & ref["sure"]
        hits += hit.sum(); misses += miss.sum()
        what = f"heliostat {h}: "
        for x in (e, u, dist, inten):
            require(bool(torch.isfinite(x).all()), what + "not finite")
        close(inten[h], np.zeros((R, P)), what + "intensity of a miss", atol=1e-6 + 2 * ref["err_cos"] * (np.abs(ref["intensity"]) < 1e-2), mask=miss)
        close(inten[h], ref["intensity"], what + "intensity of a hit", atol=2 * ref["err_cos"], rtol=1e-5, mask=hit)
        close(e[h], ref["e"], what + "east bitmap position", atol=ref["err_e"] + 1e-4, mask=hit)
        close(u[h], ref["u"], what + "up bitmap position", atol=ref["err_u"] + 1e-4, mask=hit)
        close(dist[h], ref["distance"], what + "distance", atol=ref["err"], rtol=1e-5, mask=hit)
        require(bool((inten[h] >= 0).all()), what + "negative intensity")
    for a, b in zip(inputs, (o, d, m)):
        require(torch.equal(a, b), "an input was modified")
    ctx.nontrivial(hits > 0 and misses > 0)
    ctx.label("full circle" if any(case["targets"][i]["opening"] > 6.28 for i in index) else "sector")
    ctx.label("from inside" if case["inside"] else "from outside")
