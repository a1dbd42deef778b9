from hypothesis import strategies as st
import numpy as np
import torch

from artist.raytracing.geometry import line_plane_intersections, reflect
from artist.scene.rays import Rays

from .core import DEV, Prop, T, close, np64, require, rng
from .gen import directions, fl, frame, h4, rand_dirs, seeds, unit, vec
from .refs import plane_hits
from .scene import planar_areas, planar_spec, spec32

PROP = Prop("C01", "a ray bundle with at least one clear hit and one clear miss; for reflection, a direction that is "
                   "neither parallel nor perpendicular to the normal")


@st.composite
def reflect_case(draw):
    return dict(shape=draw(st.lists(st.integers(1, 4), min_size=1, max_size=3)), bcast=draw(st.booleans()),
                normal=draw(directions()), direction=draw(directions()), seed=draw(seeds), dim=draw(st.sampled_from([3, 4])), length=draw(st.sampled_from([1.0, 1.0, 0.25, 3.0])))


@PROP.sub("reflection", reflect_case(), quick=600)
def reflection(case, ctx):
    g = rng(case["seed"])
    shape = case["shape"]
    d, n = rand_dirs(g, shape), rand_dirs(g, shape)
    d.reshape(-1, 3)[0], n.reshape(-1, 3)[0] = case["direction"], case["normal"]
    d *= case["length"]
    if case["bcast"]:
        n = n[..., :1, :]
    if case["dim"] == 4:
        d, n = h4(d, 0), h4(n, 0)
    d32, n32 = T(d), T(n)
    r = reflect(d32, n32)
    dn = (np64(d32) * np64(n32)).sum(-1, keepdims=True)
    R, N = np64(r), np.broadcast_to(np64(n32), d.shape)
    close(R, np64(d32) - 2 * dn * N, "reflected direction", atol=2e-6 * max(1, case["length"]))
    close((R * N).sum(-1), -dn[..., 0], "normal component is reversed", atol=3e-6 * max(1, case["length"]))
    close(np.cross(R[..., :3], N[..., :3]), np.cross(np64(d32)[..., :3], N[..., :3]), "tangential component is kept", atol=3e-6 * max(1, case["length"]))
    close(np.linalg.norm(R, axis=-1), np.full(shape, case["length"]), "length is kept", atol=3e-6 * max(1, case["length"]))
    close(reflect(r, n32), d32, "reflecting twice is the identity", atol=5e-6 * max(1, case["length"]))
    ctx.nontrivial(((np.abs(dn) > 0.05 * case["length"]) & (np.abs(dn) < 0.95 * case["length"])).any())
    ctx.label(f"dim {case['dim']}, rank {len(shape)}")


@st.composite
def plane_case(draw):
    targets = draw(st.lists(planar_spec(), min_size=1, max_size=4))
    h = draw(st.integers(1, 4))
    return dict(targets=targets, default_index=draw(st.integers(0, 9)) == 0,
                index=[draw(st.integers(0, len(targets) - 1)) for _ in range(h)],
                points=draw(st.integers(1, 10)), rays=draw(st.integers(1, 4)),
                res=[draw(st.integers(2, 80)), draw(st.integers(2, 80))],
                reach=draw(fl(0.5, 1.6)), spread=draw(fl(5, 150)), seed=draw(seeds))


def aimed_rays(g, spec, points, rays, reach, spread):
    """Origins in front of (sometimes behind) the receiver; rays towards, past, away from and parallel to it."""
    s = spec32(spec)
    a, b = frame(s["normal"])
    side = np.where(g.random((points, 1)) < 0.85, 1.0, -1.0)
    far = np.where(g.random((points, 1)) < 0.75, 2 + g.random((points, 1)) * spread, 10 ** g.uniform(-2, 0.5, (points, 1)))
    o = s["center"] + side * s["normal"] * far + (
        g.normal(size=(points, 1)) * a + g.normal(size=(points, 1)) * b) * np.where(far > 2, spread * 0.3, 0.3 * s["height"])
    # aim in east/up coordinates on the plane
    fe = (g.random((rays, points)) - 0.5) * reach * s["width"]
    fu = (g.random((rays, points)) - 0.5) * reach * s["height"]
    n = s["normal"]
    p = s["center"] + np.stack([fe, -(n[0] * fe + n[2] * fu) / n[1], fu], -1)
    d = unit(p - o)
    kind = g.random((rays, points))
    d = np.where((kind < 0.08)[..., None], -d, d)
    d = np.where(((kind >= 0.08) & (kind < 0.16))[..., None], rand_dirs(g, (rays, points)), d)
    d = np.where(((kind >= 0.16) & (kind < 0.2))[..., None], unit(d - (d @ n)[..., None] * n), d)
    return o, d


@PROP.sub("plane", plane_case(), quick=700, shards=2)
def plane(case, ctx):
    g = rng(case["seed"])
    index = [0] * len(case["index"]) if case["default_index"] else case["index"]
    H, R, P = len(index), case["rays"], case["points"]
    o, d = zip(*(aimed_rays(g, case["targets"][i], P, R, case["reach"], case["spread"]) for i in index))
    o, d = T(h4(np.stack(o), 1)), T(h4(np.stack(d), 0))
    m = T(g.random((H, R, P)) * 2)
    inputs = [x.clone() for x in (o, d, m)]
    e, u, dist, inten = line_plane_intersections(
        rays=Rays(d, m), points_at_ray_origins=o, target_areas=planar_areas(case["targets"]),
        target_area_indices=None if case["default_index"] else torch.tensor(index),
        bitmap_resolution=torch.tensor(case["res"]), device=DEV)
    hits = misses = 0
    for h, i in enumerate(index):
        s = spec32(case["targets"][i])
        ref = plane_hits(np64(o)[h, :, :3], np64(d)[h, :, :, :3], np64(m)[h], s["center"], s["normal"], s["width"],
                         s["height"], *case["res"])
        hit, miss = ref["hit"] & ref["sure"], ~ref["hit"] & ref["sure"]
        hits += hit.sum(); misses += miss.sum()
        what = f"heliostat {h}: "
        close(inten[h], np.zeros((R, P)), what + "intensity of a miss", atol=0, mask=miss)
        close(inten[h], ref["intensity"], what + "intensity of a hit", atol=1e-5, rtol=1e-5, mask=hit)
        close(e[h], ref["e"], what + "east bitmap position", atol=ref["err_e"] + 1e-4, mask=hit)
        close(u[h], ref["u"], what + "up bitmap position", atol=ref["err_u"] + 1e-4, mask=hit)
        close(dist[h], ref["distance"], what + "distance", atol=ref["err"], rtol=1e-5, mask=hit)
        require(bool((inten[h] >= 0).all()), what + "negative intensity")
    for a, b in zip(inputs, (o, d, m)):
        require(torch.equal(a, b), "an input was modified")
    ctx.nontrivial(hits > 0 and misses > 0)
    ctx.label("several receivers" if len(set(index)) > 1 else "one receiver")
