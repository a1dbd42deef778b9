import math

from hypothesis import strategies as st
import numpy as np
import torch

from artist.raytracing import blocking

from .blockref import crossings, mirror_corners
from .core import DEV, Prop, T, close, np64, require, rng
from .gen import directions, fl, frame, h4, seeds, unit
from .scene import local_surface

PROP = Prop("C08", "masks: some ray surely crosses a rectangle before its target and some ray is surely clear of all; corners: a "
                   "mirror with more than one point per facet side that is turned away from the horizontal",
            assumptions=["Rays within 2 % of a rectangle's rim (soft transition) or within 2 cm of the ray start offset (5 cm) or of "
                         "the target are not judged."])


@st.composite
def mirror_case(draw):
    n = draw(st.integers(1, 4))
    return dict(side=draw(st.integers(1, 6)), half=[draw(fl(0.3, 2)), draw(fl(0.3, 2))],
                poses=[dict(n=draw(directions()), roll=draw(fl(-math.pi, math.pi)), at=[draw(fl(-90, 90)), draw(fl(-90, 90)), draw(fl(0, 9))],
                            size=draw(st.sampled_from([1.0, 1.0, 0.5, 2.5])))
                       for _ in range(n)], cant=draw(st.sampled_from([0.0]) | fl(0, 0.01)), bump=draw(st.sampled_from([0.0, 0.002])), seed=draw(seeds),
                off=draw(st.sampled_from([[0, 0], [0, 0], [1.5, -4.0], [-9.0, 6.0]])))


def pose(p, pts):
    a, b = frame(p["n"], p["roll"])
    return pts @ np.stack([a, b, unit(p["n"])]) + p["at"]


@PROP.sub("corners", mirror_case(), quick=400)
def corners(case, ctx):
    n = len(case["poses"])
    local = [local_surface([h * case["poses"][i]["size"] for h in case["half"]], 4, case["side"], case["cant"], case["bump"], case["seed"] + i)[0] for i in range(n)]
    world = T(h4(np.stack([pose(p, q) for p, q in zip(case["poses"], local)]), 1))
    ref = np.stack([mirror_corners(w, case["side"]) for w in np64(world)])

    def check(out, what, ref=ref):
        c, s, nn = (np64(x) for x in out)
        close(c, ref, f"{what}: corners", atol=1e-5)
        close(s[:, 0], ref[:, 1] - ref[:, 0], f"{what}: first span", atol=4e-5)
        close(s[:, 1], ref[:, 3] - ref[:, 0], f"{what}: second span", atol=4e-5)
        close(nn[:, 3], np.zeros(n), f"{what}: homogeneous normal")
        m = unit(np.cross((ref[:, 1] - ref[:, 0])[:, :3], (ref[:, 3] - ref[:, 0])[:, :3]))
        close(np.abs((nn[:, :3] * m).sum(1)), np.ones(n), f"{what}: plane normal", atol=1e-4)

    check(blocking.create_blocking_primitives_rectangles_by_index(world, device=DEV), "by index")
    # by search: the points may come in any order, in another one for every mirror, and the mirror need not be centred
    g = rng(case["seed"])
    perm = torch.tensor(np.stack([g.permutation(world.shape[1]) for _ in range(n)]))
    flat = T(h4(np.stack(local) + [*case["off"], 0], 1))
    row = torch.arange(n)[:, None]
    check(blocking.create_blocking_primitives_rectangle(flat[row, perm], world[row, perm], device=DEV), "by search")
    ctx.nontrivial(case["side"] > 1 and any(abs(p["n"][2]) < 0.999 for p in case["poses"]))


@st.composite
def mask_case(draw):
    return dict(rects=[dict(n=draw(directions()), roll=draw(fl(-math.pi, math.pi)), at=[draw(fl(-30, 30)), draw(fl(-30, 30)), draw(fl(0, 20))],
                            half=[draw(fl(0.4, 4)), draw(fl(0.4, 4))], skew=draw(st.sampled_from([0.0, 0.0, 0.3, -0.7])), dup=draw(st.integers(1, 2))) for _ in range(draw(st.integers(1, 6)))],
                shape=[draw(st.integers(1, 3)), draw(st.integers(1, 5)), draw(st.integers(1, 8))], seed=draw(seeds),
                spread=draw(st.sampled_from([1e-3, 0.02, 0.3])), target=draw(st.booleans()),
                close=draw(st.booleans()), more=draw(st.sampled_from([0, 0, 0, 0, 90])))


@PROP.sub("mask", mask_case(), quick=500, shards=3)
def mask(case, ctx):
    g = rng(case["seed"])
    cs = []
    for r in case["rects"]:
        a, b = frame(r["n"], r["roll"])
        a, b, c = a * r["half"][0], b * r["half"][1], np.array(r["at"])
        b = b + r["skew"] * a      # the corners of a deformed mirror span a parallelogram
        cs += [np.stack([c - a - b, c - a + b, c + a + b, c + a - b])] * r["dup"]
    # many mirrors out of the way of the rays
    for c in g.uniform(-60, 60, size=(case["more"], 3)) + [0, 0, 300]:
        cs.insert(0, c + np.array([[-1, -1, 0], [-1, 1, 0], [1, 1, 0], [1, -1, 0]]))
    cor = T(h4(np.stack(cs), 1))
    C = np64(cor)[..., :3]
    spans = torch.stack([cor[:, 1] - cor[:, 0], cor[:, 3] - cor[:, 0]], 1)
    nrm = T(h4(unit(np.cross(np64(spans)[:, 0, :3], np64(spans)[:, 1, :3])), 0))
    H, R, P = case["shape"]
    o = g.uniform(-40, 40, size=(H, P, 3)) * [1, 1, 0.5]
    # aim around points of the rectangles, also from behind (those never block)
    k = g.integers(case["more"], len(cs), size=(H, R, P))
    if case["close"]:
        i = g.integers(case["more"], len(cs), size=(H, P))
        o = C[i].mean(-2) + 10 ** g.uniform(-1, 0.6, size=(H, P, 1)) * unit(g.normal(size=(H, P, 3)))
        k = np.where(g.random((H, R, P)) < 0.8, i[:, None], k)
    q = C[k, 0] + (g.uniform(-0.4, 1.4, size=(H, R, P, 1))) * (C[k, 1] - C[k, 0]) + g.uniform(-0.4, 1.4, size=(H, R, P, 1)) * (C[k, 3] - C[k, 0])
    d = unit(q - o[:, None]) + case["spread"] * g.normal(size=(H, R, P, 3))
    d = unit(d) * np.where(g.random((H, R, P, 1)) < 0.2, -1, 1)
    origins, dirs = T(h4(o, 1)), T(h4(d, 0))
    tgt = None
    if case["target"]:
        full = np.linalg.norm(q - o[:, None], axis=-1)
        tgt = T(full * g.choice([0.0, 0.5, 0.9, 1.1, 3.0], size=full.shape))
    kw = {} if tgt is None else dict(intersection_distances_target=tgt)
    out = blocking.soft_ray_blocking_mask(ray_origins=origins, ray_directions=dirs, blocking_primitives_corners=cor,
                                          blocking_primitives_spans=spans, blocking_primitives_normals=nrm, **kw)
    require(tuple(out.shape) == (H, R, P), f"shape {tuple(out.shape)}")
    out = np64(out)
    require(((out >= 0) & (out <= 1)).all(), "mask outside [0, 1]")
    oo = np.broadcast_to(np64(origins)[:, None, :, :3], (H, R, P, 3)).reshape(-1, 3)
    x, clear = crossings(oo, np64(dirs)[..., :3].reshape(-1, 3), C, None if tgt is None else np64(tgt).reshape(-1))
    hit, free = x.any(1), clear.all(1)
    flat = out.reshape(-1)
    if (hit & (flat < 1 - 1e-4)).any():
        i = int(np.flatnonzero(hit & (flat < 1 - 1e-4))[0])
        require(False, f"ray {i} crosses a mirror before its target but is blocked only to {flat[i]}")
    if (free & (flat > 1e-4)).any():
        i = int(np.flatnonzero(free & (flat > 1e-4))[0])
        require(False, f"ray {i} is clear of all mirrors but attenuated by {flat[i]}")
    ctx.nontrivial(hit.any() and free.any())
    ctx.label("skewed mirror" if any(r["skew"] for r in case["rects"]) else "rectangles")
    ctx.label("start close to a mirror" if case["close"] else "start anywhere")
    ctx.label("judged" if (hit | free).mean() > 0.8 else "partly judged")
    # the order of the mirrors does not matter, and one more mirror never frees a ray
    p = g.permutation(len(cs))
    kw2 = dict(ray_origins=origins, ray_directions=dirs, **kw)
    close(blocking.soft_ray_blocking_mask(blocking_primitives_corners=cor[p], blocking_primitives_spans=spans[p],
                                          blocking_primitives_normals=nrm[p], **kw2), out, "mirrors in another order", atol=2e-4)
    if case["more"]:
        few = np64(blocking.soft_ray_blocking_mask(blocking_primitives_corners=cor[case["more"]:], blocking_primitives_spans=spans[case["more"]:],
                                                   blocking_primitives_normals=nrm[case["more"]:], **kw2))
        close(out, few, "mirrors out of the way added", atol=2e-4)
    if len(cs) > 1:
        less = np64(blocking.soft_ray_blocking_mask(blocking_primitives_corners=cor[1:], blocking_primitives_spans=spans[1:],
                                                    blocking_primitives_normals=nrm[1:], **kw2))
        require((less <= out + 2e-4).all(), "an additional mirror frees a ray")
