import math

from hypothesis import strategies as st
import numpy as np
import torch

from artist.raytracing import blocking

from .blockref import box_hit, crossings
from .core import DEV, Prop, T, close, np64, require, rng
from .gen import fl, frame, h4, seeds, unit, rand_dirs

PROP = Prop("C09", "tree: at least three mirrors; filter: some mirror is met by a foreign ray and some mirror is not met by any")


@st.composite
def layout(draw, most=150):
    return dict(n=draw(st.integers(1, 12) | st.integers(1, most)), kind=draw(st.sampled_from(
        ["random", "lattice", "line", "cluster", "same", "pairs", "powers", "flat", "radial"])),
        extent=draw(st.sampled_from([1.0, 60.0, 500.0]) | fl(0.1, 900)), seed=draw(seeds))


def centres(c):
    g, n, L = rng(c["seed"]), c["n"], c["extent"]
    k = c["kind"]
    if k == "random":
        x = g.uniform(-1, 1, (n, 3)) * [L, L, 5]
    elif k == "lattice":
        m = g.integers(1, 9)
        x = g.integers(0, m, (n, 3)) * [L / m, L / m, g.choice([0.0, 2.0])]
    elif k == "line":
        x = np.arange(n)[:, None] * (L / n) * unit(g.normal(size=3))[None] * g.choice([1.0, -1.0])
    elif k == "cluster":
        m = g.integers(1, 6)
        x = (g.uniform(-1, 1, (m, 3)) * [L, L, 5])[g.integers(0, m, n)] + g.normal(size=(n, 3)) * L * g.choice([1e-6, 1e-3, 1e-2])
    elif k == "same":
        x = np.zeros((n, 3)) + [L, -L, 3]
    elif k == "pairs":
        x = np.repeat(g.uniform(-1, 1, ((n + 1) // 2, 3)) * L, 2, 0)[:n]
    elif k == "powers":
        x = L * 2.0 ** -g.integers(0, 12, (n, 3)) * g.integers(0, 2, (n, 3))
    elif k == "flat":
        x = g.uniform(-1, 1, (n, 3)) * [L, L, 0]
    else:
        a, r = g.uniform(0, math.pi, n), L * (1 + g.integers(0, 8, n)) / 8
        x = np.stack([r * np.cos(a), r * np.sin(a), np.full(n, 2.0)], 1)
    return x


def rectangles(c):
    g = rng(c["seed"] ^ 0x5bd1)
    x = centres(c)
    if c.get("size", "real") == "point":
        return T(h4(np.repeat(x[:, None], 4, 1), 1))
    out = []
    for p in x:
        a, b = frame(unit(g.normal(size=3) + [0, 0, 1.5]), g.uniform(-3, 3))
        a, b = a * g.uniform(0.3, 2), b * g.uniform(0.3, 2)
        out.append([p - a - b, p - a + b, p + a + b, p + a - b])
    return T(h4(np.array(out), 1))


@st.composite
def tree_case(draw):
    return draw(layout(most=260)) | dict(size=draw(st.sampled_from(["real", "real", "point"])))


@PROP.sub("tree", tree_case(), quick=500, shards=3, cpu_limit=25)
def tree(case, ctx):
    cor = rectangles(case)
    n = case["n"]
    t = blocking.build_linear_bounding_volume_hierarchies(blocking_primitives_corners=cor, device=DEV)
    left, right, leaf, prim = (t[k].tolist() for k in ("left", "right", "is_leaf", "primitive_index"))
    lo, hi = np64(t["aabb_min"]), np64(t["aabb_max"])
    C = np64(cor)[..., :3]
    order, stack, seen = [], [0], set()
    while stack:
        x = stack.pop()
        require(0 <= x < len(leaf), f"child index {x} of {len(leaf)} nodes")
        require(x not in seen, f"node {x} is reached twice")
        seen.add(x)
        order.append(x)
        if not leaf[x]:
            stack += [left[x], right[x]]
    got = [prim[x] for x in order if leaf[x]]
    require(sorted(got) == list(range(n)), f"tree of {n} mirrors contains {sorted(got)!r:.200}")
    require(len(order) == 2 * n - 1, f"{len(order)} of {2 * n - 1} nodes reachable")
    own = {}
    for x in reversed(order):
        if leaf[x]:
            own[x] = (C[prim[x]].min(0), C[prim[x]].max(0))
        else:
            a, b = own[left[x]], own[right[x]]
            own[x] = (np.minimum(a[0], b[0]), np.maximum(a[1], b[1]))
        require((lo[x] <= own[x][0] + 1e-6).all() and (hi[x] >= own[x][1] - 1e-6).all(), f"box of node {x} does not enclose its subtree")
        require((lo[x] >= own[x][0] - 1e-4).all() and (hi[x] <= own[x][1] + 1e-4).all(), f"box of node {x} is larger than its subtree")

    def depth(x):
        best, st_ = 1, [(x, 1)]
        while st_:
            y, d = st_.pop()
            best = max(best, d)
            if not leaf[y]:
                st_ += [(left[y], d + 1), (right[y], d + 1)]
        return best

    require(blocking.compute_lbvh_max_depth(t["left"], t["right"]) == depth(0), "depth of the tree")
    ctx.nontrivial(n >= 3)
    ctx.label(case["kind"])


@st.composite
def filter_case(draw):
    c = draw(layout(most=60))
    c["extent"] = draw(fl(5, 120))
    return c | dict(rays=draw(st.integers(1, 4)), points=draw(st.integers(1, 4)), owners=draw(st.integers(1, 5)),
                    reach=draw(st.sampled_from([0.0, 0.5, 2.0, 50.0])), flatness=draw(st.sampled_from([0.0, 0.3, 1.0])))


@PROP.sub("filter", filter_case(), quick=420, shards=4, cpu_limit=25)
def filter_(case, ctx):
    g = rng(case["seed"] ^ 77)
    cor = rectangles(case)
    C = np64(cor)[..., :3]
    n, R, P = case["n"], case["rays"], case["points"]
    own = g.integers(0, n, case["owners"])
    H = len(own)
    w = g.random((H, P, 2, 1))
    o = C[own][:, None, 0] + w[:, :, 0] * (C[own][:, None, 1] - C[own][:, None, 0]) + w[:, :, 1] * (C[own][:, None, 3] - C[own][:, None, 0])
    # mostly towards other mirrors, sometimes anywhere or along an axis
    k = g.integers(0, n, (H, R, P))
    v = g.random((H, R, P, 2, 1)) * 1.1 - 0.05
    q = C[k, 0] + v[..., 0, :] * (C[k, 1] - C[k, 0]) + v[..., 1, :] * (C[k, 3] - C[k, 0])
    d = q - o[:, None]
    dist = np.linalg.norm(d, axis=-1)
    bad = (dist < 1e-3) | (g.random((H, R, P)) < 0.2)
    d[bad] = rand_dirs(g, (int(bad.sum()),)) * [1, 1, 1 - case["flatness"]]
    ax = g.random((H, R, P)) < 0.1
    d[ax] = np.eye(3)[g.integers(0, 3, int(ax.sum()))] * g.choice([-1, 1], (int(ax.sum()), 1))
    d = unit(d + 1e-9 * np.array([1, 0.3, 0.2]) * (np.linalg.norm(d, axis=-1, keepdims=True) < 1e-6))
    tgt = np.maximum(dist, 1.0) * case["reach"] * g.uniform(0.5, 1.5, (H, R, P))
    origins, dirs, target = T(h4(o, 1)), T(h4(d, 0)), T(tgt)
    mapping = torch.tensor(own).repeat_interleave(R * P)
    out = blocking.lbvh_filter_blocking_planes(points_at_ray_origins=origins, ray_directions=dirs, blocking_primitives_corners=cor,
                                               ray_to_heliostat_mapping=mapping, intersection_distances_target=target, device=DEV)
    kept = set(out.tolist())
    require(len(kept) == len(out.tolist()), "a mirror is listed twice")
    oo = np.broadcast_to(np64(origins)[:, None, :, :3], (H, R, P, 3)).reshape(-1, 3)
    dd, tt = np64(dirs)[..., :3].reshape(-1, 3), np64(target).reshape(-1)
    foreign = mapping.numpy()[:, None] != np.arange(n)[None]
    meets, _ = crossings(oo, dd, C, tt, offset=0.0, edge=1e-3, along=1e-2)
    must = (meets & foreign).any(0)
    for i in np.flatnonzero(must):
        require(int(i) in kept, f"mirror {i} is met by a foreign ray before its target but filtered out (kept {sorted(kept)!r:.120})")
    may = (box_hit(oo, dd, C, tt, 1e-3) & foreign).any(0)
    for i in kept:
        require(may[i], f"mirror {i} is kept although no foreign ray meets its box")
    ctx.nontrivial(must.any() and not may.all())
    ctx.label(case["kind"])


@PROP.sub("boxes", st.fixed_dictionaries(dict(n=st.integers(1, 20), seed=seeds)), quick=200)
def boxes(case, ctx):
    """Slab test: the entry distance is the distance at which a ray enters the box."""
    g = rng(case["seed"])
    n = case["n"]
    lo = g.uniform(-5, 5, (n, 3))
    hi = lo + g.uniform(0.1, 4, (n, 3))
    inside = lo + (hi - lo) * g.random((n, 3))
    d = rand_dirs(g, (n,))
    o = inside - d * g.uniform(0, 20, (n, 1))
    a, b = blocking.ray_aabb_intersect(T(o), T(1 / d), T(lo), T(hi))
    a, b = np64(a), np64(b)
    require((b >= a - 1e-3).all(), "a ray through the box misses it")
    for t in (a, b):
        p = o + t[:, None] * d
        near = np.minimum(np.abs(p - lo), np.abs(p - hi)).min(1)
        require((near < 5e-3 * (1 + np.abs(t))).all() and (p > lo - 0.05).all() and (p < hi + 0.05).all(), "entry or exit is not on the box")
    miss = T(o + 100)
    a, b = blocking.ray_aabb_intersect(miss, T(1 / d), T(lo), T(hi))
    steps = np.linspace(-400, 400, 4001)
    near = ((o + 100)[:, None] + steps[None, :, None] * d[:, None])
    clear = ~((near > lo[:, None] - 0.3) & (near < hi[:, None] + 0.3)).all(-1).any(1)
    require((np64(b) < np64(a))[clear].all(), "a ray beside the box hits it")
    ctx.nontrivial(n > 1)
