import math

from hypothesis import strategies as st
import numpy as np
import torch

from artist.nurbs import NURBSSurfaces, create_nurbs_evaluation_grid, create_planar_nurbs_control_points

from .core import DEV, Prop, T, close, np64, require, rng
from .gen import directions, fl, frame, seeds, unit

PROP = Prop("C11", "control points that do not lie in one plane, more control points than the degree needs, evaluation points "
                   "inside and on the rim; labels tell degrees")


# ---------------------------------------------------------------- reference
def basis(degree, n, x):
    """All n B-spline basis functions of a clamped uniform knot vector and their derivatives at x (Cox-de Boor)."""
    knots = np.concatenate([np.zeros(degree), np.linspace(0, 1, n - degree + 1), np.ones(degree)])

    def table(d):
        out = np.zeros((len(x), len(knots) - 1))
        last = n - 1
        for i in range(len(knots) - 1):
            out[:, i] = (x >= knots[i]) & (x < knots[i + 1])
        out[x >= 1, :] = 0
        out[x >= 1, last] = 1
        for p in range(1, d + 1):
            new = np.zeros((len(x), len(knots) - 1 - p))
            for i in range(new.shape[1]):
                a, b = knots[i + p] - knots[i], knots[i + p + 1] - knots[i + 1]
                if a > 0:
                    new[:, i] += (x - knots[i]) / a * out[:, i]
                if b > 0:
                    new[:, i] += (knots[i + p + 1] - x) / b * out[:, i + 1]
            out = new
        return out

    val, low = table(degree), table(degree - 1)
    der = np.zeros_like(val)
    for i in range(n):
        a, b = knots[i + degree] - knots[i], knots[i + degree + 1] - knots[i + 1]
        if a > 0:
            der[:, i] += degree / a * low[:, i]
        if b > 0:
            der[:, i] -= degree / b * low[:, i + 1]
    return val, der


def surface(deg, cp, x):
    """cp [n_u, n_v, 3], x [E, 2] -> points [E,3], normals [E,3] (unnormalised cross product too)."""
    u, du = basis(deg[0], cp.shape[0], x[:, 0])
    v, dv = basis(deg[1], cp.shape[1], x[:, 1])
    p = np.einsum("eu,ev,uvc->ec", u, v, cp)
    n = np.cross(np.einsum("eu,ev,uvc->ec", du, v, cp), np.einsum("eu,ev,uvc->ec", u, dv, cp))
    return p, n


def near_knot(deg, n, x):
    """Evaluation points where a float32 evaluation may take the neighbouring polynomial piece."""
    k = np.linspace(0, 1, n - deg + 1)[1:-1]
    return (np.abs(x[:, None] - k[None]) < 1e-5).any(1) if len(k) else np.zeros(len(x), bool)


@st.composite
def nets(draw, most_h=3):
    deg = [draw(st.integers(1, 4)), draw(st.integers(1, 4))]
    n = [draw(st.integers(deg[0] + 1, deg[0] + 8)), draw(st.integers(deg[1] + 1, deg[1] + 8))]
    if draw(st.booleans()):
        deg[1], n[1] = deg[0], n[0]
    return dict(deg=deg, n=n, surfaces=draw(st.integers(1, most_h)), facets=draw(st.integers(1, 4)), half=[draw(fl(0.3, 2)), draw(fl(0.3, 2))],
                bump=draw(st.sampled_from([0.0, 0.01, 0.2])), jitter=draw(st.sampled_from([0.0, 0.1, 0.3])), seed=draw(seeds),
                points=[[draw(special), draw(special)] for _ in range(draw(st.integers(1, 5)))], bulk=draw(st.integers(0, 12)))


special = st.sampled_from([0.0, 1.0, 0.5, 1e-7, 1 - 1e-7]) | fl(0, 1)


def control_net(case):
    g = rng(case["seed"])
    H, F, (a, b) = case["surfaces"], case["facets"], case["n"]
    cp = np.zeros((H, F, a, b, 3))
    cp[..., 0] = case["half"][0] * np.linspace(-1, 1, a)[:, None]
    cp[..., 1] = case["half"][1] * np.linspace(-1, 1, b)[None]
    step = np.array([2 * case["half"][0] / (a - 1), 2 * case["half"][1] / (b - 1)])
    cp[..., :2] += g.uniform(-1, 1, (H, F, a, b, 2)) * step * case["jitter"]
    cp[..., 2] = g.uniform(-1, 1, (H, F, a, b)) * case["bump"]
    x = np.concatenate([np.array(case["points"]).reshape(-1, 2), g.random((case["bulk"], 2))])
    # every facet gets its own order of the evaluation points
    ev = np.stack([np.stack([x[g.permutation(len(x))] for _ in range(F)]) for _ in range(H)])
    return T(cp), T(ev)


def evaluate(case, cp, ev, uniform=True):
    s = NURBSSurfaces(degrees=torch.tensor(case["deg"]), control_points=cp, uniform=uniform, device=DEV)
    return s.calculate_surface_points_and_normals(evaluation_points=ev, canting=None, facet_translations=None, device=DEV)


@PROP.sub("reference", nets(), quick=500, shards=4)
def reference(case, ctx):
    cp, ev = control_net(case)
    p, n = evaluate(case, cp, ev)
    P, N = np64(p), np64(n)
    H, F, E = ev.shape[:3]
    require(P.shape == (H, F, E, 4) and N.shape == (H, F, E, 4), f"shapes {P.shape}, {N.shape}")
    close(P[..., 3], np.ones((H, F, E)), "homogeneous coordinate of points")
    close(N[..., 3], np.zeros((H, F, E)), "homogeneous coordinate of normals")
    for h in range(H):
        for f in range(F):
            x = np64(ev[h, f])
            rp, rn = surface(case["deg"], np64(cp[h, f]), x)
            # a piecewise linear surface has kinks in its normals at the knots
            close(P[h, f, :, :3], rp, f"points of facet {f} of surface {h}", atol=5e-6)
            size = np.linalg.norm(rn, axis=1)
            ok = size > 1e-3
            for d in (0, 1):
                if case["deg"][d] == 1:
                    ok &= ~near_knot(1, case["n"][d], x[:, d])
            cond = (4 * case["n"][0] * case["n"][1] * 4) / np.maximum(size, 1e-9)
            close(N[h, f, :, :3], rn / np.maximum(size, 1e-12)[:, None], f"normals of facet {f} of surface {h}", mask=ok[:, None],
                  atol=np.clip(3e-6 * cond, 2e-5, 0.05)[:, None])
            close(np.linalg.norm(N[h, f, ok, :3], axis=1), np.ones(int(ok.sum())), "length of normals", atol=1e-5)
            if case["jitter"] == 0 and case["bump"] <= 0.01:
                require((N[h, f, ok, 2] > 0.5).all(), "normal does not point to the mirror's front")
    # the general search for knot spans gives the same surface
    p2, _ = evaluate(case, cp, ev, uniform=False)
    close(p2, P, "points with general knot spans", atol=2e-4)
    ctx.nontrivial(case["bump"] > 0 and min(np.array(case["n"]) - np.array(case["deg"])) > 1)
    ctx.label(f"degrees {case['deg']}" if max(case["deg"]) < 4 else "degree 4")


@PROP.sub("corners", nets(), quick=200)
def corners(case, ctx):
    cp, _ = control_net(case)
    H, F = case["surfaces"], case["facets"]
    x = T([[0, 0], [0, 1], [1, 0], [1, 1]])
    p, _ = evaluate(case, cp, x[None, None].expand(H, F, 4, 2))
    ref = torch.stack([cp[:, :, 0, 0], cp[:, :, 0, -1], cp[:, :, -1, 0], cp[:, :, -1, -1]], 2)
    close(p[..., :3], ref, "surface corners", atol=3e-6)
    # rims are the curves of the outer control points
    g = rng(case["seed"] ^ 5)
    t = g.random(6)
    for d, side in ((0, 0), (0, 1), (1, 0), (1, 1)):
        e = np.stack([np.full(6, side), t] if d == 0 else [t, np.full(6, side)], 1)
        p, _ = evaluate(case, cp, T(e)[None, None].expand(H, F, 6, 2))
        row = np64(cp[:, :, -side] if d == 0 else cp[:, :, :, -side])
        v, _ = basis(case["deg"][1 - d], case["n"][1 - d], np64(T(t)))
        close(p[..., :3], np.einsum("ev,hfvc->hfec", v, row), "rim of the surface", atol=5e-6)
    ctx.nontrivial(case["bump"] > 0)


@st.composite
def motion_case(draw):
    return draw(nets()) | dict(axis=draw(directions()), roll=draw(fl(-3, 3)), shift=[draw(fl(-20, 20)) for _ in range(3)])


@PROP.sub("rigid_motion", motion_case(), quick=200, shards=2)
def rigid_motion(case, ctx):
    cp, ev = control_net(case)
    a, b = frame(case["axis"], case["roll"])
    R = np.stack([a, b, unit(case["axis"])], 1)
    moved = T(np64(cp) @ R.T + case["shift"])
    p, n = evaluate(case, cp, ev)
    q, m = evaluate(case, moved, ev)
    close(q[..., :3], np64(p)[..., :3] @ R.T + case["shift"], "points of the moved net", atol=3e-5)
    ok = np.ones(ev.shape[:3], bool)
    for h in range(ev.shape[0]):
        for f in range(ev.shape[1]):
            x = np64(ev[h, f])
            _, rn = surface(case["deg"], np64(cp[h, f]), x)
            ok[h, f] = np.linalg.norm(rn, axis=1) > 0.2 * case["half"][0] * case["half"][1]
            for d in (0, 1):
                if case["deg"][d] == 1:
                    ok[h, f] &= ~near_knot(1, case["n"][d], x[:, d])
    close(m[..., :3], np64(n)[..., :3] @ R.T, "normals of the moved net", atol=5e-3, mask=ok[..., None])
    ctx.nontrivial(case["bump"] > 0)


@PROP.sub("independent", nets(most_h=4), quick=150, shards=2)
def independent(case, ctx):
    """Each facet evaluated alone gives what it gives in the batch; other facets' control points have no influence."""
    cp, ev = control_net(case)
    p, n = evaluate(case, cp, ev)
    g = rng(case["seed"] ^ 9)
    h, f = int(g.integers(case["surfaces"])), int(g.integers(case["facets"]))
    q, m = evaluate(case, cp[h:h + 1, f:f + 1], ev[h:h + 1, f:f + 1])
    close(q[0, 0], p[h, f], "facet alone: points", atol=2e-6)
    close(m[0, 0], n[h, f], "facet alone: normals", atol=1e-4)
    other = cp + T(g.normal(size=tuple(cp.shape)))
    other[h, f] = cp[h, f]
    q, m = evaluate(case, other, ev)
    close(q[h, f], p[h, f], "facet among changed others: points", atol=2e-6)
    close(m[h, f], n[h, f], "facet among changed others: normals", atol=1e-4)
    ctx.nontrivial(case["surfaces"] * case["facets"] > 1)


@st.composite
def grid_case(draw):
    facets = draw(st.integers(1, 5))
    return dict(points=[draw(st.integers(1, 30)), draw(st.integers(1, 30))], n=[draw(st.integers(2, 12)), draw(st.integers(2, 12))],
                cant=[[[draw(fl(0.2, 3)), 0.0, draw(fl(-0.1, 0.1))], [0.0, draw(fl(0.2, 3)), draw(fl(-0.1, 0.1))]] for _ in range(facets)])


@PROP.sub("grids", grid_case(), quick=200)
def grids(case, ctx):
    g = np64(create_nurbs_evaluation_grid(torch.tensor(case["points"]), device=DEV))
    a, b = case["points"]
    require(g.shape == (a * b, 2), f"shape of the evaluation grid {g.shape}")
    require((g >= 0).all() and (g < 1).all(), "evaluation grid leaves the parameter range")
    ref = np.stack(np.meshgrid(np.linspace(0, 1, a) if a > 1 else [0.0], np.linspace(0, 1, b) if b > 1 else [0.0], indexing="ij"), -1)
    close(g, ref.reshape(-1, 2), "evaluation grid", atol=1e-6)
    c = np.concatenate([np.array(case["cant"]), np.zeros((len(case["cant"]), 2, 1))], -1)
    cp = np64(create_planar_nurbs_control_points(torch.tensor(case["n"]), T(c), device=DEV))
    n, m = case["n"]
    half = np.linalg.norm(c, axis=-1)
    ref = np.zeros((len(c), n, m, 3))
    ref[..., 0] = (half[:, 0, None] * np.linspace(-1, 1, n))[:, :, None]
    ref[..., 1] = (half[:, 1, None] * np.linspace(-1, 1, m))[:, None, :]
    close(cp, ref, "planar control points", atol=1e-5)
    ctx.nontrivial(a != b and n != m)
