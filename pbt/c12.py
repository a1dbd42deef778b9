import math

from hypothesis import strategies as st
import numpy as np
import torch

from artist.field.surface import Surface
from artist.geometry.transforms import perform_canting
from artist.nurbs import NURBSSurfaces, create_nurbs_evaluation_grid, create_planar_nurbs_control_points
from artist.util.config import FacetConfig, SurfaceConfig

from .core import DEV, Prop, T, close, np64, require, rng
from .gen import directions, fl, frame, h4, seeds, unit

PROP = Prop("C12", "several facets with different canting that is not the identity; data that does not lie in the facet's own axes")


@st.composite
def canted(draw, most_s=3, orthogonal=None):
    S, F = draw(st.integers(1, most_s)), draw(st.integers(1, 5))
    return dict(S=S, F=F, N=draw(st.integers(1, 12)), tilt=draw(st.sampled_from([0.0, 0.01, 0.1, 3.0])),
                skew=0.0 if orthogonal else draw(st.sampled_from([0.0, 0.0, 0.3])), size=draw(st.sampled_from([1.0, 0.1, 20.0])),
                seed=draw(seeds))


def canting_vectors(case):
    """[S, F, 2, 3] float64 of float32 values; the frame of facet k turned by up to ``tilt`` radians out of the ground."""
    g = rng(case["seed"])
    out = np.zeros((case["S"], case["F"], 2, 3))
    for s in range(case["S"]):
        for f in range(case["F"]):
            w = unit(g.normal(size=3)) * g.uniform(0, 1) * case["tilt"]
            R = rodrigues(w)
            e, n = R @ [1, 0, 0], R @ [0, 1, 0]
            n = unit(n + case["skew"] * g.uniform(-1, 1) * e)
            out[s, f] = np.stack([e * g.uniform(0.3, 2), n * g.uniform(0.3, 2)]) * case["size"]
    return out.astype(np.float32).astype(np.float64)


def rodrigues(w):
    t = np.linalg.norm(w)
    if t < 1e-12:
        return np.eye(3)
    k = w / t
    K = np.array([[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]])
    return np.eye(3) + math.sin(t) * K + (1 - math.cos(t)) * K @ K


def frames(c):
    e = unit(c[..., 0, :])
    u = unit(np.cross(c[..., 0, :], c[..., 1, :]))
    return np.stack([e, np.cross(u, e), u], -1)        # columns are the images of the axes


@PROP.sub("canting", canted(), quick=400, shards=2)
def canting(case, ctx):
    c = canting_vectors(case)
    g = rng(case["seed"] ^ 3)
    w = float(g.integers(0, 2))
    x = h4(g.uniform(-3, 3, (case["S"], case["F"], case["N"], 3)), w).astype(np.float32)
    R = frames(c)
    y = np64(perform_canting(T(h4(c, 0)), T(x), device=DEV))
    require(y.shape == x.shape, f"shape {y.shape}")
    close(y[..., 3], x[..., 3], "homogeneous coordinate")
    close(y[..., :3], np.einsum("sfij,sfnj->sfni", R, x[..., :3].astype(float)), "canted data", atol=2e-5 if not case["skew"] else 4e-5)
    close(np.linalg.norm(y[..., :3], axis=-1), np.linalg.norm(x[..., :3], axis=-1), "length", atol=1e-5)
    d = lambda a: np.linalg.norm(a[:, :, :, None, :3] - a[:, :, None, :, :3], axis=-1)
    close(d(y), d(x.astype(float)), "mutual distances", atol=2e-5)
    back = perform_canting(T(h4(c, 0)), T(y), inverse=True, device=DEV)
    close(back, x, "inverse canting of canted data", atol=3e-5)
    inv = np64(perform_canting(T(h4(c, 0)), T(x), inverse=True, device=DEV))
    close(inv[..., :3], np.einsum("sfji,sfnj->sfni", R, x[..., :3].astype(float)), "inverse canting", atol=4e-5)
    axes = np64(perform_canting(T(h4(c, 0)), T(h4(np.broadcast_to(np.eye(3), (case["S"], case["F"], 3, 3)), 0)), device=DEV))[..., :3]
    close(np.linalg.det(axes), np.ones(axes.shape[:2]), "handedness", atol=1e-4)
    close(axes[..., 0, :], unit(c[..., 0, :]), "image of east", atol=1e-5)
    close(axes[..., 2, :], unit(np.cross(c[..., 0, :], c[..., 1, :])), "image of up", atol=2e-5)
    ctx.nontrivial(case["tilt"] > 0 and case["S"] * case["F"] > 1)
    ctx.label(f"tilt {case['tilt']}"); ctx.label("skew" if case["skew"] else "orthogonal")


@st.composite
def planar_case(draw):
    deg = [draw(st.integers(1, 3)), draw(st.integers(1, 3))]
    return draw(canted(most_s=1, orthogonal=True)) | dict(
        deg=deg, n=[draw(st.integers(deg[0] + 1, 9)), draw(st.integers(deg[1] + 1, 9))],
        points=[draw(st.integers(2, 8)), draw(st.integers(2, 8))])


@PROP.sub("planar_facets", planar_case(), quick=300, shards=2)
def planar_facets(case, ctx):
    case = case | dict(S=1, size=1.0)
    c = canting_vectors(case)[0]
    g = rng(case["seed"] ^ 7)
    tr = g.uniform(-5, 5, (case["F"], 3)).astype(np.float32).astype(float)
    cps = create_planar_nurbs_control_points(torch.tensor(case["n"]), T(h4(c, 0)), device=DEV)
    facets = [FacetConfig(f"facet_{k}", cps[k], torch.tensor(case["deg"]), T(h4(tr, 0))[k], T(h4(c, 0))[k]) for k in range(case["F"])]
    s = Surface(SurfaceConfig(facets), device=DEV)
    p, n = s.get_surface_points_and_normals(torch.tensor(case["points"]), T(h4(c, 0)), T(h4(tr, 0)), device=DEV)
    P, N = np64(p), np64(n)
    a, b = case["points"]
    require(P.shape == (1, case["F"], a * b, 4) and N.shape == P.shape, f"shapes {P.shape} {N.shape}")
    u, v = [x.reshape(-1, 1) for x in np.meshgrid(np.linspace(-1, 1, a), np.linspace(-1, 1, b), indexing="ij")]
    close(P[..., 3], np.ones(P.shape[:3]), "homogeneous coordinate of points")
    for f in range(case["F"]):
        # a B-spline over equidistant control points of degree > 1 is a reparametrised plane: check plane, extent, corners
        up = unit(np.cross(c[f, 0], c[f, 1]))
        rel = P[0, f, :, :3] - tr[f]
        close(rel @ up, np.zeros(a * b), f"facet {f} lies in its plane", atol=2e-5)
        close(N[0, f, :, :3], np.broadcast_to(up, (a * b, 3)), f"normals of facet {f}", atol=1e-4)
        e, m = rel @ unit(c[f, 0]), rel @ unit(c[f, 1])
        he, hn = np.linalg.norm(c[f, 0]), np.linalg.norm(c[f, 1])
        require((np.abs(e) <= he + 1e-4).all() and (np.abs(m) <= hn + 1e-4).all(), f"facet {f} exceeds its canting extents")
        grid_e, grid_m = e.reshape(a, b), m.reshape(a, b)
        close(grid_e[[0, -1]], np.array([[-he], [he]]) + np.zeros((2, b)), "east rims", atol=1e-4)
        close(grid_m[:, [0, -1]], np.array([[-hn, hn]]) + np.zeros((a, 2)), "north rims", atol=1e-4)
        require((np.diff(grid_e, axis=0) > 0).all() and (np.diff(grid_m, axis=1) > 0).all(), "grid order")
        if case["deg"] == [1, 1] or (case["n"][0] == case["deg"][0] + 1 and case["n"][1] == case["deg"][1] + 1):
            close(P[0, f, :, :3], tr[f] + u * c[f, 0] + v * c[f, 1], f"points of facet {f}", atol=5e-5)
    # a facet does not depend on its neighbours
    k = int(g.integers(case["F"]))
    alone = Surface(SurfaceConfig([facets[k]]), device=DEV).get_surface_points_and_normals(
        torch.tensor(case["points"]), T(h4(c, 0))[k:k + 1], T(h4(tr, 0))[k:k + 1], device=DEV)
    close(alone[0][0, 0], P[0, k], "facet alone", atol=5e-6)
    ctx.nontrivial(case["F"] > 1 and case["tilt"] > 0 and a != b)


@st.composite
def placed_case(draw):
    return draw(canted()) | dict(n=[draw(st.integers(4, 7)), draw(st.integers(4, 7))], bump=draw(st.sampled_from([0.0, 0.05])))


@PROP.sub("placed_surfaces", placed_case(), quick=200, shards=2)
def placed_surfaces(case, ctx):
    """Evaluating with canting and translation is the rigid motion of evaluating without."""
    case = case | dict(size=1.0)
    c = canting_vectors(case)
    g = rng(case["seed"] ^ 11)
    S, F = case["S"], case["F"]
    tr = g.uniform(-5, 5, (S, F, 3))
    cp = np.zeros((S, F, *case["n"], 3))
    cp[..., 0] = np.linspace(-1, 1, case["n"][0])[:, None]
    cp[..., 1] = np.linspace(-1, 1, case["n"][1])[None]
    cp[..., 2] = g.uniform(-1, 1, cp.shape[:-1]) * case["bump"]
    ev = create_nurbs_evaluation_grid(torch.tensor([4, 3]), device=DEV)[None, None].expand(S, F, -1, -1)
    s = NURBSSurfaces(torch.tensor([3, 2]), T(cp), device=DEV)
    p, n = s.calculate_surface_points_and_normals(ev, None, None, device=DEV)
    q, m = s.calculate_surface_points_and_normals(ev, T(h4(c, 0)), T(h4(tr, 0)), device=DEV)
    R = frames(c)
    close(np64(q)[..., :3], np.einsum("sfij,sfnj->sfni", R, np64(p)[..., :3]) + tr[:, :, None], "placed points", atol=4e-5)
    close(np64(m)[..., :3], np.einsum("sfij,sfnj->sfni", R, np64(n)[..., :3]), "turned normals", atol=4e-5)
    close(np64(q)[..., 3], np.ones(q.shape[:3]), "homogeneous coordinate of points")
    close(np64(m)[..., 3], np.zeros(q.shape[:3]), "homogeneous coordinate of normals")
    ctx.nontrivial(S * F > 1 and case["tilt"] > 0 and case["bump"] > 0)
