from hypothesis import strategies as st
import numpy as np
import torch

import artist.raytracing  # noqa: F401
from artist.nurbs import NURBSSurfaces, create_nurbs_evaluation_grid
from artist.scenario import SurfaceGenerator
from artist.util import constants

from .c11 import surface
from .core import DEV, Prop, T, close, np64, raises, require, rng, same
from .gen import fl, h4, seeds, unit
from .scene import canting_frames, facet_offsets

PROP = Prop("C26", "curved facets with several interior control points; several facets with different numbers of points; canted ideal facets",
            assumptions=["The fit uses Adam with the step size 0.01 for 400 epochs (its result is that of an iterative optimiser: points to "
                         "2 mm, normals to a fifth of what they were before, plus 0.3 mrad).",
                         "Facets are centred (the initial control net is centred at the origin) and measured over their whole outline."])

POINTS, NORMALS = constants.fit_nurbs_from_points, constants.fit_nurbs_from_normals


def facet(half, n, height, g, tilt=0.0):
    """Measured points and normals of a smooth facet."""
    corners = np.array([[-1, -1], [-1, 1], [1, -1], [1, 1]])
    s = np.concatenate([corners, g.uniform(-1, 1, (max(0, n - 4), 2))])[g.permutation(max(4, n))]
    c = g.uniform(-1, 1, 4) * height * [1, 1, 1, 0.2]
    t = g.uniform(-1, 1, 2) * tilt
    x, y = s.T
    z = c[0] * x * x + c[1] * y * y + c[2] * x * y + c[3] * np.sin(2 * x) + t[0] * x * half[0] + t[1] * y * half[1]
    dx = (2 * c[0] * x + c[2] * y + 2 * c[3] * np.cos(2 * x)) / half[0] + t[0]
    dy = (2 * c[1] * y + c[2] * x) / half[1] + t[1]
    return np.c_[s * half, z], unit(np.stack([-dx, -dy, np.ones_like(x)], 1))


def parameters(points):
    x = points[:, :2] - points[:, :2].min(0)
    return (x + 1e-5) / (x + 2e-5).max(0)


@st.composite
def fits(draw):
    deg = [draw(st.integers(2, 3)), draw(st.integers(2, 3))]
    return dict(deg=deg, n=[draw(st.integers(deg[0] + 1, 6)), draw(st.integers(deg[1] + 1, 6))], half=[draw(fl(0.4, 1.2)), draw(fl(0.4, 1.2))],
                points=draw(st.integers(60, 110)), height=draw(st.sampled_from([0.0, 5e-3, 5e-3, 2e-2])), tilt=draw(st.sampled_from([0.0, 5e-3])),
                method=draw(st.sampled_from([POINTS, NORMALS])), seed=draw(seeds))


def adam(lr=1e-2):
    return torch.optim.Adam([torch.empty(1, requires_grad=True)], lr=lr)


@PROP.sub("fit", fits(), quick=28, shards=4)
def fit(case, ctx):
    g = rng(case["seed"])
    p, n = facet(case["half"], case["points"], case["height"], g, case["tilt"])
    P, N = T(h4(p, 1)), T(h4(n, 0))
    before = P.clone(), N.clone()
    gen = SurfaceGenerator(number_of_control_points=torch.tensor(case["n"]), degrees=torch.tensor(case["deg"]), device=DEV)
    s = gen.fit_nurbs(P, N, adam(), None, case["method"], tolerance=1e-12, max_epoch=400, device=DEV)
    require(torch.equal(P, before[0]) and torch.equal(N, before[1]), "the measurement is changed")
    cp = np64(s.control_points.detach())
    require(cp.shape == (1, 1, *case["n"], 3), f"control points {cp.shape}")
    same([int(d) for d in s.degrees], case["deg"], "degrees")
    q, m = surface(case["deg"], cp[0, 0], parameters(np64(P)))
    m = unit(m)
    if case["method"] == POINTS:
        err = np.sqrt(((q - p) ** 2).sum(1).mean())
        require(err <= 2e-3, f"fitted points are off by {err * 1e3:.3f} mm (rms)")
        ang = np.sqrt(((m - n) ** 2).sum(1).mean())
        require(ang <= 8e-3, f"normals of the surface fitted to points are off by {ang * 1e3:.3f} mrad (rms)")
    else:
        start = np.sqrt(((n - [0, 0, 1]) ** 2).sum(1).mean())
        err = np.sqrt(((m - n) ** 2).sum(1).mean())
        require(err <= 0.2 * start + 3e-4, f"fitted normals are off by {err * 1e3:.3f} mrad (rms), {start * 1e3:.3f} mrad before")
    ctx.nontrivial(case["height"] > 0)
    ctx.label(case["method"])


@PROP.sub("extent", fits(), quick=60)
def extent(case, ctx):
    """However few steps the fit takes, the fitted facet spans the outline that was measured."""
    p, n = facet(case["half"], case["points"], case["height"], rng(case["seed"]), case["tilt"])
    gen = SurfaceGenerator(number_of_control_points=torch.tensor(case["n"]), degrees=torch.tensor(case["deg"]), device=DEV)
    s = gen.fit_nurbs(T(h4(p, 1)), T(h4(n, 0)), adam(1e-6), None, case["method"], tolerance=1e-12, max_epoch=case["points"] % 3, device=DEV)
    at = np.array([[0.0, 0.0], [0.0, 1.0], [1.0, 0.0], [1.0, 1.0], [0.5, 0.5]])
    q, _ = surface(case["deg"], np64(s.control_points.detach())[0, 0], at)
    close(q, np.c_[(2 * at - 1) * case["half"], 0 * at[:, 0]], "corners and centre of the facet", atol=1e-3)
    ctx.nontrivial(abs(case["half"][0] - case["half"][1]) > 0.05)


@st.composite
def configs(draw):
    deg = [draw(st.integers(1, 3)), draw(st.integers(1, 3))]
    f = draw(st.sampled_from([1, 2, 4]))
    return dict(deg=deg, n=[draw(st.integers(deg[0] + 1, 6)), draw(st.integers(deg[1] + 1, 6))], half=[draw(fl(0.4, 1.2)), draw(fl(0.4, 1.2))],
                counts=[draw(st.integers(12, 60)) for _ in range(f)], step=draw(st.sampled_from([1, 1, 2, 3])), order=draw(st.permutations(list(range(f)))),
                method=draw(st.sampled_from([POINTS, NORMALS])), scheduler=draw(st.booleans()), epochs=draw(st.integers(0, 12)), lr=draw(st.sampled_from([1e-2, 1e-3])),
                seed=draw(seeds))


def plateau(optimizer):
    return torch.optim.lr_scheduler.ReduceLROnPlateau(optimizer, mode="min", factor=0.2, patience=1, threshold=1e-7, threshold_mode="abs")


@PROP.sub("facets", configs(), quick=100, shards=3)
def facets(case, ctx):
    """Every facet is fitted by itself, from the selected measurements, and keeps its own place and canting."""
    g = rng(case["seed"])
    f = len(case["counts"])
    data = [facet(case["half"], k, float(h), g) for k, h in zip(case["counts"], g.uniform(1e-3, 3e-2, f))]
    least, step = min(len(p) for p, _ in data), case["step"]
    shift, cant = h4(g.uniform(-1, 1, (f, 3)), 0), h4(g.uniform(-1, 1, (f, 2, 3)), 0)

    def generate(order, spoil=False):
        pts, nrm = [], []
        for i in order:
            p, n = (np.array(x) for x in data[i])
            if spoil:             # measurements that are not selected
                rest = np.ones(len(p), bool)
                rest[:least][::step] = False
                p[rest] = n[rest] = 1e3
            pts.append(T(p)), nrm.append(T(n))
        o = adam(case["lr"])
        gen = SurfaceGenerator(number_of_control_points=torch.tensor(case["n"]), degrees=torch.tensor(case["deg"]), device=DEV)
        return gen.generate_fitted_surface_config(
            heliostat_name="h", facet_translation_vectors=T(shift[list(order)]), canting=T(cant[list(order)]), surface_points_with_facets_list=pts,
            surface_normals_with_facets_list=nrm, optimizer=o, scheduler=plateau(o) if case["scheduler"] else None,
            deflectometry_step_size=step, fit_method=case["method"], tolerance=1e-12, max_epoch=case["epochs"], device=DEV).facet_list

    a = generate(range(f))
    same([x.facet_key for x in a], [f"facet_{i + 1}" for i in range(f)], "facet keys")
    for i, x in enumerate(a):
        require(tuple(x.control_points.shape) == (*case["n"], 3) and not x.control_points.requires_grad, f"control points of facet {i}")
        same([int(d) for d in x.degrees], case["deg"], "degrees")
        close(x.canting, cant[i], f"canting of facet {i}")
        close(x.translation_vector, shift[i] * (case["method"] == NORMALS), f"translation of facet {i}")
    for i, x in enumerate(generate(range(f), spoil=True)):
        same(x.control_points, a[i].control_points, f"facet {i}: depends on measurements that are not selected")
    for i, x in zip(case["order"], generate(case["order"])):
        same(x.control_points, a[i].control_points, f"facet {i} fitted in the order {case['order']}")
    # a single facet by itself
    i = case["order"][0]
    p, n = data[i]
    gen = SurfaceGenerator(number_of_control_points=torch.tensor(case["n"]), degrees=torch.tensor(case["deg"]), device=DEV)
    o = adam(case["lr"])
    s = gen.fit_nurbs(T(h4(p[:least:step], 1)), T(h4(n[:least:step], 0)), o, plateau(o) if case["scheduler"] else None, case["method"], 1e-12,
                      case["epochs"], device=DEV)
    close(a[i].control_points, np64(s.control_points[0, 0].detach()) + shift[i, :3] * (case["method"] == NORMALS), f"facet {i}: translation", atol=1e-6)
    ctx.nontrivial(f > 1 and case["epochs"] > 2 and len(set(case["counts"])) > 1)
    ctx.label(f"{case['method']}, {'with' if case['scheduler'] else 'without'} scheduler")


@st.composite
def ideals(draw):
    deg = [draw(st.integers(1, 3)), draw(st.integers(1, 3))]
    return dict(deg=deg, n=[draw(st.integers(deg[0] + 1, 12)), draw(st.integers(deg[1] + 1, 12))], half=[draw(fl(0.3, 2)), draw(fl(0.3, 2))],
                facets=draw(st.sampled_from([1, 4, 4, 9])), cant=draw(st.sampled_from([0.0, 0.005, 0.05, 0.3])), seed=draw(seeds))


@PROP.sub("ideal", ideals(), quick=250)
def ideal(case, ctx):
    g = rng(case["seed"])
    f = case["facets"]
    if f == 9:
        halves, frames, offs = g.uniform(0.2, 1, (9, 2)), [], g.uniform(-2, 2, (9, 3))
        for i in range(9):
            frames.append(canting_frames(halves[i], 4, case["cant"])[i % 4])
        frames = np.stack(frames)
    else:
        frames, offs = canting_frames(case["half"], f, case["cant"]), facet_offsets(case["half"], f)
    frames = np.array(frames)
    halves = np.linalg.norm(frames, axis=-1)
    gen = SurfaceGenerator(number_of_control_points=torch.tensor(case["n"]), degrees=torch.tensor(case["deg"]), device=DEV)
    out = gen.generate_ideal_surface_config(facet_translation_vectors=T(h4(offs, 0)), canting=T(h4(frames, 0)), device=DEV).facet_list
    same([x.facet_key for x in out], [f"facet_{i + 1}" for i in range(f)], "facet keys")
    for i, x in enumerate(out):
        same([int(d) for d in x.degrees], case["deg"], "degrees")
        close(x.translation_vector, h4(offs[i], 0), f"translation of facet {i}")
        close(x.canting, h4(frames[i], 0), f"canting of facet {i}")
        e, n = np.meshgrid(np.linspace(-1, 1, case["n"][0]), np.linspace(-1, 1, case["n"][1]), indexing="ij")
        close(x.control_points, np.stack([e * halves[i, 0], n * halves[i, 1], 0 * e], -1), f"control points of facet {i}", atol=1e-6)
    # the surface itself: flat facets spanned by their canting vectors around their own centre
    cp = torch.stack([x.control_points for x in out])[None]
    k = torch.tensor([4, 3])
    ev = create_nurbs_evaluation_grid(number_of_evaluation_points=k, device=DEV)[None, None].expand(1, f, -1, -1)
    p, n = NURBSSurfaces(degrees=torch.tensor(case["deg"]), control_points=cp, device=DEV).calculate_surface_points_and_normals(
        evaluation_points=ev, canting=torch.stack([x.canting for x in out])[None], facet_translations=torch.stack([x.translation_vector for x in out])[None], device=DEV)
    for i in range(f):
        d = np64(p)[0, i, :, :3] - offs[i]
        u = unit(np.cross(frames[i, 0], frames[i, 1]))
        close(d @ u, np.zeros(len(d)), f"facet {i} is flat", atol=5e-6)
        close(np64(n)[0, i, :, :3], np.repeat([u], len(d), 0), f"normal of facet {i}", atol=5e-6)
        e, m = d @ unit(frames[i, 0]) / halves[i, 0], d @ unit(frames[i, 1]) / halves[i, 1]
        require(abs(e.max() - 1) < 1e-4 and abs(e.min() + 1) < 1e-4 and abs(m.max() - 1) < 1e-4 and abs(m.min() + 1) < 1e-4,
                f"facet {i} reaches from {e.min(), m.min()} to {e.max(), m.max()} of its half-widths")
    ctx.nontrivial(f > 1 and case["cant"] > 0 and case["n"][0] != case["n"][1])


@PROP.sub("unknown_method", st.tuples(st.text(max_size=12), seeds), quick=20)
def unknown_method(case, ctx):
    name, seed = case
    if name in (POINTS, NORMALS):
        return
    p, n = facet([1.0, 1.0], 20, 1e-3, rng(seed))
    gen = SurfaceGenerator(number_of_control_points=torch.tensor([4, 4]), device=DEV)
    raises(lambda: gen.fit_nurbs(T(h4(p, 1)), T(h4(n, 0)), adam(), None, name, device=DEV), (NotImplementedError,), f"fit method {name!r}")
    ctx.nontrivial(len(name) > 0)
