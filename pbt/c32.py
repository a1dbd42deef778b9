import math

from hypothesis import assume, strategies as st
import numpy as np
import torch

import artist.raytracing  # noqa: F401
from artist.flux import bitmap
from artist.nurbs import NURBSSurfaces, create_nurbs_evaluation_grid
from artist.optim.loss import AngleLoss, CosineSimilarityLoss, FocalSpotLoss, KLDivergenceLoss, PixelLoss, VectorLoss
from artist.optim.regularizers import IdealSurfaceRegularizer, SmoothnessRegularizer
from artist.raytracing import HeliostatRayTracer, blocking

from . import c05, kin, scene
from .c10 import dense_field, set_up, trace
from .c11 import near_knot, surface
from .c12 import canting_vectors, frames
from .c13 import ref as rot
from .c15 import Model
from .c22 import mean_pixel
from .c24 import kl
from .core import DEV, Prop, T, close, np64, require, rng
from .gen import fl, h4, seeds, unit
from .refs import receiver_hits, receiver_point, reflected, rotate_east_up
from .scene import cylinder_spec, field_plane, scenario, spec32

PROP = Prop("C32", "gradients that are clearly not zero with respect to several parameters, several heliostats or repeated ones",
            assumptions=["Numerical differentiation is done on independent float64 references (blocking: on the code with a soft edge).",
                         "Rays within rounding of a pixel or receiver border take no part (their pixels weigh nothing)."])


def slopes(f, at, steps, g, few=4):
    """Central differences of f (array valued) along some coordinates and one common direction of every parameter.

    Yields (name, what, direction, df) with direction an array like the parameter.
    """
    for name, x in at.items():
        if x.size == 0:
            continue
        picks = g.permutation(x.size)[:few]
        for k in [*picks, None]:
            d = np.zeros(x.size)
            if k is None:
                d[:] = g.choice([-1.0, 1.0], x.size)
            else:
                d[k] = 1.0
            d = d.reshape(x.shape)
            h = steps[name]
            yield name, "a common direction" if k is None else f"element {np.unravel_index(k, x.shape)}", d, \
                [(b - a) / (2 * h) for a, b in zip(f({**at, name: x - h * d}), f({**at, name: x + h * d}))]


def gradients(loss, leaves):
    loss.backward()
    out = {}
    for n, x in leaves.items():
        if x.numel() == 0:
            continue
        require(x.grad is not None, f"no gradient reaches {n}")
        require(bool(torch.isfinite(x.grad).all()), f"gradient with respect to {n} is not finite")
        out[n] = np64(x.grad)
    return out


def leaf(x):
    return T(x).clone().requires_grad_(True)


# ---------------------------------------------------------------- kinematics
def pose(pos, rdev, tdev, a):
    first = rot("n", rdev[:, 0]) @ rot("u", rdev[:, 1]) @ kin.shift(tdev[:, 0:3]) @ rot("e", a[:, 0])
    second = rot("e", rdev[:, 2]) @ rot("n", rdev[:, 3]) @ kin.shift(tdev[:, 3:6]) @ rot("u", a[:, 1])
    return kin.shift(pos) @ first @ second @ kin.shift(tdev[:, 6:9]) @ kin.SOUTH


def joint_angles(non, opt, motor):
    return motor if non.shape[1] == 4 else Model(non, opt).angle(motor)


def parameters(a):
    f = lambda k: np64(T(a[k]))
    return dict(rotations=f("kinematics_rotation_deviation_parameters"), translations=f("kinematics_translation_deviation_parameters"),
                actuators=f("actuator_parameters_optimizable"))


def plant_leaves(grp, values):
    """Parameters of a group as the leaves of the computation."""
    leaves = {k: leaf(v) for k, v in values.items()}
    k = grp.kinematics
    k.rotation_deviation_parameters, k.translation_deviation_parameters = leaves["rotations"], leaves["translations"]
    k.actuators.optimizable_parameters = leaves["actuators"]
    return leaves


@PROP.sub("pose", kin.group_case(), quick=240, shards=2)
def pose_gradients(case, ctx):
    """Poses with respect to all kinematic parameters; repeated heliostats add up."""
    g = rng(case["seed"])
    a = kin.arrays_of(case)
    grp = scene.group(case["group"], **a)
    mask = np.array(case["mask"])
    if not mask.any():
        mask[-1] = 2
    idx = np.repeat(np.arange(len(mask)), mask)
    sub = kin.take(a, idx)
    motor = kin.motor_positions(case | dict(at=g.random((len(idx), 2)).tolist()), sub, 0.1, 0.9)
    non = np64(T(a["actuator_parameters_non_optimizable"]))
    at = parameters(a)
    leaves = plant_leaves(grp, at)
    at["motors"], leaves["motors"] = motor, leaf(motor)
    imask = T(mask, torch.int32)
    w, v = g.uniform(-1, 1, (len(idx), 3, 4)), g.uniform(-1, 1, (len(idx), grp.surface_points.shape[1], 4))
    points = np64(grp.surface_points)[idx]

    def f(p):
        M = pose(np64(T(a["positions"]))[idx, :3], p["rotations"][idx], p["translations"][idx],
                 joint_angles(non[idx], p["actuators"][idx] if p["actuators"].size else p["actuators"], p["motors"]))
        return w * M[:, :3], v * np.einsum("hij,hpj->hpi", M, points)

    grp.activate_heliostats(imask, device=DEV)
    M = grp.kinematics.motor_positions_to_orientations(leaves["motors"], device=DEV)
    grp.align_surfaces_with_motor_positions(leaves["motors"], imask, device=DEV)
    grads = gradients((M[:, :3] * T(w)).sum() + (grp.active_surface_points * T(v)).sum(), leaves)
    linear = case["group"]["kind"] == "linear"
    steps = dict(rotations=1e-5, translations=1e-4, actuators=1e-6, motors=0.2 if linear else 1e-5)
    worst = 0
    for name, what, d, (dm, dp) in slopes(f, at, steps, g):
        scale = np.abs(dm).sum() + np.abs(dp).sum()
        close((grads[name] * d).sum(), dm.sum() + dp.sum(), f"gradient of poses with respect to {what} of {name}", atol=slack(linear, non, at, idx) * scale + 1e-12)
        worst += scale > 0
    ctx.nontrivial(worst > 8 and len(idx) > 1)
    ctx.label(case["group"]["kind"] + (" repeated" if (mask > 1).any() else ""))


def slack(linear, non, at, idx):
    """Relative float32 error of gradients: large where the actuator triangle is flat."""
    if not linear:
        return 1e-4
    m = Model(non[idx], at["actuators"][idx])
    out = 1e-3
    for s in (m.stroke(at["motors"]), m.s0 + 0 * at["motors"]):
        out = max(out, float((1e-4 / np.maximum(np.sin(m.corner(s)), 1e-3) ** 2).max()))
    return out


@PROP.sub("inverse", kin.group_case(), quick=160)
def inverse(case, ctx):
    """Motor positions with respect to wanted joint angles and actuator parameters."""
    assume(case["group"]["kind"] == "linear")
    g = rng(case["seed"])
    a = kin.arrays_of(case)
    non, opt = np64(T(a["actuator_parameters_non_optimizable"])), np64(T(a["actuator_parameters_optimizable"]))
    motor = kin.motor_positions(case | dict(at=g.random((len(non), 2)).tolist()), a, 0.1, 0.9)
    want = np64(T(Model(non, opt).angle(motor)))
    grp = scene.group(case["group"], **a)
    act = grp.kinematics.actuators
    leaves = dict(actuators=leaf(opt), angles=leaf(want))
    act.optimizable_parameters = leaves["actuators"]
    grp.activate_heliostats(device=DEV)
    w = g.uniform(-1, 1, want.shape) / 1e5

    def f(p):
        m = Model(non, p["actuators"])
        d = p["angles"] - m.a0
        corner = m.corner(m.s0) + np.where(m.cw, -d, d)
        s = np.sqrt(m.o**2 + m.p**2 - 2 * m.o * m.p * np.cos(corner))
        return [w * (s - m.s0) * m.inc]

    close((f(dict(actuators=opt, angles=want))[0] / w), motor, "reference", atol=5.0 + 1e-3 * np.abs(motor), rtol=1e-3)
    grads = gradients((act.angles_to_motor_positions(leaves["angles"], device=DEV) * T(w)).sum(), leaves)
    at = dict(actuators=opt, angles=want)
    rel = slack(True, non, dict(actuators=opt, motors=motor), np.arange(len(non)))
    part = 1e-5 * np.abs(w * Model(non, opt).inc).sum()         # the change of the initial stroke nearly cancels
    for name, what, d, (dw,) in slopes(f, at, dict(actuators=1e-6, angles=1e-6), g):
        close((grads[name] * d).sum(), dw.sum(), f"gradient of motor positions with respect to {what} of {name}", atol=rel * np.abs(dw).sum() + part)
    ctx.nontrivial(len(non) > 1)


# ---------------------------------------------------------------- surfaces
@st.composite
def surface_case(draw):
    S, F = draw(st.integers(1, 3)), draw(st.integers(1, 4))
    deg = [draw(st.integers(1, 3)), draw(st.integers(1, 3))]
    return dict(S=S, F=F, tilt=draw(st.sampled_from([0.0, 0.01, 0.1])), skew=0.0, size=1.0, seed=draw(seeds), deg=deg, place=draw(st.booleans()),
                n=[draw(st.integers(deg[0] + 1, 7)), draw(st.integers(deg[1] + 1, 7))], points=draw(st.integers(1, 12)), bump=draw(st.sampled_from([1e-3, 0.05])))


@PROP.sub("surfaces", surface_case(), quick=160, shards=2)
def surfaces(case, ctx):
    g = rng(case["seed"])
    S, F, E = case["S"], case["F"], case["points"]
    cp = np.zeros((S, F, *case["n"], 3))
    cp[..., 0] = np.linspace(-1, 1, case["n"][0])[:, None] * 1.3
    cp[..., 1] = np.linspace(-1, 1, case["n"][1])
    cp[..., 2] = g.uniform(-1, 1, cp.shape[:-1]) * case["bump"]
    cp = np64(T(cp))
    x = np64(T(g.uniform(0.0, 1.0, (S, F, E, 2))))
    sure = ~(near_knot(case["deg"][0], case["n"][0], x[..., 0].reshape(-1)) | near_knot(case["deg"][1], case["n"][1], x[..., 1].reshape(-1))).reshape(S, F, E)
    cant, move = canting_vectors(case), np64(T(g.uniform(-3, 3, (S, F, 3))))
    w, v = (g.uniform(-1, 1, (S, F, E, 3)) * sure[..., None] for _ in range(2))

    def f(p):
        R = frames(p["canting"])
        out = np.zeros((2, S, F, E, 3))
        for s in range(S):
            for j in range(F):
                pts, n = surface(case["deg"], p["control points"][s, j], x[s, j])
                n = n / np.linalg.norm(n, axis=1, keepdims=True)
                out[:, s, j] = (pts @ R[s, j].T + p["facet positions"][s, j], n @ R[s, j].T) if case["place"] else (pts, n)
        return out[0] * w, out[1] * v

    at = {"control points": cp, "canting": cant, "facet positions": move}
    leaves = {k: leaf(x) for k, x in at.items()}
    nurbs = NURBSSurfaces(torch.tensor(case["deg"]), leaves["control points"], device=DEV)
    four = lambda x: torch.nn.functional.pad(x, (0, 1))
    place = (four(leaves["canting"]), four(leaves["facet positions"])) if case["place"] else (None, None)
    P, N = nurbs.calculate_surface_points_and_normals(T(x), *place, device=DEV)
    if not case["place"]:
        at, leaves = {"control points": cp}, {"control points": leaves["control points"]}
        base = f
        f = lambda p: base({"canting": cant, "facet positions": move} | p)
    grads = gradients((P[..., :3] * T(w)).sum() + (N[..., :3] * T(v)).sum(), leaves)
    for name, what, d, (a, b) in slopes(f, at, {k: 1e-6 for k in at}, g, few=6):
        close((grads[name] * d).sum(), a.sum() + b.sum(), f"gradient of surfaces with respect to {what} of {name}",
              atol=1e-3 * (np.abs(a).sum() + np.abs(b).sum()) + 1e-5)
    ctx.nontrivial(S * F > 1 and E > 1)
    ctx.label("placed" if case["place"] else "not placed")


# ---------------------------------------------------------------- flux
@st.composite
def flux_case(draw):
    c = draw(c05.plant())
    for s in c["specs"]:
        s["side"] = 2
    return c | dict(points=[draw(st.integers(1, 3)), draw(st.integers(1, 3))], rays=draw(st.integers(1, 3)), bump=draw(st.sampled_from([1e-3, 5e-3])),
                    batch=draw(st.integers(1, 5)), ext=draw(st.sampled_from([0.0, 0.3])), refl=draw(st.sampled_from([0.935, 1.0])),
                    rseed=draw(st.integers(0, 10**6)), cylinder=draw(st.booleans()))


@PROP.sub("flux", flux_case(), quick=120, shards=4)
def flux(case, ctx):
    """Bitmaps with respect to control points, motor positions and all kinematic parameters."""
    g = rng(case["seed"])
    if case["cylinder"]:
        case = case | dict(index=[len(case["planes"]) + i % len(case["cylinders"]) for i in case["index"]])
    sc, grp, mask, index, inc = c05.prepare(case)
    spec = case["specs"][case["which"]]
    linear = spec["kind"] == "linear"
    arr = scene.group_arrays(spec)
    idx = np.repeat(np.arange(len(case["mask"])), case["mask"])
    motor = np64(grp.kinematics.active_motor_positions)
    non = np64(T(arr["actuator_parameters_non_optimizable"]))
    H, F = len(spec["positions"]), spec["facets"]
    net = arr["nurbs_control_points"].copy()
    net[..., 2] += g.uniform(-1, 1, net.shape[:-1]) * case["bump"]
    net = np64(T(net))
    at = parameters(arr) | {"motors": motor, "control points": net}
    leaves = plant_leaves(grp, parameters(arr))
    leaves |= {"motors": leaf(motor), "control points": leaf(net)}
    # the code under test
    grp.nurbs_control_points = leaves["control points"]
    grp.activate_heliostats(mask, device=DEV)
    n = len(idx)
    grid = create_nurbs_evaluation_grid(torch.tensor(case["points"]), device=DEV)
    x = np64(grid)
    P, N = NURBSSurfaces(grp.nurbs_degrees, grp.active_nurbs_control_points, device=DEV).calculate_surface_points_and_normals(
        grid[None, None].expand(n, F, -1, -1), grp.active_canting, grp.active_facet_translations, device=DEV)
    grp.active_surface_points, grp.active_surface_normals = P.reshape(n, -1, 4), N.reshape(n, -1, 4)
    grp.align_surfaces_with_motor_positions(leaves["motors"], mask, device=DEV)
    tracer = HeliostatRayTracer(sc, grp, blocking_active=False, batch_size=case["batch"], random_seed=case["rseed"], bitmap_resolution=torch.tensor(case["res"]))
    images = tracer.trace_rays(inc, mask, index, ray_extinction_factor=case["ext"], mirror_reflectivity=case["refl"], device=DEV)[0]
    # the reference
    planes, cyls = [spec32(s) for s in case["planes"]], [spec32(s) for s in case["cylinders"]]
    R, shifts = frames(np64(grp.canting)[..., :3]), np64(grp.facet_translations)[..., :3]
    du, de = (np64(y) for y in sc.light_sources.light_source_list[0].get_distortions(number_of_points=F * len(x), number_of_active_heliostats=n,
                                                                                      random_seed=case["rseed"]))
    where = np64(T(arr["positions"]))[:, :3]
    inc64 = np64(inc)[:, :3]
    deg = grp.nurbs_degrees.tolist()

    def hits(p):
        M = pose(where[idx], p["rotations"][idx], p["translations"][idx],
                 joint_angles(non[idx], p["actuators"][idx] if p["actuators"].size else p["actuators"], p["motors"]))
        out = []
        for k, h in enumerate(idx):
            pts, nrm = [], []
            for j in range(F):
                a, b = surface(deg, p["control points"][h, j], x)
                pts.append(a @ R[h, j].T + shifts[h, j])
                nrm.append(b / np.linalg.norm(b, axis=1, keepdims=True) @ R[h, j].T)
            pts, nrm = np.concatenate(pts) @ M[k, :3, :3].T + M[k, :3, 3], np.concatenate(nrm) @ M[k, :3, :3].T
            d = rotate_east_up(de[k], du[k], reflected(inc64[k], nrm)[None])
            out.append(receiver_hits(pts, d, np.ones(d.shape[:-1]), planes, cyls, case["index"][k], case["res"]))
        return out

    base = hits(at)
    W, Ht = case["res"]
    weights = g.uniform(-1, 1, (n, Ht, W))
    cells = []
    for k, h in enumerate(base):
        le, lu = np.floor(h["e"]), np.floor(h["u"])
        # pixel borders are smooth in the energy but not in its gradient: pixels around such rays weigh nothing
        vague = ~h["sure"] | (np.abs(h["e"] - np.round(h["e"])) < 3 * h["err_e"] + 1e-4) | (np.abs(h["u"] - np.round(h["u"])) < 3 * h["err_u"] + 1e-4)
        vague &= h["hit"] | ~h["sure"]
        for e, u, bad in zip(h["e"][vague], h["u"][vague], (~h["sure"])[vague]):
            if bad and not (np.isfinite(e) and np.isfinite(u)):
                weights[k] = 0
                continue
            r, c = Ht - 1 - int(np.clip(np.round(u), -9, Ht + 9)), int(np.clip(np.round(e), -9, W + 9))
            if bad and (h["err_e"].max() > 0.5 or h["err_u"].max() > 0.5):
                weights[k] = 0
            weights[k, max(0, r - 2):max(0, r + 3), max(0, c - 2):max(0, c + 3)] = 0
        ok = h["hit"] & (le >= 0) & (le + 1 < W) & (lu >= 0) & (lu + 1 < Ht) & ~vague
        cells.append((np.where(ok, le, 0).astype(int), np.where(ok, lu, 0).astype(int), ok))
    f = (1 - case["ext"]) * case["refl"]

    def contributions(p):
        """Weighted energy of every ray in its pixels, and its place and intensity."""
        total, place = [], []
        for k, (h, (le, lu, ok)) in enumerate(zip(hits(p), cells)):
            fe, fu = h["e"] - le, h["u"] - lu
            v = weights[k]
            row = Ht - 1 - lu
            c = (1 - fe) * (1 - fu) * v[row, le] + fe * (1 - fu) * v[row, np.minimum(le + 1, W - 1)] + (1 - fe) * fu * v[np.maximum(row - 1, 0), le] \
                + fe * fu * v[np.maximum(row - 1, 0), np.minimum(le + 1, W - 1)]
            total.append(np.where(ok, c * h["intensity"] * f, 0).reshape(-1))
            place.append(np.where(ok, np.stack([h["e"], h["u"], h["intensity"]]), 0).reshape(3, -1))
        return np.concatenate(total), np.concatenate(place, 1)

    loss = (images * T(weights)).sum()
    dark = not any(h["hit"].any() for h in base)
    require(loss.requires_grad or dark, "the flux is not differentiable although rays reach the receiver")
    grads = gradients(loss, leaves) if loss.requires_grad else {k: np.zeros(x.shape) for k, x in at.items()}
    err = max([1e-3] + [float(np.where(ok, h["err_e"] + h["err_u"] + h.get("err_cos", 0.0), 0).max()) for h, (_, _, ok) in zip(base, cells)])
    rel = slack(linear, non, dict(actuators=at["actuators"], motors=motor), idx) + 4 * err if linear else 1e-3 + 4 * err
    if rel > 0.1:
        ctx.label("too inaccurate")
        return
    energy = sum(float((h["intensity"] * ok).sum()) for h, (_, _, ok) in zip(base, cells))
    steps = {"rotations": 1e-7, "translations": 1e-6, "actuators": 1e-8, "motors": 0.01 if linear else 1e-7, "control points": 1e-7}
    strong = set()
    for name, what, d, (c, place) in slopes(contributions, at, steps, g, few=3):
        scale = np.abs(place).sum() * f
        actual, want = (grads[name] * d).sum(), c.sum()
        close(actual, want, f"gradient of the flux with respect to {what} of {name}", atol=rel * scale + 1e-6 * (1 + scale))
        if abs(want) > 5 * rel * scale:
            strong.add(name)
    ctx.nontrivial(len(strong) >= 3)
    ctx.label(f"{len(strong)} parameters matter"); ctx.label("lit" if energy > 0 else "dark")
    ctx.label("flat" if case["index"][0] < len(planes) else "cylinder")


@st.composite
def blocking_case(draw):
    return dict(rects=draw(st.integers(1, 3)), shape=[draw(st.integers(1, 2)), draw(st.integers(1, 3)), draw(st.integers(1, 4))], target=draw(st.booleans()),
                seed=draw(seeds), softness=draw(st.sampled_from([10.0, 20.0])))


@PROP.sub("blocking", blocking_case(), quick=160)
def blocked(case, ctx):
    g = rng(case["seed"])
    H, R, P = case["shape"]
    c = g.uniform(-2, 2, (case["rects"], 3)) + [0, 8, 0]
    a, b = unit(g.normal(size=(case["rects"], 3)) * 0.3 + [1, 0, 0]), unit(g.normal(size=(case["rects"], 3)) * 0.3 + [0, 0, 1])
    a, b = a * g.uniform(0.5, 2, (case["rects"], 1)), b * g.uniform(0.5, 2, (case["rects"], 1))
    o = g.uniform(-1, 1, (H, P, 3))
    k = g.integers(0, case["rects"], (H, R, P))
    # most rays pass close to a rim
    rim = lambda: np.where(g.random((H, R, P, 1)) < 0.5, g.choice([-1, 1], (H, R, P, 1)) * (1 + g.uniform(0, 1.4, (H, R, P, 1))), g.uniform(-1.1, 1.1, (H, R, P, 1)))
    d = unit(c[k] + rim() * a[k] + rim() * b[k] - o[:, None])
    dist = g.uniform(5, 15, (H, R, P))
    at = dict(origins=np64(T(o)), directions=np64(T(d)), corners=np64(T(c)), east=np64(T(a)), north=np64(T(b)), distances=np64(T(dist)))
    w = g.uniform(-1, 1, (H, R, P))
    keep = {k: at[k] for k in at if k != "distances" or case["target"]}

    def code(p):
        pad = lambda x, v: torch.nn.functional.pad(x, (0, 1), value=v)
        c, a, b = p["corners"], 2 * p["east"], 2 * p["north"]
        c = c - a / 2 - b / 2
        cor = pad(torch.stack([c, c + b, c + a + b, c + a], 1), 1.0)
        spans = pad(torch.stack([b, a], 1), 0.0)
        nrm = pad(torch.nn.functional.normalize(torch.cross(b, a, dim=-1), dim=-1), 0.0)
        kw = dict(intersection_distances_target=p["distances"]) if case["target"] else {}
        return blocking.soft_ray_blocking_mask(ray_origins=pad(p["origins"], 1.0), ray_directions=pad(p["directions"], 0.0), blocking_primitives_corners=cor,
                                               blocking_primitives_spans=spans, blocking_primitives_normals=nrm, softness=case["softness"], **kw)

    leaves = {k: leaf(x) for k, x in keep.items()}
    out = code(leaves)
    grads = gradients((out * T(w)).sum(), leaves)

    def f(p):
        with torch.no_grad():
            return [w * np64(code({k: T(x) for k, x in p.items()}))]

    scales = []
    for name, what, d, (dw,) in slopes(f, keep, {k: 1e-3 for k in keep}, g, few=4):
        half = (f({**keep, name: keep[name] + 5e-4 * d})[0] - f({**keep, name: keep[name] - 5e-4 * d})[0]) / 1e-3
        scale, off = np.abs(dw).sum(), np.abs(half - dw).sum()
        close((grads[name] * d).sum(), ((4 * half - dw) / 3).sum(), f"gradient of blocking with respect to {what} of {name}",
              atol=0.05 * scale + off + 0.03 * np.abs(d).sum() ** 0.5)
        scales.append(scale)
    mid = (np64(out) > 0.02) & (np64(out) < 0.5)
    ctx.nontrivial(mid.any() and max(scales) > 0.5)


@PROP.sub("blocked_flux", dense_field(), quick=48, shards=3)
def blocked_flux(case, ctx):
    """The light that passes a rim, with respect to the places of all mirrors of the field."""
    g = rng(case["specs"][0]["seed"])
    case = case | dict(cov=1e-12, rays=1, indices=[[0] * len(i) for i in case["indices"]])
    case["planes"] = [dict(case["planes"][0], width=60.0, height=60.0)]
    sc = set_up(case)
    groups = sc.heliostat_field.heliostat_groups
    start = [x.active_surface_points.detach() for x in groups]
    ways = [T(h4(g.uniform(-1, 1, (len(x), 3)), 0)) for x in start]

    def light(t, leaves=None):
        for i, (x, s, d) in enumerate(zip(groups, start, ways)):
            x.active_surface_points = s + ((t * d) + (leaves[i] if leaves else 0))[:, None]
        return trace(sc, case, True)[0].sum()

    with torch.no_grad():
        at = np.linspace(-1, 1, 25)
        values = [float(light(t)) for t in at]
        k = int(np.argmax(np.abs(np.diff(values))))
        low, high, a, b = at[k], at[k + 1], values[k], values[k + 1]
        while high - low > 2e-3:
            mid = (low + high) / 2
            c = float(light(mid))
            low, high, a, b = (low, mid, a, c) if abs(c - a) > abs(c - b) else (mid, high, c, b)
        steep = [low + (high - low) * f for f in (0.0, 0.25, 0.5, 0.75, 1.0)]
        h = 4e-4
        rise = [(float(light(t + h)) - float(light(t - h))) / (2 * h) for t in steep]
        k = int(np.argmax(np.abs(rise)))
        near = (float(light(steep[k] + h / 4)) - float(light(steep[k] - h / 4))) / (h / 2)
    if abs(rise[k]) < 20:
        ctx.label("no rim in the way")
        return
    if abs(near - rise[k]) > 0.2 * abs(rise[k]):      # a mirror enters or leaves the bounding boxes of the search: the light jumps
        ctx.label("a jump")
        return
    leaves = [torch.zeros_like(d).requires_grad_(True) for d in ways]
    light(steep[k], leaves).backward()
    require(any(x.grad is not None for x in leaves), "no gradient reaches the mirrors")
    got = sum(float((x.grad * d).sum()) for x, d in zip(leaves, ways) if x.grad is not None)
    close(got, near, "gradient of the light past a rim with respect to the places of the mirrors", atol=abs(rise[k] - near) + 0.15 * abs(near) + 3)
    ctx.nontrivial(True)
    ctx.label("a rim in the way")


# ---------------------------------------------------------------- losses
@st.composite
def losses_case(draw):
    p, c = draw(st.lists(field_plane(), min_size=1, max_size=2)), draw(st.lists(cylinder_spec(), max_size=2))
    n = draw(st.integers(1, 4))
    return dict(planes=p, cylinders=c, target=[draw(st.integers(0, len(p) + len(c) - 1)) for _ in range(n)], H=draw(st.integers(2, 14)), W=draw(st.integers(2, 14)),
                net=[draw(st.integers(1, 3)), draw(st.integers(1, 3)), draw(st.integers(2, 6)), draw(st.integers(2, 6))], seed=draw(seeds),
                size=[draw(fl(1, 15)), draw(fl(1, 15))])


@PROP.sub("losses", losses_case(), quick=160, shards=2)
def losses(case, ctx):
    g = rng(case["seed"])
    n, H, W = len(case["target"]), case["H"], case["W"]
    index = torch.tensor(case["target"])
    p, t = (np64(T(g.uniform(0.05, 1, (n, H, W)))) for _ in range(2))
    sc = scenario([dict(kind="ideal", positions=[[0.0, 50.0, 0.0]], half=[1.0, 1.0], facets=1, side=1, cant=0.0, bump=0.0, deviation=0.0, seed=0)],
                  case["planes"], case["cylinders"])
    planes, cyls = [spec32(s) for s in case["planes"]], [spec32(s) for s in case["cylinders"]]
    w = g.uniform(-1, 1, n)

    def spots(x):
        return np.array([receiver_point(planes, cyls, i, (c[0] + 0.5) / W, (c[1] + 0.5) / H) for i, c in zip(index.tolist(), mean_pixel(x)[0])])

    a, b = np64(T(g.normal(size=(n, 4)))), np64(T(g.normal(size=(n, 4))))
    a[:, 3] = b[:, 3] = 0
    cos = lambda x, y: (unit(x[:, :3]) * unit(y[:, :3])).sum(1)
    dims = dict(reduction_dimensions=(1, 2))
    target = dict(target_area_indices=index, device=DEV)
    net, old = (np64(T(g.normal(size=(*case["net"], 3)))) for _ in range(2))
    ws = g.uniform(-1, 1, case["net"][0])
    d = lambda x: x - old

    def rough(x):
        y = np.pad(d(x), ((0, 0), (0, 0), (1, 1), (1, 1), (0, 0)), mode="edge")
        lap = 4 * d(x) - y[:, :, :-2, 1:-1] - y[:, :, 2:, 1:-1] - y[:, :, 1:-1, :-2] - y[:, :, 1:-1, 2:]
        return (lap ** 2).mean((2, 3, 4)).sum(1)

    table = [
        ("pixel loss", p, lambda x: ((x - t) ** 2).sum((1, 2)) / t.sum((1, 2)), lambda x: PixelLoss()(x, T(t), **dims), w),
        ("divergence", p, lambda x: kl(x, t).sum((1, 2)), lambda x: KLDivergenceLoss()(x, T(t), **dims), w),
        ("focal spot distance", p, lambda x: np.linalg.norm(spots(x) - spots(t), axis=1), lambda x: FocalSpotLoss(scenario=sc)(x, T(t), **target), w),
        ("centre of mass", p, lambda x: mean_pixel(x)[0].sum(1), lambda x: bitmap.get_center_of_mass(x, device=DEV).sum(1), w),
        ("vector loss", a, lambda x: ((x - b) ** 2).sum(1), lambda x: VectorLoss()(x, T(b), reduction_dimensions=(1,)), w),
        ("angle", a, lambda x: np.arccos(cos(x, b)), lambda x: AngleLoss()(x, T(b)), w),
        ("cosine distance", a, lambda x: 1 - cos(x, b), lambda x: CosineSimilarityLoss()(x, T(b)), w),
        ("smoothness", net, rough, lambda x: SmoothnessRegularizer(reduction_dimensions=(1,))(x, T(old), device=DEV), ws),
        ("ideal surface", net, lambda x: (d(x) ** 2).mean((2, 3, 4)).sum(1), lambda x: IdealSurfaceRegularizer(reduction_dimensions=(1,))(x, T(old), device=DEV), ws),
    ]
    for name, at, ref, code, weight in table:
        value = ref(at)
        if name == "angle" and (np.abs(np.sin(value)) < 0.02).any() or name == "focal spot distance" and (value < 0.02).any():
            ctx.label(f"{name} near a kink")
            continue
        leaves = {name: leaf(at)}
        grads = gradients((code(leaves[name]) * T(weight)).sum(), leaves)
        for _, what, e, (dw,) in slopes(lambda x: [ref(x[name]) * weight], {name: at}, {name: 1e-5}, g, few=5):
            scale = np.abs(dw).sum() + np.abs(grads[name] * e).sum()
            close((grads[name] * e).sum(), dw.sum(), f"gradient of the {name} with respect to {what}", atol=3e-3 * scale + 1e-5)
    ctx.nontrivial(n > 1 and H * W > 8)


