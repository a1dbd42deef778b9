import tempfile

from hypothesis import strategies as st
import numpy as np
import torch

import artist.raytracing  # noqa: F401
from artist.nurbs import create_nurbs_evaluation_grid
from artist.optim import SurfaceReconstructor
from artist.field.heliostat_field import HeliostatField
from artist.field.heliostat_group_rigid_body import HeliostatGroupRigidBody

from . import c20
from .c11 import surface
from .c12 import frames
from .core import DEV, Prop, T, close, np64, require, rng, same
from .gen import h4, seeds
from .scene import group_arrays, group_spec

PROP = Prop("C31", "several facets or groups, of which one heliostat gets other control points",
            assumptions=["Fields that are not loaded from a scenario have equally many surface points along both directions of a facet.",
                         "All facets of one heliostat group share one pair of NURBS degrees and one size of the control net (see C20)."])


def grid(nu, nv):
    lin = lambda n: np.linspace(1e-7, 1 - 1e-7, n) if n > 1 else np.array([1e-7])
    return np.stack(np.meshgrid(lin(nu), lin(nv), indexing="ij"), -1).reshape(-1, 2).astype(np.float32).astype(float)


def reference(net, degrees, canting, shifts, points):
    """Points and normals [F * points, 3] of one mirror, and where the normals are unique."""
    x, R = grid(*points), frames(canting)
    pts, nrm, ok = [], [], []
    for j in range(len(net)):
        p, n = surface(degrees, net[j], x)
        size = np.linalg.norm(n, axis=1, keepdims=True)
        # a mesh of degree 1 has kinks at its knots
        kink = np.zeros(len(x), bool)
        for axis in (0, 1):
            if degrees[axis] == 1:
                knots = np.linspace(0, 1, net.shape[1 + axis] - degrees[axis] + 1)[1:-1]
                kink |= (np.abs(x[:, axis, None] - knots) < 1e-4).any(1)
        pts.append(p @ R[j].T + shifts[j])
        nrm.append((n / np.maximum(size, 1e-30)) @ R[j].T)
        ok.append(~kink)
    return np.concatenate(pts), np.concatenate(nrm), np.concatenate(ok)


def surfaces(field):
    return [(g.surface_points.clone(), g.surface_normals.clone()) for g in field.heliostat_groups]


def frozen(field):
    return [tuple(x.clone() for x in (g.positions, g.nurbs_control_points, g.canting, g.facet_translations, g.nurbs_degrees, g.initial_orientations,
                                      g.kinematics.rotation_deviation_parameters, g.kinematics.translation_deviation_parameters,
                                      g.kinematics.actuators.optimizable_parameters, g.kinematics.actuators.non_optimizable_parameters,
                                      g.kinematics.motor_positions)) for g in field.heliostat_groups]


def examine(field, case, counts, ctx, lo):
    """Rebuild, change one heliostat, rebuild, change back, rebuild."""
    before, state = surfaces(field), frozen(field)
    g = rng(case["seed"])
    for i, x in enumerate(field.heliostat_groups):
        if case["active"]:
            x.activate_heliostats(torch.tensor(g.integers(0, 3, x.number_of_heliostats), dtype=torch.int32), device=DEV)

    def agree(want, what, skip=()):
        for i, x in enumerate(field.heliostat_groups):
            for name, now, then in zip(("points", "normals"), (x.surface_points, x.surface_normals), want[i]):
                require(now.shape == then.shape, f"{what}: {name} of group {i} have the shape {tuple(now.shape)}, not {tuple(then.shape)}")
                require(not now.requires_grad, f"{what}: {name} of group {i} are part of a gradient computation")
                for h in range(len(now)):
                    if (i, h) not in skip:
                        close(now[h], then[h], f"{what}: {name} of heliostat {h} of group {i}", atol=2e-6)

    for r in range(case["repeat"]):
        field.update_surfaces(device=DEV)
        agree(before, f"update {r + 1} of unchanged control points")
    for i, (a, b) in enumerate(zip(state, frozen(field))):
        require(all(torch.equal(x, y) for x, y in zip(a, b)), f"rebuilding surfaces changes parameters of group {i}")
    i = case["group"] % len(field.heliostat_groups)
    x = field.heliostat_groups[i]
    h = case["heliostat"] % x.number_of_heliostats
    new = x.nurbs_control_points.detach().clone()
    net = np64(new[h])
    size = np.abs(net[..., :2]).max()
    delta = g.normal(size=net.shape) * size * np.array([0.02, 0.02, 0.03])
    if case["facet"] is not None:
        keep = np.arange(len(net)) != case["facet"] % len(net)
        delta[keep] = 0
    new[h] = T(net + delta)
    kept = x.nurbs_control_points
    x.nurbs_control_points = new.requires_grad_(case["parameter"])
    field.update_surfaces(device=DEV)
    agree(before, "update after a change of another heliostat", skip={(i, h)})
    P, N, ok = reference(np64(new[h]), x.nurbs_degrees.tolist(), np64(x.canting[h])[..., :3], np64(x.facet_translations[h])[..., :3], counts[i])
    close(x.surface_points[h], h4(P, 1), "points of the changed heliostat", atol=2e-5)
    close(x.surface_normals[h], h4(N, 0), "normals of the changed heliostat", atol=3e-3, mask=ok[:, None])
    x.nurbs_control_points = kept
    field.update_surfaces(device=DEV)
    agree(before, "update after the change is undone")
    ctx.nontrivial(x.number_of_facets_per_heliostat * len(field.heliostat_groups) > 1 and sum(y.number_of_heliostats for y in field.heliostat_groups) > 1)
    ctx.label(f"{len(field.heliostat_groups)} groups"); ctx.label("square" if counts[i][0] == counts[i][1] else "rectangular")


HISTORY = dict(seed=seeds, repeat=st.integers(1, 3), active=st.booleans(), group=st.integers(0, 3), heliostat=st.integers(0, 9),
               facet=st.none() | st.integers(0, 4), parameter=st.booleans())


@PROP.sub("loaded", c20.plant().flatmap(lambda p: st.fixed_dictionaries(dict(p=st.just(p)) | HISTORY)), quick=60, shards=4)
def loaded(case, ctx):
    p = c20.effective(case["p"])
    with tempfile.TemporaryDirectory() as folder:
        kw = {}
        if p["change"] is not None and not any((h["surface"] or p["prototype"]["surface"])["fitted"] for h in p["heliostats"]):
            if max(max(d) for d in p["degrees"].values()) == 1:         # other nets of flat facets of degree 1 are the same surface
                kw = dict(change_number_of_control_points_per_facet=torch.tensor(p["change"]))
        field = c20.load(p, c20.write(p, folder), **kw).heliostat_field
    examine(field, case, [p["points"]] * len(field.heliostat_groups), ctx, p)


@st.composite
def built(draw):
    specs = [draw(group_spec(count=(1, 3))) for _ in range(draw(st.integers(1, 3)))]
    for s in specs:
        s["side"], s["net"], s["degrees"] = draw(st.integers(1, 6)), [draw(st.integers(4, 7)), draw(st.integers(4, 7))], [draw(st.integers(1, 3)), draw(st.integers(1, 3))]
    return dict(specs=specs, bump=draw(st.sampled_from([0.0, 0.01]))) | {k: draw(v) for k, v in HISTORY.items()}


@PROP.sub("constructed", built(), quick=240, shards=3)
def constructed(case, ctx):
    """Groups with surfaces of their own control points, and different samplings per group."""
    groups, g = [], rng(case["seed"] ^ 5)
    for s in case["specs"]:
        a = group_arrays(s)
        H, F = len(a["positions"]), s["facets"]
        net = np.zeros((H, F, *s["net"], 3))
        net[..., 0] = s["half"][0] * np.linspace(-1, 1, s["net"][0])[:, None]
        net[..., 1] = s["half"][1] * np.linspace(-1, 1, s["net"][1])
        net[..., 2] = g.uniform(-1, 1, net.shape[:-1]) * case["bump"]
        net = net.astype(np.float32).astype(float)
        pn = [reference(net[h], s["degrees"], a["canting"][h][..., :3], a["facet_translations"][h][..., :3], [s["side"]] * 2) for h in range(H)]
        a = a | dict(nurbs_control_points=net, nurbs_degrees=s["degrees"], surface_points=h4(np.stack([x[0] for x in pn]), 1),
                     surface_normals=h4(np.stack([x[1] for x in pn]), 0))
        groups.append(HeliostatGroupRigidBody(names=[f"g{len(groups)}_{h}" for h in range(H)], device=DEV, **{
            k: torch.tensor(v) if k == "nurbs_degrees" else T(v) for k, v in a.items()}))
    field = HeliostatField(groups, device=DEV)
    # what the constructor got is compared first; rebuilt surfaces are the code's own from then on (normals at kinks are not unique)
    want = surfaces(field)
    field.update_surfaces(device=DEV)
    for i, (x, s) in enumerate(zip(field.heliostat_groups, case["specs"])):
        ok = np.stack([reference(np64(x.nurbs_control_points[h]), s["degrees"], np64(x.canting[h])[..., :3], np64(x.facet_translations[h])[..., :3],
                                 [s["side"]] * 2)[2] for h in range(x.number_of_heliostats)])
        close(x.surface_points, want[i][0], f"rebuilt points of group {i}", atol=2e-5)
        close(x.surface_normals, want[i][1], f"rebuilt normals of group {i}", atol=3e-3, mask=ok[..., None])
    examine(field, case, [[s["side"]] * 2 for s in case["specs"]], ctx, None)


@PROP.sub("outline", st.fixed_dictionaries(dict(n=st.tuples(st.integers(1, 5), st.integers(1, 5), st.integers(2, 9), st.integers(2, 9)), seed=seeds,
                                                zero=st.booleans(), special=st.booleans())), quick=200)
def outline(case, ctx):
    g = rng(case["seed"])
    x = g.normal(size=(*case["n"], 3)) * 10.0 ** g.integers(-6, 6)
    if case["zero"]:
        x[g.random(x.shape) < 0.3] = 0
    if case["special"]:
        x[0, 0, 0, 0, :2] = np.inf
    x = T(x)
    given = x.clone()
    y = SurfaceReconstructor.lock_control_points_on_outer_edges(x, device=DEV)
    require(torch.equal(x, given), "gradients are changed in place")
    a, b = case["n"][2:]
    want = x.clone()
    for i in range(a):
        for j in range(b):
            if i in (0, a - 1) or j in (0, b - 1):
                want[:, :, i, j, :2] = 0
    require(y.shape == x.shape and torch.equal(y, want), "locked gradients")
    same(y.dtype, x.dtype, "type of gradients")
    ctx.nontrivial(a > 2 and b > 2 and a != b)
