import math

from hypothesis import strategies as st
import numpy as np
import torch

from artist.raytracing import HeliostatRayTracer

from . import scene
from .core import DEV, Prop, T, close, np64, raises, require, rng, same
from .gen import fl, seeds

PROP = Prop("C18", "the history before the request contains activations of other selections, alignments and tracings; the request "
                   "repeats or leaves out heliostats")

BASE = ["positions", "surface_points", "surface_normals", "canting", "facet_translations", "initial_orientations", "nurbs_control_points",
        "nurbs_degrees", "kinematics.heliostat_positions", "kinematics.initial_orientations", "kinematics.translation_deviation_parameters",
        "kinematics.rotation_deviation_parameters", "kinematics.motor_positions", "kinematics.actuators.non_optimizable_parameters",
        "kinematics.actuators.optimizable_parameters", "kinematics.kinematics_standard_orientation", "kinematics.initial_orientation_offsets"]
ACTIVE = ["active_heliostats_mask", "active_surface_points", "active_surface_normals", "active_canting", "active_facet_translations",
          "active_nurbs_control_points", "kinematics.active_heliostat_positions", "kinematics.active_initial_orientations",
          "kinematics.active_translation_deviation_parameters", "kinematics.active_rotation_deviation_parameters",
          "kinematics.active_motor_positions", "kinematics.actuators.active_non_optimizable_parameters",
          "kinematics.actuators.active_optimizable_parameters"]
# what the active tensors are copies of
SOURCE = {a: a.replace("active_", "") for a in ACTIVE[1:]}


def get(obj, path):
    for part in path.split("."):
        obj = getattr(obj, part)
    return obj


def snapshot(sc):
    out = {}
    for i, g in enumerate(sc.heliostat_field.heliostat_groups):
        for p in BASE:
            out[i, p] = get(g, p).detach().clone()
        out[i, "names"] = list(g.names)
    for k, areas in enumerate(sc.solar_tower.target_areas):
        for p in ("centers", "normals", "dimensions", "axes", "radii", "heights", "opening_angles"):
            if hasattr(areas, p):
                out["tower", k, p] = getattr(areas, p).clone()
    return out


def unchanged(sc, before, skip=()):
    for k, v in snapshot(sc).items():
        if k[-1] in skip:
            continue
        require(torch.equal(v, before[k]) if isinstance(v, torch.Tensor) else v == before[k], f"base data {k} changed")


def masks(n):
    return st.lists(st.sampled_from([0, 0, 1, 1, 1, 2, 2, 3, 6]), min_size=n, max_size=n)


@st.composite
def operation(draw, sizes, last=False):
    w = draw(st.integers(0, len(sizes) - 1))
    kind = "sun" if last else draw(st.sampled_from(["activate", "sun", "sun", "motor", "trace", "trace", "update", "tweak", "wrong", "default", "none"]))
    return dict(kind=draw(st.sampled_from(["sun", "sun", "motor", "trace", "activate", "none"])) if last else kind, group=w,
                mask=draw(masks(sizes[w])), seed=draw(seeds), blocking=draw(st.booleans()))


@st.composite
def history(draw):
    specs = draw(st.lists(scene.group_spec(count=(1, 3), facets=4, side=2), min_size=1, max_size=2))
    for s in specs[1:]:
        s["side"] = specs[0]["side"]
    sizes = [len(s["positions"]) for s in specs]
    return dict(specs=specs, planes=[draw(scene.field_plane())], cylinders=[draw(scene.field_cylinder())],
                ops=draw(st.lists(operation(sizes), min_size=1, max_size=6)), last=draw(operation(sizes, last=True)))


def build(case):
    return scene.scenario(case["specs"], case["planes"], case["cylinders"], 2)


def request(sc, op):
    """Activates and aligns; returns everything the request produced."""
    g = sc.heliostat_field.heliostat_groups[op["group"]]
    r = rng(op["seed"])
    mask = torch.tensor(op["mask"], dtype=torch.int32)
    if op["kind"] == "none":
        mask = torch.zeros_like(mask)
    elif not mask.any():
        mask[0] = 1
    if op["kind"] == "default":
        mask = torch.ones_like(mask)
        g.activate_heliostats(None, device=DEV)
    else:
        g.activate_heliostats(mask, device=DEV)
    n = int(mask.sum())
    out = {}
    idx = np.repeat(np.arange(len(mask)), mask.numpy())
    if op["kind"] in ("activate", "default", "none"):
        for a, b in SOURCE.items():
            src, act = get(g, b), get(g, a)
            if src.numel() > 0 and src.ndim > 1:
                require(torch.equal(act, src[torch.as_tensor(idx, dtype=torch.long)]), f"{a} is not the selection of {b}")
        require(g.number_of_active_heliostats == n and g.kinematics.number_of_active_heliostats == n, "number of active heliostats")
    az, el = r.uniform(-1, 1, n), r.uniform(0.3, 1.2, n)
    inc = T(np.stack([np.sin(az) * np.cos(el), np.cos(az) * np.cos(el), -np.sin(el), 0 * az], 1))
    which = torch.tensor(r.integers(0, 2, n), dtype=torch.int32)
    if op["kind"] in ("sun", "trace", "wrong"):
        g.align_surfaces_with_incident_ray_directions(sc.solar_tower.get_centers_of_target_areas(which, device=DEV), inc, mask, device=DEV)
    if op["kind"] == "motor":
        m = r.uniform(0, 6e4, (n, 2)) if case_kind(g) == "linear" else r.uniform(-1.5, 1.5, (n, 2))
        g.align_surfaces_with_motor_positions(T(m), mask, device=DEV)
    if op["kind"] == "trace":
        blocking = op["blocking"] and int(mask.max()) == 1 and len(sc.heliostat_field.heliostat_groups) == 1
        t = HeliostatRayTracer(sc, g, blocking_active=blocking, bitmap_resolution=torch.tensor([12, 10]))
        for i, x in enumerate(t.trace_rays(inc, mask, which, device=DEV)):
            out[f"trace output {i}"] = x.detach().clone()
    for a in ACTIVE:
        if a.endswith("active_optimizable_parameters") and get(g, a).numel() == 0:
            continue
        out[a] = get(g, a).detach().clone()
    out["number"] = torch.tensor(g.number_of_active_heliostats)
    if op["kind"] == "wrong" and len(mask) > 0:
        other = mask.clone()
        other[int(r.integers(len(mask)))] += 1
        rejects(sc, g, other, inc, which)
        # part of the active selection
        part = mask.clone()
        part[int(torch.argmax(part))] -= 1
        rejects(sc, g, part, inc, which)
        drop = int(np.nonzero(idx == int(torch.argmax(mask)))[0][0])
        keep = [i for i in range(n) if i != drop]
        if keep:
            rejects(sc, g, part, inc[keep], which[keep])
        if int(mask.sum()) < len(mask) and len(mask) > 1:
            rejects(sc, g, mask.flip(0) if not torch.equal(mask.flip(0), mask) else other, inc, which)
    return out


def tweak(sc, op):
    """The user changes a parameter of one heliostat, as an optimiser does."""
    g, r = sc.heliostat_field.heliostat_groups[op["group"]], rng(op["seed"])
    k = g.kinematics
    h = int(r.integers(g.number_of_heliostats))
    which = r.choice(["rotation", "translation", "surface", "actuator"])
    if which == "surface":
        g.nurbs_control_points = g.nurbs_control_points.clone()
        g.nurbs_control_points[h, ..., 2] += T(r.uniform(-0.01, 0.01, tuple(g.nurbs_control_points.shape[1:-1])))
        sc.heliostat_field.update_surfaces(device=DEV)
        return True
    with torch.no_grad():
        if which == "rotation":
            k.rotation_deviation_parameters[h] += T(r.uniform(-0.01, 0.01, 4))
        elif which == "translation":
            k.translation_deviation_parameters[h] += T(r.uniform(-0.1, 0.1, 9))
        elif k.actuators.optimizable_parameters.numel():
            k.actuators.optimizable_parameters[h, 0] += T(r.uniform(-0.01, 0.01, 2))
    return False


def rejects(sc, g, mask, inc, which):
    before = [get(g, a).detach().clone() for a in ("active_surface_points", "active_surface_normals")]
    kinds = (AssertionError, ValueError)
    raises(lambda: g.align_surfaces_with_incident_ray_directions(sc.solar_tower.get_centers_of_target_areas(which, device=DEV), inc, mask, device=DEV),
           kinds, "aligning a selection that is not active")
    raises(lambda: g.align_surfaces_with_motor_positions(torch.zeros(len(inc), 2), mask, device=DEV), kinds, "aligning a selection that is not active")
    raises(lambda: HeliostatRayTracer(sc, g, blocking_active=False).trace_rays(inc, mask, which, device=DEV), kinds, "tracing a selection that is not active")
    for a, b in zip(("active_surface_points", "active_surface_normals"), before):
        require(torch.equal(get(g, a), b), "rejected request changes the active surfaces")


def case_kind(g):
    return "ideal" if g.kinematics.actuators.non_optimizable_parameters.shape[1] == 4 else "linear"


@PROP.sub("history", history(), quick=350, shards=6)
def history_check(case, ctx):
    sc = build(case)
    before = snapshot(sc)
    updated = False
    for op in case["ops"]:
        if op["kind"] == "update":
            sc.heliostat_field.update_surfaces(device=DEV)
            if updated:
                unchanged(sc, before)
            else:
                unchanged(sc, before, skip=("surface_points", "surface_normals"))
            before, updated = snapshot(sc), True
        elif op["kind"] == "tweak":
            updated = tweak(sc, op) or updated
            before = snapshot(sc)
        else:
            others = [{a: get(g, a).detach().clone() for a in ACTIVE} for g in sc.heliostat_field.heliostat_groups]
            request(sc, op)
            for i, g in enumerate(sc.heliostat_field.heliostat_groups):
                if i != op["group"]:
                    for a in ACTIVE:
                        x = get(g, a)
                        require(torch.equal(x, others[i][a]) or x.isnan().any() or i not in touched(case, op),
                                f"{a} of another group changed")
        unchanged(sc, before)
    got = request(sc, case["last"])
    unchanged(sc, before)
    fresh_sc = build(case)
    for op in case["ops"]:
        if op["kind"] == "tweak":
            tweak(fresh_sc, op)
    if updated:
        fresh_sc.heliostat_field.update_surfaces(device=DEV)
    # the same history state for other groups is irrelevant without blocking; with blocking there is one group only
    want = request(fresh_sc, case["last"])
    require(got.keys() == want.keys(), "outputs of the request")
    for k in got:
        same_size = got[k].shape == want[k].shape
        require(same_size, f"{k}: shape {tuple(got[k].shape)} instead of {tuple(want[k].shape)}")
        if got[k].dtype.is_floating_point:
            close(got[k], want[k], f"{k} after a history", atol=1e-6, rtol=1e-6)
        else:
            same(got[k], want[k], f"{k} after a history")
    ctx.nontrivial(sum(o["kind"] in ("sun", "trace", "motor") for o in case["ops"]) > 0 and set(case["last"]["mask"]) != {1})
    for o in case["ops"]:
        ctx.label(o["kind"])
    ctx.label("request: " + case["last"]["kind"])


def touched(case, op):
    """Groups that were activated before this operation (others hold uninitialised memory)."""
    k = next(i for i, o in enumerate(case["ops"]) if o is op)
    return {o["group"] for o in case["ops"][:k] if o["kind"] not in ("update", "tweak")}


@st.composite
def tracking(draw):
    spec = draw(scene.group_spec(count=(1, 4), facets=4, side=2))
    return dict(specs=[spec], planes=[draw(scene.field_plane())], cylinders=[draw(scene.field_cylinder())],
                mask=draw(masks(len(spec["positions"]))), steps=draw(st.lists(st.sampled_from(["sun", "sun", "motor"]), min_size=1, max_size=4)), seed=draw(seeds))


@PROP.sub("tracking", tracking(), quick=250, shards=2)
def tracking_check(case, ctx):
    """Heliostats that stay active follow the sun: every orientation depends on its own request only."""
    sc, fresh, r = build(case), build(case), rng(case["seed"])
    mask = torch.tensor(case["mask"], dtype=torch.int32)
    if not mask.any():
        mask[0] = 1
    n = int(mask.sum())
    g, f = (s.heliostat_field.heliostat_groups[0] for s in (sc, fresh))
    g.activate_heliostats(mask, device=DEV)
    for kind in [*case["steps"], "sun"]:
        f.activate_heliostats(mask, device=DEV)
        if kind == "sun":
            az, el = r.uniform(-1, 1, n), r.uniform(0.3, 1.2, n)
            inc = T(np.stack([np.sin(az) * np.cos(el), np.cos(az) * np.cos(el), -np.sin(el), 0 * az], 1))
            aim = sc.solar_tower.get_centers_of_target_areas(torch.tensor(r.integers(0, 2, n), dtype=torch.int32), device=DEV)
            ask = lambda k: [k.incident_ray_directions_to_orientations(inc, aim, device=DEV), k.active_motor_positions]
        else:
            m = T(r.uniform(0, 6e4, (n, 2)) if case_kind(g) == "linear" else r.uniform(-1.5, 1.5, (n, 2)))
            ask = lambda k: [k.motor_positions_to_orientations(m, device=DEV)]
        for what, a, b in zip(("orientation", "motor positions"), ask(g.kinematics), ask(f.kinematics)):
            close(a.detach(), b.detach(), f"{what} of heliostats that were aligned before", atol=2e-7, rtol=1e-6)
        close(g.active_surface_points, f.active_surface_points, "active surfaces while only orientations are asked for", atol=0)
    ctx.nontrivial("sun" in case["steps"])
    ctx.label(f"{len(case['steps']) + 1} orientations")
