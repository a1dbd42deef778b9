import math
import os
import pathlib
import tempfile

import h5py
from hypothesis import strategies as st
import numpy as np
import torch

import artist.raytracing  # noqa: F401
from artist.scenario.h5_scenario_generator import H5ScenarioGenerator
from artist.scenario.scenario import Scenario
from artist.util import config as C

from .c11 import surface
from .c12 import frames
from .core import DEV, Prop, T, close, fail, np64, raises, require, rng, same
from .gen import directions, fl, h4, seeds
from .scene import canting_frames, cylinder_spec, facet_offsets, planar_spec

PROP = Prop("C20", "at least two heliostats of which some use prototype data and some their own, entries not written in sorted order",
            assumptions=["Facet and actuator names sort in the order in which they are listed (h5 files list entries by name).",
                         "All facets of one heliostat group share one pair of NURBS degrees and one size of the control net."])

KEYS_T = ["first_joint_translation_e", "first_joint_translation_n", "first_joint_translation_u", "second_joint_translation_e",
          "second_joint_translation_n", "second_joint_translation_u", "concentrator_translation_e", "concentrator_translation_n",
          "concentrator_translation_u"]
KEYS_R = ["first_joint_tilt_n", "first_joint_tilt_u", "second_joint_tilt_e", "second_joint_tilt_n"]
PARAMS = ["increment", "offset", "pivot_radius", "initial_angle", "initial_stroke_length"]
HELIOSTATS = ["AA23", "AA2", "AA31", "B1", "b1", "H10", "H9", "heliostat 7", "Z", "ä"]
RECEIVERS = ["multi_focus_tower", "solar_tower_juelich_lower", "stj_upper", "receiver", "receiver_10", "receiver_2", "A"]


@st.composite
def kinematics(draw):
    """Own deviations; None stands for a deviation that is not given."""
    return dict(orientation=draw(st.sampled_from([[0.0, -1.0, 0.0], [0.0, 0.0, 1.0]]) | directions()),
                deviations=draw(st.none() | st.fixed_dictionaries({k: st.none() | st.sampled_from([0.0]) | fl(-0.5, 0.5) for k in KEYS_T + KEYS_R})))


@st.composite
def actuators(draw, kind=None):
    kind = kind or draw(st.sampled_from(["ideal", "linear"]))
    one = st.fixed_dictionaries(dict(clockwise=st.booleans(), low=fl(-100, 100), high=fl(200, 90000),
                                     params=st.none() | st.fixed_dictionaries({k: st.none() | fl(0.01, 2) for k in PARAMS})))
    return dict(kind=kind, each=[draw(one), draw(one)])


@st.composite
def plant(draw):
    names = draw(st.permutations(HELIOSTATS))[:draw(st.integers(1, 5))]
    p, c = draw(st.lists(planar_spec(), min_size=0, max_size=3)), draw(st.lists(cylinder_spec(), min_size=0, max_size=3))
    if not p and not c:
        p = [draw(planar_spec())]
    r = list(draw(st.permutations(RECEIVERS)))[:len(p) + len(c)]
    F, n = draw(st.integers(1, 5)), [draw(st.integers(3, 6)), draw(st.integers(3, 6))]
    surf = st.fixed_dictionaries(dict(fitted=st.sampled_from(["", "", "rough", "below", "above", "dent", "shallow", "tiny"]), half=st.tuples(fl(0.3, 2), fl(0.3, 2)).map(list), cant=st.sampled_from([0.0, 0.02]) | fl(0, 0.1), seed=seeds))
    return dict(
        position=[draw(fl(-80, 80)), draw(fl(-179, 179)), draw(fl(0, 500))], planes=p, cylinders=c, receivers=r, facets=F, n=n,
        degrees={k: [draw(st.integers(1, 2)), draw(st.integers(1, 2))] for k in ("ideal", "linear")},
        sun=dict(rays=draw(st.integers(1, 200)), mean=draw(st.sampled_from([0.0]) | fl(-0.01, 0.01)), covariance=draw(st.sampled_from([4.3681e-6]) | fl(1e-6, 1e-3))),
        prototype=dict(surface=draw(surf), kinematics=draw(kinematics()), actuators=draw(actuators())),
        heliostats=[dict(name=h, id=draw(st.integers(0, 99999)), position=[draw(fl(-200, 200)), draw(fl(-200, 200)), draw(fl(-5, 20))],
                         surface=draw(st.none() | surf), kinematics=draw(st.none() | kinematics()), actuators=draw(st.none() | actuators())) for h in names],
        points=[draw(st.integers(1, 5)), draw(st.integers(1, 5))], change=draw(st.none() | st.tuples(st.integers(3, 7), st.integers(3, 7)).map(list)),
        file=draw(st.sampled_from(["plant.h5", "plant", "plant.hdf5", "plant.v2.h5"])), scalars=draw(st.sampled_from([[], [1]])),
        version=draw(st.sampled_from([1.0, 2.5])))


def sorts(case):
    """Degrees of a prototype surface depend on the group that uses it: give both groups the prototype's degrees then."""
    return case


def facets_of(case, s, kind):
    """Facets as they are described: control points, canting, translation (float64 of float32 values) and the local net."""
    F, (a, b) = case["facets"], case["n"]
    g = rng(s["seed"])
    cant = canting_frames(s["half"], F, s["cant"]) if F in (1, 4) else canting_frames(s["half"], 4, s["cant"])[[i % 4 for i in range(F)]]
    move = np.array([[2.5 * s["half"][0] * (i % 2), 2.5 * s["half"][1] * (i // 2), 0.03 * i] for i in range(F)])
    if s["fitted"] == "tiny":
        # a measured mirror that is all but flat: it is in its place already
        cant, move[:, 2] = canting_frames(s["half"], 4, 0.0)[[i % 4 for i in range(F)]], 0.0
    f32 = lambda x: np.asarray(x, np.float32).astype(float)
    cant, move = f32(cant), f32(move)
    local = np.zeros((F, a, b, 3))
    local[..., 0] = s["half"][0] * np.linspace(-1, 1, a)[:, None]
    local[..., 1] = s["half"][1] * np.linspace(-1, 1, b)
    if s["fitted"]:
        local[..., 2] = {"below": -0.5, "above": 0.02}.get(s["fitted"], 1e-4) + g.uniform(-0.01, 0.01, (F, a, b))
        if s["fitted"] == "dent":
            # flat but for one control point
            local[..., 2] = 0
            local[-1, 1, -2, 2] = -0.01
        elif s["fitted"] == "shallow":
            local[..., 2] = g.uniform(-2e-4, 5e-4, (F, a, b))
        elif s["fitted"] == "tiny":
            local[..., 2] = g.uniform(-5e-5, 5e-5, (F, a, b))
        R = frames(cant)
        cps = f32(np.einsum("fij,fabj->fabi", R, local) + move[:, None, None])
        local = np.einsum("fji,fabj->fabi", R, cps - move[:, None, None])
    else:
        cps = local = f32(local)
    return dict(cps=cps, cant=cant, move=move, local=local, fitted=s["fitted"], degrees=case["degrees"][kind])


def surface_config(case, s, kind, cls=C.SurfaceConfig):
    f = facets_of(case, s, kind)
    return cls(facet_list=[C.FacetConfig(facet_key=f"facet_{i + 1}", control_points=T(f["cps"][i]), degrees=torch.tensor(f["degrees"]),
                                         translation_vector=T(h4(f["move"][i], 0)), canting=T(h4(f["cant"][i], 0)))
                           for i in range(case["facets"])])


def kinematics_config(k, cls=C.KinematicsConfig):
    d = None if k["deviations"] is None else C.KinematicsDeviations(**{n: (None if v is None else T(v)) for n, v in k["deviations"].items()})
    return cls(kinematics_type="rigid_body", initial_orientation=T([*k["orientation"], 0.0]), deviations=d)


def actuator_config(a, cls=C.ActuatorListConfig, count=2, kinds=None):
    out = []
    for i in range(count):
        x = a["each"][i % 2]
        p = None if x["params"] is None else C.ActuatorParameters(**{n: (None if v is None else T(v)) for n, v in x["params"].items()})
        out.append(C.ActuatorConfig(key=f"actuator_{i + 1}", actuator_type=(kinds or [a["kind"]] * count)[i], clockwise_axis_movement=x["clockwise"],
                                    min_max_motor_positions=[x["low"], x["high"]], parameters=p))
    return cls(actuator_list=out)


def kind_of(case, h):
    return (h["actuators"] or case["prototype"]["actuators"])["kind"]


def generator(case, folder, **replace):
    sc = lambda x: T(x).reshape(case["scalars"])
    P = len(case["planes"])
    proto = case["prototype"]
    arg = dict(
        file_path=pathlib.Path(folder) / case["file"],
        power_plant_config=C.PowerPlantConfig(torch.tensor(case["position"], dtype=torch.float64)),
        target_area_list_planar_config=C.TargetAreaPlanarListConfig([
            C.TargetAreaPlanarConfig(n, T([*p["center"], 1.0]), T([*p["normal"], 0.0]), sc(p["width"]), sc(p["height"]))
            for n, p in zip(case["receivers"], case["planes"])]),
        target_area_list_cylindrical_config=C.TargetAreaCylindricalListConfig([
            C.TargetAreaCylindricalConfig(n, T(c["radius"]), T([*c["center"], 1.0]), T(c["height"]), T([*c["axis"], 0.0]), T([*c["normal"], 0.0]),
                                          T(c["opening"]))
            for n, c in zip(case["receivers"][P:], case["cylinders"])]),
        light_source_list_config=C.LightSourceListConfig([C.LightSourceConfig("sun_1", "sun", case["sun"]["rays"], "normal", case["sun"]["mean"],
                                                                             case["sun"]["covariance"])]),
        prototype_config=C.PrototypeConfig(surface_config(case, proto["surface"], proto["actuators"]["kind"], C.SurfacePrototypeConfig),
                                           kinematics_config(proto["kinematics"], C.KinematicsPrototypeConfig),
                                           actuator_config(proto["actuators"], C.ActuatorPrototypeConfig)),
        heliostat_list_config=C.HeliostatListConfig([
            C.HeliostatConfig(h["name"], h["id"], T([*h["position"], 1.0]),
                              surface=h["surface"] and surface_config(case, h["surface"], kind_of(case, h)),
                              kinematics=h["kinematics"] and kinematics_config(h["kinematics"]),
                              actuators=h["actuators"] and actuator_config(h["actuators"])) for h in case["heliostats"]]),
        version=case["version"])
    return H5ScenarioGenerator(**(arg | replace))


def write(case, folder, **replace):
    generator(case, folder, **replace).generate_scenario()
    p = pathlib.Path(folder) / case["file"]
    p = p if p.suffix == ".h5" else p.with_suffix(".h5")
    require(p.exists() and len(list(pathlib.Path(folder).iterdir())) == 1, f"scenario file {p.name} not written: {sorted(os.listdir(folder))}")
    return p


def load(case, path, **kw):
    with h5py.File(path) as f:
        return Scenario.load_scenario_from_hdf5(f, number_of_surface_points_per_facet=torch.tensor(case["points"]), device=DEV, **kw)


def effective(case):
    """Prototype surfaces carry the prototype's degrees; a group has one pair, so let all surfaces of that group use it."""
    proto = case["prototype"]["actuators"]["kind"]
    if any(h["surface"] is None and kind_of(case, h) != proto for h in case["heliostats"]):
        case = case | dict(degrees={k: case["degrees"][proto] for k in case["degrees"]})
    return case


@PROP.sub("round_trip", plant(), quick=220, shards=5)
def round_trip(case, ctx):
    case = effective(case)
    with tempfile.TemporaryDirectory() as folder:
        path = write(case, folder)
        kw = {} if case["change"] is None else dict(change_number_of_control_points_per_facet=torch.tensor(case["change"]))
        sc = load(case, path, **kw)
        groups = int(Scenario.get_number_of_heliostat_groups_from_hdf5(path))
    check(case, sc, groups)
    # another number of rays
    sun = sc.light_sources.light_source_list[0]
    for rays in (case["points"][0], 2 * case["points"][1] + 5):
        sc.set_number_of_rays(rays)
        same(sun.number_of_rays, rays, "number of rays after changing it")
        d = sun.get_distortions(number_of_points=3, number_of_active_heliostats=2)
        same([list(x.shape) for x in d], [[2, rays, 3]] * 2, "distortions after changing the number of rays")
    own = [x is not None for h in case["heliostats"] for x in (h["surface"], h["kinematics"], h["actuators"])]
    names = [h["name"] for h in case["heliostats"]]
    ctx.nontrivial(any(own) and not all(own) and names != sorted(names))
    ctx.label(f"{groups} groups")
    ctx.label(f"receivers {'planar ' if case['planes'] else ''}{'cylindrical' if case['cylinders'] else ''}")


def check(case, sc, groups):
    same(sc.power_plant_position, torch.tensor(case["position"], dtype=torch.float64), "power plant position")
    # receivers: planar ones first
    P = len(case["planes"])
    planes = sorted(zip(case["receivers"], case["planes"]), key=lambda x: x[0])
    cyls = sorted(zip(case["receivers"][P:], case["cylinders"]), key=lambda x: x[0])
    want = {n: i for i, (n, _) in enumerate(planes + cyls)}
    same(sc.solar_tower.target_name_to_index, want, "receiver names")
    same(sc.solar_tower.number_of_target_areas_per_type.tolist(), [len(planes), len(cyls)], "receivers per type")
    pl, cy = sc.solar_tower.target_areas
    if planes:
        v = [p for _, p in planes]
        same(list(pl.names), [n for n, _ in planes], "planar names")
        same(pl.centers, T(h4(np.array([p["center"] for p in v]), 1)), "planar centres")
        same(pl.normals, T(h4(np.array([p["normal"] for p in v]), 0)), "planar normals")
        same(pl.dimensions, T([[p["width"], p["height"]] for p in v]), "planar sizes")
    if cyls:
        v = [p for _, p in cyls]
        same(list(cy.names), [n for n, _ in cyls], "cylinder names")
        same(cy.centers, T(h4(np.array([p["center"] for p in v]), 1)), "cylinder centres")
        same(cy.normals, T(h4(np.array([p["normal"] for p in v]), 0)), "cylinder normals")
        same(cy.axes, T(h4(np.array([p["axis"] for p in v]), 0)), "cylinder axes")
        same(cy.radii, T([p["radius"] for p in v]), "radii")
        same(cy.heights, T([p["height"] for p in v]), "heights")
        same(cy.opening_angles, T([p["opening"] for p in v]), "opening angles")
    # sun
    require(len(sc.light_sources.light_source_list) == 1, "number of light sources")
    s = sc.light_sources.light_source_list[0]
    same(s.number_of_rays, case["sun"]["rays"], "rays")
    close(s.distribution.mean, [case["sun"]["mean"]] * 2, "mean of the sun", atol=1e-9)
    close(s.distribution.covariance_matrix, np.eye(2) * case["sun"]["covariance"], "covariance of the sun", atol=1e-11, rtol=1e-5)
    # field
    expected = {}
    for h in sorted(case["heliostats"], key=lambda h: h["name"]):
        expected.setdefault(kind_of(case, h), []).append(h)
    require(groups == len(expected), f"file announces {groups} groups instead of {len(expected)}")
    field = sc.heliostat_field
    same([sorted(g.names) for g in field.heliostat_groups], [sorted(h["name"] for h in v) for v in expected.values()], "heliostats of the groups")
    same(field.number_of_heliostats_per_group.tolist(), [len(v) for v in expected.values()], "sizes of the groups")
    for g, (kind, members) in zip(field.heliostat_groups, expected.items()):
        by_name = {h["name"]: h for h in members}
        for i, name in enumerate(g.names):
            check_heliostat(case, g, i, kind, by_name[name])


def check_heliostat(case, g, i, kind, h):
    name, proto = h["name"], case["prototype"]
    same(g.positions[i], T([*h["position"], 1.0]), f"position of {name}")
    k = h["kinematics"] or proto["kinematics"]
    same(g.initial_orientations[i], T([*k["orientation"], 0.0]), f"initial orientation of {name}")
    d = k["deviations"] or {}
    same(g.kinematics.translation_deviation_parameters[i], T([d.get(n) or 0.0 for n in KEYS_T]), f"translation deviations of {name}")
    same(g.kinematics.rotation_deviation_parameters[i], T([d.get(n) or 0.0 for n in KEYS_R]), f"rotation deviations of {name}")
    a = h["actuators"] or proto["actuators"]
    non, opt = g.kinematics.actuators.non_optimizable_parameters[i], g.kinematics.actuators.optimizable_parameters
    rows = [[1.0 if kind == "ideal" else 0.0] * 2, [float(x["clockwise"]) for x in a["each"]], [x["low"] for x in a["each"]], [x["high"] for x in a["each"]]]
    if kind == "linear":
        par = lambda n: [(x["params"] or {}).get(n) or 0.0 for x in a["each"]]
        rows += [par("increment"), par("offset"), par("pivot_radius")]
        angle = np.array(par("initial_angle"))
        angle[0] -= math.pi / 2         # surfaces lie on the ground, the actuator angle counts from the south
        close(opt[i], [angle, par("initial_stroke_length")], f"optimisable actuator parameters of {name}", atol=2e-6)
    else:
        require(opt.numel() == 0, f"ideal actuators have no optimisable parameters ({tuple(opt.shape)})")
    same(non, T(rows), f"actuators of {name}")
    # surface
    own = h["surface"] or proto["surface"]
    f = facets_of(case, own, kind if h["surface"] else proto["actuators"]["kind"])
    F = case["facets"]
    same(g.canting[i], T(h4(f["cant"], 0)), f"canting of {name}")
    same(g.facet_translations[i], T(h4(f["move"], 0)), f"facet translations of {name}")
    same(g.nurbs_degrees.tolist(), f["degrees"], f"NURBS degrees of the group of {name}")
    net = f["local"]
    if case["change"] is not None:
        a, b = case["change"]
        half = np.linalg.norm(f["cant"], axis=-1)
        net = np.zeros((F, a, b, 3))
        net[..., 0] = half[:, 0, None, None] * np.linspace(-1, 1, a)[:, None]
        net[..., 1] = half[:, 1, None, None] * np.linspace(-1, 1, b)
    close(g.nurbs_control_points[i], net, f"control points of {name}", atol=1e-5)
    if min(case["degrees"][kind]) < 1:
        return
    nu, nv = case["points"]
    lin = lambda n: np.linspace(1e-7, 1 - 1e-7, n) if n > 1 else np.array([1e-7])
    x = np.stack(np.meshgrid(lin(nu), lin(nv), indexing="ij"), -1).reshape(-1, 2).astype(np.float32).astype(float)
    R = frames(f["cant"])
    pts, nrm, ok = [], [], []
    for j in range(F):
        p, n = surface(f["degrees"], f["local"][j], x)
        knots = [np.linspace(0, 1, c - dg + 1)[1:-1] for c, dg in zip(case["n"], f["degrees"])]
        kink = np.zeros(len(x), bool)
        for axis in (0, 1):
            if f["degrees"][axis] == 1 and len(knots[axis]):
                kink |= (np.abs(x[:, axis, None] - knots[axis]) < 1e-4).any(1)
        pts.append(p @ R[j].T + f["move"][j])
        nrm.append((n / np.linalg.norm(n, axis=1, keepdims=True)) @ R[j].T)
        ok.append(~kink)
    pts, nrm, ok = np.concatenate(pts), np.concatenate(nrm), np.concatenate(ok)
    close(g.surface_points[i], h4(pts, 1), f"surface points of {name}", atol=2e-5)
    close(g.surface_normals[i], h4(nrm, 0), f"surface normals of {name}", atol=2e-3, mask=ok[:, None])


@PROP.sub("order", plant().flatmap(lambda p: st.fixed_dictionaries(dict(
    p=st.just(p), heliostats=st.permutations(range(len(p["heliostats"]))), planes=st.permutations(range(len(p["planes"]))),
    cylinders=st.permutations(range(len(p["cylinders"])))))), quick=80, shards=2)
def order(case, ctx):
    """The order in which a plant is described does not matter, and the prototype is independent of the heliostats."""
    p = effective(case["p"])
    P = len(p["planes"])
    q = p | dict(heliostats=[p["heliostats"][i] for i in case["heliostats"]], planes=[p["planes"][i] for i in case["planes"]],
                 cylinders=[p["cylinders"][i] for i in case["cylinders"]],
                 receivers=[p["receivers"][i] for i in case["planes"]] + [p["receivers"][P + i] for i in case["cylinders"]])
    out = []
    for c in (p, q):
        with tempfile.TemporaryDirectory() as folder:
            out.append(load(c, write(c, folder)))
    a, b = out
    same(a.solar_tower.target_name_to_index, b.solar_tower.target_name_to_index, "receivers")
    for x, y in zip(a.solar_tower.target_areas, b.solar_tower.target_areas):
        for n in ("centers", "normals", "dimensions", "axes", "radii", "heights", "opening_angles"):
            if hasattr(x, n):
                same(getattr(x, n), getattr(y, n), n)
    require(len(a.heliostat_field.heliostat_groups) == len(b.heliostat_field.heliostat_groups), "number of groups")
    for x, y in zip(a.heliostat_field.heliostat_groups, b.heliostat_field.heliostat_groups):
        same(x.names, y.names, "names")
        for n in ("positions", "surface_points", "surface_normals", "canting", "facet_translations", "nurbs_control_points", "nurbs_degrees",
                  "initial_orientations"):
            same(getattr(x, n), getattr(y, n), n)
        for n in ("translation_deviation_parameters", "rotation_deviation_parameters"):
            same(getattr(x.kinematics, n), getattr(y.kinematics, n), n)
        same(x.kinematics.actuators.non_optimizable_parameters, y.kinematics.actuators.non_optimizable_parameters, "actuators")
        same(x.kinematics.actuators.optimizable_parameters, y.kinematics.actuators.optimizable_parameters, "actuators")
    ctx.nontrivial(list(case["heliostats"]) != sorted(case["heliostats"]))


BAD = ["folder", "facets", "mixed", "mixed_prototype", "three", "one", "kind", "kinematics", "light", "distribution"]


@PROP.sub("rejections", plant().flatmap(lambda p: st.fixed_dictionaries(dict(
    p=st.just(p), bad=st.sampled_from(BAD), which=st.integers(0, len(p["heliostats"]) - 1), act=actuators(), kin=kinematics(), seed=seeds))), quick=120)
def rejections(case, ctx):
    p, bad, w = effective(case["p"]), case["bad"], case["which"]
    h, proto = p["heliostats"][w], p["prototype"]
    with tempfile.TemporaryDirectory() as folder:
        def heliostat(**kw):
            lst = generator(p, folder).heliostat_list_config
            for k, v in kw.items():
                setattr(lst.heliostat_list[w], k, v)
            return dict(heliostat_list_config=lst)

        def attempt(kinds, what, **replace):
            raises(lambda: load(p, write(p, folder, **replace)), kinds, what)

        if bad == "folder":
            raises(lambda: generator(p, str(pathlib.Path(folder) / "missing")), FileNotFoundError, "missing folder")
        elif bad == "facets":
            q = p | dict(facets=p["facets"] + 1)
            own = surface_config(q, proto["surface"], kind_of(p, h))
            raises(lambda: generator(p, folder, **heliostat(surface=own)), ValueError, "different numbers of facets")
        elif bad == "mixed":
            a = actuator_config(case["act"], kinds=["ideal", "linear"])
            attempt(ValueError, "mixed actuator types of one heliostat", **heliostat(actuators=a, kinematics=kinematics_config(case["kin"])))
        elif bad == "mixed_prototype":
            c = generator(p, folder).prototype_config
            c.actuators_prototype = actuator_config(case["act"], C.ActuatorPrototypeConfig, kinds=["linear", "ideal"])
            attempt(ValueError, "mixed actuator types of the prototype", prototype_config=c)
        elif bad in ("three", "one"):
            a = actuator_config(case["act"], count=3 if bad == "three" else 1)
            attempt(ValueError, f"{bad} actuators", **heliostat(actuators=a))
        elif bad == "kind":
            a = actuator_config(case["act"], kinds=["hydraulic"] * 2)
            attempt(ValueError, "unknown actuator type", **heliostat(actuators=a))
        elif bad == "kinematics":
            k = kinematics_config(case["kin"])
            k.kinematics_type = "flexible"
            attempt(ValueError, "unknown kinematics", **heliostat(kinematics=k))
        elif bad == "light":
            attempt(KeyError, "unknown light source", light_source_list_config=C.LightSourceListConfig([C.LightSourceConfig("l", "moon", 3, "normal", 0.0, 1e-6)]))
        elif bad == "distribution":
            raises(lambda: C.LightSourceConfig("l", "sun", 3, "pillbox", 0.0, 1e-6), ValueError, "unknown distribution")
    ctx.nontrivial(True)
    ctx.label(bad)
