import math

from hypothesis import strategies as st
import numpy as np
import torch

from . import scene
from .core import DEV, Prop, T, close, fail, np64, raises, require, rng, same
from .gen import directions, fl, seeds

PROP = Prop("C19", "a mapping that names several heliostats of the group in another order than the group's, one of them repeatedly, and "
                   "heliostats of other groups in between")

NAMES = ["AA23", "AA2", "A", "heliostat 1", "heliostat 10", "aa23", "Ä-7", "AA23 ", "31", "multi_focus_tower", "x" * 40, "B,C"]
RECEIVERS = ["multi_focus_tower", "solar_tower_juelich_lower", "solar_tower_juelich_upper", "receiver", "receiver_2", "AA23", "0", "STJ", "a plane", "z", "calibration target"]


@st.composite
def plant(draw):
    names = draw(st.permutations(NAMES))
    sizes = draw(st.lists(st.integers(1, 4), min_size=1, max_size=3))
    groups, k = [], 0
    for n in sizes:
        groups.append(list(names[k:k + n]))
        k += n
    planes, cylinders = draw(st.lists(scene.planar_spec(), min_size=1, max_size=6)), draw(st.lists(scene.cylinder_spec(), min_size=1, max_size=5))
    return dict(groups=groups, planes=planes, cylinders=cylinders, receivers=list(draw(st.permutations(RECEIVERS)))[:len(planes) + len(cylinders)])


def build(case):
    P = len(case["planes"])
    tower = scene.SolarTower([scene.planar_areas(case["planes"], case["receivers"][:P]),
                              scene.cylinder_areas(case["cylinders"], case["receivers"][P:])], device=DEV)
    specs = [dict(kind="ideal", positions=[[10.0 * i, 50.0, 0.0] for i in range(len(g))], half=[1, 1], facets=1, side=1, cant=0.0, bump=0.0,
                  deviation=0.0, seed=1, names=g) for g in case["groups"]]
    return scene.Scenario(power_plant_position=torch.zeros(3), solar_tower=tower, light_sources=scene.LightSourceArray([scene.sun()]),
                          heliostat_field=scene.field(specs))


def center(case, i):
    P = len(case["planes"])
    if i < P:
        return np.array(case["planes"][i]["center"])
    c = case["cylinders"][i - P]
    return np.array(c["center"]) + c["radius"] * np.array(c["normal"])


@st.composite
def mapping_case(draw):
    p = draw(plant())
    known = sorted({n for g in p["groups"] for n in g})
    return p | dict(mapping=draw(st.lists(st.tuples(st.sampled_from(known) | st.sampled_from(NAMES), st.sampled_from(p["receivers"]), directions()), max_size=12)),
                    defaults=dict(direction=draw(st.none() | directions()), index=draw(st.none() | st.integers(0, len(p["receivers"]) - 1))))


@PROP.sub("mapping", mapping_case(), quick=500, shards=3)
def mapping(case, ctx):
    sc = build(case)
    m = [(h, r, T([*d, 0.0])) for h, r, d in case["mapping"]]
    total = 0
    for g, names in zip(sc.heliostat_field.heliostat_groups, case["groups"]):
        mask, idx, inc = sc.index_mapping(g, m, device=DEV)
        want = [[(r, d) for h, r, d in case["mapping"] if h == n] for n in names]
        same(mask.tolist(), [len(w) for w in want], "how often each heliostat is selected")
        require(not mask.dtype.is_floating_point, "selection must consist of integers")
        flat = [x for w in want for x in w]
        same(idx.tolist(), [case["receivers"].index(r) for r, _ in flat], "receivers of the samples")
        require(tuple(inc.shape) == (len(flat), 4), f"shape of the sun directions {tuple(inc.shape)}")
        if flat:
            close(inc, np.array([[*d, 0.0] for _, d in flat]), "sun directions of the samples", atol=1e-7)
            c = sc.solar_tower.get_centers_of_target_areas(idx, device=DEV)
            close(c[:, :3], np.stack([center(case, case["receivers"].index(r)) for r, _ in flat]), "centres of the named receivers", atol=1e-4)
            close(c[:, 3], np.ones(len(flat)), "homogeneous coordinate")
        # what it returns can be used as a request
        g.activate_heliostats(mask, device=DEV)
        require(g.number_of_active_heliostats == len(flat), "activation")
        total += len(flat)
    every = {n for g in case["groups"] for n in g}
    require(total == sum(h in every for h, _, _ in case["mapping"]), "every named heliostat is simulated by exactly one group")
    ctx.nontrivial(len(case["groups"]) > 1 and len(case["mapping"]) > len({h for h, _, _ in case["mapping"]}) > 1)


@PROP.sub("defaults", mapping_case(), quick=200)
def defaults(case, ctx):
    sc = build(case)
    kw, d = {}, case["defaults"]
    if d["direction"] is not None:
        kw["single_incident_ray_direction"] = T([*d["direction"], 0.0])
    if d["index"] is not None:
        kw["single_target_area_index"] = d["index"]
    for g, names in zip(sc.heliostat_field.heliostat_groups, case["groups"]):
        mask, idx, inc = sc.index_mapping(g, device=DEV, **kw)
        n = len(names)
        same(mask.tolist(), [1] * n, "every heliostat once")
        same(idx.tolist(), [d["index"] or 0] * n, "default receiver")
        close(inc, np.tile([*(d["direction"] or [0.0, 1.0, 0.0]), 0.0], (n, 1)), "default sun direction", atol=1e-7)
    ctx.nontrivial(bool(d["index"]) and d["direction"] is not None)


BAD = ["long", "short", "zero", "point", "size3", "size5", "matrix", "nan", "receiver", "case", "empty"]


@st.composite
def bad_case(draw):
    p = draw(plant())
    w = draw(st.integers(0, len(p["groups"]) - 1))
    good = draw(st.lists(st.tuples(st.sampled_from(p["groups"][w]), st.sampled_from(p["receivers"]), directions()), max_size=5))
    return p | dict(which=w, good=good, at=draw(st.integers(0, len(good))), bad=draw(st.sampled_from(BAD)),
                    heliostat=draw(st.sampled_from(p["groups"][w])), direction=draw(directions()),
                    index=draw(st.sampled_from([0, 1, 5, -1, -2])))


@PROP.sub("rejections", bad_case(), quick=250)
def rejections(case, ctx):
    sc = build(case)
    g = sc.heliostat_field.heliostat_groups[case["which"]]
    d = np.array([*case["direction"], 0.0])
    receiver = case["receivers"][0]
    bad = case["bad"]
    if bad == "long":
        d = d * 1.05
    elif bad == "short":
        d = d * 0.9
    elif bad == "zero":
        d = d * 0
    elif bad == "point":
        d = np.array([*(d[:3] * 0.8), 0.6])
    elif bad == "size3":
        d = d[:3]
    elif bad == "size5":
        d = np.append(d, 0)
    elif bad == "matrix":
        d = d[None]
    elif bad == "nan":
        d[0] = float("nan")
    elif bad == "receiver":
        receiver = "nowhere"
    elif bad == "case":
        receiver = receiver + " "
    elif bad == "empty":
        receiver = ""
    m = [(h, r, T([*x, 0.0])) for h, r, x in case["good"]]
    sc.index_mapping(g, m, device=DEV)
    m.insert(case["at"], (case["heliostat"], receiver, T(d)))
    raises(lambda: sc.index_mapping(g, m, device=DEV), ValueError, f"mapping with an invalid entry ({bad})")
    if bad not in ("receiver", "case", "empty"):
        raises(lambda: sc.index_mapping(g, single_incident_ray_direction=T(d), device=DEV), ValueError, f"invalid default sun direction ({bad})")
    n = len(case["receivers"])
    i = case["index"] if case["index"] < 0 else n + case["index"]
    raises(lambda: sc.index_mapping(g, single_target_area_index=i, device=DEV), ValueError, f"receiver index {i} of {n}")
    sc.index_mapping(g, single_target_area_index=n - 1, device=DEV)
    ctx.nontrivial(len(case["good"]) > 0)
    ctx.label(bad)
