import json
import math
import os
import pathlib
import random
import struct
import tempfile
from unittest import mock

import h5py
from hypothesis import strategies as st
import numpy as np
from PIL import Image
import torch

import artist.raytracing  # noqa: F401
from artist.io import paint_scenario_parser as P
from artist.io.paint_calibration_parser import PaintCalibrationDataParser
from artist.io.stral_scenario_parser import extract_stral_deflectometry_data

from .c14 import A, E2, exact_enu
from .core import DEV, Prop, T, close, fail, np64, raises, require, rng, same
from .gen import directions, fl, h4, seeds, unit
from .scene import canting_frames, facet_offsets, field_cylinder, field_plane, group_spec, scenario

PROP = Prop("C21", "at least two heliostats or entries with data, listed in a different order than they are selected",
            assumptions=["Every heliostat occurs once in the mapping, with as many property files as images (build_heliostat_data_mapping yields this).",
                         "The power plant entry is the first entry of a tower file; planar receivers are spanned by east and up."])

PLANT = [50.91342112259258, 6.387824755874856, 87.0]


def geodetic(enu, ref):
    """Latitude, longitude and altitude of local points (close to the reference: the inverse is linear)."""
    s2 = math.sin(math.radians(ref[0])) ** 2
    n, m = A / math.sqrt(1 - E2 * s2), A * (1 - E2) / (1 - E2 * s2) ** 1.5
    enu = np.asarray(enu, float)
    return np.stack([ref[0] + np.degrees(enu[..., 1] / (m + ref[2])), ref[1] + np.degrees(enu[..., 0] / ((n + ref[2]) * math.cos(math.radians(ref[0])))),
                     ref[2] + enu[..., 2]], -1)


reference = st.tuples(fl(-65, 65) | st.just(PLANT[0]), fl(-170, 170) | st.just(PLANT[1]), fl(0, 900)).map(list)


# ---------------------------------------------------------------- calibration data
@st.composite
def calibration(draw):
    groups = [draw(group_spec(count=(1, 4), deviations=False, facets=1, side=1)) for _ in range(draw(st.integers(1, 2)))]
    names = draw(st.permutations(["AA39", "AA31", "AB2", "AB10", "b", "Z9", "H 1", "é7"]))
    k = 0
    for g in groups:
        g["names"] = list(names[k:k + len(g["positions"])])
        k += len(g["positions"])
    listed = draw(st.permutations(names[:k + draw(st.integers(0, 1))]))
    listed = listed[:draw(st.integers(min(1, len(listed)), len(listed)))]
    return dict(groups=groups, planes=[draw(field_plane()) for _ in range(draw(st.integers(1, 2)))], cylinders=[draw(field_cylinder())],
                data=[[n, draw(st.integers(0, 4))] for n in listed], limit=draw(st.none() | st.integers(1, 3)), method=draw(st.sampled_from(["UTIS", "HeliOS"])),
                resolution=[draw(st.integers(1, 24)), draw(st.integers(1, 24))], raw=draw(st.sampled_from([None, "turned"]) | st.tuples(st.integers(1, 40), st.integers(1, 40)).map(list)),
                color=draw(st.booleans()), folder=draw(st.sampled_from(["a", "data of 2024", "x.y"])), seed=draw(seeds))


def triangle(a, size, axis):
    """Antialiased bilinear resampling along one axis."""
    a = np.moveaxis(a, axis, -1)
    n, scale = a.shape[-1], a.shape[-1] / size
    s = max(scale, 1.0)
    centre = (np.arange(size) + 0.5) * scale
    w = np.clip(1 - np.abs(np.arange(n) + 0.5 - centre[:, None]) / s, 0, None)
    return np.moveaxis(a @ (w / w.sum(1, keepdims=True)).T, -1, axis)


@PROP.sub("calibration", calibration(), quick=260, shards=3)
def calibration_data(case, ctx):
    g = rng(case["seed"])
    sc = scenario(case["groups"], case["planes"], case["cylinders"], rays=1)
    index = sc.solar_tower.target_name_to_index
    ref = np64(sc.power_plant_position)
    W, H = case["resolution"]
    truth, mapping = {}, []
    with tempfile.TemporaryDirectory() as base:
        for name, count in case["data"]:
            folder = pathlib.Path(base) / case["folder"] / name
            folder.mkdir(parents=True)
            rows, props, pngs = [], [], []
            for i in range(count):
                spots = {m: geodetic(g.uniform(-60, 60, 3), ref).tolist() for m in ("UTIS", "HeliOS")}
                target = list(index)[int(g.integers(len(index)))]
                az, el, motor = g.uniform(-180, 360), g.uniform(1, 89), [int(g.integers(0, 70000)), float(np.float32(g.uniform(0, 70000)))]
                p = folder / f"{g.integers(10**6)}{i}-calibration-properties.json"
                p.write_text(json.dumps(dict(target_name=target, focal_spot=spots, sun_azimuth=az, sun_elevation=el,
                                             motor_position=dict(axis_1_motor_position=motor[0], axis_2_motor_position=motor[1]))))
                h, w = (H, W) if case["raw"] is None or g.random() < 0.3 else (W, H) if case["raw"] == "turned" else case["raw"]
                img = g.integers(0, 256, (h, w)).astype(np.uint8)
                im = Image.fromarray(img)
                q = folder / f"{g.integers(10**6)}{i}.png"
                (im.convert("RGB") if case["color"] else im).save(q)
                want = img / 255.0 if (h, w) == (H, W) else triangle(triangle(img / 255.0, W, 1), H, 0)
                rows.append(dict(spot=spots[case["method"]], target=index[target], az=az, el=el, motor=motor, flux=want, exact=(h, w) == (H, W)))
                props.append(p)
                pngs.append(q)
            truth[name] = rows
            mapping.append((name, props, pngs))
        parser = PaintCalibrationDataParser(sample_limit=case["limit"], centroid_extraction_method=case["method"])
        out = [parser.parse_data_for_reconstruction(heliostat_data_mapping=mapping, heliostat_group=grp, scenario=sc,
                                                    bitmap_resolution=torch.tensor([W, H]), device=DEV) for grp in sc.heliostat_field.heliostat_groups]
    for grp, (flux, spots, rays, motors, mask, targets) in zip(sc.heliostat_field.heliostat_groups, out):
        rows = [truth.get(n, [])[:case["limit"]] for n in grp.names]
        same(mask.tolist(), [len(r) for r in rows], "samples per heliostat")
        rows = [r for x in rows for r in x]
        N = len(rows)
        same([tuple(x.shape) for x in (flux, spots, rays, motors, targets)], [(N, H, W), (N, 4), (N, 4), (N, 2), (N,)], "shapes")
        if not N:
            continue
        same(targets.tolist(), [r["target"] for r in rows], "receivers")
        close(motors, [r["motor"] for r in rows], "motor positions", atol=5e-3)
        enu = exact_enu(np.array([r["spot"] for r in rows]), ref)
        close(spots, h4(enu, 1), "focal spots", atol=3e-2)
        az, el = np.radians([r["az"] for r in rows]), np.radians([r["el"] for r in rows])
        close(rays, h4(-np.stack([np.sin(az) * np.cos(el), -np.cos(az) * np.cos(el), np.sin(el)], 1), 0), "directions of the sunlight", atol=2e-6)
        for i, r in enumerate(rows):
            close(flux[i], r["flux"], f"flux image {i}", atol=1e-6 if r["exact"] else 1.6 / 255)
    used = [n for n, c in case["data"] if c]
    order = [n for grp in sc.heliostat_field.heliostat_groups for n in grp.names if n in used]
    ctx.nontrivial(len(order) > 1 and order != [n for n in used if n in order])
    ctx.label("limited" if case["limit"] and any(c > case["limit"] for _, c in case["data"]) else "unlimited")
    ctx.label(f"{len(case['groups'])} groups")


@PROP.sub("method", st.sampled_from(["utis", "HELIOS", "", "center", "Utis"]) | st.text(max_size=6), quick=40)
def method(case, ctx):
    if case in ("UTIS", "HeliOS"):
        PaintCalibrationDataParser(centroid_extraction_method=case)
    else:
        raises(lambda: PaintCalibrationDataParser(centroid_extraction_method=case), ValueError, "unknown centroid method")
    ctx.nontrivial(bool(case))


# ---------------------------------------------------------------- files of measurements
@st.composite
def mapping_case(draw):
    names = draw(st.permutations(["AA39", "AA31", "AB2", "b", "Z9"]))[:draw(st.integers(1, 4))]
    return dict(heliostats=[[n, draw(st.sampled_from(["data", "data", "data", "empty", "missing"])), draw(st.integers(0, 7))] for n in names],
                wanted=draw(st.integers(1, 6)), variant=draw(st.sampled_from(["flux", "flux-centered", "raw"])), randomize=draw(st.booleans()),
                selection=draw(st.integers(0, 2**31)), missing=draw(st.sampled_from([0.0, 0.3])), seed=draw(seeds))


class Directory:
    """The entries of a directory in an order of its own: file systems promise none."""

    def __init__(self, entries, seed):
        self.entries = sorted(entries, key=lambda e: e if isinstance(e, str) else e.name)
        random.Random(seed).shuffle(self.entries)

    def __iter__(self):
        return iter(self.entries)

    __enter__ = lambda self: self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


@PROP.sub("selection", mapping_case(), quick=200)
def selection(case, ctx):
    """Properties and images belong together, and the selection does not depend on the order of directory entries."""
    g = rng(case["seed"])
    with tempfile.TemporaryDirectory() as folder:
        base = pathlib.Path(folder)
        complete = {}
        for name, kind, count in case["heliostats"]:
            if kind == "missing":
                continue
            d = base / name / "Calibration"
            d.mkdir(parents=True)
            complete[name] = set()
            for i in sorted(set(g.integers(1, 300000, size=count if kind == "data" else 0).tolist())):
                (d / f"{i}-calibration-properties.json").write_text("{}")
                for v in ("flux", "flux-centered", "raw"):
                    if g.random() >= case["missing"]:
                        (d / f"{i}-{v}.png").write_bytes(b"")
                if (d / f"{i}-{case['variant']}.png").exists():
                    complete[name].add(i)
            (d / "1-unrelated.json").write_text("{}")
        arg = dict(base_path=str(base), heliostat_names=[h[0] for h in case["heliostats"]], number_of_measurements=case["wanted"],
                   image_variant=case["variant"], randomize=case["randomize"], seed=case["selection"])
        real_scan, real_list = os.scandir, os.listdir
        outs = []
        for k in (1, 2):
            with mock.patch("os.scandir", lambda p=".": Directory(real_scan(p), k)), mock.patch("os.listdir", lambda p=".": Directory(real_list(p), k).entries):
                outs.append(P.build_heliostat_data_mapping(**arg))
        require(outs[0] == outs[1], f"selection depends on the order in which the directory is listed: {outs[0]} and {outs[1]}")
        out = outs[0]
        same([h[0] for h in out], [n for n, _, _ in case["heliostats"] if complete.get(n)], "heliostats with measurements")
        for name, props, images in out:
            d = base / name / "Calibration"
            ids = [int(pathlib.Path(p).name.split("-")[0]) for p in props]
            require(len(set(ids)) == len(ids) == min(case["wanted"], len(complete[name])), f"{name}: measurements {ids} of {complete[name]}")
            require(set(ids) <= complete[name], f"{name}: measurements without image")
            same([pathlib.Path(p) for p in props], [d / f"{i}-calibration-properties.json" for i in ids], "property files")
            same([pathlib.Path(p) for p in images], [d / f"{i}-{case['variant']}.png" for i in ids], "images of the properties")
            if not case["randomize"]:
                same(ids, sorted(complete[name], key=lambda i: f"{i}-")[:case["wanted"]], "sorted selection")
    ctx.nontrivial(len(out) > 1)


# ---------------------------------------------------------------- tower
@st.composite
def tower_case(draw):
    keys = draw(st.permutations(["solar_tower_juelich_upper", "solar_tower_juelich_lower", "multi_focus_tower", "receiver", "b", "A 2"]))
    kinds = [draw(st.sampled_from(["planar", "convex_cylinder"])) for _ in range(draw(st.sampled_from([0, 1, 2, 2, 3, 3, 4, 5])))]
    areas = []
    for k, kind in zip(keys, kinds):
        c = [draw(fl(-40, 40)), draw(fl(-40, 40)), draw(fl(0, 60))]
        if kind == "planar":
            areas.append(dict(key=k, kind=kind, center=c, size=[draw(fl(1, 12)), draw(fl(1, 12))], jitter=draw(st.sampled_from([0.0, 0.1, 0.45])),
                              normal=draw(st.sampled_from([[0, 1, 0], [0.0, 1.0, 0.0], [0, -1, 0]])), seed=draw(seeds)))
        else:
            az, tilt = draw(fl(-3.1, 3.1) | st.just(0.0)), draw(fl(-1.2, 1.2) | st.just(0.0))
            whole = draw(st.sampled_from([None, [0, 1, 0], [-1, 0, 0]]))
            areas.append(dict(key=k, kind=kind, center=c, az=az, tilt=tilt, normal=whole, radius=draw(fl(1, 8) | st.integers(1, 8)), height=draw(fl(1, 9)),
                              opening=draw(fl(20, 360) | st.integers(20, 360)), span=draw(fl(0.3, 1.0)), lower=draw(st.sampled_from([1.0, 1.0, 0.6]))))
    return dict(reference=draw(reference), areas=areas, extra=draw(st.booleans()))


@PROP.sub("tower", tower_case(), quick=260)
def tower_file(case, ctx):
    ref = case["reference"]
    doc = {"power_plant_properties": dict(ID="X", coordinates=ref)}
    geo = lambda p: geodetic(p, ref).tolist()
    planes, cylinders = [], []
    for a in case["areas"]:
        c = np.array(a["center"])
        corners = {}
        names = [("upper_left", -1, 1), ("upper_right", 1, 1), ("lower_left", -1, -1), ("lower_right", 1, -1)]
        if a["kind"] == "planar":
            g = rng(a["seed"])
            s = a["normal"][1]          # seen from the field, left is east for a receiver that faces north
            pts = {n: c + [-s * x * a["size"][0] / 2, 0, y * a["size"][1] / 2] + g.uniform(-1, 1, 3) * a["jitter"] for n, x, y in names}
            dims = [(abs(pts["upper_left"][0] - pts["upper_right"][0]) + abs(pts["lower_left"][0] - pts["lower_right"][0])) / 2,
                    (abs(pts["upper_left"][2] - pts["lower_left"][2]) + abs(pts["upper_right"][2] - pts["lower_right"][2])) / 2]
            coords = {n: geo(p) for n, p in pts.items()} | dict(center=geo(c))
            if case["extra"]:
                coords["upper_middle"] = geo((pts["upper_left"] + pts["upper_right"]) / 2)
            doc[a["key"]] = dict(type="planar", normal_vector=a["normal"], coordinates=coords)
            planes.append((a, c, dims))
        else:
            n = np.array(a["normal"], float) if a["normal"] else np.array([math.sin(a["az"]) * math.cos(a["tilt"]), math.cos(a["az"]) * math.cos(a["tilt"]), math.sin(a["tilt"])])
            east = unit(np.cross([0, 0, 1.0], n))
            axis = np.cross(n, east)
            half = [None] + [math.radians(min(a["opening"], 178) / 2 * a["span"] * f) for f in (1.0, a["lower"])]      # above and below
            pts = {m: c + a["radius"] * (n * math.cos(half[y]) + x * east * math.sin(half[y])) + axis * y * a["height"] / 2 for m, x, y in names}
            prefix = "receiver_inner_" if a["key"] == "receiver" else ""
            coords = {prefix + m: geo(p) for m, p in pts.items()} | dict(center=geo(c))
            if case["extra"] and prefix:
                coords |= {f"receiver_outer_{m}": geo(p + 0.3) for m, p in pts.items()}
            doc[a["key"]] = dict(type="convex_cylinder", normal_vector=a["normal"] or n.tolist(), radius=a["radius"], opening_angle=a["opening"], coordinates=coords)
            cylinders.append((a, c, n, axis))
    with tempfile.TemporaryDirectory() as folder:
        path = pathlib.Path(folder) / "tower.json"
        path.write_text(json.dumps(doc))
        plant, pl, cy = P.extract_paint_tower_measurements(path, device=DEV)
    same(plant.power_plant_position, torch.tensor(ref, dtype=torch.float64), "position of the power plant")
    pl, cy = pl.target_area_list, cy.target_area_list
    same([p.target_area_key for p in pl], [a["key"] for a, *_ in planes], "flat receivers")
    same([p.target_area_key for p in cy], [a["key"] for a, *_ in cylinders], "cylindrical receivers")
    for p, (a, c, dims) in zip(pl, planes):
        close(p.center, [*c, 1.0], f"centre of {a['key']}", atol=1e-2)
        close(torch.as_tensor(p.normal_vector).reshape(4), [*a["normal"], 0.0], f"normal of {a['key']}")
        close(torch.stack([torch.as_tensor(p.plane_e), torch.as_tensor(p.plane_u)]), dims, f"size of {a['key']}", atol=1e-2)
    for p, (a, c, n, axis) in zip(cy, cylinders):
        # with the chord almost a diameter, its distance from the centre is ill conditioned
        close(torch.as_tensor(p.center).reshape(4), [*c, 1.0], f"centre of {a['key']}", atol=2e-2 * max(1, math.tan(math.radians(min(a["opening"], 178) / 2 * a["span"]))))
        close(torch.as_tensor(p.normal).reshape(4), [*n, 0.0], f"normal of {a['key']}", atol=1e-6)
        close(torch.as_tensor(p.axis).reshape(4), [*axis, 0.0], f"axis of {a['key']}", atol=1e-5)
        close(p.height, a["height"], f"height of {a['key']}", atol=2e-2)
        close(p.radius, a["radius"], f"radius of {a['key']}", rtol=1e-6)
        close(p.opening_angle, math.radians(a["opening"]), f"opening angle of {a['key']}", atol=1e-6)
    ctx.nontrivial(len(planes) + len(cylinders) > 1)
    ctx.label(f"{len(planes)} flat, {len(cylinders)} cylindrical")


# ---------------------------------------------------------------- heliostats
DEVIATIONS = {"joint_translation_e_1": "first_joint_translation_e", "joint_translation_n_1": "first_joint_translation_n",
              "joint_translation_u_1": "first_joint_translation_u", "joint_translation_e_2": "second_joint_translation_e",
              "joint_translation_n_2": "second_joint_translation_n", "joint_translation_u_2": "second_joint_translation_u",
              "concentrator_translation_e": "concentrator_translation_e", "concentrator_translation_n": "concentrator_translation_n",
              "concentrator_translation_u": "concentrator_translation_u"}
TILTS = ["first_joint_tilt_n", "first_joint_tilt_u", "second_joint_tilt_e", "second_joint_tilt_n"]
PARAMETERS = ["increment", "initial_stroke_length", "offset", "pivot_radius", "initial_angle"]


@st.composite
def heliostat(draw, facets=None):
    return dict(position=[draw(fl(-250, 250)), draw(fl(-250, 250)), draw(fl(-5, 15))], facets=facets or draw(st.integers(1, 6)), half=[draw(fl(0.3, 2)), draw(fl(0.3, 2))],
                cant=draw(fl(0, 0.05)), orientation=draw(st.sampled_from([[0.0, -1.0, 0.0], [0, 0, 1]]) | directions()), seed=draw(seeds),
                kinds=draw(st.sampled_from([["linear", "linear"], ["ideal", "ideal"], ["linear"], ["ideal", "linear"]])))


def describe_heliostat(h, ref):
    g = rng(h["seed"])
    F = h["facets"]
    cant = canting_frames(h["half"], 4, h["cant"])[[i % 4 for i in range(F)]]
    move = facet_offsets(h["half"], 4)[[i % 4 for i in range(F)]] + np.arange(F)[:, None] * 0.25
    dev = {k: float(np.float32(g.uniform(-0.3, 0.3))) if g.random() < 0.8 else 0.0 for k in DEVIATIONS}
    act = [dict(type_axis=k, clockwise_axis_movement=bool(g.random() < 0.5), min_increment=int(g.integers(0, 100)), max_increment=int(g.integers(2000, 80000)))
           | {p: float(np.float32(g.uniform(0.01, 2))) for p in PARAMETERS} for k in h["kinds"]]
    act = [a | dict(increment=int(g.integers(10**5, 2 * 10**5))) if g.random() < 0.4 else a for a in act]
    doc = dict(heliostat_position=geodetic(h["position"], ref).tolist(), width=3.2, height=2.5, initial_orientation=h["orientation"],
               kinematics_properties=dev | dict(actuators=act),
               facet_properties=dict(canting_type="receiver canting", number_of_facets=F,
                                     facets=[dict(translation_vector=move[i].tolist(), canting_e=cant[i, 0].tolist(), canting_n=cant[i, 1].tolist()) for i in range(F)]))
    return doc, dict(cant=cant, move=move, dev=dev, act=act)


def check_deviations(d, want):
    for k, n in DEVIATIONS.items():
        close(getattr(d, n), want[k], n, rtol=1e-6)
    for n in TILTS:
        close(getattr(d, n), 0.0, n)


@PROP.sub("properties", st.fixed_dictionaries(dict(h=heliostat(), reference=reference)), quick=160)
def properties(case, ctx):
    h = case["h"]
    doc, want = describe_heliostat(h, case["reference"])
    with tempfile.TemporaryDirectory() as folder:
        path = pathlib.Path(folder) / "heliostat.json"
        path.write_text(json.dumps(doc))
        pos, move, cant, dev, orientation, act = P.extract_paint_heliostat_properties(path, torch.tensor(case["reference"], dtype=torch.float64), device=DEV)
    check_position(pos, h["position"], case["reference"])
    close(move, h4(want["move"], 0), "facet translations", rtol=1e-6)
    close(cant, h4(want["cant"], 0), "canting", rtol=1e-6, atol=1e-7)
    check_deviations(dev, want["dev"])
    close(orientation, [*h["orientation"], 0.0], "initial orientation", atol=1e-7)
    same(len(act), len(want["act"]), "actuators")
    for (kind, clockwise, limits, par), a in zip(act, want["act"]):
        same([kind, clockwise, list(limits)], [a["type_axis"], a["clockwise_axis_movement"], [a["min_increment"], a["max_increment"]]], "actuator")
        for p in PARAMETERS:
            close(getattr(par, p), a[p], p, rtol=1e-6)
    ctx.nontrivial(h["facets"] > 1)


def check_position(pos, enu, ref):
    d = math.hypot(*enu[:2])
    exact = exact_enu(geodetic(enu, ref)[None], np.array(ref))[0]
    tol = d**2 / 6.3e6 * (1 + abs(math.tan(math.radians(ref[0])))) + d * (ref[2] + 20) / 6.3e6 + 5e-3
    close(pos, [*exact, 1.0], "position", atol=tol)


# ---------------------------------------------------------------- several heliostats with ideal and measured surfaces
@st.composite
def heliostats_case(draw):
    F = draw(st.integers(1, 3))
    names = draw(st.permutations(["AA39", "AA31", "AB2", "b"]))[:draw(st.integers(1, 4))]
    kind = draw(st.sampled_from(["ideal", "fitted", "mixed", "mixed"]))
    return dict(reference=draw(reference), kind=kind, n=[draw(st.integers(4, 6)), draw(st.integers(4, 6))], method=draw(st.sampled_from(["deflectometry_normals", "point_cloud"])),
                heliostats=[dict(name=n, h=draw(heliostat(facets=F)) | dict(kinds=["linear", "linear"]), form=draw(st.sampled_from(["measured", "none", "short"])))
                            for n in names])


@PROP.sub("heliostats", heliostats_case(), quick=90, shards=2)
def heliostats(case, ctx):
    from artist.util import constants
    ref = case["reference"]
    method = {"deflectometry_normals": constants.fit_nurbs_from_normals, "point_cloud": constants.fit_nurbs_from_points}[case["method"]]
    with tempfile.TemporaryDirectory() as folder:
        folder = pathlib.Path(folder)
        paths, truth = [], {}
        for x in case["heliostats"]:
            doc, want = describe_heliostat(x["h"], ref)
            p = folder / f"{x['name']}.json"
            p.write_text(json.dumps(doc))
            measured = case["kind"] == "fitted" or (case["kind"] == "mixed" and x["form"] == "measured")
            truth[x["name"]] = want | dict(position=x["h"]["position"], orientation=x["h"]["orientation"], measured=measured)
            if measured:
                d = folder / f"{x['name']}.h5"
                with h5py.File(d, "w") as f:
                    g = rng(x["h"]["seed"])
                    for i in range(x["h"]["facets"]):
                        xy = g.uniform(-1, 1, (40 + 5 * i, 2)) * x["h"]["half"]
                        f[f"facet{i + 1}/surface_points"] = np.c_[xy, 0.001 * xy[:, 0] * xy[:, 1]].astype(np.float32)
                        f[f"facet{i + 1}/surface_normals"] = unit(np.c_[-0.001 * xy[:, 1], -0.001 * xy[:, 0], np.ones(len(xy))]).astype(np.float32)
                paths.append((x["name"], p, d))
            elif case["kind"] == "mixed" and x["form"] == "none":
                paths.append((x["name"], p, None))
            else:
                paths.append((x["name"], p))
        origin = torch.tensor(ref, dtype=torch.float64)
        n = torch.tensor(case["n"])
        if case["kind"] == "ideal":
            lst, proto = P.extract_paint_heliostats_ideal_surface(paths, origin, n, device=DEV)
        else:
            optimizer = torch.optim.Adam([torch.empty(1, requires_grad=True)], lr=1e-3)
            fn = P.extract_paint_heliostats_fitted_surface if case["kind"] == "fitted" else P.extract_paint_heliostats_mixed_surface
            lst, proto = fn(paths, origin, optimizer, torch.optim.lr_scheduler.ReduceLROnPlateau(optimizer), n, deflectometry_step_size=2,
                            nurbs_fit_method=method, nurbs_fit_max_epoch=1, device=DEV)
    out = {h.name: h for h in lst.heliostat_list}
    same(sorted(h.name for h in lst.heliostat_list), sorted(truth), "heliostats")
    for name, want in truth.items():
        h = out[name]
        check_position(h.position, want["position"], ref)
        check_deviations(h.kinematics.deviations, want["dev"])
        close(h.kinematics.initial_orientation, [*want["orientation"], 0.0], "initial orientation", atol=1e-7)
        same(h.kinematics.type if hasattr(h.kinematics, "type") else h.kinematics.kinematics_type, "rigid_body", "kinematics")
        acts = h.actuators.actuator_list
        same(len(acts), 2, "actuators")
        for a, w in zip(acts, want["act"]):
            same([a.actuator_type, a.clockwise_axis_movement, list(a.min_max_motor_positions)],
                 [w["type_axis"], w["clockwise_axis_movement"], [w["min_increment"], w["max_increment"]]], "actuator")
            for p in PARAMETERS:
                close(getattr(a.parameters, p), w[p], p, rtol=1e-6)
        require(len({a.key for a in acts}) == 2, "actuators need keys of their own")
        facets = h.surface.facet_list
        same(len(facets), len(want["move"]), "facets")
        flat = all(float(f.control_points[..., 2].abs().max()) < 1e-6 for f in facets)
        if want["measured"]:
            require(not flat or case["kind"] == "ideal", f"{name} has measurements but an ideal surface")
        else:
            require(flat, f"{name} has no measurements but no ideal surface")
        for f, m, c in zip(facets, want["move"], want["cant"]):
            same(tuple(f.control_points.shape), (*case["n"], 3), "control points")
            zero = want["measured"] and method == constants.fit_nurbs_from_points       # translations are part of the points then
            close(f.translation_vector, h4(m * (not zero), 0), "facet translation", rtol=1e-6)
            close(f.canting, h4(c, 0), "canting", rtol=1e-6, atol=1e-7)
    candidates = [h for h in lst.heliostat_list if torch.equal(proto.surface_prototype.facet_list[0].control_points, h.surface.facet_list[0].control_points)
                  and torch.equal(proto.surface_prototype.facet_list[0].canting, h.surface.facet_list[0].canting)]
    require(bool(candidates), "the prototype surface is that of a heliostat")
    if case["kind"] == "mixed" and any(not t["measured"] for t in truth.values()):
        require(all(not truth[h.name]["measured"] for h in candidates), "the prototype has an ideal surface where there are ideal heliostats")
    ctx.nontrivial(len(truth) > 1)
    ctx.label(case["kind"])
    ctx.label("one kind only" if len({t["measured"] for t in truth.values()}) == 1 else "both kinds")


# ---------------------------------------------------------------- measured surfaces
surface_file = st.fixed_dictionaries(dict(grid=st.tuples(st.integers(1, 3), st.integers(1, 3)).map(list), points=st.lists(st.integers(1, 30), min_size=9, max_size=9),
                                          seed=seeds))


@PROP.sub("surfaces", surface_file, quick=120)
def surfaces(case, ctx):
    """Binary STRAL files and PAINT deflectometry files."""
    g = rng(case["seed"])
    F = case["grid"][0] * case["grid"][1]
    f32 = lambda *s: g.uniform(-3, 3, s).astype(np.float32)
    move, cant = f32(F, 3), f32(F, 2, 3)
    pts, nrm = [f32(k, 3) for k in case["points"][:F]], [f32(k, 3) for k in case["points"][:F]]
    with tempfile.TemporaryDirectory() as folder:
        path = pathlib.Path(folder) / "stral.binp"
        with open(path, "wb") as f:
            f.write(struct.pack("=5f2I2f", *f32(5), *case["grid"], *f32(2)))
            for i in range(F):
                f.write(struct.pack("=i9fI", int(g.integers(-5, 500)), *move[i], *cant[i].ravel(), len(pts[i])))
                for p, n in zip(pts[i], nrm[i]):
                    f.write(struct.pack("=7f", *p, *n, *f32(1)))
        m, c, sp, sn = extract_stral_deflectometry_data(path, device=DEV)
        close(m, h4(move, 0), "facet translations (STRAL)")
        close(c, h4(cant, 0), "canting (STRAL)")
        check_points(sp, sn, pts, nrm, "STRAL")
        path = pathlib.Path(folder) / "d.h5"
        with h5py.File(path, "w") as f:
            for i in g.permutation(F):
                f[f"facet{i + 1}/surface_points"], f[f"facet{i + 1}/surface_normals"] = pts[i], nrm[i]
        check_points(*P.extract_paint_deflectometry_data(path, F, device=DEV), pts, nrm, "PAINT")
    ctx.nontrivial(F > 1 and len(set(case["points"][:F])) > 1)


def check_points(sp, sn, pts, nrm, what):
    same([len(sp), len(sn)], [len(pts)] * 2, f"facets ({what})")
    for i, (a, b) in enumerate(zip(sp, pts)):
        close(a, b, f"points of facet {i} ({what})")
    for i, (a, b) in enumerate(zip(sn, nrm)):
        close(a, b, f"normals of facet {i} ({what})")
