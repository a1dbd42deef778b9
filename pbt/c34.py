"""Nothing a process did before changes a result, and no call changes what it was given."""
import contextlib, copy, io, json, logging, os, pathlib, tempfile

from hypothesis import strategies as st
import numpy as np
from PIL import Image
import torch

import artist.raytracing  # noqa: F401
from artist.flux import bitmap
from artist.geometry import coordinates, rotations, transforms
from artist.io.paint_calibration_parser import PaintCalibrationDataParser
from artist.nurbs import NURBSSurfaces, create_nurbs_evaluation_grid, create_planar_nurbs_control_points
from artist.optim import loss as losses
from artist.optim import regularizers, training
from artist.raytracing import HeliostatRayTracer
from artist.scenario.surface_generator import SurfaceGenerator
from artist.util import set_logger_config

from . import c11, c20, c26, c27, c28, c29, opt
from .clean import in_child
from .core import DEV, Prop, T, close, np64, require, rng
from .gen import fl, h4, seeds, unit
from .c05 import plant
from .c18 import snapshot
from .scene import field_plane, field_cylinder, group, group_spec, scenario

PROP = Prop("C34", "a history of at least two calls of the same kind with inputs of the same sizes but different values",
            assumptions=["Every call is repeated alone in a process that has done nothing else; both runs use the same code, one thread and the CPU.",
                         "Objects a caller hands over to be worked on (a plant whose heliostats are activated, aligned or reconstructed) may change; tensors may not."])


class Held:
    """Inputs that no call may change."""

    def __init__(self):
        self.items = []

    def __call__(self, *xs):
        self.items += [(x, x.detach().clone()) for x in xs]
        return xs[0] if len(xs) == 1 else xs

    def changed(self):
        return [i for i, (x, y) in enumerate(self.items) if not (x.shape == y.shape and torch.equal(torch.nan_to_num(x.detach()), torch.nan_to_num(y)))]


def reseed(case, seed):
    """The same sizes, other values."""
    if isinstance(case, dict):
        return {k: (v + seed) % 2**32 if k == "seed" else reseed(v, seed) for k, v in case.items()}
    return [reseed(v, seed) for v in case] if isinstance(case, list) else case


def jittered(case, seed):
    """Another plant with as many of everything."""
    case, g = reseed(copy.deepcopy(case), seed), rng(seed)
    for s in case["specs"]:
        s["positions"] = [[x + float(d) for x, d in zip(p, g.uniform(-1.5, 1.5, 3))] for p in s["positions"]]
    for r in case["planes"] + case["cylinders"]:
        r["center"] = [x + float(d) for x, d in zip(r["center"], g.uniform(-2, 2, 3))]
    return case


# ---------------------------------------------------------------- calls; each gives a list of arrays
def nurbs(p, seed, folder, held):
    cp, ev = c11.control_net(reseed(p, seed))
    held(cp, ev)
    g = rng(seed + 1)
    cant = np.zeros((p["surfaces"], p["facets"], 2, 3))
    cant[..., 0, 0], cant[..., 1, 1] = 1.0, 1.0
    cant += g.normal(size=cant.shape) * 0.05
    cant, shift = held(T(h4(cant, 0)), T(h4(g.normal(size=(p["surfaces"], p["facets"], 3)), 0)))
    sides, net = held(torch.tensor([2, 4] if seed % 2 else [4, 2]), torch.tensor([3, 2] if seed // 2 % 2 else [2, 3]))
    out = [create_nurbs_evaluation_grid(sides, device=DEV), create_planar_nurbs_control_points(net, cant[0], device=DEV)]
    for uniform in (True, False):
        s = NURBSSurfaces(degrees=torch.tensor(p["deg"]), control_points=cp, uniform=uniform, device=DEV)
        out += [*s.calculate_surface_points_and_normals(ev, None, None, device=DEV), *s.calculate_surface_points_and_normals(ev, cant, shift, device=DEV)]
    return out


def fit(p, seed, folder, held):
    a, b = c26.facet(p["half"], 12, p["height"] + 1e-3, rng(p["seed"] + seed), p["tilt"])
    P, N = held(T(h4(a, 1)), T(h4(b, 0)))
    gen = SurfaceGenerator(number_of_control_points=torch.tensor(p["n"]), degrees=torch.tensor(p["deg"]), device=DEV)
    s = gen.fit_nurbs(P, N, c26.adam(), None, p["method"], tolerance=1e-12, max_epoch=4, device=DEV)
    return [s.control_points.detach()]


def tracing(p, seed, folder, held):
    p = jittered(p, seed)
    sc = scenario(p["specs"], p["planes"], p["cylinders"], p["rays"], p["cov"])
    start = snapshot(sc)
    out = []
    mask, index, inc = held(torch.tensor(p["mask"]), torch.tensor(p["index"]), T(p["inc"]))
    for grp in sc.heliostat_field.heliostat_groups:      # blocking needs the whole field aligned
        every = torch.ones(grp.number_of_heliostats, dtype=torch.int32)
        grp.activate_heliostats(every, device=DEV)
        aim = sc.solar_tower.get_centers_of_target_areas(every.long() * 0, device=DEV)
        grp.align_surfaces_with_incident_ray_directions(aim, inc[:1].expand(len(every), 4), every, device=DEV)
    grp = sc.heliostat_field.heliostat_groups[p["which"]]
    for blocking in (False, True):
        grp.activate_heliostats(mask, device=DEV)
        aim = held(sc.solar_tower.get_centers_of_target_areas(index, device=DEV))
        grp.align_surfaces_with_incident_ray_directions(aim, inc, mask, device=DEV)
        tracer = HeliostatRayTracer(sc, grp, blocking_active=blocking, batch_size=p["batch"], dni=p["dni"], bitmap_resolution=held(torch.tensor(p["res"])))
        traced = tracer.trace_rays(inc, mask, index, ray_extinction_factor=p["dust"], device=DEV)
        held(traced[0])
        out += [*traced, tracer.get_bitmaps_per_target(traced[0], index, device=DEV), grp.active_surface_points]
        motors = held(grp.kinematics.active_motor_positions.detach().clone())
        grp.align_surfaces_with_motor_positions(motors, mask, device=DEV)
        out.append(grp.active_surface_normals)
    for k, v in snapshot(sc).items():
        require(torch.equal(v, start[k]) if isinstance(v, torch.Tensor) else v == start[k], f"simulating changes {k} of the plant")
    return out


def kinematics(p, seed, folder, held):
    p = reseed(p, seed) | dict(epochs=1)
    truth, start, g = c27.true_and_initial(p)
    data = c27.measure(p, truth, g)
    for d in data:
        held(*(d[k] for k in ("motors", "inc", "spots", "index", "flux")))
    sc, final, history = c27.run(p, start, data, p["method"], lambda s: losses.AngleLoss() if p["method"] == c27.ALIGN else losses.FocalSpotLoss(scenario=s))
    return [final, *c27.deviations(sc)]


def surfaces(p, seed, folder, held):
    p = reseed(p, seed) | dict(epochs=1)
    _, data = c28.measured(p)
    for d in data.values():
        held(*d)
    sc, final, history = c28.run(p, c28.arrays(p), data)
    return [final, *(g.nurbs_control_points.detach() for g in sc.heliostat_field.heliostat_groups)]


def aims(p, seed, folder, held):
    p = reseed(p, seed) | dict(tolerance=1e-12)
    start = c29.aligned(c29.build(p), p)
    goal = held(c29.desired(p, start))
    out = c29.run(p, goal, 100.0, 1)
    return [np.array(out["history"]["total_loss"]), *out["fractions"], *out["motors"]]


def scenario_file(p, seed, folder, held):
    for f in pathlib.Path(folder).glob("*.h5"):
        f.unlink()
    sub = pathlib.Path(folder) / "scenario"
    sub.mkdir(exist_ok=True)
    for f in sub.iterdir():
        f.unlink()
    p = p | dict(file="plant.h5", position=[x + d for x, d in zip(p["position"], rng(seed).uniform(-0.1, 0.1, 3))])
    for r in p["planes"] + p["cylinders"]:
        r["width" if "width" in r else "radius"] += seed % 97 / 100
    return [v for k, v in sorted(snapshot(c20.load(p, c20.write(p, str(sub)))).items(), key=lambda kv: str(kv[0])) if isinstance(v, torch.Tensor)]


def calibration(p, seed, folder, held):
    g = rng(seed)
    specs = [s | dict(names=n) for s, n in zip(p["groups"], p["names"])]
    sc = scenario(specs, p["planes"], p["cylinders"], rays=1)
    mapping = []
    targets = list(sc.solar_tower.target_name_to_index)
    for name in [n for names in p["names"] for n in names]:
        props, pngs = [], []
        for i in range(p["count"]):
            a, b = pathlib.Path(folder) / f"{name}-{i}.json", pathlib.Path(folder) / f"{name}-{i}.png"
            spot = [50.9 + g.uniform(-1e-3, 1e-3), 6.4 + g.uniform(-1e-3, 1e-3), 100 + g.uniform(0, 50)]
            a.write_text(json.dumps(dict(target_name=targets[int(g.integers(len(targets)))], focal_spot=dict(UTIS=spot, HeliOS=[x + 1e-4 for x in spot]),
                                         sun_azimuth=g.uniform(-180, 360), sun_elevation=g.uniform(1, 89),
                                         motor_position=dict(axis_1_motor_position=g.uniform(0, 70000), axis_2_motor_position=g.uniform(0, 70000)))))
            Image.fromarray(g.integers(0, 256, (p["raw"], p["raw"])).astype(np.uint8)).save(b)
            props.append(a), pngs.append(b)
        mapping.append((name, props, pngs))
    given = copy.deepcopy(mapping)
    parser = PaintCalibrationDataParser(sample_limit=p["limit"], centroid_extraction_method=p["way"])
    out = []
    for grp in sc.heliostat_field.heliostat_groups:
        out += parser.parse_data_for_reconstruction(heliostat_data_mapping=mapping, heliostat_group=grp, scenario=sc,
                                                    bitmap_resolution=held(torch.tensor(p["resolution"])), device=DEV)
    require(mapping == given, "parsing changes the list of measurements it was given")
    return out


def images(p, seed, folder, held):
    g = rng(seed)
    A, B = held(T(g.random((p["n"], p["h"], p["w"])) + 0.01), T(g.random((p["n"], p["h"], p["w"])) + 0.01))
    sc = scenario(p["groups"], p["planes"], p["cylinders"], rays=1)
    m = len(p["planes"]) + len(p["cylinders"])
    index = held(torch.tensor(g.integers(0, m, p["n"])))
    kw = dict(target_area_indices=index, reduction_dimensions=(1, 2), device=DEV)
    out = [losses.KLDivergenceLoss()(A, B, **kw), losses.PixelLoss()(A, B, **kw), losses.FocalSpotLoss(sc)(A, B, **kw), losses.VectorLoss()(A, B, reduction_dimensions=(1, 2)),
           bitmap.get_center_of_mass(A, device=DEV), bitmap.trapezoid_distribution(p["w"], p["w"] // 4, p["w"] // 3, device=DEV),
           bitmap.crop_flux_distributions_around_center(A, sc.solar_tower, index, 2.0, 1.5, device=DEV)]
    V, W = held(T(h4(g.normal(size=(p["n"], 3)), 0)), T(h4(g.normal(size=(p["n"], 3)), 0)))
    out += [losses.AngleLoss()(V, W), losses.CosineSimilarityLoss()(V, W)]
    cp, cq = held(T(g.normal(size=(p["n"], 2, 5, 4, 3))), T(g.normal(size=(p["n"], 2, 5, 4, 3))))
    out += [regularizers.SmoothnessRegularizer(reduction_dimensions=(1,))(cp, cq, device=DEV), regularizers.IdealSurfaceRegularizer(reduction_dimensions=(1,))(cp, cq, device=DEV)]
    at = held(T(g.uniform(0, [p["w"] - 1, p["h"] - 1], (p["n"], 2))))
    out.append(coordinates.bitmap_coordinates_to_target_coordinates(at, held(torch.tensor([p["w"], p["h"]])), sc.solar_tower, index, device=DEV))
    return out


def geometry(p, seed, folder, held):
    g, n = rng(seed), p["n"]
    e, v, u, x, y = held(*(T(g.uniform(-3, 3, n)) for _ in range(5)))
    out = [transforms.rotate_e(e, device=DEV), transforms.rotate_n(v, device=DEV), transforms.rotate_u(u, device=DEV), transforms.translate_enu(e, v, u, device=DEV),
           coordinates.azimuth_elevation_to_enu(e * 60, v * 25, device=DEV)]
    a, b = held(T(g.uniform(-0.01, 0.01, (n, 2, 3))), T(g.uniform(-0.01, 0.01, (n, 2, 3))))
    out.append(transforms.rotate_distortions(e=a, u=b, device=DEV))
    ref = torch.tensor([g.uniform(-60, 60), g.uniform(-170, 170), g.uniform(0, 500)], dtype=torch.float64)
    spots = ref + torch.tensor(g.uniform(-1, 1, (n, 3)) * [1e-3, 1e-3, 50])
    out.append(coordinates.convert_wgs84_coordinates_to_local_enu(*held(spots, ref), device=DEV))
    P = held(T(g.normal(size=(n, 3))))
    out += [coordinates.convert_3d_points_to_4d_format(P, device=DEV), coordinates.convert_3d_directions_to_4d_format(P, device=DEV), coordinates.normalize_points(P)]
    q, r = held(T(h4(unit(g.normal(size=(n, 3))), 0)), T(h4(unit(g.normal(size=3)), 0)))
    out += [*rotations.decompose_rotations(q, r), *rotations.rotation_angle_and_axis(q[0], r, device=DEV)]
    cant, data = held(T(h4(np.eye(3)[None, None, :2] + g.normal(size=(n, 2, 2, 3)) * 0.1, 0)), T(h4(g.normal(size=(n, 2, 5, 3)), 1)))
    return out + [transforms.perform_canting(cant, data, inverse=i, device=DEV) for i in (False, True)]


def mechanics(p, seed, folder, held):
    p, g = reseed(p, seed), rng(seed)
    grp = group(p["spec"])
    mask = held(torch.tensor(p["mask"], dtype=torch.int32))
    grp.activate_heliostats(mask, device=DEV)
    n = int(mask.sum())
    lo, hi = (-1.0, 1.0) if p["spec"]["kind"] == "ideal" else (10000.0, 60000.0)
    motors = held(T(g.uniform(lo, hi, (n, 2))))
    angles = grp.kinematics.actuators.motor_positions_to_angles(motors, device=DEV)
    inc, aim = held(T(h4(unit(np.array([0, 1.0, -0.5]) + g.normal(size=(n, 3)) * 0.2), 0)), T(h4(np.array([0, 0, 50.0]) + g.normal(size=(n, 3)), 1)))
    return [angles, grp.kinematics.actuators.angles_to_motor_positions(held(angles.detach()), device=DEV), grp.kinematics.motor_positions_to_orientations(motors, device=DEV),
            grp.kinematics.incident_ray_directions_to_orientations(inc, aim, device=DEV)]


def support(p, seed, folder, held):
    g, k = rng(seed), p["k"]
    mask = held(torch.tensor([k * int(x) for x in p["pick"]], dtype=torch.int32))
    n = int(mask.sum())
    data = held(T(g.random((n, 3, 2))), T(g.random((n, 4))), T(g.random((n, 4))), T(g.random((n, 2))), torch.tensor(g.integers(0, 3, n)))
    s = training.train_test_split(mask, *data, test_fraction=p["part"], device=DEV)
    stop = training.EarlyStopping(window_size=3, patience=2, min_improvement=0.01)
    ended = [stop.step(float(x)) for x in g.random(8)]
    return [s.flux_measured_train, s.flux_measured_test, s.motor_positions_train, s.active_heliostats_mask_train, s.active_heliostats_mask_test, s.train_indices,
            np.array(ended, float)]


def scatter(p, seed, folder, held):
    from .scene import sun
    return list(sun(p["rays"], p["cov"] * (1 + seed % 7), p["mean"]).get_distortions(number_of_points=p["points"], number_of_active_heliostats=p["n"], random_seed=seed % 1000))


def user(p, seed, folder, held):
    """What a user's own code may do between two calls."""
    torch.manual_seed(seed)
    np.random.seed(seed % 2**32)
    torch.rand(seed % 11 + 1)
    if p["log"]:
        with contextlib.redirect_stdout(io.StringIO()):
            set_logger_config(level=p["log"], log_file=pathlib.Path(folder) / "logs" / "artist.log", log_to_stdout=False, colors=False)
    return []


CALLS = dict(nurbs=nurbs, fit=fit, tracing=tracing, kinematics=kinematics, surfaces=surfaces, aims=aims, scenario_file=scenario_file, calibration=calibration,
             images=images, geometry=geometry, mechanics=mechanics, support=support, scatter=scatter, user=user)


@st.composite
def inputs(draw, kind):
    if kind == "nurbs":
        return draw(c11.nets())
    if kind == "fit":
        return draw(c26.fits())
    if kind == "tracing":
        p = draw(plant(counts=(0, 1, 1), facets=4, most=3))
        for s in p["specs"]:
            s |= dict(side=2, cant=0.0, bump=0.0)
        return p | dict(batch=draw(st.integers(1, 4)), dni=draw(st.sampled_from([None, 700.0])), dust=draw(st.sampled_from([0.0, 0.2])))
    if kind == "kinematics":
        return draw(c27.cases()) | dict(method=draw(st.sampled_from([c27.ALIGN, c27.TRACE])))
    if kind == "surfaces":
        return draw(c28.cases())
    if kind == "aims":
        return draw(c29.cases())
    if kind == "scenario_file":
        return draw(c20.plant())
    if kind in ("calibration", "images"):
        base = dict(groups=[draw(group_spec(count=(1, 2), deviations=False, facets=1, side=1)) for _ in range(2)], planes=[draw(field_plane()) for _ in range(2)],
                    cylinders=[draw(field_cylinder())])
        if kind == "images":
            return base | dict(n=draw(st.integers(1, 4)), h=draw(st.integers(4, 9)), w=draw(st.integers(4, 9)))
        return base | dict(names=[[f"{'AB'[i]}{j}" for j in range(len(g["positions"]))] for i, g in enumerate(base["groups"])], count=draw(st.integers(1, 3)),
                           raw=draw(st.integers(3, 9)), limit=draw(st.none() | st.integers(1, 2)), way=draw(st.sampled_from(["UTIS", "HeliOS"])),
                           resolution=[draw(st.integers(2, 9)), draw(st.integers(2, 9))])
    if kind == "mechanics":
        spec = draw(group_spec(count=(1, 3), facets=1))
        return dict(spec=spec, mask=[draw(st.sampled_from([1, 1, 2])) for _ in spec["positions"]])
    if kind == "support":
        return dict(k=draw(st.integers(2, 5)), pick=[True] + draw(st.lists(st.booleans(), max_size=3)), part=draw(st.sampled_from([0.25, 0.5])))
    if kind == "scatter":
        return dict(rays=draw(st.integers(1, 3)), points=draw(st.integers(1, 4)), n=draw(st.integers(1, 3)), cov=draw(st.sampled_from([1e-6, 4e-6])), mean=draw(st.sampled_from([0.0, 0.001])))
    return dict(n=draw(st.integers(1, 4))) if kind == "geometry" else dict(log=draw(st.sampled_from([0, logging.DEBUG, logging.ERROR])))


@st.composite
def histories(draw, kinds):
    calls = []
    for _ in range(draw(st.integers(1, 3))):
        kind = draw(st.sampled_from(kinds))
        calls.append([kind, draw(inputs(kind)), draw(seeds)])
    for _ in range(draw(st.integers(1, 2))):        # the same again with other values, or exactly the same
        kind, p, seed = draw(st.sampled_from(calls))
        calls.append([kind, p, draw(st.sampled_from([seed]) | seeds)])
    if draw(st.booleans()):
        calls.insert(draw(st.integers(0, len(calls))), ["user", draw(inputs("user")), draw(seeds)])
    return calls


def perform(calls, folder):
    """Outcome of every call: arrays, or the text of an error."""
    logging.getLogger("artist").addHandler(logging.NullHandler())
    out = []
    for i, (kind, p, seed) in enumerate(calls):
        held = Held()
        torch.manual_seed(0)
        if i == 0:
            np.random.seed(0)
        try:
            result = ("ok", [np64(x).copy() for x in CALLS[kind](copy.deepcopy(p), seed, folder, held)], held.changed())
        except Exception as e:
            result = ("error", f"{type(e).__name__}: {e}", [])
        out.append(result)
    return out


def judge(case, ctx):
    with tempfile.TemporaryDirectory() as folder:
        answer = in_child(perform, case, folder)
    require(answer is not None and answer[0] == "ok", f"the history ended with {answer and answer[1]}")
    once = {}
    for i, ((kind, p, seed), got) in enumerate(zip(case, answer[1])):
        key = json.dumps([kind, p, seed], sort_keys=True)
        if key not in once:
            with tempfile.TemporaryDirectory() as folder:
                ref = in_child(perform, [[kind, p, seed]], folder)
            require(ref is not None and ref[0] == "ok", f"{kind} alone ended with {ref and ref[1]}")
            once[key] = ref[1][0]
        want = once[key]
        require(not got[2], f"{kind} changes its input tensor(s) number {got[2]}")
        require(not want[2], f"{kind} changes its input tensor(s) number {want[2]}")
        before = [k for k, _, _ in case[:i]]
        require(want[0] == "ok", f"{kind} alone: {want[1]}")
        require(got[0] == "ok", f"{kind} after {before}: {got[1]}, though not in a fresh process")
        require(len(got[1]) == len(want[1]), f"{kind} after {before}: {len(got[1])} results instead of {len(want[1])}")
        for k, (a, b) in enumerate(zip(got[1], want[1])):
            ok = np.isfinite(b)
            size = float(np.abs(b[ok]).max()) if ok.any() else 0.0
            close(np.nan_to_num(a, nan=-7.77e7), np.nan_to_num(b, nan=-7.77e7), f"{kind} after {before}: result {k} differs from the one of a fresh process", atol=1e-9 + 1e-5 * size, rtol=0)
        ctx.label(kind)
    kinds = [(k, json.dumps(p, sort_keys=True)) for k, p, _ in case if k != "user"]
    ctx.nontrivial(len(set(kinds)) < len(kinds) and len({json.dumps(c) for c in case}) > len(set(kinds)))


QUICK = ["nurbs", "tracing", "images", "geometry", "mechanics", "support", "scatter", "calibration", "scenario_file"]


@PROP.sub("calls", histories(QUICK), quick=130, shards=5)
def calls(case, ctx):
    judge(case, ctx)


@PROP.sub("training", histories(["fit", "kinematics", "surfaces", "aims", "tracing"]), quick=28, shards=3)
def training_runs(case, ctx):
    judge(case, ctx)
