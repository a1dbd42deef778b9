"""Builds plants for the code under test through its public constructors."""
import math

import numpy as np
import torch

import artist.raytracing  # noqa: F401
from artist.field.solar_tower import SolarTower
from artist.field.tower_target_areas_cylindrical import TowerTargetAreasCylindrical
from artist.field.tower_target_areas_planar import TowerTargetAreasPlanar
from hypothesis import strategies as st

from .core import DEV, T
from .gen import directions, fl, frame, h4, vec, unit


# ---------------------------------------------------------------- receivers
@st.composite
def planar_spec(draw, tilted=True):
    if tilted:
        # a receiver seen from the field: its normal has a clear north/south component (bitmaps live in east x up)
        az = draw(st.sampled_from([0.0, math.pi]) | fl(-1.0, 1.0) | fl(math.pi - 1.0, math.pi + 1.0))
        el = draw(st.sampled_from([0.0]) | fl(-1.0, 0.6))
        n = [math.sin(az) * math.cos(el), math.cos(az) * math.cos(el), math.sin(el)]
    else:
        n = [0.0, draw(st.sampled_from([1.0, -1.0])), 0.0]
    return dict(kind="planar", center=[draw(fl(-30, 30)), draw(fl(-30, 30)), draw(fl(5, 80))], normal=n,
                width=draw(fl(0.5, 15)), height=draw(fl(0.5, 15)))


@st.composite
def cylinder_spec(draw):
    axis = draw(st.sampled_from([[0.0, 0.0, 1.0]]) | directions())
    roll = draw(st.sampled_from([0.0, 0.5 * math.pi, math.pi, -0.5 * math.pi]) | fl(-math.pi, math.pi))
    a, _ = frame(axis, roll)
    return dict(kind="cylinder", center=[draw(fl(-30, 30)), draw(fl(-30, 30)), draw(fl(5, 80))],
                normal=a.tolist(), axis=list(axis), radius=draw(fl(0.5, 8)), height=draw(fl(0.5, 15)),
                opening=draw(st.sampled_from([math.pi / 3, math.pi, 2 * math.pi]) | fl(0.3, 2 * math.pi)))


def planar_areas(specs, names=None):
    n = len(specs)
    return TowerTargetAreasPlanar(
        names=names or [f"plane_{i}" for i in range(n)],
        centers=T(h4(np.array([s["center"] for s in specs]).reshape(n, 3), 1)),
        normals=T(h4(np.array([s["normal"] for s in specs]).reshape(n, 3), 0)),
        dimensions=T(np.array([[s["width"], s["height"]] for s in specs]).reshape(n, 2)))


def cylinder_areas(specs, names=None):
    n = len(specs)
    return TowerTargetAreasCylindrical(
        names=names or [f"cylinder_{i}" for i in range(n)],
        centers=T(h4(np.array([s["center"] for s in specs]).reshape(n, 3), 1)),
        normals=T(h4(np.array([s["normal"] for s in specs]).reshape(n, 3), 0)),
        axes=T(h4(np.array([s["axis"] for s in specs]).reshape(n, 3), 0)),
        radii=T(np.array([s["radius"] for s in specs]).reshape(n)),
        heights=T(np.array([s["height"] for s in specs]).reshape(n)),
        opening_angles=T(np.array([s["opening"] for s in specs]).reshape(n)))


def tower(planes, cylinders):
    """Planar receivers first, as the class documents."""
    return SolarTower([planar_areas(planes), cylinder_areas(cylinders)], device=DEV)


def spec32(spec):
    """The receiver with the float32 values the code sees, as float64."""
    return {k: (np.asarray(v, dtype=np.float32).astype(np.float64) if k != "kind" else v) for k, v in spec.items()}


# ---------------------------------------------------------------- heliostats
from artist.field.heliostat_field import HeliostatField  # noqa: E402
from artist.field.heliostat_group_rigid_body import HeliostatGroupRigidBody  # noqa: E402
from artist.scenario.scenario import Scenario  # noqa: E402
from artist.scene.light_source_array import LightSourceArray  # noqa: E402
from artist.scene.sun import Sun  # noqa: E402

from .core import rng  # noqa: E402

# one linear actuator pair of a real heliostat (columns: first, second actuator)
LINEAR_NON_OPT = np.array([[0, 0], [0, 1], [0, 0], [69525, 75676], [154166.67, 154166.67],
                           [0.3353, 0.3408], [0.3381, 0.3191]])
LINEAR_OPT = np.array([[-1.572, 0.9375], [0.0743, 0.0796]])
IDEAL_NON_OPT = np.array([[1, 1], [0, 1], [-9.0, -9.0], [9.0, 9.0]])
FACET_SIGNS = np.array([[-1, 1], [1, 1], [-1, -1], [1, -1]])      # upper left, upper right, lower left, lower right


def canting_frames(half, facets, cant):
    """Canting vectors [F, 2, 3]: half-width and half-height vectors of facets tilted by ``cant`` towards the centre."""
    out = np.zeros((facets, 2, 3))
    for f in range(facets):
        se, sn = FACET_SIGNS[f] if facets == 4 else (0, 0)
        e = np.array([math.cos(cant), 0, se * math.sin(cant)])
        n = np.array([0, math.cos(cant), sn * math.sin(cant)])
        n = unit(n - (n @ e) * e)
        out[f] = half[0] * e, half[1] * n
    return out


def facet_offsets(half, facets, gap=0.005, up=0.04):
    if facets == 1:
        return np.zeros((1, 3))
    return np.stack([np.array([s[0] * (half[0] + gap), s[1] * (half[1] + gap), up]) for s in FACET_SIGNS])


def local_surface(half, facets, n, cant, bump, seed):
    """Surface points and unit normals [F*n*n, 3] in the frame in which the mirror lies on the ground, east-major grids."""
    g = rng(seed)
    frames, offs = canting_frames(half, facets, cant), facet_offsets(half, facets)
    lin = np.linspace(-1, 1, n) if n > 1 else np.zeros(1)
    a, b = [x.reshape(-1) for x in np.meshgrid(lin, lin, indexing="ij")]
    pts, nrm = [], []
    for f in range(facets):
        u = unit(np.cross(frames[f, 0], frames[f, 1]))
        c = g.normal(size=3) * bump
        z = c[0] * a * a + c[1] * b * b + c[2] * a * b
        pts.append(offs[f] + a[:, None] * frames[f, 0] + b[:, None] * frames[f, 1] + z[:, None] * u)
        de, dn = (2 * c[0] * a + c[2] * b) / half[0], (2 * c[1] * b + c[2] * a) / half[1]
        nrm.append(unit(u - de[:, None] * unit(frames[f, 0]) - dn[:, None] * unit(frames[f, 1])))
    return np.concatenate(pts), np.concatenate(nrm)


@st.composite
def group_spec(draw, count=(1, 4), kinds=("ideal", "linear"), deviations=True, facets=None, side=None):
    n = draw(st.integers(*count))
    return dict(
        kind=draw(st.sampled_from(kinds)),
        positions=[[draw(fl(-60, 60)), draw(fl(15, 150)), draw(fl(0, 5))] for _ in range(n)],
        half=[draw(fl(0.4, 1.5)), draw(fl(0.4, 1.5))], facets=draw(st.sampled_from([1, 4])) if facets is None else facets,
        side=draw(st.integers(1, 4)) if side is None else side, cant=draw(st.sampled_from([0.0, 0.005]) | fl(0, 0.02)),
        bump=draw(st.sampled_from([0.0, 0.002])),
        deviation=draw(st.sampled_from([0.0, 1.0])) if deviations else 0.0, seed=draw(st.integers(0, 2**32 - 1)))


def group_arrays(spec):
    """All constructor arguments of a group as float64 arrays (lists of names aside)."""
    H, F = len(spec["positions"]), spec["facets"]
    g = rng(spec["seed"])
    pts, nrm = zip(*(local_surface(spec["half"], F, spec["side"], spec["cant"], spec["bump"], spec["seed"] + h)
                     for h in range(H)))
    tdev = g.uniform(-0.3, 0.3, size=(H, 9)) * spec["deviation"]
    rdev = g.uniform(-0.04, 0.04, size=(H, 4)) * spec["deviation"]
    if spec["kind"] == "linear":
        non = np.repeat(LINEAR_NON_OPT[None], H, 0).copy()
        non[:, 5:7] += g.uniform(-0.01, 0.01, size=(H, 2, 2)) * (g.random() < 0.7)
        opt = np.repeat(LINEAR_OPT[None], H, 0) + g.uniform(-1, 1, size=(H, 2, 2)) * [[[0.01], [0.002]]]
    else:
        non, opt = np.repeat(IDEAL_NON_OPT[None], H, 0), np.zeros((0,))
    frames = canting_frames(spec["half"], F, spec["cant"])
    cps = np.zeros((H, F, 4, 4, 3))
    lin = np.linspace(-1, 1, 4)
    cps[..., 0] = spec["half"][0] * lin[:, None]
    cps[..., 1] = spec["half"][1] * lin[None, :]
    return dict(
        positions=h4(np.array(spec["positions"]), 1), surface_points=h4(np.stack(pts), 1), surface_normals=h4(np.stack(nrm), 0),
        canting=h4(np.repeat(frames[None], H, 0), 0), facet_translations=h4(np.repeat(facet_offsets(spec["half"], F)[None], H, 0), 0),
        initial_orientations=np.repeat([[0.0, -1.0, 0.0, 0.0]], H, 0), nurbs_control_points=cps,
        kinematics_translation_deviation_parameters=tdev, kinematics_rotation_deviation_parameters=rdev,
        actuator_parameters_non_optimizable=non, actuator_parameters_optimizable=opt)


def group(spec, prefix="h", **override):
    arrays = group_arrays(spec) | override
    H = len(spec["positions"])
    return HeliostatGroupRigidBody(
        names=spec.get("names") or [f"{prefix}{i}" for i in range(H)], nurbs_degrees=torch.tensor([2, 2]), device=DEV,
        **{k: (v if isinstance(v, torch.Tensor) else T(v)) for k, v in arrays.items()})


def field(specs):
    return HeliostatField([group(s, prefix=f"g{i}_") for i, s in enumerate(specs)], device=DEV)


def sun(rays=2, covariance=4.3681e-6, mean=0.0):
    return Sun(rays, dict(distribution_type="normal", mean=mean, covariance=covariance), device=DEV)


def scenario(group_specs, planes, cylinders, rays=2, covariance=4.3681e-6):
    return Scenario(power_plant_position=torch.tensor([50.9, 6.4, 87.0], dtype=torch.float64), solar_tower=tower(planes, cylinders),
                    light_sources=LightSourceArray([sun(rays, covariance)]), heliostat_field=field(group_specs))


# receivers as they stand on a tower south of the field
@st.composite
def field_plane(draw):
    return dict(kind="planar", center=[draw(fl(-15, 15)), draw(fl(-5, 5)), draw(fl(25, 70))], normal=[0.0, 1.0, 0.0],
                width=draw(fl(2, 12)), height=draw(fl(2, 12)))


@st.composite
def field_cylinder(draw):
    az, tilt = draw(st.sampled_from([0.0]) | fl(-0.9, 0.9)), draw(st.sampled_from([0.0, -0.4363]))
    n = np.array([math.sin(az) * math.cos(tilt), math.cos(az) * math.cos(tilt), math.sin(tilt)])
    a = np.array([-math.sin(az) * math.sin(tilt), -math.cos(az) * math.sin(tilt), math.cos(tilt)])
    return dict(kind="cylinder", center=[draw(fl(-15, 15)), draw(fl(-5, 5)), draw(fl(25, 70))], normal=n.tolist(),
                axis=a.tolist(), radius=draw(fl(1, 6)), height=draw(fl(2, 12)),
                opening=draw(st.sampled_from([math.pi / 3, math.pi, 2 * math.pi]) | fl(0.5, 6.2)))


@st.composite
def receivers(draw, most=3):
    p = draw(st.lists(field_plane(), min_size=1, max_size=most))
    c = draw(st.lists(field_cylinder(), min_size=1, max_size=most))
    return dict(planes=p, cylinders=c)


def sun_direction(draw):
    """Direction in which the sunlight travels: from the southern half of the sky."""
    az, el = draw(fl(-1.2, 1.2)), draw(fl(0.3, 1.2))
    return [math.sin(az) * math.cos(el), math.cos(az) * math.cos(el), -math.sin(el), 0.0]
