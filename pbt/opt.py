"""Ingredients of the reconstruction and optimisation checks."""
import numpy as np
import torch

import artist.raytracing  # noqa: F401
from artist.io.calibration_parser import CalibrationDataParser
from artist.raytracing import HeliostatRayTracer
from artist.util import constants

from . import kin
from .core import DEV, T, np64
from .gen import h4, unit
from .refs import receiver_point
from .scene import group, spec32, tower
from .scene import sun as make_sun
from artist.field.heliostat_field import HeliostatField
from artist.scenario.scenario import Scenario
from artist.scene.light_source_array import LightSourceArray


def alone(groups):
    """The set-up of a single process."""
    return dict(device=torch.device("cpu"), is_distributed=False, is_nested=False, rank=0, world_size=1, process_subgroup=None,
                groups_to_ranks_mapping={0: list(range(groups))}, heliostat_group_rank=0, heliostat_group_world_size=1,
                ranks_to_groups_mapping={g: [0] for g in range(groups)})


class Parser(CalibrationDataParser):
    """Hands out measurements from memory: one tuple per group, found by the names of its heliostats."""

    def __init__(self, data):
        super().__init__()
        self.data = data

    def parse_data_for_reconstruction(self, heliostat_data_mapping, heliostat_group, scenario, bitmap_resolution=None, device=None):
        return tuple(x.clone() for x in self.data[heliostat_group.names[0]])


def measurements(data):
    return {constants.data_parser: Parser(data), constants.heliostat_data_mapping: []}


def schedule(kind="exponential", gamma=1.0, **kw):
    return {constants.scheduler_type: kind, constants.gamma: gamma, constants.lr_min: 1e-5, constants.lr_max: 2e-3, constants.step_size_up: 5,
            constants.reduce_factor: 0.5, constants.patience: 3, constants.threshold: 1e-4, constants.cooldown: 1} | kw


def loop(lr, epochs, batch=50, log_step=0, tolerance=1e-12, window=1000, patience=1000, delta=0.0):
    return {constants.initial_learning_rate: lr, constants.initial_learning_rate_rotation_deviation: lr, constants.tolerance: tolerance,
            constants.max_epoch: epochs, constants.batch_size: batch, constants.log_step: log_step, constants.early_stopping_delta: delta,
            constants.early_stopping_patience: patience, constants.early_stopping_window: window}


def settings(case, epochs=None, tolerance=1e-12, kind="exponential"):
    """Optimiser and scheduler settings of a case; `stop` and `schedule` override the usual ones."""
    return {constants.optimization: loop(case["lr"], case["epochs"] if epochs is None else epochs, case["batch"], case["log_step"],
                                         **(dict(tolerance=tolerance) | case.get("stop", {}))),
            constants.scheduler: schedule(**(dict(kind=kind, gamma=case["gamma"]) | case.get("schedule", {})))}


def plant(arrays, specs, planes, cylinders, rays=1, cov=1e-16):
    groups = [group(s, prefix=f"g{i}_", **a) for i, (s, a) in enumerate(zip(specs, arrays))]
    return Scenario(power_plant_position=torch.tensor([50.9, 6.4, 87.0], dtype=torch.float64), solar_tower=tower(planes, cylinders),
                    light_sources=LightSourceArray([make_sun(rays, cov)]), heliostat_field=HeliostatField(groups, device=DEV))


def trace(sc, g, mask, motors, inc, index, res, batch=50, dni=None, seed=0, blocking=False):
    """Flux (and fractions) of one group driven to motor positions."""
    grp = sc.heliostat_field.heliostat_groups[g]
    mask = torch.as_tensor(mask, dtype=torch.int32)
    with torch.no_grad():
        grp.activate_heliostats(mask, device=DEV)
        grp.align_surfaces_with_motor_positions(motors, mask, device=DEV)
        return HeliostatRayTracer(sc, grp, blocking_active=blocking, batch_size=batch, random_seed=seed, dni=dni,
                                  bitmap_resolution=torch.tensor(res)).trace_rays(inc, mask, torch.as_tensor(index), device=DEV)


def poses(arrays, mask, motors):
    """Reference pose of every sample."""
    rows = np.repeat(np.arange(len(mask)), mask)
    return kin.chain(kin.take(arrays, rows), motors)


def centers(planes, cylinders):
    out = [np.asarray(p["center"], float) for p in planes]
    out += [np.asarray(c["center"], float) + c["radius"] * unit(np.asarray(c["normal"], float)) for c in cylinders]
    return np.array(out)


def centre_of_mass(img):
    """(e, u) in pixels of every image."""
    s = img.sum((1, 2))
    u = (img.sum(2) * np.arange(img.shape[1])).sum(1) / s
    e = (img.sum(1) * np.arange(img.shape[2])).sum(1) / s
    return np.stack([e, u], 1)


def focal_spot_distance(a, b, index, planes, cylinders):
    """Distance in metres between the centres of mass of two stacks of images."""
    out = []
    planes, cylinders = [spec32(x) for x in planes], [spec32(x) for x in cylinders]
    ca, cb = centre_of_mass(a), centre_of_mass(b)
    for k, i in enumerate(index):
        n = np.array([a.shape[2], a.shape[1]])
        fa, fb = (ca[k] + 0.5) / n, (cb[k] + 0.5) / n
        out.append(np.linalg.norm(receiver_point(planes, cylinders, i, *fa) - receiver_point(planes, cylinders, i, *fb)))
    return np.array(out)


def pixel(p, g):
    return ((p - g) ** 2).sum((1, 2)) / g.sum((1, 2))


def divergence(p, g, eps=1e-12):
    p, g = (x / np.maximum(x.sum((1, 2), keepdims=True), eps) for x in (p, g))
    return ((g + eps) * (np.log(g + eps) - np.log(p + eps))).sum((1, 2))


def lower_median(x):
    return np.sort(x, 1)[:, (x.shape[1] - 1) // 2]
