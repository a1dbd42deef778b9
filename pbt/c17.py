import math

from hypothesis import strategies as st
import numpy as np
import torch

from . import kin, scene
from .c16 import tolerance
from .core import DEV, Prop, T, close, np64, require, rng
from .gen import fl, h4, unit
from .refs import reflected

PROP = Prop("C17", "reachable by construction: aim points are chosen on the ray that a pose within the motor limits reflects; several "
                   "heliostats with own sun directions and aim points, deviating kinematics")


@st.composite
def aim_case(draw):
    c = draw(kin.group_case())
    H = len(c["at"])
    return c | dict(distance=draw(st.sampled_from([30.0, 300.0]) | fl(20, 300)), limits=draw(st.sampled_from(["wide", "first", "second"])),
                    mask=[draw(st.integers(0, 2)) for _ in range(H)],
                    # a heliostat that already points almost where it should while the others do not
                    parked=draw(st.booleans()))


def reachable(case):
    """Group, active selection, and for each sample a sun direction and an aim point that some allowed pose serves."""
    a = kin.arrays_of(case, reach=0.3, tilt=0.15)
    H = len(case["at"])
    g = rng(case["seed"] ^ 77)
    mask = np.array(case["mask"])
    if not mask.any():
        mask[:] = 1
    idx = np.repeat(np.arange(H), mask)
    at = np.array(case["at"])[idx]
    at[1:] = (at[1:] + g.random(at[1:].shape)) % 1.0
    sub = kin.take(a, idx)
    motor = kin.motor_positions(case | dict(at=(0.08 + 0.84 * at).tolist()), sub)
    if case["group"]["kind"] == "ideal":
        if case["limits"] != "wide":
            # half a turn of the second joint: one of the two solutions is out of range
            side = 1 if case["limits"] == "first" else -1
            second = (motor[:, 1] + math.pi) % (2 * math.pi) - math.pi
            second = np.where(np.sign(np.cos(second)) == side, second, math.pi - second)
            motor[:, 1] = (second + math.pi) % (2 * math.pi) - math.pi
            non = a["actuator_parameters_non_optimizable"]
            if side == 1:
                non[:, 2, 1], non[:, 3, 1] = -math.pi / 2, math.pi / 2
            else:
                # [pi/2, pi] only: both signs of the normal's east component need different halves
                non[:, 2, 1], non[:, 3, 1] = math.pi / 2 - 0.2, math.pi + 0.01
                motor[:, 1] = np.clip(np.abs(motor[:, 1]), math.pi / 2, math.pi - 0.05)
            sub = kin.take(a, idx)
    if case["parked"] and case["limits"] == "wide":
        non = sub["actuator_parameters_non_optimizable"]
        steps = 5.0 if case["group"]["kind"] != "ideal" else 1e-5
        home = (non[-1, 2] <= 0) & (non[-1, 3] > 2 * steps)
        there = motor.copy()
        there[-1] = steps
        if home.all() and abs(np.cos(kin.angles(sub, there)[-1, 1])) > 0.45:
            motor = there
    # keep away from mirrors that look along the axis of the first joint
    for f in np.linspace(0, 1, 41):
        second = kin.angles(sub, motor)[:, 1]
        low = np.abs(np.cos(second)) < 0.4
        if not low.any():
            break
        if case["group"]["kind"] == "ideal":
            away = np.sign(np.cos(second)) * -np.sign(np.sin(second))
            motor[:, 1] = np.where(low, second + np.where(away == 0, 1, away) * 0.03, motor[:, 1])
        else:
            non = sub["actuator_parameters_non_optimizable"]
            motor[:, 1] = np.where(low, non[:, 2, 1] + (0.08 + 0.84 * f) * (non[:, 3, 1] - non[:, 2, 1]), motor[:, 1])
    motor = motor.astype(np.float32).astype(float)
    R = kin.chain(sub, motor)
    n, o = R[:, :3, 2], R[:, :3, 3]
    t1 = unit(np.cross(n, unit(g.normal(size=n.shape))))
    phi = g.uniform(0, 1.1, len(idx))[:, None]
    sun = -(np.cos(phi) * n + np.sin(phi) * t1)
    aim = o + reflected(sun, n) * case["distance"] * g.uniform(1.0, 1.5, (len(idx), 1))
    return a, mask, idx, sub, motor, sun, aim


def aligned(case):
    a, mask, idx, sub, motor, sun, aim = reachable(case)
    grp = scene.group(case["group"], **a)
    imask = T(mask, torch.int32)
    grp.activate_heliostats(imask, device=DEV)
    return grp, imask, sub, motor, sun, aim, idx


def iterated(sub, aim, o):
    """What four rounds leave: each shrinks the error by the mirror's lever over its distance to the aim point."""
    t = sub["kinematics_translation_deviation_parameters"]
    lever = np.linalg.norm(t[:, 3:6], axis=1) + np.linalg.norm(t[:, 6:], axis=1)
    return 2 * (lever / np.linalg.norm(aim - o, axis=1))**3


@PROP.sub("reflects_to_aim", aim_case(), quick=600, shards=4)
def reflects_to_aim(case, ctx):
    grp, imask, sub, motor, sun, aim, idx = aligned(case)
    M = np64(grp.kinematics.incident_ray_directions_to_orientations(T(h4(sun, 0)), T(h4(aim, 1)), device=DEV))
    got = np64(grp.kinematics.active_motor_positions)
    require(M.shape == (len(idx), 4, 4) and got.shape == (len(idx), 2), f"shapes {M.shape}, {got.shape}")
    n, o = M[:, :3, 2], M[:, :3, 3]
    out = reflected(sun, n)
    away = np.linalg.norm(np.cross(out, aim - o), axis=1)
    require((np.einsum("hc,hc->h", out, aim - o) > 0).all(), "the reflected ray leaves in the opposite direction")
    dist = np.linalg.norm(aim - o, axis=1)
    tol = np.broadcast_to(tolerance(sub, motor), (len(idx),)) * 20 + 5e-5 + iterated(sub, aim, o)
    close(away / dist, np.zeros(len(idx)), "angle by which the central ray misses the aim point", atol=tol)
    non = sub["actuator_parameters_non_optimizable"]
    slack = np.maximum(2e-6 * np.abs(non[:, 3]), 1e-5)
    require(((got >= non[:, 2] - slack) & (got <= non[:, 3] + slack)).all(), "motor positions outside their limits")
    # the chain reference turns the stored motor positions into the same pose
    R = kin.chain(sub, got)
    close(M[:, :3, :3], R[:, :3, :3], "pose of the stored motor positions", atol=tol[:, None, None])
    ctx.nontrivial(len(idx) > 1 and (case["wild"] or case["group"]["deviation"] > 0))
    ctx.label("one is almost at rest" if len(idx) > 1 and np.abs(motor[-1]).max() <= 5.0 and case["parked"] and case["group"]["kind"] != "ideal" else "")
    ctx.label(f"{case['group']['kind']} {'wild' if case['wild'] else ''} {case['limits'] if case['group']['kind'] == 'ideal' else ''}")


@PROP.sub("surfaces_and_motors", aim_case(), quick=300, shards=2)
def surfaces_and_motors(case, ctx):
    """Aligning with a sun direction equals aligning with the motor positions it stored."""
    grp, imask, sub, motor, sun, aim, idx = aligned(case)
    grp.align_surfaces_with_incident_ray_directions(T(h4(aim, 1)), T(h4(sun, 0)), imask, device=DEV)
    P, N = np64(grp.active_surface_points), np64(grp.active_surface_normals)
    got = grp.kinematics.active_motor_positions.detach().clone()
    M = grp.kinematics.motor_positions_to_orientations(got, device=DEV)
    grp.activate_heliostats(imask, device=DEV)
    grp.align_surfaces_with_motor_positions(got, imask, device=DEV)
    tol = (np.broadcast_to(tolerance(sub, motor), (len(idx),)) + iterated(sub, aim, np64(M)[:, :3, 3]) / 10)[:, None, None]
    close(grp.active_surface_points, P, "surface points", atol=40 * tol + 1e-4)
    close(grp.active_surface_normals, N, "surface normals", atol=20 * tol + 2e-5)
    close(np64(M)[:, None] @ np64(grp.surface_points)[idx][..., None], P[..., None], "pose of the surfaces", atol=40 * tol[..., None] + 1e-4)
    ctx.nontrivial(len(idx) > 1)


@PROP.sub("independent", aim_case(), quick=200, shards=2)
def independent(case, ctx):
    """Each heliostat's alignment is what it is alone (up to how far the shared iteration is carried)."""
    grp, imask, sub, motor, sun, aim, idx = aligned(case)
    M = np64(grp.kinematics.incident_ray_directions_to_orientations(T(h4(sun, 0)), T(h4(aim, 1)), device=DEV))
    k = int(rng(case["seed"]).integers(len(idx)))
    one = np.zeros(grp.number_of_heliostats)
    one[idx[k]] = 1
    grp.activate_heliostats(T(one, torch.int32), device=DEV)
    m = np64(grp.kinematics.incident_ray_directions_to_orientations(T(h4(sun[k:k + 1], 0)), T(h4(aim[k:k + 1], 1)), device=DEV))
    tol = np.broadcast_to(tolerance(sub, motor), (len(idx),))[k] * 20 + 1e-4 + iterated(sub, aim, M[:, :3, 3])[k]
    close(m[0, :3, :3], M[k, :3, :3], "orientation alone", atol=tol)
    close(m[0, :3, 3], M[k, :3, 3], "position alone", atol=4 * tol)
    ctx.nontrivial(len(idx) > 1)
