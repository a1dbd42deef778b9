import math

from hypothesis import strategies as st
import numpy as np
import torch

from . import kin, scene
from .core import DEV, Prop, T, close, np64, require, rng
from .gen import h4

PROP = Prop("C16", "heliostats with deviating kinematics and different motor positions, several of them active or repeated")


def tolerance(arrays, motor):
    """Float32 error of the joint angles."""
    non, opt = (np64(T(arrays[k])) for k in ("actuator_parameters_non_optimizable", "actuator_parameters_optimizable"))
    return 2e-6 if non.shape[1] == 4 else 2e-6 + kin.Model(non, opt).angle_error(motor).max(-1)


def group_of(case):
    a = kin.arrays_of(case)
    return scene.group(case["group"], **{k: v for k, v in a.items()}), a


def orientations(grp, mask, motor):
    grp.activate_heliostats(T(mask, torch.int32), device=DEV)
    return grp.kinematics.motor_positions_to_orientations(T(motor), device=DEV)


@PROP.sub("chain", kin.group_case(), quick=500, shards=4)
def chain(case, ctx):
    grp, a = group_of(case)
    H = grp.number_of_heliostats
    m = kin.motor_positions(case, a)
    M = np64(orientations(grp, np.ones(H), m))
    require(M.shape == (H, 4, 4), f"shape {M.shape}")
    tol = np.broadcast_to(tolerance(a, m), (H,))
    R = kin.chain(a, m)
    size = 1 + np.abs(a["positions"][:, :3]).max(1)
    close(M[:, :3, :3], R[:, :3, :3], "orientation", atol=(tol * 2 + 2e-6)[:, None, None])
    close(M[:, :3, 3], R[:, :3, 3], "position of the mirror", atol=(tol * 6 + 4e-7 * size)[:, None])
    close(M[:, 3], np.broadcast_to([0, 0, 0, 1.0], (H, 4)), "last row")
    close(M[:, :3, :3] @ M[:, :3, :3].transpose(0, 2, 1), np.broadcast_to(np.eye(3), (H, 3, 3)), "orthogonality", atol=1e-5)
    close(np.linalg.det(M[:, :3, :3]), np.ones(H), "handedness", atol=1e-5)
    # the distance of the mirror from the heliostat position is that of the three offsets at most
    t = np.linalg.norm(a["kinematics_translation_deviation_parameters"].reshape(H, 3, 3), axis=2).sum(1)
    d = np.linalg.norm(M[:, :3, 3] - a["positions"][:, :3], axis=1)
    require((d <= t + 1e-4).all(), "mirror farther from the heliostat position than its offsets allow")
    ctx.nontrivial(H > 1 and (case["wild"] or case["group"]["deviation"] > 0))
    ctx.label(case["group"]["kind"] + (" wild" if case["wild"] else ""))


@PROP.sub("aligned_surfaces", kin.group_case(), quick=400, shards=2)
def aligned_surfaces(case, ctx):
    grp, a = group_of(case)
    mask = np.array(case["mask"])
    if not mask.any():
        mask[0] = 1
    idx = np.repeat(np.arange(len(mask)), mask)
    sub = kin.take(a, idx)
    g = rng(case["seed"])
    # every repetition gets motor positions of its own
    m = kin.motor_positions(case | dict(at=g.random((len(idx), 2)).tolist()), sub)
    base_p, base_n = np64(grp.surface_points).copy(), np64(grp.surface_normals).copy()
    imask = T(mask, torch.int32)
    grp.activate_heliostats(imask, device=DEV)
    grp.align_surfaces_with_motor_positions(T(m), imask, device=DEV)
    P, N = np64(grp.active_surface_points), np64(grp.active_surface_normals)
    R = kin.chain(sub, m)
    tol = np.broadcast_to(tolerance(sub, m), (len(idx),))
    size = 1 + np.abs(sub["positions"][:, :3]).max(1)
    atol = (tol * 10 + 6e-7 * size)[:, None, None]
    close(P, np.einsum("hij,hpj->hpi", R, base_p[idx]), "aligned surface points", atol=atol)
    close(N, np.einsum("hij,hpj->hpi", R, base_n[idx]), "aligned surface normals", atol=(tol * 2 + 2e-6)[:, None, None])
    close(np.linalg.norm(N[..., :3], axis=-1), np.ones(N.shape[:2]), "length of normals", atol=1e-5)
    close(P[..., 3], np.ones(P.shape[:2]), "homogeneous coordinate of points", atol=1e-6)
    close(N[..., 3], np.zeros(P.shape[:2]), "homogeneous coordinate of normals", atol=1e-6)
    d = lambda x: np.linalg.norm(x[:, :, None, :3] - x[:, None, :, :3], axis=-1)
    close(d(P), d(base_p[idx]), "mutual distances of surface points", atol=8e-7 * size[:, None, None] + 2e-6)
    off = lambda x, n: np.einsum("hpqc,hpc->hpq", x[:, None, :, :3] - x[:, :, None, :3], n[..., :3])
    close(off(P, N), off(base_p[idx], base_n[idx]), "points relative to the normals", atol=8e-7 * size[:, None, None] + 1e-5)
    close(grp.surface_points, base_p, "stored points"); close(grp.surface_normals, base_n, "stored normals")
    ctx.nontrivial(len(set(idx.tolist())) > 1 or len(idx) > 2)
    ctx.label("repeated" if (mask > 1).any() else "single")


@PROP.sub("own_parameters", kin.group_case(count=(2, 4)), quick=200, shards=2)
def own_parameters(case, ctx):
    """A heliostat alone, or among heliostats with other parameters, has the same pose."""
    grp, a = group_of(case)
    H = grp.number_of_heliostats
    m = kin.motor_positions(case, a)
    M = np64(orientations(grp, np.ones(H), m))
    g = rng(case["seed"] ^ 1)
    order = g.permutation(H)
    other = scene.group(case["group"] | dict(positions=np.array(case["group"]["positions"])[order].tolist()), **kin.take(a, order))
    close(orientations(other, np.ones(H), m[order]), M[order], "permuted heliostats", atol=2e-5, rtol=1e-6)
    h = int(g.integers(H))
    mask = np.zeros(H); mask[h] = 1
    close(orientations(grp, mask, m[h:h + 1])[0], M[h], "single active heliostat", atol=2e-5, rtol=1e-6)
    ctx.nontrivial(case["wild"] or case["group"]["deviation"] > 0)
