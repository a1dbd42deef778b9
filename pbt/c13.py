import math

from hypothesis import strategies as st
import numpy as np
import torch

from artist.geometry import rotations, transforms

from .core import DEV, Prop, T, close, np64, raises, require, rng
from .gen import directions, fl, h4, seeds, unit

PROP = Prop("C13", "angles that are not multiples of a quarter turn, batches with several entries, directions off the axes")

angle = st.sampled_from([0.0, math.pi / 2, -math.pi / 2, math.pi]) | fl(-7, 7) | fl(-1e-3, 1e-3)
# sense of the rotation about each axis in a right-handed east-north-up frame: about north the package turns the other way
# round (its tests and every calibrated plant fix this sense)
SENSE = dict(e=1, n=-1, u=1)
AXIS = dict(e=0, n=1, u=2)


def ref(axis, t):
    """[B, 4, 4] rotation by t about one coordinate axis."""
    t = np.asarray(t, float) * SENSE[axis]
    i = AXIS[axis]
    j, k = (i + 1) % 3, (i + 2) % 3
    m = np.zeros((len(t), 4, 4))
    m[:, i, i] = m[:, 3, 3] = 1
    m[:, j, j] = m[:, k, k] = np.cos(t)
    m[:, j, k], m[:, k, j] = -np.sin(t), np.sin(t)
    return m


def fun(axis):
    f = getattr(transforms, f"rotate_{axis}")
    return lambda t: f(**{axis: t}, device=DEV)


@st.composite
def rotation_case(draw):
    B = draw(st.integers(1, 6))
    return dict(axis=draw(st.sampled_from("enu")), a=[draw(angle) for _ in range(B)], b=[draw(angle) for _ in range(B)], seed=draw(seeds))


@PROP.sub("elementary", rotation_case(), quick=400, shards=2)
def elementary(case, ctx):
    f, B = fun(case["axis"]), len(case["a"])
    a, b = T(case["a"]), T(case["b"])
    A, Bm = np64(f(a)), np64(f(b))
    close(A, ref(case["axis"], np64(a)), "rotation matrix", atol=1e-6)
    eye = np.broadcast_to(np.eye(4), (B, 4, 4))
    close(A @ A.transpose(0, 2, 1), eye, "orthogonality", atol=1e-6)
    close(np.linalg.det(A[:, :3, :3]), np.ones(B), "handedness", atol=1e-6)
    close(A[:, :3, AXIS[case["axis"]]], np.broadcast_to(np.eye(3)[AXIS[case["axis"]]], (B, 3)), "axis stays fixed", atol=1e-7)
    close(A @ np64(f(-a)), eye, "opposite angle", atol=1e-6)
    close(A @ Bm, np64(f(a + b)), "angles add", atol=3e-6)
    x = h4(rng(case["seed"]).normal(size=(B, 3)), 1)
    close(np.linalg.norm(np.einsum("bij,bj->bi", A, x)[:, :3], axis=1), np.linalg.norm(x[:, :3], axis=1), "length", atol=1e-5)
    ctx.nontrivial(B > 1 and any(abs(math.sin(2 * t)) > 0.1 for t in case["a"]))
    ctx.label(case["axis"])


@st.composite
def translation_case(draw):
    B = draw(st.integers(1, 6))
    return dict(a=[[draw(fl(-1e3, 1e3)) for _ in range(3)] for _ in range(B)], b=[[draw(fl(-50, 50)) for _ in range(3)] for _ in range(B)],
                short=draw(st.booleans()))


@PROP.sub("translations", translation_case(), quick=150)
def translations(case, ctx):
    a, b = np.array(case["a"], np.float32), np.array(case["b"], np.float32)
    f = lambda v: transforms.translate_enu(e=T(v[:, 0]), n=T(v[:, 1]), u=T(v[:, 2]), device=DEV)
    A, Bm = np64(f(a)), np64(f(b))
    n = len(a)
    close(A[:, :3, :3], np.broadcast_to(np.eye(3), (n, 3, 3)), "linear part")
    close(A[:, 3], np.broadcast_to([0, 0, 0, 1.0], (n, 4)), "last row")
    close(A[:, :3, 3], a, "translation")
    close(A @ Bm, np64(f(a + b)), "translations add", atol=1e-4)
    close(np.einsum("bij,bj->bi", A, h4(b, 1)), h4(a.astype(float) + b, 1), "moved points", atol=1e-9)
    close(np.einsum("bij,bj->bi", A, h4(b, 0)), h4(b, 0), "directions")
    if n > 1:
        raises(lambda: transforms.translate_enu(e=T(a[:, 0]), n=T(a[:-1, 1]), u=T(a[:, 2]), device=DEV), ValueError, "unequal sizes")
    ctx.nontrivial(n > 1 and len({len(set(map(float, v))) for v in a}) and all(len(set(map(float, v))) == 3 for v in a))


@st.composite
def deflection_case(draw):
    shape = [draw(st.integers(1, 4)), draw(st.integers(1, 4)), draw(st.integers(1, 5))]
    return dict(shape=shape, scale=draw(st.sampled_from([2e-3, 0.1, 3.0])), seed=draw(seeds), dir=draw(directions()))


@PROP.sub("sun_deflection", deflection_case(), quick=150)
def sun_deflection(case, ctx):
    g = rng(case["seed"])
    e, u = (g.normal(size=case["shape"]) * case["scale"] for _ in range(2))
    m = transforms.rotate_distortions(e=T(e), u=T(u), device=DEV)
    require(tuple(m.shape) == (*case["shape"], 4, 4), f"shape {tuple(m.shape)}")
    M = np64(m).reshape(-1, 4, 4)
    close(M, ref("e", np64(T(e)).ravel()) @ ref("u", np64(T(u)).ravel()), "east rotation after up rotation", atol=2e-6)
    own = np64(transforms.rotate_e(T(e).ravel(), device=DEV) @ transforms.rotate_u(T(u).ravel(), device=DEV))
    close(M, own, "product of the elementary rotations", atol=2e-6)
    y = M @ np.append(case["dir"], 0)
    close(np.linalg.norm(y[:, :3], axis=1), np.ones(len(M)), "length of deflected rays", atol=1e-5)
    if case["shape"][2] > 1:
        raises(lambda: transforms.rotate_distortions(e=T(e), u=T(u[:, :, :-1]), device=DEV), ValueError, "unequal sizes")
    ctx.nontrivial(min(case["shape"]) > 1)


def rodrigues(axis, t, v):
    return v * math.cos(t) + np.cross(axis, v) * math.sin(t) + axis * (axis @ v) * (1 - math.cos(t))


@st.composite
def two_directions(draw):
    a = draw(directions())
    kind = draw(st.sampled_from(["any", "any", "same", "opposite", "near", "nearly opposite"]))
    if kind == "any":
        b = draw(directions())
    elif kind in ("near", "nearly opposite"):
        delta = draw(st.sampled_from([1e-2, 5e-3, 3e-2]))
        b = unit((1 if kind == "near" else -1) * np.array(a) + delta * np.array(draw(directions()))).tolist()
    else:
        b = [x if kind == "same" else -x for x in a]
    return dict(a=a, b=b, la=draw(st.sampled_from([1.0, 0.3, 7.0])), lb=draw(st.sampled_from([1.0, 0.2, 5.0])))


@PROP.sub("between_directions", st.lists(two_directions(), min_size=1, max_size=4), quick=400, shards=2)
def between_directions(case, ctx):
    for k in case:
        a, b = np.array(k["a"]), np.array(k["b"])
        axis, t = rotations.rotation_angle_and_axis(T(h4(a * k["la"], 0)), T(h4(b * k["lb"], 0)), device=DEV)
        axis, t = np64(axis), float(t)
        close(np.linalg.norm(axis), 1.0, "length of the axis", atol=1e-4)
        # the arc cosine of a float32 number resolves small angles only to sqrt(eps)
        close(t, math.acos(max(-1, min(1, a @ b))), "angle between the directions", atol=1.2e-3)
        close(rodrigues(axis, t, a), b, "rotated direction", atol=2e-3)
    b = np.array(case[0]["b"])
    first = np.array([np.array(k["a"]) * k["la"] for k in case])
    parts = [np64(x) for x in rotations.decompose_rotations(T(h4(first, 0)), T(h4(b * case[0]["lb"], 0)))]
    require(all(p.shape == (len(case),) for p in parts), "one value per initial vector")
    for i, k in enumerate(case):
        a = np.array(k["a"])
        w = np.array([p[i] for p in parts])
        t = np.linalg.norm(w)
        close(t, math.acos(max(-1, min(1, a @ b))), "decomposed angle", atol=1.2e-3)
        close(rodrigues(w / t if t > 0 else np.array([1.0, 0, 0]), t, a), b, "direction after the decomposed rotation", atol=2e-3)
    ctx.nontrivial(len(case) > 1)
    ctx.label("opposite" if case[0]["a"] == [-x for x in case[0]["b"]] else "general")
