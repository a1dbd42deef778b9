import math

from hypothesis import strategies as st
import numpy as np
import torch

from artist.field.actuators_ideal import IdealActuators
from artist.field.actuators_linear import LinearActuators

from .core import DEV, Prop, T, close, np64, require, rng
from .gen import fl, seeds

PROP = Prop("C15", "several heliostats whose actuators differ, motor positions inside and beyond the physical stroke range")


def soft(x):
    """Strictly positive version of a parameter: softplus of sharpness 100 plus 1e-6."""
    x = np.asarray(x, float)
    return np.where(100 * x > 20, x, np.log1p(np.exp(np.minimum(100 * x, 20))) / 100) + 1e-6


@st.composite
def actuators(draw, most=5):
    H = draw(st.integers(1, most))
    one = lambda: dict(clockwise=draw(st.integers(0, 1)), increment=draw(st.sampled_from([154166.67]) | fl(2e4, 5e5)),
                       offset=draw(fl(0.15, 0.8)), pivot=draw(fl(0.15, 0.8)), angle=draw(st.sampled_from([0.0]) | fl(-2, 2)),
                       # where between the shortest and the longest stroke the zero position lies
                       motor=[draw(st.sampled_from([0.0]) | fl(-1e4, 1e4)), draw(st.sampled_from([1e5]) | fl(2e4, 2e5))],
                       rest=draw(st.sampled_from([0.15]) | fl(0.03, 0.97)))
    return dict(act=[[one(), one()] for _ in range(H)], at=[[draw(fl(0.02, 0.98)), draw(fl(0.02, 0.98))] for _ in range(H)],
                seed=draw(seeds))


def tensors(case):
    H = len(case["act"])
    non, opt = np.zeros((H, 7, 2)), np.zeros((H, 2, 2))
    for h in range(H):
        for k in range(2):
            a = case["act"][h][k]
            lo, hi = abs(a["offset"] - a["pivot"]), a["offset"] + a["pivot"]
            non[h, :, k] = [0, a["clockwise"], a["motor"][0], a["motor"][1], a["increment"], a["offset"], a["pivot"]]
            opt[h, :, k] = [a["angle"], lo + a["rest"] * (hi - lo)]
    return non.astype(np.float32).astype(float), opt.astype(np.float32).astype(float)


def make(non, opt):
    a = LinearActuators(T(non), T(opt), device=DEV)
    a.active_non_optimizable_parameters, a.active_optimizable_parameters = T(non), T(opt)
    return a


class Model:
    """Triangle with sides offset, pivot radius and stroke, in float64."""

    def __init__(self, non, opt):
        self.cw = non[:, 1] == 1
        self.inc, self.o, self.p = soft(non[:, 4]), soft(non[:, 5]), soft(non[:, 6])
        self.a0, self.s0 = opt[:, 0], soft(opt[:, 1])
        self.lo, self.hi = np.abs(self.o - self.p), self.o + self.p

    def stroke(self, m):
        return m / self.inc + self.s0

    def corner(self, s):
        c = (self.o**2 + self.p**2 - s**2) / (2 * self.o * self.p)
        return np.arccos(np.clip(c, -1 + 1e-6, 1 - 1e-6))

    def angle(self, m):
        d = self.corner(np.clip(self.stroke(m), self.lo + 1e-6, self.hi - 1e-6)) - self.corner(self.s0)
        return self.a0 + np.where(self.cw, -d, d)

    def angle_error(self, m):
        out = 0
        for s in (self.stroke(m), self.s0):
            s = np.clip(s, self.lo, self.hi)
            out = out + 4e-7 * (self.o**2 + self.p**2 + s**2) / (2 * self.o * self.p) / np.maximum(np.sin(self.corner(s)), 1e-3)
        return out + 2e-6


@PROP.sub("triangle", actuators(), quick=500, shards=2)
def triangle(case, ctx):
    non, opt = tensors(case)
    m, act = Model(non, opt), make(non, opt)
    g = rng(case["seed"])
    at = np.array(case["at"])
    for rnd in range(3):
        pos = ((m.lo + (at if rnd == 0 else g.uniform(-0.2, 1.2, at.shape)) * (m.hi - m.lo)) - m.s0) * m.inc
        pos = pos.astype(np.float32).astype(float)
        a = np64(act.motor_positions_to_angles(T(pos), device=DEV))
        require(a.shape == pos.shape and np.isfinite(a).all(), "one finite angle per actuator")
        close(a, m.angle(pos), "joint angle", atol=m.angle_error(pos))
    zero = act.motor_positions_to_angles(T(np.zeros_like(at)), device=DEV)
    close(zero, m.a0, "angle at motor position zero is the initial angle", atol=1e-5)
    ctx.nontrivial(len(at) > 1 and len({a["clockwise"] for h in case["act"] for a in h}) > 1)


@PROP.sub("monotone", actuators(most=3), quick=300)
def monotone(case, ctx):
    """Over the operating range the angle moves strictly in the turning direction."""
    non, opt = tensors(case)
    m = Model(non, opt)
    # steps of 0.8 % of the range: far above rounding
    f = np.linspace(0.02, 0.98, 120)
    H = len(non)
    many = make(np.repeat(non, 120, 0), np.repeat(opt, 120, 0))
    pos = (m.lo + f[:, None, None] * (m.hi - m.lo) - m.s0) * m.inc
    a = np64(many.motor_positions_to_angles(T(pos.transpose(1, 0, 2).reshape(-1, 2)), device=DEV)).reshape(H, 120, 2).transpose(1, 0, 2)
    act = make(non, opt)
    d = np.diff(a, axis=0)
    require(np.where(m.cw, d < 0, d > 0).all(), "angle does not move strictly in the turning direction")
    # beyond the physical range it stops
    for x, y in ((-0.5, -0.1), (1.1, 1.5)):
        p, q = (np64(act.motor_positions_to_angles(T((m.lo + z * (m.hi - m.lo) - m.s0) * m.inc), device=DEV)) for z in (x, y))
        close(p, q, "angle beyond the stroke range", atol=1e-6)
    ctx.nontrivial(len({a["clockwise"] for h in case["act"] for a in h}) > 1)


@PROP.sub("inverse", actuators(), quick=500, shards=2)
def inverse(case, ctx):
    non, opt = tensors(case)
    m, act = Model(non, opt), make(non, opt)
    at = np.array(case["at"])
    pos = ((m.lo + at * (m.hi - m.lo)) - m.s0) * m.inc
    pos = pos.astype(np.float32).astype(float)
    a = act.motor_positions_to_angles(T(pos), device=DEV)
    back = np64(act.angles_to_motor_positions(a, device=DEV))
    s = m.stroke(pos)
    ds = m.o * m.p * np.sin(m.corner(s)) / s            # stroke per angle
    err = (m.angle_error(pos) + 2e-6 + 4e-7 * np.abs(m.a0)) * ds + 4e-7 * (m.o**2 + m.p**2) / s + 3e-7 * (s + m.s0)
    close(back, pos, "motor position -> angle -> motor position", atol=m.inc * err * 2 + 0.01)
    again = np64(act.motor_positions_to_angles(T(back), device=DEV))
    close(again, np64(a), "angle -> motor position -> angle", atol=4 * m.angle_error(pos) + err / np.maximum(ds, 1e-3))
    # and from a wanted angle
    g = rng(case["seed"])
    want = m.angle(((m.lo + g.uniform(0.1, 0.9, at.shape) * (m.hi - m.lo)) - m.s0) * m.inc)
    p = act.angles_to_motor_positions(T(want), device=DEV)
    close(m.angle(np64(p)), np64(T(want)), "wanted angle is reached", atol=3e-5)
    ctx.nontrivial(len(at) > 1 and len({x["clockwise"] for h in case["act"] for x in h}) > 1)


@PROP.sub("independent", actuators(), quick=200)
def independent(case, ctx):
    non, opt = tensors(case)
    act = make(non, opt)
    m = Model(non, opt)
    pos = ((m.lo + np.array(case["at"]) * (m.hi - m.lo)) - m.s0) * m.inc
    a = np64(act.motor_positions_to_angles(T(pos), device=DEV))
    p = np64(act.angles_to_motor_positions(T(a), device=DEV))
    g = rng(case["seed"])
    order = g.permutation(len(pos))
    q = make(non[order], opt[order])
    close(q.motor_positions_to_angles(T(pos[order]), device=DEV), a[order], "permuted heliostats: angles", atol=1e-6)
    for h in range(len(pos)):
        one = make(non[h:h + 1], opt[h:h + 1])
        close(one.motor_positions_to_angles(T(pos[h:h + 1]), device=DEV)[0], a[h], "heliostat alone: angle", atol=1e-6)
        close(one.angles_to_motor_positions(T(a[h:h + 1]), device=DEV)[0], p[h], "heliostat alone: motor position", atol=0.2, rtol=1e-6)
    # the forward call is the same conversion
    close(act(T(pos), device=DEV), a, "forward call")
    require(torch.equal(act.non_optimizable_parameters, T(non)) and torch.equal(act.active_non_optimizable_parameters, T(non))
            and torch.equal(act.active_optimizable_parameters, T(opt)), "conversion changes parameters")
    ctx.nontrivial(len(pos) > 1)


@st.composite
def ideal_case(draw):
    H = draw(st.integers(1, 5))
    return dict(x=[[draw(fl(-10, 10)), draw(fl(-10, 10))] for _ in range(H)], cw=[[draw(st.integers(0, 1)), draw(st.integers(0, 1))] for _ in range(H)])


@PROP.sub("ideal", ideal_case(), quick=100)
def ideal(case, ctx):
    H = len(case["x"])
    non = np.zeros((H, 4, 2))
    non[:, 0], non[:, 1], non[:, 2], non[:, 3] = 1, np.array(case["cw"]), -5, 5
    act = IdealActuators(T(non), torch.tensor([]), device=DEV)
    act.active_non_optimizable_parameters = T(non)
    x = T(case["x"])
    close(act.motor_positions_to_angles(x, device=DEV), x, "angle of an ideal actuator")
    close(act.angles_to_motor_positions(x, device=DEV), x, "motor position of an ideal actuator")
    ctx.nontrivial(H > 1)
