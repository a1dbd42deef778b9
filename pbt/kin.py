"""Float64 reference of the rigid-body kinematics and generators for its groups."""
import math

from hypothesis import strategies as st
import numpy as np

from . import scene
from .c13 import ref as rot
from .c15 import Model
from .core import DEV, T, np64
from .gen import fl, seeds


def shift(v):
    v = np.asarray(v, float)
    m = np.broadcast_to(np.eye(4), (len(v), 4, 4)).copy()
    m[:, :3, 3] = v
    return m


# turns the mirror that lies on the ground (normal up) to the south
SOUTH = rot("e", [math.pi / 2])


def angles(arrays, motor):
    non, opt = (np64(T(arrays[k])) for k in ("actuator_parameters_non_optimizable", "actuator_parameters_optimizable"))
    if non.shape[1] == 4:
        return np.asarray(motor, float)
    return Model(non, opt).angle(motor)


def chain(arrays, motor):
    """[H, 4, 4] poses of all heliostats for motor positions [H, 2]."""
    p, t, r = (np64(T(arrays[k])) for k in ("positions", "kinematics_translation_deviation_parameters",
                                            "kinematics_rotation_deviation_parameters"))
    a = angles(arrays, motor)
    first = rot("n", r[:, 0]) @ rot("u", r[:, 1]) @ shift(t[:, 0:3]) @ rot("e", a[:, 0])
    second = rot("e", r[:, 2]) @ rot("n", r[:, 3]) @ shift(t[:, 3:6]) @ rot("u", a[:, 1])
    return shift(p[:, :3]) @ first @ second @ shift(t[:, 6:9]) @ SOUTH


def take(arrays, index):
    return {k: (v if k.endswith("_optimizable") and v.ndim == 1 else v[index]) for k, v in arrays.items()}


@st.composite
def group_case(draw, count=(1, 4)):
    """A group of either kind; ``wild``: actuators and deviations far from those of a real heliostat."""
    spec = draw(scene.group_spec(count=count))
    H = len(spec["positions"])
    return dict(group=spec, wild=draw(st.booleans()), at=[[draw(fl(0, 1)), draw(fl(0, 1))] for _ in range(H)],
                mask=[draw(st.integers(0, 3)) for _ in range(H)], seed=draw(seeds))


def arrays_of(case, reach=1.0, tilt=0.5):
    spec = case["group"]
    a = scene.group_arrays(spec)
    if case["wild"]:
        g = np.random.default_rng(case["seed"])
        H = len(spec["positions"])
        a["kinematics_translation_deviation_parameters"] = g.uniform(-reach, reach, (H, 9)) * g.choice([0.0, 1.0], (H, 9))
        a["kinematics_rotation_deviation_parameters"] = g.uniform(-tilt, tilt, (H, 4)) * g.choice([0.0, 1.0], (H, 4))
        if spec["kind"] == "linear":
            non, opt = a["actuator_parameters_non_optimizable"], a["actuator_parameters_optimizable"]
            non[:, 1] = g.integers(0, 2, (H, 2))
            non[:, 4] = g.uniform(5e4, 3e5, (H, 2))
            non[:, 5:7] = g.uniform(0.2, 0.6, (H, 2, 2))
            lo, hi = np.abs(non[:, 5] - non[:, 6]), non[:, 5] + non[:, 6]
            opt[:, 0] = g.uniform(-1.5, 1.5, (H, 2))
            opt[:, 1] = lo + g.uniform(0.05, 0.5, (H, 2)) * (hi - lo)
            non[:, 2] = 0
            non[:, 3] = ((lo + 0.95 * (hi - lo)) - opt[:, 1]) * non[:, 4]
    return a


def motor_positions(case, arrays, lo=0.0, hi=1.0):
    """Within the limits of each actuator; an ideal one within a full turn."""
    at = lo + np.array(case["at"]) * (hi - lo)
    non = arrays["actuator_parameters_non_optimizable"]
    if case["group"]["kind"] == "ideal":
        m = (at - 0.5) * 2 * math.pi
    else:
        m = non[:, 2] + at * (non[:, 3] - non[:, 2])
    return m.astype(np.float32).astype(float)
