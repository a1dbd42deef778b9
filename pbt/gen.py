"""Strategies and bulk generators shared by the property modules."""
import math

import numpy as np
from hypothesis import strategies as st

seeds = st.integers(0, 2**32 - 1)


def fl(lo, hi):
    """A float in [lo, hi] that survives a round trip through float32."""
    lo, hi = float(np.float32(lo)), float(np.float32(hi))
    return st.floats(lo, hi, width=32, allow_nan=False, allow_infinity=False, allow_subnormal=False)


def vec(lo, hi, n=3):
    return st.lists(fl(lo, hi), min_size=n, max_size=n)


@st.composite
def directions(draw, special=True):
    """A unit vector as list; often along an axis or in a coordinate plane."""
    kind = draw(st.sampled_from(["axis", "plane", "any", "any"] if special else ["any"]))
    if kind == "axis":
        v = np.zeros(3)
        v[draw(st.integers(0, 2))] = draw(st.sampled_from([1.0, -1.0]))
        return v.tolist()
    a = draw(fl(-math.pi, math.pi))
    if kind == "plane":
        i = draw(st.integers(0, 2))
        v = np.zeros(3)
        v[i], v[(i + 1) % 3] = math.cos(a), math.sin(a)
        return v.tolist()
    z = draw(fl(-1, 1))
    s = math.sqrt(max(0.0, 1 - z * z))
    return [s * math.cos(a), s * math.sin(a), z]


def unit(v, axis=-1):
    v = np.asarray(v, dtype=np.float64)
    return v / np.linalg.norm(v, axis=axis, keepdims=True)


def rand_dirs(g, shape):
    return unit(g.normal(size=(*shape, 3)))


def frame(normal, roll=0.0):
    """Two unit vectors that complete ``normal`` to a right-handed frame (a, b, n)."""
    n = unit(normal)
    h = np.array([0.0, 0.0, 1.0]) if abs(n[2]) < 0.9 else np.array([1.0, 0.0, 0.0])
    a = unit(np.cross(h, n))
    b = np.cross(n, a)
    c, s = math.cos(roll), math.sin(roll)
    return c * a + s * b, -s * a + c * b


def h4(v, w):
    """Append the homogeneous coordinate."""
    v = np.asarray(v, dtype=np.float64)
    return np.concatenate([v, np.full((*v.shape[:-1], 1), float(w))], axis=-1)
