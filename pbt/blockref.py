"""Float64 reference for blocking: rays against the rectangles (parallelograms) spanned by mirror corners."""
import numpy as np

from .gen import unit
from .scene import FACET_SIGNS  # noqa: F401


def mirror_corners(points, side):
    """Corner points LL, UL, UR, LR of a mirror of 2 x 2 facets (UL, UR, LL, LR), each an east-major side x side grid."""
    g = points.reshape(4, side, side, -1)
    return np.stack([g[2, 0, 0], g[0, 0, -1], g[1, -1, -1], g[3, -1, 0]])


def crossings(origins, dirs, corners, target, offset=0.05, edge=0.02, along=0.02):
    """origins, dirs [N,3], corners [M,4,3], target [N] or None.

    Returns (crosses, clear) [N, M]: the ray surely passes through the rectangle in front of it and before its target;
    the ray surely does not. Neither holds close to the rectangle's rim, the ray's start or the target.
    """
    c, a, b = corners[:, 0], corners[:, 1] - corners[:, 0], corners[:, 3] - corners[:, 0]
    n = unit(np.cross(a, b))
    den = dirs @ n.T
    safe = np.where(np.abs(den) < 1e-12, 1e-12, den)
    t = ((c[None] - origins[:, None]) * n[None]).sum(-1) / safe
    p = origins[:, None] + t[..., None] * dirs[:, None] - c[None]
    pa, pb, aa, bb, ab = (p * a[None]).sum(-1), (p * b[None]).sum(-1), (a * a).sum(-1), (b * b).sum(-1), (a * b).sum(-1)
    u, v = (pa * bb - pb * ab) / (aa * bb - ab * ab), (pb * aa - pa * ab) / (aa * bb - ab * ab)
    far = np.inf if target is None else np.asarray(target)[:, None]
    good = np.abs(den) > 1e-3
    crosses = good & (u > edge) & (u < 1 - edge) & (v > edge) & (v < 1 - edge) & (t > offset + along) & (t < far - along)
    clear = good & ((u < -edge) | (u > 1 + edge) | (v < -edge) | (v > 1 + edge) | (t < offset - along) | (t > far + along))
    # parallel to the plane: clear when it runs beside it
    dist = np.abs(((c[None] - origins[:, None]) * n[None]).sum(-1))
    clear |= ~good & (dist > 0.5) & (np.abs(t) > 300)
    return crosses, clear


def box_hit(origins, dirs, corners, target, grow):
    """Whether the ray meets the (grown) axis-aligned box of each rectangle in front of it, not beyond the target. [N, M]"""
    lo, hi = corners.min(1) - grow, corners.max(1) + grow
    d = np.where(np.abs(dirs) < 1e-15, 1e-15, dirs)
    t1, t2 = (lo[None] - origins[:, None]) / d[:, None], (hi[None] - origins[:, None]) / d[:, None]
    entry, leave = np.minimum(t1, t2).max(-1), np.maximum(t1, t2).min(-1)
    far = np.inf if target is None else np.asarray(target)[:, None]
    return (leave >= entry) & (leave > -grow) & (entry <= far + grow)
