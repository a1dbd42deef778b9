"""Independent float64 references (numpy only, written from the geometry, not from the code)."""
import math

import numpy as np


def plane_hits(origins, dirs, mags, center, normal, width, height, res_e, res_u):
    """origins [P,3], dirs [R,P,3], mags [R,P]; one flat receiver.

    Returns dict with hit mask, e/u (continuous bitmap coordinates; e counted from the east end), distance, intensity
    and ``sure``: the margin to every decision exceeds the float32 error bound.
    """
    dn = dirs @ normal
    t = ((center - origins) @ normal)[None, :] / np.where(dn == 0, 1.0, dn)
    p = origins[None] + t[..., None] * dirs
    fe = (p[..., 0] - center[0]) / width + 0.5
    fu = (p[..., 2] - center[2]) / height + 0.5
    scale = np.abs(origins).max() + np.abs(center).max() + np.abs(t)
    err = 2e-6 * scale / np.maximum(np.abs(dn), 1e-9) + 1e-6        # metres
    hit = (dn < 0) & (t > 0) & (fe >= 0) & (fe <= 1) & (fu >= 0) & (fu <= 1)
    sure = (np.abs(dn) > 1e-5) & (np.abs(t) > err)
    for f, size in ((fe, width), (fu, height)):
        sure &= (np.abs(f) * size > err) & (np.abs(f - 1) * size > err)
    sure |= (dn > 1e-5)          # back side: a miss, however close the edges are
    return dict(hit=hit, e=(1 - fe) * (res_e - 1), u=fu * (res_u - 1), distance=t, intensity=mags * -dn,
                sure=sure, err=err, err_e=err / width * (res_e - 1), err_u=err / height * (res_u - 1))


def cylinder_hits(origins, dirs, mags, center, normal, axis, radius, height, opening, res_e, res_u):
    """Nearest forward crossing of a cylinder; its sector is centred on ``normal``, angles grow towards axis x normal."""
    v = np.cross(axis, normal)
    o = origins - center
    ox, oy, oz = o @ normal, o @ v, o @ axis
    dx, dy, dz = dirs @ normal, dirs @ v, dirs @ axis
    a = dx**2 + dy**2
    b = ox * dx + oy * dy                       # half of the usual b
    c = (ox**2 + oy**2 - radius**2)[None] + 0 * a
    # distance of the ray to the axis, a well conditioned form of the discriminant: disc = a r^2 - (ox dy - oy dx)^2
    disc = a * radius**2 - (ox * dy - oy * dx) ** 2
    ok = (disc > 0) & (a > 1e-8)
    sq = np.sqrt(np.where(ok, disc, 0.0))
    sa = np.where(a > 1e-12, a, 1.0)
    t1, t2 = (-b - sq) / sa, (-b + sq) / sa
    t = np.where(t1 > 0, t1, t2)
    ok &= t > 0
    # rounding of b^2 - a c and of t in float32
    err_disc = 6e-7 * (b**2 + np.maximum(a, np.sqrt(a) / 2) * (ox**2 + oy**2 + radius**2)[None])
    # rays along the axis: the little that they move across it is known to the rounding of the whole direction only
    err = (err_disc / np.maximum(2 * sq, 1e-12) + 4e-7 * np.abs(b)) / sa + 4e-7 * np.abs(t) / np.sqrt(sa) + 2e-6 * (
        np.abs(origins).max() + np.abs(center).max() + np.abs(t)) + 1e-6
    x, y, z = ox + t * dx, oy + t * dy, oz + t * dz
    phi = np.arctan2(y, x)                      # in (-pi, pi], 0 at the normal
    full = opening > 2 * math.pi - 1e-4
    fe = phi / opening + 0.5
    fu = z / height + 0.5
    cos = -(dx * x + dy * y) / radius
    hit = ok & (np.abs(phi) <= opening / 2) & (fu >= 0) & (fu <= 1) & (cos > 0)
    sure = np.abs(disc) > 4 * err_disc + 1e-9
    sure &= (a > 1e-6)
    roots = (np.abs(t1) > err) & (np.abs(t2) > err)
    sure &= roots | (disc < 0)
    edge = (np.abs(np.abs(phi) - opening / 2) * radius > err) & (np.abs(np.abs(phi) - math.pi) * radius > err) \
        if not full else (np.abs(np.abs(phi) - math.pi) * radius > err)
    edge &= (np.abs(fu) * height > err) & (np.abs(fu - 1) * height > err)
    sure &= edge | ~ok
    sure &= err < 0.05 * min(radius, height)
    return dict(hit=hit, e=fe * (res_e - 1), u=fu * (res_u - 1), distance=t, intensity=mags * np.maximum(cos, 0),
                sure=sure, err=err, err_e=err / (radius * opening) * (res_e - 1), err_u=err / height * (res_u - 1),
                err_cos=err / radius * 2 + 1e-5)


def splat(e, u, w, width, height):
    """Bilinear deposit of rays at continuous positions (origin lower left) into an image with row 0 on top."""
    img = np.zeros((height, width))
    e, u, w = (np.asarray(x, dtype=np.float64).reshape(-1) for x in (e, u, w))
    le, lu = np.floor(e).astype(int), np.floor(u).astype(int)
    ok = (le >= 0) & (le + 1 < width) & (lu >= 0) & (lu + 1 < height) & (w != 0)
    e, u, w, le, lu = (x[ok] for x in (e, u, w, le, lu))
    fe, fu = e - le, u - lu
    for de, we in ((0, 1 - fe), (1, fe)):
        for du, wu in ((0, 1 - fu), (1, fu)):
            np.add.at(img, (height - 1 - (lu + du), le + de), w * we * wu)
    return img


def rotate_east_up(e, u, d):
    """Rotate directions d [..., 3] by u around up, then by e around east."""
    x = np.cos(u) * d[..., 0] - np.sin(u) * d[..., 1]
    y = np.sin(u) * d[..., 0] + np.cos(u) * d[..., 1]
    z = d[..., 2]
    return np.stack([x, np.cos(e) * y - np.sin(e) * z, np.sin(e) * y + np.cos(e) * z], -1)


def reflected(incident, normals):
    return incident - 2 * (incident * normals).sum(-1, keepdims=True) * normals


def receiver_hits(origins, dirs, mags, planes, cylinders, index, res):
    """Dispatch on the global receiver index (flat receivers first). Receivers given with float32-rounded values."""
    if index < len(planes):
        s = planes[index]
        return plane_hits(origins, dirs, mags, s["center"], s["normal"], s["width"], s["height"], *res)
    s = cylinders[index - len(planes)]
    return cylinder_hits(origins, dirs, mags, s["center"], s["normal"], s["axis"], s["radius"], s["height"], s["opening"], *res)


def receiver_point(planes, cylinders, index, fe, fu):
    """World point of the receiver surface; fe, fu in [0, 1] from the bitmap's left and top edge."""
    if index < len(planes):
        s = planes[index]
        return s["center"] + np.array([(0.5 - fe) * s["width"], 0.0, (0.5 - fu) * s["height"]])
    s = cylinders[index - len(planes)]
    phi = (fe - 0.5) * s["opening"]
    v = np.cross(s["axis"], s["normal"])
    return s["center"] + s["radius"] * (math.cos(phi) * s["normal"] + math.sin(phi) * v) + (0.5 - fu) * s["height"] * s["axis"]
