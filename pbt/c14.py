import math

from hypothesis import strategies as st
import numpy as np
import torch

from artist.geometry import coordinates as co

from .core import DEV, Prop, T, close, np64, raises, require, rng
from .gen import fl, seeds

PROP = Prop("C14", "reference points away from equator and Greenwich with offsets in both horizontal directions; angles in all quadrants")

A, B = 6378137.0, 6356752.314245
E2 = (A * A - B * B) / (A * A)


def ecef(lat, lon, h):
    lat, lon = np.radians(lat), np.radians(lon)
    n = A / np.sqrt(1 - E2 * np.sin(lat) ** 2)
    return np.stack([(n + h) * np.cos(lat) * np.cos(lon), (n + h) * np.cos(lat) * np.sin(lon), (n * (1 - E2) + h) * np.sin(lat)], -1)


def exact_enu(points, ref):
    d = ecef(*points.T) - ecef(*ref)
    la, lo = math.radians(ref[0]), math.radians(ref[1])
    R = np.array([[-math.sin(lo), math.cos(lo), 0], [-math.sin(la) * math.cos(lo), -math.sin(la) * math.sin(lo), math.cos(la)],
                  [math.cos(la) * math.cos(lo), math.cos(la) * math.sin(lo), math.sin(la)]])
    return d @ R.T


@st.composite
def geo_case(draw):
    return dict(lat=draw(st.sampled_from([50.913421630859, 0.0, -33.0]) | fl(-72, 72)),
                lon=draw(st.sampled_from([6.387824755874856, 0.0, 180.0, -180.0, 179.9999]) | fl(-180, 180)), alt=draw(fl(-100, 2500)),
                reach=draw(st.sampled_from([10.0, 300.0, 1200.0])), n=draw(st.integers(1, 8)), seed=draw(seeds), f32=draw(st.booleans()))


@PROP.sub("geodetic", geo_case(), quick=500, shards=2)
def geodetic(case, ctx):
    g = rng(case["seed"])
    ref = np.array([case["lat"], case["lon"], case["alt"]])
    la = math.radians(ref[0])
    off = g.uniform(-1, 1, (case["n"], 2)) * case["reach"]
    if g.random() < 0.3:
        off[0] = 0
    pts = np.stack([ref[0] + np.degrees(off[:, 1] / 6.37e6), ref[1] + np.degrees(off[:, 0] / (6.37e6 * math.cos(la))),
                    ref[2] + g.uniform(-150, 150, case["n"])], 1)
    pts[:, 1] = (pts[:, 1] + 180) % 360 - 180
    if not off[0].any():
        pts[0] = ref
    out = co.convert_wgs84_coordinates_to_local_enu(torch.tensor(pts), torch.tensor(ref), device=DEV)
    require(out.dtype == torch.float32, "single precision result")
    x = exact_enu(pts, ref)
    d = np.linalg.norm(x[:, :2], axis=1)
    # the conversion is the documented linearisation: curvature of the earth and of the parallels, and the altitude, are neglected
    tol = d**2 / 6.3e6 * (1 + abs(math.tan(la))) + d * (abs(ref[2]) + 150) / 6.3e6 + 2e-3
    close(out, x, "local coordinates", atol=tol[:, None])
    at = np64(co.convert_wgs84_coordinates_to_local_enu(torch.tensor(ref)[None], torch.tensor(ref), device=DEV))
    close(at, np.zeros((1, 3)), "the reference point itself")
    for k in range(case["n"]):
        one = co.convert_wgs84_coordinates_to_local_enu(torch.tensor(pts[k:k + 1]), torch.tensor(ref), device=DEV)
        close(one[0], np64(out)[k], "coordinate converted alone", atol=1e-4)
    ctx.nontrivial(case["n"] > 1 and case["reach"] > 100 and abs(case["lat"]) > 5)
    ctx.label(f"reach {case['reach']}"); ctx.label("date line" if abs(abs(case["lon"]) - 180) < 0.02 else "inland")


@st.composite
def sun_case(draw):
    n = draw(st.integers(1, 6))
    return dict(az=[draw(st.sampled_from([0.0, 90.0, 180.0, -90.0, 270.0, 360.0]) | fl(-360, 720)) for _ in range(n)],
                el=[draw(st.sampled_from([0.0, 90.0, 45.0]) | fl(-90, 90)) for _ in range(n)], r=draw(st.sampled_from([1.0]) | fl(0.1, 1e4)),
                degree=draw(st.booleans()))


@PROP.sub("sun_angles", sun_case(), quick=400)
def sun_angles(case, ctx):
    az, el = T(case["az"]), T(case["el"])
    if not case["degree"]:
        az, el = torch.deg2rad(az), torch.deg2rad(el)
    kw = dict(slant_range=case["r"]) if case["r"] != 1.0 else {}
    if not case["degree"]:
        kw["degree"] = False
    v = co.azimuth_elevation_to_enu(az, el, device=DEV, **kw)
    a, e = (np.radians(np64(x)) if case["degree"] else np64(x) for x in (az, el))
    # south-based: 0 is south, 90 degrees is east
    ref = case["r"] * np.stack([np.sin(a) * np.cos(e), -np.cos(a) * np.cos(e), np.sin(e)], 1)
    close(v, ref, "direction", atol=3e-6 * case["r"])
    close(np.linalg.norm(np64(v), axis=1), np.full(len(a), case["r"]), "range", atol=2e-6 * case["r"])
    if len(a) > 1:
        raises(lambda: co.azimuth_elevation_to_enu(az, el[:-1], device=DEV), ValueError, "unequal sizes")
    ctx.nontrivial(len(a) > 1 and (np.abs(np.sin(2 * a)) > 0.1).any())


@st.composite
def format_case(draw):
    return dict(shape=draw(st.lists(st.integers(1, 4), min_size=0, max_size=3)), seed=draw(seeds), double=draw(st.booleans()),
                size=draw(st.sampled_from([1, 2, 3, 3, 3, 4])))


@PROP.sub("homogeneous", format_case(), quick=150)
def homogeneous(case, ctx):
    x = torch.tensor(rng(case["seed"]).normal(size=(*case["shape"], case["size"])) * 100, dtype=torch.float64 if case["double"] else torch.float32)
    for f, w in ((co.convert_3d_points_to_4d_format, 1.0), (co.convert_3d_directions_to_4d_format, 0.0)):
        if case["size"] != 3:
            raises(lambda: f(x, device=DEV), ValueError, f"{case['size']} coordinates")
            continue
        y = f(x, device=DEV)
        require(y.dtype == x.dtype and tuple(y.shape) == (*case["shape"], 4), "shape and precision")
        require(torch.equal(y[..., :3], x) and bool((y[..., 3] == w).all()), "coordinates kept, last one marks the kind")
    ctx.nontrivial(case["size"] == 3 and len(case["shape"]) > 1)


@st.composite
def normalize_case(draw):
    return dict(n=draw(st.integers(2, 40)), cols=draw(st.integers(1, 4)), size=draw(st.sampled_from([1e-2, 1.0, 40.0])),
                flat=draw(st.booleans()), shift=draw(fl(-40, 40)), seed=draw(seeds))


@PROP.sub("normalize", normalize_case(), quick=200)
def normalize(case, ctx):
    x = rng(case["seed"]).uniform(-0.5, 0.5, (case["n"], case["cols"])) * case["size"] + case["shift"]
    if case["flat"]:
        x[:, 0] = x[0, 0]
    x = x.astype(np.float32).astype(float)
    y = np64(co.normalize_points(T(x)))
    require(y.shape == x.shape and (y > 0).all() and (y < 1).all(), "values stay inside the open interval")
    lo, span = x.min(0), x.max(0) - x.min(0)
    close(y, (x - lo + 1e-5) / (span + 2e-5), "normalised values", atol=2e-6)
    require(all((np.diff(y[np.argsort(x[:, c]), c]) >= 0).all() for c in range(case["cols"])), "order is kept")
    ctx.nontrivial(case["cols"] > 1 and case["n"] > 2)
