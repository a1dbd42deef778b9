from hypothesis import strategies as st
import numpy as np
import torch

from artist.flux.bitmap import get_center_of_mass
from artist.geometry.coordinates import bitmap_coordinates_to_target_coordinates
from artist.raytracing import HeliostatRayTracer
from artist.raytracing.geometry import line_cylinder_intersections, line_plane_intersections
from artist.scene.rays import Rays

from .core import DEV, Prop, T, close, np64, require, rng
from .gen import fl, h4, seeds, unit
from .refs import receiver_point
from .scene import cylinder_spec, planar_spec, scenario, spec32, tower

PROP = Prop("C03", "at least one coordinate off the bitmap centre on a non-square or non-unit receiver; for the loop with the "
                   "ray tracer, at least one clear hit")


@st.composite
def mix(draw):
    planes = draw(st.lists(planar_spec(tilted=False), min_size=1, max_size=3))
    cyls = draw(st.lists(cylinder_spec(), min_size=1, max_size=3))
    n = draw(st.integers(1, 6))
    return dict(planes=planes, cylinders=cyls, index=[draw(st.integers(0, len(planes) + len(cyls) - 1)) for _ in range(n)],
                res=[draw(st.integers(2, 100)), draw(st.integers(2, 100))],
                frac=[[draw(st.sampled_from([0.0, 1.0, 0.5]) | fl(0, 1)), draw(st.sampled_from([0.0, 1.0]) | fl(0, 1))] for _ in range(n)],
                seed=draw(seeds))


def setup(case):
    planes, cyls = [spec32(s) for s in case["planes"]], [spec32(s) for s in case["cylinders"]]
    W, H = case["res"]
    coords = np.array(case["frac"]) * [W - 1, H - 1]
    c32 = T(coords)
    world = bitmap_coordinates_to_target_coordinates(c32, torch.tensor(case["res"]), tower(case["planes"], case["cylinders"]),
                                                     torch.tensor(case["index"]), device=DEV)
    return planes, cyls, np64(c32), world


@PROP.sub("surface_point", mix(), quick=700)
def surface_point(case, ctx):
    planes, cyls, coords, world = setup(case)
    W, H = case["res"]
    ref = [receiver_point(planes, cyls, i, (c[0] + 0.5) / W, (c[1] + 0.5) / H) for i, c in zip(case["index"], coords)]
    close(world, h4(np.array(ref), 1), "world point", atol=3e-5, rtol=1e-6)
    ctx.nontrivial(any(f != [0.5, 0.5] for f in case["frac"]))
    kinds = {i < len(planes) for i in case["index"]}
    ctx.label("mixed" if len(kinds) == 2 else "flat only" if True in kinds else "cylindrical only")


@PROP.sub("centre", mix(), quick=250)
def centre(case, ctx):
    tw = tower(case["planes"], case["cylinders"])
    planes, cyls = [spec32(s) for s in case["planes"]], [spec32(s) for s in case["cylinders"]]
    c = tw.get_centers_of_target_areas(torch.tensor(case["index"]), device=DEV)
    close(c, h4(np.array([receiver_point(planes, cyls, i, 0.5, 0.5) for i in case["index"]]), 1), "receiver centre", atol=3e-5)
    W, H = case["res"]
    mid = T([[(W - 1) / 2, (H - 1) / 2]] * len(case["index"]))
    back = bitmap_coordinates_to_target_coordinates(mid, torch.tensor(case["res"]), tw, torch.tensor(case["index"]), device=DEV)
    close(back, c, "world point of the bitmap centre", atol=5e-5)
    names = [n for a in tw.target_areas for n in a.names]
    for k, n in enumerate(names):
        require(tw.target_name_to_index[n] == k, "receiver name and index")
        area, local = tw.index_to_target_area[k]
        require(area.names[local] == n, "receiver index and name")
    ctx.nontrivial(len(set(case["index"])) > 1 or case["index"][0] > 0)


@PROP.sub("loop", mix(), quick=600, shards=2)
def loop(case, ctx):
    """A ray towards the world point of a pixel is reported at that pixel by the ray tracing geometry."""
    planes, cyls, coords, world = setup(case)
    g = rng(case["seed"])
    W, H = case["res"]
    tw = tower(case["planes"], case["cylinders"])
    hits = 0
    for k, i in enumerate(case["index"]):
        p = np64(world)[k, :3]
        flat = i < len(planes)
        s = planes[i] if flat else cyls[i - len(planes)]
        if flat:
            n = s["normal"]
        else:
            r = p - s["center"]
            n = unit(r - (r @ s["axis"]) * s["axis"])
        o = p + (n + 0.6 * unit(g.normal(size=3))) * (3 + 40 * g.random())
        d = unit(p - o)
        m = 0.5 + g.random()
        fn, area, local = ((line_plane_intersections, 0, i) if flat else (line_cylinder_intersections, 1, i - len(planes)))
        e, u, dist, inten = fn(Rays(T(h4(d, 0))[None, None, None], torch.full((1, 1, 1), m)), T(h4(o, 1))[None, None],
                               tw.target_areas[area], torch.tensor([local]), torch.tensor(case["res"]), device=DEV)
        f = (coords[k] + 0.5) / [W, H]
        size = [s["width"], s["height"]] if flat else [s["radius"] * s["opening"], s["height"]]
        margin = min(min(f[0], 1 - f[0]) * size[0], min(f[1], 1 - f[1]) * size[1])
        if margin < 0.01:
            continue        # too close to the receiver's edge for float32
        hits += 1
        close(inten.reshape(()), m * abs(d @ n), f"sample {k}: intensity", atol=3e-3)
        close(dist.reshape(()), np.linalg.norm(p - o), f"sample {k}: distance", atol=5e-3)
        tol = 3e-3 / np.array(size) * [W, H] + 1e-3
        require(abs(float(e) - coords[k][0]) <= 0.5 + tol[0], f"sample {k}: traced to column {float(e)}, expected {coords[k][0]}")
        require(abs(H - 1 - float(u) - coords[k][1]) <= 0.5 + tol[1], f"sample {k}: traced to row {H - 1 - float(u)}, expected {coords[k][1]}")
    ctx.nontrivial(hits)


@st.composite
def beam_case(draw):
    c = draw(mix())
    c["index"] = c["index"][:1]
    c["frac"] = [[draw(fl(0.2, 0.8)), draw(fl(0.2, 0.8))]]
    c["res"] = [draw(st.integers(8, 60)), draw(st.integers(8, 60))]
    return c


@PROP.sub("focal_spot", beam_case(), quick=120)
def focal_spot(case, ctx):
    """Splatting a beam that hits one point, then centre of mass, then world coordinates leads back to that point."""
    planes, cyls, coords, world = setup(case)
    W, H = case["res"]
    i = case["index"][0]
    flat = i < len(planes)
    s = planes[i] if flat else cyls[i - len(planes)]
    p = np64(world)[0, :3]
    r = p - s["center"]
    n = s["normal"] if flat else unit(r - (r @ s["axis"]) * s["axis"])
    sc = scenario([dict(kind="ideal", positions=[[0, 50, 0]], half=[1, 1], facets=1, side=1, cant=0.0, bump=0.0, deviation=0.0,
                        seed=1)], case["planes"], case["cylinders"], rays=1, covariance=1e-12)
    grp = sc.heliostat_field.heliostat_groups[0]
    mask = torch.tensor([1])
    grp.activate_heliostats(mask, device=DEV)
    o = p + 20 * n
    # put the mirror point in front of the hit point, mirror normal and sunlight such that the beam goes to the point
    d = unit(p - o)
    inc = -n
    nm = unit(d - inc) if np.linalg.norm(d - inc) > 1e-6 else unit(np.cross(d, [0.3, 0.5, 0.81]))
    grp.active_surface_points = T(h4(o, 1))[None, None]
    grp.active_surface_normals = T(h4(nm, 0))[None, None]
    tracer = HeliostatRayTracer(sc, grp, blocking_active=False, bitmap_resolution=torch.tensor(case["res"]))
    flux, _, hit, _ = tracer.trace_rays(T(h4(inc, 0))[None], mask, torch.tensor([i]), device=DEV)
    require(float(hit[0]) == 1.0, "the beam misses the receiver")
    com = get_center_of_mass(flux, device=DEV)
    back = bitmap_coordinates_to_target_coordinates(com, torch.tensor(case["res"]), tower(case["planes"], case["cylinders"]),
                                                    torch.tensor([i]), device=DEV)
    pixel = np.hypot(s["width"] / W, s["height"] / H) if flat else np.hypot(s["radius"] * s["opening"] / W, s["height"] / H)
    require(np.linalg.norm(np64(back)[0, :3] - p) <= 0.75 * pixel + 0.05, f"focal spot {np64(back)[0, :3]} instead of {p}")
    ctx.nontrivial()
    ctx.label("flat" if flat else "cylindrical")
