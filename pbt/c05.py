import math

from hypothesis import strategies as st
import numpy as np
import torch

from artist.raytracing import HeliostatRayTracer

from .core import DEV, Prop, T, close, np64, require, rng, same
from .gen import fl, h4, seeds
from .refs import receiver_hits, reflected, rotate_east_up, splat
from .scene import group_spec, receivers, scenario, spec32, sun_direction

PROP = Prop("C05", "at least one ray clearly hits a receiver of some active heliostat (positive reference flux); labels tell "
                   "receiver kinds, repetitions and irradiance used")


@st.composite
def plant(draw, counts=(0, 1, 1, 2), most=4, facets=None, groups=2):
    specs = [draw(group_spec(count=(1, most), facets=facets)) for _ in range(draw(st.integers(1, groups)))]
    r = draw(receivers())
    which = draw(st.integers(0, len(specs) - 1))
    mask = [draw(st.sampled_from(counts)) for _ in specs[which]["positions"]]
    if sum(mask) == 0:
        mask[draw(st.integers(0, len(mask) - 1))] = 1
    n = sum(mask)
    many = len(r["planes"]) + len(r["cylinders"])
    return dict(specs=specs, which=which, mask=mask, **r, index=[draw(st.integers(0, many - 1)) for _ in range(n)],
                inc=[sun_direction(draw) for _ in range(n)], off=[[draw(fl(-3, 3)), 0.0, draw(fl(-3, 3))] for _ in range(n)],
                res=[draw(st.integers(3, 40)), draw(st.integers(3, 40))], rays=draw(st.integers(1, 12)),
                cov=draw(st.sampled_from([1e-10, 4.3681e-6, 1e-4])), seed=draw(seeds))


def prepare(case, world=True):
    """Scenario with the chosen group activated and aligned; returns scenario, group, mask, index, incident."""
    sc = scenario(case["specs"], case["planes"], case["cylinders"], case["rays"], case["cov"])
    g = sc.heliostat_field.heliostat_groups[case["which"]]
    mask, index, inc = torch.tensor(case["mask"]), torch.tensor(case["index"]), T(case["inc"])
    g.activate_heliostats(mask, device=DEV)
    aim = sc.solar_tower.get_centers_of_target_areas(index, device=DEV) + T(h4(np.array(case["off"]), 0))
    g.align_surfaces_with_incident_ray_directions(aim, inc, mask, device=DEV)
    return sc, g, mask, index, inc


def reference(case, sc, g, inc, seed=7, magnitude=1.0, index=None):
    """Flux bitmaps and on-target fractions of the unblocked rays, with error bounds; one entry per sample."""
    planes, cyls = [spec32(s) for s in case["planes"]], [spec32(s) for s in case["cylinders"]]
    pts, nrm = np64(g.active_surface_points)[..., :3], np64(g.active_surface_normals)[..., :3]
    n = pts.shape[0]
    du, de = sc.light_sources.light_source_list[0].get_distortions(number_of_points=pts.shape[1], number_of_active_heliostats=n,
                                                                   random_seed=seed)
    du, de = np64(du), np64(de)
    out = []
    for k in range(n):
        d0 = reflected(np64(inc)[k, :3], nrm[k])
        d = rotate_east_up(de[k], du[k], d0[None])
        h = receiver_hits(pts[k], d, np.full(d.shape[:-1], magnitude), planes, cyls, (index or case["index"])[k], case["res"])
        w = np.where(h["hit"], h["intensity"], 0.0)
        e_rel = h.get("err_cos", 1e-5)
        tol = (w * (4 * (h["err_e"] + h["err_u"]) + 1e-4 + (e_rel / np.maximum(h["intensity"] / magnitude, 1e-3) if
                                                           not np.isscalar(e_rel) else e_rel)))[h["sure"]].sum()
        out.append(dict(image=splat(h["e"], h["u"], np.where(h["sure"], w, 0), *case["res"]), tol=tol + 1e-4 * magnitude,
                        unsure_energy=(~h["sure"]).sum() * magnitude, hits=int((h["hit"] & h["sure"]).sum()),
                        unsure=int((~h["sure"]).sum()), total=w.size, h=h, d=d, pts=pts[k], w=w))
    return out


def check_flux(flux, ref, factor, what):
    for k, r in enumerate(ref):
        diff = np.abs(np64(flux[k]) - r["image"] * factor).sum()
        tol = (r["tol"] + r["unsure_energy"]) * factor + 1e-5
        require(diff <= tol, f"{what} {k}: bitmap differs from the reference by {diff:.5g} of {r['image'].sum() * factor:.5g} "
                             f"(tolerance {tol:.3g})")


def check_fraction(actual, ref, what, count=lambda r: r["hits"]):
    for k, r in enumerate(ref):
        a, c = float(actual[k]), count(r)
        require(c / r["total"] - 1e-5 <= a <= (c + r["unsure"]) / r["total"] + 1e-5,
                f"{what} of sample {k}: {a}, expected {c}..{c + r['unsure']} of {r['total']} rays")


@st.composite
def flux_case(draw):
    dni = draw(st.sampled_from([None, None, 1.0]) | fl(100, 1100))
    c = draw(plant(facets=4 if dni else None))
    if dni:
        c["specs"] = [s | dict(cant=0.0) for s in c["specs"]]
    c |= dict(dni=dni, ext=draw(st.sampled_from([0.0, 0.0, 1.0]) | fl(0, 1)), refl=draw(st.sampled_from([0.935, 1.0, 0.0]) | fl(0, 1)),
              batch=draw(st.sampled_from([100, 1, 2, 3])), rseed=draw(st.sampled_from([7, 0]) | st.integers(0, 10**6)))
    return c


@PROP.sub("flux", flux_case(), quick=240, shards=6)
def flux(case, ctx):
    sc, g, mask, index, inc = prepare(case)
    mag = 1.0
    if case["dni"]:
        # mirror: 2 x 2 facets with a gap of 2 cm in total
        h = case["specs"][case["which"]]["half"]
        mag = case["dni"] * (4 * h[0] + 0.02) * (4 * h[1] + 0.02) / (g.surface_points.shape[1] * case["rays"])
    t = HeliostatRayTracer(sc, g, blocking_active=False, batch_size=case["batch"], random_seed=case["rseed"],
                           bitmap_resolution=torch.tensor(case["res"]), dni=case["dni"])
    out, intercept, on_target, blocking = t.trace_rays(inc, mask, index, ray_extinction_factor=case["ext"],
                                                       mirror_reflectivity=case["refl"], device=DEV)
    W, H = case["res"]
    require(tuple(out.shape) == (sum(case["mask"]), H, W), f"shape of the flux {tuple(out.shape)}")
    ref = reference(case, sc, g, inc, case["rseed"], mag)
    f = (1 - case["ext"]) * case["refl"]
    check_flux(out, ref, f, "flux of sample")
    check_fraction(on_target, ref, "on-target fraction")
    check_fraction(intercept, ref, "intercept fraction", (lambda r: r["hits"]) if f > 0 else (lambda r: 0))
    close(blocking, np.ones(len(ref)), "unblocked fraction without blocking", atol=1e-6)
    ctx.nontrivial(f > 0 and any(r["hits"] for r in ref))
    for i in case["index"]:
        ctx.label("flat receiver" if i < len(case["planes"]) else "cylindrical receiver")
    ctx.label("irradiance" if case["dni"] else "unit rays")
    if max(case["mask"]) > 1:
        ctx.label("repeated heliostat")
    if any(0 < r["hits"] < r["total"] - r["unsure"] for r in ref):
        ctx.label("partial spillage")


@st.composite
def scale_case(draw):
    c = draw(plant(facets=4))
    return c | dict(a=[draw(fl(0, 0.9)), draw(fl(0.1, 1))], b=[draw(fl(0, 0.9)), draw(fl(0.1, 1))], dni=[draw(fl(10, 1000)), draw(fl(10, 1000))])


@PROP.sub("scaling", scale_case(), quick=80, shards=2)
def scaling(case, ctx):
    """Flux is linear in irradiance, reflectivity and 1 - extinction, also for canted mirrors."""
    sc, g, mask, index, inc = prepare(case)
    out = []
    for dni, (ext, refl) in zip(case["dni"], (case["a"], case["b"])):
        t = HeliostatRayTracer(sc, g, blocking_active=False, bitmap_resolution=torch.tensor(case["res"]), dni=dni)
        f, i, o, _ = t.trace_rays(inc, mask, index, ray_extinction_factor=ext, mirror_reflectivity=refl, device=DEV)
        out.append((np64(f) / (dni * (1 - ext) * refl), np64(i), np64(o)))
    m = max(1e-9, np.abs(out[0][0]).max())
    # a mirror's power is shared by all of its rays: the flux per irradiance is that of unit rays times area per ray
    t = HeliostatRayTracer(sc, g, blocking_active=False, bitmap_resolution=torch.tensor(case["res"]))
    unit = np64(t.trace_rays(inc, mask, index, ray_extinction_factor=0.0, mirror_reflectivity=1.0, device=DEV)[0])
    e, n = np.linalg.norm(np64(g.canting[0, 0])[:2, :3], axis=1)
    area = (4 * e + 0.02) * (4 * n + 0.02) / (g.active_surface_points.shape[1] * case["rays"])
    close(out[0][0], unit * area, "flux per irradiance of a mirror of that size", atol=1e-5 * m, rtol=1e-4)
    close(out[1][0], out[0][0], "flux per irradiance, reflectivity and transmission", atol=1e-5 * m, rtol=1e-4)
    close(out[1][1], out[0][1], "intercept fraction")
    close(out[1][2], out[0][2], "on-target fraction")
    ctx.nontrivial(m > 1e-9 and out[0][0].sum() > 0)
