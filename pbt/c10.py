import math

from hypothesis import strategies as st
import numpy as np
import torch

from artist.raytracing import HeliostatRayTracer

from .blockref import crossings, mirror_corners
from .c05 import reference
from .core import DEV, Prop, T, close, np64, require, rng, same
from .gen import fl, h4, seeds
from .refs import splat
from .scene import field_cylinder, scenario, sun_direction

PROP = Prop("C10", "some ray that hits its receiver is surely intercepted by another mirror and some ray is surely not",
            assumptions=["Active heliostats of every group are aligned before tracing (the tracer documents horizontal blocking "
                         "planes for groups without activation).",
                         "Each heliostat is activated at most once per group when blocking is on, and the whole field has one "
                         "surface sampling (2 x 2 facets): the blocking planes are built that way."])


@st.composite
def dense_field(draw):
    """Closely packed rows seen from a low receiver, split into one to three groups."""
    n = draw(st.integers(2, 9))
    half = [draw(fl(0.6, 1.6)), draw(fl(0.6, 1.4))]
    gap = draw(fl(2 * max(half) * 1.05, 9.0))
    g = draw(seeds)
    cols = draw(st.integers(1, 3))
    pos = []
    for i in range(n):
        r, c = divmod(i, cols)
        pos.append([(c - (cols - 1) / 2) * max(gap, 5.0) + 0.37 * (r % 2), 25 + r * gap, 0.3 * (i % 3)])
    order = draw(st.permutations(list(range(n))))
    pos = [pos[i] for i in order]
    groups = draw(st.integers(1, min(3, n)))
    cuts = sorted(draw(st.lists(st.integers(1, n - 1), min_size=groups - 1, max_size=groups - 1, unique=True))) if groups > 1 else []
    parts = [pos[a:b] for a, b in zip([0] + cuts, cuts + [n])]
    side, cant = draw(st.integers(2, 3)), draw(st.sampled_from([0.0, 0.0, 0.002]))
    specs = [dict(kind=draw(st.sampled_from(["ideal", "linear"])), positions=p, half=half, facets=4, side=side, cant=cant, bump=0.0,
                  deviation=draw(st.sampled_from([0.0, 1.0])), seed=g + i) for i, p in enumerate(parts)]
    z = draw(fl(4, 30))
    plane = dict(kind="planar", center=[draw(fl(-3, 3)), 0.0, z], normal=[0.0, 1.0, 0.0], width=draw(fl(3, 10)), height=draw(fl(3, 10)))
    cyl = draw(field_cylinder())
    cyl["center"][2] = z
    masks = [[draw(st.sampled_from([0, 1, 1])) for _ in p] for p in parts]
    which = draw(st.integers(0, groups - 1))
    if sum(masks[which]) == 0:
        masks[which][draw(st.integers(0, len(parts[which]) - 1))] = 1
    idx = [[draw(st.sampled_from([0, 0, 1])) for _ in range(sum(m))] for m in masks]
    return dict(specs=specs, planes=[plane], cylinders=[cyl], masks=masks, which=which, indices=idx, index=idx[which], inc=sun_direction(draw),
                res=[draw(st.integers(4, 24)), draw(st.integers(4, 24))], rays=draw(st.integers(1, 4)), cov=4.3681e-6,
                batch=draw(st.sampled_from([100, 100, 1, 2])))


def set_up(case):
    sc = scenario(case["specs"], case["planes"], case["cylinders"], case["rays"], case["cov"])
    for g, m, i in zip(sc.heliostat_field.heliostat_groups, case["masks"], case["indices"]):
        mask = torch.tensor(m)
        g.activate_heliostats(mask, device=DEV)
        if sum(m):
            g.align_surfaces_with_incident_ray_directions(sc.solar_tower.get_centers_of_target_areas(torch.tensor(i), device=DEV),
                                                          T(case["inc"]).expand(sum(m), 4), mask, device=DEV)
    return sc


def trace(sc, case, blocking, which=None, **kw):
    w = case["which"] if which is None else which
    g = sc.heliostat_field.heliostat_groups[w]
    m = torch.tensor(case["masks"][w])
    t = HeliostatRayTracer(sc, g, blocking_active=blocking, batch_size=case["batch"], bitmap_resolution=torch.tensor(case["res"]), **kw)
    return t.trace_rays(T(case["inc"]).expand(int(m.sum()), 4), m, torch.tensor(case["indices"][w]), device=DEV)


def field_corners(sc, case):
    """Corners of every mirror of the field as it stands: aligned when active, horizontal otherwise."""
    out = []
    for spec, g, m in zip(case["specs"], sc.heliostat_field.heliostat_groups, case["masks"]):
        k = 0
        for h, on in enumerate(m):
            if on:
                p = np64(g.active_surface_points[k])[:, :3]
                k += 1
            else:
                p = np64(g.surface_points[h])[:, :3] + np64(g.positions[h])[:3]
            out.append(mirror_corners(p, spec["side"]))
    return np.stack(out)


@PROP.sub("flux", dense_field(), quick=300, shards=6)
def flux(case, ctx):
    sc = set_up(case)
    w = case["which"]
    g = sc.heliostat_field.heliostat_groups[w]
    base = [x.surface_points.clone() for x in sc.heliostat_field.heliostat_groups]
    out, intercept, on_target, clear_frac = trace(sc, case, True)
    for x, y in zip(sc.heliostat_field.heliostat_groups, base):
        same(x.surface_points, y, "stored surface points after tracing")
    plain, _, plain_on, _ = trace(sc, case, False)
    require(bool((out <= plain + 1e-4 * (1 + plain.max())).all()), "blocking increases the flux")
    close(on_target, plain_on, "on-target fraction with blocking")
    n = out.shape[0]
    ref = reference(case, sc, g, T(case["inc"]).expand(n, 4))
    C = field_corners(sc, case)
    first = sum(len(m) for m in case["masks"][:w])
    mine = [first + i for i, on in enumerate(case["masks"][w]) if on]
    any_block = any_free = False
    for k, r in enumerate(ref):
        R, P = r["d"].shape[:2]
        o = np.broadcast_to(r["pts"][None], (R, P, 3)).reshape(-1, 3)
        h = r["h"]
        hit, sure = h["hit"].reshape(-1), h["sure"].reshape(-1)
        t = np.where(hit, np.broadcast_to(h["distance"], (R, P)).reshape(-1), 0.0)
        others = np.arange(len(C)) != mine[k]
        x, c = crossings(o, r["d"].reshape(-1, 3), C[others], t)
        blocked, free = x.any(1) & hit, c.all(1) | ~hit
        wgt = r["w"].reshape(-1)
        known = sure & (blocked | free)
        img = splat(h["e"].reshape(-1), h["u"].reshape(-1), np.where(known & free, wgt, 0), *case["res"])
        unknown = np.where(~sure, 1.0, np.where(blocked | free, 0, wgt)).sum()
        diff = np.abs(np64(out[k]) - 0.935 * img).sum()
        tol = 0.935 * (r["tol"] + unknown) + 1e-3 * (1 + wgt.sum())
        require(diff <= tol, f"flux of sample {k} (mirror {mine[k]}) differs from the reference by {diff:.4g} of {img.sum() * 0.935:.4g}, "
                             f"without blocking {wgt.sum() * 0.935:.4g} (tolerance {tol:.3g}); blocked by {np.flatnonzero(others)[x[hit].any(0)].tolist()}")
        # fractions; a blocked ray keeps a tiny positive intensity, so the intercept fraction is only bounded
        surely_blocked, maybe = (blocked & sure).sum(), (~sure | (hit & ~blocked & ~free)).sum()
        f = float(clear_frac[k])
        require(1 - (surely_blocked + maybe) / wgt.size - 1e-5 <= f <= 1 - surely_blocked / wgt.size + 1e-5,
                f"unblocked fraction of sample {k}: {f}, blocked rays {surely_blocked}..{surely_blocked + maybe} of {wgt.size}")
        require(float(intercept[k]) <= float(on_target[k]) + 1e-6, "intercept fraction exceeds the on-target fraction")
        require(float(intercept[k]) >= ((hit & sure & free).sum()) / wgt.size - 1e-5, "intercept fraction misses unblocked rays")
        any_block |= bool((blocked & sure).any())
        any_free |= bool((free & hit & sure).any())
        for i in np.flatnonzero(others)[x[hit].any(0)] if hit.any() else []:
            inside = first <= i < first + len(case["masks"][w])
            ctx.label("blocked by own group" if inside else "blocked by another group")
    ctx.nontrivial(any_block and any_free)


@st.composite
def more_case(draw):
    c = draw(dense_field())
    w = c["which"]
    return c | dict(extra=[draw(fl(-8, 8)), draw(fl(8, 24)), draw(fl(0, 4))], into=draw(st.integers(0, len(c["specs"]))))


@PROP.sub("more_mirrors", more_case(), quick=120, shards=3)
def more_mirrors(case, ctx):
    """Adding an inactive mirror anywhere in the field never increases any flux."""
    before = trace(set_up(case), case, True)[0]
    c = {k: (list(v) if isinstance(v, list) else v) for k, v in case.items()}
    into = case["into"]
    if into == len(c["specs"]):
        c["specs"] = c["specs"] + [dict(c["specs"][0], positions=[case["extra"]], seed=3)]
        c["masks"] = c["masks"] + [[0]]
        c["indices"] = c["indices"] + [[]]
    else:
        # deviations are drawn per group: switch them off so that the other mirrors stay the same
        for s in c["specs"]:
            s["deviation"], s["kind"] = 0.0, "ideal"
        before = trace(set_up(c), c, True)[0]
        spec = dict(c["specs"][into])
        spec["positions"] = spec["positions"] + [case["extra"]]
        c["specs"][into] = spec
        c["masks"][into] = c["masks"][into] + [0]
    after = trace(set_up(c), c, True)[0]
    require(bool((after <= before + 1e-3 * (1 + before.max())).all()), "an additional mirror increases the flux")
    ctx.nontrivial(float(before.sum()) > 0)
    if float(after.sum()) < 0.999 * float(before.sum()):
        ctx.label("the additional mirror blocks")
