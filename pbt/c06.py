from hypothesis import strategies as st
import numpy as np
import torch

from artist.raytracing import HeliostatRayTracer

from .c05 import plant, prepare, reference
from .core import DEV, Prop, T, close, np64, require, rng, same
from .gen import fl, h4, seeds
from .scene import scenario

PROP = Prop("C06", "at least two active samples and some positive flux; the splitting (batch size, ranks, order) really differs "
                   "from the plain run")


def trace(sc, g, inc, mask, index, res, blocking=False, **kw):
    t = HeliostatRayTracer(sc, g, blocking_active=blocking, bitmap_resolution=torch.tensor(res), **kw)
    return t, t.trace_rays(inc, mask, index, device=DEV)


@st.composite
def split_case(draw):
    blocking = draw(st.sampled_from([False, False, True]))
    c = draw(plant(counts=(0, 1, 1) if blocking else (0, 1, 1, 2, 3), most=6, facets=4 if blocking else None))
    if blocking:
        for s in c["specs"]:
            s |= dict(side=max(2, s["side"]), cant=0.0, bump=0.0)
        if len({s["side"] for s in c["specs"]}) > 1:        # blocking needs one surface sampling for the whole field
            for s in c["specs"]:
                s["side"] = c["specs"][0]["side"]
    return c | dict(blocking=blocking, batch=[draw(st.integers(1, 8)) for _ in range(2)], world=draw(st.integers(1, 8)))


def compare(a, b, what, blocking, m, rays):
    # batches with blocking may differ in far tails of the soft mask
    if blocking:
        d = np.abs(np64(a[0]) - np64(b[0])).sum((1, 2))
        require((d <= 0.02 * (1 + np64(b[0]).sum((1, 2)))).all(), f"{what}: flux differs by {d}")
    else:
        close(a[0], b[0], f"{what}: flux", atol=2e-6 * (1 + m), rtol=1e-5)
    for x, y, n in zip(a[1:], b[1:], ("intercept", "on-target", "blocking")):
        close(x, y, f"{what}: {n} fraction", atol=0.05 if blocking and n != "on-target" else 1e-6)


@PROP.sub("batches_and_ranks", split_case(), quick=160, shards=5)
def batches_and_ranks(case, ctx):
    sc, g, mask, index, inc = prepare(case)
    kw = dict(blocking=case["blocking"])
    _, full = trace(sc, g, inc, mask, index, case["res"], batch_size=1000, **kw)
    m, rays = float(np64(full[0]).max()), 1
    n = int(mask.sum())
    require(all(bool(torch.isfinite(x).all()) for x in full), "not every sample was computed")
    _, again = trace(sc, g, inc, mask, index, case["res"], batch_size=1000, **kw)
    for x, y in zip(full, again):
        same(x, y, "repeated simulation")
    _, b = trace(sc, g, inc, mask, index, case["res"], batch_size=case["batch"][0], **kw)
    compare(b, full, f"batch size {case['batch'][0]}", case["blocking"], m, rays)
    # all ranks together
    owner, parts = {}, [torch.full_like(x, float("nan")) for x in full]
    heliostat = np.repeat(np.arange(len(case["mask"])), case["mask"])
    used = 0
    for r in range(case["world"]):
        t, out = trace(sc, g, inc, mask, index, case["res"], batch_size=case["batch"][1], world_size=case["world"], rank=r, **kw)
        mine = t.get_sampler_indices().long().tolist()
        used += bool(mine)
        for i in mine:
            require(i not in owner, f"sample {i} computed by ranks {owner.get(i)} and {r}")
            owner[i] = r
        for p, o in zip(parts, out):
            require(o.shape[0] == len(mine), f"rank {r}: {o.shape[0]} results for {len(mine)} samples"); p[mine] = o
    require(sorted(owner) == list(range(n)), f"samples computed: {sorted(owner)} of {n}")
    for h in set(heliostat.tolist()):
        require(len({owner[i] for i in np.flatnonzero(heliostat == h).tolist()}) == 1, f"heliostat {h} split over ranks")
    compare(parts, full, f"{case['world']} ranks, batch size {case['batch'][1]}", case["blocking"], m, rays)
    ctx.nontrivial(n > 1 and m > 0 and (used > 1 or min(case["batch"]) < n))
    ctx.label("blocking" if case["blocking"] else "no blocking")
    if used > 1:
        ctx.label("several ranks busy")
    if max(case["mask"]) > 1:
        ctx.label("repeated heliostat")


@st.composite
def packed_case(draw):
    from .c10 import dense_field
    c = draw(dense_field())
    return c | dict(batch=draw(st.integers(1, 3)), world=draw(st.integers(1, 5)))


@PROP.sub("packed_field", packed_case(), quick=100, shards=3)
def packed_field(case, ctx):
    """Mirrors that shade each other: batches and ranks still give what one batch gives."""
    from .c10 import set_up
    sc = set_up(case)
    g = sc.heliostat_field.heliostat_groups[case["which"]]
    mask = torch.tensor(case["masks"][case["which"]])
    n = int(mask.sum())
    inc, index = T(case["inc"]).expand(n, 4), torch.tensor(case["index"])
    t, full = trace(sc, g, inc, mask, index, case["res"], blocking=True, batch_size=100)
    rays = case["rays"] * g.surface_points.shape[1]

    def compare(part, what):
        # the candidates of a batch are those of its rays: a ray grazing a rim may see a candidate of another ray
        for a, b, name in zip(part[1:], full[1:], ("intercept", "on-target", "blocking")):
            d = np.abs(np64(a) - np64(b))
            require((d <= (1e-6 if name == "on-target" else 0.04 + 1.5 / rays)).all(), f"{what}: {name} fraction differs by {d.max()}")
        d, s = np.abs(np64(part[0]) - np64(full[0])).sum((1, 2)), np64(full[0]).sum((1, 2))
        require((d <= 0.04 * rays + 1.5).all(), f"{what}: flux of {s} differs by {d}")
        return d.max() / rays

    compare(trace(sc, g, inc, mask, index, case["res"], blocking=True, batch_size=case["batch"])[1], f"batch size {case['batch']}")
    parts = [torch.full_like(x, float("nan")) for x in full]
    for r in range(case["world"]):
        t, out = trace(sc, g, inc, mask, index, case["res"], blocking=True, batch_size=case["batch"], world_size=case["world"], rank=r)
        mine = t.get_sampler_indices().long().tolist()
        for p, o in zip(parts, out):
            require(o.shape[0] == len(mine), f"rank {r}: {o.shape[0]} results for {len(mine)} samples"); p[mine] = o
    compare(parts, f"{case['world']} ranks")
    ctx.nontrivial(n > 1 and float(full[3].min()) < 1 and float(full[0].sum()) > 0)


@st.composite
def alone_case(draw):
    c = draw(plant(counts=(0, 1, 2), most=5, groups=1))
    n = len(c["mask"])
    return c | dict(cov=1e-14, pick=draw(st.integers(0, sum(c["mask"]) - 1)), perm=draw(st.permutations(list(range(n)))))


@PROP.sub("alone", alone_case(), quick=150, shards=2)
def alone(case, ctx):
    """With a point-like sun (no scatter), a sample gives the same flux alone, repeated, and with heliostats reordered."""
    sc, g, mask, index, inc = prepare(case)
    k = case["pick"]
    h = int(np.repeat(np.arange(len(case["mask"])), case["mask"])[k])
    _, full = trace(sc, g, inc, mask, index, case["res"])
    aligned = g.active_surface_points[k].clone(), g.active_surface_normals[k].clone()
    single = [0] * len(case["mask"])
    single[h] = 1
    m2, one = torch.tensor(single), slice(k, k + 1)

    def align(group, mask2, rows):
        group.activate_heliostats(mask2, device=DEV)
        aim = sc.solar_tower.get_centers_of_target_areas(index[rows], device=DEV) + T(h4(np.array(case["off"]), 0))[rows]
        group.align_surfaces_with_incident_ray_directions(aim, inc[rows], mask2, device=DEV)

    def put(group, row):
        # the alignment iterates until the worst sample of a batch converges; take over the pose to compare tracing alone
        d = float((group.active_surface_points[row] - aligned[0]).abs().max())
        require(d < 0.02, f"pose of the heliostat differs by {d} m")
        group.active_surface_points = group.active_surface_points.clone()
        group.active_surface_normals = group.active_surface_normals.clone()
        group.active_surface_points[row], group.active_surface_normals[row] = aligned

    align(g, m2, one)
    put(g, 0)
    _, a = trace(sc, g, inc[one], m2, index[one], case["res"])
    m = float(full[0][k].sum())
    # rounding moves rays by a little: the tolerance comes from the reference tracer, rays at a rim are not judged
    bound = reference(case, sc, g, inc[one], index=[case["index"][k]])[0]
    tol = 2 * (bound["tol"] + bound["unsure_energy"]) + 1e-4 * (1 + m)

    def cmp(x, what):
        d = float((x[0] - full[0][k]).abs().sum())
        require(d <= tol, f"{what}: flux differs by {d} of {m} (tolerance {tol:.3g})")
        require(abs(float(x[2] - full[2][k])) <= bound["unsure"] / bound["total"] + 1e-5, f"{what}: on-target fraction differs")

    cmp([x[0] for x in a], "computed alone")
    # reordered field
    p = case["perm"]
    inv = np.argsort(p)
    from .scene import group_arrays, group as make
    spec = case["specs"][0]
    arr = group_arrays(spec)
    arr2 = {n: (v[p] if v.shape and v.shape[0] == len(p) else v) for n, v in arr.items()}
    g2 = make(spec, prefix="g0_", **arr2)
    sc.heliostat_field.heliostat_groups[0] = g2
    mask2 = torch.tensor([case["mask"][i] for i in p])
    old_rows = {}
    start = 0
    for i, c in enumerate(case["mask"]):
        old_rows[i] = list(range(start, start + c)); start += c
    rows = torch.tensor([r for i in p for r in old_rows[i]])
    align(g2, mask2, rows)
    row = rows.tolist().index(k)
    put(g2, row)
    _, b = trace(sc, g2, inc[rows], mask2, index[rows], case["res"])
    cmp([x[row] for x in b], "heliostats reordered")
    ctx.nontrivial(sum(case["mask"]) > 1 and m > 0)


@st.composite
def history_case(draw):
    c = draw(plant(counts=(0, 1, 1, 2), most=3))
    return c | dict(steps=draw(st.lists(st.sampled_from(["rng", "same", "ranks", "other_mask", "dni", "blocking"]), min_size=1, max_size=4)),
                    draws=draw(seeds))


@PROP.sub("history", history_case(), quick=80, shards=2)
def history(case, ctx):
    """Earlier simulations and the global random state do not change a simulation."""
    sc, g, mask, index, inc = prepare(case)
    t, first = trace(sc, g, inc, mask, index, case["res"])
    for step in case["steps"]:
        if step == "rng":
            torch.manual_seed(case["draws"])
        elif step == "same":
            t.trace_rays(inc, mask, index, device=DEV)
        elif step == "ranks":
            trace(sc, g, inc, mask, index, case["res"], world_size=3, rank=1, random_seed=3)
        elif step == "other_mask":
            g.activate_heliostats(torch.ones_like(mask), device=DEV)
            i2, n2 = torch.zeros(len(mask), dtype=torch.long), inc[:1].expand(len(mask), 4)
            g.align_surfaces_with_incident_ray_directions(sc.solar_tower.get_centers_of_target_areas(i2, device=DEV), n2,
                                                          torch.ones_like(mask), device=DEV)
            trace(sc, g, n2, torch.ones_like(mask), i2, [5, 4])
            g.activate_heliostats(mask, device=DEV)
            aim = sc.solar_tower.get_centers_of_target_areas(index, device=DEV) + T(h4(np.array(case["off"]), 0))
            g.align_surfaces_with_incident_ray_directions(aim, inc, mask, device=DEV)
            t = HeliostatRayTracer(sc, g, blocking_active=False, bitmap_resolution=torch.tensor(case["res"]))
        elif step == "dni":
            trace(sc, g, inc, mask, index, [7, 7], dni=500.0)
        elif step == "blocking" and max(case["mask"]) == 1 and len(case["specs"]) == 1 and case["specs"][0]["facets"] == 4 \
                and case["specs"][0]["side"] > 1:
            trace(sc, g, inc, mask, index, [7, 7], blocking=True)
    _, last = trace(sc, g, inc, mask, index, case["res"])
    again = t.trace_rays(inc, mask, index, device=DEV)
    for x, y, z in zip(first, last, again):
        same(y, x, "same simulation later")
        same(z, x, "same tracer later")
    ctx.nontrivial(float(first[0].sum()) > 0 and len(case["steps"]) > 0)
