"""The whole chain from the sun to the bitmap respects the symmetries of a power plant."""
import copy, itertools, math

from hypothesis import strategies as st
import numpy as np
import torch

import artist.raytracing  # noqa: F401
from artist.raytracing import HeliostatRayTracer

from . import opt
from .c10 import dense_field
from .core import DEV, Prop, T, close, np64, require, rng
from .gen import fl, h4, seeds
from .scene import field_cylinder, field_plane, group_arrays, group_spec, sun_direction

PROP = Prop("C35", "two or more heliostats of which some lose rays beside the receivers or at other mirrors, and light on a receiver",
            assumptions=["Rays within 0.1 mm of the rim of a mirror or within 1e-4 of the size of a receiver from its border take no part.",
                         "Scatter is switched off where the numbers of the rays change with the order of the heliostats.",
                         "Bitmaps of flat receivers are spanned by east and up, so the plant is turned with cylinders only."])
LENGTHS = ("positions", "surface_points", "canting", "facet_translations", "nurbs_control_points", "kinematics_translation_deviation_parameters")


@st.composite
def plants(draw, deviations=True, kinds=("ideal", "linear"), blocking=None):
    """Up to three groups of mirrors with their aims and sun."""
    blocked = draw(st.booleans()) if blocking is None else blocking
    if blocked:
        case = draw(dense_field())
        specs = [s | dict(kind=s["kind"] if s["kind"] in kinds else kinds[0], deviation=s["deviation"] * deviations) for s in case["specs"]]
        planes, cylinders = case["planes"], case["cylinders"]
    else:
        facets, side = draw(st.sampled_from([1, 4])), draw(st.integers(1, 3))
        specs = [draw(group_spec(count=(1, 4), kinds=kinds, deviations=deviations, facets=facets, side=side)) for _ in range(draw(st.integers(1, 3)))]
        planes, cylinders = [draw(field_plane()) for _ in range(draw(st.integers(1, 2)))], [draw(field_cylinder()) for _ in range(draw(st.integers(1, 2)))]
    many = len(planes) + len(cylinders)
    n = [len(s["positions"]) for s in specs]
    on = [[True if blocked else draw(st.sampled_from([True, True, False])) for _ in range(k)] for k in n]
    on[0][0] = True
    sun = sun_direction(draw)
    return dict(specs=specs, planes=planes, cylinders=cylinders, blocking=blocked, on=on, index=[[draw(st.integers(0, many - 1)) for _ in range(k)] for k in n],
                off=[[[draw(fl(-1, 1)), 0.0, draw(fl(-1, 1))] for _ in range(k)] for k in n], inc=sun, res=[draw(st.integers(3, 20)), draw(st.integers(3, 20))],
                rays=draw(st.integers(1, 4)), cov=draw(st.sampled_from([1e-16, 4.3681e-6])), batch=draw(st.sampled_from([100, 1, 2])), seed=draw(seeds))


def numbers(case):
    """Everything as numbers: arrays per group, samples per heliostat (None: not active)."""
    case = copy.deepcopy(case)
    case["arrays"] = [group_arrays(s) for s in case["specs"]]
    for k, a in enumerate(case["arrays"]):
        a["names"] = [f"h{k}_{i}" for i in range(len(a["positions"]))]
    return case


def simulate(c):
    """Per heliostat (in the order of the groups): bitmap, three fractions, motor positions."""
    specs = [dict(s, names=a["names"]) for s, a in zip(c["specs"], c["arrays"])]
    sc = opt.plant([{k: v for k, v in a.items() if k != "names"} for a in c["arrays"]], specs, c["planes"], c["cylinders"], c["rays"], c["cov"])
    groups = sc.heliostat_field.heliostat_groups
    with torch.no_grad():
        work = []
        for g, on, index, off in zip(groups, c["on"], c["index"], c["off"]):
            mask = torch.tensor([int(x) for x in on], dtype=torch.int32)
            at = torch.tensor([i for i, x in zip(index, on) if x], dtype=torch.int64)
            inc = T(c["inc"]).expand(len(at), 4)
            if len(at):
                aim = sc.solar_tower.get_centers_of_target_areas(at, device=DEV) + T(h4(np.array([o for o, x in zip(off, on) if x]), 0))
                g.activate_heliostats(mask, device=DEV)
                g.align_surfaces_with_incident_ray_directions(aim, inc, mask, device=DEV)
            work.append((g, mask, at, inc))
        out = []
        for g, mask, at, inc in work:
            if len(at) == 0:
                out += [None] * len(mask)
                continue
            tracer = HeliostatRayTracer(sc, g, blocking_active=c["blocking"], batch_size=c["batch"], bitmap_resolution=torch.tensor(c["res"]))
            traced = [np64(x) for x in tracer.trace_rays(inc, mask, at, device=DEV)]
            rows = iter(zip(*traced, np64(g.kinematics.active_motor_positions)))
            out += [next(rows) if x else None for x in mask]
    return out


def stack(results, k=0):
    return np.stack([r[k] for r in results if r is not None])


def uncertainty(c, base):
    """Bitmap sums that depend on the last digits: rays at borders of receivers and rims of mirrors."""
    g, out = rng(c["seed"]), 0.0
    for size, opening, way in itertools.product((1, -1), repeat=3):
        d = copy.deepcopy(c)
        for r in d["planes"] + d["cylinders"]:
            for k, sign in (("width", size), ("height", size), ("radius", size), ("opening", opening)):
                if k in r:
                    r[k] *= 1 + sign * 1e-4
        for a in d["arrays"]:
            a["positions"] = a["positions"] + way * g.uniform(-1e-4, 1e-4, (len(a["positions"]), 4)) * [1, 1, 1, 0]
        out = out + np.abs(stack(simulate(d)) - base).sum((1, 2))
    return out


def agree(case, ctx, c, base, other, what):
    """Bitmaps of two plants that must be the same (mirrored or reordered before)."""
    a, b = stack(base), stack(other)
    diff = np.abs(a - b).sum((1, 2))
    linear = any(s["kind"] == "linear" for s in case["specs"])
    share = (5e-2 if linear else 5e-3) * np.maximum(a.sum((1, 2)), b.sum((1, 2))) + 1e-3
    if (diff > share).any():
        share = share + 3 * uncertainty(c, a)
    k = int(np.argmax(diff - share))
    require(bool((diff <= share).all()), f"{what}: the bitmap of sample {k} changes by {diff[k]:.4g} of {a[k].sum():.4g} (tolerance {share[k]:.3g})")
    on, clear = stack(base, 2), stack(base, 3)
    ctx.nontrivial(len(a) > 1 and a.sum() > 0 and bool((on < 1).any() or (clear < 1).any()))
    ctx.label("blocking" if c["blocking"] else "no blocking")
    ctx.label("some rays blocked" if (clear < 1).any() else "no ray blocked")
    ctx.label("on receivers" if a.sum() > 0 else "dark")


@st.composite
def moved_case(draw):
    return draw(plants()) | dict(shift=[draw(fl(-40, 40)), draw(fl(-40, 40)), draw(fl(-20, 20))])


@PROP.sub("translated", moved_case(), quick=100, shards=2)
def translated(case, ctx):
    """The place of the plant does not matter."""
    c = numbers(case)
    d = copy.deepcopy(c)
    for a in d["arrays"]:
        a["positions"][:, :3] += case["shift"]
    for r in d["planes"] + d["cylinders"]:
        r["center"] = (np.array(r["center"]) + case["shift"]).tolist()
    agree(case, ctx, c, simulate(c), simulate(d), f"plant moved by {case['shift']}")


@st.composite
def scaled_case(draw):
    return draw(plants(kinds=("ideal",), blocking=False)) | dict(size=draw(st.sampled_from([0.5, 2.0]) | fl(0.4, 3.0)))


@PROP.sub("scaled", scaled_case(), quick=80, shards=2)
def scaled(case, ctx):
    """A model of the plant at another scale gives the same bitmaps."""
    c, s = numbers(case), case["size"]
    d = copy.deepcopy(c)
    for a in d["arrays"]:
        for k in LENGTHS:
            a[k] = a[k] * s if a[k].shape[-1] != 4 else a[k] * [s, s, s, 1]
    for r in d["planes"] + d["cylinders"]:
        r["center"] = [x * s for x in r["center"]]
        for k in ("width", "height", "radius"):
            if k in r:
                r[k] *= s
    d["off"] = [[[x * s for x in o] for o in g] for g in d["off"]]
    base, other = simulate(c), simulate(d)
    agree(case, ctx, c, base, other, f"plant at scale {s}")
    close(stack(other, 4), stack(base, 4), "motor positions of the plant at another scale", atol=1e-3)


FLIP = np.array([-1.0, 1, 1, 1])


@PROP.sub("mirrored", plants(deviations=False, kinds=("ideal",), blocking=False), quick=80, shards=2)
def mirrored(case, ctx):
    """The mirror image of the plant has the mirror images of the bitmaps."""
    c = numbers(case) | dict(cov=1e-16)
    d = copy.deepcopy(c)
    for a in d["arrays"]:
        for k in ("positions", "surface_points", "surface_normals"):
            a[k] = a[k] * FLIP
    for r in d["planes"] + d["cylinders"]:
        for k in ("center", "normal", "axis"):
            if k in r:
                r[k] = [-r[k][0], *r[k][1:]]
    d["off"] = [[[-o[0], *o[1:]] for o in g] for g in d["off"]]
    d["inc"] = [-d["inc"][0], *d["inc"][1:]]
    other = [r and (r[0][:, ::-1], *r[1:]) for r in simulate(d)]
    agree(case, ctx, c, simulate(c), other, "mirror image of the plant")


@st.composite
def turned_case(draw):
    case = draw(plants(deviations=False, kinds=("ideal",), blocking=False))
    for s in case["specs"]:
        s |= dict(facets=1, side=1, cant=0.0, bump=0.0)
    p = len(case["planes"])
    return case | dict(index=[[p + i % len(case["cylinders"]) for i in g] for g in case["index"]], turn=draw(st.sampled_from([math.pi / 2, math.pi, -2.0]) | fl(-3.1, 3.1)))


@PROP.sub("turned", turned_case(), quick=60)
def turned(case, ctx):
    """The points of the compass do not matter: the plant may be turned with the sun."""
    c = numbers(case) | dict(cov=1e-16, rays=1)
    x, y = math.cos(case["turn"]), math.sin(case["turn"])
    R = np.array([[x, -y, 0], [y, x, 0], [0, 0, 1]])
    # aims on the cylinders, at places that do not change with the turn
    c["off"] = [[[0.0, 0.0, 0.3 * o[2]] for o in g] for g in c["off"]]
    d = copy.deepcopy(c)
    for a in d["arrays"]:
        a["positions"][:, :3] = a["positions"][:, :3] @ R.T
    for r in d["cylinders"]:
        for k in ("center", "normal", "axis"):
            r[k] = (R @ r[k]).tolist()
    d["inc"] = [*(R @ d["inc"][:3]), 0.0]
    agree(case, ctx, c, simulate(c), simulate(d), f"plant turned by {case['turn']}")
    ctx.nontrivial(len([1 for g in case["on"] for x in g if x]) > 1)


@PROP.sub("reordered", plants(), quick=100, shards=2)
def reordered(case, ctx):
    """The order of heliostats, groups and receivers and the division into groups do not matter."""
    g = rng(case["seed"])
    c = numbers(case) | dict(cov=1e-16, rays=1)
    d = copy.deepcopy(c)
    base = simulate(c)
    names = [n for a in c["arrays"] for n in a["names"]]
    parts = []
    for s, a, on, index, off in zip(d["specs"], d["arrays"], d["on"], d["index"], d["off"]):
        order = g.permutation(len(a["names"]))
        cut = int(g.integers(0, len(order))) if g.random() < 0.6 else 0
        for rows in (order[:cut], order[cut:]):
            if len(rows):
                take = {k: (v if v.size == 0 else v[rows]) for k, v in a.items() if k != "names"} | dict(names=[a["names"][i] for i in rows])
                parts.append((s | dict(positions=[s["positions"][i] for i in rows]), take, *([x[i] for i in rows] for x in (on, index, off))))
    parts = [parts[i] for i in g.permutation(len(parts))]
    d["specs"], d["arrays"], d["on"], d["index"], d["off"] = (list(x) for x in zip(*parts))
    p, q = g.permutation(len(d["planes"])), g.permutation(len(d["cylinders"]))
    d["planes"], d["cylinders"] = [d["planes"][i] for i in p], [d["cylinders"][i] for i in q]
    place = {int(i): k for k, i in enumerate([*p, *(q + len(p))])}
    d["index"] = [[place[i] for i in x] for x in d["index"]]
    after = dict(zip([n for a in d["arrays"] for n in a["names"]], simulate(d)))
    agree(case, ctx, c, base, [after[n] for n in names], "another order of heliostats, groups and receivers")
    ctx.label(f"{len(c['specs'])} groups become {len(d['specs'])}")


@st.composite
def grown_case(draw):
    return draw(plants()) | dict(more=[draw(field_plane()), draw(field_cylinder())], far=[draw(group_spec(count=(1, 2), facets=4, side=2))])


@PROP.sub("grown", grown_case(), quick=60)
def grown(case, ctx):
    """Receivers that nobody aims at and heliostats far away change nothing."""
    c = numbers(case)
    d = copy.deepcopy(c)
    p = len(d["planes"])
    d["planes"], d["cylinders"] = d["planes"] + case["more"][:1], d["cylinders"] + case["more"][1:]
    d["index"] = [[i + (i >= p) for i in x] for x in d["index"]]
    s = case["far"][0] | dict(side=c["specs"][0]["side"], facets=c["specs"][0]["facets"], positions=[[x - 30, y + 400, z] for x, y, z in case["far"][0]["positions"]])
    n = len(s["positions"])
    d["specs"].append(s)
    d["arrays"].append(group_arrays(s) | dict(names=[f"far_{i}" for i in range(n)]))
    d["on"].append([case["seed"] % 2 == 0] * n), d["index"].append([0] * n), d["off"].append([[0.0] * 3] * n)
    agree(case, ctx, c, simulate(c), simulate(d)[:-n], "plant with more receivers and heliostats")
