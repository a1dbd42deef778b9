from hypothesis import strategies as st
import numpy as np
import torch

from artist.raytracing import HeliostatRayTracer
from artist.raytracing.sampling import RestrictedDistributedSampler
from artist.util.env import distribute_groups_among_ranks, setup_distributed_environment

from .core import DEV, Prop, T, close, np64, require
from .gen import fl, h4, seeds
from .ranks import Unusable, on_ranks
from .scene import group_spec, receivers, scenario, sun_direction

PROP = Prop("C23", "more than one rank or more than one group takes part; for simulations: positive flux and at least two ranks "
                   "that really compute something",
            assumptions=["ranks are processes on one machine that talk gloo over the loopback network"])


@PROP.sub("groups", st.tuples(st.integers(1, 24), st.integers(1, 12)), quick=250)
def groups(case, ctx):
    world, n = case
    mapping, nested = distribute_groups_among_ranks(world, n)
    require(sorted(mapping) == list(range(world)), f"ranks {sorted(mapping)} for a world of {world}")
    require(bool(nested) == (world > n), f"nested {nested} for {world} ranks and {n} groups")
    owners = {g: [r for r in range(world) if g in mapping[r]] for g in range(n)}
    given = [g for r in mapping for g in mapping[r]]
    require(set(given) == set(range(n)), f"groups assigned: {sorted(set(given))} of {n}")
    if nested:
        require(all(len(mapping[r]) == 1 for r in mapping), f"ranks with several or no groups: {mapping}")
    else:
        require(len(given) == n, f"groups assigned more than once: {mapping}")
    load = [len(mapping[r]) for r in mapping] if not nested else [len(o) for o in owners.values()]
    require(max(load) - min(load) <= 1, f"unbalanced distribution: {mapping}")
    ctx.nontrivial(world > 1 and n > 1)


@st.composite
def sampler_case(draw):
    counts = draw(st.lists(st.integers(1, 5), min_size=1, max_size=9))
    if draw(st.booleans()):
        counts = [counts[0]] * len(counts)
    return dict(counts=counts, world=draw(st.integers(1, 12)), given=draw(st.booleans()))


@PROP.sub("sampler", sampler_case(), quick=250)
def sampler(case, ctx):
    counts, world = case["counts"], case["world"]
    equal = len(set(counts)) == 1
    kw = {} if equal and not case["given"] else dict(samples_per_heliostat=list(counts))
    n = sum(counts)
    samplers = [RestrictedDistributedSampler(number_of_samples=n, number_of_active_heliostats=len(counts), world_size=world, rank=r, **kw)
                for r in range(world)]
    parts = [list(s) for s in samplers]
    require(all(list(s) == p for s, p in zip(samplers, parts)), "a second pass over a sampler gives other samples")
    flat = sorted(i for p in parts for i in p)
    require(flat == list(range(n)), f"samples given out: {flat} of {n}")
    start, load = 0, [0] * world
    for c in counts:
        who = [r for r, p in enumerate(parts) if set(p) & set(range(start, start + c))]
        require(len(who) == 1, f"samples {start}..{start + c - 1} of one heliostat are on ranks {who}")
        load[who[0]] += 1
        start += c
    require(max(load) - min(load) <= 1, f"heliostats per rank: {load}")
    ctx.nontrivial(world > 1 and len(counts) > 1)


def _environment(groups):
    with setup_distributed_environment(number_of_heliostat_groups=groups, device=torch.device("cpu")) as d:
        if not d["is_distributed"]:
            raise Unusable("no process group")
        total = torch.tensor([1.0 + d["rank"]])
        if d["process_subgroup"] is not None:
            torch.distributed.all_reduce(total, group=d["process_subgroup"])
            size = torch.distributed.get_world_size(d["process_subgroup"])
            inner = torch.distributed.get_rank(d["process_subgroup"])
        else:
            size, inner = 1, 0
        out = {k: d[k] for k in ("is_nested", "rank", "world_size", "heliostat_group_rank", "heliostat_group_world_size")}
        out |= dict(groups={k: list(v) for k, v in d["groups_to_ranks_mapping"].items()},
                    ranks={k: list(v) for k, v in d["ranks_to_groups_mapping"].items()}, total=total.item(), size=size, inner=inner,
                    device=d["device"].type)
    out["left"] = torch.distributed.is_initialized()
    return out


@PROP.sub("environment", st.tuples(st.integers(1, 6), st.integers(1, 5), st.booleans()), quick=30, shards=2)
def environment(case, ctx):
    world, n, broken = case
    out = on_ranks(world, _broken if broken else _environment, n)
    for r, d in enumerate(out):
        if broken:
            require(d == "stopped", f"rank {r}: process group left behind after an exception: {d}")
            continue
        require(d["rank"] == r and d["world_size"] == world and d["device"] == "cpu", f"rank {r} believes to be {d}")
        require(d["groups"] == out[0]["groups"] and d["ranks"] == out[0]["ranks"], f"ranks 0 and {r} disagree on who does what")
        require(not d["left"], f"rank {r}: the process group is still there after leaving the environment")
        require((d["groups"], d["is_nested"]) == tuple(distribute_groups_among_ranks(world, n)), f"rank {r}: {d['groups']}")
        for g in range(n):
            require(d["ranks"].get(g) == [q for q in range(world) if g in d["groups"][q]], f"ranks of group {g}: {d['ranks'].get(g)}")
        mates = d["ranks"][d["groups"][r][0]] if world > n else [r]
        require(d["heliostat_group_world_size"] == len(mates) and d["heliostat_group_rank"] == mates.index(r),
                f"rank {r} is {d['heliostat_group_rank']} of {d['heliostat_group_world_size']} in its group {mates}")
        require(d["size"] == len(mates) and d["inner"] == mates.index(r), f"subgroup of rank {r}: {d['inner']} of {d['size']}")
        require(d["total"] == sum(1.0 + q for q in mates), f"rank {r}: reduction within its group {mates} gives {d['total']}")
    ctx.nontrivial(world > 1)
    ctx.label("nested" if world > n else "not nested")


def _broken(groups):
    try:
        with setup_distributed_environment(number_of_heliostat_groups=groups, device=torch.device("cpu")) as d:
            if not d["is_distributed"]:
                raise Unusable("no process group")
            raise KeyError("user code")
    except KeyError:
        return "stopped" if not torch.distributed.is_initialized() else "left"


@st.composite
def field_case(draw):
    specs = [draw(group_spec(count=(1, 4))) for _ in range(draw(st.integers(1, 3)))]
    for s in specs:
        s["side"] = min(s["side"], 3)
    r = draw(receivers(most=2))
    many = len(r["planes"]) + len(r["cylinders"])
    masks = [[draw(st.sampled_from([0, 1, 1, 2])) for _ in s["positions"]] for s in specs]
    for m in masks:
        if sum(m) == 0:
            m[0] = 1
    return dict(specs=specs, **r, masks=masks, index=[[draw(st.integers(0, many - 1)) for _ in range(sum(m))] for m in masks],
                inc=[[sun_direction(draw) for _ in range(sum(m))] for m in masks], res=[draw(st.integers(3, 16)), draw(st.integers(3, 16))],
                rays=draw(st.integers(1, 4)), cov=draw(st.sampled_from([1e-10, 4.3681e-6])), batch=draw(st.integers(1, 6)),
                world=draw(st.integers(1, 6)), seed=draw(seeds))


def _flux(case, ranked=True, mine=None, group_rank=0, group_world=1):
    sc = scenario(case["specs"], case["planes"], case["cylinders"], case["rays"], case["cov"])
    per = []
    n = len(case["planes"]) + len(case["cylinders"])
    total = torch.zeros(n, case["res"][1], case["res"][0])
    groups = sc.heliostat_field.heliostat_groups
    for g in (range(len(groups)) if mine is None else mine):
        group, mask, index, inc = groups[g], torch.tensor(case["masks"][g]), torch.tensor(case["index"][g]), T(case["inc"][g])
        group.activate_heliostats(mask, device=DEV)
        group.align_surfaces_with_incident_ray_directions(sc.solar_tower.get_centers_of_target_areas(index, device=DEV), inc, mask,
                                                          device=DEV)
        t = HeliostatRayTracer(sc, group, blocking_active=False, world_size=group_world, rank=group_rank, batch_size=case["batch"],
                               random_seed=case["seed"] % 1000, bitmap_resolution=torch.tensor(case["res"]))
        out = t.trace_rays(inc, mask, index, device=DEV)
        local = t.get_sampler_indices()
        total = total + t.get_bitmaps_per_target(out[0], index[local], device=DEV)
        per += [(g, int(i), [np64(x[k]) for x in out]) for k, i in enumerate(local.tolist())]
    return total, per


def _traced(case):
    with setup_distributed_environment(number_of_heliostat_groups=len(case["specs"]), device=torch.device("cpu")) as d:
        if not d["is_distributed"]:
            raise Unusable("no process group")
        total, per = _flux(case, mine=d["groups_to_ranks_mapping"][d["rank"]], group_rank=d["heliostat_group_rank"],
                           group_world=d["heliostat_group_world_size"])
        torch.distributed.all_reduce(total)
        return np64(total), per


@PROP.sub("simulation", field_case(), quick=60, shards=5)
def simulation(case, ctx):
    """Real processes: together they give every sample once, and the reduced flux is that of a single process."""
    out = on_ranks(case["world"], _traced, case)
    total, per = _flux(case)
    m = 1.0 + float(total.max())
    for r, (flux, _) in enumerate(out):
        close(flux, total, f"reduced flux per target area on rank {r}", atol=5e-6 * m, rtol=1e-5)
    got = {}
    for r, (_, mine) in enumerate(out):
        for g, i, values in mine:
            require((g, i) not in got, f"sample {i} of group {g} on ranks {got.get((g, i), [0])[0]} and {r}")
            got[g, i] = r, values
    require(set(got) == {(g, i) for g, i, _ in per}, f"samples computed by the ranks: {sorted(got)}")
    for g, i, want in per:
        for a, b, what in zip(got[g, i][1], want, ("flux", "intercept", "on-target", "blocking")):
            close(a, b, f"group {g} sample {i} on rank {got[g, i][0]}: {what}", atol=5e-6 * m, rtol=1e-5)
    busy = sum(bool(mine) for _, mine in out)
    ctx.nontrivial(busy > 1 and m > 1.0)
    ctx.label("idle ranks" if busy < case["world"] else "all busy")
    ctx.label("nested" if case["world"] > len(case["specs"]) else "not nested")
