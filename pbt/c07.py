import math

from hypothesis import strategies as st
import numpy as np
import torch

from artist.raytracing import HeliostatRayTracer
from artist.raytracing.sampling import DistortionsDataset
from artist.scene.sun import Sun

from .c05 import plant, prepare
from .core import DEV, Prop, T, close, np64, require, raises, rng, same
from .gen import fl, seeds

PROP = Prop("C07", "at least 100 drawn deflections (statistics: at least 40000) and a non-degenerate covariance",
            assumptions=["The distribution is tested with statistical tests on fixed seeds: deterministic for the unchanged tree; "
                         "limits are at 6 standard deviations."])


def make(case, rays=None):
    return Sun(rays or case["rays"], dict(distribution_type="normal", mean=case["mean"], covariance=case["cov"]), device=DEV)


@st.composite
def shape_case(draw):
    return dict(rays=draw(st.integers(1, 40)), points=draw(st.integers(1, 60)), heliostats=draw(st.integers(1, 8)),
                mean=draw(st.sampled_from([0.0]) | fl(-0.01, 0.01)), cov=draw(st.sampled_from([4.3681e-6, 1e-12, 1.0]) | fl(1e-8, 1e-2)),
                seed=draw(st.integers(0, 2**31 - 1)), other=draw(st.integers(0, 2**31 - 1)), state=draw(seeds))


@PROP.sub("reproducible", shape_case(), quick=400)
def reproducible(case, ctx):
    s = make(case)
    a = s.get_distortions(case["points"], case["heliostats"], case["seed"])
    for x in a:
        require(tuple(x.shape) == (case["heliostats"], case["rays"], case["points"]), f"shape {tuple(x.shape)}")
        require(bool(torch.isfinite(x).all()), "deflection not finite")
    torch.manual_seed(case["state"]); torch.rand(case["state"] % 97)
    np.random.seed(case["state"])
    s.get_distortions(3, 2, case["other"])
    b = make(case).get_distortions(number_of_points=case["points"], number_of_active_heliostats=case["heliostats"], random_seed=case["seed"])
    for x, y, n in zip(a, b, "ue"):
        same(y, x, f"deflection {n} drawn again")
    for x, y in zip(s.get_distortions(case["points"], case["heliostats"]), make(case).get_distortions(case["points"], case["heliostats"], 7)):
        same(x, y, "default seed")
    n = case["rays"] * case["points"] * case["heliostats"]
    fine = n >= 4 and math.sqrt(case["cov"]) > 1e-2 * abs(case["mean"])      # float32 resolves the scatter around the mean
    if fine and case["seed"] != case["other"]:
        c = s.get_distortions(case["points"], case["heliostats"], case["other"])
        require(not torch.equal(a[0], c[0]) and not torch.equal(a[1], c[1]), "two seeds give the same deflections")
    require(not fine or not torch.equal(a[0], a[1]), "both axes get the same deflections")
    if fine:
        require(all(len(set(x.reshape(-1).tolist())) > n // 2 for x in a), "deflections repeat")
    # the data set hands out exactly these values, sample by sample
    d = DistortionsDataset(s, case["points"], case["heliostats"], case["seed"])
    require(len(d) == case["heliostats"], "length of the deflection data set")
    for i in range(len(d)):
        u, e = d[i]
        same(u, a[0][i], f"data set sample {i}, u")
        same(e, a[1][i], f"data set sample {i}, e")
    ctx.nontrivial(n >= 100 and case["cov"] > 1e-10)


@st.composite
def stat_case(draw):
    return dict(mean=draw(st.sampled_from([0.0]) | fl(-0.02, 0.02)), cov=draw(st.sampled_from([4.3681e-6]) | fl(1e-8, 1e-2)),
                seed=draw(st.integers(0, 2**31 - 1)), layout=draw(st.sampled_from([[1, 1, 50000], [50000, 1, 1], [1, 50000, 1], [20, 50, 50]])))


@PROP.sub("distribution", stat_case(), quick=120, shards=2)
def distribution(case, ctx):
    h, r, p = case["layout"]
    u, e = (np64(x) for x in make(case, rays=r).get_distortions(p, h, case["seed"]))
    n, sd = u.size, math.sqrt(case["cov"])
    z = np.stack([u.reshape(-1), e.reshape(-1)]) - case["mean"]
    z /= sd
    lim = 6 / math.sqrt(n)
    noise = 1e-6 * (1 + abs(case["mean"]) / sd)
    require((np.abs(z.mean(1)) < lim + noise).all(), f"mean of the deflections off by {z.mean(1)} standard deviations")
    require((np.abs((z**2).mean(1) - 1) < lim * math.sqrt(2) + 10 * noise).all(), f"variance {(z**2).mean(1)} of the configured one")
    require(abs((z[0] * z[1]).mean()) < lim + noise, f"axes are correlated by {(z[0] * z[1]).mean()}")
    require(abs((z**3).mean()) < 6 * math.sqrt(15 / (2 * n)) and abs((z**4).mean() - 3) < 6 * math.sqrt(96 / (2 * n)), "not normal")
    for q in (0.5, 1.0, 2.0, 3.0):
        prob = math.erfc(q / math.sqrt(2))
        require(abs((np.abs(z) > q).mean() - prob) < 6 * math.sqrt(prob / (2 * n)) + 1e-4, f"fraction beyond {q} standard deviations")
    # no dependence between neighbouring rays, points and heliostats
    for x in (u, e):
        x = (x - case["mean"]) / sd
        for ax in range(3):
            if x.shape[ax] > 1:
                a, b = np.take(x, range(x.shape[ax] - 1), ax), np.take(x, range(1, x.shape[ax]), ax)
                require(abs((a * b).mean()) < 7 / math.sqrt(a.size) + 1e-5, f"neighbours along dimension {ax} are correlated")
    ctx.nontrivial()


@st.composite
def tracing_case(draw):
    return draw(plant(most=2)) | dict(cov=draw(st.sampled_from([1e-4, 4e-4])), rays=draw(st.integers(2, 8)), first=draw(st.integers(0, 10**6)),
                                      other=draw(st.integers(0, 10**6)), state=draw(seeds), batch=draw(st.sampled_from([100, 1, 2])))


@PROP.sub("tracer", tracing_case(), quick=120, shards=2)
def tracer(case, ctx):
    """The flux is that of the seed of the ray tracer: the same for the same seed, whatever was drawn before, another one for another seed."""
    sc, g, mask, index, inc = prepare(case)

    def flux(**seed):
        return HeliostatRayTracer(sc, g, blocking_active=False, batch_size=case["batch"], bitmap_resolution=torch.tensor(case["res"]),
                                  **seed).trace_rays(inc, mask, index, device=DEV)[0]

    one = flux(random_seed=case["first"])
    torch.manual_seed(case["state"]); torch.rand(3)
    two = flux(random_seed=case["other"])
    same(flux(random_seed=case["first"]), one, "flux of the same seed")
    same(flux(random_seed=7), flux(), "flux of the default seed")
    lit = (one.sum((1, 2)) > 0.5) & (two.sum((1, 2)) > 0.5)
    if case["first"] != case["other"]:
        for k in torch.nonzero(lit)[:, 0].tolist():
            require(not torch.equal(one[k], two[k]), f"sample {k}: the flux of two seeds is the same")
    ctx.nontrivial(bool(lit.any()) and case["first"] != case["other"])


@PROP.sub("unknown_type", st.text(max_size=12), quick=60)
def unknown_type(case, ctx):
    if case != "normal":
        raises(lambda: Sun(3, dict(distribution_type=case, mean=0.0, covariance=1e-6), device=DEV), ValueError, f"sun of type {case!r}")
        ctx.nontrivial()
