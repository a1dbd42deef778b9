"""The loops of the reconstructions and the aim-point optimisation obey their settings: learning rates, tolerance, epochs, early stopping."""
from collections import defaultdict

from hypothesis import strategies as st
import numpy as np
import torch
from torch.optim.optimizer import register_optimizer_step_pre_hook

import artist.raytracing  # noqa: F401
from artist.optim.loss import AngleLoss, FocalSpotLoss
from artist.util import constants

from . import c27, c28, c29, opt
from .c25 import learning_rates
from .core import Prop, close, require, same
from .gen import fl

PROP = Prop("C33", "a run that ends by early stopping or by the tolerance before its last epoch, or whose learning rate changes between epochs",
            assumptions=["Runs whose improvement lies within rounding of the early-stopping threshold, or whose loss lies within rounding of the tolerance, are not judged."])


@st.composite
def loops(draw, cases, most=9):
    case = draw(cases)
    kind = draw(st.sampled_from(["exponential", "cyclic", "reduce_on_plateau"]))
    law = dict(gamma=draw(st.sampled_from([0.5, 0.9, 1.0])), lr_min=case["lr"] * draw(st.sampled_from([0.1, 0.6])), lr_max=case["lr"] * 2,
               up=draw(st.integers(1, 4)), factor=draw(st.sampled_from([0.3, 0.8])), patience=draw(st.integers(0, 2)),
               threshold=draw(st.sampled_from([1e-4, 0.05, 0.5])), cooldown=draw(st.integers(0, 2)))
    stop = dict(window=draw(st.integers(1, 4)), patience=draw(st.integers(1, 4)), delta=draw(st.sampled_from([-0.5, 0.0, 0.02, 0.1, 0.5])))
    return case | dict(epochs=draw(st.integers(1, most)), law=law, kind=kind, limits=stop, at=draw(fl(0.05, 0.95)), lr=case["lr"],
                       bound=draw(st.sampled_from([0.2, 0.7, 1.0, 3.0])), weight=draw(st.sampled_from([1.0, 10.0])))


def configured(case, **stop):
    law = case["law"]
    kw = {constants.scheduler_type: case["kind"], constants.gamma: law["gamma"], constants.lr_min: law["lr_min"], constants.lr_max: law["lr_max"],
          constants.step_size_up: law["up"], constants.reduce_factor: law["factor"], constants.patience: law["patience"],
          constants.threshold: law["threshold"], constants.cooldown: law["cooldown"]}
    kw.pop(constants.scheduler_type), kw.pop(constants.gamma)
    return case | dict(schedule=dict(kind=case["kind"], gamma=law["gamma"]) | kw, stop=stop)


def watched(run):
    """Result and, per optimiser in the order of their creation, the learning rates of its steps."""
    seen, rates = {}, defaultdict(list)

    def before(o, args, kwargs):
        rates[seen.setdefault(id(o), (len(seen), o))[0]].append([float(p["lr"]) for p in o.param_groups])

    hook = register_optimizer_step_pre_hook(before)
    try:
        return run(), [rates[i] for i in range(len(seen))]
    finally:
        hook.remove()


def stops_after(losses, window, patience, delta):
    """Number of epochs until early stopping (None: never); and whether that is clear of rounding."""
    bad, clear = 0, True
    for i in range(window - 1, len(losses)):
        first = losses[i + 1 - window]
        gain = (first - losses[i]) / max(abs(first), 1e-8)
        if window > 1 and abs(gain - delta) < 1e-5:
            clear = False
        bad = 0 if gain > delta else bad + 1
        if bad >= patience:
            return i + 1, clear
    return None, clear


def telling(losses, decoy, lim):
    """Limits with which these losses end a run in another epoch than the decoy, if there are any."""
    for window in range(2, 5):
        gains = sorted({(a[i + 1 - window] - a[i]) / max(abs(a[i + 1 - window]), 1e-8) for a in (losses, decoy) for i in range(window - 1, len(a))})
        for low, high in zip(gains, gains[1:]):
            if high - low > 1e-4:
                for patience in (1, 2):
                    new = dict(window=window, patience=patience, delta=(low + high) / 2)
                    if stops_after(losses, **new)[0] != stops_after(decoy, **new)[0]:
                        return new
    return lim


def rates_of(losses, case, law):
    """Learning rates of the plateau rule for these losses."""
    rule = learning_rates(case["kind"], law | dict(lr=case["lr"]))
    out = [rule.send(None)]
    return out + [rule.send(x) for x in losses[:-1]]


def telling_law(case, losses, decoy):
    """A plateau rule that these losses follow in another way than the decoy, if there is any."""
    for patience in (0, 1):
        for threshold in (1e-4, 0.003, 0.02, 0.05, 0.1, 0.2, 0.5):
            law = case["law"] | dict(patience=patience, threshold=threshold, cooldown=0)
            if rates_of(losses, case, law) != rates_of(decoy, case, law):
                return law
    return case["law"]


def judge(case, ctx, run, last, decoys=None):
    """run(case) gives the loss histories, one per optimiser; last: whether the epoch in which a run stops is listed.

    decoys: gives losses of the first run that must not decide.
    """
    plain = configured(case, window=1000, patience=1000)
    histories, rates = watched(lambda: run(plain))
    if decoys is not None and case["kind"] == "reduce_on_plateau":
        case = case | dict(law=telling_law(case, histories[0], decoys()))
        plain = configured(case, window=1000, patience=1000)
        histories, rates = watched(lambda: run(plain))
        ctx.label("the schedule tells" if rates_of(histories[0], case, case["law"]) != rates_of(decoys(), case, case["law"]) else "the schedule does not tell")
    same(len(rates), len(histories), "number of optimisers")
    varied = False
    for k, (total, used) in enumerate(zip(histories, rates)):
        same(len(used), len(total), f"optimiser {k}: steps and reported epochs")
        require(len(total) == case["epochs"] + 1 or total[-1] <= 1e-12, f"optimiser {k}: {len(total)} epochs of {case['epochs']} and one")
        law, law_case = None, case["law"] | dict(lr=case["lr"])
        law = learning_rates(case["kind"], law_case)
        want = law.send(None)
        for t, step in enumerate(used):
            for got in step:
                if not abs(got - want) <= 1e-12 + 1e-5 * abs(want):
                    if case["kind"] == "reduce_on_plateau" and edgy(total[:t], case["law"]):
                        break
                    require(False, f"{case['kind']}: learning rate {got} instead of {want} in epoch {t} of {total}")
            want = law.send(total[t])
        varied |= len({s[0] for s in used}) > 1
    # the same run with early stopping
    lim = case["limits"] if decoys is None else telling(histories[0], decoys(), case["limits"])
    known = [stops_after(t, **lim) for t in histories]
    ended = False
    if all(clear for _, clear in known):
        other, steps = watched(lambda: run(configured(case, **lim)))
        for k, ((n, _), a, b, s) in enumerate(zip(known, histories, other, steps)):
            m = len(a) if n is None else n
            same(len(s), m, f"optimiser {k}: epochs with early stopping {lim} for the losses {a}")
            require(len(b) == m or (n is not None and not last and len(b) == m - 1), f"optimiser {k}: {len(b)} losses reported for {m} epochs")
            close(b, a[:len(b)], f"optimiser {k}: losses up to early stopping", atol=1e-9, rtol=1e-5)
            ended |= n is not None and m < len(a)
    # a tolerance between the losses
    for total in histories[:1]:
        goal = min(total) + case["at"] * (max(total) - min(total))
        if len(histories) == 1 and min(abs(x - goal) for x in total) > 1e-5 * abs(goal) and goal > 1e-9:
            n = next(i for i, x in enumerate(total) if x <= goal) + 1
            (short,), (s,) = watched(lambda: run(configured(case, window=1000, patience=1000, tolerance=goal)))
            same(len(s), n, f"epochs until the loss is {goal}, for the losses {total}")
            close(short, total[:n], "losses up to the tolerance", atol=1e-9, rtol=1e-5)
            ended |= n < len(total)
    ctx.nontrivial(ended or varied)
    ctx.label(case["kind"])
    ctx.label("stopped before the last epoch" if ended else "ran to the end")


def edgy(losses, law):
    """Whether a comparison of the plateau rule is within rounding."""
    best = np.inf
    for x in losses:
        if abs(x - best * (1 - law["threshold"])) < 1e-5 * abs(x):
            return True
        best = min(best, x)
    return False


def kinematics(case, ctx, method, loss):
    truth, start, g = c27.true_and_initial(case)
    data = c27.measure(case, truth, g)
    if method == c27.TRACE:
        real = opt.plant(truth, case["specs"], case["planes"], case["cylinders"])
        for i, (m, d) in enumerate(zip(case["masks"], data)):
            if any(m):
                d["flux"] = opt.trace(real, i, m, d["motors"], d["inc"], d["index"], case["res"], 50, case["dni"])[0] + 1e-3
    judge(case, ctx, lambda c: [h["total_loss"] for h in c27.run(c, start, data, method, loss)[2][0]], last=False)


@PROP.sub("alignment", loops(c27.cases(c27.ALIGN)), quick=90, shards=2)
def alignment(case, ctx):
    kinematics(case, ctx, c27.ALIGN, lambda s: AngleLoss())


@PROP.sub("flux", loops(c27.cases(c27.TRACE, groups=(1, 1)), 7), quick=60, shards=2)
def flux(case, ctx):
    kinematics(case, ctx, c27.TRACE, lambda s: FocalSpotLoss(scenario=s))


@st.composite
def weighted(draw):
    """Constraints and regularizers of any weight."""
    return draw(c28.cases()) | dict(smooth=draw(st.sampled_from([0.0, 0.5, 5.0])), ideal=draw(st.sampled_from([0.0, 0.5, 5.0])),
                                    rho=draw(st.sampled_from([0.0, 10.0, 100.0])), tolerance=draw(st.sampled_from([0.0, 0.01, 2.0])),
                                    lr=draw(st.sampled_from([1e-4, 3e-4, 1e-3])))


@PROP.sub("surfaces", loops(weighted(), 7), quick=60, shards=3)
def surfaces(case, ctx):
    """The whole loss, constraints and regularizers included, decides about the schedule and the end."""
    _, data = c28.measured(case)
    start = c28.arrays(case)
    seen = []

    def run(c):
        seen.append(c28.run(c, start, data)[2][0])
        return [h["total_loss"] for h in seen[-1]]

    judge(case, ctx, run, last=False, decoys=lambda: seen[-1][0]["flux_loss"])


@PROP.sub("aim", loops(c29.cases(), 6), quick=60, shards=4)
def aim(case, ctx):
    """The whole loss, constraints included, decides about the schedule and the end."""
    case = case | dict(tolerance=1e-12)
    start = c29.aligned(c29.build(case), case)
    goal = c29.desired(case, start)
    peak = c29.traced(case, start)[0].max()
    density = case["bound"] * peak / (c29.area(case) / np.prod(case["res"])) if peak > 0 else 1e6
    case = case | dict(rho=[r * case["weight"] for r in case["rho"]])
    seen = []

    def run(c):
        seen.append(c29.run(c, goal, density, c["epochs"])["history"])
        return [seen[-1]["total_loss"]]

    judge(case, ctx, run, last=True, decoys=lambda: seen[-1]["flux_loss"])
    apart = max(abs(a - b) for a, b in zip(seen[0]["total_loss"], seen[0]["flux_loss"]))
    ctx.label("constraints weigh" if apart > 1e-3 else "constraints do not weigh")
