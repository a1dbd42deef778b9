import math

from hypothesis import strategies as st
import numpy as np
import torch

import artist.raytracing  # noqa: F401
from artist.optim import training
from artist.optim.training import EarlyStopping, train_test_split
from artist.util import constants

from .core import DEV, Prop, T, close, np64, require, rng, same
from .gen import fl, seeds

PROP = Prop("C25", "several heliostats with several samples; histories that both improve and stagnate; schedules that change the rate",
            assumptions=["All heliostats that take part have equally many (at least two) samples, as the split's record of one number "
                         "of samples per heliostat presumes."])


@st.composite
def split_case(draw):
    k = draw(st.integers(2, 12))
    mask = draw(st.lists(st.sampled_from([0, k, k]), min_size=1, max_size=6))
    if not any(mask):
        mask[draw(st.integers(0, len(mask) - 1))] = k
    return dict(k=k, mask=mask, fraction=draw(st.none() | st.sampled_from([0.0, 0.25, 0.5, 0.35]) | fl(0, 0.95)), seed=draw(seeds))


@PROP.sub("split", split_case(), quick=400)
def split(case, ctx):
    k, mask = case["k"], np.array(case["mask"])
    n, g = int(mask.sum()), rng(case["seed"])
    data = dict(flux_measured=T(g.random((n, 3, 2))), focal_spots_measured=T(g.random((n, 4))), incident_ray_directions=T(g.random((n, 4))),
                motor_positions=T(g.random((n, 2))), target_area_indices=torch.tensor(g.integers(0, 5, n), dtype=torch.int32))
    kw = {} if case["fraction"] is None else dict(test_fraction=case["fraction"])
    s = train_test_split(active_heliostats_mask=torch.tensor(mask, dtype=torch.int32), device=DEV, **data, **kw)
    fraction = kw.get("test_fraction", 0.25)
    test = max(1, int(k * fraction))
    same((s.number_of_test_samples, s.number_of_train_samples, s.number_of_samples_per_heliostat), (test, k - test, k), "numbers of samples")
    starts = np.arange(0, n, k)
    train_rows = [int(i) for a in starts for i in range(a, a + k - test)]
    test_rows = [int(i) for a in starts for i in range(a + k - test, a + k)]
    same(s.train_indices.tolist(), train_rows, "training samples")
    same(s.test_indices.tolist(), test_rows, "test samples")
    same(sorted(train_rows + test_rows), list(range(n)), "every sample once")
    same(s.active_heliostats_mask_train.tolist(), np.where(mask > 0, k - test, 0).tolist(), "training selection")
    same(s.active_heliostats_mask_test.tolist(), np.where(mask > 0, test, 0).tolist(), "test selection")
    for name, v in data.items():
        for part, rows in (("train", train_rows), ("test", test_rows)):
            got = getattr(s, f"{name}_{part}")
            require(got.dtype == v.dtype and torch.equal(got, v[rows]), f"{name} for {part}: {got}")
    ctx.nontrivial((mask > 0).sum() > 1 and k - test > 1)


@st.composite
def stop_case(draw):
    parts = draw(st.lists(st.tuples(st.sampled_from(["fall", "flat", "rise", "noise", "tiny", "zero", "negative", "sink"]), st.integers(1, 12)), min_size=1, max_size=7))
    return dict(window=draw(st.integers(1, 8)), patience=draw(st.integers(1, 8)), least=draw(st.sampled_from([0.0, 1e-4, 0.1, 1.0, 0.0009765625])),
                relative=draw(st.booleans()), parts=[list(p) for p in parts], seed=draw(seeds), start=draw(st.sampled_from([1.0, 1e-9, 300.0])),
                default=draw(st.booleans()))


def history(case):
    g, x, out = rng(case["seed"]), case["start"], []
    for kind, n in case["parts"]:
        for _ in range(n):
            x = dict(fall=x * 0.8, flat=x, rise=x * 1.1, noise=abs(x) * float(g.uniform(0.7, 1.3)), tiny=x * (1 - 5e-5), zero=0.0,
                     negative=-abs(x) * 1.1, sink=x - 0.03 * abs(x))[kind]
            out.append(float(x))
    return out


@PROP.sub("early_stopping", stop_case(), quick=500)
def early_stopping(case, ctx):
    kw = dict(window_size=case["window"], patience=case["patience"], min_improvement=case["least"], relative=case["relative"])
    if case["default"]:
        kw = {k: v for k, v in kw.items() if k in ("window_size",)}
    e = EarlyStopping(**kw)
    window, patience = kw["window_size"], kw.get("patience", 20)
    least, relative = kw.get("min_improvement", 1e-4), kw.get("relative", True)
    losses = history(case)
    answers, bad = [], 0
    for i, x in enumerate(losses):
        answers.append(bool(e.step(x)))
        if i + 1 >= window:
            first = losses[i + 1 - window]
            gain = first - x
            if relative:
                gain = gain / max(abs(first), 1e-8)
            bad = 0 if gain > least else bad + 1
        same(answers[-1], bad >= patience if i + 1 >= window else False, f"stop after {losses[:i + 1]} with {kw}")
    if window > 1 and not case["default"]:
        # a second, independent one does not remember the first
        f = EarlyStopping(**kw)
        same([bool(f.step(x)) for x in losses], answers, "same history again")
    ctx.nontrivial(len(set(answers)) == 2 or (len(losses) > window + patience and not any(answers)))
    ctx.label("stops" if any(answers) else "goes on")


def learning_rates(kind, case):
    """Generator of the learning rates of a schedule; it is sent the loss of each step."""
    lr, best, bad, cool, t = case["lr"], math.inf, 0, 0, 0
    while True:
        if kind == "exponential":
            x = yield case["lr"] * case["gamma"] ** t
        elif kind == "cyclic":
            up, phase = case["up"], t % (2 * case["up"])
            x = yield case["lr_min"] + (case["lr_max"] - case["lr_min"]) * (phase / up if phase <= up else 2 - phase / up)
        else:
            x = yield lr
            if x < best * (1 - case["threshold"]):
                best, bad = x, 0
            else:
                bad += 1
            if cool > 0:
                cool, bad = cool - 1, 0
            if bad > case["patience"]:
                new = max(lr * case["factor"], case["lr_min"])
                if lr - new > 1e-8:
                    lr = new
                cool, bad = case["cooldown"], 0
        t += 1


@st.composite
def schedule_case(draw):
    kind = draw(st.sampled_from(["exponential", "cyclic", "reduce_on_plateau"]))
    lo = draw(st.sampled_from([1e-6, 1e-4, 0.0]))
    return dict(kind=kind, lr=draw(st.sampled_from([1e-3, 0.5, 1.0])), gamma=draw(st.sampled_from([0.5, 0.9, 1.0]) | fl(0.3, 1.0)), lr_min=lo,
                lr_max=draw(st.sampled_from([1e-3, 0.1])), up=draw(st.integers(1, 12)), factor=draw(st.sampled_from([0.1, 0.5, 0.9])),
                patience=draw(st.integers(0, 6)), threshold=draw(st.sampled_from([1e-4, 1e-2, 0.1])), cooldown=draw(st.integers(0, 5)),
                strings=draw(st.booleans()), loss=draw(stop_case()))


@PROP.sub("schedules", schedule_case(), quick=300)
def schedules(case, ctx):
    k = case["kind"]
    d = {constants.gamma: case["gamma"], constants.lr_min: case["lr_min"], constants.lr_max: case["lr_max"], constants.step_size_up: case["up"],
         constants.reduce_factor: case["factor"], constants.patience: case["patience"], constants.threshold: case["threshold"],
         constants.cooldown: case["cooldown"]}
    if case["strings"]:
        d = {a: str(b) for a, b in d.items()}
    name = dict(exponential=constants.exponential, cyclic=constants.cyclic, reduce_on_plateau=constants.reduce_on_plateau)[k]
    p = torch.nn.Parameter(torch.zeros(2))
    o = torch.optim.Adam([p], lr=case["lr"])
    s = getattr(training, name)(optimizer=o, parameters=d)
    losses = [abs(x) + 1e-3 for x in history(case["loss"])][:40]
    rates, law = [], learning_rates(k, case)
    for t, x in enumerate(losses):
        want = law.send(None) if t == 0 else law.send(losses[t - 1])
        got = o.param_groups[0]["lr"]
        rates.append(got)
        require(abs(got - want) <= 1e-9 + 1e-6 * abs(want), f"{k}: learning rate {got} instead of {want} in step {t} of {losses}")
        o.step()
        if k == "reduce_on_plateau":
            s.step(torch.tensor(x, dtype=torch.float64))
        else:
            s.step()
    ctx.nontrivial(len(set(rates)) > 1)
    ctx.label(k)
