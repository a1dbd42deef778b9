from hypothesis import strategies as st
import numpy as np
import torch

import artist.raytracing  # noqa: F401
from artist.optim import KinematicsReconstructor
from artist.optim.loss import AngleLoss, CosineSimilarityLoss, FocalSpotLoss, KLDivergenceLoss, PixelLoss
from artist.raytracing import HeliostatRayTracer
from artist.util import constants

from . import kin, opt
from .core import DEV, Prop, T, close, np64, raises, require, rng, same
from .gen import fl, h4, seeds, unit
from .scene import field_cylinder, field_plane, group_arrays, group_spec

PROP = Prop("C27", "several heliostats, of which some have measurements and some have none, and kinematics that differ from the measured ones",
            assumptions=["Every heliostat with measurements has equally many of them.",
                         "Measurements are consistent: they come from true rotation deviations within 20 mrad of the initial ones."])

ALIGN, TRACE = constants.kinematics_reconstruction_alignment, constants.kinematics_reconstruction_raytracing


@st.composite
def cases(draw, method=ALIGN, groups=(1, 2)):
    k = draw(st.integers(2, 5))
    specs = [draw(group_spec(count=(1, 3), facets=1)) for _ in range(draw(st.integers(*groups)))]
    for s in specs:
        s["side"], s["cant"], s["bump"] = 3, 0.0, 0.0
    masks = [[k * draw(st.sampled_from([0, 1, 1])) for _ in s["positions"]] for s in specs]
    if not any(map(any, masks)):
        masks[-1][-1] = k
    return dict(specs=specs, k=k, masks=masks, planes=[draw(field_plane())] + draw(st.lists(field_plane(), max_size=1)),
                cylinders=[draw(field_cylinder())], res=[draw(st.integers(8, 14)), draw(st.integers(8, 14))], seed=draw(seeds),
                off=draw(st.sampled_from([0.004, 0.008])), epochs=draw(st.integers(1, 8) if method == TRACE else st.integers(1, 40)),
                lr=draw(st.sampled_from([5e-4, 1e-3])), gamma=draw(st.sampled_from([1.0, 0.95])), log_step=draw(st.sampled_from([0, 1])),
                batch=draw(st.integers(1, 8)), loss=draw(st.sampled_from(["angle", "angle", "cosine"])), dni=draw(st.sampled_from([None, 500.0])))


def true_and_initial(case):
    g = rng(case["seed"])
    truth = [group_arrays(s) for s in case["specs"]]
    start = []
    for a in truth:
        off = g.uniform(-1, 1, a["kinematics_rotation_deviation_parameters"].shape) * case["off"]
        start.append(a | dict(kinematics_rotation_deviation_parameters=a["kinematics_rotation_deviation_parameters"] + off))
    return truth, start, g


def measure(case, truth, g):
    """Motor positions, incident rays, receivers and focal spots that fit the true kinematics."""
    out = []
    goal = opt.centers(case["planes"], case["cylinders"])
    for spec, a, mask in zip(case["specs"], truth, case["masks"]):
        n = sum(mask)
        rows = np.repeat(np.arange(len(mask)), mask)
        index = g.integers(0, len(goal), n)
        sub = kin.take(a, rows)
        non = sub["actuator_parameters_non_optimizable"]
        best = np.full(n, -2.0)
        motors, normals = np.zeros((n, 2)), np.zeros((n, 3))
        r = unit(goal[index] + g.uniform(-0.3, 0.3, (n, 3)) - np.asarray(spec["positions"])[rows]) if n else np.zeros((0, 3))
        for _ in range(30):
            at = g.uniform(0.2, 0.8, (n, 2))
            m = (at - 0.5) * 2 if spec["kind"] == "ideal" else non[:, 2] + at * (non[:, 3] - non[:, 2])
            m = m.astype(np.float32).astype(float)
            v = kin.chain(sub, m)[:, :3, 2] if n else np.zeros((0, 3))
            c = (v * r).sum(1)
            better = (c > best) & (best < 0.5)
            motors[better], normals[better], best[better] = m[better], v[better], c[better]
        inc = r - 2 * (r * normals).sum(1, keepdims=True) * normals
        spots = np.asarray(spec["positions"])[rows] + r * g.uniform(20, 60, (n, 1)) if n else np.zeros((0, 3))
        out.append(dict(motors=T(motors), inc=T(h4(inc, 0)), spots=T(h4(spots, 1)), index=torch.tensor(index, dtype=torch.int32), best=best,
                        flux=T(g.random((n, case["res"][1], case["res"][0])))))
    return out


def rows_of(mask, k, test):
    n = sum(mask)
    train = [i for a in range(0, n, k) for i in range(a, a + k - test)]
    return np.array(train, int), np.array([i for i in range(n) if i not in set(train)], int)


def tuples(case, data):
    return {f"g{i}_0": (d["flux"], d["spots"], d["inc"], d["motors"], torch.tensor(m, dtype=torch.int32), d["index"])
            for i, (d, m) in enumerate(zip(data, case["masks"]))}


def angle_to_measured(case, arrays, d, mask, spec):
    rows = np.repeat(np.arange(len(mask)), mask)
    n = opt.poses(arrays, mask, np64(d["motors"]))[:, :3, 2]
    want = unit(unit(np64(d["spots"])[:, :3] - np64(T(spec["positions"]))[rows]) - np64(d["inc"])[:, :3])
    return np.arccos(np.clip((unit(n) * want).sum(1), -1, 1))


def deviations(sc):
    return [x.kinematics.rotation_deviation_parameters for x in sc.heliostat_field.heliostat_groups]


def frozen(sc):
    return [(x.kinematics.translation_deviation_parameters.clone(), x.kinematics.actuators.optimizable_parameters.clone(), x.positions.clone(),
             x.kinematics.actuators.non_optimizable_parameters.clone(), x.surface_points.clone(), x.nurbs_control_points.detach().clone())
            for x in sc.heliostat_field.heliostat_groups]


def run(case, start, data, method, loss, epochs=None, ddp=None):
    sc = opt.plant(start, case["specs"], case["planes"], case["cylinders"])
    cfg = opt.settings(case, epochs)
    before = frozen(sc)
    rec = KinematicsReconstructor(ddp_setup=ddp or opt.alone(len(case["specs"])), scenario=sc, data=opt.measurements(tuples(case, data)),
                                  optimization_configuration=cfg, reconstruction_method=method, dni=case["dni"],
                                  bitmap_resolution=torch.tensor(case["res"]))
    final, history = rec.reconstruct_kinematics(loss_definition=loss(sc), device=DEV)
    for a, b, i in zip(before, frozen(sc), range(99)):
        for x, y in zip(a, b):
            require(torch.equal(x, y), f"reconstruction changes other parameters of group {i}")
    require(not any(x.requires_grad for x in deviations(sc)) and not final.requires_grad, "results are still part of a gradient computation")
    return sc, np64(final), history


def judge_books(case, sc, start, final, history, epochs):
    """Who is reported with which loss, whose parameters moved, how long it took."""
    masks = case["masks"]
    require(len(history) == 1, f"histories of {len(history)} ranks")
    require(len(history[0]) == sum(1 for m in masks if any(m)), f"histories of {len(history[0])} groups")
    require(final.shape == (sum(map(len, masks)),), f"final losses {final.shape}")
    same(np.isinf(final).tolist(), [x == 0 for m in masks for x in m], "heliostats without a loss")
    entries, at = iter(history[0]), 0
    for i, m in enumerate(masks):
        now, then = np64(deviations(sc)[i]), np64(T(start[i]["kinematics_rotation_deviation_parameters"]))
        for h, x in enumerate(m):
            if x == 0:
                same(now[h].tolist(), then[h].tolist(), f"heliostat {h} of group {i} has no data but its parameters")
            else:
                require(np.isfinite(now[h]).all(), f"parameters of heliostat {h} of group {i}: {now[h]}")
        if any(m):
            total = next(entries)["total_loss"]
            require(len(total) == epochs + 1 or 0 < len(total) <= epochs and total[-1] <= 1e-12, f"group {i}: {len(total)} epochs of {epochs} and one")
            mine = final[at:at + len(m)]
            close(total[-1], mine[np.isfinite(mine)].mean(), f"group {i}: loss of the last epoch and the mean of the final losses", atol=1e-6, rtol=1e-5)
        at += len(m)


def judge_test(case, sc, data, history, reduce, epochs):
    """Losses on the test samples belong to the kinematics found."""
    entries = iter(history[0])
    for i, (m, d) in enumerate(zip(case["masks"], data)):
        if not any(m):
            continue
        entry = next(entries)
        if case["log_step"] == 0 and len(entry["total_loss"]) <= epochs:
            continue              # stopped in between: the test losses are those of the last validation
        _, rows = rows_of(m, case["k"], 1)
        mask = [int(x > 0) for x in m]
        flux = np64(opt.trace(sc, i, mask, d["motors"][rows], d["inc"][rows], d["index"][rows], case["res"], case["batch"], case["dni"], seed=7)[0])
        got, meas = entry["test_loss"], np64(d["flux"])[rows]
        lit = flux.sum((1, 2)) > 1e-3
        close(got["pixel_loss"], reduce(opt.pixel(flux, meas)[:, None]), f"group {i}: pixel loss on test samples", atol=1e-5, rtol=1e-4)
        want = np.where(lit, opt.divergence(flux, meas), 0)
        close(np.where(lit, np64(got["kl_div"]), 0), want, f"group {i}: divergence on test samples", atol=1e-3, rtol=1e-3)
        spot = opt.focal_spot_distance(np.where(lit[:, None, None], flux, 1), meas, np64(d["index"]).astype(int)[rows], case["planes"], case["cylinders"])
        close(np.where(lit, np64(got["focal_spot_loss"]), 0), np.where(lit, spot, 0), f"group {i}: focal spots of test samples", atol=1e-3, rtol=1e-3)


@PROP.sub("alignment", cases(ALIGN), quick=130, shards=3)
def alignment(case, ctx):
    truth, start, g = true_and_initial(case)
    data = measure(case, truth, g)
    cosine = case["loss"] == "cosine"
    sc, final, history = run(case, start, data, ALIGN, lambda s: CosineSimilarityLoss() if cosine else AngleLoss())
    judge_books(case, sc, start, final, history, case["epochs"])
    judge_test(case, sc, data, history, lambda x: x.mean(1), case["epochs"])
    entries, moved = iter(history[0]), False
    for i, (m, d) in enumerate(zip(case["masks"], data)):
        if not any(m):
            continue
        rows, _ = rows_of(m, case["k"], 1)
        total = next(entries)["total_loss"]
        a = angle_to_measured(case, start[i], d, m, case["specs"][i])[rows]
        want = (1 - np.cos(a)) if cosine else a
        close(total[0], want.mean(), f"group {i}: loss of the initial kinematics", atol=2e-6 if cosine else 5e-4, rtol=1e-3)
        true = angle_to_measured(case, truth[i], d, m, case["specs"][i])
        require(true.max() < 1e-4, "consistent measurements (harness)") if d["best"].min() > 0.05 else None
        fit = start[i] | dict(kinematics_rotation_deviation_parameters=np64(deviations(sc)[i]))
        b = angle_to_measured(case, fit, d, m, case["specs"][i])[rows]
        if a.mean() > 3e-3 and case["epochs"] * case["lr"] >= 1.5 * case["off"] and d["best"].min() > 0.1:
            require(b.mean() < 0.7 * a.mean(), f"group {i}: normals off by {a.mean():.5f} before and {b.mean():.5f} after the reconstruction")
            moved = True
    ctx.nontrivial(moved and sum(1 for m in case["masks"] for x in m if x) > 1)
    ctx.label(case["loss"])


def spot_loss(case, sc_arrays, d, m, i, rows, mask):
    """Focal spot distances of the samples, traced with the given kinematics."""
    sc = opt.plant(sc_arrays, case["specs"], case["planes"], case["cylinders"])
    flux = np64(opt.trace(sc, i, mask, d["motors"][rows], d["inc"][rows], d["index"][rows], case["res"], case["batch"], case["dni"])[0])
    meas = np64(d["flux"])[rows]
    if flux.sum((1, 2)).min() < 0.05:
        return None
    return opt.focal_spot_distance(flux, meas, np64(d["index"]).astype(int)[rows], case["planes"], case["cylinders"])


@PROP.sub("flux", cases(TRACE), quick=110, shards=4)
def flux(case, ctx):
    """Measured images of the true kinematics: the reconstruction starts at the loss of the initial ones and improves on it."""
    truth, start, g = true_and_initial(case)
    data = measure(case, truth, g)
    real = opt.plant(truth, case["specs"], case["planes"], case["cylinders"])
    for i, (m, d) in enumerate(zip(case["masks"], data)):
        if any(m):
            d["flux"] = opt.trace(real, i, m, d["motors"], d["inc"], d["index"], case["res"], 50, case["dni"])[0] + 1e-3
    sc, final, history = run(case, start, data, TRACE, lambda s: FocalSpotLoss(scenario=s))
    judge_books(case, sc, start, final, history, case["epochs"])
    judge_test(case, sc, data, history, opt.lower_median, case["epochs"])
    entries, moved = iter(history[0]), False
    for i, (m, d) in enumerate(zip(case["masks"], data)):
        if not any(m):
            continue
        rows, _ = rows_of(m, case["k"], 1)
        entry, mask = next(entries), [x and case["k"] - 1 for x in m]
        before = spot_loss(case, start, d, m, i, rows, mask)
        if before is None:
            ctx.label("initially off the receiver")
            continue
        want = opt.lower_median(before.reshape(-1, case["k"] - 1)).mean()
        close(entry["total_loss"][0], want, f"group {i}: loss of the initial kinematics", atol=2e-3, rtol=2e-3)
        rows_at = np.asarray(case["specs"][i]["positions"])[np.repeat(np.arange(len(m)), [x and case["k"] - 1 for x in m])]
        far = np.linalg.norm(opt.centers(case["planes"], case["cylinders"])[np64(d["index"]).astype(int)[rows]] - rows_at, axis=1).max()
        if want > max(0.1, 5 * case["lr"] * far) and case["epochs"] >= 4:     # one step of all parameters moves a focal spot by less
            require(min(entry["total_loss"]) < want, f"group {i}: no progress in {entry['total_loss']}")
            moved = True
    ctx.nontrivial(moved and sum(1 for m in case["masks"] for x in m if x) > 1)


@st.composite
def long_cases(draw):
    method = draw(st.sampled_from([ALIGN, TRACE]))
    case = draw(cases(method, groups=(2, 2) if draw(st.booleans()) else (1, 1)))
    return case | dict(method=method, off=draw(st.sampled_from([0.004, 0.008, 0.02])), epochs=draw(st.integers(2, 6)), log_step=draw(st.integers(1, 3)), gamma=1.0)


def judge_steps(case, start, i, m, d, loss, found, ctx):
    """Every step follows the gradient of the loss."""
    rows, mask, per = rows_of(m, case["k"], 1)[0], torch.tensor([x and case["k"] - 1 for x in m], dtype=torch.int32), case["k"] - 1
    walker, clear = torch.nn.Parameter(found[0].clone()), True
    adam = torch.optim.Adam([walker], lr=case["lr"])
    for e in range(len(found) - 1):
        with torch.no_grad():
            walker.copy_(found[e])
        sc = opt.plant(start, case["specs"], case["planes"], case["cylinders"])
        g = sc.heliostat_field.heliostat_groups[i]
        g.kinematics.rotation_deviation_parameters = walker
        g.activate_heliostats(mask, device=DEV)
        if case["method"] == TRACE:
            g.align_surfaces_with_motor_positions(d["motors"][rows], mask, device=DEV)
            flux = HeliostatRayTracer(sc, g, blocking_active=False, batch_size=100, random_seed=0, dni=case["dni"],
                                      bitmap_resolution=torch.tensor(case["res"])).trace_rays(d["inc"][rows], mask, d["index"][rows], device=DEV)[0]
            if float(flux.detach().sum((1, 2)).min()) < 0.05:
                return
            each = loss(sc)(prediction=flux, ground_truth=d["flux"][rows], target_area_indices=d["index"][rows], reduction_dimensions=(1, 2), device=DEV)
            each = each.reshape(-1, per)
            total = each.gather(1, each.detach().argsort(1)[:, (per - 1) // 2:(per - 1) // 2 + 1]).mean()
        else:
            n = g.kinematics.motor_positions_to_orientations(d["motors"][rows], device=DEV)[:, :3, 2]
            want = T(unit(unit(np64(d["spots"])[rows, :3] - np64(T(case["specs"][i]["positions"]))[np.repeat(np.arange(len(m)), np64(mask).astype(int))]) - np64(d["inc"])[rows, :3]))
            c = (n * want).sum(1)
            total = (1 - c) if case["loss"] == "cosine" else torch.atan2(torch.linalg.cross(n, want).norm(dim=1), c)
            if case["loss"] == "angle" and float(total.min()) < 4e-3:
                return                # single precision knows small angles, but not their gradients
            total = total.mean()
        adam.zero_grad()
        total.backward()
        if not torch.isfinite(walker.grad).all() or float(total) < (1e-2 if case["method"] == TRACE else 2e-6):
            return
        clear = clear & (walker.grad.abs() > 0.03 * walker.grad.abs().amax(1, keepdim=True))
        adam.step()
        off = ((walker.detach() - found[e + 1]).abs() / case["lr"])[clear]
        require(len(off) == 0 or float(off.quantile(0.8)) < 0.05, f"group {i}: step after epoch {e} does not follow the gradient of the loss: off by {off.tolist()[:9]} learning rates")
        ctx.label("step checked")


@PROP.sub("epochs", long_cases(), quick=90, shards=3)
def epochs(case, ctx):
    """The losses of every epoch, and the final ones of every heliostat, are those of the kinematics of that epoch."""
    truth, start, g = true_and_initial(case)
    data = measure(case, truth, g)
    trace, cosine, per = case["method"] == TRACE, case["loss"] == "cosine", case["k"] - 1
    if trace:
        real = opt.plant(truth, case["specs"], case["planes"], case["cylinders"])
        for i, (m, d) in enumerate(zip(case["masks"], data)):
            if any(m):
                d["flux"] = opt.trace(real, i, m, d["motors"], d["inc"], d["index"], case["res"], 50, case["dni"])[0] + 1e-3

    def loss(s):
        return FocalSpotLoss(scenario=s) if trace else CosineSimilarityLoss() if cosine else AngleLoss()

    sc, final, history = run(case, start, data, case["method"], loss)
    longest = max(len(h["total_loss"]) for h in history[0])
    steps = [[a["kinematics_rotation_deviation_parameters"] for a in start]]
    for e in range(longest - 1):
        before = run(case, start, data, case["method"], loss, epochs=e)[0]
        steps.append([np64(x) for x in deviations(before)])
    entries, at, judged = iter(history[0]), 0, 0
    for i, (m, d) in enumerate(zip(case["masks"], data)):
        if any(m) and (not trace or case["k"] > 2):
            judge_steps(case, start, i, m, d, loss, [T(x[i]) for x in steps], ctx)
        mine, at = final[at:at + len(m)], at + len(m)
        if not any(m):
            continue
        total, rows = next(entries)["total_loss"], rows_of(m, case["k"], 1)[0]
        for e in range(len(total)):
            fit = start[i] | dict(kinematics_rotation_deviation_parameters=np64(T(steps[e][i])))
            if trace:
                now = spot_loss(case, start[:i] + [fit] + start[i + 1:], d, m, i, rows, [x and per for x in m])
                if now is None:
                    ctx.label("dark")
                    break
                want = opt.lower_median(now.reshape(-1, per))
            else:
                a = angle_to_measured(case, fit, d, m, case["specs"][i])[rows]
                want = (1 - np.cos(a) if cosine else a).reshape(-1, per).mean(1)
            tol = dict(atol=3e-3, rtol=3e-3) if trace else dict(atol=2e-6 if cosine else 5e-4, rtol=2e-3)
            close(total[e], want.mean(), f"group {i}: loss of epoch {e}", **tol)
        else:
            close(mine[[x > 0 for x in m]], want, f"group {i}: final losses of the heliostats", **tol)
            judged += sum(x > 0 for x in m) > 1 and len(total) > 2
    ctx.nontrivial(judged > 0)
    ctx.label("flux" if trace else case["loss"])


@PROP.sub("independent", st.tuples(cases(ALIGN), st.integers(0, 5)), quick=100, shards=2)
def independent(case, ctx):
    """What is found for a heliostat does not depend on the other heliostats that are reconstructed."""
    case, pick = case
    case = case | dict(epochs=min(case["epochs"], 4), off=0.03, loss="angle")
    truth, start, g = true_and_initial(case)
    data = measure(case, truth, g)
    sc, final, history = run(case, start, data, ALIGN, lambda s: AngleLoss())
    have = [(i, h) for i, m in enumerate(case["masks"]) for h, x in enumerate(m) if x]
    i, h = have[pick % len(have)]
    at = sum(case["masks"][i][:h])
    lone_masks = [[x if (j, l) == (i, h) else 0 for l, x in enumerate(m)] for j, m in enumerate(case["masks"])]
    lone = []
    for j, d in enumerate(data):
        rows = slice(at, at + case["k"]) if j == i else slice(0, 0)
        lone.append({k: v[rows] for k, v in d.items()})
    sc1, final1, history1 = run(case | dict(masks=lone_masks), start, lone, ALIGN, lambda s: AngleLoss())
    if min(history[0][0]["total_loss"] + history1[0][0]["total_loss"]) < 2e-3:
        return                    # at the optimum the step directions are noise
    n = sum(map(len, case["masks"][:i])) + h
    close(deviations(sc)[i][h], np64(deviations(sc1)[i][h]), f"heliostat {h} of group {i} with and without others", atol=0.05 * case["lr"] * case["epochs"])
    close(final[n], final1[n], "its final loss", atol=0.1 * case["lr"] * case["epochs"])
    ctx.nontrivial(len(have) > 1)


@PROP.sub("unknown_method", st.text(max_size=20), quick=20)
def unknown_method(case, ctx):
    if case in (ALIGN, TRACE):
        return
    raises(lambda: KinematicsReconstructor(ddp_setup=opt.alone(0), scenario=None, data={}, reconstruction_method=case,
                                           optimization_configuration={constants.optimization: {}, constants.scheduler: {}}),
           (ValueError,), f"reconstruction method {case!r}")
    ctx.nontrivial(len(case) > 0)
