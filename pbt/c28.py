from hypothesis import strategies as st
import numpy as np
import torch

import artist.raytracing  # noqa: F401
from artist.flux import bitmap
from artist.nurbs import NURBSSurfaces, create_nurbs_evaluation_grid
from artist.optim import SurfaceReconstructor
from artist.optim.loss import KLDivergenceLoss, PixelLoss
from artist.raytracing import HeliostatRayTracer
from artist.util import constants

from . import opt
from .c27 import rows_of
from .core import DEV, Prop, T, close, np64, require, rng, same
from .gen import fl, h4, seeds, unit
from .scene import field_cylinder, field_plane, group_arrays, group_spec, sun_direction

PROP = Prop("C28", "some heliostats have measurements and some have none, the measured surfaces differ from the initial ones, several epochs",
            assumptions=["Every heliostat with measurements has equally many of them, taken with the mirror aligned to the centre of the receiver.",
                         "The measured images are those of a surface that differs by up to a few millimetres from the initial one."])


@st.composite
def cases(draw, groups=(1, 2)):
    k = draw(st.integers(2, 4))
    specs = [draw(group_spec(count=(1, 3))) for _ in range(draw(st.integers(*groups)))]
    for s in specs:
        s["side"], s["bump"] = draw(st.integers(2, 3)), 0.0
        s["net"] = [draw(st.integers(4, 6)), draw(st.integers(4, 6))]
    masks = [[k * draw(st.sampled_from([0, 1, 1])) for _ in s["positions"]] for s in specs]
    if not any(map(any, masks)):
        masks[-1][-1] = k
    planes, cylinders = [draw(field_plane())] + draw(st.lists(field_plane(), max_size=1)), [draw(field_cylinder())]
    n = len(planes) + len(cylinders)
    return dict(specs=specs, k=k, masks=masks, planes=planes, cylinders=cylinders, res=[draw(st.integers(10, 16)), draw(st.integers(10, 16))],
                points=[draw(st.integers(3, 6)), draw(st.integers(3, 6))], seed=draw(seeds), bump=draw(st.sampled_from([4e-3, 4e-3, 2e-3, 0.0])),
                index=[[draw(st.integers(0, n - 1)) for _ in range(sum(m))] for m in masks],
                inc=[[sun_direction(draw) for _ in range(sum(m))] for m in masks],
                epochs=draw(st.sampled_from([4, 6, 5, 3, 1, 2])), lr=draw(st.sampled_from([1e-4, 3e-4])), gamma=draw(st.sampled_from([1.0, 0.95])),
                log_step=draw(st.sampled_from([0, 1])), batch=draw(st.integers(1, 8)), loss=draw(st.sampled_from(["kl", "kl", "pixel"])),
                smooth=draw(st.sampled_from([0.0, 0.0, 0.0, 0.005, 0.5])), ideal=draw(st.sampled_from([0.0, 0.0, 0.0, 0.005, 0.5])),
                rho=draw(st.sampled_from([0.0, 1.0, 10.0])), tolerance=draw(st.sampled_from([0.0, 0.01, 2.0])), dni=draw(st.sampled_from([None, 800.0])))


def arrays(case, bump=0.0):
    out, g = [], rng(case["seed"])
    for s in case["specs"]:
        a = group_arrays(s)
        H, F = a["positions"].shape[0], s["facets"]
        cp = np.zeros((H, F, *s["net"], 3))
        cp[..., 0] = s["half"][0] * np.linspace(-1, 1, s["net"][0])[:, None]
        cp[..., 1] = s["half"][1] * np.linspace(-1, 1, s["net"][1])[None]
        cp[..., 2] = g.normal(size=cp.shape[:-1]) * 3e-4
        delta = g.normal(size=cp.shape[:-1])
        delta = delta + g.normal(size=(H, F, 1, 1)) * 2 * (cp[..., 0] / s["half"][0]) ** 2
        cp[..., 2] += delta * bump
        out.append(a | dict(nurbs_control_points=cp))
    return out


def predict(sc, case, i, mask, rows, net=None):
    """Cropped images of the mirrors with the control points they have, or with `net`, that may ask for gradients."""
    g = sc.heliostat_field.heliostat_groups[i]
    mask, index, inc = torch.as_tensor(mask, dtype=torch.int32), torch.tensor(case["index"][i])[rows], T(case["inc"][i])[rows]
    g.nurbs_control_points = g.nurbs_control_points if net is None else net
    with torch.set_grad_enabled(net is not None):
        g.activate_heliostats(mask, device=DEV)
        p, n = sample(g.active_nurbs_control_points, g, g.active_canting, g.active_facet_translations, case["points"])
        g.active_surface_points, g.active_surface_normals = p, n
        g.align_surfaces_with_incident_ray_directions(sc.solar_tower.get_centers_of_target_areas(index, device=DEV), inc, mask, device=DEV)
        flux = HeliostatRayTracer(sc, g, blocking_active=False, batch_size=100, random_seed=0, dni=case["dni"],
                                  bitmap_resolution=torch.tensor(case["res"])).trace_rays(inc, mask, index, device=DEV)[0]
        return bitmap.crop_flux_distributions_around_center(flux_distributions=flux, solar_tower=sc.solar_tower, target_area_indices=index, device=DEV)


def sample(cps, g, canting, shifts, points):
    grid = create_nurbs_evaluation_grid(number_of_evaluation_points=torch.tensor(points), device=DEV)[None, None].expand(*cps.shape[:2], -1, -1)
    p, n = NURBSSurfaces(degrees=g.nurbs_degrees, control_points=cps, device=DEV).calculate_surface_points_and_normals(
        evaluation_points=grid, canting=canting, facet_translations=shifts, device=DEV)
    return p.reshape(len(cps), -1, 4), n.reshape(len(cps), -1, 4)


def build(case, arr):
    return opt.plant(arr, case["specs"], case["planes"], case["cylinders"])


def measured(case):
    """Images of the true surfaces."""
    real, data = build(case, arrays(case, case["bump"])), {}
    out = []
    for i, m in enumerate(case["masks"]):
        n = sum(m)
        flux = predict(real, case, i, m, slice(None)) + 1e-4 if n else torch.zeros(0, case["res"][1], case["res"][0])
        out.append(flux)
        data[f"g{i}_0"] = (flux, torch.zeros(n, 4), T(case["inc"][i]).reshape(-1, 4), torch.zeros(n, 2), torch.tensor(m, dtype=torch.int32),
                           torch.tensor(case["index"][i], dtype=torch.int32))
    return out, data


def run(case, start, data, ddp=None):
    sc = build(case, start)
    cfg = opt.settings(case) | {
           constants.constraints: {constants.rho_flux_integral: case["rho"], constants.energy_tolerance: case["tolerance"],
                                   constants.weight_smoothness: case["smooth"], constants.weight_ideal_surface: case["ideal"]}}
    rec = SurfaceReconstructor(ddp_setup=ddp or opt.alone(len(case["specs"])), scenario=sc, data=opt.measurements(data), optimization_configuration=cfg,
                               dni=case["dni"], number_of_surface_points=torch.tensor(case["points"]), bitmap_resolution=torch.tensor(case["res"]), device=DEV)
    final, history = rec.reconstruct_surfaces(loss_definition=KLDivergenceLoss() if case["loss"] == "kl" else PixelLoss(), device=DEV)
    return sc, np64(final), history


def other_state(sc):
    return [(g.positions, g.canting, g.facet_translations, g.nurbs_degrees, g.kinematics.rotation_deviation_parameters,
             g.kinematics.translation_deviation_parameters, g.kinematics.actuators.optimizable_parameters)
            for g in sc.heliostat_field.heliostat_groups]


@PROP.sub("reconstruct", cases(), quick=150, shards=5)
def reconstruct(case, ctx):
    flux, data = measured(case)
    start, loss = arrays(case), opt.divergence if case["loss"] == "kl" else opt.pixel
    sc, final, history = run(case, start, data)
    k, masks = case["k"], case["masks"]
    require(len(history) == 1 and len(history[0]) == sum(1 for m in masks if any(m)), f"histories of {[len(h) for h in history]} groups")
    require(final.shape == (sum(map(len, masks)),), f"final losses {final.shape}")
    same(np.isinf(final).tolist(), [x == 0 for m in masks for x in m], "heliostats without a loss")
    for i, (a, b) in enumerate(zip(other_state(build(case, start)), other_state(sc))):
        require(all(torch.equal(x, y) for x, y in zip(a, b)), f"reconstruction changes other parameters of group {i}")
    entries, at, better = iter(history[0]), 0, False
    fresh = build(case, start)
    for i, m in enumerate(masks):
        g, spec = sc.heliostat_field.heliostat_groups[i], case["specs"][i]
        now, then = g.nurbs_control_points.detach(), T(start[i]["nurbs_control_points"])
        # the surface belongs to the control points
        p, n = sample(now, g, g.canting, g.facet_translations, [spec["side"]] * 2)
        close(g.surface_points, p, f"group {i}: surface points of the control points", atol=2e-6)
        close(g.surface_normals, n, f"group {i}: normals of the control points", atol=2e-6)
        require(not g.surface_points.requires_grad, f"group {i}: surface is still part of a gradient computation")
        for h, x in enumerate(m):
            if not x:
                require(torch.equal(now[h], then[h]), f"heliostat {h} of group {i} has no data but its control points change")
        edge = torch.ones(spec["net"], dtype=torch.bool)
        edge[1:-1, 1:-1] = False
        require(torch.equal(now[:, :, edge, :2], then[:, :, edge, :2]), f"group {i}: outline of a facet changes")
        mine = final[at:at + len(m)]
        at += len(m)
        if not any(m):
            continue
        h = next(entries)
        total = h["total_loss"]
        rows, test = rows_of(m, k, 1)
        before = np64(predict(fresh, case, i, [x and k - 1 for x in m], rows))
        lit = before.sum((1, 2)).min() > 0.2
        early = total[-1] <= 1e-12
        require(len(total) == case["epochs"] + 1 or early, f"group {i}: {len(total)} epochs of {case['epochs']} and one")
        require(all(len(v) == len(total) for q, v in h.items() if q != "test_loss"), f"histories of different lengths: { {q: len(v) for q, v in h.items()} }")
        close(total[-1], mine[np.isfinite(mine)].mean(), f"group {i}: loss of the last epoch and final losses", atol=1e-6, rtol=1e-5)
        parts = [np.array(h[q]) for q in ("flux_loss", "smoothness_regularizer", "ideal_regularizer", "flux_integral_constraint")]
        close(total, sum(parts), f"group {i}: total loss and its parts", atol=1e-6, rtol=1e-4)
        for q, w in (("smoothness_regularizer", case["smooth"]), ("ideal_regularizer", case["ideal"])):
            v = np.array(h[q])
            require(bool((v >= -1e-6).all() and (v <= w * parts[0] * 1.0001 + 1e-6).all()) and abs(v[0]) <= 1e-6, f"group {i}: {q} {v} with weight {w}, flux loss {parts[0]}")
            if w > 0 and len(v) > 1 and 1e-3 < parts[0].min() and lit:
                require(v[-1] > 0.5 * w * parts[0][-1], f"group {i}: {q} {v} without effect, flux loss {parts[0]}")
        require(abs(h["flux_integral"][0]) < 1e-5 and h["flux_integral_constraint"][0] == 0, f"group {i}: flux integral is not that of the first epoch")
        c = np.array(h["flux_integral_constraint"])
        require(bool((c >= 0).all()), f"group {i}: negative constraint {c}")
        if case["tolerance"] >= 1 or case["rho"] == 0:
            require(bool((c == 0).all()), f"group {i}: constraint {c} although the energy may be lost")
        want = loss(before, np64(flux[i])[rows]).reshape(-1, k - 1).mean(1)
        close(h["flux_loss"][0], want.mean(), f"group {i}: loss of the initial surfaces", atol=1e-5, rtol=2e-3)
        if case["log_step"] or not early:
            img = np64(predict(sc, case, i, [int(x > 0) for x in m], test))
            meas = np64(flux[i])[test]
            close(h["test_loss"]["pixel_loss"], opt.pixel(img, meas), f"group {i}: pixel loss on test samples", atol=1e-5, rtol=2e-3)
            close(h["test_loss"]["kl_div"], opt.divergence(img, meas), f"group {i}: divergence on test samples", atol=1e-4, rtol=2e-3)
        ctx.label(f"lit {lit}, {case['loss']}, {'large' if want.min() > 0.02 else 'small'} loss")
        if case["epochs"] >= 4 and case["bump"] > 0 and case["lr"] * case["epochs"] < case["bump"] and case["smooth"] + case["ideal"] < 0.1 and case["loss"] == "kl" and lit and 0.02 < want.min() and want.max() < 1:
            require(min(h["flux_loss"]) < h["flux_loss"][0], f"group {i}: no progress in {h['flux_loss']}")
            better = True
    ctx.label("progress required" if better else "no progress required")
    ctx.nontrivial(case["bump"] > 0 and case["epochs"] > 1 and len({x > 0 for m in masks for x in m}) > 1)


def unevenness(delta):
    """Mean squared discrete Laplacian, summed over facets; the net goes on flat beyond its edges."""
    y = np.pad(delta, ((0, 0), (0, 0), (1, 1), (1, 1), (0, 0)), mode="edge")
    lap = 4 * delta - y[:, :, :-2, 1:-1] - y[:, :, 2:, 1:-1] - y[:, :, 1:-1, :-2] - y[:, :, 1:-1, 2:]
    return (lap ** 2).mean((2, 3, 4)).sum(1)


def gradient(case, light, net, initial, used, measured_flux, first, lam):
    """Gradient of the total loss: flux, lost energy, and regularizers that are scaled to the flux loss by factors which are constants."""
    k = case["k"]
    p, m = light, measured_flux
    if case["loss"] == "kl":
        p, m = (x / x.sum((1, 2), keepdim=True).clamp(min=1e-12) for x in (p, m))
        fit = ((m + 1e-12) * (torch.log(m + 1e-12) - torch.log(p + 1e-12))).sum((1, 2))
    else:
        fit = ((p - m) ** 2).sum((1, 2)) / m.sum((1, 2))
    fit = fit.reshape(-1, k - 1).mean(1)
    change = light.sum((1, 2)) / T(first) - 1
    c = (-case["tolerance"] - change).clamp(min=0).reshape(-1, k - 1).mean(1)
    total = fit + T(lam) * c + 0.5 * case["rho"] * c ** 2
    delta = (net - initial)[used]
    y = delta[:, :, [0, *range(delta.shape[2]), -1]][:, :, :, [0, *range(delta.shape[3]), -1]]
    lap = 4 * delta - y[:, :, :-2, 1:-1] - y[:, :, 2:, 1:-1] - y[:, :, 1:-1, :-2] - y[:, :, 1:-1, 2:]
    for weight, x in ((case["smooth"], lap), (case["ideal"], delta)):
        r = (x ** 2).mean((2, 3, 4)).sum(1)
        total = total + weight * float(fit.mean()) / (float(r.mean()) + 1e-12) * r
    slope, = torch.autograd.grad(total.mean(), net)
    slope[:, :, 0, :, :2] = slope[:, :, -1, :, :2] = slope[:, :, :, 0, :2] = slope[:, :, :, -1, :2] = 0
    return slope


@st.composite
def long_cases(draw):
    case = draw(cases(groups=(1, 2)))
    return case | dict(epochs=draw(st.integers(2, 4)), lr=draw(st.sampled_from([1e-3, 3e-3])), rho=draw(st.sampled_from([1.0, 10.0, 50.0])),
                       tolerance=draw(st.sampled_from([0.0, 0.0, 0.02])), smooth=draw(st.sampled_from([0.0, 0.05, 1.0])), ideal=draw(st.sampled_from([0.0, 0.05, 1.0])),
                       gamma=1.0, log_step=1)


@PROP.sub("epochs", long_cases(), quick=54, shards=3)
def epochs(case, ctx):
    """The losses of every epoch are those of the surfaces of that epoch: flux, lost energy (augmented Lagrangian) and regularization."""
    flux, data = measured(case)
    start, loss = arrays(case), opt.divergence if case["loss"] == "kl" else opt.pixel
    _, final, history = run(case, start, data)
    # the last group that has measurements: what was learned in the first one plays no part
    w = max(i for i, m in enumerate(case["masks"]) if any(m))
    k, m = case["k"], case["masks"][w]
    used = [h for h, x in enumerate(m) if x]
    rows, _ = rows_of(m, k, 1)
    h = history[0][-1]
    nets = [T(start[w]["nurbs_control_points"])]
    nets += [run(case | dict(epochs=e), start, data)[0].heliostat_field.heliostat_groups[w].nurbs_control_points.detach() for e in range(len(h["total_loss"]) - 1)]
    lam, first, limited, gradients = 0.0, None, False, []
    for e, net in enumerate(nets):
        sc = build(case, [a | dict(nurbs_control_points=net) if i == w else a for i, a in enumerate(start)])
        here = net.clone().requires_grad_()
        light = predict(sc, case, w, [x and k - 1 for x in m], rows, here)
        img = np64(light.detach())
        energy = img.sum((1, 2))
        first = energy if e == 0 else first
        if first.min() < 0.2:
            ctx.label("dark")
            return
        fit = loss(img, np64(flux[w])[rows]).reshape(-1, k - 1).mean(1)
        lost = (energy - first) / first
        c = np.maximum(-case["tolerance"] - lost, 0).reshape(-1, k - 1).mean(1)
        penalty = lam * c + 0.5 * case["rho"] * c ** 2
        gradients.append(gradient(case, light, here, nets[0], used, flux[w][rows], first, lam))
        lam = np.maximum(lam + case["rho"] * c, 0)
        delta = np64(net - nets[0])[used]
        parts = [fit, penalty]
        for weight, r in ((case["smooth"], unevenness(delta)), (case["ideal"], (delta ** 2).mean((2, 3, 4)).sum(1))):
            parts.append(weight * fit.mean() * r / (r.mean() + 1e-12) if weight > 0 else 0 * r)
        # what differs by the last digits of the control points
        off = 1e-5 + 2e-3 * fit.mean() + 3e-4 * (case["rho"] + np.max(lam)) * (1e-3 + c.max())
        close(h["flux_integral"][e], lost.mean(), f"change of the energy in epoch {e}", atol=1e-3)
        for name, want in zip(("flux_loss", "flux_integral_constraint", "smoothness_regularizer", "ideal_regularizer"), parts):
            if "regularizer" in name and 0 < delta.any() and np.abs(delta).max() < 1e-6:
                continue
            close(h[name][e], want.mean(), f"{name} of epoch {e}", atol=off + (2e-3 * want.mean() if "reg" in name else 0), rtol=5e-3)
        close(h["total_loss"][e], sum(p.mean() for p in parts), f"total loss of epoch {e}", atol=3 * off, rtol=5e-3)
        limited |= bool((c > 1e-3).any())
    close(final[sum(map(len, case["masks"][:w])):][used], sum(parts), "final losses of the heliostats", atol=3 * off + 2e-3 * (case["smooth"] + case["ideal"]) * fit.mean(), rtol=5e-3)
    # the optimizer follows the gradient of the total loss
    walker = torch.nn.Parameter(nets[0].clone())
    adam = torch.optim.Adam([walker], lr=case["lr"])
    for e, slope in enumerate(gradients[:-1] if case["bump"] > 0 else []):      # perfect surfaces have gradients of rounding errors
        size = slope.abs().amax((1, 2, 3, 4), keepdim=True)
        clear = torch.stack([x.abs() > 1e-2 * x.abs().amax((1, 2, 3, 4), keepdim=True) for x in gradients[:e + 1]]).all(0) & (size > 1e-4)
        with torch.no_grad():
            walker.copy_(nets[e])
        walker.grad = slope
        adam.step()
        step, want = nets[e + 1] - nets[e], walker.detach() - nets[e]
        off = (step - want).abs()[clear] / case["lr"]
        require(len(off) == 0 or float(off.quantile(0.9)) < 0.02,
                f"step after epoch {e} does not follow the gradient of the total loss: off by {off.tolist()[:9]} learning rates")
    ctx.nontrivial(limited and len(nets) > 2)
    ctx.label("a group before" if any(map(any, case["masks"][:w])) else "the first group")
    ctx.label("energy is lost" if limited else "energy is kept")


@PROP.sub("regularizers", cases(groups=(1, 1)), quick=40, shards=2)
def regularizers(case, ctx):
    """Heavy regularizers keep the surfaces near the initial ones, or smooth."""
    case = case | dict(epochs=10, lr=1e-4, gamma=1.0, rho=0.0, bump=4e-3, log_step=0)
    _, data = measured(case)
    start = arrays(case)
    used = [h for h, x in enumerate(case["masks"][0]) if x]
    found = []
    for smooth, ideal in ((0.0, 0.0), (5.0, 0.0), (0.0, 5.0)):
        sc, _, history = run(case | dict(smooth=smooth, ideal=ideal), start, data)
        delta = np64(sc.heliostat_field.heliostat_groups[0].nurbs_control_points.detach())[used] - start[0]["nurbs_control_points"][used]
        found.append((unevenness(delta).mean(), (delta ** 2).mean()))
    lit = found[0][1] > 1e-9 and found[0][0] > 1e-9
    for k, name in enumerate(("uneven", "far from the initial one")):
        require(not lit or found[k + 1][k] < 0.75 * found[0][k], f"surface as {name} with a heavy regularizer ({found[k + 1][k]}) as without ({found[0][k]})")
    ctx.nontrivial(lit)
