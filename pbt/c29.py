from hypothesis import strategies as st
import numpy as np
import torch

import artist.raytracing  # noqa: F401
from artist.optim import AimPointOptimizer
from artist.optim.loss import FocalSpotLoss, KLDivergenceLoss, PixelLoss
from artist.raytracing import HeliostatRayTracer
from artist.util import constants

from . import opt
from .c10 import dense_field
from .core import DEV, Prop, T, close, np64, fail, require, rng, same
from .gen import fl
from .scene import field_cylinder, group_arrays

PROP = Prop("C29", "several heliostats, some of which lose rays beside the receiver or at other mirrors, several epochs, and the loss goes down",
            assumptions=["The field has one surface sampling with 2 x 2 facets per heliostat (the blocking planes are built that way).",
                         "Heliostats sent to the centre of the receiver put some light on it."])
KEYS = ["total_loss", "flux_loss", "local_flux_constraint", "intercept_constraint", "flux_integral_constraint", "flux_integral"]


@st.composite
def cases(draw):
    case = draw(dense_field())
    kind = draw(st.sampled_from(["exponential", "exponential", "cyclic", "reduce_on_plateau"]))
    # another cylinder far away comes first
    decoys = [draw(field_cylinder()) | dict(center=[300.0, -200.0, 40.0])] if draw(st.booleans()) else []
    return dict(specs=case["specs"], planes=case["planes"], cylinders=decoys + case["cylinders"], inc=case["inc"], res=[draw(st.integers(4, 14)), draw(st.integers(4, 14))],
                rays=draw(st.integers(1, 3)), cov=draw(st.sampled_from([1e-12, 4.3681e-6])), batch=case["batch"], target=draw(st.sampled_from([0, 1 + len(decoys)])),
                loss=draw(st.sampled_from(["kl", "kl", "kl", "pixel", "focal"])), epochs=draw(st.integers(1, 3)), lr=draw(st.sampled_from([1e-4, 3e-4, 1e-3])),
                scheduler=kind, gamma=draw(st.sampled_from([1.0, 0.9])), log_step=draw(st.sampled_from([0, 1, 2])), dni=draw(st.sampled_from([500.0, 1000.0])),
                shift=draw(st.sampled_from([1e-3, 3e-3])), want=draw(st.sampled_from(["moved", "moved", "blob"])), seed=draw(st.integers(0, 2**32 - 1)),
                rho=[draw(st.sampled_from([0.0, 1.0, 5.0])) for _ in range(3)], limit=draw(st.sampled_from([0.5, 0.9, 2.0])),
                tolerance=draw(st.sampled_from([1e-12] * 5 + [1e6])), own_limits=draw(st.booleans()))


def build(case):
    arrays = [group_arrays(s) for s in case["specs"]]
    if case.get("own_limits"):
        # every motor has limits of its own
        g = rng(case["seed"] + 1)
        for s, a in zip(case["specs"], arrays):
            non = a["actuator_parameters_non_optimizable"] = np.array(a["actuator_parameters_non_optimizable"], float)
            n = non[:, 2:4].shape[0]
            if s["kind"] == "linear":
                non[:, 2] += g.uniform(-2e4, 1e4, (n, 2)).round()
                non[:, 3] *= g.uniform(1, 1.6, (n, 2)).round(2)
            else:
                non[:, 2:4] *= g.uniform(0.4, 1, (n, 2, 2)).round(3)
    return opt.plant(arrays, case["specs"], case["planes"], case["cylinders"], case["rays"], case["cov"])


def aligned(sc, case):
    """Motor positions of all heliostats sent to the centre of the receiver."""
    out = []
    for g in sc.heliostat_field.heliostat_groups:
        mask = torch.ones(g.number_of_heliostats, dtype=torch.int32)
        g.activate_heliostats(mask, device=DEV)
        g.align_surfaces_with_incident_ray_directions(sc.solar_tower.get_centers_of_target_areas(mask * 0 + case["target"], device=DEV),
                                                      T(case["inc"]).expand(len(mask), 4), mask, device=DEV)
        out.append(g.kinematics.active_motor_positions.detach().clone())
    return out


def light(case, motors, grad=True):
    """Scenario, and flux and fractions of every group, whose heliostats are driven to motor positions."""
    sc = build(case)
    groups, parts = sc.heliostat_field.heliostat_groups, []
    with torch.set_grad_enabled(grad):
        for g, m in zip(groups, motors):
            mask = torch.ones(len(m), dtype=torch.int32)
            g.activate_heliostats(mask, device=DEV)
            g.align_surfaces_with_motor_positions(m, mask, device=DEV)
        for g, m in zip(groups, motors):
            mask = torch.ones(len(m), dtype=torch.int32)
            parts.append(HeliostatRayTracer(sc, g, blocking_active=True, batch_size=case["batch"], random_seed=0, dni=case["dni"], bitmap_resolution=torch.tensor(case["res"]))
                         .trace_rays(T(case["inc"]).expand(len(m), 4), mask, mask * 0 + case["target"], device=DEV))
    return sc, parts


def traced(case, motors):
    """Total flux on the receiver and fractions of all heliostats."""
    parts = light(case, motors, False)[1]
    return np64(sum(p[0].sum(0) for p in parts)), *(np64(torch.cat([p[k] for p in parts])) for k in (1, 2, 3))


def desired(case, start):
    g = rng(case["seed"])
    if case["want"] == "blob":
        e, u = np.meshgrid(np.linspace(-1, 1, case["res"][0]), np.linspace(-1, 1, case["res"][1]))
        at = g.uniform(-0.4, 0.4, 2)
        flux = np.exp(-4 * ((e - at[0]) ** 2 + (u - at[1]) ** 2))
        flux *= max(traced(case, start)[0].sum(), 1e-3) / flux.sum()
    else:
        moved = [m + T(g.uniform(-1, 1, m.shape) * (case["shift"] * (3e4 if s["kind"] == "linear" else 1.0))) for m, s in zip(start, case["specs"])]
        flux = traced(case, moved)[0]
    return T(flux + 1e-3 * max(flux.max(), 1e-3))


def area(case):
    if case["target"] == 0:
        return case["planes"][0]["width"] * case["planes"][0]["height"]
    c = case["cylinders"][case["target"] - 1]
    return c["radius"] * c["opening"] * c["height"]


class Seesaw(KLDivergenceLoss):
    """Asks for less light, then for more, then for less again."""
    epoch = 0

    def __call__(self, prediction, ground_truth, **kw):
        self.epoch += 1
        return 1e5 + 10 * (-5.0) ** ((self.epoch - 1) // 2) * prediction.sum(kw["reduction_dimensions"]) / ground_truth.sum()


def definition(case, sc):
    return {"seesaw": Seesaw, "kl": KLDivergenceLoss, "pixel": PixelLoss, "focal": lambda: FocalSpotLoss(sc)}[case["loss"]]()


def run(case, goal, density, epochs, ddp=None, sc=None):
    sc = build(case) if sc is None else sc
    cfg = opt.settings(case, epochs, case["tolerance"], case["scheduler"]) | {
           constants.constraints: {constants.rho_flux_integral: case["rho"][0], constants.rho_intercept: case["rho"][1],
                                   constants.rho_local_flux: case["rho"][2], constants.max_flux_density: density}}
    o = AimPointOptimizer(ddp_setup=ddp or opt.alone(len(case["specs"])), scenario=sc, optimization_configuration=cfg, incident_ray_direction=T(case["inc"]),
                          target_area_index=case["target"], ground_truth=goal, dni=case["dni"], bitmap_resolution=torch.tensor(case["res"]), device=DEV)
    loss = definition(case, sc)
    final, history, *fractions = o.optimize(loss_definition=loss, device=DEV)
    return dict(final=float(final), history=history, fractions=[np64(f) for f in fractions], sc=sc,
                motors=[g.kinematics.motor_positions.detach().clone() for g in sc.heliostat_field.heliostat_groups])


def evaluate(case, flux, goal):
    p, g = flux[None], np64(goal)[None]
    if case["loss"] == "kl":
        return opt.divergence(p, g)[0]
    if case["loss"] == "pixel":
        return opt.pixel(p, g)[0]
    return opt.focal_spot_distance(p, g, [case["target"]], case["planes"], case["cylinders"])[0]


def constraints(case, fluxes, intercepts, per_pixel):
    """The augmented Lagrangian as documented: violations of the light on the receiver, the intercept factors and the flux limit."""
    lf = li = ll = 0.0
    rf, ri, rl = case["rho"]
    for flux, frac in zip(fluxes, intercepts):
        d = (fluxes[0].sum() - flux.sum()) / fluxes[0].sum()
        i = (intercepts[0] - frac) / (intercepts[0] + 1e-12)
        v = flux / per_pixel - 1
        pos = lambda x: np.maximum(x, 0)  # noqa: E731
        yield (lf * pos(d) + 0.5 * rf * pos(d) ** 2, (li * pos(i) + 0.5 * ri * pos(i) ** 2).mean(), (ll * pos(v) + 0.5 * rl * pos(v) ** 2).max(), -100 * d)
        lf, li, ll = pos(lf + rf * d), pos(li + ri * i.mean()), pos(ll + rl * v.max())


def untouched(sc):
    return [(g.positions, g.surface_points, g.surface_normals, g.canting, g.nurbs_control_points, g.kinematics.rotation_deviation_parameters,
             g.kinematics.translation_deviation_parameters, g.kinematics.actuators.optimizable_parameters, g.kinematics.actuators.non_optimizable_parameters)
            for g in sc.heliostat_field.heliostat_groups]


@PROP.sub("aim", cases(), quick=120, shards=5)
def aim(case, ctx):
    start = aligned(build(case), case)
    goal = desired(case, start)
    first = traced(case, start)
    density = case["limit"] * first[0].max() / (area(case) / np.prod(case["res"])) if first[0].max() > 0 else 1e6
    res = run(case, goal, density, case["epochs"])
    h, total = res["history"], res["history"]["total_loss"]
    met = case["tolerance"] > 1
    require(set(h) == set(KEYS), f"history {sorted(h)}")
    early = total[-1] <= case["tolerance"]
    require(len(total) == (1 if met else case["epochs"] + 1) or early and len(total) <= case["epochs"] + 1, f"{len(total)} epochs of {case['epochs']} and one")
    kl = case["loss"] == "kl"
    require(all(len(h[k]) == (len(total) if kl or k in KEYS[:2] else 0) for k in KEYS), f"histories of different lengths: { {k: len(v) for k, v in h.items()} }")
    require(res["final"] == total[-1] or np.isnan(res["final"]), f"final loss {res['final']} is not that of the last epoch {total[-1]}")
    for i, (a, b) in enumerate(zip(untouched(build(case)), untouched(res["sc"]))):
        require(all(torch.equal(x, y) for x, y in zip(a, b)), f"optimization changes other parameters of group {i}")
    # every epoch is the last one of a shorter optimization
    stages = [start] + [run(case, goal, density, e)["motors"] for e in range(1, len(total) - 1)] + ([res["motors"]] if len(total) > 1 else [])
    seen = [first] + [traced(case, m) for m in stages[1:]]
    for a, b in zip(res["motors"], stages[-1]):
        close(a, b, "motor positions without a step", atol=1e-3 if met else 0)
    for e, (m, (flux, *_)) in enumerate(zip(stages, seen)):
        lit = flux.sum() > 1e-3 * np64(goal).sum()
        if lit or case["loss"] == "pixel":
            close(h["flux_loss"][e], evaluate(case, flux, goal), f"loss of epoch {e}", atol=1e-4, rtol=2e-3)
        for i, (now, then) in enumerate(zip(m, start)):
            s = case["specs"][i]
            limits = np64(res["sc"].heliostat_field.heliostat_groups[i].kinematics.actuators.non_optimizable_parameters)[:, 2:4]
            now, then = np64(now), np64(then)
            room = np.maximum(np.minimum(then - limits[:, 0], limits[:, 1] - then), 1)
            inside = ((then >= limits[:, 0]) & (then <= limits[:, 1]) & (room > 1))
            tol = 1e-5 * np.abs(then) + 1e-2 * (s["kind"] == "linear") + 1e-5
            require(bool((np.abs(now - then) <= room + tol).all()), f"group {i}: motors move by {now - then}, room {room}")
            require(bool(((now >= limits[:, 0] - tol) & (now <= limits[:, 1] + tol))[inside].all()), f"group {i}: motors {now} leave {limits}")
            rate = (1e-5 if case["scheduler"] == "cyclic" else case["lr"])
            if e == 1:
                # the first step of Adam has the size of the learning rate
                require(bool((np.abs(now - then) <= np.tanh(rate) * room * 1.01 + tol).all()), f"group {i}: first step {now - then}, room {room}, rate {rate}")
    for k, name in enumerate(("intercept", "on target", "blocking")):
        close(res["fractions"][k], seen[-1][k + 1], f"{name} factors of the heliostats", atol=1e-5)
    lit = first[0].sum() > 1e-2 * np64(goal).sum()
    if kl and lit:
        per_pixel = area(case) / np.prod(case["res"]) * density
        for e, (f, i, l, loss) in enumerate(constraints(case, [s[0] for s in seen], [s[1] for s in seen], per_pixel)):
            for name, want in (("flux_integral_constraint", f), ("intercept_constraint", i), ("local_flux_constraint", l), ("flux_integral", loss)):
                close(h[name][e], want, f"{name} of epoch {e}", atol=2e-4 if name != "flux_integral" else 2e-2, rtol=5e-3)
            close(total[e], h["flux_loss"][e] + h["flux_integral_constraint"][e] + h["intercept_constraint"][e] + h["local_flux_constraint"][e],
                  f"total loss of epoch {e} and its parts", atol=1e-5, rtol=1e-4)
    elif not kl:
        same(h["flux_loss"], total, "total loss")
    ctx.label(f"{case['loss']}, lit {lit}, {'limited' if any(x > 0 for x in h['local_flux_constraint']) else 'unlimited'}")
    down = len(total) > 1 and min(total[1:]) < total[0]
    ctx.label(f"{case['loss']} goes {'down' if down else 'up'}")
    ctx.nontrivial(lit and down and len(first[1]) > 1 and bool((seen[-1][1] < 1).any() or (seen[-1][3] < 1).any()))


@PROP.sub("descent", cases(), quick=120, shards=3)
def descent(case, ctx):
    """A small first step that follows the gradient makes the flux fit better."""
    # A few rays may sit at the border of a pixel or of the receiver, where no gradient knows the loss: those cases do not count
    # as long as the loss goes down with the receiver somewhere else.
    tries = []
    for place in range(4):
        g = rng(case["seed"] + 1 + place)
        here = case | dict(rays=24, cov=2e-5, epochs=1, rho=[0.0] * 3, scheduler="exponential", tolerance=1e-12)
        for k in ("planes", "cylinders"):
            here[k] = [dict(r, center=(np.array(r["center"]) + g.uniform(-0.15, 0.15, 3)).tolist()) for r in case[k]]
        start = aligned(build(here), here)
        goal = desired(here, start)
        first = traced(here, start)
        for rate in (1e-5, 3e-6, 1e-6):
            res = run(here | dict(lr=rate), goal, 1e6, 1)
            before, after = res["history"]["flux_loss"]
            require(any((a != b).any() for a, b in zip(res["motors"], start)), f"no motor moves at rate {rate}")
            tries.append((rate, before, after))
            if after < before:
                break
        lit = first[0].sum() > 1e-2 * np64(goal).sum()
        far = before > {"focal": 0.2, "kl": 0.1, "pixel": 1e-3}[case["loss"]]
        if after < before or not lit or not far:
            break
    else:
        fail(f"{case['loss']} does not get smaller with small steps (rate, before, after): {tries}")
    ctx.label(f"{case['loss']}, {'lit' if lit else 'dark'}, {'far' if far else 'near'}, place {place}")
    ctx.nontrivial(lit and far and len(first[1]) > 1)


@st.composite
def penalized(draw):
    case = draw(cases())
    return case | dict(loss=draw(st.sampled_from(["seesaw", case["loss"]])), scheduler="exponential", gamma=1.0, tolerance=1e-12, epochs=draw(st.integers(3, 8)), rays=draw(st.integers(2, 5)), cov=draw(st.sampled_from([4.3681e-6, 2e-5])),
                       lr=draw(st.sampled_from([1e-3, 3e-4, 3e-3])), rho=[draw(st.sampled_from([30.0, 1.0, 0.0, 300.0])) for _ in range(3)], limit=draw(st.sampled_from([0.7, 0.9, 0.98])))


@PROP.sub("steps", penalized(), quick=96, shards=6)
def steps(case, ctx):
    """Every step follows the gradient of the total loss, constraints included."""
    start = aligned(build(case), case)
    goal = desired(case, start)
    first = traced(case, start)[0]
    if first.sum() < 1e-2 * np64(goal).sum() or first.max() == 0:
        ctx.label("dark")
        return
    pixels = area(case) / np.prod(case["res"])
    density = case["limit"] * first.max() / pixels
    res = run(case, goal, density, case["epochs"])
    total = res["history"]["total_loss"]
    sc = build(case)
    limits = [g.kinematics.actuators.non_optimizable_parameters[:, 2:4] for g in sc.heliostat_field.heliostat_groups]
    room = [torch.minimum(m - b[:, 0], b[:, 1] - m).clamp(min=1) for m, b in zip(start, limits)]
    way = [torch.nn.Parameter(torch.zeros_like(m)) for m in start]
    adam = torch.optim.Adam(way, lr=case["lr"])
    lf = ll = 0.0
    clear = [torch.ones_like(m, dtype=torch.bool) for m in start]
    checked, eased = 0, False

    def evaluate_at(w, e):
        here, parts = light(case, [m + torch.tanh(x) * r for m, x, r in zip(start, w, room)])
        flux = sum(p[0].sum(0) for p in parts)
        measure = definition(case, here)
        measure.epoch = e
        loss = measure(prediction=flux[None], ground_truth=goal[None], target_area_indices=torch.tensor([case["target"]]),
                       reduction_dimensions=(1, 2), device=DEV)
        if case["loss"] not in ("kl", "seesaw"):
            return loss, None, None, ()
        lost, over = 1 - flux.sum() / float(first.sum()), flux / (density * pixels) - 1
        rf, _, rl = case["rho"]
        terms = lf * lost.clamp(min=0) + rf / 2 * lost.clamp(min=0) ** 2, (ll * over.clamp(min=0) + rl / 2 * over.clamp(min=0) ** 2).max()
        return loss + sum(terms), lost, over, terms

    def slopes(w, e):
        loss, _, _, terms = evaluate_at(w, e)
        if not loss.requires_grad:
            return [torch.zeros_like(x) for x in w], terms
        return [torch.zeros_like(x) if g is None else g for g, x in zip(torch.autograd.grad(loss.sum(), w, allow_unused=True), w)], terms

    dice, apart = rng(case["seed"] + 5), 0.0
    for e in range(len(total) - 1):
        loss, lost, over, terms = evaluate_at(way, e)
        # where rays graze the receiver or the brightest pixel changes, rounding decides about the gradient
        noise = [T(dice.choice([-1.0, 1.0], tuple(w.shape))) * (2e-6 + 2 * apart) for w in way]
        probes = [slopes([(w.detach() + s * d).requires_grad_() for w, d in zip(way, noise)], e) for s in (1, -1)]
        if terms:
            for i, name in enumerate(("flux_integral_constraint", "local_flux_constraint")):
                unsure = max(abs(float(t[i]) - float(terms[i])) for _, t in probes)
                close(res["history"][name][e], float(terms[i]), f"{name} of epoch {e}", atol=2e-4 * (1 + max(lf, ll)) + unsure, rtol=5e-3)
            rf, _, rl = case["rho"]
            eased |= lf > 0 and rf * float(lost) < -1e-2
            lf, ll = max(0.0, lf + rf * float(lost)), max(0.0, ll + rl * float(over.max()))
        adam.zero_grad()
        if not loss.requires_grad:
            break       # no ray arrives
        loss.sum().backward()
        for w in way:
            w.grad = torch.zeros_like(w) if w.grad is None else w.grad
        size = max(float(w.grad.abs().max()) for w in way)
        if size < 1e-6:
            break
        clear = [c & (w.grad.abs() > 1e-2 * size) for c, w in zip(clear, way)]
        for probe, _ in probes:
            clear = [c & ((p - w.grad).abs() < 0.1 * w.grad.abs()) for c, w, p in zip(clear, way, probe)]
        before = [w.detach().clone() for w in way]
        adam.step()
        now = run(case, goal, density, e + 1)["motors"] if e + 2 < len(total) else res["motors"]
        off, other = [], []
        for m, r, w, b, c, x in zip(start, room, way, before, clear, now):
            want = m + torch.tanh(w.detach()) * r
            d = ((x - want).abs() - 1e-6 * want.abs() - 1e-7).clamp(min=0) / (r * case["lr"])
            apart = max(apart, float(((x - want).abs() / r).max()))
            off.append(d[c])
            other.append(d[~c])
        off, other = torch.cat(off), torch.cat(other)
        require(len(off) == 0 or float(off.quantile(0.9)) < 0.07, f"step after epoch {e} does not follow the gradient of the total loss: off by {off.tolist()[:9]} learning rates")
        checked += 1
        if len(other) and other.max() > 1e-3:
            break       # went elsewhere where there is next to no gradient
    ctx.nontrivial(checked > 1)
    ctx.label("light comes back" if eased else "light does not come back")
