"""
P21: plots show the data of the chosen solutions.

Monitor: the lines of the figures returned by the plotting functions,
compared with what independent formulae give for the solutions in the file.
"""
from unittest import mock

import numpy as np

from vp import physics as ph, synth

PROPERTY = "P21"
RULE = ("every plotting function on made-up run files with random ranges of "
        "angles, choices of solution and options; distinct by function, "
        "options and file")
MIN_NONTRIVIAL = 120
MIN_COUNTERS = {"lines": 1500, "refused": 4, "figures": 120, "saved": 10}

LABELS = ("$B_r/B_0$", "$B_φ/B_0$", "$B_θ/B_0$", "$v_r/c_s$",
          "$(v_φ - v_k)/c_s$", "$v_θ/c_s$", "$ρ/ρ_0$")


def axis(fig, label):
    found = [ax for ax in fig.axes if label in (
        ax.get_ylabel(), ax.get_title())]
    return found[0] if len(found) == 1 else None


def data(line):
    return (np.atleast_1d(np.asarray(line.get_xdata(), dtype=float)),
            np.atleast_1d(np.asarray(line.get_ydata(), dtype=float)))


def close(p, q, rtol=1e-7):
    q = np.asarray(q, dtype=float)
    if p.shape != q.shape:
        return False
    scale = np.max(np.abs(q[np.isfinite(q)]), initial=0)
    return np.allclose(p, q, rtol=rtol, atol=rtol * scale, equal_nan=True)


class Figure:
    def __init__(self, ctx, name, fig, tag):
        self.ctx, self.name, self.fig, self.tag = ctx, name, fig, tag
        self.used = {}

    def lines(self, ax):
        return ax.get_lines()

    def expect(self, ax, x, y, what, rtol=1e-7):
        """ax shows y against x (in any order of the lines)"""
        self.ctx.count("lines")
        if isinstance(ax, str):
            label, ax = ax, axis(self.fig, ax)
            if not self.ctx.check(
                    ax is not None, self.name + ":axes", "{}: no (single) "
                    "axes {} among {}".format(self.name, label, [
                        (a.get_ylabel(), a.get_title())
                        for a in self.fig.axes]), tag=self.tag):
                return
        x = np.atleast_1d(np.asarray(x, dtype=float))
        y = np.atleast_1d(np.asarray(y, dtype=float))
        used = self.used.setdefault(id(ax), [])
        for line in ax.get_lines():
            px, py = data(line)
            if line not in used and close(px, x, rtol) and close(py, y, rtol):
                used.append(line)
                return
        best = [data(l) for l in ax.get_lines()]
        self.ctx.violation(
            self.name + ":data", "{}: {} is not shown as it is".format(
                self.name, what), tag=self.tag, x=x[:5], y=y[:5],
            shown=[(len(p), p[:5], q[:5]) for p, q in best[:4]])

    def nothing_else(self):
        for ax in self.fig.axes:
            extra = [l for l in ax.get_lines() if l not in self.used.get(
                id(ax), [])]
            self.ctx.check(
                not extra, self.name + ":extra", "{}: {} further lines on {}"
                .format(self.name, len(extra), ax.get_ylabel()), tag=self.tag)


def window(rng, sol, angles=None):
    a = np.degrees(sol.angles if angles is None else angles)
    k = rng.integers(4)
    if k == 0:
        return 0, 90
    lo, hi = np.sort(rng.uniform(0, a[-1], 2))
    if k == 1:
        return 0, float(hi)
    if k == 2:
        return float(lo), 90
    return float(lo), float(hi)


def inside(a, lo, hi):
    d = np.degrees(a)
    return (lo <= d) & (d <= hi)


def waves(sol):
    """Phase speeds of the slow, Alfvén and fast waves along θ"""
    I = ph.idx()
    y, a0 = sol.solution, sol.initial_conditions.a_0
    va2 = a0 * (y[:, I.B_r] ** 2 + y[:, I.B_φ] ** 2 + y[:, I.B_θ] ** 2) / y[
        :, I.ρ]
    vt2 = a0 * y[:, I.B_θ] ** 2 / y[:, I.ρ]
    root = np.sqrt((1 + va2) ** 2 - 4 * vt2)
    fast = (1 + va2 + root) / 2
    return np.sqrt(vt2 / fast), np.sqrt(vt2), np.sqrt(fast)


def fields(sol, keep=slice(None)):
    """J, E and B_r' of a solution from E_φ = 0"""
    I = ph.idx()
    y, a = sol.solution[keep], sol.angles[keep]
    g = sol.initial_conditions.γ
    B = [y[:, I[n]] for n in ("B_r", "B_θ", "B_φ")]
    v = [y[:, I[n]] for n in ("v_r", "v_θ", "v_φ")]
    eta = [y[:, I[n]] for n in ("η_O", "η_A", "η_H")]
    dBp = y[:, I.B_φ_prime]
    dBr = ph.solve_dBr(a, g, B[0], B[2], B[1], dBp, v, *eta)
    J = ph.current(a, g, B[0], B[2], B[1], dBr, dBp)
    return J, ph.efield(v, B, J, *eta), dBr


# One function per plot: keyword arguments and the lines expected
def do_plot(f, rng, sol, lo, hi, kw):
    I = ph.idx()
    keep = inside(sol.angles, lo, hi)
    x = np.degrees(sol.angles[keep])
    last = "$E_r/E_0$" if kw["_er"] else "$B_φ'/B_0$"
    slow, alf, fast = waves(sol)
    for i, label in enumerate(LABELS + (last,)):
        off = np.sqrt(sol.initial_conditions.norm_kepler_sq) if (
            i == I.v_φ) else 0
        f.expect(label, x, sol.solution[keep, i] - off, label)
        if i == I.v_θ:
            for flag, w in (("with_slow", slow), ("with_alfven", alf),
                            ("with_fast", fast),
                            ("with_sonic", np.ones(len(alf)))):
                if kw.get(flag):
                    f.expect(label, x, w[keep], flag)
        if sol.sonic_point is not None and not kw.get("hide_sonic_angle"):
            f.expect(label, np.degrees(sol.sonic_point),
                     sol.sonic_point_values[i] - off, "sonic point")
        if sol.t_roots is not None and not kw.get("hide_roots"):
            f.expect(label, np.degrees(sol.t_roots),
                     sol.y_roots[:, i] - off, "roots")


def do_combine(f, rng, sol, lo, hi, kw):
    I = ph.idx()
    inp = sol.solution_input
    keep = inside(sol.angles, lo, hi)
    x = np.degrees(sol.angles[keep])
    y = sol.solution
    c_s = inp.c_s_on_v_k * np.sqrt(6.6742e-8 * 2e33 / 1.49597871e13)
    v = c_s / 1e5
    B = inp.v_a_on_c_s * c_s * np.sqrt(4 * np.pi * 1.5e-9)
    name = "Velocity Field (km/s)"
    K = np.sqrt(sol.initial_conditions.norm_kepler_sq)
    f.expect(name, x, y[keep, I.v_r] * v, "v_r")
    f.expect(name, x, y[keep, I.v_θ] * v, "v_θ")
    f.expect(name, x, (y[keep, I.v_φ] - K) * v, "v_φ")
    slow, alf, fast = waves(sol)
    for flag, w in (("with_slow", slow), ("with_alfven", alf),
                    ("with_fast", fast), ("with_sonic", np.ones(len(alf)))):
        if kw.get(flag):
            f.expect(name, x, w[keep] * v, flag)
    f.expect("Density (g cm$^{-3}$)", x, y[keep, I.ρ] * 1.5e-9, "ρ")
    for n in ("B_r", "B_φ", "B_θ"):
        f.expect("Magnetic Field (G)", x, y[keep, I[n]] * B, n)


def do_component(f, rng, sol, lo, hi, kw):
    """The parts add up to the total, and this to the equation"""
    I = ph.idx()
    keep = inside(sol.angles, lo, hi)
    x = np.degrees(sol.angles[keep])
    a, y = sol.angles[keep], sol.solution[keep]
    g, a0 = sol.initial_conditions.γ, sol.initial_conditions.a_0
    K = sol.initial_conditions.norm_kepler_sq
    J, E, dBr = fields(sol, keep)
    d = np.zeros_like(y)
    d[:, I.B_r] = dBr
    d[:, I.B_φ] = y[:, I.B_φ_prime]
    t = ph.terms(a, y, d, g, a0, K)
    total = {"radial momentum": -sum(t["radial momentum"]),
             "azimuthal momentum": -sum(t["azimuthal momentum"]),
             "solenoid condition": -sum(t["solenoid"]),
             "polar induction": dBr}
    # without dρ and dv_θ; v_θ' follows from continuity and polar momentum
    pol = sum(t["polar momentum"])
    vr, vt = y[:, I.v_r], y[:, I.v_θ]
    with np.errstate(all="ignore"):
        num = pol * vt - 2 * g * vr + np.tan(a) * vt
        dvt = num / (1 - vt ** 2)
    total["polar momentum"] = num
    total["continuity"] = -2 * g * vr - dvt + vt * np.tan(a)
    names = [kw["only"]] if kw.get("only") else list(total)
    for name in names:
        ax = axis(f.fig, name)
        if not f.ctx.check(ax is not None, f.name + ":axes", "no axes {}"
                           .format(name), tag=f.tag):
            continue
        lines = ax.get_lines()
        parts = [data(l)[1] for l in lines if "all" not in l.get_label()]
        whole = [data(l)[1] for l in lines if "all" in l.get_label()]
        if not f.ctx.check(len(whole) == 1 and len(parts) > 1 and all(
                close(data(l)[0], x) for l in lines), f.name + ":components",
                "component plot of {}: {}".format(name, [
                    l.get_label() for l in lines]), tag=f.tag):
            continue
        f.ctx.count("lines", len(lines))
        scale = sum(abs(p) for p in parts) + 1e-300
        f.ctx.check(np.all((abs(sum(parts) - whole[0]) <= 1e-8 * scale)
                           | ~np.isfinite(scale)), f.name + ":sum",
                    "parts of {} do not add up to their sum".format(name),
                    tag=f.tag)
        size = {"radial momentum": sum(map(abs, t["radial momentum"]))}.get(
            name, scale)
        ok = (abs(whole[0] - total[name]) <= 1e-6 * size) | ~np.isfinite(size)
        f.ctx.check(np.all(ok), f.name + ":equation", "{}: the sum is not "
                    "that of the equation".format(name), tag=f.tag,
                    shown=whole[0][:5], expected=total[name][:5])
    f.used = None


def do_j_e(f, rng, sol, lo, hi, kw):
    keep = inside(sol.angles, lo, hi)
    x = np.degrees(sol.angles[keep])
    J, E, _ = fields(sol)
    for letter, V in (("J", J), ("E", E)):
        for n, val in zip(("r", "θ", "φ"), V):
            if letter + n == "Eφ":
                ax = axis(f.fig, "$E_φ$")
                S = np.max(abs(np.array(E)[:2])) + 1
                ok = ax is not None and len(ax.get_lines()) == 1 and np.all(
                    abs(data(ax.get_lines()[0])[1]) < 1e-7 * S)
                f.ctx.check(ok, f.name + ":E_φ", "E_φ is not zero",
                            tag=f.tag)
                if ax is not None:
                    f.used[id(ax)] = list(ax.get_lines())
                continue
            f.expect("${}_{}$".format(letter, n), x, val[keep],
                     letter + n, 1e-6)


def split_lines(f, name, x, y, what):
    """Positive and negative values are separate lines"""
    pos = y >= 0
    f.expect(name, x[pos], y[pos], what)
    f.expect(name, x[~pos], -y[~pos], what)


INTERNAL = ("$B_r/B_0$", "$B_φ/B_0$", "$B_θ/B_0$", "$v_r/c_s$",
            "$(v_φ - v_k)/c_s$", "$v_θ/c_s$", "$ρ/ρ_0$")


def do_internal(which):
    def do(f, rng, sol, lo, hi, kw):
        d = sol.internal_data
        keep = inside(d.angles, lo, hi)
        x = np.degrees(d.angles[keep])
        last = "$E_r/E_0$" if kw["_er"] else "$B_φ'/B_0$"
        for i, label in enumerate(INTERNAL + (last,)):
            y = getattr(d, which)[keep, i]
            if kw.get("nolog"):
                f.expect(label, x, y, label)
            else:
                split_lines(f, label, x, y, label)
    return do


def do_density(f, rng, sol, lo, hi, kw):
    I = ph.idx()
    keep = inside(sol.angles, lo, hi)
    a, rho = sol.angles, sol.solution[:, I.ρ]
    cum = np.concatenate([[0], np.cumsum(
        np.diff(a) * (rho[1:] + rho[:-1]) / 2)])
    f.expect("σ", np.degrees(a[keep]), cum[keep], "σ", 1e-2)


def do_taylor(f, rng, sol, lo, hi, kw):
    d = sol.internal_data
    x = np.degrees(d.angles)
    for n, label in (("v_r", "v_r"), ("v_φ", "v_φ"), ("ρ", "ρ")):
        normal = getattr(d, n + "_normal")
        taylor = getattr(d, n + "_taylor")
        if kw.get("show_values"):
            split_lines(f, label, x, normal, label)
            split_lines(f, label, x, taylor, label)
        else:
            f.expect(label, x, abs(normal / taylor), label)


def do_vert(f, rng, sol, lo, hi, kw):
    I = ph.idx()
    inp = sol.solution_input
    a, y, g = sol.angles, sol.solution, inp.γ
    h = np.tan(a) / inp.c_s_on_v_k
    keep = (lo <= h) & (h <= hi)
    r = 1 / np.cos(a)
    out = {}
    sv, sB, srho = r ** -.5, r ** (g - 1.25), r ** (2 * g - 1.5)
    out["$B_r/B_0$"] = sB * (y[:, I.B_r] * np.cos(a) -
                             y[:, I.B_θ] * np.sin(a))
    out["$B_z/B_0$"] = sB * (y[:, I.B_r] * np.sin(a) +
                             y[:, I.B_θ] * np.cos(a))
    out["$v_r/c_s$"] = sv * (y[:, I.v_r] * np.cos(a) -
                             y[:, I.v_θ] * np.sin(a))
    out["$v_z/c_s$"] = sv * (y[:, I.v_r] * np.sin(a) +
                             y[:, I.v_θ] * np.cos(a))
    out["$B_φ/B_0$"] = sB * y[:, I.B_φ]
    K = sol.initial_conditions.norm_kepler_sq
    out["$(v_φ - v_k)/c_s$"] = sv * (y[:, I.v_φ] - np.sqrt(K))
    out["$ρ/ρ_0$"] = srho * y[:, I.ρ]
    for label, v in out.items():
        f.expect(label, h[keep], v[keep], label)
        if label == "$v_z/c_s$" and kw.get("with_sonic"):
            f.expect(label, h[keep], np.ones(keep.sum()), "sonic")
    ax = axis(f.fig, "$B_φ'/B_0$")  # shown, not compared
    if ax is not None:
        f.used[id(ax)] = list(ax.get_lines())


def do_acc(f, rng, sol, lo, hi, kw):
    I = ph.idx()
    inp = sol.solution_input
    keep = np.degrees(sol.angles) < 1
    x, y = np.degrees(sol.angles[keep]), sol.solution[keep]
    AU, KM, rate = 1.49597871e13, 1e5, 2e33 / 31557600
    c_s = inp.c_s_on_v_k * np.sqrt(6.6742e-8 * 2e33 / AU)
    B2 = (inp.v_a_on_c_s * c_s) ** 2 * 4 * np.pi * 1.5e-9
    f.expect(f.fig.axes[0], x, y[:, I.B_θ] * y[:, I.B_φ] * B2 * AU ** 2 / (
        30 * KM) / rate, "accretion")
    f.expect(f.fig.axes[1], x, y[:, I.v_θ] * c_s * y[:, I.ρ] * 1.5e-9 *
             np.pi * AU ** 2 / rate, "wind")


def do_validate(f, rng, sol, lo, hi, kw):
    """Residuals of the internal data"""
    I = ph.idx()
    d = sol.internal_data
    keep = inside(d.angles, lo, hi)
    a, y, dy = d.angles[keep], d.params[keep], d.derivs[keep]
    x = np.degrees(a)
    c = sol.initial_conditions
    t = ph.terms(a, y, dy, c.γ, c.a_0, c.norm_kepler_sq)
    v, B, J, eta = ph.fields(a, y, dy, c.γ)
    E = ph.efield(v, B, J, *eta)
    shown = {}
    for ax in f.fig.axes:
        for line in ax.get_lines():
            shown[line.get_label()] = data(line)
    exp = {n: (sum(t[n]), sum(map(abs, t[n]))) for n in (
        "solenoid", "radial momentum", "azimuthal momentum",
        "polar momentum")}
    rho = y[:, I.ρ]
    exp["continuity"] = (sum(t["continuity"]) / rho,
                         sum(map(abs, t["continuity"])) / rho)
    S = ph.efield_scale(v, B, J, *eta)
    JS = abs(y[:, I.B_φ]) + abs(y[:, I.B_θ]) + abs(dy[:, I.B_φ]) + abs(
        dy[:, I.B_r])
    exp["E_φ"] = exp["polar induction"] = (E[2], S)
    vb = ph.cross(v, B)
    for i, n in enumerate(("r", "θ", "φ")):
        if n != "φ":
            exp["$E_{}$".format(n)] = (E[i], S)
        exp["$E_{}'$".format(n)] = (E[i] + vb[i], S)
        exp["$J_{}$".format(n)] = (J[i], JS)
    for label, (val, scale) in exp.items():
        f.ctx.count("lines")
        if not f.ctx.check(label in shown, f.name + ":missing", "{} is not "
                           "shown ({})".format(label, list(shown)),
                           tag=f.tag):
            continue
        px, py = shown[label]
        ok = close(px, x) and py.shape == val.shape
        if ok:
            signs = (1, -1) if label in ("E_φ", "polar induction") else (1,)
            ok = any(np.all(abs(py - s * val) <= 1e-7 * scale)
                     for s in signs)
        f.ctx.check(ok, f.name + ":data", "validate plot: {} is not the "
                    "residual of the internal data".format(label), tag=f.tag,
                    shown=py[:4], expected=val[:4])
    f.used = None


def do_hydro(f, rng, sol, lo, hi, kw):
    """Balances without v_θ (and hence without γ in the radial one)"""
    I = ph.idx()
    d, c = sol.internal_data, sol.initial_conditions
    keep = inside(d.angles, lo, hi)
    a, y, dy = d.angles[keep], d.params[keep].copy(), d.derivs[keep]
    y[:, I.v_θ] = 0
    az = ph.terms(a, y, dy, c.γ, c.a_0, c.norm_kepler_sq)[
        "azimuthal momentum"]
    Br, Bp, Bt, vr, vp = (y[:, I[n]] for n in (
        "B_r", "B_φ", "B_θ", "v_r", "v_φ"))
    L = c.a_0 / y[:, I.ρ]
    dBr = ph.solve_dBr(a, 0, Br, Bp, Bt, dy[:, I.B_φ], (vr, 0 * a, vp), *(
        y[:, I[n]] for n in ("η_O", "η_A", "η_H")))
    k = np.sqrt(c.norm_kepler_sq)
    radial = [vr ** 2 / 2, 2.5 + 0 * a, L * Bp ** 2 / 4, L * Bt * dBr,
              L * Bt ** 2 / 4]
    ratio = 2 * L * Bt * dy[:, I.B_φ] / (vr * vp)
    exp = {
        "azimuthal momentum": (sum(az), sum(map(abs, az))),
        "approximate momenta": (1 - ratio, 1 + abs(ratio)),
        "radial momentum (approx method)": (
            k - vp - sum(radial) / 2 / k,
            k + abs(vp) + sum(map(abs, radial)) / 2 / k)}
    shown = {l.get_label(): data(l) for l in f.fig.axes[0].get_lines()}
    f.ctx.check(set(shown) == set(exp), f.name + ":missing",
                "shown are {}".format(sorted(shown)), tag=f.tag)
    for label, (val, scale) in exp.items():
        f.ctx.count("lines")
        px, py = shown.get(label, (a[:0], a[:0]))
        f.ctx.check(
            close(px, np.degrees(a)) and py.shape == val.shape and np.all(
                abs(py - val) <= 1e-7 * scale), f.name + ":data",
            "hydro-check plot: {} is not the residual of the internal data"
            .format(label), tag=f.tag, shown=py[:4], expected=val[:4])
    f.used = None


# name, module, function, oracle, options, needs internal data, E_r allowed
SINGLE = [
    ("plot", "plot", "plot", do_plot, ["with_slow", "with_alfven",
     "with_fast", "with_sonic", "portrait", "hide_roots",
     "hide_sonic_angle"], False, True),
    ("combine", "combine_plot", "combine_plot", do_combine,
     ["with_slow", "with_alfven", "with_fast", "with_sonic"], False, True),
    ("component", "component_plot", "plot", do_component, ["only"],
     False, False),
    ("j_e", "j_e_plot", "j_e_plot", do_j_e, [], False, False),
    ("derivs", "derivs_plot", "derivs_plot", do_internal("derivs"),
     ["nolog"], True, True),
    ("params", "params_plot", "params_plot", do_internal("params"), [], True,
     False),
    ("surface", "surface_density_plot", "surface_density_plot", do_density,
     [], False, True),
    ("taylor", "taylor_plot", "taylor_plot", do_taylor, ["show_values"],
     True, True),
    ("vert", "vert_plot", "plot", do_vert, ["with_sonic"], False, False),
    ("acc", "acc_plot", "acc_plot", do_acc, [], False, True),
    ("validate", "validate_plot", "validate_plot", do_validate, [], True,
     False),
    ("hydro", "hydro_check_plot", "hydro_check_plot", do_hydro, [], True,
     False),
]


def check_single(ctx, spec, case):
    import importlib
    import matplotlib.pyplot as plt
    from disc_solver.utils import DiscSolverError
    name, modname, func, oracle, options, needs, er_ok = spec
    rng = ctx.subrng("single", name, case)
    er = bool(rng.random() < .3) if er_ok else bool(rng.random() < .12)
    internal = bool(rng.random() < .9)
    path, sols, final = synth.run_file(ctx, rng, er, count=int(
        rng.integers(1, 13)), internal=internal)
    plot = getattr(importlib.import_module(
        "disc_solver.analyse." + modname), func)
    k = int(rng.integers(len(sols)))
    choice = str(rng.choice(["name", "final", "latest", "none"]))
    arg = {"name": str(k), "final": "final", "latest": "latest",
           "none": None}[choice]
    sol = sols[{"name": k, "final": final, "latest": final, "none": 0}[
        choice]]
    lo, hi = window(rng, sol, sol.internal_data.angles if needs and internal
                    and name != "taylor" else None)
    if name == "vert":
        top = np.tan(sol.angles[-1]) / sol.solution_input.c_s_on_v_k
        lo, hi = (0, 90) if lo == 0 and hi == 90 else (
            top * .1, top * float(rng.uniform(.3, .9)))
    if name in ("validate", "hydro") and internal and not inside(
            sol.internal_data.angles, lo, hi).any():
        lo, hi = 0, 90
    kw = {}
    for o in options:
        if o == "only":
            if rng.random() < .4:
                kw[o] = str(rng.choice([
                    "radial momentum", "polar induction", "continuity"]))
        elif rng.random() < .4:
            kw[o] = True
    tag = dict(plot=name, solution=arg, start=lo, stop=hi, E_r=er, **kw)
    before = path.read_bytes()
    title = None if rng.random() < .6 else "title ζ"
    refuse = (needs and not internal) or (er and not er_ok)
    call = dict(kw, soln_range=arg, start=lo, stop=hi, close=False,
                title=title)
    saved = path.parent / "out.png"
    if case % 6 == 0:
        call.update(plot_filename=saved)
    plt.close("all")
    try:
        from vp.cli import captured
        with captured():
            fig = plot(str(path), **call)
    except DiscSolverError as e:
        ctx.count("refused")
        ctx.check(refuse, name + ":refused", "{}: {}".format(name, e),
                  tag=tag)
        plt.close("all")
        return
    except Exception as e:  # noqa
        ctx.violation(name + ":failed", "{}: {} {}".format(
            name, type(e).__name__, e), tag=tag)
        plt.close("all")
        return
    ctx.count("figures")
    if refuse:
        ctx.violation(name + ":accepted", "{}: plotted although {}".format(
            name, "E_r is used" if er else "there is no internal data"),
            tag=tag)
        plt.close("all")
        return
    f = Figure(ctx, name, fig, tag)
    oracle(f, rng, sol, lo, hi, dict(kw, _er=er))
    if f.used is not None:
        f.nothing_else()
    text = fig._suptitle.get_text() if fig._suptitle else ""
    ctx.check(text == title if title else str(
        "0" if arg is None else arg) in text.split(":")[-1],
        name + ":title", "{}: title {!r}".format(name, text), tag=tag)
    ctx.check(len(plt.get_fignums()) == 1, "figures-left", "{}: {} figures"
              .format(name, len(plt.get_fignums())), tag=tag)
    ctx.check(path.read_bytes() == before, "file-changed", "{} changed the "
              "run file".format(name), tag=tag)
    if "plot_filename" in call:
        ctx.count("saved")
        ctx.check(saved.exists() and saved.read_bytes()[:4] == b"\x89PNG",
                  "not-saved", "{}: no image written".format(name), tag=tag)
    plt.close("all")
    if case % 5 == 0:
        shown, show = [], bool(rng.random() < .5)
        with captured(), mock.patch.object(
                plt, "show", lambda *a, **k: shown.append(
                    len(plt.get_fignums()))):
            r = plot(str(path), **dict(call, close=True, show=show))
        ctx.check(r is None and not plt.get_fignums(), "not-closed",
                  "{}: figure left open".format(name), tag=tag, show=show)
        ctx.check(shown == [1] * show, "not-shown", "{}: figure shown {} "
                  "times".format(name, len(shown)), tag=tag, show=show)
        plt.close("all")
    ctx.observe((name, case, arg, tuple(sorted(kw))), tag)


def told_apart(ctx, name, lines, tag):
    """Up to thirty solutions have different colours"""
    from matplotlib.colors import to_hex
    if 1 < len(lines) <= 30:
        ctx.count("colours", len(lines))
        n = len({to_hex(l.get_color()) for l in lines})
        ctx.check(n == len(lines), name + ":colours", "{}: {} lines in {} "
                  "colours".format(name, len(lines), n), tag=tag)


def check_multi(ctx, case):
    """Plots of several solutions of several files"""
    import matplotlib.pyplot as plt
    from disc_solver.analyse.compare_plot import compare_plot
    from disc_solver.analyse.sonic_ratio_plot import plot as sonic_ratio
    from disc_solver.analyse.v_deriv_cmp import plot as v_deriv
    from disc_solver.analyse.phys_ratio_plot import plot as phys_ratio
    from vp.cli import captured
    rng = ctx.subrng("multi", case)
    I = ph.idx()
    files = [synth.run_file(ctx, rng, False) for _ in range(int(
        rng.integers(1, 4)))]
    pairs, sols = [], []
    for _ in range(int(rng.integers(1, 25 if case % 5 == 0 else 6))):
        path, ss, final = files[int(rng.integers(len(files)))]
        k = int(rng.integers(len(ss)))
        if rng.random() < .25:
            pairs.append((str(path), "final"))
            sols.append(ss[final])
        else:
            pairs.append((str(path), str(k)))
            sols.append(ss[k])
    lo, hi = window(rng, sols[0])
    least = min(np.degrees(s.angles[5]) for s in sols)
    lo = min(lo, least * .5)
    hi = max(hi, least * 2)
    for name, func in (("compare", compare_plot),
                       ("sonic_ratio", sonic_ratio), ("v_deriv", v_deriv),
                       ("phys_ratio", phys_ratio)):
        tag = dict(plot=name, pairs=[p[1] for p in pairs], start=lo, stop=hi)
        plt.close("all")
        try:
            with captured():
                fig = func(list(pairs), start=lo, stop=hi, close=False)
        except Exception as e:  # noqa
            ctx.violation(name + ":failed", "{}: {} {}".format(
                name, type(e).__name__, e), tag=tag)
            continue
        ctx.count("figures")
        f = Figure(ctx, name, fig, tag)
        for (path, key), sol in zip(pairs, sols):
            keep = inside(sol.angles, lo, hi)
            x = np.degrees(sol.angles[keep])
            y = sol.solution[keep]
            if name == "compare":
                for i, label in enumerate(LABELS + ("$B_φ'/B_0$",)):
                    off = np.sqrt(sol.initial_conditions.norm_kepler_sq) if (
                        i == I.v_φ) else 0
                    f.expect(label, x, y[:, i] - off, label)
            elif name == "sonic_ratio":
                _, alf, fast = waves(sol)
                vt = sol.solution[:, I.v_θ]
                f.expect("$v_θ/v_a$", x, (vt / alf)[keep], "Alfvén")
                f.expect("$v_θ/v_f$", x, (vt / fast)[keep], "fast")
            elif name == "v_deriv":
                d = sol.internal_data
                k = inside(d.angles, lo, hi)
                f.expect("$v_θ'$", np.degrees(d.angles[k]),
                         d.derivs[k, I.v_θ], "v_θ'")
            else:
                from scipy.integrate import trapezoid
                c = sol.initial_conditions
                ax = axis(fig, "$B_z^2/Σ$")
                S = trapezoid(y[:, I.ρ], sol.angles[keep])
                found = ax is not None and any(
                    np.allclose(data(l)[1], c.a_0 / S, rtol=.1) and
                    np.allclose(data(l)[0], c.init_con[I.η_A] /
                                sol.solution_input.c_s_on_v_k)
                    for l in ax.get_lines())
                ctx.check(found, "phys_ratio:Σ", "B²/Σ is not that of the "
                          "solution", tag=tag, expected=c.a_0 / S)
        if name != "phys_ratio":
            f.nothing_else()
            labels = [l.get_label() for ax in fig.axes[:1]
                      for l in ax.get_lines()]
            exp = ["{}:{}".format(*p) for p in pairs]
            ctx.check(labels == exp, name + ":labels", "{}: labels {} of {}"
                      .format(name, labels, exp), tag=tag)
            told_apart(ctx, name, fig.axes[0].get_lines(), tag)
        plt.close("all")
        ctx.observe((name, case), tag)


def check_lists(ctx, case):
    """Plots of all solutions of a file"""
    import matplotlib.pyplot as plt
    from disc_solver.analyse.conserve_plot import conserve_plot
    from disc_solver.analyse.diverge_plot import diverge_plot
    rng = ctx.subrng("lists", case)
    I = ph.idx()
    sols = [synth.solution(rng, False, internal=False) for _ in range(int(
        rng.integers(1, 45) if case % 4 == 0 else rng.integers(
            1, 8) if case % 8 == 6 else rng.integers(20, 31)))]
    named = [(str(i), s) for i, s in enumerate(sols)]
    lo, hi = window(rng, sols[0])
    for name, func in (("conserve", conserve_plot),
                       ("diverge", diverge_plot)):
        kw, chosen = {}, named
        if name == "diverge":
            for o in ("with_slow", "with_alfven", "with_fast"):
                if rng.random() < .4:
                    kw[o] = True
            if rng.random() < .5:
                pick = [str(i) for i in rng.integers(0, len(sols), 3)]
                kw["solution_filter"] = pick
                chosen = [(p, sols[int(p)]) for p in pick]
        tag = dict(plot=name, start=lo, stop=hi, count=len(sols), **kw)
        plt.close("all")
        ok, fig = ctx.call(name + ":failed", func, list(named), start=lo,
                           stop=hi, close=False, filename="f.hdf5", **kw)
        if not ok:
            continue
        ctx.count("figures")
        f = Figure(ctx, name, fig, tag)
        ax = fig.axes[0]
        for key, sol in chosen:
            keep = inside(sol.angles, lo, hi)
            x = np.degrees(sol.angles[keep])
            y = sol.solution[keep]
            if name == "conserve":
                f.expect(ax, x, y[:, I.ρ] * y[:, I.v_θ], "ρ v_θ")
                continue
            f.expect(ax, x, y[:, I.v_θ], "v_θ")
            for o, w in zip(("with_slow", "with_alfven", "with_fast"),
                            waves(sol)):
                if kw.get(o):
                    f.expect(ax, x, w[keep], o)
        f.nothing_else()
        labels = [l.get_label() for l in ax.get_lines() if l.get_label()
                  not in ("slow", "alfven", "fast")]
        ctx.check(labels == [k for k, _ in chosen], name + ":labels",
                  "{}: labels {}".format(name, labels), tag=tag)
        told_apart(ctx, name, [l for l in ax.get_lines() if l.get_label()
                               in labels], tag)
        plt.close("all")
        ctx.observe((name, case), tag)


def run(ctx):
    import matplotlib.pyplot as plt
    shown = []
    with mock.patch.object(plt, "show", lambda *a, **k: shown.append(
            plt.get_fignums())):
        cases(ctx)
    ctx.check(not shown, "shown-unasked", "{} figures were shown without "
              "being asked for".format(len(shown)))


def cases(ctx):
    for case in range(ctx.n(12, 100)):
        for spec in SINGLE:
            if not ctx.more():
                return
            check_single(ctx, spec, case)
        if case % 2 == 0:
            check_multi(ctx, case)
            check_lists(ctx, case)
