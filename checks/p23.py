"""
P23: statistics and information are those of the solutions in the files.

Monitor: the statistics functions, the rows written by ds-stats and the lines
written by ds-info are compared with values computed independently from the
solutions which were put in the files.
"""
import csv
import io

import numpy as np

from vp import physics as ph, synth
from vp.cli import run_cli

PROPERTY = "P23"
RULE = ("made-up solutions (smooth rows, crossings or not, with or without "
        "internal data, both formulations), alone, in several files, with "
        "files which cannot be read; distinct by contents and by group of "
        "information")
MIN_NONTRIVIAL = 60
MIN_COUNTERS = {"columns": 1500, "rows": 60, "info": 60, "unreadable": 5}


def first_crossing(a, m):
    """Angle at which m first reaches 1 (None if it never exceeds it)"""
    if not (m > 1).any():
        return None
    if m[0] == 1:
        return a[0]
    up = m[0] < 1
    for i in range(1, len(m)):
        if (m[i] >= 1) if up else (m[i] <= 1):
            return np.interp(1, *zip(*sorted([(m[i - 1], a[i - 1]),
                                              (m[i], a[i])])))
    return None


def machs(sol):
    """Slow, sonic, Alfvén and fast Mach numbers along θ"""
    I = ph.idx()
    y, a0 = sol.solution, sol.initial_conditions.a_0
    va2 = a0 * (y[:, I.B_r] ** 2 + y[:, I.B_φ] ** 2 + y[:, I.B_θ] ** 2) / y[
        :, I.ρ]
    vt2 = a0 * y[:, I.B_θ] ** 2 / y[:, I.ρ]
    fast = (1 + va2 + np.sqrt((1 + va2) ** 2 - 4 * vt2)) / 2
    v = abs(y[:, I.v_θ])
    return {"slow": v / np.sqrt(vt2 / fast), "sonic": v,
            "alfven": v / np.sqrt(vt2), "fast": v / np.sqrt(fast)}


def residuals(sol):
    I = ph.idx()
    d, c = sol.internal_data, sol.initial_conditions
    if d is not None:
        a, y, dy = d.angles, d.params, d.derivs
    else:
        a, y = sol.angles, sol.solution
        dy = np.gradient(y, a, axis=0)
    t = ph.terms(a, y, dy, c.γ, c.a_0, c.norm_kepler_sq)
    v, B, J, eta = ph.fields(a, y, dy, c.γ)
    E = ph.efield(v, B, J, *eta)[2]
    rho = y[:, I.ρ]
    return {
        "continuity": sum(t["continuity"]) / rho,
        "solenoid": sum(t["solenoid"]),
        "radial_momentum": sum(t["radial momentum"]),
        "azimuthal_momentum": sum(t["azimuthal momentum"]),
        "polar_momentum": sum(t["polar momentum"]),
        "polar_induction": E, "E_φ": E}


def expected(sol):
    """column: (value, tolerance) or value"""
    I = ph.idx()
    y, a, inp = sol.solution, sol.angles, sol.solution_input
    out = {}
    for n, m in machs(sol).items():
        i = int(np.argmax(m))
        out["max_{}_mach".format(n)] = (m[i], 1e-7)
        # several rows may be as good within rounding
        good = np.degrees(a[m >= m[i] * (1 - 1e-9)])
        out["max_{}_mach_angle_degrees".format(n)] = (good, 1e-9)
        x = first_crossing(a, m)
        out[n + "_sonic_point"] = None if x is None else (x, 1e-6)
    out["max_B_p_on_B_t"] = (np.max(y[:, I.B_φ] / np.hypot(
        y[:, I.B_r], y[:, I.B_θ])), 1e-9)
    from scipy.interpolate import PchipInterpolator
    out["Σ"] = (float(PchipInterpolator(a, y[:, I.ρ]).integrate(
        a[0], a[-1])), .1)
    r = 1 / np.cos(a)
    vz = (y[:, I.v_r] * np.sin(a) + y[:, I.v_θ] * np.cos(a)) / np.sqrt(r)
    i = int(np.argmax(vz))
    out["max_jet_v_z"] = (vz[i], 1e-9)
    out["max_jet_v_z_height"] = (np.tan(a[i]) / inp.c_s_on_v_k, 1e-9)
    out["max_angle_reached_degrees"] = (np.degrees(a[-1]), 1e-9)
    low = np.degrees(a) <= 20
    out["v_θ_starts_monotonic"] = bool(np.all(np.diff(
        y[low, I.v_θ]) >= 0))
    out["v_θ_ends_low"] = bool(y[-1, I.v_θ] <= 10)
    if sol.internal_data is not None:
        for n, v in residuals(sol).items():
            out["max_diff_" + n] = (np.max(abs(v)), 1e-6)
    return out


def agrees(got, exp):
    if exp is None:
        return got is None or got == ""
    if isinstance(exp, bool):
        return str(got) == str(exp)
    val, tol = exp
    try:
        got = float(got)
    except (TypeError, ValueError):
        return False
    return bool(np.any(abs(got - val) <= tol * np.maximum(abs(val), 1e-12)))


def wiggle(rng, sol):
    """Vary the course of v_θ"""
    I = ph.idx()
    k = rng.integers(8)
    v = sol.solution[:, I.v_θ]
    if k == 0:
        v *= rng.uniform(.01, .2)
    elif k == 1:
        v *= rng.uniform(5, 60)
    elif k == 2:
        v += abs(np.sin(np.linspace(0, rng.uniform(3, 20), len(v)))) * v.max()
    elif k == 3:
        v[:] = v[::-1] + rng.choice([0, 1.5])
    elif k == 4:  # high on the way, low at its end
        v += rng.uniform(10, 30) * np.sin(np.linspace(0, np.pi, len(v)))
    elif k == 5:  # exactly at the limit
        v[-1] = 10
    elif k == 6:  # a dip which is equal values, or less
        i = int(rng.integers(1, len(v)))
        v[i] = v[i - 1] - rng.choice([0, 0, 1e-6])
    return sol


def check_columns(ctx, case):
    from disc_solver.analyse.stats import compute_solution_stats
    rng = ctx.subrng("columns", case)
    er = bool(case % 4 == 3)
    internal = bool(rng.random() < .8)
    sol = wiggle(rng, synth.solution(rng, er, internal=internal))
    if rng.random() < .4:  # larger angles
        sol.angles[:] = sol.angles * (np.radians(rng.uniform(
            15, 80)) / sol.angles[-1])
    tag = dict(case=case, E_r=er, internal=internal)
    before = sol.solution.copy()
    ok, got = ctx.call("stats-failed", compute_solution_stats, sol,
                       metadata={"filename": "é"})
    if not ok:
        return
    exp = expected(sol)
    for name, e in exp.items():
        ctx.count("columns")
        ctx.check(name in got and agrees(got[name], e), "column " + name,
                  "{} is {}, not {}".format(name, got.get(name), e), tag=tag)
    if not internal:
        # however the derivatives are approximated
        for name, v in residuals(sol).items():
            e, g = np.max(abs(v)), got["max_diff_" + name]
            ctx.count("approximated")
            ctx.check(e / 5 <= g <= e * 5, "approximated " + name,
                      "largest residual of the {} is {}, but {} with finite "
                      "differences".format(name, g, e), tag=tag)
    ctx.check(got.get("filename") == "é", "metadata", "metadata are lost",
              tag=tag)
    if not internal:
        ctx.check(all(np.isfinite(v) for k, v in got.items()
                      if k.startswith("max_diff")), "no-internal",
                  "residuals without internal data are not finite", tag=tag)
    ctx.check(np.array_equal(before, sol.solution), "changed",
              "the solution was changed", tag=tag)
    ctx.observe(("columns", case, tuple(
        n for n in ("slow", "sonic", "alfven", "fast")
        if exp[n + "_sonic_point"] is not None)), tag)


def check_file(ctx, case):
    """ds-stats on several files, some of them unreadable"""
    from unittest import mock
    rng = ctx.subrng("files", case)
    names, wanted = [], []
    for i in range(int(rng.integers(1, 5))):
        kind = rng.choice(["run", "run", "run", "missing", "text", "no run",
                           "cut"])
        folder = ctx.tmp("f")
        if kind == "run":
            path, sols, final = synth.run_file(
                ctx, rng, bool(rng.random() < .3),
                internal=bool(rng.random() < .8))
            order = sorted(range(len(sols)), key=str)
            wanted += [(str(path), str(k), sols[k]) for k in order]
            wanted.append((str(path), "final", sols[final]))
        else:
            ctx.count("unreadable")
            path = folder / "other.hdf5"
            if kind == "text":
                path.write_text("no file of solutions")
            elif kind == "no run":
                import h5py
                with h5py.File(path, "w") as f:
                    f["other"] = 1
            elif kind == "cut":
                whole = synth.run_file(ctx, rng, False, count=1)[0]
                path.write_bytes(whole.read_bytes()[:1000])
        names.append(str(path))
    out = ctx.tmp("out") / "stats.csv"
    split = int(rng.integers(0, len(names) + 1)) if case % 3 == 0 else len(
        names)
    argv = ["--file", out] if case % 4 else []
    argv += names[:split]
    tag = dict(case=case, files=len(names), rows=len(wanted))
    if split < len(names):
        argv.append("--with-stdin")
    with mock.patch("disc_solver.analyse.stats.stdin", io.StringIO(
            "".join(n + "\n" for n in names[split:]))):
        r = run_cli("ds-stats", argv)
    if not ctx.check(r.exc is None, "ds-stats", "ds-stats: {!r}".format(
            r.exc), tag=tag):
        return
    text = out.read_text() if "--file" in argv else r.out
    rows = list(csv.DictReader(io.StringIO(text[text.index('"'):])))
    got = [(w["filename"], w["solution_name"]) for w in rows]
    if not ctx.check(sorted(got) == sorted((f, n) for f, n, _ in wanted),
                     "rows", "ds-stats: rows {} of {}".format(
                         len(got), len(wanted)), tag=tag, got=got[:20],
                     expected=[w[:2] for w in wanted][:20]):
        return
    by_name = {w[:2]: w[2] for w in wanted}
    for w in rows:
        ctx.count("rows")
        sol = by_name[w["filename"], w["solution_name"]]
        for name, e in expected(sol).items():
            ctx.count("columns")
            ctx.check(name in w and agrees(w[name], e), "column " + name,
                      "ds-stats: {} is {}, not {}".format(
                          name, w.get(name), e), tag=tag)
        inp = sol.solution_input
        for name in ("γ", "v_rin_on_c_s", "v_a_on_c_s", "c_s_on_v_k", "η_O",
                     "η_A", "η_H", "stop"):
            ctx.check(float(w[name]) == float(getattr(inp, name)), "inputs",
                      "ds-stats: {} is {}, not {}".format(
                          name, w[name], getattr(inp, name)), tag=tag)
    ctx.observe(("files", case), tag)


GROUPS = ["run", "status", "input", "initial-conditions", "sonic-points",
          "crosses-points", "sonic-on-scale", "solutions"]


def pairs(text):
    out = {}
    for line in text.splitlines():
        k, sep, v = line.partition(":")
        if sep:
            out.setdefault(k.strip(), v.strip())
    return out


def check_info(ctx, case):
    rng = ctx.subrng("info", case)
    er = bool(rng.random() < .3)
    path, sols, final = synth.run_file(
        ctx, rng, er, internal=bool(rng.random() < .5))
    k = int(rng.integers(len(sols)))
    choice = str(rng.choice([str(k), "final", "latest"]))
    sol = sols[final if choice in ("final", "latest") else k]
    before = path.read_bytes()
    order = ["slow", "sonic", "alfven", "fast"]
    cross = {n: first_crossing(sol.angles, m) for n, m in machs(sol).items()}
    for group in GROUPS:
        tag = dict(case=case, group=group, solution=choice)
        r = run_cli("ds-info", [path, choice, group])
        if not ctx.check(r.exc is None, "ds-info", "ds-info: {!r}".format(
                r.exc), tag=tag):
            continue
        ctx.count("info")
        p = pairs(r.out)

        def same(key, value, tol=None):
            got = p.get(key)
            if tol is None or value is None:
                ok = got == str(value)
            else:
                ok = got not in (None, "None") and abs(
                    float(got) - value) <= tol * abs(value)
            ctx.check(ok, "info-" + group, "ds-info {}: {} is {}, not {}"
                      .format(group, key, got, value), tag=tag)

        conf = sols[0].solution_input.to_config_input("l")
        inp = sol.solution_input
        if group == "run":
            same("label", "l")
            same("config filename", "c.cfg")
            same("sonic method", "single")
            same("DiscSolver version", "0")
            same("using E_r", er)
            same("number of solutions", len(sols))
            for name in ("γ", "v_rin_on_c_s", "stop", "η_O"):
                same(name, getattr(conf, name))
        elif group == "status":
            same("ODE return flag", sol.flag)
            same("Coordinate System", "spherical midplane 0")
            same("Has internal data", sol.internal_data is not None)
            same("Has t_roots", sol.t_roots is not None)
            same("Has y_roots", sol.y_roots is not None)
        elif group == "input":
            for name in ("γ", "v_rin_on_c_s", "v_a_on_c_s", "c_s_on_v_k",
                         "stop", "η_O", "η_A", "η_H", "num_angles"):
                same(name, getattr(inp, name))
        elif group == "initial-conditions":
            c = sol.initial_conditions
            same("norm_kepler_sq", float(c.norm_kepler_sq), 1e-12)
            same("a_0", float(c.a_0), 1e-12)
            same("γ", float(c.γ), 1e-12)
        elif group == "sonic-points":
            for n, key in zip(order, ("slow sonic point", "sonic point",
                                      "alfven sonic point",
                                      "fast sonic point")):
                same(key, cross[n], 1e-6)
        elif group == "crosses-points":
            past = [n for n in ("fast", "alfven", "sonic", "slow")
                    if cross[n] is not None]
            same("l", past[0] if past else "none")
        elif group == "sonic-on-scale":
            s = cross["sonic"]
            same("l", None if s is None else s / inp.c_s_on_v_k, 1e-6)
        else:
            names = r.out.split()
            ctx.check(sorted(names) == sorted(map(str, range(len(sols)))),
                      "info-solutions", "ds-info solutions: {} of {}".format(
                          names, len(sols)), tag=tag)
        ctx.observe(("info", case, group), tag)
    ctx.check(path.read_bytes() == before, "file-changed",
              "ds-info changed the file", case=case)


def run(ctx):
    for case in range(ctx.n(150, 2000)):
        if not ctx.more():
            return
        check_columns(ctx, case)
        if case % 8 == 0:
            check_file(ctx, case // 8)
        if case % 10 == 0:
            check_info(ctx, case // 10)
