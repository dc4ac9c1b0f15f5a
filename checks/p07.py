"""
P07: the reduced (vertically hydrostatic) models.

Oracle: the same physical equations as for the full solutions, with v_θ = 0
and γ = 0, evaluated on everything the integration evaluated (internal data)
and on what was stored.
"""
import numpy as np

from vp import ff, gen, physics as ph, traj

PROPERTY = "P07"
RULE = ("runs of both reduced models near the default configuration with and "
        "without integrating E_r and derivatives of η; distinct by model, "
        "options and input")
MIN_NONTRIVIAL = 40
MIN_COUNTERS = {"evaluations_hydrostatic": 1000, "evaluations_mod_hydro": 2000,
                "midplane": 150, "run_files": 3, "refused": 3, "rows": 3000}
MODELS = ("hydrostatic", "mod_hydro")
TOL = 1e-6


def model(name):
    import importlib
    mod = importlib.import_module("disc_solver.solve." + name)
    return mod, getattr(mod, name + "_define_conditions")


def configuration(rng, spread=.5, **extra):
    return traj.near(rng, spread, **dict(dict(
        stop=repr(float(rng.choice([.5, 2, 5]))),
        num_angles=int(rng.integers(200, 1500)), max_steps=3000,
        η_derivs=bool(rng.random() < .5), use_E_r=bool(rng.random() < .4),
    ), **extra))


def midplane(ctx, name, inp, ic, tag):
    I = ph.idx()
    y = np.asarray(ic.init_con, dtype=float)
    ctx.count("midplane")
    exp = dict(B_r=0, B_φ=0, B_θ=1, v_θ=0, ρ=1, v_r=-inp.v_rin_on_c_s,
               η_O=inp.η_O, η_A=inp.η_A, η_H=inp.η_H)
    for n, v in exp.items():
        ctx.check(y[I[n]] == v, "midplane-state", "{}: {} is {} at the "
                  "midplane, not {}".format(name, n, y[I[n]], v), tag=tag)
    K, a0 = float(ic.norm_kepler_sq), float(ic.a_0)
    ctx.check(abs(K * inp.c_s_on_v_k ** 2 - 1) < 1e-12 and abs(
        a0 - inp.v_a_on_c_s ** 2) <= 1e-12 * a0 and ic.γ == 0,
        "midplane-constants", "{}: a_0 {}, Kepler velocity² {}, γ {} for {}"
        .format(name, a0, K, ic.γ, tag))
    grid = np.radians(np.linspace(inp.start, inp.stop, inp.num_angles))
    a = np.asarray(ic.angles, dtype=float)
    ctx.check(a.shape == grid.shape and np.allclose(a, grid, rtol=1e-12,
                                                    atol=1e-15),
              "grid", "{}: wrong angles".format(name), tag=tag)
    # Unknown: E_r or B_φ'. The azimuthal balance gives B_φ' from v_φ
    vr, vp = y[I.v_r], y[I.v_φ]
    dBp = vr * vp / (2 * a0)
    v = (vr, 0., vp)
    eta = (y[I.η_O], y[I.η_A], y[I.η_H])
    dBr = ph.solve_dBr(0., 0., 0., 0., 1., dBp, v, *eta)
    J = ph.current(0., 0., 0., 0., 1., dBr, dBp)
    if inp.use_E_r:
        E = ph.efield(v, (0., 1., 0.), J, *eta)
        S = ph.efield_scale(v, (0., 1., 0.), J, *eta)
        ctx.check(abs(E[0] - y[I.E_r]) < 1e-9 * S, "midplane-azimuthal",
                  "{}: E_r {} does not balance the azimuthal momentum ({})"
                  .format(name, y[I.E_r], E[0]), tag=tag)
    else:
        ctx.check(abs(y[I.B_φ_prime] - dBp) < 1e-9 * abs(dBp),
                  "midplane-azimuthal", "{}: B_φ' {} does not balance the "
                  "azimuthal momentum ({})".format(
                      name, y[I.B_φ_prime], dBp), tag=tag)
    # radial balance; mod_hydro is linear in the departure from v_K
    vp2 = vp ** 2 if name == "hydrostatic" else 2 * np.sqrt(K) * vp - K
    t = [-vr ** 2 / 2, -vp2, K, -2.5, -a0 * J[2]]
    ctx.check(abs(sum(t)) < 1e-9 * (sum(map(abs, t)) + vp ** 2),
              "midplane-radial", "{}: radial balance violated by {} ({})"
              .format(name, sum(t), t), tag=tag)


def balance_rates(y, d, th, a0, K, linear):
    """
    Rate of change of the azimuthal and the radial balance along the
    direction of integration relative to the contributions to it, by complex
    step.
    """
    I = ph.idx()
    names = ["B_r", "B_φ", "B_θ", "v_r", "v_φ", "ρ", "η_O", "η_A", "η_H",
             "B_φ_prime"]
    h = 1e-100
    k = np.sqrt(K)
    tot, scale = np.zeros(2), np.zeros(2)
    for j in range(len(names) + 1):
        v = [complex(y[I[n]]) for n in names]
        t = complex(th)
        if j < len(names):
            v[j] += 1j * h * d[I[names[j]]]
        else:
            t += 1j * h
        Br, Bp, Bt, vr, vp, rho, eO, eA, eH, p = v
        dBr = ph.solve_dBr(t, 0, Br, Bp, Bt, p, (vr, 0 * vr, vp), eO, eA, eH)
        J = ph.current(t, 0, Br, Bp, Bt, dBr, p)
        L = a0 / rho
        azi = vr * vp / 2 - L * (J[1] * Br - J[0] * Bt)
        rad = (-vr * vr / 2 - (2 * k * vp - K if linear else vp * vp) + K -
               2.5 - L * (J[2] * Bt - J[1] * Bp))
        c = np.array([azi.imag, rad.imag]) / h
        tot += c
        scale += abs(c)
    return abs(tot) / np.where(scale == 0, 1, scale)


def recorded_radial(name, inp, y, d, th, a0, K):
    """
    The known finding in numbers: the derivatives of the velocities which the
    wrong radial terms (Z_2, Z_3 and X') lead to. Relative difference of the
    recorded v_φ' from them.
    """
    I = ph.idx()
    t, vr, vp, rho = np.tan(th), y[I.v_r], y[I.v_φ], y[I.ρ]
    Br, Bp, Bt = y[I.B_r], y[I.B_φ], y[I.B_θ]
    dBr, dBp, dBt = d[I.B_r], y[I.B_φ_prime], d[I.B_θ]
    O, A, H = y[I.η_O], y[I.η_A], y[I.η_H]
    dO, dA, dH = d[I.η_O], d[I.η_A], d[I.η_H]
    drho = d[I.ρ]
    M = np.sqrt(Br ** 2 + Bp ** 2 + Bt ** 2)
    dM = (Br * dBr + Bp * dBp + Bt * dBt) / M
    br, bp, bt = Br / M, Bp / M, Bt / M
    dbr, dbp, dbt = ((dBr - br * dM) / M, (dBp - bp * dM) / M,
                     (dBt - bt * dM) / M)
    D = O + A * (1 - bp ** 2)
    dD = dO + dA * (1 - bp ** 2) - 2 * A * bp * dbp
    X = (H * bt + A * br * bp) / D
    dX = (dH * bt + H * dbt + dA * br * bp + A * (dbr * bp + br * dbp)) / D - (
        H * bt - A * br * bp) * dD / D ** 2
    up, um, w = br * t + bt / 4, br * t - bt / 4, br / 4 + bt * t
    dum = dbr * t + br / np.cos(th) ** 2 - dbt / 4
    dw = dbr / 4 + dbt * t + bt / np.cos(th) ** 2
    if name == "hydrostatic":
        G = vr * Bt - Bp * (A * bp * up + H * w)
        b = -X * vr / 2
        c = vr ** 2 / 2 + 2.5 - K + a0 / rho * (
            Bp ** 2 / 4 - X * Bp * (Br / 4 + Bt * t) - Bt / D * (
                vr * Bt - Bp * (A * bp * um + H * w)))
        S = np.sqrt(b * b - 4 * c)
        parts = [
            vr * dX / 4, vr ** 2 * X * dX / 16 / S,
            a0 * drho / rho ** 2 * (
                Bp ** 2 / 4 - X * Bp * (Br / 4 + Bt * t) - Bt / D * G) / S,
            -a0 / rho * dBp * Bp / 2 / S,
            a0 / rho * (dX * Bp + X * dBp) * (Br / 4 + Bt * t) / S,
            a0 / rho * X * Bp * (
                dBr / 4 + dBt * t + Bt / np.cos(th) ** 2) / S,
            a0 / rho * (dBt * D - Bt * dD) / D ** 2 * G / S,
            a0 / rho * Bt / D * (
                dBt * vr - dBp * (A * bp * up + H * (bt * t - br / 4)) -
                Bp * ((dA * bp + A * dbp) * um + A * bp * dum + dH * w +
                      H * dw)) / S,
            d[I.v_r] * X / 4,
            d[I.v_r] * (vr * (X ** 2 / 16 - 1) +
                        2 * a0 * Bt ** 2 / (rho * D)) / S]
    else:
        k = np.sqrt(K)
        G = vr * Bt - Bp * (A * bp * um + H * w)
        f = -a0 / rho / (2 * k)
        parts = [
            f * dBp * Bp / 2, -f * dBt * dBp * X, -f * Bt * dBp * dX,
            -f * drho / rho * (Bp ** 2 / 4 - X * dBp * Bt - Bt / D * G),
            -f * Bt / D * (
                vr * dBt - dBp * (A * bp * um + H * w) - Bp * (
                    (dA * bp + A * dbp) * um + A * bp * dum + dH * w +
                    H * dw)),
            -f * (dBt / D - Bt * dD / D ** 2) * G,
            -d[I.v_r] * vr / (2 * k),
            d[I.B_φ_prime] * Bt * X / (2 * k)]
    return abs(d[I.v_φ] - sum(parts)) / (
        sum(map(abs, parts)) + abs(d[I.v_φ]) + 1e-300)


def evaluations(ctx, rng, name, inp, ic, sol, tag):
    """Everything the integration evaluated obeys the equations"""
    I = ph.idx()
    data = sol.internal_data
    y, d, a = (np.array(x, dtype=float) for x in (
        data.params, data.derivs, data.angles))
    if not ctx.check(len(y) == len(d) == len(a) and len(a) > 0, "internal",
                     "{}: internal data of lengths {}, {}, {}".format(
                         name, len(y), len(d), len(a)), tag=tag):
        return
    fine = np.isfinite(y).all(1) & np.isfinite(d).all(1)
    y, d, a = y[fine], d[fine], a[fine]
    # the integrator varies every variable to find the Jacobian
    y[:, I.v_θ] = 0
    ctx.count("evaluations_" + name, len(a))
    a0, K = ic.a_0, ic.norm_kepler_sq
    terms = ph.terms(a, y, d, 0, a0, K)
    v, B, J, eta = ph.fields(a, y, d, 0)
    E = ph.efield(v, B, J, *eta)
    S = ph.efield_scale(v, B, J, *eta)
    res = {"solenoid": ph.rel(terms["solenoid"]),
           "polar momentum": ph.rel(terms["polar momentum"]),
           "azimuthal induction": abs(E[2]) / S}
    if inp.use_E_r:
        res["radial electric field"] = abs(E[0] - y[:, I.E_r]) / S
        res["polar induction"] = abs(d[:, I.E_r] + .75 * E[1]) / S
    else:
        res["gradient of B_φ"] = abs(d[:, I.B_φ] - y[:, I.B_φ_prime]) / (
            abs(y[:, I.B_φ_prime]) + 1e-300)
    res["v_θ"] = abs(d[:, I.v_θ])
    B2 = B[0] ** 2 + B[1] ** 2 + B[2] ** 2
    dB2 = 2 * sum(B[i] * d[:, I[n]] for i, n in enumerate(
        ("B_r", "B_θ", "B_φ")))
    rho = y[:, I.ρ]
    rate = dB2 / rho - B2 * d[:, I.ρ] / rho ** 2
    size = (2 * sum(abs(B[i] * d[:, I[n]]) for i, n in enumerate(
        ("B_r", "B_θ", "B_φ"))) / rho + abs(B2 * d[:, I.ρ]) / rho ** 2)
    for n in ("η_O", "η_A", "η_H"):
        e = getattr(inp, n) * (rate if inp.η_derivs else 0)
        s = abs(getattr(inp, n)) * size + 1e-300
        res["diffusivity"] = np.maximum(
            res.get("diffusivity", 0), abs(d[:, I[n]] - e) / s)
    for n, r in res.items():
        i = int(np.argmax(r))
        ctx.check(r[i] < TOL, "equation:" + n, "{}: {} violated by {:.3g} at "
                  "{:.4g}°".format(name, n, r[i], np.degrees(a[i])), tag=tag)
    # Balances which fix the velocities
    if inp.use_E_r:
        few = slice(0, 30)
        t = [x[few] for x in terms["azimuthal momentum"]]
        r = ph.rel(t).max()
        ctx.check(r < 1e-5, "azimuthal-balance", "{}: azimuthal momentum "
                  "violated by {:.3g}".format(name, r), tag=tag)
        rad = sum(terms["radial momentum"])[few] + (
            y[few, I.v_φ] - np.sqrt(K)) ** 2
        r = (abs(rad) / (K + y[few, I.v_φ] ** 2)).max()
        ctx.check(r < 1e-2, "linear-radial-balance", "{}: radial balance "
                  "violated by {:.3g}".format(name, r), tag=tag)
        return
    pick = sorted(set(list(range(min(8, len(a)))) + [int(x) for x in
                  rng.integers(0, min(len(a), 150), 12)]))
    for i in pick:
        azi, rad = balance_rates(y[i], d[i], a[i], a0, K, name != "hydrostatic")
        ctx.count("balances")
        ctx.check(azi < 1e-3, "azimuthal-balance", "{}: azimuthal balance is "
                  "left at relative rate {:.3g} at {:.4g}°".format(
                      name, azi, np.degrees(a[i])), tag=tag)
        if rad > 1e-3:
            off = recorded_radial(name, inp, y[i], d[i], a[i], a0, K)
            known = off < 1e-9
            ctx.violation(
                "radial-balance-drifts" if known else "radial-balance", "{}: radial balance is left at "
                "relative rate {:.3g} at {:.4g}°".format(
                    name, rad, np.degrees(a[i])), tag=tag)


def stored(ctx, name, inp, ic, sol, tag):
    I = ph.idx()
    a = np.asarray(sol.angles, dtype=float)
    y = np.asarray(sol.solution, dtype=float)
    grid = np.radians(np.linspace(inp.start, inp.stop, inp.num_angles))
    ctx.count("rows", len(a))
    ok = ctx.check(len(a) == len(y) >= 1 and len(a) <= len(grid) + 1,
                   "rows", "{}: {} angles, {} rows".format(
                       name, len(a), len(y)), tag=tag)
    if not ok:
        return
    n = len(a) - 1 if int(sol.flag) != 0 else len(a)
    ctx.check(np.allclose(a[:n], grid[:n], rtol=1e-9, atol=1e-12), "grid",
              "{}: rows are not at the angles asked for".format(name),
              tag=tag)
    if int(sol.flag) == 0:
        ctx.check(len(a) == len(grid), "incomplete", "{}: success after {} of "
                  "{} angles".format(name, len(a), len(grid)), tag=tag)
    first = np.asarray(ic.init_con, dtype=float)
    tol = 1e-3 if inp.use_E_r else 1e-9
    ctx.check(np.allclose(y[0], first, rtol=tol, atol=1e-9), "first-row",
              "{}: first row {} is not the midplane {}".format(
                  name, y[0], first), tag=tag)
    ctx.check((y[:, I.v_θ] == 0).all(), "v_θ", "{}: v_θ is not zero".format(
        name), tag=tag)
    if not inp.η_derivs:
        for e in ("η_O", "η_A", "η_H"):
            ctx.check((y[:, I[e]] == first[I[e]]).all(), "η-constant",
                      "{}: {} changes".format(name, e), tag=tag)
    if inp.use_E_r:
        few = y[:30]
        th = a[:30]
        d = 0 * few
        B = [few[:, I[x]] for x in ("B_r", "B_θ", "B_φ")]
        v = [few[:, I[x]] for x in ("v_r", "v_θ", "v_φ")]
        eta = [few[:, I[x]] for x in ("η_O", "η_A", "η_H")]
        # B_φ' from the stored E_r (linear); then the azimuthal balance
        e0 = ph.E_r_from_state(th, 0, B[0], B[2], B[1], v, *eta, 0 * th)
        e1 = ph.E_r_from_state(th, 0, B[0], B[2], B[1], v, *eta, 0 * th + 1)
        d[:, I.B_φ] = (few[:, I.E_r] - e0) / (e1 - e0)
        t = ph.terms(th, few, d, 0, ic.a_0, ic.norm_kepler_sq)
        r = ph.rel(t["azimuthal momentum"])
        ctx.check(r.max() < 1e-5, "stored-azimuthal-balance", "{}: stored "
                  "velocities violate the azimuthal balance by {:.3g}"
                  .format(name, r.max()), tag=tag)


def direct(ctx):
    from disc_solver.solve.utils import SolverError
    solve = ctx.n(22, 240)
    for case in range(6 * solve):
        if not ctx.more():
            break
        rng = ctx.subrng("direct", case)
        o = configuration(rng)
        if rng.random() < .15:
            o["η_A" if rng.random() < .5 else "η_O"] = "0"
        if case < 3:
            o["c_s_on_v_k"] = "0.7"
        for name in MODELS:
            mod, define = model(name)
            inp = gen.make_input(o)
            before = ff.plain(inp)
            tag = dict(o, model=name)
            try:
                ic = define(inp)
            except SolverError:
                ctx.count("no_equilibrium")
                K, vr = 1 / inp.c_s_on_v_k ** 2, -inp.v_rin_on_c_s
                eP = inp.η_O + inp.η_A
                b = vr * inp.η_H / (2 * eP)
                c = K - 2.5 - vr ** 2 / 2 + inp.v_a_on_c_s ** 2 * vr / eP
                ctx.check(name == "hydrostatic" and b * b + 4 * c < 1e-6,
                          "equilibrium-refused", "{}: equilibrium exists "
                          "but was refused".format(name), tag=tag)
                continue
            midplane(ctx, name, inp, ic, tag)
            if case >= solve:
                ctx.observe((name, "midplane", case))
                continue
            start = np.array(ic.init_con)
            er = inp.use_E_r
            if er and name == "hydrostatic":
                try:
                    mod.solution(inp, ic)
                except SolverError:
                    ctx.count("refused")
                else:
                    ctx.violation("E_r-accepted", "hydrostatic model with "
                                  "E_r did not raise", tag=tag)
                continue
            k = {} if name == "hydrostatic" else {"use_E_r": er}
            ok, sol = ctx.call("solution", mod.solution, inp, ic, **k)
            if not ok:
                continue
            ctx.check(not ff.diff(before, ff.plain(inp)) and (
                np.allclose(ic.init_con, start,
                            rtol=1e-9, atol=0)), "input-changed",
                "{}: the input or the initial conditions changed".format(
                    name), tag=tag)
            ctx.check(not ff.diff(before, ff.plain(sol.solution_input)) and
                      sol.sonic_point is None, "solution-input",
                      "{}: solution not of its input".format(name), tag=tag)
            evaluations(ctx, rng, name, inp, ic, sol, tag)
            stored(ctx, name, inp, ic, sol, tag)
            ctx.observe((name, er, inp.η_derivs, int(sol.flag), case),
                        dict(model=name, rows=len(sol.angles), input=o))


def files(ctx):
    """The models as sonic methods"""
    from disc_solver.solve.utils import SolverError
    for case in range(ctx.n(10, 40)):
        if not ctx.more():
            break
        rng = ctx.subrng("file", case)
        name = MODELS[case % 2]
        keep = bool(rng.random() < .6)
        o = configuration(rng, .2, num_angles=300, stop=.5)
        er = o["use_E_r"] == "True"
        tag = dict(o, model=name)
        try:
            path, good = traj.run_file(ctx, o, name, store_internal=keep)
        except SolverError as e:
            ctx.check(name == "hydrostatic" and (er or "NaN" in str(e)),
                      "run-failed", "{}: {}".format(name, e), tag=tag)
            ctx.count("refused")
            continue
        ctx.count("run_files")
        run, sols, final = traj.read(path)
        ctx.check(good and list(sols) == ["0"] and not ff.diff(
            ff.plain(sols["0"]), ff.plain(final)), "run-file",
            "{}: solutions {}, success {}".format(name, list(sols), good),
            tag=tag)
        mod, define = model(name)
        inp = gen.make_input(o)
        ic = define(inp)
        sol = mod.solution(inp, ic, store_internal=False, **(
            {"use_E_r": er} if name == "mod_hydro" else {}))
        ctx.check(np.array_equal(np.asarray(sol.solution),
                                 np.asarray(final.solution)) and
                  np.array_equal(np.asarray(sol.angles),
                                 np.asarray(final.angles)), "run-solution",
                  "{}: the run does not hold the solution of its input"
                  .format(name), tag=tag)
        ctx.check((final.internal_data is not None) == keep, "run-internal",
                  "{}: internal data stored: {}, asked for: {}".format(
                      name, final.internal_data is not None, keep), tag=tag)
        ctx.observe(("file", name, er, keep, case))


def run(ctx):
    direct(ctx)
    files(ctx)
