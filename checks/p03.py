"""
P03: the series off the midplane, and the hand-over from it.

Oracle: vp.series (truncated power series of the equations).
"""
import numpy as np

from vp import physics as ph, gen, series

PROPERTY = "P03"
RULE = ("random equilibria, both formulations, varying and fixed "
        "diffusivities; distinct by those and decades of the inputs")
MIN_NONTRIVIAL = 150
MIN_COUNTERS = {"coefficients": 2000, "jumps": 100, "taylor_solutions": 10,
                "taylor_space": 10}
TOL = 1e-6


def space(ctx):
    """The sampled coefficients belong to the recorded samples"""
    from disc_solver.solve import deriv_midplane as dm
    from disc_solver.solve.config import define_conditions
    from disc_solver.solve.taylor_space import compute_taylor_space
    from disc_solver.solve.utils import SolverError
    for case in range(ctx.n(6, 60)):
        rng = ctx.subrng("space", case)
        np.random.seed(int(rng.integers(2 ** 31)))
        n = int(rng.integers(3, 20))
        eta = {k: gen.logu(rng, 1e-4, 1e-2) for k in ("η_O", "η_A", "η_H")}
        lim = dict(γ=(1e-5, 1e-2), v_rin_on_c_s=(.1, 1.),
                   v_a_on_c_s=(.1, 1.), c_s_on_v_k=(.03, .05))
        try:
            ts = compute_taylor_space(num_samples=n, **eta, **lim)
        except SolverError:  # a sample without equilibrium
            ctx.count("rejected")
            continue
        wit = dict(case=case, η=eta)
        ctx.check(np.shape(ts.taylor_orders)[:2] == (n, 4), "space-shape",
                  "{} samples of coefficients, {} asked for".format(
                      len(ts.taylor_orders), n), **wit)
        for i in range(n):
            o = {k: float(getattr(ts, k + "_arr")[i]) for k in lim}
            for k, (lo, hi) in lim.items():
                ctx.check(lo <= o[k] <= hi, "space-range", "{} = {} is not "
                          "between {} and {}".format(k, o[k], lo, hi), **wit)
            inp = gen.make_input(gen.overrides(
                rng, use_E_r=False, η_derivs=False, **{
                    k: repr(float(v)) for k, v in {**o, **eta}.items()}))
            cons = define_conditions(inp)
            kw = dict(init_con=cons.init_con, γ=cons.γ, a_0=cons.a_0)
            want = (cons.init_con, dm.get_taylor_first_order(**kw),
                    dm.get_taylor_second_order(
                        η_derivs=False, use_E_r=False, **kw),
                    dm.get_taylor_third_order(
                        η_derivs=False, use_E_r=False, **kw))
            ctx.count("taylor_space")
            ctx.check(np.allclose(ts.taylor_orders[i], want, 1e-10, 0,
                                  equal_nan=True), "space-coefficients",
                      "coefficients are not those of the recorded sample",
                      sample=o, got=ts.taylor_orders[i], want=want, **wit)


def run(ctx):
    from disc_solver.solve.config import define_conditions
    from disc_solver.solve.utils import SolverError
    from disc_solver.solve import deriv_midplane as dm
    from disc_solver.solve.solution import taylor_jump
    from disc_solver.utils import ODEIndex as I
    space(ctx)
    rng = ctx.rng
    for case in range(ctx.n(260, 6000)):
        if not ctx.more():
            break
        er, etad = bool(case % 2), bool((case // 2) % 2)
        o = gen.overrides(rng, use_E_r=er, η_derivs=etad)
        if case % 5 == 0:
            o["η_H"] = "0"
        if case % 7 == 0:
            o["η_A"] = "0"
        if case % 11 == 0:
            o["γ"] = repr(float(rng.uniform(.02, .25)))
        if case < 4:
            o = dict(use_E_r=str(er), η_derivs=str(etad))
        inp = gen.make_input(o)
        try:
            cons = define_conditions(inp)
        except SolverError:
            ctx.count("rejected")
            continue
        y, g, a0, K = (cons.init_con, cons.γ, cons.a_0,
                       cons.norm_kepler_sq)
        vr, u = y[I.v_r], y[I.v_φ]
        eta = tuple(y[[I.η_O, I.η_A, I.η_H]])
        p = vr * u / (2 * a0)
        a = ph.solve_dBr(0., g, 0., 0., 1., p, (vr, 0., u), *eta)
        args = (vr, u, g, a0, K, eta, etad)
        exact = series.solve([a, p, -2 * g * vr], *args)
        wrong = series.recorded_wrong(vr, u, *eta, g, a0, K, etad)
        _, E2, s2 = series.electric(exact, *args)
        kw = dict(init_con=y, γ=g, a_0=a0)
        ok, parts = ctx.call("series-raises", lambda: (
            dm.get_taylor_first_order(**kw),
            dm.get_taylor_second_order(η_derivs=etad, use_E_r=er, **kw),
            dm.get_taylor_third_order(η_derivs=etad, use_E_r=er, **kw)))
        if not ok:
            continue
        c1, c2, c3 = parts
        ctx.observe((er, etad, eta[1] == 0, np.sign(eta[2]),
                     int(np.log10(a0) * 3), int(np.log10(K) * 2),
                     int(np.log10(abs(g)) * 2)),
                    dict(overrides=o, first=c1, second=c2, third=c3))
        wit = dict(overrides=o, init_con=y)
        want = {1: {}, 2: {}, 3: {}}
        bad = {1: {}, 2: {}, 3: {}}
        for dst, src in ((want, exact), (bad, wrong)):
            v = dict(zip(series.ORDER, src))
            dst[1].update(B_r=v["B_r'"], B_φ=v["B_φ'"], v_θ=v["v_θ'"])
            dst[2].update(B_θ=v["B_θ''"], v_r=v["v_r''"], v_φ=v["v_φ''"],
                          ρ=v["ρ''"])
            dst[2].update({n: s * y[I[n]] for n, s in zip(
                ("η_O", "η_A", "η_H"), s2)})
            dst[2]["E_r" if er else "B_φ_prime"] = E2 if er else v["B_φ'''"]
            dst[3].update(B_r=v["B_r'''"], B_φ=v["B_φ'''"],
                          v_θ=v["v_θ'''"])
        known_names = {(2, "v_r"), (2, "v_φ"), (3, "B_r"), (3, "B_φ"),
                       (3, "v_θ")}
        if not er:
            known_names.add((2, "B_φ_prime"))
        for order, got in ((1, c1), (2, c2), (3, c3)):
            names = {I[n]: n for n in want[order]}
            for i in range(len(I)):
                ctx.count("coefficients")
                n = names.get(i)
                if n is None:
                    ctx.check(got[i] == 0, "coefficient:{}:{}".format(
                        order, I(i).name),
                        "order {} coefficient of {} is {!r}, should be "
                        "0".format(order, I(i).name, got[i]), **wit)
                    continue
                w = want[order][n]
                if abs(got[i] - w) <= TOL * abs(w):
                    continue
                k = bad[order][n]
                if ((order, n) in known_names
                        and abs(got[i] - k) <= 1e-9 * abs(k)):
                    ctx.violation(
                        "series-constant-terms-exchanged",
                        "order {} coefficient of {}".format(order, n))
                    continue
                if np.max(abs(exact)) > 1e12:
                    ctx.count("near_singular")
                    continue
                ctx.violation(
                    "coefficient:{}:{}".format(order, n),
                    "order {} coefficient of {} is {!r}, should be "
                    "{!r}".format(order, n, got[i], w), **wit)
        # the hand-over point of the jump is this series
        stop = np.radians(gen.logu(rng, 1e-5, .05))
        angles = np.concatenate(([0.], np.sort(rng.uniform(0, .1, 40))))
        if case % 3 == 0:
            angles[5] = stop
            angles = np.sort(angles)
        ok, ts = ctx.call(
            "taylor_jump-raises", taylor_jump, angles=angles,
            taylor_stop_angle=stop, η_derivs=etad, use_E_r=er, **kw)
        if not ok:
            continue
        ctx.count("jumps")
        poly = y + stop * c1 + stop ** 2 / 2 * c2 + stop ** 3 / 6 * c3
        sc = abs(y) + abs(stop * c1) + abs(stop ** 2 * c2) + abs(
            stop ** 3 * c3)
        ctx.check(np.all(abs(ts.new_initial_conditions - poly)
                         <= 1e-10 * sc), "jump-value",
                  "value after the jump is not the cubic series",
                  got=ts.new_initial_conditions, want=poly, stop=stop,
                  **wit)
        handover(ctx, ts, angles, stop, y, "jump", wit)
    numerical(ctx)


def handover(ctx, ts, angles, stop, y, kind, wit):
    na = np.asarray(ts.new_angles)
    # the integrator stops within its own roundoff (100 ulp of its next step
    # size) of the angle it was asked to stop at
    ctx.check(abs(na[0] - stop) <= 1e-12 * stop and abs(
        ts.angle_stopped - stop) <= (1e-12 if kind == "jump" else 1e-6)
        * stop, "handover-angle:" + kind,
        "the main solution starts at {!r} with the values at {!r}".format(
            na[0], ts.angle_stopped), new_angles=na[:4], **wit)
    ctx.check(np.all(np.diff(na) > 0), "handover-order:" + kind,
              "angles after the hand-over are not increasing",
              new_angles=na[:5], **wit)
    rest = angles[angles > stop * (1 + 1e-6)]
    ctx.check(np.isin(rest, na).all() and np.isin(
        na[1:], angles).all(), "handover-grid:" + kind,
        "angles after the hand-over are not the remaining requested angles",
        new_angles=na, requested=angles, **wit)
    ctx.check(ts.angles[0] == 0 and np.array_equal(ts.params[0], y),
              "handover-midplane:" + kind,
              "the series does not start at the midplane values",
              first=ts.params[0], **wit)
    ctx.check(len(ts.angles) == len(ts.params) and np.all(
        np.diff(ts.angles) > 0) and ts.angles[-1] <= stop * (1 + 1e-12),
        "handover-values:" + kind,
        "the angles and values before the hand-over are not consistent",
        angles=ts.angles, **wit)


def numerical(ctx):
    """taylor_solution: integrate the same system with another solver."""
    from scipy.integrate import solve_ivp
    from disc_solver.solve.config import define_conditions
    from disc_solver.solve.utils import SolverError
    from disc_solver.solve.solution import taylor_solution, ode_system
    from disc_solver.utils import ODEIndex as I
    rng = ctx.subrng("numerical")
    for case in range(ctx.n(24, 300)):
        if not ctx.more():
            break
        er, etad = bool(case % 2), bool((case // 2) % 2)
        o = {} if case < 4 else gen.overrides(rng)
        o.update(use_E_r=str(er), η_derivs=str(etad))
        inp = gen.make_input(o)
        try:
            cons = define_conditions(inp)
        except SolverError:
            continue
        y, g, a0 = cons.init_con, cons.γ, cons.a_0
        stop = float(np.radians(rng.choice([.001, .002, .01])))
        angles = np.linspace(0, 4 * stop, 17)
        if case % 3 == 0:
            angles = np.linspace(0, 5.3 * stop, 14)
        kw = dict(γ=g, a_0=a0, norm_kepler_sq=cons.norm_kepler_sq,
                  init_con=y, η_derivs=etad, use_E_r=er)
        try:
            ts = taylor_solution(
                angles=angles, taylor_stop_angle=stop, max_steps=20000,
                relative_tolerance=1e-9, absolute_tolerance=1e-13, **kw)
        except SolverError:
            ctx.count("taylor_refused")
            continue
        ctx.count("taylor_solutions")
        ctx.observe(("numerical", er, etad, case % 3, stop),
                    dict(overrides=o, stop=stop))
        wit = dict(overrides=o, stop=stop)
        handover(ctx, ts, angles, stop, y, "numerical", wit)
        rhs, _ = ode_system(with_taylor=True, store_internal=False, **kw)

        def f(t, v):
            d = np.zeros(len(I))
            rhs(t, v, d)
            return d
        ref = solve_ivp(f, (0, stop), y, method="LSODA", rtol=1e-10,
                        atol=1e-14)
        if not ref.success:
            ctx.count("reference_failed")
            continue
        got, want = ts.new_initial_conditions, ref.y[:, -1]
        sc = np.maximum(abs(want), np.max(abs(ref.y), axis=1))
        # values which are tiny next to their tolerance are not resolved
        ok = abs(got - want) <= 1e-4 * sc + 1e-9
        ctx.check(np.all(ok), "taylor-solution-value",
                  "values where the series stops differ from an independent "
                  "integration", got=got, want=want, **wit)
        # with_taylor replaces three derivatives with their leading term
        th = stop * float(rng.uniform(.2, 1))
        d = f(th, want)
        from disc_solver.solve import deriv_midplane as dm
        c2 = dm.get_taylor_second_order(
            init_con=y, γ=g, a_0=a0, η_derivs=etad, use_E_r=er)
        for n in ("v_r", "v_φ", "ρ"):
            w = th * c2[I[n]]
            ctx.check(abs(d[I[n]] - w) <= 1e-12 * abs(w),
                      "taylor-derivative:" + n, "derivative of {} near the "
                      "midplane is not its leading term".format(n), **wit)
        t = ph.terms(th, want, d, g, a0, cons.norm_kepler_sq)
        ctx.check(ph.rel(t["solenoid"]) < 1e-8, "taylor-derivative:B_θ",
                  "solenoid condition not satisfied near the midplane",
                  **wit)
        v, B, J, e = ph.fields(th, want, d, g)
        E = ph.efield(v, B, J, *e)
        ctx.check(abs(E[2]) < 1e-8 * ph.efield_scale(v, B, J, *e),
                  "taylor-derivative:E_φ", "E_φ is not zero near the "
                  "midplane", **wit)
