"""
P01: the system of ODEs is the governing equations.

Oracle: residuals of the physical equations (vp.physics) at the derivatives
which the real right-hand side returned.
"""
import numpy as np

from vp import physics as ph
from vp import gen

PROPERTY = "P01"
RULE = ("random admissible states (8 regimes, both formulations, sub and "
        "supersonic, with and without varying diffusivities) plus states of "
        "real trajectories; distinct by regime/formulation/options/decade of "
        "the state")
MIN_NONTRIVIAL = 300
MIN_COUNTERS = {"residuals": 2000, "vectorised_rows": 100,
                "trajectory_states": 50, "stop_signals": 40}
TOL = 1e-8
ASSUMPTIONS = ["states with |1 - v_θ| > 1e-3: at the sonic point itself the "
               "equations are singular"]


def residuals(th, y, d, ic, pars, use_E_r, η_derivs, skip_polar):
    """name -> (signed residual, scale, tolerance)"""
    I = ph.idx()
    g, a0, K = pars["γ"], pars["a_0"], pars["norm_kepler_sq"]
    out = {}
    for name, t in ph.terms(th, y, d, g, a0, K).items():
        if name == "polar momentum" and skip_polar:
            continue
        out[name] = (sum(t), sum(abs(x) for x in t), TOL)
    v, B, J, eta = ph.fields(th, y, d, g)
    E = ph.efield(v, B, J, *eta)
    q = .25 - g
    Jparts = (abs(B[2] * np.tan(th)) + abs(d[I.B_φ]), abs(q * B[2]),
              abs(d[I.B_r]) + abs(q * B[1]))
    sc = ph.efield_scale(v, B, Jparts, *eta)
    out["azimuthal electric field"] = (E[2], sc, TOL)
    # diffusivities follow B^2/rho of the midplane values
    B2 = sum(x * x for x in B)
    scale_terms = [2 * y[I[n]] * d[I[n]] / y[I.ρ] for n in
                   ("B_r", "B_φ", "B_θ")] + [-B2 * d[I.ρ] / y[I.ρ] ** 2]
    for n in ("η_O", "η_A", "η_H"):
        t = ([x * ic[I[n]] for x in scale_terms] if η_derivs else []) + [
            -d[I[n]]]
        out["diffusivity"] = (sum(t), sum(abs(x) for x in t), TOL)
        if abs(sum(t)) > TOL * sum(abs(x) for x in t):
            break
    if use_E_r:
        out["radial electric field"] = (
            E[0] - y[I.E_r], sc + abs(y[I.E_r]), TOL)
        out["radial electric field derivative"] = (
            d[I.E_r] - (g - .75) * E[1], sc, TOL)
    else:
        dBp = y[I.B_φ_prime]
        out["B_φ is not B_φ_prime"] = (d[I.B_φ] - dBp, abs(dBp), TOL)
        e0, s0, slope = ph.d_E_r(th, y, d, g, dBp)
        target = (g - .75) * E[1]
        exact = (target - e0) / slope
        got = d[I.B_φ_prime]
        known = ph.reversed_sign_ddBp(th, y, d, g, dBp, exact)
        size = (abs(target) + abs(s0)) / abs(slope) + abs(got)
        out["second derivative of B_φ"] = (got - exact, size, 1e-7)
        out["~second derivative of B_φ"] = (
            got - known, size + abs(known - exact), 1e-7)
    return out


def residual_check(ctx, rhs, th, y, d, ic, pars, use_E_r, η_derivs, tag,
                   skip_polar=False):
    I = ph.idx()
    wit = dict(θ=th, params=y, derivs=d, use_E_r=use_E_r, η_derivs=η_derivs,
               init_con=ic, **pars)
    if not np.all(np.isfinite(d)):
        ctx.violation("rhs-not-finite", "non-finite derivative", **wit)
        return
    args = (ic, pars, use_E_r, η_derivs, skip_polar)
    res = residuals(th, y, d, *args)
    perturbed = None
    for name, (r, sc, tol) in res.items():
        if name.startswith("~"):
            continue
        ctx.count("residuals")
        if abs(r) <= tol * sc:
            continue
        # A residual which is rounding error does not survive changing the
        # state in the last digits.
        if perturbed is None:
            prng = np.random.default_rng(7)
            perturbed = []
            for _ in range(6):
                yp = y * (1 + 1e-14 * prng.normal(size=len(y)))
                dp = np.zeros(len(I))
                rhs(th, yp, dp)
                perturbed.append(residuals(th, yp, dp, *args))

        def stable(name):
            vals = np.array([res[name][0]] + [p[name][0] for p in perturbed])
            return np.ptp(vals) < .2 * np.max(abs(vals))
        alt = "~" + name
        if alt in res and abs(res[alt][0]) <= tol * res[alt][1]:
            ctx.count("known_sign_reversal")
            ctx.violation("ddB_phi-sign-of-(B_phi T)'",
                          "B_φ'' has the sign of (B_φ T)' reversed", **wit)
        elif not stable(name) or (alt in res and not stable(alt)):
            ctx.count("ill_conditioned")
        else:
            ctx.violation(
                "rhs:" + name, "{} not satisfied ({}), relative residual "
                "{:.3g}".format(name, tag, r / sc), **wit)


def run(ctx):
    from disc_solver.solve.solution import ode_system
    from disc_solver.utils import ODEIndex as I
    rng = ctx.rng
    for case in range(ctx.n(700, 20000)):
        if not ctx.more():
            break
        use_E_r = bool(case % 2)
        η_derivs = bool(rng.random() < .75)
        regime, th, y, ic, pars = gen.state(rng, use_E_r)
        store = bool(rng.random() < .3)
        ok, got = ctx.call(
            "ode_system-raises", ode_system, init_con=ic, use_E_r=use_E_r,
            η_derivs=η_derivs, store_internal=store, **pars)
        if not ok:
            continue
        rhs, internal = got
        y0 = y.copy()
        d = np.full(len(I), np.nan)
        ok, ret = ctx.call("rhs-raises", rhs, th, y, d)
        if not ok:
            continue
        ctx.observe((regime, use_E_r, η_derivs, y[I.v_θ] > 1, store,
                     int(np.log10(y[I.ρ])), int(np.log10(y[I.v_θ]))),
                    dict(regime=regime, θ=th, params=y, derivs=d))
        ctx.check(ret == 0, "rhs-refuses-valid-state",
                  "return code {!r} for an admissible state".format(ret),
                  params=y, θ=th)
        ctx.check(np.array_equal(y, y0), "rhs-modifies-params",
                  "the right-hand side modified its input", before=y0,
                  after=y)
        residual_check(ctx, rhs, th, y, d, ic, pars, use_E_r, η_derivs,
                       regime)

        # pointwise and vectorised evaluation agree, as does a stored one
        if case % 3 == 0:
            k = 4
            ys = np.array([gen.state(rng, use_E_r)[2] for _ in range(k)])
            ys[0] = y
            ths = np.concatenate(([th], rng.uniform(1e-3, 1.2, k - 1)))
            vec, _ = ode_system(
                init_con=ic, use_E_r=use_E_r, η_derivs=η_derivs,
                store_internal=False, derivs_post_solution=True, **pars)
            dv = np.zeros_like(ys)
            ok, _ = ctx.call("vectorised-rhs-raises", vec, ths, ys, dv)
            if ok:
                for j in range(k):
                    dj = np.zeros(len(I))
                    rhs(ths[j], ys[j].copy(), dj)
                    ctx.count("vectorised_rows")
                    ctx.observe(("vec", regime, use_E_r, j))
                    ctx.check(np.allclose(dv[j], dj, rtol=1e-9, atol=0,
                                          equal_nan=True),
                              "vectorised-differs",
                              "vectorised derivatives differ from pointwise "
                              "ones", θ=ths[j], params=ys[j], vec=dv[j],
                              point=dj, use_E_r=use_E_r)
        # refused states
        if case % 5 == 0:
            rhs2, int2 = ode_system(
                init_con=ic, use_E_r=use_E_r, η_derivs=η_derivs,
                store_internal=True, **pars)
            for which, code, word in ((I.ρ, 1, "density"),
                                      (I.v_θ, -1, "velocity")):
                bad = y.copy()
                bad[which] = -abs(bad[which])
                before = len(int2.angles)
                ret = rhs2(th, bad, np.zeros(len(I)))
                ctx.count("stop_signals")
                ctx.check(np.sign(ret) == code, "stop-signal",
                          "negative {} gave return code {!r}".format(
                              word, ret), params=bad)
                ctx.check(len(int2.angles) == before,
                          "refused-state-recorded",
                          "a refused evaluation was recorded as a solution "
                          "evaluation", params=bad)
                ctx.check(any(word in p for p in int2.problems[th]),
                          "problem-not-recorded",
                          "negative {} not recorded as a problem".format(
                              word), problems=dict(int2.problems))
        # prescribed v_θ' (used to cross the sonic point by interpolation)
        if case % 7 == 0:
            val = float(rng.normal() * 10)
            seen = []

            def func(x):
                seen.append(x)
                return val
            rhs3, _ = ode_system(
                init_con=ic, use_E_r=True, η_derivs=η_derivs,
                store_internal=False, deriv_v_θ_func=func, **pars)
            y3 = gen.state(rng, True)[2]
            d3 = np.zeros(len(I))
            rhs3(th, y3, d3)
            ctx.count("prescribed_velocity_gradient")
            ctx.check(d3[I.v_θ] == val and seen and all(
                x == th for x in seen), "prescribed-gradient",
                "prescribed v_θ' not used", got=d3[I.v_θ], expected=val)
            residual_check(ctx, rhs3, th, y3, d3, ic, pars, True, η_derivs,
                           "prescribed v_θ'", skip_polar=True)

    trajectories(ctx)


def trajectories(ctx):
    """The same oracle along states which the solver itself visited."""
    from disc_solver.solve.solution import solution, ode_system
    from disc_solver.solve.config import define_conditions
    from disc_solver.utils import ODEIndex as I
    rng = ctx.subrng("traj")
    for t in range(ctx.n(4, 30)):
        if not ctx.more():
            break
        use_E_r = bool(t % 2)
        o = {} if t < 2 else gen.overrides(rng)
        o.update(use_E_r=str(use_E_r), num_angles="2000")
        inp = gen.make_input(o)
        try:
            cons = define_conditions(inp)
            soln = solution(inp, cons)
        except Exception as e:  # covered by P02/P04
            ctx.count("trajectory_failed:" + type(e).__name__)
            continue
        internal = soln.internal_data
        n = len(internal.angles)
        pars = dict(γ=cons.γ, a_0=cons.a_0,
                    norm_kepler_sq=cons.norm_kepler_sq)
        rhs, _ = ode_system(init_con=cons.init_con, use_E_r=use_E_r,
                            store_internal=False, **pars)
        for i in np.unique(np.linspace(0, n - 1, 40).astype(int)):
            y, th = internal.params[i], internal.angles[i]
            if th <= 0 or y[I.v_θ] <= 0 or abs(y[I.v_θ] - 1) < 1e-3:
                continue
            d = np.zeros(len(I))
            if rhs(th, y, d) != 0:
                continue
            ctx.count("trajectory_states")
            ctx.observe(("trajectory", use_E_r, t, int(40 * i / n)))
            residual_check(ctx, rhs, th, y, d, cons.init_con, pars, use_E_r,
                           True, "on trajectory")
