"""
P05: crossing the sonic point.

Monitor: run files of solver runs which jump over the sonic point or
interpolate across it. The recorded root, the first row beyond it and all
rows are compared with what the options ask for; the direction of the jump
with independently written governing equations at the root.
"""
import numpy as np

from vp import gen, physics as ph, traj

PROPERTY = "P05"
RULE = ("solver runs near the default configuration with random crossing "
        "method, sizes before and after the sonic point, formulation and "
        "grid, including runs which never get there; distinct by method, "
        "formulation, whether the size after is given, decade of the sizes "
        "and how the run ended")
MIN_NONTRIVIAL = 12
MIN_COUNTERS = {"jumps": 8, "interpolations": 8, "not_reached": 2,
                "asymmetric": 4, "beyond_rows": 400, "interpolants": 2,
                "records_beyond": 500, "constant_diffusivities": 1,
                "steps_limited": 3}


def options(rng, case):
    o = dict(use_E_r=bool(case & 1), max_steps=1000, stop="3",
             η_derivs=bool(rng.random() < .75),
             use_taylor_jump=bool(rng.random() < .7),
             num_angles=int(rng.choice([600, 2000, 6000, 10000])))
    size = gen.logu(rng, .01, .3)
    o["jump_before_sonic" if case & 2 else "sonic_interp_size"] = repr(size)
    if not case & 2:
        o["interp_slice"] = "-{},-{}".format(
            rng.integers(60, 1000), rng.integers(5, 50))
    after = size
    if case & 4:
        after = gen.logu(rng, .01, .3)
        o["after_sonic"] = repr(after)
    return o, size, after


def pick(ctx, rng, opt, spread):
    from disc_solver.solve.utils import SolverError
    for _ in range(50):
        o = traj.near(rng, spread, **opt)
        try:
            return (o,) + traj.make_cons(o)
        except SolverError:
            pass
    raise RuntimeError("no equilibrium found")


def derivative_terms(th, y, dy, cons, inp):
    """Relative residuals of the equations for a derivative at one state"""
    out = {n: float(ph.rel(t)) for n, t in ph.terms(
        th, y, dy, cons.γ, cons.a_0, cons.norm_kepler_sq).items()}
    v, B, J, eta = ph.fields(th, y, dy, cons.γ)
    E = ph.efield(v, B, J, *eta)
    out["azimuthal induction"] = float(
        abs(E[2]) / ph.efield_scale(v, B, J, *eta))
    I = ph.idx()
    if inp.use_E_r:
        t = [dy[I.E_r], -(cons.γ - .75) * E[1]]
        # E_r is the state, so E_θ is only as consistent as the integration
        out["polar induction"] = float(ph.rel(t)) / 10
    else:
        out["gradient of B_φ"] = float(
            ph.rel([dy[I.B_φ], -y[I.B_φ_prime]]))
    return out


def check_jump(ctx, o, inp, cons, sol, size, after, wit):
    from disc_solver.utils import ODEIndex as I
    t, y = float(sol.t_roots[-1]), np.asarray(sol.y_roots[-1])
    a = np.asarray(sol.angles)
    k = int(np.searchsorted(a, t * (1 + 1e-12)))
    if not ctx.check(k < len(a), "no-landing", "no row beyond the root",
                     **wit):
        return
    landing = np.asarray(sol.solution[k])
    ctx.count("jumps")
    # the root is only as good as the root finder
    want = y[I.v_θ] + size + after
    ctx.check(abs(landing[I.v_θ] - want) < 1e-8, "landing",
              "the jump lands at v_θ = {} and not {}".format(
                  landing[I.v_θ], want), **wit)
    h = a[k] - t
    dy = (landing - y) / h
    for name, r in derivative_terms(t, y, dy, cons, inp).items():
        ctx.check(r < 1e-5, "jump direction: " + name, "the jump does not "
                  "follow the derivative at the root: {} has relative "
                  "residual {:.1e}".format(name, r), **wit)
    return t, float(a[k])


def check_interp(ctx, o, inp, cons, sol, after, wit):
    from disc_solver.utils import ODEIndex as I
    t, y = float(sol.t_roots[-1]), np.asarray(sol.y_roots[-1])
    a, s = np.asarray(sol.angles), np.asarray(sol.solution)
    v = s[:, I.v_θ]
    k = int(np.argmin(np.abs(a - t)))
    if a[-1] < t:
        # the interpolation failed, the solution ends before the root
        return ctx.count("interpolation_failed")
    # the interpolated part starts at the recorded root
    ctx.check(abs(a[k] - t) <= 1e-12 * t and np.allclose(
        s[k], y, rtol=1e-9, atol=1e-12), "interp-start", "the interpolated "
        "part does not start at the root", **wit)
    beyond = np.nonzero(v[k:] >= 1 + after - 1e-6)[0]
    if not ctx.check(len(beyond) > 0, "interp-incomplete", "the solution "
                     "continues although the interpolation does not cross",
                     **wit):
        return
    ctx.count("interpolations")
    e = k + int(beyond[0])
    ctx.check(abs(v[e] - 1 - after) < 1e-4 * (1 + after), "interp-end",
              "the first row beyond the interpolated part has v_θ = {} and "
              "not {}".format(v[e], 1 + after), **wit)
    # within the interpolated part all but one of the equations still hold
    if e - k > 20 and a[e] - a[k] > 0:
        r = traj.residuals(a[k:e], s[k:e], cons, inp.use_E_r, inp.η_derivs,
                           trim=3)
        ctx.count("interpolated_equations")
        for name, x in r.items():
            if name == "polar momentum":
                continue
            ctx.check(np.median(x) < 5e-2, "interpolated: " + name,
                      "median relative residual of the {} across the sonic "
                      "point is {:.1e}".format(name, np.median(x)), **wit)
    return t, t, float(a[e])


def distance(x, others):
    """Distance of each x from the closest of others (sorted)"""
    others = np.concatenate(([-1e9], np.sort(others), [1e9]))
    k = np.searchsorted(others, x)
    return np.minimum(np.abs(others[k] - x), np.abs(x - others[k - 1]))


def without(x, extra):
    return x[distance(x, extra) > 1e-9 * x]


def crossing(ctx, case):
    from disc_solver.utils import ODEIndex as I
    rng = ctx.subrng("c", case)
    opt, size, after = options(rng, case)
    far = case % 8 == 7
    if far:
        # magnetically dominated: hardly any outflow within the range
        opt["stop"] = repr(float(rng.uniform(.05, .3)))
    o, inp, cons = pick(ctx, rng, opt, .07)
    jump = bool(case & 2)
    wit = dict(overrides=o)
    ok, res = ctx.call("solve", traj.run_file, ctx, o)
    if not ok:
        return
    _, _, sol = traj.read(res[0])
    a, s = np.asarray(sol.angles), np.asarray(sol.solution)
    v = s[:, I.v_θ]
    ctx.observe((jump, inp.use_E_r, bool(case & 4), int(np.log10(size) * 2),
                 int(np.log10(after) * 2), int(sol.flag)),
                dict(overrides=o, rows=len(a), highest=float(v.max())))
    ctx.check((np.diff(a) > 0).all(), "angle-order", "the stored angles do "
              "not increase: smallest step {}".format(np.diff(a).min()),
              **wit)
    ctx.check(len(a) == len(s), "lengths", "{} angles, {} rows".format(
        len(a), len(s)), **wit)
    tstop = np.radians(inp.taylor_stop_angle)
    grid = np.radians(np.linspace(inp.start, inp.stop, inp.num_angles))
    extra = [tstop]
    gap = None
    if sol.t_roots is None:
        ctx.count("not_reached")
        ctx.check(int(sol.flag) != 2, "root-missing", "flagged as root but "
                  "no root is recorded", **wit)
    else:
        ctx.check(int(sol.flag) == 2, "flag", "a root is recorded but the "
                  "flag is {}".format(int(sol.flag)), **wit)
        ctx.check(len(sol.t_roots) == len(sol.y_roots) == 1, "roots",
                  "{} roots".format(len(sol.t_roots)), **wit)
        vr = float(sol.y_roots[-1][I.v_θ])
        ctx.check(abs(vr - 1 + size) < 1e-5, "root-velocity", "crossing "
                  "starts at v_θ = {} and not {}".format(vr, 1 - size),
                  **wit)
        t = float(sol.t_roots[-1])
        before = a < t * (1 - 1e-12)
        ctx.check((v[before] < 1 - size + 1e-5).all(), "crossed-before",
                  "rows before the root are faster than it", **wit)
        if after != size:
            ctx.count("asymmetric")
        if jump:
            gap = check_jump(ctx, o, inp, cons, sol, size, after, wit)
            if gap:
                extra.append(gap[1])
        else:
            x = check_interp(ctx, o, inp, cons, sol, after, wit)
            extra.append(t)
            if x:
                extra.append(x[2])
        ctx.count("beyond_rows", int((a > t).sum()))
    # all parts treat the diffusivities as asked
    η = s[:, [I.η_O, I.η_A, I.η_H]]
    if not inp.η_derivs:
        ctx.count("constant_diffusivities", int(sol.t_roots is not None))
        ctx.check((η == η[0]).all(), "constant diffusivities",
                  "diffusivities vary although they are to be constant",
                  **wit)
    else:
        ctx.check(np.allclose(η / η[:, :1], η[0] / η[0, 0], rtol=1e-4,
                              atol=0), "diffusivity ratios", "the ratio of "
                  "the diffusivities changes", **wit)
    beyond_records(ctx, inp, cons, sol, jump, gap, wit)
    # all requested angles are there, and no others
    want = grid[(grid <= a[-1] * (1 + 1e-12)) & (
        np.abs(grid - tstop) > 1e-8 * tstop)]
    if inp.use_taylor_jump:
        want = want[(want == 0) | (want > tstop)]
    if gap:
        want = want[(want <= gap[0]) | (want >= gap[1])]
    rest = without(a, extra)
    want = without(want, extra)
    found = (distance(want, rest) <= 1e-11 * want + 1e-15).all()
    ctx.check(found and len(rest) == len(want), "grid",
              "requested angles are missing or there are others: {} stored, "
              "{} requested".format(len(rest), len(want)), **wit)
    first = int(np.searchsorted(a, tstop * (1 + 1e-7)))
    if sol.t_roots is not None and before.sum() - first > 200:
        n = int(before.sum())
        r = traj.residuals(a[first:n], s[first:n], cons, inp.use_E_r,
                           inp.η_derivs)
        for name, x in r.items():
            ctx.check(np.median(x) < 4e-2, "before: " + name, "median "
                      "relative residual of the {} before the sonic point is "
                      "{:.1e}".format(name, np.median(x)), **wit)
    if gap:
        k = int(np.searchsorted(a, gap[1] * (1 - 1e-12)))
        slow = np.nonzero(v[k:] < 1.1)[0]
        n = k + int(slow[0]) if len(slow) else len(a)
        if n - k > 30:
            ctx.count("continued")
            r = traj.residuals(a[k:n], s[k:n], cons, inp.use_E_r, False)
            for name, x in r.items():
                # after the jump the diffusivities differ by its error
                if name in ("diffusivity", "radial electric field"):
                    continue
                ctx.check(np.median(x) < .2, "beyond: " + name, "median "
                          "relative residual of the {} beyond the sonic "
                          "point is {:.1e}".format(name, np.median(x)),
                          **wit)


def beyond_records(ctx, inp, cons, sol, jump, gap, wit):
    """The evaluations beyond the sonic point satisfy the equations"""
    from disc_solver.utils import ODEIndex as I
    d = sol.internal_data
    if sol.t_roots is None or d is None:
        return
    th, y, dy = (np.asarray(x) for x in (d.angles, d.params, d.derivs))
    m = (th > (gap[1] if gap else sol.t_roots[-1])) & (y[:, I.v_θ] > 1) & (
        y[:, I.ρ] > 0)
    if not m.any():
        return
    th, y, dy = th[m], y[m], dy[m]
    ctx.count("records_beyond", int(m.sum()))
    for name, terms in ph.terms(th, y, dy, cons.γ, cons.a_0,
                                cons.norm_kepler_sq).items():
        if name == "polar momentum" and not jump:
            continue
        r = ph.rel(terms)
        ctx.check((r < 1e-8).all(), "records beyond: " + name, "evaluations "
                  "beyond the sonic point break the {}: {:.1e}".format(
                      name, r.max()), **wit)
    B2 = (y[:, I.B_r] ** 2 + y[:, I.B_φ] ** 2 + y[:, I.B_θ] ** 2) / y[:, I.ρ]
    dB2 = 2 * (y[:, I.B_r] * dy[:, I.B_r] + y[:, I.B_φ] * dy[:, I.B_φ] +
               y[:, I.B_θ] * dy[:, I.B_θ]) / y[:, I.ρ]
    dB2 = dB2 - B2 * dy[:, I.ρ] / y[:, I.ρ]
    for k in (I.η_O, I.η_A, I.η_H):
        want = dB2 * cons.init_con[k] * bool(inp.η_derivs)
        ctx.check(np.allclose(dy[:, k], want, rtol=1e-8, atol=1e-12 * abs(
            cons.init_con[k])), "records beyond: diffusivity", "evaluations "
            "beyond the sonic point do not scale " + k.name, **wit)


def interpolant(ctx, case):
    """
    Across the sonic point v_θ' is the cubic interpolant through the chosen
    part of the approach. The jump with the same size has the same approach.
    """
    from scipy.interpolate import interp1d
    from disc_solver.utils import ODEIndex as I
    rng = ctx.subrng("i", case)
    opt, size, after = options(rng, case & ~2)
    lo, hi = int(rng.integers(60, 600)), int(rng.integers(2, 50))
    opt["interp_slice"] = "-{},-{}".format(lo, hi)
    o, inp, cons = pick(ctx, rng, opt, .05)
    other = dict(o, jump_before_sonic=o["sonic_interp_size"],
                 sonic_interp_size="None")
    runs = []
    for x in (o, other):
        ok, res = ctx.call("solve", traj.run_file, ctx, x)
        if not ok:
            return
        runs.append(traj.read(res[0])[2])
    if runs[0].t_roots is None or runs[0].angles[-1] < runs[0].t_roots[-1]:
        return ctx.count("interpolant_not_reached")
    d = [r.internal_data for r in runs]
    a = [np.asarray(x.angles) for x in d]
    n = min(map(len, a))
    differ = np.nonzero(a[0][:n] != a[1][:n])[0]
    k = int(differ[0]) if len(differ) else n
    dv = np.asarray(d[0].derivs)[:, I.v_θ]
    # evaluations start at the root
    t = float(runs[0].t_roots[-1])
    while k > 0 and a[0][k - 1] == t:
        k -= 1
    # of evaluations at the same angle the largest counts
    largest = {}
    for xi, yi in zip(a[0][:k][-lo:-hi], dv[:k][-lo:-hi]):
        largest[xi] = max(yi, largest.get(xi, -np.inf))
    x = np.array(sorted(largest))
    f = interp1d(x, [largest[xi] for xi in x], kind="cubic",
                 fill_value="extrapolate")
    m = slice(k, k + 40)
    inside = (a[0][m] >= t) & (a[0][m] < t + (t - x[0]))
    got, want = dv[m][inside], f(a[0][m][inside])
    ctx.count("interpolants")
    ctx.observe(("interpolant", lo // 100, hi // 10, inp.use_E_r))
    err = np.abs(got - want) / np.max(np.abs(want))
    ctx.check(len(got) > 1 and np.median(err) < 1e-3, "interpolant",
              "v_θ' across the sonic point is not the interpolant through "
              "internal data [-{}:-{}]: median difference {:.1e}".format(
                  lo, hi, np.median(err) if len(err) else np.nan),
              overrides=o)


def limited(ctx, case):
    """
    The number of steps between rows is limited beyond the sonic point as well:
    each takes no more than three iterations and eleven evaluations for the
    Jacobian.
    """
    rng = ctx.subrng("l", case)
    most = int(rng.integers(50, 62))
    opt = dict(use_E_r=bool(case & 1), stop="3", num_angles=10000,
               max_steps=most)
    size = repr(gen.logu(rng, .01, .3))
    if case & 2:
        opt["jump_before_sonic"] = size
    else:
        opt.update(sonic_interp_size=size, interp_slice="-{},-{}".format(
            rng.integers(60, 300), rng.integers(5, 50)))
    o, inp, cons = pick(ctx, rng, opt, .07)
    ok, res = ctx.call("solve", traj.run_file, ctx, o)
    if not ok:
        return
    sol = traj.read(res[0])[2]
    if sol.t_roots is None or sol.internal_data is None:
        return
    a, th = np.asarray(sol.angles), np.asarray(sol.internal_data.angles)
    t = float(sol.t_roots[-1])
    edges = np.append(a[a > t], 9)
    n = np.histogram(th[th > t], edges)[0]
    if not len(n):
        return
    ctx.count("steps_limited")
    ctx.observe(("limited", inp.use_E_r, case & 2, int(n.max()) // 100))
    ctx.check(n.max() <= 14 * most, "max-steps", "{} evaluations between "
              "two rows beyond the sonic point, although only {} steps are "
              "allowed".format(int(n.max()), most), overrides=o)


def run(ctx):
    for case in range(ctx.n(14, 60)):
        if ctx.more():
            limited(ctx, case)
    for case in range(ctx.n(8, 60)):
        if ctx.more():
            interpolant(ctx, case)
    for case in range(ctx.n(48, 480)):
        if not ctx.more():
            break
        crossing(ctx, case)
