"""
P06: internal data record what the solver evaluated.

Monitor: every evaluation of the equations while the solver runs (recorded by
a wrapper around the system of equations) and the internal data in the run
files written, which have to agree. Every record is a state, an angle
and derivatives: the derivatives have to be those of independently written
governing equations at that state, the alternatives recorded with them
consistent, and the records have to cover the stored solution.
"""
import numpy as np

from vp import physics as ph, traj

PROPERTY = "P06"
RULE = ("run files of solver runs near the default configuration, both "
        "formulations, with and without numerical midplane series, with and "
        "without sonic crossing, ending at the stop, at a failure or at "
        "refused states; every record is checked; distinct by formulation, "
        "kind of run, flag and decade of the number of records")
MIN_NONTRIVIAL = 8
MIN_COUNTERS = {"files": 12, "records": 5000, "series_records": 50,
                "problems": 1, "refused": 100}
PARTS = ("derivs", "params", "angles", "v_r_normal", "v_φ_normal",
         "ρ_normal", "v_r_taylor", "v_φ_taylor", "ρ_taylor")


def options(rng, case):
    o = dict(use_E_r=bool(case & 1), use_taylor_jump=bool(case & 2),
             η_derivs=bool(rng.random() < .7), max_steps=1000,
             num_angles=int(rng.choice([500, 2000, 8000])), stop="2")
    if not case & 2:
        o["taylor_stop_angle"] = repr(float(rng.uniform(.0005, .02)))
    kind = case % 3
    if kind == 1:
        o["jump_before_sonic"] = repr(float(rng.uniform(.02, .2)))
    elif kind == 2:
        o["sonic_interp_size"] = repr(float(rng.uniform(.02, .2)))
        o["interp_slice"] = "-300,-20"
    return o, kind


def worst(x):
    return float(np.nanmax(x)) if len(x) else 0.


class Evaluations:
    """Records what the systems which keep internal data are asked"""
    def __init__(self):
        self.groups = []

    def __enter__(self):
        from disc_solver.solve import solution as m
        self.module = m
        self.original = getattr(m, "ode_system", None)

        def ode_system(*args, **kwargs):
            rhs, internal = self.original(*args, **kwargs)
            if internal is None:
                return rhs, internal
            group = []
            self.groups.append(
                (kwargs.get("deriv_v_θ_func") is not None, group))

            def watched(x, params, derivs, *more):
                given = np.array(params, dtype=float)
                code = rhs(x, params, derivs, *more)
                group.append((float(x), given, np.array(derivs, dtype=float),
                              code))
                return code
            return watched, internal
        if self.original is not None:
            m.ode_system = ode_system
        return self

    def __exit__(self, *exc):
        if self.original is not None:
            self.module.ode_system = self.original

    def check(self, ctx, d, wit):
        """The internal data d are those of the evaluations"""
        if not self.groups:
            return
        th, y, dy = (np.asarray(x) for x in (d.angles, d.params, d.derivs))
        for leave_out in (False, True):
            calls = [c for interp, g in self.groups for c in g
                     if not (interp and leave_out)]
            kept = [c for c in calls if not c[3]]
            if len(kept) == len(th):
                break
        ctx.count("evaluations", len(calls))
        if not ctx.check(len(kept) == len(th), "count", "{} records of {} "
                         "evaluations".format(len(th), len(kept)), **wit):
            return
        for what, rec, i in (("angles", th, 0), ("params", y, 1),
                             ("derivs", dy, 2)):
            seen = np.array([c[i] for c in kept])
            ctx.check(np.array_equal(rec, seen, equal_nan=True), "log:" + what,
                      "the {} recorded are not those evaluated".format(what),
                      **wit)
        refused = {}
        for angle, state, _, code in calls:
            if code:
                refused.setdefault(angle, []).append(
                    "negative density" if state[ph.idx().ρ] < 0
                    else "negative velocity")
        stored = {float(a): [str(x) for x in t] for a, t in d.problems.items()
                  if len(t)}
        ctx.count("refused", len(refused))
        ctx.check(sorted(stored) == sorted(refused) and all(
            sorted(stored[a]) == sorted(refused[a]) for a in refused),
            "refused", "states were refused at {}, but problems are recorded "
            "at {}".format(list(refused.items())[:3], list(
                stored.items())[:3]), **wit)


def refusals(ctx, case):
    """Problems are those of the states refused"""
    from disc_solver.solve.solution import ode_system
    rng = ctx.subrng("refused", case)
    I = ph.idx()
    o = traj.near(rng, .1, use_E_r=bool(case & 1))
    from disc_solver.solve.utils import SolverError
    try:
        inp, cons = traj.make_cons(o)
    except SolverError:
        return
    rhs, d = ode_system(
        γ=cons.γ, a_0=cons.a_0, norm_kepler_sq=cons.norm_kepler_sq,
        init_con=cons.init_con, η_derivs=inp.η_derivs, use_E_r=inp.use_E_r)
    want, accepted = {}, []
    θ = 0.
    for k in range(int(rng.integers(3, 12))):
        if k and rng.random() < .7:
            θ += float(rng.uniform(.001, .1))
        y = np.array(cons.init_con, dtype=float)
        y[I.v_θ] = .1
        kind = int(rng.integers(3))
        if kind:
            i = (I.ρ, I.v_θ)[kind - 1]
            y[i] = -rng.uniform(.01, 1)
            want.setdefault(θ, []).append(
                ("negative density", "negative velocity")[kind - 1])
        else:
            accepted.append(θ)
        code = rhs(θ, y, np.zeros(len(I)))
        ctx.check(bool(code) == bool(kind), "code", "code {} for a {} state"
                  .format(code, "refused" if kind else "good"), overrides=o)
    got = {float(a): list(t) for a, t in d.problems.items() if len(t)}
    ctx.count("refused", len(want))
    ctx.observe(("refusals", inp.use_E_r, len(want), len(accepted)), o)
    ctx.check(got == want, "problem-angles", "problems recorded {} where {} "
              "were refused".format(got, want), overrides=o)
    ctx.check(list(d.angles) == accepted, "accepted", "records at {} where "
              "{} were evaluated".format(list(d.angles), accepted),
              overrides=o)


def records(ctx, case):
    from disc_solver.utils import ODEIndex as I
    from disc_solver.solve.utils import SolverError
    rng = ctx.subrng("f", case)
    opt, kind = options(rng, case)
    for _ in range(40):
        o = traj.near(rng, .1 if case % 4 else .4, **opt)
        try:
            inp, cons = traj.make_cons(o)
            break
        except SolverError:
            pass
    wit = dict(overrides=o)
    with Evaluations() as log:
        ok, res = ctx.call("solve", traj.run_file, ctx, o)
    if not ok:
        return
    _, _, sol = traj.read(res[0])
    d = sol.internal_data
    if not ctx.check(d is not None, "missing", "no internal data", **wit):
        return
    n = len(d.angles)
    sizes = {p: len(getattr(d, p)) for p in PARTS}
    if not ctx.check(len(set(sizes.values())) == 1, "sizes",
                     "records of different length: {}".format(sizes), **wit):
        return
    th, y, dy = (np.asarray(x) for x in (d.angles, d.params, d.derivs))
    ctx.count("files")
    ctx.count("records", n)
    ctx.observe((inp.use_E_r, bool(case & 2), kind, int(sol.flag),
                 len(str(n))), dict(overrides=o, records=n,
                                    flag=int(sol.flag)))
    ctx.check(y.shape == dy.shape == (n, len(I)), "shape", "records of shape "
              "{} and {}".format(y.shape, dy.shape), **wit)
    alt = {k: (I[k], np.asarray(getattr(d, k + "_normal")),
               np.asarray(getattr(d, k + "_taylor")))
           for k in ("v_r", "v_φ", "ρ")}
    # records of the numerical series use the second derivatives
    series = np.ones(n, bool)
    for k, (i, normal, taylor) in alt.items():
        series &= (dy[:, i] == taylor)
    series &= ~((dy[:, I.v_r] == alt["v_r"][1]))
    tstop = np.radians(inp.taylor_stop_angle)
    ctx.count("series_records", int(series.sum()))
    if inp.use_taylor_jump:
        ctx.check(not series.any(), "series-used", "the series was used "
                  "for records although it was jumped", **wit)
    else:
        ctx.check(series.any() and worst(th[series]) < 3 * tstop,
                  "series-range", "the midplane series was used up to {} "
                  "instead of {}".format(worst(th[series]), tstop), **wit)
    main = ~series
    for k, (i, normal, taylor) in alt.items():
        ctx.check(np.array_equal(dy[main, i], normal[main]), "normal",
                  "{}_normal is not the derivative which was used".format(k),
                  **wit)
        # the series derivative is linear in the angle
        c = taylor[th > 0] / th[th > 0]
        ctx.check(len(c) == 0 or np.ptp(c) <= 1e-9 * np.max(np.abs(c)),
                  "taylor", "{}_taylor is not the second derivative times "
                  "the angle".format(k), **wit)
    # the equations at every record which is not singular
    good = main & (y[:, I.v_θ] > 1e-8) & (y[:, I.ρ] > 0) & (
        np.abs(y[:, I.v_θ] - 1) > 1e-3) & np.isfinite(dy).all(1)
    interpolated = np.zeros(n, bool)
    if kind == 2:
        # across the sonic point v_θ' is interpolated
        interpolated = y[:, I.v_θ] > 1 - inp.sonic_interp_size - 1e-4
    g, a0, K = cons.γ, cons.a_0, cons.norm_kepler_sq
    for name, t in ph.terms(th, y, dy, g, a0, K).items():
        m = good & ~interpolated if name == "polar momentum" else good
        r = ph.rel([np.asarray(x)[m] if np.ndim(x) else x for x in t])
        ctx.check(worst(r) < 1e-6, "record: " + name, "a record does not "
                  "satisfy the {}: relative residual {:.1e}".format(
                      name, worst(r)), **wit)
    v, B, J, eta = ph.fields(th, y, dy, g)
    E = ph.efield(v, B, J, *eta)
    S = ph.efield_scale(v, B, J, *eta)
    ctx.check(worst((np.abs(E[2]) / S)[good]) < 1e-7,
              "record: azimuthal induction", "a record does not satisfy the "
              "azimuthal induction equation", **wit)
    if inp.use_E_r:
        ctx.check(worst((np.abs(E[0] - y[:, I.E_r]) / S)[good]) < 1e-7,
                  "record: radial electric field", "a record has another "
                  "radial electric field", **wit)
    else:
        ctx.check(np.array_equal(dy[good, I.B_φ], y[good, I.B_φ_prime]),
                  "record: gradient of B_φ", "a record has another "
                  "gradient of B_φ", **wit)
    # they are what led to the solution: the solution lies on the records
    a = np.asarray(sol.angles)
    lo = tstop if inp.use_taylor_jump else 0
    ctx.check(th.min() <= lo * (1 + 1e-9) + 1e-12 and th.max() >= a[-1] * (
        1 - 1e-9), "cover", "records from {} to {}, but the solution is from "
        "{} to {}".format(th.min(), th.max(), lo, a[-1]), **wit)
    log.check(ctx, d, wit)
    check_close(ctx, th, y, a, np.asarray(sol.solution), inp, wit)
    probs = d.problems
    for angle, texts in probs.items():
        ctx.count("problems")
        ok = all(x in ("negative density", "negative velocity")
                 for x in texts) and lo * .1 <= float(angle) < 3 * a[-1]
        ctx.check(ok, "problem", "problem {} at {}".format(
            list(texts), angle), **wit)


def check_close(ctx, th, y, a, s, inp, wit):
    """Rows of the solution lie among the records close to their angle"""
    order = np.argsort(th, kind="stable")
    ts, ys = th[order], y[order]
    k = np.searchsorted(ts, a)
    inner = (k > 4) & (k < len(ts) - 4)
    rows = np.nonzero(inner)[0][:: max(1, inner.sum() // 200)]
    bad = 0
    for i in rows:
        w = slice(k[i] - 5, k[i] + 5)
        lo, hi = ys[w].min(0), ys[w].max(0)
        size = np.maximum(np.abs(lo), np.abs(hi))
        pad = .5 * (hi - lo) + 1e-4 * size + 1e-9
        bad += bool(((s[i] < lo - pad) | (s[i] > hi + pad)).any())
    ctx.count("rows_located", len(rows))
    ctx.check(bad <= .02 * len(rows) + 1, "rows", "{} of {} rows of the "
              "solution do not lie among the records around them".format(
                  bad, len(rows)), **wit)


def run(ctx):
    for case in range(ctx.n(60, 600)):
        refusals(ctx, case)
    for case in range(ctx.n(36, 360)):
        if not ctx.more():
            break
        records(ctx, case)
