"""
P04: the full solution is a trajectory of the governing equations on the
requested grid.

Monitor: run files written by the solver. Residuals of independently written
equations along the stored rows (derivatives of a spline through them), the
set of stored angles against the requested grid, and repetitions of the same
run with other tolerances, without internal data and with few steps.
"""
import numpy as np

from vp import gen, traj

PROPERTY = "P04"
RULE = ("solver runs of random configurations (default neighbours and wide), "
        "both formulations, both ways off the midplane, with and without "
        "diffusivity scaling, several grids and tolerances; distinct by "
        "those options, the way the run ended and its decade of length")
MIN_NONTRIVIAL = 12
MIN_COUNTERS = {"trajectories": 16, "rows": 10000, "reached_stop": 2,
                "stopped_early": 4, "repeated": 3, "tolerances": 3,
                "steps_limited": 2, "midplane_rows": 2}
MEDIAN = {"azimuthal momentum": 4e-2}
TOL, TOL90 = 2e-3, .3


def options(rng, case):
    o = dict(
        max_steps=1000, use_E_r=bool(case & 1), use_taylor_jump=bool(case & 2),
        η_derivs=not case & 4, num_angles=int(rng.choice(
            [700, 2000, 5000, 10000])), stop=repr(float(
                rng.choice([5, 5, rng.uniform(.2, 2), rng.uniform(5, 40)]))))
    if rng.random() < .3:
        o["relative_tolerance"] = repr(gen.logu(rng, 1e-9, 1e-6))
    if rng.random() < .4:
        o["taylor_stop_angle"] = repr(gen.logu(rng, 3e-4, 3e-2))
    elif rng.random() < .4:
        # almost one of the requested angles
        step = float(o["stop"]) / (o["num_angles"] - 1)
        o["taylor_stop_angle"] = repr(
            max(1, round(.002 / step)) * step * float(
                1 + rng.choice([-1, 1]) * gen.logu(rng, 1e-7, 1e-4)))
    return o


def admissible(ctx, make):
    """An input with an equilibrium"""
    from disc_solver.solve.utils import SolverError
    for _ in range(50):
        o = make()
        try:
            inp, cons = traj.make_cons(o)
            return o, inp, cons
        except SolverError:
            ctx.count("no_equilibrium")
    return None, None, None


def grid_check(ctx, o, inp, sol, wit):
    a = np.asarray(sol.angles)
    grid = np.radians(np.linspace(inp.start, inp.stop, inp.num_angles))
    tstop = np.radians(inp.taylor_stop_angle)
    if not ctx.check(len(a) == len(sol.solution), "lengths", "{} angles but "
                     "{} rows".format(len(a), len(sol.solution)), **wit):
        return False
    ctx.check((np.diff(a) > 0).all(), "angle-order",
              "stored angles do not increase", angles=a[:5], **wit)
    close = 1e-8 * tstop
    is_stop = np.abs(a - tstop) <= close
    ctx.check(is_stop.sum() == 1, "taylor-stop", "the angle at which the "
              "midplane series stops is stored {} times".format(
                  is_stop.sum()), **wit)
    rest = a[~is_stop]
    want = grid[(np.abs(grid - tstop) > close) & (
        grid <= a[-1] * (1 + 1e-12))]
    if inp.use_taylor_jump:
        want = want[(want == 0) | (want > tstop)]
    else:
        ctx.count("midplane_rows", int((rest < tstop).sum()))
    ok = len(rest) == len(want) and np.allclose(
        rest, want, rtol=1e-11, atol=1e-15)
    ctx.check(ok, "grid", "stored angles are not the requested ones",
              stored=len(rest), requested=len(want), **wit)
    end = abs(a[-1] - grid[-1]) <= 1e-9 * grid[-1]
    flag = int(sol.flag)
    ctx.check((flag == 0) == end, "flag", "flag {} but the last angle is {} "
              "of {}".format(flag, a[-1], grid[-1]), **wit)
    ctx.count("reached_stop" if end else "stopped_early")
    return ok


def trajectory(ctx, case):
    from disc_solver.utils import ODEIndex as I
    rng = ctx.subrng("t", case)
    opt = options(rng, case)
    o, inp, cons = admissible(ctx, lambda: traj.near(
        rng, .3 if case % 4 else .02, **opt)
        if rng.random() < .8 else gen.overrides(rng, **opt))
    if o is None:
        return
    wit = dict(overrides=o)
    ok, res = ctx.call("solve", traj.run_file, ctx, o)
    if not ok:
        return
    path, succeeded = res
    _, sols, sol = traj.read(path)
    ctx.count("trajectories")
    ctx.count("rows", len(sol.angles))
    ctx.observe((inp.use_E_r, inp.use_taylor_jump, inp.η_derivs,
                 int(sol.flag), len(str(len(sol.angles)))),
                dict(overrides=o, rows=len(sol.angles), flag=int(sol.flag)))
    ctx.check(len(sols) == 1, "solutions", "{} solutions in the run".format(
        len(sols)), **wit)
    grid_check(ctx, o, inp, sol, wit)
    y = np.asarray(sol.solution)
    ctx.check(np.array_equal(y[0], cons.init_con), "first-row",
              "the first row is not the state at the midplane", **wit)
    ctx.check(np.isfinite(y).all(), "finite", "rows which are not finite",
              **wit)
    ctx.check((y[:, I.ρ] > 0).all(), "density", "rows of negative density",
              **wit)
    ctx.check(sol.t_roots is None and sol.y_roots is None, "root",
              "a root is recorded although none was looked for", **wit)
    # close to a sonic point, or beyond one which was stepped over, the
    # equations are singular and nothing is promised
    fast = np.nonzero(y[:, I.v_θ] > .5)[0]
    n = int(fast[0]) if len(fast) else len(sol.angles)
    # leave out the rows at the midplane; the numerical series is checked
    # by P03
    first = int(np.searchsorted(
        sol.angles, np.radians(inp.taylor_stop_angle) * (1 + 1e-7)))
    if n - first < 100:
        return ctx.count("short")
    r = traj.residuals(sol.angles[first:n], y[first:n], sol.initial_conditions,
                       inp.use_E_r, inp.η_derivs)
    for name, x in r.items():
        med, q90 = np.median(x), np.quantile(x, .9)
        ctx.check(med < MEDIAN.get(name, TOL), "equation: " + name,
                  "median relative residual of the {} along the trajectory "
                  "is {:.1e}".format(name, med), **wit)
        if n - first > 1000:
            ctx.check(q90 < TOL90, "equation: " + name, "the 90% quantile of "
                      "the relative residual of the {} is {:.1e}".format(
                          name, q90), **wit)
        ctx.count("residuals")


def same(a, b):
    return np.array_equal(a.angles, b.angles) and np.array_equal(
        a.solution, b.solution) and a.flag == b.flag


def repeated(ctx, case):
    """The same run again, and without storing internal data"""
    rng = ctx.subrng("r", case)
    opt = options(rng, case)
    o, inp, cons = admissible(ctx, lambda: traj.near(rng, .2, **opt))
    sols = []
    for internal in (True, True, False):
        ok, res = ctx.call("solve", traj.run_file, ctx, o,
                           store_internal=internal)
        if not ok:
            return
        sols.append(traj.read(res[0])[2])
    ctx.count("repeated")
    ctx.observe(("repeat", case & 7, int(sols[0].flag)))
    ctx.check(same(sols[0], sols[1]), "repeat", "the same run gives another "
              "solution the second time", overrides=o)
    ctx.check(same(sols[0], sols[2]), "internal-changes", "the solution "
              "depends on whether internal data are stored", overrides=o)
    ctx.check(sols[2].internal_data is None, "internal-stored",
              "internal data stored although they were declined")
    ctx.check(sols[0].internal_data is not None, "internal-missing",
              "no internal data although they were asked for")


def tolerances(ctx, case):
    """Tightening either tolerance costs evaluations and changes little"""
    rng = ctx.subrng("tol", case)
    opt = dict(use_E_r=True, use_taylor_jump=bool(case & 2), stop=".3",
               num_angles=200, taylor_stop_angle=".02")
    o, inp, cons = admissible(ctx, lambda: traj.near(rng, .1, **opt))
    which = "relative_tolerance" if case % 2 else "absolute_tolerance"
    other = "absolute_tolerance" if case % 2 else "relative_tolerance"
    evals, sols = [], []
    for tol in ("1e-4", "1e-7", "1e-10"):
        oo = dict(o)
        oo[which] = tol
        oo[other] = "1e-14" if case % 2 else "1e-12"
        ok, res = ctx.call("solve", traj.run_file, ctx, oo)
        if not ok:
            return
        s = traj.read(res[0])[2]
        # accepted evaluations over the same range of angles
        evals.append(s)
        sols.append(s)
    end = min(s.angles[-1] for s in sols)
    n = [int((np.asarray(s.internal_data.angles) <= end).sum())
         for s in sols]
    ctx.count("tolerances")
    ctx.observe((which, tuple(len(str(k)) for k in n)), dict(
        option=which, evaluations=n))
    if not inp.use_taylor_jump:
        # the part near the midplane is solved with the same tolerances
        near = [int((np.asarray(s.internal_data.angles) < .999 * np.radians(
            .02)).sum()) for s in sols]
        ctx.count("tolerances_midplane")
        ctx.check(near[0] != near[2] if which == "absolute_tolerance" else
                  near[0] <= near[1] <= near[2] and near[0] * 1.2 < near[2],
                  "tolerance", "{} of 1e-4, 1e-7, 1e-10 leads to {} "
                  "evaluations near the midplane".format(which, near),
                  overrides=o)
    if end < np.radians(.05):
        return ctx.count("tolerances_short")
    if which == "relative_tolerance":
        ctx.check(n[0] * 1.2 < n[1] < n[2] / 1.2, "tolerance",
                  "{} of 1e-4, 1e-7, 1e-10 leads to {} evaluations".format(
                      which, n), overrides=o)
    else:
        ctx.check(n[0] != n[2], "tolerance", "{} has no effect: {} "
                  "evaluations".format(which, n), overrides=o)


def steps(ctx, case):
    """Limiting the number of steps stops the solver, with that flag"""
    rng = ctx.subrng("steps", case)
    opt = dict(use_E_r=bool(case % 2), use_taylor_jump=True,
               num_angles=3, stop=".2")
    o, inp, cons = admissible(ctx, lambda: traj.near(rng, .05, **opt))
    flags = []
    for m in (3, 20000):
        ok, res = ctx.call("solve", traj.run_file, ctx, dict(
            o, max_steps=str(m)))
        if not ok:
            return
        flags.append(int(traj.read(res[0])[2].flag))
    ctx.count("steps_limited")
    ctx.observe(("steps", tuple(flags)))
    ctx.check(flags[0] == -1, "max-steps", "three steps at most, but the "
              "flag is {}".format(flags[0]), overrides=o)
    ctx.check(flags[1] != -1, "max-steps", "stopped for the number of steps "
              "although 20000 are allowed", overrides=o)


def run(ctx):
    for case in range(ctx.n(40, 400)):
        if ctx.more():
            trajectory(ctx, case)
    for case in range(ctx.n(8, 40)):
        if ctx.more():
            repeated(ctx, case)
            tolerances(ctx, case)
            steps(ctx, case)
