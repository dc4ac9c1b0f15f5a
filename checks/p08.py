"""
P08: continuing a solution behind a shock.

Monitor: the files ds-shock writes for stored solutions with random supersonic
parts. Each has to start in the state which the jump conditions of an
isothermal shock give for the row of the original at that angle, and to go on
along the equations on the rest of the grid.
"""
import contextlib
import os

import numpy as np

from vp import cli, ff, gen, physics as ph, traj

PROPERTY = "P08"
RULE = ("stored solutions with random states and a random supersonic part, "
        "run through ds-shock with different numbers of workers, ranges of "
        "solutions and formulations; distinct by formulation, selection, "
        "number of candidates and of results")
MIN_NONTRIVIAL = 4
MIN_COUNTERS = {"runs": 6, "candidates": 20, "results": 10, "rows": 200,
                "jumps": 50}


def make_solution(rng, o, inp, cons, kind):
    from disc_solver.utils import ODEIndex as I
    from disc_solver.file_format import Solution
    n = int(rng.choice([4000, 8000, 16000]))
    d = np.linspace(0, 80, n)
    step = d[1]
    y = np.tile(cons.init_con, (n, 1))
    # a narrow supersonic peak: few candidates
    width = step * rng.uniform(4, 8)
    peak = rng.uniform(44, 70)
    if kind % 3 == 1:
        # a second peak, higher but before 40 degrees
        other = rng.uniform(10, 35)
    else:
        # a second peak, lower, before the highest
        other = rng.uniform(41, peak - 1)
    y[:, I.v_θ] = rng.uniform(1.5, 3) * np.exp(-((d - peak) / width) ** 2)
    y[:, I.v_θ] += rng.uniform(1.1, 1.4) * np.exp(
        -((d - other) / step / 4) ** 2) * (2 if kind % 3 == 1 else 1)
    if kind % 3 == 2:
        # too fast to shock close to the maximum
        k = int(np.argmax(y[:, I.v_θ]))
        y[k:k + 2, I.v_θ] = [30, 11]
    e = gen.logu(rng, 1, 30) / max(inp.η_O, inp.η_A, inp.η_H)
    y[:, I.ρ] = gen.logu(rng, .3, 1) * np.exp(-d / 90)
    y[:, I.v_r] = rng.normal() * .5
    y[:, I.v_φ] = np.sqrt(cons.norm_kepler_sq) * rng.uniform(.1, .6)
    y[:, I.B_r] = rng.uniform(.2, 1.5)
    y[:, I.B_φ] = -rng.uniform(.2, 1.5)
    y[:, I.B_θ] = rng.uniform(.5, 1.5)
    y[:, [I.η_O, I.η_A, I.η_H]] *= e
    y[:, I.E_r] = rng.normal() * .1
    return Solution(
        solution_input=inp, initial_conditions=cons, flag=0,
        coordinate_system="spherical midplane 0", internal_data=None,
        angles=np.radians(d), solution=y, t_roots=None, y_roots=None,
        sonic_point=None, sonic_point_values=None)


@contextlib.contextmanager
def inside(d):
    old = os.getcwd()
    os.chdir(d)
    try:
        yield
    finally:
        os.chdir(old)


def shock_files(ctx, case):
    from h5preserve import open as h5open
    from disc_solver.file_format import registries, InitialConditions
    from disc_solver.solve.utils import SolverError
    from disc_solver.utils import ODEIndex as I
    rng = ctx.subrng("s", case)
    use_E_r = bool(case & 1)
    for _ in range(50):
        o = traj.near(rng, .2, use_E_r=use_E_r, max_steps=200,
                      jump_before_sonic=".1" if case & 2 else "None")
        try:
            inp, cons = traj.make_cons(o)
            break
        except SolverError:
            pass
    # a hot disc, as in a thin one nothing is in balance at such angles
    cons = InitialConditions(
        norm_kepler_sq=rng.uniform(.5, 3), γ=cons.γ, init_con=cons.init_con,
        angles=cons.angles, a_0=cons.a_0 * rng.uniform(.01, .1))
    sols = [make_solution(rng, o, inp, cons, case),
            make_solution(rng, o, inp, cons, case + 1)]
    run = ff.rand_run(rng)
    d = ctx.tmp("shock")
    with h5open(str(d / "a.hdf5"), registries, mode="x") as f:
        f["run"] = run
        for s in sols:
            run.solutions.add_solution(s)
        run.finalise()
    sel = ["0", "final", "latest", "1"][case % 4]
    soln = sols[0 if sel == "0" else 1]
    a, y = np.asarray(soln.angles), np.asarray(soln.solution)
    v = y[:, I.v_θ]
    want = np.nonzero((v > 1) & (v < 10) & (a > np.radians(40)) & (
        a > a[np.argmax(v)]))[0]
    before = (d / "a.hdf5").read_bytes()
    workers = int(rng.integers(1, 4))
    with inside(d):
        r = cli.run_cli("ds-shock", ["a.hdf5", sel, "--nworkers", workers])
    wit = dict(overrides=o, selection=sel, workers=workers)
    if not ctx.check(r.exc is None, "fails", "ds-shock ends with {!r}".format(
            r.exc), output=r.err[-400:], **wit):
        return
    ctx.count("runs")
    ctx.count("candidates", len(want))
    ctx.check((d / "a.hdf5").read_bytes() == before, "original",
              "the original file was changed", **wit)
    files = sorted(p for p in d.rglob("*.hdf5") if p.name != "a.hdf5")
    found = {}
    for p in files:
        srun, ssols, s = traj.read(p)
        k = int(np.argmin(np.abs(a - s.angles[0])))
        ctx.check(a[k] == s.angles[0] and k in want and k not in found,
                  "angle", "shock at {}, which is not (or twice) among "
                  "the candidates".format(np.degrees(s.angles[0])), **wit)
        found[k] = s
        ctx.check(srun.is_post_shock_only and s.is_post_shock_only and
                  len(ssols) == 1 and
                  srun.based_on_solution_solution_name == sel and
                  os.path.basename(str(srun.based_on_solution_filename))
                  == "a.hdf5", "provenance", "the result does not say what "
                  "it is", **wit)
        wrong = ff.diff(ff.plain(run.config_input),
                        ff.plain(srun.config_input))
        ctx.check(not wrong, "config", "another configuration is recorded: "
                  "{}".format(wrong), **wit)
        ctx.check(len(s.angles) >= 5, "short", "a result of {} rows".format(
            len(s.angles)), **wit)
        check_result(ctx, rng, s, soln, k, inp, wit)
        ctx.check(p.with_suffix(".png").exists(), "plot",
                  "no plot of the result", **wit)
    expected = complete(ctx, soln, inp, want, found, wit)
    ctx.count("results", len(found))
    ctx.observe((use_E_r, sel, len(want), len(found)), dict(
        overrides=o, candidates=len(want), results=len(found),
        expected=expected))


def jumped(y):
    """Mass and momentum flux conserved, all else continuous"""
    from disc_solver.utils import ODEIndex as I
    flux = y[I.ρ] * y[I.v_θ]
    momentum = flux * y[I.v_θ] + y[I.ρ]
    # v + 1/v = momentum/flux has two solutions, the flow has one of them
    roots = np.roots([1, -momentum / flux, 1])
    new = y.copy()
    new[I.v_θ] = float(np.min(roots))
    new[I.ρ] = flux / new[I.v_θ]
    return new


def check_result(ctx, rng, s, soln, k, inp, wit):
    from disc_solver.utils import ODEIndex as I
    a, y = np.asarray(soln.angles), np.asarray(soln.solution)
    sy = np.asarray(s.solution)
    want = jumped(y[k])
    for c in I:
        ctx.check(abs(sy[0][c] - want[c]) <= 1e-8 * abs(want[c]) + 1e-14,
                  "state: " + c.name, "behind the shock {} is {} and not {}"
                  .format(c.name, sy[0][c], want[c]), **wit)
    n = len(s.angles)
    ctx.count("rows", n)
    ctx.check(np.allclose(s.angles, a[k:k + n], rtol=1e-12), "grid",
              "not the remaining angles of the solution", **wit)
    ctx.check((int(s.flag) == 0) == (n == len(a) - k), "flag",
              "flag {} after {} of {} rows".format(
                  int(s.flag), n, len(a) - k), **wit)
    ctx.check(not ff.diff(ff.plain(s.initial_conditions),
                          ff.plain(soln.initial_conditions)),
              "initial conditions", "others are recorded", **wit)
    d = s.internal_data
    if d is None or not len(d.angles):
        return ctx.check(False, "internal", "no internal data", **wit)
    th, p, dp = map(np.asarray, (d.angles, d.params, d.derivs))
    good = (p[:, I.v_θ] > 0) & (p[:, I.ρ] > 0) & (
        np.abs(p[:, I.v_θ] - 1) > 1e-2) & np.isfinite(dp).all(1)
    c = soln.initial_conditions
    ctx.check(abs(th[0] - a[k]) < 1e-9, "internal-start",
              "internal data start at another angle", **wit)
    for name, t in ph.terms(th, p, dp, c.γ, c.a_0,
                            c.norm_kepler_sq).items():
        r = ph.rel(t)[good]
        ctx.check(len(r) == 0 or np.quantile(r, .95) < 1e-6,
                  "equation: " + name, "behind the shock the {} does not "
                  "hold: {:.1e}".format(name, np.quantile(r, .95)
                                        if len(r) else 0), **wit)


def complete(ctx, soln, inp, want, found, wit):
    """Every candidate with a solution of at least five rows is there"""
    from disc_solver.solve.solution import solution
    c = soln.initial_conditions
    y = np.asarray(soln.solution)
    new = inp.new_without_sonic_taylor()
    expected = 0
    for k in want:
        rows = []
        # the solver is sensitive to rounding here
        for factor in (1, 1 + 1e-13, 1 - 1e-12):
            try:
                with cli.captured():
                    s = solution(
                        new, c, store_internal=False, with_taylor=False,
                        is_post_shock_only=True,
                        modified_initial_conditions=c.create_modified(
                            init_con=jumped(y[k]) * factor,
                            angles=soln.angles[k:]))
                rows.append(len(s.angles))
            except Exception:  # noqa
                break
        if len(rows) < 3:
            continue
        if min(rows) > 20:
            expected += 1
            ctx.check(int(k) in found, "lost", "no result for the shock at "
                      "{} (row {})".format(np.degrees(soln.angles[k]), k),
                      **wit)
    return expected


def jumps(ctx):
    """The jump conditions themselves, at any speed and density"""
    from disc_solver.solve import shock
    rng = ctx.subrng("j")
    for _ in range(ctx.n(60, 3000)):
        v, ρ = gen.logu(rng, 1, 20), gen.logu(rng, 1e-12, 1)
        ok, v2 = ctx.call("v", shock.get_v_θ_post, v)
        ok2, ρ2 = ctx.call("ρ", shock.get_ρ_post, v_θ_pre=v, ρ_pre=ρ)
        if not (ok and ok2):
            return
        ctx.count("jumps")
        ctx.check(abs(v2 * ρ2 / (v * ρ) - 1) < 1e-12 and v2 <= 1, "mass",
                  "mass flux changes from {} to {}".format(
                      v * ρ, v2 * ρ2))
        p1, p2 = ρ * (v ** 2 + 1), ρ2 * (v2 ** 2 + 1)
        ctx.check(abs(p2 / p1 - 1) < 1e-12, "momentum", "momentum flux "
                  "changes from {} to {}".format(p1, p2))


def run(ctx):
    jumps(ctx)
    for case in range(ctx.n(6, 60)):
        if not ctx.more():
            break
        shock_files(ctx, case)
