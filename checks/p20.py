"""
P20: searching for a solution through the sonic point from both sides.

Monitor: run files of the sonic_root solver. The part from the midplane, the
first guess of the sonic point and the joined solutions are compared with
independent runs and extrapolations.
"""
import copy

import numpy as np

from vp import ff, physics as ph, traj

PROPERTY = "P20"
RULE = ("sonic_root runs near the default configuration with random target "
        "velocity, number of iterations and grid, both formulations, with "
        "and without internal data; distinct by those and the number of "
        "solutions")
MIN_NONTRIVIAL = 6
MIN_COUNTERS = {"runs": 8, "joined": 30, "guesses": 5, "joins": 3,
                "records": 1000, "joined_parts": 5}


COMPARED = ("v_r", "v_θ", "v_φ", "B_r", "B_θ", "B_φ")


class Watch:
    """Record what the root finder is given and gets back"""

    def __init__(self, ctx):
        from disc_solver.solve import sonic_root
        self.module, self.calls, self.options = sonic_root, [], []
        self.root = getattr(sonic_root, "root", None)

    def __enter__(self):
        if self.root is not None:
            self.module.root = self.replaced
        return self

    def __exit__(self, *args):
        if self.root is not None:
            self.module.root = self.root

    def replaced(self, func, x0, *args, **kwargs):
        def watched(x, *a):
            got = func(x, *a)
            self.calls.append((np.array(x, float), np.array(got, float)))
            return got
        self.options.append(dict(kwargs.get("options") or {}))
        return self.root(watched, x0, *args, **kwargs)


def residuals(ctx, watch, seq, a, y, n, inp, wit):
    """What each guess scored, from the parts which were recorded"""
    from disc_solver.utils import ODEIndex as I
    from disc_solver.solve import sonic_root
    ERR_FLOAT = getattr(sonic_root, "ERR_FLOAT", None)
    for o in watch.options:
        if "maxiter" in o:
            ctx.check(o["maxiter"] == inp.iterations, "iterations",
                      "{} iterations instead of {}".format(
                          o["maxiter"], inp.iterations), **wit)
    k = 0
    for x, got in watch.calls:
        if k + 1 >= len(seq):
            break
        s = seq[k + 1]
        end = np.asarray(s.solution)[-1]
        if abs(s.angles[-1] - x[0]) > 1e-12 * abs(x[0]) or \
                not np.isclose(end[I.v_φ], x[1], rtol=1e-12):
            # nothing recorded for this guess: it failed
            ctx.check(ERR_FLOAT is None or (got == ERR_FLOAT).all(), "failed-guess", "a guess "
                      "without solution scored {}".format(got), **wit)
            ctx.count("failed_guesses")
            continue
        k += 1
        ctx.count("residuals")
        z, v = np.asarray(s.solution)[n], y[-1]
        want = [z[I[c]] - v[I[c]] for c in COMPARED]
        want += [np.log(z[I.ρ] / v[I.ρ]), s.angles[n] - a[-1]]
        if not np.isfinite(want).all():
            ctx.check(ERR_FLOAT is None or (got == ERR_FLOAT).all(), "failed-guess",
                      "a guess without score scored {}".format(got), **wit)
            continue
        ctx.check(np.allclose(sorted(got), sorted(want), rtol=1e-9,
                              atol=1e-13),
                  "residual", "the parts differ by {} where they meet, the "
                  "root finder got {}".format(want, list(got)), guess=x,
                  **wit)


PARTS = ("derivs", "params", "v_r_normal", "v_φ_normal", "ρ_normal",
         "v_r_taylor", "v_φ_taylor", "ρ_taylor")


def consistent(ctx, d, cons, wit):
    """All parts of joined internal data belong to the same evaluations"""
    from disc_solver.utils import ODEIndex as I
    th = np.asarray(d.angles)
    parts = {k: np.asarray(getattr(d, k)) for k in PARTS}
    if not ctx.check(all(len(x) == len(th) for x in parts.values()),
                     "joined-internal", "parts of internal data of "
                     "different lengths", **wit):
        return
    y, dy = parts["params"], parts["derivs"]
    ctx.count("records", len(th))
    with np.errstate(all="ignore"):
        for name, i in (("v_r", I.v_r), ("v_φ", I.v_φ), ("ρ", I.ρ)):
            c = (parts[name + "_taylor"] / th)[th > 0]
            ctx.check(np.allclose(c, c[0], rtol=1e-9), "joined-internal",
                      name + "_taylor does not belong to the recorded angles",
                      **wit)
            ok = (dy[:, i] == parts[name + "_normal"]) | (
                dy[:, i] == parts[name + "_taylor"]) | np.isnan(dy[:, i])
            ctx.check(ok.all(), "joined-internal", name + "_normal does not "
                      "belong to the recorded derivatives", **wit)
        m = (y[:, I.v_θ] != 1) & (y[:, I.v_θ] > 1e-3) & np.isfinite(
            dy).all(axis=1)
        for name, terms in ph.terms(th[m], y[m], dy[m], cons.γ, cons.a_0,
                                    cons.norm_kepler_sq).items():
            r = ph.rel(terms)
            ctx.check((r < 1e-6).all(), "joined-internal: " + name,
                      "evaluations which break the {}: {:.1e}".format(
                          name, r.max() if len(r) else 0), **wit)


def one(ctx, case):
    from disc_solver.utils import ODEIndex as I
    from disc_solver.solve.utils import SolverError
    rng = ctx.subrng("s", case)
    target = float(rng.uniform(.3, .97))
    internal = case % 3 != 2
    for _ in range(40):
        o = traj.near(
            rng, .05, iterations=rng.integers(1, 6), stop=3, max_steps=1000,
            num_angles=int(rng.choice([400, 1000, 3000])),
            target_velocity=repr(target), use_E_r=bool(case & 1))
        try:
            inp, cons = traj.make_cons(o)
            break
        except SolverError:
            pass
    with Watch(ctx) as watch:
        ok, res = ctx.call("solve", traj.run_file, ctx, o,
                           method="sonic_root", store_internal=internal)
    if not ok:
        return
    run, sols, final = traj.read(res[0])
    seq = [sols[str(k)] for k in range(len(sols))]
    wit = dict(overrides=o, solutions=len(seq))
    ctx.count("runs")
    ctx.observe((bool(case & 1), internal, int(target * 5), len(seq)), dict(
        wit, flag=int(seq[0].flag)))
    base, ic = ff.plain(inp), ff.plain(cons)
    for k, s in enumerate(seq):
        ctx.check(not ff.diff(ff.plain(s.solution_input), base), "input",
                  "solution {} records another input".format(k), **wit)
        wrong = ff.diff(ff.plain(s.initial_conditions), ic)
        ctx.check(not wrong, "initial conditions", "solution {} records "
                  "other initial conditions: {}".format(k, wrong[:2]), **wit)
        ctx.check(len(s.angles) == len(s.solution), "lengths",
                  "{} angles, {} rows".format(len(s.angles), len(s.solution)),
                  **wit)
        ctx.check((s.internal_data is not None) == internal, "internal",
                  "internal data stored or not against the request", **wit)
    first = seq[0]
    a, y = np.asarray(first.angles), np.asarray(first.solution)
    v = y[:, I.v_θ]
    if int(first.flag) == 2:
        ctx.count("reached")
        ctx.check(first.t_roots is not None and abs(
            first.y_roots[-1][I.v_θ] - target) < 1e-6, "target",
            "stopped at v_θ = {} instead of {}".format(
                first.y_roots[-1][I.v_θ], target), **wit)
        ctx.check((v <= target + 1e-6).all(), "beyond-target",
                  "rows beyond the target velocity", **wit)
    else:
        ctx.check(v.max() < target, "target-missed", "not stopped although "
                  "the target is passed", **wit)
    # the part from the midplane is the solution without a target
    ok, other = ctx.call("single", traj.run_file, ctx, o)
    if ok:
        s = traj.read(other[0])[2]
        n = min(len(a), len(s.angles)) - 1
        ctx.check(n > 0 and np.array_equal(a[:n], s.angles[:n]) and
                  np.allclose(y[:n], s.solution[:n], rtol=1e-4, atol=1e-6),
                  "midplane-part", "the part from the midplane is not the "
                  "solution of the single solver", **wit)
    ctx.check(not ff.diff(ff.plain(final), ff.plain(seq[-1])), "final",
              "the final solution is not the last", **wit)
    n = len(a)
    joined = 0
    for k, s in enumerate(seq[1:], 1):
        ctx.count("joined")
        sa, sy = np.asarray(s.angles), np.asarray(s.solution)
        ctx.check(len(sa) > n and np.array_equal(sa[:n], a) and
                  np.array_equal(sy[:n], y), "joined", "solution {} does not "
                  "start with the part from the midplane".format(k), **wit)
        end = sy[-1]
        # the last row is where the other part starts: the sonic point
        ctx.check(abs(end[I.v_θ] - 1) < 1e-12, "sonic", "solution {} does "
                  "not end at the sonic point but at v_θ = {}".format(
                      k, end[I.v_θ]), **wit)
        ctx.check(np.allclose(end[[I.η_O, I.η_A, I.η_H]],
                              cons.init_con[[I.η_O, I.η_A, I.η_H]]),
                  "diffusivities", "others at the sonic point", **wit)
        if internal:
            d, d0 = s.internal_data, first.internal_data
            m = len(d0.angles)
            ctx.check(len(d.angles) > m and np.array_equal(
                np.asarray(d.angles)[:m], d0.angles), "joined-internal",
                "internal data are not those of both parts", **wit)
            # the first evaluation from the sonic point comes last
            ctx.check(abs(d.angles[-1] - sa[-1]) < 1e-9 * max(
                1, abs(sa[-1])), "joined-internal", "internal data of the "
                "part from the sonic point are not reversed", **wit)
            consistent(ctx, d, cons, wit)
            joined += 1
    ctx.count("joins", joined)
    residuals(ctx, watch, seq, a, y, n, inp, wit)
    if len(seq) > 1 and n > 3:
        # straight on until v_θ = 1
        want = y[-1] + (y[-1] - y[-2]) / (v[-1] - v[-2]) * (1 - v[-1])
        ρ = y[:, I.ρ]
        want[I.ρ] = np.exp(np.log(ρ[-1]) + np.log(ρ[-1] / ρ[-2]) / (
            v[-1] - v[-2]) * (1 - v[-1]))
        got = np.asarray(seq[1].solution)[-1]
        ctx.count("guesses")
        for c in I:
            if c.name.startswith("η") or c == I.v_θ:
                continue
            ctx.check(np.isclose(got[c], want[c], rtol=1e-8, atol=1e-12),
                      "guess: " + c.name, "the first guess is {} and not {}"
                      .format(got[c], want[c]), **wit)
        ctx.check(np.isclose(seq[1].angles[-1], a[-1] / .9, rtol=1e-9),
                  "guess: angle", "the first guess of the sonic point is not "
                  "beyond the midplane part by a tenth: {} from {}".format(
                      seq[1].angles[-1], a[-1]), **wit)


def join(ctx, case):
    """
    Starting exactly at the sonic point hardly ever gets far, so join parts
    which do: the second starts at a row of the solution of the single solver
    and goes back to where the first one stopped.
    """
    from disc_solver.file_format import Run
    from disc_solver.solve import sonic_root
    from disc_solver.solve.solution import solution
    from disc_solver.solve.utils import SolverError, velocity_stop_generator
    from disc_solver.utils import ODEIndex as I
    if not hasattr(sonic_root, "write_solution"):
        return
    rng = ctx.subrng("j", case)
    target = float(rng.uniform(.1, .6))
    internal = case % 4 != 3
    for _ in range(60):
        o = traj.near(
            rng, .05, stop=3, max_steps=1000, use_E_r=bool(case & 1),
            num_angles=int(rng.choice([400, 1000, 3000])),
            target_velocity=repr(target))
        try:
            inp, cons = traj.make_cons(o)
            whole = solution(inp, cons)
        except SolverError:
            continue
        v = whole.solution[:, I.v_θ]
        if (v > target + .05).any():
            break
    else:
        return ctx.count("join_unreached")
    first = solution(
        inp, cons, store_internal=internal, root_func_args=1,
        root_func=velocity_stop_generator(target))
    k = int(np.nonzero(v > target + .05)[0][0])
    back = np.linspace(whole.angles[k], first.angles[-1], 60)
    ok, second = ctx.call(
        "backwards", solution, inp, cons, with_taylor=False,
        store_internal=internal,
        modified_initial_conditions=cons.create_modified(
            init_con=whole.solution[k].copy(), angles=back))
    if not ok or len(second.angles) < 2:
        return ctx.count("join_failed")
    keep = [vars(copy.deepcopy(x)) for x in (first, second)]
    run = Run(config_input=None, config_filename=None, float_type="f",
              disc_solver_version="0", sonic_method="sonic_root")
    wit = dict(overrides=o, rows=[len(first.angles), len(second.angles)])
    ok, _ = ctx.call("join", sonic_root.write_solution, run, first, second)
    if not ok:
        return
    s = run.solutions["0"]
    ctx.count("joined_parts")
    ctx.observe(("join", internal, bool(case & 1), int(target * 10)), wit)
    for name in ("angles", "solution"):
        want = np.concatenate([keep[0][name], keep[1][name][::-1]])
        ctx.check(np.array_equal(getattr(s, name), want), "join: " + name,
                  "{} of joined solutions are not those of the parts"
                  .format(name), **wit)
    a, y = np.asarray(s.angles), np.asarray(s.solution)
    ctx.check((np.diff(a) >= 0).all(), "join: order", "angles decrease",
              **wit)
    n = len(first.angles)
    if int(second.flag) == 0 and n > 2:
        ctx.count("continuous")
        jump = np.abs(y[n] - y[n - 1])[:7]
        ctx.check((jump < .02 * np.abs(y[:, :7]).max(axis=0) + 1e-6).all(),
                  "join: continuity", "the parts do not meet", **wit)
    if internal:
        consistent(ctx, s.internal_data, cons, wit)
        for part in PARTS + ("angles",):
            got = np.asarray(getattr(s.internal_data, part))
            want = np.concatenate([
                np.asarray(getattr(keep[0]["internal_data"], part)),
                np.asarray(getattr(keep[1]["internal_data"], part))[::-1]])
            ctx.check(np.array_equal(got, want, equal_nan=True),
                      "join: internal", "{} of joined internal data are not "
                      "those of the parts".format(part), **wit)


def run(ctx):
    for case in range(ctx.n(8, 120)):
        if ctx.more():
            join(ctx, case)
    for case in range(ctx.n(16, 200)):
        if ctx.more():
            one(ctx, case)
