"""
P19: sampling with MCMC.

Monitors: run files of the mcmc solver, and the log probability function
called at chosen points (valid, out of range, without equilibrium) with the
run it records to.
"""
import numpy as np

from vp import cli, ff, gen, traj

PROPERTY = "P19"
RULE = ("mcmc runs near the default configuration with every choice of "
        "sampled variables, and log probabilities at chosen points; distinct "
        "by variables, walkers, kinds of points and number of solutions")
MIN_NONTRIVIAL = 6
MIN_COUNTERS = {"runs": 4, "recorded": 20, "points": 40, "refused": 15,
                "evaluated": 10}
NAMES = ("v_r", "v_a", "v_k")
FIELDS = dict(v_r="v_rin_on_c_s", v_a="v_a_on_c_s", v_k="c_s_on_v_k")


def logprob(sol):
    from disc_solver.utils import ODEIndex as I
    v = np.asarray(sol.solution)[:, I.v_θ]
    d = (v[1:] - v[:-1]) ** 2
    return -10 * np.exp(-v.max()) - np.sum((d[1:] - d[:-1]) ** 2)


def mcmc_input(rng, case, **extra):
    from disc_solver.solve.utils import SolverError
    chosen = [n for k, n in enumerate(NAMES) if case >> k & 1]
    # a default exists for all of them only
    if not chosen:
        chosen = list(NAMES)
    for _ in range(40):
        o = traj.near(rng, .05, stop=".3", num_angles=100, max_steps=300,
                      mcmc_vars=", ".join(chosen), use_E_r=bool(case & 8),
                      **extra)
        try:
            inp, cons = traj.make_cons(o)
            return o, inp, chosen
        except SolverError:
            pass


def only(ctx, what, base, sol, chosen, wit):
    allowed = ["γ"] + [FIELDS[c] for c in chosen]
    got = sol.solution_input.asdict()
    for k, v in base.asdict().items():
        if k in allowed:
            ok = isinstance(got[k], float) and got[k] > 0
        else:
            ok = not ff.diff(ff.plain(v), ff.plain(got[k]))
        ctx.check(ok, what + ": " + k, "{} is {} (from {}) although the "
                  "variables are {}".format(k, got[k], v, allowed), **wit)
    return [got[k] for k in allowed]


def sampled(ctx, case):
    rng = ctx.subrng("m", case)
    walkers, iterations = int(rng.integers(8, 14)), int(rng.integers(1, 4))
    o, inp, chosen = mcmc_input(rng, case, nwalkers=walkers,
                                iterations=iterations)
    np.random.seed(int(rng.integers(1 << 31)))
    with cli.captured():
        ok, res = ctx.call("solve", traj.run_file, ctx, o, method="mcmc")
    if not ok:
        return
    run, sols, final = traj.read(res[0])
    wit = dict(overrides=o, solutions=len(sols))
    ctx.count("runs")
    ctx.count("recorded", len(sols))
    ctx.observe(("run", tuple(chosen), walkers, len(sols)), wit)
    ctx.check(0 < len(sols) <= walkers * (iterations + 1), "number",
              "{} solutions from {} walkers and {} iterations".format(
                  len(sols), walkers, iterations), **wit)
    points, probs = [], []
    for s in sols.values():
        points.append(only(ctx, "field", inp, s, chosen, wit))
        probs.append(logprob(s))
        c = s.initial_conditions
        ctx.check(np.isclose(c.γ, s.solution_input.γ, rtol=1e-14),
                  "conditions", "initial conditions for another γ", **wit)
    points = np.array(points)
    if len(points) > 4:
        start = np.array([getattr(inp, f) for f in ["γ"] + [
            FIELDS[c] for c in chosen]])
        spread = np.std(points / start, axis=0)
        ctx.check((spread > 1e-6).all(), "not-sampled", "variables which "
                  "are not varied: {}".format(spread), **wit)
        first = points[:walkers] / start
        ctx.check((np.abs(first - 1) < .8).all(), "start", "walkers do not "
                  "start around the input: {}".format(
                      np.abs(first - 1).max()), **wit)
    k = int(np.argmax(probs))
    ctx.check(final is not None and abs(logprob(final) - probs[k]) <= 1e-9 *
              abs(probs[k]), "best", "the final solution has log probability "
              "{}, the best {}".format(
                  None if final is None else logprob(final), probs[k]), **wit)


def points(ctx, case):
    from disc_solver.solve import mcmc
    from disc_solver.solve.solution import solution
    from disc_solver.solve.config import define_conditions
    from disc_solver.solve.utils import SolverError
    import attr
    rng = ctx.subrng("p", case)
    o, inp, chosen = mcmc_input(rng, case)
    before = ff.plain(inp)
    run = ff.rand_run(rng)
    ok, enum = ctx.call("enum", mcmc.generate_sysvars_enum, inp)
    if not ok:
        return
    names = [v.name for v in sorted(enum)]
    wit = dict(overrides=o, variables=names)
    ctx.check(names == ["γ"] + [FIELDS[c] for c in chosen], "variables",
              "{} instead of γ and {}".format(names, chosen), **wit)
    ok, func = ctx.call("create", lambda: mcmc.LogProbGenerator(
        inp, run, store_internal=False, sys_vars_enum=enum))
    if not ok:
        return
    best = -np.inf
    start = np.array([getattr(inp, n) for n in names])
    kinds = ""
    for _ in range(6):
        kind = str(rng.choice(["near", "near", "negative", "zero", "far"]))
        x = start * (1 + .1 * rng.normal(size=len(start)))
        if kind in ("negative", "zero"):
            x[rng.integers(len(x))] = 0 if kind == "zero" else -rng.uniform(
                1e-6, 2)
        elif kind == "far":
            x *= gen.logu(rng, 30, 1e4)
        n = len(run.solutions)
        with np.errstate(all="ignore"):
            ok, got = ctx.call("logprob", func, x)
            if not ok:
                return
            new = attr.evolve(inp, **{k: float(v) for k, v in zip(names, x)})
            want = None
            if (x > 0).all():
                try:
                    want = solution(new, define_conditions(new),
                                    store_internal=False)
                except SolverError:
                    pass
        ctx.count("points")
        kinds += kind[0]
        if want is None:
            ctx.count("refused")
            ctx.check(got == -np.inf and len(run.solutions) == n, "refused",
                      "log probability {} for an input without solution"
                      .format(got), point=x, **wit)
            continue
        ctx.count("evaluated")
        p = logprob(want)
        ctx.check(abs(got - p) <= 1e-9 * abs(p), "value", "log probability "
                  "{} and not {}".format(got, p), point=x, **wit)
        keys = list(run.solutions)
        ctx.check(len(keys) == n + 1, "recorded", "{} new solutions".format(
            len(keys) - n), **wit)
        s = run.solutions.get_last_solution()
        ctx.check(np.array_equal(s.solution, want.solution) and not ff.diff(
            ff.plain(s.solution_input), ff.plain(new)), "recorded",
            "another solution is recorded", **wit)
        if p > best:
            best, best_key = p, s
        b = func.best_solution
        ctx.check(b is best_key or (b is not None and np.array_equal(
            b.solution, best_key.solution)), "best-so-far", "the best "
            "solution is not the one with the highest probability", **wit)
    if best == -np.inf:
        ctx.check(func.best_solution is None, "best-none", "a best solution "
                  "although there is none", **wit)
    ctx.observe(("points", tuple(chosen), kinds))
    ctx.check(ff.plain(inp) == before, "input-changed",
              "the input handed in was changed", **wit)


def ranked(ctx, case):
    """
    Probabilities of all sizes: stand-ins for the solutions, the scoring,
    recording and choice of the best of the code itself.
    """
    from disc_solver.solve import mcmc
    from disc_solver.utils import ODEIndex as I
    import attr
    if not hasattr(mcmc, "solution"):
        return
    rng = ctx.subrng("k", case)
    o, inp, chosen = mcmc_input(rng, case)
    run = ff.rand_run(rng)
    enum = mcmc.generate_sysvars_enum(inp)
    func = mcmc.LogProbGenerator(inp, run, store_internal=False,
                                 sys_vars_enum=enum)
    n = int(rng.integers(3, 9))
    order = str(rng.choice(["any", "better", "worse"]))
    values = []
    for _ in range(n):
        rows = int(rng.integers(3, 40))
        v = np.cumsum(rng.normal(size=rows)) * gen.logu(rng, 1e-3, 30)
        values.append(v - v[0])

    class S:
        pass

    def score(v):
        s = S()
        s.solution = np.zeros((len(v), len(I)))
        s.solution[:, I.v_θ] = v
        return logprob(s)
    values = [v for v in values if np.isfinite(score(v))]
    if order != "any":
        values.sort(key=score, reverse=order == "worse")
    made = []

    def stand_in(soln_input, cons, **kwargs):
        v = values[len(made)]
        y = np.zeros((len(v), len(I)))
        y[:, I.v_θ] = v
        made.append(attr.evolve(
            ff.rand_solution(rng), solution_input=soln_input, solution=y,
            angles=np.linspace(0, .1, len(v)), initial_conditions=cons,
            flag=int(rng.integers(-5, 5))))
        return made[-1]
    start = np.array([getattr(inp, v.name) for v in sorted(enum)])
    real, mcmc.solution = mcmc.solution, stand_in
    wit = dict(order=order, probabilities=[score(v) for v in values])
    had = len(run.solutions)
    try:
        for k in range(len(values)):
            before = len(made)
            ok, got = ctx.call("logprob", func, start)
            if not ok or len(made) == before:
                return
            p = score(values[k])
            ctx.check(abs(got - p) <= 1e-9 * abs(p), "value",
                      "log probability {} and not {}".format(got, p), **wit)
    finally:
        mcmc.solution = real
    if not values:
        return
    ctx.count("ranked")
    ctx.observe(("ranked", order, len(values), int(np.log10(
        1e-9 - min(wit["probabilities"])))), wit)
    ctx.check(len(run.solutions) - had == len(values), "recorded",
              "{} of {} solutions recorded".format(
                  len(run.solutions) - had, len(values)), **wit)
    best = func.best_solution
    ctx.check(best is not None and logprob(best) == max(
        wit["probabilities"]), "best-so-far", "the best solution is not the "
        "one with the highest probability", **wit)


def run(ctx):
    for case in range(ctx.n(24, 300)):
        if ctx.more():
            ranked(ctx, case)
    for case in range(ctx.n(16, 160)):
        if ctx.more():
            points(ctx, case)
    for case in range(ctx.n(8, 64)):
        if ctx.more():
            sampled(ctx, case + (case >= 4) * 8)
