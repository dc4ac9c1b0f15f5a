"""
P17: the stepping search.

Monitors: the history of attempts in run files of the step solver, and the
search itself driven by recorded stand-ins for solving, with a known boundary
between the two kinds of solutions.
"""
from types import SimpleNamespace

import numpy as np

from vp import ff, gen, traj

PROPERTY = "P17"
RULE = ("searches with random boundary, start and limits on attempts, ending "
        "in every possible way; solutions of random shape for the decisions; "
        "step runs near the default configuration, decided by the solver or the "
        "user; distinct by way of "
        "ending, number of attempts and kind of solution")
MIN_NONTRIVIAL = 12
MIN_COUNTERS = {"searches": 60, "converged": 15, "limit": 3, "stopped": 3,
                "passed": 5, "exhausted": 3, "decisions": 100, "runs": 3,
                "attempts": 30, "asked": 8}


def base_input(rng):
    o = traj.near(rng, .3)
    return gen.make_input(o)


def search(ctx, case):
    """The search for a boundary in γ, with stand-ins for solving"""
    from disc_solver.solve import stepper as st
    rng = ctx.subrng("s", case)
    inp = base_input(rng)
    before = ff.plain(inp)
    γ0 = inp.γ
    step = .1 * γ0
    kind = ["converge", "pass", "far", "stop", "limit", "same"][case % 6]
    target = γ0 * rng.uniform(.6, 1.4)
    if kind == "far":
        target = γ0 * rng.choice([-30., 30.])
    attempts = int(rng.integers(15, 40))
    if kind == "limit":
        attempts = 400
    max_search = int(rng.integers(5, 20))
    pass_at = int(rng.integers(2, 12)) if kind == "pass" else None
    stop_at = int(rng.integers(2, 12)) if kind == "stop" else None
    solved, written, ends = [], [], []

    def func(i):
        solved.append(i)
        s = SimpleNamespace(solution_input=i, flag=0, number=len(solved) - 1)
        return s, pass_at == s.number

    def writer(soln, attempt):
        written.append((soln.number, attempt))

    def get_type(soln):
        if stop_at == soln.number:
            return st.SplitterStatus.STOP
        return (st.SplitterStatus.DIVERGE if soln.solution_input.γ > target
                else st.SplitterStatus.SIGN_FLIP)

    def passed(soln, attempt):
        ends.append(("passed", attempt))
        return "passed", soln.number

    def failed(attempt):
        ends.append(("stopped", attempt))
        return "stopped", attempt

    ok, out = ctx.call("search", lambda: st.binary_searcher(
        func, passed, st.stepper_creator(
            writer, st.step_input(), get_type, initial_step_size=step,
            max_search_steps=max_search), failed, inp,
        num_attempts=attempts))
    if not ok:
        return
    ctx.count("searches")
    n = len(solved)
    wit = dict(kind=kind, start=γ0, boundary=target, attempts=n,
               allowed=attempts, search_steps=max_search)
    ctx.observe((kind, n, str(out)[:10]), wit)
    γ = np.array([i.γ for i in solved])
    ctx.check(ff.plain(inp) == before, "input-changed",
              "the input handed in was changed", **wit)
    for i in solved:
        wrong = [x for x in ff.diff(before, ff.plain(i)) if "γ" not in str(x)]
        ctx.check(not wrong, "other-fields", "fields other than γ change "
                  "between attempts: {}".format(wrong[:2]), **wit)
    w = n - 1 if kind == "pass" else n
    ctx.check(written[:w] == [(k, k) for k in range(w)], "written",
              "attempts are not written once each, in order", **wit)
    # the way towards the boundary, with steps halved once it is enclosed
    side = np.where(γ > target, 1, -1)
    crossed = np.nonzero(side != side[0])[0]
    first = int(crossed[0]) if len(crossed) else n
    m = min(first, n - 1)
    if n > 1:
        d = np.diff(γ)
        # the last attempts at the numerical limit are special
        real = np.abs(d) > 1e-12 * γ0
        ctx.check((np.sign(d[real]) == -side[:-1][real]).all(), "direction",
                  "a step leads away from the boundary", **wit)
        ctx.check(np.allclose(np.abs(d[:m]), step, rtol=1e-9), "first-steps",
                  "steps before the boundary is enclosed are {}".format(
                      d[:m][:3]), **wit)
        halves = step * .5 ** np.arange(1, n - m)
        ctx.check(np.allclose(np.abs(d[m:]), halves, rtol=1e-6,
                              atol=1e-13 * γ0), "halving", "steps after the "
                  "boundary is enclosed are not halved each time", **wit)
        if len(crossed) and n - first > 3:
            ctx.count("converged")
            ctx.check(abs(γ[-1] - target) <= step * .5 ** (
                n - 2 - first) + 1e-12 * γ0, "convergence", "after {} "
                "attempts {} away from the boundary".format(
                    n, γ[-1] - target), **wit)
    end = ends[-1][0] if ends else None
    ctx.check(len(ends) <= 1, "ends", "ended more than once", **wit)
    if kind == "pass" and pass_at < attempts and (
            first < max_search or n == pass_at + 1):
        ctx.count("passed")
        ctx.check(out == ("passed", pass_at) and n == pass_at + 1,
                  "pass", "attempt {} succeeds but the result of {} attempts "
                  "is {}".format(pass_at, n, out), **wit)
    elif kind == "far":
        ctx.count("exhausted")
        ctx.check(out is None and end is None and n == min(
            max_search + 1, attempts), "search-limit", "{} attempts without "
            "enclosing the boundary, result {}".format(n, out), **wit)
    elif kind == "stop" and n == stop_at + 1:
        ctx.count("stopped")
        ctx.check(out == ("stopped", stop_at), "stop", "told to stop, but the "
                  "result is {}".format(out), **wit)
    elif kind == "limit" and first < max_search:
        ctx.count("limit")
        ctx.check(end == "stopped" and out == ("stopped", n - 1),
                  "numerical-limit", "{} attempts, but the result is {}"
                  .format(n, out), **wit)
        ctx.check(γ[-1] > target and γ[-1] - target < 1e-9 * γ0,
                  "numerical-limit", "the last attempt is {} from the "
                  "boundary".format(γ[-1] - target), **wit)
    elif kind in ("converge", "same") and first < max_search:
        ctx.check(out is None and end is None and n == attempts, "attempts",
                  "{} instead of {} attempts, result {}".format(
                      n, attempts, out), **wit)


def shaped(rng, kind):
    """A solution with the given course of v_θ"""
    import attr
    from disc_solver.utils import ODEIndex as I
    s = ff.rand_solution(rng)
    n = int(rng.integers(20, 200))
    x = np.linspace(0, 1, n)
    top = {"slow": rng.uniform(.1, .89), "close": rng.uniform(.95, .995),
           "beyond": rng.uniform(1.1, 3)}[kind[0]]
    v = top * {"concave": 1 - (1 - x) ** 2, "convex": x ** 2.,
               "down": np.sin(x * 2.2) / 1}[kind[1]]
    if kind[1] == "down":
        v *= 1
    if kind[2] == "below":
        # monotonic, but starting below the midplane's rest
        v = v - (v - top) * -rng.uniform(1e-3, .3)
    y = np.abs(rng.normal(size=(n, len(I)))) + .01
    y[:, I.v_θ] = v
    if kind[2] == "negative":
        y[int(rng.integers(1, n)), I.ρ] = -1e-3
    flag = 0 if rng.random() < .8 else int(rng.choice([-1, -8, 2]))
    return attr.evolve(s, solution=y, angles=x, flag=flag,
                       internal_data=None), v


def decisions(ctx, case):
    from disc_solver.solve import stepper as st
    from disc_solver.utils import ODEIndex as I
    rng = ctx.subrng("d", case)
    kind = (["slow", "close", "beyond"][case % 3],
            ["concave", "convex", "down"][(case // 3) % 3],
            ["positive", "below", "positive", "negative"][case // 9 % 4])
    s, v = shaped(rng, kind)
    ctx.count("decisions")
    y = s.solution
    near = v[(v > .9) & (v < 1)]
    valid = int(s.flag) == 0 and (y[:, I.ρ] >= 0).all() and (
        v >= 0).all() and (np.diff(v) >= 0).all()
    best = bool(valid and len(near) and not (np.diff(near, 2) > 0).any())
    ok, res = ctx.call("best", st.is_solution_best, s)
    ctx.observe((kind, best))
    if ok:
        # rounding of second differences
        clear = len(near) < 3 or np.abs(np.diff(near, 2)).min() > 1e-12
        ctx.check(bool(res[1]) == best or not clear, "best", "a solution of "
                  "kind {} with flag {} is {}the best".format(
                      kind, int(s.flag), "" if res[1] else "not "))
    want = "SIGN_FLIP"
    if len(near) and ((v > 1).any() or (np.diff(near) >= 0).all()):
        want = "DIVERGE"
    method = rng.choice(["v_θ_deriv", "None", "", "other"])
    ok, split = ctx.call("splitter", st.create_soln_splitter,
                         None if method == "None" else str(method))
    if ok:
        ok, got = ctx.call("split", split, s)
        if ok:
            ctx.check(got == st.SplitterStatus[want], "split", "a solution of "
                      "kind {} is taken to be of type {}".format(kind, got))


def split_internal(ctx, case):
    """With internal data: only velocities and refused states matter"""
    import attr
    from disc_solver.solve import stepper as st
    from disc_solver.utils import ODEIndex as I
    from disc_solver.file_format import Problems
    rng = ctx.subrng("i", case)
    s, v = shaped(rng, ("close", "convex", "positive"))
    d = ff.rand_internal(rng)
    n = 50
    x = np.linspace(.01, 1, n)
    d.derivs = np.ones((n, len(I)))
    d.derivs[:, I.v_θ] = 2 - x ** 2
    d.angles, d.problems = x, Problems()
    s = attr.evolve(s, internal_data=d)
    split = st.create_soln_splitter("v_θ_deriv")
    types = set()
    for k in range(4):
        for c in I:
            if c != I.v_θ:
                # values which are random, or regular across the variables
                d.derivs[:, c] = (
                    rng.normal() * (x if k % 2 else 1) if k
                    else -10. * (c - I.v_θ) ** 2)
        ok, got = ctx.call("split", split, s)
        if not ok:
            return
        types.add(got.name)
    ctx.count("decisions")
    ctx.check(len(types) == 1, "splitter-row-not-column", "the type of a "
              "solution changes with derivatives other than that of v_θ: "
              "{}".format(types))
    d.problems[.5].append("negative velocity")
    ok, got = ctx.call("split", split, s)
    if ok:
        ctx.check(got == st.SplitterStatus.SIGN_FLIP, "split-negative",
                  "a solution with refused velocities is of type {}".format(
                      got))


def history(ctx, case):
    from disc_solver.utils import ODEIndex as I
    from disc_solver.solve.utils import SolverError
    rng = ctx.subrng("h", case)
    for _ in range(40):
        o = traj.near(rng, .1, stop=".8", num_angles=int(rng.choice(
            [300, 1000])), max_steps=1000, use_E_r=bool(case & 1))
        try:
            inp, cons = traj.make_cons(o)
            break
        except SolverError:
            pass
    limit = int(rng.integers(8, 30))
    internal = case % 4 != 3
    ok, res = ctx.call("solve", traj.run_file, ctx, o, method="step",
                       store_internal=internal, num_attempts=limit)
    if not ok:
        return
    run, sols, final = traj.read(res[0])
    n = len(sols)
    wit = dict(overrides=o, attempts=n, allowed=limit, internal=internal)
    ctx.count("runs")
    ctx.count("attempts", n)
    seq = [sols[str(i)] for i in range(n)]
    γ = np.array([s.solution_input.γ for s in seq])
    ctx.observe((internal, n, res[1], final is None), dict(wit, γ=γ[:6]))
    ctx.check(γ[0] == inp.γ, "start", "the search starts at {}".format(γ[0]),
              **wit)
    base = ff.plain(inp)
    for s in seq:
        wrong = [x for x in ff.diff(base, ff.plain(s.solution_input))
                 if "γ" not in str(x)]
        ctx.check(not wrong, "run-other-fields", "attempts differ in {}"
                  .format(wrong[:2]), **wit)
        ctx.check(s.initial_conditions.γ == s.solution_input.γ,
                  "run-conditions", "the initial conditions of an attempt "
                  "are for another γ", **wit)
    d = np.diff(γ)
    step = .1 * inp.γ
    flips = np.nonzero(np.sign(d) != np.sign(d[0]))[0] if n > 1 else []
    m = int(flips[0]) if len(flips) else n - 1
    if n > 1:
        ctx.check(np.allclose(np.abs(d[:m]), step, rtol=1e-9), "run-steps",
                  "steps {} instead of {}".format(d[:m][:3], step), **wit)
        ctx.check(np.allclose(np.abs(d[m:]), step * .5 ** np.arange(
            1, n - m), rtol=1e-5, atol=1e-12 * inp.γ), "run-halving",
            "steps are not halved once a direction changed", **wit)
    best = []
    for s in seq:
        y = np.asarray(s.solution)
        v = y[:, I.v_θ]
        near = v[(v > .9) & (v < 1)]
        best.append(bool(
            int(s.flag) == 0 and (np.diff(v) >= 0).all() and (v >= 0).all()
            and (y[:, I.ρ] >= 0).all() and len(near)
            and not (np.diff(near, 2) > 0).any()))
        ctx.check((s.internal_data is not None) == internal, "run-internal",
                  "internal data stored or not against the request", **wit)
    ctx.check(not any(best[:-1]), "run-best", "the search goes on after the "
              "best solution", **wit)
    for i in range(n - 1):
        # refused velocities mean that γ is too small
        data = seq[i].internal_data
        if internal and any("negative velocity" in x
                            for x in data.problems.values()):
            ctx.count("sign_flips")
            ctx.check(d[i] > 0, "run-sign-flip", "γ is not raised after a "
                      "solution with refused velocities", **wit)
    if best[-1]:
        ctx.count("found")
        ctx.check(res[1] and final is not None and not ff.diff(
            ff.plain(final), ff.plain(seq[-1])), "run-final", "the best "
            "solution is not the final one", **wit)
    elif n == limit:
        ctx.check(not res[1] and final is None, "run-failed", "no best "
                  "solution in {} attempts, but success is claimed".format(
                      n), **wit)
    if final is not None:
        ctx.check(any(not ff.diff(ff.plain(final), ff.plain(s))
                      for s in seq), "run-final-known",
                  "the final solution is none of the attempts", **wit)


def human(ctx, case):
    """The user looks at the solutions and decides"""
    import matplotlib.pyplot as plt
    from unittest import mock
    from disc_solver.solve.utils import SolverError
    from vp.cli import captured
    rng = ctx.subrng("human", case)
    for _ in range(40):
        o = traj.near(rng, .1, stop=".3", num_angles=100, max_steps=1000,
                      split_method="human")
        try:
            inp, cons = traj.make_cons(o)
            break
        except SolverError:
            pass
    kinds = ["diverge", "sign flip"]
    decided = [str(x) for x in rng.choice(kinds, int(rng.integers(1, 6)))]
    stop = bool(rng.random() < .6)
    decided += ["STOP"] * stop
    lines, asked = [], []
    for x in decided:
        lines += [str(w) for w in rng.choice(
            ["", "Diverge", "signflip", "stop", "?"], int(
                rng.integers(0, 3)))] + ["  " * int(rng.integers(2)) + x]
    left = list(lines)
    shown = []

    def answer(*a):
        asked.append(a)
        return left.pop(0)

    def show(*a, **k):
        fig = plt.gcf()
        shown.append(sum(len(l.get_xdata()) > 5
                         for l in fig.axes[0].get_lines()))

    wit = dict(overrides=o, answers=lines)
    plt.close("all")
    with mock.patch("builtins.input", answer), mock.patch.object(
            plt, "show", show), captured():
        ok, res = ctx.call("human", traj.run_file, ctx, o, method="step",
                           num_attempts=len(decided))
    left_open = plt.get_fignums()
    plt.close("all")
    if not ok:
        return
    run, sols, final = traj.read(res[0])
    n = len(sols)
    ctx.count("asked", len(asked))
    ctx.observe(("human", tuple(decided)), wit)
    ctx.check(not left and n == len(decided), "human-asked", "{} of {} "
              "answers used for {} attempts".format(
                  len(lines) - len(left), len(lines), n), **wit)
    ctx.check(shown == list(range(1, n + 1)), "human-shown", "solutions "
              "shown before the decisions: {}".format(shown), **wit)
    ctx.check(not left_open, "human-open", "{} figures left open".format(
        len(left_open)), **wit)
    γ = np.array([sols[str(i)].solution_input.γ for i in range(n)])
    want, step, turned = [inp.γ], .1 * inp.γ, False
    for i, x in enumerate(decided[:-1]):
        turned = turned or (i > 0 and x != decided[0])
        step = step / 2 if turned else step
        want.append(want[-1] + (step if x == "sign flip" else -step))
    ctx.check(len(γ) == len(want) and np.allclose(γ, want, rtol=1e-9),
              "human-steps", "attempts at γ {}, not {}".format(γ, want), **wit)
    if stop:
        ctx.check(final is not None and not ff.diff(
            ff.plain(final), ff.plain(sols[str(n - 1)])), "human-final",
            "the solution at which the user stopped is not the final one",
            **wit)
    else:
        ctx.check(final is None, "human-final", "no solution was chosen, but "
                  "there is a final one", **wit)


def run(ctx):
    for case in range(ctx.n(5, 60)):
        if ctx.more():
            human(ctx, case)
    for case in range(ctx.n(90, 2000)):
        if ctx.more():
            search(ctx, case)
    for case in range(ctx.n(120, 2000)):
        if ctx.more():
            decisions(ctx, case)
    for case in range(ctx.n(6, 60)):
        if ctx.more():
            split_internal(ctx, case)
    for case in range(ctx.n(6, 60)):
        if ctx.more():
            history(ctx, case)
