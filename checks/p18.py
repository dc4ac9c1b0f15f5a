"""
P18: the search of the fast crosser.

Monitors: the search driven by recorded stand-ins for solving, whose reach is
a known function of the radial velocity; and the run file of a real search.
"""
from types import SimpleNamespace

import numpy as np

from vp import ff, gen, traj

PROPERTY = "P18"
RULE = ("searches on random functions with one maximum, sharp or smooth, "
        "symmetric or not, at different distances from the start; and real "
        "runs; distinct by shape, steps to either limit and outcome")
MIN_NONTRIVIAL = 8
MIN_COUNTERS = {"searches": 60, "golden": 20, "stuck": 2, "probes": 1000,
                "runs": 1, "run_attempts": 2}
GOLDEN = (1 + np.sqrt(5)) / 2


def reach(rng, centre, width, shape):
    left, right = gen.logu(rng, .3, 3), gen.logu(rng, .3, 3)
    power = {"sharp": 1., "smooth": 2., "flat": 4.}[shape]

    def f(v):
        u = (v - centre) / width
        return 1 - .5 * np.tanh((abs(u) * (left if u < 0 else right))
                                ** power)
    return f


def search(ctx, case):
    from disc_solver.solve import fast_crosser as fc, stepper as st
    rng = ctx.subrng("s", case)
    inp = gen.make_input(traj.near(rng, .3))
    before = ff.plain(inp)
    v0 = inp.v_rin_on_c_s
    step = .01 * v0
    shape = ["sharp", "smooth", "flat"][case % 3]
    away = [0, 0, 1, -1][case % 4] * rng.uniform(1.2, 12) + (
        rng.uniform(-.45, .45) if case % 4 == 0 else 0) + (
        rng.uniform(-4, 4) if case % 4 == 1 else 0)
    centre = v0 + step * away
    f = reach(rng, centre, step * 10, shape)
    limit = int(rng.integers(5, 70))
    solved, written = [], []

    def func(i):
        # what is solved in the end has another stop and number of angles
        from disc_solver.file_format import SolutionInput
        done = i.asdict()
        done.update(stop=90, num_angles=12345, γ=i.γ * 1.01)
        solved.append(i)
        return SimpleNamespace(
            solution_input=SolutionInput(**done), flag=0,
            number=len(solved) - 1,
            angles=np.linspace(0, f(i.v_rin_on_c_s), 7)), False

    def writer(soln, attempt):
        written.append((soln.number, attempt))

    def end(attempt):
        return ("stopped", attempt)

    ok, out = ctx.call("search", lambda: st.binary_searcher(
        func, None, fc.stepper_creator(
            writer, step_size=step, solution_input=inp), end, inp,
        num_attempts=limit))
    if not ok:
        return
    v = np.array([i.v_rin_on_c_s for i in solved])
    n = len(v)
    ctx.count("searches")
    ctx.count("probes", n)
    wit = dict(start=v0, step=step, maximum=centre, shape=shape, attempts=n)
    ctx.check(ff.plain(inp) == before, "input-changed",
              "the input handed in was changed", **wit)
    ctx.check(written == [(k, k) for k in range(n)], "written",
              "attempts are not written once each, in order", **wit)
    ctx.check(v[0] == v0, "start", "starts at {}".format(v[0]), **wit)
    for k, i in enumerate(solved):
        wrong = [x for x in ff.diff(before, ff.plain(i))
                 if "v_rin_on_c_s" not in str(x) and "γ" not in str(x)]
        ctx.check(not wrong, "other-fields", "attempt {} differs from the "
                  "first in {}".format(k, wrong[:2]), **wit)
        if k:
            # continues with what the last attempt found
            ctx.check(abs(i.γ / (solved[k - 1].γ * 1.01) - 1) < 1e-12,
                      "continues", "an attempt does not start from the "
                      "result of the one before", **wit)
    # upwards until it gets no better, then downwards from the start
    k = 1
    while k < n and f(v0 + k * step) > f(v0 + (k - 1) * step):
        k += 1
    up = k
    want = [v0 + j * step for j in range(up + 1)]
    k = 1
    while f(v0 - k * step) > f(v0 - (k - 1) * step):
        k += 1
    down = k
    want += [v0 - j * step for j in range(1, down + 1)]
    m = min(n, len(want))
    ctx.check(np.allclose(v[:m], want[:m], rtol=1e-12), "limits",
              "the limits are not searched step by step: {}".format(v[:m]),
              **wit)
    ctx.observe((shape, min(up, 5), min(down, 5), str(out)[:9], n // 10),
                dict(wit, out=str(out)))
    if up == down == 1:
        ctx.count("stuck")
        ctx.check(n <= 3 and out is None, "stuck", "no better value on "
                  "either side, but {} attempts".format(n), **wit)
        return
    if n <= len(want):
        return
    lo, hi = v0 - (down - 1) * step, v0 + (up - 1) * step
    width = hi - lo
    g = v[len(want):]
    ctx.count("golden")
    tiny = 1e-9 * width
    ctx.check((g >= lo - tiny).all() and (g <= hi + tiny).all(), "outside",
              "the search leaves its limits", limits=(lo, hi), probes=g[:6],
              **wit)
    ctx.check(abs((g[0] - lo) / width - 1 / GOLDEN) < 1e-6 or
              abs((hi - g[0]) / width - 1 / GOLDEN) < 1e-6, "golden",
              "the first point divides the limits at {}".format(
                  (g[0] - lo) / width), **wit)
    # elimination: each probe lies in what is left, which shrinks by GOLDEN
    a, b, best = lo, hi, g[0]
    for j, x in enumerate(g[1:30], 1):
        w = b - a
        if w < 1e-4 * width:
            break
        ctx.check(a - tiny < x < b + tiny, "eliminated", "probe {} is in a "
                  "part which is already excluded".format(j), **wit)
        ctx.check(abs(abs(x - a) / w - 1 / GOLDEN) < 5e-3 or
                  abs(abs(b - x) / w - 1 / GOLDEN) < 5e-3, "golden-section",
                  "probe {} divides what is left at {}".format(
                      j, (x - a) / w), **wit)
        p, q = sorted((x, best))
        if p == q:
            break
        if abs(f(p) - f(q)) < 1e-13:
            # no difference left to decide upon
            return
        if f(p) > f(q):
            b, best = q, p
        else:
            a, best = p, q
    inside = min(max(centre, lo), hi)
    ctx.check(a - tiny <= inside <= b + tiny, "maximum",
              "the maximum is not in the part which is left", **wit)
    if len(g) > 12 and lo < centre < hi:
        ctx.count("converged")
        got = g[np.argmax([f(x) for x in g])]
        ctx.check(abs(got - centre) < width * GOLDEN ** (2 - min(
            len(g), 19)) + 1e-7 * width, "convergence", "best value {} after "
            "{} probes, the maximum is at {}".format(got, len(g), centre),
            **wit)


def real(ctx, case):
    """A real search, cut short"""
    rng = ctx.subrng("r", case)
    o = traj.near(rng, .03, stop=".7", num_angles="200", max_steps=500,
                  use_E_r=bool(case & 1))
    inp, cons = traj.make_cons(o)
    limit = 2
    ok, res = ctx.call("solve", traj.run_file, ctx, o, method="fast_crosser",
                       store_internal=True, num_attempts=limit,
                       final_stop=2, final_steps=300)
    if not ok:
        return
    run, sols, final = traj.read(res[0])
    seq = [sols[str(i)] for i in range(len(sols))]
    wit = dict(overrides=o, solutions=len(seq))
    ctx.count("runs")
    fine = [k for k, s in enumerate(seq) if s.solution_input.num_angles == 300]
    ctx.count("run_attempts", len(fine))
    ctx.observe(("run", len(seq) > 50, len(fine)), wit)
    for k in fine:
        i = seq[k].solution_input
        ctx.check(i.stop == 2, "run-final-stop", "the continuation stops at "
                  "{}".format(i.stop), **wit)
    speeds = []
    for s in seq:
        if not speeds or s.solution_input.v_rin_on_c_s != speeds[-1]:
            speeds.append(s.solution_input.v_rin_on_c_s)
    v0 = inp.v_rin_on_c_s
    ctx.check(np.allclose(speeds, [v0, v0 * 1.01][:len(speeds)], rtol=1e-12),
              "run-speeds", "radial velocities tried are {} from {}".format(
                  speeds, v0), **wit)
    ctx.check(final is not None and not ff.diff(
        ff.plain(final), ff.plain(seq[-1])), "run-final",
        "the final solution is not the last", **wit)
    base = ff.plain(inp)
    for s in seq:
        wrong = [x for x in ff.diff(base, ff.plain(s.solution_input))
                 if not any(w in str(x) for w in (
                     "γ", "v_rin_on_c_s", "stop", "num_angles"))]
        ctx.check(not wrong, "run-other-fields", "solutions differ in {}"
                  .format(wrong[:2]), **wit)


def run(ctx):
    for case in range(ctx.n(120, 3000)):
        if ctx.more():
            search(ctx, case)
    for case in range(ctx.n(1, 8)):
        if ctx.more():
            real(ctx, case)
