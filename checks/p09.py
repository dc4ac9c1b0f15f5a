"""
P09: wave speeds, Mach numbers and critical points.

Monitor: the functions on random states and on stored trajectories. The wave
speeds are compared with the eigenvalues of the linearised equations of ideal
isothermal MHD for propagation along θ, the critical points with the crossings
of these Mach numbers found independently row by row.
"""
import attr
import numpy as np

from vp import ff, gen, traj

PROPERTY = "P09"
RULE = ("random states of all magnetisations and field directions; random "
        "sequences of rows (rising, wiggling, never or always supersonic) and "
        "solver runs with sonic crossing; distinct by regime and by which "
        "critical points are passed")
MIN_NONTRIVIAL = 10
MIN_COUNTERS = {"states": 200, "solutions": 30, "crossings": 30,
                "never": 20, "runs": 2}


def reference(B_r, B_φ, B_θ, ρ, a_0):
    """
    Speeds (slow, Alfvén, fast) along θ, in units of the sound speed: the
    magnetic force on the gas is a_0/ρ J×B, so that the linearised equations
    for (ρ, v_θ, v_1, v_2, b_1, b_2), b = B √a_0 are those below.
    """
    b = np.sqrt(a_0) * np.array([B_r, B_φ])
    n = np.sqrt(a_0) * B_θ
    m = np.zeros((6, 6))
    m[0, 1] = ρ
    m[1, 0] = 1 / ρ
    m[1, 4:6] = b / ρ
    m[2, 4] = m[3, 5] = -n / ρ
    m[4, 1], m[5, 1] = b
    m[4, 2] = m[5, 3] = -n
    w = np.sort(np.abs(np.linalg.eigvals(m).real))
    return w[0:2].mean(), w[2:4].mean(), w[4:6].mean()


def state(rng, regime):
    s = gen.logu(rng, 1e-2, 1e2)
    B_r, B_φ, B_θ = rng.normal(size=3)
    ρ, a_0 = gen.logu(rng, 1e-6, 1), gen.logu(rng, 1e-3, 10)
    if regime == "midplane":
        B_r = B_φ = 0.
        B_θ, ρ, s = 1., 1., 1.
    elif regime == "weak":
        s = gen.logu(rng, 1e-3, 1e-1)
        ρ = 1.
    elif regime == "strong":
        ρ = gen.logu(rng, 1e-8, 1e-3)
    elif regime == "oblique":
        B_θ *= .05
    return B_r * s, B_φ * s, B_θ, ρ, a_0


REGIMES = ["generic", "midplane", "weak", "strong", "oblique"]


def close(x, y, tol):
    return abs(x - y) <= tol * abs(y)


def speeds(ctx, case):
    from disc_solver.critical_points import mhd_wave_speeds
    from disc_solver.utils import ODEIndex as I
    rng = ctx.subrng("w", case)
    regime = REGIMES[case % 5]
    B_r, B_φ, B_θ, ρ, a_0 = state(rng, regime)
    y = rng.normal(size=len(I))
    y[I.B_r], y[I.B_φ], y[I.B_θ], y[I.ρ] = B_r, B_φ, B_θ, ρ
    ok, got = ctx.call("speeds", mhd_wave_speeds, values=y, a_0=a_0)
    if not ok:
        return
    ctx.count("states")
    want = reference(B_r, B_φ, B_θ, ρ, a_0)
    ctx.observe((regime, int(np.log10(want[2]) * 2)))
    # the slow speed is a small difference of large numbers
    loss = 1e-9 + 1e-14 * (want[2] / max(want[0], 1e-300)) ** 2
    for name, g, w, tol in zip(("slow", "Alfvén", "fast"), got, want,
                               (loss, 1e-6, 1e-6)):
        if tol > .01:
            continue
        ctx.check(close(g, w ** 2, max(tol, 1e-6)), name, "{} speed squared "
                  "is {} and not {}".format(name, g, w ** 2), B=(
                      B_r, B_φ, B_θ), ρ=ρ, a_0=a_0)
    # velocities may be in other units
    c = gen.logu(rng, .05, 20)
    ok, other = ctx.call("speeds", mhd_wave_speeds, values=y, a_0=a_0 * c * c,
                         sound_speed=c)
    if ok:
        ctx.check(all(abs(o - g * c * c) <= (1e-9 * got[2] if k == 0 else
                                             1e-9 * g) * c * c
                      for k, (o, g) in enumerate(zip(other, got))),
                  "sound speed", "speeds do not scale with the sound speed",
                  sound_speed=c, B=(B_r, B_φ, B_θ), ρ=ρ, a_0=a_0)
    # vectorised evaluation is the same
    ok, many = ctx.call("speeds", mhd_wave_speeds, values=np.array(
        [y, y * 1.1]), a_0=a_0)
    if ok:
        ctx.check(all(np.allclose(m[0], g, rtol=1e-12)
                      for m, g in zip(many, got)), "vectorised",
                  "speeds of several rows differ from those of one")


def machs(sol):
    from disc_solver.utils import ODEIndex as I
    y = np.asarray(sol.solution)
    a_0 = sol.initial_conditions.a_0
    w = np.array([reference(r[I.B_r], r[I.B_φ], r[I.B_θ], r[I.ρ], a_0)
                  for r in y])
    v = np.abs(y[:, I.v_θ])
    return v / w[:, 0], y[:, I.v_θ], v / w[:, 1], v / w[:, 2]


def first_crossing(a, m):
    """Where m, linear between rows, first becomes one"""
    if m[0] == 1:
        return a[0]
    for i in range(1, len(m)):
        if m[i] == 1:
            return a[i]
        if (m[i - 1] - 1) * (m[i] - 1) < 0:
            f = (1 - m[i - 1]) / (m[i] - m[i - 1])
            return a[i - 1] + f * (a[i] - a[i - 1])
    return None


def check_points(ctx, sol, what, wit):
    from disc_solver import critical_points as cp
    want = machs(sol)
    ok, got = ctx.call("mach", cp.get_mach_numbers, sol)
    if not ok:
        return
    names = ("slow", "sonic", "Alfvén", "fast")
    for n, g, w in zip(names, got, want):
        m = w < 1e4
        ctx.check(np.allclose(np.asarray(g)[m], w[m], rtol=1e-4, atol=1e-9),
                  n + " Mach number", "another {} Mach number".format(n),
                  **wit)
    ok, points = ctx.call("points", cp.get_all_sonic_points, sol)
    ok2, index = ctx.call("indices", cp.get_critical_point_indices, sol)
    a = np.asarray(sol.angles)
    if not ok or not ok2:
        return
    passed = []
    for n, p, i, w in zip(names, points, index, want):
        if not (w > 1).any():
            passed.append(0)
            ctx.count("never")
            ctx.check(p is None, n + " point", "a {} point at {} although "
                      "it is never passed".format(n, p), **wit)
            continue
        if (w > 1).all():
            passed.append(2)
            continue
        passed.append(1)
        if not w[0] < 1:
            continue
        t = first_crossing(a, w)
        ctx.count("crossings")
        k = int(np.searchsorted(a, t))
        step = a[min(k, len(a) - 1)] - a[max(k - 1, 0)]
        ctx.check(p is not None and abs(float(p) - t) <= 1e-4 * step + (
            1e-12 * t), n + " point", "the {} point is at {} and not {}"
            .format(n, p, t), **wit)
        ctx.check(i is not None and abs(int(i) - k) <= 1, n + " index",
                  "the row of the {} point is {} and not {}".format(
                      n, i, k), **wit)
    ctx.observe((what, tuple(passed)), dict(wit, passed=passed))
    ctx.count("solutions")


def synthetic(ctx, case):
    from disc_solver.utils import ODEIndex as I
    rng = ctx.subrng("s", case)
    sol = ff.rand_solution(rng)
    n = int(rng.choice([10, 50, 200]))
    a = np.sort(rng.uniform(0, 1.3, n))
    y = np.abs(rng.normal(size=(n, len(I))))
    a_0 = gen.logu(rng, .01, 3)
    x = np.linspace(0, 1, n)
    y[:, I.ρ] = np.exp(-x * rng.uniform(0, 8))
    y[:, I.B_r] = x * rng.uniform(0, 2)
    y[:, I.B_φ] = -x * rng.uniform(0, 2)
    y[:, I.B_θ] = 1 - .2 * x
    kind = case % 4
    top = gen.logu(rng, .05, 1e2)
    y[:, I.v_θ] = top * x ** rng.uniform(.5, 3)
    if kind == 1:
        y[:, I.v_θ] *= np.abs(1 + .5 * np.sin(20 * x))
    elif kind == 2:
        y[:, I.v_θ] = top * np.exp(-((x - .5) / .2) ** 2)
    elif kind == 3:
        # decelerating: starts beyond some of the critical points
        y[:, I.v_θ] = top * (1.05 - x)
    c = attr.evolve(sol.initial_conditions, a_0=a_0)
    sol = attr.evolve(sol, angles=a, solution=y, initial_conditions=c)
    check_points(ctx, sol, "synthetic%d" % kind, dict(case=case))


def runs(ctx, case):
    from disc_solver.solve.utils import SolverError
    rng = ctx.subrng("r", case)
    for _ in range(40):
        o = traj.near(rng, .07, jump_before_sonic=".03", max_steps=1000,
                      stop="3", num_angles=1000, use_E_r=bool(case & 1))
        try:
            traj.make_cons(o)
            break
        except SolverError:
            pass
    ok, res = ctx.call("solve", traj.run_file, ctx, o)
    if not ok:
        return
    sol = traj.read(res[0])[2]
    ctx.count("runs")
    check_points(ctx, sol, "run", dict(overrides=o))


def run(ctx):
    for case in range(ctx.n(400, 8000)):
        speeds(ctx, case)
    for case in range(ctx.n(120, 2000)):
        if ctx.more():
            synthetic(ctx, case)
    for case in range(ctx.n(4, 40)):
        if ctx.more():
            runs(ctx, case)
