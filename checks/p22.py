"""
P22: Jacobians and their eigensystems are those of the equations.

Monitor: the Jacobians which the analysis computes from solutions, compared
with extrapolated differences of the right-hand side at single states; the
figures of the eigenvalues, eigenvectors, norms and coefficients are compared
with the definition (J v = λ v, Σ c v = y − y at the critical point).
"""
import numpy as np

from vp import physics as ph, synth
from vp.cli import captured

PROPERTY = "P22"
RULE = ("made-up solutions (both formulations, with and without varying "
        "diffusivities, with and without critical points), random states away "
        "from singularities; distinct by solution and by figure")
MIN_NONTRIVIAL = 60
MIN_COUNTERS = {"jacobians": 200, "eigenvalues": 2000, "coefficients": 250}


def rhs_of(sol):
    from disc_solver.solve.solution import ode_system
    c, inp = sol.initial_conditions, sol.solution_input
    rhs, _ = ode_system(
        γ=c.γ, a_0=c.a_0, norm_kepler_sq=c.norm_kepler_sq,
        init_con=c.init_con, θ_scale=1, with_taylor=False,
        η_derivs=inp.η_derivs, store_internal=False, use_E_r=inp.use_E_r,
        v_θ_sonic_crit=None, after_sonic=None, deriv_v_θ_func=None,
        derivs_post_solution=False)

    def f(θ, y):
        dy = np.zeros(len(y))
        flag = rhs(θ, np.array(y), dy)
        assert flag == 0
        return dy
    return f


def reference(f, θ, y):
    """Jacobian by extrapolation, and an estimate of its error"""
    n = len(y)
    J, err = np.zeros((n, n)), np.zeros((n, n))
    with np.errstate(all="ignore"):
        for j in range(n):
            h = 1e-3 * abs(y[j])

            def d(h):
                p, m = np.array(y), np.array(y)
                p[j] += h
                m[j] -= h
                return (f(θ, p) - f(θ, m)) / (p[j] - m[j])
            a, b, c = d(h), d(h / 2), d(h / 4)
            e1, e2 = (4 * b - a) / 3, (4 * c - b) / 3
            J[:, j] = (16 * e2 - e1) / 15
            err[:, j] = abs(J[:, j] - e2)
    return J, err


def regular(sol):
    I = ph.idx()
    y = sol.solution
    v = y[:, I.v_θ]
    ok = (v > .02) & (abs(v - 1) > .05) & (y[:, I.ρ] > 1e-3)
    return ok & np.all(abs(y) > 1e-4, axis=1) & np.all(
        y[:, [I.η_O, I.η_A, I.η_H]] > .01, axis=1)


def make(rng, case):
    I = ph.idx()
    er = bool(case % 3 == 2)
    sol = synth.solution(rng, er, internal=False,
                         η_derivs=bool(rng.random() < .5))
    if case % 4 == 0:  # slow throughout
        sol.solution[:, I.v_θ] *= .3
    return sol


def check_jacobian(ctx, case):
    from disc_solver.analyse.compute_jacobian import (
        compute_jacobian_from_solution)
    rng = ctx.subrng("jac", case)
    sol = make(rng, case)
    before = sol.solution.copy()
    eps = float(rng.choice([1e-6, 1e-7]))
    ok, jac = ctx.call("jacobian-failed", compute_jacobian_from_solution,
                       sol, eps=eps)
    tag = dict(case=case, eps=eps, E_r=sol.solution_input.use_E_r,
               η_derivs=sol.solution_input.η_derivs)
    if not ok:
        return
    n = sol.solution.shape[1]
    if not ctx.check(jac.shape == (len(sol.angles), n, n), "shape",
                     "shape {}".format(jac.shape), tag=tag):
        return
    ctx.check(np.array_equal(before, sol.solution), "changed",
              "the solution was changed", tag=tag)
    f = rhs_of(sol)
    rows = np.flatnonzero(regular(sol))
    for i in rng.permutation(rows)[:8]:
        y, θ = sol.solution[i], sol.angles[i]
        J, err = reference(f, θ, y)
        # rounding of the difference: of the terms, not of their sum
        size = np.max(abs(J) * abs(y), axis=1, keepdims=True) + abs(
            f(θ, y))[:, None]
        tol = 20 * err + 1e-5 * abs(J) + 1e4 * 2.3e-16 * size / eps \
            + 1e2 * (eps / abs(y)) ** 2 * abs(J)
        bad = abs(jac[i] - J) > tol
        # judge only the entries known precisely
        known = tol < .1 * abs(J).max(axis=1, keepdims=True) + 1e-300
        zero = (J == 0) & (err == 0) & (jac[i] == 0)
        ctx.count("jacobians")
        ctx.count("entries", int(known.sum()))
        wrong = bad & known & ~zero
        k, j = np.unravel_index(np.argmax(wrong), wrong.shape)
        ctx.check(not wrong.any(), "jacobian", "∂f_{}/∂y_{} is not that of "
                  "the equations".format(k, j), tag=tag, got=jac[i][k, j],
                  expected=J[k, j], tolerance=tol[k, j],
                  wrong=int(wrong.sum()))
    ctx.observe(("jac", case), tag)


def split_values(ax, label, x):
    """Values of signed complex data shown as four lines"""
    out = np.full(len(x), np.nan, dtype=complex)
    parts = {"^": (1, 0), "v": (-1, 0), "2": (1, 1), "1": (-1, 1)}
    re, im = np.full(len(x), np.nan), np.full(len(x), np.nan)
    seen = 0
    for line in ax.get_lines():
        if (line.get_label() if not line.get_label().startswith("_")
                else None) != label:
            continue
        sign, imag = parts[line.get_marker()]
        lx = np.asarray(line.get_xdata(), dtype=float)
        ly = np.asarray(line.get_ydata(), dtype=float)
        at = np.searchsorted(x, lx)
        if len(lx) and (at.max() >= len(x) or not np.allclose(x[at], lx)):
            return None
        (im if imag else re)[at] = sign * ly
        seen += 1
    out = re + 1j * im
    return out if seen == 4 else None


def check_figures(ctx, case):
    import matplotlib.pyplot as plt
    from disc_solver.analyse import compute_jacobian as cj
    from scipy.linalg import eig
    rng = ctx.subrng("fig", case)
    I = ph.idx()
    er = bool(case % 3 == 2)
    path, sols, final = synth.run_file(
        ctx, rng, er, count=2, internal=False,
        η_derivs=bool(rng.random() < .5))
    k = int(rng.integers(2))
    sol = sols[k]
    top = np.degrees(sol.angles[-1])
    lo, hi = (0, 90) if rng.random() < .4 else tuple(
        float(x) for x in np.sort(rng.uniform(0, top, 2)))
    deg = np.degrees(sol.angles)
    keep = (lo <= deg) & (deg <= hi)
    x = deg[keep]
    eps = float(rng.choice([1e-10, 1e-8]))
    J = cj.compute_jacobian_from_solution(sol, eps=eps)
    good = np.isfinite(J).all(axis=(1, 2)) & regular(sol)
    n = J.shape[1]
    tag = dict(case=case, start=lo, stop=hi, E_r=er, eps=eps)
    before = path.read_bytes()

    def figure(func, **kw):
        plt.close("all")
        with captured():
            return ctx.call("figure-failed", getattr(cj, func), str(path),
                            soln_range=str(k), start=lo, stop=hi, eps=eps,
                            close=False, **kw)

    ok, fig = figure("jacobian_eigenvalues_plot")
    if ok and x.size:
        ax = fig.axes[0]
        lam = [split_values(ax, str(i), x) for i in range(n)]
        if ctx.check(all(l is not None for l in lam), "eigenvalues-lines",
                     "not all eigenvalues are shown", tag=tag):
            lam = np.array(lam)
            for m in np.flatnonzero(good[keep])[:20]:
                ctx.count("eigenvalues", n)
                A = J[keep][m]
                ref = np.linalg.eigvals(A)
                scale = np.linalg.norm(A)
                # characteristic moments
                ctx.check(
                    abs(lam[:, m].sum() - np.trace(A)) <= 1e-8 * scale
                    and all(np.min(abs(ref - l)) <= 1e-4 * scale
                            for l in lam[:, m]), "eigenvalues",
                    "eigenvalues are not those of the Jacobian", tag=tag,
                    got=sorted(map(str, lam[:, m])),
                    expected=sorted(map(str, ref)))
    ok, fig = figure("jacobian_eigenvectors_plot")
    if ok and x.size:
        for j in range(n):
            ax = fig.axes[j]
            lam = split_values(ax, None, x)
            vec = [split_values(ax, str(i), x) for i in range(n)]
            if not ctx.check(
                    lam is not None and all(v is not None for v in vec),
                    "eigenvectors-lines", "not all components are shown",
                    tag=tag):
                continue
            vec = np.array(vec)
            for m in np.flatnonzero(good[keep])[:10]:
                ctx.count("eigenvalues")
                A, v = J[keep][m], vec[:, m]
                res = np.linalg.norm(A @ v - lam[m] * v)
                ctx.check(res <= 1e-8 * np.linalg.norm(A) and abs(
                    np.linalg.norm(v) - 1) < 1e-8, "eigenvectors",
                    "the vector shown is no eigenvector", tag=tag,
                    residual=res, norm=np.linalg.norm(v))
    ok, fig = figure("jacobian_eigenvector_norm_plot")
    if ok and x.size:
        lines = fig.axes[0].get_lines()
        ok = len(lines) == n and all(
            np.allclose(np.asarray(l.get_xdata(), float), x) and np.allclose(
                np.real(l.get_ydata())[good[keep]], 1) for l in lines)
        ctx.check(ok, "norms", "norms of the eigenvectors are not 1", tag=tag)
    for local in (True, False):
        name = str(rng.choice(["slow", "sonic", "alfven", "fast"]))
        y = sol.solution
        m = synth_mach(sol)[name]
        past = np.flatnonzero(m >= 1) if m[0] < 1 else np.flatnonzero(m <= 1)
        c = int(past[0]) if len(past) else -1
        ok, fig = figure("jacobian_eigenvector_coef_plot",
                         local_eigvecs=local, critical_point=name)
        if not ok or (not local and not good[c]):
            continue
        lines = fig.axes[0].get_lines()
        upright = [l for l in lines if len(l.get_xdata()) == 2 and list(
            l.get_ydata()) == [0, 1] and "point" in l.get_label()]
        ctx.check(len(upright) == 1 and np.isclose(
            upright[0].get_xdata()[0], deg[c]), "critical-point",
            "the {} point is not marked".format(name), tag=tag)
        shown = {l.get_label(): l for l in lines}
        if not ctx.check(all(str(i) in shown for i in range(n)),
                         "coefficients-lines", "not all coefficients shown",
                         tag=tag):
            continue
        got = np.array([np.real(shown[str(i)].get_ydata())
                        for i in range(n)])
        if not ctx.check(got.shape == (n, keep.sum()) and all(
                np.allclose(np.asarray(shown[str(i)].get_xdata(), float), x)
                for i in range(n)), "coefficients-range",
                "coefficients for other angles", tag=tag):
            continue
        V = None if local else eig(J[c])[1]
        for m in np.flatnonzero(good[keep])[:20]:
            W = eig(J[keep][m])[1] if local else V
            if np.linalg.cond(W) > 1e9:
                continue
            exp = np.linalg.solve(W, y[keep][m] - y[c]).real
            ctx.count("coefficients")
            ctx.check(np.allclose(got[:, m], exp, rtol=1e-4, atol=1e-4 *
                                  np.max(abs(exp)) + 1e-12),
                      "coefficients", "coefficients are not those of the "
                      "solution", tag=dict(tag, local=local, point=name),
                      got=got[:, m], expected=exp)
    plt.close("all")
    ctx.check(path.read_bytes() == before, "file-changed",
              "the file was changed", tag=tag)
    ctx.observe(("fig", case), tag)


def synth_mach(sol):
    I = ph.idx()
    y, a0 = sol.solution, sol.initial_conditions.a_0
    va2 = a0 * (y[:, I.B_r] ** 2 + y[:, I.B_φ] ** 2 + y[:, I.B_θ] ** 2) / y[
        :, I.ρ]
    vt2 = a0 * y[:, I.B_θ] ** 2 / y[:, I.ρ]
    fast = (1 + va2 + np.sqrt((1 + va2) ** 2 - 4 * vt2)) / 2
    v = abs(y[:, I.v_θ])
    return {"slow": v / np.sqrt(vt2 / fast), "sonic": v,
            "alfven": v / np.sqrt(vt2), "fast": v / np.sqrt(fast)}


def run(ctx):
    for case in range(ctx.n(60, 1000)):
        if not ctx.more():
            return
        check_jacobian(ctx, case)
        if case % 4 == 0:
            check_figures(ctx, case // 4)
