"""Run files with made-up (smooth, positive) solutions for the analysis."""
import numpy as np

from . import gen
from .gen import logu


def rows(rng, a, er):
    from disc_solver.utils import ODEIndex as I
    n = len(a)
    y = np.zeros((n, len(I)))
    x = a / max(a[-1], 1e-9)

    def wave(lo, hi):
        return rng.uniform(lo, hi) + rng.uniform(lo, hi) * x + rng.uniform(
            lo, hi) * np.sin(rng.uniform(1, 9) * x + rng.uniform(0, 6)) / 3
    y[:, I.B_r] = wave(-2, 2)
    y[:, I.B_φ] = wave(-2, 2)
    y[:, I.B_θ] = 1 + abs(wave(-.5, .5))
    y[:, I.v_r] = wave(-2, 2)
    y[:, I.v_φ] = rng.uniform(10, 40) + wave(-2, 2)
    y[:, I.v_θ] = np.sort(abs(wave(0, 2)))
    y[0, I.v_θ] = 0
    y[:, I.ρ] = np.exp(-rng.uniform(1, 12) * x ** 2)
    y[:, I.E_r if er else I.B_φ_prime] = wave(-20, 20)
    for e in (I.η_O, I.η_A, I.η_H):
        y[:, e] = abs(wave(-1, 1)) + 1e-3
    return y


def solution(rng, er, internal=True, roots=None, sonic=None, **over):
    from disc_solver.file_format import (
        Solution, InternalData, InitialConditions)
    o = gen.overrides(rng, use_E_r=er, **over)
    inp = gen.make_input(o)
    n = int(rng.integers(30, 250))
    a = np.sort(rng.uniform(0, np.radians(rng.uniform(1, 60)), n))
    a[0] = 0
    a = np.unique(a)
    n = len(a)
    y = rows(rng, a, er)
    data = None
    if internal:
        k = int(rng.integers(3, 300))
        m = y.shape[1]
        data = InternalData(
            derivs=rng.normal(size=(k, m)) * 10 ** rng.uniform(
                -3, 3, size=(k, m)),
            params=rows(rng, np.sort(rng.uniform(0, 1, k)), er),
            angles=np.sort(rng.uniform(0, a[-1], k)),
            **{"{}_{}".format(v, w): rng.normal(size=k) for v in (
                "v_r", "v_φ", "ρ") for w in ("normal", "taylor")})
    roots = int(rng.integers(0, 4)) if roots is None else roots
    sonic = rng.random() < .5 if sonic is None else sonic
    pick = np.sort(rng.choice(n, roots, replace=False))
    i = int(rng.integers(n))
    ic = InitialConditions(
        norm_kepler_sq=1 / inp.c_s_on_v_k ** 2, a_0=inp.v_a_on_c_s ** 2,
        γ=inp.γ, init_con=y[0].copy(), angles=a)
    return Solution(
        solution_input=inp, angles=a, solution=y, flag=int(rng.choice([
            0, 0, 0, 1, 2, 3, -1, -5])),
        coordinate_system="spherical midplane 0", internal_data=data,
        initial_conditions=ic,
        t_roots=a[pick] if roots else None,
        y_roots=y[pick] * 1.01 if roots else None,
        sonic_point=a[i] if sonic else None,
        sonic_point_values=y[i] * .99 if sonic else None)


def run_file(ctx, rng, er=False, count=None, name="s", final=None,
             alter=lambda sol: sol, **k):
    """path, [solutions], number of the final solution"""
    from h5preserve import open as h5open
    from disc_solver.file_format import registries, Run
    count = int(rng.integers(1, 14)) if count is None else count
    sols = [alter(solution(rng, er, **k)) for _ in range(count)]
    conf = sols[0].solution_input.to_config_input("l")
    run = Run(config_input=conf, config_filename="c.cfg",
              disc_solver_version="0", float_type="float64",
              sonic_method="single", use_E_r=er)
    path = ctx.tmp(name) / "r.hdf5"
    final = int(rng.integers(count)) if final is None else final
    with h5open(path, registries, mode="x") as f:
        f["run"] = run
        for s in sols:
            run.solutions.add_solution(s)
        run.final_solution = run.solutions[str(final)]
        run.finalise()
    return path, sols, final
