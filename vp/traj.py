"""Running the solver and monitoring stored trajectories."""
from pathlib import Path

import numpy as np

from . import gen, physics as ph


def write_config(path, o):
    """A configuration file holding the settings o"""
    initial = ("γ", "v_rin_on_c_s", "v_a_on_c_s", "c_s_on_v_k", "η_O", "η_H",
               "η_A")
    with open(path, "w", encoding="utf8") as f:
        for sec in ("config", "initial"):
            f.write("[{}]\n".format(sec))
            for k, v in o.items():
                if (k in initial) == (sec == "initial"):
                    f.write("{} = {}\n".format(k, v))
    return path


def run_file(ctx, o, method="single", store_internal=True, name="r", **k):
    """solve() into a file; returns its path"""
    from disc_solver.solve import solve
    d = ctx.tmp(name)
    conf = write_config(d / "c.cfg", o)
    path, ok = solve(
        output_file="r.hdf5", sonic_method=method, config_file=conf,
        output_dir=Path(d), store_internal=store_internal, **k)
    return Path(path), ok


def read(path, key=None):
    """The final (or given) solution of a run file, detached from it"""
    from .ff import plain  # noqa
    from h5preserve import open as h5open
    from disc_solver.file_format import registries
    with h5open(path, registries, mode="r") as f:
        run = f["run"]
        sols = {k: run.solutions[k] for k in run.solutions}
        final = run.final_solution
    return run, sols, (final if key is None else sols[key])


def near(rng, spread=.3, **extra):
    """A neighbour of the default configuration"""
    d = dict(v_rin_on_c_s=1, v_a_on_c_s=1, c_s_on_v_k=.03, γ=.001,
             η_O=.001, η_A=.0005, η_H=.0001)
    o = {k: repr(float(v * np.exp(spread * rng.normal())))
         for k, v in d.items()}
    if rng.random() < .2:
        o["η_H"] = "-" + o["η_H"]
    o.update({k: str(v) for k, v in extra.items()})
    return o


def spline_derivative(a, y):
    from scipy.interpolate import CubicSpline
    return CubicSpline(a, y)(a, 1)


def residuals(a, y, cons, use_E_r, η_derivs, trim=6):
    """
    How far a stored trajectory is from the governing equations: for each
    equation the relative residual at every row, the derivatives being those
    of a spline through the stored rows.
    """
    I = ph.idx()
    g = cons.γ
    d = spline_derivative(a, y)
    inner = slice(trim, -trim)
    res = {}
    for n, t in ph.terms(a, y, d, g, cons.a_0, cons.norm_kepler_sq).items():
        res[n] = ph.rel(t)[inner]
    v, B, J, eta = ph.fields(a, y, d, g)
    E = ph.efield(v, B, J, *eta)
    S = ph.efield_scale(v, B, J, *eta)
    res["azimuthal induction"] = (np.abs(E[2]) / S)[inner]
    if use_E_r:
        res["radial electric field"] = (
            np.abs(y[:, I.E_r] - E[0]) / S)[inner]
        dE = d[:, I.E_r]
        other = (g - .75) * E[1]
        res["polar induction"] = (
            np.abs(dE - other) / (np.abs(dE) + np.abs(other)))[inner]
    else:
        p = y[:, I.B_φ_prime]
        res["gradient of B_φ"] = (
            np.abs(d[:, I.B_φ] - p) / (np.abs(d[:, I.B_φ]) + np.abs(p))
        )[inner]
    B2 = B[0] ** 2 + B[1] ** 2 + B[2] ** 2
    scale = B2 / y[:, I.ρ] if η_derivs else np.ones(len(a))
    for n in ("η_O", "η_A", "η_H"):
        e0 = cons.init_con[I[n]]
        e = y[:, I[n]]
        res["diffusivity"] = np.maximum(
            res.get("diffusivity", 0), (np.abs(e - e0 * scale) / (
                np.abs(e) + np.abs(e0 * scale) + 1e-300)))
    res["diffusivity"] = res["diffusivity"][inner]
    return res


def make_cons(o):
    from disc_solver.solve.config import define_conditions
    inp = gen.make_input(o)
    return inp, define_conditions(inp)
