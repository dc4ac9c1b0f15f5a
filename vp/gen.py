"""Workload generators shared by the checks."""
import numpy as np


def logu(rng, lo, hi):
    return float(10 ** rng.uniform(np.log10(lo), np.log10(hi)))


def state(rng, use_E_r, regime=None):
    """A physically admissible state off the midplane."""
    from disc_solver.utils import ODEIndex as I
    y = np.zeros(len(I))
    regime = regime or rng.choice(
        ["generic", "weak", "noHall", "noAmb", "noOhm", "aligned",
         "trajectory", "strong"])
    sgn = rng.choice([-1, 1])
    y[I.B_θ] = logu(rng, .1, 3)
    y[I.B_r] = rng.normal() * {"weak": 1e-3, "strong": 20}.get(regime, 1)
    y[I.B_φ] = rng.normal() * {"weak": 1e-3, "strong": 20}.get(regime, 1)
    if regime == "aligned":
        y[I.B_r] = y[I.B_φ] = 0
    y[I.v_r] = -sgn * logu(rng, 1e-3, 5)
    y[I.v_φ] = logu(rng, 1, 300)
    y[I.v_θ] = logu(rng, 1e-5, .99) if rng.random() < .7 else \
        1 + logu(rng, 1e-3, 10)
    y[I.ρ] = logu(rng, 1e-8, 1)
    y[I.η_O] = logu(rng, 1e-4, 1e3)
    y[I.η_A] = logu(rng, 1e-4, 1e3)
    y[I.η_H] = logu(rng, 1e-4, 1e3) * rng.choice([-1, 1])
    if regime == "noHall":
        y[I.η_H] = 0
    if regime == "noAmb":
        y[I.η_A] = 0
    if regime == "noOhm":
        y[I.η_O] = 0
    if regime == "trajectory":
        y[I.B_r], y[I.B_φ] = abs(y[I.B_r]), -abs(y[I.B_φ])
        y[I.v_φ] = rng.uniform(15, 30)
        e = logu(rng, 1e-3, 10)
        y[[I.η_O, I.η_A, I.η_H]] = e * np.array([1, .5, .1])
    y[I.E_r if use_E_r else I.B_φ_prime] = rng.normal() * logu(rng, .1, 100)
    th = float(rng.uniform(1e-4, .3) if rng.random() < .7 else
               rng.uniform(.3, 1.4))
    pars = dict(γ=float(logu(rng, 1e-5, .2) * rng.choice([1, 1, 1, -1])),
                a_0=logu(rng, 1e-2, 10), norm_kepler_sq=logu(rng, 10, 1e4))
    ic = y.copy()
    ic[[I.η_O, I.η_A, I.η_H]] = [logu(rng, 1e-4, 10) for _ in range(3)]
    ic[I.v_θ] = 0
    ic[I.B_θ] = ic[I.ρ] = 1
    ic[I.B_r] = ic[I.B_φ] = 0
    return str(regime), th, y, ic, pars


# The default configuration and neighbouring configurations which are known
# to give reasonably long trajectories
def overrides(rng, **extra):
    o = dict(
        v_rin_on_c_s=repr(float(rng.uniform(.3, 1.5))),
        v_a_on_c_s=repr(float(rng.uniform(.6, 1.3))),
        c_s_on_v_k=repr(float(rng.uniform(.02, .08))),
        γ=repr(float(logu(rng, 2e-4, 2e-2))),
        η_O=repr(float(logu(rng, 1e-3, .5))),
        η_A=repr(float(logu(rng, 1e-3, .5))),
        η_H=repr(float(logu(rng, 1e-3, .3) * rng.choice([-1, 1]))),
    )
    o.update({k: str(v) for k, v in extra.items()})
    return o


def make_input(o):
    from disc_solver.solve.config import get_input_from_conffile
    return get_input_from_conffile(
        config_file=None, overrides=o).to_soln_input()
