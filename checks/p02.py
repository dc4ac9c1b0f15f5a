"""
P02: the state at the midplane. Oracle: the physical equations at the
midplane, evaluated on what define_conditions returned.
"""
import numpy as np

from vp import physics as ph, gen

PROPERTY = "P02"
RULE = ("random solver inputs over the whole admissible range and inputs "
        "without an equilibrium; distinct by formulation, signs and decade "
        "of the inputs")
MIN_NONTRIVIAL = 200
MIN_COUNTERS = {"equilibria": 300, "rejected": 20, "v_phi_near_zero": 5}
TOL = 1e-7


def make(ctx, rng, kind):
    er = bool(rng.random() < .5)
    o = gen.overrides(rng, use_E_r=er)
    o["v_rin_on_c_s"] = repr(gen.logu(rng, 1e-3, 5) * rng.choice(
        [1, 1, 1, -1]))
    o["v_a_on_c_s"] = repr(gen.logu(rng, 1e-2, 5))
    o["c_s_on_v_k"] = repr(gen.logu(rng, 1e-3, .3))
    o["γ"] = repr(float(gen.logu(rng, 1e-6, .3) * rng.choice([1, 1, -1])))
    for n in ("η_O", "η_A", "η_H"):
        o[n] = repr(gen.logu(rng, 1e-4, 10))
    o["η_H"] = repr(float(o["η_H"]) * rng.choice([-1, 1, 0]))
    if rng.random() < .1:
        o["η_A"] = "0"
    elif rng.random() < .1:
        o["η_O"] = "0"
    o["start"] = "0"
    o["stop"] = repr(float(rng.uniform(.5, 60)))
    o["num_angles"] = str(int(rng.integers(2, 3000)))
    if kind == "none":
        # radial pressure support larger than gravity
        o["c_s_on_v_k"] = repr(float(rng.uniform(.8, 5)))
        o["v_rin_on_c_s"] = repr(gen.logu(rng, 1e-3, 5))
        o["η_O"], o["η_A"] = repr(gen.logu(rng, 1e-3, 1)), "0"
    elif kind == "zero":
        # no accretion: an equilibrium without toroidal field
        o["v_rin_on_c_s"] = str(rng.choice(["0", "0.0", "-0"]))
    elif kind == "nothing":
        # no field at all, or nothing to diffuse it: nothing defines the
        # toroidal field
        k = rng.integers(4)
        if k < 2:
            o["v_a_on_c_s"] = "0"
        else:
            o["η_O"] = o["η_A"] = "0"
        if k % 2:
            o["v_rin_on_c_s"] = "0"
    return o


def discriminant(o):
    """v_φ from the midplane equations: v_φ^2 - v_φ X - Y = 0."""
    K = 1 / float(o["c_s_on_v_k"]) ** 2
    vr = -float(o["v_rin_on_c_s"])
    a0 = float(o["v_a_on_c_s"]) ** 2
    eP = float(o["η_O"]) + float(o["η_A"])
    eH, g = float(o["η_H"]), float(o["γ"])
    # ½ v_r v_φ = a_0 B_φ'; B_r' = γ - 1/4 - (B_φ' η_H + v_r) / η_P;
    # v_φ² = K - 5/2 + 2γ - ½ v_r² - a_0 (B_r' + 1/4 - γ)
    b = vr * eH / (2 * eP)
    c = K - 2.5 + 2 * g - vr ** 2 / 2 + a0 * vr / eP
    return b, c, b * b + 4 * c


def run(ctx):
    from disc_solver.solve.config import define_conditions
    from disc_solver.solve.utils import SolverError
    from disc_solver.utils import ODEIndex as I
    rng = ctx.rng
    for case in range(ctx.n(900, 20000)):
        if not ctx.more():
            break
        kind = {0: "none", 7: "zero", 13: "nothing", 19: "nothing"}.get(
            case % 24, "any") if case % 6 else "none"
        o = make(ctx, rng, kind)
        b, c, disc = (0, 0, -1) if kind == "nothing" else discriminant(o)
        inp = gen.make_input(o)
        wit = dict(overrides=o)
        size = b * b + 4 * abs(c)
        if abs(disc) < 1e-9 * size:
            continue
        if disc < 0:
            ctx.count("rejected")
            ctx.count("degenerate", kind == "nothing")
            ctx.observe(("rejected", kind, int(np.log10(-disc)),
                         o["use_E_r"], o["v_a_on_c_s"] == "0"))
            try:
                cons = define_conditions(inp)
            except SolverError:
                continue
            except Exception as e:
                ctx.violation(
                    "rejects-with-wrong-error",
                    "inputs without an equilibrium raised {!r} rather than "
                    "a solver error".format(e), **wit)
                continue
            ctx.violation("accepts-impossible-input", "no equilibrium "
                          "exists, but conditions were returned",
                          init_con=cons.init_con, **wit)
            continue
        ok, cons = ctx.call("define_conditions-raises", define_conditions,
                            inp)
        if not ok:
            continue
        y = cons.init_con
        er = o["use_E_r"] == "True"
        ctx.count("equilibria")
        ctx.observe((er, np.sign(float(o["η_H"])), np.sign(y[I.v_r]),
                     int(np.log10(cons.a_0)),
                     int(np.log10(cons.norm_kepler_sq)),
                     int(np.log10(inp.η_O + inp.η_A))),
                    dict(overrides=o, init_con=y))
        if not ctx.check(np.all(np.isfinite(y)), "not-finite",
                         "initial conditions are not finite", init_con=y,
                         **wit):
            continue
        g, a0, K = cons.γ, cons.a_0, cons.norm_kepler_sq
        exact = dict(
            norm_kepler_sq=(K, float(o["c_s_on_v_k"]) ** -2),
            a_0=(a0, float(o["v_a_on_c_s"]) ** 2), γ=(g, float(o["γ"])),
            v_r=(y[I.v_r], -float(o["v_rin_on_c_s"])),
            η_O=(y[I.η_O], float(o["η_O"])),
            η_A=(y[I.η_A], float(o["η_A"])),
            η_H=(y[I.η_H], float(o["η_H"])),
            B_θ=(y[I.B_θ], 1.), ρ=(y[I.ρ], 1.))
        for n, (got, want) in exact.items():
            ctx.check(abs(got - want) <= 1e-12 * abs(want), "unit:" + n,
                      "{} is {!r}, expected {!r}".format(n, got, want),
                      **wit)
        for n in ("B_r", "B_φ", "v_θ"):
            ctx.check(y[I[n]] == 0, "symmetry:" + n,
                      "{} is not zero at the midplane".format(n),
                      init_con=y, **wit)
        vr, u = y[I.v_r], y[I.v_φ]
        eta = (y[I.η_O], y[I.η_A], y[I.η_H])
        eP = eta[0] + eta[1]
        p = vr * u / (2 * a0)
        if er:
            # E_r of the state with B_φ' from the azimuthal momentum
            E = ph.E_r_from_state(0., g, 0., 0., 1., (vr, 0., u), *eta, p)
            sc = abs(u) + abs(vr * eta[2] / eP) + abs(p) * (
                eP + eta[2] ** 2 / eP)
            ctx.check(abs(E - y[I.E_r]) <= TOL * sc, "E_r",
                      "E_r is {!r}, expected {!r}".format(y[I.E_r], E),
                      init_con=y, **wit)
        else:
            ctx.check(abs(y[I.B_φ_prime] - p) <= TOL * abs(p),
                      "azimuthal momentum", "B_φ' is {!r}, expected "
                      "{!r}".format(y[I.B_φ_prime], p), init_con=y, **wit)
        dBr = ph.solve_dBr(0., g, 0., 0., 1., p, (vr, 0., u), *eta)
        t = [-.5 * vr ** 2, -u ** 2, K, -2.5, 2 * g,
             -a0 * dBr, -a0 * (.25 - g)]
        ctx.check(ph.rel(t) < TOL, "radial momentum",
                  "radial momentum not satisfied at the midplane: relative "
                  "{:.3g}".format(ph.rel(t)), init_con=y, **wit)
        if abs(u) < .2 * np.sqrt(size):
            ctx.count("v_phi_near_zero")
        best = (b + np.sqrt(disc)) / 2
        ctx.check(abs(u - best) <= 1e-8 * np.sqrt(size), "branch",
                  "v_φ is not the faster root: {!r} against {!r}".format(
                      u, best), **wit)
        ang = np.degrees(cons.angles)
        n = int(o["num_angles"])
        stop = float(o["stop"])
        ctx.check(len(ang) == n and ang[0] == 0 and np.allclose(
            ang, np.arange(n) * stop / (n - 1), rtol=1e-10, atol=1e-12),
            "angles", "requested angles are not those of the input",
            got=[len(ang), ang[0], ang[-1]], **wit)
