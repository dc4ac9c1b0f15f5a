"""
P26: scaling, units, cylinder coordinates and looking up values.

Monitor: every conversion is called with random rows, single and many, and
judged by what has to be conserved (similarity, Mach and Reynolds numbers,
vectors), values found by independent search.
"""
import io
import math
from types import SimpleNamespace

import numpy as np

from vp import physics as ph, gen
from vp.cli import captured

PROPERTY = "P26"
RULE = ("random rows scaled to random radii (single, many, a grid per row), "
        "converted to cylinders, inputs in random units, and searches in "
        "random sequences (rising, falling, wiggling, starting with NaN, "
        "hit exactly, never reached); distinct by conversion, layout and "
        "regime")
MIN_NONTRIVIAL = 60
MIN_COUNTERS = {"scalings": 200, "composed": 100, "cylinders": 100,
                "units": 50, "refused": 20, "searches": 300,
                "selections": 100, "streams": 10}
V, B, E = ("v_r", "v_φ", "v_θ"), ("B_r", "B_φ", "B_θ"), ("η_O", "η_A", "η_H")


def close(a, b, tol=1e-10):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(
        np.all(abs(a - b) <= tol * (abs(a) + abs(b)) + 1e-300))


def random_rows(rng, I, n):
    y = rng.normal(size=(n, len(I))) * 10 ** rng.uniform(
        -3, 3, size=(n, len(I)))
    y[:, I.ρ] = abs(y[:, I.ρ])
    return y


def scaling(ctx, rng, case):
    from disc_solver.utils import ODEIndex as I, scale_solution_to_radii
    n = int(rng.integers(1, 30))
    y = random_rows(rng, I, n)
    before = y.copy()
    γ = float(rng.choice([0, .25, gen.logu(rng, 1e-4, .3),
                          -gen.logu(rng, 1e-4, .3)]))
    kw = dict(γ=γ, use_E_r=False)
    layout = case % 3
    r = [np.array(gen.logu(rng, 1e-3, 1e3)) if layout < 2 else
         10 ** rng.uniform(-3, 3, n) for _ in range(2)]
    if layout == 0:
        y, before = y[0], before[0]
        r = [float(x) for x in r]
    wit = dict(rows=y, radii=r, γ=γ)
    ok, a = ctx.call("scaling-raises", scale_solution_to_radii, y, r[0], **kw)
    if not ok:
        return
    ctx.count("scalings")
    ctx.observe(("scale", layout, np.sign(γ), int(np.log10(np.min(r[0])))))
    ctx.check(np.array_equal(y, before), "scaling-changes-argument",
              "the rows given to scale_solution_to_radii were changed", **wit)
    expo = dict([(x, -.5) for x in V] + [(x, γ - 1.25) for x in B]
                + [(x, .5) for x in E])
    expo.update(ρ=2 * γ - 1.5, B_φ_prime=γ - 1.25)
    for name, p in expo.items():
        i = I[name]
        ctx.check(close(a[..., i], y[..., i] * np.power(r[0], p)),
                  "scaling:" + name, "{} at radius {} is {}".format(
                      name, np.ravel(r[0])[0], np.ravel(a[..., i])[0]), **wit)
    # what the self-similarity conserves
    for what, f in (
            ("Alfvén Mach number", lambda y, r: y[..., I.v_r] ** 2 * y[
                ..., I.ρ] / y[..., I.B_φ] ** 2),
            ("magnetic Reynolds number", lambda y, r: r * y[..., I.v_φ] / y[
                ..., I.η_A]),
            ("Kepler number", lambda y, r: y[..., I.v_φ] ** 2 * r)):
        ctx.check(close(f(a, r[0]), f(y, 1.), 1e-9),
                  "similarity:" + what, what + " depends on the radius", **wit)
    # to the radius r0 and on by r1 is to r0 r1
    ok, b = ctx.call("scaling-raises", scale_solution_to_radii, a, r[1], **kw)
    ok2, c = ctx.call("scaling-raises", scale_solution_to_radii, y,
                      r[0] * r[1], **kw)
    if ok and ok2:
        ctx.count("composed")
        ctx.check(close(b, c, 1e-9), "scaling-composition",
                  "scaling in two steps is not scaling by the product", **wit)
    if layout == 2:  # a radius for every row is that of the single rows
        i = int(rng.integers(n))
        ok, one = ctx.call("scaling-raises", scale_solution_to_radii, y[i],
                           float(r[0][i]), **kw)
        if ok:
            ctx.check(close(one, a[i]), "scaling-row",
                      "a row alone is scaled differently", row=i, **wit)


def refused(ctx, rng, case):
    from disc_solver import utils as u
    n = int(rng.integers(1, 9))
    y = random_rows(rng, u.ODEIndex, n)
    y = y[0] if case % 2 else y
    a = rng.uniform(0, 1, n) if y.ndim == 2 else float(rng.uniform(0, 1))
    for f in (lambda: u.scale_solution_to_radii(
                  y, 2., γ=.01, use_E_r=True),
              lambda: u.convert_spherical_to_cylindrical(
                  a, y, γ=.01, c_s_on_v_k=.1, use_E_r=True),
              lambda: u.convert_solution_to_vertical(
                  a, y, γ=.01, c_s_on_v_k=.1, use_E_r=True)):
        ctx.count("refused")
        try:
            f()
        except u.DiscSolverError:
            continue
        except Exception as e:  # noqa
            ctx.violation("E_r-refusal", "raised {!r}".format(e))
            continue
        ctx.violation("E_r-refusal", "rows with E_r were converted as those "
                      "with B_φ'")


def cylinder(ctx, rng, case):
    from disc_solver import utils as u
    I, C = u.ODEIndex, u.CylindricalODEIndex
    n = int(rng.integers(2, 40))
    y = random_rows(rng, I, n)
    a = np.sort(rng.uniform(0, 1.4, n))
    a[0] = 0
    γ = float(gen.logu(rng, 1e-4, .3) * rng.choice([-1, 1]))
    h = float(gen.logu(rng, 1e-3, .5))
    single = case % 3 == 0
    i = int(rng.integers(n))
    if single:
        y, a = y[i], float(a[i])
    wit = dict(rows=y, angles=a, γ=γ, c_s_on_v_k=h)
    before = np.copy(y)
    kw = dict(γ=γ, c_s_on_v_k=h, use_E_r=False)
    ok, got = ctx.call("cylinder-raises", u.convert_spherical_to_cylindrical,
                       a, y, **kw)
    if not ok:
        return
    heights, c = got
    ctx.count("cylinders")
    ctx.observe(("cylinder", single, np.sign(γ), int(np.log10(h))))
    ctx.check(np.array_equal(y, before), "cylinder-changes-argument",
              "the rows given were changed", **wit)
    # at radius R = 1, spherical radius is 1 / cos
    s = 1 / np.cos(a)
    ctx.check(close(heights, np.tan(a) / h), "heights",
              "heights are not z/(R c_s/v_k)", **wit)
    scaled = dict(v=s ** -.5, B=s ** (γ - 1.25))
    er = np.array([np.cos(a), np.sin(a)])
    eθ = np.array([-np.sin(a), np.cos(a)])
    for k, names in (("v", (C.v_r, C.v_z, C.v_φ)), ("B", (C.B_r, C.B_z,
                                                        C.B_φ))):
        vec = scaled[k] * (er * y[..., I[k + "_r"]] + eθ * y[
            ..., I[k + "_θ"]])
        size = scaled[k] * np.hypot(y[..., I[k + "_r"]], y[..., I[k + "_θ"]])
        for j, name in ((0, k + "_R"), (1, k + "_z")):
            ctx.check(bool(np.all(abs(c[..., names[j]] - vec[j])
                                  <= 1e-10 * size)),
                      "cylinder:" + name, name + " is not the component of "
                      "the vector", **wit)
        ctx.check(close(c[..., names[2]], scaled[k] * y[..., I[k + "_φ"]]),
                  "cylinder:" + k + "_φ", k + "_φ changes otherwise than by "
                  "its radial dependence", **wit)
    for name, p in (("ρ", 2 * γ - 1.5), ("η_O", .5), ("η_A", .5),
                    ("η_H", .5)):
        ctx.check(close(c[..., C[name]], y[..., I[name]] * s ** p),
                  "cylinder:" + name, name + " is not that at the same "
                  "cylinder radius", **wit)
    ok, got = ctx.call("vertical-raises", u.convert_solution_to_vertical,
                       a, y, **kw)
    if ok:
        ok, want = ctx.call("scaling-raises", u.scale_solution_to_radii, y, s,
                            γ=γ, use_E_r=False)
        if ok:
            ctx.check(close(got[0], heights) and close(got[1], want, 1e-9),
                      "vertical", "rows are not those at the spherical "
                      "radius of the point above", **wit)


def units(ctx, rng, case):
    from disc_solver import constants as k
    from disc_solver.utils import get_normalisation
    cgs = dict(G=(6.6743e-8, 1e-3), AU=(1.495978707e13, 1e-5),
               M_SUN=(1.98847e33, 1e-2), KM=(1e5, 1e-12),
               YEAR=(3.1557e7, 1e-3))
    for n, (v, tol) in cgs.items():
        ctx.check(abs(getattr(k, n) / v - 1) < tol, "constant:" + n,
                  "{} is {!r}".format(n, getattr(k, n)))
    inp = SimpleNamespace(c_s_on_v_k=gen.logu(rng, 1e-3, .5),
                          v_a_on_c_s=gen.logu(rng, 1e-3, 5))
    kw = {}
    if rng.random() < .7:
        kw["radius"] = gen.logu(rng, 1e11, 1e16)
    if rng.random() < .7:
        kw["mass"] = gen.logu(rng, 1e32, 1e36)
    if rng.random() < .7:
        kw["density"] = gen.logu(rng, 1e-16, 1e-6)
    ok, got = ctx.call("units-raise", get_normalisation, inp, **kw)
    if not ok:
        return
    ctx.count("units")
    ctx.observe(("units",) + tuple(sorted(kw)))
    r, m, ρ = (kw.get("radius", 1.495978707e13), kw.get("mass", 2e33),
               kw.get("density", 1.5e-9))
    v, b = got["v_norm"], got["B_norm"]
    for what, a, w, tol in (
            ("Kepler velocity", (v / inp.c_s_on_v_k) ** 2 * r, 6.6743e-8 * m,
             1e-3),
            ("Alfvén velocity", b ** 2 / (4 * np.pi * ρ),
             (inp.v_a_on_c_s * v) ** 2, 1e-10),
            ("density", got["ρ_norm"], ρ, 1e-12),
            ("diffusivity", got["η_norm"], r * v, 1e-4)):
        ctx.check(abs(a / w - 1) < tol, "units:" + what,
                  "{} from the units is {!r}, should be {!r}".format(
                      what, a, w), options=kw, input=vars(inp), units=got)


def first_passage(ys, v):
    """Index of the first value at or beyond v, by a loop"""
    side = None
    for i, x in enumerate(ys):
        if math.isnan(x):
            continue
        if x == v:
            return i
        if side is None:
            side = x < v
        elif (x < v) != side:
            return i
    return None


def searches(ctx, rng, case):
    from disc_solver import utils as u
    n = int(rng.integers(2, 40))
    kind = case % 5
    ys = [lambda: np.sort(rng.normal(size=n)),
          lambda: np.sort(rng.normal(size=n))[::-1].copy(),
          lambda: np.cumsum(rng.normal(size=n)),
          lambda: np.sin(np.linspace(0, rng.uniform(1, 20), n)) + 1,
          lambda: rng.integers(0, 5, n).astype(float)][kind]()
    nans = int(rng.integers(0, 3)) if rng.random() < .3 else 0
    ys[:min(nans, n - 1)] = np.nan
    xs = np.cumsum(rng.uniform(.01, 1, n))
    good = ys[~np.isnan(ys)]
    v = float(rng.choice([good[int(rng.integers(len(good)))],
                          rng.uniform(good.min(), good.max()),
                          good.max() + 1, good.min() - 1]))
    wit = dict(xs=xs, ys=ys, value=v)
    want = first_passage(ys, v)
    ctx.count("searches")
    ctx.observe(("search", kind, nans, want is None, want == 0))
    ok, i = ctx.call("search-raises", u.first_closest_index, ys, v)
    if ok:
        ctx.check(i == want if want is None or i is None else int(i) == want,
                  "first-passage", "first passage at {}, should be {}".format(
                      i, want), **wit)
    ok, x = ctx.call("interpolation-raises", u.interp_for_value, xs=xs, ys=ys,
                     y=v)
    if ok and want is None:
        ctx.check(x is None, "interpolation", "{} found where the value is "
                  "not passed".format(x), **wit)
    elif ok:
        if ys[want] == v:
            w = xs[want]
        else:
            f = (v - ys[want - 1]) / (ys[want] - ys[want - 1])
            w = xs[want - 1] + f * (xs[want] - xs[want - 1])
        ctx.check(x is not None and abs(float(x) - w) <= 1e-9 * abs(w),
                  "interpolation", "passage at {}, should be {}".format(x, w),
                  **wit)
    # closest value
    q = float(rng.choice([rng.uniform(xs[0] - 1, xs[-1]),
                          xs[int(rng.integers(n))]]))
    ok, y = ctx.call("closest-raises", u.get_closest_value_sorted, xs=xs,
                     ys=np.arange(n), x=q)
    if ok:
        ctx.check(abs(xs[int(y)] - q) <= abs(xs - q).min() * (1 + 1e-12),
                  "closest", "value number {} is not the closest".format(y),
                  xs=xs, x=q)
    try:
        y = u.get_closest_value_sorted(xs=xs, ys=np.arange(n), x=xs[-1] + 1)
    except IndexError:
        pass
    else:
        ctx.violation("closest-beyond", "a value ({}) beyond the end was "
                      "found".format(y), xs=xs)
    ok, m = ctx.call("monotonic-raises", u.is_monotonically_increasing, good)
    if ok:
        ctx.check(bool(m) == all(a <= b for a, b in zip(good, good[1:])),
                  "monotonic", "is_monotonically_increasing is {}".format(m),
                  values=good)
    # interpolation over repeated positions: the largest value of each
    pos = np.sort(rng.integers(0, 8, n)).astype(float)
    if len(set(pos)) > 1 and not nans:
        ok, f = ctx.call("deduplicate-raises", u.deduplicate_and_interpolate,
                         pos, ys)
        if ok:
            at = sorted(set(pos))
            top = [ys[pos == p].max() for p in at]
            q = rng.uniform(at[0], at[-1], 5)
            ctx.check(np.allclose(f(q), np.interp(q, at, top), 1e-9, 1e-9),
                      "deduplicate", "interpolation over repeated positions",
                      positions=pos, values=ys, at=q)
    t = float(rng.uniform(-3, 3))
    if abs(math.sin(2 * t)) > 1e-3:
        ctx.check(close(u.cot(t) * math.tan(t), 1.) and close(
            u.sec(t) * math.cos(t), 1.) and close(
                u.cosec(t) * math.sin(t), 1.), "trigonometry",
            "cot, sec or cosec at {}".format(t))


def selections(ctx, rng, case):
    """Solutions of a run chosen by name"""
    from disc_solver.utils import get_solutions
    n = int(rng.integers(1, 14))
    names = [str(i) for i in range(n)]
    if case % 3 == 2:
        # some are gone
        names = ["0"] + sorted({str(int(i)) for i in rng.integers(
            1, 30, n)}, key=int)
    final = rng.random() < .5
    # order of files: by name as text
    solutions = {k: "solution " + k for k in sorted(names)}
    run = SimpleNamespace(solutions=solutions,
                          final_solution="final" if final else None)
    pick = names[int(rng.integers(len(names)))]
    for sel, want in ((None, "solution 0"), (pick, "solution " + pick),
                      ("final", "final" if final else None),
                      ("latest", "final" if final else
                       "solution " + names[-1])):
        ctx.count("selections")
        ok, got = ctx.call("selection-raises", get_solutions, run, sel)
        if ok:
            ctx.check(got == want, "selection:" + str(
                sel if sel in (None, "final", "latest") else "name"),
                "{!r} of {} solutions gives {!r}, should be {!r}".format(
                    sel, n, got, want), final=final)
    ctx.observe(("selection", n, final))
    try:
        got = get_solutions(run, str(n + 33))
    except KeyError:
        return
    except Exception as e:  # noqa
        ctx.violation("selection-missing", "raised {!r}".format(e))
        return
    ctx.violation("selection-missing", "{!r} for a solution which does not "
                  "exist".format(got))


def streams(ctx, rng, case):
    from disc_solver.utils import open_or_stream
    text = "größe {}\n".format(rng.integers(1e6)) * int(rng.integers(1, 50))
    path = ctx.tmp("p26") / "t{}".format(case)
    ctx.count("streams")
    with open_or_stream(str(path), "w", encoding="utf8") as f:
        f.write(text)
    ctx.check(f.closed and path.read_text(encoding="utf8") == text,
              "stream-file", "the file written differs or is left open")
    path.unlink()
    s = io.StringIO()
    with open_or_stream(s, "w") as f:
        f.write(text)
    ctx.check(not s.closed and s.getvalue() == text, "stream-given",
              "a stream given is closed or its text differs")
    with captured() as res:
        with open_or_stream("-", "w") as f:
            f.write(text)
    import sys
    ctx.check(not sys.stdout.closed and res["out"] == text, "stream-stdout",
              "'-' does not write to standard output")
    ctx.observe(("stream", len(text) % 7))


def run(ctx):
    for case in range(ctx.n(1500, 40000)):
        if not ctx.more():
            break
        rng = ctx.subrng("c", case)
        scaling(ctx, rng, case)
        cylinder(ctx, rng, case)
        searches(ctx, rng, case)
        units(ctx, rng, case)
        if case % 4 == 0:
            refused(ctx, rng, case)
            selections(ctx, rng, case)
        if case % 20 == 0:
            streams(ctx, rng, case)
