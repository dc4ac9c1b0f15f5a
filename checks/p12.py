"""
P12: the containers of a run behave as the collections they stand for.

Monitor: random operation histories run against the real containers (in
memory and bound to an open file) and a plain model; every answer is compared.
"""
import numpy as np

from vp import ff

PROPERTY = "P12"
RULE = ("random histories of up to 40 operations on Run, Solutions, Problems, "
        "InternalData and InitialConditions; distinct by the sequence of "
        "operations")
MIN_NONTRIVIAL = 60
MIN_COUNTERS = {"operations": 800, "more_than_ten_solutions": 8,
                "additions": 60, "problem_operations": 300}


def small_solution(rng):
    s = ff.rand_solution(rng)
    if rng.random() < .7:
        s.internal_data = None
    return s


def history(ctx, case):
    from h5preserve import open as h5open
    from disc_solver.file_format import registries, Solution
    rng = ctx.subrng("hist", case)
    run = ff.rand_run(rng)
    on_file = case % 2 == 1
    path = ctx.tmp("p12") / "r.hdf5"
    if on_file:
        with h5open(path, registries, mode="x") as f:
            f["run"] = run
            operate(ctx, rng, run, True, Solution)
        path.unlink()
    else:
        operate(ctx, rng, run, False, Solution)


def operate(ctx, rng, run, on_file, Solution):
    from disc_solver.utils import get_solutions
    model, final, done = [], None, []
    fields = ff.plain(run)

    def same(sig, what, exp, got):
        d = ff.diff(exp, ff.plain(got))
        ctx.check(not d, sig, "{} differs at {} after {}".format(
            what, d, done))

    n_ops = int(rng.integers(5, 40))
    weights = [.3, .15, .15, .1, .05, .05, .1, .1] if rng.random() < .6 else [
        .8, .03, .03, .03, .02, .02, .04, .03]
    for _ in range(n_ops):
        op = str(rng.choice(
            ["add", "get", "last", "names", "final", "finalise", "range",
             "child"], p=weights))
        done.append(op)
        ctx.count("operations")
        if op == "add":
            s = small_solution(rng)
            exp = ff.plain(s)
            ok, name = ctx.call("add-solution", run.solutions.add_solution, s)
            if not ok:
                return
            ctx.check(str(name) == str(len(model)), "solution-name",
                      "solution {} named {}".format(len(model), name))
            model.append(exp)
        elif op == "get" and model:
            i = int(rng.integers(len(model)))
            same("solution-content", "solution {}".format(i), model[i],
                 run.solutions[str(i)])
        elif op == "last" and model:
            same("last-solution", "last of {} solutions".format(len(model)),
                 model[-1], run.solutions.get_last_solution())
        elif op == "names":
            ctx.check(sorted(run.solutions, key=int) == [
                str(i) for i in range(len(model))] and len(
                    run.solutions) == len(model), "solution-names",
                "names {} of {}".format(list(run.solutions), len(model)))
            for missing in ("-1", str(len(model)), "x"):
                try:
                    run.solutions[missing]
                except KeyError:
                    continue
                ctx.violation("missing-solution", "no KeyError for {} of {}"
                              .format(missing, len(model)))
        elif op == "final" and model:
            i = int(rng.integers(len(model)))
            try:
                run.final_solution = run.solutions[str(i)]
            except RuntimeError:
                ctx.check(final is not None, "final-refused", "could not set "
                          "the final solution after {}".format(done))
            else:
                ctx.check(final is None, "final-changed",
                          "final solution set twice after {}".format(done))
                final = i
        elif op == "finalise" and model:
            ok, _ = ctx.call("finalise", run.finalise)
            if ok and final is None:
                final = len(model) - 1
        elif op == "range" and model:
            i = int(rng.integers(len(model)))
            same("get-solutions", "solution by name", model[i],
                 get_solutions(run, str(i)))
            same("get-solutions", "default solution", model[0],
                 get_solutions(run, None))
            if final is not None:
                same("get-solutions", "latest solution", model[final],
                     get_solutions(run, "latest"))
        elif op == "child":
            child = run.create_shock_run(filename="f", solution_name="2")
            c = ff.plain(child)
            d = set(ff.diff(fields, c))
            ctx.check(d <= {"/is_post_shock_only",
                            "/based_on_solution_filename",
                            "/based_on_solution_solution_name"} and
                      child.is_post_shock_only and
                      child.based_on_solution_filename == "f" and
                      child.based_on_solution_solution_name == "2",
                      "shock-run", "fields {} changed".format(d))
            ctx.check(len(child.solutions) == 0 and not isinstance(
                child.final_solution, Solution), "shock-run",
                "solutions of the original in the new run")
            s = small_solution(rng)
            child.solutions.add_solution(s)
            child.finalise()
            ctx.check(len(run.solutions) == len(model), "shock-run",
                      "adding to the new run changed the original")
        if final is not None:
            same("final-solution", "final solution ({})".format(final),
                 model[final], run.final_solution)
            if op in ("final", "finalise"):
                same("final-solution", "get_solutions final", model[final],
                     get_solutions(run, "final"))
        elif isinstance(run.final_solution, Solution):
            ctx.violation("final-solution", "final solution appeared after "
                          "{}".format(done))
    if len(model) > 10:
        ctx.count("more_than_ten_solutions")
        same("last-solution", "last of {} solutions".format(len(model)),
             model[-1], run.solutions.get_last_solution())
    same("run-fields", "fields of the run", fields, run)
    ctx.observe((tuple(done), on_file), dict(operations=done,
                                             on_file=on_file))


def problems(ctx, case):
    from disc_solver.file_format import Problems
    rng = ctx.subrng("prob", case)
    real, model = Problems(), {}
    keys = [.1, "0.1", 0, "0", 1e-9, np.float64(.3), "x"]
    done = []

    def state(p):
        return {str(k): list(v) for k, v in p.items() if len(v)}
    for _ in range(int(rng.integers(3, 30))):
        ctx.count("problem_operations")
        k = keys[int(rng.integers(len(keys)))]
        op = str(rng.choice(["append", "extend", "read", "copy", "update"]))
        done.append(op)
        if op == "append":
            real[k] = "p{}".format(len(done))
            model.setdefault(str(k), []).append("p{}".format(len(done)))
        elif op == "extend":
            real[k] = ["a", "b"]
            model.setdefault(str(k), []).extend(["a", "b"])
        elif op == "read":
            ctx.check(list(real[k]) == model.get(str(k), []), "problems",
                      "problems at {}: {} after {}".format(
                          k, real[k], done))
        elif op == "copy":
            other = Problems(**dict(real))
            before = state(real)
            other[k] = "only in copy"
            ctx.check(state(real) == before, "problems-copy", "changing a "
                      "copy changed the original")
        elif op == "update":
            other = Problems()
            other[k] = "other"
            real.update(other)
            model.setdefault(str(k), []).append("other")
            other[k] = "later"
        ctx.check(state(real) == {k: v for k, v in model.items() if v},
                  "problems", "problems are {} instead of {}".format(
                      state(real), model))
    ctx.observe(("problems", tuple(done)))


ARRAYS = ("derivs", "params", "angles", "v_r_normal", "v_φ_normal",
          "ρ_normal", "v_r_taylor", "v_φ_taylor", "ρ_taylor")
JARRAYS = ("jacobians", "derivs", "params", "angles")


def arrays(x):
    ff.plain(x)  # empty lists become arrays, as when written
    out = {k: np.array(getattr(x, k), copy=True) for k in ARRAYS}
    out.update({"j_" + k: np.array(getattr(x.jacobian_data, k), copy=True)
                for k in JARRAYS})
    return out


def eq(a, b):
    return a.shape == b.shape and np.array_equal(a, b, equal_nan=True)


def probs(x):
    return {str(k): list(v) for k, v in x.problems.items() if len(v)}


def internal(ctx, case):
    rng = ctx.subrng("int", case)
    a, b = ff.rand_internal(rng), ff.rand_internal(rng)
    pa, pb = probs(a), probs(b)
    aa, ab = arrays(a), arrays(b)
    ok, c = ctx.call("internal-add", lambda: a + b)
    if not ok:
        return
    ctx.count("additions")
    ac = arrays(c)
    for k in aa:
        ctx.check(eq(ac[k], np.concatenate((aa[k], ab[k]))),
                  "internal-add", "{} of a sum is not the concatenation"
                  .format(k))
        ctx.check(eq(arrays(a)[k], aa[k]) and eq(arrays(b)[k], ab[k]),
                  "internal-add-operand", "adding changed {}".format(k))
    merged = {k: pa.get(k, []) + pb.get(k, []) for k in set(pa) | set(pb)}
    ctx.check(probs(c) == merged, "internal-add-problems",
              "problems {} of {} and {}".format(probs(c), pa, pb))
    c.problems["new"] = "z"
    ctx.check(probs(a) == pa and probs(b) == pb, "internal-add-operand",
              "problems of a sum are shared with an operand")
    ok, d = ctx.call("internal-flip", c.flip)
    if ok:
        ad = arrays(d)
        for k in ac:
            ctx.check(eq(ad[k], ac[k][::-1]), "internal-flip",
                      "{} is not reversed by flip".format(k))
        ok, e = ctx.call("internal-flip", d.flip)
        if ok:
            ae = arrays(e)
            ctx.check(all(eq(ae[k], ac[k]) for k in ac), "internal-flip",
                      "flip twice is not the identity")
    ctx.observe(("internal", case, len(aa["angles"]), len(ab["angles"]),
                 len(aa["j_angles"]), len(ab["j_angles"])))


def initial(ctx, case):
    from disc_solver.file_format import InitialConditions
    rng = ctx.subrng("init", case)
    y = rng.normal(size=11)
    common = dict(norm_kepler_sq=2., γ=.01, angles=np.arange(4.), a_0=.3)
    full = InitialConditions(init_con=y.copy(), **common)
    short = InitialConditions(init_con=y[:8].copy(), η_O=y[8], η_A=y[9],
                              η_H=y[10], **common)
    for x in (full, short):
        ctx.check(eq(np.asarray(x.init_con), y) and x.η_O == y[8] and
                  x.η_A == y[9] and x.η_H == y[10], "initial-diffusivities",
                  "diffusivities of initial conditions are inconsistent")
    before = ff.plain(full)
    y2 = rng.normal(size=11)
    angles = np.linspace(1, 2, 7)
    mod = full.create_modified(init_con=y2, angles=angles)
    ctx.check(not ff.diff(ff.plain(full), before), "modified-shared",
              "create_modified changed the original")
    ctx.check(eq(np.asarray(mod.init_con), y2) and eq(mod.angles, angles) and
              mod.η_O == y2[8] and mod.η_A == y2[9] and mod.η_H == y2[10] and
              mod.a_0 == .3 and mod.γ == .01 and mod.norm_kepler_sq == 2.,
              "modified-fields", "create_modified lost a field")
    try:
        InitialConditions(init_con=y, η_O=y[8] + 1, **common)
    except RuntimeError:
        pass
    else:
        ctx.violation("initial-inconsistent", "inconsistent diffusivities "
                      "were accepted")
    ctx.observe(("initial", case))


def run(ctx):
    for case in range(ctx.n(80, 1500)):
        if not ctx.more():
            break
        history(ctx, case)
        problems(ctx, case)
        internal(ctx, case)
        if case < 200:
            initial(ctx, case)
