"""
P10: what is read from a run file is what was written.

Monitor: the content of every solution is recorded when it is handed to the
run; an offline comparison replays the record against the file, read with and
without caching, after a normal end and after a fault at each point.
"""
import os

from vp import ff

PROPERTY = "P10"
RULE = ("random runs (all optional fields, empty and partial arrays, text with "
        "non-ASCII characters, NaN and inf) with 0-6 solutions, ended normally "
        "or by an exception after any number of solutions, read with and "
        "without caching, plus real runs; distinct by number of solutions, "
        "ending, reading mode and which optional fields are set")
MIN_NONTRIVIAL = 60
MIN_COUNTERS = {"solutions_compared": 200, "interrupted_files": 10,
                "real_runs": 4}


class Fault(Exception):
    pass


def read_modes():
    return ("cache", "no_cache", "closed")


def load(path, mode, use):
    """Open path in mode; call use(run) with the file in the right state"""
    from h5preserve import open as h5open
    from disc_solver.file_format import registries
    if mode == "no_cache":
        os.environ["NO_CACHE"] = "True"
    try:
        with h5open(path, registries, mode="r") as f:
            run = f["run"]
            if mode != "closed":
                return use(run)
            # solutions loaded while open are usable afterwards
            for key in list(run.solutions):
                run.solutions[key]
            run.final_solution
        return use(run)
    finally:
        os.environ.pop("NO_CACHE", None)


def compare(ctx, run, expected_run, expected, final, tag, complete=True):
    def report(sig, what, **k):
        ctx.violation(sig, what + " ({})".format(tag), **k)
    d = ff.diff(expected_run, ff.plain(run))
    if d:
        report("run-fields", "run fields differ after reading: {}".format(d))
    names = sorted(run.solutions, key=int)
    if names != [str(i) for i in range(len(expected))]:
        report("solution-names", "names {} for {} solutions".format(
            names, len(expected)))
        return
    for i, exp in enumerate(expected):
        for again in range(2):
            got = ff.plain(run.solutions[str(i)])
            d = ff.diff(exp, got)
            ctx.count("solutions_compared")
            if d:
                report("solution-content", "solution {} read {} times differs "
                       "at {}".format(i, again + 1, d))
                break
    if final is None:
        if run.final_solution is not None:
            report("final-solution", "unexpected final solution")
    else:
        if run.final_solution is None:
            report("final-solution", "final solution lost")
        else:
            d = ff.diff(expected[final], ff.plain(run.final_solution))
            if d:
                report("final-solution", "final solution is not solution {}: "
                       "{}".format(final, d))


def synthetic(ctx, case):
    from h5preserve import open as h5open
    from disc_solver.file_format import registries
    rng = ctx.subrng("syn", case)
    run = ff.rand_run(rng)
    expected_run = ff.plain(run)
    n = int(rng.integers(0, 7))
    solns = [ff.rand_solution(rng) for _ in range(n)]
    fault_at = int(rng.integers(0, n + 1)) if case % 3 == 0 else None
    how = str(rng.choice(["finalise", "explicit", "none"]))
    if n == 0 or fault_at is not None:
        how = "none"
    final = None
    expected = []
    path = ctx.tmp("p10") / "r.hdf5"
    # add in the open file or before the file gets the run
    before = int(rng.integers(0, n + 1)) if rng.random() < .3 and (
        fault_at is None) else 0
    for s in solns[:before]:
        expected.append(ff.plain(s))
        run.solutions.add_solution(s)
    names = []
    try:
        with h5open(path, registries, mode="x") as f:
            f["run"] = run
            for i, s in enumerate(solns[before:], before):
                if fault_at == i:
                    raise Fault
                expected.append(ff.plain(s))
                names.append((i, run.solutions.add_solution(s)))
                # an in-process reader sees the same
                if rng.random() < .3:
                    d = ff.diff(expected[-1], ff.plain(
                        run.solutions[str(i)]))
                    ctx.check(not d, "in-process-content", "solution read "
                              "during the run differs at {}".format(d))
            if fault_at == n:
                raise Fault
            if how == "finalise":
                run.finalise()
                final = n - 1
            elif how == "explicit":
                final = int(rng.integers(n))
                run.final_solution = run.solutions[str(final)]
                run.finalise()
    except Fault:
        ctx.count("interrupted_files")
    ctx.check(all(str(i) == str(name) for i, name in names),
              "returned-name", "add_solution returned {}".format(names))
    for mode in read_modes():
        tag = "{} solutions, {}, {}".format(
            n, "fault at {}".format(fault_at) if fault_at is not None else
            how, mode)
        ok, _ = ctx.call(
            "file-unreadable", load, path, mode, lambda run: compare(
                ctx, run, expected_run, expected, final, tag))
        ctx.observe((n, how, fault_at is not None, mode,
                     expected_run["is_post_shock_only"], bool(before),
                     tuple(sorted(k for k, v in expected_run[
                         "config_input"].items() if v in (None, "None")))),
                    dict(solutions=n, ending=how, fault_at=fault_at,
                         mode=mode))
    path.unlink()


def real(ctx, case):
    """Real solvers with the record taken when solutions are added"""
    from disc_solver.solve import solve
    rng = ctx.subrng("real", case)
    Solutions = type(ff.rand_run(rng).solutions)
    method = ["single", "step", "hydrostatic", "mod_hydro"][case % 4]
    o = dict(num_angles="300", max_steps="4000")
    if case % 4 == 0:
        o.update(use_E_r="True") if rng.random() < .5 else None
    if case >= 4:
        o.update(γ=repr(float(rng.uniform(5e-4, 2e-3))))
    log = []
    orig = Solutions.__setitem__

    def record(self, key, val):
        log.append((str(key), ff.plain(val)))
        return orig(self, key, val)
    d = ctx.tmp("real")
    kwargs = dict(num_attempts=4) if method == "step" else {}
    fault = case % 5 == 4
    if fault:
        from disc_solver.file_format import Run
        orig_final = Run.finalise

        def boom(self):
            raise Fault
        Run.finalise = boom
    Solutions.__setitem__ = record
    try:
        path, _ = solve(
            output_file="r.hdf5", sonic_method=method, config_file=None,
            output_dir=d, store_internal=bool(case % 2), overrides=o,
            **kwargs)
    except Fault:
        path = d / "r.hdf5"
        ctx.count("interrupted_files")
    finally:
        Solutions.__setitem__ = orig
        if fault:
            Run.finalise = orig_final
    ctx.count("real_runs")

    def use(run):
        by_name = dict(log)
        ctx.check(sorted(by_name) == sorted(run.solutions),
                  "real-run-names", "recorded {} read {}".format(
                      sorted(by_name), sorted(run.solutions)))
        ctx.check(len(by_name) == len(log), "solution-overwritten",
                  "a name was used twice: {}".format([k for k, _ in log]))
        for name in run.solutions:
            if name in by_name:
                dd = ff.diff(by_name[name], ff.plain(run.solutions[name]))
                ctx.count("solutions_compared")
                ctx.check(not dd, "real-solution-content",
                          "{} solution {} differs from what was recorded at "
                          "{}".format(method, name, dd))
        if run.final_solution is not None:
            fin = ff.plain(run.final_solution)
            ctx.check(any(not ff.diff(v, fin) for v in by_name.values()),
                      "real-final", "final solution is none of the recorded "
                      "ones")
        ctx.observe(("real", method, case % 2, len(log)))
    for mode in read_modes():
        ctx.call("file-unreadable", load, path, mode, use)


def run(ctx):
    for case in range(ctx.n(90, 1500)):
        if not ctx.more():
            break
        synthetic(ctx, case)
    for case in range(ctx.n(6, 30)):
        if not ctx.more():
            break
        real(ctx, case)
