"""
P16: the parallel runners solve every input once and lose no result.

Monitor: solvers registered under the usual names log every start and end with
the process; delays and failures are injected per input. The log (exactly
once), the rows written by the CSV runner (order, contents) and the run files
of the HDF5 runner are compared with what was asked for.
"""
import csv
import os
import time

import numpy as np

from vp import ff, gen
from vp.cli import captured, run_cli

PROPERTY = "P16"
RULE = ("lists of inputs with and without overrides, labels and sources, 1 to "
        "6 workers, random delays so that inputs end in any order, solvers "
        "which fail, find nothing or raise; distinct by runner, number of "
        "workers, outcomes and order of completion")
MIN_NONTRIVIAL = 12
MIN_COUNTERS = {"inputs": 80, "rows": 25, "files": 30, "overtaken": 10,
                "parallel": 5, "failures": 10, "aborts": 2}

# these depend on the schedule
TIMED = ("overtaken", "aborts")

FIXED = dict(start="0", stop=".1", num_angles="20", max_steps="60",
             η_derivs="False")


def inputs(rng, n):
    """Inputs, told apart by γ"""
    out = []
    for i in range(n):
        o = gen.overrides(rng, **FIXED)
        o["γ"] = repr(float(o["γ"]) + 1e-7 * i)
        out.append(o)
    return out


def write_csv(rng, path, rows, sources):
    from disc_solver.file_format import SOLUTION_INPUT_FIELDS
    full = []
    for o in rows:
        full.append(dict(gen.make_input(o).asdict()))
    header = list(SOLUTION_INPUT_FIELDS)
    if sources:
        header += ["filename", "solution_name"]
        for i, r in enumerate(full):
            r.update(filename="f{}.hdf5".format(i), solution_name=str(i))
    with open(path, "w", newline="", encoding="utf8") as f:
        if rng.random() < .5:
            f.write("# comment\n")
        w = csv.DictWriter(f, fieldnames=header, dialect="unix")
        w.writeheader()
        for r in full:
            w.writerow(r)


class Plan:
    """Solver which follows a plan and logs what it does"""
    def __init__(self, log, real, plan, delays):
        self.log, self.real = log, real
        self.plan, self.delays = plan, delays

    def note(self, *what):
        fd = os.open(self.log, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
        os.write(fd, (" ".join(map(str, what)) + "\n").encode())
        os.close(fd)

    def __call__(self, inp, run, *, store_internal=True, **kw):
        from disc_solver.solve.utils import SolverError
        key = repr(float(inp.γ))
        self.note("start", key, os.getpid(), time.monotonic())
        time.sleep(self.delays.get(key, 0))
        what = self.plan.get(key, "solve")
        try:
            if what == "fail":
                raise SolverError("planned failure")
            if what == "crash":
                raise RuntimeError("planned crash")
            if what == "nothing":
                run.final_solution = None
                return False
            if what == "none":
                run.final_solution = None
                return True
            if what == "open":  # solutions, of which none is final
                self.real(inp, run, store_internal=store_internal,
                          no_final_solution=True, **kw)
                return True
            return self.real(inp, run, store_internal=store_internal, **kw)
        finally:
            self.note("end", key, os.getpid(), time.monotonic())


def events(log):
    out = {"start": [], "end": []}
    if os.path.exists(log):
        for line in open(log):
            kind, key, pid, t = line.split()
            out[kind].append((key, pid, float(t)))
    return out


def once(ctx, log, keys, workers, tag):
    ev = events(log)
    for kind in ("start", "end"):
        ctx.check(sorted(k for k, *_ in ev[kind]) == sorted(keys), "once",
                  "inputs {}ed: {} of {}".format(kind, len(ev[kind]), len(
                      keys)), tag=tag)
    ctx.count("inputs", len(ev["start"]))
    pids = {p for _, p, _ in ev["start"]}
    ctx.check(len(pids) <= workers and str(os.getpid()) not in pids,
              "workers", "{} processes for {} workers".format(len(
                  pids), workers), tag=tag)
    if len(pids) > 1:
        ctx.count("parallel")
    begun = [k for k, *_ in sorted(ev["start"], key=lambda e: e[2])]
    ended = [k for k, *_ in sorted(ev["end"], key=lambda e: e[2])]
    ctx.count("overtaken", sum(begun.index(a) > begun.index(b)
                               for a, b in zip(ended, ended[1:])))
    return tuple(begun.index(k) for k in ended if k in begun)


def scenario(ctx, rng, crash=False):
    n = int(rng.integers(2, 10))
    rows = inputs(rng, n)
    kinds = ["solve"] * 4 + ["fail", "nothing", "none", "open"]
    keys = [repr(float(o["γ"])) for o in rows]
    plan = {k: str(rng.choice(kinds)) for k in keys}
    if crash:
        plan[keys[int(rng.integers(n))]] = "crash"
    delays = {k: float(rng.choice([0, .01, .05, .12])) for k in keys}
    if rng.random() < .4:
        delays[keys[0]] = .3
    return rows, keys, plan, delays


def solvable(o):
    """The stored input of a solution, or None when there is none"""
    from disc_solver.solve.config import define_conditions
    from disc_solver.solve.utils import SolverError
    inp = gen.make_input(o)
    try:
        define_conditions(inp)
    except SolverError:
        return None
    return inp


def expected_rows(ctx, rows, keys, plan, over):
    out = []
    for o, k in zip(rows, keys):
        if plan[k] != "solve":
            ctx.count("failures")
            continue
        inp = solvable(dict(o, **over))
        if inp is not None:
            out.append(inp)
    return out


def patched(plan, method):
    from unittest import mock
    from disc_solver.solve import SONIC_METHOD_MAP
    return mock.patch.dict(SONIC_METHOD_MAP, {method: plan})


def same_input(a, b):
    a, b = ff.plain(a), ff.plain(b)
    return not ff.diff(a, b)


def check_csv(ctx, case):
    from disc_solver.solve import SONIC_METHOD_MAP
    from disc_solver.solve.csvrunner import csvrunner
    from disc_solver.solve.utils import get_csv_inputs
    from disc_solver.file_format import ConfigInput
    rng = ctx.subrng("csv", case)
    crash = case % 5 == 4
    rows, keys, plan, delays = scenario(ctx, rng, crash)
    d = ctx.tmp("csv")
    write_csv(rng, d / "in.csv", rows, rng.random() < .4)
    over = {"v_a_on_c_s": "0.8125"} if rng.random() < .4 else {}
    workers = int(rng.integers(1, 7))
    method = str(rng.choice(["single", "step"]))
    log = str(d / "log")
    out = d / "out.csv"
    p = Plan(log, SONIC_METHOD_MAP["single"], plan, delays)
    tag = dict(case=case, workers=workers, plan=[plan[k] for k in keys],
               delays=[delays[k] for k in keys])
    exc = None
    with patched(p, method):
        if case % 2:
            argv = [d / "in.csv", "--nworkers", workers, "--output-file", out,
                    "--sonic-method", method]
            for k, v in over.items():
                argv += ["--override", k, v]
            r = run_cli("ds-csvrunner", argv)
            exc = r.exc
        else:
            with captured():
                try:
                    csvrunner(output_file=out, input_file=d / "in.csv",
                              nworkers=workers, store_internal=False,
                              sonic_method=method, overrides=over)
                except Exception as e:  # noqa
                    exc = e
    order = once(ctx, log, keys, workers, tag)
    want = expected_rows(ctx, rows, keys, plan, over)
    if crash:
        ctx.count("aborts")
        ctx.check(isinstance(exc, RuntimeError), "crash-hidden",
                  "a crash of the solver is not reported: {!r}".format(exc),
                  tag=tag)
        first = keys.index([k for k in keys if plan[k] == "crash"][0])
        want = expected_rows(ctx, rows[:first], keys[:first], plan, over)
    elif not ctx.check(exc is None, "csvrunner", "csvrunner: {!r}".format(
            exc), tag=tag):
        return
    ok, got = ctx.call("output-unreadable", get_csv_inputs, str(out))
    if not ok:
        return
    got = [dict(r) for r in got]
    ctx.count("rows", len(got))
    if ctx.check(len(got) == len(want), "rows", "{} rows for {} results"
                 .format(len(got), len(want)), tag=tag):
        for i, (r, w) in enumerate(zip(got, want)):
            r.pop("label", None)
            s = ConfigInput(label="", **r).to_soln_input()
            ctx.check(same_input(s, w), "row", "row {} is not the result for "
                      "its input: {}".format(i, ff.diff(ff.plain(
                          s), ff.plain(w))), tag=tag)
    head = out.read_text(encoding="utf8")
    ctx.check(method in head.split('"')[0], "metadata", "no metadata of the "
              "method", tag=tag)
    ctx.observe(("csv", workers, tuple(plan[k] for k in keys), order), tag)


def check_hdf(ctx, case):
    from disc_solver.solve import SONIC_METHOD_MAP
    from disc_solver.solve.hdf5runner import hdf5runner
    from disc_solver.solve.config import define_conditions
    from disc_solver.solve.solution import solution
    from h5preserve import open as h5open
    from disc_solver.file_format import registries
    rng = ctx.subrng("hdf", case)
    rows, keys, plan, delays = scenario(ctx, rng)
    d = ctx.tmp("hdf")
    (d / "o").mkdir()
    sources = bool(rng.random() < .5)
    write_csv(rng, d / "in.csv", rows, sources)
    over = {"v_a_on_c_s": "0.8125"} if rng.random() < .4 else {}
    workers = int(rng.integers(1, 7))
    label = str(rng.choice(["", "lab", "é x"]))
    log = str(d / "log")
    internal = bool(rng.random() < .5)
    p = Plan(log, SONIC_METHOD_MAP["single"], plan, delays)
    tag = dict(case=case, workers=workers, plan=[plan[k] for k in keys],
               label=label)
    with patched(p, "single"):
        if case % 2:
            argv = [d / "in.csv", "-n", workers, "--output-dir", d / "o",
                    "--label", label, "--sonic-method", "single",
                    "--store-internal" if internal else "--no-store-internal"]
            for k, v in over.items():
                argv += ["--override", k, v]
            r = run_cli("ds-hdf5runner", argv)
            exc = r.exc
        else:
            exc = None
            with captured():
                try:
                    hdf5runner(input_file=d / "in.csv", nworkers=workers,
                               output_dir=d / "o", store_internal=internal,
                               sonic_method="single", overrides=over,
                               label=label)
                except Exception as e:  # noqa
                    exc = e
    order = once(ctx, log, keys, workers, tag)
    if not ctx.check(exc is None, "hdf5runner", "hdf5runner: {!r}".format(
            exc), tag=tag):
        return
    found = {}
    files = sorted((d / "o").iterdir())
    for path in files:
        ctx.count("files")
        ok, f = ctx.call("file-unreadable", h5open, path, registries,
                         mode="r")
        if not ok:
            continue
        with f:
            run = f["run"]
            sols = [run.solutions[k] for k in run.solutions]
            final = run.final_solution
        found.setdefault(repr(float(run.config_input.to_soln_input().γ)),
                         []).append((path, run, sols, final))
    ctx.check(sorted(found) == sorted(keys) and len(files) == len(keys),
              "files", "{} files for {} inputs".format(len(files), len(keys)),
              tag=tag)
    for i, (o, k) in enumerate(zip(rows, keys)):
        for path, run, sols, final in found.get(k, []):
            inp = gen.make_input(dict(o, **over))
            ctx.check(path.name.startswith(label) and
                      run.config_input.label == label, "label",
                      "label of {}".format(path.name), tag=tag)
            ctx.check(same_input(run.config_input.to_soln_input(), inp),
                      "config", "the configuration is not that of the input: "
                      "{}".format(ff.diff(ff.plain(
                          run.config_input.to_soln_input()), ff.plain(inp))),
                      tag=tag)
            ctx.check(run.sonic_method == "single", "method", "sonic method "
                      "{}".format(run.sonic_method), tag=tag)
            exp = ("f{}.hdf5".format(i), str(i)) if sources else (None, None)
            ctx.check((run.based_on_solution_filename,
                       run.based_on_solution_solution_name) == exp,
                      "based-on", "source is not recorded", tag=tag)
            good = plan[k] in ("solve", "open") and solvable(dict(o, **over)) is not \
                None
            if not ctx.check((len(sols) == 1 and final is not None) if good
                             else not sols and final is None, "contents",
                             "{} solutions for the outcome {}".format(
                                 len(sols), plan[k]), tag=tag) or not good:
                if not good:
                    ctx.count("failures")
                continue
            ref = solution(inp, define_conditions(inp), store_internal=False)
            ctx.check(np.array_equal(ref.angles, sols[0].angles) and
                      np.array_equal(ref.solution, sols[0].solution) and
                      np.array_equal(final.solution, ref.solution) and
                      (sols[0].internal_data is not None) == internal,
                      "result", "the solution is not that of the input",
                      tag=tag)
    ctx.observe(("hdf", workers, tuple(plan[k] for k in keys), order), tag)


def run(ctx):
    for case in range(ctx.n(24, 400)):
        if not ctx.more():
            return
        check_csv(ctx, case)
        check_hdf(ctx, case)
