"""
P25: the commands do what their options and the functions behind them say.

Monitor: every figure which is written to a file while a command runs is
recorded (by a hook on matplotlib, not on the commands) and compared with what
the options ask for and with the figure of the function behind the command
called directly with the same settings.
"""
import importlib
import os
import re

import numpy as np

from vp import physics as ph, synth
from vp.core import SRC
from vp.cli import run_cli, captured, table, entry

PROPERTY = "P25"
RULE = ("every command with random options on made-up run files; distinct by "
        "command and set of options")
MIN_NONTRIVIAL = 60
MIN_COUNTERS = {"commands": 30, "figures": 30, "styled": 10, "logs": 3,
                "lists": 6, "levels": 9, "refused": 30, "skipped": 3}


def flag(o):
    return ["--" + o.replace("_", "-")], {o: True}


# command: module, function, flags, further options, internal data, several
SINGLE = {
    "ds-plot": ("plot", "plot", ["with_slow", "with_alfven", "with_fast",
                                 "with_sonic", "portrait", "hide_roots",
                                 "hide_sonic_angle"], ["v_θ"], 0),
    "ds-combine-plot": ("combine_plot", "combine_plot", [
        "with_slow", "with_alfven", "with_fast", "with_sonic"], [], 0),
    "ds-component-plot": ("component_plot", "plot", [], ["only"], 0),
    "ds-j-e-plot": ("j_e_plot", "j_e_plot", [], [], 0),
    "ds-derivs-plot": ("derivs_plot", "derivs_plot", ["nolog"], [], 1),
    "ds-params-plot": ("params_plot", "params_plot", [], [], 1),
    "ds-surface-density-plot": ("surface_density_plot",
                                "surface_density_plot", [], [], 0),
    "ds-taylor-plot": ("taylor_plot", "taylor_plot", ["show_values"], [], 1),
    "ds-vert-plot": ("vert_plot", "plot", ["with_sonic"], [], 0),
    "ds-acc-plot": ("acc_plot", "acc_plot", [], [], 0),
    "ds-validate-plot": ("validate_plot", "validate_plot", [], [], 1),
    "ds-hydro-check-plot": ("hydro_check_plot", "hydro_check_plot", [], [],
                            1),
    "ds-jacobian-eigenvalue-plot": (
        "compute_jacobian", "jacobian_eigenvalues_plot", [], ["eps"], 0),
    "ds-jacobian-eigenvector-plot": (
        "compute_jacobian", "jacobian_eigenvectors_plot", [], ["eps"], 0),
    "ds-jacobian-eigennorm-plot": (
        "compute_jacobian", "jacobian_eigenvector_norm_plot", [], ["eps"],
        0),
    "ds-eigenvector-coef-plot": (
        "compute_jacobian", "jacobian_eigenvector_coef_plot", [],
        ["eps", "critical_point", "eigvecs"], 0),
}
MULTI = {
    "ds-compare-plot": ("compare_plot", "compare_plot", [], ["v_θ"], 0),
    "ds-sonic-ratio-plot": ("sonic_ratio_plot", "plot", [], [], 0),
    "ds-phys-ratio-plot": ("phys_ratio_plot", "plot", [], [], 0),
    "ds-v-deriv-plot": ("v_deriv_cmp", "plot", [], [], 1),
}

# what is shown of the log, and how one asks for this
STDERR = [
    (["WARNING", "DEBUG"], ["--verbose"]), ([], ["--quiet"]),
    (["WARNING"], []), (["WARNING", "DEBUG"], ["--stderr-level", "debug"]),
    (["WARNING", "DEBUG"], ["-v"]), ([], ["-q"]),
    ([], ["--stderr-level", "error"])]


class Saved:
    """Fingerprints of the figures which are saved"""
    def __enter__(self):
        from matplotlib.figure import Figure
        self.figures = []
        self.cls, self.orig = Figure, Figure.savefig
        saved = self

        def savefig(fig, fname, *args, **kw):
            saved.figures.append((str(fname), fingerprint(fig)))
            return saved.orig(fig, fname, *args, **kw)
        Figure.savefig = savefig
        return self

    def __exit__(self, *exc):
        self.cls.savefig = self.orig


def fingerprint(fig):
    axes = []
    for ax in fig.axes:
        lines = []
        for l in ax.get_lines():
            lines.append((
                np.array(l.get_xdata(), dtype=float).ravel(),
                np.array(l.get_ydata(), dtype=float).ravel(),
                str(l.get_linestyle()), str(l.get_label()),
                str(l.get_color())))
        axes.append(dict(
            title=ax.get_title(), x=ax.get_xlabel(), y=ax.get_ylabel(),
            scale=(ax.get_xscale(), ax.get_yscale()), lines=lines,
            legend=ax.get_legend() is not None))
    return dict(
        axes=axes, title=fig._suptitle.get_text() if fig._suptitle else None,
        size=tuple(np.round(fig.get_size_inches(), 6)),
        texts=[t.get_text() for t in fig.texts if t is not fig._suptitle])


def same(a, b, style=True):
    """What differs between two fingerprints (None if nothing)"""
    for k in ("title", "size", "texts"):
        if a[k] != b[k]:
            return k
    if len(a["axes"]) != len(b["axes"]):
        return "number of axes"
    for p, q in zip(a["axes"], b["axes"]):
        for k in ("title", "x", "y", "scale", "legend"):
            if p[k] != q[k]:
                return "axis " + k
        if len(p["lines"]) != len(q["lines"]):
            return "number of lines"
        for s, t in zip(p["lines"], q["lines"]):
            if s[0].shape != t[0].shape or not (
                    np.allclose(s[0], t[0], 1e-9, 0, equal_nan=True)
                    and np.allclose(s[1], t[1], 1e-7, 1e-300,
                                    equal_nan=True)):
                return "data"
            if style and s[2] != t[2]:
                return "line style"
            if not s[3].startswith("_") and s[3] != t[3]:
                return "label"
            if s[4] != t[4]:
                return "colour"
    return None


def settings(ctx, name, case, rng, window, spec):
    """argv, equivalent keyword arguments; what one case leaves out the next
    one gives, so that every option is both given and left to its default"""
    _, _, flags, others, _ = spec
    argv, kw = [], {}
    turn = ctx.subrng("turns", name, case // 2)

    def given():
        return bool(turn.random() < .5) != bool(case % 2)

    for o in flags:
        if given():
            argv += flag(o)[0]
            kw.update(flag(o)[1])
    for o in others:
        if not given():
            if o == "eps":
                kw["eps"] = 1e-10
            continue
        if o == "v_θ":
            v = str(rng.choice(["log", "linear"]))
            argv += ["--v_θ", v]
            kw["v_θ_scale"] = v
        elif o == "only":
            v = str(rng.choice(["radial momentum", "polar induction",
                                "continuity"]))
            argv += ["--only", v]
            kw["only"] = v
        elif o == "eps":
            v = float(rng.choice([1e-9, 3e-8, 1e-7]))
            argv += ["--eps", repr(v)]
            kw["eps"] = v
        elif o == "critical_point":
            v = str(rng.choice(["slow", "sonic", "alfven", "fast"]))
            argv += ["--critical-point", v]
            kw["critical_point"] = v
        elif o == "eigvecs":
            v = bool(rng.random() < .5)
            argv += ["--local-eigvecs" if v else "--global-eigvecs"]
            kw["local_eigvecs"] = v
    if given():
        argv += ["--title", "Titel θ"]
        kw["title"] = "Titel θ"
    if given():
        size = [float(rng.integers(6, 14)), float(rng.integers(5, 12)) + .5]
        argv += ["--figsize"] + [repr(x) for x in size]
        kw["figargs"] = dict(figsize=size)
    if given():
        argv += ["--no-show-version"]
        kw["with_version"] = False
    if given():
        v = str(rng.choice(["--", ":", "-.", "-"]))
        argv += ["--linestyle=" + v]
        kw["linestyle"] = v
    if given():
        v = str(rng.choice(["default", "ggplot", "bmh"]))
        argv += ["--style", v]
        kw["mpl_style"] = v
    if given():
        argv += ["--start", repr(window[0]), "--stop", repr(window[1])]
        kw.update(start=window[0], stop=window[1])
    return argv, kw


def judged(ctx, name, fp, kw, path, tag):
    """What the common options mean"""
    if "title" in kw:
        ctx.check(fp["title"] == kw["title"], "title", "{}: title {!r}".format(
            name, fp["title"]), tag=tag)
    if "figargs" in kw:
        ctx.check(fp["size"] == tuple(kw["figargs"]["figsize"]), "figsize",
                  "{}: size {}".format(name, fp["size"]), tag=tag)
    from disc_solver import __version__
    shown = any(__version__ in t for t in fp["texts"])
    ctx.check(shown == kw.get("with_version", True), "version",
              "{}: version {}shown".format(name, "" if shown else "not "),
              tag=tag)
    styles = {l[2] for a in fp["axes"] for l in a["lines"]}
    if "linestyle" in kw and name in (
            "ds-plot", "ds-combine-plot", "ds-compare-plot", "ds-derivs-plot",
            "ds-params-plot", "ds-vert-plot", "ds-j-e-plot",
            "ds-component-plot"):
        ctx.check(kw["linestyle"] in styles or styles <= {"None", "none"},
                  "linestyle", "{}: line styles {}".format(name, styles),
                  tag=tag)
    ctx.check(path.exists() and path.read_bytes()[:4] == b"\x89PNG",
              "not-written", name + ": no image written", tag=tag)
    if kw.keys() - {"start", "stop"}:
        ctx.count("styled")


def window(sols, internal):
    """Angles which all have rows in"""
    first = max(np.degrees(s.angles[3]) for s in sols)
    last = min(np.degrees(s.angles[-3]) for s in sols)
    if internal and sols[0].internal_data is not None:
        a = np.degrees(sols[0].internal_data.angles)
        first, last = max(first, a[1]), min(last, a[-2])
    lo, hi = min(first, last) * .5, max(first, last) + .5
    return round(float(lo), 4), round(float(hi), 4)


def single(ctx, name, spec, case):
    import matplotlib.pyplot as plt
    from disc_solver.utils import DiscSolverError
    rng = ctx.subrng(name, case)
    path, sols, final = synth.run_file(
        ctx, rng, False, count=int(rng.integers(1, 5)), internal=True)
    k = int(rng.integers(len(sols)))
    arg = str(rng.choice([str(k), "final", "latest"]))
    sol = sols[k if arg == str(k) else final]
    argv, kw = settings(
        ctx, name, case, rng, window([sol], spec[4]), spec)
    if name == "ds-vert-plot" and "start" in kw:
        i = argv.index("--start")
        del argv[i:i + 4]
        top = np.tan(sol.angles[-1]) / sol.solution_input.c_s_on_v_k
        kw.update(start=float(top * .1), stop=float(top * .8))
        argv += ["--start", repr(kw["start"]), "--stop", repr(kw["stop"])]
    out = path.parent / "image ö.png"
    tag = dict(command=name, argv=argv, solution=arg, case=case)
    before = path.read_bytes()
    func = getattr(importlib.import_module(
        "disc_solver.analyse." + spec[0]), spec[1])
    plt.close("all")
    want = error = None
    with captured():
        try:
            fig = func(str(path), soln_range=arg, close=False, **kw)
            want = fingerprint(fig)
        except Exception as e:  # noqa
            error = e
    plt.close("all")
    with Saved() as saved:
        r = run_cli(name, [path, arg, "--filename", out] + argv)
    left = plt.get_fignums()
    plt.close("all")
    if error is not None:
        ctx.count("function_failed")
        ctx.check(r.exc is not None, "command-hides-failure",
                  "{}: the function fails ({!r}), the command does "
                  "not".format(name, error), tag=tag)
        return
    if not ctx.check(r.exc is None and not r.code, "command-failed",
                     "{}: {!r} {!r} {}".format(name, r.code, r.exc,
                                               r.err[-300:]), tag=tag):
        return
    if not ctx.check(len(saved.figures) == 1 and
                     saved.figures[0][0] == str(out), "figures-written",
                     "{}: files written {}".format(name, [
                         f[0] for f in saved.figures]), tag=tag):
        return
    got = saved.figures[0][1]
    ctx.count("figures")
    diff = same(want, got, "linestyle" in kw)
    ctx.check(diff is None, "command-differs:" + name, "{}: {} differs from "
              "the figure of the function with the same settings".format(
                  name, diff), tag=tag)
    judged(ctx, name, got, kw, out, tag)
    ctx.check(not left, "figures-left", "{}: figures left open".format(name),
              tag=tag)
    ctx.check(path.read_bytes() == before, "file-changed",
              name + " changed the run file", tag=tag)
    ctx.observe((name, tuple(sorted(kw))), tag)


def without_final(ctx, rng):
    """A run which was interrupted"""
    from h5preserve import open as h5open
    from disc_solver.file_format import registries, Run
    sol = synth.solution(rng, False)
    run = Run(config_input=sol.solution_input.to_config_input("l"),
              config_filename="c", disc_solver_version="0",
              float_type="float64", sonic_method="single", use_E_r=False)
    path = ctx.tmp("i") / "i.hdf5"
    try:
        with h5open(path, registries, mode="x") as f:
            f["run"] = run
            run.solutions.add_solution(sol)
            raise RuntimeError
    except RuntimeError:
        pass
    return path


def multi(ctx, name, spec, case):
    import matplotlib.pyplot as plt
    rng = ctx.subrng(name, case)
    files = [synth.run_file(ctx, rng, False, internal=True, count=int(
        rng.integers(1, 4))) for _ in range(int(rng.integers(1, 3)))]
    pairs, sols = [], []
    for _ in range(int(rng.integers(1, 5))):
        path, ss, final = files[int(rng.integers(len(files)))]
        k = int(rng.integers(len(ss)))
        arg = str(rng.choice([str(k), "final"]))
        pairs.append((str(path), arg))
        sols.append(ss[final if arg == "final" else k])
    argv, kw = settings(
        ctx, name, case, rng, window(sols, False), spec)
    extra = []
    if case % 3 == 0:
        # one which has no final solution is left out with a warning
        broken = without_final(ctx, rng)
        at = int(rng.integers(len(pairs) + 1))
        extra = [(at, (str(broken), "final"))]
    out = files[0][0].parent / "multi.png"
    tag = dict(command=name, argv=argv, pairs=[p[1] for p in pairs],
               case=case)
    given = list(pairs)
    for at, p in extra:
        given.insert(at, p)
    before = [p.read_bytes() for p, _, _ in files]
    func = getattr(importlib.import_module(
        "disc_solver.analyse." + spec[0]), spec[1])
    plt.close("all")
    with captured():
        want = fingerprint(func(list(given), close=False, **kw))
        plt.close("all")
        plain = fingerprint(func(list(pairs), close=False, **kw))
    plt.close("all")
    log = files[0][0].parent / "log"
    level = str(rng.choice(["debug", "warning", "error"]))
    argv += ["--log-file", log, "--log-file-level", level]
    shows, option = STDERR[(case // 3 + list(MULTI).index(name)) % len(STDERR)]
    argv += option
    rest = [x for p in given for x in ("-r",) + p]
    with Saved() as saved:
        r = run_cli(name, rest + ["--filename", out] + argv)
    left = plt.get_fignums()
    plt.close("all")
    if not ctx.check(r.exc is None and not r.code, "command-failed",
                     "{}: {!r} {!r} {}".format(name, r.code, r.exc,
                                               r.err[-300:]), tag=tag):
        return
    if not ctx.check(len(saved.figures) == 1, "figures-written",
                     "{}: files written {}".format(name, [
                         f[0] for f in saved.figures]), tag=tag):
        return
    got = saved.figures[0][1]
    ctx.count("figures")
    diff = same(want, got, "linestyle" in kw)
    ctx.check(diff is None, "command-differs:" + name, "{}: {} differs from "
              "the figure of the function with the same settings".format(
                  name, diff), tag=tag)

    def count(fp):
        return sum(len(a["lines"]) for a in fp["axes"])
    ctx.check(count(got) == count(plain), "missing-final-drawn", "{}: {} "
              "lines, {} without the file which has no final "
              "solution".format(name, count(got), count(plain)), tag=tag)
    judged(ctx, name, got, kw, out, tag)
    ctx.check(not left, "figures-left", "{}: figures left open".format(name),
              tag=tag)
    ctx.check(before == [p.read_bytes() for p, _, _ in files],
              "file-changed", name + " changed a run file", tag=tag)
    if extra:
        ctx.count("skipped")
        ctx.count("logs")
        text = log.read_text(encoding="utf8") if log.exists() else ""
        ctx.check(("WARNING" in text) == (level != "error"), "log-file",
                  "{}: log file at level {} contains {!r}".format(
                      name, level, text[-300:]), tag=tag)
        ctx.check(("DEBUG" in text) == (level == "debug"), "log-file-level",
                  "{}: log file at level {} contains {!r}".format(
                      name, level, text[-300:]), tag=tag)
        for word in ("WARNING", "DEBUG"):
            ctx.check((word in r.err) == (word in shows), "log-stderr",
                      "{} {}: standard error {!r}".format(
                          name, option, r.err[-300:]), tag=tag)
    ctx.observe((name, len(pairs), bool(extra), tuple(sorted(kw))), tag)


def lists(ctx, case):
    """The commands about all solutions of a file"""
    import matplotlib.pyplot as plt
    I = ph.idx()
    rng = ctx.subrng("lists", case)
    conserve = case % 3 == 0
    # ranges over numbers with one and two digits
    long = case % 3 == 1
    path, sols, _ = synth.run_file(ctx, rng, False, count=int(
        rng.integers(11 if long else 1, 14)))
    n = len(sols)
    name = "ds-conserve-plot" if conserve else "ds-diverge-plot"
    lo, hi = window(sols, False)
    lo = min(lo, min(np.degrees(s.angles[2]) for s in sols))
    argv, chosen, waves = [], list(range(n)), []
    if not conserve:
        if long or rng.random() < .6:
            parts, chosen = [], []
            a = int(rng.integers(2, 10) if long else rng.integers(n))
            b = int(rng.integers(10 if long else a, n))
            parts.append("{}-{}".format(a, b))
            chosen += range(a, b + 1)
            if rng.random() < .5:
                c = int(rng.integers(n))
                if c not in chosen:
                    parts.append(" {}".format(c))
                    chosen.append(c)
            if rng.random() < .5:
                parts = parts[::-1]
            argv += ["--solutions", ",".join(parts)]
        waves = [w for w in ("slow", "alfven", "fast") if rng.random() < .4]
        argv += ["--with-" + w for w in waves]
        hide = rng.random() < .3
        argv += ["--hide-legend"] * hide
    else:
        hide = False
    if rng.random() < .5:
        argv += ["--start", repr(lo), "--stop", repr(hi)]
    else:
        lo, hi = 0, 90
    title = None
    if rng.random() < .5:
        title = "T {}".format(case)
        argv += ["--title", title]
    out = path.parent / "l.png"
    tag = dict(command=name, argv=argv, solutions=n, case=case)
    plt.close("all")
    with Saved() as saved:
        r = run_cli(name, [path, "--filename", out] + argv)
    left = plt.get_fignums()
    plt.close("all")
    if not ctx.check(r.exc is None and not r.code and len(saved.figures) == 1,
                     "command-failed", "{}: {!r} {!r} {}".format(
                         name, r.code, r.exc, r.err[-300:]), tag=tag):
        return
    ctx.count("lists")
    ctx.observe((name, n, len(chosen), tuple(waves), hide), tag)
    fp = saved.figures[0][1]
    ax = fp["axes"][0]
    lines = list(ax["lines"])

    def find(x, y):
        for i, l in enumerate(lines):
            if l[0].shape == x.shape and np.allclose(
                    l[0], x, 1e-9) and np.allclose(l[1], y, 1e-9):
                return lines.pop(i)
        return None
    colours = set()
    for k in sorted(set(chosen)):
        y, a = sols[k].solution, np.degrees(sols[k].angles)
        keep = (lo <= a) & (a <= hi)
        v = y[keep, I.v_θ] * (y[keep, I.ρ] if conserve else 1)
        l = find(a[keep], v)
        if not ctx.check(l is not None, "list-missing", "{}: solution {} is "
                         "not shown".format(name, k), tag=tag):
            continue
        colours.add(l[4])
        ctx.check(l[3] == str(k), "list-label", "{}: solution {} is labelled "
                  "{!r}".format(name, k, l[3]), tag=tag)
        a0 = sols[k].initial_conditions.a_0
        b = y[:, [I.B_r, I.B_φ, I.B_θ]]
        va2 = a0 * (b ** 2).sum(axis=1) / y[:, I.ρ]
        vt2 = a0 * y[:, I.B_θ] ** 2 / y[:, I.ρ]
        root = np.sqrt((va2 + 1) ** 2 - 4 * vt2)
        for w in waves:
            speed = np.sqrt(dict(
                slow=2 * vt2 / (va2 + 1 + root), alfven=vt2,
                fast=(va2 + 1 + root) / 2)[w])
            l2 = find(a[keep], speed[keep])
            ctx.check(l2 is not None, "list-wave", "{}: {} speed of solution "
                      "{} is not shown".format(name, w, k), tag=tag)
    ctx.check(not [l for l in lines if len(l[0]) > 2], "list-extra",
              "{}: {} further lines".format(name, len(lines)), tag=tag)
    ctx.check(len(colours) == len(set(chosen)), "list-colours", "{}: {} "
              "colours for {} solutions".format(name, len(colours), len(
                  set(chosen))), tag=tag)
    ctx.check(ax["legend"] != hide, "list-legend", "{}: legend {}".format(
        name, ax["legend"]), tag=tag)
    ctx.check(title is None or fp["title"] == title, "title",
              "{}: title {!r}".format(name, fp["title"]), tag=tag)
    ctx.check(not left, "figures-left", name + ": figures left", tag=tag)


# A process which logs and ends
RECORDS = """
import argparse, sys
sys.path.insert(0, sys.argv[1])
import logbook
from disc_solver.logging import log_handler, logging_options
parser = argparse.ArgumentParser()
logging_options(parser)
with log_handler(vars(parser.parse_args(sys.argv[3:]))):
    for n in sys.argv[2].split(","):
        getattr(logbook.Logger("x"), n)("record " + n)
"""


def levels(ctx):
    """Records of every level, for every combination of options"""
    import subprocess
    import sys
    from concurrent.futures import ThreadPoolExecutor
    names = ["debug", "info", "notice", "warning", "error", "critical"]
    rng = ctx.subrng("levels")
    stderr = [([], "notice"), (["-q"], "error"), (["--verbose"], "debug")] + [
        (["--stderr-level", n], n) for n in names]
    d = ctx.tmp("log")
    jobs = []
    for i, (option, shown) in enumerate(stderr):
        level = str(rng.choice(names + [""]))
        given = [str(n) for n in rng.choice(names, 200)]
        path = d / "{}.log".format(i)
        jobs.append((shown, level, given, path, option + [
            "--log-file", str(path)] + (
                ["--log-file-level", level] if level else []),
            "true" if rng.random() < .3 else "false"))

    def process(job):
        return subprocess.run(
            [sys.executable, "-c", RECORDS, str(SRC), ",".join(job[2])] +
            job[4], capture_output=True, text=True, encoding="utf8",
            cwd=str(d), timeout=120, env=dict(
                os.environ, DISC_SOLVER_DISABLE_THREADING=job[5]))

    with ThreadPoolExecutor(4) as pool:
        ended = list(pool.map(process, jobs))
    for (shown, level, given, path, argv, _), r in zip(jobs, ended):
        ctx.count("levels")
        ctx.observe(("levels", shown, level), argv)
        ctx.check(r.returncode == 0, "log-failed", "logging with {}: {}".format(
            argv, r.stderr[-300:]))
        text = path.read_text(encoding="utf8") if path.exists() else ""
        for what, got, first in (("the log file", text, level or "debug"),
                                 ("standard error", r.stderr, shown)):
            there = re.findall("record ([a-z]+)", got)
            want = [n for n in given if names.index(n) >= names.index(first)]
            ctx.check(there == want, "levels", "{}: of 200 records {} are in "
                      "{} instead of {}".format(
                          argv, len(there), what, len(want)),
                      there=there[-3:], expected=want[-3:])


def commands(ctx):
    """All that is installed can be started, and refuses nonsense"""
    from disc_solver import __version__
    for name in sorted(table()):
        ctx.count("commands")
        ok, _ = ctx.call("entry-missing:" + name, entry, name)
        if not ok:
            continue
        ctx.observe((name, "start"))
        if name == "ds-plot-taylor-space":
            continue  # no arguments, shows windows
        r = run_cli(name, ["--version"])
        ctx.check(r.code == 0 and __version__ in r.out + r.err,
                  "version-option", "{} --version: {!r} {!r}".format(
                      name, r.code, r.out))
        r = run_cli(name, ["--help"])
        ctx.check(r.code == 0 and "usage" in r.out, "help-option",
                  "{} --help: {!r} {!r}".format(name, r.code, r.exc))
        before = sorted(os.listdir("."))
        r = run_cli(name, ["--no-such-option", "a", "b"])
        ctx.count("refused")
        ctx.check(r.code == 2, "unknown-option", "{}: unknown options give "
                  "{!r} {!r}".format(name, r.code, r.exc))
        ctx.check(sorted(os.listdir(".")) == before, "unknown-option-writes",
                  "{}: files written for unknown options".format(name))


def run(ctx):
    os.chdir(str(ctx.tmp("cwd")))
    # Within this process, records are written at once
    os.environ["DISC_SOLVER_DISABLE_THREADING"] = "true"
    commands(ctx)
    levels(ctx)
    for case in range(ctx.n(2, 400)):
        if not ctx.more():
            break
        for name, spec in SINGLE.items():
            single(ctx, name, spec, case)
        for name, spec in MULTI.items():
            multi(ctx, name, spec, case)
        for k in range(4):
            lists(ctx, 4 * case + k)
