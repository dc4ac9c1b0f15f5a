"""
P24: field lines and streamlines follow the fields of the solution.

Monitor: the positions written by the trajectory functions and commands are
checked step by step against the direction of the stored fields; the table of
angles against the crossings of the Mach numbers.
"""
import csv
import io

import numpy as np

from vp import physics as ph, synth
from checks.p25 import Saved, fingerprint, same
from vp.cli import captured, run_cli

PROPERTY = "P24"
RULE = ("made-up solutions with fields turning outward, inward and back, "
        "start positions inside and at the edges, lengths and numbers of "
        "steps; distinct by solution and settings, by how the line ended")
MIN_NONTRIVIAL = 40
MIN_COUNTERS = {"lines": 80, "steps": 20000, "left": 2, "complete": 10,
                "files": 15, "outside": 10, "reduced": 30,
                "commands": 10}


def machs(sol):
    I = ph.idx()
    y, a0 = sol.solution, sol.initial_conditions.a_0
    va2 = a0 * (y[:, I.B_r] ** 2 + y[:, I.B_φ] ** 2 + y[:, I.B_θ] ** 2) / y[
        :, I.ρ]
    vt2 = a0 * y[:, I.B_θ] ** 2 / y[:, I.ρ]
    fast = (1 + va2 + np.sqrt((1 + va2) ** 2 - 4 * vt2)) / 2
    v = abs(y[:, I.v_θ])
    return {"slow": v / np.sqrt(vt2 / fast), "sonic": v,
            "alfven": v / np.sqrt(vt2), "fast": v / np.sqrt(fast)}


def first_crossing(a, m):
    if not (m > 1).any():
        return None
    up = m[0] < 1
    for i in range(1, len(m)):
        if (m[i] >= 1) if up else (m[i] <= 1):
            return np.interp(1, *zip(*sorted([(m[i - 1], a[i - 1]),
                                              (m[i], a[i])])))
    return None


def directions(a, fr, ft, pos):
    """
    Directions the field may have at pos: that of the closest angle (or of
    two which are equally close within rounding)
    """
    θ = np.arctan2(pos[1], pos[0])
    d = abs(a - θ)
    near = np.flatnonzero(d <= d.min() + 1e-9 * max(1e-6, a[-1]))
    out = []
    for i in near:
        v = np.array([fr[i] * np.cos(θ) - ft[i] * np.sin(θ),
                      fr[i] * np.sin(θ) + ft[i] * np.cos(θ)])
        size = np.linalg.norm(v)
        out.append(v / size if size else np.array(
            [np.cos(θ), np.sin(θ)]))
    return out


def judge(ctx, name, vals, pos, a, fr, ft, start, most, step, tag):
    ctx.count("lines")
    if not ctx.check(len(pos) and len(vals) == len(pos) and len(pos) <= most
                     and np.allclose(pos[0], start), name + ":start",
                     "{}: {} positions from {}".format(name, len(
                         pos), pos[:1]), tag=tag):
        return
    ctx.count("steps", len(pos))
    for i in range(len(pos)):
        θ = np.arctan2(pos[i][1], pos[i][0])
        near = directions(a, fr, ft, pos[i])
        if not ctx.check(θ <= a[-1] * (1 + 1e-9) and min(
                np.abs(vals[i] - d).max() for d in near) < 1e-7,
                name + ":direction", "{}: direction at step {} is not that "
                "of the field".format(name, i), tag=tag, got=vals[i],
                expected=near[0], position=pos[i]):
            return
    moved = np.diff(pos, axis=0)
    done = step
    for i, m in enumerate(moved):
        tail = done * vals[i]
        if np.abs(m - tail).max() <= 1e-6 * done + 1e-13:
            continue
        # the last steps may be shorter, where the line leaves the solution
        size = np.linalg.norm(m)
        ahead = pos[i] + done * vals[i]
        ok = size < done and np.abs(m - size * vals[i]).max() <= 1e-6 * \
            size + 1e-13 and np.arctan2(ahead[1], ahead[0]) > a[-1] * (
                1 - 1e-9)
        ctx.count("reduced")
        if not ctx.check(ok, name + ":step", "{}: step {} is not along the "
                         "field".format(name, i), tag=tag, step=m,
                         expected=tail):
            return
        done = size
    if len(pos) < most:
        # may only stop where even a much shorter step (a hundredth of the
        # last) would leave the solution
        ctx.count("left")
        ahead = pos[-1] + .02 * step * vals[-1]
        ctx.check(np.arctan2(ahead[1], ahead[0]) > a[-1] * (1 - 1e-9),
                  name + ":stopped", "{}: stopped inside of the solution after"
                  " {} steps".format(name, len(pos)), tag=tag,
                  last=pos[-1])
    else:
        ctx.count("complete")


def begin(rng, a):
    k = rng.integers(4)
    θ = [0, rng.uniform(0, a[-1] * .9), a[-1] * .999,
         rng.uniform(0, a[-1] * .3)][k]
    r = float(rng.choice([1, 2, rng.uniform(.2, 5)]))
    return (float(r * np.cos(θ)), float(r * np.sin(θ)))


def fields(sol):
    I = ph.idx()
    y = sol.solution
    return {"v": (y[:, I.v_r], y[:, I.v_θ]), "B": (y[:, I.B_r], y[:, I.B_θ])}


def make(rng, er):
    I = ph.idx()

    def alter(sol):
        # outflows which leave, inflows, lines which turn
        k = rng.integers(3)
        if k == 0:
            sol.solution[:, I.v_θ] += rng.uniform(.5, 5)
        elif k == 1:
            sol.solution[:, I.v_r] = -abs(sol.solution[:, I.v_r])
        return sol
    return alter


def check_function(ctx, case):
    from disc_solver.analyse.trajectory import get_trajectory
    rng = ctx.subrng("function", case)
    sol = make(rng, False)(synth.solution(rng, False, internal=False))
    a = sol.angles
    for name, (fr, ft) in fields(sol).items():
        start = begin(rng, a)
        most = int(rng.integers(1, 3000))
        step = float(10 ** rng.uniform(-5, -1.5))
        outside = case % 8 == 7
        if outside:
            θ = a[-1] * rng.uniform(1.001, 1.5)
            start = (float(np.cos(θ)), float(np.sin(θ)))
        tag = dict(case=case, field=name, start=start, steps=most, step=step)
        with captured():
            ok, out = ctx.call(
                "trajectory-failed", get_trajectory, x_start=start[0],
                y_start=start[1], angles=a, r_vals=fr, θ_vals=ft,
                radial_power=-.5 if name == "v" else
                sol.initial_conditions.γ - 1.25, max_steps=most,
                step_scaling=step)
        if ok and outside:
            ctx.count("outside")
            ctx.check(len(out[0]) == len(out[1]) == 0, "outside",
                      "a line outside of the solution", tag=tag)
            ctx.observe(("outside", case, name), tag)
        elif ok:
            judge(ctx, "trajectory", *out, a, fr, ft, start, most, step, tag)
            ctx.observe(("function", case, name, len(out[1]) < most), tag)


def check_file(ctx, case):
    """ds-flow-file and ds-flow-plot (or the functions behind them)"""
    import matplotlib.pyplot as plt
    from disc_solver.analyse.trajectory import save_trajectory, plot
    rng = ctx.subrng("file", case)
    alter = make(rng, False)
    path, sols, final = synth.run_file(ctx, rng, bool(rng.random() < .3),
                                       count=2, internal=False,
                                       alter=alter)
    k = int(rng.integers(2))
    sol = sols[k]
    a = sol.angles
    folder = ctx.tmp("out")
    kw = dict(v_start_position=begin(rng, a), B_start_position=begin(rng, a),
              v_max_steps=int(rng.integers(1, 500)),
              B_max_steps=int(rng.integers(1, 500)),
              v_step_scaling=float(10 ** rng.uniform(-5, -1.5)),
              B_step_scaling=float(10 ** rng.uniform(-5, -1.5)))
    out = {n: str(folder / (n + ".csv")) for n in ("stats", "v", "B")}
    tag = dict(case=case, **kw)
    before = path.read_bytes()
    if case % 2:
        with captured():
            ok, _ = ctx.call(
                "save-failed", save_trajectory, str(path), soln_range=str(k),
                stats_output_file=out["stats"], v_output_file=out["v"],
                B_output_file=out["B"], **kw)
    else:
        argv = [path, k]
        for n, v in kw.items():
            argv.append("--" + n.replace("_", "-"))
            argv += list(map(repr, v)) if isinstance(v, tuple) else [repr(v)]
        for n, f in out.items():
            argv += ["--{}-output-file".format(n), f]
        r = run_cli("ds-flow-file", argv)
        ok = ctx.check(r.exc is None, "ds-flow-file", "ds-flow-file: {!r} {}"
                       .format(r.exc, r.err[-300:]), tag=tag)
    if not ok:
        return
    ctx.count("files")
    lines = {}
    for n, (fr, ft) in fields(sol).items():
        text = [l for l in open(out[n], encoding="utf8")
                if not l.startswith("#")]
        rows = list(csv.DictReader(text))
        pos = np.array([[float(r["x"]), float(r["y"])] for r in rows])
        vals = np.array([[float(r[n + "_x"]), float(r[n + "_y"])]
                         for r in rows])
        lines[n] = pos
        judge(ctx, "file " + n, vals, pos, a, fr, ft,
              kw[n + "_start_position"], kw[n + "_max_steps"],
              kw[n + "_step_scaling"], tag)
    text = [l for l in open(out["stats"], encoding="utf8")
            if not l.startswith("#")]
    row = list(csv.DictReader(text))
    ctx.check(len(row) == 1 and np.isclose(float(
        row[0]["max_soln_angle"]), a[-1]), "stats", "largest angle", tag=tag)
    for n, m in machs(sol).items():
        x, got = first_crossing(a, m), row[0][n + "_angle"]
        ctx.check(got == "" if x is None else got != "" and np.isclose(
            float(got), x, rtol=1e-5), "stats", "{} angle {}, not {}".format(
                n, got, x), tag=tag)
    # existing files are never overwritten
    saved = {f: open(f, "rb").read() for f in out.values()}
    new = ctx.tmp("new")
    for kept in ({"stats", "v", "B"}, {str(rng.choice(["stats", "v", "B"]))}):
        try:
            with captured():
                save_trajectory(
                    str(path), soln_range=str(1 - k), **kw, **{
                        n + "_output_file": f if n in kept else str(
                            new / (n + ".csv")) for n, f in out.items()})
            ctx.violation("overwritten", "existing files were accepted",
                          tag=tag, existing=sorted(kept))
        except FileExistsError:
            pass
    ctx.check(all(open(f, "rb").read() == b for f, b in saved.items()),
              "overwritten", "existing files were changed", tag=tag)
    # the figure shows the same lines
    plt.close("all")
    with captured():
        ok, fig = ctx.call("plot-failed", plot, str(path), soln_range=str(k),
                           close=False, **kw)
    if ok:
        shown = {l.get_label(): np.column_stack([l.get_xdata(),
                                                 l.get_ydata()])
                 for l in fig.axes[0].get_lines()}
        for label, n in (("$B$ field line", "B"), ("$v$ streamline", "v")):
            got = shown.get(label)
            ctx.check(got is not None and got.shape == lines[n].shape and
                      np.allclose(got, lines[n], rtol=1e-9, atol=1e-12),
                      "plot", "the {} shown is another".format(label),
                      tag=tag)
        x = first_crossing(a, machs(sol)["sonic"])
        marks = [l for l in fig.axes[0].get_lines()
                 if l.get_label().startswith("Sonic")]
        ctx.check(len(marks) == (x is not None) and all(np.isclose(
            m.get_slope(), np.tan(x), rtol=1e-5) for m in marks), "plot",
            "line of the sonic point", tag=tag)
        top = np.max(np.arctan2(lines["v"][:, 1], lines["v"][:, 0]))
        marks = [l for l in fig.axes[0].get_lines()
                 if l.get_label().startswith("Max angle in v")]
        ctx.check(len(marks) == 1 and np.isclose(
            marks[0].get_slope(), np.tan(top), rtol=1e-6, atol=1e-12), "plot",
            "line of the largest angle", tag=tag)
    plt.close("all")
    if ok:
        few = {n: v for n, v in kw.items() if case % 3 or "steps" in n}
        command(ctx, rng, path, k, few, tag)
    ctx.check(path.read_bytes() == before, "file-changed",
              "the run file was changed", tag=tag)
    ctx.observe(("file", case), tag)


def command(ctx, rng, path, k, kw, tag):
    """ds-flow-plot saves what the function shows"""
    import matplotlib.pyplot as plt
    from disc_solver.analyse.trajectory import plot
    png = path.parent / "flow.png"
    mark = bool(rng.random() < .5)
    argv = [path, k, "--filename", png]
    for n, v in kw.items():
        argv.append("--" + n.replace("_", "-"))
        argv += list(map(repr, v)) if isinstance(v, tuple) else [repr(v)]
    if not mark:
        argv.append("--no-max-v-angle")
    with Saved() as saved:
        r = run_cli("ds-flow-plot", argv)
    with captured():
        ok, fig = ctx.call("plot-failed", plot, str(path), soln_range=str(k),
                           close=False, with_max_v_angle=mark, **kw)
    if not ok:
        return
    ctx.count("commands")
    ctx.check(r.exc is None and len(saved.figures) == 1 and png.exists(),
              "ds-flow-plot", "ds-flow-plot: {!r} {}, {} figures".format(
                  r.exc, r.err[-300:], len(saved.figures)), tag=tag)
    if len(saved.figures) == 1:
        what = same(saved.figures[0][1], fingerprint(fig))
        ctx.check(what is None, "ds-flow-plot", "ds-flow-plot saves another "
                  "figure than the function: {}".format(what), tag=tag)
    plt.close("all")


def run(ctx):
    for case in range(ctx.n(120, 1500)):
        if not ctx.more():
            return
        check_function(ctx, case)
        if case % 5 == 0:
            check_file(ctx, case // 5)
