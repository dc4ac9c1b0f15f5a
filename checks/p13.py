"""
P13: configuration conversions lose nothing.

Monitor: every conversion between configuration file, ConfigInput and
SolutionInput is run there and back on generated inputs and compared with
the value it started from; values read from a file are compared with an
independent reading of its text.
"""
import io
from fractions import Fraction
from pathlib import Path

import numpy as np

from vp import ff

PROPERTY = "P13"
RULE = ("generated inputs (every optional field present and absent, fractions "
        "and exponents, all spellings of booleans, slices, non-ASCII and "
        "special characters in labels) through every conversion; distinct by "
        "content of the optional fields, spelling used and route")
MIN_NONTRIVIAL = 100
MIN_COUNTERS = {"round_trips": 300, "files_read": 100, "defaults_checked": 25,
                "dumped_configs": 20}

SECTION = dict.fromkeys(
    ("γ", "v_rin_on_c_s", "v_a_on_c_s", "c_s_on_v_k", "η_O", "η_H", "η_A"),
    "initial")
FLOATS = ff.FIELDS_NUM
OPTIONAL = ff.FIELDS_OPTFLOAT

# an empty file means these
DEFAULTS = dict(
    start=0., stop=5., taylor_stop_angle=.001, max_steps=10000,
    num_angles=10000, relative_tolerance=1e-6, absolute_tolerance=1e-10,
    jump_before_sonic=None, v_θ_sonic_crit=None, after_sonic=None,
    interp_range=10, sonic_interp_size=None, interp_slice=slice(-1000, -100),
    η_derivs=True, nwalkers=8, iterations=3, threads=1, target_velocity=.9,
    split_method="v_θ_deriv", use_taylor_jump=True, use_E_r=False, γ=.001,
    v_rin_on_c_s=1., v_a_on_c_s=1., c_s_on_v_k=.03, η_O=.001, η_H=.0001,
    η_A=.0005)


def norm(config):
    """None and "None" mean the same for the options of a ConfigInput"""
    d = {k: ff.plain(v) for k, v in config.asdict().items()}
    for k in OPTIONAL + ("mcmc_vars", "interp_range", "interp_slice"):
        if d[k] is None or d[k] == "":
            d[k] = "None"
    return d


def parse(path):
    from disc_solver.solve.config import get_input_from_conffile
    return get_input_from_conffile(config_file=path)


def soln_round_trip(ctx, case):
    rng = ctx.subrng("soln", case)
    s = ff.rand_solution_input(rng)
    before = ff.plain(s)
    label = ff.rand_label(rng)
    ok, c = ctx.call("to-config-input", s.to_config_input, label)
    if not ok:
        return
    ctx.check(c.label == label, "label", "label {!r} became {!r}".format(
        label, c.label))
    ok, back = ctx.call("to-soln-input", c.to_soln_input)
    ctx.count("round_trips")
    if ok:
        d = ff.diff(before, ff.plain(back))
        ctx.check(not d, "soln-config-soln", "input differs at {} after "
                  "conversion to configuration and back: {} -> {}".format(
                      d, s, back))
        for k in ("max_steps", "num_angles", "nwalkers", "iterations",
                  "threads"):
            ctx.check(isinstance(getattr(back, k), (int, np.integer)),
                      "type", "{} is {!r}".format(k, getattr(back, k)))
    ctx.check(not ff.diff(before, ff.plain(s)), "mutated",
              "conversion changed its input")
    # through a file
    path = ctx.tmp("p13") / "c.cfg"
    with path.open("w") as f:
        ok, _ = ctx.call("to-conf-file", c.to_conf_file, f)
    ok2, again = ctx.call("conf-file-unreadable", parse, path)
    if ok and ok2:
        d = ff.diff(norm(c), norm(again))
        ctx.check(not d, "config-file-config", "configuration differs at {} "
                  "after writing and reading it: {} -> {}".format(
                      d, c, again))
        ok, back = ctx.call("to-soln-input", again.to_soln_input)
        if ok:
            d = ff.diff(before, ff.plain(back))
            ctx.check(not d, "soln-file-soln", "input differs at {} after "
                      "writing and reading a configuration file".format(d))
    path.unlink()
    ctx.observe(("soln", tuple(k for k in OPTIONAL if getattr(s, k) is None),
                 str(s.interp_slice), str(s.mcmc_vars), label,
                 s.interp_range is None), dict(input=repr(s), label=label))


def shock_copy(ctx, case):
    rng = ctx.subrng("shock", case)
    s = ff.rand_solution_input(rng)
    before = ff.plain(s)
    ok, n = ctx.call("without-sonic-taylor", s.new_without_sonic_taylor)
    if not ok:
        return
    d = set(ff.diff(before, ff.plain(n)))
    allowed = {"/use_taylor_jump", "/jump_before_sonic", "/v_θ_sonic_crit",
               "/after_sonic", "/interp_range", "/interp_slice",
               "/sonic_interp_size"}
    ctx.check(d <= allowed and not n.use_taylor_jump and all(
        getattr(n, k[1:]) is None for k in allowed - {"/use_taylor_jump"}),
        "without-sonic-taylor", "fields {} changed".format(d - allowed))
    ctx.check(not ff.diff(before, ff.plain(s)), "mutated",
              "new_without_sonic_taylor changed its input")


def spell(rng, field, value):
    """Another spelling of value, and what it means"""
    if isinstance(value, bool):
        return str(rng.choice(
            ["True", "true", "TRUE", "yes", "1", "on", "Yes"] if value else
            ["False", "false", "no", "0", "off", "No"]))
    if isinstance(value, (int, np.integer)):
        k = rng.integers(3)
        if k == 0 and value % 100 == 0 and value:
            return "{}e2".format(value // 100)
        return str(value)
    if isinstance(value, (float, np.floating)):
        value = float(value)
        k = rng.integers(4)
        if value == int(value) and abs(value) < 1e6 and rng.random() < .7:
            return str(rng.choice(["{}", "{}.", "{}e0"])).format(int(value))
        if k == 0:
            return "{!r}".format(value).upper()
        if k == 1:
            return "{:.17e}".format(value)
        return repr(value)
    return str(value)


def read_text(ctx, case):
    """A file written by hand, in any order and spelling"""
    rng = ctx.subrng("text", case)
    s = ff.rand_solution_input(rng)
    values, text = {}, {}
    for k in list(DEFAULTS):
        if rng.random() < .3:
            values[k] = DEFAULTS[k]
            continue
        v = getattr(s, k)
        if k == "interp_slice":
            if v is None:
                text[k] = "None"
            elif v.start is None or v.step is None and v.stop is None:
                continue
            else:
                text[k] = ",".join(str(x) for x in (
                    v.start, v.stop, v.step) if x is not None)
                if v.stop is None:
                    text.pop(k)
                    continue
        elif v is None:
            text[k] = str(rng.choice(["None", ""])) if k in OPTIONAL else \
                "None"
        elif k in FLOATS and rng.random() < .15:
            a, b = int(rng.integers(-20, 20)), int(rng.integers(1, 16))
            text[k] = "{}/{}".format(a, b)
            v = float(Fraction(a, b))
        else:
            text[k] = spell(rng, k, v)
        values[k] = v
    mcmc = rng.random()
    if mcmc < .4:
        mv = [m for m in ("v_r", "v_a", "v_k") if rng.random() < .5]
        if mv:
            text["mcmc_vars"] = ",".join(mv)
            values["mcmc_vars"] = ("MCMCVars",) + tuple(
                m in mv for m in ("v_r", "v_a", "v_k"))
    elif mcmc < .6:
        text["mcmc_vars"] = "None"
        values["mcmc_vars"] = None
    else:
        values["mcmc_vars"] = ("MCMCVars", True, True, True)
    lines = {"config": [], "initial": []}
    keys = list(text)
    rng.shuffle(keys)
    for k in keys:
        sep = str(rng.choice([" = ", "=", ": ", " : "]))
        lines[SECTION.get(k, "config")].append(k + sep + text[k])
    for sec in lines:
        if rng.random() < .3:
            lines[sec].insert(0, "# a comment")
        if rng.random() < .2:
            # names are case sensitive: this is another name
            lines[sec].append("{} = 77".format(str(rng.choice(
                ["START", "V_rin_on_c_s", "unknown", "Num_angles"]))))
    order = ["config", "initial"] if rng.random() < .5 else [
        "initial", "config"]
    body = ""
    for sec in order:
        if lines[sec] or rng.random() < .7:
            body += "[{}]\n{}\n\n".format(sec, "\n".join(lines[sec]))
    path = ctx.tmp("p13") / "c.cfg"
    path.write_text(body, encoding="utf8")
    ok, c = ctx.call("conf-file-unreadable", parse, path)
    if ok:
        ok, got = ctx.call("to-soln-input", c.to_soln_input)
    ctx.count("files_read")
    if ok:
        for k, v in values.items():
            g = ff.plain(getattr(got, k))
            d = ff.diff(ff.plain(v) if k != "mcmc_vars" else v, g)
            ctx.check(not d, "value-of-option", "{} is {!r} from {!r}".format(
                k, getattr(got, k), text.get(k, "nothing")), text=body)
    ctx.observe(("text", tuple(sorted(text)), mcmc < .4), dict(text=body[
        :400]))
    path.unlink()


def defaults(ctx):
    from disc_solver.solve.config import get_input_from_conffile
    tmp = ctx.tmp("p13")
    for name, body in (("empty", ""), ("sections", "[config]\n[initial]\n"),
                       ("config", "[config]\n"), ("none", None)):
        path = None
        if body is not None:
            path = tmp / name
            path.write_text(body)
        ok, c = ctx.call("defaults", get_input_from_conffile,
                         config_file=path)
        if not ok:
            continue
        ok, s = ctx.call("defaults", c.to_soln_input)
        if not ok:
            continue
        for k, v in DEFAULTS.items():
            ctx.count("defaults_checked")
            ctx.check(not ff.diff(ff.plain(v), ff.plain(getattr(s, k))),
                      "default", "default of {} is {!r}".format(
                          k, getattr(s, k)))
        ctx.check(c.label == "default", "default", "label {}".format(c.label))
        ctx.observe(("default", name))


def dumped(ctx, case):
    """ds-dumpcfg writes a file from which the same input is read"""
    from h5preserve import open as h5open
    from disc_solver.file_format import registries
    from disc_solver.analyse.dump_config import dump_cfg, dump_main
    rng = ctx.subrng("dump", case)
    run = ff.rand_run(rng)
    expected = []
    d = ctx.tmp("p13")
    with h5open(d / "r.hdf5", registries, mode="x") as f:
        f["run"] = run
        for _ in range(3):
            s = ff.rand_solution(rng)
            expected.append(ff.plain(s.solution_input))
            run.solutions.add_solution(s)
        run.finalise()
    which = int(rng.integers(3))
    out = d / "out.cfg"
    if case % 2:
        ok, _ = ctx.call("dump-cfg", dump_main, [
            str(d / "r.hdf5"), str(which), "--file", str(out)])
    else:
        ok, _ = ctx.call("dump-cfg", dump_cfg, str(d / "r.hdf5"),
                         soln_range=str(which), output_file=str(out))
    if ok:
        ok, c = ctx.call("conf-file-unreadable", parse, Path(out))
    if ok:
        ok, s = ctx.call("to-soln-input", c.to_soln_input)
    if ok:
        dd = ff.diff(expected[which], ff.plain(s))
        ctx.check(not dd, "dumped-config", "input of the dumped configuration "
                  "differs at {}".format(dd))
        ctx.check(c.label == run.config_input.label, "dumped-config",
                  "label {!r} dumped as {!r}".format(
                      run.config_input.label, c.label))
    ctx.count("dumped_configs")
    ctx.observe(("dump", case % 2, which, run.config_input.label))


def run(ctx):
    assert io
    defaults(ctx)
    for case in range(ctx.n(400, 8000)):
        if not ctx.more():
            break
        soln_round_trip(ctx, case)
        if case % 4 == 0:
            shock_copy(ctx, case)
        if case % 2 == 0:
            read_text(ctx, case)
        if case % 10 == 0:
            dumped(ctx, case // 10)
