"""
P14: overrides win over the configuration file or stored solution, nothing
else changes, and a run records the input which was solved.

Monitor: what the solver was run with, as recorded in the run file, is
compared field by field with an independent merge of the sources.
"""
from vp import cli, ff, gen

PROPERTY = "P14"
RULE = ("random subsets of fields set by file, by override and by the stored "
        "solution of a previous run, merged directly and through ds-soln and "
        "ds-resoln; distinct by the set of overridden and differing fields "
        "and the route")
MIN_NONTRIVIAL = 60
MIN_COUNTERS = {"merges": 150, "runs": 9, "resolves": 8, "refused": 10}

TEXT = ("label", "split_method", "mcmc_vars", "interp_slice", "interp_range")


def rand_over(rng, k):
    """A random value of field k as text"""
    s = ff.rand_solution_input(rng).to_config_input(ff.rand_label(rng))
    return getattr(s, k)



def meaning(fields):
    """What a complete set of texts means, via one conversion"""
    from disc_solver.file_format import ConfigInput
    return ff.plain(ConfigInput(**fields).to_soln_input())


def merge(ctx, case):
    """new_inputs_with_overrides against an independent merge"""
    from disc_solver.solve.config import new_inputs_with_overrides
    rng = ctx.subrng("merge", case)
    config = ff.rand_solution_input(rng).to_config_input("x")
    stored = config.to_soln_input()
    # the solution which is used as base may differ from the configuration
    differ = []
    mode = case % 3
    if mode:
        other = ff.rand_solution_input(rng)
        names = list(stored.asdict())
        for k in names:
            if rng.random() < (.15 if mode == 1 else .8):
                setattr(stored, k, getattr(other, k))
                differ.append(k)
    names = list(config.asdict())
    over = {}
    for k in names:
        if rng.random() < [0, .1, .5, .1, .1][case % 5]:
            over[k] = rand_over(rng, k)
    if case % 7 == 0:
        over = None
    config_before, stored_before = ff.plain(config), ff.plain(stored)
    expected = dict(stored_before)
    if over:
        m = meaning(dict(config.asdict(), **over))
        for k in over:
            if k != "label":
                expected[k] = m[k]
    ok, res = ctx.call("merge", new_inputs_with_overrides, config_input=config,
                       solution_input=stored, overrides=over)
    ctx.count("merges")
    ctx.observe(("merge", tuple(sorted(over or ())), tuple(sorted(differ))),
                dict(overrides=over, differ=differ))
    if not ok:
        return
    new_config, new_soln = res
    d = ff.diff(expected, ff.plain(new_soln))
    for p in d:
        k = p.strip("/").split("/")[0]
        ctx.violation(
            "override-ignored" if k in (over or ()) else "stored-value-lost"
            if k in differ else "value-changed",
            "{} is {!r}: override {!r}, stored {!r}, configuration {!r}"
            .format(k, getattr(new_soln, k), (over or {}).get(k),
                    getattr(stored, k), getattr(config, k)))
    exp_config = dict(config_before)
    exp_config.update({k: ff.plain(v) for k, v in (over or {}).items()})
    d = ff.diff(exp_config, ff.plain(new_config))
    ctx.check(not d, "config-merge", "configuration differs at {}".format(d))
    ctx.check(not ff.diff(stored_before, ff.plain(stored)) and not ff.diff(
        config_before, ff.plain(config)), "merge-mutates",
        "merging changed what was merged")


def file_merge(ctx, case):
    from disc_solver.solve.config import get_input_from_conffile
    rng = ctx.subrng("file", case)
    base = ff.rand_solution_input(rng).to_config_input(ff.rand_label(rng))
    path = ctx.tmp("p14") / "c.cfg"
    with path.open("w") as f:
        base.to_conf_file(f)
    over = {k: rand_over(rng, k) for k in base.asdict()
            if rng.random() < .2}
    none = get_input_from_conffile(config_file=path)
    ok, c = ctx.call("file-merge", get_input_from_conffile, config_file=path,
                     overrides=over)
    ctx.count("merges")
    if ok:
        exp = ff.plain(none)
        exp.update({k: ff.plain(v) for k, v in over.items()})
        d = ff.diff(exp, ff.plain(c))
        ctx.check(not d, "file-override", "configuration with overrides {} "
                  "differs at {}".format(sorted(over), d))
    ctx.observe(("file", tuple(sorted(over))))


def load(path):
    from h5preserve import open as h5open
    from disc_solver.file_format import registries
    with h5open(path, registries, mode="r") as f:
        run = f["run"]
        for k in run.solutions:
            run.solutions[k]
    return run


def output_of(res, d):
    """The file which the command says it wrote"""
    lines = [x for x in res.out.splitlines() if x.strip()]
    return lines[-1] if lines else None


def end_to_end(ctx, case):
    from pathlib import Path
    rng = ctx.subrng("run", case)
    d = ctx.tmp("p14")
    # base: physical values from file, small work
    base = dict(gen.overrides(rng), num_angles="60", max_steps="600",
                taylor_stop_angle="0.001", label=str(
                    rng.choice(["lab", "ηx", "a b"])))
    small = dict(gen.overrides(rng), stop="2", num_angles="45",
                 relative_tolerance="1e-5", absolute_tolerance="1e-8",
                 use_E_r="True", η_derivs="False", label="over",
                 target_velocity="0.5", iterations="4", mcmc_vars="v_a",
                 interp_slice="5,50", jump_before_sonic="0.01",
                 use_taylor_jump="False")
    over = {k: v for k, v in small.items() if rng.random() < .35}
    method = str(rng.choice(["single", "step", "mod_hydro"],
                            p=[.75, .1, .15]))
    if method == "step":
        base.update(num_angles="30", max_steps="100", stop="2",
                    taylor_stop_angle="0.01")
        over.pop("num_angles", None)
    sections = {"config": [], "initial": []}
    from checks.p13 import SECTION
    for k, v in base.items():
        sections[SECTION.get(k, "config")].append("{} = {}".format(k, v))
    cfg = d / "c.cfg"
    cfg.write_text("".join("[{}]\n{}\n".format(s, "\n".join(v))
                           for s, v in sections.items()), encoding="utf8")
    from disc_solver.solve.config import get_input_from_conffile
    plain_cfg = get_input_from_conffile(config_file=cfg).asdict()
    exp_cfg = dict(plain_cfg, **over)
    try:
        exp_soln = meaning(exp_cfg)
    except Exception:
        return
    argv = ["--output-dir", d, cfg]
    named = rng.random() < .5
    if named:
        argv = ["--output-file", "named.hdf5"] + argv
    internal = rng.random() < .5
    if method != "single" or rng.random() < .5:
        argv = ["--sonic-method", method] + argv
    argv = ["--store-internal" if internal else "--no-store-internal"] + argv
    for k, v in over.items():
        argv += ["--override", k, v]
    res = cli.run_cli("ds-soln", argv)
    if res.exc is not None:
        from disc_solver.solve import SolverError
        if not isinstance(res.exc, SolverError):
            ctx.violation("ds-soln", "ds-soln failed with {!r}".format(
                res.exc), argv=argv)
        return
    ctx.count("runs")
    path = Path(output_of(res, d))
    ctx.check(path.exists() and path.parent == d and
              (path.name == "named.hdf5" if named else
               path.name.startswith(exp_cfg["label"])),
              "output-name", "wrote {} in {} for label {}".format(
                  path, d, exp_cfg["label"]))
    run = load(path)
    ctx.count("runs_" + method)
    names = list(run.solutions)
    if method == "step":
        # nothing which works is an expected outcome
        ctx.check(res.code in (0, 1), "exit-code", "ds-soln returned {}"
                  .format(res.code))
        ctx.count("step_failed", int(res.code == 1))
        for name in names:
            inp = ff.plain(run.solutions[name].solution_input)
            exp = dict(exp_soln, γ=inp["γ"]) if "γ" in inp else exp_soln
            d14 = ff.diff(exp, inp)
            ctx.check(not d14, "recorded-input", "ds-soln (step): recorded "
                      "input differs at {}".format(d14))
    else:
        ctx.check(res.code == 0, "exit-code", "ds-soln returned {}".format(
            res.code))
        compare(ctx, "ds-soln", run, exp_cfg, exp_soln, over)
    if names:
        last = run.solutions[max(names, key=int)]
        final = run.final_solution
        if res.code == 0:
            ctx.check(final is not None and not ff.diff(
                ff.plain(last), ff.plain(final)), "final-solution",
                "{}: the final solution is not the last of {}".format(
                    method, names))
        else:
            ctx.check(final is None, "final-solution",
                      "{}: failed, but has a final solution".format(method))
    ctx.check(str(run.config_filename) == str(cfg) and
              run.sonic_method == method and
              bool(run.use_E_r) == bool(exp_soln["use_E_r"]) and
              run.based_on_solution_filename is None, "run-metadata",
              "metadata of the run: {}".format(ff.plain(run)))
    ctx.check(all((s.internal_data is not None) == internal or
                  s.internal_data is None
                  for s in run.solutions.values()), "internal-option",
              "internal data stored against --no-store-internal")
    if internal:
        ctx.check(all(s.internal_data is not None and (
            method != "single" or len(s.internal_data.angles)) for s in run.solutions.values()),
            "internal-option", "no internal data despite --store-internal")
    ctx.observe(("run", tuple(sorted(over)), internal, named),
                dict(argv=[str(a) for a in argv]))

    # and again from the result
    over2 = {k: v for k, v in dict(gen.overrides(rng), **{
        k: small[k] for k in ("stop", "num_angles", "use_E_r", "label",
                              "relative_tolerance")}).items()
        if rng.random() < .25}
    exp_cfg2 = dict(exp_cfg, **over2)
    stored = exp_soln
    m = meaning(exp_cfg2)
    exp2 = dict(stored, **{k: m[k] for k in over2 if k != "label"})
    rng_name = str(rng.choice(["0", "final", "latest"]))
    if method == "step":
        return
    argv = ["--output-dir", d, "--sonic-method", method, path, rng_name]
    named = rng.random() < .5
    if named:
        argv = ["--output-file", "again.hdf5"] + argv
    for k, v in over2.items():
        argv += ["--override", k, v]
    before = path.read_bytes()
    res = cli.run_cli("ds-resoln", argv)
    ctx.check(path.read_bytes() == before, "resolve-changes-original",
              "ds-resoln changed the file it is based on")
    if res.exc is not None:
        from disc_solver.solve import SolverError
        if not isinstance(res.exc, SolverError):
            ctx.violation("ds-resoln", "ds-resoln failed with {!r}".format(
                res.exc), argv=argv)
        return
    ctx.count("resolves")
    again = Path(output_of(res, d))
    ctx.check(again.exists() and again.parent == d and again != path and
              (again.name == "again.hdf5" if named else
               again.name.startswith(exp_cfg["label"])),
              "output-name", "ds-resoln wrote {} in {} for label {}".format(
                  again, d, exp_cfg["label"]))
    ctx.check(res.code == 0, "exit-code", "ds-resoln returned {}".format(
        res.code))
    new = load(again)
    compare(ctx, "ds-resoln", new, exp_cfg2, exp2, over2)
    ctx.check(str(new.based_on_solution_filename) == str(path) and
              str(new.config_filename) == str(cfg) and
              new.sonic_method == method and
              bool(new.use_E_r) == bool(exp2["use_E_r"]), "run-metadata",
              "metadata of the run: {}".format(ff.plain(new)))
    if not over2:
        s = ff.plain(run.solutions["0"].solution)
        t = ff.plain(new.solutions["0"].solution)
        ctx.check(not ff.diff(s, t), "resolve-not-reproducing", "solving "
                  "the same input again gave another solution")
        ctx.count("reproduced")
    ctx.observe(("resolve", tuple(sorted(over2)), rng_name))


def compare(ctx, route, run, exp_cfg, exp_soln, over):
    d = ff.diff({k: ff.plain(v) for k, v in exp_cfg.items()},
                {k: ff.plain(v) for k, v in run.config_input.asdict().items()})
    ctx.check(not d, "recorded-config", "{} with overrides {}: recorded "
              "configuration differs at {}".format(route, over, d))
    for name in run.solutions:
        d = ff.diff(exp_soln, ff.plain(run.solutions[name].solution_input))
        ctx.check(not d, "recorded-input", "{} with overrides {}: recorded "
                  "input differs at {}".format(route, over, d))


def refused(ctx, case):
    """An override naming no field is refused and nothing is written"""
    rng = ctx.subrng("bad", case)
    from disc_solver.solve import SolverError
    d = ctx.tmp("p14")
    name = str(rng.choice(["η", "Start", "v_rin", "use_e_r", "asdict", "",
                           "__class__", "solution"]))
    cfg = d / "c.cfg"
    cfg.write_text("[config]\nnum_angles=30\nmax_steps=200\n")
    argv = ["--output-dir", d, "--override", "stop", "3", "--override", name,
            "1", cfg]
    if rng.random() < .5:
        argv[2:5], argv[5:8] = argv[5:8], argv[2:5]
    res = cli.run_cli("ds-soln", argv)
    ctx.count("refused")
    ctx.check(isinstance(res.exc, SolverError), "bad-override",
              "override of {!r} gave {!r}, {!r}".format(
                  name, res.code, res.exc))
    ctx.check([p.name for p in d.iterdir()] == ["c.cfg"], "bad-override",
              "files {} after a refused override".format(list(d.iterdir())))
    ctx.observe(("refused", name))


def existing(ctx, case):
    """An existing output file is never overwritten"""
    d = ctx.tmp("p14")
    cfg = d / "c.cfg"
    cfg.write_text("[config]\nnum_angles=30\nmax_steps=200\nstop=1\n")
    old = d / "out.hdf5"
    old.write_bytes(b"precious")
    res = cli.run_cli("ds-soln", ["--output-dir", d, "--output-file",
                                  "out.hdf5", cfg])
    ctx.check(old.read_bytes() == b"precious" and res.exc is not None,
              "output-overwritten", "existing output file was overwritten")
    ctx.observe(("existing",))


def run(ctx):
    for case in range(ctx.n(150, 3000)):
        if not ctx.more():
            break
        merge(ctx, case)
        if case % 3 == 0:
            file_merge(ctx, case)
    for case in range(10):
        refused(ctx, case)
    existing(ctx, 0)
    for case in range(ctx.n(30, 250)):
        if not ctx.more():
            break
        end_to_end(ctx, case)
