"""
P11: files written by earlier versions of the format are read completely.

Monitor: files laid out as each historical version wrote them are produced
(from a current file, by a rewriting which follows the table of format
changes below) and read; every field which the version had is compared with
what was stored, every other with its documented default.
"""
from fractions import Fraction

import numpy as np

from checks.p10 import load, read_modes
from vp import ff

PROPERTY = "P11"
RULE = ("random runs laid out as every combination of container versions "
        "which could occur together, read with and without caching; distinct "
        "by versions, reading mode, layout of the solutions and formulation")
MIN_NONTRIVIAL = 60
MIN_COUNTERS = {"solutions_compared": 100, "fields_compared": 3000}

LATEST = dict(SolutionInput=14, ConfigInput=14, Run=6, Solution=4,
              InitialConditions=3, InternalData=3)

# fields added by a version of SolutionInput and ConfigInput
ADDED = {
    14: ["use_E_r"], 13: ["interp_slice"],
    12: ["sonic_interp_size", "interp_range"], 11: ["after_sonic"],
    10: ["v_θ_sonic_crit"], 9: ["mcmc_vars"], 8: ["use_taylor_jump"],
    7: ["split_method"], 6: ["target_velocity"],
    5: ["nwalkers", "iterations", "threads"], 3: ["η_derivs"],
    2: ["jump_before_sonic"],
}
# what a missing field means, see the containers
DEFAULT = dict(
    interp_slice=slice(-1000, -100), sonic_interp_size=None, interp_range=10,
    after_sonic=None, v_θ_sonic_crit=None, mcmc_vars=None,
    use_taylor_jump=True, target_velocity=None, nwalkers=None,
    iterations=None, threads=None, η_derivs=True, jump_before_sonic=None,
    split_method="v_θ_deriv")
CONFIG_DEFAULT = dict(
    DEFAULT, interp_slice="-1000,-100", interp_range="10",
    use_taylor_jump="True", η_derivs="True")
ANY = object()


def drop(group, name):
    if name in group.attrs:
        del group.attrs[name]
    elif name in group:
        del group[name]
    else:
        raise KeyError(name)


def label(obj):
    return obj.attrs.get("_h5preserve_label")


def version(group, v):
    group.attrs["_h5preserve_version"] = v


def old_input(group, expected, v, config, use_E_r):
    """Rewrite an input group as version v, and what has to be read"""
    default = CONFIG_DEFAULT if config else DEFAULT
    for k in range(14, v, -1):
        if k == 13:
            d = group["interp_range"]
            value = d[()] if d.shape is not None else None
            del group["interp_range"]
            if isinstance(value, bytes):
                value = value.decode("utf8")
            if value is None:
                value = 10
                expected["interp_range"] = 10.0
            group.attrs["interp_range"] = value
        if k == 4:
            γ = group.attrs["γ"]
            del group.attrs["γ"]
            if config:
                γ = Fraction(γ)
                group.attrs["β"] = str(Fraction("5/4") - γ)
                expected["γ"] = γ
            else:
                group.attrs["β"] = 5 / 4 - γ
                expected["γ"] = float(5 / 4 - (5 / 4 - γ))
            continue
        for name in ADDED[k]:
            drop(group, name)
            if name == "use_E_r":
                expected[name] = str(use_E_r) if config else float(use_E_r)
            elif name == "split_method" and config:
                expected[name] = ANY
            else:
                expected[name] = ff.plain(default[name])
    version(group, v)


def old_initial(group, expected, v):
    if v < 3:
        γ = group.attrs["γ"]
        del group.attrs["γ"]
        group.attrs["β"] = 5 / 4 - γ
        expected["γ"] = float(5 / 4 - (5 / 4 - γ))
    if v < 2:
        del group.attrs["a_0"]
        expected["a_0"] = float("nan")
    version(group, v)


def old_internal(group, expected, v):
    if v < 3:
        del group["jacobian_data"]
        m = 11
        expected["jacobian_data"] = {
            "": "JacobianData",
            "jacobians": ff.plain(np.zeros((0, m, m))),
            "derivs": ff.plain(np.zeros((0, m))),
            "params": ff.plain(np.zeros((0, m))),
            "angles": ff.plain(np.zeros(0))}
    if v < 2:
        del group["problems"]
        expected["problems"] = {}
    version(group, v)


def old_solution(group, expected, versions, use_E_r):
    v = versions["Solution"]
    if v < 4:
        del group.attrs["is_post_shock_only"]
        expected["is_post_shock_only"] = 0.0
    if v < 3:
        for name in ("sonic_point", "sonic_point_values"):
            del group[name]
            expected[name] = None
    if v < 2:
        del group["derivatives"]
        expected["derivatives"] = None
    version(group, v)
    old_input(group["solution_input"], expected["solution_input"],
              versions["SolutionInput"], False, use_E_r)
    old_initial(group["initial_conditions"], expected["initial_conditions"],
                versions["InitialConditions"])
    if label(group["internal_data"]) == "InternalData":
        old_internal(group["internal_data"], expected["internal_data"],
                     versions["InternalData"])


def old_run(group, expected, v):
    if v < 6:
        del group.attrs["is_post_shock_only"]
        for name in ("based_on_solution_filename",
                     "based_on_solution_solution_name"):
            del group[name]
            expected[name] = None
        expected["is_post_shock_only"] = 0.0
    if v < 5:
        del group["use_E_r"]
        expected["use_E_r"] = 0.0
    if v < 4:
        del group["sonic_method"]
        expected["sonic_method"] = "unknown"
    if v < 3:
        del group["float_type"]
        expected["float_type"] = None
    if v < 2:
        del group["disc_solver_version"]
        expected["disc_solver_version"] = None
    version(group, v)


def diff(ctx, expected, got):
    """ff.diff with the entries which may be anything removed"""
    for path in (expected, expected.get("solution_input", {})):
        for k, v in list(path.items()):
            if v is ANY:
                sub = got if path is expected else got["solution_input"]
                path.pop(k)
                sub.pop(k, None)
    γ = expected.get("γ")
    if isinstance(γ, Fraction):
        expected = dict(expected, γ="γ")
        try:
            same = Fraction(got["γ"]) == γ
        except (ValueError, TypeError):
            same = False
        got = dict(got, γ="γ" if same else got["γ"])
    ctx.count("fields_compared", len(expected))
    return ff.diff(expected, got)


def history(rng, case):
    """Container versions which a release could have written together"""
    if case % 3 == 0:
        # every version on its own
        flat = [(k, v) for k in LATEST for v in range(1, LATEST[k] + 1)]
        name, v = flat[(case // 3) % len(flat)]
        out = dict(LATEST)
        out[name] = v
        if name in ("SolutionInput", "ConfigInput"):
            out["SolutionInput"] = out["ConfigInput"] = v
            if v < 14:
                out["Run"] = int(rng.integers(1, 7))
        return out
    x = rng.uniform()
    return {k: max(1, min(top, int(np.ceil(top * x + rng.uniform(-1, 1)))))
            for k, top in LATEST.items()}


def case_run(ctx, case):
    import h5py
    from h5preserve import open as h5open
    from disc_solver.file_format import registries
    rng = ctx.subrng(case)
    versions = history(rng, case)
    if min(versions["SolutionInput"], versions["ConfigInput"]) < 14:
        versions["SolutionInput"] = min(versions["SolutionInput"], 13)
        versions["ConfigInput"] = min(versions["ConfigInput"], 13)
    run = ff.rand_run(rng, use_E_r=bool(rng.random() < .5))
    use_E_r = bool(run.use_E_r) if versions["Run"] >= 5 else False
    n = int(rng.integers(0, 4))
    # the early formats held one angle grid and no empty internal data
    solns = [ff.rand_solution(rng) for _ in range(n)]
    expected_run = ff.plain(run)
    expected = []
    path = ctx.tmp("p11") / "r.hdf5"
    with h5open(path, registries, mode="x") as f:
        f["run"] = run
        for s in solns:
            expected.append(ff.plain(s))
            run.solutions.add_solution(s)
    as_dict = versions["Run"] < 5 and rng.random() < .5
    final = int(rng.integers(n)) if n and rng.random() < .7 else None
    with h5py.File(path, "r+") as f:
        g = f["run"]
        if n:
            for i in range(n):
                old_solution(g["solutions"][str(i)], expected[i], versions,
                             use_E_r)
        elif "solutions" not in g:
            g.create_group("solutions")
        if as_dict:
            for k in list(g["solutions"].attrs):
                del g["solutions"].attrs[k]
            g["solutions"].attrs["_h5preserve_namespace"] = \
                "Python: dict as group"
            g["solutions"].attrs["_h5preserve_label"] = "dict"
        if final is not None:
            if "final_solution" in g:
                del g["final_solution"]
            if rng.random() < .5:
                g["final_solution"] = g["solutions"][str(final)]
            else:
                g.copy("solutions/" + str(final), "final_solution")
        old_input(g["config_input"], expected_run["config_input"],
                  versions["ConfigInput"], True, use_E_r)
        old_run(g, expected_run, versions["Run"])

    tag = "versions {}".format(versions)

    def copy(x):
        return {k: copy(v) for k, v in x.items()} if isinstance(
            x, dict) else x

    def use(run):
        cfg = expected_run["config_input"]
        got = ff.plain(run)
        d = diff(ctx, copy(cfg), got["config_input"])
        e = {k: v for k, v in expected_run.items() if k != "config_input"}
        got.pop("config_input")
        d += diff(ctx, e, got)
        ctx.check(not d, "old-run-fields", "fields of the run differ: {} "
                  "({})".format(d, tag))
        if versions["ConfigInput"] >= 6:
            ctx.call("old-config-unusable", run.config_input.to_soln_input)
        names = sorted(run.solutions, key=int)
        if not ctx.check(names == [str(i) for i in range(n)],
                         "old-solution-names", "names {} of {} solutions "
                         "({})".format(names, n, tag)):
            return
        for i in range(n):
            d = diff(ctx, copy(expected[i]), ff.plain(run.solutions[str(i)]))
            ctx.count("solutions_compared")
            ctx.check(not d, "old-solution-fields", "solution differs at {} "
                      "({})".format(d, tag))
        fin = run.final_solution
        if ctx.check((fin is None) == (final is None), "old-final-solution",
                     "final solution {} ({})".format(fin is None, tag)) and (
                         fin is not None):
            d = diff(ctx, copy(expected[final]), ff.plain(fin))
            ctx.check(not d, "old-final-solution", "final solution differs "
                      "at {} ({})".format(d, tag))
    for mode in read_modes():
        ctx.call("old-file-unreadable", load, path, mode, use)
        ctx.observe((tuple(versions.values()), mode, as_dict, use_E_r, n),
                    dict(versions=versions, mode=mode, dict_layout=as_dict))
    path.unlink()


def run(ctx):
    for case in range(ctx.n(150, 2500)):
        if not ctx.more():
            break
        case_run(ctx, case)
