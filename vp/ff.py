"""Generators and comparison of the containers written to files."""
import numpy as np

from .gen import logu

FIELDS_NUM = ("start", "stop", "taylor_stop_angle", "relative_tolerance",
              "absolute_tolerance", "γ", "target_velocity", "v_rin_on_c_s",
              "v_a_on_c_s", "c_s_on_v_k", "η_O", "η_H", "η_A")
FIELDS_INT = ("max_steps", "num_angles", "nwalkers", "iterations", "threads")
FIELDS_BOOL = ("η_derivs", "use_taylor_jump", "use_E_r")
FIELDS_OPTFLOAT = ("jump_before_sonic", "v_θ_sonic_crit", "after_sonic",
                   "sonic_interp_size")


def rand_float(rng):
    k = rng.integers(6)
    if k == 0:
        return 0.0
    if k == 1:
        return float(rng.integers(-50, 100))
    if k == 2:
        return -logu(rng, 1e-12, 1e3)
    return logu(rng, 1e-15, 1e5)


def rand_slice(rng, full=True):
    """Slices the configuration format is able to express."""
    k = rng.integers(7 if full else 4)
    a, b = sorted(int(x) for x in rng.integers(-2000, 0, 2))
    if k == 0:
        return slice(-1000, -100)
    if k == 1:
        return slice(a, b)
    if k == 2:
        return slice(a, b, int(rng.integers(1, 9)))
    if k == 3 and rng.random() < .4:
        # from the first, up to the first
        return slice(0, int(rng.integers(1, 500))) if b % 2 else slice(a, 0)
    if k == 3:
        return slice(None, int(rng.integers(1, 500)))
    if k == 4:
        return slice(int(rng.integers(1, 500)), None)
    if k == 5:
        return slice(None, None, int(rng.integers(2, 5)))
    return None


def rand_mcmc(rng):
    from disc_solver.file_format import MCMCVars
    if rng.random() < .3:
        return None
    which = rng.random(3) < .5
    which[rng.integers(3)] = True
    return MCMCVars(*[bool(x) for x in which])


def rand_solution_input(rng, **over):
    from disc_solver.file_format import SolutionInput
    d = {f: rand_float(rng) for f in FIELDS_NUM}
    d.update({f: int(rng.integers(0, 10 ** int(rng.integers(1, 7))))
              for f in FIELDS_INT})
    d.update({f: bool(rng.random() < .5) for f in FIELDS_BOOL})
    d.update({f: None if rng.random() < .5 else rand_float(rng)
              for f in FIELDS_OPTFLOAT})
    if rng.random() < .5:
        # as produced by to_soln_input
        d.update({f: np.float64(v) for f, v in d.items()
                  if isinstance(v, float)})
    d["split_method"] = str(rng.choice(["v_θ_deriv", "human"]))
    d["mcmc_vars"] = rand_mcmc(rng)
    d["interp_range"] = None if rng.random() < .2 else int(
        rng.integers(1, 300))
    d["interp_slice"] = rand_slice(rng)
    d.update(over)
    return SolutionInput(**d)


LABELS = ["default", "a b", "ηβ-λ", "x#y;z", "run:1=2", "50%", "%(start)s",
          "[config]", "a'b\"c", "100%%", "l,m"]


def rand_label(rng):
    return str(rng.choice(LABELS))


def rand_config_input(rng, **over):
    from disc_solver.file_format import ConfigInput
    s = rand_solution_input(rng)
    c = s.to_config_input(rand_label(rng))
    d = {k: getattr(c, k) for k in c.asdict()}
    # other spellings of the same kind of value
    if rng.random() < .3:
        d["start"] = "1/4"
    if rng.random() < .3:
        d["max_steps"] = "1e4"
    if rng.random() < .3:
        d["jump_before_sonic"] = None
    d.update(over)
    return ConfigInput(**d)


def rand_array(rng, *shape):
    a = rng.normal(size=shape) * 10 ** rng.uniform(-8, 8, size=shape)
    if a.size and rng.random() < .3:
        a.flat[int(rng.integers(a.size))] = np.nan
    if a.size and rng.random() < .2:
        a.flat[int(rng.integers(a.size))] = np.inf
    return a


def rand_problems(rng):
    from disc_solver.file_format import Problems
    p = Problems()
    for _ in range(int(rng.integers(0, 4))):
        key = rand_float(rng)
        for _ in range(int(rng.integers(1, 4))):
            p[key] = str(rng.choice(
                ["negative density", "negative velocity", "ρ < 0 — η", "",
                 "a longer description of the problem"]))
    return p


def rand_internal(rng):
    from disc_solver.file_format import InternalData
    from disc_solver.utils import ODEIndex
    n = int(rng.choice([0, 1, 2, 17]))
    j = int(rng.choice([0, 1, 5]))
    m = len(ODEIndex)
    as_list = rng.random() < .5

    def arr(*shape):
        a = rand_array(rng, *shape)
        return list(a) if as_list else a
    return InternalData(
        derivs=arr(n, m), params=arr(n, m), angles=arr(n),
        jacobian_data=type(InternalData().jacobian_data)(
            jacobians=arr(j, m, m), derivs=arr(j, m), params=arr(j, m),
            angles=arr(j)),
        v_r_normal=arr(n), v_φ_normal=arr(n), ρ_normal=arr(n),
        v_r_taylor=arr(n), v_φ_taylor=arr(n), ρ_taylor=arr(n),
        problems=rand_problems(rng))


def rand_initial(rng):
    from disc_solver.file_format import InitialConditions
    y = rng.normal(size=11)
    return InitialConditions(
        norm_kepler_sq=logu(rng, 1, 1e4), γ=rand_float(rng), init_con=y,
        angles=np.linspace(0, rng.uniform(.01, 1.5), int(rng.integers(0, 9))),
        a_0=logu(rng, 1e-2, 10))


def rand_solution(rng):
    from disc_solver.file_format import Solution
    from disc_solver.utils import ODEIndex
    n = int(rng.choice([0, 1, 2, 30]))
    m = len(ODEIndex)
    roots = int(rng.integers(0, 4))
    return Solution(
        solution_input=rand_solution_input(rng),
        angles=np.sort(rng.uniform(0, 1.5, n)),
        solution=rand_array(rng, n, m),
        flag=int(rng.integers(-5, 5)),
        coordinate_system=str(rng.choice(
            ["spherical midplane 0", "cylindrical", "unknown"])),
        internal_data=None if rng.random() < .2 else rand_internal(rng),
        initial_conditions=rand_initial(rng),
        t_roots=None if roots == 0 else rand_array(rng, roots),
        y_roots=None if roots == 0 else rand_array(rng, roots, m),
        sonic_point=None if roots == 0 else float(rng.uniform(0, 1)),
        sonic_point_values=None if roots == 0 else rand_array(rng, m),
        is_post_shock_only=bool(rng.random() < .3))


def rand_run(rng, **over):
    from disc_solver.file_format import Run
    d = dict(
        config_input=rand_config_input(rng),
        config_filename=str(rng.choice(["None", "a.cfg", "/x y/ζ.cfg"])),
        disc_solver_version=str(rng.choice(["0.1", "0+untagged.1.gabc"])),
        float_type="<class 'numpy.float64'>",
        sonic_method=str(rng.choice(["single", "step", "mcmc"])),
        use_E_r=bool(rng.random() < .5),
        time=None if rng.random() < .5 else "2020-01-01T00:00:00",
    )
    if rng.random() < .3:
        d.update(is_post_shock_only=True, based_on_solution_filename="q.hdf5",
                 based_on_solution_solution_name="3")
    d.update(over)
    return Run(**d)


def plain(x):
    """
    Structure of plain python values, in which equal content is equal;
    independent of how the values are held.
    """
    import attr
    if x is None or isinstance(x, (str, bytes)):
        return x
    if isinstance(x, slice):
        return ("slice", plain(x.start), plain(x.stop), plain(x.step))
    name = type(x).__name__
    if name == "MCMCVars":
        return (name, bool(np.asarray(x.with_v_r)), bool(
            np.asarray(x.with_v_a)), bool(np.asarray(x.with_v_k)))
    if name == "Problems":
        return {str(k): [str(s) for s in v] for k, v in x.items() if len(v)}
    if attr.has(type(x)):
        if hasattr(x, "_finalise"):
            x._finalise()
        out = {"": name}
        for f in attr.fields(type(x)):
            if name == "Run" and f.name in ("_final_solution", "solutions"):
                continue
            out[f.name] = plain(getattr(x, f.name))
        return out
    a = np.asarray(x)
    if a.dtype.kind in "SU":
        return str(a) if a.ndim == 0 else [str(v) for v in a]
    if a.dtype.kind == "O":
        return repr(x)
    if a.ndim == 0:
        v = a.item()
        return float(v) if isinstance(v, (int, float)) else v
    return ("array", a.shape, a.astype(float).tobytes())


def diff(a, b, path=""):
    """List of the paths at which two plain structures differ"""
    if isinstance(a, dict) and isinstance(b, dict):
        out = []
        for k in sorted(set(a) | set(b), key=str):
            if k not in a or k not in b:
                out.append(path + "/" + str(k))
            else:
                out.extend(diff(a[k], b[k], path + "/" + str(k)))
        return out
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
        return []
    if type(a) is type(b) and a == b:
        return []
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) \
            and a[0] == b[0] == "array" and a[1] == b[1]:
        x, y = np.frombuffer(a[2]), np.frombuffer(b[2])
        if np.array_equal(x, y, equal_nan=True):
            return []
    return [path or "/"]
