"""
Shared harness: environment, seeding, evidence, verdicts and known findings.

A check is a module in /verif/checks with PROPERTY, MIN_NONTRIVIAL, RULE and
a run(ctx) function.  Verdicts are three-valued:
  0  held on everything observed
  1  VIOLATION line printed
  2  inconclusive (monitor not reached often enough, or watchdog)
  3  the harness itself failed
"""
import atexit
import hashlib
import json
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import zlib
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("VP_REPO", "/repo"))
SRC = REPO / "src"


def setup_env():
    """Keep every side effect in a scratch directory which is removed."""
    scratch = Path(tempfile.mkdtemp(prefix="vp-check-"))
    owner = os.getpid()

    def clean():
        if os.getpid() == owner:
            shutil.rmtree(str(scratch), ignore_errors=True)
    atexit.register(clean)
    (scratch / "mpl").mkdir()
    (scratch / "tmp").mkdir()
    env = dict(
        MPLCONFIGDIR=str(scratch / "mpl"), MPLBACKEND="Agg",
        OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
        PYTHONDONTWRITEBYTECODE="1", LANG="C.UTF-8", LC_ALL="C.UTF-8",
        TMPDIR=str(scratch / "tmp"), XDG_CACHE_HOME=str(scratch / "tmp"),
        HDF5_USE_FILE_LOCKING="FALSE",
    )
    os.environ.update(env)
    sys.dont_write_bytecode = True
    tempfile.tempdir = str(scratch / "tmp")
    os.chdir(str(scratch))
    return scratch


def import_target():
    """Import the code under test from the working tree, never a copy."""
    sys.path.insert(0, str(SRC))
    import warnings
    warnings.simplefilter("ignore")
    import disc_solver
    assert Path(disc_solver.__file__).resolve().is_relative_to(
        SRC.resolve()), disc_solver.__file__
    import logbook
    logbook.NullHandler().push_application()


class Inconclusive(Exception):
    pass


class Ctx:
    def __init__(self, prop, tier, seed, scratch):
        import numpy as np
        self.np = np
        self.prop, self.tier, self.seed = prop, tier, seed
        self.scratch = scratch
        self.thorough = tier == "thorough"
        self.t0 = time.monotonic()
        self.rng = np.random.default_rng([seed, zlib.crc32(prop.encode())])
        self.evaluations = 0
        self.distinct = set()
        self.counters = {}
        self.samples = []
        self.violations = []
        self.known_hit = {}
        self.inconclusive = []
        self.known = load_known(prop)
        self.budget = 600 if self.thorough else 240

    # -- work control -----------------------------------------------------
    def n(self, quick, thorough=None):
        return (thorough or quick * 8) if self.thorough else quick

    def elapsed(self):
        return time.monotonic() - self.t0

    def more(self):
        """False once the time budget of this check is used up."""
        if self.elapsed() > self.budget:
            self.count("stopped_by_budget")
            return False
        return len(self.violations) < 25

    def subrng(self, *key):
        return self.np.random.default_rng(
            [self.seed, zlib.crc32(repr((self.prop,) + key).encode())])

    def tmp(self, name="d"):
        return Path(tempfile.mkdtemp(prefix=name + "-", dir=str(
            self.scratch / "tmp")))

    # -- observation ------------------------------------------------------
    def count(self, name, k=1):
        self.counters[name] = self.counters.get(name, 0) + k

    def observe(self, key, sample=None):
        """One monitored observation; key says what makes it distinct."""
        self.evaluations += 1
        if key is not None:
            self.distinct.add(hashlib.sha1(
                repr(key).encode()).hexdigest()[:16])
        if sample is not None and len(self.samples) < 6:
            self.samples.append(jsonable(sample))

    # -- verdicts ---------------------------------------------------------
    def violation(self, signature, what, **details):
        """
        signature names the mechanism (never a case hash); an open known
        finding with the same signature turns it into a KNOWN-FINDING.
        """
        entry = self.known.get(signature)
        if entry is not None:
            self.known_hit.setdefault(signature, 0)
            self.known_hit[signature] += 1
            return
        self.violations.append(dict(
            signature=signature, what=what, details=jsonable(details)))

    def check(self, ok, signature, what, **details):
        if not ok:
            self.violation(signature, what, **details)
        return bool(ok)

    def call(self, signature, func, *args, **kwargs):
        """
        Call code under test where the property says it has to succeed; an
        exception is a violation. Returns (ok, value).
        """
        try:
            return True, func(*args, **kwargs)
        except Exception as e:  # noqa
            self.violation(
                signature, "unexpected {}: {}".format(
                    type(e).__name__, str(e)[:300]),
                traceback=traceback.format_exc()[-3000:])
            return False, None


def jsonable(x, depth=0):
    import numpy as np
    if depth > 6:
        return repr(x)[:200]
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(
            x.items())[:60]}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v, depth + 1) for v in list(x)[:60]]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist(), depth + 1)
    if isinstance(x, np.generic):
        return jsonable(x.item(), depth + 1)
    if isinstance(x, (str, int, bool)) or x is None:
        return x if not isinstance(x, str) else x[:3000]
    if isinstance(x, float):
        return x if x == x and abs(x) != float("inf") else repr(x)
    return repr(x)[:300]


def load_known(prop):
    known = {}
    path = VERIF / "known_findings.jsonl"
    if path.exists():
        for line in path.read_text().splitlines():
            line = line.strip()
            if not line:
                continue
            e = json.loads(line)
            if e.get("status") == "open" and e["property"] == prop:
                known[e["signature"]] = e
    return known


def main(argv):
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    args = argv[1:]
    if "--thorough" in args:
        tier = "thorough"
    if "--replay" in args:
        rep = json.loads(Path(args[args.index("--replay") + 1]).read_text())
        tier, seed = rep["tier"], rep["seed"]
    os.environ["PYTHONHASHSEED"] = "0"
    scratch = setup_env()
    hard = 850 if tier == "quick" else 3000

    def watchdog(signum, frame):
        print("INCONCLUSIVE property={} watchdog after {}s".format(
            prop, hard), flush=True)
        traceback.print_stack(frame)
        os._exit(2)
    signal.signal(signal.SIGALRM, watchdog)
    signal.alarm(hard)

    try:
        import_target()
    except Exception:
        traceback.print_exc()
        print("HARNESS: could not import the code under test")
        return 3
    import importlib
    mod = importlib.import_module("checks." + prop.lower())
    ctx = Ctx(prop, tier, seed, scratch)
    try:
        mod.run(ctx)
    except Inconclusive as e:
        ctx.inconclusive.append(str(e))
    except (Exception, SystemExit) as e:
        tb = e.__traceback__
        frames = traceback.extract_tb(tb)
        # An exception which nothing expected and which was raised by the
        # code under test is that code failing. Files, entries or values
        # which are not there when its results are judged are its failure,
        # too; anything else (such as names which are not there) is ours.
        last = frames[-1].filename if frames else ""
        inside = [f for f in frames if str(SRC) in f.filename]
        if not inside and (isinstance(e, (
                FileNotFoundError, KeyError, IndexError, ValueError)) or (
                "NoneType" in str(e))):
            inside = frames
            last = ""
        if inside and str(VERIF) not in last:
            ctx.violation(
                "uncaught:" + inside[-1].name,
                "unexpected {}: {}".format(type(e).__name__, str(e)[:300]),
                traceback=traceback.format_exc()[-3000:])
        else:
            traceback.print_exc()
            return 3
    return finish(ctx, mod)


def vanished(ctx, mod):
    """The workload is the same every time: where it ran to its end without
    what it always brings about, the code under test no longer does that"""
    if ctx.counters.get("stopped_by_budget") or ctx.inconclusive:
        return
    for name, k in getattr(mod, "MIN_COUNTERS", {}).items():
        if name in getattr(mod, "TIMED", ()):
            continue
        if not ctx.violations and 2 * ctx.counters.get(name, 0) < k:
            ctx.violation("vanished:" + name, "{} was observed {} times, "
                          "at least {} are expected".format(
                              name, ctx.counters.get(name, 0), k))


def finish(ctx, mod):
    from . import __name__ as _  # noqa
    vanished(ctx, mod)
    wall = ctx.elapsed()
    evdir = VERIF / "evidence"
    evdir.mkdir(exist_ok=True)
    nontrivial = len(ctx.distinct)
    evidence = dict(
        property=ctx.prop, tier=ctx.tier, seed=ctx.seed,
        level="exploration",
        coverage=dict(
            evaluations=ctx.evaluations, distinct_nontrivial=nontrivial,
            rule=mod.RULE, samples=ctx.samples or ["none"],
            counters=ctx.counters,
            known_findings_reproduced=ctx.known_hit,
        ),
        assumptions=getattr(mod, "ASSUMPTIONS", []),
        wall_s=round(wall, 2), violations=len(ctx.violations),
    )
    (evdir / (ctx.prop + ".json")).write_text(
        json.dumps(evidence, indent=1, ensure_ascii=False) + "\n")
    for sig, k in sorted(ctx.known_hit.items()):
        print("KNOWN-FINDING: property={} {} [{} observations]".format(
            ctx.prop, ctx.known[sig]["what"], k))
    print("{}: evaluations={} distinct={} wall={:.1f}s counters={}".format(
        ctx.prop, ctx.evaluations, nontrivial, wall, ctx.counters))
    if ctx.violations:
        repdir = evdir / "replay"
        repdir.mkdir(exist_ok=True)
        seen = {}
        for v in ctx.violations:
            seen.setdefault(v["signature"], []).append(v)
        for i, (sig, vs) in enumerate(list(seen.items())[:10]):
            path = repdir / "{}-{}.json".format(ctx.prop, i)
            path.write_text(json.dumps(dict(
                property=ctx.prop, tier=ctx.tier, seed=ctx.seed,
                signature=sig, count=len(vs), witnesses=vs[:3],
                how="VERIF_SEED={} VERIF_TIER={} bash run.sh {} --replay {}"
                .format(ctx.seed, ctx.tier, ctx.prop, path),
            ), indent=1, ensure_ascii=False))
            print("  {}: {}".format(sig, vs[0]["what"][:600]))
            print("VIOLATION property={} replay={}".format(ctx.prop, path))
        return 1
    minimum = getattr(mod, "MIN_NONTRIVIAL", 2)
    for name, k in getattr(mod, "MIN_COUNTERS", {}).items():
        if ctx.counters.get(name, 0) < k:
            ctx.inconclusive.append("{} observed {} < {}".format(
                name, ctx.counters.get(name, 0), k))
    if nontrivial < minimum:
        ctx.inconclusive.append("only {} distinct observations".format(
            nontrivial))
    if ctx.inconclusive:
        print("INCONCLUSIVE property={} {}".format(
            ctx.prop, "; ".join(ctx.inconclusive)))
        return 2
    return 0
