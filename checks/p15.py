"""
P15: inputs written to CSV are the inputs read from CSV.

Monitor: inputs recorded in run files go through every writer (ds-tocsv,
ds-dumpcsv, the runner's writer) and the reader; the multiset read is compared
with the multiset written.
"""
import csv

import numpy as np

from vp import cli, ff

PROPERTY = "P15"
RULE = ("random inputs through ds-tocsv (with and without header, appended), "
        "ds-dumpcsv over several files of which some are damaged, and the "
        "comment-aware writer, read by the runners' reader with comments at "
        "random places, columns reordered and foreign columns; distinct by "
        "route, number of rows and layout")
MIN_NONTRIVIAL = 60
MIN_COUNTERS = {"rows_compared": 300, "headerless": 20, "damaged_files": 8,
                "comments": 12}


def write_run(rng, path, n, finalise=True, label="x"):
    from h5preserve import open as h5open
    from disc_solver.file_format import registries
    run = ff.rand_run(rng)
    inputs = []
    with h5open(path, registries, mode="x") as f:
        f["run"] = run
        for _ in range(n):
            s = ff.rand_solution(rng)
            inputs.append(ff.plain(s.solution_input))
            run.solutions.add_solution(s)
        if finalise and n:
            run.finalise()
    return inputs


def read(ctx, path, label="lab"):
    """What the runners would solve"""
    from disc_solver.solve.utils import get_csv_inputs
    from disc_solver.file_format import ConfigInput
    ok, rows = ctx.call("csv-unreadable", get_csv_inputs, str(path),
                        label=label)
    if not ok:
        return None
    out, ids = [], []
    for row in rows:
        row = dict(row)
        ids.append((row.pop("filename", None), row.pop("solution_name",
                                                       None)))
        ctx.check(row.get("label") == label, "csv-label", "label {!r}".format(
            row.get("label")))
        ok, s = ctx.call("csv-row-unusable", lambda: ConfigInput(
            **row).to_soln_input())
        if not ok:
            return None
        out.append(ff.plain(s))
    return out, ids


def same_rows(ctx, sig, what, expected, got):
    if not ctx.check(len(expected) == len(got), sig + "-rows", "{}: {} rows "
                     "read for {} written".format(what, len(got),
                                                  len(expected))):
        return
    for i, (a, b) in enumerate(zip(expected, got)):
        ctx.count("rows_compared")
        d = ff.diff(a, b)
        ctx.check(not d, sig, "{}: row {} differs at {}".format(what, i, d),
                  written=a, read=b)


def decorate(ctx, rng, path, header):
    """
    Change the text of a file without changing its meaning: comments and
    blank lines anywhere, columns reordered and added when there is a header
    """
    text = path.read_text(encoding="utf8")
    done = []
    if header and rng.random() < .6:
        rows = list(csv.reader(text.splitlines()))
        order = rng.permutation(len(rows[0]))
        extra = rng.random() < .7
        mark = str(rng.choice(["f{}", "dir/a#{}.hdf5", "dir/a#{}.hdf5", "#{}",
                               "a b,{}"]))
        with path.open("w", encoding="utf8") as f:
            w = csv.writer(f, dialect="unix")
            if mark[0] != "#" and rng.random() < .7:
                # quotes where they are needed only
                w = csv.writer(f, lineterminator="\n")
                done.append("unquoted")
            for i, r in enumerate(rows):
                r = [r[j] for j in order]
                if extra:
                    r.insert(len(r) // 2, "max_slow_mach" if i == 0 else
                             "1.5")
                    r.insert(0 if "unquoted" in done else len(r),
                             "filename" if i == 0 else mark.format(i))
                    r.append("solution_name" if i == 0 else str(i))
                w.writerow(r)
        done.append("reordered")
        if extra:
            done.append("extra:" + mark)
        text = path.read_text(encoding="utf8")
    if rng.random() < .6:
        lines = text.splitlines()
        for _ in range(int(rng.integers(1, 4))):
            lines.insert(int(rng.integers(0, len(lines) + 1)), str(rng.choice(
                ["# comment", "#nworkers=3", "  # indented, with, commas",
                 '#"quoted","start"', "#"])))
            ctx.count("comments")
        path.write_text("\n".join(lines) + "\n", encoding="utf8")
        done.append("comments")
    return done


def tocsv(ctx, case):
    rng = ctx.subrng("tocsv", case)
    d = ctx.tmp("p15")
    inputs = write_run(rng, d / "r.hdf5", int(rng.integers(1, 5)))
    header = case % 2 == 0
    rows = int(rng.integers(1, 5))
    out = d / "o.csv"
    expected = []
    for i in range(rows):
        which = int(rng.integers(len(inputs)))
        argv = [d / "r.hdf5", which, "--file", out]
        if header and i == 0:
            argv.append("--with-header")
        res = cli.run_cli("ds-tocsv", argv)
        if not ctx.check(res.exc is None, "ds-tocsv", "ds-tocsv failed: {!r}"
                         .format(res.exc)):
            return
        expected.append(inputs[which])
    done = decorate(ctx, rng, out, header)
    if not header:
        ctx.count("headerless")
    got = read(ctx, out)
    if got is not None:
        same_rows(ctx, "tocsv", "ds-tocsv {} header, {}".format(
            "with" if header else "without", done), expected, got[0])
        mark = [x[6:] for x in done if x.startswith("extra:")]
        if mark:
            ctx.check(got[1] == [(mark[0].format(i + 1), str(i + 1))
                                 for i in range(rows)], "identification",
                      "solution identification {}".format(got[1]))
    ctx.observe(("tocsv", header, rows, tuple(done)),
                dict(header=header, rows=rows, layout=done))
    # stdout is the same
    res = cli.run_cli("ds-tocsv", [d / "r.hdf5", 0])
    path = d / "s.csv"
    path.write_text(res.out, encoding="utf8")
    got = read(ctx, path)
    ctx.count("headerless")
    if got is not None:
        same_rows(ctx, "tocsv", "ds-tocsv to stdout", [inputs[0]], got[0])


def dumpcsv(ctx, case):
    rng = ctx.subrng("dumpcsv", case)
    d = ctx.tmp("p15")
    files, expected = [], []
    for i in range(int(rng.integers(1, 4))):
        p = d / "r{}.hdf5".format(i)
        n = int(rng.integers(1, 4))
        fin = rng.random() < .7
        inputs = write_run(rng, p, n, finalise=fin)
        expected += inputs + ([inputs[-1]] if fin else [])
        files.append(p)
    kinds = []
    if case % 2:
        kind = str(rng.choice(["missing", "garbage", "norun", "truncated"]))
        kinds.append(kind)
        bad = d / "bad.hdf5"
        if kind == "garbage":
            bad.write_bytes(b"not hdf5" * 40)
        elif kind == "norun":
            import h5py
            with h5py.File(bad, "w") as f:
                f["x"] = 1
        elif kind == "truncated":
            data = files[0].read_bytes()
            bad.write_bytes(data[:len(data) // 2])
        files.insert(int(rng.integers(0, len(files) + 1)), bad)
        ctx.count("damaged_files")
    out = d / "o.csv"
    res = cli.run_cli("ds-dumpcsv", ["--file", out] + files)
    ctx.check(res.exc is None, "ds-dumpcsv", "ds-dumpcsv failed with {}: {!r}"
              .format(kinds, res.exc))
    if out.exists():
        got = read(ctx, out)
        if got is not None:
            # order within a file is not part of the contract
            def key(x):
                return repr(sorted(x.items(), key=str))
            same_rows(ctx, "dumpcsv", "ds-dumpcsv of {} files, {}".format(
                len(files), kinds), sorted(expected, key=key),
                sorted(got[0], key=key))
    ctx.observe(("dumpcsv", len(files), tuple(kinds), len(expected)))


def writer(ctx, case):
    """As the runner writes: metadata, header, rows; possibly from dicts"""
    from disc_solver.solve.utils import CSVWriterHelper, CSVReaderHelper
    from disc_solver.file_format import SOLUTION_INPUT_FIELDS
    rng = ctx.subrng("writer", case)
    d = ctx.tmp("p15")
    path = d / "w.csv"
    rows = [ff.rand_solution_input(rng) for _ in range(int(
        rng.integers(0, 6)))]
    meta = {k: v for k, v in dict(
        nworkers=3, store_internal=True, sonic_method="step",
        note="a, b; ηβ").items() if rng.random() < .7}
    with path.open("w", encoding="utf8") as f:
        h = CSVWriterHelper(f)
        w = csv.DictWriter(h, fieldnames=SOLUTION_INPUT_FIELDS,
                           dialect="unix")
        h.add_metadata(meta)
        w.writeheader()
        for r in rows:
            w.writerow(r.asdict())
    got = read(ctx, path)
    if got is not None:
        same_rows(ctx, "writer", "runner's format", [ff.plain(r) for r in
                                                     rows], got[0])
    with path.open(encoding="utf8") as f:
        h = CSVReaderHelper(f)
        lines = list(h)
        ctx.check([c.strip() for c in h.comments] == [
            "{}={}".format(k, v) for k, v in meta.items()], "metadata",
            "metadata {} read as {}".format(meta, h.comments))
        ctx.check(len(lines) == len(rows) + 1, "metadata", "{} lines for {} "
                  "rows".format(len(lines), len(rows)))
    ctx.observe(("writer", len(rows), tuple(meta)))


def run(ctx):
    assert np
    for case in range(ctx.n(40, 800)):
        if not ctx.more():
            break
        tocsv(ctx, case)
        dumpcsv(ctx, case)
        writer(ctx, case)
