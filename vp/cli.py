"""Running the command line entry points in-process."""
import contextlib
import importlib
import os
import re
import sys
import tempfile

from .core import REPO

_table = {}


def table():
    """Entry points which the package installs"""
    if not _table:
        text = (REPO / "setup.py").read_text(encoding="utf8")
        for name, target in re.findall(
                r'"(ds-[\w-]+)\s*=\s*([\w.]+:\w+)"', text):
            _table[name] = target
    return _table


def entry(name):
    mod, func = table()[name].split(":")
    return getattr(importlib.import_module(mod), func)


class Result:
    def __init__(self, code, out, err, exc):
        self.code, self.out, self.err, self.exc = code, out, err, exc


@contextlib.contextmanager
def captured():
    """Redirect file descriptors 1 and 2 (also those of child processes)"""
    result = {}
    sys.stdout.flush()
    sys.stderr.flush()
    saved = os.dup(1), os.dup(2)
    with tempfile.TemporaryFile() as out, tempfile.TemporaryFile() as err:
        os.dup2(out.fileno(), 1)
        os.dup2(err.fileno(), 2)
        try:
            yield result
        finally:
            sys.stdout.flush()
            sys.stderr.flush()
            os.dup2(saved[0], 1)
            os.dup2(saved[1], 2)
            os.close(saved[0])
            os.close(saved[1])
            for name, f in (("out", out), ("err", err)):
                f.seek(0)
                result[name] = f.read().decode("utf8", "replace")


def run_cli(name, argv):
    """Run an entry point; SystemExit and exceptions are part of the result"""
    func = entry(name)
    code = exc = None
    with captured() as res:
        try:
            code = func([str(a) for a in argv])
        except SystemExit as e:
            code = e.code
            exc = e
        except Exception as e:  # noqa
            exc = e
    return Result(code, res["out"], res["err"], exc)
