"""Loads the repository's command line scripts as modules."""
import importlib.util
import pathlib
import sys

from vlib.core import REPO

_cache = {}


def script(name):
    if name not in _cache:
        path = REPO / "src" / "paper" / f"{name}.py"
        spec = importlib.util.spec_from_file_location(f"paper_{name}", path)
        mod = importlib.util.module_from_spec(spec)
        saved = list(sys.path)
        try:
            spec.loader.exec_module(mod)
        finally:
            sys.path[:] = saved
        _cache[name] = mod
    return _cache[name]


class argv:
    def __init__(self, *a):
        self.a = list(a)

    def __enter__(self):
        self.old = sys.argv
        sys.argv = ["prog", *self.a]

    def __exit__(self, *e):
        sys.argv = self.old
