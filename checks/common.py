"""Helpers shared by the harnesses (specifications only; nothing from the code under test)."""

import importlib
import sys
from contextlib import ExitStack, contextmanager
from fractions import Fraction
from unittest import mock


def div(S, x, n):
    return x * Fraction(1, n) if S.symbolic else x / n


def mean(S, r):
    r = list(r)
    return div(S, S.sum(r), len(r))


def count(S, conds):
    return S.sum(S.ite(c, 1, 0) for c in conds)


REAL = "real arithmetic: floats are read as exact rationals and rounding is ignored; counterexamples are replayed in floating point"


@contextmanager
def replaced(path, fn):
    """A library function replaced by a stand-in, however the code under test imported it."""
    module, name = path.rsplit(".", 1)
    old = getattr(importlib.import_module(module), name)
    with ExitStack() as stack:
        for m in [m for n, m in list(sys.modules.items()) if n.startswith("skfolio") and m is not None]:
            for k, v in list(vars(m).items()):
                if v is old or vars(type(v)).get("__call__") is not None and getattr(v, "__dict__", {}).get("_f") is old:
                    stack.enter_context(mock.patch.object(m, k, fn))
        stack.enter_context(mock.patch(path, fn))
        yield
