"""Facets: one executable statement each, over generated cases.

A facet is a Hypothesis strategy that builds a *plain* case (JSON-able) and a
function that runs the real code on that case and compares with an oracle.  The
case is all there is: re-running the function on the case reproduces the run.
"""
import hashlib
import json
import random

import numpy as np
import torch


class Violation(Exception):
    """The code under test broke the property on this case."""


class Inconclusive(Exception):
    """The case cannot be judged (counted, never a violation)."""


class Facet:
    def __init__(self, fn, strategy, quick, thorough, shards, name):
        self.fn, self.strategy = fn, strategy
        self.quick, self.thorough, self.shards = quick, thorough, shards
        self.name = name


def facet(strategy, quick=200, thorough=None, shards=4, registry=None):
    """Register a facet in the calling module's FACETS list."""

    def deco(fn):
        import sys

        mod = sys.modules[fn.__module__]
        fs = mod.__dict__.setdefault("FACETS", [])
        fs.append(
            Facet(fn, strategy, quick, thorough or quick * 15, shards, fn.__name__)
        )
        return fn

    return deco


def finding(fid):
    """Register the demonstration of a known finding: returns True while the
    defect is there."""

    def deco(fn):
        import sys

        mod = sys.modules[fn.__module__]
        mod.__dict__.setdefault("FINDINGS", {})[fid] = fn
        return fn

    return deco


class Rec:
    __slots__ = ("nontrivial", "labels")

    def __init__(self):
        self.nontrivial = False
        self.labels = []

    def nt(self, cond=True):
        self.nontrivial = self.nontrivial or bool(cond)

    def label(self, *ls):
        self.labels.extend(str(x) for x in ls)


def _default(o):
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.floating,)):
        return float(o)
    if isinstance(o, (np.ndarray, torch.Tensor)):
        return o.tolist()
    if isinstance(o, (set, frozenset)):
        return sorted(o)
    raise TypeError(type(o))


def canon(case):
    return json.dumps(case, default=_default, sort_keys=True)


def digest(text):
    return hashlib.sha256(text.encode()).hexdigest()[:16]


def seed_all(text):
    s = int(hashlib.sha256(text.encode()).hexdigest()[:8], 16) & 0x7FFFFFFF
    torch.manual_seed(s)
    np.random.seed(s)
    random.seed(s)


# ---------------------------------------------------------------- comparisons
def require(cond, msg, *args):
    if not bool(cond):
        raise Violation(msg if not args else msg % args)


def _np(x):
    if isinstance(x, torch.Tensor):
        x = x.detach().cpu()
        if x.dtype == torch.bfloat16:
            x = x.float()
        return x.numpy()
    return np.asarray(x)


def close(actual, expected, msg="", rtol=1e-4, atol=1e-5):
    """Numeric agreement, shape included; NaN only matches NaN."""
    if actual is None:
        raise Violation(f"{msg}: got None, expected {_short(expected)}")
    try:
        a = _np(actual).astype(np.float64)
    except (TypeError, ValueError) as e:
        raise Violation(f"{msg}: not numeric: {type(actual)} {e}")
    e = _np(expected).astype(np.float64)
    if a.shape != e.shape:
        raise Violation(f"{msg}: shape {a.shape}, expected {e.shape}")
    ok = np.isclose(a, e, rtol=rtol, atol=atol, equal_nan=True)
    if not ok.all():
        i = tuple(int(v) for v in np.argwhere(~ok)[0]) if ok.ndim else ()
        raise Violation(
            f"{msg}: at {i} got {a[i]!r}, expected {e[i]!r} "
            f"(all: got {_short(a)}, expected {_short(e)})"
        )


def same(actual, expected, msg=""):
    """Exact agreement of arrays/tensors/scalars, shape included."""
    if actual is None and expected is not None:
        raise Violation(f"{msg}: got None, expected {_short(expected)}")
    a, e = _np(actual), _np(expected)
    if a.shape != e.shape:
        raise Violation(f"{msg}: shape {a.shape}, expected {e.shape}")
    if a.dtype.kind in "fc" or e.dtype.kind in "fc":
        eq = np.array_equal(a.astype(np.float64), e.astype(np.float64), equal_nan=True)
    else:
        eq = np.array_equal(a, e)
    if not eq:
        raise Violation(f"{msg}: got {_short(a)}, expected {_short(e)}")


def equal(actual, expected, msg=""):
    if not (actual == expected):
        raise Violation(f"{msg}: got {_short(actual)}, expected {_short(expected)}")


def raises(exc, fn, msg):
    try:
        out = fn()
    except exc:
        return
    raise Violation(f"{msg}: expected {exc}, returned {_short(out)}")


def _short(x):
    s = np.array2string(x, threshold=12, precision=6) if isinstance(x, np.ndarray) else repr(x)
    return s if len(s) < 300 else s[:300] + "..."
