"""Facet registry and the small vocabulary the checks use.

A *facet* is one generated-input test of one property: a Hypothesis strategy
that yields a plain JSON-able ``case`` and a function that builds data from the
case, runs the public API of diff_diff and compares with an oracle.
The function returns ``None``/``False`` for a trivial case, or a set/list of
labels (or ``True``) for a non-trivial one, and raises ``Violation`` when the
property does not hold.
"""
import math
import os
import sys
import warnings

_HYP = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
try:
    import hypothesis  # noqa: F401
except ImportError:
    if _HYP not in sys.path:
        sys.path.append(_HYP)
    import hypothesis  # noqa: F401

import numpy as np
from hypothesis import assume, strategies as st  # noqa: F401

warnings.filterwarnings("ignore")

FACETS = {}


class Violation(Exception):
    pass


class HarnessError(Exception):
    pass


class Facet:
    def __init__(self, prop, name, strategy, fn, quick, thorough, rule):
        self.prop, self.name, self.strategy, self.fn = prop, name, strategy, fn
        self.quick, self.thorough, self.rule = quick, thorough, rule


# the expensive properties keep the number of quick cases their facets state; the others can afford a multiple
QUICK_X = {"P13": 1, "P25": 1, "P26": 1, "P05": 2, "P09": 2, "P11": 2, "P14": 2, "P30": 2, "P28": 2}


def facet(prop, name, strategy, quick, thorough=None, rule=""):
    def deco(fn):
        FACETS.setdefault(prop, {})[name] = Facet(
            prop, name, strategy, fn, quick * QUICK_X.get(prop, 3), quick * 12 if thorough is None else thorough, rule
        )
        return fn
    return deco


# ---------------------------------------------------------------- assertions
def fail(msg):
    raise Violation(msg)


def check(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


def isnan(x):
    try:
        return bool(np.isnan(x))
    except TypeError:
        return False


def close(a, b, rtol=1e-6, atol=1e-8):
    """Scalar closeness; NaN equals NaN, same-signed infinities are equal."""
    if a is None or b is None:
        return a is b
    a, b = float(a), float(b)
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b))


def eq(got, want, what, rtol=1e-6, atol=1e-8):
    if not close(got, want, rtol, atol):
        raise Violation(f"{what}: got {got!r}, expected {want!r}")


def eq_arr(got, want, what, rtol=1e-6, atol=1e-8):
    if got is None or want is None:
        if got is not want:
            raise Violation(f"{what}: got {got!r}, expected {want!r}")
        return
    g, w = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    if g.shape != w.shape:
        raise Violation(f"{what}: shape {g.shape} vs expected {w.shape}")
    if g.size == 0:
        return
    nan_g, nan_w = np.isnan(g), np.isnan(w)
    if (nan_g != nan_w).any():
        raise Violation(f"{what}: NaN pattern differs: got {g!r}, expected {w!r}")
    ok = ~nan_g
    if not ok.any():
        return
    scale = np.max(np.abs(w[ok])) if np.isfinite(w[ok]).all() else 1.0
    bad = np.abs(g[ok] - w[ok]) > atol + rtol * scale
    if bad.any():
        raise Violation(
            f"{what}: max abs diff {np.max(np.abs(g[ok]-w[ok]))!r}; got {g!r}, expected {w!r}"
        )


DOC = dict(alpha=(0.05,), robust=(True,), cluster=(None,), anticipation=(0,), control_group=("never_treated",), estimation_method=("dr",), base_period=("varying",),
           lambda_reg=(0.0,), zeta=(1.0,), pscore_trim=(0.01,), inference=("analytical",), method=("twostep", "relative_magnitude"), weights=("approximate",),
           power=(0.8,), target_power=(0.8,), violation_type=("linear",), alternative=("two-sided",), n_pre=(1,), n_post=(1,), rho=(0.0,), treat_frac=(0.5,),
           aggregate=(None,), bootstrap_weights=("rademacher",))


def doc(c, **kw):
    """``kw`` as a user would write it: in half of the cases, arguments at their documented default are left out"""
    if c["seed"] % 2:
        return kw
    return {k: v for k, v in kw.items() if not any(type(v) is type(d) and v == d for d in DOC.get(k, ()))}


def raises(fn, types=(ValueError,), what=""):
    """fn must raise one of ``types``; a returned value is a violation."""
    try:
        out = fn()
    except types:
        return True
    raise Violation(f"{what}: expected {types}, but a result was returned: {type(out).__name__}")


def rng_of(case, salt=0):
    return np.random.default_rng([int(case["seed"]) & 0xFFFFFFFF, salt])


seeds = st.integers(0, 2**32 - 1)


def mostly(lo, hi, big):
    """small sizes as a rule, now and then one up to ``big``"""
    return st.one_of(*[st.integers(lo, hi)] * 6, st.integers(hi + 1, big))


def lists_mostly(item, lo, hi, big):
    return st.one_of(*[st.lists(item, min_size=lo, max_size=hi)] * 6, st.lists(item, min_size=hi + 1, max_size=big))
