"""Shared helpers: drivers for the public API and comparison of values."""
import numpy as np

from ibl.thwaites_method import ThwaitesMethodLinear, ThwaitesMethodNonlinear
from ibl.head_method import HeadMethod
from ibl.initial_condition import ManualCondition, FalknerSkanStagCondition

METHODS = {"lin": ThwaitesMethodLinear, "non": ThwaitesMethodNonlinear,
           "head": HeadMethod}


def close(a, b, rtol=1e-9, atol=0.0):
    """Same shape and values within tolerance (inf and nan must agree)."""
    a = np.asarray(a, float)
    b = np.asarray(b, float)
    if a.shape != b.shape:
        return False
    return bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))


def same(a, b):
    """Same shape and the very same values."""
    a = np.asarray(a, float)
    b = np.asarray(b, float)
    return a.shape == b.shape and bool(np.array_equal(a, b, equal_nan=True))


def raises(kind, fun, *args, **kw):
    """None if fun raises kind, else a description of what it did."""
    try:
        out = fun(*args, **kw)
    except kind:
        return None
    except Exception as ex:
        return "raised %s (%s) instead of %s" % (type(ex).__name__, ex,
                                                 kind.__name__)
    return "returned %r instead of raising %s" % (out, kind.__name__)


def quiet():
    np.seterr(all="ignore")


quiet()
