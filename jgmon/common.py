"""Imports shared by the property modules (jax_galsim comes from the worker's sys.path)."""

import galsim
import jax
import jax.numpy as jnp
import numpy as np

import jax_galsim as jg
from jgmon.gen import *  # noqa: F401,F403
from jgmon.mon import Abort


def A(x):
    return np.asarray(x)


def F(x):
    return float(np.asarray(x))


def pos(p):
    return np.array([float(np.asarray(p.x)), float(np.asarray(p.y))])


class Raised:
    def __init__(self, e):
        self.e = e


def attempt(f):
    try:
        return f()
    except Abort:
        raise
    except Exception as e:
        return Raised(e)


def err_kind(e):
    """The kinds of error callers can tell apart."""
    for k in ("GalSimBoundsError", "GalSimUndefinedBoundsError", "GalSimImmutableError", "GalSimIncompatibleValuesError", "GalSimRangeError", "GalSimValueError"):
        if any(c.__name__ == k for c in type(e).__mro__):
            return k
    for k in (TypeError, ValueError, IndexError, KeyError, AttributeError):
        if isinstance(e, k):
            return k.__name__
    return type(e).__name__


def lockstep(mon, name, fj, fg, kinds=False, mech=None, **detail):
    """Run the same operation on both sides: both must succeed, or both must refuse.

    Returns (result, reference) or None when both raised (or they disagreed, which is a violation)."""
    g = attempt(fg)
    j = attempt(fj)
    if isinstance(g, Raised):
        if mon.check(name + ":refused", isinstance(j, Raised), mech=mech, want=f"refused ({type(g.e).__name__}: {str(g.e)[:120]})", got="accepted", **detail):
            mon.event("refused:" + type(g.e).__name__)
            if kinds:
                mon.check(name + ":error-kind", err_kind(j.e) == err_kind(g.e), got=f"{type(j.e).__name__}: {str(j.e)[:160]}", want=f"{type(g.e).__name__}: {str(g.e)[:160]}", **detail)
        return None
    if isinstance(j, Raised):
        where = ""
        import traceback

        for fr in traceback.extract_tb(j.e.__traceback__):
            if "/jax_galsim/" in fr.filename:
                where = f"{fr.filename.rsplit('/jax_galsim/', 1)[1]}:{fr.name}"
        mon.check(name + ":accepted", False, mech=mech, got=f"{type(j.e).__name__}: {str(j.e)[:200]}", where=where, **detail)
        return None
    mon.check(name + ":accepted", True)
    return j, g
