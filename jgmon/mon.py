"""The monitor object handed to every case: records events, oracle evaluations and violations."""

import collections
import json
import traceback

import numpy as np


class Abort(Exception):
    """Raised by a case to give up on an input it cannot use (counted, never a violation)."""


def plain(x, depth=0):
    """Something JSON can hold, short enough to read."""
    if depth > 4:
        return repr(x)[:120]
    if isinstance(x, (str, bool, int, float, type(None))):
        if isinstance(x, str):
            return x[:400]
        if isinstance(x, float):
            return x if np.isfinite(x) else repr(x)
        return x
    if isinstance(x, dict):
        return {str(k)[:60]: plain(v, depth + 1) for k, v in list(x.items())[:40]}
    if isinstance(x, (list, tuple)):
        return [plain(v, depth + 1) for v in list(x)[:24]]
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating,)):
        return plain(float(x))
    if isinstance(x, complex) or isinstance(x, np.complexfloating):
        return str(x)
    try:
        a = np.asarray(x)
        if a.dtype != object:
            if a.size <= 12:
                return plain(a.tolist())
            return {
                "shape": list(a.shape),
                "dtype": str(a.dtype),
                "head": plain(a.ravel()[:6].tolist()),
            }
    except Exception:
        pass
    try:
        return repr(x)[:200]
    except Exception:
        return f"<{type(x).__name__}>"


class Mon:
    def __init__(self, prop, group, index, seed, tier, rng):
        self.prop, self.group, self.index = prop, group, index
        self.seed, self.tier, self.rng = seed, tier, rng
        self.evals = collections.Counter()
        self.events = collections.Counter()
        self.violations = []
        self.info = {}
        self.keys = []
        self.margins = {}

    # -- description of the case -------------------------------------------------
    def note(self, **kw):
        """Record the parameters of this case (witness for replay, key for distinctness)."""
        # logs (lists) may still grow: they are written down when the case ends
        self.info.update({k: v if isinstance(v, list) else plain(v) for k, v in kw.items()})

    def event(self, name, n=1):
        """Count something observed happening in the code under test."""
        self.events[name] += n

    # -- oracles -----------------------------------------------------------------
    def check(self, name, cond, mech=None, **detail):
        self.evals[name] += 1
        if bool(cond):
            return True
        self._bad(name, mech, detail)
        return False

    def _bad(self, name, mech, detail):
        if len(self.violations) < 12:
            self.violations.append(
                {
                    "monitor": name,
                    "mech": mech or name,
                    "detail": plain(detail),
                }
            )

    def close(self, name, got, want, rtol=1e-7, atol=0.0, mech=None, scale=None, **detail):
        """|got - want| <= atol + rtol * max(|want|, scale): NaN/inf must agree exactly."""
        self.evals[name] += 1
        g = np.asarray(got)
        w = np.asarray(want)
        if g.shape != w.shape:
            try:
                np.broadcast_shapes(g.shape, w.shape)
                bad_shape = g.size != w.size
            except ValueError:
                bad_shape = True
            if bad_shape:
                self._bad(name, mech, dict(detail, why="shape", got=g.shape, want=w.shape))
                return False
            g = g.reshape(w.shape)
        if g.dtype.kind in "iub" and w.dtype.kind in "iub":
            g = g.astype(object) if g.dtype.kind == "u" and g.dtype.itemsize == 8 else g.astype(np.int64)
            w = w.astype(object) if w.dtype.kind == "u" and w.dtype.itemsize == 8 else w.astype(np.int64)
            g = g.astype(float)
            w = w.astype(float)
        if w.dtype.kind in "iu":  # no overflow in abs()
            w = w.astype(float)
        with np.errstate(all="ignore"):
            fin = np.isfinite(w)
            same_nonfin = np.where(
                fin, np.isfinite(g), (g == w) | (np.isnan(g) & np.isnan(w))
            )
            ref = np.abs(w) if scale is None else np.maximum(np.abs(w), scale)
            err = np.where(fin & np.isfinite(g), np.abs(g - w), 0.0)
            tol = atol + rtol * np.where(fin, ref, 0.0)
            okay = same_nonfin & (err <= tol)
            ratio = np.where(err > 0, err / np.where(tol > 0, tol, np.inf), 0.0)
        m = float(np.max(ratio)) if np.size(ratio) else 0.0
        if m > self.margins.get(name, 0.0):
            self.margins[name] = m
        if np.all(okay):
            return True
        flat = np.argmax(np.where(okay, -1.0, np.where(same_nonfin, err, np.inf)).ravel())
        self._bad(
            name,
            mech,
            dict(
                detail,
                got=g.ravel()[flat] if g.size else g,
                want=w.ravel()[flat] if w.size else w,
                where=int(flat),
                nbad=int(np.sum(~okay)),
                of=int(np.size(okay)),
                maxerr=float(np.max(err)) if err.size else 0.0,
            ),
        )
        return False

    def same(self, name, got, want, mech=None, **detail):
        """Exact equality of arrays/scalars, with NaN equal to NaN, and of shape."""
        self.evals[name] += 1
        g, w = np.asarray(got), np.asarray(want)
        okay = g.shape == w.shape
        if okay:
            if g.dtype.kind in "fc" or w.dtype.kind in "fc":
                okay = bool(np.all((g == w) | (np.isnan(g) & np.isnan(w))))
            else:
                okay = bool(np.all(g == w))
        if not okay:
            self._bad(name, mech, dict(detail, got=g, want=w))
        return okay

    def raises(self, name, fn, mech=None, exc=Exception, **detail):
        """fn must be rejected with an exception (of one of the given classes)."""
        self.evals[name] += 1
        try:
            r = fn()
        except exc:
            return True
        except Exception as e:
            self._bad(name, mech, dict(detail, why="wrong exception", got=repr(e)[:200], exc=str(exc)))
            return False
        self._bad(name, mech, dict(detail, why="accepted", got=repr_safe(r)))
        return False

    def crash(self, e, mech="unexpected-exception"):
        tb = traceback.format_exception(type(e), e, e.__traceback__)
        where = ""
        for fr in traceback.extract_tb(e.__traceback__):
            if "/jax_galsim/" in fr.filename:
                where = f"{fr.filename.rsplit('/jax_galsim/', 1)[1]}:{fr.name}"
        self._bad(
            "no-unexpected-exception",
            mech,
            {"error": f"{type(e).__name__}: {str(e)[:300]}", "where": where, "tb": "".join(tb)[-1500:]},
        )

    def result(self):
        return {
            "group": self.group,
            "index": self.index,
            "info": {k: plain(v) for k, v in self.info.items()},
            "evals": dict(self.evals),
            "events": dict(self.events),
            "violations": self.violations,
            "margins": self.margins,
        }


def repr_safe(r):
    try:
        return repr(r)[:200]
    except Exception:
        return f"<{type(r).__name__}>"


def info_key(info):
    return json.dumps(info, sort_keys=True, default=str)
