"""C20: photon arrays through random histories, in lockstep with GalSim's; masked arrays against a plain model of the kept photons."""

import os
import tempfile
import warnings

from jax_galsim.photon_array import fixed_photon_array_size
from jgmon.common import *  # noqa: F401,F403

RULE = "A case is one random history of operations on a pool of photon arrays, or one masked array with its operations."
ASSUMPTIONS = [
    "GalSim 2.8.5 is the reference for arrays without masked slots (values it has not allocated are NaN here, as documented)",
    "masked arrays (fixed sizes, specific to this library) are judged by a model that lists the kept photons",
    "photons are not placed within 1e-9 of a pixel edge, except exactly on one",
]
OTHER = ("dxdz", "dydz", "wavelength", "pupil_u", "pupil_v", "time")
FAM = {"dxdz": ("dxdz", "dydz"), "dydz": ("dxdz", "dydz"), "wavelength": ("wavelength",), "pupil_u": ("pupil_u", "pupil_v"), "pupil_v": ("pupil_u", "pupil_v"), "time": ("time",)}
HAS = {"dxdz": "hasAllocatedAngles", "dydz": "hasAllocatedAngles", "wavelength": "hasAllocatedWavelengths", "pupil_u": "hasAllocatedPupil", "pupil_v": "hasAllocatedPupil", "time": "hasAllocatedTimes"}


def vals(rng, n, kind):
    if kind in ("x", "y"):
        v = np.round(rng.normal(0, 6, n), 3)
        v[rng.random(n) < 0.1] = 0.5 + rng.integers(-4, 4)  # exactly on an edge
        v[rng.random(n) < 0.03] = 1e9
        return v
    if kind == "flux":
        v = np.round(rng.normal(1, 0.7, n), 4)
        v[rng.random(n) < 0.1] = 0
        return v
    if kind == "wavelength":
        return np.round(rng.uniform(300, 1100, n), 3)
    return np.round(rng.normal(0, 1, n), 4)


def compare(mon, name, j, g, rtol=1e-12):
    n = g.size()
    mon.check(name + ":size", len(j) == n == j.size(), got=len(j), want=n)
    for k in ("x", "y", "flux"):
        w = getattr(g, k)
        mon.close(f"{name}:{k}", A(getattr(j, k)), w, rtol=rtol, atol=rtol * (1 + np.abs(w).max(initial=0)))
    for k in OTHER:
        h = getattr(g, HAS[k])()
        mon.check(f"{name}:{HAS[k]}", bool(getattr(j, HAS[k])()) == bool(h), got=bool(getattr(j, HAS[k])()), want=bool(h))
        if h:
            mon.close(f"{name}:{k}", A(getattr(j, k)), getattr(g, k), rtol=rtol, atol=1e-12)
    mon.close(f"{name}:total", F(j.getTotalFlux()), g.getTotalFlux(), rtol=1e-11, atol=1e-11 * (1 + np.abs(g.flux).sum()))


def index(rng, n, m):
    """Index sets of the same length into arrays of n and m photons."""
    k = int(rng.integers(1, min(n, m) + 1))
    kind = pick(rng, ["slice", "array", "mask", "int", "all", "list"])
    if kind == "all" and n == m:
        return kind, slice(None), slice(None)
    if kind == "int":
        return kind, int(rng.integers(-n, n)), int(rng.integers(-m, m))
    if kind == "mask":
        a, b = np.zeros(n, bool), np.zeros(m, bool)
        a[rng.choice(n, k, replace=False)] = True
        b[rng.choice(m, k, replace=False)] = True
        return kind, a, b
    if kind in ("array", "list"):
        a, b = rng.choice(n, k, replace=False), rng.choice(m, k, replace=True)
        if kind == "array":
            return kind, a - (n if rng.random() < 0.2 else 0), b
        return kind, np.array(a), np.array(b)
    i, l = int(rng.integers(0, n - k + 1)), int(rng.integers(0, m - k + 1))
    if k == 1:
        return "slice", slice(i, i + 1), slice(l, l + 1)
    if rng.random() < 0.3:
        r = slice(l + k - 1, l - 1 if l else None, -1)
        return "slice-reversed", slice(i, i + k), r
    return "slice", slice(i, i + k), slice(l, l + k)


@jax.jit
def through_jit(p):
    return p


@jax.jit
def jit_scale(p, a, b):
    p.scaleFlux(a)
    p.scaleXY(b)
    return p


def history(deep):
    def run(mon, rng):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            go(mon, rng)

    def go(mon, rng):
        n = pick(rng, [5, 12]) if not deep else int(rng.integers(1, 40))
        pool = []
        d = tempfile.mkdtemp(prefix="c20_")
        log = []
        mon.note(n=n, ops=log)

        def new():
            kw = {k: vals(rng, n, k) for k in ("x", "y", "flux")}
            for k in OTHER:
                if rng.random() < 0.25:
                    for f in FAM[k]:
                        kw[f] = vals(rng, n, f)
            if rng.random() < 0.4:
                jaxy = rng.random() < 0.5
                pool.append((jg.PhotonArray.fromArrays(**{k: (jnp.asarray if jaxy else np.array)(v) for k, v in kw.items()}), galsim.PhotonArray.fromArrays(**{k: v.copy() for k, v in kw.items()})))
            else:
                kj = {k: v for k, v in kw.items() if rng.random() < 0.85}
                pool.append((jg.PhotonArray(n, **kj), galsim.PhotonArray(n, **{k: v.copy() for k, v in kj.items()})))
            log.append("new")

        new()
        new()
        snap = {}
        for step in range(int(rng.integers(6, 14)) if not deep else 25):
            i = int(rng.integers(len(pool)))
            j, g = pool[i]
            op = pick(rng, ["set", "set", "scaleFlux", "scaleXY", "setTotalFlux", "copyFrom", "copyFrom", "assignAt", "convolve", "addTo", "file", "jit", "new", "alloc", "setone"])
            if step == 0:  # every operation is met whatever the seed
                op = ["file", "copyFrom", "file", "convolve", "file", "addTo", "file", "jit"][mon.index % 8]
            log.append(op)
            if op == "new":
                if len(pool) < 5:
                    new()
                continue
            if op == "set":
                k = pick(rng, ["x", "y", "flux", *OTHER])
                v = vals(rng, n, k) if rng.random() < 0.8 else rnd(rng, 0.2, 3)
                log.append(k)
                setattr(j, k, jnp.asarray(v) if rng.random() < 0.5 else v)
                setattr(g, k, v)
            elif op == "setone":
                k = pick(rng, OTHER)
                v = vals(rng, n, k)
                setattr(j, k, v)
                setattr(g, k, v)
            elif op == "alloc":
                pass
            elif op in ("scaleFlux", "scaleXY"):
                v = rnd(rng, -3, 3)
                getattr(j, op)(v)
                getattr(g, op)(v)
            elif op == "setTotalFlux":
                if abs(g.getTotalFlux()) < 0.05 * np.abs(g.flux).sum() + 1e-3:
                    continue
                v = rnd(rng, -30, 30)
                j.setTotalFlux(v)
                g.setTotalFlux(v)
            elif op in ("copyFrom", "assignAt"):
                l = int(rng.integers(len(pool)))
                if l == i:
                    continue
                a, b = pool[l]
                if op == "assignAt":
                    r = lockstep(mon, "assignAt", lambda: j.assignAt(0, a), lambda: g.assignAt(0, b))
                else:
                    kind, s1, s2 = index(rng, n, n)
                    log.append(kind)
                    fl = {f: bool(rng.random() < 0.75) for f in ("do_xy", "do_flux", "do_other")} if rng.random() < 0.6 else {}
                    log.append(fl)
                    r = lockstep(mon, "copyFrom", lambda: j.copyFrom(a, s1, s2, **fl), lambda: g.copyFrom(b, s1, s2, **fl), kind=kind)
                    if r is None:
                        return
                    compare(mon, "source-kept", a, b)
            elif op == "convolve":
                l = int(rng.integers(len(pool)))
                if l == i:
                    continue
                a, b = pool[l]
                j.convolve(a, rng=jg.BaseDeviate(3))
                g.convolve(b, rng=galsim.BaseDeviate(3))
                compare(mon, "convolve-kept-other", a, b)
                if np.abs(g.flux).max() > 1e6 or np.abs(g.x).max() > 1e11:
                    pool.pop(i)
                    new()
                    continue
            elif op == "addTo":
                dt = pick(rng, ["float32", "float64"])
                at = [int(v) for v in rng.integers(-9, 3, 2)]
                base = np.round(rng.normal(0, 5, (9, 12)), 2).astype(dt)
                ij, ig = jg.Image(base, xmin=at[0], ymin=at[1]), galsim.Image(base.copy(), xmin=at[0], ymin=at[1])
                fj, fg = j.addTo(ij), g.addTo(ig)
                t = 1e-5 if dt == "float32" else 1e-11
                sc = 1 + np.abs(g.flux).sum() + np.abs(base).max()
                mon.close("added-flux", F(fj), fg, rtol=1e-11, atol=1e-11 * sc)
                mon.close("accumulated", A(ij.array), ig.array, rtol=t, atol=t * sc)
            elif op == "file":
                f = os.path.join(d, f"p{step}.fits")
                by, way = pick(rng, ["jg", "galsim"]), pick(rng, ["jg", "galsim"])
                if step == 0:
                    by, way = [("jg", "jg"), ("jg", "galsim"), ("galsim", "jg"), ("galsim", "galsim")][mon.index // 2 % 4]
                log.append([by, way])
                (j if by == "jg" else g).write(f)
                if way == "jg":
                    r = jg.PhotonArray.read(f)
                    compare(mon, f"file-{by}-{way}", r, g)
                    if rng.random() < 0.4 and len(pool) < 6:
                        pool.append((r, galsim.PhotonArray.read(f)))
                else:
                    r = galsim.PhotonArray.read(f)
                    compare(mon, f"file-{by}-{way}", j, r)
                os.remove(f)
            elif op == "jit":
                if rng.random() < 0.5:
                    j = through_jit(j)
                else:
                    a, b = rnd(rng, 0.5, 2), rnd(rng, 0.5, 2)
                    j = jit_scale(j, a, b)
                    g.scaleFlux(a)
                    g.scaleXY(b)
                pool[i] = (j, g)
            compare(mon, op, *pool[i])
            for k, (p, q) in snap.items():
                if k != i and not p.isCorrelated():
                    pass
        for p, q in pool:
            compare(mon, "end", p, q)
        os.rmdir(d)
        mon.event(f"history of {len([o for o in log if isinstance(o, str)])} operations")

    return run


def refused(mon, rng):
    n = 6
    x = vals(rng, n, "x")
    seed = int(rng.integers(1, 2**30))
    mon.note(x=x)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")

        def mk(m, k=n):
            return m.PhotonArray(k, x=x[:k].copy(), y=2 * x[:k], flux=np.ones(k))

        def both(name, f):
            a, b = mk(jg), mk(galsim)
            before = A(a.x).copy(), A(a.y).copy(), A(a.flux).copy()
            j, g = attempt(lambda: f(jg, a)), attempt(lambda: f(galsim, b))
            mon.check("reference-refuses:" + name, isinstance(g, Raised))
            mon.check("refused:" + name, isinstance(j, Raised), got="accepted")
            mon.check("unchanged:" + name, all(np.array_equal(p, A(q)) for p, q in zip(before, (a.x, a.y, a.flux))))

        both("convolve-sizes", lambda m, p: p.convolve(mk(m, 4)))
        both("assign-past-end", lambda m, p: p.assignAt(int(rng.integers(4, 6)), mk(m, 4)))
        both("copy-lengths", lambda m, p: p.copyFrom(mk(m, 5), slice(0, 3), slice(0, 2)))
        both("copy-one-to-many", lambda m, p: p.copyFrom(mk(m, 5), slice(0, 3), slice(0, 1)))
        both("copy-int-to-many", lambda m, p: p.copyFrom(mk(m, 5), slice(0, 3), 1))
        both("copy-outside", lambda m, p: p.copyFrom(mk(m, 5), int(rng.integers(6, 30)), 1))
        both("copy-outside-source", lambda m, p: p.copyFrom(mk(m, 5), 1, int(rng.integers(5, 30))))
        both("copy-below", lambda m, p: p.copyFrom(mk(m, 5), -int(rng.integers(7, 30)), 1))
        both("undefined-bounds", lambda m, p: p.addTo(m.Image()))
        both("wrong-length", lambda m, p: setattr(p, pick(rng, ["x", "y", "flux", "dxdz", "time"]), np.ones(4)))
        both("max-flux", lambda m, p: m.PhotonArray.makeFromImage(m.Image(np.ones((3, 3)), scale=1.0), max_flux=-1.0 * (seed % 2)))


def correlated(mon, rng):
    """Both arrays correlated: one is shuffled, photon by photon."""
    n = 60
    v = {k: rng.normal(size=n) for k in ("x", "y")}
    w = {k: rng.normal(size=n) for k in ("x", "y", "dxdz", "dydz", "wavelength", "pupil_u", "pupil_v", "time")}
    f, h = np.round(rng.uniform(0.5, 1.5, n), 3), np.round(rng.uniform(0.5, 1.5, n), 3)
    ca, cb = bool(rng.random() < 0.7), bool(rng.random() < 0.7)
    seed = int(rng.integers(1, 2**30))
    mask = rng.random() < 0.5
    if mon.index % 3 == 0:
        ca = cb = mask = True
    mon.note(ca=ca, cb=cb, seed=seed, mask=mask)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        nk = np.zeros(n, bool)
        if mask:
            nk[rng.choice(n, int(rng.integers(1, 30)), replace=False)] = True
        nk2 = rng.permutation(nk)
        a = jg.PhotonArray(n, **v, flux=f, _nokeep=jnp.asarray(nk))
        b = jg.PhotonArray(n, **w, flux=h, _nokeep=jnp.asarray(nk2))
        a.setCorrelated(ca)
        b.setCorrelated(cb)
        fa, fb = A(a.flux)[~nk], A(b.flux)[~nk2]
        a.convolve(b, jg.BaseDeviate(seed))
        k = int((~nk).sum())
        dx, dy = A(a.x)[~nk] - v["x"][~nk], A(a.y)[~nk] - v["y"][~nk]
        src = w["x"][~nk2]
        perm = np.argmin(np.abs(dx[:, None] - src[None]), 1)
        mon.check("uses-each-photon-once", sorted(perm.tolist()) == list(range(k)), perm=perm.tolist())
        mon.close("x-of-pair", dx, src[perm], atol=1e-9)
        mon.close("y-of-pair", dy, w["y"][~nk2][perm], atol=1e-9)
        mon.close("flux-of-pair", A(a.flux)[~nk], fa * fb[perm] * k, rtol=1e-9)
        for q in OTHER:
            mon.close(f"{q}-of-pair", A(getattr(a, q))[~nk], w[q][~nk2][perm], atol=1e-12)
        if ca and cb:
            mon.check("shuffled", not np.array_equal(perm, np.arange(k)))
            mon.event("shuffled")
        else:
            mon.check("in-order", np.array_equal(perm, np.arange(k)))
            mon.event("in order")
        mon.check("correlated-or", bool(a.isCorrelated()) == (ca or cb))
        mon.same("other-kept", [np.array_equal(A(b.x), w["x"]), np.array_equal(A(b._nokeep), nk2)], [True, True])
        mon.close("other-flux-kept", A(b.flux)[~nk2], fb, rtol=1e-12)


def from_image(mon, rng):
    ny, nx = pick(rng, [(4, 6), (5, 5)])
    a = np.round(rng.normal(0, 4, (ny, nx)), 2)
    if rng.random() < 0.3:
        a = np.round(np.abs(a))
    a[0, 0] = 0
    mf = pick(rng, [1.0, rnd(rng, 0.3, 5), 1000.0])
    sc = pick(rng, [None, 1.0, rnd(rng, 0.2, 3)])
    at = [int(v) for v in rng.integers(-5, 5, 2)]
    dt = pick(rng, ["float64", "float32"])
    seed = int(rng.integers(1, 2**30))
    mon.note(a=a, max_flux=mf, scale=sc, at=at, dtype=dt, seed=seed)

    def mk(m):
        return m.Image(a.astype(dt), xmin=at[0], ymin=at[1], **({} if sc is None else {"scale": sc}))

    j = jg.PhotonArray.makeFromImage(mk(jg), max_flux=mf, rng=jg.BaseDeviate(seed))
    g = galsim.PhotonArray.makeFromImage(mk(galsim), max_flux=mf, rng=galsim.BaseDeviate(seed))
    mon.check("count", len(j) == g.size(), got=len(j), want=g.size())
    mon.close("total", F(j.getTotalFlux()), a.astype(dt).astype(float).sum(), rtol=1e-6, atol=1e-5)
    mon.check("max-flux", np.all(np.abs(A(j.flux)) <= mf * (1 + 1e-6)))
    mon.close("fluxes", np.sort(A(j.flux)), np.sort(g.flux), rtol=1e-6, atol=1e-6)
    s = sc or 1.0
    x, y = A(j.x) / s, A(j.y) / s
    ix, iy = np.floor(x + 0.5).astype(int) - at[0], np.floor(y + 0.5).astype(int) - at[1]
    want = np.zeros((ny, nx))
    ok = (ix >= 0) & (ix < nx) & (iy >= 0) & (iy < ny)
    mon.check("inside", bool(ok.all()))
    np.add.at(want, (iy[ok], ix[ok]), A(j.flux)[ok])
    mon.close("pixel-by-pixel", want, a, rtol=1e-5, atol=1e-4)
    fx, fy = x - np.floor(x + 0.5), y - np.floor(y + 0.5)
    if len(j) > 40:
        mon.check("spread", abs(fx.mean()) < 7 / np.sqrt(12 * len(j)) and abs(fy.mean()) < 7 / np.sqrt(12 * len(j)) and fx.std() > 0.15 and fy.std() > 0.15)
        mon.check("not-diagonal", abs(np.corrcoef(fx, fy)[0, 1]) < 7 / np.sqrt(len(j)))


class Model:
    """The kept photons of a masked array."""

    def __init__(self, x, y, flux, keep):
        self.x, self.y, self.f, self.keep = x.copy(), y.copy(), flux.copy(), keep.copy()
        self.o = {}


def masked(mon, rng):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        _masked(mon, rng)


def _masked(mon, rng):
    n = pick(rng, [8, 20])
    K = int(rng.integers(1, n + 1))
    d = tempfile.mkdtemp(prefix="c20_")
    log = []
    mon.note(n=n, K=K, ops=log)

    def new(how=None):
        how = how or pick(rng, ["mask", "mask", "fixed", "num_keep"])
        log.append(how)
        x, y, f = vals(rng, n, "x"), vals(rng, n, "y"), vals(rng, n, "flux") + 0.01
        keep = np.zeros(n, bool)
        if how == "mask":
            keep[rng.choice(n, K, replace=False)] = True
            p = jg.PhotonArray(n, x=x, y=y, flux=f, _nokeep=jnp.asarray(~keep))
        elif how == "fixed":
            keep[:K] = True
            with fixed_photon_array_size(n):
                p = jg.PhotonArray(K)
                p.x, p.y, p.flux = x, y, f
        else:
            keep[:K] = True
            p = jg.PhotonArray(n, x=x, y=y, flux=f)
            p._num_keep = K
            f = f * n / K  # the total of equal photons is kept
        return [p, Model(x, y, f, keep)]

    def check(name, p, m):
        k = m.keep
        mon.check(name + ":keep", np.array_equal(~A(p._nokeep), k), got=(~A(p._nokeep)).tolist(), want=k.tolist())
        mon.check(name + ":num", int(p._num_keep) == int(k.sum()) and len(p) == n)
        mon.close(name + ":x", A(p.x)[k], m.x[k], rtol=1e-11, atol=1e-9)
        mon.close(name + ":y", A(p.y)[k], m.y[k], rtol=1e-11, atol=1e-9)
        sc = np.abs(m.f[k]).sum() + 1e-12
        mon.close(name + ":flux", A(p.flux)[k], m.f[k], rtol=1e-10, atol=1e-11 * sc)
        mon.check(name + ":masked-zero", not np.any(A(p.flux)[~k]))
        mon.close(name + ":total", F(p.getTotalFlux()), m.f[k].sum(), rtol=1e-10, atol=1e-10 * sc)

    pool = [new(), new()]
    for p, m in pool:
        check("new", p, m)
    for step in range(int(rng.integers(5, 11))):
        i = int(rng.integers(len(pool)))
        p, m = pool[i]
        op = pick(rng, ["flux", "x", "scaleFlux", "scaleXY", "setTotalFlux", "convolve", "copyFrom", "addTo", "file", "jit", "shrink", "fewer"])
        if step == 0:
            op = ["convolve", "copyFrom", "addTo", "file", "shrink", "fewer"][mon.index % 6]
        log.append(op)
        k = m.keep
        if op == "flux":
            v = vals(rng, n, "flux")
            p.flux = v
            m.f = v.copy()
        elif op == "x":
            v = vals(rng, n, "x")
            p.x = v
            m.x = v.copy()
        elif op == "scaleFlux":
            v = rnd(rng, -2, 2)
            p.scaleFlux(v)
            m.f = m.f * v
        elif op == "scaleXY":
            v = rnd(rng, 0.3, 2)
            p.scaleXY(v)
            m.x, m.y = m.x * v, m.y * v
        elif op == "setTotalFlux":
            t = m.f[k].sum()
            if abs(t) < 0.05 * np.abs(m.f[k]).sum() + 1e-6:
                continue
            v = rnd(rng, -9, 9)
            p.setTotalFlux(v)
            m.f = m.f * v / t
        elif op == "convolve":
            l = 1 - i
            q, w = pool[l]
            if q is p or w.keep.sum() != k.sum():
                continue
            p.convolve(q, jg.BaseDeviate(1))
            m.x[k] = m.x[k] + w.x[w.keep]
            m.y[k] = m.y[k] + w.y[w.keep]
            m.f[k] = m.f[k] * w.f[w.keep] * k.sum()
            check("convolve-other", q, w)
            if np.abs(m.f[k]).max() > 1e8:
                pool[i] = new()
                continue
        elif op == "copyFrom":
            q, w = pool[1 - i]
            kind, s1, s2 = index(rng, n, n)
            fl = {} if rng.random() < 0.6 else {"do_xy": bool(rng.random() < 0.5), "do_flux": bool(rng.random() < 0.5)}
            log.append([kind, fl])
            # with the flux left alone, slots that become kept have no defined flux
            if not fl.get("do_flux", True) and np.any(w.keep[s2] & ~k[s1]):
                continue
            if not fl.get("do_xy", True) and np.any(w.keep[s2] & ~k[s1]):
                continue
            new_keep = k.copy()
            new_keep[s1] = w.keep[s2]
            if not new_keep.any():
                continue
            p.copyFrom(q, s1, s2, **fl)
            m.keep = new_keep
            if fl.get("do_xy", True):
                m.x[s1], m.y[s1] = w.x[s2], w.y[s2]
            if fl.get("do_flux", True):
                m.f[s1] = w.f[s2]
            check("copy-source", q, w)
            mon.event("mask changed by copy" if not np.array_equal(new_keep, k) else "copy")
        elif op == "addTo":
            at = [int(v) for v in rng.integers(-9, 3, 2)]
            im = jg.ImageD(12, 9, xmin=at[0], ymin=at[1])
            r = p.addTo(im)
            ix, iy = np.floor(m.x + 0.5), np.floor(m.y + 0.5)
            # the model's own rounding may differ on an edge after scaling
            near = k & ((np.abs(m.x - np.round(m.x * 2) / 2) < 1e-9) | (np.abs(m.y - np.round(m.y * 2) / 2) < 1e-9))
            if "scaleXY" in log and near.any():
                continue
            ok = k & (ix >= at[0]) & (ix < at[0] + 12) & (iy >= at[1]) & (iy < at[1] + 9)
            want = np.zeros((9, 12))
            np.add.at(want, ((iy[ok] - at[1]).astype(int), (ix[ok] - at[0]).astype(int)), m.f[ok])
            sc = np.abs(m.f[k]).sum() + 1e-12
            mon.close("accumulated", A(im.array), want, rtol=1e-10, atol=1e-10 * sc)
            mon.close("added", F(r), m.f[ok].sum(), rtol=1e-10, atol=1e-10 * sc)
        elif op == "file":
            f = os.path.join(d, f"p{step}.fits")
            p.write(f)
            q = jg.PhotonArray.read(f)
            check("file", q, m)
            g = galsim.PhotonArray.read(f)
            mon.close("file-galsim", g.flux[k], m.f[k], rtol=1e-10, atol=1e-10 * (np.abs(m.f[k]).sum() + 1e-12))
            mon.check("file-galsim-masked", not np.any(g.flux[~k]))
            os.remove(f)
            pool[i][0] = q
        elif op == "jit":
            pool[i][0] = through_jit(p)
        elif op == "fewer":  # the count of photons to keep is set: the first of those kept stay, the flux of equal photons is conserved
            old = int(k.sum())
            nk = int(rng.integers(1, old + 1))
            p._num_keep = nk
            w = np.flatnonzero(k)
            m.keep = np.zeros(n, bool)
            m.keep[w[:nk]] = True
            m.f = m.f * old / nk
        elif op == "shrink":
            continue
        check(op, *pool[i])
    os.rmdir(d)
    mon.event(f"masked K={'all' if K == n else 'some'}")


def empty(mon, rng):
    """Arrays that keep nothing, and arrays of size 0."""
    n = pick(rng, [4, 9])
    x, y, f = vals(rng, n, "x"), vals(rng, n, "y"), vals(rng, n, "flux")
    mon.note(n=n, x=x)
    with fixed_photon_array_size(n):
        p = jg.PhotonArray(0, x=x, y=y, flux=f)
    q = jg.PhotonArray(n, x=x, y=y, flux=f)
    q._num_keep = 0
    for name, z in (("fixed", p), ("num_keep", q)):
        mon.check(name + ":no-flux", not np.any(A(z.flux)) and F(z.getTotalFlux()) == 0.0, got=A(z.flux).tolist())
        im = jg.ImageD(np.ones((5, 5)), xmin=-2, ymin=-2)
        r = z.addTo(im)
        mon.check(name + ":adds-nothing", F(r) == 0.0 and np.array_equal(A(im.array), np.ones((5, 5))))
        w = jg.PhotonArray(n, x=x, y=y, flux=f)
        z.copyFrom(w)
        mon.close(name + ":refilled", A(z.flux), f, rtol=1e-12, atol=1e-12)
    e = jg.PhotonArray(0)
    im = jg.ImageD(np.ones((3, 3)))
    mon.check("size-0", len(e) == 0 and F(e.addTo(im)) == 0.0 and np.array_equal(A(im.array), np.ones((3, 3))))
    g = attempt(lambda: [jg.PhotonArray(n + 1) for _ in [0]])
    mon.check("outside-context", not isinstance(g, Raised) and len(g[0]) == n + 1)


GROUPS = {
    "history": dict(fn=history(False), quick=26, thorough=1500, cost=0.5, warm=12, must=["copyFrom:x", "convolve:flux", "accumulated", "file-jg-jg:x", "file-galsim-jg:x", "file-jg-galsim:x", "jit:x"]),
    "history_long": dict(fn=history(True), quick=1, thorough=300, cost=3, warm=6),
    "refused": dict(fn=refused, quick=4, thorough=40, cost=0.5, warm=4),
    "correlated": dict(fn=correlated, quick=12, thorough=200, cost=0.3, warm=6, must=["shuffled", "in-order"]),
    "from_image": dict(fn=from_image, quick=12, thorough=300, cost=0.5, warm=5),
    "masked": dict(fn=masked, quick=24, thorough=1500, cost=0.4, warm=10, must=["convolve:flux", "file:flux", "fewer:flux", "accumulated"]),
    "empty": dict(fn=empty, quick=3, thorough=30, cost=0.5, warm=4),
}
