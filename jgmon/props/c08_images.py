"""C08: images in lockstep with GalSim through random histories of operations, with snapshots of everything obtained earlier."""

import warnings

from jgmon.common import *  # noqa: F401,F403

RULE = "A case is one random history of operations on a pool of images (or one family of refused operations)."
ASSUMPTIONS = [
    "GalSim 2.8.5 is the reference for pixels, bounds, dtype, WCS and refusals",
    "sub-images are documented copies here (views in GalSim), so GalSim's are copied before being compared",
    "the dtype of arithmetic between different dtypes is judged only where JAX's promotion table agrees with NumPy's",
    "values outside the range of an integer pixel type are not stored (undefined in C)",
]

DT = ["float32", "float64", "int16", "int32", "uint16", "uint32", "complex64", "complex128"]
NP = {d: getattr(np, d) for d in DT}
RNG = {"int16": (-32768, 32767), "int32": (-(2**31), 2**31 - 1), "uint16": (0, 65535), "uint32": (0, 2**32 - 1)}


def pixels(rng, dt, ny, nx, allow_half=False):
    k = np.dtype(dt).kind
    if k == "u":
        return rng.integers(0, 100, (ny, nx)).astype(dt)
    if k == "i":
        return rng.integers(-100, 100, (ny, nx)).astype(dt)
    a = np.round(rng.uniform(-50, 50, (ny, nx)), 3)
    if k == "c":
        a = a + 1j * np.round(rng.uniform(-50, 50, (ny, nx)), 3)
    z = rng.random((ny, nx)) < 0.1
    a[z] = 0
    return a.astype(dt)


def some_wcs(rng):
    k = pick(rng, [None, "scale", "scale", "jac", "aff", "off", "tan"])
    if k is None:
        return None
    s = rnd(rng, 0.1, 2)
    j = list(jac_kw(rng).values())
    o = [rnd(rng, -9, 9), rnd(rng, -9, 9)]
    return [k, s, j, o]


def mk_wcs(m, w):
    if w is None:
        return None
    k, s, j, o = w
    if k == "scale":
        return m.PixelScale(s)
    if k == "jac":
        return m.JacobianWCS(*j)
    if k == "aff":
        return m.AffineTransform(*j, origin=m.PositionD(*o))
    if k == "off":
        return m.OffsetWCS(s, origin=m.PositionD(*o))
    return m.TanWCS(m.AffineTransform(*j, origin=m.PositionD(*o)), m.CelestialCoord(0.3 * m.radians, -0.2 * m.radians))


def same_wcs(mon, name, jw, gw, **d):
    if gw is None or jw is None:
        mon.check(name, jw is None and gw is None, got=repr(jw)[:100], want=repr(gw)[:100], **d)
        return
    # a shift by nothing makes an offset version of a local WCS here (GalSim keeps the local one)
    t = {"PixelScale": "OffsetWCS", "ShearWCS": "OffsetShearWCS", "JacobianWCS": "AffineTransform"}
    tj, tg = type(jw).__name__, type(gw).__name__
    mon.check(name + "-type", tj == tg or t.get(tg) == tj, got=type(jw).__name__, want=type(gw).__name__, **d)
    for p in ((0.5, -2.0), (7.0, 3.0)):
        a, b = jw.toWorld(jg.PositionD(*p)), gw.toWorld(galsim.PositionD(*p))
        if gw._isCelestial:
            mon.close(name, [F(a.ra.rad), F(a.dec.rad)], [b.ra.rad, b.dec.rad], rtol=1e-11, atol=1e-12, **d)
        else:
            mon.close(name, pos(a), pos(b), rtol=1e-10, atol=1e-9, **d)


def same_image(mon, name, j, g, dtype=True, const=True, tol=None, **d):
    mon.check(name + ":class", isinstance(j, jg.Image), got=type(j).__name__)
    gd, jd = g.bounds.isDefined(), bool(j.bounds.isDefined())
    mon.check(name + ":defined", gd == jd, got=jd, want=gd, **d)
    if const:
        mon.check(name + ":isconst", bool(j.isconst) == bool(g.isconst), got=j.isconst, want=g.isconst, **d)
    if dtype:
        mon.check(name + ":dtype", np.dtype(j.dtype) == np.dtype(g.dtype) and A(j.array).dtype == np.dtype(g.dtype), got=[str(np.dtype(j.dtype)), str(A(j.array).dtype)], want=str(np.dtype(g.dtype)), **d)
    mon.check(name + ":dtype-consistent", A(j.array).dtype == np.dtype(j.dtype), got=[str(A(j.array).dtype), str(np.dtype(j.dtype))], **d)
    same_wcs(mon, name + ":wcs", j.wcs, g.wcs, **d)
    if not (gd and jd):
        return
    mon.same(name + ":bounds", [int(j.xmin), int(j.xmax), int(j.ymin), int(j.ymax)], [g.xmin, g.xmax, g.ymin, g.ymax], **d)
    mon.same(name + ":nrow-ncol", [j.nrow, j.ncol], [g.nrow, g.ncol], **d)
    ja, ga = A(j.array), g.array
    if ga.dtype.kind in "iu" and (ja.dtype.kind in "iu"):
        mon.same(name, ja.astype(np.int64), ga.astype(np.int64), **d)
    else:
        w = ga
        t = tol if tol is not None else (1e-14 if (w.dtype.itemsize >= (16 if w.dtype.kind == "c" else 8) and ja.dtype == w.dtype) else 6e-7)
        sc = float(np.max(np.abs(w[np.isfinite(w)]), initial=0.0)) if w.dtype.kind == "c" else None
        mon.close(name, ja, w, rtol=t, atol=t * 1e-6, scale=sc, **d)


class Snap:
    """An image, copy or array obtained earlier, that nothing may change later."""

    def __init__(self, label, j):
        self.label, self.j = label, j
        self.arr = np.array(j.array) if isinstance(j, jg.Image) else np.array(j)
        self.b = str(j.bounds) if isinstance(j, jg.Image) else None

    def check(self, mon, after):
        now = np.array(self.j.array) if isinstance(self.j, jg.Image) else np.array(self.j)
        mon.same("earlier-result-unchanged", now, self.arr, what=self.label, after=after)
        if self.b is not None:
            mon.check("earlier-result-bounds-unchanged", str(self.j.bounds) == self.b, what=self.label, after=after)


def construct(rng, mon):
    dt = pick(rng, DT)
    nx, ny = int(rng.integers(1, 8)), int(rng.integers(1, 8))
    x0, y0 = (1, 1) if rng.random() < 0.3 else (int(rng.integers(-20, 20)), int(rng.integers(-20, 20)))
    w = some_wcs(rng)
    form = pick(rng, ["ncol", "ncolkw", "bounds", "boundskw", "array", "arraykw", "array+bounds", "image", "alias", "list", "empty", "image+wcs", "jnp"])
    iv = pick(rng, [None, None, 3, 7])
    a = pixels(rng, dt, ny, nx)
    alias = {"uint16": "ImageUS", "uint32": "ImageUI", "int16": "ImageS", "int32": "ImageI", "float32": "ImageF", "float64": "ImageD", "complex64": "ImageCF", "complex128": "ImageCD"}[dt]
    dt2 = pick(rng, DT)
    aliased = pick(rng, [int, float, complex, None]) if rng.random() < 0.2 else None
    const = rng.random() < 0.08

    def f(m):
        kw = {}
        if w is not None:
            if w[0] == "scale" and w[1] > 1:
                kw["scale"] = w[1]
            else:
                kw["wcs"] = mk_wcs(m, w)
        b = m.BoundsI(x0, x0 + nx - 1, y0, y0 + ny - 1)
        t = aliased if aliased is not None else NP[dt]
        if form == "ncol":
            im = m.Image(nx, ny, dtype=t, xmin=x0, ymin=y0, **({"init_value": iv} if iv else {}), **kw)
        elif form == "ncolkw":
            im = m.Image(ncol=nx, nrow=ny, dtype=t, **({"init_value": iv} if iv else {}), **kw)
        elif form == "bounds":
            im = m.Image(b, dtype=t, **({"init_value": iv} if iv else {}), **kw)
        elif form == "boundskw":
            im = m.Image(bounds=b, **kw)
        elif form == "array":
            im = m.Image(a.copy(), xmin=x0, ymin=y0, make_const=const, **kw)
        elif form == "arraykw":
            im = m.Image(array=a.copy(), **kw)
        elif form == "array+bounds":
            im = m.Image(a.copy(), bounds=b, **kw)
        elif form == "jnp":
            im = m.Image(jnp.asarray(a) if m is jg else a.copy(), bounds=b, **kw)
        elif form == "image":
            im = m.Image(m.Image(a.copy(), xmin=x0, ymin=y0), **kw)
        elif form == "image+wcs":
            im = m.Image(m.Image(a.copy(), xmin=x0, ymin=y0, wcs=mk_wcs(m, w)))
        elif form == "alias":
            im = getattr(m, alias)(nx, ny, xmin=x0, **kw)
        elif form == "list":
            im = getattr(m, "ImageD" if dt != "int32" else "ImageI")([[int(v.real) for v in r] for r in a] if m is jg else np.array([[int(v.real) for v in r] for r in a], dtype=np.int32 if dt == "int32" else float), **kw)
        else:
            im = m.Image(dtype=t, **kw)
        return im

    lab = f"{form} {dt} {nx}x{ny}@{x0},{y0} wcs={w and w[0]} iv={iv} {aliased and aliased.__name__} const={const}"
    return lab, f


def in_range(v, dt):
    if dt in RNG:
        lo, hi = RNG[dt]
        v = np.asarray(v)
        if v.dtype.kind == "c":
            return False
        return bool(np.all(np.isfinite(v.astype(float))) and np.min(v.astype(float)) >= lo and np.max(v.astype(float)) <= hi)
    v = np.asarray(v)
    return bool(np.all(np.abs(v[np.isfinite(v)]) < 1e30)) if v.size else True


PY = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": lambda a, b: a / b, "//": lambda a, b: a // b, "%": lambda a, b: a % b, "**": lambda a, b: a**b, "&": lambda a, b: a & b, "|": lambda a, b: a | b, "^": lambda a, b: a ^ b}
import operator as op_

INPL = {"+": op_.iadd, "-": op_.isub, "*": op_.imul, "/": op_.itruediv, "//": op_.ifloordiv, "%": op_.imod, "**": op_.ipow, "&": op_.iand, "|": op_.ior, "^": op_.ixor}


def history(mon, rng):
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    pool, log, snaps = [], [], []
    mon.note(log=log)
    while len(pool) < 2:
        lab, f = construct(rng, mon)
        log.append(lab)
        r = lockstep(mon, "construct", lambda: f(jg), lambda: f(galsim), what=lab)
        if r:
            same_image(mon, "construct", *r, what=lab)
            pool.append(list(r))
    nops = 7 if mon.tier == "quick" else 14
    for step in range(nops):
        i = int(rng.integers(len(pool)))
        j, g = pool[i]
        dt = str(np.dtype(g.dtype))
        kind = np.dtype(g.dtype).kind
        defd = g.bounds.isDefined()
        nx, ny = (g.ncol, g.nrow) if defd else (0, 0)
        op = pick(rng, ["set", "get", "add", "call", "sub", "setsub", "setsub2", "copyfrom", "shift", "center", "origin", "resize", "fill", "zero", "inv", "repneg", "copy", "retype", "part", "binop", "binop", "rbinop", "iop", "iop", "iop", "sym", "neg", "eq", "scale", "bad", "pixcen", "props", "snap"])
        new = None
        det = dict(op=op, of=str(g), dt=dt)
        if defd:
            xx, yy = int(rng.integers(g.xmin, g.xmax + 1)), int(rng.integers(g.ymin, g.ymax + 1))
            bx = sorted(rng.integers(g.xmin, g.xmax + 1, 2))
            by = sorted(rng.integers(g.ymin, g.ymax + 1, 2))
            bb = [int(v) for v in (*bx, *by)]
        elif op in ("get", "sub", "setsub", "setsub2", "call", "copyfrom", "inv", "eq", "pixcen", "binop", "rbinop", "iop", "sym", "neg", "retype", "part", "copy", "repneg", "zero", "fill", "props", "set", "add", "shift", "center", "origin", "snap"):
            if op in ("get", "call", "sub", "set", "fill"):
                mon.raises("undefined-image-refused", lambda: {"get": lambda: j[1, 1], "call": lambda: j(1, 1), "sub": lambda: j[jg.BoundsI(1, 1, 1, 1)], "set": lambda: j.setValue(1, 1, 2), "fill": lambda: j.fill(3)}[op](), exc=galsim.GalSimUndefinedBoundsError, op=op)
            continue
        try:
            log.append(op)
            if op in ("set", "add"):
                v = int(rng.integers(0, 50)) if kind in "iu" else rnd(rng, -9, 9)
                if op == "add" and kind in "u" and not in_range(g.array.astype(float) + v, dt):
                    continue
                form = pick(rng, ["xy", "pos", "kw", "item", "itempos", "tuple"])
                if form in ("item", "itempos") and op == "add":
                    form = "xy"
                oob = rng.random() < 0.12
                if oob:
                    xx = g.xmax + 1 + int(rng.integers(3))
                det.update(form=form, at=[xx, yy], v=v)
                log[-1] += f" {form} {xx},{yy}={v}"

                def f(im, m):
                    fn = im.setValue if op == "set" else im.addValue
                    if form == "xy":
                        fn(xx, yy, v)
                    elif form == "pos":
                        fn(m.PositionI(xx, yy), v)
                    elif form == "tuple":
                        fn((xx, yy), v)
                    elif form == "kw":
                        fn(x=xx, y=yy, value=v)
                    elif form == "item":
                        im[xx, yy] = v
                    else:
                        im[m.PositionI(xx, yy)] = v

                lockstep(mon, op, lambda: f(j, jg), lambda: f(g, galsim), kinds=True, **det)
            elif op in ("get", "call"):
                if rng.random() < 0.15:
                    yy = g.ymin - 1 - int(rng.integers(3))
                form = pick(rng, ["xy", "pos"])
                f = lambda im, m: (im[xx, yy] if form == "xy" else im[m.PositionI(xx, yy)]) if op == "get" else (im(xx, yy) if form == "xy" else im(m.PositionI(xx, yy)))
                r = lockstep(mon, op, lambda: f(j, jg), lambda: f(g, galsim), kinds=True, at=[xx, yy], **det)
                if r:
                    mon.close("pixel-read", A(r[0]), A(r[1]), rtol=1e-6, at=[xx, yy], **det)
            elif op == "sub":
                if rng.random() < 0.12:
                    bb[1] += 9
                form = pick(rng, ["item", "method"])
                r = lockstep(mon, "subimage", lambda: (j[jg.BoundsI(*bb)] if form == "item" else j.subImage(jg.BoundsI(*bb))), lambda: (g[galsim.BoundsI(*bb)] if form == "item" else g.subImage(galsim.BoundsI(*bb))).copy(), kinds=True, bb=bb, **det)
                if r:
                    same_image(mon, "subimage", *r, const=False, bb=bb, **det)
                    if bool(r[0].isconst) == r[1].isconst:
                        new = r
                    else:
                        snaps.append(Snap("sub-image", r[0]))
            elif op in ("setsub", "setsub2"):
                dt2 = dt if rng.random() < 0.5 else pick(rng, [d for d in DT if np.can_cast(d, np.complex64, "same_kind") or True])
                if np.dtype(dt2).kind == "c" and kind != "c":
                    continue
                a = pixels(rng, dt2, bb[3] - bb[2] + 1, bb[1] - bb[0] + 1)
                if kind == "u":
                    a = np.abs(a).astype(dt2)
                if rng.random() < 0.1:
                    a = np.zeros((a.shape[0] + 1, a.shape[1]), dtype=dt2)
                f = lambda im, m: im.setSubImage(m.BoundsI(*bb), m.Image(a.copy())) if op == "setsub" else im.__setitem__(m.BoundsI(*bb), m.Image(a.copy()))
                lockstep(mon, op, lambda: f(j, jg), lambda: f(g, galsim), kinds=True, bb=bb, dt2=dt2, **det)
            elif op == "copyfrom":
                dt2 = pick(rng, [dt, "float64", "float32", "int32"])
                a = pixels(rng, dt2, ny, nx)
                if kind == "u":
                    a = np.abs(a).astype(dt2)
                if rng.random() < 0.1:
                    a = np.zeros((ny, nx + 1), dtype=dt2)
                lockstep(mon, op, lambda: j.copyFrom(jg.Image(a.copy())), lambda: g.copyFrom(galsim.Image(a.copy())), kinds=True, dt2=dt2, **det)
            elif op in ("shift", "center", "origin"):
                dx, dy = int(rng.integers(-9, 10)), int(rng.integers(-9, 10))
                form = pick(rng, ["xy", "pos", "tuple", "kw", "float"])
                log[-1] += f" {form} {dx},{dy}"

                def f(im, m):
                    fn = {"shift": im.shift, "center": im.setCenter, "origin": im.setOrigin}[op]
                    n = {"shift": ("dx", "dy"), "center": ("xcen", "ycen"), "origin": ("x0", "y0")}[op]
                    if form == "xy":
                        fn(dx, dy)
                    elif form == "pos":
                        fn(m.PositionI(dx, dy))
                    elif form == "tuple":
                        fn((dx, dy))
                    elif form == "kw":
                        fn(**{n[0]: dx, n[1]: dy})
                    else:
                        fn(dx + 0.5, dy)

                if form == "float":  # positions between pixels are refused (GalSim truncates them)
                    mon.raises("non-integer-position-refused", lambda: f(j, jg), op=op)
                else:
                    lockstep(mon, op, lambda: f(j, jg), lambda: f(g, galsim), **det)
            elif op == "resize":
                b2 = [int(rng.integers(-5, 5)), 0, int(rng.integers(-5, 5)), 0]
                b2[1], b2[3] = b2[0] + int(rng.integers(0, 6)), b2[2] + int(rng.integers(0, 6))
                w = some_wcs(rng)
                r = lockstep(mon, op, lambda: j.resize(jg.BoundsI(*b2), wcs=mk_wcs(jg, w)), lambda: g.resize(galsim.BoundsI(*b2), wcs=mk_wcs(galsim, w)), kinds=True, **det)
                if r:
                    # contents after resize are documented as undefined
                    mon.same("resize:shape", list(A(j.array).shape), list(g.array.shape), **det)
                    j.setZero()
                    g.setZero()
            elif op == "fill":
                v = int(rng.integers(0, 90)) if kind in "iu" else rnd(rng, -9, 9)
                lockstep(mon, op, lambda: j.fill(v), lambda: g.fill(v), kinds=True, **det)
            elif op == "zero":
                lockstep(mon, op, lambda: j.setZero(), lambda: g.setZero(), kinds=True, **det)
            elif op == "inv":
                if kind == "c":
                    continue
                r = lockstep(mon, op, lambda: j.invertSelf(), lambda: g.invertSelf(), kinds=True, **det)
                if kind in "iu" and not g.isconst:  # GalSim's C++ layer truncates 1/x
                    mon.close("invert-integer", A(j.array), np.where(np.abs(g.array) == 1, g.array, 0))
            elif op == "repneg":
                if kind == "c":
                    continue
                v = int(rng.integers(0, 9))
                lockstep(mon, op, lambda: j.replaceNegative(v), lambda: g.replaceNegative(v), **det)
            elif op == "copy":
                o = {}
                if rng.random() < 0.3:
                    o["scale"] = rnd(rng, 0.2, 3)
                if rng.random() < 0.3:
                    o["origin"] = [int(rng.integers(-9, 9)), int(rng.integers(-9, 9))]
                elif rng.random() < 0.3:
                    o["center"] = [int(rng.integers(-9, 9)), int(rng.integers(-9, 9))]
                if rng.random() < 0.15:
                    o["make_const"] = True
                kw = lambda m: {k: (m.PositionI(*v) if k in ("origin", "center") else v) for k, v in o.items()}
                r = lockstep(mon, op, lambda: j.copy(**kw(jg)), lambda: (lambda v: galsim.Image(v.array.copy(), bounds=v.bounds, wcs=v.wcs, make_const=o.get("make_const", False)) if defd else v)(g.view(**kw(galsim))), opts=o, **det)
                if r:
                    same_image(mon, "copy", *r, opts=o, **det)
                    new = r
                    snaps.append(Snap("copy", j.copy()))
            elif op == "retype":
                dt2 = pick(rng, DT)
                if np.dtype(dt2).kind != "c" and kind == "c":
                    continue
                if not in_range(g.array, dt2):
                    continue
                w = np.array(g.array)
                if kind == "f" and np.dtype(dt2).kind in "iu":
                    w = np.around(w)  # this library rounds where GalSim's constructor truncates
                form = pick(rng, ["Image", "copy"])
                r = lockstep(mon, op, lambda: jg.Image(j, dtype=NP[dt2]) if form == "Image" else j.copy(dtype=NP[dt2]), lambda: galsim.Image(w.astype(NP[dt2]), bounds=g.bounds, wcs=g.wcs), to=dt2, **det)
                if r:
                    same_image(mon, "retype", *r, to=dt2, form=form, **det)
                    new = r
            elif op == "part":
                p = pick(rng, ["real", "imag", "conjugate"])
                r = lockstep(mon, p, lambda: getattr(j, p), lambda: galsim.Image(getattr(g, p).array.copy(), bounds=g.bounds, wcs=g.wcs, make_const=getattr(g, p).isconst), **det)
                if r:  # the conjugate of a real image is the image itself in GalSim, a copy here
                    same_image(mon, p, *r, const=p != "conjugate", **det)
            elif op in ("binop", "rbinop", "iop"):
                o = pick(rng, ["+", "-", "*", "/", "+", "-", "*", "/", "//", "%", "**", "&", "|", "^"] if kind in "iu" else ["+", "-", "*", "/", "+", "*", "**", "//"])
                okind = pick(rng, ["int", "float", "image", "image", "image2", "npscalar", "array"])
                if o in ("//", "%", "&", "|", "^") and okind in ("float",) and rng.random() < 0.8:
                    okind = "int"
                if o == "**":
                    okind = pick(rng, ["int", "float"])
                    if op == "rbinop":
                        o = "*"
                dt2 = dt
                if okind == "image2":
                    dt2 = pick(rng, DT)
                if o in ("//", "%", "&", "|", "^") and np.dtype(dt2).kind not in "iu" and rng.random() < 0.8:
                    dt2 = dt
                if okind == "int":
                    raw = int(rng.integers(1, 9)) if o != "**" else int(rng.integers(0, 4))
                elif okind == "float":
                    raw = rnd(rng, 0.3, 3) if o != "**" else float(rng.integers(0, 4))
                elif okind == "npscalar":
                    raw = np.dtype(dt).type(int(rng.integers(1, 9)))
                else:
                    raw = pixels(rng, dt2, ny, nx)
                    if o in ("/", "//", "%"):
                        raw = np.where(raw == 0, np.ones_like(raw), raw)
                    if rng.random() < 0.05 and okind != "array":
                        raw = np.zeros((ny + 1, nx), dtype=dt2)
                if okind in ("int", "npscalar") and op == "rbinop" and o in ("/", "//", "%") and np.any(g.array == 0):
                    continue
                if op == "rbinop" and o in ("/", "//", "%") and np.any(g.array == 0):
                    continue
                if op == "rbinop" and okind in ("image", "image2", "array"):
                    continue
                if okind == "array" and (op != "iop" and False):
                    continue
                if kind == "c" and o in ("//", "%"):
                    continue
                val = lambda m: m.Image(raw.copy()) if okind in ("image", "image2") else (jnp.asarray(raw) if m is jg else raw.copy()) if okind == "array" else raw
                # predicted result, to stay inside the range of the pixel type
                try:
                    pr = PY[o](np.asarray(g.array, dtype=complex if kind == "c" or np.asarray(raw).dtype.kind == "c" else (np.int64 if kind in "iu" and np.asarray(raw).dtype.kind in "iu" and o != "/" else float)), np.asarray(raw, dtype=np.int64 if np.asarray(raw).dtype.kind in "iu" else None)) if op != "rbinop" else PY[o](np.asarray(raw, dtype=float), g.array.astype(complex if kind == "c" else float))
                except Exception:
                    pr = None
                if op == "iop" and np.asarray(raw).dtype.kind == "c" and kind != "c":
                    continue
                if okind == "float" and kind in "iu" and o in ("&", "|", "^", "//", "%"):
                    if o in ("&", "|", "^"):
                        pr = None
                target = dt
                if op != "iop" and np.asarray(raw).shape == ():
                    target = dt if np.asarray(raw).dtype.kind in "iu" and o != "/" or o == "**" else ("float64" if kind in "iu" else dt)
                elif op != "iop":
                    target = str(np.result_type(g.array, raw)) if o != "/" else "float64"
                if kind in "iu" and pr is not None and pr.shape == g.array.shape and not (in_range(pr, target) and np.all(np.abs(pr) < 1e6)):
                    continue
                if kind == "u" and okind == "image2" and np.dtype(dt2).kind in "i" and np.any(raw < 0):
                    continue
                if op == "iop" and not np.can_cast(np.result_type(np.dtype(dt), np.dtype(dt2)), dt, "same_kind") and o in ("&", "|", "^"):
                    continue  # NumPy refuses the store, JAX does not
                if np.dtype(dt2).kind == "u" and kind == "i" and np.any(g.array < 0):
                    continue
                det.update(oper=o, operand=okind, dt2=dt2, raw=raw if np.ndim(raw) == 0 else np.asarray(raw).shape)
                log[-1] += f" {o} {okind} {dt2}"
                promo = True
                if okind in ("image2", "image", "array") and op != "iop":
                    promo = np.result_type(np.dtype(dt), np.dtype(dt2)) == np.dtype(jnp.promote_types(dt, dt2))
                    if o == "/" and kind in "iu" and np.dtype(dt2).kind in "iu":
                        promo = True
                if kind in "iu" and (o == "/" or o == "**" and okind == "float"):
                    promo = False
                    # JAX has its own rules for these types
                tol = 2e-6 if (not promo or "32" in dt or "32" in dt2 or "64" == dt[-2:] and kind == "c" or dt2 == "complex64" or "16" in dt) else 1e-13
                if o == "**":
                    tol = max(tol, 1e-5 if dt in ("float32", "complex64") else 1e-12)
                fn = PY[o] if op != "iop" else INPL[o]
                if op == "binop":
                    r = lockstep(mon, "binop" + o, lambda: fn(j, val(jg)), lambda: fn(g, val(galsim)), **det)
                elif op == "rbinop":
                    r = lockstep(mon, "rbinop" + o, lambda: fn(val(jg), j), lambda: fn(val(galsim), g), **det)
                else:
                    if np.ndim(raw) and okind == "array" and False:
                        continue
                    r = lockstep(mon, "iop" + o, lambda: fn(j, val(jg)), lambda: fn(g, val(galsim)), **det)
                    if r:
                        mon.check("in-place-returns-self", r[0] is j, **det)
                if r and op != "iop":
                    same_image(mon, op + o, *r, dtype=promo, const=True, tol=tol, **det)
                    mon.check("binary-result-is-new", r[0] is not j)
                    if np.dtype(r[0].dtype) == np.dtype(r[1].dtype) and np.all(np.abs(r[1].array) < 1e5):
                        new = r
                        if np.dtype(r[1].dtype).kind in "fc":
                            # continue both histories from the same pixels
                            r[0]._array = jnp.asarray(r[1].array)
                if op == "iop":
                    same_image(mon, "iop" + o, j, g, tol=tol, **det)
                    if kind in "fc":
                        if not np.all(np.abs(g.array) < 1e5):
                            pool.pop(i)
                            if not pool:
                                break
                            continue
                        j._array = jnp.asarray(g.array.copy())
            elif op == "sym":
                p = pick(rng, ["transpose", "flip_lr", "flip_ud", "rot_cw", "rot_ccw", "rot_180"])
                r = lockstep(mon, p, lambda: getattr(j, p)(), lambda: getattr(g, p)().copy(), **det)
                if r:
                    same_image(mon, p, *r, const=False, **det)
                    if not r[1].isconst:
                        new = r
            elif op == "neg":
                if kind == "u" and np.any(g.array):
                    continue
                r = lockstep(mon, op, lambda: -j, lambda: -g, **det)
                if r:
                    same_image(mon, "neg", *r, **det)
            elif op == "eq":
                j2, g2 = pool[int(rng.integers(len(pool)))]
                r = [bool(j == j2), bool(j != j2), bool(j == j.copy(make_const=j.isconst))]
                mon.same("equality", r, [g == g2, g != g2, g == (g.copy() if not g.isconst else g) if not np.any(np.isnan(g.array)) else False], **det)
                if ny:
                    # constness is part of what an image is
                    if not (kind in "fc" and np.any(np.isnan(g.array))):
                        got = [bool(j == jg.Image(j.array, xmin=g.xmin, ymin=g.ymin, wcs=j.wcs, make_const=w)) for w in (False, True)]
                        want = [g == galsim.Image(g.array.copy(), xmin=g.xmin, ymin=g.ymin, wcs=g.wcs, make_const=w) for w in (False, True)]
                        mon.same("equality-const", got, want, **det)
                if ny and not g.isconst:
                    k = j.copy()
                    k.addValue(xx, yy, 1)
                    mon.check("equality-sees-one-pixel", bool(k != j) or bool(np.isnan(A(j(xx, yy)))) or abs(A(j(xx, yy))) > 1e6, **det)
            elif op == "scale":
                s = rnd(rng, 0.2, 3)
                r = lockstep(mon, op, lambda: setattr(j, "scale", s), lambda: setattr(g, "scale", s), **det)
                r = lockstep(mon, "get-scale", lambda: j.scale, lambda: g.scale, **det)
                if r and r[1] is not None:
                    mon.close("get-scale", F(r[0]), r[1], rtol=1e-14)
            elif op == "bad":
                k = pick(rng, [0, 1, 2, 3, 4])
                fs = [lambda im, m: im["a"], lambda im, m: im.setCenter("a", 2), lambda im, m: im.copyFrom(3), lambda im, m: im.resize((1, 2, 3, 4)), lambda im, m: im.setSubImage(m.BoundsI(*bb), 4)]
                lockstep(mon, "bad", lambda: fs[k](j, jg), lambda: fs[k](g, galsim), k=k, **det)
            elif op == "pixcen":
                a, b = j.get_pixel_centers(), g.get_pixel_centers()
                mon.close("pixel-centers", A(a), np.array(b))
            elif op == "props":
                mon.same("props", [int(A(j.center.x)), int(A(j.center.y)), int(A(j.origin.x)), int(A(j.origin.y)), bool(j.iscomplex), bool(j.isinteger)], [g.center.x, g.center.y, g.origin.x, g.origin.y, g.iscomplex, g.isinteger])
                mon.close("props-true", [F(j.true_center.x), F(j.true_center.y), *[F(getattr(j.outer_bounds, k)) for k in ("xmin", "xmax", "ymin", "ymax")]], [g.true_center.x, g.true_center.y, *[getattr(g.outer_bounds, k) for k in ("xmin", "xmax", "ymin", "ymax")]])
            elif op == "snap":
                snaps.append(Snap("array", j.array))
        except Abort:
            raise
        # the image operated on holds what GalSim's holds
        same_image(mon, "after-" + op, j, g, const=True, tol=3e-6, **det)
        for jj, gg in pool:
            if jj is not j:
                mon.same("others-untouched", A(jj.array).shape, gg.array.shape)
                mon.check("others-untouched-values", np.array_equal(A(jj.array).astype(gg.array.dtype), gg.array, equal_nan=gg.array.dtype.kind in "fc") or np.allclose(A(jj.array), gg.array, rtol=3e-6, atol=1e-12, equal_nan=True), after=op)
        for s in snaps:
            s.check(mon, op)
        mon.event("op:" + op)
        if new is not None and len(pool) < 4:
            pool.append(list(new))
    mon.note(log=log)


def const(mon, rng):
    """Constant images refuse every modification, and stay as they were."""
    dt = pick(rng, DT)
    kind = np.dtype(dt).kind
    nx, ny = int(rng.integers(1, 6)), int(rng.integers(1, 6))
    a = pixels(rng, dt, ny, nx)
    how = pick(rng, ["make_const", "copy", "imag"]) if kind != "c" else pick(rng, ["make_const", "copy"])
    c = jg.Image(a.copy(), make_const=True, scale=0.5) if how == "make_const" else jg.Image(a.copy(), scale=0.5).copy(make_const=True) if how == "copy" else jg.Image(a.copy(), scale=0.5).imag
    mon.note(dt=dt, n=[nx, ny], how=how)
    before = A(c.array).copy()
    other = jg.Image(a.copy())
    b = jg.BoundsI(1, 1, 1, 1)
    ops = {
        "setValue": lambda: c.setValue(1, 1, 3),
        "addValue": lambda: c.addValue(1, 1, 3),
        "item": lambda: c.__setitem__((1, 1), 3),
        "itempos": lambda: c.__setitem__(jg.PositionI(1, 1), 3),
        "setSubImage": lambda: c.setSubImage(b, other[b]),
        "itembounds": lambda: c.__setitem__(b, other[b]),
        "copyFrom": lambda: c.copyFrom(other),
        "fill": lambda: c.fill(2),
        "setZero": lambda: c.setZero(),
        "invertSelf": lambda: c.invertSelf(),
        "replaceNegative": lambda: c.replaceNegative(2),
        "resize": lambda: c.resize(jg.BoundsI(1, 9, 1, 9)),
        "iadd": lambda: op_.iadd(c, 1),
        "iadd-image": lambda: op_.iadd(c, other),
        "isub": lambda: op_.isub(c, 1),
        "imul": lambda: op_.imul(c, 2),
        "idiv": lambda: op_.itruediv(c, 2),
        "ipow": lambda: op_.ipow(c, 2),
    }
    if kind in "iu":
        ops.update({"ior": lambda: op_.ior(c, 1), "ixor": lambda: op_.ixor(c, 1), "iand": lambda: op_.iand(c, 1), "imod": lambda: op_.imod(c, 2), "ifloordiv": lambda: op_.ifloordiv(c, 2)})
    ops["array"] = lambda: setattr(c, "array", other.array * 2)
    ops["view-of-array"] = lambda: c.array.__setitem__((0, 0), 3)
    ops["addNoise"] = lambda: c.addNoise(jg.GaussianNoise(jg.BaseDeviate(3), sigma=2.0))
    if kind != "c":
        ops["wrap"] = lambda: c.wrap(b)
    if kind == "f":
        p = jg.PhotonArray(3, x=jnp.ones(3), y=jnp.ones(3), flux=jnp.ones(3))
        o = jg.Gaussian(sigma=0.4)
        ops["addTo"] = lambda: p.addTo(c)
        ops["draw"] = lambda: o.drawImage(c)
        ops["draw-add"] = lambda: o.drawImage(image=c, add_to_image=True, method=pick(rng, ["fft", "no_pixel", "sb"]))
        ops["draw-phot"] = lambda: o.drawImage(image=c, method="phot", n_photons=5, rng=jg.BaseDeviate(4), add_to_image=bool(rng.random() < 0.5))
        ops["accumulate"] = lambda: jg.Sensor().accumulate(p, c)
    if kind == "c":
        ops["drawK"] = lambda: jg.Gaussian(sigma=0.4).drawKImage(image=c, add_to_image=bool(rng.random() < 0.5))
    names = list(ops)
    for n in [names[k] for k in rng.permutation(len(names))]:
        mon.raises("const-refuses", ops[n], op=n, mech="const-refuses:" + n)
        mon.same("const-unchanged", A(c.array), before, op=n, mech="const-unchanged:" + n)
    mon.check("const-still-const", bool(c.isconst))
    d = c.copy()
    mon.check("copy-of-const-is-mutable", not d.isconst)
    d.fill(1)
    d += 1
    mon.same("const-unchanged", A(c.array), before, op="copy")
    r = c + 1
    mon.check("sum-of-const-is-mutable", not r.isconst)


def rounding(mon, rng):
    """Float values stored in integer images through images and in-place arithmetic are rounded to nearest."""
    dt = pick(rng, ["int16", "int32", "uint16", "uint32"])
    n = int(rng.integers(1, 7))
    lo = 0.6 if dt[0] == "u" else -60
    v = np.round(rng.uniform(lo, 60, (n, n)), 4)
    v[np.abs(v - np.floor(v) - 0.5) < 1e-3] += 0.01
    want = np.around(v).astype(np.int64)
    src = pick(rng, ["float64", "float32"])
    mon.note(dt=dt, src=src, n=n, v=v)
    fim = jg.Image(v.astype(src))
    im = jg.Image(n, n, dtype=NP[dt])
    b = im.bounds
    im.copyFrom(fim)
    mon.same("round-copyFrom", A(im.array).astype(np.int64), want)
    im.setZero()
    im[b] = fim
    mon.same("round-setitem", A(im.array).astype(np.int64), want)
    im.setZero()
    im += fim
    mon.same("round-iadd", A(im.array).astype(np.int64), want)
    im *= 1.5
    mon.same("round-imul", A(im.array).astype(np.int64), np.around(want * 1.5).astype(np.int64))
    im.setZero()
    im += 4
    im *= 3
    im /= 5
    mon.same("round-idiv", A(im.array).astype(np.int64), np.full((n, n), 2))
    mon.same("round-construct", A(jg.Image(fim, dtype=NP[dt]).array).astype(np.int64), want)
    mon.same("round-construct-array", A(jg.Image(v.astype(src), dtype=NP[dt]).array).astype(np.int64), want)
    mon.same("round-copy", A(fim.copy(dtype=NP[dt]).array).astype(np.int64), want)
    mon.check("round-dtype", A(im.array).dtype == np.dtype(dt))


def moments(mon, rng):
    """Flux-weighted moments of an image."""
    dt = pick(rng, ["float32", "float64", "int32", "uint16"])
    a = np.abs(pixels(rng, dt, int(rng.integers(2, 9)), int(rng.integers(2, 9)))) + np.dtype(dt).type(1)
    x0, y0 = int(rng.integers(-9, 9)), int(rng.integers(-9, 9))
    o = [rnd(rng, -5, 5), rnd(rng, -5, 5)] if rng.random() < 0.5 else None
    mon.note(dt=dt, shape=a.shape, x0=[x0, y0], origin=o)
    j, g = jg.Image(a.copy(), xmin=x0, ymin=y0), galsim.Image(a.copy(), xmin=x0, ymin=y0)
    mj = jg.utilities.unweighted_moments(j, origin=None if o is None else jg.PositionD(*o))
    mg = galsim.utilities.unweighted_moments(g, origin=None if o is None else galsim.PositionD(*o))
    for k in mg:
        mon.close("moments", F(mj[k]), mg[k], rtol=1e-10, atol=1e-10, k=k)
    sj, sg = jg.utilities.unweighted_shape(j), galsim.utilities.unweighted_shape(g)
    for k in sg:
        mon.close("shape", F(sj[k]), sg[k], rtol=1e-9, atol=1e-9, k=k)


GROUPS = {
    "history": dict(fn=history, quick=330, thorough=4500, cost=0.5, warm=6, must=["construct", "iop+", "after-set", "subimage", "earlier-result-unchanged"]),
    "const": dict(fn=const, quick=40, thorough=500, cost=0.3, warm=4, must=["const-refuses", "const-unchanged"]),
    "rounding": dict(fn=rounding, quick=40, thorough=800, cost=0.1, warm=4, must=["round-copyFrom"]),
    "moments": dict(fn=moments, quick=30, thorough=400, cost=0.1, warm=4),
}
