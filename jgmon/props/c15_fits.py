"""C15: images, headers and coordinate systems through FITS files, written and read by either library."""

import os
import shutil
import tempfile
import warnings

import astropy.io.fits as pyfits

from jgmon.common import *  # noqa: F401,F403
from jgmon.props.c13_euclidean_wcs import mk as mk_euclid
from jgmon.props.c13_euclidean_wcs import spec as euclid_spec
from jgmon.props.c14_fits_wcs import header_spec, sep

RULE = "A case writes random images (pixel type, shape, origin, coordinate system, compression, layout) to files in a scratch directory with one library and reads them back with both."
ASSUMPTIONS = ["astropy stores what it is given (GalSim's FITS layer is shared by both libraries)", "lossy tile compression of floats is compared with GalSim's result, not with the input"]

DT = [np.float32, np.float64, np.int32, np.int16, np.uint16, np.uint32]


def img_spec(rng, shape=None, wcs=True):
    ny, nx = shape or (int(rng.integers(1, 14)), int(rng.integers(1, 14)))
    r = rng.random()
    w = None
    if wcs and r < 0.6:
        w = ("e", euclid_spec(rng))
    elif wcs and r < 0.8:
        w = ("f", header_spec(rng, False)["h"])
    elif r < 0.9:
        w = ("s", rnd(rng, 0.1, 3))
    return dict(
        dt=np.dtype(pick(rng, DT)).name,
        shape=[ny, nx],
        origin=pick(rng, [[1, 1], [0, 0], [int(rng.integers(-30, 30)), int(rng.integers(-30, 30))]]),
        wcs=w,
        seed=int(rng.integers(1 << 30)),
        big=rng.random() < 0.2,
    )


def pixels(s, nonneg=False):
    r = np.random.default_rng(s["seed"])
    dt = np.dtype(s["dt"])
    sh = s["shape"]
    if dt.kind == "f":
        a = r.normal(size=sh) * (1e30 if s["big"] else 100)
    else:
        ii = np.iinfo(dt)
        a = r.integers(ii.min, ii.max, sh, endpoint=True) if s["big"] else r.integers(0 if dt.kind == "u" else -900, 1000, sh)
    a = a.astype(dt)
    if nonneg and dt.kind != "f":
        a = (np.abs(a.astype(np.int64)) % 30000).astype(dt)
    return a


def wcs_of(m, w):
    if w is None:
        return None
    if w[0] == "e":
        return mk_euclid(m, w[1])
    if w[0] == "s":
        return m.PixelScale(w[1])
    return m.GSFitsWCS(header=w[1])


def image(m, s, a):
    x, y = s["origin"]
    kw = {}
    if s["wcs"] is not None:
        kw["wcs"] = wcs_of(m, s["wcs"])
    if m is jg:
        return m.Image(jnp.asarray(a), xmin=x, ymin=y, **kw)
    return m.Image(a.copy(), xmin=x, ymin=y, **kw)


def wcs_points(mon, name, w, ref, rng, **d):
    """Same world position at some pixels; ref is a GalSim WCS."""
    m = jg if type(w).__module__.startswith("jax_galsim") else galsim
    for _ in range(2):
        x, y = rnd(rng, -30, 50), rnd(rng, -30, 50)
        a, b = w.toWorld(m.PositionD(x, y)), ref.toWorld(galsim.PositionD(x, y))
        if isinstance(b, galsim.CelestialCoord):
            mon.close(name, sep(a, b), 0.0, atol=1e-13, **d)
        else:
            j = ref.jacobian()
            R = (100 + abs(ref.x0) + abs(ref.y0)) * max(abs(j.dudx), abs(j.dudy), abs(j.dvdx), abs(j.dvdy)) + abs(ref.u0) + abs(ref.v0)
            mon.close(name, pos(a), [b.x, b.y], atol=1e-12 * R, **d)


def same_image(mon, name, im, want, s, rng, exact_class=True):
    """im: what was read (either library); want: a GalSim image."""
    m = jg if isinstance(im, jg.Image) else galsim
    who = m.__name__
    mon.check(name + ":class", isinstance(im, m.Image), by=who)
    mon.check(name + ":dtype", np.dtype(im.dtype) == np.dtype(want.dtype) == A(im.array).dtype, got=str(im.dtype), want=str(want.dtype), by=who)
    mon.same(name + ":pixels", A(im.array), want.array, by=who)
    b, w = im.bounds, want.bounds
    mon.check(name + ":bounds", [F(b.xmin), F(b.xmax), F(b.ymin), F(b.ymax)] == [w.xmin, w.xmax, w.ymin, w.ymax], got=repr(b), want=repr(w), by=who)
    if s["wcs"] is not None:
        wcs_points(mon, name + ":wcs", im.wcs, want.wcs, rng, by=who)


COMP = ["auto", "none", None, "rice", "gzip", "bzip2", "gzip_tile", "hcompress", "plio"]


def choose_comp(rng, s, cube=False):
    c = pick(rng, COMP)
    ext = ".fits"
    if c == "auto":
        ext = pick(rng, [".fits", ".fits.gz", ".fits.fz", ".fits.bz2"])
    ny, nx = s["shape"]
    if c == "hcompress" and (cube or min(ny, nx) < 5 or s["big"] or np.dtype(s["dt"]).kind == "u"):
        c = "rice"
    if c == "plio" and (np.dtype(s["dt"]).kind == "f" or s["big"] or np.dtype(s["dt"]).kind == "u"):
        c = "gzip_tile"
    return c, ext


def lossy(c, ext, s):
    return (c in ("rice", "hcompress", "gzip_tile") or ext.endswith(".fz")) and np.dtype(s["dt"]).kind == "f"


def single(mon, rng):
    warnings.simplefilter("ignore")
    s = img_spec(rng)
    c, ext = choose_comp(rng, s)
    a = pixels(s, nonneg=c == "plio")
    how = pick(rng, ["function", "method", "kwargs", "hdu_list", "dir"])
    mon.note(spec=s, comp=c, ext=ext, how=how)
    tmp = tempfile.mkdtemp(prefix="jgmon")
    try:
        ji, gi = image(jg, s, a), image(galsim, s, a)
        if rng.random() < 0.3:
            hd = {"OBSERVER": "someone", "AIRMASS": 1.25, "NEXP": 3}
            ji.header, gi.header = jg.FitsHeader(header=hd), galsim.FitsHeader(header=hd)
            mon.event("with-header")
        before = (repr(ji.bounds), repr(ji.wcs), A(ji.array).copy(), ji.__class__, type(ji.array))

        def write(m, im, path):
            d, f = os.path.split(path)
            if how == "method":
                im.write(path, compression=c)
            elif how == "kwargs":
                m.fits.write(image=im, file_name=path, compression=c)
            elif how == "dir":
                m.fits.write(im, f, dir=d, compression=c)
            elif how == "hdu_list":
                hl = pyfits.HDUList()
                m.fits.write(im, hdu_list=hl, compression=c if not (c == "auto" or c in ("gzip", "bzip2")) else None)
                m.fits.writeFile(path, hl, compression=c if c in ("gzip", "bzip2") or c == "auto" and not path.endswith(".fz") else None)
            else:
                m.fits.write(im, path, compression=c)

        pj, pg = os.path.join(tmp, "j" + ext), os.path.join(tmp, "g" + ext)
        r = lockstep(mon, "write", lambda: write(jg, ji, pj) or 1, lambda: write(galsim, gi, pg) or 1, how=how, comp=c)
        mon.check("writing-keeps-image", before[0] == repr(ji.bounds) and before[1] == repr(ji.wcs) and np.array_equal(before[2], A(ji.array), equal_nan=True) and before[3] is ji.__class__ and before[4] is type(ji.array))
        if r is None:
            return
        mon.event("comp:" + str(c) + ext)
        kw = {} if c in (None,) else {"compression": c}
        if how == "hdu_list" and ext.endswith(".fz"):
            kw = {"compression": "none"}
        elif how == "hdu_list" and c not in ("rice", "gzip_tile", "hcompress", "plio", "auto", "gzip", "bzip2"):
            kw = {"compression": "none"}
        want = lockstep(mon, "read", lambda: jg.fits.read(pj, **kw), lambda: galsim.fits.read(pg, **kw))
        if want is None:
            return
        jr, ref = want
        if not lossy(c, ext, s):
            mon.same("reference-restores", ref.array, a)
        same_image(mon, "jax-wrote-jax-read", jr, ref, s, rng)
        wcs = gi.wcs if gi.wcs is not None else galsim.PixelScale(1.0)
        wcs_points(mon, "wcs-restored", jr.wcs, wcs, rng)
        gr = attempt(lambda: galsim.fits.read(pj, **kw))
        if mon.check("galsim-reads-it", not isinstance(gr, Raised), got=str(getattr(gr, "e", ""))[:200]):
            same_image(mon, "jax-wrote-galsim-read", gr, ref, s, rng)
            mon.check("wcs-class-as-galsim", type(gr.wcs).__name__ == type(ref.wcs).__name__ or s["wcs"][1].get("k") == "PixelScale", got=type(gr.wcs).__name__, want=type(ref.wcs).__name__)
        jr2 = attempt(lambda: jg.fits.read(pg, **kw, read_header=True))
        if mon.check("reads-galsim-file", not isinstance(jr2, Raised), got=str(getattr(jr2, "e", ""))[:200]):
            same_image(mon, "galsim-wrote-jax-read", jr2, ref, s, rng)
            if hasattr(gi, "header"):
                for k, v in {"OBSERVER": "someone", "AIRMASS": 1.25, "NEXP": 3}.items():
                    mon.check("header-restored", jr2.header.get(k) == v, k=k, got=jr2.header.get(k))
        # headers of the two files agree
        e = 1 if (c in ("rice", "gzip_tile", "hcompress", "plio") or ext.endswith(".fz")) and not (how == "hdu_list" and c == "auto") else 0
        with pyfits.open(pj) as f1, pyfits.open(pg) as f2:
            mon.check("layout", len(f1) == len(f2), got=len(f1), want=len(f2))
            h1, h2 = f1[min(e, len(f1) - 1)].header, f2[min(e, len(f2) - 1)].header
            mon.check("header-keys", list(h1.keys()) == list(h2.keys()), got=sorted(set(h1) ^ set(h2)))
            for k in h1:
                v, w = h1[k], h2.get(k)
                if isinstance(w, float) or isinstance(v, float):
                    mon.close("header-value", float(v), float(w), rtol=1e-11, atol=1e-12, key=k)
                elif k not in ("CHECKSUM", "DATASUM") and not k.startswith(("COMMENT", "HISTORY")):
                    mon.check("header-value", v == w, key=k, got=v, want=w)
        # a second trip changes nothing
        p3 = os.path.join(tmp, "again.fits")
        jr.write(p3)
        same_image(mon, "second-trip", jg.fits.read(p3), ref, s, rng)
    finally:
        shutil.rmtree(tmp)


def several(mon, rng):
    """Lists and cubes."""
    warnings.simplefilter("ignore")
    cube = rng.random() < 0.5
    n = int(rng.integers(1, 5))
    s0 = img_spec(rng)
    specs = [dict(img_spec(rng, shape=s0["shape"]), dt=s0["dt"], big=s0["big"]) if cube else img_spec(rng) for _ in range(n)]
    if cube:
        w = specs[0]["wcs"]
        for s in specs:
            s["wcs"], s["origin"] = w, specs[0]["origin"]
    c, ext = choose_comp(rng, s0, cube)
    if c in ("plio", "hcompress"):
        c = "gzip"
    arrs = [pixels(s) for s in specs]
    form = pick(rng, ["images", "arrays", "array3", "mixed", "numpy"]) if cube else "images"
    how = pick(rng, ["function", "kwargs"])
    mon.note(cube=cube, specs=specs, comp=c, ext=ext, form=form, how=how)
    mon.event(("cube:" if cube else "multi:") + form)
    tmp = tempfile.mkdtemp(prefix="jgmon")
    try:
        def what(m):
            ims = [image(m, s, a) for s, a in zip(specs, arrs)]
            if form == "images":
                return ims if rng_t else tuple(ims)
            if form in ("arrays", "numpy"):
                return [jnp.asarray(a) if m is jg and form == "arrays" else a for a in arrs]
            if form == "array3":
                return jnp.asarray(np.stack(arrs)) if m is jg else np.stack(arrs)
            return [im if i % 2 == 0 else (jnp.asarray(a) if m is jg else a) for i, (im, a) in enumerate(zip(ims, arrs))]

        rng_t = rng.random() < 0.8

        def write(m, path):
            ims = what(m)
            f = m.fits.writeCube if cube else m.fits.writeMulti
            if how == "kwargs":
                f(image_list=ims, file_name=path, compression=c)
            else:
                f(ims, path, compression=c)
            return ims

        pj, pg = os.path.join(tmp, "j" + ext), os.path.join(tmp, "g" + ext)
        r = lockstep(mon, "write", lambda: write(jg, pj), lambda: write(galsim, pg), form=form)
        if r is None:
            return
        if form == "images":
            mon.check("writing-keeps-images", all(isinstance(i, jg.Image) and isinstance(i.array, jax.Array) for i in r[0]))
        kw = {} if c is None else {"compression": c}
        rd = "readCube" if cube else "readMulti"
        ref = getattr(galsim.fits, rd)(pg, **kw)
        for who, m, p in (("jax-wrote-jax-read", jg, pj), ("jax-wrote-galsim-read", galsim, pj), ("galsim-wrote-jax-read", jg, pg)):
            got = attempt(lambda: getattr(m.fits, rd)(p, **kw))
            if not mon.check(who + ":accepted", not isinstance(got, Raised), got=str(getattr(got, "e", ""))[:200]):
                continue
            if not mon.check(who + ":count", len(got) == n == len(ref), got=len(got), want=n):
                continue
            for i, (im, want) in enumerate(zip(got, ref)):
                ss = specs[0 if cube else i]
                same_image(mon, who, im, want, dict(ss, wcs=ss["wcs"] if form in ("images", "mixed") else None), rng)
                if not (lossy(c, ext, ss)):
                    mon.same(who + ":order", A(im.array), arrs[i])
        # one extension at a time
        if not cube and c in (None, "none", "gzip"):
            i = int(rng.integers(n))
            kk = {} if c is None else {"compression": c}
            im = jg.fits.read(pj, hdu=i, **kk)
            mon.same("one-extension", A(im.array), arrs[i])
    finally:
        shutil.rmtree(tmp)


def foreign(mon, rng):
    """Files GalSim did not write, and refusals."""
    warnings.simplefilter("ignore")
    tmp = tempfile.mkdtemp(prefix="jgmon")
    try:
        dt = pick(rng, ["u1", "i2", "u2", "i4", "u4", "i8", "f4", "f8", "i1"])
        a = np.random.default_rng(int(rng.integers(1 << 30))).integers(0, 100, (int(rng.integers(1, 8)), int(rng.integers(1, 8)))).astype(dt)
        h = pyfits.Header()
        k = pick(rng, ["none", "celestial", "linear", "gs"])
        if k == "celestial":
            for key, v in header_spec(rng, False)["h"].items():
                h[key] = v
        elif k == "linear":
            h["CDELT1"], h["CDELT2"] = 0.3, 0.3
        elif k == "gs":
            h["GS_XMIN"], h["GS_YMIN"], h["GS_WCS"], h["GS_SCALE"] = 4, -7, "PixelScale", 0.25
        p = os.path.join(tmp, "f.fits")
        mon.note(dt=dt, k=k, shape=list(a.shape))
        pyfits.HDUList([pyfits.PrimaryHDU(a, header=h)]).writeto(p)
        mon.event("foreign:" + k)
        r = lockstep(mon, "foreign-read", lambda: jg.fits.read(p, read_header=True), lambda: galsim.fits.read(p, read_header=True))
        if r:
            same_image(mon, "foreign", r[0], r[1], {"wcs": 1}, rng)
            mon.check("foreign-header", all(r[0].header.get(key) == r[1].header.get(key) for key in h))
            mon.check("foreign-native", A(r[0].array).dtype.isnative)
        # refusals
        bad = pick(rng, ["nofile", "hdu", "both", "neither", "clobber", "complex", "dir", "comp", "multi-empty", "cube-shapes", "cube-empty", "none-image"])
        mon.note(bad=bad)

        def f(m):
            im = m.Image(4, 4, init_value=2.0)
            q = os.path.join(tmp, m.__name__ + ".fits")
            if bad == "nofile":
                return m.fits.read(os.path.join(tmp, "absent.fits"))
            if bad == "hdu":
                return m.fits.read(p, hdu=5)
            if bad == "both":
                return m.fits.write(im, q, hdu_list=pyfits.HDUList()) or 1
            if bad == "neither":
                return m.fits.write(im) or 1
            if bad == "clobber":
                m.fits.write(im, q)
                return m.fits.write(im, q, clobber=False) or 1
            if bad == "complex":
                return m.fits.write(m.ImageCD(3, 3, init_value=1), q) or 1
            if bad == "dir":
                return m.fits.write(im, "x.fits", dir=os.path.join(tmp, "absent")) or 1
            if bad == "comp":
                return m.fits.write(im, q, compression="zip") or 1
            if bad == "multi-empty":
                return m.fits.writeMulti([], q) or 1
            if bad == "cube-shapes":
                return m.fits.writeCube([im, m.Image(5, 4, init_value=1)], q) or 1
            if bad == "cube-empty":
                return m.fits.writeCube([], q) or 1
            return m.fits.read() or 1

        lockstep(mon, "bad:" + bad, lambda: f(jg), lambda: f(galsim), kinds=True)
    finally:
        shutil.rmtree(tmp)


def wcs_header(mon, rng):
    """Coordinate systems through headers alone, in both directions between the libraries."""
    warnings.simplefilter("ignore")
    s = euclid_spec(rng)
    b = (int(rng.integers(-20, 20)), 40, int(rng.integers(-20, 20)), 41) if rng.random() < 0.6 else (1, 40, 1, 41)
    mon.note(spec=s, b=b)
    j, g = mk_euclid(jg, s), mk_euclid(galsim, s)
    mon.event("kind:" + s["k"])
    hj, hg = (({}, {}) if rng.random() < 0.5 else (jg.FitsHeader(), galsim.FitsHeader()))
    r = lockstep(mon, "write", lambda: j.writeToFitsHeader(hj, jg.BoundsI(*b)) or 1, lambda: g.writeToFitsHeader(hg, galsim.BoundsI(*b)) or 1)
    if r is None:
        return
    mon.check("keys", set(hj.keys()) == set(hg.keys()), got=sorted(set(hj.keys()) ^ set(hg.keys())))
    for k in set(hj.keys()) & set(hg.keys()):
        v, w = hj[k], hg[k]
        if isinstance(w, tuple):
            mon.check("comment", v[1] == w[1], key=k, got=v[1], want=w[1])
            v, w = v[0], w[0]
        mon.check("value-kind", isinstance(v, type(w)) or isinstance(v, (int, float)) and isinstance(w, (int, float)), key=k, got=type(v).__name__, want=type(w).__name__)
        if isinstance(w, str):
            mon.check("value", v == w, key=k)
        else:
            mon.close("value", float(v), float(w), rtol=1e-12, atol=1e-13, key=k)
    h = {k: (v[0] if isinstance(v, tuple) else v) for k, v in ((k, hj[k]) for k in hj.keys())}
    h2 = {k: (v[0] if isinstance(v, tuple) else v) for k, v in ((k, hg[k]) for k in hg.keys())}
    keep = dict(h)
    for who, m, src in (("jax-jax", jg, h), ("jax-galsim", galsim, h), ("galsim-jax", jg, h2)):
        r = attempt(lambda: m.wcs.readFromFitsHeader(src))
        if not mon.check(who + ":accepted", not isinstance(r, Raised), got=str(getattr(r, "e", ""))[:200], kind=s["k"]):
            continue
        w, o = r
        gw, go = galsim.wcs.readFromFitsHeader(h2)
        mon.check(who + ":origin", (F(o.x), F(o.y)) == (b[0], b[2]))
        mon.check(who + ":class", type(w).__name__ == type(gw).__name__, got=type(w).__name__, want=type(gw).__name__)
        wcs_points(mon, who + ":points", w, g, rng)
    mon.check("header-unchanged", h == keep)


def header_history(mon, rng):
    """FitsHeader against a dictionary, through edits and a file."""
    warnings.simplefilter("ignore")
    h = jg.FitsHeader()
    model, com = {}, {}
    keys = ["AAA", "BBB", "CCC", "DDD", "E1", "F2"]
    log = []
    for _ in range(12):
        op = pick(rng, ["set", "set", "setc", "del", "pop", "update", "copy"])
        k = pick(rng, keys)
        v = pick(rng, [int(rng.integers(-9, 9)), rnd(rng, -5, 5), "text", True, "longer text" * 3])
        log.append([op, k, v])
        if op == "set":
            h[k] = v
            model[k] = v
        elif op == "setc":
            h[k] = (v, "about " + k)
            model[k], com[k] = v, "about " + k
        elif op == "del":
            if k in model:
                del h[k]
                del model[k]
                com.pop(k, None)
            else:
                mon.raises("absent-key", lambda: h[k], exc=KeyError)
        elif op == "pop":
            mon.check("pop", h.pop(k, "none") == model.pop(k, "none"))
            com.pop(k, None)
        elif op == "update":
            h.update({k: v})
            model[k] = v
        else:
            other = jg.FitsHeader(h)
            other["ZZZ"] = 1
            mon.check("copy-independent", "ZZZ" not in h or "ZZZ" in model)
            h = jg.FitsHeader(h)
            com.clear()  # FitsHeader (GalSim's own class) copies values only
        mon.check("keys", list(h.keys()) == list(model) or set(h.keys()) == set(model), log=log[-1])
        mon.check("values", all(h[q] == w for q, w in model.items()) and len(h) == len(model))
        mon.check("comments", all(h.comment(q) == w for q, w in com.items() if q in model))
    mon.note(log=log)
    tmp = tempfile.mkdtemp(prefix="jgmon")
    try:
        im = jg.Image(3, 3, init_value=1.0, scale=0.5)
        im.header = h
        p = os.path.join(tmp, "h.fits")
        im.write(p)
        r = jg.fits.read(p, read_header=True)
        mon.check("file-values", all(r.header.get(q) == w for q, w in model.items()))
        mon.check("file-comments", all(r.header.comment(q) == w for q, w in com.items() if q in model))
        f = jg.FitsHeader(file_name=p)
        mon.check("file-header", all(f.get(q) == w for q, w in model.items()))
    finally:
        shutil.rmtree(tmp)


GROUPS = {
    "single": dict(fn=single, quick=80, thorough=3000, must=["jax-wrote-jax-read:pixels", "jax-wrote-galsim-read:pixels", "galsim-wrote-jax-read:pixels", "header-value", "wcs-restored"]),
    "several": dict(fn=several, quick=50, thorough=2000, must=["jax-wrote-jax-read:order"]),
    "foreign": dict(fn=foreign, quick=60, thorough=1500, must=["foreign:pixels"]),
    "wcs_header": dict(fn=wcs_header, quick=60, thorough=1500, must=["jax-jax:points", "galsim-jax:points"]),
    "header": dict(fn=header_history, quick=20, thorough=400, must=["values"]),
}
