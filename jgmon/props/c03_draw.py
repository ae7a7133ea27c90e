"""C03: drawing in real and Fourier space against GalSim, over the product of drawing options."""

import warnings

from jgmon.common import *  # noqa: F401,F403

RULE = "A case is one profile with one combination of drawing options and image geometry."
ASSUMPTIONS = ["GalSim 2.8.5 is the reference for drawn pixels", "configurations documented as unsupported (real-space convolution) are counted as aborted"]

SHAPES = [(16, 16), (15, 17), (20, 13), (9, 9), (24, 16)]
DTYPES = [None, "float32", "float64", "int16", "int32", "uint16", "uint32"]


def wcs_spec(rng, kinds=("scale", "scale", "PixelScale", "JacobianWCS", "ShearWCS", "OffsetWCS", "AffineTransform", "OffsetShearWCS")):
    k = pick(rng, kinds)
    s = rnd(rng, 0.2, 1.2, log=True)
    o = ["pos", rnd(rng, -30, 30), rnd(rng, -30, 30)]
    w = ["pos", rnd(rng, -30, 30), rnd(rng, -30, 30)]
    if k in ("scale", "PixelScale"):
        return {"k": k, "scale": s}
    if k == "OffsetWCS":
        return {"k": k, "scale": s, "origin": o, "world_origin": w}
    if k in ("ShearWCS", "OffsetShearWCS"):
        d = {"k": k, "scale": s, "g1": rnd(rng, -0.3, 0.3), "g2": rnd(rng, -0.3, 0.3)}
        if k == "OffsetShearWCS":
            d.update(origin=o, world_origin=w)
        return d
    j = jac_kw(rng)
    d = {"k": k, **{a: float(f"{v * s:.6g}") for a, v in j.items()}}
    if k == "AffineTransform":
        d.update(origin=o, world_origin=w)
    return d


def make_wcs(mod, d):
    k = d["k"]
    kw = {a: fix(mod, v) for a, v in d.items() if k != a and a in ("origin", "world_origin")}
    if k == "PixelScale":
        return mod.PixelScale(d["scale"])
    if k == "OffsetWCS":
        return mod.OffsetWCS(d["scale"], **kw)
    if k == "ShearWCS":
        return mod.ShearWCS(d["scale"], mod.Shear(g1=d["g1"], g2=d["g2"]))
    if k == "OffsetShearWCS":
        return mod.OffsetShearWCS(d["scale"], mod.Shear(g1=d["g1"], g2=d["g2"]), **kw)
    a = [d[x] for x in ("dudx", "dudy", "dvdx", "dvdy")]
    if k == "JacobianWCS":
        return mod.JacobianWCS(*a)
    if k == "AffineTransform":
        return mod.AffineTransform(*a, **kw)
    if k == "TanWCS":
        aff = mod.AffineTransform(*[d[x] for x in ("dudx", "dudy", "dvdx", "dvdy")], origin=fix(mod, d["origin"]))
        return mod.TanWCS(aff, mod.CelestialCoord(d["ra"] * mod.degrees, d["dec"] * mod.degrees), units=mod.arcsec)
    raise ValueError(k)


def prof_spec(rng, hard=False, special=False, neg=True):
    r = rng.random()
    leaves = ("Gaussian", "Exponential") + (("Box",) if hard else ()) + (("Spergel", "Moffat") if special else ())
    if r < 0.5:
        s = LEAVES[pick(rng, leaves)](rng, None, neg)
    else:
        s = tree_spec(rng, int(rng.integers(1, 3)), leaves, convolve=rng.random() < 0.4)
    return s


def wcs_close(mon, name, jw, gw):
    if gw is None or jw is None:
        mon.check(name, jw is None and gw is None, got=repr(jw), want=repr(gw))
        return
    mon.check(name + "-type", type(jw).__name__ == type(gw).__name__, got=type(jw).__name__, want=type(gw).__name__)
    for p in ((0.0, 0.0), (3.25, -7.5), (-11.0, 4.0)):
        if gw._isCelestial:
            a = jw.toWorld(jg.PositionD(*p))
            b = gw.toWorld(galsim.PositionD(*p))
            mon.close(name, [F(a.ra.rad), F(a.dec.rad)], [b.ra.rad, b.dec.rad], rtol=1e-11, atol=1e-13)
        else:
            a = jw.toWorld(jg.PositionD(*p))
            b = gw.toWorld(galsim.PositionD(*p))
            mon.close(name, pos(a), pos(b), rtol=1e-10, atol=1e-9)


def bounds_same(mon, name, jb, gb):
    mon.check(name, bool(jb.isDefined()) == gb.isDefined(), why="definedness")
    if gb.isDefined():
        mon.same(name, [int(jb.xmin), int(jb.xmax), int(jb.ymin), int(jb.ymax)], [gb.xmin, gb.xmax, gb.ymin, gb.ymax])


def compare_images(mon, ji, gi, tol, dtype_exact=True, name="pixels"):
    bounds_same(mon, name + ":bounds", ji.bounds, gi.bounds)
    ja, ga = A(ji.array), gi.array
    mon.check(name + ":dtype", ja.dtype == ga.dtype and np.dtype(ji.dtype) == np.dtype(gi.dtype), got=[str(ja.dtype), str(ji.dtype)], want=str(ga.dtype))
    wcs_close(mon, name + ":wcs", ji.wcs, gi.wcs)
    if ja.shape != ga.shape:
        mon.check(name + ":shape", False, got=ja.shape, want=ga.shape)
        return
    if ga.dtype.kind in "iu":
        d = ja.astype(np.int64) - ga.astype(np.int64)
        # a value within `tol` of a half-integer may round either way
        mon.check(name, np.max(np.abs(d)) <= 1 and np.count_nonzero(d) <= max(2, 0.02 * d.size), maxdiff=int(np.max(np.abs(d))), ndiff=int(np.count_nonzero(d)), of=d.size)
    else:
        mon.close(name, ja, ga, rtol=0, atol=tol)


def options(rng, mon, full=True):
    o = {}
    geo = pick(rng, ["nxny", "nxny", "bounds", "image", "image", "auto"])
    nx, ny = pick(rng, SHAPES)
    o["geo"] = geo
    o["nx"], o["ny"] = nx, ny
    x0, y0 = (1, 1) if rng.random() < 0.3 else (int(rng.integers(-40, 40)), int(rng.integers(-40, 40)))
    o["x0"], o["y0"] = x0, y0
    o["wcs"] = wcs_spec(rng)
    o["wcs_on"] = pick(rng, ["arg", "image"]) if geo == "image" else "arg"
    o["dtype"] = pick(rng, DTYPES) if rng.random() < 0.5 else None
    if rng.random() < 0.5:
        o["offset"] = [rnd(rng, -2, 2), rnd(rng, -2, 2)]
        o["offset_form"] = pick(rng, ["tuple", "pos", "list"])
    r = rng.random()
    if r < 0.25 and geo != "auto":
        cx, cy = x0 + nx / 2 + rnd(rng, -2, 2), y0 + ny / 2 + rnd(rng, -2, 2)
        if rng.random() < 0.3:
            cx, cy = round(cx), round(cy)
        o["center"] = [float(cx), float(cy)]
        o["center_form"] = pick(rng, ["tuple", "pos"])
    elif r < 0.35 and geo == "auto":
        o["center"] = [rnd(rng, -20, 20), rnd(rng, -20, 20)]
        o["center_form"] = "pos"
    elif r < 0.6:
        o["use_true_center"] = bool(rng.integers(2))
    for k in ("area", "exptime", "gain"):
        if rng.random() < 0.25:
            o[k] = rnd(rng, 0.3, 4, log=True)
    if geo == "image" and rng.random() < 0.5:
        o["add_to_image"] = True
    return o


def force_geo(o, geo):
    """Set the kind of geometry after the fact, dropping options that go only with another kind."""
    o["geo"] = geo
    if geo != "image":
        o.pop("add_to_image", None)
        o["wcs_on"] = "arg"
    if geo != "nxny" and "center" in o and geo == "auto":
        o.pop("center")
    return o


def scale_for(rng, g, lo=0.4, hi=1.0):
    """A pixel scale at which the FFT has the size of the automatic image (few distinct sizes, few compilations)."""
    return float(f"{np.pi / g.maxk * rng.uniform(lo, hi):.4g}")


def ktol(s, g):
    """GalSim drops Fourier values below kvalue_accuracy; each leaf can lose that much."""
    return 1.5e-5 * max(1, len(leaves_of(s)))


def call(mod, o, method, profile, seed_pixels=None):
    """Builds the keyword arguments of drawImage, and the supplied image if any."""
    kw = {"method": method}
    img = None
    dt = None if o.get("dtype") is None else getattr(np, o["dtype"])
    w = o["wcs"]
    if o["geo"] == "nxny":
        kw["nx"], kw["ny"] = o["nx"], o["ny"]
        if dt is not None:
            kw["dtype"] = dt
    elif o["geo"] == "bounds":
        kw["bounds"] = mod.BoundsI(o["x0"], o["x0"] + o["nx"] - 1, o["y0"], o["y0"] + o["ny"] - 1)
        if dt is not None:
            kw["dtype"] = dt
    elif o["geo"] == "image":
        arr = seed_pixels.astype(dt or np.float32)
        iw = make_wcs(mod, w) if (o["wcs_on"] == "image" and w["k"] != "scale") else None
        img = mod.Image(arr.copy(), xmin=o["x0"], ymin=o["y0"], wcs=iw)
        if o["wcs_on"] == "image" and w["k"] == "scale":
            img.scale = w["scale"]
        kw["image"] = img
    elif dt is not None:
        kw["dtype"] = dt
    if not (o["geo"] == "image" and o["wcs_on"] == "image"):
        if w["k"] == "scale":
            kw["scale"] = w["scale"]
        else:
            kw["wcs"] = make_wcs(mod, w)
    for a in ("offset", "center"):
        if a in o:
            f = o[a + "_form"]
            kw[a] = tuple(o[a]) if f == "tuple" else list(o[a]) if f == "list" else mod.PositionD(*o[a])
    for a in ("use_true_center", "area", "exptime", "gain", "add_to_image"):
        if a in o:
            kw[a] = o[a]
    return kw, img


def size_ok(g, o):
    """Automatic sizes must be small enough to be worth drawing."""
    if o["geo"] != "auto":
        return True
    s = o["wcs"].get("scale", 0.3)
    return g.getGoodImageSize(s) < 60


def draw_case(method, special=False):
    def case(mon, rng):
        hard = method in ("no_pixel", "sb")
        for _ in range(20):
            s = prof_spec(rng, hard and rng.random() < 0.3, special)
            o = options(rng, mon)
            if special and o["geo"] == "auto":
                o["geo"] = "nxny"
            g = build_q(galsim, s)
            if o["geo"] == "auto":
                # make sure that the automatic size is moderate
                o["wcs"] = {"k": "scale", "scale": float(f"{2 * np.pi / g.stepk / rng.uniform(8, 40):.4g}")}
            ok, ff = True, None
            if o.get("dtype", None) and o["dtype"][0] in "iu":
                if absflux(g) > 1e4 or g.flux <= 0 or (o["dtype"][0] == "u" and (g.negative_flux > 0 or has(s, ("minus", "Sum", "plus", "Convolve")) or method in ("auto", "fft"))):
                    ok = False
                o.pop("gain", None)
            if ok and method in ("auto", "fft") and rng.random() < 0.7 and o["geo"] != "auto" and np.isfinite(g.maxk):
                f = scale_for(rng, g)
                if "scale" in o["wcs"]:
                    o["wcs"]["scale"] = f
                else:
                    q = f / np.sqrt(abs(o["wcs"]["dudx"] * o["wcs"]["dvdy"] - o["wcs"]["dudy"] * o["wcs"]["dvdx"]))
                    for a in ("dudx", "dudy", "dvdx", "dvdy"):
                        o["wcs"][a] = float(f"{o['wcs'][a] * q:.6g}")
            if ok and fft_ok(g, o, method):
                break
        else:
            raise Abort("no drawable case found")
        mon.note(spec=s, opts=o, method=method)
        j = build_q(jg, s)
        arr = np.round(rng.uniform(0, 20, (o["ny"], o["nx"])), 0 if (o.get("dtype") or "f")[0] in "iu" else 3)
        kg, gim = call(galsim, o, method, g, arr)
        kj, jim = call(jg, o, method, j, arr)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                gi = g.drawImage(**kg)
            except galsim.GalSimFFTSizeError:
                raise Abort("fft too large")
            try:
                ji = j.drawImage(**kj)
            except NotImplementedError as e:
                if "Real-space" in str(e):
                    raise Abort("real-space convolution is documented as unsupported")
                raise
        fs = (absflux(g)) * o.get("area", 1) * o.get("exptime", 1) / o.get("gain", 1)
        if method == "sb":
            fs /= gi.wcs.local(image_pos=galsim.PositionD(0, 0)).pixelArea()
        peak = np.max(np.abs(gi.array.astype(float)))
        fft = method in ("auto", "fft") or has(s, "Convolve")
        # GalSim adds to an existing image through a single precision temporary
        f32 = gi.array.dtype == np.float32 or o.get("add_to_image", False)
        tol = (2e-7 if f32 else 1e-11) * (peak + fs * (1e-2 if not fft else 0.3)) + 1e-12 * fs
        if fft:
            tol += 0.2 * ktol(s, g) * fs * (4 if has(s, "Moffat") else 1)
        if has(s, "Spergel"):
            tol += 3e-6 * peak
        compare_images(mon, ji, gi, tol)
        mon.event("pixels-compared", int(gi.array.size))
        mon.event("options:" + "+".join(sorted(k for k in o if k not in ("nx", "ny", "x0", "y0", "wcs", "wcs_on", "dtype", "offset_form", "center_form"))))
        if gim is not None:
            mon.check("returns-the-given-image", ji is jim)
            mon.same("given-image-updated", jim.array, ji.array)
        if True:
            n = gi.array.size
            mon.close("added-flux", ji.added_flux, gi.added_flux, rtol=3e-6 if f32 or gi.array.dtype.kind in "iu" else 1e-7, atol=tol * np.sqrt(n) * 3 / max(1e-9, min(1.0, fs_scale(o, gi, method))))
        got_added = A(ji.array).astype(float).sum() - (arr.astype(gi.array.dtype).astype(float).sum() if o.get("add_to_image") else 0.0)
        fsc = o.get("area", 1) * o.get("exptime", 1) / o.get("gain", 1)
        if method == "sb":
            fsc /= gi.wcs.local(image_pos=galsim.PositionD(0, 0)).pixelArea()
        # for integer images the flux is that of the unrounded pixels
        slack = 0.5 * gi.array.size if gi.array.dtype.kind in "iu" else 0.0
        mon.close("added-flux-is-what-was-added", F(ji.added_flux) * fsc, got_added, rtol=1e-5, atol=slack + 1e-5 * (np.abs(A(ji.array).astype(float)).sum() + 1e-3 * fs))
    return case


def fs_scale(o, gi, method):
    f = o.get("area", 1) * o.get("exptime", 1) / o.get("gain", 1)
    if method == "sb":
        f /= gi.wcs.local(image_pos=galsim.PositionD(0, 0)).pixelArea()
    return f


def fft_ok(g, o, method):
    w = o["wcs"]
    s = w.get("scale") or np.sqrt(abs(w["dudx"] * w["dvdy"] - w["dudy"] * w["dvdx"]))
    if not (np.isfinite(g.maxk) and np.isfinite(g.stepk)):
        return False
    n = 2 * np.pi / (g.stepk * s)
    nk = max(n, g.maxk * s / np.pi * max(n, 64))
    return nk < 300 and g.getGoodImageSize(s) < 260


def build_q(mod, s):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            return build(mod, s)
        except NotImplementedError as e:
            if "Real-space" in str(e):
                raise Abort("real-space convolution is documented as unsupported")
            raise


def kimage(mon, rng):
    for _ in range(20):
        s = prof_spec(rng, rng.random() < 0.3)
        g = build_q(galsim, s)
        if np.isfinite(g.maxk) and g.maxk / g.stepk < 100:
            break
    else:
        raise Abort("too large")
    if has(s, "Deconvolve"):
        raise Abort("x")
    j = build_q(jg, s)
    geo = pick(rng, ["auto", "scale", "nxny", "bounds", "image", "image"])
    o = {"geo": geo}
    kg, kj = {}, {}
    gim = jim = None
    nx, ny = pick(rng, SHAPES)
    x0, y0 = (-(nx // 2), -(ny // 2)) if rng.random() < 0.5 else (int(rng.integers(-30, 30)), int(rng.integers(-30, 30)))
    if geo in ("nxny", "bounds", "scale") and rng.random() < 0.8:
        o["scale"] = float(f"{g.stepk * rng.uniform(0.6, 2):.5g}")
        kg["scale"] = kj["scale"] = o["scale"]
    if geo == "nxny":
        o["n"] = [nx, ny]
        kg.update(nx=nx, ny=ny), kj.update(nx=nx, ny=ny)
    elif geo == "bounds":
        o["b"] = [x0, y0, nx, ny]
        kg["bounds"] = galsim.BoundsI(x0, x0 + nx - 1, y0, y0 + ny - 1)
        kj["bounds"] = jg.BoundsI(x0, x0 + nx - 1, y0, y0 + ny - 1)
    elif geo == "image":
        dt = pick(rng, [np.complex64, np.complex128])
        arr = (rng.normal(size=(ny, nx)) + 1j * rng.normal(size=(ny, nx))).astype(dt)
        sc = float(f"{g.stepk * rng.uniform(0.6, 2):.5g}") if rng.random() < 0.7 else None
        o.update(b=[x0, y0, nx, ny], dt=str(np.dtype(dt)), imscale=sc)
        gim = galsim.Image(arr.copy(), xmin=x0, ymin=y0, scale=sc)
        jim = jg.Image(arr.copy(), xmin=x0, ymin=y0, scale=sc)
        kg["image"], kj["image"] = gim, jim
        if rng.random() < 0.4:
            o["add_to_image"] = True
            kg["add_to_image"] = kj["add_to_image"] = True
            if gim.center != galsim.PositionI(0, 0):
                o["recenter"] = False
    if "recenter" not in o and rng.random() < 0.4:
        o["recenter"] = bool(rng.integers(2))
    if "recenter" in o:
        kg["recenter"] = kj["recenter"] = o["recenter"]
        if o.get("add_to_image") and o["recenter"] and gim is not None and gim.center != galsim.PositionI(0, 0):
            kg["recenter"] = kj["recenter"] = o["recenter"] = False
    mon.note(spec=s, opts=o)
    gb = gim.bounds if gim is not None else kg.get("bounds")
    if gb is not None and not kg.get("recenter", True) and not gb.includes(galsim.PositionI(0, 0)):
        # GalSim's C++ layer writes out of bounds when the image does not contain k=0: take its values point by point
        dk = gim.scale if gim is not None and gim.wcs is not None else kg.get("scale", g.stepk)
        gi = galsim.Image(gb, dtype=gim.dtype if gim is not None else complex, scale=dk)
        v = np.array([[g.kValue(x * dk, y * dk) for x in range(gb.xmin, gb.xmax + 1)] for y in range(gb.ymin, gb.ymax + 1)])
        gi.array[:, :] = v + (gim.array if o.get("add_to_image") else 0)
    else:
        gi = g.drawKImage(**kg)
    ji = j.drawKImage(**kj)
    ks = absflux(g)
    tol = (3e-6 if gi.array.dtype == np.complex64 else 1e-9) * ks + 1e-6 * ks * 0
    if has(s, "Exponential") or has(s, "Gaussian") or has(s, "Box"):
        tol += ktol(s, g) * ks
    compare_images(mon, ji, gi, tol, name="kimage")
    if jim is not None:
        mon.check("k-returns-the-given-image", ji is jim)
    # the image's values are the profile's Fourier values at the pixel centres
    b = gi.bounds
    dk = gi.scale
    if not o.get("add_to_image"):
        for _ in range(4):
            x, y = int(rng.integers(b.xmin, b.xmax + 1)), int(rng.integers(b.ymin, b.ymax + 1))
            mon.close("kimage-is-kvalue", complex(A(ji(x, y))), complex(A(j.kValue(x * dk, y * dk))), rtol=0, atol=(1e-6 if gi.array.dtype == np.complex64 else 1e-10) * ks)


def pixel_values(mon, rng):
    """no_pixel: each pixel is surface brightness x pixel area at its centre, with the profile where the options put it."""
    s = prof_spec(rng, True, rng.random() < 0.3)
    if has(s, ("Convolve",)):
        raise Abort("convolution")
    o = options(rng, mon)
    o.update(dtype="float64")
    force_geo(o, pick(rng, ["nxny", "bounds"]))
    w = o["wcs"] = wcs_spec(rng, ("PixelScale", "JacobianWCS", "AffineTransform"))
    mon.note(spec=s, opts=o)
    j = build_q(jg, s)
    kw, _ = call(jg, o, "no_pixel", j)
    ji = j.drawImage(**kw)
    b = ji.bounds
    if "center" in o:
        cx, cy = o["center"]
    elif o.get("use_true_center", True):
        cx, cy = (int(b.xmin) + int(b.xmax)) / 2, (int(b.ymin) + int(b.ymax)) / 2
    else:
        cx, cy = F(b.center.x), F(b.center.y)
    if "offset" in o:
        cx, cy = cx + o["offset"][0], cy + o["offset"][1]
    m = np.array([[w["scale"], 0], [0, w["scale"]]]) if "scale" in w else np.array([[w["dudx"], w["dudy"]], [w["dvdx"], w["dvdy"]]])
    area = abs(np.linalg.det(m)) * o.get("area", 1) * o.get("exptime", 1) / o.get("gain", 1)
    ys, xs = np.mgrid[int(b.ymin) : int(b.ymax) + 1, int(b.xmin) : int(b.xmax) + 1]
    sel = rng.choice(xs.size, 12, replace=False)
    got = A(ji.array).ravel()[sel]
    want = []
    for i in sel:
        u = m @ np.array([xs.ravel()[i] - cx, ys.ravel()[i] - cy])
        want.append(F(j.xValue(*u)) * area)
    ok = np.isfinite(want)
    pk = np.max(np.abs(np.array(want)[ok])) if ok.any() else 0
    if has(s, "Box"):  # points on an edge may fall either way
        d = np.abs(got - np.array(want))
        mon.check("pixel-is-surface-brightness", np.count_nonzero(d > 1e-9 * (pk + 1e-300)) <= 1, got=got, want=want)
    else:
        mon.close("pixel-is-surface-brightness", got[ok], np.array(want)[ok], rtol=1e-8, atol=1e-11 * pk)


def symmetry(mon, rng):
    """Linear in flux, covariant under moving the image origin, and under whole-pixel offsets; adding twice doubles."""
    s = prof_spec(rng, False)
    method = pick(rng, ["auto", "no_pixel", "fft"])
    nx, ny = pick(rng, SHAPES)
    sc = rnd(rng, 0.3, 1.0)
    g = build_q(galsim, s)
    if not fft_ok(g, {"wcs": {"scale": sc}}, method):
        raise Abort("too large")
    j = build_q(jg, s)
    mon.note(spec=s, method=method, n=[nx, ny], scale=sc)
    base = j.drawImage(nx=nx, ny=ny, scale=sc, method=method, dtype=np.float64)
    a0 = A(base.array)
    pk = np.max(np.abs(a0))
    fs = absflux(g)
    f = rnd(rng, -3, 3)
    mon.close("linear-in-flux", A((j * f).drawImage(nx=nx, ny=ny, scale=sc, method=method, dtype=np.float64).array), f * a0, rtol=1e-9, atol=1e-11 * pk + 1e-13 * fs)
    x0, y0 = int(rng.integers(-50, 50)), int(rng.integers(-50, 50))
    b = jg.BoundsI(x0, x0 + nx - 1, y0, y0 + ny - 1)
    moved = j.drawImage(bounds=b, scale=sc, method=method, dtype=np.float64)
    mon.close("origin-covariant", A(moved.array), a0, rtol=1e-10, atol=1e-12 * pk + 1e-13 * fs)
    mon.same("origin-covariant-bounds", [int(moved.xmin), int(moved.ymax)], [x0, y0 + ny - 1])
    im = jg.ImageD(b, scale=sc)
    j.drawImage(im, method=method)
    j.drawImage(im, method=method, add_to_image=True)
    mon.close("add-to-image-adds", A(im.array), 2 * a0, rtol=1e-10, atol=1e-12 * pk + 1e-13 * fs)
    dx, dy = int(rng.integers(-3, 4)), int(rng.integers(-3, 4))
    sh = A(j.drawImage(nx=nx, ny=ny, scale=sc, method=method, dtype=np.float64, offset=(dx, dy)).array)
    ys, xs = slice(max(0, dy), ny + min(0, dy)), slice(max(0, dx), nx + min(0, dx))
    yo, xo = slice(max(0, -dy), ny + min(0, -dy)), slice(max(0, -dx), nx + min(0, -dx))
    atol = (1e-10 if method == "no_pixel" else 2e-3 * g.gsparams.folding_threshold * 10) * pk + 1e-4 * fs * (method != "no_pixel") + 1e-13 * fs
    mon.close("offset-moves-by-whole-pixels", sh[ys, xs], a0[yo, xo], rtol=1e-9, atol=atol)
    world = A(j.shift(dx * sc, dy * sc).drawImage(nx=nx, ny=ny, scale=sc, method=method, dtype=np.float64).array)
    mon.close("offset-is-shift-in-pixels", world, sh, rtol=1e-8, atol=1e-4 * fs * (method != "no_pixel") + 1e-10 * pk)


def celestial(mon, rng):
    """A curved world coordinate system: the local Jacobian at the object's position is what matters."""
    s = prof_spec(rng, False)
    o = options(rng, mon)
    force_geo(o, pick(rng, ["bounds", "image"]))
    o["wcs_on"] = pick(rng, ["arg", "image"]) if o["geo"] == "image" else "arg"
    j = jac_kw(rng)
    sc = rnd(rng, 0.2, 0.8)
    big = rng.random() < 0.5
    curved = rng.random() < 0.5
    if curved:
        # pixels of a degree or so: the Jacobian changes from pixel to pixel, so where it is taken matters
        big, f = False, float(pick(rng, [1000, 2500, 4000]))
        s = {"t": "expand", "a": [s], "kw": {"scale": f}}
        sc *= f
        mid = [o["x0"] + o["nx"] // 2, o["y0"] + o["ny"] // 2]
        if rng.random() < 0.6:
            o["center"], o["center_form"] = [mid[0] + rnd(rng, -8, 8), mid[1] + rnd(rng, -8, 8)], pick(rng, ["pos", "tuple"])
        if rng.random() < 0.6:
            o["offset"], o["offset_form"] = [rnd(rng, -6, 6), rnd(rng, -6, 6)], pick(rng, ["pos", "tuple"])
        mon.event("curved:" + "+".join(k for k in ("center", "offset") if k in o))
    o["wcs"] = {"k": "TanWCS", **{a: float(f"{v * sc:.6g}") for a, v in j.items()}, "origin": ["pos", *(mid if curved else (rnd(rng, -3000, 3000), rnd(rng, -3000, 3000)) if big else (3.0, -4.0))], "ra": rnd(rng, 0, 360), "dec": rnd(rng, -80, 80)}
    o["dtype"] = "float64"
    method = pick(rng, ["no_pixel", "auto", "sb"])
    g = build_q(galsim, s)
    if not fft_ok(g, {"wcs": {"scale": sc * 0.5}}, method):
        raise Abort("too large")
    mon.note(spec=s, opts=o, method=method)
    jj = build_q(jg, s)
    arr = rng.normal(size=(o["ny"], o["nx"]))
    kg, _ = call(galsim, o, method, g, arr)
    kj, _ = call(jg, o, method, jj, arr)
    gi = g.drawImage(**kg)
    ji = jj.drawImage(**kj)
    peak = np.max(np.abs(gi.array))
    fs = absflux(g)
    fs *= o.get("area", 1) * o.get("exptime", 1) / o.get("gain", 1) / (0.05 if method == "sb" else 1)
    tol = 4e-7 * peak + 0.2 * ktol(s, g) * fs * (method == "auto" or has(s, "Convolve"))
    compare_images(mon, ji, gi, tol, name="celestial-pixels")


def sizes(mon, rng):
    """Good image sizes and FFT images of exact profiles."""
    s = tree_spec(rng, int(rng.integers(0, 3)), ("Gaussian", "Exponential", "Box"), convolve=False)
    g, j = build_q(galsim, s), build_q(jg, s)
    if not np.isfinite(g.stepk):
        raise Abort("x")
    sc = rnd(rng, 0.05, 3, log=True)
    mon.note(spec=s, scale=sc)
    n = 2 * np.pi / (sc * g.stepk)
    if abs(n / 2 - round(n / 2)) * 2 < 1e-6 * n:
        raise Abort("on a rounding edge")
    mon.same("good-image-size", int(j.getGoodImageSize(sc)), g.getGoodImageSize(sc))
    # makeKImage: size, scale
    nx, ny = [int(v) for v in rng.integers(3, 80, 2)]
    x0, y0 = [int(v) for v in rng.integers(-90, 30, 2)] if rng.random() < 0.5 else (-(nx // 2), -(ny // 2))
    mon.note(b=[x0, y0, nx, ny])
    gi = galsim.ImageD(galsim.BoundsI(x0, x0 + nx - 1, y0, y0 + ny - 1), scale=sc)
    ji = jg.ImageD(jg.BoundsI(x0, x0 + nx - 1, y0, y0 + ny - 1), scale=sc)
    if not fft_ok(g, {"wcs": {"scale": sc}}, "fft"):
        raise Abort("too large")
    gk, gn = g.drawFFT_makeKImage(gi)
    jk, jn = j.drawFFT_makeKImage(ji)
    mon.same("fft-size", int(jn), int(gn))
    bounds_same(mon, "fft-kimage-bounds", jk.bounds, gk.bounds)
    mon.close("fft-kimage-scale", jk.scale, gk.scale, rtol=1e-12)


def direct(mon, rng):
    """drawReal and drawFFT on an image given as it is: (0,0) is wherever the bounds put it."""
    how = pick(rng, ["drawReal", "drawFFT"])
    gs = dict(minimum_fft_size=int(pick(rng, [64, 128, 160, 256])), maximum_fft_size=1024) if rng.random() < 0.5 else None
    s = tree_spec(rng, int(rng.integers(0, 2)), ("Gaussian", "Exponential"), convolve=how == "drawFFT" and bool(rng.random() < 0.4), gs=gs)
    g, j = build_q(galsim, s), build_q(jg, s)
    if how == "drawReal" and not g.is_analytic_x:
        raise Abort("x")
    sc = float(f"{np.pi / g.maxk * rng.uniform(0.3, 2.5):.4g}")
    nx, ny = [int(v) for v in rng.integers(3, 34, 2)]
    # (GalSim's drawReal writes out of bounds when the image does not contain the origin)
    x0, y0 = [int(v) for v in rng.integers(-50, 30, 2)] if how == "drawFFT" else [-int(rng.integers(1, n - 1)) for n in (nx, ny)]
    dt = pick(rng, ["float32", "float64"])
    add = bool(rng.random() < 0.5)
    mon.note(spec=s, how=how, scale=sc, b=[x0, y0, nx, ny], dt=dt, add=add)
    n = max(g.getGoodImageSize(sc), 128)
    if how == "drawFFT" and (max(n, g.maxk * sc / np.pi * n) > 700):
        raise Abort("too large")
    arr = np.round(rng.uniform(0, 20, (ny, nx))).astype(dt)
    gi, ji = galsim.Image(arr.copy(), xmin=x0, ymin=y0, scale=sc), jg.Image(arr.copy(), xmin=x0, ymin=y0, scale=sc)
    if how == "drawFFT":
        gk, gn = g.drawFFT_makeKImage(gi)
        jk, jn = j.drawFFT_makeKImage(ji)
        mon.same("fft-size", int(jn), int(gn))
        bounds_same(mon, "fft-kimage-bounds", jk.bounds, gk.bounds)
        mon.close("fft-kimage-scale", jk.scale, gk.scale, rtol=1e-12)
    try:
        fg = getattr(g, how)(gi, add_to_image=add)
    except galsim.GalSimBoundsError:
        raise Abort("GalSim's FFT image does not reach a pixel at its very edge")
    fj = getattr(j, how)(ji, add_to_image=add)
    peak = np.max(np.abs(gi.array - (arr if add else 0))) + 1e-9 * absflux(g)
    tol = (3e-6 if dt == "float32" else 1e-9) * (peak + (20 if add else 0)) + (2e-6 if dt == "float32" else 1e-9) * absflux(g) + ktol(s, g) * absflux(g)
    compare_images(mon, ji, gi, tol, name=how)
    mon.close(how + "-flux", fj, fg, rtol=1e-5, atol=tol * np.sqrt(arr.size) * 4)
    mon.event("min-fft:%s" % (gs or {}).get("minimum_fft_size"))


def setup_only(mon, rng):
    s = LEAVES["Gaussian"](rng)
    o = options(rng, mon)
    mon.note(spec=s, opts=o)
    g, j = build(galsim, s), build(jg, s)
    if o["geo"] == "auto":
        o["wcs"] = {"k": "scale", "scale": float(f"{2 * np.pi / g.stepk / rng.uniform(8, 40):.4g}")}
    arr = np.round(rng.uniform(0, 20, (o["ny"], o["nx"])))
    kg, _ = call(galsim, o, "no_pixel", g, arr)
    kj, _ = call(jg, o, "no_pixel", j, arr)
    gi, ji = g.drawImage(setup_only=True, **kg), j.drawImage(setup_only=True, **kj)
    compare_images(mon, ji, gi, 1e-9, name="setup")


GROUPS = {
    "no_pixel": dict(fn=draw_case("no_pixel"), quick=90, thorough=2500, cost=0.25, warm=10, must=["pixels", "added-flux"]),
    "auto": dict(fn=draw_case("auto"), quick=56, thorough=2500, cost=0.3, warm=10),
    "fft": dict(fn=draw_case("fft"), quick=20, thorough=800, cost=0.3, warm=10),
    "sb": dict(fn=draw_case("sb"), quick=36, thorough=1000, cost=0.25, warm=10),
    "special": dict(fn=draw_case("no_pixel", True), quick=24, thorough=600, cost=0.4, warm=12),
    "special_fft": dict(fn=draw_case("auto", True), quick=14, thorough=600, cost=0.5, warm=12),
    "kimage": dict(fn=kimage, quick=60, thorough=1500, cost=0.2, warm=6),
    "pixel_values": dict(fn=pixel_values, quick=40, thorough=1000, cost=0.2, warm=6),
    "symmetry": dict(fn=symmetry, quick=14, thorough=600, cost=0.5, warm=8),
    "celestial": dict(fn=celestial, quick=24, thorough=600, cost=0.4, warm=8),
    "sizes": dict(fn=sizes, quick=60, thorough=1000, cost=0.05, warm=4),
    "direct": dict(fn=direct, quick=24, thorough=1200, cost=0.2, warm=6, must=["drawReal-flux", "drawFFT-flux"]),
    "setup": dict(fn=setup_only, quick=30, thorough=400, cost=0.05, warm=4),
}
