"""C14: celestial FITS coordinate systems against GalSim reading the same header, and against their own inverse, derivative and header round trip."""

import warnings

from jgmon.common import *  # noqa: F401,F403

RULE = "A case is one random FITS header (projection, reference point, matrix form, axis order, units, distortion) or tangent-plane system, taken through origin shifts and a header round trip, and evaluated at random pixels."
ASSUMPTIONS = [
    "GalSim 2.8.5 reading the same header is the reference",
    "pixel positions stay where the distortion is invertible (its relative size is below 20%)",
    "a failing inversion is reported by a run-time error rather than GalSimError (documented)",
]
AS = np.pi / 180 / 3600


def center(rng):
    ra = pick(rng, [0.0, 360.0, 180.0, 359.99999, 1e-5, -30.0]) if rng.random() < 0.25 else rnd(rng, 0, 360)
    r = rng.random()
    dec = rnd(rng, -75, 75) if r < 0.7 else (rnd(rng, 75, 89.5) * pick(rng, [-1, 1]) if r < 0.95 else 0.0)
    return ra, dec


def cdmat(rng, scale):
    """degrees per pixel"""
    th = rng.uniform(0, 2 * np.pi) if rng.random() < 0.8 else pick(rng, [0, np.pi / 2, np.pi])
    g = rng.uniform(-0.1, 0.1, 2)
    m = np.array([[np.cos(th), -np.sin(th)], [np.sin(th), np.cos(th)]]) @ np.array([[1 + g[0], g[1]], [g[1], 1 - g[0]]])
    if rng.random() < 0.7:
        m = np.diag([-1, 1]) @ m
    return scale / 3600 * m


def header_spec(rng, deep=True):
    """deep: all distortion orders (each one is compiled anew)"""
    typ = pick(rng, ["TAN", "TAN", "STG", "ZEA", "ARC", "TAN-SIP", "TAN-SIP", "STG-SIP", "ZEA-SIP", "ARC-SIP", "TPV", "TAN+PV", "TNX"])
    scale = rnd(rng, 0.05, 3.0, log=True) if rng.random() < 0.85 else rnd(rng, 3, 60, log=True)
    npix = pick(rng, [100, 1000, 4000])
    if scale * npix > 30000:
        npix = 100
    h = {}
    ra, dec = center(rng)
    cd = cdmat(rng, scale)
    ct = "TAN" if typ == "TAN+PV" else typ
    h["CTYPE1"], h["CTYPE2"] = "RA---" + ct, "DEC--" + ct
    u = np.array([1.0, 1.0])  # of the RA and of the declination axis
    cunit = None
    r = rng.random()
    if r < 0.4:
        cunit = ["deg", "deg"]
    elif r < 0.65 and typ in ("TAN", "STG", "ZEA", "ARC"):
        c = pick(rng, ["rad", "arcmin", "arcsec", "hr"])
        cunit = [c, c] if rng.random() < 0.5 else [c, "deg"] if rng.random() < 0.5 else ["deg", c]
        u = np.array([{"deg": 1.0, "rad": np.pi / 180, "arcmin": 60.0, "arcsec": 3600.0, "hr": 1 / 15}[c] for c in cunit])
    if cunit:
        h["CUNIT1"], h["CUNIT2"] = cunit
    h["CRVAL1"], h["CRVAL2"] = float(ra * u[0]), float(dec * u[1])
    h["CRPIX1"], h["CRPIX2"] = (rnd(rng, -0.2 * npix, 1.2 * npix), rnd(rng, -0.2 * npix, 1.2 * npix)) if rng.random() < 0.9 else (0.0, 0.0)
    form = pick(rng, ["CD", "CD", "PC", "CDELT"])
    cd = cd * u[:, None]
    if form == "CD":
        for i in (1, 2):
            for k in (1, 2):
                h[f"CD{i}_{k}"] = float(f"{cd[i - 1, k - 1]:.12g}")
    else:
        d = [float(-scale / 3600 * u[0]), float(scale / 3600 * u[1] * pick(rng, [1, 1.1, -1]))]
        h["CDELT1"], h["CDELT2"] = d
        if form == "PC":
            for i in (1, 2):
                for k in (1, 2):
                    h[f"PC{i}_{k}"] = float(f"{cd[i - 1, k - 1] / d[i - 1]:.12g}")
    order = int(rng.integers(2, 5)) if deep else 3
    if typ.endswith("SIP"):
        oa, ob = order, int(rng.integers(2, 5 if deep else 4))
        h["A_ORDER"], h["B_ORDER"] = oa, ob
        for n, o in (("A", oa), ("B", ob)):
            for i in range(o + 1):
                for k in range(o + 1 - i):
                    if 1 < i + k <= o and rng.random() < 0.8:
                        h[f"{n}_{i}_{k}"] = float(f"{rng.normal() * 0.02 / order ** 2 * npix ** (1.0 - i - k):.9g}")
        if rng.random() < 0.5:  # approximate inverse
            h["AP_ORDER"], h["BP_ORDER"] = max(oa, ob), max(oa, ob) if rng.random() < 0.7 or not deep else max(oa, ob) - 1
            for n, o in (("A", oa), ("B", ob)):
                for i in range(o + 1):
                    for k in range(o + 1 - i):
                        if f"{n}_{i}_{k}" in h:
                            h[f"{n}P_{i}_{k}"] = -h[f"{n}_{i}_{k}"]
            if rng.random() < 0.5:
                h["AP_0_0"], h["AP_1_0"] = rnd(rng, -0.1, 0.1), 1e-4
    if typ in ("TPV", "TAN+PV"):
        L = scale / 3600 * npix
        po = int(rng.integers(1, 5)) if deep else pick(rng, [1, 3, 3, 3])
        k, idx = 0, []
        odd = {3, 11, 23, 39}
        for n in range(po + 1):
            for j in range(n + 1):
                while k in odd:
                    k += 1
                idx.append((k, n, j))
                k += 1
        low = pick(rng, [None, None, 1, 2]) if po > 1 else None  # an axis with fewer terms
        for ax in (1, 2):
            for k, n, j in idx:
                if ax == low and n == po:
                    continue
                base = 1.0 if (n == 1 and j == 0) else 0.0
                v = base + rng.normal() * 0.02 / po**2 * L ** (1.0 - n)
                if n == 1 and j == 1 or n == 0:
                    v = base + rng.normal() * 0.005 * L ** (1 - n)
                if base or rng.random() < 0.8 or k == idx[-1][0]:
                    h[f"PV{ax}_{k}"] = float(f"{v:.9g}")
    if typ == "TNX":
        L = scale / 3600 * npix
        code = pick(rng, [1, 2, 1])
        rng_ = [-1.2 * L, 1.3 * L, -1.1 * L, 1.25 * L]
        for ax, nm, cor in ((1, "ra", "lngcor"), (2, "dec", "latcor")):
            co = [float(f"{rng.normal() * 0.01 * L * 0.3:.9g}") for _ in range(10)]
            s = f'wtype=tnx axtype={nm} {cor} = "{code}. 4. 4. 2. ' + " ".join(f"{v:.10g}" for v in rng_ + co) + (' "' if rng.random() < 0.5 else '"')
            for i in range(0, len(s), 68):
                h[f"WAT{ax}_{i // 68 + 1:03d}"] = s[i : i + 68]
            # FITS drops trailing blanks of string cards, so avoid breaking there
            for i in range(0, len(s), 68):
                if s[i : i + 68].endswith(" ") or s[i : i + 68].startswith(" "):
                    return header_spec(rng, deep)
    flip = rng.random() < (0.5 if cunit and cunit[0] != cunit[1] else 0.2) and typ in ("TAN", "STG", "ZEA", "ARC")
    if flip:
        for n in ("CTYPE", "CRVAL", "CDELT", "CUNIT"):
            if n + "1" in h:
                h[n + "1"], h[n + "2"] = h[n + "2"], h[n + "1"]
        if form == "CD":
            for k in "12":
                h["CD1_" + k], h["CD2_" + k] = h["CD2_" + k], h["CD1_" + k]
        if form == "PC":
            for k in "12":
                h["PC1_" + k], h["PC2_" + k] = h["PC2_" + k], h["PC1_" + k]
    return dict(h=h, typ=typ, npix=npix, scale=scale, form=form, flip=flip, origin=[int(rng.integers(-20, 20)), int(rng.integers(-20, 20))] if rng.random() < 0.3 else None)


def pix(rng, s):
    return float(f"{rng.uniform(0, s['npix']):.9g}"), float(f"{rng.uniform(0, s['npix']):.9g}")


def sep(jc, gc):
    """separation of two sky positions in radians"""
    a = [F(jc.ra.rad), F(jc.dec.rad)]
    b = [gc.ra.rad, gc.dec.rad]
    v = [np.array([np.cos(r) * np.cos(d), np.sin(r) * np.cos(d), np.sin(d)]) for r, d in (a, b)]
    return float(np.linalg.norm(v[0] - v[1]))


def build_wcs(m, s, how):
    h = s["h"]
    kw = {}
    if how == "direct":
        if s["origin"]:
            kw["origin"] = m.PositionI(*s["origin"])
        return m.GSFitsWCS(header=h, **kw)
    if how == "fitswcs":
        return m.FitsWCS(header=h)
    if how == "header-object":
        return m.GSFitsWCS(header=m.FitsHeader(header=h))
    return m.wcs.readFromFitsHeader(m.FitsHeader(header=h))[0]


def mat(w):
    return np.array([[F(w.dudx), F(w.dudy)], [F(w.dvdx), F(w.dvdy)]])


def observe(mon, name, j, g, s, rng, n=2):
    mon.check(name + ":kind", j.isCelestial() and not j.isUniform() and not j.isLocal() and not j.isPixelScale())
    pxs = s["scale"] * AS  # radians per pixel
    tol = 1e-13 + 1e-11 * pxs
    for _ in range(n):
        x, y = pix(rng, s)
        jp, gp = jg.PositionD(x, y), galsim.PositionD(x, y)
        jw, gw = j.toWorld(jp), g.toWorld(gp)
        mon.check(name + ":coord-class", isinstance(jw, jg.CelestialCoord))
        mon.close(name + ":toWorld", sep(jw, gw), 0.0, atol=tol, at=[x, y])
        back = attempt(lambda: j.toImage(jw))
        gb = attempt(lambda: g.toImage(gw))
        if isinstance(gb, Raised):
            mon.event("reference-inversion-failed")
        elif mon.check(name + ":inversion-accepted", not isinstance(back, Raised), at=[x, y], got=str(getattr(back, "e", ""))[:200]):
            ptol = 1e-9 + 20 * (3e-16 + tol * 0.05) / pxs + 1e-10 * s["npix"] / 1000
            mon.close(name + ":round-trip", pos(back), [x, y], atol=ptol)
            mon.close(name + ":toImage", pos(back), [gb.x, gb.y], atol=ptol)
        # jacobian, analytic and by differences of the library's own map
        jl, gl = j.local(image_pos=jp), g.local(image_pos=gp)
        M, W = mat(jl), mat(gl)
        mon.check(name + ":local-class", isinstance(jl, jg.JacobianWCS))
        mon.close(name + ":local", M, W, rtol=1e-9, scale=float(np.max(np.abs(W))))
        mon.close(name + ":area", F(j.pixelArea(image_pos=jp)), g.pixelArea(image_pos=gp), rtol=1e-9)
    h = 1.0 if s["npix"] > 100 else 0.2
    d = [[F(v) for v in (c.ra.rad, c.dec.rad)] for c in (j.toWorld(jg.PositionD(x + a, y + b)) for a, b in ((h, 0), (-h, 0), (0, h), (0, -h)))]
    dr = lambda a, b: (a - b + np.pi) % (2 * np.pi) - np.pi
    cd = np.cos(gw.dec.rad)
    fd = np.array([[-dr(d[0][0], d[1][0]) * cd, -dr(d[2][0], d[3][0]) * cd], [d[0][1] - d[1][1], d[2][1] - d[3][1]]]) / (2 * h) / AS
    polar = (pxs * h) ** 2 / cd**2
    mon.close(name + ":local-is-derivative", M, fd, rtol=1e-5 + 10 * polar + 1e-14 / pxs / h, scale=float(np.max(np.abs(W))))


def arrays(mon, j, g, s, rng):
    n = 4
    x, y = rng.uniform(0, s["npix"], n), rng.uniform(0, s["npix"], n)
    if rng.random() < 0.3:
        x, y = x[0], y[0]
    u = pick(rng, ["degrees", "radians", "arcsec", "hours"])
    ju = getattr(jg, u) if rng.random() < 0.7 else u
    gu = getattr(galsim, u)
    x0 = np.array(x)
    a, b = j.toWorld(x, y, units=ju), g.toWorld(x, y, units=gu)
    mon.check("array-inputs-kept", np.array_equal(x, x0))
    per = 2 * np.pi / (gu / galsim.radians)
    tol = (1e-12 + 1e-11 * s["scale"] * AS) / (gu / galsim.radians)
    cd = np.cos(np.asarray(b[1]) * (gu / galsim.radians))
    mon.close("xyToradec-ra", ((A(a[0]) - b[0] + per / 2) % per - per / 2) * cd, np.zeros(np.shape(x)), atol=tol)
    mon.close("xyToradec-dec", A(a[1]), b[1], atol=tol)
    ra, dec = np.array(b[0]), np.array(b[1])
    gx = attempt(lambda: g.toImage(ra, dec, units=gu))
    jx = attempt(lambda: j.toImage(ra, dec, units=ju))
    if isinstance(gx, Raised):
        mon.event("reference-inversion-failed")
        return
    if mon.check("array-inversion-accepted", not isinstance(jx, Raised), got=str(getattr(jx, "e", ""))[:200]):
        pxs = s["scale"] * AS
        ptol = 1e-8 + 40 * 1e-15 / pxs + 1e-10 * s["npix"] / 1000
        mon.close("radecToxy", [A(jx[0]), A(jx[1])], gx, atol=ptol)
        mon.close("radecToxy-inverts", [A(jx[0]), A(jx[1])], [x, y], atol=ptol)


def history(mon, rng):
    warnings.simplefilter("ignore")
    s = header_spec(rng, mon.tier == "thorough" or mon.index % 8 == 0)
    how = pick(rng, ["direct", "direct", "fitswcs", "header-object", "read"])
    mon.note(spec=s, how=how)
    h0 = dict(s["h"])
    r = lockstep(mon, "read", lambda: build_wcs(jg, s, how), lambda: build_wcs(galsim, s, how))
    mon.check("header-unchanged", s["h"] == h0)
    if r is None:
        return
    j, g = r
    mon.event("type:" + s["typ"])
    mon.event("form:" + s["form"])
    mon.check("class", type(j).__name__ == type(g).__name__, got=type(j).__name__, want=type(g).__name__)
    if not isinstance(g, galsim.GSFitsWCS):
        mon.event("fallback:" + type(g).__name__)
        return
    mon.check("projection-type", j.wcs_type == g.wcs_type, got=j.wcs_type, want=g.wcs_type)
    mon.close("reference-pixel", A(j.crpix), g.crpix, rtol=1e-14)
    mon.close("cd-matrix", A(j.cd), g.cd, rtol=1e-13, scale=float(np.max(np.abs(g.cd))))
    observe(mon, "new", j, g, s, rng)
    arrays(mon, j, g, s, rng)
    # origin shifts
    for _ in range(int(rng.integers(0, 3))):
        o = [int(rng.integers(-40, 40)), int(rng.integers(-40, 40))] if rng.random() < 0.5 else [rnd(rng, -30, 30), rnd(rng, -30, 30)]
        P = "PositionI" if isinstance(o[0], int) else "PositionD"
        old = sky_at = j.toWorld(jg.PositionD(3.0, 4.0))
        before = A(j.crpix).copy()
        j2, g2 = j.shiftOrigin(getattr(jg, P)(*o)), g.shiftOrigin(getattr(galsim, P)(*o))
        mon.check("shift-keeps-original", np.array_equal(before, A(j.crpix)) and bool(j != j2) == (o != [0, 0]))
        mon.close("shift-law", sep(j2.toWorld(jg.PositionD(3.0 + o[0], 4.0 + o[1])), old), 0.0, atol=1e-13 + 1e-10 * s["scale"] * AS)
        j, g = j2, g2
        observe(mon, "shifted", j, g, s, rng, n=1)
    # approximations at a point
    x, y = pix(rng, s)
    jp, gp = jg.PositionD(x, y), galsim.PositionD(x, y)
    ja, ga = j.affine(image_pos=jp), g.affine(image_pos=gp)
    mon.check("affine-class", type(ja).__name__ == type(ga).__name__)
    mon.close("affine", [*mat(ja).ravel()], [ga.dudx, ga.dudy, ga.dvdx, ga.dvdy], rtol=1e-9, scale=s["scale"])
    mon.close("affine-origin", [F(ja.x0), F(ja.y0), F(ja.u0), F(ja.v0)], [ga.x0, ga.y0, ga.u0, ga.v0], atol=1e-12)
    wp = g.toWorld(gp)
    jl, gl = (attempt(f) for f in (lambda: j.local(world_pos=jg.CelestialCoord(wp.ra.rad * jg.radians, wp.dec.rad * jg.radians)), lambda: g.local(world_pos=wp)))
    if not isinstance(gl, Raised) and mon.check("local-at-world-accepted", not isinstance(jl, Raised)):
        mon.close("local-at-world", mat(jl), mat(gl), rtol=1e-7, scale=s["scale"])
    mon.close("minscale", F(j.minLinearScale(image_pos=jp)), g.minLinearScale(image_pos=gp), rtol=1e-8)
    mon.close("maxscale", F(j.maxLinearScale(image_pos=jp)), g.maxLinearScale(image_pos=gp), rtol=1e-8)
    # world position projected about another centre
    c = g.toWorld(galsim.PositionD(*pix(rng, s)))
    pr = pick(rng, ["gnomonic", "stereographic", "lambert", "postel"])
    a = j.toWorld(jp, project_center=jg.CelestialCoord(c.ra.rad * jg.radians, c.dec.rad * jg.radians), projection=pr)
    b = g.toWorld(gp, project_center=c, projection=pr)
    mon.close("project-center", pos(a), [b.x, b.y], atol=1e-7 + 1e-10 * s["npix"] * s["scale"])
    # a profile and a shear at that position
    if rng.random() < 0.4:
        pj, pg = (m.Gaussian(sigma=2.0, flux=3.0) for m in (jg, galsim))
        oj, og = j.toWorld(pj, image_pos=jp), g.toWorld(pg, image_pos=gp)
        mon.close("profile", F(oj.xValue(0.3 * s["scale"], 0.1 * s["scale"])), og.xValue(0.3 * s["scale"], 0.1 * s["scale"]), rtol=1e-8)
        sj, sg = j.toImage(jg.Shear(g1=0.1, g2=0.2), image_pos=jp), g.toImage(galsim.Shear(g1=0.1, g2=0.2), image_pos=gp)
        mon.close("shear", complex(A(sj.shear)), complex(sg.shear), rtol=0, atol=1e-8)
    header_round_trip(mon, j, g, s, rng)


def header_round_trip(mon, j, g, s, rng):
    b = (int(rng.integers(-3, 5)), 40, int(rng.integers(-3, 5)), 30)
    hj, hg = {}, {}
    if rng.random() < 0.5:
        hj, hg = jg.FitsHeader(), galsim.FitsHeader()
    r = lockstep(mon, "write", lambda: j.writeToFitsHeader(hj, jg.BoundsI(*b)), lambda: g.writeToFitsHeader(hg, galsim.BoundsI(*b)))
    if r is None:
        return
    kj, kg = (dict((k, h[k]) for k in h.keys()) for h in (hj, hg))
    mon.check("written-keys", set(kj) == set(kg), got=sorted(set(kj) ^ set(kg)))
    for k in set(kj) & set(kg):
        if isinstance(kg[k], (int, float)) and not isinstance(kg[k], bool):
            mon.close("written-value", float(kj[k]), float(kg[k]), rtol=1e-11, atol=1e-13 if k.startswith(("A_", "B_", "AP_", "BP_")) else 1e-12 * max(abs(float(kg.get("CD1_1", 1))), abs(float(kg.get("CD1_2", 1)))) if k.startswith("CD") else 1e-13, key=k)
        elif not isinstance(kg[k], tuple):
            mon.check("written-value", kj[k] == kg[k], key=k, got=kj[k], want=kg[k])
    for m in (jg, galsim):
        w, o = m.wcs.readFromFitsHeader(hj if isinstance(hj, dict) or m is jg else m.FitsHeader(header=kj))
        mon.check("read-back-class", type(w).__name__ == "GSFitsWCS", got=type(w).__name__)
        mon.check("read-back-origin", (F(o.x), F(o.y)) == (b[0], b[2]), got=[F(o.x), F(o.y)])
        for _ in range(2):
            x, y = pix(rng, s)
            mon.close("read-back-toWorld", sep(w.toWorld(m.PositionD(x, y)), g.toWorld(galsim.PositionD(x, y))), 0.0, atol=1e-12 + 1e-10 * s["scale"] * AS, by=m.__name__)
    w2 = jg.GSFitsWCS(_data=[j.wcs_type, j.crpix, j.cd, j.center, j.pv, j.ab, j.abp])
    mon.check("equal-to-rebuilt", bool(w2 == j) and bool(j.copy() == j) and not bool(j.copy() != j))


def tan(mon, rng):
    """TanWCS from affine and Jacobian systems."""
    warnings.simplefilter("ignore")
    ra, dec = center(rng)
    sc = rnd(rng, 0.05, 3, log=True)
    m4 = [float(f"{v:.9g}") for v in (cdmat(rng, sc) * 3600).ravel()]
    o = ["D", rnd(rng, -500, 1500), rnd(rng, -500, 1500)] if rng.random() < 0.8 else None
    wo = [rnd(rng, -100, 100), rnd(rng, -100, 100)] if rng.random() < 0.5 else None
    un = pick(rng, ["arcsec", "arcsec", "degrees", "arcmin", None])
    kind = pick(rng, ["AffineTransform", "AffineTransform", "JacobianWCS", "PixelScale", "OffsetWCS"])
    mon.note(ra=ra, dec=dec, m=m4, o=o, wo=wo, un=un, kind=kind)
    f = {"arcsec": 1, None: 1, "degrees": 3600, "arcmin": 60}[un]

    def make(m):
        k = {}
        if o:
            k["origin"] = m.PositionD(o[1], o[2])
        if wo:
            k["world_origin"] = m.PositionD(wo[0] / f, wo[1] / f)
        if kind == "AffineTransform":
            a = m.AffineTransform(*[v / f for v in m4], **k)
        elif kind == "JacobianWCS":
            a = m.JacobianWCS(*[v / f for v in m4])
        elif kind == "PixelScale":
            a = m.PixelScale(sc / f).affine() if rng_a else m.PixelScale(sc / f)
        else:
            a = m.OffsetWCS(sc / f, **k)
            a = a.affine(image_pos=m.PositionD(0, 0)) if rng_a else a
        kw = {} if un is None else {"units": getattr(m, un)}
        return m.TanWCS(a, m.CelestialCoord(ra * m.degrees, dec * m.degrees), **kw)

    rng_a = rng.random() < 0.6
    r = lockstep(mon, "tan", lambda: make(jg), lambda: make(galsim))
    if r is None:
        return
    j, g = r
    s = dict(npix=1000, scale=sc)
    mon.close("tan-crpix", A(j.crpix), g.crpix, rtol=1e-12, atol=1e-9)
    observe(mon, "tan", j, g, s, rng)
    arrays(mon, j, g, s, rng)
    header_round_trip(mon, j, g, s, rng)


def sky(mon, rng):
    """Sky images through a celestial system; refusals."""
    warnings.simplefilter("ignore")
    s = header_spec(rng, mon.tier == "thorough" or mon.index % 8 == 0)
    mon.note(spec=s)
    r = lockstep(mon, "read", lambda: jg.GSFitsWCS(header=s["h"]), lambda: galsim.GSFitsWCS(header=s["h"]))
    if r is None:
        return
    j, g = r
    lev = rnd(rng, 0.5, 500, log=True)
    b = [int(rng.integers(0, s["npix"])), int(rng.integers(0, s["npix"]))]
    b = (b[0], b[0] + int(rng.integers(0, 7)), b[1], b[1] + int(rng.integers(0, 7)))
    if rng.random() < 0.3:  # straddle the pole or the meridian near the reference pixel
        cx, cy = int(s["h"]["CRPIX1"]), int(s["h"]["CRPIX2"])
        b = (cx - 2, cx + 3, cy - 3, cy + 2)
    dt = pick(rng, [np.float64, np.float32])
    ji, gi = jg.Image(jg.BoundsI(*b), dtype=dt), galsim.Image(galsim.BoundsI(*b), dtype=dt)
    j.makeSkyImage(ji, lev)
    g.makeSkyImage(gi, lev)
    mon.check("sky-dtype", ji.dtype == dt and A(ji.array).dtype == dt)
    pxs = s["scale"] * AS
    mon.close("sky-value", A(ji.array), gi.array, rtol=1e-8 + 4e-15 / pxs + (1e-6 if dt == np.float32 else 0), scale=lev * s["scale"] ** 2)
    # images with this coordinate system
    bad = pick(rng, list(BAD))
    mon.note(bad=bad)
    lockstep(mon, "bad:" + bad, lambda: BAD[bad](jg, j, dict(s["h"])), lambda: BAD[bad](galsim, g, dict(s["h"])), kinds=True)


def drop(h, *ks, **kw):
    for k in ks:
        h.pop(k, None)
    h.update(kw)
    return h


BAD = {
    "no-units": lambda m, w, h: w.toWorld(1.0, 2.0),
    "no-units-inverse": lambda m, w, h: w.toImage(1.0, 2.0),
    "bad-units": lambda m, w, h: w.toWorld(1.0, 2.0, units="parsec"),
    "bad-units2": lambda m, w, h: w.toImage(1.0, 2.0, units=3),
    "bad-units3": lambda m, w, h: w.toWorld(1.0, 2.0, units=3),
    "local-none": lambda m, w, h: w.local(),
    "area-none": lambda m, w, h: w.pixelArea(),
    "toImage-position": lambda m, w, h: w.toImage(m.PositionD(1, 2)),
    "world-origin": lambda m, w, h: w.shiftOrigin(m.PositionD(1, 2), m.PositionD(1, 2)),
    "shift-tuple": lambda m, w, h: w.shiftOrigin((1, 2)),
    "both": lambda m, w, h: m.GSFitsWCS("nofile.fits", header=h),
    "neither": lambda m, w, h: m.GSFitsWCS(),
    "neither2": lambda m, w, h: m.FitsWCS(),
    "both2": lambda m, w, h: m.FitsWCS("nofile.fits", header=h),
    "no-crval": lambda m, w, h: m.GSFitsWCS(header=drop(h, "CRVAL1")),
    "not-celestial": lambda m, w, h: m.GSFitsWCS(header=drop(h, CTYPE1="GLON-TAN")),
    "bad-type": lambda m, w, h: m.GSFitsWCS(header=drop(h, CTYPE1="RA---XYZ", CTYPE2="DEC--XYZ")),
    "mismatch": lambda m, w, h: m.GSFitsWCS(header=drop(h, CTYPE1="RA---TAN", CTYPE2="DEC--STG")),
    "odd-tpv": lambda m, w, h: m.GSFitsWCS(header=drop(h, CTYPE1="RA---TPV", CTYPE2="DEC--TPV", PV1_1=1.0, PV2_1=1.0, PV1_3=0.1)),
    "local-both": lambda m, w, h: w.local(image_pos=m.PositionD(1, 2), world_pos=m.CelestialCoord(1 * m.degrees, 2 * m.degrees)),
    "tan-of-number": lambda m, w, h: m.TanWCS(0.3, m.CelestialCoord(1 * m.degrees, 2 * m.degrees)),
}


def linear(mon, rng):
    """FitsWCS on headers without a celestial system: GalSim's fallbacks."""
    warnings.simplefilter("ignore")
    h = {}
    k = pick(rng, ["empty", "linear-cd", "linear-cdelt", "old-cdelt", "pixelscale", "offset", "unreadable"])
    s = rnd(rng, 0.1, 3)
    if k == "empty":
        h = {"OBJECT": "x", "NAXIS": 2}
    elif k == "linear-cd":
        h = {"CTYPE1": "LINEAR", "CTYPE2": "LINEAR", "CD1_1": s, "CD1_2": rnd(rng, -0.1, 0.1), "CD2_1": 0.02, "CD2_2": rnd(rng, 0.1, 2), "CRPIX1": rnd(rng, -9, 9), "CRPIX2": 2.5, "CRVAL1": rnd(rng, -3, 3), "CRVAL2": 1.0}
    elif k == "linear-cdelt":
        h = {"CTYPE1": "LINEAR", "CTYPE2": "LINEAR", "CDELT1": s, "CDELT2": rnd(rng, 0.1, 2), "CRPIX2": 4.0}
    elif k == "old-cdelt":
        h = {"CDELT1": s, "CDELT2": s * 1.01, "CRPIX1": 3.0}
    elif k == "pixelscale":
        h = {"CTYPE1": "LINEAR", "CTYPE2": "LINEAR", "CD1_1": s, "CD1_2": 0.0, "CD2_1": 0.0, "CD2_2": s}
    elif k == "offset":
        h = {"CTYPE1": "LINEAR", "CTYPE2": "LINEAR", "CDELT1": s, "CDELT2": s, "CRPIX1": rnd(rng, -9, 9), "CRVAL2": 0.5}
    else:
        h = {"CTYPE1": "RA---TAN", "CTYPE2": "DEC--TAN", "CD1_1": s, "CD1_2": 0.0, "CD2_1": 0.0, "CD2_2": s, "CRPIX1": 1.0, "CRPIX2": 2.0}
    if rng.random() < 0.3:
        h.update(GS_XMIN=int(rng.integers(-5, 6)), GS_YMIN=int(rng.integers(-5, 6)))
    mon.note(k=k, h=h)
    mon.event("linear:" + k)
    how = pick(rng, ["FitsWCS", "read"])
    if how == "FitsWCS":
        r = lockstep(mon, "fallback", lambda: jg.FitsWCS(header=h, suppress_warning=True), lambda: galsim.FitsWCS(header=h, suppress_warning=True))
    else:
        r = lockstep(mon, "fallback", lambda: jg.wcs.readFromFitsHeader(h)[0], lambda: galsim.wcs.readFromFitsHeader(h)[0])
    if r is None:
        return
    j, g = r
    if k == "unreadable":  # GalSim tries other packages; here only GSFitsWCS is supported (documented)
        mon.check("fallback-class", type(j).__name__ == "AffineTransform", got=type(j).__name__)
        mon.close("fallback-matrix", [F(j.dudx), F(j.dudy), F(j.dvdx), F(j.dvdy), F(j.x0), F(j.y0)], [h["CD1_1"], 0, 0, h["CD2_2"], 1 + h.get("GS_XMIN", 1) - 1 if how == "read" else 1, 2 + (h.get("GS_YMIN", 1) - 1 if how == "read" else 0)])
        return
    mon.check("fallback-class", type(j).__name__ == type(g).__name__, got=type(j).__name__, want=type(g).__name__)
    for _ in range(2):
        p = rnd(rng, -20, 20), rnd(rng, -20, 20)
        w = g.toWorld(galsim.PositionD(*p))
        if isinstance(w, galsim.PositionD):
            mon.close("fallback-toWorld", pos(j.toWorld(jg.PositionD(*p))), [w.x, w.y], rtol=1e-12, atol=1e-11)


def refused(mon, rng):
    """Headers that cannot be represented are refused as in GalSim, harmless oddities are accepted as in GalSim."""
    s = header_spec(rng, False)
    h = dict(s["h"])
    what = ["odd", "odd", "ctype", "missing", "oddzero", "unit", "pvless", "watless", "reverse"][mon.index % 9]
    if what.startswith("odd"):
        while s["typ"] not in ("TPV", "TAN+PV"):
            s = header_spec(rng, False)
        h = dict(s["h"])
        k = [(i, j) for j in (3, 11, 23, 39) for i in (1, 2)][(mon.index // 9 * 2 + mon.index % 9) % 8]
        h["PV%d_%d" % k] = 0.0 if what == "oddzero" else 1e-9
        what += ":PV%d_%d" % k
    elif what == "ctype":
        h["CTYPE" + pick(rng, "12")] = pick(rng, ["RA---XYZ", "DEC--SIN", "RA---AIT", "GLON-TAN", "FREQ"])
    elif what == "missing":
        k = pick(rng, [q for q in h if q[:2] in ("CR", "CT") or q == "A_ORDER"])
        del h[k]
        what += ":" + k
    elif what == "unit":
        h["CUNIT1"] = pick(rng, ["furlong", "m", "pix"])
        h["CUNIT2"] = "deg"
    elif what == "pvless":
        h = {k: v for k, v in h.items() if not k.startswith("PV")}
        h["CTYPE1"], h["CTYPE2"] = "RA---TPV", "DEC--TPV"
    elif what == "watless":
        h = {k: v for k, v in h.items() if not k.startswith("WAT")}
        h["CTYPE1"], h["CTYPE2"] = "RA---TNX", "DEC--TNX"
    mon.note(h=h, what=what)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r = lockstep(mon, "read", lambda: jg.GSFitsWCS(header=h), lambda: galsim.GSFitsWCS(header=h), what=what)
        mon.event(f"{what.split(':')[0]}:{'accepted' if r else 'refused'}")
        if r:
            j, g = r
            p = pix(rng, s)
            a = attempt(lambda: g.toWorld(galsim.PositionD(*p)))
            if not isinstance(a, Raised):
                mon.close("odd-header-toWorld", sep(j.toWorld(jg.PositionD(*p)), a), 0.0, atol=1e-10)


GROUPS = {
    "refused": dict(fn=refused, quick=36, thorough=500, cost=0.5, must=["odd-header-toWorld"]),
    "history": dict(fn=history, quick=60, thorough=1500, cost=3, must=["new:toWorld", "new:round-trip", "new:local-is-derivative", "shift-law", "read-back-toWorld", "radecToxy"]),
    "tan": dict(fn=tan, quick=30, thorough=800, cost=2, must=["tan:toWorld", "tan-crpix"]),
    "sky": dict(fn=sky, quick=50, thorough=1000, must=["sky-value"]),
    "linear": dict(fn=linear, quick=40, thorough=400, must=["fallback-toWorld"]),
}
