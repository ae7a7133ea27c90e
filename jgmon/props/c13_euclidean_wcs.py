"""C13: Euclidean coordinate systems against GalSim, and against their own consistency laws, through histories of origin changes."""

import warnings

from jgmon.common import *  # noqa: F401,F403

RULE = "A case is one coordinate system taken through a history of copies, inverses, origin shifts, localizations and conversions; after each step the whole observable state is compared."
ASSUMPTIONS = ["GalSim 2.8.5 is the reference", "singular Jacobians are not judged"]

KINDS = ["PixelScale", "ShearWCS", "JacobianWCS", "OffsetWCS", "OffsetShearWCS", "AffineTransform"]


def pos_spec(rng):
    r = rng.random()
    if r < 0.15:
        return ["I", int(rng.integers(-50, 50)), int(rng.integers(-50, 50))]
    if r < 0.25:
        return ["D", 0.0, 0.0]
    return ["D", rnd(rng, -300, 300), rnd(rng, -300, 300)]


def mkpos(m, s):
    return (m.PositionI if s[0] == "I" else m.PositionD)(s[1], s[2])


def jac(rng):
    r = rng.random()
    if r < 0.12:
        s = rnd(rng, 0.05, 5, log=True)
        return pick(rng, [[s, 0.0, 0.0, s], [0.0, s, s, 0.0], [-s, 0.0, 0.0, s], [0.0, -s, s, 0.0], [s, 0.0, 0.0, -s]])
    if r < 0.5:
        s = rnd(rng, 0.02, 20, log=True)
        th, f = rng.uniform(0, 2 * np.pi), pick(rng, [1, -1])
        g = rnd(rng, 0, 0.8)
        b = rng.uniform(0, np.pi)
        S = np.array([[1 + g * np.cos(2 * b), g * np.sin(2 * b)], [g * np.sin(2 * b), 1 - g * np.cos(2 * b)]]) / np.sqrt(1 - g * g)
        M = s * S @ np.array([[np.cos(th), -np.sin(th)], [np.sin(th), np.cos(th)]]) @ np.diag([1, f])
        return [float(f"{x:.9g}") for x in M.ravel()]
    while True:
        j = [rnd(rng, -2, 2) for _ in range(4)]
        if abs(j[0] * j[3] - j[1] * j[2]) > 0.05:
            return j


def spec(rng, kinds=KINDS):
    k = pick(rng, kinds)
    s = {"k": k}
    if k in ("PixelScale", "ShearWCS", "OffsetWCS", "OffsetShearWCS"):
        s["scale"] = rnd(rng, 0.02, 20, log=True)
        if k == "PixelScale" and rng.random() < 0.1:
            s["scale"] = int(rng.integers(1, 5))
    if "Shear" in k:
        s["shear"] = shear_kw(rng, 0.85)
    if k in ("JacobianWCS", "AffineTransform"):
        s["j"] = jac(rng)
    if k in ("OffsetWCS", "OffsetShearWCS", "AffineTransform"):
        if rng.random() < 0.85:
            s["origin"] = pos_spec(rng)
        if rng.random() < 0.7:
            s["world_origin"] = pos_spec(rng)
    return s


def mk(m, s):
    k = s["k"]
    cls = getattr(m, k)
    a = []
    if "scale" in s:
        a.append(s["scale"])
    if "shear" in s:
        a.append(m.Shear(**{k2: (v[1] * m.degrees if isinstance(v, list) else v) for k2, v in s["shear"].items()}))
    if "j" in s:
        a += s["j"]
    kw = {n: mkpos(m, s[n]) for n in ("origin", "world_origin") if n in s}
    return cls(*a, **kw)


def matrix(g):
    jj = g.jacobian()
    return np.array([[jj.dudx, jj.dudy], [jj.dvdx, jj.dvdy]], dtype=float)


def cond(g):
    return float(np.linalg.cond(matrix(g)))


def observe(mon, name, j, g, rng):
    """Everything a user can read off a coordinate system."""
    mon.check(name + ":class", type(j).__name__.lstrip("_") == type(g).__name__.lstrip("_"), got=type(j).__name__, want=type(g).__name__)
    M = matrix(g)
    sc = float(np.max(np.abs(M)))
    c = cond(g)
    jm = j.jacobian()
    mon.close(name + ":jacobian", [F(jm.dudx), F(jm.dudy), F(jm.dvdx), F(jm.dvdy)], M.ravel(), rtol=1e-12, scale=sc * 1e-1)
    mon.close(name + ":matrix", A(jm.getMatrix()), M, rtol=1e-12, scale=sc * 1e-1)
    o = [F(j.x0), F(j.y0), F(j.u0), F(j.v0), F(j.origin.x), F(j.origin.y), F(j.world_origin.x), F(j.world_origin.y)]
    w = [g.x0, g.y0, g.u0, g.v0, g.origin.x, g.origin.y, g.world_origin.x, g.world_origin.y]
    big = 1 + float(np.max(np.abs(w))) * (1 + sc)
    mon.close(name + ":origins", o, w, rtol=1e-12, atol=1e-12 * big * c)
    for f in ("isPixelScale", "isLocal", "isUniform", "isCelestial"):
        mon.check(name + ":kind", getattr(j, f)() == getattr(g, f)(), f=f)
    mon.close(name + ":area", F(j.pixelArea()), g.pixelArea(), rtol=1e-11 * c)
    mon.close(name + ":minscale", F(j.minLinearScale()), g.minLinearScale(), rtol=1e-12 * c)
    mon.close(name + ":maxscale", F(j.maxLinearScale()), g.maxLinearScale(), rtol=1e-12)
    for a in ("scale", "dudx", "dudy", "dvdx", "dvdy"):
        mon.check(name + ":has", hasattr(j, a) == hasattr(g, a), a=a)
        if hasattr(g, a):
            mon.close(name + ":attr", F(getattr(j, a)), getattr(g, a), rtol=1e-12, atol=1e-13 * sc, a=a)
    # positions
    p = pos_spec(rng)
    jp, gp = mkpos(jg, p), mkpos(galsim, p)
    jw, gw = j.toWorld(jp), g.toWorld(gp)
    R = (1 + abs(p[1]) + abs(p[2]) + abs(g.x0) + abs(g.y0)) * sc + abs(g.u0) + abs(g.v0)
    mon.check(name + ":pos-class", isinstance(jw, jg.PositionD))
    mon.close(name + ":toWorld", pos(jw), [gw.x, gw.y], atol=1e-12 * R)
    back = j.toImage(jw)
    mon.close(name + ":toImage-inverts", pos(back), [gp.x, gp.y], atol=1e-11 * c * R / np.sqrt(abs(np.linalg.det(M))))
    q = pos_spec(rng)
    ji, gi = j.toImage(mkpos(jg, q)), g.toImage(mkpos(galsim, q))
    RI = (1 + abs(q[1]) + abs(q[2]) + abs(g.u0) + abs(g.v0)) * c / np.sqrt(abs(np.linalg.det(M))) + abs(g.x0) + abs(g.y0)
    mon.close(name + ":toImage", pos(ji), [gi.x, gi.y], atol=1e-12 * RI * c)
    # scalars and arrays
    n = int(rng.integers(1, 5))
    sh = pick(rng, [(), (n,), (n, 2)])
    x, y = rng.uniform(-200, 200, sh), rng.uniform(-200, 200, sh)
    x0, y0 = np.array(x), np.array(y)
    ju, gu = j.toWorld(x, y), g.toWorld(x, y)
    mon.check(name + ":inputs-kept", np.array_equal(x, x0) and np.array_equal(y, y0))
    R2 = 400 * sc + R
    mon.close(name + ":xyTouv", [A(ju[0]), A(ju[1])], [gu[0], gu[1]], atol=1e-12 * R2)
    jx = j.uvToxy(*ju)
    mon.close(name + ":uvToxy-inverts", [A(jx[0]), A(jx[1])], [x, y], atol=1e-11 * c * R2 / np.sqrt(abs(np.linalg.det(M))))
    jx, gx = j.toImage(x, y), g.toImage(x, y)
    mon.close(name + ":uvToxy", [A(jx[0]), A(jx[1])], [gx[0], gx[1]], atol=1e-12 * (RI + 400 * c / np.sqrt(abs(np.linalg.det(M)))) * c)


def decomposition(mon, j, g):
    js, jsh, jth, jf = j.jacobian().getDecomposition()
    gs, gsh, gth, gf = g.jacobian().getDecomposition()
    c = cond(g)
    mon.close("decomposition-scale", F(js), gs, rtol=1e-12 * c)
    mon.close("decomposition-shear", complex(A(jsh.shear)), complex(gsh.shear), rtol=0, atol=1e-12 * c)
    d = (F(jth.rad) - gth.rad + np.pi) % (2 * np.pi) - np.pi
    mon.close("decomposition-rotation", d, 0.0, atol=1e-12 * c)
    mon.check("decomposition-flip", bool(jf) == bool(gf))
    th = F(jth.rad)
    R = np.array([[np.cos(th), -np.sin(th)], [np.sin(th), np.cos(th)]])
    Fl = np.array([[0, 1], [1, 0]]) if bool(jf) else np.eye(2)
    M = matrix(g)
    mon.close("decomposition-rebuilds", F(js) * A(jsh.getMatrix()) @ R @ Fl, M, rtol=1e-11 * c, scale=float(np.max(np.abs(M))))


def profiles(mon, j, g, rng):
    """Profiles and shears convert as in GalSim and back."""
    e = shear_kw(rng, 0.7)
    js, gs = (m.Shear(**{k: (v[1] * m.degrees if isinstance(v, list) else v) for k, v in e.items()}) for m in (jg, galsim))
    c = cond(g)
    a, b = j.toWorld(js), g.toWorld(gs)
    mon.close("shear-to-world", complex(A(a.shear)), complex(b.shear), rtol=0, atol=1e-12 * c * c)
    mon.close("shear-back", complex(A(j.toImage(a).shear)), complex(A(js.shear)), rtol=0, atol=1e-12 * c**4)
    a2, b2 = j.toImage(js), g.toImage(gs)
    mon.close("shear-to-image", complex(A(a2.shear)), complex(b2.shear), rtol=0, atol=1e-12 * c * c)
    s = rnd(rng, 0.5, 3)
    fl = flux_of(rng)
    kw = {}
    if rng.random() < 0.4:
        kw["flux_ratio"] = rnd(rng, 0.2, 3)
    if rng.random() < 0.4:
        kw["offset"] = (rnd(rng, -1, 1), rnd(rng, -1, 1))
    pj, pg = (m.Gaussian(sigma=s, flux=fl).shear(g1=0.2, g2=-0.1).shift(0.3, -0.2) for m in (jg, galsim))
    for d in ("toWorld", "toImage"):
        kj = dict(kw)
        kg = dict(kw)
        if "offset" in kw and rng.random() < 0.5:
            kj["offset"], kg["offset"] = jg.PositionD(*kw["offset"]), galsim.PositionD(*kw["offset"])
        oj, og = getattr(j, d)(pj, **kj), getattr(g, d)(pg, **kg)
        mon.close("profile-flux", F(oj.flux), og.flux, rtol=1e-11 * c)
        mon.close("profile-centroid", pos(oj.centroid), [og.centroid.x, og.centroid.y], rtol=1e-11 * c, atol=1e-12 * c * max(1, og.maxk and 1 / og.maxk))
        sb = abs(og.max_sb)
        L = 1.0 / og.maxk * 4
        for _ in range(3):
            x, y = og.centroid.x + rng.uniform(-L, L), og.centroid.y + rng.uniform(-L, L)
            mon.close("profile-value", F(oj.xValue(x, y)), og.xValue(x, y), rtol=1e-9 * c, atol=1e-10 * c * sb, d=d)
        kx, ky = rng.uniform(-1, 1, 2) * og.maxk * 0.4
        mon.close("profile-kvalue", complex(A(oj.kValue(kx, ky))), og.kValue(kx, ky), rtol=1e-9 * c, atol=1e-10 * c * abs(og.flux), d=d)
    if not kw:
        r = j.toImage(j.toWorld(pj))
        x, y = 0.3 + rng.uniform(-1, 1), -0.2 + rng.uniform(-1, 1)
        mon.close("profile-round-trip", F(r.xValue(x, y)), F(pj.xValue(x, y)), rtol=1e-9 * c**2, atol=1e-10 * c**2 * abs(pg.max_sb))
        mon.event("profile-round-trip")


def laws(mon, j, g, rng):
    """Consistency of a coordinate system with itself."""
    M = matrix(g)
    c = cond(g)
    p = pos_spec(rng)
    jp = mkpos(jg, p)
    jw = j.toWorld(jp)
    sc = float(np.max(np.abs(M)))
    R = (1 + abs(p[1]) + abs(p[2]) + abs(g.x0) + abs(g.y0)) * sc + abs(g.u0) + abs(g.v0)
    # affine approximation of a uniform system is the system
    r = rng.random()
    af = j.affine() if (j.isLocal() or r < 0.3) and j.isLocal() else (j.affine(image_pos=jp) if r < 0.6 else j.affine(world_pos=jw))
    q = mkpos(jg, pos_spec(rng))
    R2 = R + 400 * sc
    mon.check("affine-class", isinstance(af, jg.AffineTransform))
    mon.close("affine-agrees", pos(af.toWorld(q)), pos(j.toWorld(q)), atol=1e-11 * R2 * c)
    # local: linear part only
    loc = pick(rng, [lambda: j.local(), lambda: j.local(image_pos=jp), lambda: j.local(world_pos=jw)])()
    mon.check("local-is-local", loc.isLocal())
    d = pos(loc.toWorld(q)) - (pos(j.toWorld(q)) - pos(j.toWorld(jg.PositionD(0, 0))))
    mon.close("local-agrees", d, [0, 0], atol=1e-11 * R2)
    # the singular values of the matrix
    sv = np.linalg.svd(M, compute_uv=False)
    mon.close("scales-are-singular-values", [F(j.maxLinearScale()), F(j.minLinearScale())], sv, rtol=1e-11 * c)
    mon.close("area-is-determinant", F(j.pixelArea()), abs(np.linalg.det(M)), rtol=1e-11 * c)
    # inverse
    inv = j.inverse()
    mon.close("inverse-inverts", pos(inv.toWorld(jw)), [p[1], p[2]], atol=1e-10 * c * R / np.sqrt(abs(np.linalg.det(M))))
    # shifting
    new = mkpos(jg, pos_spec(rng))
    sh = j.shiftOrigin(new)
    mon.close("shift-moves-origin", pos(sh.toWorld(new)), pos(j.toWorld(jg.PositionD(0, 0))), atol=1e-11 * (R + 400 * sc) * c)
    wo = mkpos(jg, pos_spec(rng))
    sh = j.shiftOrigin(new, wo)
    mon.close("shift-sets-world-origin", pos(sh.toWorld(new)), pos(wo), atol=1e-11 * (R + 400 * sc) * c)
    mon.close("shift-keeps-shape", A(sh.jacobian().getMatrix()), M, rtol=1e-12, scale=sc)
    mon.check("compatible-with-shifted", bool(jg.wcs.compatible(j, sh)))


def history(mon, rng):
    warnings.simplefilter("ignore")
    s = spec(rng)
    mon.note(spec=s)
    j, g = mk(jg, s), mk(galsim, s)
    observe(mon, "new", j, g, rng)
    for step in range(4):
        op = pick(rng, ["copy", "inverse", "shift", "shift", "shift_world", "shift_world", "local", "jacobian", "affine", "withOrigin"])
        a, b = pos_spec(rng), pos_spec(rng)
        before = repr(j)
        posj = (mkpos(jg, a), mkpos(jg, b))

        def run(m, w):
            p, q = posj if m is jg else (mkpos(m, a), mkpos(m, b))
            if op == "copy":
                return w.copy()
            if op == "inverse":
                return w.inverse()
            if op == "shift":
                return w.shiftOrigin(p)
            if op == "shift_world":
                return w.shiftOrigin(p, q)
            if op == "withOrigin":
                return w.shiftOrigin(origin=p, world_origin=q)
            if op == "local":
                return w.local(image_pos=p)
            if op == "jacobian":
                return w.jacobian(world_pos=q)
            return w.affine(image_pos=p) if step % 2 else w.affine(world_pos=q)

        r = lockstep(mon, op, lambda: run(jg, j), lambda: run(galsim, g), kinds=True)
        mon.check("operand-unchanged", repr(j) == before, op=op)
        mon.check("position-unchanged", posj[0] == mkpos(jg, a) and posj[1] == mkpos(jg, b), op=op)
        if r is None:
            break
        j2, g2 = r
        if cond(g2) > 1e4 or max(abs(g2.x0), abs(g2.y0), abs(g2.u0), abs(g2.v0)) > 1e6:
            mon.event("stopped:large")
            break
        mon.event("step:" + op)
        observe(mon, op, j2, g2, rng)
        if op == "copy":
            mon.check("copy-equal", bool(j2 == j) and not bool(j2 != j) and j2 is not j and hash(j2) == hash(j))
        j, g = j2, g2
    decomposition(mon, j, g)
    profiles(mon, j, g, rng)
    laws(mon, j, g, rng)


def compare(mon, rng):
    """Equality, compatibility, refusals."""
    warnings.simplefilter("ignore")
    s1 = spec(rng)
    s2 = spec(rng) if rng.random() < 0.3 else dict(s1)
    mode = "other"
    if s2 == s1:
        mode = pick(rng, ["same", "scale", "shear", "j", "origin", "world_origin", "upgrade"])
        if mode in s2:
            if mode == "scale":
                s2["scale"] = s2["scale"] * 1.5
            elif mode == "shear":
                s2["shear"] = {"g1": 0.123, "g2": -0.321}
            elif mode == "j":
                s2["j"] = list(s2["j"])
                i = int(rng.integers(4))
                s2["j"][i] = s2["j"][i] + pick(rng, [1.0, 0.25, 1e-6])
            else:
                s2[mode] = ["D", s2[mode][1] + pick(rng, [0, 1, 1e-3]), s2[mode][2] + pick(rng, [0, 2, 0.5])]
        elif mode == "upgrade":
            up = {"PixelScale": "OffsetWCS", "ShearWCS": "OffsetShearWCS", "JacobianWCS": "AffineTransform", "OffsetWCS": "PixelScale", "OffsetShearWCS": "ShearWCS", "AffineTransform": "JacobianWCS"}
            s2 = {k: v for k, v in s1.items() if k not in ("origin", "world_origin")}
            s2["k"] = up[s1["k"]]
    mon.note(s1=s1, s2=s2)
    if "j" in s2 and abs(s2["j"][0] * s2["j"][3] - s2["j"][1] * s2["j"][2]) < 1e-3:
        s2["j"] = s1["j"]
    mon.event("mode:" + mode)
    (j1, g1), (j2, g2) = ((mk(jg, s), mk(galsim, s)) for s in (s1, s2))
    mon.check("equal", bool(j1 == j2) == bool(g1 == g2), want=bool(g1 == g2))
    mon.check("unequal", bool(j1 != j2) == bool(g1 != g2), want=bool(g1 != g2))
    mon.check("compatible", bool(jg.wcs.compatible(j1, j2)) == bool(galsim.wcs.compatible(g1, g2)), want=bool(galsim.wcs.compatible(g1, g2)))
    mon.check("eq-other-type", not bool(j1 == 3) and bool(j1 != "x"))
    if bool(j1 == j2):
        mon.check("equal-hash", hash(j1) == hash(j2))
    # calls both libraries must refuse
    p, w = pos_spec(rng), pos_spec(rng)
    k = pick(rng, list(BAD))
    mon.note(bad=k)
    lockstep(mon, "bad:" + k, lambda: BAD[k](jg, j1, mkpos(jg, p), mkpos(jg, w)), lambda: BAD[k](galsim, g1, mkpos(galsim, p), mkpos(galsim, w)), kinds=True)


BAD = {
    "toWorld-none": lambda m, w, p, q: w.toWorld(),
    "toWorld-tuple": lambda m, w, p, q: w.toWorld((p.x, p.y)),
    "toImage-tuple": lambda m, w, p, q: w.toImage((p.x, p.y)),
    "toWorld-3": lambda m, w, p, q: w.toWorld(1, 2, 3),
    "toImage-3": lambda m, w, p, q: w.toImage(1, 2, 3),
    "posToWorld-array": lambda m, w, p, q: w.posToWorld(np.array([1.0, 2.0])),
    "posToImage-celestial": lambda m, w, p, q: w.posToImage(m.CelestialCoord(1 * m.degrees, 2 * m.degrees)),
    "local-both": lambda m, w, p, q: w.local(image_pos=p, world_pos=q),
    "jacobian-both": lambda m, w, p, q: w.jacobian(image_pos=p, world_pos=q),
    "affine-both": lambda m, w, p, q: w.affine(image_pos=p, world_pos=q),
    "local-bad": lambda m, w, p, q: w.local(image_pos=(1, 2)),
    "area-both": lambda m, w, p, q: w.pixelArea(image_pos=p, world_pos=q),
    "shift-tuple": lambda m, w, p, q: w.shiftOrigin((1, 2)),
    "shift-world-tuple": lambda m, w, p, q: w.shiftOrigin(p, (1, 2)),
    "pixelscale-of-wcs": lambda m, w, p, q: m.PixelScale(w),
    "offset-bad-origin": lambda m, w, p, q: m.OffsetWCS(0.3, origin=5),
    "offset-bad-world": lambda m, w, p, q: m.AffineTransform(1, 0, 0, 1, world_origin=(1, 2)),
    "decomp-nonlocal": lambda m, w, p, q: w.shiftOrigin(p).getDecomposition(),
    "scale-setter": lambda m, w, p, q: setattr(w, "scale", 3.0) if hasattr(type(w), "scale") else (_ for _ in ()).throw(AttributeError()),
}


def sky(mon, rng):
    """Sky images and images carrying a coordinate system."""
    warnings.simplefilter("ignore")
    s = spec(rng)
    dt = pick(rng, [np.float32, np.float64, np.int32, np.int16])
    nx, ny = int(rng.integers(1, 12)), int(rng.integers(1, 12))
    x0, y0 = int(rng.integers(-5, 5)), int(rng.integers(-5, 5))
    lev = rnd(rng, 0.5, 500, log=True)
    mon.note(spec=s, dt=str(np.dtype(dt)), shape=[nx, ny], lev=lev)
    j, g = mk(jg, s), mk(galsim, s)
    b = (x0, x0 + nx - 1, y0, y0 + ny - 1)
    ji, gi = jg.Image(jg.BoundsI(*b), dtype=dt, wcs=j), galsim.Image(galsim.BoundsI(*b), dtype=dt, wcs=g)
    v = lev * g.pixelArea()
    if np.issubdtype(dt, np.integer) and (v > 30000 or abs(v - np.rint(v)) > 0.49):
        raise Abort
    j.makeSkyImage(ji, lev)
    # one value everywhere: level times pixel area
    a = A(ji.array)
    mon.check("sky-dtype", ji.dtype == dt)
    mon.check("sky-bounds", (F(ji.xmin), F(ji.xmax), F(ji.ymin), F(ji.ymax)) == b)
    tol = 1e-6 if dt == np.float32 else 1e-12 * cond(g)
    if np.issubdtype(dt, np.integer):
        g.makeSkyImage(gi, lev)
        mon.check("sky-integer", np.all(np.abs(a - v) <= 1.0) and np.ptp(a) == 0, got=a.ravel()[0], want=v)
    else:
        mon.close("sky-value", a, np.full((ny, nx), v), rtol=tol)
    # Euclidean finite-difference version agrees with the uniform one
    if np.issubdtype(dt, np.floating):
        k = jg.Image(jg.BoundsI(*b), dtype=np.float64)
        jg.wcs.EuclideanWCS._makeSkyImage(j, k, lev, None)
        R = 400 * float(np.max(np.abs(matrix(g))))
        mon.close("sky-by-differences", A(k.array), np.full((ny, nx), v), rtol=1e-11 * cond(g) + 1e-12 * (abs(g.x0) + abs(g.y0) + R))
    # image methods carry the WCS along
    dx, dy = int(rng.integers(-7, 7)), int(rng.integers(-7, 7))
    q = [rnd(rng, -10, 10), rnd(rng, -10, 10)]
    op = pick(rng, ["shift", "setOrigin", "setCenter", "sub"])
    for im in (ji, gi):
        m = jg if im is ji else galsim
        if op == "shift":
            im.shift(dx, dy)
        elif op == "setOrigin":
            im.setOrigin(dx, dy)
        elif op == "setCenter":
            im.setCenter(m.PositionI(dx, dy))
    mon.event("image:" + op)
    wj, wg = ji.wcs.toWorld(jg.PositionD(*q)), gi.wcs.toWorld(galsim.PositionD(*q))
    R = (1 + 20 + abs(g.x0) + abs(g.y0)) * float(np.max(np.abs(matrix(g)))) + abs(g.u0) + abs(g.v0)
    mon.close("image-wcs-follows", pos(wj), [wg.x, wg.y], atol=1e-12 * R)


GROUPS = {
    "history": dict(fn=history, quick=100, thorough=3000, cost=3, must=["shift:jacobian", "shift_world:toWorld", "inverse:origins", "decomposition-rebuilds", "profile-value", "affine-agrees", "shift-sets-world-origin"]),
    "compare": dict(fn=compare, quick=150, thorough=4000, must=["equal", "compatible"]),
    "sky": dict(fn=sky, quick=60, thorough=1500, must=["sky-value", "image-wcs-follows"]),
}
