"""C12: celestial coordinates against the Coord library, and against vector geometry computed independently."""

import datetime
import warnings

from jgmon.common import *  # noqa: F401,F403

RULE = "A case is a set of points on the sphere (random, polar, wrapped, close, coincident or antipodal) with every operation applied to it."
ASSUMPTIONS = ["LSSTDESC.Coord (through GalSim 2.8.5) is the reference", "values that are ill-conditioned functions of the inputs are compared to their conditioning"]

PROJ = [None, "gnomonic", "stereographic", "lambert", "postel"]


def point(rng):
    r = rng.random()
    if r < 0.1:
        return [rnd(rng, -7, 7), pick(rng, [-1, 1]) * np.pi / 2]
    if r < 0.25:
        return [rnd(rng, -7, 7), pick(rng, [-1, 1]) * (np.pi / 2 - rnd(rng, 1e-9, 0.05, log=True))]
    if r < 0.35:
        return [pick(rng, [0.0, np.pi, -np.pi, 2 * np.pi, np.pi / 2]), pick(rng, [0.0, rnd(rng, -1.5, 1.5)])]
    return [rnd(rng, -7, 7), float(f"{np.arcsin(rng.uniform(-1, 1)):.9g}")]


def near(rng, p):
    """A point related to p."""
    r = rng.random()
    if r < 0.5:
        return point(rng)
    if r < 0.85:
        d = rnd(rng, 1e-9, 0.1, log=True)
        dec = min(max(p[1] + d * rng.normal(), -np.pi / 2), np.pi / 2)
        return [p[0] + d * rng.normal() / max(np.cos(p[1]), 1e-3), dec]
    if r < 0.92:
        return list(p)
    e = rnd(rng, 1e-8, 1e-2, log=True) if rng.random() < 0.7 else 0.0
    return [p[0] + np.pi + e, -p[1]]


def C(m, p):
    return m.CelestialCoord(p[0] * m.radians, p[1] * m.radians)


def vec(p):
    return np.array([np.cos(p[1]) * np.cos(p[0]), np.cos(p[1]) * np.sin(p[0]), np.sin(p[1])])


def same_point(mon, name, j, g, atol=2e-15, **d):
    """Positions on the sphere compared as vectors (right ascension is free at a pole)."""
    a, b = vec([F(j.ra.rad), F(j.dec.rad)]), vec([g.ra.rad, g.dec.rad])
    mon.close(name, a, b, atol=atol, **d)


def turn(x):
    return (x + np.pi) % (2 * np.pi) - np.pi


def pairs(mon, rng):
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    p1 = point(rng)
    p2, p3 = near(rng, p1), near(rng, p1)
    mon.note(p=[p1, p2, p3])
    j1, j2, j3 = (C(jg, p) for p in (p1, p2, p3))
    g1, g2, g3 = (C(galsim, p) for p in (p1, p2, p3))
    v1, v2, v3 = vec(p1), vec(p2), vec(p3)
    mon.close("ra-dec", [F(j1.ra.rad), F(j1.dec.rad), *[F(x) for x in j1.rad]], [*p1, *p1], rtol=1e-15)
    # Cartesian
    mon.close("xyz", [F(x) for x in j1.get_xyz()], g1.get_xyz(), atol=2e-16, rtol=1e-14)
    k = rnd(rng, 0.01, 50)
    bk = jg.CelestialCoord.from_xyz(*(v1 * k))
    same_point(mon, "from-xyz", bk, g1, atol=1e-15)
    mon.check("from-xyz-range", 0 <= F(bk.ra.rad) <= 2 * np.pi)
    same_point(mon, "from-xyz-galsim", bk, galsim.CelestialCoord.from_xyz(*(v1 * k)))
    x = jg.CelestialCoord.radec_to_xyz(p1[0], p1[1], k)
    mon.close("radec-to-xyz", [F(c) for c in x], galsim.CelestialCoord.radec_to_xyz(p1[0], p1[1], k), rtol=1e-14, atol=k * 3e-16)
    ra, dec, r = jg.CelestialCoord.xyz_to_radec(*x, return_r=True)
    mon.close("xyz-to-radec-r", F(r), k, rtol=1e-14)
    mon.close("xyz-to-radec", vec([F(ra), F(dec)]), v1, atol=1e-14)
    arr = np.array([p1, p2, p3])
    X = jg.CelestialCoord.radec_to_xyz(jnp.asarray(arr[:, 0]), jnp.asarray(arr[:, 1]))
    mon.close("radec-to-xyz-array", np.array([A(c) for c in X]).T, np.array([v1, v2, v3]), atol=3e-16)
    RD = jg.CelestialCoord.xyz_to_radec(*X)
    W = galsim.CelestialCoord.xyz_to_radec(*[A(c) for c in X])
    mon.close("xyz-to-radec-array", A(RD[0]), W[0], atol=1e-14, rtol=1e-14)
    mon.close("xyz-to-radec-array", A(RD[1]), W[1], atol=1e-14, rtol=1e-14)
    n = j1.normal()
    mon.close("normal", [F(n.ra.rad), F(n.dec.rad)], [g1.normal().ra.rad, g1.normal().dec.rad], rtol=1e-14, atol=3e-15) if abs(turn(p1[0])) > 1e-12 else None
    mon.check("normal-range", -1e-14 <= F(n.ra.rad) <= 2 * np.pi + 1e-14)
    # distance
    d = F(j1.distanceTo(j2).rad)
    w = g1.distanceTo(g2).rad
    cr = np.linalg.norm(np.cross(v1, v2))
    exact = np.arctan2(cr, v1 @ v2)
    # the cross-product formula is used within 0.1 of the antipodes
    mon.close("distance", d, w, rtol=1e-13, atol=1e-15)
    # 2 asin(d/2) is well-conditioned except towards the antipodes, where the switch is at d^2 = 3.99
    mon.close("distance-geometry", d, exact, rtol=1e-12, atol=3e-15)
    mon.close("distance-symmetric", d, F(j2.distanceTo(j1).rad), rtol=1e-13, atol=1e-15)
    mon.check("distance-range", 0 <= d <= np.pi * (1 + 1e-15))
    mon.check("triangle-inequality", d <= F(j1.distanceTo(j3).rad) + F(j3.distanceTo(j2).rad) + 1e-14)
    # great circle
    if cr > 1e-9:
        th = rnd(rng, -4, 4)
        q, wq = j1.greatCirclePoint(j2, th * jg.radians), g1.greatCirclePoint(g2, th * galsim.radians)
        same_point(mon, "great-circle", q, wq, atol=1e-14 / cr * 4)
        vq = vec([F(q.ra.rad), F(q.dec.rad)])
        perp = v2 - (v1 @ v2) * v1
        perp /= np.linalg.norm(perp)
        mon.close("great-circle-geometry", vq, v1 * np.cos(th) + perp * np.sin(th), atol=2e-14 / cr)
        e = j1.greatCirclePoint(j2, j1.distanceTo(j2))
        mon.close("great-circle-reaches-target", vec([F(e.ra.rad), F(e.dec.rad)]), v2, atol=2e-14 / cr)
    # angle and area
    for (a, b, c, va, vb, vc) in ((j1, j2, j3, v1, v2, v3), (j2, j3, j1, v2, v3, v1)):
        ga, gb, gc = (C(galsim, {id(j1): p1, id(j2): p2, id(j3): p3}[id(o)]) for o in (a, b, c))
        sab, sac = np.linalg.norm(np.cross(va, vb)), np.linalg.norm(np.cross(va, vc))
        if sab > 1e-6 and sac > 1e-6:
            t = F(a.angleBetween(b, c).rad)
            wt = ga.angleBetween(gb, gc).rad
            tol = 1e-15 / (sab * sac) * 8 + 1e-13
            if tol < 1e-3:
                mon.close("angle-between", turn(t - wt), 0.0, atol=tol)
                tb, tc = vb - (va @ vb) * va, vc - (va @ vc) * va
                # the sign convention of Coord: clockwise seen from outside the sphere is negative ra direction
                ex = np.arctan2(va @ np.cross(vc, vb), tb @ tc)
                mon.close("angle-between-geometry", turn(t - ex), 0.0, atol=tol * 2)
                mon.close("angle-between-antisymmetric", turn(t + F(a.angleBetween(c, b).rad)), 0.0, atol=tol * 2)
        # area: tan(E/2) loses meaning when the denominator vanishes (great triangles)
        dd = [float(np.sum((x - y) ** 2)) for x, y in ((va, vb), (va, vc), (vb, vc))]
        F_ = abs(np.linalg.det(np.array([vb, va, vc])))
        G_ = 0.5 * (dd[0] + dd[1] - dd[2] - 0.5 * dd[0] * dd[1])
        den = 0.25 * (4 - dd[0]) * (4 - dd[1]) + G_
        if np.hypot(F_, den) > 1e-4:
            ar = F(a.area(b, c))
            mon.close("area", ar, ga.area(gb, gc), rtol=1e-10, atol=1e-14 / np.hypot(F_, den) * 4)
            # the formula gives the excess of triangles smaller than a hemisphere
            num = abs(va @ np.cross(vb, vc))
            ex = 2 * np.arctan2(num, 1 + va @ vb + vb @ vc + va @ vc)
            if ex < 3.1:
                mon.close("area-geometry", ar, ex, rtol=1e-8, atol=1e-14 / np.hypot(F_, den) * 8)
    # comparisons
    mon.check("eq", bool(j1 == C(jg, p1)) and not bool(j1 != C(jg, p1)))
    mon.check("hash", hash(j1) == hash(C(jg, p1)))
    if p1 != p2:
        mon.check("ne", bool(j1 != j2) and not bool(j1 == j2))


def refused(mon, rng):
    d = pick(rng, [-1, 1]) * rnd(rng, np.pi / 2 + 1e-3, 5)
    mon.note(d=d)
    f = {
        "dec": lambda m: m.CelestialCoord(0.1 * m.radians, d * m.radians),
        "no-dec": lambda m: m.CelestialCoord(0.1 * m.radians),
        "float-ra": lambda m: m.CelestialCoord(0.1, 0.2 * m.radians),
        "float-dec": lambda m: m.CelestialCoord(0.1 * m.radians, 0.2),
        "projection": lambda m: m.CelestialCoord(0.1 * m.radians, 0.2 * m.radians).project(m.CelestialCoord(0.2 * m.radians, 0.2 * m.radians), "tan"),
        "deprojection": lambda m: m.CelestialCoord(0.1 * m.radians, 0.2 * m.radians).deproject(0.1 * m.radians, 0.1 * m.radians, "tan"),
        "project_rad": lambda m: m.CelestialCoord(0.1 * m.radians, 0.2 * m.radians).project_rad(0.1, 0.2, projection="x"),
        "deproject_rad": lambda m: m.CelestialCoord(0.1 * m.radians, 0.2 * m.radians).deproject_rad(0.1, 0.2, projection="x"),
        "jac": lambda m: m.CelestialCoord(0.1 * m.radians, 0.2 * m.radians).jac_deproject(0.1 * m.radians, 0.2 * m.radians, "zea"),
        "jac_rad": lambda m: m.CelestialCoord(0.1 * m.radians, 0.2 * m.radians).jac_deproject_rad(0.1, 0.2, "zea"),
        "xyz": lambda m: m.CelestialCoord.from_xyz(0.0, 0.0, 0.0),
        "same-circle": lambda m: m.CelestialCoord(0.0 * m.radians, 0.0 * m.radians).greatCirclePoint(m.CelestialCoord(0.0 * m.radians, 0.0 * m.radians), 0.1 * m.radians),
    }
    for n, g in f.items():
        lockstep(mon, "refused:" + n, lambda: g(jg), lambda: g(galsim))


def project(mon, rng):
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    p = pick(rng, PROJ)
    c = point(rng)
    # a point at angular distance t and position angle a from c, computed with vectors
    t = pick(rng, [rnd(rng, 1e-6, 0.1, log=True), rnd(rng, 0.05, 1.4), 0.0 if rng.random() < 0.6 else 1e-3])
    if p in ("stereographic", "lambert", "postel") and rng.random() < 0.3:
        t = rnd(rng, 1.4, 3.0)
    a = rnd(rng, -np.pi, np.pi)
    v0 = vec(c)
    north = np.array([-np.sin(c[1]) * np.cos(c[0]), -np.sin(c[1]) * np.sin(c[0]), np.cos(c[1])])
    east = np.array([-np.sin(c[0]), np.cos(c[0]), 0.0])
    v = v0 * np.cos(t) + (north * np.cos(a) + east * np.sin(a)) * np.sin(t)
    q = [float(np.arctan2(v[1], v[0])), float(np.arctan2(v[2], np.hypot(v[0], v[1])))]
    mon.note(p=p, c=c, q=q, t=t)
    jc, jq, gc, gq = C(jg, c), C(jg, q), C(galsim, c), C(galsim, q)
    form = pick(rng, ["pos", "kw"])
    u, w = jc.project(jq, p) if form == "pos" else jc.project(jq, projection=p)
    gu, gw = gc.project(gq, p)
    R = {None: np.tan(t), "gnomonic": np.tan(t), "stereographic": 2 * np.tan(t / 2), "lambert": 2 * np.sin(t / 2), "postel": t}[p]
    # arccos(cos c) loses precision near c = 0; the other projections are well conditioned away from their horizon
    cond = {None: 1 / np.cos(t) ** 2, "gnomonic": 1 / np.cos(t) ** 2, "stereographic": 1 / np.cos(t / 2) ** 2, "lambert": 1 / max(np.cos(t / 2), 1e-3), "postel": 1.0 + 1 / max(1e-2, np.pi - t)}[p]
    tol = 4e-15 * cond * (1 + R)
    if np.isfinite(gu.rad):
        mon.close("project", [F(u.rad), F(w.rad)], [gu.rad, gw.rad], atol=tol * 4, p=p)
    # (Coord returns NaN for some points projected about themselves)
    if np.isfinite(gu.rad) or t < 1:  # +u is towards west (decreasing ra)
        mon.close("project-geometry", [F(u.rad), F(w.rad)], [-R * np.sin(a), R * np.cos(a)], atol=tol * 20 + 3e-15 / np.maximum(np.cos(c[1]), 0.02), p=p)
    ur, wr = jc.project_rad(jnp.asarray([q[0], c[0]]), jnp.asarray([q[1], c[1]]), projection=p)
    gur, gwr = gc.project_rad(np.array([q[0], c[0]]), np.array([q[1], c[1]]), projection=p)
    mon.check("project-rad-finite", np.all(np.isfinite(A(ur))), p=p, mech="project-rad-finite")
    if np.all(np.isfinite(gur)):
        mon.close("project-rad", np.array([A(ur), A(wr)]), np.array([gur, gwr]), atol=tol * 4, p=p)
    # back again (from positions computed independently)
    U, V = -R * np.sin(a), R * np.cos(a)
    back = jc.deproject(U * jg.radians, V * jg.radians, p)
    wb = gc.deproject(U * galsim.radians, V * galsim.radians, p)
    btol = 1e-14 + (1e-15 / max(np.cos(q[1]), 1e-8)) * 4 + (2e-15 * cond if p == "lambert" else 0)
    same_point(mon, "deproject", back, wb, atol=btol, p=p)
    mon.close("deproject-inverts", vec([F(back.ra.rad), F(back.dec.rad)]), v, atol=btol * 2 + 3e-15 * cond, p=p)
    mon.close("deproject-branch", F(back.ra.rad), wb.ra.rad, atol=1e-6, p=p) if abs(np.cos(q[1])) > 1e-3 and abs(abs(turn(q[0] - c[0])) - np.pi) > 1e-6 else None
    ra, dec = jc.deproject_rad(jnp.asarray([U, 0.0]), jnp.asarray([V, 0.0]), projection=p)
    mon.close("deproject-rad", [vec([A(ra)[i], A(dec)[i]]) for i in (0, 1)], [v, v0], atol=btol * 2 + 3e-15 * cond + 1e-15 / max(np.cos(c[1]), 1e-8), p=p)
    # Jacobian
    cd = np.cos(q[1])
    if cd > 1e-3 and np.cos(c[1]) > 1e-6 and R < 50 and not (p == "lambert" and t > 2.9):
        J = A(jc.jac_deproject(U * jg.radians, V * jg.radians, p))
        G = np.array(gc.jac_deproject(U * galsim.radians, V * galsim.radians, p))
        jt = (1e-13 + 1e-15 / cd**2) * cond * (1 + 1 / max(1e-6, abs(t)) * (1e-2 if p == "postel" else 0))
        mon.close("jacobian", J, G, atol=jt * 4, p=p)
        J2 = A(jc.jac_deproject_rad(U, V, projection=p))
        mon.close("jacobian-rad", J2, J, atol=jt, p=p)
        if cd > 0.02:
            h = 1e-6

            def pos_(uu, vv):
                b = jc.deproject(uu * jg.radians, vv * jg.radians, p)
                return np.array([F(b.ra.rad), F(b.dec.rad)])

            du = turn(pos_(U + h, V) - pos_(U - h, V)) / (2 * h)
            dv = turn(pos_(U, V + h) - pos_(U, V - h)) / (2 * h)
            cdq = np.cos(F(back.dec.rad))
            # the reported derivative of ra is towards decreasing ra, as u is
            N = np.array([[du[0] * cdq, dv[0] * cdq], [du[1], dv[1]]])
            S = np.array([[-1, -1], [1, 1]])
            if np.max(np.abs(J[0] - N[0])) < np.max(np.abs(J[0] + N[0])):
                S = np.ones((2, 2))
            mon.event("ra-sign:" + str(int(S[0, 0])))
            mon.close("jacobian-is-derivative", J, N * S, rtol=1e-5, atol=3e-6 * cond / cd, p=p)


def frames(mon, rng):
    """Precession, galactic and ecliptic frames."""
    p = point(rng)
    e0, e1 = rnd(rng, 1900, 2100), rnd(rng, 1900, 2100)
    if rng.random() < 0.15:
        e1 = e0
    ep = rnd(rng, 1950, 2050)
    date = datetime.datetime(int(rng.integers(1990, 2030)), int(rng.integers(1, 13)), int(rng.integers(1, 28)), int(rng.integers(24))) if rng.random() < 0.25 else None
    mon.note(p=p, e=[e0, e1, ep], date=str(date))
    j, g = C(jg, p), C(galsim, p)
    a, b = j.precess(e0, e1), g.precess(e0, e1)
    same_point(mon, "precess", a, b, atol=4e-15)
    if e0 == e1:
        mon.close("precess-nowhere", [F(a.ra.rad), F(a.dec.rad)], p, rtol=1e-15)
    same_point(mon, "precess-and-back", a.precess(e1, e0), g, atol=1e-9 + 1e-7 * (abs(e1 - e0) / 100) ** 2)
    el, bb = j.galactic()
    wl, wb = g.galactic()
    cb = max(np.cos(wb.rad), 1e-8)
    mon.close("galactic-b", F(bb.rad), wb.rad, atol=2e-15 / cb)
    mon.close("galactic-l", turn(F(el.rad) - wl.rad), 0, atol=4e-15 / cb)
    mon.check("galactic-l-range", -1e-14 <= F(el.rad) <= 2 * np.pi + 1e-14)
    f = jg.CelestialCoord.from_galactic(el, bb)
    same_point(mon, "galactic-inverse", f, g, atol=4e-15 / cb)
    l, b2 = rnd(rng, -7, 7), rnd(rng, -1.57, 1.57)
    same_point(mon, "from-galactic", jg.CelestialCoord.from_galactic(l * jg.radians, b2 * jg.radians), galsim.CelestialCoord.from_galactic(l * galsim.radians, b2 * galsim.radians), atol=3e-15)
    kw = dict(date=date) if date else dict(epoch=ep) if rng.random() < 0.7 else {}
    lam, be = j.ecliptic(**kw)
    gl, gb = g.ecliptic(**kw)
    cb = max(np.cos(gb.rad), 1e-8)
    mon.close("ecliptic-beta", F(be.rad), gb.rad, atol=2e-15 / cb)
    mon.close("ecliptic-lambda", turn(F(lam.rad) - gl.rad), 0, atol=4e-15 / cb + (1e-13 if date else 0))
    back = jg.CelestialCoord.from_ecliptic(lam, be, **kw)
    same_point(mon, "ecliptic-inverse", back, g, atol=4e-15 / cb + (1e-13 if date else 0))
    same_point(mon, "from-ecliptic", jg.CelestialCoord.from_ecliptic(l * jg.radians, b2 * jg.radians, **kw), galsim.CelestialCoord.from_ecliptic(l * galsim.radians, b2 * galsim.radians, **kw), atol=3e-15 + (1e-13 if date else 0))


GROUPS = {
    "pairs": dict(fn=pairs, quick=400, thorough=6000, cost=0.06, warm=6, must=["distance-geometry", "angle-between-geometry", "area-geometry", "great-circle-geometry"]),
    "refused": dict(fn=refused, quick=20, thorough=200, cost=0.2, warm=5),
    "project": dict(fn=project, quick=400, thorough=6000, cost=0.05, warm=8, must=["project-geometry", "deproject-inverts", "jacobian-is-derivative"]),
    "frames": dict(fn=frames, quick=250, thorough=3000, cost=0.05, warm=8, must=["precess", "galactic-inverse", "ecliptic-inverse"]),
}
