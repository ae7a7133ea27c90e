"""C11: shears and angles against GalSim, and against their composition and conversion laws."""

import warnings

from jgmon.common import *  # noqa: F401,F403

RULE = "A case is a pool of shears or angles with random parametrizations, combined by random operations."
ASSUMPTIONS = ["GalSim 2.8.5 (and LSSTDESC.Coord inside it) is the reference", "out-of-range shears raise a generic exception (documented)"]

PARAM = ["g1g2", "g1", "g2", "e1e2", "e1", "eta1eta2", "eta2", "g", "e", "eta", "q", "complex", "none", "npcomplex"]
ATTRS = ["g1", "g2", "g", "e1", "e2", "e", "esq", "eta1", "eta2", "eta", "q"]


def modulus(rng):
    r = rng.random()
    if r < 0.08:
        return 0.0
    if r < 0.2:
        return rnd(rng, 1e-9, 2e-2, log=True)
    if r < 0.3:
        return float(f"{1 - rnd(rng, 1e-6, 0.05, log=True):.12g}")
    return rnd(rng, 0.01, 0.95)


def shear_args(rng):
    """(args, kwargs builder, |g|)"""
    p = pick(rng, PARAM)
    m = modulus(rng)
    th = float(rnd(rng, -np.pi, np.pi)) if rng.random() < 0.85 else pick(rng, [0.0, np.pi / 2, np.pi, -np.pi / 2])
    c, s = np.cos(th), np.sin(th)
    if abs(s) < 1e-12:
        s = 0.0
    if abs(c) < 1e-12:
        c = 0.0
    if p in ("eta", "eta1eta2", "eta2"):
        m = m if m < 0.99 else m * 5
        if rng.random() < 0.2:
            m = rnd(rng, 0.5, 8)
    d = {
        "g1g2": {"g1": m * c, "g2": m * s},
        "g1": {"g1": m * pick(rng, [-1, 1])},
        "g2": {"g2": m * pick(rng, [-1, 1])},
        "e1e2": {"e1": m * c, "e2": m * s},
        "e1": {"e1": m},
        "eta1eta2": {"eta1": m * c, "eta2": m * s},
        "eta2": {"eta2": -m},
        "g": {"g": m, "beta": th},
        "e": {"e": m, "beta": th},
        "eta": {"eta": m, "beta": th},
        "q": {"q": (1 - m) / (1 + m), "beta": th},
        "complex": complex(m * c, m * s),
        "npcomplex": complex(m * c, m * s),
        "none": {},
    }[p]
    return p, d


def mk(m, p, d):
    if p == "complex":
        return m.Shear(d)
    if p == "npcomplex":
        return m.Shear(np.complex128(d)) if m is galsim else m.Shear(jnp.asarray(d))
    kw = {k: (v * m.radians if k == "beta" else v) for k, v in d.items()}
    return m.Shear(**kw)


def same_shear(mon, name, j, g, tol=1e-13, **d):
    """tol: absolute error of g; amplified near |g| = 1 in e-to-g conversions."""
    mon.check(name + "-class", isinstance(j, jg.Shear))
    gg = complex(A(j.shear))
    mon.close(name, [gg.real, gg.imag], [g.g1, g.g2], rtol=1e-12, atol=tol, **d)
    amp = 1.0 / max(1e-14, 1 - g.g)
    for k in ATTRS:
        w = getattr(g, k)
        mon.close(name + "-attr", F(getattr(j, k)), w, rtol=1e-12, atol=tol * (amp if k in ("eta1", "eta2", "eta") else 4), attr=k, mech=f"{name}-attr:{k}", **d)
    mon.close(name + "-attr", complex(A(j.shear)), complex(g.shear), rtol=1e-12, atol=tol, attr="shear", **d)
    if g.g > 1e-7:
        b, w = F(j.beta.rad), g.beta.rad
        diff = (b - w + np.pi / 2) % np.pi - np.pi / 2  # a half turn is the same orientation
        mon.close(name + "-beta", diff, 0.0, atol=(1e-12 + tol) / min(1, g.g), **d)
        mon.check(name + "-beta-range", -np.pi / 2 - 1e-12 <= b <= np.pi / 2 + 1e-12, b=b)
    if g.g < 1:
        mon.close(name + "-matrix", A(j.getMatrix()), g.getMatrix(), rtol=1e-12 + tol * amp, atol=1e-12, scale=float(np.max(np.abs(g.getMatrix()))), **d)


def shears(mon, rng):
    warnings.simplefilter("ignore")
    specs = [shear_args(rng) for _ in range(3)]
    mon.note(specs=specs)
    pool = []
    for p, d in specs:
        r = lockstep(mon, "construct", lambda: mk(jg, p, d), lambda: mk(galsim, p, d), p=p, d=d)
        if r:
            tol = 1e-13
            if p in ("e1e2", "e1", "e"):
                e = d.get("e", np.hypot(d.get("e1", 0), d.get("e2", 0)))
                tol = 1e-14 / np.sqrt(max(1e-12, 1 - e * e)) + 1e-13
            same_shear(mon, "construct:" + p, *r, tol=tol, d=d)
            pool.append([*r, tol])
    if not pool:
        return
    # agreement across parametrizations of the library itself
    j0, g0, _ = pool[0]
    if g0.g < 0.999:
        z = complex(A(j0.shear))
        b = j0.beta
        for kw in (dict(g1=j0.g1, g2=j0.g2), dict(e1=j0.e1, e2=j0.e2), dict(eta1=j0.eta1, eta2=j0.eta2), dict(g=j0.g, beta=b), dict(e=j0.e, beta=b), dict(eta=j0.eta, beta=b), dict(q=j0.q, beta=b)):
            s = jg.Shear(**kw)
            mon.close("parametrizations-agree", complex(A(s.shear)), z, rtol=1e-10, atol=1e-12, kw=list(kw))
        mon.close("q-is-axis-ratio", F(j0.q), (1 - F(j0.g)) / (1 + F(j0.g)), rtol=1e-12)
        mon.close("eta-is-2atanh-g", F(j0.eta), 2 * np.arctanh(F(j0.g)), rtol=1e-12, atol=1e-13)
    for step in range(5):
        i, k = int(rng.integers(len(pool))), int(rng.integers(len(pool)))
        (j1, g1, t1), (j2, g2, t2) = pool[i], pool[k]
        op = pick(rng, ["add", "add", "sub", "neg", "rot", "eq", "iadd"])
        if g1.g > 0.999 or g2.g > 0.999:
            continue
        amp = 1 / ((1 - g1.g) * (1 - g2.g))
        tol = (t1 + t2 + 1e-14) * amp * 4
        if tol > 1e-7:
            continue
        new = None
        if op == "add":
            new = j1 + j2, g1 + g2, tol
            same_shear(mon, "add", *new[:2], tol=tol)
            m = A((j1 + j2).getMatrix()) @ rot(F(j1.rotationWith(j2).rad))
            prod = A(j1.getMatrix()) @ A(j2.getMatrix())
            mon.close("polar-decomposition", m, prod, rtol=1e-10 + tol * 100 * amp, scale=float(np.max(np.abs(prod))))
        elif op == "iadd":
            a = j1
            a += j2
            same_shear(mon, "add", a, g1 + g2, tol=tol)
            mon.check("iadd-leaves-operand", j1 is pool[i][0] and complex(A(j1.shear)) == complex(A(pool[i][0].shear)))
        elif op == "sub":
            new = j1 - j2, g1 - g2, tol
            same_shear(mon, "sub", *new[:2], tol=tol)
            z = (j1 - j1).shear
            mon.close("difference-with-itself", abs(complex(A(z))), 0.0, atol=tol)
            mon.close("inverse-on-the-left-undoes", complex(A((-j1 + (j1 + j2)).shear)), complex(A(j2.shear)), rtol=0, atol=1e-11 + tol * 10 * amp)
        elif op == "neg":
            new = -j1, -g1, t1
            same_shear(mon, "neg", *new[:2], tol=t1)
            p = A((-j1).getMatrix()) @ A(j1.getMatrix())
            mon.close("negative-inverts", p, np.eye(2), atol=1e-10 / (1 - g1.g))
        elif op == "rot":
            mon.close("rotationWith", F(j1.rotationWith(j2).rad), g1.rotationWith(g2).rad, atol=tol * 10 + 1e-12)
        else:
            mon.check("eq-self", bool(j1 == j1) and not bool(j1 != j1) and bool(j1 == jg.Shear(g1=j1.g1, g2=j1.g2)))
            if i != k and complex(A(j1.shear)) != complex(A(j2.shear)):
                mon.check("eq-other", bool(j1 != j2) and not bool(j1 == j2))
            mon.check("eq-foreign", bool(j1 != 3))
        if new is not None and new[1].g < 0.999:
            pool.append(list(new))
    for (j, g, t) in pool:
        mon.close("pool-unchanged", [F(j.g1), F(j.g2)], [g.g1, g.g2], rtol=1e-11, atol=t * 2)


def rot(t):
    return np.array([[np.cos(t), -np.sin(t)], [np.sin(t), np.cos(t)]])


def refused(mon, rng):
    """Shears that do not exist are refused."""
    x = rnd(rng, 1.0001, 5)
    y = rnd(rng, -5, -0.001)
    m = rnd(rng, 0.01, 0.9)
    b = m
    cases = [
        ("g1", dict(g1=x)),
        ("g12", dict(g1=0.8, g2=0.7 + m)),
        ("g2", dict(g2=-x)),
        ("e1", dict(e1=x)),
        ("e12", dict(e1=-0.9, e2=0.6 + m)),
        ("g", dict(g=x, beta="b")),
        ("gneg", dict(g=y, beta="b")),
        ("e", dict(e=x, beta="b")),
        ("eneg", dict(e=y, beta="b")),
        ("etaneg", dict(eta=y, beta="b")),
        ("q", dict(q=x, beta="b")),
        ("q0", dict(q=0.0, beta="b")),
        ("qneg", dict(q=y, beta="b")),
        ("gnobeta", dict(g=m)),
        ("enobeta", dict(e=m)),
        ("etanobeta", dict(eta=m)),
        ("qnobeta", dict(q=m)),
        ("beta", dict(beta="b")),
        ("betafloat", dict(g=m, beta=b)),
        ("qbetafloat", dict(q=m, beta=b)),
        ("mixed", dict(g1=m, e2=0.1)),
        ("mixed2", dict(e1=m, g2=0.1)),
        ("mixed3", dict(g1=m, beta="b")),
        ("three", dict(g1=m, g2=0.1, beta="b")),
        ("unknown", dict(gamma1=m)),
    ]
    mon.note(x=x, y=y, m=m)
    for n, kw in cases:
        f = lambda mod: mod.Shear(**{k: (0.3 * mod.radians if v == "b" else v) for k, v in kw.items()})
        g = attempt(lambda: f(galsim))
        if isinstance(g, Raised):
            mon.raises("invalid-shear-refused", lambda: f(jg), case=n, kw=kw, mech="invalid-shear-refused:" + n)
        else:
            mon.check("galsim-accepts", not isinstance(attempt(lambda: f(jg)), Raised), case=n, mech="galsim-accepts:" + n)
    for bad in (3, 0.2, "a", [0.1, 0.2]):
        mon.raises("invalid-shear-refused", lambda: jg.Shear(bad), arg=bad, mech=f"invalid-positional:{bad}")
    mon.raises("invalid-shear-refused", lambda: jg.Shear(0.1j, 0.2j))


UNITS = ["radians", "degrees", "hours", "arcmin", "arcsec"]


def close_angle(mon, name, j, g, tol=1e-14, **d):
    mon.check(name + "-class", isinstance(j, jg.Angle), got=type(j).__name__)
    mon.close(name, F(j.rad), g.rad, rtol=tol, atol=1e-15, **d)


def angles(mon, rng):
    np.seterr(all="ignore")
    mag = pick(rng, [1e-6, 1, 10, 400, 1e5])
    v = float(rnd(rng, -mag, mag)) if rng.random() < 0.85 else pick(rng, [0.0, 90.0, 180.0, -180.0, 360.0, 45.0, 1e-300, 12.0, 24.0])
    u = pick(rng, UNITS)
    mon.note(v=v, u=u)
    ju, gu = getattr(jg, u), getattr(galsim, u)
    ctor = pick(rng, ["mul", "Angle", "name", "unit"])
    if ctor == "mul":
        j, g = v * ju, v * gu
    elif ctor == "Angle":
        j, g = jg.Angle(v, ju), galsim.Angle(v, gu)
    elif ctor == "name":
        n = {"radians": "rad", "degrees": "degree", "hours": pick(rng, ["hr", "hour"]), "arcmin": "arcmin", "arcsec": " ArcSec "}[u]
        j, g = v * jg.AngleUnit.from_name(n), v * galsim.AngleUnit.from_name(n)
    else:
        x = rnd(rng, 1e-3, 3)
        j, g = v * jg.AngleUnit(x), v * galsim.AngleUnit(x)
    close_angle(mon, "angle", j, g)
    for n in UNITS:
        a, b = getattr(jg, n), getattr(galsim, n)
        mon.close("unit-value", F(a.value), b.value, rtol=1e-15, unit=n)
        mon.close("in-unit", F(j / a), g / b, rtol=1e-14, unit=n)
        close_angle(mon, "unit-round-trip", F(j / a) * a, g, tol=4e-15)
        mon.close("unit-ratio", F(ju / a), gu / b, rtol=1e-14)
    mon.close("deg", F(j.deg), g.deg, rtol=1e-14)
    for k in ("sin", "cos", "tan"):
        w = getattr(g, k)()
        mon.close(k, F(getattr(j, k)()), w, rtol=1e-12, atol=2e-15 * max(1, w * w if k == "tan" else 1))
    s, c = j.sincos()
    mon.close("sincos", [F(s), F(c)], list(g.sincos()), rtol=1e-12, atol=2e-15)
    mon.close("sincos-norm", F(s) ** 2 + F(c) ** 2, 1.0, rtol=1e-14)
    # wrap
    cen = rnd(rng, -10, 10) if rng.random() < 0.6 else 0.0
    wj, wg = j.wrap(cen * jg.radians), g.wrap(cen * galsim.radians)
    r = F(wj.rad)
    eps = 4e-16 * max(10, abs(F(j.rad)), abs(cen)) * 4
    mon.check("wrap-range", cen - np.pi - eps <= r <= cen + np.pi + eps, r=r, cen=cen)
    mon.close("wrap-whole-turns", (F(j.rad) - r) / (2 * np.pi), round((F(j.rad) - r) / (2 * np.pi)), atol=1e-9)
    near = abs(abs(r - cen) - np.pi) < 1e-9
    if not near:
        mon.close("wrap", r, wg.rad, atol=eps, rtol=1e-14)
    d = F(j.wrap().rad)
    mon.check("wrap-default-range", -np.pi - eps <= d <= np.pi + eps)
    if abs(abs(d) - np.pi) > 1e-9:
        mon.close("wrap-default", d, g.wrap().rad, atol=eps)
    # arithmetic
    v2 = rnd(rng, -5, 5)
    k = pick(rng, [-1, 1]) * rnd(rng, 0.1, 9)
    j2, g2 = v2 * jg.hours, v2 * galsim.hours
    for n, f in {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * k, "rmul": lambda a, b: k * a, "div": lambda a, b: a / k, "neg": lambda a, b: -a, "abs": lambda a, b: abs(a), "pos": lambda a, b: +a}.items():
        x, y = f(j, j2), f(g, g2)
        mon.close("angle-" + n, F(x.rad), y.rad, rtol=1e-14, atol=1e-14 * max(abs(g.rad), abs(g2.rad), 1e-300))
    for n, f in {"lt": lambda a, b: a < b, "le": lambda a, b: a <= b, "gt": lambda a, b: a > b, "ge": lambda a, b: a >= b, "eq": lambda a, b: a == b, "ne": lambda a, b: a != b, "le-self": lambda a, b: a <= a, "eq-self": lambda a, b: a == a, "lt-self": lambda a, b: a < a}.items():
        mon.same("angle-" + n, bool(f(j, j2)), bool(f(g, g2)))
    mon.check("angle-copy", bool(jg.Angle(j) == j))
    mon.check("angle-hash", hash(jg.Angle(j)) == hash(j))
    for n, f in {
        "add-float": lambda a, m: a + 1.0,
        "sub-float": lambda a, m: a - 1.0,
        "mul-angle": lambda a, m: a * a,
        "div-angle": lambda a, m: a / a,
        "mul-unit": lambda a, m: a * m.degrees,
        "no-unit": lambda a, m: m.Angle(1.0),
        "bad-unit": lambda a, m: m.Angle(1.0, 3.0),
        "angle-unit": lambda a, m: m.Angle(a, m.degrees),
        "lt-float": lambda a, m: a < 1.0,
        "ge-float": lambda a, m: a >= 1.0,
        "str": lambda a, m: m.Angle("x", m.degrees),
        "unit-unit": lambda a, m: m.AngleUnit(m.degrees),
        "unit-name": lambda a, m: m.AngleUnit.from_name("gradians"),
        "unit-div": lambda a, m: m.degrees / 3.0,
        "bad-dms": lambda a, m: m.Angle.from_dms("hello"),
        "short-dms": lambda a, m: m.Angle.from_dms("10"),
        "long-dms": lambda a, m: m.Angle.from_dms("1:2:3:4:5"),
        "prec": lambda a, m: a.dms(prec=-1),
        "sep": lambda a, m: a.hms(sep="abcd"),
    }.items():
        lockstep(mon, "refused:" + n, lambda: f(j, jg), lambda: f(g, galsim), kinds=n != "str")


def strings(mon, rng):
    """Sexagesimal strings."""
    v = rnd(rng, -400, 400, nd=int(rng.integers(3, 14)))
    if rng.random() < 0.25:  # the roundings that carry
        v = pick(rng, [-1, 1]) * (int(rng.integers(0, 30)) + int(rng.integers(0, 60)) / 60 + pick(rng, [59.999999999, 59.9999, 59.5, 0.0, 30.0, 59.99999]) / 3600)
    if rng.random() < 0.1:
        v = rnd(rng, -0.01, 0.01)
    sep = pick(rng, [":", " ", "", "hms", "dms", ("d ", "m ", "s"), ":-", "::"])
    prec = pick(rng, [None, 0, 1, 2, 3, 4, 6, 8, 10])
    pad, plus = bool(rng.random() < 0.5), bool(rng.random() < 0.5)
    mon.note(v=v, sep=sep, prec=prec, pad=pad, plus=plus)
    for u, fmt, parse in (("degrees", "dms", "from_dms"), ("hours", "hms", "from_hms")):
        j, g = v * getattr(jg, u), v * getattr(galsim, u)
        sj, sg = (getattr(a, fmt)(sep=sep, prec=prec, pad=pad, plus_sign=plus) for a in (j, g))
        mon.check("string", sj == sg, got=sj, want=sg, fmt=fmt)
        mon.check("string-type", isinstance(sj, str))
        if sep in (":", " ", "hms", "dms") or isinstance(sep, tuple):
            back, wb = getattr(jg.Angle, parse)(sj), getattr(galsim.Angle, parse)(sg)
            mon.close("parse", F(back.rad), wb.rad, rtol=1e-14, atol=1e-17, s=sj)
            un = getattr(jg, u)
            mon.close("format-then-parse", F(back / un) * 3600, v * 3600, rtol=1e-13, atol=0.5001 * 10.0 ** -(8 if prec is None else prec) + 2e-9, s=sj)
    # free-form strings
    d, m, s = int(rng.integers(0, 360)), int(rng.integers(0, 60)), rnd(rng, 0, 59.99)
    sg = pick(rng, ["", "-", "+", " -", "- "])
    form = pick(rng, ["{0}{1}:{2}:{3}", "{0}{1} {2} {3}", "{0}{1}d{2}m{3}s", "{0}{1}:{2}", "{0}{1}.5d", "{0}{1}h {2}m {3}s", "{0}{1:02d}:{2:02d}:{3:.4f}"])
    t = form.format(sg, d, m, s)
    r = lockstep(mon, "parse-free", lambda: jg.Angle.from_dms(t), lambda: galsim.Angle.from_dms(t), t=t)
    if r:
        mon.close("parse-free", F(r[0].rad), r[1].rad, rtol=1e-14, t=t)
    r = lockstep(mon, "parse-free-h", lambda: jg.Angle.from_hms(t), lambda: galsim.Angle.from_hms(t), t=t)
    if r:
        mon.close("parse-free-h", F(r[0].rad), r[1].rad, rtol=1e-14, t=t)


GROUPS = {
    "shears": dict(fn=shears, quick=400, thorough=8000, cost=0.06, warm=4, must=["polar-decomposition", "add", "sub", "parametrizations-agree"]),
    "refused": dict(fn=refused, quick=40, thorough=500, cost=0.1, warm=4, must=["invalid-shear-refused"]),
    "angles": dict(fn=angles, quick=300, thorough=6000, cost=0.05, warm=4, must=["wrap", "unit-round-trip"]),
    "strings": dict(fn=strings, quick=400, thorough=8000, cost=0.01, warm=3, must=["string", "format-then-parse"]),
}
