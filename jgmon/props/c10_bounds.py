"""C10: bounds and positions, run in lockstep with GalSim through random programs, plus the algebraic laws."""

from jgmon.common import *  # noqa: F401,F403

RULE = "A case is one random program (or one instance of a law) over bounds and positions."
ASSUMPTIONS = [
    "GalSim 2.8.5 is the reference for values, kinds and refusals",
    "shift/withBorder/expand of the empty default BoundsI() are outside the property: GalSim turns it into a pixel at the origin",
    "BoundsD of JAX arrays are documented not to test whether they are valid, so their definedness after turning inside out is not judged",
    "BoundsD hold (xmin, width): edges are compared exactly only for values whose sums are exact in binary",
]


def as_kind(rng, v, form):
    if form == "np":
        return np.int64(v) if isinstance(v, int) else np.float64(v)
    if form == "jnp":
        return jnp.asarray(v)
    return v


def num(rng, kind, exact=True):
    if kind == "I":
        return int(rng.integers(-40, 41)) if rng.random() < 0.8 else int(rng.integers(-100000, 100001))
    if exact:
        v = float(rng.integers(-320, 321)) / 8
        return v if rng.random() < 0.8 else v * 256
    return rnd(rng, -50, 50)


def same_pos(mon, name, j, g, **d):
    mon.check(name + ":kind", type(j).__name__ == type(g).__name__, got=type(j).__name__, want=type(g).__name__, **d)
    mon.close(name, pos(j), [g.x, g.y], rtol=1e-13, atol=1e-10, **d)
    if type(g).__name__ == "PositionI":
        mon.check(name + ":integer", np.asarray(j.x).dtype.kind in "iu" and np.asarray(j.y).dtype.kind in "iu", got=[repr(j.x), repr(j.y)], **d)


def same_bounds(mon, name, j, g, exact=True, **d):
    mon.check(name + ":kind", type(j).__name__ == type(g).__name__, got=type(j).__name__, want=type(g).__name__, **d)
    if not mon.check(name + ":defined", bool(j.isDefined()) == g.isDefined(), got=bool(j.isDefined()), want=g.isDefined(), bounds=repr(g), **d):
        return
    if type(g).__name__ == "BoundsI":
        mon.close(name + ":shape", list(j.numpyShape()), list(g.numpyShape()), **d)
        mon.close(name + ":area", F(j.area()), g.area(), **d)
    if g.isDefined():
        t = 0 if exact else 1e-12
        mon.close(name, [F(j.xmin), F(j.xmax), F(j.ymin), F(j.ymax)], [g.xmin, g.xmax, g.ymin, g.ymax], rtol=t, atol=t, **d)
        mon.close(name + ":get", [F(j.getXMin()), F(j.getXMax()), F(j.getYMin()), F(j.getYMax())], [g.xmin, g.xmax, g.ymin, g.ymax], rtol=t, atol=t, **d)
        mon.close(name + ":area", F(j.area()), g.area(), rtol=1e-12, atol=1e-9, **d)
        same_pos(mon, name + ":origin", j.origin, g.origin, **d)
        same_pos(mon, name + ":center", j.center, g.center, **d)
        same_pos(mon, name + ":true_center", j.true_center, g.true_center, **d)
    else:
        mon.raises(name + ":center-of-undefined", lambda: j.center, exc=galsim.GalSimUndefinedBoundsError, **d)
        mon.raises(name + ":true-center-of-undefined", lambda: j.true_center, exc=galsim.GalSimUndefinedBoundsError, **d)
        mon.check(name + ":undefined-includes-nothing", not bool(j.includes(0, 0)) and not bool(j.includes(j)), **d)


def new_bounds(rng, kind, exact=True):
    """A constructor call as (label, function of the module); all argument forms, sometimes inverted or degenerate."""
    cls = "Bounds" + kind
    P = "Position" + kind
    r = rng.random()
    form = pick(rng, ["py", "py", "np", "jnp"])
    a, b = num(rng, kind, exact), num(rng, kind, exact)
    w, h = (int(rng.integers(0, 30)), int(rng.integers(0, 30))) if kind == "I" else (float(rng.integers(0, 200)) / 8, float(rng.integers(0, 200)) / 8)
    if r < 0.08:
        return cls + "()", lambda m: getattr(m, cls)()
    if r < 0.16:
        f2 = form if kind == "I" else "py"
        return f"{cls}(pos {a},{b})", lambda m: getattr(m, cls)(getattr(m, P)(as_kind(rng, a, f2 if m is jg else "py"), as_kind(rng, b, f2 if m is jg else "py")))
    if r < 0.3:
        c, d = a + w * pick(rng, [-1, 1]), b + h * pick(rng, [-1, 1])
        return f"{cls}(pos {a},{b}; pos {c},{d})", lambda m: getattr(m, cls)(getattr(m, P)(a, b), getattr(m, P)(c, d))
    inv = rng.random()
    x2 = a - 1 - w if inv < 0.08 else a + w
    y2 = b - 1 - h if inv > 0.94 else b + h
    form = form if (kind == "I" or inv > 0.08 and inv < 0.94) else "py"
    conv = lambda m, v: as_kind(rng, v, form if m is jg else "py")
    if r < 0.65:
        return f"{cls}({a},{x2},{b},{y2}) {form}", lambda m: getattr(m, cls)(conv(m, a), conv(m, x2), conv(m, b), conv(m, y2))
    return f"{cls}(kw {a},{x2},{b},{y2}) {form}", lambda m: getattr(m, cls)(xmin=conv(m, a), xmax=conv(m, x2), ymin=conv(m, b), ymax=conv(m, y2))


def program(exact):
    def case(mon, rng):
        kind = pick(rng, ["I", "I", "D"])
        bs, ps, log = [], [], []
        for _ in range(3):
            lab, f = new_bounds(rng, kind, exact)
            log.append(lab)
            r = lockstep(mon, "construct", lambda: f(jg), lambda: f(galsim), what=lab)
            if r:
                same_bounds(mon, "construct", *r, exact=exact, what=lab)
                bs.append((r[0], r[1], lab.endswith("BoundsI()")))
        for _ in range(2):
            x, y = num(rng, kind, exact), num(rng, kind, exact)
            ps.append((getattr(jg, "Position" + kind)(x, y), getattr(galsim, "Position" + kind)(x, y)))
        for step in range(6):
            if not bs:
                break
            j, g, empty = bs[int(rng.integers(len(bs)))]
            j2, g2, empty2 = bs[int(rng.integers(len(bs)))]
            pj, pg = ps[int(rng.integers(len(ps)))]
            op = pick(rng, ["and", "add", "addpos", "posadd", "shift", "border", "border2", "expand", "expand2", "includes_b", "includes_p", "includes_xy", "copy", "eq", "corner"])
            log.append(op)
            mech = None
            out_empty = False
            if op in ("shift", "border", "border2", "expand", "expand2") and empty:
                continue
            if op == "and":
                f = lambda a, b, p, m: a & b
                out_empty = kind == "I"
            elif op == "add":
                f = lambda a, b, p, m: a + b
                out_empty = empty and empty2
            elif op == "addpos":
                f = lambda a, b, p, m: a + p
            elif op == "posadd":
                f = lambda a, b, p, m: p + a
            elif op == "shift":
                f = lambda a, b, p, m: a.shift(p)
            elif op == "border":
                k = num(rng, kind) if rng.random() < 0.3 else (int(rng.integers(-3, 9)) if kind == "I" else float(rng.integers(-20, 60)) / 8)
                if rng.random() < 0.1 and kind == "I":
                    k = k + 0.5
                if rng.random() < 0.1 and kind == "I":
                    k = float(k)
                log[-1] += f" {k}"
                f = lambda a, b, p, m: a.withBorder(k)
            elif op == "border2":
                k1, k2 = int(rng.integers(-3, 9)), int(rng.integers(-3, 9))
                log[-1] += f" {k1} {k2}"
                f = lambda a, b, p, m: a.withBorder(k1, k2)
            elif op == "expand":
                k = float(rng.integers(2, 25)) / 8
                log[-1] += f" {k}"
                f = lambda a, b, p, m: a.expand(k)
            elif op == "expand2":
                k1, k2 = float(rng.integers(2, 25)) / 8, float(rng.integers(2, 25)) / 8
                log[-1] += f" {k1} {k2}"
                f = lambda a, b, p, m: a.expand(k1, k2)
            elif op == "copy":
                other = pick(rng, [kind, kind, "I" if kind == "D" else "D"])
                if empty and other != "I":
                    continue
                f = lambda a, b, p, m: getattr(m, "Bounds" + other)(a)
                if other != kind:
                    r = lockstep(mon, "convert", lambda: f(j, j2, pj, jg), lambda: f(g, g2, pg, galsim), log=log, of=repr(g))
                    if r and not empty and (g.isDefined()):
                        same_bounds(mon, "convert", *r, exact=exact, log=log)
                    continue
                if empty:
                    continue
            elif op.startswith("includes") or op in ("eq", "corner"):
                if op == "includes_b":
                    f = lambda a, b, p, m: a.includes(b)
                elif op == "includes_p":
                    f = lambda a, b, p, m: a.includes(p)
                elif op == "includes_xy":
                    x, y = num(rng, kind), num(rng, kind)
                    f = lambda a, b, p, m: a.includes(x, y)
                elif op == "corner":
                    if not g.isDefined():
                        continue
                    e = pick(rng, [-1, 0, 1]) * (1 if kind == "I" else 0.125)
                    cx, cy = pick(rng, [g.xmin - e, g.xmax + e]), pick(rng, [g.ymin - e, g.ymax + e, g.center.y])
                    if kind == "I":
                        cx, cy = int(cx), int(cy)
                    log[-1] += f" {cx} {cy}"
                    f = lambda a, b, p, m: a.includes(getattr(m, "Position" + kind)(cx, cy))
                else:
                    f = lambda a, b, p, m: [a == b, a != b, a == p]
                    if not exact:
                        continue
                if not exact and op != "includes_xy" and (j is j2 or op == "corner" or op == "includes_b"):
                    continue
                if not exact and op == "includes_p" and min(abs(pg.x - g.xmin), abs(pg.x - g.xmax), abs(pg.y - g.ymin), abs(pg.y - g.ymax)) < 1e-9:
                    continue
                r = lockstep(mon, op, lambda: f(j, j2, pj, jg), lambda: f(g, g2, pg, galsim), log=log)
                if r:
                    mon.same(op, [bool(x) for x in np.ravel(r[0])], [bool(x) for x in np.ravel(r[1])], log=log, a=repr(g), b=repr(g2), p=repr(pg))
                continue
            r = lockstep(mon, op, lambda: f(j, j2, pj, jg), lambda: f(g, g2, pg, galsim), log=log, a=repr(g), b=repr(g2), p=repr(pg))
            if r is None:
                continue
            if kind == "D" and not r[1].isDefined() and isinstance(r[0].deltax, jax.Array):
                mon.event("array-valued BoundsD whose validity is documented as unchecked")
                continue
            if not exact and min(abs(r[1].xmax - r[1].xmin), abs(r[1].ymax - r[1].ymin), abs(F(r[0].xmax) - F(r[0].xmin)), abs(F(r[0].ymax) - F(r[0].ymin))) < 1e-9:
                continue  # definedness is decided by rounding
            same_bounds(mon, op, *r, exact=exact, log=log, a=repr(g), b=repr(g2), p=repr(pg))
            # conversions keep values
            cj = r[0].to_galsim()
            mon.check("to-galsim", (not exact) or cj == r[1] or (not cj.isDefined() and not r[1].isDefined()), got=repr(cj), want=repr(r[1]))
            same_bounds(mon, "from-galsim", type(r[0]).from_galsim(r[1]), r[1], exact=exact, log=log)
            empty_now = bool(r[1].xmin == r[1].xmax == r[1].ymin == r[1].ymax == 0) and not r[1].isDefined() and kind == "I"
            bs.append((r[0], r[1], empty_now))
            mon.event("op:" + op.split()[0])
        mon.note(kind=kind, log=log)
    return case


def bounds_laws(mon, rng):
    kind = pick(rng, ["I", "D"])
    B, P = getattr(jg, "Bounds" + kind), getattr(jg, "Position" + kind)
    form = pick(rng, ["py", "np", "jnp"])

    def mk():
        a, b = num(rng, kind), num(rng, kind)
        w, h = (int(rng.integers(0, 40)), int(rng.integers(0, 40))) if kind == "I" else (float(rng.integers(0, 300)) / 8, float(rng.integers(0, 300)) / 8)
        a, b = a % 30, b % 30
        return B(*[as_kind(rng, v, form) for v in (a, a + w, b, b + h)])

    a, b, c = mk(), mk(), mk()
    p = P(num(rng, kind), num(rng, kind))
    mon.note(kind=kind, form=form, a=repr(a), b=repr(b), c=repr(c), p=repr(p))
    eq = lambda n, x, y: mon.check(n, bool(x == y) and bool(y == x) and not bool(x != y), x=repr(x), y=repr(y))
    eq("union-commutes", a + b, b + a)
    eq("intersection-commutes", a & b, b & a)
    eq("union-associates", (a + b) + c, a + (b + c))
    eq("intersection-associates", (a & b) & c, a & (b & c))
    eq("union-idempotent", a + a, a)
    eq("intersection-idempotent", a & a, a)
    eq("absorption", a & (a + b), a)
    eq("union-with-empty", a + B(), a)
    mon.check("intersection-with-empty", not bool((a & B()).isDefined()))
    mon.check("union-includes", bool((a + b).includes(a)) and bool((a + b).includes(b)))
    i = a & b
    if bool(i.isDefined()):
        mon.check("intersection-included", bool(a.includes(i)) and bool(b.includes(i)))
    mon.check("add-position-includes", bool((a + p).includes(p)) and bool((a + p).includes(a)))
    eq("shift-undone", a.shift(p).shift(-p), a)
    mon.close("shift-keeps-area", F(a.shift(p).area()), F(a.area()), rtol=1e-14)
    k = int(rng.integers(0, 6))
    eq("border-undone", a.withBorder(k).withBorder(-k), a)
    mon.check("hash-agrees", hash(a) == hash(B(a)) and hash(a + B()) == hash(a))
    for q in (a.origin, a.center):
        mon.check("includes-own-points", bool(a.includes(q)))
    if kind == "I":
        n = int(np.prod(a.numpyShape()))
        mon.same("shape-is-area", n, int(a.area()))
        mon.close("deltas", [int(a.deltax), int(a.deltay)], [int(a.xmax) - int(a.xmin) + 1, int(a.ymax) - int(a.ymin) + 1])
        # count pixels of the overlap directly
        xs = [x for x in range(int(a.xmin), int(a.xmax) + 1) if int(b.xmin) <= x <= int(b.xmax)]
        ys = [y for y in range(int(a.ymin), int(a.ymax) + 1) if int(b.ymin) <= y <= int(b.ymax)]
        mon.same("overlap-pixel-count", int(i.area()), len(xs) * len(ys))
        d = B(xmin=a.xmin, deltax=a.deltax, ymin=a.ymin, deltay=a.deltay)
        eq("width-form", d, a)
        for bad in (0.5, 1.25):
            mon.raises("non-integer-refused", lambda: B(1, 5 + bad, 1, 5))
            mon.raises("non-integer-refused", lambda: B(1 + bad, 5, 1, 5))


def positions(mon, rng):
    kinds = [pick(rng, ["I", "D"]) for _ in range(3)]
    forms = [pick(rng, ["args", "tuple", "kw", "copy"]) for _ in range(3)]
    vals = [(num(rng, k, False), num(rng, k, False)) for k in kinds]

    def mk(m, k, f, v):
        c = getattr(m, "Position" + k)
        return c(*v) if f == "args" else c(v) if f == "tuple" else c(x=v[0], y=v[1]) if f == "kw" else c(c(*v))

    js = [mk(jg, k, f, v) for k, f, v in zip(kinds, forms, vals)]
    gs = [mk(galsim, k, f, v) for k, f, v in zip(kinds, forms, vals)]
    mon.note(kinds=kinds, forms=forms, vals=vals)
    for j, g in zip(js, gs):
        same_pos(mon, "position", j, g)
    s = pick(rng, [2, -3, 0.5, 2.0, 1.75, np.int64(3), np.float64(-0.25), 0, -1, "x", None])
    mon.note(scalar=repr(s))
    sh = shear_kw(rng)
    for name, f in {
        "add": lambda p, m: p[0] + p[1],
        "sub": lambda p, m: p[0] - p[1],
        "neg": lambda p, m: -p[0],
        "mul": lambda p, m: p[0] * s,
        "rmul": lambda p, m: s * p[0],
        "div": lambda p, m: p[0] / s,
        "chain": lambda p, m: (p[0] + p[1] - p[2]) * 2,
        "shear": lambda p, m: p[0].shear(m.Shear(**{k: fix(m, v) for k, v in sh.items()})),
        "to-I": lambda p, m: m.PositionI(p[0]),
        "to-D": lambda p, m: m.PositionD(p[0]),
        "add-number": lambda p, m: p[0] + 3,
        "sub-number": lambda p, m: p[0] - 3,
        "round": lambda p, m: p[0].round(),
    }.items():
        if name in ("div",) and isinstance(s, (int, float, np.number)) and s == 0:
            continue
        r = lockstep(mon, "position-" + name, lambda: f(js, jg), lambda: f(gs, galsim), p=[repr(g) for g in gs], s=repr(s))
        if r:
            same_pos(mon, "position-" + name, *r, p=[repr(g) for g in gs], s=repr(s))
    mon.same("position-eq", [bool(js[0] == js[1]), bool(js[0] != js[1]), bool(js[0] == mk(jg, kinds[0], "args", vals[0]))], [gs[0] == gs[1], gs[0] != gs[1], True])
    mon.check("position-hash", hash(js[0]) == hash(mk(jg, kinds[0], "tuple", vals[0])))
    g = js[0].to_galsim()
    mon.check("position-to-galsim", g == gs[0], got=repr(g), want=repr(gs[0]))
    same_pos(mon, "position-from-galsim", type(js[0]).from_galsim(gs[0]), gs[0])
    # vector space laws
    d = [jg.PositionD(*v) for v in vals]
    a, b = rnd(rng, -3, 3), rnd(rng, -3, 3)
    mon.close("distributes", pos((d[0] + d[1]) * a), pos(d[0] * a + d[1] * a), rtol=1e-12, atol=1e-10)
    mon.close("scalar-distributes", pos(d[0] * (a + b)), pos(d[0] * a + d[0] * b), rtol=1e-12, atol=1e-10)
    mon.close("sub-is-add-neg", pos(d[0] - d[1]), pos(d[0] + (-d[1])))
    mon.close("add-commutes", pos(d[0] + d[1]), pos(d[1] + d[0]))
    mon.close("div-undoes-mul", pos(d[0] * a / a) if a else 0, pos(d[0]) if a else 0, rtol=1e-13)


GROUPS = {
    "program": dict(fn=program(True), quick=500, thorough=12000, cost=0.06, warm=3, must=["construct", "and", "add", "includes_b", "expand", "to-galsim"]),
    "program_float": dict(fn=program(False), quick=150, thorough=4000, cost=0.06, warm=3),
    "laws": dict(fn=bounds_laws, quick=300, thorough=6000, cost=0.06, warm=3, must=["absorption", "overlap-pixel-count"]),
    "positions": dict(fn=positions, quick=300, thorough=6000, cost=0.06, warm=3, must=["position-add"]),
}
