"""C02: trees of transformations, sums, convolutions and deconvolutions, against GalSim and against the algebra itself."""

from jgmon.common import *  # noqa: F401,F403

RULE = "A case is one expression tree over profile constructors and operations, with evaluation points in real and Fourier space."
ASSUMPTIONS = ["GalSim 2.8.5 is the reference for composed values", "leaf profiles are judged by C01; here leaf errors only set the tolerance"]

EXACT = ("Gaussian", "Exponential", "Box")


def tol_of(s):
    """(x relative, k relative, attribute relative) from the leaves."""
    names = {l["t"] for l in leaves_of(s)}
    tx, tk, ta = 1e-9, 1e-9, 1e-9
    if names & {"Exponential"}:
        ta = 1e-6
    if names & {"Spergel"}:
        tx, tk, ta = 2e-6, 2e-6, 2e-3
    if names & {"Moffat"}:
        tx, tk, ta = max(tx, 1e-8), 1e-4, 2e-3
    return tx, tk, ta


def kscale(g):
    return absflux(g) + abs(F(g.flux))


def compare(mon, rng, s, j, g, nk=8, nx=8, attrs=True):
    tx, tk, ta = tol_of(s)
    ks = kscale(g)
    dec = has(s, "Deconvolve")
    maxk = g.maxk
    for i in range(nk):
        u = [0.0, 0.02, 0.1, 0.2, 0.4, 0.7, 1.0, 1.6][i % 8] * rng.uniform(0.7, 1.3)
        if has(s, "Moffat"):
            u = min(u, 0.9)
        th = rng.uniform(0, 2 * np.pi)
        kx, ky = u * maxk * np.cos(th), u * maxk * np.sin(th)
        want = g.kValue(kx, ky)
        a = tk * ks
        if dec:
            a = tk * max(ks, abs(want)) * 10
        mon.close("fourier-value", j.kValue(kx, ky), want, rtol=tk, atol=a, at=[kx, ky])
    if not has(s, ("Convolve", "Deconvolve")):
        c = g.centroid
        cx, cy = (c.x, c.y) if np.isfinite(c.x + c.y) and abs(c.x) + abs(c.y) < 50 else (0.0, 0.0)
        pts = [(cx + rng.normal() * w, cy + rng.normal() * w) for w in np.resize([0.3, 1.0, 2.0, 4.0], nx)]
        want = np.array([g.xValue(*p) for p in pts])
        got = np.array([F(j.xValue(*p)) for p in pts])
        mon.close("real-space-value", got, want, rtol=tx * 10, atol=tx * np.max(np.abs(want)) if np.all(np.isfinite(want)) else 0)
        p = pts[0]
        mon.close("real-space-value-by-position", j.xValue(jg.PositionD(*p)), want[0], rtol=tx * 10, atol=tx * np.max(np.abs(want)))
    if not attrs:
        return
    mon.close("flux", j.flux, g.flux, rtol=1e-6 if tk > 1e-8 else 1e-11, atol=1e-11 * ks)
    if abs(g.flux) > 1e-3 * ks:
        c = g.centroid
        mon.close("centroid", pos(j.centroid), pos(c), rtol=1e-6 if tk > 1e-8 else 1e-9, atol=1e-9 * (1 + abs(c.x) + abs(c.y)))
    mon.close("maxk", j.maxk, g.maxk, rtol=ta)
    mon.close("stepk", j.stepk, g.stepk, rtol=ta)
    mon.close("positive-flux", j.positive_flux, g.positive_flux, rtol=1e-6, atol=1e-9 * ks)
    mon.close("negative-flux", j.negative_flux, g.negative_flux, rtol=1e-6, atol=1e-9 * ks)
    if not has(s, "DeltaFunction") and np.isfinite(g.max_sb):
        mon.close("max-sb", j.max_sb, g.max_sb, rtol=1e-5)
    for a in ("has_hard_edges", "is_axisymmetric", "is_analytic_k"):
        mon.same("flag:" + a, bool(getattr(j, a)), bool(getattr(g, a)))


def reps(g, s):
    """Drop trees whose reference has a non-finite or absurd extent (nothing to compare)."""
    if not (np.isfinite(g.maxk) and 1e-3 < g.maxk < 1e6):
        raise Abort("extent")


def tree(depth, convolve, smooth=True):
    def case(mon, rng):
        leaves = ("Gaussian", "Exponential", "Box") if smooth else ("Gaussian", "Exponential", "Moffat", "Spergel", "Box")
        gs = dict(pick(rng, GS_PRESETS)) if rng.random() < 0.25 else None
        s = tree_spec(rng, depth, leaves, convolve, gs)
        mon.note(spec=s)
        g = build_quiet(galsim, s)
        reps(g, s)
        j = build_quiet(jg, s)
        mon.event("nodes", count_nodes(s))
        compare(mon, rng, s, j, g)
    return case


def count_nodes(s):
    return 1 + sum(count_nodes(c) for c in s.get("a", []))


def build_quiet(mod, s):
    import warnings

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            return build(mod, s)
        except NotImplementedError as e:
            if mod is jg and "Real-space" in str(e):
                raise Abort("real-space convolution is documented as unsupported")
            raise


def force_fft(s):
    return s


def chain(mon, rng):
    """A chain of linear operations: matrix, offset and flux ratio are the composed ones, whatever the order."""
    leaf = LEAVES[pick(rng, EXACT)](rng)
    n = int(rng.integers(1, 6))
    ops = [op_spec(rng, None) for _ in range(n)]
    s = leaf
    for o in ops:
        s = {**o, "a": [s]}
    mon.note(spec=s)
    j, g = build(jg, s), build(galsim, s)
    if isinstance(g, galsim.Transformation) != isinstance(j, jg.Transformation) or not isinstance(g, galsim.Transformation):
        compare(mon, rng, s, j, g, nk=4, nx=4)  # flux-only changes need not be wrapped
        return
    for a in ("jac", "offset", "flux_ratio"):
        if a == "offset":
            mon.close("chain-offset", pos(j.offset), pos(g.offset), rtol=1e-10, atol=1e-10)
        else:
            mon.close("chain-" + a, getattr(j, a), getattr(g, a), rtol=1e-10, atol=1e-12)
    mon.check("chain-original-is-leaf", type(j.original).__name__ == type(g.original).__name__ == type(build(galsim, leaf)).__name__)
    mon.same("flag:is_analytic_x", bool(j.is_analytic_x), bool(g.is_analytic_x))
    # defining equation, without the reference: f'(x) = amp * f(A^-1 (x - d)), F'(k) = |det| amp exp(-i k.d) F(A^T k)
    base = j.original
    Am, d, amp = A(j.jac), pos(j.offset), F(j.flux_ratio)
    for _ in range(4):
        x = d + Am @ rng.normal(size=2)
        y = np.linalg.solve(Am, x - d)
        mon.close("defining-equation-real", j.xValue(*x), amp * F(base.xValue(*y)), rtol=1e-8, atol=1e-12 * abs(F(j.flux)))
        k = rng.normal(size=2) * 2
        q = Am.T @ k
        want = amp * abs(np.linalg.det(Am)) * np.exp(-1j * k @ d) * complex(A(base.kValue(*q)))
        mon.close("defining-equation-fourier", j.kValue(*k), want, rtol=1e-8, atol=1e-10 * abs(F(j.flux)))
    mon.close("chain-flux", j.flux, amp * abs(np.linalg.det(Am)) * F(base.flux), rtol=1e-10)
    compare(mon, rng, s, j, g, nk=4, nx=4)


def pts_of(rng, n=4, w=1.5):
    return [tuple(rng.normal(size=2) * w) for _ in range(n)]


def same_profile(mon, name, a, b, rng, rtol=1e-8, x=True, w=1.5):
    if x:
        p = pts_of(rng, 4, w)
        va, vb = np.array([F(a.xValue(*q)) for q in p]), np.array([F(b.xValue(*q)) for q in p])
        mon.close(name + "-real", va, vb, rtol=rtol, atol=rtol * np.max(np.abs(vb)))
    p = pts_of(rng, 4, 1.5)
    va, vb = np.array([complex(A(a.kValue(*q))) for q in p]), np.array([complex(A(b.kValue(*q))) for q in p])
    mon.close(name + "-fourier", va, vb, rtol=rtol, atol=rtol * max(np.max(np.abs(vb)), abs(F(b.flux))))


def laws(mon, rng):
    """Group laws, linearity, convolution product."""
    s = tree_spec(rng, int(rng.integers(0, 2)), ("Gaussian", "Exponential", "Spergel"), convolve=False)
    o = build(jg, s)
    law = pick(rng, ["inverse", "rotate-add", "matrix-product", "shift-add", "dilate-flux", "magnify", "lens", "sum-commutes", "sum-scalar", "convolve-product", "convolve-assoc", "deconvolve", "minus", "divide", "withflux", "convolve-shift", "convolve-linear"])
    mon.note(spec=s, law=law)
    mon.event("law:" + law)
    f = F(o.flux)
    if law == "inverse":
        j = jac_kw(rng)
        m = np.linalg.inv(np.array([[j["dudx"], j["dudy"]], [j["dvdx"], j["dvdy"]]]))
        b = o.transform(**j).transform(m[0, 0], m[0, 1], m[1, 0], m[1, 1]) * abs(1.0)
        same_profile(mon, "inverse-undoes", b, o, rng)
        e = rnd(rng, 0.3, 3, log=True)
        same_profile(mon, "expand-undone", o.expand(e).expand(1 / e), o, rng)
        sh = jg.Shear(**{k: fix(jg, v) for k, v in shear_kw(rng).items()})
        same_profile(mon, "shear-undone", o.shear(sh).shear(-sh), o, rng)
        dx, dy = rng.normal(size=2)
        same_profile(mon, "shift-undone", o.shift(dx, dy).shift(-dx, -dy), o, rng)
    elif law == "rotate-add":
        a, b = rng.uniform(-3, 3, 2)
        same_profile(mon, "rotations-add", o.rotate(a * jg.radians).rotate(b * jg.radians), o.rotate((a + b) * jg.radians), rng)
        mon.close("rotation-keeps-flux", o.rotate(a * jg.radians).flux, f, rtol=1e-12)
        c = pos(o.centroid)
        R = np.array([[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]])
        mon.close("centroid-rotates", pos(o.rotate(a * jg.radians).centroid), R @ c, rtol=1e-9, atol=1e-10)
    elif law == "matrix-product":
        a, b = jac_kw(rng), jac_kw(rng)
        ma, mb = (np.array([[q["dudx"], q["dudy"]], [q["dvdx"], q["dvdy"]]]) for q in (a, b))
        m = mb @ ma
        x = o.transform(**a).transform(**b)
        same_profile(mon, "linear-maps-compose", x, o.transform(m[0, 0], m[0, 1], m[1, 0], m[1, 1]), rng)
        mon.close("flux-scales-by-determinant", x.flux, f * abs(np.linalg.det(m)), rtol=1e-10)
        mon.close("centroid-maps", pos(x.centroid), m @ pos(o.centroid), rtol=1e-9, atol=1e-10)
    elif law == "shift-add":
        d, e = rng.normal(size=2), rng.normal(size=2)
        x = o.shift(*d).shift(jg.PositionD(*e))
        same_profile(mon, "shifts-add", x, o.shift(*(d + e)), rng)
        same_profile(mon, "shift-forms", o.shift((d[0], d[1])), o.shift(dx=d[0], dy=d[1]), rng)
        mon.close("centroid-shifts", pos(x.centroid), pos(o.centroid) + d + e, rtol=1e-9, atol=1e-9)
        mon.close("shift-keeps-flux", x.flux, f, rtol=1e-12)
    elif law == "dilate-flux":
        e = rnd(rng, 0.3, 3, log=True)
        mon.close("dilate-keeps-flux", o.dilate(e).flux, f, rtol=1e-12)
        mon.close("expand-scales-flux", o.expand(e).flux, f * e * e, rtol=1e-12)
        same_profile(mon, "dilate-is-expand", o.dilate(e), o.expand(e) / e**2, rng)
        mon.close("expand-keeps-sb", o.expand(e).xValue(0.3 * e, -0.2 * e), o.xValue(0.3, -0.2), rtol=1e-8)
    elif law == "magnify":
        mu = rnd(rng, 0.3, 3, log=True)
        same_profile(mon, "magnify-is-expand", o.magnify(mu), o.expand(np.sqrt(mu)), rng)
        mon.close("magnify-scales-flux", o.magnify(mu).flux, f * mu, rtol=1e-12)
    elif law == "lens":
        g1, g2, mu = rnd(rng, -0.4, 0.4), rnd(rng, -0.4, 0.4), rnd(rng, 0.5, 2)
        same_profile(mon, "lens-is-shear-magnify", o.lens(g1, g2, mu), o.shear(g1=g1, g2=g2).magnify(mu), rng)
        mon.close("shear-keeps-flux", o.shear(g1=g1, g2=g2).flux, f, rtol=1e-10)
        m = A(jg.Shear(g1=g1, g2=g2).getMatrix()) * np.sqrt(mu)
        same_profile(mon, "lens-is-matrix", o.lens(g1, g2, mu), o.transform(*m.ravel()), rng)
        mon.close("lens-flux", o.lens(g1, g2, mu).flux, f * mu, rtol=1e-10)
    elif law in ("sum-commutes", "sum-scalar", "minus"):
        s2 = tree_spec(rng, 1, ("Gaussian", "Exponential", "Box"), convolve=False)
        mon.note(spec2=s2)
        q = build(jg, s2)
        if law == "sum-commutes":
            same_profile(mon, "sum-commutes", o + q, q + o, rng)
            p = tuple(rng.normal(size=2))
            mon.close("sum-adds-values", (o + q).xValue(*p), F(o.xValue(*p)) + F(q.xValue(*p)), rtol=1e-10, atol=1e-12)
            mon.close("sum-adds-fourier", jg.Add(o, q).kValue(*p), complex(A(o.kValue(*p))) + complex(A(q.kValue(*p))), rtol=1e-10, atol=1e-11 * (abs(f) + abs(F(q.flux))))
            mon.close("sum-adds-flux", jg.Sum([o, q, o]).flux, 2 * f + F(q.flux), rtol=1e-12, atol=1e-12 * (abs(f) + abs(F(q.flux))))
            mon.check("nested-sum-flattens", len((o + q + o).obj_list) == len(jg.Sum([o, q, o]).obj_list))
        elif law == "sum-scalar":
            a = rnd(rng, -3, 3)
            same_profile(mon, "sum-linear", (o + q) * a, o * a + q * a, rng)
            mon.close("scalar-flux", (a * (o + q)).flux, a * (f + F(q.flux)), rtol=1e-10, atol=1e-11 * (abs(f) + abs(F(q.flux))))
        else:
            same_profile(mon, "minus-is-plus-negative", o - q, o + (-1.0) * q, rng)
            p = tuple(rng.normal(size=2))
            mon.close("minus-subtracts-values", (o - q).xValue(*p), F(o.xValue(*p)) - F(q.xValue(*p)), rtol=1e-10, atol=1e-12)
            mon.close("minus-flux", (o - q).flux, f - F(q.flux), rtol=1e-10, atol=1e-11 * (abs(f) + abs(F(q.flux))))
            same_profile(mon, "negation", -o, o * -1.0, rng)
    elif law in ("convolve-product", "convolve-assoc", "convolve-shift", "convolve-linear"):
        s2 = tree_spec(rng, 1, ("Gaussian", "Exponential"), convolve=False)
        mon.note(spec2=s2)
        q = build(jg, s2)
        c = jg.Convolve(o, q)
        if law == "convolve-product":
            for _ in range(4):
                k = tuple(rng.normal(size=2) * 1.5)
                mon.close("convolution-multiplies", c.kValue(*k), complex(A(o.kValue(*k))) * complex(A(q.kValue(*k))), rtol=1e-9, atol=1e-11 * abs(f * F(q.flux)))
            mon.close("convolution-flux", c.flux, f * F(q.flux), rtol=1e-10)
            if abs(f) > 1e-3 * kscale(o) and abs(F(q.flux)) > 1e-3 * kscale(q):
                mon.close("convolution-centroid", pos(c.centroid), pos(o.centroid) + pos(q.centroid), rtol=1e-9, atol=1e-8)
            same_profile(mon, "convolution-commutes", c, jg.Convolve([q, o]), rng, x=False)
        elif law == "convolve-assoc":
            r = jg.Gaussian(sigma=rnd(rng, 0.3, 1.5), flux=flux_of(rng))
            same_profile(mon, "convolution-associates", jg.Convolve(jg.Convolve(o, q), r), jg.Convolve(o, jg.Convolve(q, r)), rng, x=False)
            same_profile(mon, "convolution-n-ary", jg.Convolve([o, q, r]), jg.Convolve(o, jg.Convolve(q, r)), rng, x=False)
            same_profile(mon, "delta-is-identity", jg.Convolve(o, jg.DeltaFunction()), o, rng, x=False)
        elif law == "convolve-shift":
            dx, dy = rng.normal(size=2)
            same_profile(mon, "convolution-shifts", jg.Convolve(o.shift(dx, dy), q), c.shift(dx, dy), rng, x=False)
            a = rng.uniform(-3, 3) * jg.radians
            same_profile(mon, "convolution-rotates", jg.Convolve(o.rotate(a), q.rotate(a)), c.rotate(a), rng, x=False)
        else:
            a = rnd(rng, -3, 3)
            same_profile(mon, "convolution-scales", jg.Convolve(o * a, q), c * a, rng, x=False)
            r = jg.Gaussian(sigma=rnd(rng, 0.3, 1.5))
            same_profile(mon, "convolution-distributes", jg.Convolve(o + r, q), c + jg.Convolve(r, q), rng, x=False)
    elif law == "deconvolve":
        g0 = jg.Gaussian(sigma=rnd(rng, 0.2, 0.8), flux=abs(flux_of(rng)))
        c = jg.Convolve(o, g0, jg.Deconvolve(g0))
        same_profile(mon, "deconvolution-undoes", c, o, rng, rtol=1e-7, x=False)
        mon.close("deconvolution-flux", jg.Deconvolve(g0).flux, 1 / F(g0.flux), rtol=1e-12)
        mon.close("deconvolution-centroid", pos(jg.Deconvolve(g0.shift(0.3, -0.2)).centroid), [-0.3, 0.2], rtol=1e-12)
    elif law == "divide":
        a = rnd(rng, 0.3, 3) * pick(rng, [-1, 1])
        same_profile(mon, "divide", o / a, o * (1 / a), rng)
        mon.close("divide-flux", (o / a).flux, f / a, rtol=1e-12)
    elif law == "withflux":
        a = flux_of(rng)
        if abs(f) < 1e-3 * kscale(o):
            raise Abort("cancelling flux")
        mon.close("withflux-sets-flux", o.withFlux(a).flux, a, rtol=1e-10)
        same_profile(mon, "withflux-scales", o.withFlux(a), o * (a / f), rng)
        mon.close("withflux-origin", o.withFlux(a).kValue(0, 0), a, rtol=1e-6)


def deconv(mon, rng):
    # one set of accuracy parameters throughout: GalSim's Deconvolution keeps a stale threshold when it is given others
    gs = dict(pick(rng, GS_PRESETS)) if rng.random() < 0.3 else None
    inner = tree_spec(rng, int(rng.integers(0, 2)), ("Gaussian", "Exponential"), convolve=False, gs=gs)
    s = {"t": "Deconvolve", "a": [inner], "kw": {}}
    if rng.random() < 0.4:
        s = op_spec(rng, s)
    if rng.random() < 0.5:
        s = {"t": "Convolve", "a": [s, LEAVES["Gaussian"](rng, gs)], "form": "list"}
    mon.note(spec=s)
    g = build_quiet(galsim, s)
    reps(g, s)
    j = build_quiet(jg, s)
    maxk = g.maxk
    for i in range(10):
        u = rng.uniform(0, 1.3)
        th = rng.uniform(0, 2 * np.pi)
        kx, ky = u * maxk * np.cos(th), u * maxk * np.sin(th)
        want, got = g.kValue(kx, ky), complex(A(j.kValue(kx, ky)))
        mon.close("deconvolution-fourier-value", got, want, rtol=1e-7, atol=1e-12)
    for a in ("flux", "maxk", "stepk", "max_sb"):
        gv = getattr(g, a)
        mon.close("deconvolution-" + a, getattr(j, a), gv, rtol=1e-5)
    if np.isfinite(g.centroid.x):
        mon.close("deconvolution-centroid", pos(j.centroid), pos(g.centroid), rtol=1e-7, atol=1e-8)
    for a in ("has_hard_edges", "is_axisymmetric", "is_analytic_x", "is_analytic_k"):
        mon.same("flag:" + a, bool(getattr(j, a)), bool(getattr(g, a)))


def flags(mon, rng):
    """Symmetry flags of exactly representable linear maps: a circular profile stays circular under
    scalings and quarter turns only."""
    a, b = pick(rng, [1.0, 0.5, 2.0, -1.0, -0.25]), pick(rng, [0.0, 0.0, 0.5, -0.25, 1.0])
    m = pick(rng, [(a, 0, 0, a), (a, b, -b, a), (a, b, b, a), (0, a, a, 0), (0, a, -a, 0), (a, 0, 0, -a), (a, b, b, -a), (a, b, 0, a), (a, 0, 0, 2 * a), (a, b, -2 * b, a)])
    if abs(m[0] * m[3] - m[1] * m[2]) < 1e-3:
        raise Abort("singular")
    s = LEAVES[pick(rng, ["Gaussian", "Exponential", "Moffat", "Spergel"])](rng)
    mon.note(spec=s, m=m)
    outs = []
    how, off, fl = pick(rng, ["transform", "class"]), pick(rng, [(0.0, 0.0), (0.0, 0.0), (0.5, 0.0), (0.0, -0.25)]), pick(rng, [1.0, 2.0, -1.0])
    for g in (jg, galsim):
        o = build_quiet(g, s)
        t = (o.transform(*m) * fl).shift(*off) if how == "transform" else g.Transformation(o, jac=list(m), offset=g.PositionD(*off), flux_ratio=fl)
        both = [t, g.Add(t, build_quiet(g, s)), g.Convolve(t, build_quiet(g, s)), g.Deconvolve(t)]
        outs.append([[bool(getattr(x, k)) for k in ("is_axisymmetric", "has_hard_edges", "is_analytic_k")] for x in both])
    mon.event("axisymmetric:%s" % outs[1][0][0])
    mon.same("flags-of-exact-maps", outs[0], outs[1], how=how, offset=off)


def delta(mon, rng):
    """Delta functions inside compositions."""
    s = LEAVES["DeltaFunction"](rng)
    for _ in range(int(rng.integers(0, 3))):
        s = op_spec(rng, s)
    s = {"t": "Convolve", "a": [s, tree_spec(rng, 1, EXACT, False)], "form": pick(rng, ["list", "star"])}
    mon.note(spec=s)
    g, j = build_quiet(galsim, s), build_quiet(jg, s)
    compare(mon, rng, s, j, g, attrs=False)
    mon.close("flux", j.flux, g.flux, rtol=1e-10)
    mon.close("maxk", j.maxk, g.maxk, rtol=1e-6)
    mon.close("stepk", j.stepk, g.stepk, rtol=1e-6)
    if abs(g.flux) > 1e-3 * kscale(g):
        mon.close("centroid", pos(j.centroid), pos(g.centroid), rtol=1e-8, atol=1e-8)


GROUPS = {
    "tree_real": dict(fn=tree(3, False), quick=120, thorough=3000, cost=0.12, warm=8),
    "tree_all": dict(fn=tree(3, True), quick=120, thorough=3000, cost=0.15, warm=8),
    "tree_deep": dict(fn=tree(5, True), quick=30, thorough=1000, cost=0.4, warm=8),
    "tree_special": dict(fn=tree(2, True, False), quick=60, thorough=1500, cost=0.2, warm=12),
    "chain": dict(fn=chain, quick=120, thorough=3000, cost=0.1, warm=6),
    "laws": dict(fn=laws, quick=170, thorough=3400, cost=0.2, warm=10),
    "deconv": dict(fn=deconv, quick=60, thorough=1200, cost=0.1, warm=6),
    "flags": dict(fn=flags, quick=60, thorough=1500, cost=0.05, warm=3, must=["flags-of-exact-maps"]),
    "delta": dict(fn=delta, quick=40, thorough=800, cost=0.1, warm=6),
}
