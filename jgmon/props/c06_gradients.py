"""C06: derivatives exist, are finite, agree in both modes and equal those of the executed function."""

import warnings

from jgmon.common import *
from jgmon.objects import any_object, at
from jgmon.props.c05_compiled import floats, put
from jgmon.props.c14_fits_wcs import build_wcs, header_spec

RULE = "Every case is a generated function from traced numbers to outputs of the library, differentiated in reverse and in forward mode and compared with Richardson-extrapolated central differences of the same function; points include the center, zero frequency, zero shear and coinciding directions."
ASSUMPTIONS = [
    "derivatives with respect to Moffat beta in Fourier space, Spergel nu in real space and the order of kv are documented as unsupported and not judged; forward mode is not judged where kv is differentiated (custom reverse rule)",
    "a component is judged against finite differences only where three step sizes agree with each other (the executed function is smooth there)",
]
FFT = dict(minimum_fft_size=128, maximum_fft_size=128)
STEPS = np.array([1.0, 0.5, 0.25])


def judge(mon, name, f, x, scale=None, h=2e-3, rtol=2e-5, fwd=True, monitor="gradient", finite_only=()):
    """f: vector -> vector (smooth); scale: sizes over which each component of x matters."""
    x = np.asarray(x, dtype=float)
    sc = np.maximum(np.abs(x), 0.05) if scale is None else np.asarray(scale, dtype=float) * np.ones_like(x)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        g = lambda v: jnp.concatenate([jnp.ravel(jnp.asarray(q)).astype(float) for q in jax.tree.leaves(f(v))])  # noqa: E731
        xs = jnp.asarray(x)
        y = np.asarray(g(xs))
        if not np.all(np.isfinite(y)):
            raise Abort("not finite here")
        rev = attempt(lambda: np.asarray(jax.jit(jax.jacrev(g))(xs)))
        if not mon.check(monitor + ":reverse-exists", not isinstance(rev, Raised), mech=name, got=str(getattr(rev, "e", ""))[:300]):
            return
        if not mon.check(monitor + ":finite", bool(np.all(np.isfinite(rev))), mech=name, got=rev, mode="reverse"):
            return
        mon.event("reverse:" + name)
        if fwd:
            fw = attempt(lambda: np.asarray(jax.jit(jax.jacfwd(g))(xs)))
            if isinstance(fw, Raised) and "custom_vjp" in str(fw.e):
                mon.event("no-forward-mode:" + name)
            elif mon.check(monitor + ":forward-exists", not isinstance(fw, Raised), mech=name, got=str(getattr(fw, "e", ""))[:300]):
                mon.check(monitor + ":finite", bool(np.all(np.isfinite(fw))), mech=name, got=fw, mode="forward")
                s = np.maximum(np.max(np.abs(rev * sc), initial=0), 1e-3 * np.max(np.abs(y), initial=0)) / sc
                mon.close(monitor + ":modes-agree", fw / s if np.all(s) else fw, rev / s if np.all(s) else rev, rtol=1e-7, atol=1e-7, mech=name)
                mon.event("forward:" + name)
        # central differences of the executed function at three steps
        n = len(x)
        pts = [x + sign * h * st * sc[i] * np.eye(n)[i] for i in range(n) for st in STEPS for sign in (1, -1)]
        Y = attempt(lambda: np.asarray(jax.jit(lambda P: jax.lax.map(g, P))(jnp.asarray(np.array(pts)))).reshape(n, 3, 2, -1))
        if isinstance(Y, Raised):  # the point lies on the edge of the domain (for example an axis ratio of 1)
            mon.event("edge-of-domain")
            return
        D = (Y[:, :, 0] - Y[:, :, 1]) / (2 * h * STEPS[None, :, None] * sc[:, None, None])
        R1 = (4 * D[:, 1] - D[:, 0]) / 3
        R2 = (4 * D[:, 2] - D[:, 1]) / 3
        best, err = R2.T, np.abs(R2 - R1).T  # (outputs, inputs)
        size = np.max(np.abs(y), initial=0)
        noise = 1e-13 * size / (h * STEPS[-1] * sc)[None, :]
        s = np.maximum(np.max(np.abs(best) * sc, axis=1, keepdims=True), 1e-9 * size) / sc  # per output
        smooth = err <= 1e-4 * s + 10 * noise
        tol = rtol * s + 20 * err + 20 * noise
        for i in range(n):
            ok = smooth[:, i]
            if i in finite_only or not np.any(ok):
                mon.event("not-smooth" if i not in finite_only else "finite-only")
                continue
            mon.close(monitor, rev[ok, i] / tol[ok, i], best[ok, i] / tol[ok, i], rtol=0, atol=1.0, mech=name, component=i, at=x[i], got_raw=rev[ok, i], want_raw=best[ok, i])


def wsum(im, w):
    """A few weighted sums of the pixels."""
    a = im.array if hasattr(im, "array") else im
    return jnp.stack([jnp.sum(a * q) for q in w])


def weights(rng, shape):
    w = rng.uniform(-1, 1, (2,) + tuple(shape))
    e = np.zeros(shape)
    e[tuple(int(rng.integers(n)) for n in shape)] = 1
    return jnp.asarray(np.concatenate([w, e[None]]))


def differentiable(spec, paths, domain):
    """Parameters that are documented as differentiable in this domain."""
    r = []
    for p in paths:
        leaf = at(spec, p[:-2]) if len(p) > 1 and p[-2] == "kw" else {}
        t = leaf.get("t") if isinstance(leaf, dict) else None
        if t == "Moffat" and p[-1] == "beta":
            continue
        if t == "Spergel" and p[-1] == "nu":
            continue
        r.append(p)
    return r


def tree(rng, depth=None):
    for _ in range(50):
        s = tree_spec(rng, int(rng.integers(0, 3)) if depth is None else depth)
        if has(s, ("DeltaFunction", "Deconvolve")):
            continue
        if not isinstance(attempt(lambda: build(jg, s)), Raised):
            return s
    raise Abort("no profile")


def params(rng, s, keep=4):
    paths = differentiable(s, floats(s), "k")
    if len(paths) > keep:
        paths = [paths[i] for i in sorted(rng.choice(len(paths), keep, replace=False))]
    return paths, [float(at(s, p)) for p in paths]


def size_of(s):
    o = build(gs, s)
    return float(1 / max(o.maxk, 1e-3)), float(np.pi / o.stepk)


import galsim as gs  # noqa: E402


def profile_k(mon, rng):
    s = tree(rng)
    paths, base = params(rng, s)
    small, big = size_of(s)
    k = rng.uniform(-1, 1, (2, 2)) * pick(rng, [0.3, 3.0]) / np.sqrt(small * big)
    k[0] *= pick(rng, [1.0, 1.0, 0.0])
    mon.note(spec=s, traced=[".".join(map(str, p)) for p in paths], k=k.tolist())
    n = len(base)

    def f(v):
        o = build(jg, put(s, paths, v[:n]))
        ks = v[n:].reshape(2, 2)
        z = [o.kValue(jg.PositionD(*q)) for q in ks]
        return [z[0].real, z[1].real, z[0].imag, z[1].imag]

    sc = np.concatenate([np.maximum(np.abs(base), 0.05), np.full(4, 1.0 / np.sqrt(small * big))])
    judge(mon, "kValue", f, np.concatenate([base, k.ravel()]), sc, rtol=5e-4 if has(s, "Moffat") else 2e-5)


def profile_x(mon, rng):
    for _ in range(50):
        s = tree(rng)
        o = build(jg, s)
        if o.is_analytic_x:
            break
    else:
        raise Abort("no values in real space")
    paths, base = params(rng, s)
    small, big = size_of(s)
    x = rng.uniform(-1, 1, (2, 2)) * pick(rng, [0.3, 1.0]) * np.sqrt(small * big)
    origin = rng.random() < 0.35
    if origin:
        c = o.centroid
        x[0] = [float(c.x), float(c.y)]
    mon.note(spec=s, traced=[".".join(map(str, p)) for p in paths], x=x.tolist())
    n = len(base)

    def f(v):
        o = build(jg, put(s, paths, v[:n]))
        return [o.xValue(jg.PositionD(*q)) for q in v[n:].reshape(2, 2)]

    sc = np.concatenate([np.maximum(np.abs(base), 0.05), np.full(4, np.sqrt(small * big))])
    judge(mon, "xValue", f, np.concatenate([base, x.ravel()]), sc)


def simple_center(mon, rng):
    """Values at the very center and at zero frequency, derivatives by parameters and by position."""
    t = pick(rng, ["Gaussian", "Exponential", "Moffat", "Spergel"])
    s = LEAVES[t](rng, None)
    paths, base = params(rng, s)
    space = pick(rng, ["x", "k"])
    if t == "Spergel" and space == "x" and at(s, ("kw", "nu")) <= 0.01:
        raise Abort("singular center")
    op = pick(rng, ["none", "shear", "shift", "rotate"])
    mon.note(spec=s, space=space, op=op)
    n = len(base)

    def f(v):
        o = build(jg, put(s, paths, v[:n]))
        p = jg.PositionD(v[n], v[n + 1])
        if op == "shear":
            o = o.shear(g1=0.1, g2=-0.2)
        elif op == "rotate":
            o = o.rotate(0.3 * jg.radians)
        elif op == "shift":
            o = o.shift(0.2, -0.1)
            p = jg.PositionD(v[n] + (0.2 if space == "x" else 0), v[n + 1] - (0.1 if space == "x" else 0))
        z = o.xValue(p) if space == "x" else o.kValue(p)
        return [z] if space == "x" else [z.real, z.imag]

    small, big = size_of(s)
    u = np.sqrt(small * big)
    cusp = space == "x" and (t == "Exponential" or (t == "Spergel" and at(s, ("kw", "nu")) <= 1.2))
    judge(mon, "center:" + t + ":" + space, f, np.concatenate([base, [0, 0]]), np.concatenate([np.maximum(np.abs(base), 0.05), [u if space == "x" else 1 / u] * 2]), rtol=5e-4 if t == "Moffat" else 2e-5, finite_only=(n, n + 1) if cusp else ())


def attributes(mon, rng):
    s = tree(rng)
    paths, base = params(rng, s, 6)
    mon.note(spec=s, traced=[".".join(map(str, p)) for p in paths])

    def f(v):
        o = build(jg, put(s, paths, v))
        c = o.centroid
        return [o.flux, c.x, c.y]

    judge(mon, "attributes", f, base)


def drawing(mon, rng):
    what = pick(rng, ["fft", "fft", "direct", "direct", "k"])
    for _ in range(80):
        s = tree(rng, int(rng.integers(0, 2)))
        o = build(jg, s)
        if has(s, "Box") or (what == "direct" and not o.is_analytic_x):
            continue
        break
    else:
        raise Abort("no profile")
    paths, base = params(rng, s, 3)
    small, big = size_of(s)
    sc = float(f"{np.clip(np.sqrt(small * big) * rng.uniform(0.2, 0.6), 0.02, 5):.3g}")
    nx, ny = int(rng.integers(5, 9)), int(rng.integers(5, 9))
    w = weights(rng, (ny, nx))
    jac = rng.random() < 0.4
    mon.note(spec=s, what=what, traced=[".".join(map(str, p)) for p in paths], scale=sc, shape=[ny, nx], jac=bool(jac))
    n = len(base)
    off = [rnd(rng, -0.4, 0.4), rnd(rng, -0.4, 0.4)] if rng.random() < 0.6 else [0.0, 0.0]
    extra = off + ([sc, 0.1 * sc, -0.05 * sc, 0.9 * sc] if jac else [sc])
    esc = [0.5, 0.5] + [sc] * (len(extra) - 2)
    if what == "k":
        esc, extra = [1.0 / np.sqrt(small * big)], [rnd(rng, 0.1, 0.4) / np.sqrt(small * big)]

    def f(v):
        o = build(jg, put(s, paths, v[:n])).withGSParams(**FFT)
        if what == "k":
            a = o.drawKImage(nx=nx, ny=ny, scale=v[n]).array
            return [wsum(a.real, w), wsum(a.imag, w)]
        wcs = jg.JacobianWCS(*v[n + 2 : n + 6]) if jac else jg.PixelScale(v[n + 2])
        return wsum(o.drawImage(nx=nx, ny=ny, wcs=wcs, offset=jg.PositionD(v[n], v[n + 1]), method="no_pixel" if what == "direct" else "fft", dtype=float), w)

    judge(mon, "draw:" + what, f, np.concatenate([base, extra]), np.concatenate([np.maximum(np.abs(base), 0.05), esc]), rtol=1e-3 if has(s, "Moffat") else 5e-5)


def interpolated(mon, rng):
    ny, nx = int(rng.integers(4, 8)), int(rng.integers(4, 8))
    a = np.round(rng.uniform(0.5, 5, (ny, nx)), 2)
    x_i = pick(rng, ["cubic", "quintic", "lanczos3", "lanczos5"])
    what = pick(rng, ["x", "k", "draw", "flux"])
    opts = dict(use_true_center=bool(rng.random() < 0.7))
    if rng.random() < 0.4:
        opts["normalization"] = "sb"
    cells = [(int(rng.integers(ny)), int(rng.integers(nx))) for _ in range(3)]
    base = [float(a[c]) for c in cells]
    sc = rnd(rng, 0.3, 1.5)
    give = rng.random() < 0.4
    mon.note(shape=[ny, nx], kernel=x_i, what=what, opts=opts, cells=cells, scale=sc, flux=bool(give))
    w = weights(rng, (6, 7))
    extra = [rnd(rng, -1, 1), rnd(rng, -1, 1), sc] + ([2.5] if give else [])
    force = dict(_force_stepk=0.2 / sc, _force_maxk=5.0 / sc)

    def f(v):
        b = jnp.asarray(a)
        for c, q in zip(cells, v[:3]):
            b = b.at[c].set(q)
        o = jg.InterpolatedImage(jg.Image(b), x_interpolant=x_i, scale=v[5], flux=v[6] if give else None, **opts, **force)
        if what == "x":
            return [o.xValue(jg.PositionD(v[3] * sc, v[4] * sc))]
        if what == "k":
            z = o.kValue(jg.PositionD(v[3] / sc, v[4] / sc))
            return [z.real, z.imag]
        if what == "flux":
            return [o.flux, o.centroid.x, o.centroid.y]
        if what == "draw":
            o = o.shift(v[3], v[4]).shear(g1=0.05, g2=0.1)
            return wsum(o.withGSParams(**FFT).drawImage(nx=7, ny=6, scale=0.8 * sc, method="no_pixel", dtype=float), w)

    x = np.array(base + extra)
    if what in ("k", "flux"):
        x = x[: 6 + give]
    judge(mon, "interpolated:" + what, f, x, np.concatenate([np.ones(3), [0.5, 0.5, sc], [2.5] if give else []]), h=1e-3, rtol=1e-4)


def shears(mon, rng):
    zero = rng.random() < 0.35
    r, th = (0.0, 0.0) if zero else (pick(rng, [1e-9, 1e-4, rnd(rng, 0.01, 0.9), 0.99]), rnd(rng, -3, 3))
    x = [r * np.cos(th), r * np.sin(th)]
    what = pick(rng, ["parts", "from e", "from eta", "sum", "matrix", "profile", "wcs", "polar"])
    mon.note(what=what, g=x)

    def f(v):
        s = jg.Shear(g1=v[0], g2=v[1])
        t = jg.Shear(g1=0.1, g2=-0.25)
        if what == "parts":
            return [s.e1, s.e2, s.eta1, s.eta2, s.g1, s.g2]
        if what == "from e":
            s = jg.Shear(e1=v[0], e2=v[1])
            return [s.g1, s.g2]
        if what == "from eta":
            s = jg.Shear(eta1=v[0], eta2=v[1])
            return [s.g1, s.g2]
        if what == "sum":
            u, w = s + t, t + s
            return [u.g1, u.g2, w.g1, w.g2, (s - t).g1, (-s).g2]
        if what == "matrix":
            return s.getMatrix()
        if what == "profile":
            return [jg.Gaussian(sigma=1.3).shear(s).xValue(0.4, -0.8), jg.Exponential(scale_radius=1.3).shear(s).kValue(0.4, -0.8).real, jg.Gaussian(sigma=1.3).lens(v[0], v[1], 1.1).xValue(0.4, -0.8)]
        if what == "wcs":
            w = jg.ShearWCS(0.3, s)
            p = w.toImage(jg.PositionD(1.0, 2.0))
            q = w.toWorld(jg.PositionD(1.0, 2.0))
            return [p.x, p.y, q.x, q.y, w.pixelArea()]
        return [s.g, s.q, s.eta, s.e]  # (polar: not smooth at zero)

    if zero and what == "polar":
        raise Abort("not smooth at zero")
    judge(mon, "shear:" + what, f, x, scale=max(min(1 - r, 0.1), 1e-2) if r < 0.9 else (1 - r))


def neutral(mon, rng):
    """Operations near the values at which they do nothing, seen at special points."""
    gal = pick(rng, ["Gaussian", "Exponential", "Moffat", "Spergel", "Box"])
    s = LEAVES[gal](rng, None)
    op = pick(rng, ["shift", "rotate", "shear", "expand", "lens", "transform", "dilate", "magnify"])
    space = pick(rng, ["x", "k", "attr"])
    p = pick(rng, [[0.0, 0.0], [0.0, 0.0], [rnd(rng, 0.1, 0.5), 0.0], [rnd(rng, -0.5, 0.5), rnd(rng, -0.5, 0.5)]])
    if space == "x" and p == [0.0, 0.0] and op == "shift" and gal in ("Exponential", "Spergel"):
        raise Abort("not smooth")
    mon.note(spec=s, op=op, space=space, at=p)
    if space == "k":
        small, big = size_of(s)
        p = [float(q / np.sqrt(small * big)) for q in p]

    def f(v):
        o = build(jg, s)
        if op == "shift":
            o = o.shift(v[0], v[1])
        elif op == "rotate":
            o = o.rotate((v[0] + v[1]) * jg.radians)
        elif op == "shear":
            o = o.shear(g1=v[0], g2=v[1])
        elif op == "lens":
            o = o.lens(v[0], v[1], 1.1)
        elif op == "transform":
            o = o.transform(1 + v[0], v[1], -v[1], 1.0)
        else:
            o = getattr(o, op)(1 + v[0]).withScaledFlux(1 + v[1])
        if space == "x":
            return [o.xValue(*p)]
        if space == "k":
            z = o.kValue(*p)
            return [z.real, z.imag]
        return [o.flux, o.centroid.x, o.centroid.y]

    judge(mon, "neutral:" + op + ":" + space, f, [0.0, 0.0], scale=0.1, h=1e-3, rtol=1e-3 if gal == "Moffat" else 1e-4)


def euclid(mon, rng):
    o = any_object(rng, "wcs")
    paths = floats(o.spec)
    paths = paths[:6]
    base = [float(at(o.spec, p)) for p in paths]
    n = len(base)
    P = [rnd(rng, -9, 9), rnd(rng, -9, 9)]
    mon.note(spec=o.spec)

    def f(v):
        w = o.make(jg, put(o.spec, paths, v[:n]))
        p, q = w.toWorld(jg.PositionD(v[n], v[n + 1])), w.toImage(jg.PositionD(v[n], v[n + 1]))
        j = w.jacobian()
        return [p.x, p.y, q.x, q.y, w.pixelArea(), j.dudx, j.dvdy]

    judge(mon, "wcs", f, np.array(base + P), np.maximum(np.abs(base + P), 0.05))


def fitswcs(mon, rng):
    s = header_spec(rng, False)
    w = build_wcs(jg, {"h": s["h"], "origin": s["origin"]}, "direct")
    x = [rnd(rng, 5, 60), rnd(rng, 5, 60)]
    back = rng.random() < 0.5
    mon.note(h=s["h"], origin=s["origin"], x=x, back=bool(back))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        c = w.toWorld(jg.PositionD(*x))
        c0 = [F(c.ra.rad), F(c.dec.rad)]
        pix = np.sqrt(abs(F(w.pixelArea(jg.PositionD(*x))))) / 206265
    if not np.all(np.isfinite(c0)) or isinstance(attempt(lambda: w.toImage(c)), Raised):
        raise Abort("not invertible here")

    def f(v):
        if back:
            p = w.toImage(jg.CelestialCoord(v[0] * jg.radians, v[1] * jg.radians))
            return [p.x, p.y]
        q = w.toWorld(jg.PositionD(v[0], v[1]))
        return [q.ra.rad, q.dec.rad]

    judge(mon, "fitswcs:" + ("toImage" if back else "toWorld"), f, c0 if back else x, 30 * pix / max(np.cos(c0[1]), 0.05) if back else 30.0, h=1e-2, rtol=2e-4)


def sky(mon, rng):
    a = [rnd(rng, -3, 3), rnd(rng, -1.3, 1.3)]
    what = pick(rng, ["distance", "distance", "angle", "project", "deproject", "center", "jac", "xyz", "galactic", "precess", "area"])
    pr = pick(rng, ["gnomonic", "stereographic", "lambert", "postel"])
    at0 = what in ("project", "deproject", "center", "jac") and rng.random() < 0.4
    d = [0.0, 0.0] if at0 else [rnd(rng, -0.5, 0.5), rnd(rng, -0.2, 0.2)]
    special = rng.random() < 0.4
    if what == "distance" and special:  # a right angle, or nearly the other side of the sky
        d = pick(rng, [[np.pi / 2 * s_, 0.0] for s_ in (1, -1)] + [[np.pi - 1e-3, 0.0]])
        a = [pick(rng, [0.0, rnd(rng, -3, 3)]), 0.0]
    if what == "angle" and special:  # three points on a great circle
        a, d = ([rnd(rng, -1, 1), 0.0], [rnd(rng, 0.1, 0.5), 0.0]) if rng.random() < 0.5 else ([0.5, rnd(rng, -0.4, 0.4)], [0.0, rnd(rng, 0.1, 0.4)])
    if what in ("angle", "area"):  # every point of the triangle has a declination
        a[1] = a[1] * 0.5
    mon.note(what=what, projection=pr, at=a, offset=d)
    x = a + d

    def f(v):
        C = lambda p, q: jg.CelestialCoord(p * jg.radians, q * jg.radians)  # noqa: E731
        o = C(v[0], v[1])
        q = C(v[0] + v[2], v[1] + v[3])
        if what == "distance":
            return [o.distanceTo(q).rad, o.distanceTo(C(a[0] + 0.7, a[1] * 0.5)).rad]
        if what == "angle":
            third = C(v[0] + 2 * v[2], v[1] + 2 * v[3])
            return [o.angleBetween(q, third).rad, o.angleBetween(third, C(a[0] + 0.3, a[1] + 0.7)).rad]
        if what == "area":
            return [o.area(C(a[0] + 0.7, a[1] * 0.5), C(a[0] + 0.2, a[1] * 0.5 + 0.3)), o.angleBetween(C(a[0] + 0.7, a[1] * 0.5), C(a[0] + 0.2, a[1] * 0.5 + 0.3)).rad]
        if what == "project":
            u, w = o.project(q, projection=pr)
            return [u.rad, w.rad]
        if what == "center":  # projections of the fixed center itself
            u, w = C(*a).project(C(a[0] + v[2], a[1] + v[3]), projection=pr)
            return [u.rad, w.rad]
        if what == "deproject":
            c = o.deproject(v[2] * jg.radians, v[3] * jg.radians, projection=pr)
            return [c.ra.sin(), c.ra.cos(), c.dec.rad]
        if what == "jac":
            return list(jnp.ravel(jnp.asarray(o.jac_deproject(v[2] * jg.radians, v[3] * jg.radians, projection=pr))))
        if what == "xyz":
            return list(o.get_xyz()) + [jg.CelestialCoord.from_xyz(v[2] + 1.0, v[3] + 1.0, v[0]).dec.rad]
        if what == "galactic":
            el, b = o.galactic()
            return [el.sin(), el.cos(), b.rad]
        c = o.precess(2000.0, 1950.0)
        return [c.ra.sin(), c.ra.cos(), c.dec.rad]

    judge(mon, "sky:" + what + (":" + pr if what in ("project", "deproject", "center", "jac") else "") + (":at center" if at0 else ""), f, x, 0.1)


def special(mon, rng):
    from jax_galsim import bessel, integ, utilities
    from jax_galsim.core.interpolate import akima_interp, akima_interp_coeffs

    what = pick(rng, ["j0", "si", "kv", "int1d", "horner", "akima", "interpolant", "interpolant k"])
    big = pick(rng, [1e-3, 0.3, 3.0, 30.0])
    x = [rnd(rng, 0.2, 1) * big, rnd(rng, 0.3, 2)]
    nu = pick(rng, [0.0, 0.5, 1.0, 1.37, 2.5, 3.9])
    kern = pick(rng, ["cubic", "quintic", "lanczos3", "lanczos5", "sinc", "linear"])
    zero = rng.random() < 0.3
    mon.note(what=what, x=x, nu=nu, kernel=kern, zero=bool(zero))
    if zero and what in ("j0", "si", "interpolant k", "interpolant"):
        x[0] = 0.0
    nodes = jnp.linspace(0, 10, 12)
    ys = jnp.asarray(rng.uniform(-1, 1, 12))
    if what in ("interpolant", "interpolant k", "akima"):
        x[0] = (x[0] % 3.7) if x[0] else 0.0
    if what == "int1d":
        x[0] = rnd(rng, 0.3, 3)

    def f(v):
        if what == "j0":
            return [bessel.j0(v[0])]
        if what == "si":
            return [bessel.si(v[0])]
        if what == "kv":
            return [bessel.kv(nu, v[0]), bessel.kv(nu + 1, v[0]) * bessel.kv(nu, v[1])]
        if what == "int1d":
            return [integ.int1d(lambda t: jnp.exp(-t * v[1]) * jnp.cos(t), 0.0, v[0])]
        if what == "horner":
            return [utilities.horner(v[0], jnp.array([1.0, 2.0, v[1], 3.0])), utilities.horner2d(v[0], v[1], jnp.array([[1.0, 2.0], [0.5, v[0]]]))]
        if what == "akima":
            y = ys.at[3].set(v[1])
            return [akima_interp(v[0], nodes, y, akima_interp_coeffs(nodes, y))]
        i = jg.Interpolant.from_name(kern)
        return [i.kval(v[0])] if what == "interpolant k" else [i.xval(v[0]) if kern != "sinc" else i.kval(v[0])]

    one = what in ("j0", "si", "interpolant", "interpolant k")
    judge(mon, "special:" + what + (":" + kern if "interpolant" in what else ""), f, x[:1] if one else x, scale=np.maximum(np.abs(x[:1] if one else x), 0.05) if not zero else 0.3, rtol=1e-4, finite_only=(0,) if kern == "linear" and what == "interpolant" else ())


def images(mon, rng):
    n, m = 2 * int(rng.integers(1, 4)), 2 * int(rng.integers(1, 4))
    a = np.round(rng.uniform(-2, 5, (n, m)), 2)
    what = pick(rng, ["arith", "fft", "wrap", "real fft", "flips", "moments", "noise", "photons", "random"])
    w = weights(rng, (n, m))
    mon.note(what=what, shape=[n, m])
    x = a.ravel()[:4].tolist() + [rnd(rng, 0.5, 3)]
    seed = int(rng.integers(1, 10**6))

    def f(v):
        b = jnp.asarray(a).ravel().at[: min(4, a.size)].set(v[: min(4, a.size)]).reshape(n, m)
        im = jg.Image(b, scale=1.0)
        if what == "arith":
            return wsum((im * v[4] + im * im - 3.0) / (im * im + 1.0), w)
        if what == "flips":
            return [im.flip_lr().array[0, 0], im.rot_cw().array[-1, 0], im.transpose()[im.transpose().bounds].array.sum() * v[4]]
        if what == "fft":
            k = jg.Image(b * v[4], bounds=jg.BoundsI(-m // 2, m // 2 - 1, -n // 2, n // 2 - 1), scale=1.0).calculate_fft()
            return [k.array.real[0, 0], jnp.sum(jnp.abs(k.array) ** 2), k.array.imag[-1, -1]]
        if what == "real fft":
            k = jg.Image(b * v[4], bounds=jg.BoundsI(-m // 2, m // 2 - 1, -n // 2, n // 2 - 1), scale=1.0).calculate_fft().calculate_inverse_fft()
            return [k.array[0, 0], jnp.sum(k.array**3)]
        if what == "wrap":
            t = im.copy()
            t.wrap(jg.BoundsI(1, m // 2, 1, n // 2))
            return wsum(t.array[: n // 2, : m // 2] * v[4], w[:, : n // 2, : m // 2])
        if what == "moments":
            px, py = im.get_pixel_centers()
            return [jnp.sum(px * im.array) * v[4], im(1, 1), im.array.sum()]
        if what == "noise":
            t = im.copy()
            t.addNoise(jg.GaussianNoise(jg.BaseDeviate(seed), sigma=v[4]))
            return wsum(t, w)
        if what == "photons":
            p = jg.PhotonArray(4, x=v[:4], y=v[:4] * v[4], flux=v[:4] ** 2)
            p.scaleXY(v[4])
            p.scaleFlux(v[4])
            return [jnp.sum(p.x * p.flux), p.getTotalFlux(), jnp.sum(p.y)]
        d = jg.GaussianDeviate(jg.BaseDeviate(seed), mean=v[0], sigma=v[4])
        return [d(), d() ** 2, jg.WeibullDeviate(seed, a=1.5, b=v[4])()]

    x = x[: min(4, a.size)] + [0.0] * (4 - min(4, a.size)) + x[-1:]
    judge(mon, "image:" + what, f, x, 1.0)


def shot(mon, rng):
    t = pick(rng, ["Gaussian", "Exponential", "Box", "tree"])
    s = LEAVES[t](rng, None) if t != "tree" else None
    while s is None:
        s = tree(rng, 1)
        if has(s, ("Moffat", "Spergel", "Sum", "plus", "minus")):
            s = None
    paths, base = params(rng, s, 4)
    seed = int(rng.integers(1, 10**6))
    mon.note(spec=s, seed=seed)

    def f(v):
        p = build(jg, put(s, paths, v)).shoot(5, jg.BaseDeviate(seed))
        return [p.x, p.y, p.flux]

    judge(mon, "shoot:" + t, f, base, rtol=1e-4)


def whole(mon, rng):
    """Derivatives with respect to a whole object are those with respect to its numbers."""
    s = tree(rng, int(rng.integers(0, 2)))
    o = build(jg, s)
    if has(s, "Box"):
        raise Abort("parameters of boxes are covered elsewhere")
    mon.note(spec=s)
    small, big = size_of(s)
    k = rng.uniform(-1, 1, 2) / np.sqrt(small * big)

    def f(o):
        return o.kValue(jg.PositionD(*k)).real

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        leaves, td = jax.tree.flatten(o)
        arrs = [jnp.asarray(v, dtype=float) for v in leaves]
        g = attempt(lambda: jax.grad(f)(jax.tree.unflatten(td, arrs)))
        if not mon.check("object-gradient:exists", not isinstance(g, Raised), mech="Moffat" if has(s, "Moffat") else "other", got=str(getattr(g, "e", ""))[:300]):
            return
        mon.check("object-gradient:type", type(g) is type(o), got=str(type(g)), want=str(type(o)))
        want = jax.grad(lambda ls: f(jax.tree.unflatten(td, ls)))(arrs)
        got = jax.tree.leaves(g)
        mon.check("object-gradient:leaves", len(got) == len(want), got=len(got), want=len(want))
        for a, b in zip(got, want):
            mon.close("object-gradient", A(a), A(b), rtol=1e-9, atol=1e-12)


GROUPS = {
    "profile_k": dict(fn=profile_k, quick=8, thorough=400, cost=2.0, shards=8, must=["gradient", "gradient:finite", "gradient:modes-agree"]),
    "profile_x": dict(fn=profile_x, quick=6, thorough=300, cost=2.0, shards=8, must=["gradient", "gradient:finite"]),
    "simple_center": dict(fn=simple_center, quick=8, thorough=200, cost=1.5, shards=8, must=["gradient", "gradient:finite"]),
    "attributes": dict(fn=attributes, quick=2, thorough=80, cost=1.0, shards=4, must=["gradient"]),
    "drawing": dict(fn=drawing, quick=5, thorough=200, cost=4.0, shards=8, must=["gradient", "gradient:finite"]),
    "interpolated": dict(fn=interpolated, quick=4, thorough=150, cost=4.0, shards=8, must=["gradient", "gradient:finite"]),
    "shears": dict(fn=shears, quick=10, thorough=400, cost=0.5, shards=8, must=["gradient", "gradient:finite", "gradient:modes-agree"]),
    "neutral": dict(fn=neutral, quick=8, thorough=300, cost=0.7, shards=8, must=["gradient", "gradient:finite"]),
    "euclid": dict(fn=euclid, quick=2, thorough=100, cost=0.7, shards=4, must=["gradient"]),
    "fitswcs": dict(fn=fitswcs, quick=3, thorough=150, cost=2.0, shards=8, must=["gradient"]),
    "sky": dict(fn=sky, quick=8, thorough=400, cost=0.8, shards=8, must=["gradient", "gradient:finite"]),
    "special": dict(fn=special, quick=8, thorough=300, cost=1.0, shards=8, must=["gradient"]),
    "images": dict(fn=images, quick=6, thorough=200, cost=0.8, shards=8, must=["gradient"]),
    "shot": dict(fn=shot, quick=3, thorough=80, cost=1.0, shards=4, must=["gradient"]),
    "whole": dict(fn=whole, quick=5, thorough=120, cost=1.0, shards=4, must=["object-gradient"]),
}
