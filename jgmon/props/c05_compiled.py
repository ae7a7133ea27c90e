"""C05: eager, jitted and vmapped executions agree, for values and for objects."""

import warnings

from jgmon.common import *
from jgmon.objects import GSP, KINDS, any_object, at, numbers

RULE = "Every case is a generated program (object built from traced numbers, methods of a traced object, drawing, photon shooting, image, WCS, celestial, random and numerical calls) run eagerly with plain numbers, under jit for several inputs with one compilation, and under vmap; all outputs are compared."
ASSUMPTIONS = [
    "float64 results may differ by rounding between eager and compiled code (1e-8 of the largest value of an output; 1e-5 for float32 outputs)",
    "programs that the documentation excludes (sizes that depend on traced values, Python branches on traced values in user code) are not generated",
]


def leaves(r):
    """Flat (name, array) pairs of any result; objects contribute their leaves."""
    out = []
    for path, v in jax.tree_util.tree_flatten_with_path(r)[0]:
        out.append((jax.tree_util.keystr(path), v))
    return out


def arr(v):
    if hasattr(v, "dtype") and jnp.issubdtype(v.dtype, jax.dtypes.prng_key):
        v = jax.random.key_data(v)
    return np.asarray(v)


def agree(mon, monitor, a, b, rtol=1e-8, **detail):
    """Two results (pytrees) agree: same structure, same values."""
    sa, sb = jax.tree_util.tree_structure(a), jax.tree_util.tree_structure(b)
    if not mon.check(monitor + ":structure", sa == sb, got=str(sa)[:300], want=str(sb)[:300], **detail):
        return
    for (n, x), (_, y) in zip(leaves(a), leaves(b)):
        x, y = arr(x), arr(y)
        if not mon.check(monitor + ":shape", x.shape == y.shape, leaf=n, got=x.shape, want=y.shape, **detail):
            continue
        if x.dtype.kind in "iub" and y.dtype.kind in "iub":
            mon.check(monitor, np.array_equal(x, y), leaf=n, got=x, want=y, **detail)
            continue
        r = 1e-5 if "32" in str(x.dtype) or "64" == str(x.dtype)[-2:] and x.dtype.kind == "c" and x.dtype.itemsize == 8 else rtol
        s = np.nanmax(np.abs(np.where(np.isfinite(y), y, 0)), initial=0)
        mon.close(monitor, x, y, rtol=r, atol=r * s, leaf=n, **detail)


def run(mon, name, f, *a):
    try:
        return f(*a)
    except Abort:
        raise
    except Exception as e:
        import traceback

        where = [f"{t.filename.rsplit('/jax_galsim/', 1)[1]}:{t.lineno} {t.name}" for t in traceback.extract_tb(e.__traceback__) if "/jax_galsim/" in t.filename]
        mon.check(name + ":runs", False, mech="fails:" + (where[-1].split(":")[0] + " " + where[-1].split(" ")[1] if where else type(e).__name__), got=f"{type(e).__name__}: {str(e)[:250]}", where=where[-3:])
        return None


def solid(v):
    """As an array with a definite type."""
    if hasattr(v, "dtype") and jnp.issubdtype(v.dtype, jax.dtypes.prng_key):
        return v
    return jnp.array(np.asarray(v))


def judge(mon, name, f, xs, rtol=1e-8, vmap=True, strong=True, **detail):
    """f takes one argument (a vector or a pytree); xs are inputs of the same structure."""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        plain = attempt(lambda: [f(x) for x in xs])
        if isinstance(plain, Raised):
            mon.event("not-eager:" + type(plain.e).__name__)
            raise plain.e
        arrays = [jax.tree.map(solid, x) for x in xs]
        traced = arrays if strong else xs
        jf = jax.jit(f)
        ok = True
        for x, p in zip(traced, plain):
            r = run(mon, "jit", jf, x)
            if r is None:
                ok = False
                break
            agree(mon, "jit", r, p, rtol, call=name, **detail)
            # compiled code leaves its arguments alone
        if ok:
            if strong:
                mon.check("compiled-once", jf._cache_size() == 1, got=jf._cache_size(), call=name)
            mon.event("jit:" + name)
        if not vmap:
            return
        X = jax.tree.map(lambda *v: jnp.stack(v), *arrays)
        r = run(mon, "vmap", jax.vmap(f), X)
        if r is not None:
            for i, p in enumerate(plain):
                agree(mon, "vmap", jax.tree.map(lambda v: v[i], r), p, rtol, call=name, **detail)
            mon.event("vmap:" + name)


# -- objects built from traced numbers ----------------------------------------------------------------
BUILT = ["profile", "profile", "profile", "interpolated", "wcs", "position", "bounds", "shear", "angle", "coord", "deviate", "noise", "image", "unit"]
SKIP = {"gs", "force", "dt", "at", "seed", "skip", "N", "const", "pad", "n", "size"}


def floats(s):
    return [p for p in numbers(s) if isinstance(at(s, p), float) and not (set(p) & SKIP)]


def put(s, paths, x):
    def walk(v, path):
        if path in idx:
            return x[idx[path]]
        if isinstance(v, dict):
            return {k: walk(w, path + (k,)) for k, w in v.items()}
        if isinstance(v, list):
            return [walk(w, path + (i,)) for i, w in enumerate(v)]
        return v

    idx = {p: i for i, p in enumerate(paths)}
    return walk(s, ())


def built(mon, rng):
    kind = pick(rng, BUILT)
    o = any_object(rng, kind)
    paths = floats(o.spec)
    paths = [p for p in paths if p[0] not in ("a", "var") or kind == "profile"]  # (arrays are traced in the group special)
    if not paths:
        raise Abort("nothing to trace")
    paths = [p for p in paths if rng.random() < 0.75] or paths[:1]
    base = [at(o.spec, p) for p in paths]
    xs = [base] + [[v * float(1 + rng.uniform(-0.02, 0.02)) for v in base] for _ in range(2)]
    mon.note(kind=kind, spec=o.spec, traced=[".".join(map(str, p)) for p in paths])
    for x in xs[1:]:  # (parameters must stay valid)
        if isinstance(attempt(lambda: o.make(jg, put(o.spec, paths, x))), Raised):
            raise Abort("changed values are not valid")
    judge(mon, "build:" + kind, lambda x: o.make(jg, put(o.spec, paths, x)), xs)


# -- methods of traced objects -------------------------------------------------------------------------
P = lambda x, y: jg.PositionD(x, y)  # noqa: E731
FFT = dict(minimum_fft_size=256, maximum_fft_size=256)  # (documented as needed under jit)


def changed(o, f):
    o = o.copy()
    f(o)
    return o


M = {}
M["profile"] = {
    "kValue": lambda o: [o.kValue(P(x, y)) for x, y in [(0.3, -0.7), (1.9, 0.4), (0.0, 0.0)]],
    "sizes": lambda o: [o.maxk, o.stepk, o.nyquist_scale],
    "fluxes": lambda o: [o.flux, o.positive_flux, o.negative_flux, o.max_sb],
    "centroid": lambda o: o.centroid,
    "shear": lambda o: [o.shear(g1=0.1, g2=-0.2), o.shear(jg.Shear(q=0.7, beta=0.2 * jg.radians))],
    "rotate": lambda o: [o.rotate(0.3 * jg.radians), o.rotate(-50 * jg.degrees).kValue(0.2, 0.3)],
    "shift": lambda o: [o.shift(0.1, 0.2), o.shift(P(1.0, 2.0)).shift(0.5, 0.5).kValue(0.4, 0.1)],
    "flux ops": lambda o: [o.withFlux(2.5), o * 3, 2.0 * o, -o, o / 4.0, o.withScaledFlux(0.5)],
    "dilate": lambda o: [o.dilate(1.3), o.magnify(0.8), o.expand(2)],
    "lens": lambda o: o.lens(0.1, 0.05, 1.1),
    "transform": lambda o: o.transform(1.0, 0.1, -0.1, 0.9).rotate(1.0 * jg.radians).shift(0.1, 0.3),
    "sum": lambda o: [o + o, o - jg.Gaussian(sigma=1.0), (o + 2 * o).kValue(0.3, 0.1)],
    "convolve": lambda o: [jg.Convolve(o, jg.Gaussian(sigma=1.0)), jg.Convolve(o, jg.Gaussian(sigma=1.0)).kValue(0.4, -0.1), jg.Convolve(o, jg.Gaussian(sigma=1.0)).maxk],
    "deconvolve": lambda o: [jg.Deconvolve(jg.Gaussian(sigma=0.1)), jg.Convolve(o, jg.Deconvolve(jg.Gaussian(sigma=0.1))).kValue(0.4, -0.1)],
    "gsparams": lambda o: o.withGSParams(folding_threshold=1e-2),
    "draw fft": lambda o: o.withGSParams(**FFT).drawImage(nx=14, ny=11, scale=0.5, dtype=float),
    "draw onto": lambda o: o.withGSParams(**FFT).drawImage(jg.ImageD(12, 9, scale=0.4, init_value=1.0), add_to_image=True, offset=(0.3, 0.1), gain=2.0),
    "draw bounds": lambda o: o.withGSParams(**FFT).drawImage(bounds=jg.BoundsI(-3, 8, 2, 11), scale=0.4, method="no_pixel", use_true_center=False),
    "draw k": lambda o: o.drawKImage(nx=8, ny=9, scale=0.3),
    "photons": lambda o: o.shoot(50, jg.BaseDeviate(11)),
    "draw phot": lambda o: o.drawImage(nx=9, ny=8, scale=0.5, method="phot", n_photons=40, rng=jg.BaseDeviate(5), poisson_flux=False),
    "analytic x": lambda o: [o.xValue(P(x, y)) for x, y in [(0.3, -0.7), (1.9, 0.4)]] if o.is_analytic_x else [],
    "draw x": lambda o: o.drawImage(nx=12, ny=13, scale=0.4, method="no_pixel", offset=(0.2, -0.3), dtype=float) if o.is_analytic_x else [],
}  # fmt: skip
M["interpolated"] = {k: v for k, v in M["profile"].items()}
M["interpolated"]["image"] = lambda o: o.image
M["simple"] = {k: v for k, v in M["profile"].items() if "draw" not in k}
M["simple"]["flags"] = lambda o: [bool(o.is_axisymmetric), bool(o.has_hard_edges), bool(o.is_analytic_x), bool(o.is_analytic_k)]
M["simple"]["own"] = lambda o: [getattr(o, k) for k in ("sigma", "fwhm", "half_light_radius", "scale_radius", "beta", "nu", "width", "height", "scale") if hasattr(type(o), k)]
M["image"] = {
    "arith": lambda o: [o + 2, o * o, o - 1.5 * o, o / 3.0],
    "sub": lambda o: [o[o.bounds], o.array.sum()],
    "center": lambda o: [o.center, o.true_center, o.origin, o.bounds],
    "flips": lambda o: [o.transpose(), o.flip_lr(), o.flip_ud(), o.rot_cw(), o.rot_ccw(), o.rot_180()],
    "copy": lambda o: [o.copy(), o.copy(dtype=np.float64) if not o.iscomplex else 0],
    "get": lambda o: [o(o.xmin, o.ymin), o.getValue(o.xmax, o.ymin)],
    "complex": lambda o: [o.conjugate, o.real, o.imag],
    "moved": lambda o: [changed(o, lambda i: i.setOrigin(2, 3)), changed(o, lambda i: i.shift(1, -2)), changed(o, lambda i: i.setCenter(0, 0))],
    "set": lambda o: [changed(o, lambda i: i.setValue(i.xmin, i.ymax, 5)), changed(o, lambda i: i.addValue(i.xmax, i.ymax, 2)), changed(o, lambda i: i.fill(3)), changed(o, lambda i: i.setZero())],
    "inplace": lambda o: [changed(o, lambda i: i.__iadd__(3)), changed(o, lambda i: i.__imul__(2)), changed(o, lambda i: i.__isub__(o))],
    "assign": lambda o: changed(o, lambda i: i.setSubImage(i.bounds, i * 2)),
    "invert": lambda o: changed(o, lambda i: i.invertSelf()) if not o.iscomplex else 0,
    "noise": lambda o: changed(o, lambda i: i.addNoise(jg.GaussianNoise(jg.BaseDeviate(3), sigma=2.0))) if not o.iscomplex else 0,
    "centers": lambda o: o.get_pixel_centers(),
    "moments": lambda o: jg.Image(o.array.astype(float)).calculate_fft() if not o.iscomplex else 0,
    "like": lambda o: o.wcs.toWorld(P(1.0, 2.0)) if o.wcs is not None else 0,
}  # fmt: skip
W0 = P(1.25, -0.5)
M["wcs"] = {
    "toWorld": lambda o: [o.toWorld(W0), o.toImage(W0), o.toWorld(3.0, 4.0)],
    "jacobian": lambda o: [o.jacobian(), o.local(), o.affine(image_pos=W0)],
    "area": lambda o: [o.pixelArea(), o.minLinearScale(), o.maxLinearScale()],
    "origin": lambda o: [o.withOrigin(P(1.0, 2.0)), o.shiftOrigin(P(0.5, 1.5)), o.withOrigin(P(1.0, 2.0), P(0.5, 3.0)), o.origin, o.world_origin],
    "profiles": lambda o: [o.toWorld(jg.Gaussian(sigma=1.1), image_pos=W0), o.toImage(jg.Gaussian(sigma=1.1), image_pos=W0)],
    "shears": lambda o: [o.toWorld(jg.Shear(g1=0.1, g2=0.05), image_pos=W0), o.toImage(jg.Shear(g1=0.1, g2=0.05), image_pos=W0)],
    "arrays": lambda o: [o.toWorld(np.array([0.5, 1.5]), np.array([-1.0, 2.0])), o.toImage(np.array([0.5, 1.5]), np.array([-1.0, 2.0]))],
    "decompose": lambda o: list(o.jacobian().getDecomposition()),
    "inverse": lambda o: [o.jacobian().inverse(), o.jacobian().getMatrix(), o.local().inverse()],
    "flags": lambda o: [o.isLocal(), o.isUniform(), o.isPixelScale(), o.isCelestial()],
    "draw": lambda o: jg.Gaussian(sigma=2.0).withGSParams(**FFT).drawImage(nx=9, ny=8, wcs=o.jacobian(), dtype=float),
    "image": lambda o: jg.ImageD(4, 5, wcs=o).wcs,
    "sky": lambda o: changed(jg.ImageD(4, 5, wcs=o), lambda i: o.makeSkyImage(i, 2.0)),
}  # fmt: skip
M["fitswcs"] = {
    "toWorld": lambda o: o.toWorld(P(31.5, 17.25)),
    "back": lambda o: o.toImage(o.toWorld(P(31.5, 17.25))),
    "local": lambda o: [o.local(P(31.5, 17.25)), o.pixelArea(P(3.5, 17.25))],
    "affine": lambda o: o.affine(P(31.5, 17.25)),
    "origin": lambda o: o.withOrigin(P(1.0, 2.0)),
}
S0 = dict(g1=0.05, g2=-0.12)
M["shear"] = {
    "parts": lambda o: [o.g1, o.g2, o.e1, o.e2, o.eta1, o.eta2, o.q, o.g, o.e, o.eta, o.shear],
    "matrix": lambda o: o.getMatrix(),
    "sum": lambda o: [o + jg.Shear(**S0), jg.Shear(**S0) + o, o - jg.Shear(**S0), -o],
    "profile": lambda o: [jg.Gaussian(sigma=1.0).shear(o), jg.PositionD(1.0, 2.0).shear(o)],
    "rotation": lambda o: o.rotationWith(jg.Shear(**S0)),
    "beta": lambda o: o.beta,
    "rebuilt": lambda o: [jg.Shear(g1=o.g1, g2=o.g2), jg.Shear(e1=o.e1, e2=o.e2), jg.Shear(eta1=o.eta1, eta2=o.eta2), jg.Shear(g=o.g, beta=o.beta), jg.Shear(e=o.e, beta=o.beta), jg.Shear(eta=o.eta, beta=o.beta), jg.Shear(q=o.q, beta=o.beta), jg.Shear(o.shear)],
}  # fmt: skip
M["angle"] = {
    "trig": lambda o: [o.rad, o.sin(), o.cos(), o.tan(), o.deg, *o.sincos()],
    "wrap": lambda o: [o.wrap(), o.wrap(1.0 * jg.radians)],
    "arith": lambda o: [o + o, o - o * 2, o / 3, -o, o / jg.degrees, 2.5 * o],
    "use": lambda o: [jg.Gaussian(sigma=1.0).shear(g1=0.2, g2=0.1).rotate(o), jg.Shear(g=0.3, beta=o), jg.CelestialCoord(o, 0.2 * jg.radians)],
}
Q1 = lambda: jg.CelestialCoord(1.0 * jg.radians, 0.3 * jg.radians)  # noqa: E731
Q2 = lambda: jg.CelestialCoord(0.5 * jg.radians, -0.4 * jg.radians)  # noqa: E731
near = lambda o: jg.CelestialCoord(o.ra + 0.1 * jg.radians, o.dec * 0.9)  # noqa: E731


def project(p):
    def f(o):
        u, v = o.project(near(o), projection=p)
        return [u, v, o.deproject(u, v, projection=p), o.jac_deproject(u, v, projection=p)]

    return f


M["coord"] = {
    "distance": lambda o: [o.distanceTo(Q1()), o.angleBetween(Q1(), Q2()), o.area(Q1(), Q2())],
    "xyz": lambda o: [*o.get_xyz(), o.rad],
    "galactic": lambda o: [o.galactic(), jg.CelestialCoord.from_galactic(o.ra, o.dec)],
    "ecliptic": lambda o: [o.ecliptic(), jg.CelestialCoord.from_ecliptic(o.ra, o.dec)],
    "precess": lambda o: o.precess(2000.0, 1950.0),
    "normal": lambda o: o.normal(),
    "circle": lambda o: o.greatCirclePoint(Q1(), 0.2 * jg.radians),
    "from xyz": lambda o: jg.CelestialCoord.from_xyz(*o.get_xyz()),
    **{p: project(p) for p in ("gnomonic", "stereographic", "lambert", "postel")},
}
M["position"] = {
    "arith": lambda o: [o + o, o - o, o * 2, -o, o.x, o.y],
    "shear": lambda o: o.shear(jg.Shear(g1=0.1, g2=0.2)),
    "round": lambda o: o.round(),
    "use": lambda o: [jg.PositionD(o), jg.Gaussian(sigma=1.0).shift(o)],
}
M["bounds"] = {
    "edges": lambda o: [o.xmin, o.xmax, o.ymin, o.ymax],
    "shift": lambda o: o.shift(jg.PositionI(3, 2)),
    "border": lambda o: o.withBorder(2),
    "area": lambda o: o.area(),
    "centers": lambda o: [o.center, o.true_center, o.origin],
    "includes": lambda o: [o.includes(jg.PositionI(3, 2)), o.includes(o), o == o, o.includes(o.true_center.x, o.true_center.y), o.includes(o.xmax, 2.0)],
    "set": lambda o: 0 if isinstance(o, jg.BoundsI) else [o + jg.PositionD(4.0, 5.0), o + jg.BoundsD(-3.0, 50.0, -4.0, 60.0)],
    "scale": lambda o: o.expand(1.5) if isinstance(o, jg.BoundsD) else 0,
}
X0 = np.array([0.0, 0.3, 1.4, -0.8, 2.6])
M["interpolant"] = {
    "kval": lambda o: [o.kval(X0), o.kval(0.4), o.krange],
    "xval": lambda o: [] if isinstance(o, jg.Delta) else [o.xval(X0), o.xval(0.3), o.xrange],
    "unit": lambda o: o.unit_integrals(5),
}
M["deviate"] = {
    "values": lambda o: [o.raw()] if type(o) is jg.BaseDeviate else [o.duplicate()() for _ in range(2)],
    "arrays": lambda o: 0 if type(o) is jg.BaseDeviate else [o.duplicate().generate(np.zeros(3)), o.duplicate().add_generate(np.ones((2, 2)))],
    "discard": lambda o: changed_dev(o, lambda d: d.discard(2)),
    "advance": lambda o: changed_dev(o, lambda d: [d.raw(), d.raw()]),
    "shared": lambda o: shared(o.duplicate()),
    "reset": lambda o: changed_dev(jg.BaseDeviate(4), lambda d: d.reset(o)),
    "noise": lambda o: changed(jg.ImageD(3, 4), lambda i: i.addNoise(jg.PoissonNoise(o, sky_level=50.0))),
    "shoot": lambda o: jg.Exponential(scale_radius=1.0).shoot(20, o),
    "var": lambda o: o.duplicate().generate_from_variance(np.array([1.0, 4.0])) if isinstance(o, jg.GaussianDeviate) else 0,
}


def changed_dev(o, f):
    o = o.duplicate()
    f(o)
    return o


def shared(e):
    return [jg.UniformDeviate(e)(), jg.GaussianDeviate(e, mean=1.0, sigma=2.0)(), jg.PoissonDeviate(e, mean=3.0)(), e.raw()]


def applied(o, times):
    im = jg.ImageD(4, 3, init_value=50.0)
    n = o.copy(rng=o.rng.duplicate())
    for _ in range(times):
        n.applyTo(im)
    return [im, n]


M["noise"] = {
    "once": lambda o: applied(o, 1),
    "twice": lambda o: applied(o, 2),
    "variance": lambda o: o.getVariance(),
    "rescaled": lambda o: [o.withVariance(2.0), o.withScaledVariance(1.5), o * 2.0, o / 3.0],
    "copy": lambda o: o.copy(),
    "snr": lambda o: changed(jg.ImageD(4, 3, init_value=50.0), lambda i: i.addNoiseSNR(o.copy(rng=o.rng.duplicate()), 20.0)),
}


def scaled(o):
    p = jg.PhotonArray(o.size(), x=o.x, y=o.y, flux=o.flux * 1.5)
    p.scaleFlux(2.0)
    p.scaleXY(0.5)
    return p


def convolved(o):
    p = scaled(o)
    p.convolve(jg.PhotonArray(o.size(), x=o.x * 0.1, y=o.y * 0.1, flux=o.flux), jg.BaseDeviate(3))
    return p


def copied(o):
    p = jg.PhotonArray(o.size())
    p.assignAt(0, o)
    return p


def onto(o):
    im = jg.ImageD(jg.BoundsI(-3, 3, -3, 3))
    return [o.addTo(im), im]


M["photons"] = {
    "fields": lambda o: [o.x, o.y, o.flux, o.getTotalFlux(), o.hasAllocatedAngles(), o.hasAllocatedTimes()],
    "scaled": scaled,
    "convolved": convolved,
    "copied": copied,
    "onto": onto,
}


def nudge(rng, o):
    """A second object of the same structure with other values."""

    def f(v):
        if isinstance(v, float):
            return v * float(1 + 0.02 * rng.uniform(-1, 1))
        if isinstance(v, (np.ndarray, np.floating)) or (isinstance(v, jax.Array) and jnp.issubdtype(v.dtype, jnp.inexact)):
            if np.asarray(v).dtype.kind in "fc":
                w = v * float(1 + 0.02 * rng.uniform(-1, 1))
                return w.astype(v.dtype) if hasattr(w, "astype") else w
        return v

    return jax.tree.map(f, o)


def fresh(o):
    """The same object again: methods may advance its random state."""
    return jax.tree_util.tree_unflatten(jax.tree_util.tree_structure(o), jax.tree_util.tree_leaves(o))


def methods(mon, rng, kinds=None, count=None):
    kind = pick(rng, kinds or ["image", "image", "wcs", "wcs", "shear", "angle", "coord", "position", "bounds", "interpolant", "deviate", "deviate", "noise", "photons", "simple", "simple"])
    if kind == "coord" and rng.random() < 0.15:
        kind = "fitswcs"
    o = any_object(rng, kind)
    a = o.make(jg)
    if kind == "simple" and isinstance(a, jg.DeltaFunction):
        raise Abort("no real-space values")
    b = nudge(rng, a)
    names = [k for k in M[kind]]
    names = [names[i] for i in rng.permutation(len(names))][: count or 4]
    good = []
    for n in names:
        if any(isinstance(attempt(lambda: M[kind][n](fresh(q))), Raised) for q in (a, b)):
            mon.event(f"refused-eagerly:{kind}:{n}")
        else:
            good.append(n)
    mon.note(kind=kind, spec=o.spec, methods=good)
    if not good:
        raise Abort("nothing valid eagerly")
    for n in good:
        mon.event("method:" + n)
    judge(mon, kind, lambda q: {n: M[kind][n](fresh(q)) for n in good}, [a, b], vmap=bool(jax.tree.leaves(a)), strong=bool(rng.random() < 0.7))


def profiles(mon, rng):
    methods(mon, rng, ["profile"] * 5 + ["interpolated"], 3)


# -- objects built from traced arrays ---------------------------------------------------------------------
def special(mon, rng):
    what = pick(rng, ["image", "photons", "varnoise", "interpolated", "jacobian", "seed", "scalar calls"])
    n, m = int(rng.integers(2, 5)), int(rng.integers(2, 5))
    mk = lambda lo, hi, *sh: np.round(rng.uniform(lo, hi, sh), 3)  # noqa: E731
    mon.note(what=what, shape=[n, m])
    if what == "image":
        dt = pick(rng, [np.float64, np.float32, np.int32, np.uint16])
        xs = [[mk(0, 90, n, m), mk(0.2, 1, 1)[0]] for _ in range(2)]
        judge(mon, what, lambda x: [jg.Image(jnp.asarray(x[0]), scale=1.0, xmin=3, dtype=dt), jg.Image(jnp.asarray(x[0]), wcs=jg.PixelScale(x[1])), jg.ImageD(n, m, init_value=2.0) * x[1]], xs)
    elif what == "photons":
        xs = [[mk(-3, 3, n), mk(-3, 3, n), mk(0.5, 2, n)] for _ in range(2)]
        judge(mon, what, lambda x: jg.PhotonArray(n, x=jnp.asarray(x[0]), y=jnp.asarray(x[1]), flux=jnp.asarray(x[2]), dxdz=jnp.asarray(x[0])), xs)
    elif what == "varnoise":
        xs = [[mk(0.5, 9, n, m)] for _ in range(2)]

        def f(x):
            v = jg.VariableGaussianNoise(jg.BaseDeviate(5), jg.Image(jnp.asarray(x[0])))
            im = jg.ImageD(m, n)
            v.applyTo(im)
            return [v, im]

        judge(mon, what, f, xs)
    elif what == "interpolated":
        xs = [[mk(0.5, 9, n + 3, m + 3), mk(0.5, 2, 1)[0]] for _ in range(2)]

        def f(x):
            o = jg.InterpolatedImage(jg.Image(jnp.asarray(x[0]), scale=0.5), flux=x[1], offset=(0.1, 0.2))
            return [o, o.xValue(0.1, 0.3), o.kValue(0.2, 0.4), o.maxk, o.stepk, o.flux, o.centroid]

        judge(mon, what, f, xs)
    elif what == "jacobian":
        xs = [[float(v) for v in (rnd(rng, 0.2, 0.5), rnd(rng, -0.1, 0.1), rnd(rng, -0.1, 0.1), rnd(rng, 0.2, 0.5), rnd(rng, -2, 2), rnd(rng, -2, 2))] for _ in range(2)]

        def f(x):
            w = jg.AffineTransform(*x[:4], origin=jg.PositionD(x[4], x[5]))
            im = jg.Gaussian(sigma=1.5, gsparams=jg.GSParams(**FFT)).drawImage(nx=8, ny=9, wcs=w.jacobian(), offset=jg.PositionD(x[4], x[5]), dtype=float)
            return [im, w.toWorld(jg.PositionD(1.0, 2.0)), jg.Gaussian(sigma=1.5).drawKImage(nx=5, ny=6, scale=x[0])]

        judge(mon, what, f, xs)
    elif what == "seed":
        xs = [[int(v)] for v in rng.integers(1, 2**30, 2)]
        judge(mon, what, lambda x: [jg.BaseDeviate(x[0]), jg.UniformDeviate(x[0])(), jg.GaussianDeviate(x[0], sigma=2.0).generate(np.zeros(3)), jg.PoissonDeviate(x[0], mean=4.0)()], xs)
    else:
        xs = [[rnd(rng, 0.1, 3), rnd(rng, 0.1, 3), rnd(rng, 0.1, 0.9)] for _ in range(3)]
        from jax_galsim import bessel, integ, utilities

        judge(mon, what, lambda x: [bessel.j0(x[0]), bessel.kv(x[2], x[1]), bessel.si(x[0]), integ.int1d(lambda t: jnp.exp(-t * x[1]), 0.0, x[0]), utilities.horner(x[0], jnp.array([1.0, 2.0, 3.0])), utilities.horner2d(x[0], x[1], jnp.array([[1.0, 2.0], [0.5, 3.0]])), utilities.g1g2_to_e1e2(x[2] * 0.5, 0.1) if hasattr(utilities, "g1g2_to_e1e2") else 0, jg.Image.good_fft_size(65)], xs)


def constants(mon, rng):
    """Only one number is traced: all the others are constants of the compiled program."""
    leaf = pick(rng, ["Gaussian", "Exponential", "Moffat", "Spergel", "Spergel", "Spergel", "Box", "tree"])
    for _ in range(40):
        s = LEAVES[leaf](rng, None) if leaf != "tree" else tree_spec(rng, 2)
        if not isinstance(attempt(lambda: build(jg, s)), Raised) and floats(s):
            break
    else:
        raise Abort("no profile")
    paths = floats(s)
    path = pick(rng, [p for p in paths if p[-1] == "flux"] or paths) if rng.random() < 0.7 else paths[int(rng.integers(len(paths)))]
    base = at(s, path)
    xs = [[base], [base * float(1 + rng.uniform(-0.02, 0.02))]]
    what = pick(rng, ["attributes", "attributes", "values", "draw", "sizes"])
    mon.note(spec=s, traced=".".join(map(str, path)), what=what)

    def f(x):
        o = build(jg, put(s, [path], x))
        if what == "attributes":
            return [o.stepk, o.maxk, o.flux, o.centroid, o.positive_flux, o.negative_flux]
        if what == "values":
            return [o.kValue(0.1, 0.2)] + ([o.xValue(0.0, 0.0), o.xValue(0.3, -0.2)] if o.is_analytic_x else [])
        if what == "draw":
            return o.withGSParams(**FFT).drawImage(nx=5, ny=6, scale=0.3, dtype=float, method="no_pixel" if "Box" in str(s) or "Pixel" in str(s) else "fft")
        return [getattr(o, k) for k in ("half_light_radius", "fwhm", "scale_radius", "sigma") if hasattr(o, k)] + ([o.calculateFluxRadius(0.3), o.calculateIntegratedFlux(1.1)] if s["t"] == "Spergel" else []) + [o.flux]

    for x in xs[1:]:
        if isinstance(attempt(lambda: build(jg, put(s, [path], x))), Raised):
            raise Abort("changed values are not valid")
    judge(mon, "constants:" + what, f, xs, vmap=False)


GROUPS = {
    "constants": dict(fn=constants, quick=12, thorough=300, cost=2.5, shards=8, must=["jit"]),
    "built": dict(fn=built, quick=24, thorough=800, cost=2.0, shards=8, must=["jit", "vmap", "jit:structure", "compiled-once"]),
    "special": dict(fn=special, quick=6, thorough=200, cost=2.0, shards=8, must=["jit", "vmap", "compiled-once"]),
    "methods": dict(fn=methods, quick=24, thorough=1200, cost=2.0, shards=8, must=["jit", "vmap"]),
    "profiles": dict(fn=profiles, quick=7, thorough=500, cost=4.0, shards=8, must=["jit", "vmap"]),
}
