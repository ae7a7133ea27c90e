"""C18: noise models, judged by the deviates they are built on, by statistics, and by GalSim's variance formulas."""

from scipy import stats

from jgmon.common import *  # noqa: F401,F403
from jgmon.props.c13_euclidean_wcs import mk as mk_wcs
from jgmon.props.c13_euclidean_wcs import spec as wcs_spec

RULE = "A case is one noise model with its parameters, one image (shape, dtype, origin, WCS, pixel levels) and a history of applications."
ASSUMPTIONS = [
    "the deviates themselves are judged by C16 and C17; here the noise added must be the deviate's values pushed through the model GalSim documents",
    "CCD noise, which mixes two deviates, is judged by its moments: each statistic alarms below a p-value of 1e-7 and the default seed is fixed and known quiet",
    "GalSim 2.8.5 is the reference for variances, scaling, refusals and integer images (noise is truncated before it is added to them)",
]
P = 1e-7


def image_for(rng, kind, n=None):
    dt = pick(rng, ["float64", "float64", "float32", "int32", "int16"])
    ny, nx = n or pick(rng, [(4, 5), (7, 3), (6, 6)])
    lev = rnd(rng, 0.5, 200, log=True)
    a = np.round(np.abs(rng.normal(lev, lev / 3 + 0.1, (ny, nx))), 2)
    if rng.random() < 0.3:
        a[0, 0] = -a[0, 0] - 1.0
    if rng.random() < 0.2:
        a[...] = 0
    return dict(a=a.astype(dt), dt=dt, at=[int(v) for v in rng.integers(-20, 20, 2)], wcs=wcs_spec(rng) if rng.random() < 0.6 else None)


def mk_image(m, s):
    return m.Image(s["a"].copy(), xmin=s["at"][0], ymin=s["at"][1], wcs=mk_wcs(m, s["wcs"]) if s["wcs"] else None)


def model_spec(rng, kind=None):
    kind = kind or pick(rng, ["gauss", "poisson", "ccd", "dev", "var"])
    s = {"k": kind}
    if kind == "gauss":
        s["sigma"] = rnd(rng, 0.05, 50, log=True)
    elif kind == "poisson":
        s["sky"] = pick(rng, [0.0, rnd(rng, 0.1, 300, log=True), float(rng.integers(1, 50)), 12.5])
    elif kind == "ccd":
        s["sky"] = pick(rng, [0.0, rnd(rng, 0.1, 300, log=True), 25.0])
        s["gain"] = pick(rng, [1.0, rnd(rng, 0.2, 8, log=True), rnd(rng, 0.2, 8, log=True), 0.0])
        s["rn"] = pick(rng, [0.0, rnd(rng, 0.1, 20, log=True), rnd(rng, 0.1, 20, log=True)])
    elif kind == "dev":
        s["dev"] = pick(
            rng,
            [
                ["Gaussian", {"mean": rnd(rng, -3, 3), "sigma": rnd(rng, 0.1, 5)}],
                ["Poisson", {"mean": rnd(rng, 0.5, 40)}],
                ["Uniform", {}],
                ["Weibull", {"a": rnd(rng, 1, 4), "b": rnd(rng, 0.5, 4)}],
                ["Gamma", {"k": rnd(rng, 1, 4), "theta": rnd(rng, 0.5, 4)}],
                ["Chi2", {"n": rnd(rng, 1, 9)}],
                ["Binomial", {"N": 7, "p": 0.4}],
            ],
        )
    return s


def mk_model(m, s, rng, var=None):
    k = s["k"]
    if k == "gauss":
        return m.GaussianNoise(rng, sigma=s["sigma"])
    if k == "poisson":
        return m.PoissonNoise(rng, sky_level=s["sky"])
    if k == "ccd":
        return m.CCDNoise(rng, sky_level=s["sky"], gain=s["gain"], read_noise=s["rn"])
    if k == "dev":
        return m.DeviateNoise(getattr(m, s["dev"][0] + "Deviate")(rng, **s["dev"][1]))
    return m.VariableGaussianNoise(rng, var)


def expected(s, a, dev, var=None):
    """Pixels after the noise, from the values the deviate `dev` (a plain BaseDeviate) is about to yield."""
    k = s["k"]
    dt = a.dtype
    if k == "gauss":
        x = A(jg.GaussianDeviate(dev, sigma=s["sigma"]).generate(np.zeros(a.shape)))
    elif k == "dev":
        x = A(getattr(jg, s["dev"][0] + "Deviate")(dev, **s["dev"][1]).generate(np.zeros(a.shape)))
    elif k == "var":
        x = A(jg.GaussianDeviate(dev).generate_from_variance(jnp.asarray(var)))
    if k not in ("poisson", "ccd"):
        return (a + x.astype(dt)).astype(dt)
    frac = s["sky"] - float(dt.type(s["sky"]))
    if k == "ccd":
        x = a.astype(float) + s["sky"]
        if s["gain"] > 0:
            dev = jg.PoissonDeviate(dev)
            x = A(dev.generate_from_expectation(jnp.asarray(np.clip(x * s["gain"], 0, None)))) / s["gain"]
        if s["rn"] > 0:
            x = x + A(jg.GaussianDeviate(dev, sigma=s["rn"] / (s["gain"] if s["gain"] > 0 else 1)).generate(np.zeros(a.shape)))
        return ((x - frac).astype(dt) - (s["sky"] - frac)).astype(dt)
    x = np.clip(a.astype(float) + s["sky"], 0, None)
    x = A(jg.PoissonDeviate(dev).generate_from_expectation(jnp.asarray(x)))
    return ((x - frac).astype(dt) - (s["sky"] - frac)).astype(dt)


_JIT = {}


def jitted(k):
    if k not in _JIT:

        def f(n, im):
            n.applyTo(im)
            return n, im

        _JIT[k] = jax.jit(f)
    return _JIT[k]


def apply(mon, rng):
    """Every application: the right noise, kept dtype/bounds/WCS, an advanced stream."""
    s = model_spec(rng)
    im = image_for(rng, s["k"])
    if im["dt"].startswith("int") and s["k"] == "poisson" and im["a"].min() < 0:
        im["a"] = np.abs(im["a"])
    seed, skip = int(rng.integers(1, 2**31 - 1)), int(rng.integers(0, 4))
    var = np.round(np.exp(rng.uniform(-3, 4, im["a"].shape)), 4)
    mon.note(model=s, image={k: v for k, v in im.items() if k != "a"}, shape=im["a"].shape, seed=seed)
    base = jg.BaseDeviate(seed)
    base.discard(skip)
    n = mk_model(jg, s, base, jg.Image(var))
    cur = mk_image(jg, im)
    tol = dict(rtol=1e-12, atol=1e-12) if im["dt"] == "float64" else dict(rtol=2e-6, atol=1e-5 * (1 + s.get("sky", 0))) if im["dt"] == "float32" else dict(atol=1e-9)
    earlier = []
    drawn = not (s["k"] == "ccd" and s["gain"] <= 0 and s["rn"] == 0)
    for step in range(3):
        before = A(cur.array)
        keep = cur.copy()
        pos0 = base.duplicate()
        meth = pick(rng, ["applyTo", "addNoise", "addNoise", "jit"])
        if meth == "applyTo":
            mon.check("returns-nothing", n.applyTo(cur) is None)
        elif meth == "addNoise":
            mon.check("returns-nothing", cur.addNoise(n) is None)
        else:
            n2, cur2 = jitted(s["k"])(n, cur)
            mon.same("jit-leaves-image", A(cur.array), before)
            mon.check("jit-leaves-stream", base == pos0)
            cur = cur2
            # the documented way to follow the stream out of a compiled function
            base.reset(n2.rng) if s["k"] != "x" else None
            n = mk_model(jg, s, base, jg.Image(var))
        after = A(cur.array)
        mon.same("dtype-kept", str(after.dtype), im["dt"], meth=meth)
        mon.check("bounds-kept", cur.bounds == keep.bounds and cur.wcs == keep.wcs, meth=meth)
        mon.same("copies-untouched", A(keep.array), before)
        if s["k"] == "ccd" and im["dt"][0] == "i":
            # truncation of a value within rounding of a whole number may fall either way
            d = after.astype(float) - expected(s, before, pos0.duplicate())
            mon.check("noise-is-the-model's", np.max(np.abs(d)) <= 1 and np.count_nonzero(d) <= 0.1 * d.size, mech="noise:ccd:" + meth, worst=float(np.max(np.abs(d))), n=int(np.count_nonzero(d)), meth=meth)
        else:
            mon.close("noise-is-the-model's", after, expected(s, before, pos0.duplicate(), var), mech="noise:" + s["k"] + ":" + meth, meth=meth, **tol)
        # equal states reproduce equal noise
        twin = keep.copy()
        mk_model(jg, s, pos0.duplicate(), jg.Image(var)).applyTo(twin)
        mon.close("equal-seeds-equal-noise", A(twin.array), after, mech="reproducible:" + s["k"], **(tol if im["dt"][0] == "f" else dict(atol=1.0)))
        if drawn:
            mon.check("stream-advanced", base != pos0, mech="stream-advanced:" + s["k"], meth=meth)
            st = base.serialize()
            mon.check("stream-never-returns", st not in earlier and pos0.serialize() != st, mech="stream-advanced:" + s["k"])
            earlier += [st]
        else:
            mon.close("no-noise", after, before, atol=1e-9 if im["dt"] != "float32" else 1e-4 * (1 + s["sky"]))
    mon.event(f"model:{s['k']}:{im['dt']}")
    # const images and other things are refused, and nothing moves
    st = base.serialize()
    c = mk_image(jg, im).copy(make_const=True)
    mon.raises("const-refused", lambda: c.addNoise(n))
    mon.same("const-untouched", A(c.array), im["a"])
    mon.raises("non-image-refused", lambda: n.applyTo(im["a"]))
    if s["k"] == "var":
        mon.raises("shape-refused", lambda: jg.Image(im["a"].shape[1] + 1, im["a"].shape[0]).addNoise(n))
    mon.same("refusal-leaves-stream", base.serialize(), st)


def replay(mon, rng):
    """Sky and detector noise pixel by pixel: the sky goes in, the noise is drawn, the sky (and only the sky) comes out."""
    k = pick(rng, ["ccd", "ccd", "poisson"])
    s = model_spec(rng, k)
    s["sky"] = pick(rng, [0.0, float(rng.integers(1, 40)), float(rng.integers(0, 40)) + pick(rng, [0.25, 0.5, 0.75]), rnd(rng, 0.1, 300, log=True)])
    im = image_for(rng, k, (6, 6))
    if k == "poisson" and im["dt"].startswith("int"):
        im["a"] = np.abs(im["a"])
    seed = int(rng.integers(1, 2**31 - 1))
    mon.note(model=s, dt=im["dt"], seed=seed)
    base = jg.BaseDeviate(seed)
    cur = mk_image(jg, im)
    mk_model(jg, s, base).applyTo(cur)
    after, want = A(cur.array), expected(s, im["a"], jg.BaseDeviate(seed))
    if im["dt"][0] == "i":
        d = after.astype(float) - want
        mon.check("pixel-by-pixel", np.max(np.abs(d)) <= 1 and np.count_nonzero(d) <= 0.1 * d.size, mech="noise:" + k, worst=float(np.max(np.abs(d))), n=int(np.count_nonzero(d)))
    else:
        mon.close("pixel-by-pixel", after, want, mech="noise:" + k, **(dict(rtol=1e-12, atol=1e-11) if im["dt"] == "float64" else dict(rtol=2e-6, atol=1e-5 * (1 + s["sky"]))))
    mon.event(f"replay:{k}:{im['dt'][0]}:{'whole' if s['sky'] % 1 == 0 else 'fractional'}-sky")


def moments(mon, rng):
    """Mean and per-pixel variance over many pixels at several levels; successive applications independent."""
    kind = ["ccd", "ccd", "ccd", "gauss", "poisson", "var"][mon.index % 6]
    s = model_spec(rng, kind)
    if kind == "ccd" and mon.index < 6:
        s["gain"], s["rn"] = rnd(rng, 0.4, 4), rnd(rng, 1, 20)
    dt = pick(rng, ["float64", "float64", "float32"])
    n = 60
    levels = np.round(np.exp(rng.uniform(-1, 6, 3)), 2)
    a = np.repeat(levels, n * n).reshape(3 * n, n)
    seed = int(rng.integers(1, 2**31 - 1))
    mon.note(model=s, levels=levels, dt=dt, seed=seed)
    var = np.repeat(np.exp(rng.uniform(-2, 4, 3)), n * n).reshape(3 * n, n)
    base = jg.BaseDeviate(seed)
    model = mk_model(jg, s, base, jg.Image(var))
    res = []
    for _ in range(2):
        im = jg.Image(a.astype(dt))
        if mon.index % 2:
            model, im = jitted(kind)(model, im)
        else:
            model.applyTo(im)
        res.append(A(im.array).astype(float) - a.astype(dt).astype(float))
    for i, L in enumerate(levels):
        sl = slice(i * n, (i + 1) * n)
        if kind == "gauss":
            v = s["sigma"] ** 2
        elif kind == "poisson":
            v = L + s["sky"]
        elif kind == "var":
            v = var[i * n, 0]
        else:
            g, r = s["gain"], s["rn"]
            v = (L + s["sky"]) / g + (r / g) ** 2 if g > 0 else r**2
        for k in (0, 1):
            x = res[k][sl].ravel()
            N = x.size
            if v == 0:
                mon.close("no-noise", x, 0 * x, atol=1e-3)
                continue
            z = x.mean() / np.sqrt(v / N)
            mon.check("mean", 2 * stats.norm.sf(abs(z)) > P, z=z, level=L, mech="mean:" + kind)
            # Var of the sample variance, with the excess kurtosis of the Poisson part
            g = s.get("gain", 1.0) if kind == "ccd" else 1.0
            lam = (L + s["sky"]) * g if kind in ("ccd", "poisson") and g > 0 else 0.0
            k4 = lam / g**4 if g > 0 else 0.0
            sd = np.sqrt((2 * v**2 + k4) / N)
            zv = (np.mean(x**2) - v) / sd
            mon.check("variance", 2 * stats.norm.sf(abs(zv)) > P, z=zv, got=np.mean(x**2), want=v, level=L, mech="variance:" + kind)
            y = x.reshape(n, n)
            for c in (np.mean(y[1:] * y[:-1]), np.mean(y[:, 1:] * y[:, :-1])):
                zc = c / v * np.sqrt(N - n)
                mon.check("pixels-independent", 2 * stats.norm.sf(abs(zc)) > P, z=zc, mech="pixels-independent:" + kind)
        if v > 0:
            c = np.mean(res[0][sl] * res[1][sl]) / v * n
            mon.check("applications-independent", 2 * stats.norm.sf(abs(c)) > P, z=c, mech="applications-independent:" + kind)
    mon.event("pixels", res[0].size * 2)
    mon.event("moments:" + kind)


def formulas(mon, rng):
    """Variances, rescaling, parameters and refusals as in GalSim."""
    s = model_spec(rng)
    bare = rng.random() < 0.3
    if bare:
        # models with no noise in them yet
        s = pick(rng, [dict(k="ccd", sky=0.0, gain=pick(rng, [0.0, 1.0, 2.5]), rn=0.0), dict(k="ccd", sky=0.0, gain=pick(rng, [1.0, 3.0]), rn=0.0), dict(k="ccd", sky=4.0, gain=0.0, rn=0.0), dict(k="ccd", sky=0.0, gain=0.0, rn=2.0), dict(k="poisson", sky=0.0), dict(k="gauss", sigma=0.0)])
    im = image_for(rng, s["k"])
    var = np.round(np.exp(rng.uniform(-3, 4, im["a"].shape)), 4)
    ms = {m: mk_model(m, s, m.BaseDeviate(5), m.Image(var)) for m in (jg, galsim)}
    v = pick(rng, [rnd(rng, 0.01, 100, log=True), 2.0])
    f = pick(rng, ["getVariance", "withVariance", "withScaledVariance", "mul", "rmul", "div", "copy", "copy-rng"])
    if bare and rng.random() < 0.5:
        f = "withVariance"
    mon.note(model=s, f=f, v=v)

    def run(m):
        n = ms[m]
        if f == "getVariance":
            return n.getVariance()
        if f == "mul":
            return n * v
        if f == "rmul":
            return v * n
        if f == "div":
            return n / v
        if f == "copy":
            return n.copy()
        if f == "copy-rng":
            return n.copy(rng=m.BaseDeviate(9))
        return getattr(n, f)(v)

    before = {m: repr(ms[m]) for m in ms}
    r = lockstep(mon, f, lambda: run(jg), lambda: run(galsim), kinds=True)
    mon.same("model-unchanged", repr(ms[jg]), before[jg])
    if r is None:
        return
    j, g = r
    if f == "getVariance":
        mon.close("variance-formula", F(j), g, rtol=1e-12)
        return
    mon.same("type", type(j).__name__, type(g).__name__)
    for a in ("sigma", "sky_level", "gain", "read_noise"):
        if hasattr(g, a):
            mon.close("parameter:" + a, F(getattr(j, a)), getattr(g, a), rtol=1e-12)
    r = lockstep(mon, "variance-after", lambda: j.getVariance(), lambda: g.getVariance(), kinds=True)
    if r:
        mon.close("variance-formula", F(r[0]), r[1], rtol=1e-12)
    if s["k"] == "var":
        mon.same("var-image", A(j.var_image.array), var)
    # the rescaled or copied model draws from the same stream (or the one it was given)
    st = ms[jg].rng.serialize()
    w = mk_image(jg, im)
    j.applyTo(w)
    if s["k"] != "ccd" or (s["rn"] > 0 or s["gain"] > 0):
        mon.check("stream-shared", (ms[jg].rng.serialize() != st) == (f != "copy-rng"), f=f)


def snr(mon, rng):
    """addNoiseSNR: the variance it reports and the image it leaves."""
    s = model_spec(rng, pick(rng, ["gauss", "poisson", "ccd"]))
    if s["k"] == "ccd":
        s["gain"] = max(s["gain"], 0.5)
    if s["k"] == "poisson" or (s["k"] == "ccd" and s["rn"] == 0):
        s["sky"] = max(s["sky"], 1.0)
    im = image_for(rng, s["k"])
    im["a"] = np.abs(im["a"]).astype(pick(rng, ["float64", "float32"])) + 1
    im["dt"] = str(im["a"].dtype)
    t = rnd(rng, 1, 200, log=True)
    pf = bool(rng.random() < 0.5)
    mon.note(model=s, snr=t, preserve_flux=pf, dt=im["dt"])
    seed = int(rng.integers(1, 2**31))
    n, g = mk_model(jg, s, jg.BaseDeviate(seed)), mk_model(galsim, s, galsim.BaseDeviate(seed))
    J, G = mk_image(jg, im), mk_image(galsim, im)
    r, w = J.addNoiseSNR(n, t, preserve_flux=pf), G.addNoiseSNR(g, t, preserve_flux=pf)
    mon.close("snr-variance", F(r), w, rtol=1e-5 if im["dt"] == "float32" else 1e-11)
    # same stream, explicit steps
    n2 = mk_model(jg, s, jg.BaseDeviate(seed))
    K = mk_image(jg, im)
    if pf:
        n2 = n2.withVariance(F(r))
    else:
        K *= t / np.sqrt(np.sum(im["a"].astype(float) ** 2) / F(n2.getVariance()))
    K.addNoise(n2)
    mon.close("snr-image", A(J.array), A(K.array), rtol=1e-4 if im["dt"] == "float32" else 1e-9, atol=(1e-4 if im["dt"] == "float32" else 1e-9) * (1 + s.get("sky", 0) + np.abs(A(K.array)).max()) if s["k"] == "gauss" else 2.01)
    mon.same("snr-dtype", str(A(J.array).dtype), im["dt"])


def shared(mon, rng):
    """Models made from one deviate share its stream: no value is used twice."""
    seed = int(rng.integers(1, 2**31))
    mon.note(seed=seed)
    base = jg.BaseDeviate(seed)
    a, b = jg.GaussianNoise(base, sigma=1.0), jg.GaussianNoise(base, sigma=1.0)
    seen = []
    for _ in range(5):
        w = pick(rng, ["a", "b", "copy", "scaled", "draw", "ccd"])
        im = jg.ImageD(3, 3)
        if w == "draw":
            x = A(jg.GaussianDeviate(base).generate(np.zeros(9)))
        else:
            m = {"a": a, "b": b, "copy": a.copy(), "scaled": b.withVariance(1.0), "ccd": jg.CCDNoise(base, gain=1.0, read_noise=1.0)}[w]
            m.applyTo(im)
            x = A(im.array).ravel()
        for y in seen:
            mon.check("no-value-used-twice", not np.any(np.isclose(x[:, None], y[None, :], rtol=1e-12, atol=0)), w=w)
        seen.append(x)
    # shooting and then adding noise with one deviate: the noise continues where the shooting stopped
    base = jg.BaseDeviate(seed)
    n = jg.GaussianNoise(base, sigma=1.0)
    jg.Gaussian(sigma=1.0, flux=20.0).drawImage(nx=6, ny=6, scale=1.0, method="phot", rng=base)
    want = base.duplicate()
    im = jg.ImageD(3, 3)
    im.addNoise(n)
    mon.close("noise-after-shooting", A(im.array), A(jg.GaussianDeviate(want).generate(np.zeros((3, 3)))), rtol=1e-12)


GROUPS = {
    "apply": dict(fn=apply, quick=20, thorough=2000, cost=0.7, warm=14, must=["noise-is-the-model's", "stream-advanced", "equal-seeds-equal-noise", "const-refused"]),
    "moments": dict(fn=moments, quick=10, thorough=600, cost=0.5, warm=8, must=["mean", "variance", "applications-independent"]),
    "replay": dict(fn=replay, quick=44, thorough=1500, cost=0.3, warm=5, must=["pixel-by-pixel"]),
    "formulas": dict(fn=formulas, quick=56, thorough=1200, cost=0.1, warm=5),
    "snr": dict(fn=snr, quick=14, thorough=400, cost=0.2, warm=5),
    "shared": dict(fn=shared, quick=6, thorough=200, cost=0.3, warm=6),
}
