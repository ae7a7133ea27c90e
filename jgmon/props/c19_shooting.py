"""C19: photon shooting, judged by the characteristic function of the profile, by exact flux and count books, and by re-binning the photons."""

from scipy import stats

from jax_galsim.photon_array import fixed_photon_array_size
from jgmon.common import *  # noqa: F401,F403
from jgmon.props.c03_draw import make_wcs, wcs_spec
from jgmon.props.c04_interp import image_spec, mk_ii

RULE = "A case is one profile, one seed and one configuration of shooting or drawing (photon count, Poisson and noise options, buffer size, batches, image geometry)."
ASSUMPTIONS = [
    "the distribution of the photons is judged by its characteristic function: sum(flux*exp(-ik.x)) must be GalSim's kValue within 6.5 standard errors at every sampled k; the default seed is fixed and known quiet",
    "GalSim 2.8.5 is the reference for photon counts without Poisson variation, flux per photon, the placement of the profile on the image and the accumulation of given photons",
]
N = 20000
Z = 6.5


def deg(s):
    """Profiles with structure GalSim itself only approximates when shooting."""
    return min((x["kw"].get("beta", 9) for x in leaves_of(s) if x["t"] == "Moffat"), default=9)


def prof(rng, depth=2, neg=True, deep=False):
    """One shootable profile (a composition, or an interpolated image in a transformation)."""
    if rng.random() < 0.2:
        s, a = image_spec(rng, False)
        for k in ("force", "pad", "k"):  # so that kValue is accurate
            s.pop(k, None)
        s["cs"] = s["cm"] = False
        s["gs"] = {}
        if rng.random() < 0.5:
            a = np.abs(a)
        if "x" in s and (str(s["x"]["i"]).lower().startswith("sinc") or s["x"].get("gs")):
            s.pop("x")
        return ["ii", s, a]
    for _ in range(40):
        s = tree_spec(rng, depth, leaves=("Gaussian", "Exponential", "Moffat", "Spergel", "Box", "DeltaFunction"))
        try:
            build(jg, s)
        except NotImplementedError:  # convolutions in real space, documented as not implemented
            continue
        return ["tree", s]


def mkp(m, p):
    if p[0] == "ii":
        return mk_ii(m, p[1], p[2])[0]
    return build(m, p[1])


def describe(p):
    return p if p[0] == "tree" else ["ii", p[1], A(p[2]).shape]


def photons(ph):
    return A(ph.x), A(ph.y), A(ph.flux)


def charfn(mon, rng, name, g, x, y, f, mech=None, nk=14, extra=0.0, shape=None):
    """sum f exp(-ik.x) against the profile's kValue."""
    n = len(x)
    # sample k at the scale of the photons themselves, and at larger and smaller ones
    sx = np.median(np.abs(x - np.median(x))) + np.median(np.abs(y - np.median(y))) + 0.02
    k = np.exp(rng.uniform(np.log(0.05), np.log(4.0), nk)) / sx
    th = rng.uniform(0, 2 * np.pi, nk)
    kx, ky = k * np.cos(th), k * np.sin(th)
    e = np.exp(-1j * (kx[:, None] * x[None] + ky[:, None] * y[None]))
    got = (f[None] * e).sum(1)
    want = np.array([g.kValue(a, b) for a, b in zip(kx, ky)]) if shape is None else shape(kx, ky)
    se = np.sqrt(np.sum(f**2))
    # rare photons of the tails and the linearised parts of the profiles
    z = np.abs(got - want) / (se + extra)
    mon.check(name, np.max(z) < Z, mech=mech, z=float(np.max(z)), k=[float(kx[np.argmax(z)]), float(ky[np.argmax(z)])], got=complex(got[np.argmax(z)]), want=complex(want[np.argmax(z)]))
    return float(np.max(z))


def absf(g):
    """The absolute flux that has to be shot (GalSim's own bookkeeping ignores the signs of simple profiles)."""
    n = type(g).__name__
    if n == "Sum":
        return sum(absf(o) for o in g.obj_list)
    if n == "Convolution":
        return float(np.prod([absf(o) for o in g.obj_list]))
    if n == "Transformation":
        return abs(g._flux_scaling) * absf(g.original)
    return abs(g.positive_flux + g.negative_flux)


def uniform(g):
    """No component hides photons of both signs behind a smaller reported absolute flux."""
    n = type(g).__name__
    if abs(absf(g) - abs(g.positive_flux + g.negative_flux)) > 1e-9 * absf(g):
        return n == "Sum" and all(uniform(o) for o in g.obj_list)
    if n in ("Sum", "Convolution"):
        return all(uniform(o) for o in g.obj_list)
    return uniform(g.original) if n == "Transformation" else True


def reported_eta(g):
    """What GalSim bases photon counts on."""
    a = g.positive_flux + g.negative_flux
    return g.flux / a if a else 1.0


def shoot(mon, rng):
    p = prof(rng)
    seed = int(rng.integers(1, 2**31))
    mon.note(p=describe(p), seed=seed)
    J, G = mkp(jg, p), mkp(galsim, p)
    rj = jg.BaseDeviate(seed)
    start = rj.serialize()
    ph = J.shoot(N, rj)
    x, y, f = photons(ph)
    mon.check("count", len(ph) == N and len(x) == N == len(y) == len(f), got=len(ph))
    mon.check("finite", bool(np.all(np.isfinite(x)) and np.all(np.isfinite(y)) and np.all(np.isfinite(f))))
    delta = p[0] == "tree" and all(s["t"] == "DeltaFunction" for s in leaves_of(p[1]))
    if not delta:
        mon.check("stream-advanced", rj.serialize() != start)
    tol = 1e-3 if p[0] == "ii" else 1e-7  # GalSim shoots kernels it has tabulated
    af = absf(G)
    # the same absolute flux for each photon, and the flux of the profile in total
    eta = G.flux / af
    if uniform(G):
        mon.close("photon-flux", np.abs(f), np.full(N, af / N), rtol=tol)
    se = np.sqrt(np.sum(f**2) * max(0.0, 1 - eta**2))
    mon.close("total-flux", f.sum(), G.flux, atol=Z * se + tol * af, rtol=1e-10)
    if abs(abs(eta) - 1) < 1e-12:
        mon.close("total-flux-exact", f.sum(), G.flux, rtol=1e-9)
        mon.event("positive definite")
    charfn(mon, rng, "distribution", G, x, y, f, extra=2e-4 * af if p[0] == "tree" else 1e-3 * af)
    mon.event("profile:" + (p[1]["t"] if p[0] == "tree" else "InterpolatedImage"))
    # depends only on the random state
    again = photons(J.shoot(N, jg.BaseDeviate(seed)))
    mon.same("same-seed", all(np.array_equal(a, b) for a, b in zip(again, (x, y, f))), True)
    nxt = photons(J.shoot(N, rj))
    if not delta:
        mon.check("next-differ", not np.array_equal(nxt[0], x))
        rho = np.corrcoef(np.argsort(np.argsort(nxt[0])), np.argsort(np.argsort(x)))[0, 1] if np.ptp(x) > 0 and np.ptp(nxt[0]) > 0 else 0.0
        mon.check("next-independent", abs(rho) < Z / np.sqrt(N), rho=float(rho))
    if rng.random() < 0.3:
        e = J.shoot(0, rj)
        mon.check("empty", len(e) == 0 and A(e.x).shape == (0,))


def order_free(mon, rng):
    """Photons come in no order: the first half has the same distribution as the second."""
    p = prof(rng)
    seed = int(rng.integers(1, 2**31))
    mon.note(p=describe(p), seed=seed)
    J, G = mkp(jg, p), mkp(galsim, p)
    x, y, f = photons(J.shoot(N, jg.BaseDeviate(seed)))
    h = N // 2
    af = absf(G)
    for part, w in (("first", slice(0, h)), ("second", slice(h, N)), ("even", slice(0, N, 2))):
        charfn(mon, rng, "unordered:" + part, G, x[w], y[w], 2 * f[w], extra=1e-3 * af, nk=6)


def counts(mon, rng):
    """How many photons carry how much flux."""
    p = prof(rng, depth=1)
    r = rng.random()
    flux = rnd(rng, 20, 3000, log=True) if r < 0.7 else -rnd(rng, 20, 500, log=True) if r < 0.85 else pick(rng, [0.0, 0.2, 0.7, 1.0])
    if mon.index % 9 == 4:
        flux = 0.0
    kw = {}
    if rng.random() < 0.4:
        kw["n_photons"] = int(rng.integers(1, 800)) if rng.random() < 0.7 else rnd(rng, 1, 800)
    if rng.random() < 0.6:
        kw["poisson_flux"] = bool(rng.random() < 0.5)
    if rng.random() < 0.35:
        kw["max_extra_noise"] = rnd(rng, 0.01, 5, log=True)
    if mon.index % 5 == 1:
        kw.update(n_photons=int(rng.integers(1, 800)), poisson_flux=True)
    if mon.index % 5 == 2:
        p = ["tree", LEAVES[pick(rng, ("Gaussian", "Exponential", "Moffat", "Spergel", "Box"))](rng, None)]
        flux, kw = rnd(rng, 30, 300), {}
    seed = int(rng.integers(1, 2**31))
    mon.note(p=describe(p), flux=flux, kw=kw, seed=seed)
    J, G = mkp(jg, p).withFlux(flux), mkp(galsim, p).withFlux(flux)
    if "max_extra_noise" in kw and flux:
        try:
            if not np.isfinite(G.max_sb) or G.max_sb == 0:
                kw.pop("max_extra_noise")
        except Exception:
            kw.pop("max_extra_noise")
    r = lockstep(mon, "makePhot", lambda: J.makePhot(rng=jg.BaseDeviate(seed), **kw), lambda: G.makePhot(rng=galsim.BaseDeviate(seed), **kw))
    if r is None:
        return
    pj, pg = r
    fj, fg = A(pj.flux), A(pg.flux)
    poisson = kw.get("poisson_flux", "n_photons" not in kw)
    ii = p[0] == "ii"
    if flux == 0.0:
        mon.check("zero-flux", not np.any(fj), got=fj.tolist()[:5])
        return
    af = absf(G)
    own = G.flux / af
    eta = reported_eta(G)
    mon.event(f"poisson={poisson} given={'n_photons' in kw} noise={'max_extra_noise' in kw}")
    gfac = 1 + kw["max_extra_noise"] / abs(G.max_sb) if "max_extra_noise" in kw and "n_photons" not in kw else 1.0
    if not poisson:
        n = len(pg)
        q = 0 if not ii else max(1, int(0.003 * n))
        if "n_photons" in kw or abs((abs(flux / eta**2) / gfac + 0.5) % 1) > 1e-6:
            mon.check("count-without-variation", abs(len(pj) - n) <= q, got=len(pj), want=n)
        if n:
            mon.close("flux-per-photon", np.abs(fj), np.full(len(fj), af * gfac / len(fj)), rtol=1e-3 if ii else 1e-7)
            s = np.abs(fj).mean() * np.sqrt(len(fj) * max(0, 1 - own**2))
            mon.close("flux", fj.sum(), G.flux * gfac, atol=Z * s + (2e-3 if ii else 1e-7) * af * gfac, rtol=1e-9)
    else:
        mean = eta**2 * abs(flux)
        nn = len(fj)
        if nn == 0:
            mon.check("poisson-none", mean < 60, mean=mean)
            return
        g = np.abs(fj).mean() * nn / af  # flux of this realisation over the flux
        pd = g / gfac * abs(flux)
        pd = pd - abs(flux) + mean
        mon.close("poisson-integer", pd, np.round(pd), atol=1e-6 * (1 + mean) if not ii else 1e9)
        mon.check("poisson-range", abs(pd - mean) < (8 * np.sqrt(mean) + 14 if not ii else 8 * np.sqrt(mean) + 14 + 0.01 * abs(flux)), got=pd, mean=mean)
        if "n_photons" in kw:
            mon.check("count-given", nn == int(kw["n_photons"] + 0.5), got=nn)
        elif "max_extra_noise" not in kw:
            # every photon has the flux that makes up the signal to noise: one, for positive profiles
            mon.check("count-poisson", abs(nn - g * abs(flux) / eta**2) <= 0.5 + (1e-6 * nn if not ii else 2 + 0.01 * nn), got=nn, want=g * abs(flux) / eta**2)
            if abs(abs(own) - 1) < 1e-12 and not ii:
                mon.close("unit-photons", np.abs(fj), np.ones(nn), rtol=1e-9)


def poisson(mon, rng):
    """The Poisson variation of the flux, over many seeds."""
    flux = rnd(rng, 1, 30, log=True)
    sg = rnd(rng, 0.5, 2)
    neg = rng.random() < 0.3
    mode = pick(rng, ["made", "drawn", "given"])
    seed = int(rng.integers(1, 2**30))
    mon.note(flux=flux, sigma=sg, neg=neg, mode=mode, seed=seed)
    J = jg.Gaussian(sigma=sg, flux=-flux if neg else flux)
    base = jg.BaseDeviate(seed)
    t = []
    for i in range(40):
        if mode == "made":
            t.append(abs(A(J.makePhot(rng=base).flux).sum()))
        elif mode == "drawn":
            t.append(abs(F(J.drawImage(nx=41, ny=41, scale=1.0, method="phot", rng=base, dtype=float).added_flux)))
        else:
            t.append(abs(A(J.makePhot(n_photons=7, poisson_flux=True, rng=base).flux).sum()))
    t = np.array(t)
    mon.close("integers", t, np.round(t), atol=1e-7 * (1 + flux))
    d = np.sum((t - flux) ** 2 / flux)
    pv = stats.chi2.cdf(d, len(t)), stats.chi2.sf(d, len(t))
    mon.check("variance", min(pv) > 1e-7 or (flux < 8 and d < 200), p=pv, chi2=d)
    mon.check("mean", abs(t.mean() - flux) < Z * np.sqrt(flux / len(t)) + 1e-9, mean=t.mean())


def draw(mon, rng):
    """Where the photons land: one pixel each, at the place GalSim puts the profile."""
    p = prof(rng, depth=1)
    n = 400
    seed = int(rng.integers(1, 2**31))
    nx, ny = pick(rng, [(12, 9), (15, 15), (10, 10), (8, 17)])
    w = wcs_spec(rng)
    o = {"dtype": pick(rng, ["float64", "float64", "float32", "int32", "int16"])}
    if rng.random() < 0.5:
        o["offset"] = [rnd(rng, -3, 3), rnd(rng, -3, 3)]
    if rng.random() < 0.4:
        o["use_true_center"] = False
    if rng.random() < 0.4:
        o["gain"] = rnd(rng, 0.3, 4)
    if rng.random() < 0.4:
        o["add_to_image"] = True
    if rng.random() < 0.2:
        o["area"], o["exptime"] = rnd(rng, 0.5, 4), rnd(rng, 0.5, 4)
    if rng.random() < 0.2:
        o["center"] = [rnd(rng, 3, 9), rnd(rng, 3, 9)]
    at = [int(v) for v in rng.integers(-9, 9, 2)] if "center" not in o else [1, 1]
    pre = np.round(rng.normal(0, 30, (ny, nx)))
    mon.note(p=describe(p), n=n, seed=seed, nx=nx, ny=ny, wcs=w, at=at, **o)
    J, G = mkp(jg, p), mkp(galsim, p)
    dt = o["dtype"]

    def run(m, P, **kw):
        im = m.Image(pre.astype(dt), xmin=at[0], ymin=at[1])
        a = {k: v for k, v in o.items() if k in ("use_true_center", "gain", "add_to_image", "area", "exptime")}
        if "offset" in o:
            a["offset"] = m.PositionD(*o["offset"])
        if "center" in o:
            a["center"] = m.PositionD(*o["center"])
        if w["k"] == "scale":
            a["scale"] = w["scale"]
        else:
            a["wcs"] = make_wcs(m, w)
        return P.drawImage(im, method="phot", **a, **kw)

    img = run(jg, J, rng=jg.BaseDeviate(seed), n_photons=n, save_photons=True)
    x, y, f = photons(img.photons)
    mon.check("photons-saved", len(x) == n, got=len(x))
    # the same photons in GalSim's hands
    gi = run(galsim, galsim.Gaussian(sigma=1.0), rng=galsim.BaseDeviate(1), n_photons=1)
    mon.same("bounds", [img.xmin, img.xmax, img.ymin, img.ymax], [gi.xmin, gi.xmax, gi.ymin, gi.ymax])
    gp = galsim.PhotonArray(n, x=x.copy(), y=y.copy(), flux=f.copy())
    tmp = galsim.ImageD(gi.bounds)
    tmp.setCenter(0, 0)
    b = tmp.bounds
    inside = gp.addTo(tmp)
    fs = o.get("area", 1.0) * o.get("exptime", 1.0)
    scale = np.abs(f).sum() + 1
    mon.close("added-flux", F(img.added_flux), inside / fs, rtol=1e-10, atol=1e-10 * scale)
    base = pre.astype(dt).astype(float) if o.get("add_to_image") else 0.0
    want = base + tmp.array
    got = A(img.array).astype(float)
    if dt.startswith("int"):
        lim = np.abs(want) < np.iinfo(dt).max
        mon.close("pixels", got[lim], want[lim], atol=0.5 + 1e-6)
        mon.event("integer image")
    else:
        mon.close("pixels", got, want, rtol=1e-12 if dt == "float64" else 3e-6, atol=(1e-12 if dt == "float64" else 2e-6) * scale)
    mon.check("dtype", str(A(img.array).dtype) == dt)
    # each photon in the pixel whose centre is nearest, counted here
    ix, iy = np.floor(x + 0.5).astype(int) - b.xmin, np.floor(y + 0.5).astype(int) - b.ymin
    ok = (ix >= 0) & (ix < nx) & (iy >= 0) & (iy < ny)
    mon.close("books", f[ok].sum() + f[~ok].sum(), f.sum(), rtol=1e-9, atol=1e-9 * scale)
    mon.close("inside", inside, f[ok].sum(), rtol=1e-9, atol=1e-9 * scale)
    mon.event("photons outside" if np.any(~ok) else "all inside")
    # position of the same photons shot without an image
    ref = J.makePhot(n_photons=n, rng=jg.BaseDeviate(seed))
    u, v, fr = photons(ref)
    wcs = gi.wcs
    if "center" in o:
        c = galsim.PositionD(*o["center"])
    elif o.get("use_true_center", True):
        c = gi.true_center
    else:
        c = galsim.PositionD(gi.center.x, gi.center.y)
    at_c = c + (galsim.PositionD(*o["offset"]) if "offset" in o else galsim.PositionD(0, 0))
    jac = wcs.jacobian(image_pos=at_c)
    inv = np.linalg.inv(jac.getMatrix())
    rx, ry = inv @ np.vstack([u, v])
    cc = gi.center
    px, py = rx + at_c.x - cc.x, ry + at_c.y - cc.y
    size = 1 + np.abs(px) + np.abs(py)
    mon.close("position", np.vstack([x, y]) / size, np.vstack([px, py]) / size, rtol=0, atol=1e-8)
    gain = o.get("gain", 1.0)
    mon.close("flux-of-photon", f, fr * fs / gain, rtol=1e-9)
    # everything else about the drawn image
    mon.same("same-seed", np.array_equal(A(run(jg, J, rng=jg.BaseDeviate(seed), n_photons=n).array), A(img.array)), True)


def batches(mon, rng):
    """Batches of maxN photons and fixed buffers: each photon lands once."""
    flux = float(rng.integers(3, 900)) * pick(rng, [1, 1, -1])
    n = int(rng.integers(2, 700))
    maxN = pick(rng, [1, 7, 64, 64, 250, 1000])
    if maxN == 1:
        n = min(n, 60)
    fixed = pick(rng, [None, None, 300, 1000])
    sg = rnd(rng, 0.5, 2.5)
    kind = pick(rng, ["gauss", "exp", "sum", "conv"])
    opts = {}
    if rng.random() < 0.4:
        opts["gain"] = pick(rng, [2.0, 0.5])
    pois = bool(rng.random() < 0.3)
    dt = pick(rng, ["float64", "float64", "float32", "int32"])
    if dt == "int32":
        n = int(abs(flux))
        opts.pop("gain", None)
    add = bool(rng.random() < 0.4)
    seed = int(rng.integers(1, 2**31))
    mon.note(flux=flux, n=n, maxN=maxN, fixed=fixed, sigma=sg, kind=kind, opts=opts, poisson=pois, dt=dt, add=add, seed=seed)

    def mk(m):
        g = m.Gaussian(sigma=sg)
        o = {"gauss": lambda: g, "exp": lambda: m.Exponential(scale_radius=sg / 2), "sum": lambda: m.Add(g, 0.5 * m.Gaussian(sigma=2 * sg).shift(0.3, -0.2)), "conv": lambda: m.Convolve(g, m.Box(1.0, 2.0))}[kind]()
        return o.withFlux(flux)

    J = mk(jg)
    im = jg.Image(np.full((121, 121), 2.0).astype(dt), scale=1.0)
    r = jg.BaseDeviate(seed)
    ctx = fixed_photon_array_size(fixed) if fixed else fixed_photon_array_size(None)
    kw = dict(n_photons=n) if not pois else {}
    with ctx:
        img = J.drawImage(im, scale=1.0, method="phot", rng=r, maxN=maxN, add_to_image=add, **kw, **opts)
    got = A(img.array).astype(float) - (2.0 if add else 0.0)
    gain = opts.get("gain", 1.0)
    total = got.sum()
    eps = 1e-9 if dt != "float32" else 2e-5
    mon.close("added-is-image", F(img.added_flux), total, rtol=max(eps, 1e-9), atol=eps * abs(flux) / gain)
    if not pois:
        unit = abs(flux) / n / gain
        mon.close("flux", total, flux / gain, rtol=max(eps, 1e-9) * 5)
        c = got / unit
        mon.close("whole-photons", c, np.round(c), atol=1e-6 if dt != "float32" else 2e-3 * (1 + np.abs(c).max()))
        mon.check("photon-count", round(abs(c.sum())) == n, got=abs(c.sum()), want=n)
    else:
        c = got * gain
        mon.close("whole-photons", c, np.round(c), atol=1e-6 if dt != "float32" else 1e-4 * (1 + np.abs(c).max()))
        mon.check("poisson-range", abs(abs(c.sum()) - abs(flux)) < 8 * np.sqrt(abs(flux)) + 14, got=c.sum())
    mon.check("sign", np.all(c * np.sign(flux) >= -1e-6))
    mon.event(f"batches={'1' if maxN >= n else 'many'} fixed={fixed} poisson={pois}")
    # the image as a sample of the profile
    G = mk(galsim)
    yy, xx = np.mgrid[0:121, 0:121] - 60.0
    k = rng.uniform(-0.8, 0.8, (5, 2)) / sg
    for kx, ky in k:
        z = (got * np.exp(-1j * (kx * xx + ky * yy))).sum() * gain / flux
        if pois:
            z = z * flux / (total * gain) if total else z
        w = G.kValue(kx, ky) / flux * np.sinc(kx / 2 / np.pi) * np.sinc(ky / 2 / np.pi)
        nn = max(1.0, abs(c.sum()))
        if nn > 50:
            mon.check("distribution", abs(z - w) < Z / np.sqrt(nn) + 0.01, got=complex(z), want=complex(w))


def fixed(mon, rng):
    """A fixed-size buffer represents the photons it keeps."""
    p = prof(rng, depth=1)
    size = 1000
    n = int(rng.integers(1, size + 1)) if rng.random() < 0.8 else pick(rng, [0, 1, size])
    seed = int(rng.integers(1, 2**31))
    mode = pick(rng, ["shoot", "make", "poisson", "poisson-jit", "small"])
    mon.note(p=describe(p), size=size, n=n, seed=seed, mode=mode)
    J, G = mkp(jg, p), mkp(galsim, p)
    if mode.startswith("poisson"):
        fl = 0.5 * size * rnd(rng, 0.05, 1.0) * reported_eta(G) ** 2
        J, G = J.withFlux(fl), G.withFlux(fl)
    ge = reported_eta(G) if G.flux else 1.0
    if mode == "small":
        fl = pick(rng, [0.01, 0.0, 1e-4])
        J, G = J.withFlux(fl), G.withFlux(fl)
    r = jg.BaseDeviate(seed)
    with fixed_photon_array_size(size):
        if mode == "shoot":
            ph = J.shoot(n, r)
        elif mode == "make":
            ph = J.makePhot(n, r)
        elif mode == "poisson-jit":
            ph, r = jax.jit(lambda o, d: (o.makePhot(rng=d), d))(J, r)
        else:
            ph = J.makePhot(rng=r)
        img = jg.Image(64, 64, dtype=float, scale=1.0)
        img.setCenter(0, 0)
        added = ph.addTo(img)
    x, y, f = photons(ph)
    keep = ~A(ph._nokeep)
    mon.check("buffer", len(ph) == size == len(x), got=len(ph))
    mon.check("nothing-nan", bool(np.all(np.isfinite(f)) and np.all(np.isfinite(x[keep]))))
    mon.check("masked-have-no-flux", not np.any(f[~keep]))
    if mode in ("shoot", "make"):
        mon.check("kept", int(keep.sum()) == n == int(ph._num_keep), got=int(keep.sum()), want=n)
    af = absf(G)
    kept = int(keep.sum())
    tol = 1e-3 if p[0] == "ii" else 1e-7
    if kept and af:
        eta = G.flux / af
        fk = np.abs(f[keep])
        mon.close("equal-flux", fk, np.full(kept, fk.mean()), rtol=1e-9)
        if mode in ("shoot", "make"):
            mon.close("photon-flux", fk, np.full(kept, af / kept), rtol=tol)
        else:
            gfac = fk.sum() / af
            pd = gfac * abs(G.flux) - abs(G.flux) + ge**2 * abs(G.flux)
            mon.check("poisson-range", abs(pd - ge**2 * abs(G.flux)) < 8 * np.sqrt(ge**2 * abs(G.flux)) + 14 + 10 * tol * abs(G.flux), got=pd)
            mon.check("kept-poisson", abs(kept - gfac * abs(G.flux) / ge**2) <= 0.5 + 5 * tol * kept + 1e-6, got=kept, want=gfac * abs(G.flux) / ge**2)
        se = fk.mean() * np.sqrt(kept * max(0.0, 1 - eta**2))
        mon.close("total-flux", f.sum(), np.sign(G.flux) * fk.sum() * abs(eta), atol=Z * se + 2 * tol * fk.sum(), rtol=1e-9)
        mon.close("total-method", F(ph.getTotalFlux()), f.sum(), rtol=1e-10, atol=1e-12 * fk.sum())
        if kept >= 300:
            charfn(mon, rng, "distribution", G.withScaledFlux(fk.sum() / af), x[keep], y[keep], f[keep], extra=1e-3 * fk.sum(), nk=6)
    else:
        mon.close("no-photons-no-flux", f.sum(), 0.0, atol=0)
    ix, iy = np.floor(x + 0.5), np.floor(y + 0.5)
    b = img.bounds
    ok = keep & (ix >= b.xmin) & (ix <= b.xmax) & (iy >= b.ymin) & (iy <= b.ymax)
    want = np.zeros((64, 64))
    np.add.at(want, ((iy[ok] - b.ymin).astype(int), (ix[ok] - b.xmin).astype(int)), f[ok])
    mon.close("accumulated", A(img.array), want, rtol=1e-9, atol=1e-10 * (np.abs(f).sum() + 1e-300))
    mon.close("added", F(added), f[ok].sum(), rtol=1e-9, atol=1e-10 * np.abs(f).sum())
    mon.event(f"{mode} kept={'all' if kept == size else 'none' if kept == 0 else 'some'}")


GROUPS = {
    "shoot": dict(fn=shoot, quick=16, thorough=900, cost=0.6, warm=10, must=["photon-flux", "total-flux", "total-flux-exact", "distribution", "next-independent", "same-seed", "empty"]),
    "order_free": dict(fn=order_free, quick=6, thorough=250, cost=0.5, warm=8),
    "counts": dict(fn=counts, quick=14, thorough=900, cost=0.4, warm=8, must=["count-without-variation", "flux-per-photon", "unit-photons", "count-given", "zero-flux"]),
    "poisson": dict(fn=poisson, quick=2, thorough=60, cost=4, warm=3),
    "draw": dict(fn=draw, quick=12, thorough=900, cost=0.6, warm=12, must=["position", "pixels", "added-flux"]),
    "batches": dict(fn=batches, quick=7, thorough=400, cost=0.8, warm=10, must=["whole-photons", "photon-count", "distribution"]),
    "fixed": dict(fn=fixed, quick=13, thorough=800, cost=0.5, warm=10, must=["kept", "masked-have-no-flux", "accumulated", "kept-poisson"]),
}
