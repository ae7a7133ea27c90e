"""C01: analytic profiles against GalSim."""

from jgmon.common import *  # noqa: F401,F403

RULE = "A case is one profile (class, size argument, shape index, flux, accuracy parameters) with points drawn in real and Fourier space."
ASSUMPTIONS = ["GalSim 2.8.5 (C++ implementation) is the reference for profile values"]

# tolerance of values relative to the peak: (x, k)
TOL = {"Gaussian": (1e-11, 1e-11), "Exponential": (1e-11, 1e-11), "Box": (1e-11, 1e-11), "Pixel": (1e-11, 1e-11), "Moffat": (1e-9, 4e-5), "Spergel": (1e-8, 1e-9)}


def _profile(cls, wide=False):
    def case(mon, rng):
        gs = gs_kwargs(rng, 0.4, mon.tier)
        s = LEAVES[cls](rng, gs)
        if cls == "Moffat" and not wide:
            s["kw"]["beta"] = rnd(rng, 1.9, 8.0, log=True)
        elif cls == "Moffat" and wide:
            s["kw"]["beta"] = pick(rng, [rnd(rng, 1.15, 1.6), rnd(rng, 12, 60, log=True)])
        mon.note(spec=s)
        j, g = build(jg, s), build(galsim, s)
        compare(mon, rng, s, j, g)
    return case


def radius(g):
    try:
        return g.half_light_radius
    except Exception:
        return max(g.width, g.height)


def compare(mon, rng, s, j, g):
    name = s["t"]
    tx, tk = TOL[name]
    if name == "Spergel" and "half_light_radius" in s["kw"]:
        tx, tk = 1e-6, 1e-6  # the half-light radius goes through a rational approximation
    R = radius(g)
    # real space
    if name in ("Box", "Pixel"):
        w, h = g.width, g.height
        pts = [(0.0, 0.0), (0.49999 * w, 0.2 * h), (-0.49999 * w, -0.49999 * h), (0.50001 * w, 0.1 * h), (0.3 * w, 0.50001 * h), (0.2 * w, -0.50001 * h)]
        pts += [(rng.uniform(-1, 1) * w, rng.uniform(-1, 1) * h) for _ in range(5)]
        pts = [p for p in pts if abs(abs(p[0]) - w / 2) > 1e-7 * w and abs(abs(p[1]) - h / 2) > 1e-7 * h]
    else:
        pts = [(0.0, 0.0)] if not (name == "Spergel" and s["kw"]["nu"] <= 0) else []
        for f in (1e-3, 0.1, 0.5, 1.0, 2.0, 4.0, 7.0):
            th = rng.uniform(0, 2 * np.pi)
            r = R * f * rng.uniform(0.8, 1.2)
            pts.append((r * np.cos(th), r * np.sin(th)))
    for x, y in pts:
        gv = g.xValue(x, y)
        sc = abs(g.flux) / R**2
        mon.close("real-space-value", j.xValue(x, y), gv, rtol=tx, atol=tx * sc, at=[x, y])
    mon.close("real-space-value-by-position", j.xValue(jg.PositionD(*pts[-1])), g.xValue(galsim.PositionD(*pts[-1])), rtol=tx, atol=tx * abs(g.flux) / R**2)
    # Fourier space
    for f in ((0.0, 1e-3, 0.05, 0.3, 0.7, 1.0, 2.0, 5.0) if not (name == "Moffat" and s["kw"]["beta"] > 8) else (0.0, 1e-3, 0.05, 0.3, 0.7, 1.0, 8.0, 5.0, 12.0)):
        th = rng.uniform(0, 2 * np.pi)
        k = f / R * rng.uniform(0.8, 1.2)
        kx, ky = k * np.cos(th), k * np.sin(th)
        mech, tolk = None, tk * abs(g.flux)
        if name == "Moffat":
            b = s["kw"]["beta"]
            if k > 0.98 * g.maxk:  # below maxk_threshold * flux by definition: there an expansion is used
                tolk = max(tolk, 0.2 * g.gsparams.maxk_threshold * abs(g.flux))
            if b < 1.9 and k < 2.5 * g.maxk / 699:
                mech = "moffat-table-first-interval-low-beta"
            elif b > 12 and k > 0.98 * g.maxk:
                mech = "moffat-asymptotic-tail-high-beta"
            if mech and abs(F(np.real(A(j.kValue(kx, ky)))) - g.kValue(kx, ky).real) > 0.25 * abs(g.flux):
                mech = None  # far beyond what the recorded finding describes
        mon.close("fourier-value", j.kValue(kx, ky), g.kValue(kx, ky), rtol=0 if name == "Moffat" else tk, atol=tolk, at=[kx, ky], mech=mech)
    mon.close("fourier-value-at-origin-is-flux", j.kValue(0.0, 0.0), s["kw"]["flux"], rtol=1e-12)
    # derived scalars
    for a, rt in ATTRS.get(name, []) + COMMON:
        if a == "max_sb" and name == "Spergel" and s["kw"]["nu"] <= 0:
            gv = getattr(g, a)
            if not np.isfinite(gv):
                continue
        gv, jv = getattr(g, a), getattr(j, a)
        mon.close("derived:" + a, jv, gv, rtol=rt if not callable(rt) else rt(s))
    mon.close("centroid", pos(j.centroid), pos(g.centroid), atol=1e-14)
    for a in ("has_hard_edges", "is_axisymmetric", "is_analytic_x", "is_analytic_k"):
        mon.same("flag:" + a, bool(getattr(j, a)), bool(getattr(g, a)))
    # flux rescaling
    f2 = flux_of(rng)
    mon.close("withFlux", j.withFlux(f2).xValue(*pts[-1]), g.withFlux(f2).xValue(*pts[-1]), rtol=10 * tx, atol=tx * abs(f2) / R**2)
    mon.close("withFlux", j.withFlux(f2).flux, f2, rtol=1e-14)


ATTRS = {
    "Gaussian": [("sigma", 1e-13), ("fwhm", 1e-13), ("half_light_radius", 1e-13)],
    "Exponential": [("scale_radius", 1e-11), ("half_light_radius", 1e-11)],
    "Moffat": [("beta", 1e-14), ("scale_radius", 1e-8), ("fwhm", 1e-8), ("half_light_radius", 1e-8), ("trunc", 0)],
    "Spergel": [("nu", 1e-14), ("scale_radius", 1e-6), ("half_light_radius", 1e-6)],
    "Box": [("width", 1e-14), ("height", 1e-14)],
    "Pixel": [("scale", 1e-14), ("width", 1e-14), ("height", 1e-14)],
}
COMMON = [("flux", 1e-13), ("maxk", 1e-3), ("stepk", 1e-3), ("max_sb", 1e-6), ("positive_flux", 1e-10), ("negative_flux", 1e-10), ("nyquist_scale", 1e-3)]



def sizes(mon, rng):
    """The same profile through every equivalent size argument, and the integral of the surface brightness."""
    cls = pick(rng, ["Gaussian", "Exponential", "Moffat", "Spergel"])
    names = {"Gaussian": ["sigma", "fwhm", "half_light_radius"], "Exponential": ["scale_radius", "half_light_radius"], "Moffat": ["scale_radius", "fwhm", "half_light_radius"], "Spergel": ["scale_radius", "half_light_radius"]}[cls]
    extra = {}
    if cls == "Moffat":
        extra["beta"] = rnd(rng, 1.3, 9.0, log=True)
    if cls == "Spergel":
        extra["nu"] = rnd(rng, -0.6, 3.9)
    flux = flux_of(rng)
    n0 = pick(rng, names)
    v0 = rnd(rng, 0.2, 4.0, log=True)
    mon.note(cls=cls, arg=n0, value=v0, flux=flux, **extra)
    o = getattr(jg, cls)(**{n0: v0}, flux=flux, **extra)
    mon.close("size-attribute-is-what-was-given", getattr(o, n0), v0, rtol=1e-6 if cls == "Spergel" else 1e-12)
    R = F(o.half_light_radius)
    for n in names:
        v = F(getattr(o, n))
        p = getattr(jg, cls)(**{n: v}, flux=flux, **extra)
        rt = 1e-6 if cls == "Spergel" else 1e-9
        for _ in range(3):
            x, y = rng.normal(size=2) * R
            mon.close("equivalent-size-args-real", p.xValue(x, y), o.xValue(x, y), rtol=rt * 10)
            mon.close("equivalent-size-args-fourier", p.kValue(x / R**2, y / R**2), o.kValue(x / R**2, y / R**2), atol=rt * abs(flux))
    if cls == "Moffat" and extra["beta"] < 2.2:
        return
    # flux within the half-light radius and in total, by Gauss-Legendre quadrature in log radius
    t, w = np.polynomial.legendre.leggauss(96)
    for lo, hi, want, tol in ((1e-8, 1.0, 0.5, 3e-4), (1e-8, 60.0, 1.0, 3e-3)):
        a, b = np.log(lo * R), np.log(hi * R)
        if lo * R < 1e-8:
            a = np.log(1e-8)
        u = 0.5 * (b - a) * t + 0.5 * (b + a)
        r = np.exp(u)
        th = rng.uniform(0, 2 * np.pi)
        vals = A(jax.vmap(lambda rr: o.xValue(rr * np.cos(th), rr * np.sin(th)))(jnp.array(r)))
        got = np.sum(w * vals * 2 * np.pi * r * r) * 0.5 * (b - a)
        if cls == "Moffat":
            hi_frac = 1 - (1 + (hi * R / F(o.scale_radius)) ** 2) ** (1 - extra["beta"])
            want = hi_frac if hi > 1 else want
            acc = o.gsparams.xvalue_accuracy
            rmax = np.sqrt(acc ** (1 / (1 - extra["beta"])) - 1) * F(o.scale_radius)
            if hi * R > rmax:
                tol = 2e-2
        mon.close("surface-brightness-integrates-to-flux", got / flux, want, atol=tol, upto=hi)


def spergel_radii(mon, rng):
    s = spergel_spec(rng)
    mon.note(spec=s)
    j, g = build(jg, s), build(galsim, s)
    for _ in range(3):
        f = rng.uniform(0.02, 0.98)
        mon.close("flux-radius", j.calculateFluxRadius(f), g.calculateFluxRadius(f), rtol=2e-5)
        r = F(j.calculateFluxRadius(f))
        mon.close("integrated-flux", j.calculateIntegratedFlux(r), f, atol=1e-6)
        mon.close("integrated-flux-vs-galsim", j.calculateIntegratedFlux(r), g.calculateIntegratedFlux(r), atol=2e-6)


GROUPS = {c.lower(): dict(fn=_profile(c), quick=150, thorough=4000, cost=0.02, warm=8) for c in ("Gaussian", "Exponential", "Moffat", "Spergel", "Box")}
GROUPS["moffat_wide"] = dict(fn=_profile("Moffat", True), quick=16, thorough=200, cost=0.05, warm=5)
GROUPS["moffat"]["cost"] = GROUPS["spergel"]["cost"] = 0.06
GROUPS["sizes"] = dict(fn=sizes, quick=80, thorough=1500, cost=0.1, warm=8)
GROUPS["spergel_radii"] = dict(fn=spergel_radii, quick=60, thorough=1000, cost=0.05, warm=8)
