"""One generator for every public kind of value object, buildable with either library.

`any_object(rng, kind)` returns an Obj: a JSON-able spec, `make(m, spec)` and `probe(m, o)`, the
numbers a user reads off the object (a dict of flat float arrays)."""

import copy as _copy

from jgmon.common import *
from jgmon.props import c03_draw as C3
from jgmon.props import c04_interp as C4
from jgmon.props import c12_celestial as C12
from jgmon.props import c13_euclidean_wcs as C13
from jgmon.props import c14_fits_wcs as C14
from jgmon.props import c18_noise as C18
from jgmon.props.c20_photons import FAM, OTHER, vals


class Obj:
    def __init__(self, kind, spec, make, probe):
        self.kind, self.spec, self._make, self._probe = kind, spec, make, probe

    def make(self, m=jg, spec=None):
        return self._make(m, self.spec if spec is None else spec)

    def probe(self, m, o):
        return {k: np.atleast_1d(np.asarray(v, dtype=None)).ravel() for k, v in self._probe(m, o, self.spec).items()}


def fl(*xs):
    return np.array([np.asarray(x, dtype=float) for x in xs])


# -- profiles -------------------------------------------------------------------------------------
PTS = [(0.3, -0.7), (1.9, 0.4), (0.0, 0.0)]


def p_profile(m, o, s):
    r = {
        "kvalue": [complex(o.kValue(m.PositionD(x, y))) for x, y in PTS],
        "sizes": fl(o.maxk, o.stepk),
        "flux": fl(o.flux, o.positive_flux, o.negative_flux, o.max_sb),
        "centroid": fl(o.centroid.x, o.centroid.y),
        "flags": [o.is_axisymmetric, o.has_hard_edges, o.is_analytic_x, o.is_analytic_k],
        "gsparams": fl(*[getattr(o.gsparams, k) for k in GSP]),
    }
    if o.is_analytic_x:
        r["xvalue"] = fl(*[o.xValue(m.PositionD(x, y)) for x, y in PTS[:2]])
    return r


GSP = ["minimum_fft_size", "maximum_fft_size", "folding_threshold", "stepk_minimum_hlr", "maxk_threshold", "kvalue_accuracy", "xvalue_accuracy", "table_spacing", "realspace_relerr", "realspace_abserr", "integration_relerr", "integration_abserr", "shoot_accuracy"]


def profile(rng):
    for _ in range(50):
        s = tree_spec(rng, depth=int(rng.integers(0, 3)), gs=gs_kwargs(rng, 0.4))
        if not isinstance(attempt(lambda: build(jg, s)), Raised):
            break  # (convolutions of several boxes, done in real space, are documented as missing)
    return Obj("profile", s, build, p_profile)


def simple(rng):
    t = pick(rng, list(LEAVES))
    return Obj("profile", LEAVES[t](rng, gs_kwargs(rng, 0.3)), build, p_profile if t != "DeltaFunction" else p_delta)


def p_delta(m, o, s):
    return {"kvalue": [complex(o.kValue(0.3, 0.2))], "flux": fl(o.flux), "sizes": fl(o.stepk, o.maxk), "gsparams": fl(*[getattr(o.gsparams, k) for k in GSP])}


def interpolated(rng):
    s, a = C4.image_spec(rng, False)
    s["a"] = a.tolist()
    return Obj("interpolated", s, lambda m, s: C4.mk_ii(m, s, np.array(s["a"], dtype=s["dt"]))[0], p_profile)


# -- geometry -------------------------------------------------------------------------------------
def wcs(rng):
    s = C13.spec(rng)

    def probe(m, o, s):
        j = o.jacobian()
        a = o.toWorld(m.PositionD(3.5, -2.25))
        b = o.toImage(m.PositionD(-1.5, 4.0))
        return {"jacobian": fl(j.dudx, j.dudy, j.dvdx, j.dvdy), "world": fl(a.x, a.y), "image": fl(b.x, b.y), "origin": fl(o.origin.x, o.origin.y, o.world_origin.x, o.world_origin.y), "area": fl(o.pixelArea())}

    return Obj("wcs", s, C13.mk, probe)


def fitswcs(rng):
    s = C14.header_spec(rng, False)

    def probe(m, o, s):
        c = o.toWorld(m.PositionD(31.5, 17.25))
        p = o.toImage(c)
        j = o.local(m.PositionD(10.0, 12.0))
        return {"world": fl(c.ra.rad, c.dec.rad), "image": fl(p.x, p.y), "local": fl(j.dudx, j.dudy, j.dvdx, j.dvdy), "origin": fl(o.origin.x, o.origin.y)}

    return Obj("fitswcs", {"h": s["h"], "origin": s["origin"]}, lambda m, s: C14.build_wcs(m, s, "direct"), probe)


def position(rng):
    k = pick(rng, ["PositionD", "PositionI"])
    s = {"k": k, "x": int(rng.integers(-99, 99)), "y": int(rng.integers(-99, 99))}
    if k == "PositionD":
        s["x"], s["y"] = rnd(rng, -99, 99), rnd(rng, -99, 99)
    return Obj("position", s, lambda m, s: getattr(m, s["k"])(s["x"], s["y"]), lambda m, o, s: {"xy": fl(o.x, o.y), "twice": fl((o + o).x, (o + o).y)})


def bounds(rng):
    k = pick(rng, ["BoundsD", "BoundsI"])
    v = [int(q) for q in rng.integers(-30, 30, 2)]
    v = [v[0], v[0] + int(rng.integers(0, 20)), v[1], v[1] + int(rng.integers(0, 20))]
    if k == "BoundsD":
        v = [float(q) + rnd(rng, 0, 0.9) * d for q, d in zip(v, (-1, 1, -1, 1))]
    if rng.random() < 0.12:
        v = []
    s = {"k": k, "v": v}
    return Obj(
        "bounds",
        s,
        lambda m, s: getattr(m, s["k"])(*s["v"]),
        lambda m, o, s: {"defined": [bool(o.isDefined())], "edges": fl(o.xmin, o.xmax, o.ymin, o.ymax), "area": fl(o.area()), **({"center": fl(o.center.x, o.center.y, o.true_center.x, o.true_center.y)} if s["v"] else {})},
    )


def shear(rng):
    s = shear_kw(rng, 0.85)
    return Obj(
        "shear",
        {"kw": s},
        lambda m, s: m.Shear(**{k: fix(m, v) for k, v in s["kw"].items()}),
        lambda m, o, s: {"g": fl(o.g1, o.g2, o.e1, o.e2, o.eta1, o.eta2, o.q, o.g), "matrix": o.getMatrix(), "sum": fl((o + o).g1, (o + o).g2)},
    )


UNITS = ["radians", "degrees", "hours", "arcmin", "arcsec"]


def angle(rng):
    s = {"v": rnd(rng, -400, 400), "u": pick(rng, UNITS)}
    return Obj("angle", s, lambda m, s: s["v"] * getattr(m, s["u"]), lambda m, o, s: {"rad": fl(o.rad, o.sin(), o.cos()), "units": fl(*[o / getattr(m, u) for u in UNITS]), "wrapped": fl(o.wrap().rad)})


def unit(rng):
    s = {"v": rnd(rng, 1e-3, 3)} if rng.random() < 0.6 else {"u": pick(rng, UNITS)}
    return Obj("unit", s, lambda m, s: m.AngleUnit(s["v"]) if "v" in s else getattr(m, s["u"]), lambda m, o, s: {"value": fl(o.value), "angle": fl((2.5 * o).rad)})


def coord(rng):
    s = {"p": C12.point(rng)}

    def probe(m, o, s):
        q = m.CelestialCoord(1.0 * m.radians, 0.3 * m.radians)
        return {"radec": fl(o.ra.rad, o.dec.rad), "distance": fl(o.distanceTo(q).rad), "xyz": fl(*o.get_xyz())}

    return Obj("coord", s, lambda m, s: C12.C(m, s["p"]), probe)


# -- parameters and kernels -----------------------------------------------------------------------
def interpolant(rng):
    s = C4.interp_spec(rng, False)
    if rng.random() < 0.4:
        s["gs"] = {"kvalue_accuracy": pick(rng, [1e-6, 1e-5, 1e-4])}
    return Obj(
        "interpolant",
        s,
        lambda m, s: C4.mk_interp(m, s),
        lambda m, o, s: {**({"x": fl(*[o.xval(v) for v in (0.0, 0.3, 1.4, -0.8)]), "xrange": fl(o.xrange, o.ixrange)} if s["i"] not in ("delta",) else {}), "k": fl(*[o.kval(v) for v in (0.0, 0.5, 2.1)]), "krange": fl(o.krange), "gsparams": fl(*[getattr(o.gsparams, k) for k in GSP])},
    )


def gsparams(rng):
    s = {}
    for k in GSP:
        if rng.random() < 0.3:
            s[k] = pick(rng, GS_CHOICES[k]) if k != "table_spacing" else int(rng.integers(1, 4))
    return Obj("gsparams", s, lambda m, s: m.GSParams(**s), lambda m, o, s: {k: fl(getattr(o, k)) for k in GSP})


# -- random numbers -------------------------------------------------------------------------------
DEV = {
    "Base": lambda rng: {},
    "Uniform": lambda rng: {},
    "Gaussian": lambda rng: {"mean": rnd(rng, -3, 3), "sigma": rnd(rng, 0.1, 5)},
    "Poisson": lambda rng: {"mean": rnd(rng, 0.5, 40)},
    "Binomial": lambda rng: {"N": int(rng.integers(2, 20)), "p": rnd(rng, 0.1, 0.9)},
    "Weibull": lambda rng: {"a": rnd(rng, 0.7, 4), "b": rnd(rng, 0.5, 4)},
    "Gamma": lambda rng: {"k": rnd(rng, 0.7, 4), "theta": rnd(rng, 0.5, 4)},
    "Chi2": lambda rng: {"n": rnd(rng, 1, 9)},
}


def deviate(rng):
    t = pick(rng, list(DEV))
    s = {"t": t, "seed": int(rng.integers(1, 2**31 - 1)), "kw": DEV[t](rng), "skip": int(rng.integers(0, 4))}

    def make(m, s):
        d = getattr(m, s["t"] + "Deviate")(s["seed"], **s["kw"])
        d.discard(s["skip"])
        return d

    def probe(m, o, s):
        q = o.duplicate()
        r = {"params": fl(*[getattr(o, {"N": "n"}.get(k, k)) for k in s["kw"]]) if s["kw"] else fl(0)}
        if m is jg:  # the streams of the two libraries differ
            r["stream"] = fl(q.raw(), q.raw()) if s["t"] == "Base" else fl(q(), q(), *np.asarray(q.generate(np.zeros(3))))
        return r

    return Obj("deviate", s, make, probe)


@jax.jit
def applied(n):
    im = jg.Image(jnp.arange(12.0).reshape(3, 4) + 5)
    n.applyTo(im)
    return im.array


@jax.jit
def seen(p):
    im = jg.ImageD(jg.BoundsI(-3, 3, -3, 3))
    p.addTo(im)
    return p.flux, p.getTotalFlux(), im.array


def noise(rng):
    s = C18.model_spec(rng)
    s = {"model": s, "seed": int(rng.integers(1, 2**31 - 1)), "var": np.round(rng.uniform(0.1, 5, (3, 4)), 3).tolist()}

    def make(m, s):
        return C18.mk_model(m, s["model"], m.BaseDeviate(s["seed"]), m.Image(np.array(s["var"])))

    def probe(m, o, s):
        r = {}
        if s["model"]["k"] not in ("var", "dev"):
            r["variance"] = fl(o.getVariance())
        if m is jg:
            r["applied"] = A(applied(o.copy(rng=o.rng.duplicate())))
        return r

    return Obj("noise", s, make, probe)


# -- data -----------------------------------------------------------------------------------------
def photons(rng):
    n = pick(rng, [1, 6])
    kw = {k: vals(rng, n, k).tolist() for k in ("x", "y", "flux")}
    for k in OTHER:
        if rng.random() < 0.4:
            for f in FAM[k]:
                kw[f] = vals(rng, n, f).tolist()
    s = {"n": n, "kw": kw}

    def make(m, s):
        return m.PhotonArray(s["n"], **{k: np.array(v) for k, v in s["kw"].items()})

    def probe(m, o, s):
        r = {k: np.asarray(getattr(o, k)) for k in s["kw"] if k != "flux"}
        r["flags"] = [o.hasAllocatedAngles(), o.hasAllocatedWavelengths(), o.hasAllocatedPupil(), o.hasAllocatedTimes(), o.isCorrelated()]
        if m is jg:
            f, t, a = seen(o)
        else:
            im = m.ImageD(m.BoundsI(-3, 3, -3, 3))
            o.addTo(im)
            f, t, a = o.flux, o.getTotalFlux(), im.array
        r["flux"], r["total"], r["image"] = A(f), fl(t, o.size()), A(a)
        return r

    return Obj("photons", s, make, probe)


def image(rng):
    dt = pick(rng, ["float64", "float32", "int32", "int16", "uint16", "complex128"])
    ny, nx = pick(rng, [(2, 3), (3, 3), (1, 4)])
    a = np.round(rng.uniform(0, 50, (ny, nx)), 2)
    s = dict(a=a.astype(dt if dt != "complex128" else "float64").tolist(), dt=dt, at=[int(v) for v in rng.integers(-9, 9, 2)], wcs=C18.wcs_spec(rng) if rng.random() < 0.7 else None, const=bool(rng.random() < 0.25))

    def make(m, s):
        return m.Image(np.array(s["a"]).astype(s["dt"]), xmin=s["at"][0], ymin=s["at"][1], wcs=C18.mk_wcs(m, s["wcs"]) if s["wcs"] else None, make_const=s["const"])

    def probe(m, o, s):
        r = {"pixels": np.asarray(o.array), "bounds": fl(o.xmin, o.xmax, o.ymin, o.ymax), "const": [o.isconst], "dtype": [np.dtype(o.dtype).num]}
        if s["wcs"]:
            p = o.wcs.toWorld(m.PositionD(1.5, 2.5))
            r["world"] = fl(p.x, p.y)
        return r

    return Obj("image", s, make, probe)


def sensor(rng):
    return Obj("sensor", {}, lambda m, s: m.Sensor(), lambda m, o, s: {"one": fl(1.0)})


KINDS = dict(
    profile=profile, simple=simple, interpolated=interpolated, wcs=wcs, fitswcs=fitswcs, position=position, bounds=bounds, shear=shear, angle=angle, unit=unit, coord=coord, interpolant=interpolant, gsparams=gsparams, deviate=deviate, noise=noise, photons=photons, image=image, sensor=sensor
)


def any_object(rng, kind):
    return KINDS[kind](rng)


# -- changing one number of a spec ----------------------------------------------------------------
def numbers(s, path=()):
    if isinstance(s, bool):
        return
    if isinstance(s, (int, float)):
        yield path
    elif isinstance(s, dict):
        for k, v in s.items():
            yield from numbers(v, path + (k,))
    elif isinstance(s, (list, tuple)):
        for i, v in enumerate(s):
            yield from numbers(v, path + (i,))


def at(s, path):
    for p in path:
        s = s[p]
    return s


def changed(s, path, f):
    s = _copy.deepcopy(s)
    o = at(s, path[:-1])
    o[path[-1]] = f(o[path[-1]])
    return s


def bump(v):
    if isinstance(v, int):
        return v + 1
    return v * (1 + 1e-3) + (1e-3 if v == 0 else 0)
