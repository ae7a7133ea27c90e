"""C22: accuracy parameters reach what they should; invalid requests are refused as GalSim refuses them."""

import warnings

from jgmon.common import *
from jgmon.refusals import R

RULE = "Cases are generated expression trees with accuracy parameters at any node, generated argument lists (any subset of the keywords of a call), and a catalogue of invalid calls with generated values; both libraries are run and compared."
ASSUMPTIONS = [
    "GalSim 2.8.5 decides which argument lists are valid",
    "errors raised through equinox, and those where GalSim only fails inside NumPy or Python by accident, are compared as refusals, not by kind",
    "value checks the documentation leaves out (CelestialCoord declinations, photon arrays, bounds validity) are not judged",
]

GSN = ["minimum_fft_size", "maximum_fft_size", "folding_threshold", "stepk_minimum_hlr", "maxk_threshold", "kvalue_accuracy", "xvalue_accuracy", "table_spacing", "realspace_relerr", "realspace_abserr", "integration_relerr", "integration_abserr", "shoot_accuracy"]
VALS = {k: list(v) for k, v in GS_CHOICES.items()}
VALS["table_spacing"] = [1, 2]


# -- accuracy parameters --------------------------------------------------------------------------
def gsd(rng, p=0.6):
    if rng.random() > p:
        return None
    return {k: pick(rng, VALS[k]) for k in GSN if rng.random() < 0.3}


def leaf(rng):
    t = pick(rng, ["Gaussian", "Exponential", "Box", "Gaussian", "II"])
    s = {"t": t, "gs": gsd(rng), "a": rnd(rng, 0.4, 2.5), "f": rnd(rng, 0.3, 9)}
    if t == "II":
        s.update(seed=int(rng.integers(1, 999)), xi=gsd(rng, 0.5), ki=gsd(rng, 0.4))
    return s


def tree(rng, depth):
    if depth == 0 or rng.random() < 0.15:
        return leaf(rng)
    t = pick(rng, ["Add", "Sum", "Convolve", "Convolution", "Transform", "Transformation", "Deconvolve", "op", "op", "with"])
    s = {"t": t, "gs": gsd(rng, 0.4), "prop": bool(rng.random() < 0.65)}
    if t in ("Add", "Sum", "Convolve", "Convolution"):
        s["o"] = [tree(rng, depth - 1) for _ in range(int(rng.integers(1, 4)))]
    else:
        s["o"] = [tree(rng, depth - 1)]
    if t in ("Transform", "Transformation"):
        s["jac"] = [rnd(rng, 0.7, 1.4), rnd(rng, -0.3, 0.3), rnd(rng, -0.3, 0.3), rnd(rng, 0.7, 1.4)]
    if t == "op":
        s["op"] = pick(rng, ["shear", "shift", "flux", "expand", "+", "*", "-", "rotate"])
        if s["op"] in "+-":
            s["o"].append(leaf(rng))
    return s


def gm(m, d):
    return None if d is None else m.GSParams(**d)


def mk(m, s, made):
    t = s["t"]
    g = gm(m, s["gs"])
    if t in ("Gaussian", "Exponential", "Box"):
        r = {"Gaussian": lambda: m.Gaussian(sigma=s["a"], flux=s["f"], gsparams=g), "Exponential": lambda: m.Exponential(scale_radius=s["a"], flux=s["f"], gsparams=g), "Box": lambda: m.Box(s["a"], 1.5, flux=s["f"], gsparams=g)}[t]()
    elif t == "II":
        im = m.Image(np.random.default_rng(s["seed"]).uniform(0.5, 1.5, (5, 5)), scale=0.5)
        r = m.InterpolatedImage(im, x_interpolant=m.Quintic(gsparams=gm(m, s["xi"])), k_interpolant=None if s["ki"] is None else m.Quintic(gsparams=gm(m, s["ki"])), gsparams=g)
    else:
        o = [mk(m, q, made) for q in s["o"]]
        kw = {"gsparams": g, "propagate_gsparams": s["prop"]}
        if t in ("Add", "Sum", "Convolve", "Convolution"):
            r = getattr(m, t)(o, **kw) if len(o) != 2 else getattr(m, t)(*o, **kw)
        elif t == "Deconvolve":
            r = m.Deconvolve(o[0], **kw)
        elif t in ("Transform", "Transformation"):
            r = getattr(m, t)(o[0], jac=s["jac"], offset=m.PositionD(0.25, -0.5), flux_ratio=1.5, **kw)
        elif t == "with":
            r = o[0].withGSParams(g) if s["prop"] or s["gs"] is None else o[0].withGSParams(**s["gs"])
        else:
            p = o[0]
            r = {
                "shear": lambda: p.shear(g1=0.1, g2=0.05),
                "shift": lambda: p.shift(0.1, 0.2),
                "flux": lambda: p.withFlux(3.0),
                "expand": lambda: p.expand(1.2),
                "rotate": lambda: p.rotate(0.3 * m.radians),
                "*": lambda: p * 2.0,
                "+": lambda: p + o[1],
                "-": lambda: p - o[1],
            }[s["op"]]()
    made.append((s, r, prints(r)))
    return r


def fields(g):
    return [float(getattr(g, k)) for k in GSN]


def parts(o):
    for k in ("obj_list", "original", "orig_obj", "x_interpolant", "k_interpolant"):
        v = getattr(o, k, None)
        if v is None:
            continue
        for i, c in enumerate(v if isinstance(v, (list, tuple)) else [v]):
            if k == "original" and c is o:
                continue
            yield f"{k}[{i}]", c


def walk(o, path="top"):
    yield path, type(o).__name__, fields(o.gsparams)
    if type(o).__name__ in ("InterpolatedImage", "_InterpolatedImage"):
        for k in ("x_interpolant", "k_interpolant"):
            yield path + "." + k, k, fields(getattr(o, k).gsparams)
        return
    for n, c in parts(o):
        yield from walk(c, path + "." + n)


def prints(o):
    return [(p, f) for p, _, f in walk(o)]


NAME = {"_InterpolatedImage": "InterpolatedImage"}


def trees(mon, rng):
    warnings.simplefilter("ignore")
    depth = int(rng.integers(1, 4))
    while True:
        s = tree(rng, depth)
        r = attempt(lambda: mk(jg, s, []))
        if not (isinstance(r, Raised) and "Real-space convolutions are not implemented" in str(r.e)):
            break  # (documented as not implemented)
    post = [(pick(rng, ["obj", "kw", "both"]), gsd(rng, 1.0), {k: pick(rng, VALS[k]) for k in GSN if rng.random() < 0.2}) for _ in range(int(rng.integers(0, 3)))]
    mon.note(tree=s, post=post)
    mj, mg = [], []
    r = lockstep(mon, "build", lambda: mk(jg, s, mj), lambda: mk(galsim, s, mg))
    if r is None:
        return
    j, g = r
    compare(mon, j, g)
    for how, gs, kw in post:
        j0, g0 = j, g
        before = prints(j0)
        args = {"obj": ((1,), {}), "kw": ((0,), kw), "both": ((1,), kw)}[how]
        j = j0.withGSParams(*([gm(jg, gs)] if args[0][0] else []), **args[1])
        g = g0.withGSParams(*([gm(galsim, gs)] if args[0][0] else []), **args[1])
        mon.event("withGSParams:" + how)
        mon.check("original-unchanged", prints(j0) == before, how=how)
        compare(mon, j, g)
    for sp, o, was in mj:
        mon.check("components-unchanged", prints(o) == was, node=sp["t"])
    mon.event("nodes", len(mj))
    # derived quantities
    for k, rt in (("maxk", 1e-5), ("stepk", 1e-4), ("nyquist_scale", 1e-5)):
        a = lockstep(mon, k, lambda: F(getattr(j, k)), lambda: float(getattr(g, k)))
        if a:
            mon.close("derived:" + k, a[0], a[1], rtol=rt)
    a = lockstep(mon, "goodsize", lambda: j.getGoodImageSize(0.37), lambda: g.getGoodImageSize(0.37))
    if a:
        # the size is rounded up to even: the ratio of scales may sit on the edge
        mon.check("derived:goodsize", abs(int(a[0]) - int(a[1])) <= (0 if abs((2 * np.pi / (float(g.stepk) * 0.37)) / 2 % 1 - 0.5) < 0.499 else 2), got=a[0], want=a[1])
    n = int(rng.integers(4, 90))
    need = max(2 * np.pi / (float(g.stepk) * 0.37), n)
    if need < 0.9 * float(g.gsparams.maximum_fft_size) and 0.5 < float(g.maxk) * 0.37 < 20 * np.pi:
        a = lockstep(mon, "makeK", lambda: j.drawFFT_makeKImage(jg.ImageD(n, n, scale=0.37)), lambda: g.drawFFT_makeKImage(galsim.ImageD(n, n, scale=0.37)))
        if a:
            b, w = a
            mon.same("kimage-bounds", [b[0].bounds.xmin, b[0].bounds.xmax, b[0].bounds.ymin, b[0].bounds.ymax], [w[0].bounds.xmin, w[0].bounds.xmax, w[0].bounds.ymin, w[0].bounds.ymax])
            mon.close("kimage-scale", F(b[0].scale), w[0].scale, rtol=1e-9)
            mon.same("wrap-size", int(b[1]), int(w[1]))


def compare(mon, j, g):
    wj, wg = list(walk(j)), list(walk(g))
    if not mon.check("same-shape", [(p, NAME.get(t, t)) for p, t, _ in wj] == [(p, NAME.get(t, t)) for p, t, _ in wg], got=[(p, t) for p, t, _ in wj], want=[(p, t) for p, t, _ in wg]):
        return
    for (p, t, a), (_, _, b) in zip(wj, wg):
        mon.check("gsparams", a == b, at=p, type=t, differs={k: (x, y) for k, x, y in zip(GSN, a, b) if x != y})


def params(mon, rng):
    """GSParams themselves: construction, withParams, check, combine."""
    ds = [gsd(rng, 0.9) or {} for _ in range(int(rng.integers(1, 5)))]
    kw = {k: pick(rng, VALS[k]) for k in GSN if rng.random() < 0.3}
    mon.note(ds=ds, kw=kw)
    J, G = [jg.GSParams(**d) for d in ds], [galsim.GSParams(**d) for d in ds]
    for a, b in zip(J, G):
        mon.same("fields", fields(a), fields(b))
        mon.same("from-galsim", fields(jg.GSParams.from_galsim(b)), fields(b))
        mon.same("to-galsim", fields(a.to_galsim()), fields(b))
        w = a.withParams(**kw)
        mon.same("withParams", fields(w), fields(b.withParams(**kw)))
        mon.same("withParams-original", fields(a), fields(b))
        mon.check("equal", (w == a) == (b.withParams(**kw) == b) and ((w != a) or hash(w) == hash(a)))
        pos = [getattr(b, k) for k in GSN][: int(rng.integers(0, 14))]
        mon.same("positional", fields(jg.GSParams(*pos)), fields(galsim.GSParams(*pos)))
        for c, d in ((None, None), (a, None), (None, a), (a, J[0])):
            gc, gd = (None if c is None else b), (None if d is None else (b if d is a else G[0]))
            mon.same("check", fields(jg.GSParams.check(c, d, **kw)), fields(galsim.GSParams.check(gc, gd, **kw)))
    mon.same("combine", fields(jg.GSParams.combine(J)), fields(galsim.GSParams.combine(G)))
    mon.same("default", fields(jg.GSParams.default), fields(galsim.GSParams()))
    mon.check("combine-inputs", all(fields(a) == fields(b) for a, b in zip(J, G)))


# -- the catalogue of invalid calls -----------------------------------------------------------------
# where the kinds of the errors differ for a reason
ANY_KIND = {
    "Moffat(str)", "trans: * str", "g: * str", "sum: * str", "conv: * str", "g: * obj", "sum: * obj", "conv: * obj", "trans: * obj", "Angle * str", "Angle / str", "PositionD str", "PositionI str", "BoundsI str", "BoundsD str", "Image good_fft_size str",  # GalSim: float("x")
    "interp noise_pad_size",  # documented as not implemented
    "draw n_photons negative", "draw makePhot negative", "draw shoot negative",  # documented generic errors
    "draw rng type", "draw rng number", "draw Phot rng", "draw makePhot rng", "draw shoot rng", "interp Lanczos str", "random call base", "WCS profile to world str",
    "random Gaussian sigma", "random Poisson mean",  # ValueError, which GalSimRangeError is
}  # fmt: skip
LABELS = sorted(R)
NCAT = 16


def catalogue(mon, rng):
    warnings.simplefilter("ignore")
    v = dict(s=rnd(rng, 0.4, 3), f=rnd(rng, 0.3, 20), u=rnd(rng, 0.02, 0.6))
    order = np.random.default_rng([mon.seed, 77]).permutation(len(LABELS))
    mine = [LABELS[i] for i in order[mon.index % NCAT :: NCAT]]
    mon.note(values=v, part=mon.index % NCAT, labels=len(mine))
    for lab in mine:
        f = R[lab]
        g = attempt(lambda: f(galsim, v))
        if not isinstance(g, Raised):
            mon.event("valid-in-galsim:" + lab)
            continue
        j = attempt(lambda: f(jg, v))
        mon.event("refused:" + type(g.e).__name__)
        if not mon.check("refused", isinstance(j, Raised), mech="accepted:" + lab, call=lab, want=f"{type(g.e).__name__}: {str(g.e)[:160]}", got=None if isinstance(j, Raised) else j):
            continue
        n = type(j.e).__name__
        if lab in ANY_KIND or "Equinox" in n or "XlaRuntime" in n or "JaxRuntime" in n or n == "GalSimImmutableError":
            continue
        mon.check("error-kind", err_kind(j.e) == err_kind(g.e), mech="error-kind:" + lab, call=lab, got=f"{n}: {str(j.e)[:160]}", want=f"{type(g.e).__name__}: {str(g.e)[:160]}")


# -- generated argument lists -------------------------------------------------------------------------
def some(rng, d, lo=0, hi=None):
    ks = list(d)
    n = int(rng.integers(lo, min(hi or len(ks), len(ks)) + 1))
    return {k: d[k] for k in [ks[i] for i in rng.permutation(len(ks))[:n]]}


def both(mon, call, f, judge_value=None, kinds=True):
    g = attempt(lambda: f(galsim))
    j = attempt(lambda: f(jg))
    if isinstance(g, Raised):
        if mon.check("args-refused", isinstance(j, Raised), mech=f"args-accepted:{call}", call=call, want=f"refused ({type(g.e).__name__}: {str(g.e)[:160]})"):
            mon.event(f"refused:{call}")
            n = type(j.e).__name__
            if kinds and not ("Equinox" in n or "XlaRuntime" in n or "JaxRuntime" in n):
                mon.check("args-error-kind", err_kind(j.e) == err_kind(g.e), mech=f"args-error-kind:{call}", call=call, got=f"{n}: {str(j.e)[:160]}", want=f"{type(g.e).__name__}: {str(g.e)[:160]}")
        return
    if isinstance(j, Raised):
        mon.check("args-accepted", False, mech=f"args-refused:{call}", call=call, got=f"{type(j.e).__name__}: {str(j.e)[:200]}")
        return
    mon.check("args-accepted", True)
    mon.event(f"accepted:{call}")
    if judge_value:
        a, b = judge_value(j), judge_value(g)
        mon.close("args-meaning", a, b, rtol=1e-6, atol=1e-9, mech=f"args-meaning:{call}", call=call)


PROF = {
    "Gaussian": {"sigma": 1.1, "fwhm": 1.3, "half_light_radius": 0.9, "flux": 2.5},
    "Exponential": {"scale_radius": 1.1, "half_light_radius": 0.9, "flux": 2.5},
    "Moffat": {"beta": 2.7, "scale_radius": 1.1, "fwhm": 1.3, "half_light_radius": 0.9, "flux": 2.5},
    "Spergel": {"nu": 0.6, "scale_radius": 1.1, "half_light_radius": 0.9, "flux": 2.5},
    "Box": {"width": 1.2, "height": 0.7, "flux": 2.5},
    "Pixel": {"scale": 1.2, "flux": 2.5},
    "DeltaFunction": {"flux": 2.5},
}
SH = {"g1": 0.1, "g2": -0.05, "g": 0.2, "e1": 0.12, "e2": 0.03, "e": 0.25, "eta1": 0.2, "eta2": -0.1, "eta": 0.3, "q": 0.7, "beta": ["deg", 33.0]}


def arguments(mon, rng):
    warnings.simplefilter("ignore")
    log = []
    mon.note(calls=log)
    for _ in range(10):
        what = pick(rng, ["profile", "profile", "shear", "shear", "shearop", "Image", "Image", "Image", "draw", "draw", "draw", "drawK", "II", "position", "bounds", "shift", "angle", "wcs"])
        extra = {"nonsense": 1} if rng.random() < 0.06 else {}
        if what == "profile":
            c = pick(rng, list(PROF))
            kw = some(rng, PROF[c], 0, 4)
            if rng.random() < 0.3:  # positional, in order
                ks = list(PROF[c])
                kw2 = {}
                n = int(rng.integers(0, 6))
                args = [rnd(rng, 0.5, 2.0) for _ in range(n)] if c in ("Box", "Pixel", "DeltaFunction") else []
                log.append([c, args])
                both(mon, c + " positional", lambda m: getattr(m, c)(*args, **extra), lambda o: [complex(o.kValue(0.3, 0.2)).real, float(o.flux)])
                del ks, kw2
                continue
            log.append([c, kw, extra])
            both(mon, c, lambda m: getattr(m, c)(**kw, **extra), lambda o: [complex(o.kValue(0.3, 0.2)).real, float(o.flux)])
        elif what in ("shear", "shearop"):
            kw = some(rng, SH, 0, 3)
            log.append([what, kw, extra])
            if what == "shear":
                both(mon, "Shear", lambda m: m.Shear(**{k: fix(m, v) for k, v in kw.items()}, **extra), lambda s: [float(s.g1), float(s.g2)])
            else:
                both(mon, "profile.shear", lambda m: m.Gaussian(sigma=1.0).shear(**{k: fix(m, v) for k, v in kw.items()}, **extra), lambda o: complex(o.kValue(0.7, 0.2)).real)
        elif what == "Image":
            pool = {
                "ncol": 5, "nrow": 4, "xmin": 3, "ymin": -2, "array": "A", "bounds": "B", "image": "I",
                "init_value": 2, "scale": 0.4, "wcs": "W", "dtype": pick(rng, [np.float32, np.float64, np.int32, np.int16, np.uint16, np.complex128]), "make_const": True,
            }  # fmt: skip
            kw = some(rng, pool, 0, 5)
            if "array" not in kw:
                kw.pop("make_const", None)  # JAX-GalSim takes it for every kind of image
            pos = pick(rng, [(), (), (), ("A",), ("B",), ("I",), (5, 4), (5,), (5, 4, 3)])
            log.append(["Image", [str(p) for p in pos], {k: str(v) for k, v in kw.items()}, extra])

            def mki(m):
                D = {"A": np.arange(20.0).reshape(4, 5), "B": m.BoundsI(2, 6, 1, 4), "I": m.Image(np.arange(20.0).reshape(4, 5) + 1, xmin=7, scale=0.3), "W": m.JacobianWCS(0.3, 0.01, 0.02, 0.31)}
                sub = lambda v: D[v] if isinstance(v, str) else v  # noqa: E731
                return m.Image(*[sub(p) for p in pos], **{k: sub(v) for k, v in kw.items()}, **extra)

            both(mon, "Image", mki, describe)
        elif what == "draw":
            pool = {
                "image": pick(rng, ["F", "W", "U", "C"]), "nx": 6, "ny": 5, "bounds": "B", "scale": pick(rng, [0.4, -1.0, 0.6]), "wcs": "W",
                "dtype": pick(rng, [np.float32, np.float64, np.int32]), "add_to_image": True, "center": [7.5, 3.25], "use_true_center": False,
                "offset": [0.3, -0.2], "area": 2.0, "exptime": 3.0, "gain": 1.5,
                "n_photons": 4, "rng": "R", "max_extra_noise": 0.2, "poisson_flux": False, "maxN": 9, "save_photons": True,
            }  # fmt: skip
            kw = some(rng, pool, 0, 5)
            kw["method"] = pick(rng, ["auto", "fft", "phot", "no_pixel", "sb", "no_pixel"])  # real_space convolutions are documented as not implemented
            log.append(["drawImage", {k: str(v) for k, v in kw.items()}, extra])
            phot = kw["method"] == "phot"

            def draw(m):
                D = {"F": m.ImageF(6, 7, scale=0.5), "W": m.JacobianWCS(0.3, 0.01, 0.02, 0.31), "U": m.ImageF(), "C": m.ImageD(4, 4, wcs=m.JacobianWCS(0.3, 0.01, 0.02, 0.31)), "B": m.BoundsI(2, 9, 1, 7), "R": m.BaseDeviate(8)}
                sub = lambda k, v: m.PositionD(*v) if isinstance(v, list) else m.ImageD(4, 5, wcs=D["W"]) if k == "image" and v == "W" else D[v] if isinstance(v, str) and k != "method" else v  # noqa: E731
                return m.Gaussian(sigma=1.1, flux=3.0).drawImage(**{k: sub(k, v) for k, v in kw.items()}, setup_only=True, **extra)

            both(mon, "drawImage", draw, describe if not phot else describe)
        elif what == "drawK":
            pool = {"image": pick(rng, ["Z", "U", "D", "J"]), "nx": 6, "ny": 5, "bounds": "B", "scale": pick(rng, [0.4, -1.0]), "add_to_image": True, "recenter": pick(rng, [True, False])}
            kw = some(rng, pool, 0, 4)
            log.append(["drawKImage", {k: str(v) for k, v in kw.items()}, extra])

            def drawk(m):
                D = {"Z": m.ImageCD(6, 7, scale=0.5), "U": m.ImageCD(), "D": m.ImageD(4, 4, scale=0.3), "J": m.ImageCD(4, 4, wcs=m.JacobianWCS(0.3, 0.01, 0.02, 0.31)), "B": m.BoundsI(2, 9, 1, 7)}
                return m.Gaussian(sigma=1.1, flux=3.0).drawKImage(**{k: D[v] if isinstance(v, str) else v for k, v in kw.items()}, **extra)

            both(mon, "drawKImage", drawk, describe)
        elif what == "II":
            pool = {
                "x_interpolant": pick(rng, ["linear", "lanczos5", "nope", "cubic"]), "k_interpolant": pick(rng, ["quintic", "nope"]), "normalization": pick(rng, ["flux", "sb", "surface brightness", "f", "nope"]),
                "scale": 0.3, "wcs": "W", "flux": 3.0, "pad_factor": pick(rng, [4.0, 2.0]), "offset": [0.2, 0.1], "use_true_center": False, "depixelize": False,
            }  # fmt: skip
            kw = some(rng, pool, 0, 4)
            kind = pick(rng, ["F", "F", "N", "U", "C"])
            log.append(["InterpolatedImage", kind, {k: str(v) for k, v in kw.items()}, extra])

            def ii(m):
                im = {"F": lambda: m.Image(np.arange(20.0).reshape(4, 5) + 1, scale=0.4), "N": lambda: m.Image(np.arange(20.0).reshape(4, 5) + 1), "U": lambda: m.ImageF(scale=0.3), "C": lambda: m.Image(np.arange(20.0).reshape(4, 5) + 1, wcs=m.JacobianWCS(0.3, 0.01, 0.02, 0.31))}[kind]()
                k2 = {k: (m.PositionD(*v) if isinstance(v, list) else m.PixelScale(0.7) if v == "W" else v) for k, v in kw.items()}
                return m.InterpolatedImage(im, **k2, **extra)

            both(mon, "InterpolatedImage", ii, lambda o: [float(o.flux), float(o.stepk) if "stepk" in kw else 0.0])
        elif what == "position":
            c = pick(rng, ["PositionD", "PositionI"])
            args = pick(rng, [(), (1,), (1, 2), (1, 2, 3), ([1, 2],), ([1, 2, 3],), ((3, 4),), ("P",), ("Q",), (np.array([1, 2]),), (1.5, 2), ([1.5, 2],)])
            kw = some(rng, {"x": 3, "y": 4}, 0, 2) if rng.random() < 0.4 else {}
            log.append([c, [str(a) for a in args], kw, extra])
            both(mon, c, lambda m: getattr(m, c)(*[m.PositionD(1.25, 2.5) if isinstance(a, str) and a == "P" else m.PositionI(3, 2) if isinstance(a, str) else a for a in args], **kw, **extra), lambda p: [float(p.x), float(p.y)])
        elif what == "bounds":
            c = pick(rng, ["BoundsD", "BoundsI"])
            pool = [(), (1,), (1, 2), (1, 2, 3), (1, 2, 3, 4), (1, 2, 3, 4, 5), ("P",), ("P", "Q"), ("P", "Q", "P"), ("B",), ("D",), ((1, 2), (3, 4)), ((1, 2, 3, 4),), ("B", "P"), (1.5, 2.5, 3, 4)]
            args = pool[int(rng.integers(len(pool)))]
            kw = some(rng, {"xmin": 1, "xmax": 5, "ymin": 2, "ymax": 7}, 0, 4) if rng.random() < 0.45 else {}
            log.append([c, [str(a) for a in args], kw, extra])

            def bb(m):
                D = {"P": m.PositionI(3, 2), "Q": m.PositionI(6, -1), "B": m.BoundsI(1, 4, 2, 8), "D": m.BoundsD(1.0, 4.0, 2.0, 8.0)}
                return getattr(m, c)(*[D[a] if isinstance(a, str) else a for a in args], **kw, **extra)

            both(mon, c, bb, lambda b: [float(b.isDefined()), float(b.xmin), float(b.xmax), float(b.ymin), float(b.ymax)] if b.isDefined() else [0.0])
        elif what == "shift":
            meth = pick(rng, ["shift", "xValue", "kValue", "imshift", "setCenter", "setOrigin", "getpix", "toWorld", "includes"])
            pool = [(), (1,), (1, 2), (1, 2, 3), ([1, 2],), ((3, 4),), ("P",), ("I",), (np.array([1, 2]),), ("P", 3)]
            args = pool[int(rng.integers(len(pool)))]
            names = {"shift": ("dx", "dy"), "kValue": ("kx", "ky"), "imshift": ("dx", "dy")}.get(meth, ("x", "y"))
            kw = some(rng, {names[0]: 1, names[1]: 2}, 0, 2) if rng.random() < 0.4 and meth != "includes" else {}
            log.append([meth, [str(a) for a in args], kw, extra])

            def sh(m):
                a = [m.PositionD(1.0, 2.0) if isinstance(q, str) and q == "P" else m.PositionI(1, 2) if isinstance(q, str) else q for q in args]
                p = m.Gaussian(sigma=1.1)
                im = m.ImageD(5, 5)
                im.fill(2.0)
                if meth in ("shift", "xValue", "kValue"):
                    r = getattr(p, meth)(*a, **kw, **extra)
                    return complex(r.kValue(0.3, 0.2)) if meth == "shift" else complex(r)
                if meth in ("imshift", "setCenter", "setOrigin"):
                    getattr(im, {"imshift": "shift"}.get(meth, meth))(*a, **kw, **extra)
                    return complex(int(im.xmin), int(im.ymin))
                if meth == "getpix":
                    return complex(im(*a, **kw, **extra))
                if meth == "toWorld":
                    q = m.JacobianWCS(0.3, 0.01, 0.02, 0.31).toWorld(*a, **kw, **extra)
                    return complex(float(q.x), float(q.y))
                return complex(m.BoundsI(1, 5, 0, 2).includes(*a, **extra))

            frac = meth in ("imshift", "setCenter", "setOrigin") and any(isinstance(q, str) and q == "P" for q in args)
            if frac:
                mon.event("not-judged: PositionD for a whole-pixel move")
                continue
            both(mon, meth, sh, lambda z: [z.real, z.imag], kinds=meth != "getpix")
        elif what == "angle":
            args = pick(rng, [(), (0.3,), (0.3, "U"), (0.3, 0.1), ("A",), ("A", "U"), (0.3, "U", 2), ("U", "U")])
            log.append(["Angle", [str(a) for a in args], extra])
            both(mon, "Angle", lambda m: m.Angle(*[{"U": m.degrees, "A": 0.4 * m.radians}[a] if isinstance(a, str) else a for a in args], **extra), lambda a: float(a.rad), kinds=False)
        else:
            c = pick(rng, ["PixelScale", "ShearWCS", "JacobianWCS", "OffsetWCS", "OffsetShearWCS", "AffineTransform"])
            pools = {
                "PixelScale": {"scale": 0.3},
                "ShearWCS": {"scale": 0.3, "shear": "S"},
                "JacobianWCS": {"dudx": 0.3, "dudy": 0.01, "dvdx": 0.02, "dvdy": 0.33},
                "OffsetWCS": {"scale": 0.3, "origin": "P", "world_origin": "Q"},
                "OffsetShearWCS": {"scale": 0.3, "shear": "S", "origin": "P", "world_origin": "Q"},
                "AffineTransform": {"dudx": 0.3, "dudy": 0.01, "dvdx": 0.02, "dvdy": 0.33, "origin": "P", "world_origin": "Q"},
            }
            kw = some(rng, pools[c], max(0, len(pools[c]) - 2), None)
            if rng.random() < 0.25 and kw:
                k = pick(rng, list(kw))
                kw[k] = {"P": "S", "S": "P", "Q": 3}.get(kw[k], kw[k]) if isinstance(kw[k], str) else kw[k]
            log.append([c, kw, extra])

            def ww(m):
                D = {"S": m.Shear(g1=0.1, g2=0.2), "P": m.PositionD(1.5, 2.0), "Q": m.PositionD(-1.0, 0.5)}
                return getattr(m, c)(**{k: D[v] if isinstance(v, str) else v for k, v in kw.items()}, **extra)

            both(mon, c, ww, lambda w: [float(w.toWorld(m_pos(w)).x), float(w.toWorld(m_pos(w)).y)])


def m_pos(w):
    return (galsim if type(w).__module__.startswith("galsim") else jg).PositionD(3.5, -1.25)


def describe(im):
    """Bounds, dtype, wcs and content of an image, as numbers."""
    r = [float(im.isconst), float(np.dtype(im.dtype).num)]
    if im.bounds.isDefined():
        a = np.asarray(im.array)
        r += [float(im.xmin), float(im.xmax), float(im.ymin), float(im.ymax), float(np.real(a).sum()), float(np.real(a).flat[0])]
    w = im.wcs
    if w is not None:
        try:
            j = w.jacobian()
            r += [float(j.dudx), float(j.dudy), float(j.dvdx), float(j.dvdy)]
        except Exception:
            r += [-1.0]
    else:
        r += [-2.0]
    return np.array(r)


GROUPS = {
    "trees": dict(fn=trees, quick=90, thorough=500, cost=1.2, shards=4, must=["gsparams", "same-shape", "components-unchanged", "original-unchanged", "derived:maxk", "derived:stepk", "kimage-bounds"]),
    "params": dict(fn=params, quick=30, thorough=300, cost=0.05, must=["combine", "check", "withParams", "positional"]),
    "catalogue": dict(fn=catalogue, quick=NCAT, thorough=5 * NCAT, cost=2.0, shards=3, must=["refused", "error-kind"]),
    "arguments": dict(fn=arguments, quick=150, thorough=900, cost=0.8, shards=4, must=["args-refused", "args-accepted", "args-error-kind", "args-meaning"]),
}
