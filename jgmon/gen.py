"""Specifications of objects: one JSON-able description, built with GalSim and with JAX-GalSim."""

import numpy as np


def rnd(rng, lo, hi, log=False, nd=6):
    """A random float with few digits, so that both libraries get exactly the same number."""
    v = np.exp(rng.uniform(np.log(lo), np.log(hi))) if log else rng.uniform(lo, hi)
    return float(f"{v:.{nd}g}")


def pick(rng, seq):
    return seq[int(rng.integers(len(seq)))]


def flux_of(rng, allow_neg=True):
    f = rnd(rng, 0.05, 500.0, log=True)
    if allow_neg and rng.random() < 0.25:
        f = -f
    return f


GS_CHOICES = {
    "folding_threshold": [1e-3, 2e-3, 5e-3, 1.5e-2],
    "stepk_minimum_hlr": [3.0, 5.0, 7.5],
    "maxk_threshold": [5e-4, 1e-3, 3e-3, 1e-2],
    "kvalue_accuracy": [1e-6, 1e-5, 3e-5],
    "xvalue_accuracy": [1e-6, 1e-5, 3e-5],
    "table_spacing": [0.5, 1.0, 2.0],
    "realspace_relerr": [1e-5, 1e-4],
    "realspace_abserr": [1e-7, 1e-6],
    "integration_relerr": [1e-7, 1e-6],
    "integration_abserr": [1e-9, 1e-8],
    "shoot_accuracy": [1e-6, 1e-5, 1e-4],
    "minimum_fft_size": [64, 128],
    "maximum_fft_size": [8192, 4096],
}


GS_PRESETS = [
    {"folding_threshold": 2e-3, "maxk_threshold": 3e-3},
    {"stepk_minimum_hlr": 3.0, "folding_threshold": 1.5e-2, "xvalue_accuracy": 1e-6},
    {"maxk_threshold": 5e-4, "kvalue_accuracy": 1e-6, "stepk_minimum_hlr": 7.5},
    {"maxk_threshold": 1e-2, "kvalue_accuracy": 3e-5, "xvalue_accuracy": 3e-5},
]


def gs_kwargs(rng, p=0.5, tier="quick"):
    """Accuracy parameters: they are static under jit, so the quick tier uses few distinct ones."""
    if rng.random() > p:
        return None
    if tier == "quick":
        return dict(pick(rng, GS_PRESETS))
    keys = ("folding_threshold", "stepk_minimum_hlr", "maxk_threshold", "kvalue_accuracy", "xvalue_accuracy")
    ks = [k for k in keys if rng.random() < 0.5]
    return {k: pick(rng, GS_CHOICES[k]) for k in ks} or None


def gauss_spec(rng, gs=None, neg=True):
    kw = {pick(rng, ["sigma", "fwhm", "half_light_radius"]): rnd(rng, 0.2, 4.0, log=True), "flux": flux_of(rng, neg)}
    return {"t": "Gaussian", "kw": kw, "gs": gs}


def exp_spec(rng, gs=None, neg=True):
    kw = {pick(rng, ["scale_radius", "half_light_radius"]): rnd(rng, 0.2, 3.0, log=True), "flux": flux_of(rng, neg)}
    return {"t": "Exponential", "kw": kw, "gs": gs}


def moffat_spec(rng, gs=None, neg=True):
    kw = {
        "beta": rnd(rng, 1.6, 6.0),
        pick(rng, ["scale_radius", "half_light_radius", "fwhm"]): rnd(rng, 0.3, 2.5, log=True),
        "flux": flux_of(rng, neg),
    }
    return {"t": "Moffat", "kw": kw, "gs": gs}


def spergel_spec(rng, gs=None, neg=True, numin=-0.8, numax=3.9):
    nu = rnd(rng, numin, numax) if rng.random() < 0.8 else pick(rng, [n for n in (-0.6, -0.5, 0.0, 0.5, 1.0, 1.5, 2.0, 3.0) if numin <= n <= numax])
    kw = {"nu": nu, pick(rng, ["scale_radius", "half_light_radius"]): rnd(rng, 0.3, 2.5, log=True), "flux": flux_of(rng, neg)}
    return {"t": "Spergel", "kw": kw, "gs": gs}


def box_spec(rng, gs=None, neg=True):
    if rng.random() < 0.4:
        return {"t": "Pixel", "kw": {"scale": rnd(rng, 0.2, 3.0, log=True), "flux": flux_of(rng, neg)}, "gs": gs}
    return {
        "t": "Box",
        "kw": {"width": rnd(rng, 0.2, 4.0, log=True), "height": rnd(rng, 0.2, 4.0, log=True), "flux": flux_of(rng, neg)},
        "gs": gs,
    }


def delta_spec(rng, gs=None, neg=True):
    return {"t": "DeltaFunction", "kw": {"flux": flux_of(rng, neg)}, "gs": gs}


LEAVES = {
    "Gaussian": gauss_spec,
    "Exponential": exp_spec,
    "Moffat": moffat_spec,
    "Spergel": spergel_spec,
    "Box": box_spec,
    "DeltaFunction": delta_spec,
}


def shear_kw(rng, maxg=0.6):
    kind = pick(rng, ["g", "e", "eta", "q"])
    m = rnd(rng, 0.0, maxg) if rng.random() < 0.9 else 0.0
    th = rng.uniform(0, 2 * np.pi)
    if kind == "g":
        return {"g1": float(f"{m * np.cos(th):.6g}"), "g2": float(f"{m * np.sin(th):.6g}")}
    if kind == "e":
        return {"e1": float(f"{m * np.cos(th):.6g}"), "e2": float(f"{m * np.sin(th):.6g}")}
    if kind == "eta":
        return {"eta1": float(f"{m * np.cos(th):.6g}"), "eta2": float(f"{m * np.sin(th):.6g}")}
    return {"q": float(f"{1 - 0.8 * m:.6g}"), "beta": ["deg", rnd(rng, -180, 180)]}


def fix(mod, v):
    """Angles and positions inside specs."""
    if isinstance(v, list) and v and v[0] == "deg":
        return v[1] * mod.degrees
    if isinstance(v, list) and v and v[0] == "pos":
        return mod.PositionD(v[1], v[2])
    if isinstance(v, list) and v and v[0] == "shear":
        return mod.Shear(**{k: fix(mod, x) for k, x in v[1].items()})
    return v


def gsp(mod, gs):
    return None if gs is None else mod.GSParams(**gs)


def build(mod, s):
    t = s["t"]
    kw = {k: fix(mod, v) for k, v in s.get("kw", {}).items()}
    g = gsp(mod, s.get("gs"))
    if t in ("Gaussian", "Exponential", "Moffat", "Spergel", "Box", "Pixel", "DeltaFunction"):
        return getattr(mod, t)(gsparams=g, **kw)
    if t == "Sum":
        ch = [build(mod, c) for c in s["a"]]
        return mod.Sum(ch, gsparams=g, **kw) if s.get("form") != "Add" else mod.Add(*ch, gsparams=g, **kw)
    if t == "plus":
        a, b = (build(mod, c) for c in s["a"])
        return a + b
    if t == "minus":
        a, b = (build(mod, c) for c in s["a"])
        return a - b
    if t == "Convolve":
        ch = [build(mod, c) for c in s["a"]]
        return mod.Convolve(ch, gsparams=g, **kw) if s.get("form") != "star" else mod.Convolve(*ch, gsparams=g, **kw)
    if t == "Deconvolve":
        return mod.Deconvolve(build(mod, s["a"][0]), gsparams=g, **kw)
    o = build(mod, s["a"][0])
    if t == "shear":
        return o.shear(**kw)
    if t == "shear_obj":
        return o.shear(kw["shear"])
    if t == "lens":
        return o.lens(**kw)
    if t == "rotate":
        return o.rotate(kw["theta"])
    if t == "dilate":
        return o.dilate(kw["scale"])
    if t == "expand":
        return o.expand(kw["scale"])
    if t == "magnify":
        return o.magnify(kw["mu"])
    if t == "transform":
        return o.transform(**kw)
    if t == "shift":
        return o.shift(kw["dx"], kw["dy"])
    if t == "shift_pos":
        return o.shift(kw["pos"])
    if t == "withFlux":
        return o.withFlux(kw["flux"])
    if t == "withScaledFlux":
        return o.withScaledFlux(kw["ratio"])
    if t == "mul":
        return o * kw["f"]
    if t == "rmul":
        return kw["f"] * o
    if t == "div":
        return o / kw["f"]
    if t == "neg":
        return -o
    if t == "Transform":
        return mod.Transform(o, gsparams=g, **kw)
    raise ValueError(t)


def jac_kw(rng):
    a = rng.uniform(0, 2 * np.pi)
    s = rnd(rng, 0.5, 2.0, log=True)
    sh = rng.uniform(-0.3, 0.3, 2)
    m = s * np.array([[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]]) @ np.array([[1 + sh[0], sh[1]], [sh[1], 1 - sh[0]]])
    if rng.random() < 0.25:
        m = m @ np.array([[0, 1], [1, 0]])
    m = np.array([[float(f"{x:.6g}") for x in r] for r in m])
    return {"dudx": m[0, 0], "dudy": m[0, 1], "dvdx": m[1, 0], "dvdy": m[1, 1]}


OPS = ["shear", "shear_obj", "lens", "rotate", "dilate", "expand", "magnify", "transform", "shift", "shift_pos", "withFlux", "withScaledFlux", "mul", "rmul", "div", "neg", "Transform"]


def op_spec(rng, child, op=None):
    op = op or pick(rng, OPS)
    if op == "shear":
        kw = shear_kw(rng)
    elif op == "shear_obj":
        kw = {"shear": ["shear", shear_kw(rng)]}
    elif op == "lens":
        kw = {**{"g1": rnd(rng, -0.3, 0.3), "g2": rnd(rng, -0.3, 0.3)}, "mu": rnd(rng, 0.6, 1.8)}
    elif op == "rotate":
        kw = {"theta": ["deg", rnd(rng, -200, 200)]}
    elif op in ("dilate", "expand"):
        kw = {"scale": rnd(rng, 0.5, 2.0, log=True)}
    elif op == "magnify":
        kw = {"mu": rnd(rng, 0.4, 2.5, log=True)}
    elif op == "transform":
        kw = jac_kw(rng)
    elif op == "shift":
        kw = {"dx": rnd(rng, -2, 2), "dy": rnd(rng, -2, 2)}
    elif op == "shift_pos":
        kw = {"pos": ["pos", rnd(rng, -2, 2), rnd(rng, -2, 2)]}
    elif op == "withFlux":
        kw = {"flux": flux_of(rng)}
    elif op == "withScaledFlux":
        kw = {"ratio": rnd(rng, -3, 3)}
    elif op in ("mul", "rmul", "div"):
        kw = {"f": pick(rng, [-1, 1]) * rnd(rng, 0.3, 3, log=True)}
    elif op == "neg":
        kw = {}
    elif op == "Transform":
        j = jac_kw(rng)
        kw = {
            "jac": [j["dudx"], j["dudy"], j["dvdx"], j["dvdy"]],
            "offset": ["pos", rnd(rng, -2, 2), rnd(rng, -2, 2)],
            "flux_ratio": pick(rng, [-1, 1, 1]) * rnd(rng, 0.3, 3, log=True),
        }
    return {"t": op, "kw": kw, "a": [child]}


def tree_spec(rng, depth=2, leaves=("Gaussian", "Exponential", "Moffat", "Spergel", "Box"), convolve=True, gs=None, deconv=False):
    r = rng.random()
    if depth == 0 or r < 0.12:
        return LEAVES[pick(rng, leaves)](rng, gs)
    if r < 0.62:
        return op_spec(rng, tree_spec(rng, depth - 1, leaves, convolve, gs, deconv))
    if r < 0.82 or not convolve:
        n = int(rng.integers(2, 4))
        ch = [tree_spec(rng, depth - 1, leaves, convolve, gs, deconv) for _ in range(n)]
        f = rng.random()
        if f < 0.3:
            return {"t": "plus", "a": ch[:2]}
        if f < 0.5:
            return {"t": "minus", "a": ch[:2]}
        return {"t": "Sum", "a": ch, "form": pick(rng, ["list", "Add"])}
    n = int(rng.integers(2, 4))
    ch = [tree_spec(rng, depth - 1, leaves, convolve, gs, deconv) for _ in range(n)]
    return {"t": "Convolve", "a": ch, "form": pick(rng, ["list", "star"])}


def has(s, t):
    return s["t"] in (t if isinstance(t, (tuple, list, set)) else (t,)) or any(has(c, t) for c in s.get("a", []))


def leaves_of(s):
    if not s.get("a"):
        return [s]
    return [x for c in s["a"] for x in leaves_of(c)]


def absflux(g):
    """Sum of the absolute fluxes of the components of a GalSim object (what rounding errors scale with)."""
    n = type(g).__name__
    if n == "Sum":
        return sum(absflux(o) for o in g.obj_list)
    if n == "Convolution":
        return float(np.prod([absflux(o) for o in g.obj_list]))
    if n == "Transformation":
        return absflux(g.original) * abs(g.flux / g.original.flux) if g.original.flux else abs(g.flux)
    return abs(g.flux)
