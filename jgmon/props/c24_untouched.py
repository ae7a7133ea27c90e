"""C24: public calls leave their arguments, and everything made before, as they were."""

import copy
import os
import pickle
import tempfile
import warnings

from jgmon.common import *
from jgmon.objects import any_object

RULE = "A case is a world of named objects of every kind and a random history of public calls on them (eager, traced, and refused ones); every object made so far is compared with its snapshot after every call."
ASSUMPTIONS = [
    "in-place methods are called on copies made for them, so that every object of the world must stay as it was made",
    "subImage() is documented to share pixels with their parent: their results are only watched until they are changed",
    "a random deviate handed to a call as a duplicate made for it may advance; all others may not",
]


# -- snapshots ------------------------------------------------------------------------------------
def snap(x, depth=0):
    """Everything a later reader of x could see, copied."""
    if isinstance(x, np.ndarray):
        return ("ndarray", str(x.dtype), x.shape, x.tobytes() if x.dtype != object else repr(x))
    if isinstance(x, jax.core.Tracer):
        return ("LEAKED TRACER",)
    if isinstance(x, jax.Array):
        if jnp.issubdtype(x.dtype, jax.dtypes.prng_key):
            x = jax.random.key_data(x)
        a = np.asarray(x)
        return ("array", str(a.dtype), a.shape, a.tobytes())
    if isinstance(x, (int, float, str, bool, type(None), complex)):
        return (type(x).__name__, repr(x))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(snap(v, depth + 1) for v in x)
    if isinstance(x, dict):
        return ("dict",) + tuple((k, snap(v, depth + 1)) for k, v in sorted(x.items(), key=lambda kv: str(kv[0])))
    if isinstance(x, jg.FitsHeader):
        return ("header",) + tuple((c.keyword, repr(c.value), c.comment) for c in x.header.cards)
    if isinstance(x, jg.GSParams):
        return ("gsparams", repr(x))
    if isinstance(x, jg.Image):
        h = getattr(x, "header", None)
        return ("Image", snap(x._array), snap(x._bounds), snap(x.wcs), x.isconst, str(x.dtype), snap(h))
    if isinstance(x, np.generic):
        return (type(x).__name__, repr(x))
    t = type(x)
    try:
        leaves, tree = jax.tree_util.tree_flatten(x)
    except Exception:
        return (t.__name__, repr(x))
    if len(leaves) == 1 and leaves[0] is x:  # not a pytree
        return (t.__name__, repr(x) if depth < 6 else "...")
    return (t.__name__, str(tree), tuple(snap(v, depth + 1) for v in leaves))


def diff(a, b, path=""):
    if type(a) is tuple and type(b) is tuple and len(a) == len(b):
        for i, (u, v) in enumerate(zip(a, b)):
            d = diff(u, v, f"{path}/{i}")
            if d:
                return d
        return None
    return None if a == b else f"{path}: {str(a)[:150]} -> {str(b)[:150]}"


# -- the world ------------------------------------------------------------------------------------
def make_world(s):
    """Rebuilt identically from its spec s: a dict of small numbers."""
    W = {}
    gsp = jg.GSParams(maximum_fft_size=2048, kvalue_accuracy=s["kva"])
    W["gsp"] = gsp
    W["gau"] = jg.Gaussian(sigma=s["sigma"], flux=s["flux"], gsparams=gsp)
    W["exp"] = jg.Exponential(scale_radius=s["r0"], flux=2.0)
    W["moffat"] = jg.Moffat(beta=3.0, half_light_radius=s["r0"])
    W["box"] = jg.Box(1.3, 0.8, flux=0.7)
    W["sum"] = jg.Add([W["gau"], W["exp"]])
    W["conv"] = jg.Convolve([W["gau"], W["box"]])
    W["trans"] = W["exp"].shear(g1=0.1, g2=-0.2).shift(0.2, -0.4) * 3
    W["objs"] = [W["gau"], W["exp"], W["box"]]
    W["deconv"] = jg.Deconvolve(W["gau"])
    W["prof"] = any_object(np.random.default_rng(s["seed"]), "simple").make()
    W["pos"] = jg.PositionD(s["x"], s["y"])
    W["posi"] = jg.PositionI(2, -1)
    W["xy"] = [s["x"], s["y"]]
    W["posarr"] = np.array([s["x"], s["y"]])
    W["bnds"] = jg.BoundsI(1, 9, 2, 8)
    W["bndsd"] = jg.BoundsD(-1.5, 6.5, -2.0, 3.25)
    W["shear"] = jg.Shear(g1=0.12, g2=-0.05)
    W["angle"] = s["x"] * jg.degrees
    W["unit"] = jg.arcmin
    W["coord"] = jg.CelestialCoord(1.1 * jg.radians, -0.4 * jg.radians)
    W["dec"] = jg.Angle(jnp.array(-0.35), jg.radians)
    W["coord2"] = jg.CelestialCoord(1.13 * jg.radians, -0.42 * jg.radians)
    W["pix"] = jg.PixelScale(0.7)
    W["jac"] = jg.JacobianWCS(0.6, 0.1, -0.05, 0.65)
    W["aff"] = jg.AffineTransform(0.6, 0.1, -0.05, 0.65, jg.PositionD(1, 2), jg.PositionD(3.0, -1.0))
    W["off"] = jg.OffsetWCS(0.5, jg.PositionD(2.0, 1.0), jg.PositionD(0.5, 0.25))
    W["tan"] = jg.TanWCS(W["aff"], W["coord"], jg.arcsec)
    r = np.random.default_rng(s["seed"] + 1)
    W["arr"] = np.round(r.uniform(1, 40, (7, 9)), 2)
    W["iarr"] = r.integers(0, 50, (7, 9)).astype(np.int32)
    W["im"] = jg.Image(W["arr"], xmin=1, ymin=2, wcs=W["jac"])
    W["im2"] = jg.Image(W["arr"][::-1].copy(), xmin=1, ymin=2, scale=0.7)
    W["imi"] = jg.Image(W["iarr"], xmin=1, ymin=2, scale=0.7)
    W["imc"] = jg.Image(W["arr"].copy(), scale=1.0, make_const=True)
    W["imz"] = jg.ImageCD(W["arr"] + 1j * W["arr"][::-1], scale=0.4)
    W["hdr"] = jg.FitsHeader({"EXPTIME": 30.0, "GAIN": 1.5, "OBJECT": "star"})
    W["wcshdr"] = jg.FitsHeader()
    W["tan"].writeToFitsHeader(W["wcshdr"], jg.BoundsI(1, 9, 2, 8))
    W["imh"] = jg.Image(W["arr"].copy(), xmin=-3, ymin=-3, wcs=W["tan"])
    W["imh"].header = W["hdr"]
    W["big"] = jg.Image(np.zeros((24, 24)) + 0.25, scale=0.5)
    W["ims"] = [W["im2"], W["imi"]]
    W["same"] = [jg.Image(W["arr"] * k, scale=0.7) for k in (1, 2)]
    W["kim"] = jg.Image(np.ones((8, 8)), scale=1.0).calculate_fft()
    W["ii"] = jg.InterpolatedImage(jg.Image(r.uniform(0, 1, (6, 6)), scale=0.6), x_interpolant=jg.Quintic())
    W["lan"] = jg.Lanczos(3, gsparams=gsp)
    W["quintic"] = jg.Quintic()
    W["ud"] = jg.UniformDeviate(s["seed"] + 3)
    W["gd"] = jg.GaussianDeviate(s["seed"] + 4, mean=1.0, sigma=2.0)
    W["pd"] = jg.PoissonDeviate(s["seed"] + 5, mean=11.0)
    W["noise"] = jg.GaussianNoise(W["gd"], sigma=2.0)
    W["pnoise"] = jg.PoissonNoise(W["ud"], sky_level=3.0)
    W["ccd"] = jg.CCDNoise(W["ud"], sky_level=3.0, gain=2.0, read_noise=1.5)
    W["dnoise"] = jg.DeviateNoise(W["pd"])
    W["var"] = jg.VariableGaussianNoise(W["ud"], W["im"])
    W["px"], W["py"], W["pf"] = r.uniform(-3, 3, 6), r.uniform(-3, 3, 6), r.uniform(-1, 1, 6)
    W["ph"] = jg.PhotonArray(6, x=W["px"], y=W["py"], flux=W["pf"])
    W["ph2"] = jg.PhotonArray(6, x=W["py"], y=W["px"], flux=W["pf"] + 2, dxdz=W["px"] / 9, dydz=W["py"] / 9)
    W["ops"] = [W["gau"], W["box"]]
    W["kw"] = dict(nx=7, ny=6, scale=0.5, method="no_pixel")
    W["others"] = ["a", "b"]
    W["gen_arr"] = np.zeros(5)
    W["sensor"] = jg.Sensor()
    W["grid"] = np.linspace(0, 3, 7)
    W["edge"] = [0.0, 1.0, 2.5]
    return W


def cp(x):
    return x.copy() if hasattr(x, "copy") else copy.copy(x)


def iop(o, f):
    """y = o; y op= ...: o itself belongs to the world and is a value."""
    y = o
    y = f(y)
    return y


def iadd(y, v):
    y += v
    return y


def isub(y, v):
    y -= v
    return y


def imul(y, v):
    y *= v
    return y


def idiv(y, v):
    y /= v
    return y


def mut(x, f):
    """f changes x, a copy of something of the world."""
    f(x)
    return x


def tmpfile(f):
    with tempfile.TemporaryDirectory(prefix="jgmon-c24-") as d:
        return f(os.path.join(d, "f.fits"))


def tanhdr(w, h, b):
    w.writeToFitsHeader(h, b)
    return h


from jax_galsim import integ as jinteg  # noqa: E402
from jax_galsim.core import interpolate as jinterp  # noqa: E402
from jax_galsim.utilities import parse_pos_args  # noqa: E402

PROFS = ["gau", "exp", "moffat", "box", "sum", "conv", "trans", "prof"]

# name -> function of (world, rng-picked profile); every one may be called any number of times
OPS = {
    # profiles
    "add": lambda W, p: p + W["gau"],
    "sub": lambda W, p: p - W["exp"],
    "mul": lambda W, p: p * 2.5,
    "div": lambda W, p: p / 2.5,
    "neg": lambda W, p: -p,
    "iadd": lambda W, p: iop(p, lambda y: iadd(y, W["gau"])),
    "imul": lambda W, p: iop(p, lambda y: imul(y, 2.5)),
    "isub": lambda W, p: iop(p, lambda y: isub(y, W["box"])),
    "idiv": lambda W, p: iop(p, lambda y: idiv(y, 2.0)),
    "withFlux": lambda W, p: p.withFlux(3.0),
    "withScaledFlux": lambda W, p: p.withScaledFlux(3.0),
    "withGSParams": lambda W, p: p.withGSParams(W["gsp"]),
    "withGSParams-kw": lambda W, p: p.withGSParams(folding_threshold=2e-3),
    "expand": lambda W, p: p.expand(1.3),
    "dilate": lambda W, p: p.dilate(1.3),
    "magnify": lambda W, p: p.magnify(1.3),
    "shear": lambda W, p: p.shear(W["shear"]),
    "shear-kw": lambda W, p: p.shear(**{"g1": 0.1, "g2": 0.2}),
    "lens": lambda W, p: p.lens(0.1, 0.02, 1.1),
    "rotate": lambda W, p: p.rotate(W["angle"]),
    "transform": lambda W, p: p.transform(1.1, 0.1, -0.1, 0.9),
    "shift": lambda W, p: p.shift(W["pos"]),
    "shift-xy": lambda W, p: p.shift(W["xy"]),
    "Add": lambda W, p: jg.Add(W["objs"]),
    "Sum": lambda W, p: jg.Sum(W["objs"], gsparams=W["gsp"]),
    "Sum-keep": lambda W, p: jg.Sum(W["objs"], gsparams=W["gsp"], propagate_gsparams=False),
    "Convolve": lambda W, p: jg.Convolve(W["objs"]),
    "Convolution": lambda W, p: jg.Convolution(W["objs"], gsparams=W["gsp"]),
    "Deconvolve": lambda W, p: jg.Deconvolve(p),
    "Transform": lambda W, p: jg.Transform(p, jac=np.array([1.0, 0.2, 0.1, 0.9]), offset=W["pos"], flux_ratio=2.0),
    "Transformation": lambda W, p: jg.Transformation(p, jac=[1.0, 0.2, 0.1, 0.9], offset=W["pos"]),
    "obj_list": lambda W, p: mut(list(W["sum"].obj_list), lambda q: q.pop()),
    "params": lambda W, p: dict(p.params),
    "kValue": lambda W, p: p.kValue(W["pos"]),
    "kValue-xy": lambda W, p: p.kValue(W["xy"]),
    "xValue": lambda W, p: W["trans"].xValue(W["posarr"]),
    "sizes": lambda W, p: (p.maxk, p.stepk, p.nyquist_scale, p.flux, p.positive_flux, p.negative_flux, p.max_sb, p.centroid),
    "ii-sizes": lambda W, p: (W["ii"].maxk, W["ii"].stepk, W["ii"].flux, W["ii"].image, W["ii"].x_interpolant),
    "ii-xValue": lambda W, p: W["ii"].xValue(W["pos"]),
    "ii-shear": lambda W, p: W["ii"].shear(W["shear"]).kValue(W["pos"]),
    "goodsize": lambda W, p: p.getGoodImageSize(0.3),
    "eq": lambda W, p: (p == W["gau"], W["sum"] == W["sum"], hash(W["trans"]) == hash(W["trans"])),
    "str": lambda W, p: [str(v) + repr(v) for v in (p, W["sum"], W["conv"], W["im"], W["tan"], W["noise"], W["ph"], W["ud"])],
    "pickle": lambda W, p: pickle.loads(pickle.dumps([p, W["im"], W["tan"], W["ud"], W["noise"], W["ph"], W["ii"]])),
    "deepcopy": lambda W, p: copy.deepcopy([p, W["imh"], W["hdr"], W["objs"], W["ccd"]]),
    "tree-map": lambda W, p: jax.tree_util.tree_map(lambda v: v * 2 if jnp.issubdtype(jnp.result_type(v), jnp.floating) else v, [p, W["pos"], W["jac"], W["im"], W["ph"]]),
    # drawing
    "draw-kw": lambda W, p: W["gau"].drawImage(**W["kw"]),
    "draw-into": lambda W, p: W["gau"].drawImage(image=cp(W["im"]), method="no_pixel"),
    "draw-add": lambda W, p: W["exp"].drawImage(image=cp(W["big"]), method="no_pixel", add_to_image=True),
    "draw-bounds": lambda W, p: W["gau"].drawImage(bounds=W["bnds"], wcs=W["jac"], method="no_pixel"),
    "draw-offset": lambda W, p: W["box"].drawImage(nx=6, ny=5, wcs=W["aff"], offset=W["pos"], center=W["pos"], method="sb"),
    "draw-offset-list": lambda W, p: W["box"].drawImage(nx=6, ny=5, scale=0.5, offset=W["xy"], method="no_pixel"),
    "draw-fft": lambda W, p: W["conv"].drawImage(nx=8, ny=8, scale=0.5),
    "draw-fft-into": lambda W, p: W["gau"].drawImage(image=cp(W["big"]), method="fft"),
    "draw-tan": lambda W, p: W["gau"].drawImage(image=cp(W["imh"]), method="no_pixel"),
    "draw-ii": lambda W, p: W["ii"].drawImage(nx=8, ny=8, scale=0.6, method="no_pixel"),
    "draw-setup": lambda W, p: W["gau"].drawImage(image=cp(W["im"]), setup_only=True),
    "drawK": lambda W, p: W["conv"].drawKImage(nx=6, ny=6, scale=0.3),
    "drawK-into": lambda W, p: W["gau"].drawKImage(image=cp(W["imz"])),
    "drawReal": lambda W, p: [W["gau"].drawReal(i) for i in [cp(W["big"])]] and 0,
    "drawFFT": lambda W, p: W["conv"].drawFFT(cp(W["big"])),
    "draw-phot": lambda W, p: W["gau"].drawImage(image=cp(W["big"]), method="phot", n_photons=20, rng=W["ud"].duplicate(), poisson_flux=False),
    "draw-phot-ops": lambda W, p: W["gau"].drawImage(nx=5, ny=5, scale=0.8, method="phot", n_photons=10, rng=W["ud"].duplicate(), photon_ops=W["ops"], poisson_flux=False),
    "draw-phot-sensor": lambda W, p: W["gau"].drawImage(nx=5, ny=5, scale=0.8, method="phot", n_photons=10, rng=W["ud"].duplicate(), sensor=W["sensor"], poisson_flux=False, save_photons=True),
    "shoot": lambda W, p: W["sum"].shoot(12, W["ud"].duplicate()),
    "makePhot": lambda W, p: W["trans"].makePhot(n_photons=7, rng=W["ud"].duplicate(), local_wcs=W["jac"], poisson_flux=False),
    "makePhot-ops": lambda W, p: W["trans"].makePhot(n_photons=7, rng=W["ud"].duplicate(), photon_ops=W["ops"], poisson_flux=False),
    "applyTo": lambda W, p: mut(copy.deepcopy(W["ph"]), lambda q: W["gau"].applyTo(q, W["jac"], W["ud"].duplicate())),
    # images
    "im-add": lambda W, p: W["im"] + W["im2"],
    "im-sub": lambda W, p: W["imi"] - W["im2"],
    "im-mul": lambda W, p: 2.0 * W["im"],
    "im-div": lambda W, p: W["im"] / W["im2"],
    "im-pow": lambda W, p: W["im"] ** 2,
    "im-neg": lambda W, p: -W["im"],
    "im-floordiv": lambda W, p: W["imi"] // 3,
    "im-mod": lambda W, p: W["imi"] % 3,
    "im-and": lambda W, p: W["imi"] & 5,
    "im-const-add": lambda W, p: W["imc"] + 1.0,
    "im-copy-iadd": lambda W, p: iadd(W["im"].copy(), W["im2"]),
    "im-copy-isub": lambda W, p: isub(W["im"].copy(), W["im2"]),
    "im-copy-imul": lambda W, p: imul(W["imi"].copy(), 3),
    "im-copy-idiv": lambda W, p: idiv(W["im"].copy(), 3),
    "im-copy-set": lambda W, p: mut(W["im"].copy(), lambda q: q.__setitem__(W["bnds"], W["im2"])),
    "im-copy-setpix": lambda W, p: mut(W["im"].copy(), lambda q: q.__setitem__((3, 4), 7.0)),
    "im-copy-fill": lambda W, p: mut(W["im"].copy(), lambda q: q.fill(3.0)),
    "im-copy-invert": lambda W, p: mut(W["im"].copy(), lambda q: q.invertSelf()),
    "im-copy-shift": lambda W, p: mut(W["im"].copy(), lambda q: q.shift(W["posi"])),
    "im-copy-center": lambda W, p: mut(W["im"].copy(), lambda q: q.setCenter(W["posi"])),
    "im-copy-origin": lambda W, p: mut(W["imh"].copy(), lambda q: q.setOrigin(5, 5)),
    "im-copy-resize": lambda W, p: mut(W["im"].copy(), lambda q: q.resize(W["bnds"])),
    "im-copy-wcs": lambda W, p: mut(W["im"].copy(), lambda q: setattr(q, "wcs", W["tan"])),
    "im-copy-scale": lambda W, p: mut(W["im2"].copy(), lambda q: setattr(q, "scale", 3.0)),
    "im-copy-copyFrom": lambda W, p: mut(W["im"].copy(), lambda q: q.copyFrom(W["im2"])),
    "im-copy-setSub": lambda W, p: mut(W["im"].copy(), lambda q: q.setSubImage(W["bnds"], W["im2"])),
    "im-copy-array": lambda W, p: mut(W["im"].copy(), lambda q: setattr(q, "array", W["arr"] * 2)),
    "im-copy-addnoise": lambda W, p: mut(W["im"].copy(), lambda q: q.addNoise(jg.GaussianNoise(W["ud"].duplicate(), 2.0))),
    "im-copy-snr": lambda W, p: mut(W["im"].copy(), lambda q: q.addNoiseSNR(jg.GaussianNoise(W["ud"].duplicate(), 2.0), 30.0)),
    "im-copy-replaceneg": lambda W, p: mut(W["im"] - 20.0, lambda q: q.replaceNegative(1.0)),
    "im-copy-wrap": lambda W, p: mut(W["big"].copy(), lambda q: q.wrap(W["bnds"])),
    "im-sub-read": lambda W, p: (W["im"][W["bnds"]], W["im"].subImage(jg.BoundsI(2, 3, 3, 5))),
    "im-sub-shift": lambda W, p: mut(W["im"][jg.BoundsI(2, 3, 3, 5)], lambda q: q.setOrigin(0, 0)),
    "im-get": lambda W, p: (W["im"](3, 4), W["im"][3, 4], W["im"].getValue(3, 4)),
    "im-props": lambda W, p: (W["im"].bounds, W["im"].center, W["im"].true_center, W["im"].outer_bounds, W["im"].array, W["im"].ncol, W["imz"].real, W["imz"].imag, W["imz"].conjugate, W["im"].get_pixel_centers()),
    "im-turn": lambda W, p: (W["im"].transpose(), W["im"].flip_lr(), W["im"].flip_ud(), W["im"].rot_cw(), W["im"].rot_ccw(), W["im"].rot_180()),
    "im-from-image": lambda W, p: mut(jg.Image(W["im"]), lambda q: q.fill(1.0)) and 0,
    "im-from-image-dtype": lambda W, p: jg.Image(W["im"], dtype=np.float32),
    "im-from-array": lambda W, p: mut(jg.Image(W["arr"]), lambda q: q.fill(1.0)),
    "im-from-array-wcs": lambda W, p: jg.ImageD(W["arr"], xmin=3, wcs=W["aff"]),
    "im-from-bounds": lambda W, p: mut(jg.ImageF(W["bnds"], wcs=W["aff"], init_value=2), lambda q: q.setCenter(0, 0)),
    "im-fft": lambda W, p: jg.Image(W["arr"][:6, :6], scale=1.0).calculate_fft(),
    "im-ifft": lambda W, p: W["kim"].calculate_inverse_fft(),
    "im-fft-big": lambda W, p: W["big"].calculate_fft(),
    "im-eq": lambda W, p: (W["im"] == W["im2"], W["im"] != W["imi"]),
    "im-galsim": lambda W, p: jg.Image.from_galsim(W["im"].to_galsim()),
    "im-hdr": lambda W, p: mut(W["imh"].copy(), lambda q: setattr(q, "header", jg.FitsHeader({"X": 1}))),
    "im-copy-hdr": lambda W, p: W["imh"].copy(),
    # geometry
    "pos-math": lambda W, p: (W["pos"] + W["pos"], W["pos"] - W["posi"], 2 * W["pos"], W["pos"] / 2, -W["pos"], W["pos"].shear(W["shear"]), W["pos"].round()),
    "pos-iadd": lambda W, p: iop(W["pos"], lambda y: iadd(y, W["posi"])),
    "pos-imul": lambda W, p: iop(W["pos"], lambda y: imul(y, 3)),
    "pos-from": lambda W, p: (jg.PositionD(W["pos"]), jg.PositionD(W["xy"]), jg.PositionD(W["posarr"])),
    "bounds-math": lambda W, p: (W["bnds"] + W["bnds"], W["bnds"] + W["posi"], W["bnds"] & jg.BoundsI(3, 20, 3, 20), W["bnds"].shift(W["posi"]), W["bnds"].expand(2), W["bnds"].withBorder(2), W["bndsd"].expand(1.2), W["bndsd"].shift(W["pos"])),
    "bounds-iadd": lambda W, p: (iop(W["bnds"], lambda y: iadd(y, W["posi"])), iop(W["bndsd"], lambda y: iadd(y, W["pos"]))),
    "bounds-from": lambda W, p: (jg.BoundsI(W["posi"]), jg.BoundsD(W["bndsd"]), jg.BoundsI(W["bnds"]), W["bnds"].includes(W["posi"]), W["bnds"].includes(W["bnds"])),
    "bounds-read": lambda W, p: (W["bnds"].center, W["bnds"].origin, W["bndsd"].true_center, W["bnds"].numpyShape(), W["bndsd"].area()),
    "shear-math": lambda W, p: (W["shear"] + W["shear"], W["shear"] - W["shear"], -W["shear"], W["shear"].rotationWith(W["shear"]), W["shear"].getMatrix()),
    "shear-iadd": lambda W, p: iop(W["shear"], lambda y: iadd(y, jg.Shear(e1=0.1))),
    "angle-math": lambda W, p: (W["angle"] + W["angle"], 2 * W["angle"], -W["angle"], W["angle"].wrap(), W["angle"] / W["unit"], W["angle"].sincos(), W["angle"].hms(), W["angle"].dms()),
    "angle-iadd": lambda W, p: iop(W["angle"], lambda y: iadd(y, W["angle"])),
    "coord": lambda W, p: (W["coord"].distanceTo(W["coord2"]), W["coord"].project(W["coord2"]), W["coord"].deproject(0.1 * jg.degrees, W["angle"] * 0.001), W["coord"].precess(2000, 1950), W["coord"].galactic(), W["coord"].get_xyz(), W["coord"].normal(), W["coord"].greatCirclePoint(W["coord2"], W["angle"])),
    # coordinate systems
    "wcs-math": lambda W, p: (W["aff"].toWorld(W["pos"]), W["aff"].toImage(W["pos"]), W["aff"].local(W["pos"]), W["jac"].inverse(), W["aff"].jacobian(), W["jac"].affine(image_pos=W["pos"]), W["aff"].shiftOrigin(W["pos"]), W["jac"].withOrigin(W["pos"], W["pos"]), W["off"].withOrigin(W["posi"]), W["tan"].withOrigin(W["pos"])),
    "wcs-profile": lambda W, p: (W["aff"].toWorld(p, image_pos=W["pos"]), W["jac"].toImage(p), W["pix"].toWorld(W["shear"]), W["jac"].toImage(W["shear"])),
    "wcs-copy": lambda W, p: (W["aff"].copy(), W["tan"].copy(), W["pix"].copy(), W["off"].copy()),
    "wcs-read": lambda W, p: (W["jac"].getDecomposition(), W["jac"].getMatrix(), W["jac"].minLinearScale(), W["jac"].maxLinearScale(), W["jac"].pixelArea(), W["aff"].origin, W["aff"].world_origin, W["tan"].center, W["tan"].origin),
    "coord-new": lambda W, p: (jg.CelestialCoord(W["angle"], W["dec"]), jg.CelestialCoord(W["dec"], W["dec"])),
    "wcs-tan": lambda W, p: (W["tan"].toWorld(W["pos"]), W["tan"].toImage(W["coord"]), W["tan"].local(W["pos"]), W["tan"].pixelArea(W["pos"]), W["tan"].toImage(W["shear"], world_pos=W["coord"])),
    "wcs-TanWCS": lambda W, p: jg.TanWCS(W["aff"], W["coord"], W["unit"]),
    "wcs-arrays": lambda W, p: (W["aff"].xyTouv(W["px"], W["py"]), W["aff"].uvToxy(W["px"], W["py"]), W["tan"].xyToradec(W["px"], W["py"], jg.degrees)),
    "wcs-header": lambda W, p: tanhdr(W["tan"], jg.FitsHeader(), W["bnds"]),
    "wcs-header2": lambda W, p: tanhdr(W["aff"], {}, W["bnds"]),
    "wcs-read-hdr": lambda W, p: (jg.FitsWCS(header=W["wcshdr"]), jg.wcs.readFromFitsHeader(W["wcshdr"])),
    "hdr-copy": lambda W, p: mut(jg.FitsHeader(W["hdr"]), lambda h: h.__setitem__("GAIN", 99.0)),
    "hdr-update": lambda W, p: mut(jg.FitsHeader({"A": 1}), lambda h: h.update(W["hdr"])),
    "fits": lambda W, p: tmpfile(lambda f: (W["imh"].write(f), jg.fits.read(f).array)[1]),
    "fits-multi": lambda W, p: tmpfile(lambda f: (jg.fits.writeMulti(W["ims"], f), [i.array for i in jg.fits.readMulti(f)])[1]),
    "fits-cube": lambda W, p: tmpfile(lambda f: (jg.fits.writeCube(W["same"], f), [i.array for i in jg.fits.readCube(f)])[1]),
    # parameters and kernels
    "gsp-with": lambda W, p: W["gsp"].withParams(folding_threshold=1e-3),
    "gsp-combine": lambda W, p: jg.GSParams.combine([o.gsparams for o in W["objs"]]),
    "gsp-check": lambda W, p: jg.GSParams.check(W["gsp"], None, folding_threshold=1e-3),
    "kernel": lambda W, p: (W["lan"].xval(W["grid"]), W["lan"].kval(W["grid"]), W["lan"].unit_integrals(), W["lan"].positive_flux, W["lan"].withGSParams(kvalue_accuracy=1e-4), W["quintic"].xval(W["grid"]), W["quintic"].withGSParams(W["gsp"])),
    "kernel-ii": lambda W, p: jg.InterpolatedImage(W["im2"], x_interpolant=W["lan"], k_interpolant=W["quintic"], gsparams=W["gsp"], normalization="sb"),
    "kernel-ii2": lambda W, p: jg.InterpolatedImage(W["imh"].copy(), x_interpolant="linear", wcs=W["jac"], offset=W["pos"], _force_stepk=0.3, _force_maxk=3.0),
    "kernel-ii-const": lambda W, p: jg.InterpolatedImage(W["imc"], scale=0.3, flux=3.0, offset=W["xy"]),
    # random numbers and noise
    "dev-read": lambda W, p: (W["gd"].mean, W["gd"].sigma, W["pd"].mean, W["gd"].duplicate(), W["ud"] == W["gd"], W["ud"].serialize(), W["ud"].has_reliable_discard),
    "dev-draw": lambda W, p: (lambda d: (d(), d.raw(), d.generate(W["gen_arr"])))(W["gd"].duplicate()),
    "dev-add": lambda W, p: W["gd"].duplicate().add_generate(W["gen_arr"]),
    "dev-discard": lambda W, p: mut(W["ud"].duplicate(), lambda d: d.discard(5)),
    "dev-seed": lambda W, p: mut(W["ud"].duplicate(), lambda d: d.seed(5)),
    "dev-reset": lambda W, p: mut(W["ud"].duplicate(), lambda d: d.reset(9)),
    "dev-exp": lambda W, p: W["pd"].duplicate().generate_from_expectation(np.abs(W["px"])),
    "dev-var": lambda W, p: W["gd"].duplicate().generate_from_variance(np.abs(W["px"])),
    "dev-new": lambda W, p: (jg.UniformDeviate(7), jg.GaussianDeviate(7, mean=W["gd"].mean)),
    "noise-read": lambda W, p: (W["noise"].getVariance(), W["noise"].withVariance(3.0), W["noise"].withScaledVariance(3.0), W["pnoise"].getVariance(), W["ccd"].copy(), W["pnoise"].copy(), W["noise"] * 3, W["noise"] / 3, 2 * W["ccd"], W["dnoise"].copy(), W["var"].copy(rng=W["ud"].duplicate())),
    "var-image": lambda W, p: W["var"].var_image,
    "noise-copy-rng": lambda W, p: mut(W["im"].copy(), lambda q: W["noise"].copy(rng=W["ud"].duplicate()).applyTo(q)),
    "noise-new": lambda W, p: (jg.GaussianNoise(W["ud"], 2.0), jg.PoissonNoise(W["ud"], 2.0), jg.DeviateNoise(W["gd"]), jg.CCDNoise(W["ud"], 1.0), jg.VariableGaussianNoise(W["ud"], W["im"])) and 0,
    # photons
    "ph-read": lambda W, p: (W["ph"].x, W["ph"].flux, W["ph"].getTotalFlux(), len(W["ph"]), W["ph"].isCorrelated()),
    "ph-new": lambda W, p: mut(jg.PhotonArray(6, x=W["px"], y=W["py"], flux=W["pf"]), lambda q: (q.scaleXY(2.0), q.scaleFlux(3.0))),
    "ph-from": lambda W, p: mut(jg.PhotonArray.fromArrays(W["px"], W["py"], W["pf"]), lambda q: setattr(q, "x", 3.0)),
    "ph-copy-conv": lambda W, p: mut(copy.deepcopy(W["ph"]), lambda q: q.convolve(W["ph2"], W["ud"].duplicate())),
    "ph-copy-assign": lambda W, p: mut(jg.PhotonArray(9), lambda q: q.assignAt(2, W["ph2"])),
    "ph-copy-copyFrom": lambda W, p: mut(copy.deepcopy(W["ph"]), lambda q: q.copyFrom(W["ph2"])),
    "ph-copy-total": lambda W, p: mut(copy.deepcopy(W["ph"]), lambda q: q.setTotalFlux(9.0)),
    "ph-addTo": lambda W, p: mut(W["im2"].copy(), lambda q: W["ph"].addTo(q)),
    "ph-sensor": lambda W, p: mut(W["im2"].copy(), lambda q: W["sensor"].accumulate(W["ph"], q)),
    "ph-makeFrom": lambda W, p: jg.PhotonArray.makeFromImage(W["imi"], max_flux=10.0, rng=W["ud"].duplicate()),
    "ph-io": lambda W, p: tmpfile(lambda f: (W["ph2"].write(f), jg.PhotonArray.read(f))[1]),
    # helpers
    "parse-pos": lambda W, p: (parse_pos_args((W["pos"], 3.0), {"b": 1}, "x", "y", others=W["others"]), parse_pos_args((1.0, 2.0, 5), {"b": 2}, "x", "y", others=W["others"])),
    "int1d": lambda W, p: jinteg.int1d(lambda x: jnp.exp(-x), 0.0, 2.0),
    "akima": lambda W, p: jinterp.akima_interp(jnp.array([0.5, 1.2]), jnp.asarray(W["grid"]), jnp.sin(jnp.asarray(W["grid"])), jinterp.akima_interp_coeffs(jnp.asarray(W["grid"]), jnp.sin(jnp.asarray(W["grid"])))),
}
HEAVY = {"draw-fft", "draw-fft-into", "drawFFT", "draw-ii", "draw-phot", "draw-phot-ops", "draw-phot-sensor", "makePhot", "makePhot-ops", "pickle", "kernel-ii", "kernel-ii2", "kernel-ii-const", "shoot", "ph-makeFrom", "dev-exp"}
SHARES = {"var-image", "im-sub-read", "obj_list", "params"}  # results that share with the world on purpose
RANDOM = set()

# calls that must be refused; the receiver is a copy, compared with its own snapshot
BAD = {
    "draw-const": lambda W: (W["imc"], lambda q: W["gau"].drawImage(image=q, method="no_pixel")),
    "draw-const-add": lambda W: (W["imc"], lambda q: W["gau"].drawImage(image=q, method="no_pixel", add_to_image=True)),
    "draw-const-fft": lambda W: (W["imc"], lambda q: W["conv"].drawImage(image=q, add_to_image=True)),
    "draw-const-phot": lambda W: (W["imc"], lambda q: W["gau"].drawImage(image=q, method="phot", n_photons=5, rng=W["ud"].duplicate(), poisson_flux=False)),
    "draw-method": lambda W: (W["im"].copy(), lambda q: W["gau"].drawImage(image=q, method="nonsense")),
    "draw-nphot": lambda W: (W["im"].copy(), lambda q: W["gau"].drawImage(image=q, method="fft", n_photons=5)),
    "draw-nx-image": lambda W: (W["im"].copy(), lambda q: W["gau"].drawImage(image=q, nx=5, ny=5)),
    "draw-dtype": lambda W: (W["im"].copy(), lambda q: W["gau"].drawImage(image=q, dtype=np.int32)),
    "draw-scale-wcs": lambda W: (W["im"].copy(), lambda q: W["gau"].drawImage(image=q, scale=0.3, wcs=W["jac"])),
    "draw-rng-type": lambda W: (W["im"].copy(), lambda q: W["gau"].drawImage(image=q, rng=W["ud"], method="fft")),
    "draw-gain": lambda W: (W["im"].copy(), lambda q: W["gau"].drawImage(image=q, gain=-1.0, method="no_pixel")),
    "draw-offset": lambda W: (W["im"].copy(), lambda q: W["gau"].drawImage(image=q, offset="up")),
    "draw-fft-size": lambda W: (W["im"].copy(), lambda q: W["conv"].withGSParams(maximum_fft_size=16).drawImage(image=q)),
    "draw-fft-size-add": lambda W: (W["im"].copy(), lambda q: W["conv"].withGSParams(maximum_fft_size=16).drawImage(image=q, add_to_image=True)),
    "draw-phot-deconv": lambda W: (W["im"].copy(), lambda q: W["deconv"].drawImage(image=q, method="phot", n_photons=5, rng=W["ud"].duplicate(), poisson_flux=False)),
    "drawK-real": lambda W: (W["im"].copy(), lambda q: W["gau"].drawKImage(image=q)),
    "drawK-const": lambda W: (jg.Image(W["imz"].array, make_const=True), lambda q: W["gau"].drawKImage(image=q)),
    "drawReal-const": lambda W: (W["imc"], lambda q: W["gau"].drawReal(q)),
    "drawReal-const-add": lambda W: (W["imc"], lambda q: W["gau"].drawReal(q, add_to_image=True)),
    "iadd-shape": lambda W: (W["im"].copy(), lambda q: iadd(q, W["big"])),
    "iadd-const": lambda W: (W["imc"], lambda q: iadd(q, 1.0)),
    "imul-const": lambda W: (W["imc"], lambda q: imul(q, W["imc"])),
    "fill-const": lambda W: (W["imc"], lambda q: q.fill(1.0)),
    "set-const": lambda W: (W["imc"], lambda q: q.setValue(1, 1, 3.0)),
    "setzero-const": lambda W: (W["imc"], lambda q: q.setZero()),
    "invert-const": lambda W: (W["imc"], lambda q: q.invertSelf()),
    "replace-const": lambda W: (W["imc"], lambda q: q.replaceNegative()),
    "resize-const": lambda W: (W["imc"], lambda q: q.resize(W["bnds"])),
    "wrap-const": lambda W: (W["imc"], lambda q: q.wrap(jg.BoundsI(1, 4, 1, 4))),
    "array-const": lambda W: (W["imc"], lambda q: setattr(q, "array", W["arr"])),
    "item-const": lambda W: (W["imc"], lambda q: q.__setitem__(jg.BoundsI(1, 2, 1, 2), 3.0)),
    "copyFrom-const": lambda W: (W["imc"], lambda q: q.copyFrom(W["imc"])),
    "addTo-const": lambda W: (W["imc"], lambda q: W["ph"].addTo(q)),
    "sensor-const": lambda W: (W["imc"], lambda q: W["sensor"].accumulate(W["ph"], q)),
    "noise-const": lambda W: (W["imc"], lambda q: q.addNoise(jg.GaussianNoise(W["ud"].duplicate(), 1.0))),
    "set-outside": lambda W: (W["im"].copy(), lambda q: q.setValue(100, 1, 3.0)),
    "sub-outside": lambda W: (W["im"].copy(), lambda q: q[jg.BoundsI(100, 101, 1, 2)]),
    "setsub-outside": lambda W: (W["im"].copy(), lambda q: q.__setitem__(jg.BoundsI(100, 101, 1, 2), 3.0)),
    "copyFrom-shape": lambda W: (W["im"].copy(), lambda q: q.copyFrom(W["big"])),
    "array-shape": lambda W: (W["im"].copy(), lambda q: setattr(q, "array", np.zeros((2, 2)))),
    "wrap-outside": lambda W: (W["im"].copy(), lambda q: q.wrap(jg.BoundsI(50, 60, 1, 4))),
    "resize-type": lambda W: (W["im"].copy(), lambda q: q.resize("big")),
    "noise-type": lambda W: (W["im"].copy(), lambda q: q.addNoise(3.0)),
    "shift-args": lambda W: (W["im"].copy(), lambda q: q.shift(1, 2, 3)),
    "center-args": lambda W: (W["im"].copy(), lambda q: q.setCenter("a", "b")),
    "ph-assign": lambda W: (copy.deepcopy(W["ph"]), lambda q: q.assignAt(3, W["ph2"])),
    "ph-conv": lambda W: (copy.deepcopy(W["ph"]), lambda q: q.convolve(jg.PhotonArray(4))),
    "ph-x": lambda W: (copy.deepcopy(W["ph"]), lambda q: setattr(q, "x", np.zeros(4))),
    "ph-addTo": lambda W: (copy.deepcopy(W["ph"]), lambda q: q.addTo(jg.Image())),
    "gen-type": lambda W: (W["ud"].duplicate(), lambda q: q.seed("x")),
    "shoot-none": lambda W: (W["ud"].duplicate(), lambda q: W["deconv"].shoot(5, q)),
    "gsp-bad": lambda W: (W["gsp"], lambda q: q.withParams(nonsense=3)),
    "shear-args": lambda W: (W["gau"], lambda q: q.shear(g1=0.1, q=0.3)),
    "shift-none": lambda W: (W["gau"], lambda q: q.shift()),
    "add-bad": lambda W: (W["objs"], lambda q: jg.Add(q + [3])),
    "conv-bad": lambda W: (W["objs"], lambda q: jg.Convolve(q + ["x"])),
    "bounds-bad": lambda W: (W["bnds"], lambda q: q + "x"),
    "parse-bad": lambda W: (W["others"], lambda q: parse_pos_args((1, 2, 3, 4, 5), {}, "x", "y", others=q)),
}


def world_spec(rng):
    return dict(kva=pick(rng, [1e-5, 1e-4]), sigma=rnd(rng, 0.5, 1.5), flux=rnd(rng, 0.5, 30), r0=rnd(rng, 0.5, 1.5), seed=int(rng.integers(1, 2**30)), x=rnd(rng, -1.5, 1.5), y=rnd(rng, -1.5, 1.5))


class Watch:
    def __init__(self, mon, W):
        self.mon, self.W = mon, W
        self.was = {k: snap(v) for k, v in W.items()}
        self.results = []

    def look(self, op):
        bad = None
        for k, v in self.W.items():
            d = diff(self.was[k], snap(v), k)
            if d:
                bad = bad or d
                self.was[k] = snap(v)
        self.mon.check("world-untouched", bad is None, op=op, change=bad, mech="world-untouched:" + op)
        self.mon.event("snapshots", len(self.W))

    def keep(self, op, r):
        self.results.append((op, r, snap(r)))

    def look_back(self, op):
        for o, r, s in self.results:
            d = diff(s, snap(r), o)
            self.mon.check("earlier-results-untouched", d is None, result_of=o, last_op=op, change=d)


def scribble(x):
    """Change everything about a result that its owner may change in place."""
    n = 0
    if isinstance(x, (tuple, list)):
        for v in x:
            n += scribble(v)
        if isinstance(x, list):
            x.append(None)
    elif isinstance(x, jg.Image):
        if not x.isconst:
            x.fill(5)
            x.setOrigin(70, 70)
            x.wcs = jg.PixelScale(9.0)
            n += 1
            if getattr(x, "header", None) is not None:
                pass  # (headers are shared by copies in GalSim as well)
    elif isinstance(x, jg.PhotonArray):
        x.scaleXY(5.0)
        x.scaleFlux(7.0)
        x.x = 3.0
        n += 1
    elif isinstance(x, jg.BaseDeviate):
        x.discard(2)
        x.raw()
        n += 1
    elif isinstance(x, jg.FitsHeader):
        x["SCRIB"] = 1
        n += 1
    return n


def histories(mon, rng):
    warnings.simplefilter("ignore")
    s = world_spec(rng)
    W = make_world(s)
    T = make_world(s)  # the twin: only ever used fresh
    w = Watch(mon, W)
    names = [n for n in OPS if n not in HEAVY]
    names = [names[i] for i in rng.permutation(len(names))[:34]] + [pick(rng, sorted(HEAVY)) for _ in range(4)]
    log = []
    mon.note(world=s, log=log)
    for i, n in enumerate([names[j] for j in rng.permutation(len(names))]):
        f, pn = OPS[n], pick(rng, PROFS)
        log.append(f"{n}({pn})")
        r = attempt(lambda: f(W, W[pn]))
        w.look(n)
        if isinstance(r, Raised):
            mon.check("op-possible", False, mech="op-possible:" + n, op=n, prof=pn, got=f"{type(r.e).__name__}: {str(r.e)[:200]}")
            continue
        mon.event("ops")
        sr = snap(r)
        again = attempt(lambda: f(W, W[pn]))
        d = diff(sr, snap(again), n)
        mon.check("repeatable", d is None, op=n, prof=pn, change=d, mech="repeatable:" + n)
        d = diff(sr, snap(r), n)
        mon.check("first-result-untouched", d is None, op=n, change=d)
        twin = attempt(lambda: f(T, T[pn]))
        d = diff(sr, snap(twin), n)
        mon.check("history-independent", d is None, op=n, prof=pn, change=d)
        if n not in SHARES:
            w.keep(n, r)
            if scribble(again):
                mon.event("scribbled")
                w.look(n + "+scribble")
                d = diff(sr, snap(r), n)
                mon.check("results-independent", d is None, op=n, change=d)
        if i % 8 == 7:
            w.look_back(n)
    w.look_back("end")
    new = make_world(s)
    d = next((q for q in (diff(snap(new[k]), snap(W[k]), k) for k in W) if q), None)
    mon.check("world-as-made", d is None, change=d)


def traced(mon, rng):
    """The same calls inside a trace, on objects made outside it: no tracer may stay behind."""
    warnings.simplefilter("ignore")
    s = world_spec(rng)
    W, T = make_world(s), make_world(s)
    w = Watch(mon, W)
    names = [n for n in OPS if not n.startswith(("fits", "ph-io", "str", "pickle", "im-galsim"))]
    log = []
    mon.note(world=s, log=log)
    for n in [names[j] for j in rng.permutation(len(names))[:20] if names[j] != "coord-new"] + ["coord-new"]:
        f, pn = OPS[n], pick(rng, PROFS)
        log.append(f"{n}({pn})")

        def run(z):
            r = f(W, W[pn])
            return [v for v in jax.tree_util.tree_leaves(r) if isinstance(v, (jax.Array, np.ndarray, float))], z

        r = attempt(lambda: jax.eval_shape(run, 1.0))
        mon.event("traced" if not isinstance(r, Raised) else "trace-refused:" + n)
        w.look(n + " (traced)")
        a, b = attempt(lambda: f(W, W[pn])), attempt(lambda: f(T, T[pn]))
        ok = not isinstance(a, Raised)
        mon.check("usable-after-trace", ok, op=n, prof=pn, got=None if ok else f"{type(a.e).__name__}: {str(a.e)[:200]}", mech="usable-after-trace:" + n)
        if ok:
            d = diff(snap(b), snap(a), n)
            mon.check("same-after-trace", d is None, op=n, prof=pn, change=d)


def refused(mon, rng):
    """Calls that are refused leave their receiver and arguments alone."""
    warnings.simplefilter("ignore")
    s = world_spec(rng)
    W = make_world(s)
    w = Watch(mon, W)
    names = sorted(BAD)
    log = []
    mon.note(world=s, log=log)
    for n in names[mon.index % 3 :: 3]:
        log.append(n)
        q, f = BAD[n](W)
        before = snap(q)
        r = attempt(lambda: f(q))
        if not mon.check("refused", isinstance(r, Raised), op=n, mech="refused:" + n):
            continue
        mon.event("refused")
        d = diff(before, snap(q), n)
        mon.check("receiver-untouched", d is None, op=n, error=f"{type(r.e).__name__}: {str(r.e)[:120]}", change=d, mech="receiver-untouched:" + n)
        w.look(n)


GROUPS = {
    "histories": dict(fn=histories, quick=9, thorough=160, cost=6.0, shards=7, must=["world-untouched", "earlier-results-untouched", "repeatable", "history-independent", "results-independent", "world-as-made"]),
    "traced": dict(fn=traced, quick=6, thorough=60, cost=8.0, shards=4, must=["world-untouched", "usable-after-trace", "same-after-trace"]),
    "refused": dict(fn=refused, quick=8, thorough=80, cost=2.0, shards=2, must=["refused", "receiver-untouched", "world-untouched"]),
}
