"""C23: calls accept GalSim's arguments in GalSim's order with GalSim's defaults; conversion both ways."""

import inspect
import warnings

from jgmon.common import *
from jgmon.objects import any_object
from jgmon.props import c03_draw as C3

RULE = "Every case is one generated call executed with both libraries and in several styles (GalSim's positional order, keywords, defaults left out or given explicitly), one generated object converted to GalSim and back, or one pass over the live classes by reflection."
ASSUMPTIONS = [
    "GalSim 2.8.5 installed here is the reference for signatures, order and defaults",
    "documented omissions and JAX-specific additions are those in the tables of this module",
]
import galsim as gs


# -- values ------------------------------------------------------------------------------------------
def V(x):
    return lambda m: x


def num(lo, hi, nd=3):
    return lambda rng: V(rnd(rng, lo, hi, nd=nd + 1) if nd else int(rng.integers(int(lo), int(hi))))


def one(*xs):
    return lambda rng: V(pick(rng, list(xs)))


def ang(lo=-3, hi=3):
    def g(rng):
        v = rnd(rng, lo, hi)
        return lambda m: v * m.radians

    return g


def posd(rng):
    x, y = rnd(rng, -3, 3), rnd(rng, -3, 3)
    return lambda m: m.PositionD(x, y)


def posi(rng):
    x, y = int(rng.integers(-5, 5)), int(rng.integers(-5, 5))
    return lambda m: m.PositionI(x, y)


def shr(rng):
    a, b = rnd(rng, -0.3, 0.3), rnd(rng, -0.3, 0.3)
    return lambda m: m.Shear(g1=a, g2=b)


def crd(rng):
    a, b = rnd(rng, 0.1, 3), rnd(rng, -0.7, 0.9)
    return lambda m: m.CelestialCoord(a * m.radians, b * m.radians)


def gsp(rng):
    v = pick(rng, [1e-2, 3e-3])
    return lambda m: m.GSParams(folding_threshold=v)


def gal(rng):
    s = rnd(rng, 0.8, 2)
    return lambda m: m.Gaussian(sigma=s)


def img(rng, dt=float):
    a = np.round(rng.uniform(1, 9, (4, 6)), 2)
    return lambda m: m.Image(a.astype(dt), scale=0.5)


def bnd(rng):
    v = [int(rng.integers(-3, 2)), int(rng.integers(3, 7)), int(rng.integers(-3, 2)), int(rng.integers(3, 7))]
    return lambda m: m.BoundsI(*v)


def bndd(rng):
    v = [rnd(rng, -9, 0), rnd(rng, 1, 9), rnd(rng, -9, 0), rnd(rng, 1, 9)]
    return lambda m: m.BoundsD(*v)


def pxw(rng):
    s = rnd(rng, 0.3, 2)
    return lambda m: m.PixelScale(s)


def jac(rng):
    v = [rnd(rng, 0.3, 0.6), rnd(rng, -0.1, 0.1), rnd(rng, -0.1, 0.1), rnd(rng, 0.3, 0.6)]
    return lambda m: m.JacobianWCS(*v)


def aff(rng):
    v = [rnd(rng, 0.3, 0.6), rnd(rng, -0.1, 0.1), rnd(rng, -0.1, 0.1), rnd(rng, 0.3, 0.6)]
    x, y = rnd(rng, -3, 3), rnd(rng, -3, 3)
    return lambda m: m.AffineTransform(*v, origin=m.PositionD(x, y))


def itp(rng):
    k = pick(rng, ["Linear", "Cubic", "Quintic"])
    return lambda m: getattr(m, k)()


def dev(rng):
    s = int(rng.integers(1, 10**6))
    return lambda m: m.BaseDeviate(s)


def arrv(n, lo=-2, hi=2):
    return lambda rng: V(np.round(rng.uniform(lo, hi, n), 3))


def pha(rng):
    a = np.round(rng.uniform(-2, 2, (3, 5)), 3)
    return lambda m: m.PhotonArray(5, x=a[0].copy(), y=a[1].copy(), flux=np.abs(a[2]))


# -- what a user sees of a result --------------------------------------------------------------------
TYPES = "Position Bounds Shear Angle AngleUnit CelestialCoord Image PhotonArray GSObject GSParams BaseWCS Interpolant BaseNoise BaseDeviate"


def kind_of(m, r):
    for k in ("PositionD", "PositionI", "BoundsD", "BoundsI", "Shear", "Angle", "AngleUnit", "CelestialCoord", "Image", "PhotonArray", "GSObject", "GSParams", "BaseWCS", "Interpolant", "BaseNoise", "BaseDeviate"):
        if isinstance(r, getattr(m, k)):
            return k
    return None


GSPN = ["minimum_fft_size", "maximum_fft_size", "folding_threshold", "stepk_minimum_hlr", "maxk_threshold", "kvalue_accuracy", "xvalue_accuracy", "table_spacing", "realspace_relerr", "realspace_abserr", "integration_relerr", "integration_abserr", "shoot_accuracy"]
DEVP = ["mean", "sigma", "n", "p", "a", "b", "k", "theta"]
NOISEP = ["sigma", "sky_level", "gain", "read_noise"]


def see(m, r):
    """Nested tuples of kinds and float arrays."""
    k = kind_of(m, r)
    if k in ("PositionD", "PositionI"):
        return (k, A(r.x), A(r.y))
    if k in ("BoundsD", "BoundsI"):
        return (k, bool(r.isDefined())) + ((A(r.xmin), A(r.xmax), A(r.ymin), A(r.ymax)) if r.isDefined() else ())
    if k == "Shear":
        return (k, A(r.g1), A(r.g2))
    if k == "Angle":
        return (k, A(r.rad))
    if k == "AngleUnit":
        return (k, A(r.value))
    if k == "CelestialCoord":
        return (k, A(r.ra.rad), A(r.dec.rad))
    if k == "Image":
        return (k, np.dtype(r.dtype).name, see(m, r.bounds), A0(r.array) if r.bounds.isDefined() else 0, see(m, r.wcs) if r.wcs is not None else None, bool(r.isconst))
    if k == "PhotonArray":
        return (k, r.size(), A(r.x), A(r.y), A(r.flux), *[A(getattr(r, f)) if g else None for f, g in (("dxdz", r.hasAllocatedAngles()), ("dydz", r.hasAllocatedAngles()), ("wavelength", r.hasAllocatedWavelengths()), ("pupil_u", r.hasAllocatedPupil()), ("time", r.hasAllocatedTimes()))])
    if k == "GSParams":
        return (k, *[A(getattr(r, n)) for n in GSPN])
    if k == "GSObject":
        x = A(r.xValue(0.3, 0.2)) if r.is_analytic_x and type(r).__name__ != "DeltaFunction" else None
        return (k, A(r.flux), A0(np.asarray(r.kValue(0.4, -0.3))), x, A(r.maxk), see(m, r.gsparams))
    if k == "BaseWCS":
        if r.isCelestial():
            return (k, type(r).__name__, see(m, r.toWorld(m.PositionD(3.0, 4.0))))
        return (k, type(r).__name__, see(m, r.toWorld(m.PositionD(3.0, 4.0))), see(m, r.origin)[1:], see(m, r.world_origin)[1:])
    if k == "Interpolant":
        return (k, type(r).__name__, A(r.kval(0.3)), see(m, r.gsparams))
    if k == "BaseDeviate":
        return (k, type(r).__name__, *[A(getattr(r, n)) if hasattr(r, n) and not callable(getattr(r, n)) else None for n in DEVP])
    if k == "BaseNoise":
        return (k, type(r).__name__, *[A(getattr(r, n)) if hasattr(r, n) and not callable(getattr(r, n)) else None for n in NOISEP])
    if isinstance(r, (list, tuple)):
        return ("seq", *[see(m, v) for v in r])
    if isinstance(r, dict):
        return ("dict", *[(n, see(m, r[n])) for n in sorted(r)])
    if r is None or isinstance(r, (str, bool)):
        return (repr(r),)
    if isinstance(r, np.bool_) or (hasattr(r, "dtype") and np.asarray(r).dtype == bool and np.ndim(r) == 0):
        return (repr(bool(r)),)
    if hasattr(r, "__array__") or isinstance(r, (int, float, complex, np.generic)):
        return (A0(np.asarray(r)),)
    return (str(type(r).__name__),)


def A0(x):
    x = np.asarray(x)
    return x.astype(complex if x.dtype.kind == "c" else float)


def same(mon, monitor, a, b, tol=1e-6, **d):
    if isinstance(a, tuple) and isinstance(b, tuple):
        if not mon.check(monitor, len(a) == len(b), got=str(a)[:200], want=str(b)[:200], **d):
            return False
        return all([same(mon, monitor, x, y, tol, **d) for x, y in zip(a, b)])
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        if not mon.check(monitor, a.shape == b.shape, got=a.shape, want=b.shape, **d):
            return False
        return mon.close(monitor, a, b, rtol=tol, atol=tol * max(1e-3, float(np.max(np.abs(np.where(np.isfinite(b), b, 0)), initial=0))), **d)
    return mon.check(monitor, type(a) is type(b) and a == b, got=str(a)[:200], want=str(b)[:200], **d)


# -- the table of calls ------------------------------------------------------------------------------
# label: (receiver(rng)->(m->obj) or None, path, {param: generator}, required, options)
ROWS = []


def row(label, params, recv=None, need=None, groups=(), rec_after=False, tol=1e-6, only=None, rng_used=False, nodefault=()):
    """params: GalSim parameter name -> generator; need: always given; groups: sets of which exactly one is given."""
    ROWS.append(dict(label=label, params=params, recv=recv, need=list(need or []), groups=groups, rec_after=rec_after, tol=tol, rng=rng_used, nodefault=nodefault))


SZ = num(0.5, 3)
row("Gaussian", dict(half_light_radius=SZ, sigma=SZ, fwhm=SZ, flux=SZ, gsparams=lambda r: gsp(r)), groups=[("half_light_radius", "sigma", "fwhm")])
row("Exponential", dict(half_light_radius=SZ, scale_radius=SZ, flux=SZ, gsparams=gsp), groups=[("half_light_radius", "scale_radius")])
row("Moffat", dict(beta=num(2.2, 4), scale_radius=SZ, half_light_radius=SZ, fwhm=SZ, flux=SZ, gsparams=gsp), need=["beta"], groups=[("scale_radius", "half_light_radius", "fwhm")], tol=2e-3)
row("Spergel", dict(nu=num(-0.5, 3), half_light_radius=SZ, scale_radius=SZ, flux=SZ, gsparams=gsp), need=["nu"], groups=[("half_light_radius", "scale_radius")], tol=1e-4)
row("Box", dict(width=SZ, height=SZ, flux=SZ, gsparams=gsp), need=["width", "height"])
row("Pixel", dict(scale=SZ, flux=SZ, gsparams=gsp), need=["scale"])
row("DeltaFunction", dict(flux=SZ, gsparams=gsp))
row("InterpolatedImage", dict(image=img, x_interpolant=itp, k_interpolant=itp, normalization=one("flux", "sb"), scale=SZ, wcs=jac, flux=SZ, pad_factor=one(2.0, 3.0), calculate_stepk=one(False), calculate_maxk=one(False), use_true_center=one(False), offset=posd, gsparams=gsp, _force_stepk=num(0.1, 0.2), _force_maxk=num(3, 4)), need=["image"], groups=[("scale", "wcs", None)], tol=1e-4)
G = gal
for n, p in dict(dilate=dict(scale=SZ), expand=dict(scale=SZ), magnify=dict(mu=SZ), rotate=dict(theta=ang()), withFlux=dict(flux=SZ), withScaledFlux=dict(flux_ratio=SZ), lens=dict(g1=num(-0.2, 0.2), g2=num(-0.2, 0.2), mu=SZ), transform=dict(dudx=SZ, dudy=num(-0.2, 0.2), dvdx=num(-0.2, 0.2), dvdy=SZ), _shear=dict(shear=shr), _lens=dict(g1=num(-0.2, 0.2), g2=num(-0.2, 0.2), mu=SZ), _shift=dict(dx=SZ, dy=SZ)).items():  # fmt: skip
    row("Gaussian." + n, p, recv=G, need=list(p))
row("Gaussian.withGSParams", dict(gsparams=gsp), recv=G, need=["gsparams"])
row("Gaussian._xValue", dict(pos=posd), recv=G, need=["pos"])
row("Gaussian._kValue", dict(kpos=posd), recv=G, need=["kpos"])
row("Gaussian.getGoodImageSize", dict(pixel_scale=num(0.1, 0.5)), recv=G, need=["pixel_scale"])
DRAW = dict(image=img, nx=one(8, 9), ny=one(7, 10), bounds=bnd, scale=num(0.3, 0.8), wcs=jac, dtype=one(np.float32, np.float64), method=one("fft", "no_pixel", "auto", "sb"), area=SZ, exptime=SZ, gain=SZ, add_to_image=one(True), center=posd, use_true_center=one(False), offset=posd)
row("Gaussian.drawImage", DRAW, recv=G, groups=[("image", "bounds", "nx"), ("scale", "wcs"), ("center", "offset", None)], rec_after=False, tol=1e-4)
row("Gaussian.drawKImage", dict(image=lambda r: img(r, complex), nx=one(8, 9), ny=one(7, 10), bounds=bnd, scale=num(0.3, 0.8), add_to_image=one(True), recenter=one(False)), recv=G, groups=[("image", "bounds", "nx")], need=["scale"])
row("Transform", dict(obj=G, jac=lambda r: V([1.1, 0.1, -0.2, 0.9]), offset=posd, flux_ratio=SZ, gsparams=gsp, propagate_gsparams=one(False)), need=["obj"])
row("Transformation", dict(obj=G, jac=lambda r: V([1.1, 0.1, -0.2, 0.9]), offset=posd, flux_ratio=SZ, gsparams=gsp, propagate_gsparams=one(False)), need=["obj"])
row("Deconvolve", dict(obj=G, gsparams=gsp, propagate_gsparams=one(False)), need=["obj"])
row("Deconvolution", dict(obj=G, gsparams=gsp, propagate_gsparams=one(False)), need=["obj"])
row("GSParams", {k: num(0.001, 0.01, 5) for k in GSPN[2:] if k != "table_spacing"} | dict(minimum_fft_size=one(64, 256), maximum_fft_size=one(4096, 2048), table_spacing=one(2, 3)))
# images
IM = img
row("Image.copy", {}, recv=IM)
row("Image.setSubImage", dict(bounds=lambda r: (lambda m: m.BoundsI(2, 3, 2, 3)), rhs=lambda r: (lambda m: m.Image(np.array([[1.0, 2.0], [3.0, 4.0]])))), recv=IM, need=["bounds", "rhs"], rec_after=True)
row("Image.fill", dict(value=SZ), recv=IM, need=["value"], rec_after=True)
row("Image.resize", dict(bounds=bnd, wcs=pxw), recv=IM, need=["bounds"], rec_after=True)
row("Image.replaceNegative", dict(replace_value=num(0, 2)), recv=lambda r: (lambda f: lambda m: f(m) - 5.0)(img(r)), rec_after=True)
row("Image.get_pixel_centers", {}, recv=IM)
row("Image.good_fft_size", dict(input_size=one(17, 50, 129)), need=["input_size"])
row("Image.invertSelf", {}, recv=IM, rec_after=True)
row("Image._shift", dict(delta=posi), recv=IM, need=["delta"], rec_after=True)
row("Image.wrap", dict(bounds=lambda r: (lambda m: m.BoundsI(1, 3, 1, 2)), hermitian=one(False)), recv=IM, need=["bounds"])
# bounds, positions, shears, angles
for k, g in (("BoundsI", bnd), ("BoundsD", bndd)):
    row(k + ".withBorder", dict(dx=one(1, 2), dy=one(0, 3)), recv=g, need=["dx"])
    row(k + ".expand", dict(factor_x=num(1, 2), factor_y=num(1, 3)), recv=g, need=["factor_x"])
    row(k + ".shift", dict(delta=posi if k[-1] == "I" else posd), recv=g, need=["delta"])
row("PositionD.shear", dict(shear=shr), recv=posd, need=["shear"])
row("Shear.rotationWith", dict(other=shr), recv=shr, need=["other"])
row("Angle", dict(theta=num(-9, 9), unit=one(None)), need=[])
ROWS.pop()
row("Angle", dict(theta=num(-9, 9), unit=lambda r: (lambda n: lambda m: getattr(m, n))(pick(r, ["degrees", "hours", "arcmin"]))), need=["theta", "unit"])
row("AngleUnit", dict(value=num(0.1, 3)), need=["value"])
row("Angle.wrap", dict(center=ang(-5, 5)), recv=ang(-20, 20))
row("Angle.dms", dict(sep=one(":", " ", "dms"), prec=one(0, 2, 5), pad=one(False), plus_sign=one(True)), recv=ang(-6, 6))
row("Angle.hms", dict(sep=one(":", " ", "hms"), prec=one(0, 2, 5), pad=one(False), plus_sign=one(True)), recv=ang(-6, 6))
row("Angle.from_dms", dict(dms_str=one("12:34:56.5", "-3:04:05")), need=["dms_str"])
row("Angle.from_hms", dict(hms_str=one("12:34:56.5", "-3:04:05")), need=["hms_str"])
# sky
C = crd
PR = one("gnomonic", "stereographic", "lambert", "postel")
row("CelestialCoord", dict(ra=ang(), dec=ang(-1.5, 1.5)), need=["ra", "dec"])
row("CelestialCoord.distanceTo", dict(coord2=crd), recv=C, need=["coord2"])
row("CelestialCoord.angleBetween", dict(coord2=crd, coord3=crd), recv=C, need=["coord2", "coord3"])
row("CelestialCoord.area", dict(coord2=crd, coord3=crd), recv=C, need=["coord2", "coord3"])
row("CelestialCoord.greatCirclePoint", dict(coord2=crd, theta=ang(0, 1)), recv=C, need=["coord2", "theta"])
near = lambda r: (lambda v: lambda m: m.CelestialCoord(v[0] * m.radians, v[1] * m.radians))((rnd(r, 0.9, 1.1), rnd(r, 0.2, 0.4)))  # noqa: E731
row("CelestialCoord.project", dict(coord2=near, projection=PR), recv=near, need=["coord2"])
row("CelestialCoord.project_rad", dict(ra=num(0.9, 1.1), dec=num(0.2, 0.4), projection=PR), recv=near, need=["ra", "dec"])
row("CelestialCoord.deproject", dict(u=ang(-0.2, 0.2), v=ang(-0.2, 0.2), projection=PR), recv=near, need=["u", "v"])
row("CelestialCoord.deproject_rad", dict(u=num(-0.2, 0.2), v=num(-0.2, 0.2), projection=PR), recv=near, need=["u", "v"])
row("CelestialCoord.jac_deproject", dict(u=ang(-0.2, 0.2), v=ang(-0.2, 0.2), projection=PR), recv=near, need=["u", "v"])
row("CelestialCoord.jac_deproject_rad", dict(u=num(-0.2, 0.2), v=num(-0.2, 0.2), projection=PR), recv=near, need=["u", "v"])
row("CelestialCoord.from_xyz", dict(x=SZ, y=SZ, z=SZ), need=["x", "y", "z"])
row("CelestialCoord.radec_to_xyz", dict(ra=SZ, dec=num(-1, 1), r=SZ), need=["ra", "dec"])
row("CelestialCoord.xyz_to_radec", dict(x=SZ, y=SZ, z=SZ, return_r=one(True)), need=["x", "y", "z"])
row("CelestialCoord.precess", dict(from_epoch=one(1950.0, 2000.0), to_epoch=one(1975.0, 2020.0)), recv=C, need=["from_epoch", "to_epoch"])
row("CelestialCoord.galactic", dict(epoch=one(1950.0, 2010.0)), recv=C)
row("CelestialCoord.from_galactic", dict(el=ang(), b=ang(-1, 1), epoch=one(1950.0, 2010.0)), need=["el", "b"])
row("CelestialCoord.ecliptic", dict(epoch=one(1950.0, 2010.0)), recv=C)
row("CelestialCoord.from_ecliptic", dict(lam=ang(), beta=ang(-1, 1), epoch=one(1950.0, 2010.0)), need=["lam", "beta"])
# coordinate systems
row("PixelScale", dict(scale=SZ), need=["scale"])
row("ShearWCS", dict(scale=SZ, shear=shr), need=["scale", "shear"])
row("JacobianWCS", dict(dudx=SZ, dudy=num(-0.2, 0.2), dvdx=num(-0.2, 0.2), dvdy=SZ), need=["dudx", "dudy", "dvdx", "dvdy"])
row("OffsetWCS", dict(scale=SZ, origin=posd, world_origin=posd), need=["scale"])
row("OffsetShearWCS", dict(scale=SZ, shear=shr, origin=posd, world_origin=posd), need=["scale", "shear"])
row("AffineTransform", dict(dudx=SZ, dudy=num(-0.2, 0.2), dvdx=num(-0.2, 0.2), dvdy=SZ, origin=posd, world_origin=posd), need=["dudx", "dudy", "dvdx", "dvdy"])
row("TanWCS", dict(affine=aff, world_origin=crd, units=lambda r: (lambda n: lambda m: getattr(m, n))(pick(r, ["degrees", "arcmin"]))), need=["affine", "world_origin"])
tan = lambda r: (lambda a, c: lambda m: m.TanWCS(a(m), c(m)))(aff(r), crd(r))  # noqa: E731
NP = dict(image_pos=posd)
for nm, g in (("AffineTransform", aff), ("JacobianWCS", jac), ("PixelScale", pxw)):
    row(nm + ".posToWorld", dict(image_pos=posd), recv=g, need=["image_pos"])
    row(nm + ".posToImage", dict(world_pos=posd), recv=g, need=["world_pos"])
    row(nm + ".pixelArea", dict(image_pos=posd, world_pos=posd), recv=g, groups=[("image_pos", "world_pos", None)])
    row(nm + ".minLinearScale", dict(image_pos=posd, world_pos=posd), recv=g, groups=[("image_pos", "world_pos", None)])
    row(nm + ".maxLinearScale", dict(image_pos=posd, world_pos=posd), recv=g, groups=[("image_pos", "world_pos", None)])
    row(nm + ".local", dict(image_pos=posd, world_pos=posd), recv=g, groups=[("image_pos", "world_pos", None)])
    row(nm + ".jacobian", dict(image_pos=posd, world_pos=posd), recv=g, groups=[("image_pos", "world_pos", None)])
    row(nm + ".affine", dict(image_pos=posd, world_pos=posd), recv=g, groups=[("image_pos", "world_pos", None)])
    row(nm + ".withOrigin", dict(origin=posd, world_origin=posd), recv=g, need=["origin"])
    row(nm + ".shiftOrigin", dict(origin=posd, world_origin=posd), recv=g, need=["origin"])
    row(nm + ".profileToWorld", dict(image_profile=gal, image_pos=posd, world_pos=posd, flux_ratio=SZ, offset=posd), recv=g, need=["image_profile"], groups=[("image_pos", "world_pos", None)])
    row(nm + ".profileToImage", dict(world_profile=gal, image_pos=posd, world_pos=posd, flux_ratio=SZ, offset=posd), recv=g, need=["world_profile"], groups=[("image_pos", "world_pos", None)])
    row(nm + ".shearToWorld", dict(image_shear=shr, image_pos=posd), recv=g, need=["image_shear"])
    row(nm + ".shearToImage", dict(world_shear=shr, image_pos=posd), recv=g, need=["world_shear"])
    row(nm + ".isPixelScale", {}, recv=g)
    row(nm + ".xyTouv", dict(x=SZ, y=SZ), recv=g, need=["x", "y"])
    row(nm + ".uvToxy", dict(u=SZ, v=SZ), recv=g, need=["u", "v"])
row("JacobianWCS.inverse", {}, recv=jac)
row("JacobianWCS.getMatrix", {}, recv=jac)
row("JacobianWCS.getDecomposition", {}, recv=jac)
row("TanWCS.local", dict(image_pos=posd, world_pos=crd), recv=tan, need=["image_pos"], tol=1e-5)
ROWS[-1]["label"] = "GSFitsWCS.local"
row("GSFitsWCS.posToWorld", dict(image_pos=posd, project_center=crd, projection=PR), recv=tan, need=["image_pos"], tol=1e-5)
ROWS[-1]["params"].pop("project_center"), ROWS[-1]["params"].pop("projection")
row("GSFitsWCS.pixelArea", dict(image_pos=posd), recv=tan, need=["image_pos"], tol=1e-5)
row("GSFitsWCS.withOrigin", dict(origin=posd), recv=tan, need=["origin"], tol=1e-5)
row("GSFitsWCS.xyToradec", dict(x=SZ, y=SZ, units=one("radians", "degrees")), recv=tan, need=["x", "y", "units"], tol=1e-5)
# random numbers, noise
SEED = num(1, 10**6, 0)
row("GaussianDeviate", dict(seed=SEED, mean=SZ, sigma=SZ))
row("BinomialDeviate", dict(seed=SEED, N=one(3, 9), p=num(0.1, 0.9)))
row("PoissonDeviate", dict(seed=SEED, mean=SZ))
row("WeibullDeviate", dict(seed=SEED, a=SZ, b=SZ))
row("GammaDeviate", dict(seed=SEED, k=SZ, theta=SZ))
row("Chi2Deviate", dict(seed=SEED, n=SZ))
row("GaussianNoise", dict(rng=dev, sigma=SZ))
row("PoissonNoise", dict(rng=dev, sky_level=SZ))
row("CCDNoise", dict(rng=dev, sky_level=SZ, gain=SZ, read_noise=SZ))
row("VariableGaussianNoise", dict(rng=dev, var_image=img), need=["rng", "var_image"])
gn = lambda r: (lambda d, s: lambda m: m.GaussianNoise(d(m), sigma=s))(dev(r), rnd(r, 0.5, 2))  # noqa: E731
row("GaussianNoise.withVariance", dict(variance=SZ), recv=gn, need=["variance"])
row("GaussianNoise.withScaledVariance", dict(variance_ratio=SZ), recv=gn, need=["variance_ratio"])
row("GaussianNoise.copy", dict(rng=dev), recv=gn)
row("GaussianNoise.getVariance", {}, recv=gn)
# photons
row("PhotonArray", dict(N=one(4), x=arrv(4), y=arrv(4), flux=arrv(4, 0.5, 2), dxdz=arrv(4), dydz=arrv(4), wavelength=arrv(4, 300, 900), pupil_u=arrv(4), pupil_v=arrv(4), time=arrv(4)), need=["N", "x"])
row("PhotonArray.scaleFlux", dict(scale=SZ), recv=pha, need=["scale"], rec_after=True)
row("PhotonArray.scaleXY", dict(scale=SZ), recv=pha, need=["scale"], rec_after=True)
row("PhotonArray.assignAt", dict(istart=one(0), rhs=pha), recv=pha, need=["istart", "rhs"], rec_after=True)
row("PhotonArray.copyFrom", dict(rhs=pha, target_indices=one(slice(0, 2), slice(1, 3)), source_indices=one(slice(2, 4), slice(0, 2)), do_xy=one(False), do_flux=one(False), do_other=one(False)), recv=pha, need=["rhs", "target_indices", "source_indices"], rec_after=True)
row("PhotonArray.addTo", dict(image=lambda r: (lambda m: m.ImageD(m.BoundsI(-3, 3, -3, 3)))), recv=pha, need=["image"])
# kernels
X5 = arrv(5)
for k in ("Nearest", "Linear", "Cubic", "Quintic", "SincInterpolant", "Delta"):
    row(k, dict(gsparams=gsp))
row("Lanczos", dict(n=one(2, 3, 5), conserve_dc=one(False), gsparams=gsp), need=["n"])
row("Interpolant.from_name", dict(name=one("linear", "cubic", "lanczos3", "lanczos5F", "quintic"), gsparams=gsp), need=["name"])
row("Cubic.xval", dict(x=X5), recv=itp, need=["x"])
row("Cubic.kval", dict(k=X5), recv=itp, need=["k"])
for k in ("Nearest", "Linear", "Cubic", "Quintic", "SincInterpolant", "Delta"):
    row(k + ".unit_integrals", dict(max_len=one(1, 2, 3, 5)), recv=(lambda k: lambda r: lambda m: getattr(m, k)())(k), need=["max_len"] if k == "SincInterpolant" else [])
row("Lanczos.unit_integrals", dict(max_len=one(1, 2, 3, 5)), recv=lambda r: (lambda n, c: lambda m: m.Lanczos(n, conserve_dc=c))(pick(r, [2, 3, 5]), pick(r, [True, False])))
# helpers
row("utilities.horner", dict(x=X5, coef=arrv(4), dtype=one(np.float32)), need=["x", "coef"], tol=1e-5)
row("utilities.horner2d", dict(x=X5, y=X5, coefs=lambda r: V(np.round(r.uniform(-1, 1, (3, 4)), 3)), dtype=one(np.float32), triangle=one(False)), need=["x", "y", "coefs"], tol=1e-5)
row("utilities.g1g2_to_e1e2", dict(g1=num(-0.3, 0.3), g2=num(-0.3, 0.3)), need=["g1", "g2"])
row("bessel.j0", dict(x=SZ), need=["x"])
row("bessel.kv", dict(nu=SZ, x=SZ), need=["nu", "x"])
row("bessel.si", dict(x=SZ), need=["x"])
row("integ.int1d", dict(func=lambda r: (lambda m: (lambda x: (np if m is gs else jnp).exp(-x))), min=num(0, 1), max=num(2, 3), rel_err=one(1e-8), abs_err=one(1e-10)), need=["func", "min", "max"])


def find(m, label):
    o = m
    parts = label.split(".")
    if parts[0] in ("utilities", "bessel", "integ", "fits"):
        import importlib

        o = importlib.import_module(m.__name__ + "." + parts[0])
        parts = parts[1:]
    for p in parts:
        o = getattr(o, p)
    return o


BY_POSITION = {"Angle.from_dms", "Angle.from_hms"}  # (their parameter is named like a type)


def gs_order(R):
    """GalSim's parameters in GalSim's order, as a user reads them in its signature."""
    f = find(gs, R["label"])
    s = inspect.signature(f.__init__ if inspect.isclass(f) else f)
    ps = list(s.parameters.values())
    if ps and ps[0].name == "self":
        ps = ps[1:]
    return ps


def invoke(m, R, recv, args, kw):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if R["recv"]:
            o = recv(m)
            f = getattr(o, R["label"].split(".")[-1])
        else:
            o, f = None, find(m, R["label"])
        a = [v(m) for v in args]
        k = {n: v(m) for n, v in kw.items()}
        r = f(*a, **k)
        out = (see(m, r),)
        if R["rec_after"]:
            out = (see(m, o),)  # (in-place methods also return the receiver in this library)
        if R["label"].endswith(("drawImage", "drawKImage", "addTo")):  # (these also change the image given)
            image = a[0] if a else k.get("image")
            out += (see(m, image) if image is not None else None,)
        return out


def calls(mon, rng):
    R = ROWS[int(rng.integers(len(ROWS)))]
    try:
        if R["label"] in BY_POSITION:
            raise ValueError
        ps = gs_order(R)
    except ValueError:  # (no signature: by position only)
        ps = [inspect.Parameter(n, inspect.Parameter.POSITIONAL_ONLY) for n in R["params"]]
    positional = all(p.kind == p.POSITIONAL_ONLY for p in ps) and bool(ps)
    if not any(p.kind == p.VAR_POSITIONAL for p in ps):
        unknown = [n for n in R["params"] if n not in [p.name for p in ps] and not any(p.kind == p.VAR_KEYWORD for p in ps)]
        if unknown:
            raise RuntimeError(f"table row {R['label']}: GalSim has no {unknown}")
    chosen = list(R["need"])
    taken = {n for g in R["groups"] for n in g}
    for g in R["groups"]:
        n = g[int(rng.integers(len(g)))]
        if n == "nx":
            chosen += ["nx", "ny"]
        elif n:
            chosen.append(n)
    if R["groups"] and R["label"].endswith(("drawImage", "drawKImage")):
        taken |= {"nx", "ny"}
        if "image" not in chosen:
            taken.add("add_to_image")
        else:
            taken.add("dtype")
            if "add_to_image" in R["params"] and rng.random() < 0.3 and R["label"].endswith("drawImage"):
                chosen.append("add_to_image")
            taken.add("add_to_image")
    if R["label"] == "PhotonArray.copyFrom":
        pass
    rest = [n for n in R["params"] if n not in taken and n not in chosen]
    if R["label"] == "PhotonArray":
        rest = [n for n in rest]
    density = pick(rng, [0.15, 0.5, 1.0])
    chosen += [n for n in rest if rng.random() < density]
    if R["label"] == "PhotonArray":
        for a, b in (("x", "y"), ("dxdz", "dydz"), ("pupil_u", "pupil_v")):
            if a in chosen or b in chosen:
                chosen = [c for c in chosen if c not in (a, b)] + [a, b]
    if R["label"] == "Image.calculateMomentRadius" and "rtype" not in chosen and "rtype" in rest:
        pass
    vals = {n: R["params"][n](rng) for n in chosen}
    recv = R["recv"](rng) if R["recv"] else None
    names = [p.name for p in ps if p.kind in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD)]
    defaults = {p.name: p.default for p in ps if p.default is not p.empty}
    mon.note(label=R["label"], given=sorted(vals), values={n: str(v(gs))[:80] for n, v in vals.items()})
    lab = R["label"]

    def out(m, args, kw):
        return attempt(lambda: invoke(m, R, recv, args, kw))

    ref = out(gs, [vals[n] for n in names], {}) if positional else out(gs, [], vals)
    if isinstance(ref, Raised):
        # GalSim refuses this combination: nothing to compare
        mon.event("refused-by-galsim:" + lab)
        raise Abort("GalSim refuses the call")
    kw = out(jg, [vals[n] for n in names], {}) if positional else out(jg, [], vals)
    if not mon.check("accepts-keywords", not isinstance(kw, Raised), mech=lab, got=str(getattr(kw, "e", ""))[:300]):
        return
    same(mon, "keywords-as-galsim", kw, ref, R["tol"], mech=lab)
    # everything up to the last given parameter, in GalSim's order
    last = max([names.index(n) for n in vals if n in names], default=-1)
    cut = int(rng.integers(0, last + 2)) if rng.random() < 0.4 else last + 1
    if all(n in vals or n in defaults for n in names[:cut]):
        pos = [vals[n] if n in vals else as_default(defaults[n]) for n in names[:cut]]
        kws = {n: v for n, v in vals.items() if n not in names[:cut]}
        if not isinstance(out(gs, pos, kws), Raised):
            r = out(jg, pos, kws)
            if mon.check("accepts-positions", not isinstance(r, Raised), mech=lab, got=str(getattr(r, "e", ""))[:300], order=names[:cut]):
                same(mon, "positions-as-galsim", r, ref, R["tol"], mech=lab, order=names[:cut])
    if positional:
        return
    # one default given explicitly
    free = [n for n in R["params"] if n in defaults and n not in vals]
    if free:
        n = pick(rng, free)
        both = dict(vals, **{n: as_default(defaults[n])})
        if not isinstance(out(gs, [], both), Raised):
            r = out(jg, [], both)
            if mon.check("accepts-default", not isinstance(r, Raised), mech=lab + " " + n, default=str(defaults[n]), got=str(getattr(r, "e", ""))[:300]):
                same(mon, "defaults-as-galsim", r, kw, 1e-9, mech=lab + " " + n, default=str(defaults[n]))


def as_default(d):
    import coord

    def f(m):
        if m is gs:
            return d
        if isinstance(d, coord.AngleUnit):
            return m.AngleUnit(d.value)
        if isinstance(d, coord.Angle):
            return d.rad * m.radians
        if isinstance(d, gs.PositionD):
            return m.PositionD(d.x, d.y)
        if isinstance(d, gs.PositionI):
            return m.PositionI(d.x, d.y)
        return d

    return f


# -- reflection --------------------------------------------------------------------------------------
ADDED = {"tree_flatten", "tree_unflatten", "to_galsim", "from_galsim", "params", "isStatic", "urange"}


def reflect(mon, rng):
    names = [n for n in dir(jg) if not n.startswith("_") and not inspect.ismodule(getattr(jg, n))]
    mon.note(names=len(names))
    for n in names:
        mon.check("name-of-galsim", hasattr(gs, n), mech=n, key=n)
        v, w = getattr(jg, n), getattr(gs, n, None)
        if not (inspect.isclass(v) and inspect.isclass(w)):
            continue
        for a in dir(v):
            if a.startswith("_") or a in ADDED:
                continue
            ok = hasattr(w, a) or (a in ("xmin", "xmax", "ymin", "ymax", "xrange", "ixrange", "krange", "round"))
            mon.check("attribute-of-galsim", ok, mech=n + "." + a, key=n + "." + a)
        if issubclass(v, Exception):
            for p in v.__mro__:
                if p.__name__.startswith("GalSim") and hasattr(gs, p.__name__):
                    mon.check("error-hierarchy", issubclass(w, getattr(gs, p.__name__)), mech=n, key=n)
    for k in ("radians", "degrees", "hours", "arcmin", "arcsec"):
        mon.close("unit-values", A(getattr(jg, k).value), A(getattr(gs, k).value), rtol=1e-15, key=k)
    for R in ROWS:
        f = find(jg, R["label"])
        try:
            s = inspect.signature(f.__init__ if inspect.isclass(f) else f)
            gs_order(R)
        except (ValueError, TypeError):
            continue
        ps = [p for p in s.parameters.values() if p.name != "self"]
        if any(p.kind in (p.VAR_POSITIONAL, p.VAR_KEYWORD) for p in ps):
            continue
        got = [p.name for p in ps]
        want = [p.name for p in gs_order(R) if p.kind in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD) and p.name in got]
        mon.check("order-of-galsim", [n for n in got if n in want] == want, mech=R["label"], got=got, want=want)


# -- conversions -------------------------------------------------------------------------------------
CONV = ["image", "image", "wcs", "wcs", "fitswcs", "position", "bounds", "shear", "angle", "coord", "gsparams"]


def close_probe(mon, monitor, a, b, tol=1e-12, **d):
    mon.check(monitor + ":fields", set(a) == set(b), got=sorted(a), want=sorted(b), **d)
    for k in set(a) & set(b):
        x, y = a[k], b[k]
        if x.dtype.kind in "biu" and y.dtype.kind in "biu":
            mon.check(monitor, np.array_equal(x, y), field=k, got=x, want=y, **d)
        else:
            mon.close(monitor, A0(x), A0(y), rtol=tol, atol=tol * max(1, float(np.max(np.abs(A0(y)), initial=0))), field=k, **d)


def conversions(mon, rng):
    kind = pick(rng, CONV)
    o = any_object(rng, kind)
    mon.note(kind=kind, spec=o.spec)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        j, g = o.make(jg), o.make(gs)
        if isinstance(attempt(lambda: o.probe(gs, g)), Raised):
            raise Abort("GalSim cannot be probed here")
        if kind not in ("gsparams", "position", "bounds") and rng.random() < 0.4:  # values held as arrays convert like plain ones
            j = jax.tree.map(jnp.asarray, j)
            mon.event("array-leaves")
        tol = 1e-9 if kind in ("fitswcs",) else 1e-12
        want = o.probe(gs, g)
        c = j.to_galsim()
        mon.check("converted-type", type(c).__name__ == type(g).__name__ and type(c).__module__.split(".")[0] in ("galsim", "coord"), mech=kind, got=str(type(c)), want=str(type(g)))
        close_probe(mon, "converted-behaves", o.probe(gs, c), want, tol, mech=kind)
        before = o.probe(jg, j)
        b = type(j).from_galsim(c)
        mon.check("back-type", type(b) is type(j), mech=kind, got=str(type(b)), want=str(type(j)))
        if kind not in ("fitswcs", "coord"):  # (rounding in radians)
            mon.check("back-equal", bool(b == j), mech=kind, got=repr(b)[:200], want=repr(j)[:200])
        close_probe(mon, "back-behaves", o.probe(jg, b), before, 1e-12, mech=kind)
        h = type(j).from_galsim(g)
        close_probe(mon, "from-galsim", o.probe(jg, h), o.probe(jg, o.make(jg)), tol, mech=kind)
        if kind not in ("fitswcs", "coord", "wcs", "bounds", "shear", "image"):
            mon.check("there-and-back", bool(h.to_galsim() == g), mech=kind, got=repr(h.to_galsim())[:200], want=repr(g)[:200])
        if kind == "image":
            for x, src, m in ((c, j, gs), (b, j, jg)):
                r = attempt(lambda: x.fill(3))
                mon.check("converted-usable", isinstance(r, Raised) == bool(src.isconst), mech="image", got=err_kind(r) if isinstance(r, Raised) else "ok", const=bool(src.isconst))
            close_probe(mon, "original-untouched", o.probe(jg, j), before, 1e-14, mech=kind)
            q = o.make(jg)
            q.header = gs.FitsHeader({"KEY": 5})
            t = q.to_galsim()
            mon.check("header-kept", getattr(t, "header", {}).get("KEY") == 5, mech="header", got=str(getattr(t, "header", None))[:100])
            q2 = jg.Image.from_galsim(t) if hasattr(t, "header") else None
            mon.check("header-back", q2 is not None and q2.header.get("KEY") == 5, mech="header")
    mon.event("converted:" + kind)


GROUPS = {
    "reflect": dict(fn=reflect, quick=1, thorough=1, cost=0.5, shards=1, must=["name-of-galsim", "attribute-of-galsim", "order-of-galsim", "unit-values"]),
    "calls": dict(fn=calls, quick=400, thorough=6000, cost=0.3, shards=8, must=["accepts-keywords", "keywords-as-galsim", "positions-as-galsim", "defaults-as-galsim"]),
    "conversions": dict(fn=conversions, quick=160, thorough=3000, cost=0.2, shards=8, must=["converted-behaves", "back-behaves", "back-equal", "from-galsim"]),
}
