"""Calls GalSim refuses: label -> f(m, r) for either library m, with r a dict of ordinary values."""

import numpy as np

R = {}


def t(label, f):
    assert label not in R, label
    R[label] = f


# -- profiles: missing, contradictory, unknown parameters ---------------------------------------
NEED = {
    "Gaussian": ["sigma", "fwhm", "half_light_radius"],
    "Exponential": ["scale_radius", "half_light_radius"],
}
for c, ks in NEED.items():
    t(f"{c}()", lambda m, r, c=c: getattr(m, c)())
    t(f"{c}(flux)", lambda m, r, c=c: getattr(m, c)(flux=r["f"]))
    t(f"{c}(two sizes)", lambda m, r, c=c, ks=ks: getattr(m, c)(**{ks[0]: r["s"], ks[-1]: r["s"]}))
    t(f"{c}(unknown)", lambda m, r, c=c, ks=ks: getattr(m, c)(**{ks[0]: r["s"], "radius": r["s"]}))
    t(f"{c}(positional extra)", lambda m, r, c=c: getattr(m, c)(r["s"], None, r["f"], 3, 4, 5))
t("Gaussian(three sizes)", lambda m, r: m.Gaussian(sigma=r["s"], fwhm=r["s"], half_light_radius=r["s"]))
t("Gaussian(sigma, fwhm)", lambda m, r: m.Gaussian(sigma=r["s"], fwhm=r["s"]))
t("Gaussian(fwhm, hlr)", lambda m, r: m.Gaussian(fwhm=r["s"], half_light_radius=r["s"]))
t("Moffat()", lambda m, r: m.Moffat(beta=2.5))
t("Moffat(no beta)", lambda m, r: m.Moffat(scale_radius=r["s"]))
t("Moffat(two)", lambda m, r: m.Moffat(beta=2.5, scale_radius=r["s"], fwhm=r["s"]))
t("Moffat(three)", lambda m, r: m.Moffat(beta=2.5, scale_radius=r["s"], fwhm=r["s"], half_light_radius=r["s"]))
t("Moffat(two b)", lambda m, r: m.Moffat(beta=2.5, half_light_radius=r["s"], fwhm=r["s"]))
t("Moffat(unknown)", lambda m, r: m.Moffat(beta=2.5, fwhm=r["s"], sigma=1))
t("Spergel()", lambda m, r: m.Spergel(nu=0.5))
t("Spergel(no nu)", lambda m, r: m.Spergel(scale_radius=r["s"]))
t("Spergel(two)", lambda m, r: m.Spergel(nu=0.5, scale_radius=r["s"], half_light_radius=r["s"]))
t("Spergel(nu low)", lambda m, r: m.Spergel(nu=-0.9, scale_radius=r["s"]))
t("Spergel(nu high)", lambda m, r: m.Spergel(nu=4.1 + r["s"], scale_radius=r["s"]))
t("Box()", lambda m, r: m.Box())
t("Box(width)", lambda m, r: m.Box(width=r["s"]))
t("Box(unknown)", lambda m, r: m.Box(1, 2, depth=3))
t("Pixel()", lambda m, r: m.Pixel())
t("Pixel(unknown)", lambda m, r: m.Pixel(1, width=3))
t("DeltaFunction(unknown)", lambda m, r: m.DeltaFunction(sigma=1))
for c, kw in [("Gaussian", {"sigma": "x"}), ("Exponential", {"scale_radius": "x"}), ("Moffat", {"beta": 3, "fwhm": "x"}), ("Spergel", {"nu": 0.5, "scale_radius": "x"}), ("Box", {"width": "x", "height": 2}), ("Pixel", {"scale": "x"})]:
    t(f"{c}(str)", lambda m, r, c=c, kw=kw: getattr(m, c)(**kw))
    t(f"{c}(gsparams str)", lambda m, r, c=c, kw=kw: getattr(m, c)(**{k: (v if v != "x" else r["s"]) for k, v in kw.items()}, gsparams="x"))
# -- operations on profiles --------------------------------------------------------------------
G = lambda m, r: m.Gaussian(sigma=r["s"], flux=r["f"])  # noqa: E731
PR = {
    "g": G,
    "sum": lambda m, r: G(m, r) + m.Exponential(scale_radius=r["s"]),
    "conv": lambda m, r: m.Convolve(G(m, r), m.Exponential(scale_radius=r["s"])),
    "trans": lambda m, r: m.Exponential(scale_radius=r["s"]).shear(g1=0.1, g2=0.1),
}
for pn, P in PR.items():
    for lab, f in {
        "+ 1": lambda m, r, p: p + 1,
        "+ str": lambda m, r, p: p + "x",
        "- None": lambda m, r, p: p - None,
        "* obj": lambda m, r, p: p * p,
        "* str": lambda m, r, p: p * "x",
        "/ obj": lambda m, r, p: p / p,
        "1 / obj": lambda m, r, p: 1 / p,
        "shear()": lambda m, r, p: p.shear(),
        "shear(number)": lambda m, r, p: p.shear(0.1),
        "shear(two)": lambda m, r, p: p.shear(m.Shear(g1=0.1), m.Shear(g1=0.2)),
        "shear(pos and kw)": lambda m, r, p: p.shear(m.Shear(g1=0.1), g2=0.2),
        "shear(bad kw)": lambda m, r, p: p.shear(g1=0.1, e2=0.1),
        "shear(unknown kw)": lambda m, r, p: p.shear(gamma=0.1),
        "shear(too big)": lambda m, r, p: p.shear(g1=0.8, g2=0.7 + r["u"]),
        "rotate(number)": lambda m, r, p: p.rotate(0.3),
        "rotate()": lambda m, r, p: p.rotate(),
        "shift()": lambda m, r, p: p.shift(),
        "shift(number)": lambda m, r, p: p.shift(0.3),
        "shift(three)": lambda m, r, p: p.shift(1, 2, 3),
        "shift(kw)": lambda m, r, p: p.shift(dx=1),
        "shift(both)": lambda m, r, p: p.shift(1, 2, dx=1),
        "shift(unknown)": lambda m, r, p: p.shift(dx=1, dy=2, dz=3),
        "expand()": lambda m, r, p: p.expand(),
        "transform(3)": lambda m, r, p: p.transform(1, 0, 0),
        "lens(2)": lambda m, r, p: p.lens(0.1, 0.1),
        "withFlux()": lambda m, r, p: p.withFlux(),
        "xValue()": lambda m, r, p: p.xValue(),
        "xValue(1)": lambda m, r, p: p.xValue(1.0),
        "xValue(3)": lambda m, r, p: p.xValue(1.0, 2.0, 3.0),
        "kValue()": lambda m, r, p: p.kValue(),
        "kValue(1)": lambda m, r, p: p.kValue(1.0),
        "kValue(str)": lambda m, r, p: p.kValue("a"),
        "withGSParams(unknown)": lambda m, r, p: p.withGSParams(nonsense=3),
        "withGSParams(str)": lambda m, r, p: p.withGSParams("x"),
    }.items():
        t(f"{pn}: {lab}", lambda m, r, P=P, f=f: f(m, r, P(m, r)))
t("Add()", lambda m, r: m.Add())
t("Add(1)", lambda m, r: m.Add(1))
t("Add(str list)", lambda m, r: m.Add(["x"]))
t("Add(mixed)", lambda m, r: m.Add(G(m, r), 3))
t("Add([])", lambda m, r: m.Add([]))
t("Add(unknown kw)", lambda m, r: m.Add(G(m, r), G(m, r), flux=3))
t("Sum()", lambda m, r: m.Sum())
t("Sum(1)", lambda m, r: m.Sum(1))
t("Sum(mixed)", lambda m, r: m.Sum([G(m, r), 3]))
t("Sum(unknown kw)", lambda m, r: m.Sum(G(m, r), G(m, r), flux=3))
t("Convolve()", lambda m, r: m.Convolve())
t("Convolve(1)", lambda m, r: m.Convolve(1))
t("Convolve(mixed)", lambda m, r: m.Convolve(G(m, r), 3))
t("Convolve([])", lambda m, r: m.Convolve([]))
t("Convolve(unknown kw)", lambda m, r: m.Convolve(G(m, r), G(m, r), flux=3))
t("Convolution()", lambda m, r: m.Convolution())
t("Convolution(1)", lambda m, r: m.Convolution(1))
t("Convolution(mixed)", lambda m, r: m.Convolution([G(m, r), 3]))
t("Convolution(unknown kw)", lambda m, r: m.Convolution(G(m, r), G(m, r), flux=3))
t("Deconvolve(1)", lambda m, r: m.Deconvolve(1))
t("Deconvolve()", lambda m, r: m.Deconvolve())
t("Deconvolution(1)", lambda m, r: m.Deconvolution(1))
t("Transform(1)", lambda m, r: m.Transform(1))
t("Transformation(1)", lambda m, r: m.Transformation(1))
t("Transform(unknown)", lambda m, r: m.Transform(G(m, r), matrix=3))
t("deconv xValue", lambda m, r: m.Deconvolve(G(m, r)).xValue(0.1, 0.2))
t("deconv shoot", lambda m, r: m.Deconvolve(G(m, r)).shoot(10, m.BaseDeviate(3)))
# -- Shear, Angle, Position, Bounds -------------------------------------------------------------
for lab, f in {
    "two": lambda m, r: m.Shear(0.1, 0.2),
    "number": lambda m, r: m.Shear(0.2),
    "str": lambda m, r: m.Shear("0.2"),
    "g1 e2": lambda m, r: m.Shear(g1=0.1, e2=0.1),
    "g1 eta2": lambda m, r: m.Shear(g1=0.1, eta2=0.1),
    "e1 eta2": lambda m, r: m.Shear(e1=0.1, eta2=0.1),
    "g and e": lambda m, r: m.Shear(g=0.1, e=0.1, beta=0 * m.radians),
    "g no beta": lambda m, r: m.Shear(g=0.1),
    "e no beta": lambda m, r: m.Shear(e=0.1),
    "eta no beta": lambda m, r: m.Shear(eta=0.1),
    "q no beta": lambda m, r: m.Shear(q=0.5),
    "beta alone": lambda m, r: m.Shear(beta=0.1 * m.radians),
    "beta number": lambda m, r: m.Shear(g=0.1, beta=0.1),
    "beta number q": lambda m, r: m.Shear(q=0.1, beta=0.1),
    "beta number e": lambda m, r: m.Shear(e=0.1, beta=0.1),
    "beta number eta": lambda m, r: m.Shear(eta=0.1, beta=0.1),
    "g1 g": lambda m, r: m.Shear(g1=0.1, g=0.1, beta=0.1 * m.radians),
    "unknown": lambda m, r: m.Shear(gamma1=0.1),
    "extra": lambda m, r: m.Shear(g1=0.1, g2=0.1, mu=1),
    "q zero": lambda m, r: m.Shear(q=0.0, beta=0.1 * m.radians),
    "q negative": lambda m, r: m.Shear(q=-r["u"], beta=0.1 * m.radians),
    "q above": lambda m, r: m.Shear(q=1.01 + r["u"], beta=0.1 * m.radians),
    "g above": lambda m, r: m.Shear(g=1.01 + r["u"], beta=0.1 * m.radians),
    "e above": lambda m, r: m.Shear(e=1.01 + r["u"], beta=0.1 * m.radians),
    "e negative": lambda m, r: m.Shear(e=-0.1 - r["u"], beta=0.1 * m.radians),
    "eta negative": lambda m, r: m.Shear(eta=-0.1 - r["u"], beta=0.1 * m.radians),
    "g1g2 above": lambda m, r: m.Shear(g1=0.9, g2=0.5 + r["u"]),
    "e1e2 above": lambda m, r: m.Shear(e1=0.9, e2=0.5 + r["u"]),
    "sum": lambda m, r: m.Shear(g1=0.1) + 0.1,
    "difference": lambda m, r: m.Shear(g1=0.1) - "x",
    "rotationWith": lambda m, r: m.Shear(g1=0.1).rotationWith(3),
    "product": lambda m, r: m.Shear(g1=0.1) * 2,
}.items():
    t("Shear " + lab, f)
for lab, f in {
    "no unit": lambda m, r: m.Angle(0.3),
    "number unit": lambda m, r: m.Angle(0.3, 0.1),
    "angle and unit": lambda m, r: m.Angle(0.3 * m.radians, m.degrees),
    "str unit": lambda m, r: m.Angle(0.3, "degrees"),
    "+ 1": lambda m, r: 0.3 * m.radians + 1,
    "- str": lambda m, r: 0.3 * m.radians - "x",
    "* angle": lambda m, r: (0.3 * m.radians) * (0.3 * m.radians),
    "* str": lambda m, r: (0.3 * m.radians) * "x",
    "/ str": lambda m, r: (0.3 * m.radians) / "x",
    "wrap number": lambda m, r: (0.3 * m.radians).wrap(1.0),
    "unit two": lambda m, r: m.AngleUnit(1, 2),
    "unit name": lambda m, r: m.AngleUnit.from_name("furlong"),
    "unit / str": lambda m, r: m.degrees / "x",
    "unit * angle": lambda m, r: m.degrees * (1 * m.degrees),
    "from_hms": lambda m, r: m.Angle.from_hms("1:2:3:4:5"),
    "from_dms": lambda m, r: m.Angle.from_dms("a:b"),
    "<": lambda m, r: (0.3 * m.radians) < 1,
}.items():
    t("Angle " + lab, f)
for c in ("PositionD", "PositionI"):
    for lab, f in {
        "one": lambda m, r, c: getattr(m, c)(1),
        "three": lambda m, r, c: getattr(m, c)(1, 2, 3),
        "x only": lambda m, r, c: getattr(m, c)(x=1),
        "unknown": lambda m, r, c: getattr(m, c)(x=1, y=2, z=3),
        "both": lambda m, r, c: getattr(m, c)(1, 2, x=3),
        "str": lambda m, r, c: getattr(m, c)("x", "y"),
        "list of 3": lambda m, r, c: getattr(m, c)([1, 2, 3]),
        "+ 1": lambda m, r, c: getattr(m, c)(1, 2) + 1,
        "- str": lambda m, r, c: getattr(m, c)(1, 2) - "x",
        "* pos": lambda m, r, c: getattr(m, c)(1, 2) * getattr(m, c)(1, 2),
        "* str": lambda m, r, c: getattr(m, c)(1, 2) * "x",
        "/ str": lambda m, r, c: getattr(m, c)(1, 2) / "x",
        "shear": lambda m, r, c: getattr(m, c)(1, 2).shear(0.1),
    }.items():
        t(f"{c} {lab}", lambda m, r, c=c, f=f: f(m, r, c))
t("PositionI fraction", lambda m, r: m.PositionI(1.5, 2))
t("PositionI fraction y", lambda m, r: m.PositionI(1, 2.25))
t("PositionI * fraction", lambda m, r: m.PositionI(1, 2) * 1.5)
t("PositionI / 3", lambda m, r: m.PositionI(1, 2) / 0.7)
t("PositionI + PositionD", lambda m, r: m.PositionI(1, 2) + 0.5)
t("Position base", lambda m, r: m.Position(1, 2))
for c in ("BoundsI", "BoundsD"):
    for lab, f in {
        "one": lambda m, r, B: B(1),
        "two": lambda m, r, B: B(1, 2),
        "three": lambda m, r, B: B(1, 2, 3),
        "five": lambda m, r, B: B(1, 2, 3, 4, 5),
        "kw partial": lambda m, r, B: B(xmin=1, xmax=2, ymin=3),
        "kw unknown": lambda m, r, B: B(xmin=1, xmax=2, ymin=3, ymax=4, zmin=3),
        "both": lambda m, r, B: B(1, 2, 3, 4, xmin=3),
        "str": lambda m, r, B: B("a", "b", "c", "d"),
        "+ 1": lambda m, r, B: B(1, 4, 1, 4) + 1,
        "+ str": lambda m, r, B: B(1, 4, 1, 4) + "x",
        "& 1": lambda m, r, B: B(1, 4, 1, 4) & 1,
        "& str": lambda m, r, B: B(1, 4, 1, 4) & "x",
        "expand str": lambda m, r, B: B(1, 4, 1, 4).expand("x"),
        "withBorder str": lambda m, r, B: B(1, 4, 1, 4).withBorder("x"),
        "shift number": lambda m, r, B: B(1, 4, 1, 4).shift(1),
        "includes()": lambda m, r, B: B(1, 4, 1, 4).includes(),
        "includes 1": lambda m, r, B: B(1, 4, 1, 4).includes(1),
        "includes 3": lambda m, r, B: B(1, 4, 1, 4).includes(1, 2, 3),
        "includes str": lambda m, r, B: B(1, 4, 1, 4).includes("x"),
        "center undefined": lambda m, r, B: B().center,
        "true_center undefined": lambda m, r, B: B().true_center,
        "two str": lambda m, r, B: B("a", "b"),
        "3 pos": lambda m, r, B: B(m.PositionD(1, 2), m.PositionD(2, 3), m.PositionD(4, 4)),
    }.items():
        t(f"{c} {lab}", lambda m, r, c=c, f=f: f(m, r, getattr(m, c)))
t("BoundsI fraction", lambda m, r: m.BoundsI(1.5, 2, 3, 4))
t("BoundsI fraction kw", lambda m, r: m.BoundsI(xmin=1, xmax=2.5, ymin=1, ymax=3))
t("BoundsI withBorder fraction", lambda m, r: m.BoundsI(1, 2, 3, 4).withBorder(1.5))
t("BoundsI shift PositionD", lambda m, r: m.BoundsI(1, 2, 3, 4).shift(m.PositionD(1.5, 2)))
t("BoundsI & BoundsD", lambda m, r: m.BoundsI(1, 2, 3, 4) & m.BoundsD(1, 2, 3, 4))
t("BoundsI + BoundsD", lambda m, r: m.BoundsI(1, 2, 3, 4) + m.BoundsD(1, 2, 3, 4))
t("BoundsI from PositionD", lambda m, r: m.BoundsI(m.PositionD(0.5, 1.5)))
t("Bounds base", lambda m, r: m.Bounds(1, 2, 3, 4))
# -- celestial ----------------------------------------------------------------------------------
for lab, f in {
    "no dec": lambda m, r: m.CelestialCoord(1 * m.radians),
    "number": lambda m, r: m.CelestialCoord(1.0, 2.0),
    "dec number": lambda m, r: m.CelestialCoord(1.0 * m.radians, 2.0),
    "ra number": lambda m, r: m.CelestialCoord(1.0, 2.0 * m.radians),
    "project name": lambda m, r: m.CelestialCoord(1 * m.radians, 0.2 * m.radians).project(m.CelestialCoord(1 * m.radians, 0.2 * m.radians), projection="mercator"),
    "deproject name": lambda m, r: m.CelestialCoord(1 * m.radians, 0.2 * m.radians).deproject(0.1 * m.degrees, 0.1 * m.degrees, projection="mercator"),
    "jac name": lambda m, r: m.CelestialCoord(1 * m.radians, 0.2 * m.radians).jac_deproject(0.1 * m.degrees, 0.1 * m.degrees, projection="mercator"),
    "project_rad name": lambda m, r: m.CelestialCoord(1 * m.radians, 0.2 * m.radians).project_rad(0.1, 0.2, "mercator"),
    "deproject_rad name": lambda m, r: m.CelestialCoord(1 * m.radians, 0.2 * m.radians).deproject_rad(0.1, 0.2, "mercator"),
}.items():
    t("CelestialCoord " + lab, f)
# -- WCS ----------------------------------------------------------------------------------------
J = lambda m: m.JacobianWCS(0.3, 0.02, -0.01, 0.31)  # noqa: E731
TAN = lambda m: m.TanWCS(m.AffineTransform(0.3, 0.02, -0.01, 0.31), m.CelestialCoord(1 * m.radians, 0.3 * m.radians))  # noqa: E731
for lab, f in {
    "PixelScale()": lambda m, r: m.PixelScale(),
    "PixelScale kw": lambda m, r: m.PixelScale(scale=0.3, origin=m.PositionD(1, 2)),
    "PixelScale str": lambda m, r: m.PixelScale("x"),
    "ShearWCS()": lambda m, r: m.ShearWCS(),
    "ShearWCS shear": lambda m, r: m.ShearWCS(0.3, 0.1),
    "ShearWCS scale": lambda m, r: m.ShearWCS(m.Shear(g1=0.1)),
    "JacobianWCS 3": lambda m, r: m.JacobianWCS(1, 2, 3),
    "JacobianWCS 5": lambda m, r: m.JacobianWCS(1, 2, 3, 4, 5),
    "OffsetWCS origin": lambda m, r: m.OffsetWCS(0.3, 3),
    "OffsetWCS world_origin": lambda m, r: m.OffsetWCS(0.3, m.PositionD(1, 2), "x"),
    "OffsetShearWCS": lambda m, r: m.OffsetShearWCS(0.3),
    "AffineTransform origin": lambda m, r: m.AffineTransform(1, 0, 0, 1, 5),
    "AffineTransform 3": lambda m, r: m.AffineTransform(1, 0, 0),
    "toWorld()": lambda m, r: J(m).toWorld(),
    "toWorld str": lambda m, r: J(m).toWorld("x"),
    "toWorld 3": lambda m, r: J(m).toWorld(1, 2, 3),
    "toImage()": lambda m, r: J(m).toImage(),
    "toImage celestial": lambda m, r: J(m).toImage(m.CelestialCoord(1 * m.radians, 0.3 * m.radians)),
    "tan toImage position": lambda m, r: TAN(m).toImage(m.PositionD(1, 2)),
    "tan toWorld profile without position": lambda m, r: TAN(m).toWorld(m.Gaussian(sigma=1)),
    "tan local without position": lambda m, r: TAN(m).local(),
    "tan local both": lambda m, r: TAN(m).local(image_pos=m.PositionD(1, 2), world_pos=m.CelestialCoord(1 * m.radians, 0.3 * m.radians)),
    "tan jacobian without position": lambda m, r: TAN(m).jacobian(),
    "tan affine without position": lambda m, r: TAN(m).affine(),
    "tan pixelArea without position": lambda m, r: TAN(m).pixelArea(),
    "tan minLinearScale without position": lambda m, r: TAN(m).minLinearScale(),
    "tan maxLinearScale without position": lambda m, r: TAN(m).maxLinearScale(),
    "tan withOrigin bad": lambda m, r: TAN(m).withOrigin(3),
    "tan withOrigin world": lambda m, r: TAN(m).withOrigin(m.PositionD(1, 2), m.PositionD(1, 2)),
    "local both": lambda m, r: J(m).local(image_pos=m.PositionD(1, 2), world_pos=m.PositionD(1, 2)),
    "aff local both": lambda m, r: m.AffineTransform(1, 0, 0, 1).local(image_pos=m.PositionD(1, 2), world_pos=m.PositionD(1, 2)),
    "local str": lambda m, r: m.AffineTransform(1, 0, 0, 1).local("x"),
    "withOrigin 3": lambda m, r: J(m).withOrigin(3),
    "withOrigin str": lambda m, r: J(m).withOrigin("x"),
    "withOrigin world 3": lambda m, r: J(m).withOrigin(m.PositionD(1, 2), 3),
    "shiftOrigin 3": lambda m, r: m.AffineTransform(1, 0, 0, 1).shiftOrigin(3),
    "shiftOrigin color": lambda m, r: J(m).shiftOrigin("x"),
    "TanWCS affine": lambda m, r: m.TanWCS(3, m.CelestialCoord(1 * m.radians, 0.3 * m.radians)),
    "FitsWCS()": lambda m, r: m.FitsWCS(),
    "FitsWCS both": lambda m, r: m.FitsWCS("x.fits", header={"A": 1}),
    "FitsWCS missing": lambda m, r: m.FitsWCS("/nonexistent/x.fits"),
    "GSFitsWCS()": lambda m, r: m.GSFitsWCS(),
    "GSFitsWCS both": lambda m, r: m.GSFitsWCS("x.fits", header={"A": 1}),
    "GSFitsWCS no ctype": lambda m, r: m.GSFitsWCS(header=m.FitsHeader({"A": 1})),
    "GSFitsWCS ctype": lambda m, r: m.GSFitsWCS(header={"CTYPE1": "RA---XYZ", "CTYPE2": "DEC--XYZ", "CRVAL1": 1.0, "CRVAL2": 2.0, "CRPIX1": 1.0, "CRPIX2": 2.0}),
    "profile to world str": lambda m, r: J(m).profileToWorld("x"),
    "readFromFitsHeader": lambda m, r: m.wcs.readFromFitsHeader(3),
}.items():
    t("WCS " + lab, f)
# -- images -------------------------------------------------------------------------------------
IM = lambda m: m.Image(np.arange(20.0).reshape(4, 5) + 1, xmin=2, ymin=3, scale=0.4)  # noqa: E731
CI = lambda m: m.Image(np.arange(20.0).reshape(4, 5) + 1, scale=0.4, make_const=True)  # noqa: E731
II = lambda m: m.Image(np.arange(20).reshape(4, 5).astype(np.int32), xmin=2, ymin=3, scale=0.4)  # noqa: E731
for lab, f in {
    "one number": lambda m, r: m.Image(3),
    "three numbers": lambda m, r: m.Image(3, 4, 5),
    "str": lambda m, r: m.Image("x"),
    "ncol only": lambda m, r: m.Image(ncol=3),
    "nrow only": lambda m, r: m.Image(nrow=3),
    "ncol and bounds": lambda m, r: m.Image(3, 4, bounds=m.BoundsI(1, 3, 1, 4)),
    "array and bounds": lambda m, r: m.Image(np.zeros((3, 4)), bounds=m.BoundsI(1, 3, 1, 3)),
    "array and ncol": lambda m, r: m.Image(array=np.zeros((3, 4)), ncol=4, nrow=3),
    "image and array": lambda m, r: m.Image(image=IM(m), array=np.zeros((3, 4))),
    "image and bounds": lambda m, r: m.Image(image=IM(m), bounds=m.BoundsI(1, 3, 1, 3)),
    "bounds type": lambda m, r: m.Image(bounds=3),
    "bounds BoundsD": lambda m, r: m.Image(bounds=m.BoundsD(1, 2, 3, 4)),
    "array 1d": lambda m, r: m.Image(np.zeros(4)),
    "array 3d": lambda m, r: m.Image(np.zeros((4, 3, 2))),
    "array str": lambda m, r: m.Image(array="x"),
    "image type": lambda m, r: m.Image(image=3),
    "scale and wcs": lambda m, r: m.Image(3, 4, scale=0.3, wcs=m.PixelScale(0.3)),
    "wcs type": lambda m, r: m.Image(3, 4, wcs=0.3),
    "dtype": lambda m, r: m.Image(3, 4, dtype=np.bool_),
    "dtype str": lambda m, r: m.Image(3, 4, dtype="nonsense"),
    "dtype uint8": lambda m, r: m.Image(3, 4, dtype=np.uint8),
    "init_value with array": lambda m, r: m.Image(np.zeros((3, 4)), init_value=3),
    "xmin with bounds": lambda m, r: m.Image(m.BoundsI(1, 3, 1, 3), nonsense=3),
    "fraction ncol": lambda m, r: m.Image(3.5, 4),
    "make_const without array": lambda m, r: m.Image(bounds=m.BoundsI(1, 2, 1, 2), image=IM(m)),
    "value outside": lambda m, r: IM(m)(100, 3),
    "value outside y": lambda m, r: IM(m)(3, 7),
    "value one arg": lambda m, r: IM(m)(3),
    "getitem number": lambda m, r: IM(m)[3],
    "getitem str": lambda m, r: IM(m)["x"],
    "getitem outside": lambda m, r: IM(m)[100, 3],
    "getitem three": lambda m, r: IM(m)[1, 2, 3],
    "sub type": lambda m, r: IM(m).subImage(3),
    "sub outside": lambda m, r: IM(m).subImage(m.BoundsI(0, 4, 3, 4)),
    "sub outside []": lambda m, r: IM(m)[m.BoundsI(2, 4, 3, 40)],
    "sub undefined": lambda m, r: IM(m)[m.BoundsI()],
    "setitem outside": lambda m, r: IM(m).__setitem__((100, 2), 3.0),
    "setitem shape": lambda m, r: IM(m).__setitem__(m.BoundsI(2, 3, 3, 4), m.Image(np.zeros((3, 3)))),
    "setitem str": lambda m, r: IM(m).__setitem__("x", 3.0),
    "setSub outside": lambda m, r: IM(m).setSubImage(m.BoundsI(0, 3, 3, 4), 3.0),
    "setSub const": lambda m, r: CI(m).setSubImage(m.BoundsI(1, 2, 1, 2), 3.0),
    "setValue outside": lambda m, r: IM(m).setValue(100, 3, 4.0),
    "setValue args": lambda m, r: IM(m).setValue(3),
    "addValue outside": lambda m, r: IM(m).addValue(100, 3, 4.0),
    "setValue const": lambda m, r: CI(m).setValue(1, 1, 4.0),
    "addValue const": lambda m, r: CI(m).addValue(1, 1, 4.0),
    "fill const": lambda m, r: CI(m).fill(3.0),
    "setZero const": lambda m, r: CI(m).setZero(),
    "invertSelf const": lambda m, r: CI(m).invertSelf(),
    "replaceNegative const": lambda m, r: CI(m).replaceNegative(0.0),
    "resize const": lambda m, r: CI(m).resize(m.BoundsI(1, 3, 1, 3)),
    "copyFrom const": lambda m, r: CI(m).copyFrom(CI(m)),
    "copyFrom type": lambda m, r: IM(m).copyFrom(3),
    "copyFrom shape": lambda m, r: IM(m).copyFrom(m.Image(3, 3)),
    "array set const": lambda m, r: setattr(CI(m), "array", np.zeros((4, 5))),
    "iadd const": lambda m, r: CI(m).__iadd__(3.0),
    "imul const": lambda m, r: CI(m).__imul__(CI(m)),
    "add shape": lambda m, r: IM(m) + m.Image(3, 3),
    "sub shape": lambda m, r: IM(m) - m.Image(4, 4),
    "mul shape": lambda m, r: IM(m) * m.Image(4, 4),
    "div shape": lambda m, r: IM(m) / m.Image(4, 4),
    "iadd shape": lambda m, r: IM(m).__iadd__(m.Image(3, 3)),
    "and float": lambda m, r: IM(m) & 3,
    "or float": lambda m, r: IM(m) | 3,
    "xor float": lambda m, r: IM(m) ^ 3,
    "mod float": lambda m, r: IM(m) % 3,
    "floordiv float": lambda m, r: IM(m) // 3,
    "rmod float": lambda m, r: 3 % IM(m),
    "rfloordiv float": lambda m, r: 3 // IM(m),
    "pow image": lambda m, r: IM(m) ** IM(m),
    "pow str": lambda m, r: IM(m) ** "x",
    "ipow image": lambda m, r: IM(m).__ipow__(IM(m)),
    "add str": lambda m, r: IM(m) + "x",
    "add undefined": lambda m, r: m.Image() + IM(m),
    "shift()": lambda m, r: IM(m).shift(),
    "shift 3": lambda m, r: IM(m).shift(1, 2, 3),
    "shift one": lambda m, r: IM(m).shift(1),
    "shift str": lambda m, r: IM(m).shift("x"),
    "setCenter()": lambda m, r: IM(m).setCenter(),
    "setCenter one": lambda m, r: IM(m).setCenter(1),
    "setOrigin unknown": lambda m, r: IM(m).setOrigin(x=1, y=2, z=3),
    "setOrigin half": lambda m, r: IM(m).setOrigin(x=1),
    "undefined center": lambda m, r: m.Image().center,
    "undefined true_center": lambda m, r: m.Image().true_center,
    "undefined fill": lambda m, r: m.Image().fill(3),
    "undefined invert": lambda m, r: m.Image().invertSelf(),
    "undefined setCenter": lambda m, r: m.Image().setCenter(1, 2),
    "undefined setSub": lambda m, r: m.Image().setSubImage(m.BoundsI(1, 2, 1, 2), 3),
    "undefined shift": lambda m, r: m.Image().shift(1, 2) or m.Image()(1, 1),
    "undefined get": lambda m, r: m.Image()(1, 1),
    "undefined set": lambda m, r: m.Image().setValue(1, 1, 3),
    "undefined addValue": lambda m, r: m.Image().addValue(1, 1, 3),
    "undefined fft": lambda m, r: m.Image(dtype=float, scale=1).calculate_fft(),
    "undefined ifft": lambda m, r: m.Image(dtype=complex, scale=1).calculate_inverse_fft(),
    "undefined wrap": lambda m, r: m.Image().wrap(m.BoundsI(1, 2, 1, 2)),
    "resize type": lambda m, r: IM(m).resize(3),
    "resize BoundsD": lambda m, r: IM(m).resize(m.BoundsD(1, 2, 3, 4)),
    "scale of jacobian": lambda m, r: m.Image(3, 3, wcs=J(m)).scale,
    "set scale of jacobian": lambda m, r: setattr(m.Image(3, 3, wcs=J(m)), "scale", 0.3),
    "fft no wcs": lambda m, r: m.Image(4, 4).calculate_fft(),
    "fft jacobian": lambda m, r: m.Image(4, 4, wcs=J(m)).calculate_fft(),
    "ifft no wcs": lambda m, r: m.Image(4, 4, dtype=complex).calculate_inverse_fft(),
    "ifft jacobian": lambda m, r: m.Image(m.BoundsI(0, 2, -2, 2), dtype=complex, wcs=J(m)).calculate_inverse_fft(),
    "ifft origin": lambda m, r: m.Image(m.BoundsI(3, 5, 3, 6), dtype=complex, scale=1).calculate_inverse_fft(),
    "wrap outside": lambda m, r: IM(m).wrap(m.BoundsI(10, 12, 3, 4)),
    "wrap partly": lambda m, r: IM(m).wrap(m.BoundsI(0, 3, 3, 4)),
    "wrap type": lambda m, r: IM(m).wrap(3),
    "wrap hermitian name": lambda m, r: IM(m).wrap(m.BoundsI(2, 3, 3, 4), hermitian="z"),
    "wrap hermitian x": lambda m, r: m.Image(m.BoundsI(1, 4, -4, 4), dtype=complex).wrap(m.BoundsI(1, 2, -2, 2), hermitian="x"),
    "wrap hermitian y": lambda m, r: m.Image(m.BoundsI(-4, 4, 1, 4), dtype=complex).wrap(m.BoundsI(-2, 2, 1, 2), hermitian="y"),
    "addNoise type": lambda m, r: IM(m).addNoise(3),
    "copy dtype": lambda m, r: m.Image(IM(m), dtype="nonsense"),
    "good_fft_size str": lambda m, r: m.Image.good_fft_size("x"),
}.items():
    t("Image " + lab, f)
# -- drawing ------------------------------------------------------------------------------------
for lab, f in {
    "image type": lambda m, r, p: p.drawImage(image=3),
    "image array": lambda m, r, p: p.drawImage(image=np.zeros((4, 4))),
    "method": lambda m, r, p: p.drawImage(nx=4, ny=4, scale=0.4, method="nonsense"),
    "nx only": lambda m, r, p: p.drawImage(nx=4, scale=0.4),
    "ny only": lambda m, r, p: p.drawImage(ny=4, scale=0.4),
    "nx and image": lambda m, r, p: p.drawImage(image=IM(m), nx=4, ny=4),
    "nx and bounds": lambda m, r, p: p.drawImage(nx=4, ny=4, bounds=m.BoundsI(1, 4, 1, 4), scale=0.4),
    "bounds and image": lambda m, r, p: p.drawImage(image=IM(m), bounds=m.BoundsI(1, 4, 1, 4)),
    "bounds type": lambda m, r, p: p.drawImage(bounds=3, scale=0.4),
    "bounds undefined": lambda m, r, p: p.drawImage(bounds=m.BoundsI(), scale=0.4),
    "dtype and image": lambda m, r, p: p.drawImage(image=IM(m), dtype=np.int32),
    "scale and wcs": lambda m, r, p: p.drawImage(nx=4, ny=4, scale=0.4, wcs=m.PixelScale(0.4)),
    "wcs type": lambda m, r, p: p.drawImage(nx=4, ny=4, wcs=0.4),
    "gain 0": lambda m, r, p: p.drawImage(nx=4, ny=4, scale=0.4, gain=0.0, method="no_pixel"),
    "gain negative": lambda m, r, p: p.drawImage(nx=4, ny=4, scale=0.4, gain=-1.0, method="no_pixel"),
    "area negative": lambda m, r, p: p.drawImage(nx=4, ny=4, scale=0.4, area=-1.0, method="no_pixel"),
    "area 0": lambda m, r, p: p.drawImage(nx=4, ny=4, scale=0.4, area=0.0, method="no_pixel"),
    "exptime 0": lambda m, r, p: p.drawImage(nx=4, ny=4, scale=0.4, exptime=0.0, method="no_pixel"),
    "exptime negative": lambda m, r, p: p.drawImage(nx=4, ny=4, scale=0.4, exptime=-0.1, method="no_pixel"),
    "offset type": lambda m, r, p: p.drawImage(nx=4, ny=4, scale=0.4, offset="x", method="no_pixel"),
    "offset number": lambda m, r, p: p.drawImage(nx=4, ny=4, scale=0.4, offset=0.3, method="no_pixel"),
    "center type": lambda m, r, p: p.drawImage(nx=4, ny=4, scale=0.4, center=0.3, method="no_pixel"),
    "add without image": lambda m, r, p: p.drawImage(scale=0.4, add_to_image=True, method="no_pixel"),
    "add without image nx": lambda m, r, p: p.drawImage(nx=4, ny=4, scale=0.4, add_to_image=True, method="no_pixel"),
    "add undefined": lambda m, r, p: p.drawImage(m.Image(), scale=0.4, add_to_image=True, method="no_pixel"),
    "n_photons fft": lambda m, r, p: p.drawImage(nx=4, ny=4, scale=0.4, n_photons=3),
    "rng fft": lambda m, r, p: p.drawImage(nx=4, ny=4, scale=0.4, rng=m.BaseDeviate(3)),
    "max_extra_noise fft": lambda m, r, p: p.drawImage(nx=4, ny=4, scale=0.4, max_extra_noise=0.3),
    "poisson_flux fft": lambda m, r, p: p.drawImage(nx=4, ny=4, scale=0.4, poisson_flux=True),
    "save_photons fft": lambda m, r, p: p.drawImage(nx=4, ny=4, scale=0.4, save_photons=True),
    "maxN fft": lambda m, r, p: p.drawImage(nx=4, ny=4, scale=0.4, maxN=10),
    "maxN save_photons": lambda m, r, p: p.drawImage(nx=4, ny=4, scale=0.4, method="phot", rng=m.BaseDeviate(3), n_photons=3, maxN=10, save_photons=True),
    "n_photons negative": lambda m, r, p: p.drawImage(nx=4, ny=4, scale=0.4, method="phot", n_photons=-3, rng=m.BaseDeviate(3)),
    "rng type": lambda m, r, p: p.drawImage(nx=4, ny=4, scale=0.4, method="phot", n_photons=3, rng="x"),
    "rng number": lambda m, r, p: p.drawImage(nx=4, ny=4, scale=0.4, method="phot", n_photons=3, rng=3),
    "sensor type": lambda m, r, p: p.drawImage(nx=4, ny=4, scale=0.4, method="phot", n_photons=3, rng=m.BaseDeviate(3), sensor="x"),
    "unknown": lambda m, r, p: p.drawImage(nx=4, ny=4, scale=0.4, pixel_scale=3),
    "K real": lambda m, r, p: p.drawKImage(image=IM(m)),
    "K type": lambda m, r, p: p.drawKImage(image=3),
    "K nx only": lambda m, r, p: p.drawKImage(nx=4, scale=0.4),
    "K nx image": lambda m, r, p: p.drawKImage(image=m.ImageCD(4, 4, scale=0.4), nx=4, ny=4),
    "K bounds image": lambda m, r, p: p.drawKImage(image=m.ImageCD(4, 4, scale=0.4), bounds=m.BoundsI(1, 4, 1, 4)),
    "K bounds type": lambda m, r, p: p.drawKImage(bounds=3, scale=0.4),
    "K wcs": lambda m, r, p: p.drawKImage(image=m.ImageCD(4, 4, wcs=J(m))),
    "K add": lambda m, r, p: p.drawKImage(scale=0.4, add_to_image=True),
    "K dtype": lambda m, r, p: p.drawKImage(nx=4, ny=4, scale=0.4, dtype=np.float64),
    "K dtype image": lambda m, r, p: p.drawKImage(image=m.ImageCD(4, 4, scale=0.4), dtype=np.complex64),
    "K bounds undefined": lambda m, r, p: p.drawKImage(bounds=m.BoundsI(), scale=0.4),
    "Real wcs": lambda m, r, p: p.drawReal(m.Image(4, 4)),
    "Real jac": lambda m, r, p: p.drawReal(m.Image(4, 4, wcs=J(m))),
    "FFT wcs": lambda m, r, p: p.drawFFT(m.Image(4, 4)),
    "FFT jac": lambda m, r, p: p.drawFFT(m.Image(4, 4, wcs=J(m))),
    "Phot jac": lambda m, r, p: p.drawPhot(m.Image(4, 4, wcs=J(m)), n_photons=4, rng=m.BaseDeviate(3)),
    "Phot rng": lambda m, r, p: p.drawPhot(m.Image(4, 4, scale=1.0), n_photons=4, rng="x"),
    "makePhot rng": lambda m, r, p: p.makePhot(n_photons=4, rng="x"),
    "makePhot negative": lambda m, r, p: p.makePhot(n_photons=-4, rng=m.BaseDeviate(3)),
    "shoot rng": lambda m, r, p: p.shoot(4, rng="x"),
    "shoot negative": lambda m, r, p: p.shoot(-4, rng=m.BaseDeviate(3)),
}.items():
    t("draw " + lab, lambda m, r, f=f: f(m, r, m.Gaussian(sigma=r["s"], flux=r["f"])))
# -- interpolation ------------------------------------------------------------------------------
IF = lambda m: m.Image(np.arange(20.0).reshape(4, 5) + 1, scale=0.4)  # noqa: E731
for lab, f in {
    "no image": lambda m, r: m.InterpolatedImage(),
    "image type": lambda m, r: m.InterpolatedImage(3),
    "array": lambda m, r: m.InterpolatedImage(np.zeros((4, 4))),
    "undefined image": lambda m, r: m.InterpolatedImage(m.ImageF(scale=1.0)),
    "no scale": lambda m, r: m.InterpolatedImage(m.Image(np.ones((4, 4)))),
    "scale and wcs": lambda m, r: m.InterpolatedImage(IF(m), scale=0.3, wcs=m.PixelScale(0.3)),
    "wcs type": lambda m, r: m.InterpolatedImage(IF(m), wcs=0.3),
    "x_interpolant": lambda m, r: m.InterpolatedImage(IF(m), x_interpolant="nonsense"),
    "x_interpolant type": lambda m, r: m.InterpolatedImage(IF(m), x_interpolant=3),
    "k_interpolant": lambda m, r: m.InterpolatedImage(IF(m), k_interpolant="nonsense"),
    "normalization": lambda m, r: m.InterpolatedImage(IF(m), normalization="nonsense"),
    "pad_factor": lambda m, r: m.InterpolatedImage(IF(m), pad_factor=-1.0),
    "pad_factor 0": lambda m, r: m.InterpolatedImage(IF(m), pad_factor=0.0),
    "noise_pad_size": lambda m, r: m.InterpolatedImage(IF(m), noise_pad_size=-3, noise_pad=0.1),
    "offset type": lambda m, r: m.InterpolatedImage(IF(m), offset="x"),
    "unknown": lambda m, r: m.InterpolatedImage(IF(m), nonsense=3),
    "zero image": lambda m, r: m.InterpolatedImage(m.Image(np.zeros((4, 4)), scale=1.0)),
    "kernel name": lambda m, r: m.Interpolant.from_name("nonsense"),
    "kernel lanczos": lambda m, r: m.Interpolant.from_name("lanczosA"),
    "kernel lanczos 3F": lambda m, r: m.Interpolant.from_name("lanczos3FF"),
    "Lanczos()": lambda m, r: m.Lanczos(),
    "Lanczos str": lambda m, r: m.Lanczos("x"),
    "kernel from type": lambda m, r: m.Interpolant.from_name(3),
    "kernel gsparams": lambda m, r: m.Linear(gsparams=3),
    "kernel withGSParams": lambda m, r: m.Linear().withGSParams(nonsense=3),
    "xval shape": lambda m, r: m.Linear().xval(np.zeros((2, 2))),
    "kval shape": lambda m, r: m.Linear().kval(np.zeros((2, 2))),
    "Interpolant()": lambda m, r: m.Interpolant().xval(0.3),
}.items():
    t("interp " + lab, f)
# -- parameters ---------------------------------------------------------------------------------
t("GSParams unknown", lambda m, r: m.GSParams(nonsense=3))
t("GSParams check", lambda m, r: m.GSParams.check("x"))
t("GSParams check kw", lambda m, r: m.GSParams.check(None, nonsense=3))
t("GSParams withParams", lambda m, r: m.GSParams().withParams(nonsense=3))
t("GSParams combine type", lambda m, r: m.GSParams.combine([3, 4]))
t("GSParams positional", lambda m, r: m.GSParams(*range(1, 20)))
# -- random numbers and noise ---------------------------------------------------------------------
for lab, f in {
    "seed list": lambda m, r: m.BaseDeviate([1, 2]),
    "seed fraction": lambda m, r: m.BaseDeviate(3.5),
    "two seeds": lambda m, r: m.BaseDeviate(3, 4),
    "reset list": lambda m, r: m.BaseDeviate(3).reset([3]),
    "Gaussian sigma": lambda m, r: m.GaussianDeviate(3, sigma=-r["s"]),
    "Gaussian unknown": lambda m, r: m.GaussianDeviate(3, scale=2),
    "Poisson mean": lambda m, r: m.PoissonDeviate(3, mean=-1 - r["u"]),
    "call base": lambda m, r: m.BaseDeviate(3)(),
    "GaussianNoise rng": lambda m, r: m.GaussianNoise(3),
    "GaussianNoise rng str": lambda m, r: m.GaussianNoise("x"),
    "GaussianNoise unknown": lambda m, r: m.GaussianNoise(m.BaseDeviate(3), variance=3),
    "PoissonNoise rng": lambda m, r: m.PoissonNoise(3),
    "CCDNoise rng": lambda m, r: m.CCDNoise(3),
    "DeviateNoise()": lambda m, r: m.DeviateNoise(3),
    "DeviateNoise variance": lambda m, r: m.DeviateNoise(m.PoissonDeviate(3)).getVariance(),
    "DeviateNoise withVariance": lambda m, r: m.DeviateNoise(m.PoissonDeviate(3)).withVariance(3.0),
    "DeviateNoise * 2": lambda m, r: m.DeviateNoise(m.PoissonDeviate(3)) * 2,
    "VariableGaussianNoise image": lambda m, r: m.VariableGaussianNoise(m.BaseDeviate(3), 3),
    "VariableGaussianNoise integer": lambda m, r: m.VariableGaussianNoise(m.BaseDeviate(3), m.ImageI(3, 3, init_value=2)),
    "VariableGaussianNoise variance": lambda m, r: m.VariableGaussianNoise(m.BaseDeviate(3), m.ImageF(3, 3, init_value=2)).getVariance(),
    "VariableGaussianNoise scaled": lambda m, r: m.VariableGaussianNoise(m.BaseDeviate(3), m.ImageF(3, 3, init_value=2)).withVariance(2.0),
    "VariableGaussianNoise shape": lambda m, r: m.ImageF(4, 4).addNoise(m.VariableGaussianNoise(m.BaseDeviate(3), m.ImageF(3, 3, init_value=2))),
    "poisson withVariance negative": lambda m, r: m.PoissonNoise(m.BaseDeviate(3), 2.0).withVariance(-1.0),
    "noise + noise": lambda m, r: m.GaussianNoise(m.BaseDeviate(3)) + m.GaussianNoise(m.BaseDeviate(3)),
    "noise * str": lambda m, r: m.GaussianNoise(m.BaseDeviate(3)) * "x",
    "BaseNoise variance": lambda m, r: m.BaseNoise(m.BaseDeviate(3)).getVariance(),
    "applyTo type": lambda m, r: m.GaussianNoise(m.BaseDeviate(3)).applyTo(3),
    "applyTo array": lambda m, r: m.GaussianNoise(m.BaseDeviate(3)).applyTo(np.zeros((3, 3))),
    "applyTo undefined": lambda m, r: m.GaussianNoise(m.BaseDeviate(3)).applyTo(m.ImageF()),
    "poisson applyTo undefined": lambda m, r: m.PoissonNoise(m.BaseDeviate(3)).applyTo(m.ImageF()),
    "ccd applyTo undefined": lambda m, r: m.CCDNoise(m.BaseDeviate(3)).applyTo(m.ImageF()),
    "deviate applyTo undefined": lambda m, r: m.DeviateNoise(m.PoissonDeviate(3)).applyTo(m.ImageF()),
}.items():
    t("random " + lab, f)
# -- photons ------------------------------------------------------------------------------------
PH = lambda m, n=4: m.PhotonArray(n, x=np.arange(n * 1.0), y=np.arange(n * 1.0), flux=np.ones(n))  # noqa: E731
for lab, f in {
    "no size": lambda m, r: m.PhotonArray(),
    "size str": lambda m, r: m.PhotonArray("x"),
    "addTo type": lambda m, r: PH(m).addTo(3),
    "addTo undefined": lambda m, r: PH(m).addTo(m.ImageF()),
    "addTo const": lambda m, r: PH(m).addTo(CI(m)),
    "convolve size": lambda m, r: PH(m).convolve(PH(m, 5)),
    "assignAt": lambda m, r: PH(m).assignAt(2, PH(m)),
    "assignAt negative": lambda m, r: PH(m).assignAt(5, PH(m, 1)),
    "makeFromImage max_flux": lambda m, r: m.PhotonArray.makeFromImage(IM(m), max_flux=0.0),
    "makeFromImage max_flux negative": lambda m, r: m.PhotonArray.makeFromImage(IM(m), max_flux=-1.0),
    "read missing": lambda m, r: m.PhotonArray.read("/nonexistent/x.fits"),
    "sensor const": lambda m, r: m.Sensor().accumulate(PH(m), CI(m)),
    "sensor undefined": lambda m, r: m.Sensor().accumulate(PH(m), m.ImageF()),
    "sensor resume": lambda m, r: m.Sensor().accumulate(PH(m), m.ImageF(3, 3), resume=True),
}.items():
    t("photons " + lab, f)
# -- files --------------------------------------------------------------------------------------
for lab, f in {
    "read missing": lambda m, r: m.fits.read("/nonexistent/x.fits"),
    "read()": lambda m, r: m.fits.read(),
    "read both": lambda m, r: m.fits.read("x.fits", hdu_list=[]),
    "read compression": lambda m, r: m.fits.read("/nonexistent/x.fits", compression="nonsense"),
    "readMulti()": lambda m, r: m.fits.readMulti(),
    "readCube()": lambda m, r: m.fits.readCube(),
    "readMulti missing": lambda m, r: m.fits.readMulti("/nonexistent/x.fits"),
    "write()": lambda m, r: m.fits.write(IM(m)),
    "write type": lambda m, r: m.fits.write(3, "/nonexistent/x.fits"),
    "write dir": lambda m, r: m.fits.write(IM(m), "/nonexistent/x.fits"),
    "writeMulti empty": lambda m, r: m.fits.writeMulti([], "/nonexistent/x.fits"),
    "writeCube empty": lambda m, r: m.fits.writeCube([], "/nonexistent/x.fits"),
    "writeCube shapes": lambda m, r: m.fits.writeCube([IM(m), m.ImageD(3, 3)], "/nonexistent/x.fits"),
    "FitsHeader both": lambda m, r: m.FitsHeader({"A": 1}, file_name="x.fits"),
    "FitsHeader missing": lambda m, r: m.FitsHeader(file_name="/nonexistent/x.fits"),
    "FitsHeader type": lambda m, r: m.FitsHeader(3),
    "FitsHeader key": lambda m, r: m.FitsHeader({"A": 1})["B"],
}.items():
    t("fits " + lab, f)
# -- helpers ------------------------------------------------------------------------------------
for lab, f in {
    "parse_pos none": lambda m, r: m.utilities.parse_pos_args((), {}, "x", "y"),
    "parse_pos one": lambda m, r: m.utilities.parse_pos_args((1,), {}, "x", "y"),
    "parse_pos three": lambda m, r: m.utilities.parse_pos_args((1, 2, 3), {}, "x", "y"),
    "parse_pos both": lambda m, r: m.utilities.parse_pos_args((1, 2), {"x": 3}, "x", "y"),
    "parse_pos integer PositionD": lambda m, r: m.utilities.parse_pos_args((m.PositionD(1.5, 2),), {}, "x", "y", integer=True),
    "parse_pos integer fraction": lambda m, r: m.utilities.parse_pos_args((1.5, 2), {}, "x", "y", integer=True),
    "parse_pos others": lambda m, r: m.utilities.parse_pos_args((1, 2), {}, "x", "y", others=["z"]),
}.items():
    t("utilities " + lab, f)
