"""C04: interpolation kernels and interpolated images, against GalSim and against their defining integrals."""

from jgmon.common import *  # noqa: F401,F403

RULE = "A case is one interpolant with evaluation points, or one image with a full set of interpolation options and evaluation points."
ASSUMPTIONS = [
    "GalSim 2.8.5 is the reference for kernels and surfaces",
    "Fourier values between grid points are judged by the exact discrete Fourier sum, allowing the error of interpolating the padded transform",
]

NAMES = ["nearest", "linear", "cubic", "quintic", "sinc", "delta"]


def interp_spec(rng, deep=False, smooth=False):
    r = rng.random()
    gs = None
    if deep and rng.random() < 0.3:
        gs = {"kvalue_accuracy": pick(rng, [1e-6, 1e-5, 1e-4])}
    if r < 0.45:
        n = int(rng.integers(3, 8)) if not deep else int(rng.integers(1, 31))
        return {"i": "lanczos", "n": n, "dc": bool(rng.random() < 0.6), "gs": gs}
    names = NAMES[1:4] if smooth else NAMES
    return {"i": pick(rng, names), "gs": gs}


CLS = {"nearest": "Nearest", "linear": "Linear", "cubic": "Cubic", "quintic": "Quintic", "sinc": "SincInterpolant", "delta": "Delta"}


def mk_interp(m, s, form="class"):
    if s is None:
        return None
    kw = {} if not s.get("gs") else {"gsparams": m.GSParams(**s["gs"])}
    if s["i"] == "lanczos":
        if form == "string":
            return f"lanczos{s['n']}{'T' if s['dc'] else 'F'}"
        if form == "name":
            return m.interpolant.Interpolant.from_name(f"lanczos{s['n']}{'T' if s['dc'] else 'F'}", **kw)
        return m.Lanczos(s["n"], s["dc"], **kw)
    if form == "string":
        return s["i"]
    if form == "name":
        return m.interpolant.Interpolant.from_name(s["i"], **kw)
    return getattr(m, CLS[s["i"]])(**kw)


def kernel(deep):
    def case(mon, rng):
        # quick: every kernel in turn
        s = interp_spec(rng, deep)
        if not deep and mon.index < 12:
            s = ([{"i": n, "gs": None} for n in NAMES] + [{"i": "lanczos", "n": n, "dc": d, "gs": None} for n in (2, 3, 5) for d in (True, False)])[mon.index]
        form = pick(rng, ["class", "name"])
        mon.note(spec=s, form=form)
        j, g = mk_interp(jg, s, form), mk_interp(galsim, s, "class")
        mon.check("from-name-equals-class", j == mk_interp(jg, s, "class"))
        name = s["i"]
        xr = min(g.xrange, 40.0)
        x = np.concatenate(
            [
                rng.uniform(-1.3, 1.3, 30) * max(xr, 0.5),
                np.arange(-3, 4) * 1.0,
                np.array([-xr, xr, xr * (1 - 1e-9), xr * (1 + 1e-9), 1e-8, -1e-8, 1e-3, 1 - 1e-6, 1 + 1e-6, 2 - 1e-6]),
                rng.integers(-8, 9, 6) * 0.5 + 0.25,
            ]
        )
        edges = [0.5, -0.5] if name == "nearest" else []
        x = np.array([v for v in x if not any(abs(v - e) < 1e-12 for e in edges)])
        gx = g.xval(x)
        if name == "delta":
            mon.close("kernel", A(j.xval(x)), gx, rtol=1e-12)
        else:
            # GalSim tabulates Lanczos kernels to xvalue_accuracy-like precision
            mon.close("kernel", A(j.xval(x)), gx, rtol=1e-9, atol=2e-5 if name == "lanczos" else 1e-9)
        mon.close("kernel-scalar", F(j.xval(float(x[3]))), A(j.xval(x))[3], rtol=1e-12, atol=1e-14)
        if name == "lanczos":
            n = s["n"]
            mon.close("kernel-formula", A(j.xval(x)), lanczos_exact(g, x, n, s["dc"]), rtol=1e-7, atol=1e-8)
        mon.close("kernel-symmetric", A(j.xval(-x)), A(j.xval(x)), rtol=1e-9, atol=1e-14)
        # Fourier side
        kr = min(g.krange, 60.0)
        k = np.concatenate([rng.uniform(-1.2, 1.2, 30) * kr, [0.0, 1e-7, np.pi - 1e-5, -2 * np.pi, 2 * np.pi + 0.01, 4 * np.pi, kr * 0.999]])
        tol = g.gsparams.kvalue_accuracy
        gk = g.kval(k)
        inside = np.abs(k) < g.krange * 0.9999
        mon.close("kernel-fourier", A(j.kval(k))[inside], gk[inside], rtol=1e-8, atol=(2.0 * tol if name == "lanczos" else 1e-9))
        mon.close("kernel-fourier-outside", A(j.kval(k))[~inside], gk[~inside], atol=(5 * tol if name == "lanczos" else 1e-9), rtol=1e-8)
        mon.close("kernel-fourier-scalar", F(j.kval(float(k[2]))), A(j.kval(k))[2], rtol=1e-12, atol=1e-14)
        mon.close("kernel-integral", F(j.kval(0.0)), float(g.kval(0.0)), rtol=1e-6, atol=2 * tol if name == "lanczos" else 0)
        for a in ("xrange", "ixrange", "krange"):
            mon.close(a, F(getattr(j, a)), getattr(g, a), rtol=1e-9 if name != "lanczos" or a != "krange" else 2e-2)
        for a in ("positive_flux", "negative_flux"):
            mon.close(a, F(getattr(j, a)), getattr(g, a), rtol=1e-4 if name in ("lanczos", "sinc") else 1e-9, atol=2e-6 + 5 * tol if name in ("lanczos", "sinc") else 1e-9)
        mon.close("flux-split", F(j.positive_flux) - F(j.negative_flux), getattr(g, "positive_flux") - g.negative_flux, atol=3e-5 if name in ("lanczos", "sinc") else 1e-9)
        for ml in (None, int(rng.integers(1, 6))):
            u, gu = A(j.unit_integrals(max_len=ml)), A(g.unit_integrals(max_len=ml))
            if name in ("delta", "nearest", "linear", "cubic", "quintic"):
                # for short kernels the maximum length is only an upper limit on a convenience copy
                m = min(len(u), len(gu))
                mon.check("unit-integrals-length", len(u) >= len(gu), got=len(u), want=len(gu))
                u, gu = u[:m], gu[:m]
            mon.close("unit-integrals", u, gu, rtol=1e-6, atol=3e-6)
        if name not in ("delta", "sinc"):
            u = A(j.unit_integrals())
            if len(u) > 1:
                i = int(rng.integers(0, len(u)))
                mon.close("unit-integrals-integrate-kernel", u[i], quad(lambda t: A(j.xval(t)), i - 0.5, i + 0.5), rtol=1e-5, atol=3e-6)
        if name in ("linear", "cubic", "quintic", "lanczos"):
            n = np.arange(-4, 5) * 1.0
            mon.close("kernel-interpolates", A(j.xval(n)), np.where(n == 0, 1.0, 0.0), atol=1e-9)
            if name != "lanczos" or s["dc"]:
                if name != "lanczos" or s["n"] > 1:
                    d = rng.uniform(0, 1)
                    m = np.arange(-40, 41)
                    mon.close("kernel-partition-of-unity", A(j.xval(m + d)).sum(), 1.0, atol=1e-9 if name != "lanczos" else 3e-3 if s["n"] < 3 else 3e-4)
            # transform pair
            kk = float(rng.uniform(0.1, 5.0))
            ft = quad(lambda t: 2 * A(j.xval(t)) * np.cos(kk * t), 0, float(g.xrange), pieces=4 * int(np.ceil(g.xrange)))
            mon.close("kernel-transform-pair", F(j.kval(kk)), ft, atol=1e-9 if name != "lanczos" else 3e-4 if s.get("dc") else 3 * tol)
        mon.same("kernel-equal", repr(j), repr(g))
        mon.event("kernel:" + name)

    return case


def lanczos_exact(g, x, n, dc):
    """The published formula: sinc windowed by sinc, divided by its fifth-order ripple when conserving DC."""
    from galsim.bessel import si

    def uval(u):
        vp, vm = n * (2 * u + 1), n * (2 * u - 1)
        r = (vm - 1) * si(np.pi * (vm - 1)) - (vm + 1) * si(np.pi * (vm + 1)) - (vp - 1) * si(np.pi * (vp - 1)) + (vp + 1) * si(np.pi * (vp + 1))
        return r / (2 * np.pi)

    v = np.sinc(x) * np.sinc(x / n)
    if dc:
        K = [0.0] + [uval(i) for i in range(1, 6)]
        f = 1.0
        for i in range(1, 6):
            f = f + 2 * K[i] * (np.cos(2 * np.pi * i * x) - 1)
        v = v / f
    return np.where(np.abs(x) < n, v, 0.0)


_GLX, _GLW = np.polynomial.legendre.leggauss(40)


def quad(f, a, b, pieces=2):
    e = np.linspace(a, b, pieces + 1)
    h = 0.5 * np.diff(e)
    x = (0.5 * (e[1:] + e[:-1]))[:, None] + h[:, None] * _GLX[None, :]
    return float(np.sum(np.asarray(f(x.ravel())).reshape(x.shape) * _GLW[None, :] * h[:, None]))


def from_names(mon, rng):
    """Names are parsed as GalSim parses them, and bad ones are refused."""
    nm = pick(rng, ["lanczos3", "Lanczos5T", "LANCZOS7f", "lanczos", "lanczosx", "lanczos3x", "Quintic", "CUBIC", "Linear", "nearest", "delta", "sinc", "spline", "", "lanczos4"])
    mon.note(name=nm)
    r = lockstep(mon, "from-name", lambda: jg.Interpolant.from_name(nm), lambda: galsim.Interpolant.from_name(nm))
    if r:
        mon.same("from-name-repr", repr(r[0]), repr(r[1]))
    r = lockstep(mon, "convert-interpolant", lambda: jg.utilities.convert_interpolant(nm), lambda: galsim.utilities.convert_interpolant(nm))
    x2 = np.zeros((2, 2))
    j = jg.Quintic()
    mon.raises("kernel-refuses-2d", lambda: j.xval(x2))
    mon.raises("kernel-refuses-2d", lambda: j.kval(x2))
    kva = pick(rng, [1e-6, 1e-4])
    s = interp_spec(rng, True)
    a, b = mk_interp(jg, s).withGSParams(kvalue_accuracy=kva), mk_interp(galsim, s).withGSParams(kvalue_accuracy=kva)
    mon.same("with-gsparams", repr(a), repr(b))
    if s["i"] != "lanczos" or s["n"] < 12:
        mon.close("with-gsparams-krange", F(a.krange), b.krange, rtol=2e-2)


def image_spec(rng, deep):
    sq = rng.random() < 0.5
    hi = 17 if not deep else 33
    if not deep:  # few shapes, so that compiled code is shared
        nx, ny = pick(rng, [(8, 8), (9, 9), (12, 12), (8, 11), (13, 10), (15, 15), (6, 9)])
    else:
        nx = int(rng.integers(2, hi))
        ny = nx if sq else int(rng.integers(2, hi))
    kind = pick(rng, ["blob", "noise", "negblob", "mixed"])
    y, x = np.mgrid[0:ny, 0:nx]
    cx, cy, w = nx / 2 - 0.5 + rng.normal() * 0.5, ny / 2 - 0.5 + rng.normal() * 0.5, rng.uniform(0.8, max(1.0, min(nx, ny) / 5))
    a = np.exp(-0.5 * ((x - cx) ** 2 + (y - cy) ** 2) / w**2)
    if kind == "noise":
        a = rng.normal(0.5, 0.5, (ny, nx))
    elif kind == "mixed":
        a = a + 0.1 * rng.normal(size=(ny, nx))
    elif kind == "negblob":
        a = -a
    a = np.round(a * rnd(rng, 0.5, 50, log=True), 6)
    if abs(a.sum()) < 0.05 * np.abs(a).sum():
        a = np.abs(a)
    s = dict(kind=kind, n=[nx, ny], at=[int(v) for v in rng.integers(-6, 9, 2)] if rng.random() < 0.6 else [1, 1], dt=pick(rng, ["float64", "float64", "float32"]))
    w = rng.random()
    if w < 0.35:
        s["scale"] = rnd(rng, 0.2, 2.0)
    elif w < 0.75:
        m = rnd(rng, 0.2, 1.0) * (np.eye(2) + 0.35 * rng.normal(size=(2, 2)))
        if abs(np.linalg.det(m)) < 0.2 * np.abs(m).max() ** 2:
            m = np.array([[0.3, 0.05], [-0.04, 0.35]])
        m = [float(f"{v:.5g}") for v in m.ravel()]
        s["wcs"] = ["jac", m] if rng.random() < 0.6 else ["affine", m, [rnd(rng, -3, 3), rnd(rng, -3, 3)]]
    else:
        s["imwcs"] = rnd(rng, 0.2, 2.0)
    if rng.random() < 0.6:
        s["x"] = interp_spec(rng, False, smooth=True)
        s["xform"] = pick(rng, ["class", "string"])
    if rng.random() < 0.4:
        s["k"] = interp_spec(rng, False, smooth=True)
        s["kform"] = pick(rng, ["class", "string"])
    if rng.random() < 0.4:
        s["flux"] = flux_of(rng)
    if rng.random() < 0.4:
        s["norm"] = pick(rng, ["flux", "f", "surface brightness", "sb", "SB", "Flux"])
    if rng.random() < 0.4:
        s["offset"] = [rnd(rng, -1.2, 1.2), rnd(rng, -1.2, 1.2)]
    if rng.random() < 0.35:
        s["tc"] = False
    if rng.random() < 0.3:
        s["pad"] = pick(rng, [1.0, 2.0, 4.0, 6.0, 0.5, 3.3])
    if rng.random() < 0.25:
        s["cs"] = False
    if rng.random() < 0.25:
        s["cm"] = pick(rng, [False, 2.0])
    if rng.random() < 0.2:
        s["force"] = [rnd(rng, 0.1, 0.5), rnd(rng, 3, 10)]
    if rng.random() < 0.3:
        s["gs"] = pick(rng, [{"folding_threshold": 2e-2, "maxk_threshold": 1e-2}, {"kvalue_accuracy": 1e-4, "folding_threshold": 2e-3}])
    return s, a.astype(s["dt"])


def mk_image(m, s, a):
    kw = {}
    if "imwcs" in s:
        kw["wcs"] = m.PixelScale(s["imwcs"])
    return m.Image(a.copy(), xmin=s["at"][0], ymin=s["at"][1], **kw)


def mk_ii(m, s, a):
    im = mk_image(m, s, a)
    kw = {}
    if "scale" in s:
        kw["scale"] = s["scale"]
    if "wcs" in s:
        w = s["wcs"]
        kw["wcs"] = m.JacobianWCS(*w[1]) if w[0] == "jac" else m.AffineTransform(*w[1], origin=m.PositionD(*w[2]))
    if "x" in s:
        kw["x_interpolant"] = mk_interp(m, s["x"], s["xform"])
    if "k" in s:
        kw["k_interpolant"] = mk_interp(m, s["k"], s["kform"])
    for k, n in (("flux", "flux"), ("norm", "normalization"), ("pad", "pad_factor"), ("cs", "calculate_stepk"), ("cm", "calculate_maxk"), ("tc", "use_true_center")):
        if k in s:
            kw[n] = s[k]
    if "offset" in s:
        kw["offset"] = m.PositionD(*s["offset"]) if s["n"][0] % 2 else tuple(s["offset"])
    if "force" in s:
        kw["_force_stepk"], kw["_force_maxk"] = s["force"]
    if "gs" in s:
        kw["gsparams"] = m.GSParams(**s["gs"])
    return m.InterpolatedImage(im, **kw), im


def geometry(s):
    """(A, c): pixel index p (0-based, x then y) of the array sits at world position A (p - c)."""
    nx, ny = s["n"]
    off = np.array(s.get("offset", [0.0, 0.0]))
    tc = s.get("tc", True)
    c = np.array([(nx - 1) / 2.0, (ny - 1) / 2.0]) if tc else np.array([nx // 2, ny // 2], float)
    if "scale" in s:
        m = np.eye(2) * s["scale"]
    elif "wcs" in s:
        m = np.array(s["wcs"][1]).reshape(2, 2)
    else:
        m = np.eye(2) * s["imwcs"]
    return m, c + off


def surface(deep):
    def case(mon, rng):
        s, a = image_spec(rng, deep)
        mon.note(spec=s, a=a.ravel()[:3])
        r = lockstep(mon, "build", lambda: mk_ii(jg, s, a), lambda: mk_ii(galsim, s, a))
        if r is None:
            return
        (j, jim), (g, gim) = r
        amax, atot = np.abs(a).max(), np.abs(a).sum()
        ratio = abs(g.flux) / max(abs(float(a.sum(dtype=float))), 1e-30)
        det = abs(np.linalg.det(geometry(s)[0]))
        lan = s.get("x", {}).get("i") == "lanczos"
        # real space
        M, c = geometry(s)
        p = np.column_stack([rng.uniform(-2, s["n"][0] + 1, 10), rng.uniform(-2, s["n"][1] + 1, 10)])
        w = (p - c) @ M.T
        want = np.array([g.xValue(*v) for v in w])
        got = np.array([F(j.xValue(*v)) for v in w])
        sc = amax * ratio / det
        mon.close("surface", got, want, rtol=1e-7, atol=(3e-4 if lan else 1e-7) * sc)
        # it passes through its pixels
        q = np.column_stack([rng.integers(0, s["n"][0], 5), rng.integers(0, s["n"][1], 5)])
        w = (q - c) @ M.T
        node = np.array([a[v[1], v[0]] for v in q]).astype(float) * g.flux / a.sum(dtype=float) / det
        mon.close("passes-through-pixels", [F(j.xValue(*v)) for v in w], node, rtol=1e-6, atol=1e-6 * sc)
        # attributes
        mon.close("flux", F(j.flux), g.flux, rtol=1e-6 if s["dt"] == "float32" else 1e-10)
        if abs(a.sum(dtype=float)) > 0.05 * atot:
            mon.close("centroid", pos(j.centroid), pos(g.centroid), rtol=1e-5, atol=1e-5 * np.abs(M).max() * max(s["n"]))
        mon.close("stepk", F(j.stepk), g.stepk, rtol=1e-6)
        mon.close("positive-flux", F(j.positive_flux), g.positive_flux, rtol=1e-4)
        mon.close("negative-flux", F(j.negative_flux), g.negative_flux, rtol=1e-4, atol=1e-4 * abs(g.flux))
        for k in ("has_hard_edges", "is_axisymmetric", "is_analytic_x", "is_analytic_k"):
            mon.same("flag:" + k, bool(getattr(j, k)), bool(getattr(g, k)))
        mon.same("image-kept", A(j.image.array), A(g.image.array))
        mon.same("argument-untouched", A(jim.array), a)
        mon.same("argument-bounds-untouched", [jim.xmin, jim.ymin], s["at"])
        mon.same("image-bounds", [j.image.xmin, j.image.ymin, j.image.xmax, j.image.ymax], [g.image.xmin, g.image.ymin, g.image.xmax, g.image.ymax])
        # a later change of the caller's image is not a change of the profile
        jim *= 3.0
        jim.shift(2, -3)
        mon.close("keeps-its-own-image", F(j.xValue(*w[0])), node[0], rtol=1e-6, atol=1e-6 * sc)
        square = s["n"][0] == s["n"][1]
        mk, gmk = F(j.maxk), g.maxk
        if "force" not in s and s.get("cm", True) == 2.0:
            # GalSim may overshoot the limit by a cell or two of its grid
            s2 = {k: v for k, v in s.items() if k != "cm"}
            free = F(mk_ii(jg, s2, a)[0].maxk)
            cap = 2.0 / np.linalg.svd(M, compute_uv=False).max()
            dk = cap / 2.0 * 2 * np.pi / (max(1.0, s.get("pad", 4.0)) * max(s["n"]))
            mon.check("maxk-limit", mk <= min(free, cap) * (1 + 1e-9) + 1.01 * dk and mk >= min(free, cap) * (1 - 1e-9) - 1.01 * dk, got=mk, free=free, cap=cap)
        elif "force" in s or s.get("cm", True) is False:
            mon.close("maxk", mk, gmk, rtol=1e-6 if not lan else 1e-2)
        else:
            # a search over square rings of the padded transform for the first few rings below the threshold
            maxs = np.linalg.svd(M, compute_uv=False).max()
            side = max(s["n"])
            N = galsim.Image.good_fft_size(int(np.ceil(side * s["pad"])) if s.get("pad", 4.0) > 1 else side) if "pad" in s else galsim.Image.good_fft_size(4 * side)
            v = np.abs(np.fft.fft2(a.astype(float), (N, N))) / abs(a.sum(dtype=float)) / g.gsparams.maxk_threshold
            f = np.abs(np.fft.fftfreq(N, 1.0 / N))
            ring = np.maximum(f[:, None], f[None, :])
            above = np.array([v[ring == i].max() for i in range(N // 2 + 1)])
            cross = [i for i in range(1, N // 2 + 1) if above[i - 1] > 0.999999 and above[i] <= 1.000001] + [N // 2 + 1]
            dk = 2 * np.pi / N / maxs
            cap = g.x_interpolant.krange / maxs
            mon.check("maxk-is-where-the-transform-ends", any(abs(mk - min(i * dk, cap)) < 1e-6 * cap or (i > N // 2 and mk >= (N // 2 - 1) * dk * 0.999) for i in cross) or (lan and mk > 0.97 * cap), got=mk / dk, crossings=cross, cap=cap / dk)
            # (GalSim's rule for gaps in the transform depends on its direction)
            if len([i for i in cross if i <= N // 2]) == 1 and above[cross[0] :].max() < 0.999999:
                mon.close("maxk", mk, gmk, rtol=1e-6, atol=0.0 if not lan else 1e-2 * gmk)
        # Fourier space
        xi = galsim.Quintic() if "x" not in s else mk_interp(galsim, s["x"])
        ky = rng.uniform(-1, 1, (8, 2)) * np.pi * np.array([0.1, 0.3, 0.5, 0.8, 1.0, 1.3, 1.8, 0.0])[:, None]
        # pixel frequency kappa: world k = M^-T kappa
        kw = ky @ np.linalg.inv(M)
        yy, xx = np.mgrid[0 : s["n"][1], 0 : s["n"][0]]
        A64 = a.astype(float)
        exact = np.array(
            [np.sum(A64 * np.exp(-1j * (v[0] * (xx - c[0]) + v[1] * (yy - c[1])))) * xi.kval(float(v[0])) * xi.kval(float(v[1])) for v in ky]
        ) * (g.flux / A64.sum())
        gv = np.array([g.kValue(*v) for v in kw])
        jv = np.array([complex(A(j.kValue(*v))) for v in kw])
        fs = atot * ratio
        gerr = np.abs(gv - exact).max()
        mon.check("fourier-accuracy", np.abs(jv - exact).max() <= 3 * gerr + 2e-3 * fs, got=np.abs(jv - exact).max() / fs, reference=gerr / fs)
        if square and s.get("pad", 4.0) > 1:
            kern = s.get("k", {"i": "quintic"})["i"]
            mon.close("fourier-value", jv, gv, rtol=1e-6, atol=(3e-4 if lan or kern == "lanczos" else 1e-6) * fs)
        kv0 = float(xi.kval(0.0)) ** 2
        mon.close("fourier-origin-is-flux", complex(A(j.kValue(0.0, 0.0))), g.flux * kv0, rtol=1e-3, atol=1e-6 * fs)
        mon.event("shape:" + ("square" if square else "oblong"))

    return case


def drawn(mon, rng):
    """Drawing an interpolated image, possibly transformed and convolved."""
    s, a = image_spec(rng, False)
    ops = []
    for _ in range(int(rng.integers(0, 3))):
        ops.append(pick(rng, [["shift", rnd(rng, -1, 1), rnd(rng, -1, 1)], ["rotate", rnd(rng, -180, 180)], ["shear", rnd(rng, -0.3, 0.3), rnd(rng, -0.3, 0.3)], ["mul", rnd(rng, 0.3, 3)], ["dilate", rnd(rng, 0.7, 1.4)]]))
    conv = rnd(rng, 0.5, 1.5) if rng.random() < 0.4 else None
    sc = rnd(rng, 0.3, 0.9)
    method = pick(rng, ["no_pixel", "no_pixel", "sb"]) if conv is None else "no_pixel"
    mon.note(spec=s, ops=ops, conv=conv, scale=sc, method=method)

    def mk(m):
        o, _ = mk_ii(m, s, a)
        for q in ops:
            if q[0] == "shift":
                o = o.shift(q[1], q[2])
            elif q[0] == "rotate":
                o = o.rotate(q[1] * m.degrees)
            elif q[0] == "shear":
                o = o.shear(g1=q[1], g2=q[2])
            elif q[0] == "mul":
                o = o * q[1]
            else:
                o = o.dilate(q[1])
        if conv is not None:
            o = m.Convolve([o, m.Gaussian(sigma=conv)])
        return o

    g, j = mk(galsim), mk(jg)
    gi = g.drawImage(nx=12, ny=11, scale=sc, method=method, dtype=float)
    ji = j.drawImage(nx=12, ny=11, scale=sc, method=method, dtype=float)
    lan = s.get("x", {}).get("i") == "lanczos" or s.get("k", {}).get("i") == "lanczos"
    peak = np.abs(gi.array).max()
    if conv is None:
        mon.close("drawn", A(ji.array), gi.array, rtol=1e-6, atol=(1e-3 if lan else 1e-6) * peak)
    else:
        mon.close("drawn-convolved", A(ji.array), gi.array, rtol=1e-4, atol=2e-2 * peak)
    if s["n"][0] == s["n"][1] and conv is None and s.get("pad", 4.0) > 1:
        gk, jk = g.drawKImage(nx=8, ny=8, scale=0.5), j.drawKImage(nx=8, ny=8, scale=0.5)
        fs = np.abs(gk.array).max()
        mon.close("drawn-fourier", A(jk.array), gk.array, rtol=1e-5, atol=(1e-3 if lan else 1e-5) * max(fs, 1e-3 * abs(g.flux)))


def underscore(mon, rng):
    """_InterpolatedImage: no padding, no recentering."""
    s, a = image_spec(rng, False)
    s = {k: s[k] for k in ("kind", "n", "at", "dt")}
    s["imwcs"] = rnd(rng, 0.3, 1.5)
    fs = [rnd(rng, 0.1, 0.5), rnd(rng, 3, 10)] if rng.random() < 0.5 else [0.0, 0.0]
    off = [rnd(rng, -1, 1), rnd(rng, -1, 1)] if rng.random() < 0.5 else None
    tc = bool(rng.random() < 0.5)
    mon.note(spec=s, force=fs, off=off, tc=tc)

    def mk(m):
        return m._InterpolatedImage(mk_image(m, s, a), m.Quintic(), m.Quintic(), tc, off if off is None else m.PositionD(*off), None, fs[0], fs[1])

    g, j = mk(galsim), mk(jg)
    pts = rng.normal(0, 3, (8, 2))
    sc = np.abs(a).max() / s["imwcs"] ** 2
    mon.close("plain-surface", [F(j.xValue(*p)) for p in pts], [g.xValue(*p) for p in pts], rtol=1e-6, atol=1e-6 * sc)
    mon.close("plain-flux", F(j.flux), g.flux, rtol=1e-6)
    mon.close("plain-stepk", F(j.stepk), g.stepk, rtol=1e-6)
    mon.close("plain-maxk", F(j.maxk), g.maxk, rtol=1e-6)
    mon.same("plain-image-bounds", [j.image.xmin, j.image.ymin, j.image.xmax, j.image.ymax], [g.image.xmin, g.image.ymin, g.image.xmax, g.image.ymax])
    mon.close("plain-image", A(j.image.array), g.image.array, rtol=1e-12)
    # GalSim's own centroid ignores where (0,0) is, although its surface does not
    yy, xx = np.mgrid[0 : s["n"][1], 0 : s["n"][0]]
    A64 = a.astype(float)
    o = np.array(off or [0.0, 0.0]) - 0.5 * (1 - np.array(s["n"]) % 2) * tc
    want = [s["imwcs"] * (np.sum(A64 * q) / A64.sum() + s["at"][i] - o[i]) for i, q in enumerate((xx, yy))]
    mon.close("plain-centroid", pos(j.centroid), want, rtol=1e-5, atol=1e-5 * s["imwcs"] * (max(s["n"]) + np.abs(s["at"]).max()))
    kp = rng.uniform(-1, 1, (6, 2)) * 2.0 / s["imwcs"]
    if s["n"][0] == s["n"][1] and s["n"][0] % 2 == 0:
        gim = mk_image(galsim, s, a)  # GalSim itself can only transform images centered on (0,0)
        cen = gim.center
        gim.setCenter(0, 0)
        gc = galsim._InterpolatedImage(gim, galsim.Quintic(), galsim.Quintic(), tc, off if off is None else galsim.PositionD(*off), None, fs[0], fs[1])
        mon.close("plain-fourier", [complex(A(j.kValue(*p))) for p in kp], [gc.kValue(*p) * np.exp(-1j * s["imwcs"] * (p[0] * cen.x + p[1] * cen.y)) for p in kp], rtol=1e-6, atol=1e-6 * np.abs(a).sum())
    mon.close("plain-drawn", A(j.drawImage(nx=9, ny=8, scale=s["imwcs"], method="no_pixel", dtype=float).array), g.drawImage(nx=9, ny=8, scale=s["imwcs"], method="no_pixel", dtype=float).array, rtol=1e-6, atol=1e-7 * np.abs(a).max())


GROUPS = {
    "kernel": dict(fn=kernel(False), quick=40, thorough=300, cost=0.4, warm=8, must=["kernel", "kernel-fourier", "unit-integrals"]),
    "kernel_deep": dict(fn=kernel(True), quick=24, thorough=900, cost=0.8, warm=8),
    "names": dict(fn=from_names, quick=24, thorough=300, cost=0.05, warm=3),
    "surface": dict(fn=surface(False), quick=56, thorough=1600, cost=0.8, warm=15, must=["surface", "passes-through-pixels", "fourier-value", "fourier-accuracy"]),
    "surface_deep": dict(fn=surface(True), quick=16, thorough=800, cost=2.0, warm=10),
    "drawn": dict(fn=drawn, quick=20, thorough=600, cost=1.0, warm=12),
    "underscore": dict(fn=underscore, quick=24, thorough=300, cost=0.3, warm=6),
}
