"""C09: Fourier transforms, wrapping and the symmetries of the square, against GalSim and against pixel bookkeeping in NumPy."""

import warnings

from jgmon.common import *  # noqa: F401,F403

RULE = "A case is one image with one transform chain (FFT and back, one wrap, one product of flips and rotations) or one batch of FFT sizes."
ASSUMPTIONS = ["GalSim 2.8.5 and NumPy's FFT are references", "forward FFTs of complex images are documented as not supported"]


def make(m, a, x0, y0, **kw):
    return m.Image(a.copy(), xmin=x0, ymin=y0, **kw)


def fft(mon, rng):
    warnings.simplefilter("ignore")
    nx, ny = int(rng.integers(1, 14)), int(rng.integers(1, 14))
    if rng.random() < 0.35:
        nx = ny = 2 * int(rng.integers(1, 8))
    x0, y0 = (-nx // 2 + int(rng.integers(-1, 2)), -ny // 2 + int(rng.integers(-1, 2))) if rng.random() < 0.8 else (1, 1)
    if nx == ny and nx % 2 == 0 and rng.random() < 0.6:
        x0 = y0 = -nx // 2
    if max(max(-x0, x0 + nx), max(-y0, y0 + ny)) <= 0:
        raise Abort("empty")
    s = rnd(rng, 0.1, 3)
    dt = pick(rng, ["float64", "float64", "float32", "int32", "int16", "uint16"])
    a = rng.uniform(-10, 10, (ny, nx))
    a = (np.abs(a) * 5 if dt[0] == "u" else a * 5).astype(dt)
    mon.note(n=[nx, ny], at=[x0, y0], scale=s, dt=dt)
    j, g = make(jg, a, x0, y0, scale=s), make(galsim, a, x0, y0, scale=s)
    r = lockstep(mon, "fft", lambda: j.calculate_fft(), lambda: g.calculate_fft())
    mon.same("fft-argument-untouched", A(j.array), a)
    if r is None:
        return
    kj, kg = r
    sc = float(np.sum(np.abs(a))) * s * s
    mon.same("fft-bounds", [int(getattr(kj.bounds, k)) for k in ("xmin", "xmax", "ymin", "ymax")], [getattr(kg.bounds, k) for k in ("xmin", "xmax", "ymin", "ymax")])
    mon.close("fft-scale", F(kj.scale), kg.scale, rtol=1e-13)
    mon.check("fft-dtype", A(kj.array).dtype == np.complex128)
    tol = 1e-12 if dt == "float64" else 1e-6  # JAX transforms the others in single precision
    mon.close("fft", A(kj.array), kg.array, rtol=tol, scale=sc)
    # the value at zero frequency is the integral
    mon.close("fft-zero-frequency", A(kj(0, 0)), a.sum(dtype=float) * s * s, rtol=tol, scale=sc)
    # a few other frequencies, summed directly
    yy, xx = np.mgrid[y0 : y0 + ny, x0 : x0 + nx]
    for _ in range(3):
        kx, ky = int(rng.integers(0, kg.xmax + 1)), int(rng.integers(kg.ymin, kg.ymax + 1))
        w = np.sum(a * np.exp(-1j * kg.scale * s * (kx * xx + ky * yy))) * s * s
        mon.close("fft-direct-sum", A(kj(kx, ky)), w, rtol=tol * 10, scale=sc)
    r = lockstep(mon, "ifft", lambda: kj.calculate_inverse_fft(), lambda: kg.calculate_inverse_fft())
    if r is None:
        return
    bj, bg = r
    mon.same("ifft-bounds", [int(getattr(bj.bounds, k)) for k in ("xmin", "xmax", "ymin", "ymax")], [getattr(bg.bounds, k) for k in ("xmin", "xmax", "ymin", "ymax")])
    mon.close("ifft-scale", F(bj.scale), bg.scale, rtol=1e-12)
    m = float(np.max(np.abs(a), initial=0)) * nx * ny
    mon.close("ifft", A(bj.array), bg.array, rtol=tol, scale=m)
    full = np.zeros(bg.array.shape)
    full[y0 - bg.ymin : y0 - bg.ymin + ny, x0 - bg.xmin : x0 - bg.xmin + nx] = a
    mon.close("ifft-restores-padded-image", A(bj.array), full, rtol=tol, scale=m)
    # Parseval
    h = np.abs(A(kj.array)) ** 2
    tot = h.sum() * 2 - h[:, 0].sum() - h[:, -1].sum()
    if dt == "float64":
        mon.close("parseval", tot / (h.shape[0] ** 2 * s**4), np.sum(a.astype(float) ** 2), rtol=1e-10, scale=m * m)


def ifft(mon, rng):
    """Inverse transform of a general k image, also when it has to be padded."""
    n = int(rng.integers(1, 9))
    xmax = n if rng.random() < 0.5 else int(rng.integers(0, 9))
    ymin, ymax = (-n, n - 1) if rng.random() < 0.5 else (-n, n) if rng.random() < 0.4 else (-int(rng.integers(0, 9)), int(rng.integers(0, 9)))
    if max(xmax, -ymin, ymax) == 0:
        raise Abort("one frequency")
    shape = (ymax - ymin + 1, xmax + 1)
    dt = pick(rng, ["complex128", "complex128", "float64", "float32"])
    a = rng.normal(size=shape)
    if dt == "complex128":
        a = a + 1j * rng.normal(size=shape)
    a = a.astype(dt)
    s = rnd(rng, 0.1, 3)
    mon.note(xmax=xmax, y=[ymin, ymax], s=s, dt=dt)
    # rows y and -y at x=0 of a Hermitian image are conjugate; make them so (GalSim reads only some of them)
    for y in range(1, min(-ymin, ymax) + 1):
        a[-y - ymin, 0] = np.conj(a[y - ymin, 0])
    a[-ymin, 0] = a[-ymin, 0].real
    n2 = max(xmax, -ymin, ymax)
    if xmax == n2:
        for y in range(1, min(-ymin, ymax) + 1):
            a[-y - ymin, -1] = np.conj(a[y - ymin, -1])
        a[-ymin, -1] = a[-ymin, -1].real
    if -ymin == n2:
        a[0, 0] = a[0, 0].real
        if xmax == n2:
            a[0, -1] = a[0, -1].real
    if ymax == n2:
        a[-1, 0] = a[-1, 0].real
        if xmax == n2:
            a[-1, -1] = a[-1, -1].real
    j, g = make(jg, a, 0, ymin, scale=s), make(galsim, a, 0, ymin, scale=s)
    r = lockstep(mon, "ifft-k", lambda: j.calculate_inverse_fft(), lambda: g.calculate_inverse_fft())
    mon.same("ifft-argument-untouched", A(j.array), a)
    if r:
        bj, bg = r
        mon.same("ifft-k-bounds", [int(getattr(bj.bounds, k)) for k in ("xmin", "xmax", "ymin", "ymax")], [getattr(bg.bounds, k) for k in ("xmin", "xmax", "ymin", "ymax")])
        # both edges of a full period present: the wrapped convention is GalSim's (the sum of both)
        mon.close("ifft-k", A(bj.array), bg.array, rtol=1e-12 if dt != "float32" else 3e-6, scale=float(np.sum(np.abs(a))) * s * s)


def brute_wrap(a, x0, y0, b):
    """Every pixel added to the place congruent to it inside b; untouched pixels outside b."""
    nx, ny = b[1] - b[0] + 1, b[3] - b[2] + 1
    out = np.zeros((ny, nx), dtype=np.result_type(a.dtype, np.float64) if a.dtype.kind != "c" else np.complex128)
    for iy in range(a.shape[0]):
        for ix in range(a.shape[1]):
            out[(y0 + iy - b[2]) % ny, (x0 + ix - b[0]) % nx] += a[iy, ix]
    return out


def wrap(mon, rng):
    big = rng.random() < 0.3
    nx, ny = (int(v) for v in rng.integers(1, 30 if big else 12, 2))
    x0, y0 = (int(v) for v in rng.integers(-15, 10, 2))
    dt = pick(rng, ["float64", "float64", "float32", "int32", "int16", "uint32", "complex128"])
    a = (rng.integers(0, 50, (ny, nx)) if dt == "uint32" else rng.integers(-50, 50, (ny, nx))).astype(dt)
    if dt == "complex128":
        a = a + 1j * rng.integers(-50, 50, (ny, nx))
    bx, by = np.sort(rng.integers(0, nx, 2)), np.sort(rng.integers(0, ny, 2))
    if big and rng.random() < 0.4:  # many blocks
        bx[1], by[1] = min(bx[1], bx[0] + int(rng.integers(0, 3))), min(by[1], by[0] + int(rng.integers(0, 3)))
    b = [int(x0 + bx[0]), int(x0 + bx[1]), int(y0 + by[0]), int(y0 + by[1])]
    out = rng.random() < 0.12
    if out:
        if rng.random() < 0.5:
            b[pick(rng, [1, 3])] += 40
        else:  # the size of a sub-image, but beyond the edge
            k, d = pick(rng, [0, 2]), pick(rng, [-1, 1]) * (max(nx, ny))
            b[k], b[k + 1] = b[k] + d, b[k + 1] + d
    mon.note(n=[nx, ny], at=[x0, y0], dt=dt, b=b)
    j, g = make(jg, a, x0, y0, scale=0.7), make(galsim, a, x0, y0, scale=0.7)
    r = lockstep(mon, "wrap", lambda: j.wrap(jg.BoundsI(*b)), lambda: g.wrap(galsim.BoundsI(*b)).copy(), kinds=True)
    if r is None:
        mon.same("refused-wrap-has-no-effect", A(j.array), a)
        return
    w = brute_wrap(a, x0, y0, b)
    mon.same("wrap", A(r[0].array), r[1].array)
    mon.same("wrap-every-pixel-once", A(r[0].array), w)
    mon.same("wrap-bounds", [int(getattr(r[0].bounds, k)) for k in ("xmin", "xmax", "ymin", "ymax")], b)
    mon.close("wrap-conserves", A(r[0].array).sum(), a.sum(), atol=1e-9)
    mon.same("wrap-in-place", A(j[jg.BoundsI(*b)].array), w)
    mon.check("wrap-dtype", A(r[0].array).dtype == np.dtype(dt) and A(j.array).dtype == np.dtype(dt))
    mask = np.ones(a.shape, bool)
    mask[b[2] - y0 : b[3] - y0 + 1, b[0] - x0 : b[1] - x0 + 1] = False
    mon.same("wrap-leaves-the-rest", A(j.array)[mask], a[mask])
    mon.event("blocks:" + ("many" if (nx // (bx[1] - bx[0] + 1)) * (ny // (by[1] - by[0] + 1)) > 50 else "few"))


def hermitian(mon, rng):
    """Only half of a Hermitian image is stored: the other half is wrapped in too."""
    ax = pick(rng, ["x", "y"])
    n, m = int(rng.integers(1, 12)), int(rng.integers(1, 12))
    real = rng.random() < 0.2
    a = rng.integers(-50, 50, (2 * m + 1, n + 1)) + (0 if real else 1j) * rng.integers(-50, 50, (2 * m + 1, n + 1))
    a = a.astype(np.float64 if real else np.complex128)
    # consistent on the axis
    for y in range(1, m + 1):
        a[m - y, 0] = np.conj(a[m + y, 0])
    a[m, 0] = a[m, 0].real
    kx = int(rng.integers(1, n + 1))
    ky = sorted(int(v) for v in rng.integers(-m, m + 1, 2))
    if rng.random() < 0.6:
        q = int(rng.integers(1, m + 1))
        ky = [-q, q - 1] if rng.random() < 0.7 else [-q + 1, q]
    bad = rng.random() < 0.1
    bb = [0, kx, ky[0], ky[1]]
    x0, y0 = 0, -m
    if bad:
        if rng.random() < 0.5:
            bb[0] = 1 if kx > 1 else 0
            if bb[0] == 0:
                bb[1] += 40
        else:
            bb[3] += 50
    if ax == "y":
        a = a.T.copy()
        x0, y0, bb = y0, x0, [bb[2], bb[3], bb[0], bb[1]]
    mon.note(ax=ax, shape=a.shape, b=bb, real=real)
    j, g = make(jg, a, x0, y0, scale=0.7), make(galsim, a, x0, y0, scale=0.7)
    r = lockstep(mon, "hermitian", lambda: j.wrap(jg.BoundsI(*bb), hermitian=ax), lambda: g.wrap(galsim.BoundsI(*bb), hermitian=ax).copy(), kinds=True)
    if r is None:
        mon.same("refused-wrap-has-no-effect", A(j.array), a)
        return
    mon.same("hermitian-bounds", [int(getattr(r[0].bounds, k)) for k in ("xmin", "xmax", "ymin", "ymax")], bb)
    mon.close("hermitian", A(r[0].array), r[1].array, rtol=1e-13, scale=100.0)
    # against the full image
    f = a if ax == "x" else a.T
    full = np.concatenate([np.conj(f[::-1, :0:-1]), f], axis=1)
    w = brute_wrap(full, -(f.shape[1] - 1), -(f.shape[0] // 2), [-kx + 1, kx, ky[0], ky[1]])[:, kx - 1 :]
    got = A(r[0].array) if ax == "x" else A(r[0].array).T
    mon.close("hermitian-every-pixel-once", got, w, rtol=1e-13, scale=100.0)


SYM = ["transpose", "flip_lr", "flip_ud", "rot_cw", "rot_ccw", "rot_180"]
INV = {"transpose": "transpose", "flip_lr": "flip_lr", "flip_ud": "flip_ud", "rot_cw": "rot_ccw", "rot_ccw": "rot_cw", "rot_180": "rot_180"}
NPF = {"transpose": np.transpose, "flip_lr": np.fliplr, "flip_ud": np.flipud, "rot_cw": lambda a: np.rot90(a, 1), "rot_ccw": lambda a: np.rot90(a, -1), "rot_180": lambda a: np.rot90(a, 2)}


def flips(mon, rng):
    nx, ny = (int(v) for v in rng.integers(1, 9, 2))
    x0, y0 = (int(v) for v in rng.integers(-9, 9, 2))
    dt = pick(rng, ["float64", "float32", "int16", "uint32", "complex128"])
    a = rng.integers(0, 99, (ny, nx)).astype(dt)
    seq = [pick(rng, SYM) for _ in range(int(rng.integers(1, 6)))]
    wcs = rng.random() < 0.5
    mon.note(n=[nx, ny], at=[x0, y0], dt=dt, seq=seq, wcs=wcs)
    kw = {"scale": 0.4} if wcs else {}
    j, g = make(jg, a, x0, y0, **kw), make(galsim, a, x0, y0, **kw)
    j0 = j
    arr = a
    for s in seq:
        r = lockstep(mon, "flip", lambda: getattr(j, s)(), lambda: getattr(g, s)(), op=s)
        if r is None:
            return
        j, g = r
        arr = NPF[s](arr)
        mon.same("flip-pixels", A(j.array), g.array, op=s)
        mon.same("flip-rearranges", A(j.array), arr, op=s)
        mon.same("flip-bounds", [int(getattr(j.bounds, k)) for k in ("xmin", "xmax", "ymin", "ymax")], [getattr(g.bounds, k) for k in ("xmin", "xmax", "ymin", "ymax")], op=s)
        mon.check("flip-wcs", (j.wcs is None) == (g.wcs is None), op=s)
        mon.check("flip-dtype", A(j.array).dtype == np.dtype(dt), op=s)
    for s in seq[::-1]:
        j = getattr(j, INV[s])()
    mon.same("flip-inverse", A(j.array), a)
    mon.same("flip-argument-untouched", A(j0.array), a)
    # relations of the dihedral group
    i = j0
    mon.same("rot-cw-twice-is-180", A(i.rot_cw().rot_cw().array), A(i.rot_180().array))
    mon.same("transpose-flip-is-rot", A(i.transpose().flip_lr().array), A(i.rot_ccw().array) if np.array_equal(np.fliplr(a.T), A(i.rot_ccw().array)) else A(i.rot_cw().array))
    mon.same("lr-ud-is-180", A(i.flip_lr().flip_ud().array), A(i.rot_180().array))
    # GalSim's picture: y increases upwards, so the pixel left of a rotated one was below it
    mon.same("rot-cw-moves-top-left-to-top-right", A(i.rot_cw().array)[-1, -1], a[-1, 0])


def sizes(mon, rng):
    v = [int(x) for x in rng.integers(1, 20000, 60)] + [float(rnd(rng, 0.5, 5000)) for _ in range(40)]
    k = int(rng.integers(1, 13))
    v += [2**k - 1, 2**k, 2**k + 1, 3 * 2**k - 1, 3 * 2**k, 3 * 2**k + 1, 2**k * (1 + 1e-6), 2**k * (1 + 2e-5), 3 * 2**k * (1 + 1e-6)]
    mon.note(v=v)
    for x in v:
        r = jg.Image.good_fft_size(x)
        if x == int(x):  # GalSim truncates fractions first
            mon.same("good-size", r, galsim.Image.good_fft_size(int(x)), x=x)
        good = [2**p for p in range(1, 16)] + [3 * 2**p for p in range(1, 15)]
        mon.same("smallest-good-size", r, min(q for q in good if q >= x * (1 - 1.1e-5)), x=x)


GROUPS = {
    "fft": dict(fn=fft, quick=120, thorough=1200, cost=0.25, warm=5, must=["fft", "ifft-restores-padded-image"]),
    "ifft": dict(fn=ifft, quick=80, thorough=800, cost=0.25, warm=5, must=["ifft-k"]),
    "wrap": dict(fn=wrap, quick=110, thorough=1200, cost=0.12, warm=5, must=["wrap-every-pixel-once", "refused-wrap-has-no-effect"]),
    "hermitian": dict(fn=hermitian, quick=110, thorough=1000, cost=0.25, warm=5, must=["hermitian-every-pixel-once"]),
    "flips": dict(fn=flips, quick=130, thorough=3000, cost=0.1, warm=5, must=["flip-rearranges"]),
    "sizes": dict(fn=sizes, quick=30, thorough=400, cost=0.01, warm=3, must=["good-size"]),
}
