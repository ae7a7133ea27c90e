"""C21: special functions, interpolation, quadrature, root finding, polynomial and moment helpers."""

import warnings

from scipy import special
from scipy.interpolate import Akima1DInterpolator

from jgmon.common import *

RULE = "A case is one function with generated orders, arguments, nodes, coefficients, integrands, ranges or tolerances (arguments cluster around the switch points of the implementations)."
ASSUMPTIONS = [
    "scipy and GalSim are the references for the special functions; closed-form antiderivatives for the integrals",
    "adaptive quadrature is judged on integrands whose features its first panel of nodes can see",
    "Akima splines have at least five nodes; their end conditions are those of the cited definition, judged by the mirror symmetry of that definition",
]


def rel(a, b, floor):
    return np.abs(a - b) / np.maximum(np.abs(b), floor)


def kv(mon, rng):
    """K_nu(x): reference values, recurrence, parity in nu, Wronskian-free closed forms."""
    r = rng.random()
    if mon.index % 12 == 0:
        nu = 0.5
    elif r < 0.2:
        nu = float(rng.integers(0, 60))
    elif r < 0.4:
        nu = float(rng.integers(0, 60)) + 0.5
    elif r < 0.55:
        nu = float(rng.integers(0, 8)) + pick(rng, [1e-12, -1e-12, 1e-7, -1e-7, 0.5 - 1e-9, 0.5 + 1e-9, 1e-3])
    elif r < 0.7:
        nu = pick(rng, [50.0, 49.999999, 50.000001, 49.5, 50.5, 60.3, 80.0, 100.0])
    else:
        nu = rnd(rng, 0, 12)
    if rng.random() < 0.3:
        nu = -nu
    x = np.concatenate([np.exp(rng.uniform(np.log(1e-8), np.log(700), 18)), 2 + rng.normal(size=4) * 10.0 ** rng.integers(-12, 0, 4), [2.0, 1.0, 30.0]])
    x = np.abs(x)
    shape = pick(rng, ["1d", "scalar", "2d"])
    mon.note(nu=nu, x=x[:6], shape=shape)
    if shape == "scalar":
        got = np.array([F(jg.bessel.kv(nu, float(v))) for v in x])
    elif shape == "2d":
        got = A(jg.bessel.kv(jnp.full((5, 5), nu), jnp.asarray(x.reshape(5, 5)))).ravel()
    else:
        got = A(jg.bessel.kv(nu, jnp.asarray(x)))
    want = special.kv(nu, x)
    ok = np.isfinite(want) & (want < 1e300) & (want > 1e-290)
    tol = 1e-10 if abs(nu) < 50 else 1e-9
    mon.close("kv-reference", got[ok], want[ok], rtol=tol, nu=nu, x=x[ok])
    if abs(nu) < 40:
        for v, q in zip(x[ok][:4], got[ok][:4]):
            mon.close("kv-galsim", q, galsim.bessel.kv(nu, float(v)), rtol=1e-9)
    mon.same("kv-even-in-order", A(jg.bessel.kv(-nu, jnp.asarray(x)))[ok], A(jg.bessel.kv(nu, jnp.asarray(x)))[ok])
    up, dn = A(jg.bessel.kv(nu + 1.0, jnp.asarray(x))), A(jg.bessel.kv(nu - 1.0, jnp.asarray(x)))
    o3 = ok & np.isfinite(up) & np.isfinite(dn) & (np.abs(up) < 1e300)
    # K_{nu+1} = K_{nu-1} + 2 nu / x K_nu
    sc = np.abs(up) + np.abs(dn) + np.abs(2 * nu / x * got)
    res = (up - dn - 2 * nu / x * got)[o3] / sc[o3]
    mon.close("kv-recurrence", res, 0 * res, atol=1e-9, x=x[o3], nu=nu)
    if abs(nu) == 0.5:
        c = np.sqrt(np.pi / (2 * x)) * np.exp(-x)
        mon.close("kv-half-closed-form", got[c > 1e-290], c[c > 1e-290], rtol=1e-11)
    o4 = ok.copy()
    srt = np.argsort(x[o4])
    d = np.diff(got[o4][srt])
    mon.check("kv-decreasing", np.all(d <= 1e-9 * np.abs(got[o4][srt][:-1])), nu=nu)
    mon.check("kv-at-zero", np.isinf(F(jg.bessel.kv(nu, 0.0))))


def bands(rng, n):
    """Arguments of every size, many of them around the branch points."""
    big = np.exp(rng.uniform(np.log(1e-12), np.log(1e6), n))
    near = rng.choice([2.4048255576957727, 5.5200781102863106, 4.0, 8.0, 16.0, 8.653727912911013, 11.791534439014281], n) + rng.normal(size=n) * 10.0 ** rng.integers(-14, 0, n)
    return np.concatenate([big, near, [4.0, np.nextafter(4, 5), 8.0, np.nextafter(8, 9), 1e-300, 1e-160, 1e8]])


def j0si(mon, rng):
    x = bands(rng, 24)
    sgn = pick(rng, [1.0, -1.0])
    mon.note(x=x[:6], sgn=sgn)
    got = A(jg.bessel.j0(jnp.asarray(sgn * x)))
    want = special.j0(x)
    # absolute accuracy of the phase at large x, relative accuracy near the zeros at small x
    tol = 4e-15 + 3e-16 * np.sqrt(x) + np.where(x > 8, 3e-16 * np.sqrt(x), 0)
    mon.close("j0-reference", (got - want) / tol, np.zeros(len(x)), atol=20, x=x)
    near = (np.abs(x - 2.404825557695773) < 1e-3) | (np.abs(x - 5.520078110286311) < 1e-3)
    if near.any():
        mon.close("j0-near-zeros", got[near], want[near], rtol=1e-8, atol=1e-15)
    mon.same("j0-at-zero", F(jg.bessel.j0(0.0)), 1.0)
    mon.close("j0-shape", A(jg.bessel.j0(jnp.asarray((sgn * x)[:6].reshape(2, 3)))).ravel(), got[:6], rtol=1e-14, atol=1e-16)
    mon.close("j0-scalar", F(jg.bessel.j0(float(sgn * x[0]))), got[0], rtol=1e-14, atol=1e-16)
    mon.close("j0-galsim", got[0], galsim.bessel.j0(float(x[0])), atol=20 * tol[0])
    s = A(jg.bessel.si(jnp.asarray(sgn * x)))
    want = sgn * special.sici(x)[0]
    mon.close("si-reference", s, want, rtol=1e-13, atol=1e-15, x=x)
    mon.close("si-scalar", F(jg.bessel.si(float(sgn * x[1]))), s[1], rtol=1e-14)
    mon.close("si-galsim", s[1], galsim.bessel.si(float(sgn * x[1])), rtol=1e-13)
    mon.same("si-at-zero", F(jg.bessel.si(0.0)), 0.0)
    mon.same("si-odd", A(jg.bessel.si(jnp.asarray(-sgn * x))), -s)
    # derivative: Si'(x) = sin(x)/x, by Simpson over a short step
    x0 = x[(x > 1e-3) & (x < 1e5)]
    h = 1e-3 * np.minimum(1, x0)
    f = lambda t: np.sin(t) / t
    inc = h / 6 * (f(x0) + 4 * f(x0 + h / 2) + f(x0 + h))
    mon.close("si-derivative", A(jg.bessel.si(jnp.asarray(x0 + h))) - A(jg.bessel.si(jnp.asarray(x0))), inc, atol=2e-15, rtol=1e-9)


def akima(mon, rng):
    from jax_galsim.core.interpolate import akima_interp, akima_interp_coeffs

    n = int(rng.choice([5, 6, 7, 9, 16]))
    uni = rng.random() < 0.5
    off, sc = rnd(rng, -20, 20), rnd(rng, 0.05, 20, log=True)
    x = off + sc * (np.arange(n) if uni else np.cumsum(rng.uniform(0.2, 2, n)))
    kind = pick(rng, ["random", "smooth", "line", "steps", "flat"])
    amp = rnd(rng, 0.01, 1e3, log=True)
    y = amp * {
        "random": lambda: rng.normal(size=n),
        "smooth": lambda: np.sin((x - off) / sc) + 0.1 * (x - off) / sc,
        "line": lambda: 0.3 + 1.7 * (x - off) / sc,
        "steps": lambda: np.repeat(rng.normal(size=n), 2)[:n],
        "flat": lambda: np.full(n, 1.5),
    }[kind]()
    fixed = uni and rng.random() < 0.6
    host = rng.random() < 0.4
    mon.note(n=n, x=x, y=y, kind=kind, fixed=fixed, host=host)
    co = akima_interp_coeffs(x if host else jnp.asarray(x), y if host else jnp.asarray(y), use_jax=not host)
    ev = lambda t, co=co: A(akima_interp(jnp.asarray(t), x, y, co, fixed_spacing=fixed))
    S = np.abs(y).max()
    mon.close("akima-nodes", ev(x[:-1]), y[:-1], rtol=1e-12, atol=1e-13 * S)
    # the last node may fall a rounding error outside
    mon.close("akima-last-node", ev(x[-1] * (1 - 1e-15 * np.sign(x[-1]))), y[-1], rtol=1e-9, atol=1e-10 * S)
    t = np.sort(np.concatenate([rng.uniform(x[0], x[-1], 12), x[1:-1] + 1e-13 * sc]))
    v = ev(t)
    if n >= 6:
        inner = (t > x[2]) & (t < x[-3])
        if inner.any():
            mon.close("akima-reference", v[inner], Akima1DInterpolator(x, y)(t[inner]), rtol=1e-8, atol=1e-9 * S)
    # mirror symmetry of the definition, offset and scale equivariance, continuity of the slope
    xr, yr = -x[::-1], y[::-1]
    cr = akima_interp_coeffs(jnp.asarray(xr), jnp.asarray(yr))
    mon.close("akima-mirror", A(akima_interp(jnp.asarray(-t), xr, yr, cr)), v, rtol=1e-8, atol=1e-9 * S)
    cs = akima_interp_coeffs(jnp.asarray(x), jnp.asarray(2.5 * y + 3))
    mon.close("akima-equivariant", A(akima_interp(jnp.asarray(t), x, y, cs)), 2.5 * v + 3, rtol=1e-8, atol=1e-9 * (S + 3))
    e = 1e-6 * sc
    xi = x[1:-1]
    l, m, r = ev(xi - e), ev(xi), ev(xi + e)
    slope = np.abs(np.diff(y) / np.diff(x)).max() + S / (x[-1] - x[0])
    mon.close("akima-slope-continuous", (m - l) / e, (r - m) / e, atol=1e-4 * slope)
    # end slopes: those of the cited definition
    b0, b1 = (ev(x[0] + e) - y[0]) / e, (y[-1] - ev(x[-1] - e)) / e
    mon.close("akima-end-slopes", [b0, b1], [(y[1] - y[0]) / (x[1] - x[0]), (y[-1] - y[-2]) / (x[-1] - x[-2])], atol=1e-4 * slope)
    if kind in ("line", "flat"):
        mon.close("akima-exact-on-lines", v, np.interp(t, x, y), rtol=1e-9, atol=1e-10 * S)
    mon.same("akima-outside", ev([x[0] - 0.01 * sc, x[-1] + 0.01 * sc, x[0] - 1e5, x[-1] + 1e5]), np.zeros(4))
    mon.close("akima-jit-coeffs", [A(c) for c in akima_interp_coeffs(x, y, use_jax=False)], [A(c) for c in akima_interp_coeffs(jnp.asarray(x), jnp.asarray(y))], rtol=1e-9, atol=1e-9 * S * (1 + 1 / sc**3))


# integrands with parameters, and their antiderivatives
INTEGRANDS = {
    "gauss": (lambda x, a, b, c, m=jnp: m.exp(-0.5 * ((x - a) / b) ** 2), lambda x, a, b, c: b * np.sqrt(np.pi / 2) * special.erf((x - a) / b / np.sqrt(2))),
    "cos": (lambda x, a, b, c, m=jnp: m.cos(b * x + a) + c, lambda x, a, b, c: np.sin(b * x + a) / b + c * x),
    "poly": (lambda x, a, b, c, m=jnp: 3 * a * x**2 + 4 * b * x**3 + c, lambda x, a, b, c: a * x**3 + b * x**4 + c * x),
    "exp": (lambda x, a, b, c, m=jnp: m.exp(-x / b), lambda x, a, b, c: -b * np.exp(-x / b)),
    "lorentz": (lambda x, a, b, c, m=jnp: 1 / (1 + ((x - a) / b) ** 2), lambda x, a, b, c: b * np.arctan((x - a) / b)),
    "sqrt": (lambda x, a, b, c, m=jnp: m.sqrt(m.abs(x)), lambda x, a, b, c: np.sign(x) * 2 / 3 * np.abs(x) ** 1.5),
    "abs": (lambda x, a, b, c, m=jnp: m.abs(x - a) + c, lambda x, a, b, c: 0.5 * (x - a) * np.abs(x - a) + c * x),
}
KINDS = sorted(INTEGRANDS)


@jax.jit
def _compiled(kind, par, lo, hi, rel, ab):
    """One compiled integration for every integrand, range and tolerance."""
    f = lambda x: jax.lax.switch(kind, [lambda x, n=n: INTEGRANDS[n][0](x, *par) for n in KINDS], x)
    return jg.integ.int1d(f, lo, hi, rel_err=rel, abs_err=ab)


def compiled(k):
    return lambda par, lo, hi, rel, ab: _compiled(KINDS.index(k), par, jnp.asarray(float(lo)), jnp.asarray(float(hi)), rel, ab)


def int1d(mon, rng):
    k = KINDS[mon.index % 7]
    par = (rnd(rng, -2, 2), rnd(rng, 0.3, 3), rnd(rng, -3, 3))
    f, G = INTEGRANDS[k]
    form = pick(rng, ["finite", "finite", "upper", "lower", "both", "reversed", "mock"])
    if form in ("upper", "both", "lower", "mock") and k not in ("gauss", "lorentz", "exp"):
        form = "finite"
    if k == "exp" and form in ("lower", "both"):
        form = "upper"
    if mon.index < 7:
        form = "finite"
    lo, hi = rnd(rng, -5, 2), rnd(rng, 2, 9)
    inf = np.inf if form != "mock" else 2e10
    if form == "upper" or form == "mock":
        hi = inf
    elif form == "lower":
        lo, hi = -inf, lo
    elif form == "both":
        lo, hi = -inf, inf
    elif form == "reversed":
        lo, hi = hi, lo
    tol = pick(rng, [(1e-6, 1e-12), (1e-4, 1e-9), (1e-9, 1e-12), (1e-3, 1e-3)])
    mon.note(k=k, par=par, form=form, lo=lo, hi=hi, tol=tol)
    run = lambda p, q: F(compiled(k)(par, p, q, *tol))
    r = attempt(lambda: run(lo, hi))
    if isinstance(r, Raised):
        mon.event("int1d-reported-failure")
        # smooth integrands over finite ranges are within reach
        mon.check("int1d-converges", not (form in ("finite", "reversed") and k in ("gauss", "cos", "poly", "exp")), err=str(r.e)[:200])
        return
    with np.errstate(all="ignore"):
        ends = [G(t if np.isfinite(t) and abs(t) < 1e9 else np.sign(t) * 1e300, *par) for t in (hi, lo)]
    want = float(ends[0] - ends[1])
    mon.close("int1d-value", r, want, rtol=3 * tol[0] + 1e-13, atol=3 * tol[1] + 1e-12)
    if mon.index in (3, 14):  # outside of any compiled function, with concrete parameters
        mon.close("int1d-eager", F(jg.integ.int1d(lambda x: f(x, *par), lo, hi, rel_err=tol[0], abs_err=tol[1])), r, rtol=1e-9, atol=1e-12)
    if form in ("finite", "reversed"):
        mon.close("int1d-antisymmetric", run(hi, lo), -r, rtol=6 * tol[0], atol=6 * tol[1] + 1e-12)
        mid = 0.5 * (lo + hi)
        s = run(lo, mid) + run(mid, hi)
        mon.close("int1d-additive", s, r, atol=6 * tol[1] + 1e-12 + 6 * tol[0] * (abs(want) + 1000))
    if form == "finite" and k in ("cos", "gauss", "poly"):
        g = galsim.integ.int1d(lambda x: f(x, *par, m=np), lo, hi, rel_err=tol[0], abs_err=tol[1])
        mon.close("int1d-galsim", r, g, rtol=6 * tol[0], atol=6 * tol[1] + 1e-12)


def int1d_wide(mon, rng):
    """Finite ranges that reach far out, with integrands as wide as the range."""
    L = [2e3, 2e4, 9e3, 3e5, 1e7][mon.index % 5]
    s = rnd(rng, 0.3, 2) * L
    lo = pick(rng, [0.0, -L, 0.5 * L])
    mon.note(L=L, s=s, lo=lo)
    want = s * np.sqrt(np.pi / 2) * (special.erf(L / s / np.sqrt(2)) - special.erf(lo / s / np.sqrt(2)))
    r = attempt(lambda: F(compiled("gauss")((0.0, s, 0.0), lo, L, 1e-6, 1e-12)))
    if isinstance(r, Raised):
        mon.event("int1d-reported-failure")
        mon.check("int1d-wide", True)
        return
    mon.close("int1d-wide", r, want, rtol=1e-5, mech="int1d-finite-limit-beyond-1e4" if L > 1e4 else None)


def fails(mon, rng):
    """What cannot be integrated is reported, not returned."""
    w = mon.index % 2
    mon.note(w=w)
    f, lo, hi = [(lambda x: 1 / jnp.abs(x), 0.0, 1.0), (lambda x: jnp.cos(x * 1e5) * 1e3 * jnp.sign(jnp.sin(3e4 * x)), 0.0, 7.0)][w]
    r = attempt(lambda: F(jg.integ.int1d(f, lo, hi)))
    mon.check("int1d-failure-reported", isinstance(r, Raised) or (not np.isfinite(r) and w < 1), got=None if isinstance(r, Raised) else r)


def clenshaw(mon, rng):
    """The fixed quadrature rule is exact on polynomials up to its order."""
    from jax_galsim.core.integrate import ClenshawCurtisQuad, quad_integral

    n = int(rng.choice([2, 3, 5, 8, 20]))
    q = ClenshawCurtisQuad.init(n)
    deg = int(rng.integers(0, 2 * n))
    a = rnd(rng, -2, 1)
    b = a + rnd(rng, 0.2, 3)
    c = np.round(rng.normal(size=deg + 1), 3)
    mon.note(n=n, deg=deg, a=a, b=b)
    f = lambda x: jnp.polyval(jnp.asarray(c), x)
    C = np.polyint(c)
    sc = np.abs(c).sum() * max(1, abs(a), abs(b)) ** (deg + 1)
    mon.close("clenshaw-polynomial", F(quad_integral(f, a, b, q)), np.polyval(C, b) - np.polyval(C, a), rtol=1e-11, atol=1e-12 * sc)
    # vectorised over ranges
    aa, bb = np.array([a, a - 1.0, b]), np.array([b, b + 1.0, b + 0.5])
    got = A(quad_integral(f, jnp.asarray(aa), jnp.asarray(bb), q))
    mon.close("clenshaw-ranges", got, np.polyval(C, bb) - np.polyval(C, aa), rtol=1e-10, atol=1e-11 * sc * 3 ** (deg + 1))
    mon.close("clenshaw-weights", F(jnp.sum(q.absw)), 1.0, rtol=1e-12)
    mon.check("clenshaw-nodes", len(A(q.absc)) == 2 * n + 1 and A(q.absc).min() >= -1e-15 and A(q.absc).max() <= 1 + 1e-15)


def bisect(mon, rng):
    from jax.tree_util import Partial

    from jax_galsim.core.utils import bisect_for_root

    kind = mon.index % 6
    s = pick(rng, [1.0, -1.0])
    lo = rnd(rng, -5, 0)
    hi = rnd(rng, 0.5, 6)
    r = rnd(rng, lo + 0.05, hi - 0.05)
    if kind == 4:
        lo, hi = -2.0, 6.0
        r = pick(rng, [2.0, 0.0, 4.0, 1.0, -1.0, 3.0, 5.0, 0.5])  # met exactly by a midpoint
    if kind == 5:
        r = pick(rng, [lo, hi])
    f = [lambda x, r: x - r, lambda x, r: jnp.exp(x) - jnp.exp(r), lambda x, r: (x - r) ** 3, lambda x, r: jnp.arctan(50 * (x - r)), lambda x, r: (x - r) * (1 + x * x), lambda x, r: jnp.sinh(x - r)][kind]
    mon.note(kind=kind, lo=lo, hi=hi, r=r, s=s)
    g = Partial(lambda r, s, x: s * f(x, r), r, s)
    got = F(bisect_for_root(g, lo, hi))
    mon.close("bisection-root", got, r, rtol=1e-12, atol=1e-12 if kind != 2 else 1e-5)
    mon.check("bisection-bracketed", lo <= got <= hi)
    got2 = F(bisect_for_root(g, lo, hi, niter=12))
    mon.close("bisection-steps", got2, r, atol=(hi - lo) / 2**11)


def polys(mon, rng):
    n = int(rng.integers(1, 7))
    shape = pick(rng, [(4,), (2, 3), ()])
    x, y = np.round(rng.normal(size=shape), 3), np.round(rng.normal(size=shape), 3)
    c = np.round(rng.normal(size=n), 3)
    if rng.random() < 0.25:
        c[-1] = 0.0
    if rng.random() < 0.1:
        c[:] = 0.0
    if shape == ():
        want = np.polynomial.polynomial.polyval(x, c)
    else:
        want = galsim.utilities.horner(x, c)
    mon.note(n=n, shape=shape, c=c)
    mon.close("horner", A(jg.utilities.horner(x, c)), want, rtol=1e-12, atol=1e-13)
    ci = rng.integers(-3, 4, n)
    mon.close("horner-integer-coefficients", A(jg.utilities.horner(x, ci)), np.polynomial.polynomial.polyval(x, ci), rtol=1e-12, atol=1e-13)
    if shape != ():
        m = int(rng.integers(1, 6))
        C = np.round(rng.normal(size=(n, m)), 3)
        mon.close("horner2d", A(jg.utilities.horner2d(x, y, C)), galsim.utilities.horner2d(x, y, C), rtol=1e-11, atol=1e-12)
        T = np.round(rng.normal(size=(n, n)), 3)
        T = np.where(np.add.outer(np.arange(n), np.arange(n)) < n, T, 0)
        mon.close("horner2d-triangle", A(jg.utilities.horner2d(x, y, T, triangle=True)), galsim.utilities.horner2d(x, y, T, triangle=True), rtol=1e-11, atol=1e-12)
        mon.close("horner2d-triangle-full", A(jg.utilities.horner2d(x, y, T, triangle=False)), galsim.utilities.horner2d(x, y, T, triangle=True), rtol=1e-11, atol=1e-12)
        for tx, ty, tc in [rng.choice(["int64", "float64", "float32", "complex128"], 3) for _ in range(2)]:
            xx, yy, cc = (np.rint(3 * v).astype(t) if t == "int64" else v.astype(t) for v, t in ((x, tx), (y, ty), (C, tc)))
            want = (xx[..., None] ** np.arange(n)).astype(complex)
            want = sum(want[..., i] * cc[i, k] * yy.astype(complex) ** k for i in range(n) for k in range(m))
            got = A(jg.utilities.horner2d(xx, yy, cc))
            mon.check("horner2d-kind", np.iscomplexobj(got) == ("complex128" in (tx, ty, tc)), got=str(got.dtype), types=[tx, ty, tc])
            size = max(1.0, max(np.abs(cc[i, k] * xx.astype(complex) ** i * yy.astype(complex) ** k).max() for i in range(n) for k in range(m)))
            r = 1e-4 if "float32" in (tx, ty, tc) else 1e-10
            mon.close("horner2d-types", got, want if np.iscomplexobj(got) else want.real, rtol=r, atol=r * size, types=[tx, ty, tc])
        z = x + 1j * y
        mon.close("horner-complex", A(jg.utilities.horner(z, c, dtype=complex)), galsim.utilities.horner(z, c, dtype=complex), rtol=1e-11, atol=1e-12)
        mon.raises("horner-bad-coefficients", lambda: jg.utilities.horner(x, C))
        mon.raises("horner2d-bad-shapes", lambda: jg.utilities.horner2d(x, y.ravel()[:2], C))
        mon.raises("horner2d-bad-coefficients", lambda: jg.utilities.horner2d(x, y, c))
        if n != m:
            mon.raises("horner2d-bad-triangle", lambda: jg.utilities.horner2d(x, y, C, triangle=True))
    g = rng.uniform(-0.6, 0.6, 2) if rng.random() < 0.9 else np.zeros(2)
    g1, g2 = float(round(g[0], 4)), float(round(g[1], 4))
    mon.close("g-to-e", np.array([F(v) for v in jg.utilities.g1g2_to_e1e2(g1, g2)]), galsim.utilities.g1g2_to_e1e2(g1, g2), rtol=1e-12, atol=1e-15)


def moments(mon, rng):
    """Unweighted moments and shapes of images, against GalSim's."""
    ny, nx = int(rng.integers(1, 8)), int(rng.integers(1, 8))
    dt = pick(rng, ["float64", "float64", "float32", "int32", "int16", "uint16"])
    a = np.round(rng.uniform(0.1, 50, (ny, nx)), 2).astype(dt)
    if dt in ("float64", "int32") and rng.random() < 0.3:
        a = (a * rng.choice([1, -1], a.shape, p=[0.8, 0.2])).astype(dt)
        if abs(a.sum()) < 5:
            a = np.abs(a)
    x0, y0 = int(rng.integers(-20, 20)), int(rng.integers(-20, 20))
    org = [rnd(rng, -5, 5), rnd(rng, -5, 5)] if rng.random() < 0.5 else None
    mon.note(shape=[ny, nx], dtype=dt, at=[x0, y0], origin=org)
    ij, ig = jg.Image(a.copy(), xmin=x0, ymin=y0), galsim.Image(a.copy(), xmin=x0, ymin=y0)
    kw = lambda m: {} if org is None else {"origin": m.PositionD(*org)}
    mj, mg = jg.utilities.unweighted_moments(ij, **kw(jg)), galsim.utilities.unweighted_moments(ig, **kw(galsim))
    mon.check("moments-keys", set(mj) == set(mg))
    t = 1e-11 if dt != "float32" else 1e-5
    for k in mg:
        mon.close("moments", F(mj[k]), mg[k], rtol=t, atol=t * 100 * (np.abs(a).sum() / abs(a.sum())), k=k)
    if nx > 1 or ny > 1:
        for sj, sg in ((jg.utilities.unweighted_shape(ij), galsim.utilities.unweighted_shape(ig)), (jg.utilities.unweighted_shape(mj), galsim.utilities.unweighted_shape(mg))):
            ok = abs(sg["rsqr"]) > 1e-2
            for k in sg:
                if ok:
                    mon.close("shape", F(sj[k]), sg[k], rtol=t * 100, atol=t * 1e3, k=k)


GROUPS = {
    "kv": dict(fn=kv, quick=60, thorough=3000, cost=0.1, warm=8, must=["kv-reference", "kv-recurrence", "kv-half-closed-form"]),
    "j0si": dict(fn=j0si, quick=40, thorough=2000, cost=0.1, warm=5, must=["j0-near-zeros", "si-derivative"]),
    "akima": dict(fn=akima, quick=60, thorough=2500, cost=0.1, warm=8, must=["akima-reference", "akima-end-slopes", "akima-exact-on-lines"]),
    "int1d": dict(fn=int1d, quick=42, thorough=2000, cost=0.3, warm=25, shards=2, must=["int1d-value", "int1d-additive", "int1d-galsim"]),
    "int1d_wide": dict(fn=int1d_wide, quick=8, thorough=200, cost=0.1, warm=5, shards=1, must=["int1d-wide"]),
    "fails": dict(fn=fails, quick=2, thorough=4, cost=1, warm=2),
    "clenshaw": dict(fn=clenshaw, quick=24, thorough=600, cost=0.3, warm=3),
    "bisect": dict(fn=bisect, quick=36, thorough=1200, cost=0.3, warm=2),
    "polys": dict(fn=polys, quick=36, thorough=1500, cost=0.3, warm=4),
    "moments": dict(fn=moments, quick=40, thorough=1500, cost=0.1, warm=4),
}
