"""C17: values drawn from each deviate follow the named distribution and are independent."""

from scipy import stats

from jgmon.common import *  # noqa: F401,F403

RULE = "A case is one deviate with one parameter set and seed, whose draws are reduced to goodness-of-fit and independence statistics."
ASSUMPTIONS = [
    "SciPy's distributions are the reference",
    "each statistic alarms below a p-value of 1e-7 (about one false alarm in a thousand seeds of the quick tier); the default seed is fixed and known quiet",
    "Poisson means above 2**17 are drawn from the Gaussian limit, as the library documents in its code",
]

P = 1e-7
TYPES = ["Uniform", "Gaussian", "Poisson", "Binomial", "Weibull", "Gamma", "Chi2"]


def params(rng, t, i):
    wide = rng.random() < 0.5
    return {
        "Uniform": lambda: {},
        "Gaussian": lambda: {"mean": rnd(rng, -50, 50), "sigma": rnd(rng, 1e-3, 100, log=True)},
        "Poisson": lambda: {"mean": rnd(rng, 0.005, 1e5, log=True) if wide else pick(rng, [0.3, 5.0, 9.9, 10.1, 60.0, 1.3e5, 1.32e5, 3e5, 1e7])},
        "Binomial": lambda: {"N": pick(rng, [1, 2, 5, 10, 30]), "p": rnd(rng, 0.001, 0.999) if wide else pick(rng, [0.05, 0.5, 0.9])},
        "Weibull": lambda: {"a": rnd(rng, 0.4, 12, log=True), "b": rnd(rng, 1e-2, 100, log=True)},
        "Gamma": lambda: {"k": rnd(rng, 0.1, 50, log=True), "theta": rnd(rng, 1e-2, 100, log=True)},
        "Chi2": lambda: {"n": rnd(rng, 0.3, 100, log=True)},
    }[t]()


def dist(t, kw):
    return {
        "Uniform": lambda: stats.uniform(),
        "Gaussian": lambda: stats.norm(kw["mean"], kw["sigma"]),
        "Poisson": lambda: stats.poisson(kw["mean"]) if kw["mean"] < 2**17 else stats.norm(kw["mean"], kw["mean"] ** 0.5),
        "Binomial": lambda: stats.binom(kw["N"], kw["p"]),
        "Weibull": lambda: stats.weibull_min(kw["a"], scale=kw["b"]),
        "Gamma": lambda: stats.gamma(kw["k"], scale=kw["theta"]),
        "Chi2": lambda: stats.chi2(kw["n"]),
    }[t]()


def pit(x, d, rng, discrete):
    """Uniform under the distribution (ties of discrete distributions are broken at random)."""
    if discrete:
        lo, hi = d.cdf(x - 1), d.cdf(x)
        return lo + (hi - lo) * rng.uniform(size=np.shape(x))
    return d.cdf(x)


def uniformity(mon, name, u, **det):
    p = stats.kstest(u, "uniform").pvalue
    mon.check(name, p > P, p=p, n=len(u), mean=float(np.mean(u)), **det)
    # tails and spread, which KS is weak on
    z = (np.mean((u - 0.5) ** 2) * 12 - 1) * np.sqrt(len(u) * 5 / 4)
    mon.check(name + "-spread", 2 * stats.norm.sf(abs(z)) > P, z=z, **det)
    edge = np.sum((u < 0.005) | (u > 0.995))
    pe = min(1.0, 2 * min(stats.binom.cdf(edge, len(u), 0.01), stats.binom.sf(edge - 1, len(u), 0.01)))
    mon.check(name + "-tails", pe > P, count=int(edge), n=len(u), **det)


def independence(mon, name, u, **det):
    z = stats.norm.ppf(np.clip(u, 1e-12, 1 - 1e-12))
    for lag in (1, 2, 5):
        c = np.mean(z[lag:] * z[:-lag]) * np.sqrt(len(z) - lag)
        mon.check(name, 2 * stats.norm.sf(abs(c)) > P, lag=lag, z=c, **det)


def single(mon, rng):
    t = TYPES[mon.index % len(TYPES)]
    kw = params(rng, t, mon.index)
    seed = int(rng.integers(1, 2**31 - 1))
    n = 8000
    mon.note(t=t, kw=kw, seed=seed)
    d = getattr(jg, t + "Deviate")(seed, **kw)
    x = A(d.generate(np.zeros(n))).astype(float)
    ref = dist(t, kw)
    disc = t in ("Poisson", "Binomial") and kw.get("mean", 0) < 2**17
    if disc:
        mon.check("support-integers", np.all(x == np.round(x)) and x.min() >= 0 and (t != "Binomial" or x.max() <= kw["N"]), min=x.min(), max=x.max())
    elif t == "Uniform":
        mon.check("support", x.min() >= 0 and x.max() < 1)
    elif t not in ("Gaussian", "Poisson"):
        mon.check("support", x.min() >= 0)
    mon.check("finite", np.all(np.isfinite(x)))
    u = pit(x, ref, rng, disc)
    uniformity(mon, "distribution", u, t=t)
    independence(mon, "independence", u, t=t)
    # single draws come from the same distribution (they are the same stream: C16), continue with some here
    y = np.array([F(d()) for _ in range(40)])
    v = pit(y, ref, rng, disc)
    mon.check("single-draws", stats.kstest(v, "uniform").pvalue > P, v=v[:5])
    mon.event("drawn", n + 40)
    mon.event("type:" + t)


def per_element(mon, rng):
    """Per-value variances and expectations."""
    seed = int(rng.integers(1, 2**31 - 1))
    n = 6000
    t = ["var", "exp"][mon.index % 2]
    mon.note(t=t, seed=seed)
    if t == "var":
        d = jg.GaussianDeviate(seed, mean=rnd(rng, -3, 3), sigma=rnd(rng, 0.5, 3))
        var = np.exp(rng.uniform(-8, 8, n))
        var[:10] = 0.0
        x = A(d.generate_from_variance(jnp.asarray(var)))
        mon.same("zero-variance", x[:10], np.zeros(10))
        u = stats.norm.cdf(x[10:] / np.sqrt(var[10:]))
        key = np.log(var[10:])
    else:
        d = jg.PoissonDeviate(seed, mean=rnd(rng, 0.5, 30))
        ex = np.exp(rng.uniform(-3, 11, n))
        ex[:10] = 0.0
        x = A(d.generate_from_expectation(jnp.asarray(ex)))
        mon.same("zero-expectation", x[:10], np.zeros(10))
        mon.check("support-integers", np.all(x == np.round(x)) and x.min() >= 0)
        u = pit(x[10:], stats.poisson(ex[10:]), rng, True)
        key = np.log(ex[10:])
    uniformity(mon, "per-element-distribution", u, t=t)
    independence(mon, "per-element-independence", u, t=t)
    # nor does the fit depend on the element's own scale
    o = np.argsort(key)
    for part in np.array_split(u[o], 3):
        mon.check("per-element-scale", stats.kstest(part, "uniform").pvalue > P, t=t)
    mon.event("drawn", n)


def streams(mon, rng):
    """Different seeds, and a stream and its continuation, are independent of each other."""
    n = 4000
    s = int(rng.integers(1, 2**31 - 100))
    mon.note(s=s)
    us = [A(jg.UniformDeviate(k).generate(np.zeros(n))) for k in (s, s + 1, s + 2**16)]
    d = jg.GaussianDeviate(s)
    z = [stats.norm.ppf(np.clip(u, 1e-12, 1 - 1e-12)) for u in us] + [A(d.generate(np.zeros(n))), A(d.generate(np.zeros(n)))]
    for i in range(len(z)):
        for j in range(i):
            if (i, j) == (3, 0):
                continue  # the same stream position seen through two distributions
            c = np.mean(z[i] * z[j]) * np.sqrt(n)
            mon.check("streams-independent", 2 * stats.norm.sf(abs(c)) > P, pair=[i, j], z=c)
    # first values over consecutive seeds
    f = np.array([F(jg.UniformDeviate(s + k)()) for k in range(300)])
    mon.check("seeds-uniform", stats.kstest(f, "uniform").pvalue > P)
    # raw values
    r = jg.BaseDeviate(s)
    w = np.array([int(A(r.raw())) for _ in range(400)])
    mon.check("raw-uniform", stats.kstest(w / 2.0**32, "uniform").pvalue > P and w.min() >= 0 and w.max() < 2**32)
    # permutations
    cnt = np.zeros((5, 5))
    for _ in range(200):
        p = A(jg.random.permute(r, np.arange(5))[0])
        cnt[np.arange(5), p] += 1
    mon.check("permutations-uniform", stats.chi2.sf(np.sum((cnt - 40) ** 2 / 40), 16) > P, cnt=cnt)
    mon.event("drawn", 5 * n)


def degenerate(mon, rng):
    """Limits of the parameter ranges."""
    s = int(rng.integers(1, 2**31 - 1))
    mon.note(s=s)
    z = np.zeros(50)
    mon.same("sigma-zero", A(jg.GaussianDeviate(s, mean=3.5, sigma=0.0).generate(z)), z + 3.5)
    mon.same("mean-zero", A(jg.PoissonDeviate(s, mean=0.0).generate(z)), z)
    mon.same("p-zero", A(jg.BinomialDeviate(s, N=9, p=0.0).generate(z)), z)
    mon.same("p-one", A(jg.BinomialDeviate(s, N=9, p=1.0).generate(z)), z + 9)
    # parameters as JAX scalars and inside compiled functions mean the same
    for t in TYPES:
        kw = params(rng, t, 0)
        a = A(getattr(jg, t + "Deviate")(s, **kw).generate(np.zeros(6)))
        b = A(getattr(jg, t + "Deviate")(s, **{k: (jnp.asarray(v) if k != "N" else v) for k, v in kw.items()}).generate(np.zeros(6)))
        mon.close("array-parameters", b, a, rtol=1e-12, atol=1e-12, t=t)


GROUPS = {
    "single": dict(fn=single, quick=84, thorough=2800, cost=0.5, warm=6, must=["distribution", "independence", "support-integers", "single-draws"]),
    "per_element": dict(fn=per_element, quick=16, thorough=400, cost=0.5, warm=4, must=["per-element-distribution"]),
    "streams": dict(fn=streams, quick=8, thorough=150, cost=1.5, warm=4),
    "degenerate": dict(fn=degenerate, quick=4, thorough=40, cost=0.5, warm=4),
}
