"""C16: deviates as deterministic, explicit-state streams, judged against a position-in-stream model."""

import copy
import pickle

from jgmon.common import *  # noqa: F401,F403

RULE = "A case is a history of operations on a pool of (possibly linked) deviates, judged step by step against a model that only knows (seed, number of values drawn)."
ASSUMPTIONS = [
    "the value a deviate yields at a position is defined by a fresh deviate of that seed and type drawing one value at a time",
    "linked deviates are only used linked outside compiled functions, as documented",
]

TYPES = ["Uniform", "Gaussian", "Poisson", "Binomial", "Weibull", "Gamma", "Chi2"]


def params(rng, t):
    return {
        "Uniform": lambda: {},
        "Gaussian": lambda: {"mean": rnd(rng, -5, 5), "sigma": rnd(rng, 0.1, 4)},
        "Poisson": lambda: {"mean": rnd(rng, 0.2, 60, log=True)},
        "Binomial": lambda: {"N": pick(rng, [1, 7, 20]), "p": rnd(rng, 0.05, 0.95)},
        "Weibull": lambda: {"a": rnd(rng, 0.6, 5), "b": rnd(rng, 0.5, 10)},
        "Gamma": lambda: {"k": rnd(rng, 0.5, 5), "theta": rnd(rng, 0.5, 5)},
        "Chi2": lambda: {"n": rnd(rng, 1, 20)},
    }[t]()


def make(t, seed, kw):
    return getattr(jg, t + "Deviate")(seed, **kw)


class Ref:
    """Values of a stream by position, drawn one at a time from a fresh deviate."""

    def __init__(self):
        self.t = {}

    def __call__(self, t, kw, seed, n):
        k = (t, tuple(sorted(kw.items())), seed)
        d, vals = self.t.setdefault(k, (make(t, seed, kw), []))
        while len(vals) <= n:
            vals.append(F(d()))
        return vals[n]

    def raw(self, seed, n):
        d, vals = self.t.setdefault(("raw", seed), (jg.BaseDeviate(seed), []))
        while len(vals) <= n:
            vals.append(int(A(d.raw())))
        return vals[n]


class St:
    """Shared stream position."""

    def __init__(self, seed, n):
        self.seed, self.n = seed, n


_JIT = {}


def jitted(t):
    if t not in _JIT:
        _JIT[t] = jax.jit(lambda d: (d(), d.generate(jnp.zeros(3)), d))
    return _JIT[t]


OPS = [
    "draw", "draw", "generate", "add_generate", "raw", "discard", "clear", "duplicate", "copy", "pickle", "tree", "repr", "serialize", "link", "reset-link",
    "reset-seed", "seed", "jit", "special", "equal", "key", "deepcopy", "treemap",
]


def history(deep):
    def case(mon, rng):
        ref = Ref()
        seeds = [int(v) for v in rng.integers(1, 2**31 - 1, 2)] + [1]
        kws = {t: params(rng, t) for t in TYPES}
        mon.note(seeds=seeds, kws=kws)
        pool = []  # (deviate, type, params, St)

        def add(d, t, kw, st):
            pool.append([d, t, kw, st])
            if len(pool) > 8:
                pool.pop(int(rng.integers(len(pool))))

        t = pick(rng, TYPES)
        s0 = pick(rng, seeds)
        add(make(t, s0, kws[t]), t, kws[t], St(s0, 0))
        log = []
        for step in range(26 if not deep else 60):
            op = pick(rng, OPS)
            e = pick(rng, pool)
            d, t, kw, st = e
            log.append(f"{op}:{t}")
            if st.n > 400:
                op = "reset-seed"
            if op == "draw":
                v = d()
                mon.close("draw", F(v), ref(t, kw, st.seed, st.n), rtol=1e-12, op=log[-6:])
                st.n += 1
            elif op in ("generate", "add_generate"):
                shape = pick(rng, [(1,), (3,), (2, 3), (7,)])
                base = np.round(rng.normal(size=shape), 3)
                arr = jnp.asarray(base) if rng.random() < 0.7 else base.copy()
                got = A(getattr(d, op)(arr))
                n = int(np.prod(shape))
                want = np.array([ref(t, kw, st.seed, st.n + i) for i in range(n)]).reshape(shape)
                if op == "add_generate":
                    want = want + base
                mon.close(op, got, want, rtol=1e-12, atol=1e-12, op=log[-6:])
                mon.same("generate-shape", got.shape, shape)
                if isinstance(arr, jnp.ndarray):
                    mon.same("generate-leaves-argument", A(arr), base)
                st.n += n
            elif op == "raw":
                mon.same("raw", int(A(d.raw())), ref.raw(st.seed, st.n))
                st.n += 1
            elif op == "discard":
                n = int(rng.integers(0, 9))
                d.discard(n)
                st.n += n
            elif op == "clear":
                d.clearCache()
            elif op == "duplicate":
                add(d.duplicate(), t, kw, St(st.seed, st.n))
            elif op == "copy":
                add(copy.copy(d), t, kw, St(st.seed, st.n))
            elif op == "deepcopy":
                add(copy.deepcopy(d), t, kw, St(st.seed, st.n))
            elif op == "pickle":
                add(pickle.loads(pickle.dumps(d)), t, kw, St(st.seed, st.n))
            elif op == "tree":
                leaves, tree = jax.tree_util.tree_flatten(d)
                add(jax.tree_util.tree_unflatten(tree, leaves), t, kw, St(st.seed, st.n))
            elif op == "treemap":
                add(jax.tree_util.tree_map(lambda x: x, d), t, kw, St(st.seed, st.n))
            elif op == "repr":
                d2 = eval(repr(d), {"galsim": jg, "array": np.array, "uint32": np.uint32})
                mon.check("repr-equal", d2 == d, repr=repr(d))
                add(d2, t, kw, St(st.seed, st.n))
            elif op == "serialize":
                d2 = make(t, d.serialize(), kw)
                mon.check("serialize-equal", d2 == d)
                add(d2, t, kw, St(st.seed, st.n))
            elif op == "link":
                t2 = pick(rng, TYPES)
                add(make(t2, d, kws[t2]), t2, kws[t2], st)
            elif op == "reset-link":
                o = pick(rng, pool)
                d.reset(o[0])
                e[3] = o[3]
            elif op == "reset-seed":
                s = pick(rng, seeds)
                d.reset(s if rng.random() < 0.6 else pick(rng, [np.int64(s), jnp.asarray(s)]))
                e[3] = St(s, 0)
            elif op == "seed":
                s = pick(rng, seeds)
                d.seed(pick(rng, [s, float(s), np.int64(s)]))
                st.seed, st.n = s, 0
            elif op == "key":
                s = pick(rng, seeds)
                add(make(t, jax.random.key(s), kw), t, kw, St(s, 0))
            elif op == "jit":
                v, a, d2 = jitted(t)(d)
                want = [ref(t, kw, st.seed, st.n + i) for i in range(4)]
                mon.close("draw-jit", np.concatenate([[F(v)], A(a)]), want, rtol=1e-12, atol=1e-12)
                # the argument itself does not move; the documented way to follow it is reset
                mon.check("jit-argument-not-advanced", d == make(t, d.serialize(), kw) and type(d2) is type(d))
                d.reset(d2)
                e[3] = St(st.seed, st.n + 4)
            elif op == "special":
                if t == "Gaussian":
                    var = np.abs(np.round(rng.normal(size=(2, 2)), 3)) * 3
                    got = A(d.generate_from_variance(jnp.asarray(var)))
                    z = np.array([ref("Gaussian", {"mean": 0.0, "sigma": 1.0}, st.seed, st.n + i) for i in range(4)]).reshape(2, 2)
                    mon.close("generate-from-variance", got, z * np.sqrt(var), rtol=1e-12, atol=1e-13)
                    st.n += 4
                elif t == "Poisson":
                    ex = np.round(rng.uniform(0, 50, 3), 3)
                    got = A(d.generate_from_expectation(jnp.asarray(ex)))
                    want = []
                    for i in range(3):
                        p = jg.PoissonDeviate(st.seed, mean=float(ex[i]))
                        p.discard(st.n + i)
                        want.append(F(p()))
                    mon.close("generate-from-expectation", got, want, rtol=1e-12)
                    st.n += 3
                else:
                    x = [np.arange(6.0), np.arange(6.0) * 10]
                    b = copy.copy(d)
                    r = jg.random.permute(d, *x)
                    mon.check("permute-is-permutation", sorted(A(r[0]).tolist()) == x[0].tolist() and np.array_equal(A(r[1]), A(r[0]) * 10), got=r)
                    mon.check("permute-advances", d != b)
                    r2 = jg.random.permute(b, *x)
                    mon.same("permute-deterministic", A(r2[0]), A(r[0]))
                    mon.check("permute-deterministic", d == b)
                    # (how many values a permutation uses is not specified: start again)
                    d.seed(s0)
                    st.seed, st.n = s0, 0
            elif op == "equal":
                o = pick(rng, pool)
                want = o[1] == t and (o[3].seed, o[3].n) == (st.seed, st.n) and o[2] == kw
                mon.check("equality", bool(d == o[0]) == want and bool(d != o[0]) == (not want), want=want, a=[t, st.seed, st.n], b=[o[1], o[3].seed, o[3].n], log=log[-8:])
            mon.event("op:" + op)
        # every survivor stands where the model says it does
        for d, t, kw, st in list(pool):
            q = d.duplicate()
            mon.close("final-position", F(q()), ref(t, kw, st.seed, st.n), rtol=1e-12, type=t, log=log[-12:])
            for k, v in kw.items():
                a = "n" if (t, k) == ("Binomial", "N") else k
                mon.close("parameter", F(getattr(d, a)), v, rtol=1e-15)

    return case


def order(mon, rng):
    """Drawing one by one, in one array, in several arrays, after discards: always the same values."""
    t = pick(rng, TYPES)
    kw = params(rng, t)
    s = int(rng.integers(1, 2**31 - 1))
    n = 24
    mon.note(t=t, kw=kw, s=s)
    one = make(t, s, kw)
    a = np.array([F(one()) for _ in range(n)])
    b = A(make(t, s, kw).generate(jnp.zeros(n)))
    c = A(make(t, s, kw).generate(np.zeros((2, 3, 4)))).ravel()
    mon.close("one-by-one", b, a, rtol=1e-12, atol=1e-13)
    mon.close("any-shape", c, a, rtol=1e-12, atol=1e-13)
    d = make(t, s, kw)
    k = int(rng.integers(1, n - 1))
    mon.close("split-arrays", np.concatenate([A(d.generate(jnp.zeros(k))), A(d.generate(jnp.zeros(n - k)))]), a, rtol=1e-12, atol=1e-13)
    mon.check("same-position-equal", d == one)
    e = make(t, s, kw)
    e.discard(k)
    mon.close("discard", F(e()), a[k], rtol=1e-12)
    f = jg.BaseDeviate(s)
    for _ in range(k):
        f.raw()
    mon.close("raw-counts-one", F(make(t, f, kw)()), a[k], rtol=1e-12)
    # different seeds and different positions differ
    cont = t not in ("Binomial", "Poisson")
    s2 = pick(rng, [s + 1, s ^ 1, s ^ (1 << int(rng.integers(0, 30))), int(rng.integers(1, 2**31 - 1))])
    if s2 != s and s2 > 0:
        z = A(make(t, s2, kw).generate(jnp.zeros(n)))
        if cont:
            mon.check("seeds-differ", not np.any(np.isclose(z, a, rtol=1e-12)), s2=s2)
        u1, u2 = A(jg.UniformDeviate(s).generate(np.zeros(n))), A(jg.UniformDeviate(s2).generate(np.zeros(n)))
        mon.check("seeds-differ", not np.any(u1 == u2), s2=s2)
        mon.check("seeds-differ-raw", [int(A(jg.BaseDeviate(s).raw())) for _ in range(1)] != [int(A(jg.BaseDeviate(s2).raw())) for _ in range(1)])
    if cont:
        mon.check("values-differ", len(set(a.tolist())) == n, a=a)
    # unseeded deviates are not repeated
    for z in (None, 0):
        mon.check("unseeded-differ", F(jg.UniformDeviate(z)()) != F(jg.UniformDeviate(z)()))
    mon.same("reliable", [bool(make(t, s, kw).has_reliable_discard), bool(make(t, s, kw).generates_in_pairs)], [True, False])
    # inside a compiled loop the stream is the same
    g = jax.jit(lambda d: jax.lax.scan(lambda c, _: (lambda v: (c, v))(c()), d, None, length=5))
    d2, vals = g(make(t, s, kw))
    mon.close("scan-jit", A(vals), a[:5], rtol=1e-12, atol=1e-13)
    mon.close("scan-jit-continues", F(d2()), a[5], rtol=1e-12)
    # vmapped over seeds
    ks = jax.vmap(jax.random.key)(jnp.asarray([s, s + 1, 7]))
    v = A(jax.vmap(lambda q: make(t, q, kw).generate(jnp.zeros(3)))(ks))
    mon.close("vmap-keys", v[0], a[:3], rtol=1e-12, atol=1e-13)
    mon.close("vmap-keys", v[2], A(make(t, 7, kw).generate(jnp.zeros(3))), rtol=1e-12, atol=1e-13)
    mon.event("type:" + t)


def refused(mon, rng):
    """What cannot seed a deviate is refused, and refusing leaves the stream alone."""
    d = jg.UniformDeviate(int(rng.integers(1, 1000)))
    d.discard(int(rng.integers(0, 5)))
    s = d.serialize()
    for bad in (1.5, [1, 2], {"a": 1}, object(), jg.PositionD(1, 2)):
        mon.raises("bad-seed-refused", lambda: d.reset(bad) if bad != 1.5 else d.seed(bad))
        mon.same("refused-leaves-state", d.serialize(), s)
    for f in (
        lambda: jg.GaussianDeviate(1, sigma=-1.0),
        lambda: jg.GaussianDeviate(1, sigma=jnp.asarray(-0.5)),
        lambda: jg.PoissonDeviate(1, mean=-2.0),
        lambda: jg.PoissonDeviate(1, mean=jnp.asarray(-2.0)),
        lambda: jg.PoissonDeviate(1).generate_from_expectation(jnp.asarray([1.0, -1.0])),
        lambda: jg.random.permute(jg.BaseDeviate(1)),
    ):
        mon.raises("bad-parameter-refused", f)
    mon.note(s=s)


GROUPS = {
    "history": dict(fn=history(False), quick=36, thorough=1500, cost=0.6, warm=12, must=["draw", "generate", "raw", "equality", "final-position", "draw-jit"]),
    "history_long": dict(fn=history(True), quick=3, thorough=600, cost=1.4, warm=8),
    "order": dict(fn=order, quick=30, thorough=1000, cost=0.4, warm=8, must=["one-by-one", "discard", "scan-jit"]),
    "refused": dict(fn=refused, quick=4, thorough=40, cost=0.2, warm=2),
}
