"""C07: flattening, mapping, copying, pickling, repr, comparison and hashing of every value object."""

import copy
import pickle
import warnings

from jgmon.common import *
from jgmon.objects import KINDS, any_object, at, bump, changed, numbers

RULE = "A case is one object of one kind with generated parameters, taken through every way of copying it, and compared with objects that differ from it in one number."
ASSUMPTIONS = [
    "two objects behave alike when the numbers a user reads off them (values, sizes, flags, streams, pixels) agree to rounding",
    "objects count as different when GalSim's objects with the same parameters compare unequal",
    "the reprs of interpolated images are not evaluated (they do not evaluate to equal objects in GalSim either)",
]

ENV = {k: getattr(np, k) for k in ("array", "float64", "float32", "int32", "int16", "uint16", "uint32", "complex128", "inf", "nan")}


def alike(mon, name, o, ref, got, rtol=1e-12):
    p = o.probe(jg, got)
    mon.check(name + ":what", set(p) == set(ref), got=sorted(p), want=sorted(ref))
    for k in ref:
        a, b = p[k], ref[k]
        sc = np.abs(b[np.isfinite(b)]).max() if b.dtype.kind in "fc" and np.isfinite(b).any() else 1.0
        mon.close(name + ":" + k, a, b, rtol=rtol, atol=rtol * float(sc))


@jax.jit
def ident(x):
    return x


def leaf_types(x):
    return [(type(v).__name__, getattr(v, "dtype", None)) for v in jax.tree_util.tree_leaves(x)]


def hashable(x):
    return not isinstance(attempt(lambda: hash(x)), Raised)


def case(kind):
    def run(mon, rng):
        warnings.simplefilter("ignore")
        o = any_object(rng, kind)
        mon.note(kind=kind, spec=o.spec)
        x = o.make(jg)
        g = attempt(lambda: o.make(galsim))
        ref = o.probe(jg, x)
        alike(mon, "same-spec", o, ref, o.make(jg))
        mon.check("same-spec:equal", x == o.make(jg) and not (x != o.make(jg)), kind=kind)
        mon.check("self-equal", x == x and not (x != x))
        mon.check("str-and-repr", isinstance(str(x), str) and isinstance(repr(x), str))
        h = hashable(x)
        if not isinstance(g, Raised):
            mon.check("hashable-like-galsim", h == hashable(g) or kind == "photons", kind=kind, got=h)
        leaves, tree = jax.tree_util.tree_flatten(x)
        mon.event("leaves", len(leaves))
        ways = {
            "unflatten": lambda: jax.tree_util.tree_unflatten(tree, leaves),
            "tree-map": lambda: jax.tree_util.tree_map(lambda v: v, x),
            "copy": lambda: copy.copy(x),
            "deepcopy": lambda: copy.deepcopy(x),
            "pickle": lambda: pickle.loads(pickle.dumps(x)),
            "pickle-pickle": lambda: pickle.loads(pickle.dumps(pickle.loads(pickle.dumps(x, 2)))),
            "jit": lambda: ident(x),
            "unflatten-unflatten": lambda: jax.tree_util.tree_unflatten(*reversed(jax.tree_util.tree_flatten(jax.tree_util.tree_unflatten(tree, leaves)))),
        }
        if kind != "gsparams":
            ways["tree-map-arrays"] = lambda: jax.tree_util.tree_map(jnp.asarray, x)
        if kind != "interpolated":
            ways["repr"] = lambda: eval(repr(x), {"galsim": jg, "coord": jg, **ENV})
        for w, f in ways.items():
            if w == "jit" and (kind == "gsparams" or kind == "profile" and mon.index % 3):
                continue  # (accuracy parameters are static)
            r = attempt(f)
            if isinstance(r, Raised):
                mon.check("possible", False, kind=kind, way=w, got=f"{type(r.e).__name__}: {str(r.e)[:300]}", want=x)
                continue
            mon.check("possible", True)
            if w != "repr" or kind not in ("profile",):
                mon.check("same-type", type(r) is type(x), way=w, got=type(r).__name__, want=type(x).__name__, mech=f"same-type-{w}")
            tol = 1e-12 if w != "repr" else 1e-9
            alike(mon, w, o, ref, r, rtol=tol)
            if w == "repr" and kind in ("photons",):
                pass
            mon.check("equal:" + w, r == x and x == r and not (r != x), kind=kind, got=r, want=x)
            if h:
                mon.check("hash:" + w, hash(r) == hash(x), kind=kind, got=r, want=x)
            if kind == "deviate" or kind == "noise":
                continue
        mon.same("leaves-kept", [np.shape(v) for v in jax.tree_util.tree_leaves(ways["unflatten"]())] == [np.shape(v) for v in leaves], True)
        # flattening again gives the same structure, so compiled functions are not compiled again
        mon.check("structure-stable", jax.tree_util.tree_structure(ways["unflatten"]()) == tree, kind=kind)
        mon.check("structure-hashable", isinstance(attempt(lambda: hash(tree)), int), kind=kind)
        # the original did not move, and copies are independent of it
        alike(mon, "original", o, ref, x)
        # other kinds of things
        for other in (None, 1.5, "x", object()):
            mon.check("unequal-to-others", not (x == other) and x != other, kind=kind, other=repr(other)[:30])
        # one number changed
        paths = list(numbers(o.spec))
        if paths and not isinstance(g, Raised):
            # (parameters first: an image has many more pixels than everything else has numbers)
            few = {}
            for p in paths:
                few.setdefault(p[:1], []).append(p)
            tops = list(few)
            rng.shuffle(tops)
            for p in [pick(rng, few[tuple(t)]) for t in tops[:4]] + [pick(rng, paths)]:
                s2 = changed(o.spec, p, bump)
                y, gy = attempt(lambda: o.make(jg, s2)), attempt(lambda: o.make(galsim, s2))
                if isinstance(y, Raised) or isinstance(gy, Raised):
                    mon.event("mutant-invalid")
                    continue
                if gy == g:
                    mon.event("mutant-equal-in-galsim")
                    continue
                mon.check("unequal", not (x == y) and x != y and not (y == x), kind=kind, path=[str(q) for q in p], value=at(o.spec, p), mech="unequal-" + kind, got=y)

    return run


def streams(mon, rng):
    """Copies of deviates and noise models continue the stream, and go their own way."""
    kind = pick(rng, ["deviate", "noise"])
    o = any_object(rng, kind)
    mon.note(kind=kind, spec=o.spec)
    x = o.make(jg)
    rngof = (lambda q: q) if kind == "deviate" else (lambda q: q.rng)
    y = pickle.loads(pickle.dumps(x))
    z = jax.tree_util.tree_unflatten(*reversed(jax.tree_util.tree_flatten(x)))
    w = copy.deepcopy(x)
    a = [int(A(rngof(y).raw())) for _ in range(3)]
    mon.check("copy-does-not-move-original", x == o.make(jg) and z == x and w == x)
    mon.same("unflattened-continues", [int(A(rngof(z).raw())) for _ in range(3)], a)
    mon.same("deepcopy-continues", [int(A(rngof(w).raw())) for _ in range(3)], a)
    mon.check("original-still", x == o.make(jg))
    mon.same("original-continues", [int(A(rngof(x).raw())) for _ in range(3)], a)
    mon.check("all-equal-afterwards", x == y == z == w)
    rngof(y).raw()
    mon.check("unequal-when-apart", x != y)


COST = dict(profile=1.0, simple=0.4, interpolated=1.5, wcs=0.3, fitswcs=0.8, interpolant=0.4, noise=0.3, image=0.2, photons=0.3)
N = dict(profile=14, simple=10, interpolated=4, wcs=24, fitswcs=7, position=10, bounds=16, shear=16, angle=12, unit=8, coord=10, interpolant=14, gsparams=12, deviate=20, noise=16, photons=6, image=16, sensor=2)

def attached(mon, rng):
    """What the library hangs on an image (flux drawn, photons, header) travels with it."""
    warnings.simplefilter("ignore")
    kind = pick(rng, ["photons", "drawn", "header", "both"]) if mon.index > 3 else ["photons", "drawn", "header", "both"][mon.index]
    nx, ny, seed = int(rng.integers(3, 12)), int(rng.integers(3, 12)), int(rng.integers(1, 9999))
    kw = dict(nx=nx, ny=ny, scale=rnd(rng, 0.3, 1))
    gal = jg.Gaussian(sigma=rnd(rng, 0.5, 2), flux=rnd(rng, 1, 9))
    mon.note(kind=kind, kw=kw, seed=seed)
    if kind == "photons":
        im = gal.drawImage(method="phot", n_photons=20, rng=jg.BaseDeviate(seed), save_photons=True, **kw)
    elif kind == "header":
        im = jg.ImageD(np.round(rng.normal(size=(ny, nx)), 3), scale=0.4)
    else:
        im = gal.drawImage(method="no_pixel", **kw)
    if kind in ("header", "both"):
        im.header = jg.FitsHeader({"AIRMASS": rnd(rng, 1, 2), "EXPTIME": int(rng.integers(1, 99))})

    def probe(x):
        r = {"pixels": A(x.array), "scale": F(x.scale)}
        if hasattr(x, "added_flux"):
            r["added_flux"] = F(x.added_flux)
        if hasattr(x, "photons"):
            r["photons"] = [A(x.photons.x), A(x.photons.y), A(x.photons.flux)]
        if hasattr(x, "header"):
            r["header"] = [x.header.get("AIRMASS"), x.header.get("EXPTIME")]
        return r

    ref = probe(im)
    mon.check("has", ("photons" in ref) == (kind == "photons") and ("header" in ref) == (kind in ("header", "both")) and ("added_flux" in ref) == (kind != "header"))
    leaves, tree = jax.tree_util.tree_flatten(im)
    ways = {
        "unflatten": lambda: jax.tree_util.tree_unflatten(tree, leaves),
        "tree-map": lambda: jax.tree_util.tree_map(jnp.asarray, im),
        "copy": lambda: copy.copy(im),
        "deepcopy": lambda: copy.deepcopy(im),
        "pickle": lambda: pickle.loads(pickle.dumps(im)),
        "jit": lambda: ident(im),
        "pickle-of-jit": lambda: pickle.loads(pickle.dumps(ident(im))),
    }
    for w, f in ways.items():
        r = attempt(f)
        if isinstance(r, Raised):
            mon.check("attached-possible", False, way=w, got=repr(r.e)[:300])
            continue
        q = probe(r)
        mon.check("attached-what", sorted(q) == sorted(ref), way=w, got=sorted(q), want=sorted(ref))
        for k in ref:
            if k in q:
                mon.close("attached:" + k, np.asarray(q[k], float), np.asarray(ref[k], float), rtol=1e-12)
        mon.check("attached-equal", r == im, way=w)
    mon.event("attached:" + kind)


GROUPS = {k: dict(fn=case(k), quick=N[k], thorough=N[k] * 40 if k != "sensor" else 2, cost=COST.get(k, 0.15), warm=6, shards=2 if k in ("profile", "interpolated", "simple", "photons") else 1, must=(["unequal"] if k not in ("sensor",) else []) + ["equal:pickle", "equal:unflatten"]) for k in KINDS}
GROUPS["streams"] = dict(fn=streams, quick=20, thorough=800, cost=0.2, warm=4)
GROUPS["attached"] = dict(fn=attached, quick=8, thorough=200, cost=0.3, warm=6, must=["attached:photons", "attached:added_flux", "attached:header"])
