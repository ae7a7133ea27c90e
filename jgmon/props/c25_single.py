"""C25: JAX's default mode has no 64-bit numbers; everything works there too, to single precision."""

import importlib
import warnings

from jgmon.common import *

RULE = "A case is a generated case of another property (profiles, algebra, drawing, interpolation, images, geometry, WCS, files, random numbers, noise, photons), executed with 64-bit types switched off as they are by default."
ASSUMPTIONS = [
    "agreement to single precision means 1e-3 of the value plus 2e-4 of the largest number met in the case (a reading of the documentation: no accuracy is promised in single precision)",
    "Moffat profiles with very large beta overflow single precision and are not generated",
    "shears near 1, directions on the sky, FITS-header projections, root finding and quadrature are ill-conditioned in single precision: judged is only that they work and give numbers",
    "dtype labels are not compared: an image asked to be float64 holds float32 numbers in this mode (JAX warns about it)",
]

# monitors that count things or are exact in this mode as well
EXACT = (":accepted",)


class Soft:
    """A monitor that judges the same observations to single precision."""

    def __init__(self, mon, rtol, part):
        self.__dict__.update(m=mon, rtol=rtol, part=part, top=0.1)

    def __getattr__(self, k):
        return getattr(self.m, k)

    def __setattr__(self, k, v):
        if k in self.__dict__:
            self.__dict__[k] = v
        else:
            setattr(self.m, k, v)

    def check(self, name, cond, mech=None, **detail):
        if name.endswith(EXACT):
            return self.m.check(name, cond, mech=mech, **detail)
        return bool(cond)

    def same(self, name, got, want, **detail):
        return True

    def raises(self, name, f, *a, **k):
        attempt(f)
        return True

    def close(self, name, got, want, rtol=1e-7, atol=0.0, mech=None, scale=None, **detail):
        w = np.asarray(want)
        if w.dtype.kind in "iufcb" and w.size:
            with np.errstate(all="ignore"):
                big = np.abs(np.where(np.isfinite(w), w, 0.0)).max()
            self.top = max(self.top, float(big))
        if name == "added-flux-is-what-was-added":  # difference of sums over the whole image
            atol = atol + 10 * self.part * self.top
        return self.m.close(name, got, want, rtol=max(rtol, self.rtol), atol=atol + self.part * self.top, mech=mech, scale=scale, **detail)


def single(module, group, rtol=1e-3, part=2e-4):
    if module == "c20_photons":
        part = 2e-3  # sums over many photons
    fn = importlib.import_module("jgmon.props." + module).GROUPS[group]["fn"]

    def case(mon, rng):
        assert not jax.config.jax_enable_x64
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            fn(Soft(mon, rtol, part), rng)
        mon.event("judged", sum(mon.evals.values()))

    return case


REUSED = {
    # module: {group: quick cases}
    "c01_profiles": {"gaussian": 8, "exponential": 10, "moffat": 10, "spergel": 10, "box": 6},
    "c03_draw": {"no_pixel": 12, "auto": 10, "fft": 5, "sb": 8, "kimage": 8, "celestial": 4, "direct": 8},
    "c04_interp": {"surface": 8},
    "c08_images": {"history": 30},
    "c09_transforms": {"fft": 12, "ifft": 8, "wrap": 16, "flips": 16},
    "c13_euclidean_wcs": {"history": 30},
    "c02_algebra": {"tree_real": 10, "tree_all": 16, "chain": 12, "laws": 16, "delta": 6},
    "c11_shear_angle": {"angles": 20},
    "c19_shooting": {"fixed": 4},
    "c15_fits": {"single": 8, "several": 6},
    "c16_random_streams": {"history": 8},
    "c18_noise": {"formulas": 10},
    "c20_photons": {"history": 8},
}

# ill-conditioned in single precision by nature: only that they work, end and give numbers is judged
ALIVE = {
    "c11_shear_angle": {"shears": 20},
    "c12_celestial": {"pairs": 16, "project": 10},
    "c14_fits_wcs": {"tan": 6, "history": 3},
    "c21_special": {"bisect": 6, "int1d": 3},
}

GROUPS = {}
for _m, _g, _r in [(m, g, 1e-3) for m, g in REUSED.items()] + [(m, g, 1e30) for m, g in ALIVE.items()]:
    for _k, _n in _g.items():
        _d = importlib.import_module("jgmon.props." + _m).GROUPS[_k]
        GROUPS[_m[:3] + "_" + _k] = dict(fn=single(_m, _k, rtol=_r, part=2e-4 if _r < 1 else 1e30), quick=_n, thorough=_n * 25, cost=_d.get("cost", 0.2), warm=_d.get("warm", 6), x64=False)
