"""Source of /verif/properties.jsonl (python tools/properties_src.py > properties.jsonl)."""
import json

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(
        {
            "id": id,
            "title": title,
            "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": {
                "files": files,
                **({"state": state} if state else {}),
                "mechanism": [{"name": n, "where": w} for n, w in mech],
                "observe_at": observe,
                "hook_needed": None,
            },
        }
    )


J = "jax_galsim/"

prop(
    "C01",
    "Analytic light profiles agree with GalSim for every parameter choice",
    "For every valid choice of size (however specified: sigma, scale radius, half-light radius, FWHM), shape index, flux of "
    "either sign and accuracy parameters, a Gaussian, Exponential, Moffat, Spergel, Box, Pixel or delta-function profile has "
    "the same surface brightness at every real-space point, the same value at every Fourier-space point, and the same derived "
    "quantities (flux, centroid, characteristic radii, peak brightness, Fourier step and extent, positive/negative flux) as "
    "the GalSim profile built from the same arguments, to within the documented accuracy. The values do not depend on which "
    "equivalent size argument was used, and surface brightness integrates to the flux, which equals the Fourier value at the origin.",
    ["inputs"],
    "all profile classes, all parameter values in the supported range, all evaluation points, all flux signs, all GSParams accuracy settings",
    "A test samples a handful of parameter values and evaluation points; Spergel and Moffat grids are dense in the index only, and "
    "Gaussian/Exponential/Box scalars, negative flux and non-default accuracy settings are nearly untested now that the GalSim suite is absent.",
    [J + x for x in ("gaussian.py", "exponential.py", "moffat.py", "spergel.py", "box.py", "deltafunction.py", "gsobject.py", "bessel.py")],
    [
        ("closed-form real/Fourier evaluation", "jax_galsim/gaussian.py Gaussian._xValue/_kValue and the same methods of the other profiles"),
        ("stepk/maxk/max_sb from accuracy parameters", "jax_galsim/exponential.py _stepk/_maxk, moffat.py _maxk fit, spergel.py calculateFluxRadius"),
    ],
    ["GSObject.xValue", "GSObject.kValue", "flux/maxk/stepk/max_sb/half_light_radius/fwhm/scale_radius"],
)

prop(
    "C02",
    "Transformed, summed and convolved profiles obey the profile algebra",
    "Any composition of shear, rotation, dilation, expansion, magnification, lensing, general linear transform, shift, flux "
    "scaling, sum, convolution and deconvolution has, at every point of real and Fourier space where it can be evaluated, the value GalSim gives "
    "for the same composition, and consistent flux, centroid, peak-brightness, Fourier-extent and positive/negative-flux attributes. Transformations obey their group laws "
    "(successive linear maps compose by matrix product, inverse maps undo each other, flux and centroid transform as stated), sums are linear and convolution multiplies Fourier values, whatever the order or nesting.",
    ["programs", "inputs"],
    "all finite expression trees over the profile constructors and operations with all parameter values",
    "Tests exercise single operations on single profiles; nested expression trees, operator order, negative factors and mixed attribute propagation are an unbounded space.",
    [J + x for x in ("transform.py", "sum.py", "convolve.py", "gsobject.py", "shear.py")],
    [
        ("composition of jacobian/offset/flux ratio", "jax_galsim/transform.py Transformation.__init__, _fwd/_inv helpers"),
        ("sum and product of component values", "jax_galsim/sum.py Sum, jax_galsim/convolve.py Convolution/Deconvolution"),
    ],
    ["xValue/kValue of composed objects", "flux, centroid, maxk, stepk, max_sb of composed objects"],
)

prop(
    "C03",
    "Drawn images equal GalSim's for every drawing configuration",
    "Drawing any supported profile with any combination of method (auto, fft, no_pixel, sb, real-space), pixel scale or WCS, image size or "
    "bounds or user-supplied image, odd/even dimensions, offset, center, use_true_center, dtype, gain, exposure time, area and add_to_image "
    "produces an image with the bounds, WCS, dtype and pixel values GalSim produces, with the returned added flux equal to the sum of what was added. Drawing in "
    "Fourier space likewise agrees with GalSim, and drawing is linear in flux and equivariant under integer pixel shifts and image origin changes.",
    ["configurations", "inputs"],
    "all profiles x drawing options x image geometries",
    "The cross product of drawing options is far larger than the few default-option draws in the tests, and most options are never exercised by tests/jax.",
    [J + x for x in ("gsobject.py", "core/draw.py", "image.py", "wcs.py", "convolve.py", "transform.py", "box.py")],
    [
        ("option parsing and image setup", "jax_galsim/gsobject.py drawImage, _setup_image, _determine_wcs, _adjust_offset"),
        ("pixel loops", "jax_galsim/core/draw.py draw_by_xValue/draw_by_kValue"),
        ("FFT rendering and wrapping", "jax_galsim/gsobject.py drawFFT, _draw_fft_image"),
    ],
    ["GSObject.drawImage", "GSObject.drawKImage", "Image.array/bounds/wcs/added_flux"],
)

prop(
    "C04",
    "Interpolants and interpolated images reproduce GalSim's kernels and surfaces",
    "Every interpolant (nearest, linear, cubic, quintic, Lanczos of any supported order with or without DC conservation, sinc, delta) has GalSim's real-space and Fourier-space kernel values, "
    "ranges, flux split and unit integrals. A profile interpolated from any image, with any interpolants, normalization, flux, scale or WCS, offset, centering convention and padding, has GalSim's surface brightness, "
    "Fourier values, flux, centroid and step/extent choices, and passes through the input pixel values at pixel centers for interpolating kernels.",
    ["inputs", "configurations"],
    "all interpolants, all evaluation points, all images (any shape/parity/origin/sign), all constructor options",
    "Existing tests cover fixed seeds on one small image family and skip most of their own parametrizations; kernels are checked at few points.",
    [J + x for x in ("interpolant.py", "interpolatedimage.py", "core/interpolate.py", "image.py")],
    [
        ("kernel formulas", "jax_galsim/interpolant.py *._xval/_uval, Lanczos tables"),
        ("interpolation over pixels", "jax_galsim/interpolatedimage.py _draw_with_interpolant_xval/_draw_with_interpolant_kval"),
    ],
    ["Interpolant.xval/kval/xrange/krange/unit_integrals", "InterpolatedImage.xValue/kValue/flux/stepk/maxk"],
)

prop(
    "C05",
    "Results are identical eagerly, under jit, and under vmap",
    "For every traceable operation of the library (constructing and combining profiles, evaluating them, drawing them with a fixed size, shearing, WCS and celestial conversions, "
    "image arithmetic, random generation, photon shooting with a fixed array size), running it under jit, or vmapped over batched parameters, yields the values obtained by running it eagerly on each input, "
    "and objects passed into or returned from compiled functions carry the same attributes and internal state. Compilation never freezes the value of a traced parameter, and it finishes whichever of the parameters are traced and whichever are constants.",
    ["programs", "inputs"],
    "all traceable API calls, all parameter values, batch sizes and transformations",
    "Tests jit a fixed list of constructors with single parameter values; caching a stale trace or branching on a concrete value only shows for a second, different input.",
    [J + x for x in ("core/utils.py", "gsobject.py", "transform.py", "sum.py", "convolve.py", "image.py", "bounds.py", "wcs.py", "random.py", "photon_array.py", "interpolatedimage.py", "moffat.py", "spergel.py")],
    [("pytree registration with traced children and static aux", "tree_flatten/tree_unflatten of every public class")],
    ["jax.jit(f)(x) vs f(x)", "jax.vmap(f)(xs) vs [f(x) for x in xs]"],
)

prop(
    "C06",
    "Gradients of differentiable quantities are finite and correct",
    "For every differentiable output (profile values in real and Fourier space, drawn pixels, interpolated images, WCS, shear and celestial maps, Fourier images) and every parameter documented as differentiable, forward- and reverse-mode derivatives "
    "exist (forward mode except through the modified Bessel function K, whose rule is reverse-only), are finite, agree with each other and equal the derivative of the computed function as measured by finite differences, including at the profile center, at zero frequency, at zero shear and at points where the function itself is smooth but its formula is singular.",
    ["inputs"],
    "all differentiable parameters of all profiles and maps, at all points where the function is smooth",
    "Gradient tests cover a few parameter values; NaN gradients at singular points of a formula, or a silently stopped gradient, only appear for particular inputs.",
    [J + x for x in ("core/math.py", "gaussian.py", "exponential.py", "moffat.py", "spergel.py", "transform.py", "core/draw.py", "interpolatedimage.py", "shear.py", "celestial.py", "bessel.py", "box.py")],
    [("safe square roots and custom derivative rules", "jax_galsim/core/math.py safe_sqrt, jax_galsim/bessel.py kv custom_vjp, where-masking in profiles")],
    ["jax.grad / jax.jvp of xValue, kValue, drawImage(...).array.sum()"],
)

prop(
    "C07",
    "Every object survives flattening, copying, pickling, repr and comparison",
    "Every public value object (profiles, images, bounds, positions, shears, angles, WCS, celestial coordinates, interpolants, GSParams, random deviates, noise models, photon arrays) comes back equal and with identical behaviour from JAX tree flatten/unflatten, tree mapping with the identity, "
    "pickling, copying and (where its repr is evaluable) evaluating its repr; equal objects have equal hashes and objects differing in any defining parameter compare unequal. An unflattened or pickled random deviate or noise model continues the same random stream.",
    ["inputs"],
    "all public classes and all constructor argument values, including nested objects and non-default options",
    "Tests round-trip one instance of a few classes; a dropped or reordered field is invisible unless that field is non-default.",
    [J + x for x in ("core/utils.py", "gsobject.py", "gsparams.py", "image.py", "bounds.py", "position.py", "shear.py", "angle.py", "celestial.py", "wcs.py", "fitswcs.py", "interpolant.py", "interpolatedimage.py", "random.py", "noise.py", "photon_array.py", "transform.py", "sum.py", "convolve.py", "sensor.py")],
    [("pytree protocol, __eq__/__hash__/__repr__/__getstate__", "every public class")],
    ["jax.tree_util.tree_flatten/tree_unflatten", "pickle", "copy", "eval(repr(x))", "==", "hash"],
)

prop(
    "C08",
    "Images behave as GalSim images through any history of operations",
    "Through any sequence of constructing, indexing, sub-image reading and assignment, shifting, recentering, resizing, filling, copying, dtype conversion, inverting and in-place or binary arithmetic, an image holds the "
    "pixels, bounds, dtype and WCS that GalSim's image holds after the same sequence, with float values that reach an integer image through another image, a conversion or in-place arithmetic rounded to nearest (the dtype of mixed-dtype arithmetic follows JAX's promotion rules where these differ from NumPy's). Arrays, copies and sub-images obtained earlier never change when the image is later modified, and constant images and invalid accesses are rejected without effect.",
    ["histories", "inputs"],
    "all finite sequences of image operations over all dtypes, shapes and origins",
    "Unit tests check single operations from a fresh image; aliasing, stale bounds or WCS, and dtype drift appear only after particular sequences.",
    [J + "image.py", J + "bounds.py"],
    [("functional replacement of the pixel array", "jax_galsim/image.py Image.__setitem__, __iadd__, array setter"), ("bounds-checked access", "jax_galsim/image.py setSubImage/getValue/setValue")],
    ["Image.array", "Image.bounds", "Image.dtype", "Image.wcs"],
    state=[{"name": "pixel array", "meaning": "immutable JAX array currently held", "where": "jax_galsim/image.py Image._array"}],
)

prop(
    "C09",
    "Image transforms conserve and invert: FFT, wrap, flips, rotations",
    "For every image, the Fourier transform agrees with GalSim and the inverse transform restores the image (padded as documented); wrapping onto any sub-bounds, with or without Hermitian symmetry, adds every pixel exactly once to the place GalSim puts it and so conserves the total; "
    "transpose, flips and quarter rotations move each pixel to the place GalSim puts it and compose as the symmetries of the square. FFT size selection returns the smallest good size not below its argument.",
    ["inputs"],
    "all real and complex images of any shape, parity, origin and scale, all wrap bounds",
    "Tests use a few shapes; off-by-one errors at odd/even sizes, non-square images or shifted origins need other geometries.",
    [J + "image.py", J + "core/wrap_image.py", J + "gsobject.py"],
    [("FFT conventions", "jax_galsim/image.py calculate_fft/calculate_inverse_fft"), ("wrapping loops", "jax_galsim/core/wrap_image.py")],
    ["Image.calculate_fft", "Image.calculate_inverse_fft", "Image.wrap", "transpose/flip_lr/flip_ud/rot_cw/rot_ccw/rot_180", "Image.good_fft_size"],
)

prop(
    "C10",
    "Bounds and positions form GalSim's algebra",
    "Bounds of either numeric kind obey set algebra exactly as GalSim's do: intersection, union with bounds or positions, containment, shifting, expansion, border, center, true center, area, definedness and shape, for defined, degenerate and undefined operands alike. "
    "Positions form a vector space under addition, subtraction, negation, scaling, division and shearing with the integer/float kinds GalSim yields, and casting or conversion keeps values.",
    ["inputs", "histories"],
    "all bounds and positions, including empty, single-point and undefined ones, and all sequences of operations on them",
    "Tests check one or two bounds per operation; undefined and degenerate operands combine in many ways.",
    [J + "bounds.py", J + "position.py"],
    [("bounds arithmetic", "jax_galsim/bounds.py Bounds.__and__/__add__/includes/withBorder/shift/expand"), ("position arithmetic", "jax_galsim/position.py")],
    ["Bounds and Position operators and properties"],
)

prop(
    "C11",
    "Shears and angles obey their composition laws and match GalSim",
    "Shears built from any equivalent parametrization (g, e, eta, q with angle, complex) report GalSim's components, matrix, axis ratio and position angle, agree across parametrizations, and compose, invert, subtract and rotate as GalSim's do, with the composed matrix and rotation satisfying the polar decomposition of the matrix product. "
    "Angles convert between all units without loss, wrap into the half-open turn around any center, agree with GalSim's trigonometry, and parse/format sexagesimal strings to the stated precision so that formatting then parsing returns the same angle.",
    ["inputs"],
    "all shears with modulus below one (including zero and near-one) and all angles, units and string formats",
    "Tests in tests/jax barely construct a Shear or Angle; the GalSim and Coord suites that did are absent here.",
    [J + "shear.py", J + "angle.py"],
    [("shear conversions and addition", "jax_galsim/shear.py"), ("unit conversion, wrap, hms/dms parsing", "jax_galsim/angle.py")],
    ["Shear properties and operators", "Angle operators, wrap, hms/dms, from_hms/from_dms"],
)

prop(
    "C12",
    "Celestial geometry agrees with the Coord reference everywhere on the sphere",
    "For every pair or triple of points on the sphere, distance, great-circle point, angle between, spherical-triangle area, Cartesian conversion, and the precession, galactic and ecliptic transformations agree with the reference Coord library, and their inverses undo them. "
    "Projecting to the tangent plane in each supported projection agrees with the reference, deprojecting inverts it, and the reported local Jacobian is the derivative of the deprojection.",
    ["inputs"],
    "all sky positions including poles, wrap-around, coincident and antipodal points, all projections and epochs",
    "tests/jax checks a handful of points; poles, meridian wrap and near-coincident points are where formulas lose accuracy or branch.",
    [J + "celestial.py", J + "angle.py"],
    [("spherical trigonometry", "jax_galsim/celestial.py distanceTo/_triple/area/greatCirclePoint"), ("projections", "jax_galsim/celestial.py _project/_deproject/_jac_deproject")],
    ["CelestialCoord methods"],
)

prop(
    "C13",
    "Euclidean WCS maps are invertible, consistent and equal to GalSim's",
    "For every pixel-scale, sheared, Jacobian, offset, offset-shear and affine WCS, positions (scalar or array), profiles, shears and images convert between image and world coordinates as in GalSim and converting back restores the original; "
    "local, Jacobian and affine approximations, pixel area, linear scales, decomposition into scale, shear, rotation and flip, inverse, shifted or recentered origins, comparisons and coordinate images are mutually consistent and equal GalSim's.",
    ["inputs", "histories"],
    "all Euclidean WCS classes and parameters (including flips and negative determinants), all positions, all origin-shift sequences",
    "tests/jax constructs each WCS about once; the GalSim WCS suite is absent here.",
    [J + "wcs.py"],
    [("linear maps and origin bookkeeping", "jax_galsim/wcs.py _u/_v/_x/_y, _shiftOrigin, local/jacobian/affine/withOrigin")],
    ["toWorld/toImage/local/jacobian/affine/withOrigin/shiftOrigin/pixelArea/minLinearScale/maxLinearScale/getDecomposition/makeSkyImage"],
)

prop(
    "C14",
    "Celestial FITS WCS agree with GalSim and invert themselves",
    "For every supported FITS celestial WCS (TAN, STG, ZEA, ARC, each optionally with SIP distortion, TPV, TNX, and TAN built from an affine transform), world positions, local Jacobians, pixel areas, shifted origins and drawn coordinates agree with GalSim's for the same header, and image-to-world followed by world-to-image returns the starting position. "
    "Writing the WCS to a header and reading it back yields an equivalent WCS.",
    ["inputs"],
    "all valid headers (any reference point, CD/CDELT/PC form, axis order, units, distortion coefficients), all pixel positions",
    "Only one file-based test existed and it cannot run here; header forms and distortion orders are a large space.",
    [J + "fitswcs.py", J + "wcs.py", J + "celestial.py", J + "utilities.py"],
    [("header parsing and distortion polynomials", "jax_galsim/fitswcs.py GSFitsWCS._read_header/_read_sip/_read_tpv/_read_tnx"), ("Newton inversion", "jax_galsim/fitswcs.py _invert_ab_noraise")],
    ["GSFitsWCS/FitsWCS/TanWCS .toWorld/.toImage/.local/.writeToFitsHeader"],
)

prop(
    "C15",
    "Images, headers and coordinate systems survive FITS input/output",
    "Writing an image (single, list, or cube; compressed or not; any pixel type) with any supported WCS and origin and reading it back, with this library or with GalSim, restores pixels, dtype, bounds and an equivalent WCS, and files written by GalSim read back the same way. "
    "Multi-extension order is preserved, and header objects keep keys, values and comments through edits, copies and files.",
    ["inputs", "histories"],
    "all image types, shapes, origins, WCS types, compressions and file layouts",
    "No test in tests/jax writes a FITS file.",
    [J + "fits.py", J + "_pyfits.py", J + "wcs.py", J + "image.py"],
    [("conversion to and from GalSim images around GalSim's FITS layer", "jax_galsim/fits.py"), ("WCS header keywords", "jax_galsim/wcs.py writeToFitsHeader/readFromFitsHeader")],
    ["fits.write/writeMulti/writeCube/read/readMulti/readCube", "FitsHeader"],
)

prop(
    "C16",
    "Random deviates are deterministic, explicit-state streams",
    "A deviate's outputs are a function only of its seed and the number of values drawn since: the same seed and same sequence of draws gives the same values, drawing one at a time, discarding, filling arrays, generating from variances or expectations, and clearing caches advance the stream by exactly the number of values produced, and raw, duplicated, serialized, copied, unflattened or state-reset deviates continue exactly where the source stood. "
    "Deviates constructed from another deviate share its current state without duplicating or losing values as documented, different seeds give different streams, and no draw depends on anything else, including jit.",
    ["histories", "inputs"],
    "all sequences of draw/generate/discard/seed/reset/duplicate/serialize operations on all deviate types and seeds",
    "Tests check fixed seeds and single operations; state that fails to advance or is shared wrongly needs a longer history.",
    [J + "random.py"],
    [("one key split per value", "jax_galsim/random.py _DeviateState, BaseDeviate.discard/generate"), ("state sharing", "jax_galsim/random.py BaseDeviate.reset/duplicate/serialize")],
    ["BaseDeviate and subclasses: __call__/generate/discard/raw/seed/reset/duplicate/serialize"],
    state=[{"name": "PRNG key", "meaning": "current stream position", "where": "jax_galsim/random.py _DeviateState.key"}],
)

prop(
    "C17",
    "Each deviate draws from the distribution it names",
    "For every parameter choice, values drawn from the uniform, Gaussian, binomial, Poisson, Weibull, gamma and chi-squared deviates (singly, in arrays, or via per-value variances and expectations) follow the named distribution with the given parameters, lie in its support, and are mutually independent across successive draws and array elements (Poisson means above 2^17 may use the Gaussian limit).",
    ["inputs", "histories"],
    "all parameter values in the supported ranges and all ways of drawing",
    "A test can pin a few moments at one parameter value with a fixed seed; wrong parametrization at other values or correlation between draws stays unseen.",
    [J + "random.py"],
    [("distribution transforms of JAX primitives", "jax_galsim/random.py _generate_one methods")],
    ["deviate __call__/generate/generate_from_variance/generate_from_expectation"],
)

prop(
    "C18",
    "Noise models add the stated noise, once, and never repeat it",
    "Applying Gaussian, Poisson, CCD, deviate or variable-Gaussian noise to an image changes pixel values by noise whose mean and per-pixel variance are those the model states for that image (including sky level, gain and read noise), keeps dtype (on integer images the noise of one pixel is truncated to whole counts), bounds and WCS, and advances the model's random stream so that successive applications are independent while equal seeds reproduce equal noise. "
    "Reported variances, variance rescaling and noise-to-target-SNR scaling match GalSim's formulas.",
    ["inputs", "histories"],
    "all noise models and parameters, all image dtypes and sizes, all application histories",
    "tests/jax never applies noise twice and has no noise test; variance and independence are statistical properties over many pixels and applications.",
    [J + "noise.py", J + "image.py", J + "random.py"],
    [("noise application and RNG advance", "jax_galsim/noise.py _applyTo of each class"), ("variance bookkeeping", "jax_galsim/noise.py getVariance/withVariance/withScaledVariance")],
    ["BaseNoise.applyTo / Image.addNoise / Image.addNoiseSNR / getVariance"],
)

prop(
    "C19",
    "Shot photons represent the profile and conserve its flux",
    "Photons shot from any supported profile or composition carry total flux equal to the profile's (with the documented Poisson variation when requested), are distributed as its surface brightness, and depend only on the given random state. "
    "Drawing by photon shooting puts each photon inside the image into the pixel containing it once and only once, accounts for photons falling outside, honours offsets, WCS, gain, maximum photons per batch and add_to_image as GalSim does, and using a fixed-size photon buffer changes only which slots are kept, never the flux represented.",
    ["inputs", "configurations"],
    "all shootable profiles, photon counts, Poisson options, fixed buffer sizes, image geometries and seeds",
    "Tests check a few profiles' moments with one seed; flux conservation under masking, batching and options is a product space.",
    [J + x for x in ("photon_array.py", "gsobject.py", "sensor.py", "core/draw.py", "sum.py", "convolve.py", "transform.py", "interpolatedimage.py", "interpolant.py")],
    [("photon count and flux bookkeeping", "jax_galsim/core/draw.py calculate_n_photons, jax_galsim/gsobject.py drawPhot/makePhot/shoot"), ("photon accumulation", "jax_galsim/photon_array.py addTo")],
    ["GSObject.shoot/makePhot/drawPhot/drawImage(method='phot')", "PhotonArray.addTo"],
)

prop(
    "C20",
    "Photon arrays behave as GalSim photon arrays through any history",
    "Through any sequence of construction, field assignment, flux and position scaling, copying between arrays by index, convolution, accumulation onto an image, and file round trip, a photon array holds the positions, fluxes, angles, wavelengths, pupil positions and times that GalSim's would hold after the same sequence. "
    "When some slots are masked out, the visible total flux, size and accumulated image are those of the kept photons alone, and operations on masked arrays conserve the flux of kept photons.",
    ["histories", "inputs"],
    "all finite operation sequences over photon arrays of any size, index sets and masks",
    "Tests cover a few operations on fresh arrays and single masks.",
    [J + "photon_array.py"],
    [("flux scaling for masked slots", "jax_galsim/photon_array.py flux property, _copyFrom, convolve"), ("accumulation", "jax_galsim/photon_array.py addTo/_add_photons_to_image")],
    ["PhotonArray properties and methods"],
    state=[{"name": "keep mask", "meaning": "slots excluded from the represented photons", "where": "jax_galsim/photon_array.py PhotonArray._nokeep"}],
)

prop(
    "C21",
    "Special functions, interpolation and quadrature meet their accuracy",
    "Over their whole domains, the modified Bessel functions of real order, the Bessel function of order zero and the sine integral agree with reference implementations and obey their recurrences and parity; Akima spline and polynomial helpers interpolate their nodes and agree with references; "
    "one-dimensional integration over finite and infinite ranges returns the integral to the requested tolerance or reports failure; root bisection returns a bracketed root.",
    ["inputs"],
    "all orders, arguments (tiny, moderate, huge, at branch points), integrands and ranges",
    "Tests compare a fixed grid; series/continued-fraction/asymptotic switch points and integer or half-integer orders are where errors hide.",
    [J + x for x in ("bessel.py", "integ.py", "core/interpolate.py", "core/integrate.py", "core/utils.py", "utilities.py")],
    [("regime switching", "jax_galsim/bessel.py kv/j0/si"), ("adaptive quadrature", "jax_galsim/integ.py int1d")],
    ["bessel.kv/j0/si", "integ.int1d", "utilities.horner/horner2d", "core.interpolate.akima_interp"],
)

prop(
    "C22",
    "Accuracy parameters propagate and invalid requests are refused",
    "Accuracy parameters given to a composite profile reach every component and every derived quantity exactly as in GalSim, the parameters of combined profiles are merged as GalSim merges them, disabling propagation keeps components unchanged, and changing parameters never alters the original object. "
    "A call that GalSim rejects because its arguments are missing, contradictory, of the wrong kind or out of range is rejected here too with an error of the corresponding kind unless the documentation says otherwise, and leaves its operands unchanged.",
    ["configurations", "inputs"],
    "all GSParams fields and values, all composite profiles, all invalid argument combinations of the public API",
    "Tests check a default GSParams on single objects and few error paths.",
    [J + x for x in ("gsparams.py", "gsobject.py", "transform.py", "sum.py", "convolve.py", "errors.py", "image.py", "shear.py", "wcs.py", "bounds.py", "photon_array.py", "interpolatedimage.py")],
    [("GSParams.check/combine and withGSParams", "jax_galsim/gsparams.py and withGSParams of each profile"), ("argument validation", "constructors and drawing entry points")],
    ["withGSParams", "gsparams attributes", "exceptions raised"],
)

prop(
    "C23",
    "The API is a strict subset of GalSim's and objects convert both ways",
    "Every public name, method, property and call signature that this library shares with GalSim accepts the arguments GalSim accepts for it (apart from documented omissions and private additions) in the same order with the same defaults, and no public attribute exists that GalSim lacks apart from documented JAX-specific ones. "
    "Every object with conversion support converts to GalSim and back without changing any value, and the converted objects behave alike.",
    ["inputs", "programs"],
    "all public callables and attributes, all convertible objects with any parameter values",
    "Tests compare names at fixed instances and convert few objects; defaults and argument order are not compared everywhere.",
    ["jax_galsim/__init__.py", J + "core/utils.py", J + "bounds.py", J + "position.py", J + "shear.py", J + "angle.py", J + "celestial.py", J + "gsparams.py", J + "image.py", J + "wcs.py", J + "photon_array.py", J + "random.py"],
    [("to_galsim/from_galsim", "methods on bounds, positions, shears, angles, coordinates, parameters, images, WCS, photon arrays"), ("wrapped signatures", "jax_galsim/core/utils.py implements")],
    ["inspect.signature", "dir", "to_galsim/from_galsim"],
)

prop(
    "C24",
    "Operations leave their arguments and earlier results untouched",
    "Except for the documented in-place methods on their own receiver, no public call changes any argument or previously created object: profiles, images, WCS, bounds, positions, shears, headers, parameter sets, arrays and lists passed in compare equal to their state before the call, and repeating a deterministic call gives the same result. "
    "In-place operators rebind or update only their target, and random state advances only in the deviates that are documented to be used.",
    ["histories", "inputs"],
    "all public calls on all argument objects, in any order and repeated",
    "Tests look at return values; a mutated argument, cached state or mutable default is only visible on a later call.",
    [J + x for x in ("gsobject.py", "image.py", "wcs.py", "bounds.py", "position.py", "photon_array.py", "transform.py", "sum.py", "convolve.py", "interpolatedimage.py", "noise.py", "random.py", "utilities.py")],
    [("functional updates and explicit copies", "throughout; e.g. jax_galsim/image.py copy, jax_galsim/gsobject.py drawImage setup")],
    ["snapshots of arguments before and after calls"],
)

prop(
    "C25",
    "The library works in JAX's default single-precision mode",
    "With 64-bit types switched off, as JAX has them by default, every public operation on profiles, their transformations and combinations, drawing, interpolated images, images and their transforms, Euclidean WCS, FITS files, noise, photon arrays and random numbers still accepts the same arguments, terminates, and returns what it returns in double precision up to single-precision rounding; "
    "in particular thresholds, safe denominators, loop tolerances and integer ranges chosen with double precision in mind never produce NaN, infinite loops or grossly wrong values, except for parameters whose intermediate values exceed single precision's range.",
    ["inputs", "configurations"],
    "all generated inputs of the other properties, executed with jax_enable_x64 off",
    "The whole test suite runs with 64-bit types enabled; the mode users get by default is never executed.",
    ["jax_galsim/" + x for x in ("gsobject.py", "gaussian.py", "exponential.py", "moffat.py", "spergel.py", "box.py", "transform.py", "interpolatedimage.py", "interpolant.py", "image.py", "wcs.py", "random.py", "noise.py", "photon_array.py", "fits.py")],
    [("dtype handling", "float dtype choices in jax_galsim/core/utils.py, image.py, random.py"), ("thresholds and safe denominators", "profile modules and jax_galsim/core")],
    ["values of every operation with jax_enable_x64 off"],
)

if __name__ == "__main__":
    for p in P:
        p["statement"] = " ".join(p["statement"].split())
        print(json.dumps(p))
