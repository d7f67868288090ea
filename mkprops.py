#!/usr/bin/env python3
"""writes properties.jsonl (kept as a script so statements stay reviewable)"""
import json, os

P = []


def p(id, title, statement, qtext, why, files, mech, over=("inputs",), observe=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": list(over), "text": qtext},
        "why_tests_cant": why,
        "anchors": {"files": ["jax_galsim/" + f for f in files],
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    **({"observe_at": [observe] if isinstance(observe, str) else observe} if observe else {})},
    })


SAMP = "The tests evaluate a handful of fixed parameter values; a deviation confined to other parameter regions, branches or combinations goes unseen."

p("P01", "Bounds form a lattice with exact intersection, union, shift and expansion",
  "For float and integer bounds, the intersection contains exactly the points in both boxes (undefined when disjoint), the union (+) is the smallest box containing both arguments, and undefined boxes behave as the empty set in every operation. Shifting, adding a border, expanding about the centre, area, centre, numpy shape, membership and equality are exact for every box, whether its coordinates are plain Python numbers or traced values. For integer bounds the centre and the sizes are exact integers.",
  "all box coordinates (defined, degenerate, undefined), all shifts, borders, scale factors and query points", SAMP,
  ["bounds.py"], [("BoundsD/BoundsI construction, &, +, shift, withBorder, expand, includes, center, area", "bounds.py")])

p("P02", "Image pixel addressing: reads, writes and views hit exactly the named pixel",
  "For an image with bounds (xmin,xmax,ymin,ymax), reading pixel (x,y) returns the value stored at array row y-ymin, column x-xmin; writing or adding to pixel (x,y) changes that pixel and no other; a sub-image over contained bounds holds exactly the pixels of those bounds and assigning to it changes exactly those pixels of the parent. Shifting or re-centring changes the coordinates only, and fill, setZero, invertSelf, copy, copyFrom, resize and constant arrays do exactly what they say pixel by pixel.",
  "all pixel values, all image origins, all pixel coordinates inside the bounds, small image shapes", SAMP,
  ["image.py"], [("Image.__getitem__/__setitem__/getValue/setValue/addValue/subImage/setSubImage/shift/setCenter/setOrigin/copyFrom", "image.py")])

p("P03", "Image transpose, flips and rotations permute pixels exactly",
  "Transposing, flipping left-right or up-down, and rotating by 90 degrees clockwise, counter-clockwise or by 180 degrees move every pixel to its mirrored or rotated position without altering its value and carry the origin with them in the documented way. Flips, transposition and the 180-degree rotation are involutions, and the clockwise and counter-clockwise rotations undo each other.",
  "all pixel values, small rectangular shapes, all origins", SAMP,
  ["image.py"], [("Image.transpose/flip_lr/flip_ud/rot_cw/rot_ccw/rot_180", "image.py")])

p("P04", "Image arithmetic is pixelwise, and in-place operators match the binary ones",
  "Adding, subtracting, multiplying, dividing, floor-dividing, taking the modulus or powers, negating, and bitwise combining images with images or scalars acts independently on every pixel with ordinary numeric semantics and leaves the operands, the bounds and the coordinate system untouched. In-place versions store the same values into the existing image keeping its dtype (rounding to nearest when the image is integer valued). Images of different shape are refused.",
  "all pixel values and scalars, float and integer dtypes, small shapes", SAMP,
  ["image.py"], [("Image operators", "image.py")])

p("P05", "Image wrapping folds every pixel onto its periodic (or hermitian) image",
  "Wrapping an image into a sub-box adds each pixel of the image to the pixel of the box congruent to it modulo the box size, so the total is preserved and nothing else changes. In the hermitian modes the missing half-plane is filled from the complex conjugate at the mirrored frequency before folding.",
  "all pixel values; small image shapes and wrap boxes", SAMP,
  ["image.py", "core/wrap_image.py"], [("Image.wrap, wrap_nonhermitian, wrap_hermitian_x, wrap_hermitian_y", "core/wrap_image.py")])

p("P06", "Image FFTs equal the discrete Fourier transform and invert each other",
  "The forward FFT of an image equals the discrete Fourier sum over its pixels with the documented frequency spacing and bounds, the inverse FFT applied to it returns the image, and the real-input inverse agrees with the complex one; both are linear. The Fourier image holds the non-negative half-plane only, and images whose size is not square are zero-padded before transforming.",
  "all pixel values; image sizes up to 8x8", SAMP,
  ["image.py"], [("Image.calculate_fft/calculate_inverse_fft", "image.py")])

p("P07", "The good FFT size is the smallest admissible size not below the request",
  "For every requested size the returned FFT size is even, of the form 2^n or 3*2^n, not below the request (up to the documented relative reduction of 1e-5), and no smaller even size of that form would do.",
  "all requested sizes, integer or fractional, up to 2^14 (quick) or 2^20 (thorough)", "The tests check a handful of sizes.",
  ["image.py"], [("Image.good_fft_size", "image.py")])

p("P08", "Shear conversions, composition and matrices are mutually consistent",
  "Building a shear from any of its parametrisations (g, e, eta, q, components or magnitude and position angle) and reading back any other agrees with the defining relations between them, including the region of very small shear. Adding two shears is the Lorentz-like composition of their complex values, negation is its inverse, and the shear matrix is the symmetric unit-determinant matrix whose products realise that composition up to a rotation.",
  "all shears of magnitude below 0.95, all position angles", SAMP,
  ["shear.py"], [("Shear constructor and properties", "shear.py"), ("composition, matrix, rotationWith", "shear.py")])

p("P09", "Angles: unit conversion, arithmetic and wrapping are exact",
  "An angle built from a number and a unit has that many units of that size; adding, subtracting, negating, scaling, dividing and comparing angles acts on the underlying size. Wrapping about a centre returns an angle that differs by a whole number of turns and lies within half a turn of the centre, and sine, cosine and tangent agree with the size of the angle. The sexagesimal strings (degrees or hours, minutes, seconds) printed for an angle denote that angle to the requested precision and parse back to it.",
  "all angle sizes up to 100 turns, all units, all wrap centres", SAMP,
  ["angle.py"], [("Angle, AngleUnit", "angle.py")])

p("P10", "Euclidean WCS: image and world coordinates are inverse maps",
  "For every uniform or affine Euclidean coordinate system the map from image to world coordinates is the documented affine map and the inverse map undoes it exactly, for positions, shears and whole profiles. Converting a profile to world coordinates and back leaves its surface brightness unchanged up to the documented pixel-area factor.",
  "all coordinate systems with non-degenerate Jacobian, all positions", SAMP,
  ["wcs.py"], [("PixelScale, ShearWCS, JacobianWCS, OffsetWCS, OffsetShearWCS, AffineTransform", "wcs.py")])

p("P11", "WCS local Jacobian, pixel area, origin shifts and decomposition agree",
  "The local coordinate system of any WCS at a position has the Jacobian of its image-to-world map there, its pixel area is the absolute determinant of that Jacobian, and minimum and maximum linear scale are its extreme singular values. Moving the origin changes the map only by that translation in image and world coordinates, and decomposing a Jacobian into scale, shear, rotation and flip reproduces it.",
  "all coordinate systems with non-degenerate Jacobian, all positions and origins", SAMP,
  ["wcs.py"], [("local, jacobian, pixelArea, minLinearScale, maxLinearScale, withOrigin/shiftOrigin, getDecomposition", "wcs.py")])

p("P12", "WCS survive the FITS header round trip",
  "Writing an Euclidean WCS to a FITS header and reading it back yields a WCS with the same image-to-world map for the same image bounds, including the image origin.",
  "all coordinate systems with non-degenerate parameters, all image origins", SAMP,
  ["wcs.py", "fitswcs.py"], [("_writeHeader/_readHeader, readFromFitsHeader", "wcs.py")])

p("P13", "Celestial projections and deprojections are inverse; distances are spherical",
  "For each tangent-plane projection (gnomonic, stereographic, Lambert, Postel) deprojecting a projected sky position returns it, the radial law is the documented one, and the direction on the tangent plane is preserved. Distances between sky positions equal the spherical central angle, are symmetric, and angles between and from great circles follow spherical trigonometry.",
  "all sky positions and projection centres within the validity of the projection", SAMP,
  ["celestial.py"], [("CelestialCoord.project/deproject/distanceTo/angleBetween/area", "celestial.py")])

p("P14", "Deprojection Jacobian is the derivative of the deprojection",
  "The Jacobian reported for a tangent-plane deprojection equals the derivative of the deprojected sky coordinates (the right ascension being counted along the tangent plane's +u axis, i.e. towards decreasing right ascension, and scaled by cos dec) with respect to the tangent-plane coordinates, for every projection.",
  "all tangent-plane points and projection centres away from the poles", SAMP,
  ["celestial.py"], [("CelestialCoord.jac_deproject", "celestial.py")])

p("P15", "FITS celestial WCS: pixel to sky and sky to pixel invert each other",
  "For tangent-projection FITS coordinate systems the pixel-to-sky map is the documented composition of the CD matrix, optional polynomial distortion and deprojection, and the sky-to-pixel map inverts it; the local Jacobian is its derivative.",
  "all CD matrices, distortion coefficients, positions within the stated bounds", SAMP,
  ["fitswcs.py"], [("GSFitsWCS, TanWCS", "fitswcs.py")])

p("P16", "Transforming a profile transforms its real-space and Fourier values exactly",
  "Shearing, rotating, magnifying, lensing, dilating, expanding, shifting and rescaling a profile yields the profile whose surface brightness at a point is that of the original at the inverse-transformed point times the documented amplitude, and whose Fourier transform is the original's at the transposed-transformed frequency times the shift phase. Successive transformations compose as the matrices do, and flux, centroid and maximum surface brightness transform accordingly.",
  "all linear maps, shifts and flux ratios within the stated bounds, all positions and frequencies", SAMP,
  ["transform.py", "gsobject.py"], [("Transformation", "transform.py"), ("GSObject.shear/rotate/dilate/magnify/lens/expand/shift/transform/withFlux/withScaledFlux", "gsobject.py")])

p("P17", "Flux conventions: k=0 value, flux scaling, symmetry of every profile",
  "For every profile the Fourier value at zero frequency equals the flux, both the surface brightness and the Fourier transform are proportional to the flux, and they are even (for circular profiles, functions of radius only). Multiplying, dividing, negating or setting the flux of a profile changes its values by exactly that factor.",
  "all profile parameters, fluxes, positions and frequencies within the stated bounds", SAMP,
  ["gaussian.py", "exponential.py", "moffat.py", "spergel.py", "box.py", "deltafunction.py", "gsobject.py"], [("xValue/kValue of each profile", "gaussian.py, exponential.py, moffat.py, spergel.py, box.py, deltafunction.py")])

p("P18", "Analytic profiles match their published formulae for size parameters",
  "Each analytic profile evaluated at a point equals its defining formula for every value of its parameters, the alternative size parametrisations (sigma, FWHM, half-light radius, scale radius) are mutually consistent, and box-like profiles are constant inside and zero outside their footprint.",
  "all profile parameters, positions and frequencies within the stated bounds", SAMP,
  ["gaussian.py", "exponential.py", "moffat.py", "spergel.py", "box.py"], [("profile formulae", "gaussian.py, exponential.py, moffat.py, spergel.py, box.py")])

p("P19", "Sums, convolutions and deconvolutions act linearly on profile values",
  "A sum of profiles has the sum of the components' values, Fourier values, fluxes and flux-weighted centroids; a convolution has the product of the components' Fourier values, the product of fluxes and the sum of centroids; deconvolving inverts convolving. The order of components does not matter and nested sums or convolutions equal flat ones.",
  "all component parameters, positions and frequencies within the stated bounds", SAMP,
  ["sum.py", "convolve.py"], [("Sum", "sum.py"), ("Convolution, Deconvolution", "convolve.py")])

p("P20", "Drawing an image samples the profile at the right place with the right scale",
  "Drawing a profile without pixel convolution puts in every pixel the surface brightness at that pixel's centre in world coordinates times the pixel area, measured from the image centre (or the given centre) plus the offset; drawing in Fourier space does the same for Fourier values. Drawing with add-to-image adds exactly that to the existing pixels, the flux scales linearly with gain, area and exposure, and pixels drawn through any coordinate system agree with transforming the profile by it.",
  "all fluxes, profile sizes, offsets, centres, pixel scales and coordinate systems within the stated bounds, small odd and even image sizes", SAMP,
  ["gsobject.py", "core/draw.py"], [("GSObject.drawImage/drawReal/drawKImage/_adjust_offset", "gsobject.py"), ("draw_by_xValue, draw_by_kValue, apply_kImage_phases", "core/draw.py")])

p("P21", "Interpolants: node values, support, symmetry and polynomial reproduction",
  "Each interpolation kernel is 1 at zero and 0 at the other integers where it is an exact interpolant, vanishes outside its declared range, and is an even function in real and Fourier space. Where the kernel promises to reproduce constants, linear, quadratic or cubic functions, interpolating samples of such a function reproduces it at every point.",
  "all positions inside and outside the kernel range", SAMP,
  ["interpolant.py"], [("Nearest, Linear, Cubic, Quintic, Lanczos, SincInterpolant, Delta", "interpolant.py")])

p("P22", "Interpolated images reproduce and interpolate their pixel data",
  "An interpolated image evaluated at a pixel centre returns that pixel's surface brightness, and elsewhere the kernel-weighted combination of the surrounding pixels, with zero beyond the support of the data. It is linear in the pixel values, honours pixel scale, offset, centring and flux normalisation, and its Fourier transform at zero frequency is its flux.",
  "all pixel values for small images, all positions", SAMP,
  ["interpolatedimage.py"], [("InterpolatedImage, _InterpolatedImageImpl", "interpolatedimage.py")])

p("P23", "Akima interpolation passes through its data and is linear-exact",
  "The one-dimensional Akima interpolant takes the given value at every node, reproduces straight lines exactly, is continuous with continuous derivative, and at every point depends only on the nearby nodes in the documented way.",
  "all node values and spacings for small tables, all evaluation points", SAMP,
  ["core/interpolate.py"], [("akima_interp and coefficients", "core/interpolate.py")])

p("P24", "Photon arrays keep flux accounting consistent under every operation",
  "Setting, scaling, shifting, concatenating, masking and convolving photon arrays changes positions and fluxes exactly as documented and preserves the total flux accounting, and photons carry their optional wavelength, angle, pupil and time data with them. Adding photons to an image deposits each photon's flux into the pixel containing it, drops those outside, and returns the flux deposited.",
  "all photon positions, fluxes and masks for small arrays", SAMP,
  ["photon_array.py", "sensor.py"], [("PhotonArray", "photon_array.py"), ("Sensor.accumulate", "sensor.py")])

p("P25", "Shot photons follow the profile's radial law and carry its flux",
  "For each profile that shoots photons the mapping from uniform deviates to photon positions inverts the cumulative flux of the profile, the photons carry total flux equal to the profile's flux (with sign handling for negative components), and shooting a transformed, summed or convolved profile transforms, mixes or adds the photon positions accordingly.",
  "all deviates, profile parameters and fluxes within the stated bounds, small photon counts", SAMP,
  ["gaussian.py", "exponential.py", "moffat.py", "spergel.py", "box.py", "deltafunction.py", "sum.py", "convolve.py", "transform.py"], [("_shoot", "each profile module")])

p("P26", "Random deviate state: draws, discards, copies and links are deterministic",
  "A deviate's sequence is a function of its seed or state: discarding n equals drawing n, filling an array equals that many single draws, a duplicate continues identically and independently, and deviates constructed from the same parent share one state. Serialising and restoring (including through pytree flattening) preserves the sequence, and each distribution is the documented function of the underlying draws and parameters.",
  "all generator states and distribution parameters, call histories of bounded length", "Tests fix a few seeds; whether state is threaded correctly for every history cannot be sampled.",
  ["random.py"], [("BaseDeviate and subclasses", "random.py")], over=("inputs", "histories"))

p("P27", "Noise models: advertised variance matches what is applied",
  "Each noise model adds to every pixel an independent draw with the advertised variance, withVariance and withScaledVariance change that variance to exactly the requested value or factor, and getVariance reports it. Applying noise advances the random state, so two applications use different draws, and integer images are rounded as documented.",
  "all variances, gains, sky levels and pixel values; small images", SAMP,
  ["noise.py"], [("GaussianNoise, PoissonNoise, CCDNoise, DeviateNoise, VariableGaussianNoise", "noise.py")], over=("inputs", "histories"))

p("P28", "Every object survives pytree flattening, jit and vmap boundaries unchanged",
  "Flattening any library object to its leaves and rebuilding it gives an object with the same observable values, for concrete and traced leaves alike, and passing objects through jit, vmap or tree-map of the identity changes nothing. Objects therefore behave identically inside and outside transformed functions.",
  "all leaf values of every registered class", SAMP,
  ["gsobject.py", "image.py", "bounds.py", "position.py", "angle.py", "shear.py", "wcs.py", "celestial.py", "random.py", "noise.py", "photon_array.py", "gsparams.py", "interpolant.py"], [("tree_flatten/tree_unflatten", "every module")])

p("P29", "Position arithmetic and shearing are exact vector algebra",
  "Adding, subtracting, negating, scaling and dividing positions acts on coordinates, integer positions stay integral, rounding picks the nearest integer, and shearing a position multiplies it by the shear matrix. Mixed float and integer positions combine to the right kind.",
  "all coordinates and factors", SAMP,
  ["position.py"], [("PositionD, PositionI", "position.py")])

p("P30", "Numeric core: bisection, quadrature, polynomials, Bessel functions are right",
  "Bracketed bisection ends within (high - low)/2^steps of a sign change of the function; the fixed-order quadrature and its error weights integrate polynomials of the supported degree exactly over any interval; Horner evaluation in one and two variables (full or triangular coefficients) equals the polynomial; image moments and shapes equal their defining sums; the safe square root and its derivative are zero at and below zero; and the modified Bessel function K satisfies its closed forms, symmetry, order recurrence and derivative rule.",
  "all coefficients, functions on a grid, intervals and bracket end points within the stated bounds", SAMP,
  ["core/utils.py", "core/integrate.py", "utilities.py", "core/math.py", "bessel.py"], [("bisect_for_root, ClenshawCurtisQuad, quad_integral, horner, horner2d, unweighted_moments, unweighted_shape, safe_sqrt, parse_pos_args", "core/utils.py, core/integrate.py, core/math.py, utilities.py"), ("kv, j0, si", "bessel.py")])

p("P31", "Objects exchanged with GalSim keep their values, types and FITS content",
  "Converting a position, bounds, angle, shear, sky coordinate, accuracy parameters, WCS (with its origins and distortion tables) or image to GalSim, or from GalSim, keeps every value in its place and gives the matching class, so a round trip is the identity; undefined bounds stay undefined. Writing an image through the FITS layer hands over exactly its pixels and bounds and leaves the image as it was, even when the writer fails; reading returns the pixels, bounds and header that were read.",
  "all values of every convertible class; small images with any origin and WCS", SAMP,
  ["angle.py", "bounds.py", "position.py", "shear.py", "celestial.py", "gsparams.py", "wcs.py", "image.py", "fits.py"], [("from_galsim/to_galsim", "every convertible class"), ("read/write, _image_as_numpy", "fits.py")])

p("P32", "Derivatives through the library equal the derivatives of the formulae",
  "Automatic differentiation of profile values, drawn pixels, coordinate maps and transformations with respect to their parameters equals the derivative of the underlying mathematical formula, at generic points and at the special points where a branch guards a removable singularity (zero shear, zero radius, zero frequency), and is always finite there.",
  "all parameters and positions within the stated bounds, including the guarded special points", SAMP,
  ["core/utils.py", "gaussian.py", "exponential.py", "transform.py", "shear.py", "box.py", "bessel.py"], [("custom derivatives and safe branches", "across modules")])

p("P33", "Photon counts and fluxes for photon shooting are bookkept exactly",
  "When drawing by photon shooting, the number of photons, the flux per photon and the correction factor satisfy count times mean photon flux equals the expected flux of the profile including gain, exposure and area, for positive, negative and zero flux and any limit on extra noise or flux per photon; with Poisson variation off the count is deterministic.",
  "all fluxes, negative-flux fractions, gains and limits within the stated bounds", SAMP,
  ["core/draw.py", "gsobject.py"], [("calculate_n_photons", "core/draw.py"), ("GSObject.drawPhot/makePhot", "gsobject.py")])

p("P34", "Accuracy parameters combine to the strictest requirement",
  "Combining sets of accuracy parameters yields, for each parameter, the value that satisfies the strictest of the inputs; combining is commutative, associative and idempotent and compound profiles use the combination of their components. Changing parameters on a copy changes only the named ones.",
  "all parameter values", SAMP,
  ["gsparams.py", "sum.py", "convolve.py"], [("GSParams.combine/withParams", "gsparams.py")])

if __name__ == "__main__":
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
        for x in P:
            f.write(json.dumps(x) + "\n")
    ids = [x["id"] for x in P]
    assert len(set(ids)) == len(ids)
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
