"""Writes DESIGN.md from the hand-written text below, properties.jsonl, the FUNCTIONS / ASSUMPTIONS lists of the checks,
known_findings.txt, seeded/*/meta.json and (when present) the evidence of the last quick run.  Not run by any check."""
import ast
import glob
import json
import os

HEAD = r"""# Solver-based checking of JAX-GalSim

Every property of `properties.jsonl` is decided by the same kind of machinery: the real functions of `/repo/jax_galsim`
are executed symbolically, the property is an assertion over the symbolic result, and z3 decides it for all values within
stated bounds.  Nothing is sampled and nothing is decided by looking at the source text.

## 1. How a check works

1. **Harness** (`checks/pNN.py`).  An *obligation* is a small function that calls the public API of the imported library
   on declared inputs (`F("x",-5,5)`, `I`, `Bo`, `Cx`, `Key`, `PI`/`PF` for Python numbers) and returns a list of *goals*: pairs
   (left, right) that must be equal to a relative/absolute tolerance, or booleans that must be true.  `assume` restricts the domain.
2. **Encoding from the current source.**  The harness is traced by `jax.make_jaxpr` on every run: the result is the compiler's
   intermediate representation of what the library *does now*, whatever its source looks like.  Python-level branches on
   symbolic values (`if x < 0`, `int(x)`, `%`) are followed by `vlib/fork.py`: Python numbers are proxies, each undecided
   comparison forks, and every feasible combination of outcomes is explored (the solver prunes the infeasible ones); exceptions
   raised on a path are an observable result like any other.
3. **Interpretation** (`vlib/jx.py`).  Each jaxpr equation is interpreted over arrays of symbolic terms
   (about 140 primitives, gather/scatter with symbolic indices, `cond`/`while`/`scan` with bounded unrolling plus an unwinding
   goal, FFT as the DFT sum, sort as a comparator network, PRNG as uninterpreted functions of the key, `lu` / `custom_linear_solve`
   through the linear system itself, small `inv`/`solve`/`det` in closed form).  Sub-computations whose inputs are all concrete are executed by JAX.
4. **Terms** (`vlib/term.py`).  Sparse polynomials with exact rational coefficients over atoms (variables, quotients, square
   roots, `ite`, floor, uninterpreted special functions), with interval bounds attached; sqrt/trig/exp/Bessel atoms carry
   their algebraic axioms (s^2 = argument, s^2+c^2 = 1, addition and parity laws, bounds).  `float64` constants are their exact rational values,
   multiples of pi are kept exact.
5. **Decision** (`vlib/prove.py`).  A goal whose two sides have the same normal form is closed by algebra (*closed by normal form*
   in the evidence); otherwise its negation, together with the domain, the atom axioms and the path condition, goes to z3,
   with case splits over the guards (`ite` conditions) that occur.  `unsat` = holds for all values within bounds.
6. **Counterexamples are replayed** on the real code, eagerly and under `jax.jit`, with the values of the model (and, when the
   model's irrational atoms make the values imprecise, nearby values found from it).  Only a confirmed failure is reported
   (`VIOLATION property=.. replay=..`; the replay file in `evidence/replays/` holds the obligation and the inputs, `check.py PXX --replay FILE`).
   An unconfirmed model is *inconclusive*: it is listed in the evidence, never reported as a violation.
7. **Translator validation.**  For each obligation (unless switched off there because compilation dominates) the symbolic outputs are evaluated
   at random concrete points and compared with the real code's output; a mismatch makes the obligation inconclusive.  `selftest.py` (setup_cmd) checks the
   interpreter itself against JAX and that z3 answers.
8. `check.py PXX --tier quick|thorough` shards the obligations over 8 processes, writes `evidence/PXX.json` (functions
   encoded, bounds per obligation, queries, solver time, primitives, inconclusive obligations) and exits 0 or 1.  The thorough tier adds larger
   sizes, more fully symbolic parameters and longer solver limits (`tier="thorough"` obligations).

To decide statements about *any* profile, `vlib/probe.py` registers a profile class whose surface brightness and Fourier transform are
polynomials with free symbolic coefficients: what transforming, summing, convolving or drawing does to it is then an identity of polynomials,
so the verdict is about every profile, not about Gaussians.  `vlib/sky.py` does spherical trigonometry on half-angle
parametrisations, so that celestial statements become polynomial identities.

## 2. What is assumed (applies to all properties)

* Floating point numbers are exact reals; equality is up to the tolerance of the goal (default 1e-6 relative + 1e-9 absolute, far below any defect of
  interest but above rounding).  Rounding-only effects, overflow and subnormals are outside, except where a goal is about NaN (P32): there a division by zero,
  a square root of a negative number or 0*inf is followed explicitly.
* exp, log, trigonometric, Bessel and Gamma functions are uninterpreted with the axioms they need; their numerical implementations are decided only where P30 does
  (JAX-GalSim's own polynomial tables), and otherwise trusted.
* Random draws (`jax.random` primitives) are uninterpreted functions of the key with the documented range.  Shuffles are a free permutation.
* Array sizes are fixed per obligation; loops are unrolled to the stated bound, with a goal that the bound is not exceeded.
* Collaborators outside the library (GalSim's own classes, FITS reader and writer, `galsim.utilities` at exchange time) are stand-ins that record what they
  are given where P31/P12/P24 say so.
* Derivatives (P32) are those of the jaxpr that JAX's own autodiff produces from the real code: `jax.grad` is applied in the harness and its result traced.
* The trusted base is JAX's tracer, the interpreter `vlib`, z3.  A wrong interpretation rule would show up in validation (7) or in the
  replay (6); it could in principle hide a defect, not invent one.

## 3. Properties

Cost is that of the last quick run when this file was written (8 processes).
"""

DECIDES = {
 "P01": "Set-theoretic meaning: a point is in a & b iff in both, a + b is the least box containing both, shift/expand/scale move the edges exactly; undefined boxes are absorbing/neutral as documented. Static boxes go through path forking (each comparison of edges is a branch), traced ones through the jaxpr.",
 "P02": "An image is modelled as the function (x,y) -> pixel; every read, write, add, sub-image view, `setSubImage`, shift and copy is compared with it for a free coordinate (gather/scatter with symbolic index), including out-of-bounds behaviour.",
 "P03": "Each pixel of the result is compared with the pixel named by the permutation; bounds are compared with the permuted bounds; composition laws (transpose twice, four rotations).",
 "P04": "Each operator is compared with the operator of its scalar type on each pixel; in-place against binary; integer promotion rules; error conditions.",
 "P05": "Each pixel of the wrapped image is compared with the explicit sum over the pixels congruent to it (or its hermitian conjugates).",
 "P06": "The k-image is compared with the explicit Fourier sum with the library's normalisation, sign, bounds and k spacing; the inverse (of the forward result, and of any free half-plane image) with the explicit inverse sum and the zero-padded image; refusals of unusable bounds.",
 "P07": "n = good size of N: n admissible (2^k or 3*2^k), n >= N, no smaller admissible size. Decided for every N by path forking over the loop of the real function.",
 "P08": "Definitions of e, g, eta, q, beta; all constructors agree; composition is the Moebius/e-addition law; the matrix is symmetric with unit determinant; rotation acts by twice the angle.",
 "P09": "Units are the documented multiples of a radian; algebra; comparisons; wrapping to a window around any centre; printing and parsing (dms/hms) followed symbolically: each printed integer is a token standing for its symbolic value.",
 "P10": "toImage(toWorld(p)) = p and conversely for float and integer positions, shears and profiles, against the documented linear map of each class; a user-defined nonlinear WCS exercises the generic code.",
 "P11": "local() is the derivative of the map; pixelArea is |det|; min/max linear scale; withOrigin / shiftOrigin move exactly; decomposition recomposes to the Jacobian; sky images hold flux times pixel area; equality.",
 "P12": "What writeToFitsHeader writes, readFromFitsHeader reads back to a WCS giving the same world position for every pixel.",
 "P13": "project/deproject against the spherical formulae and each other, distance, area, angle, xyz, galactic, ecliptic and precession conversions, on the half-angle parametrisation of the sphere.",
 "P14": "The Jacobian returned equals the derivative of the defining formula of the deprojection, and (jac-ad) the forward-mode derivative of the real deprojection itself; the tangent point separately.",
 "P15": "TAN/TPV/SIP/TNX headers: each stage (CD, distortion, projection) against its published definition; pixel->sky->pixel is the identity on the maps whose inverse is polynomial.",
 "P16": "For a probe profile with free polynomial brightness and transform: f(A^-1(x-d))*ratio, transform with phase, flux, centroid, maxk/stepk scalings, drawing and composition of transformations.",
 "P17": "kValue(0) = flux, linearity in flux of real and Fourier values, scaling with the size parameter, evenness and rotation symmetry, positivity/peak at the centre, |kValue| <= flux; withFlux, centroid and maxSB kept consistent.",
 "P18": "Each analytic profile's real and Fourier value against the closed form, conversions between size parameters, maxk/stepk definitions for the GSParams thresholds; tabulated transforms window by window.",
 "P19": "xValue/kValue/drawn images of Sum, Convolution and Deconvolution against sum/product/quotient of the components for probe components; flux, centroid, maxk/stepk limits, nesting, GSParams, no modification of operands.",
 "P20": "The array that drawImage leaves is compared pixel by pixel with the brightness of a probe at the world position the WCS assigns, times pixel area, gain, area and exposure; centre/offset/use_true_center/add/bounds/nx,ny/method/dtype combinations; the Fourier path (drawFFT, drawKImage) against its explicit DFT.",
 "P21": "Each kernel against its published formula, values at integers, support and parity, reproduction of polynomials up to the documented degree (with the flux-conserving corrections of Lanczos), integrals, Fourier transform against the transform of the piecewise polynomial, table bounds.",
 "P22": "xValue at pixel centres returns the pixel, elsewhere the explicit kernel sum; kValue against the explicit sum; the object interface (offset, scale, wcs, flux, normalisation), redrawing, sizes, pads, stepk/maxk, independence from later changes of the source image.",
 "P23": "Akima coefficients against the published construction, interpolation of the nodes, exactness on straight lines, locality, interval selection; fixed- and free-spacing search; the numpy version through path forking.",
 "P24": "Each photon operation against its meaning on the list of photons; total flux with masks; addTo adds each photon's flux to exactly one pixel; makeFromImage; FITS round trip.",
 "P25": "The position of the shot photon as a function of the deviate inverts the enclosed flux (closed form or table, table checked entry by entry); fluxes sum to the profile flux; sums, convolutions, transformations, interpolated images.",
 "P26": "Each operation's result and end state are terms over the key; equality of histories (duplicate, link, discard, fill, raw, serialise, pytree) is equality of terms; distribution laws of derived variates.",
 "P27": "What is added to each pixel is (scale)*(unit normal from a fresh key) or Poisson of the stated mean; getVariance equals that scale squared; independence = distinct successive keys.",
 "P28": "unflatten(flatten(x)) and passage through jit, cond, scan, vmap compared observable by observable.",
 "P29": "Componentwise arithmetic, integer/float position kinds, shear as the matrix.",
 "P30": "Bisection against every function table, quadrature exact on polynomials of its degree, Horner, Bessel K (recurrence, half-integer closed forms, symmetry, derivative), J0 and Si polynomials against their Taylor series, second moments of images, reduced shear to distortion.",
 "P31": "to_galsim/from_galsim and FITS I/O against recording stand-ins: every attribute kept.",
 "P32": "jax.grad of the real code against the derivative of the formula, at generic points and at the exact special points where masked branches produce NaN.",
 "P33": "Photon number, flux per photon, chunking and totals for any stand-in profile; drawPhot sums.",
 "P34": "combine: strictest of each parameter whatever the order; withParams and equality.",
}

TAIL = r"""
## 4. What is not decided

* No property is listed as not applicable, but parts of some are outside reach of this encoding and are excluded from the claims (each is also in the bounds above):
  - accuracy of special-function implementations inside JAX/XLA (`jax.scipy.special`), and the numerically built tables (Lanczos Fourier table, Moffat and Spergel
    photon/k tables: checked entry by entry or on windows, see P18, P21, P25), convergence of iterative solvers on maps without polynomial inverse (P15);
  - statistical quality of random numbers: P25-P27 and P33 decide how draws are threaded and used, not that `jax.random` is random;
  - text formatting of numbers by astropy (P12), file system behaviour, warnings and `repr` text (except angles, P09);
  - image sizes beyond the enumerated ones: the code is uniform in size (no size-dependent branches except padding, which P06/P07/P20 treat), but that is not proved;
  - concurrency: the library has none.
* `maxLinearScale` derivatives at exactly conformal Jacobians, and derivatives at genuine cusps, are excluded (P32).

## 5. False alarms met while building, and what was done

* Identities that hold only away from measure-zero seams (wrap of an angle exactly on the cut, photons exactly on a pixel edge, a point half way between two pixels for
  the Nearest interpolant, which GalSim counts twice) were first reported; the properties now state the convention or exclude the seam.
* Models with irrational atoms did not replay; they are inconclusive by construction, and the term layer learned the axiom that was missing (sum-of-squares registry,
  half-angle parametrisation, guarded square roots).
* An obligation whose harness names an internal that a refactoring renamed cannot run: it is reported as `ERROR` and counted as undecided, like an inconclusive one;
  only when fewer than half of a check's obligations hold does the check give no answer (exit 2).  Exceptions raised by the code under test on valid input are violations.
* Refactorings that keep behaviour but change the residual form of a term (masked `where` before `sqrt`, `inv` replaced by `solve`) made some obligations
  inconclusive (never violations); the engine now folds guarded roots and treats `lu`/linear solves through the equations they satisfy.
"""


def consts(p):
    out = {}
    for n in ast.parse(open("checks/%s.py" % p.lower()).read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("FUNCTIONS", "ASSUMPTIONS"):
            out[n.targets[0].id] = ast.literal_eval(n.value)
    return out


def main():
    os.chdir(os.path.dirname(os.path.abspath(__file__)))
    s = [HEAD]
    for l in open("properties.jsonl"):
        d = json.loads(l)
        p = d["id"]
        c = consts(p)
        s.append("\n### %s  %s\n" % (p, d["title"]))
        s.append(d["statement"] + "\n")
        s.append("* *Quantified over:* " + d["quantifier"]["text"] + ".")
        s.append("* *Decided by / oracle:* " + DECIDES[p])
        s.append("* *Code encoded:* " + "; ".join(c["FUNCTIONS"]) + ".")
        s.append("* *Bounds and assumptions:* " + "; ".join(c["ASSUMPTIONS"]) + ".")
        s.append("* *Beyond the tests:* " + d["why_tests_cant"])
        try:
            e = json.load(open("evidence/%s.json" % p))
            v = e["coverage"]
            names = sorted({x["obligation"].split("-")[0] for x in v.get("samples", [])})
            s.append("* *Obligation families:* " + ", ".join(names) + ".")
            s.append("* *Cost (quick):* %d obligations, %d goals (%d closed by normal form, %d solver queries), %.0f s of solver time; inconclusive: %s." % (
                v["obligations"], v["goals"], v["goals_closed_by_normal_form"], v["solver_queries"], v["solver_s"],
                ", ".join(map(str, v["inconclusive"])) or "none"))
        except OSError:
            pass
    s.append(TAIL)
    s.append("## 6. Genuine defects found\n")
    s.append("All were repaired by small `fix:` commits in /repo; the list (also in `known_findings.txt`):\n")
    for l in open("known_findings.txt"):
        if l.startswith("fixed:"):
            s.append("* " + l[len("fixed: property="):].strip())
        elif l.startswith("finding:"):
            s.append("* (open) " + l[len("finding: property="):].strip())
    s.append("\n## 7. Planted bugs (`seeded/`) and what catches them\n")
    s.append("Each passes the stable tests and fails its demonstration; \"caught\" is the verdict of that property's quick check on the patched tree.\n")
    s.append("| id | property | breaks | needs | quick check |\n|---|---|---|---|---|")
    try:
        res = json.load(open("seedresults.json"))
    except OSError:
        res = {}
    for f in sorted(glob.glob("seeded/*/meta.json")):
        m = json.load(open(f))
        i = f.split("/")[1]
        s.append("| %s | %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"], m["needs"], res.get(i, "caught")))
    s.append("")
    open("DESIGN.md", "w").write("\n".join(s))


if __name__ == "__main__":
    main()
