"""Writes /verif/properties.jsonl (kept as a script so that statements stay readable in review)."""
import json
import os

ZP = "src/zernpy/zernikepol.py"
CZ = "src/zernpy/calculations/calc_zernike_pol.py"
FC = "src/zernpy/calculations/find_pols_coeffs.py"
FZ = "src/zernpy/calculations/fit_zernike_pols.py"
CP = "src/zernpy/calculations/calc_psfs.py"
CN = "src/zernpy/calculations/calc_psfs_numba.py"
PSF = "src/zernpy/zernpsf.py"
IP = "src/zernpy/utils/intmproc.py"
PL = "src/zernpy/plotting/plot_zerns.py"
PR = "src/zernpy/props/properties.py"
P = []


def prop(id_, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id_, len(title))
    d = {"id": id_, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if observe:
        d["anchors"]["observe_at"] = observe
    if state:
        d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    P.append(d)


prop("P01", "Every way of naming a polynomial gives the same polynomial and indices",
     "For every valid pair of orders (m, n) with n <= 54, a polynomial built from its orders (under any documented keyword alias), its "
     "OSA/ANSI index, its Noll index or its Fringe index reports the same orders and the same three indices. The indices are those of the "
     "published OSA/ANSI, Noll and Fringe (University of Arizona) schemes, each scheme assigns different numbers to different polynomials, and "
     "all of them are plain Python integers.",
     ["inputs", "configurations"], "all (m, n) with n <= 54 x all documented keyword aliases (order, OSA, Noll, Fringe)",
     "Existing tests look at a handful of polynomials of order <= 7; agreement of three index schemes is a statement about all 1540 polynomials "
     "and every alias, with different parity branches of the formulas.",
     [ZP], [("orders -> OSA/Noll/Fringe formulas", ZP + ":get_osa_index, get_noll_index, get_fringe_index"),
            ("index -> orders search", ZP + ":index2orders"), ("keyword parsing", ZP + ":ZernPol.__init__")],
     ["ZernPol(...).get_indices()", "ZernPol(...).get_mn_orders()"])

prop("P02", "Index conversions are exact, mutually inverse and never silently wrong",
     "For every index of a polynomial with radial order n <= 54, converting OSA to Noll or to Fringe and back, and an index to its orders, returns exactly "
     "the value given by the published schemes, and any returned index is accepted as input by the other conversions. For an index that is "
     "not an integer, is below the first index of its scheme, or is beyond what the library can resolve, a conversion either returns the correct "
     "value or raises ValueError, and never returns an index of another polynomial.",
     ["inputs", "histories"], "all indices of the 1540 supported polynomials in each scheme, chains of conversions, and arbitrary (also huge, "
     "negative, non-integer) index values",
     "Tests convert a few small indices; the search limits are only reached by large indices, and round trips depend on returned types.",
     [ZP], [("index -> orders search with limits", ZP + ":index2orders"), ("conversions", ZP + ":osa2noll, noll2osa, osa2fringe, fringe2osa")])

prop("P03", "Impossible polynomials are rejected with ValueError",
     "Building a polynomial raises ValueError for every specification that does not name exactly one polynomial with radial order 0 <= n <= 54: "
     "orders with n < 0, |m| > n, n - |m| odd or n > 54; an index below the first index of its scheme or belonging to a polynomial with n > 54; "
     "non-integer orders or indices; unknown, missing or surplus keywords. No polynomial object comes out of such a call. Initializing an existing polynomial again with a valid specification is refused as well and leaves it unchanged.",
     ["inputs"], "arbitrary integer orders and indices around and far outside the valid region, non-integer values, arbitrary keyword sets",
     "Tests try a few wrong inputs; each of the nested conditions has a boundary that is only hit by particular combinations of m and n.",
     [ZP], [("sanity checks of orders and indices", ZP + ":ZernPol.__init__")])

prop("P04", "Radial polynomials are correct for every supported order",
     "For every valid (m, n) with n <= 54 and every radius r in [0, 1], the radial value equals the mathematically exact value of R(n, |m|) "
     "up to rounding error of evaluating the polynomial in double precision (never by more than 0.1, and for r = 1 it is 1 within the same limits). It is the same for m and -m.",
     ["inputs"], "all (m, n), n <= 54 (n > 48 only for those m whose recursion finishes in affordable time), radii over [0, 1] including 0, 1, tiny and near-1 values",
     "Tests compare implementations with each other for some orders at a few radii; three different algorithms (tables, coefficient search, recursion) "
     "switch at orders 12/13 and 40/41 and each table entry is a separate place to be wrong.",
     [CZ, FC, ZP], [("tables and recurrences", CZ + ":radial_polynomial"), ("coefficient search", FC + ":find_coeffs_orders"),
                    ("high-order recursion", CZ + ":radial_polynomial_coeffs")])

prop("P05", "Radial derivatives are correct for every supported order",
     "For every valid (m, n) with n <= 54 and every radius r in [0, 1], the radial derivative equals the exact derivative dR/dr of the radial polynomial up to "
     "the rounding error of evaluating it in double precision (never by more than 1% of the largest derivative, (n(n+2) - m^2)/2). It is the same for m and -m.",
     ["inputs"], "all (m, n), n <= 54 (high orders only for those m whose recursion finishes in affordable time), radii over [0, 1] including both ends",
     "Tests compare derivative implementations for low orders; the derivative has its own tables, its own coefficient search and its own "
     "high-order recursion with separate order limits (10, 12, 38).",
     [CZ, FC, ZP], [("tables and recurrences", CZ + ":radial_derivative"), ("coefficient search", FC + ":find_coeffs_orders_dr"),
                    ("high-order recursion", CZ + ":radial_polynomial_coeffs_dr")])

prop("P06", "Polynomial value is norm x radial x angular part, with the standard conventions",
     "For every valid (m, n) and point of the unit disk, the normalization factor is sqrt(n+1) for m = 0 and sqrt(2(n+1)) otherwise, the angular part is "
     "cos(m*theta) for m >= 0 and sin(|m|*theta) for m < 0 with the corresponding exact derivative in theta, and the polynomial value is the "
     "product of the normalization factor, radial value and angular part.",
     ["inputs"], "all (m, n) with n <= 46 x points of the unit disk, scalars and arrays",
     "Tests check some values of low orders; sign conventions for negative m and both normalization branches must hold for all orders and angles.",
     [CZ, ZP], [("normalization and angular functions", CZ + ":normalization_factor, triangular_function, triangular_derivative"),
                ("composition", ZP + ":polynomial_value")])

prop("P07", "Polynomials are orthonormal over the unit disk",
     "For any two supported polynomials with radial orders up to 44 (for |m| close to n up to 54), the mean over the unit disk of the product of their values is 1 if they are the same polynomial "
     "and 0 otherwise, within rounding error of the evaluation.",
     ["inputs"], "pairs of polynomials (m1, n1), (m2, n2) with orders up to 44, those with n - |m| <= 6 up to 54, integrated by quadratures exact for the degree",
     "Orthonormality relates all pairs of polynomials; no test integrates any of them.",
     [CZ, ZP], [("normalization and values", CZ + ":normalization_factor, radial_polynomial, radial_polynomial_coeffs")])

prop("P08", "The exact-equation option agrees with the default calculation up to its limits",
     "Requesting the exact (factorial) equation gives, for radial orders up to 40 (values) and 38 (radial derivatives), the same results as the exact mathematical "
     "polynomial within rounding error. Beyond these orders it always warns and returns zero (for an array of radii, zeros in the shape of the radii) instead of unreliable numbers.",
     ["inputs", "configurations"], "all (m, n), n <= 54, radii in [0, 1] as scalar and array, values / derivatives / full polynomial",
     "Tests compare for some orders; the limits differ between value and derivative, and each of the three methods has its own guard.",
     [CZ, ZP], [("factorial equations", CZ + ":radial_polynomial_eq, radial_derivative_eq"), ("order limits", ZP + ":polynomial_value, radial, radial_dr")])

prop("P09", "Array evaluation equals pointwise evaluation and never touches its inputs",
     "Evaluating a polynomial, its radial or angular part or their derivatives on a list, tuple or array of any shape gives, in the shape of the input, the same "
     "numbers as evaluating each point separately (also when one coordinate is a scalar and the other an array), and scalar input gives a scalar. The input containers are not modified and the result "
     "does not share memory with them.",
     ["inputs"], "all evaluation methods x container kinds (int, float, numpy scalar, list, tuple, 1D/2D/3D arrays, integer and float32 arrays) x orders of all calculation regimes",
     "Tests use scalars and a few 1D arrays; the scalar and array code paths differ per order and per algorithm.",
     [ZP, CZ, FC], [("type conversion and checks", ZP + ":_check_radii, _check_angles"), ("scalar/array branches", CZ + ":radial_polynomial, radial_derivative, *_eq, *_coeffs")])

prop("P10", "Coordinates outside the domain are refused; angles outside one period only warn",
     "If any radius passed to any evaluation method, wherever it is in the container, lies outside [0, 1], or if arrays of radii and angles have different shapes, "
     "the call raises ValueError; a text that is not a number given as a coordinate raises ValueError as well. Angles outside [0, 2*pi] give a warning and the "
     "periodic continuation of the value, angles and radii inside the domain (limits included) give neither error nor a warning about angles.",
     ["inputs"], "radius and angle containers with an offending element at any position and of any magnitude, all evaluation methods, sums and surfaces",
     "Tests give a few wrong inputs; the quantifier is over positions of the offending element, sizes of the violation and methods.",
     [ZP], [("domain checks", ZP + ":_check_radii, _check_angles, polynomial_value")])

prop("P11", "Results do not depend on what was calculated before",
     "In one process, any sequence of evaluations of values and derivatives of any polynomials (each also by its exact equation) gives for each call the same "
     "result as the mathematically correct one, whatever was evaluated before it, in which order, and how often, and whatever the caller did with earlier results. Objects representing the same polynomial are interchangeable.",
     ["histories"], "sequences of evaluations over polynomials of order 0..42 starting from a fresh process (empty caches)",
     "The coefficient search keeps process-wide caches and mutable tables that are shared between values and derivatives; tests evaluate in one fixed order.",
     [FC, CZ, ZP], [("cached coefficient search with mutable dictionaries", FC + ":find_coeffs_orders, find_coeffs_orders_dr"),
                    ("per-object warning flag", ZP + ":__show_slow_calc_warn")],
     state=[("coefficient tables", "cached coefficients of radial powers, process-wide", FC)])

prop("P12", "Sum of polynomials is the linear combination of their values",
     "The sum of polynomials at given points equals the sum of coefficient times value of each polynomial, for any number and order of terms, signs and zero coefficients in any "
     "position, for scalar or array coordinates. Unequal numbers of coefficients and polynomials, empty lists, or list members that are not polynomials raise ValueError.",
     ["inputs"], "lists of 1..12 polynomials (repetitions allowed) with arbitrary real coefficients incl. zeros, scalar / 1D / 2D coordinates",
     "Tests sum a few polynomials; skipping of zero coefficients and special handling of the first term need particular coefficient patterns.",
     [ZP], [("summation", ZP + ":sum_zernikes, _sum_zernikes_meshgrid")])

prop("P13", "Surfaces hold the sum on the mesh of radii (rows) and angles (columns)",
     "A surface requested for vectors of radii and angles is a matrix with one row per radius and one column per angle whose element [i, j] is the sum of "
     "polynomials at (radius i, angle j), for any relation between the vector lengths. Generated surfaces come with exactly the coordinate vectors on which they were computed, "
     "which are those of the coordinate generator with the same settings.",
     ["inputs", "configurations"], "vectors of lengths 1..40 in any ratio, any coefficients, both ways of generating coordinates",
     "Tests compare two implementations for one shape; the loop direction depends on which vector is longer.",
     [ZP], [("row-wise / column-wise filling", ZP + ":sum_zernikes"), ("surface generation", ZP + ":gen_zernikes_surface")])

prop("P14", "Generated polar coordinates cover exactly the unit disk with the requested steps",
     "Generated radii start at 0, increase by the requested step (the last step may be shorter), end at 1 and never exceed it, and generated angles do the same for 2*pi; all of "
     "them are accepted by the evaluation methods without warning. Steps outside (0, 0.5] for radii or (0, pi] for angles raise ValueError, "
     "and the equal-size variant gives the requested number (at least 4) of equidistant points on both ranges.",
     ["inputs"], "steps over the allowed ranges incl. 1/k, 2*pi/k and irrational ratios, invalid steps, numbers of points incl. below 4",
     "Tests use default steps; floating point ranges overshoot only for particular steps.",
     [ZP], [("coordinate generators", ZP + ":gen_polar_coordinates, gen_equal_polar_mesh")])

prop("P15", "Generated sets, ordering, equality and names of polynomials are consistent",
     "The set of polynomials generated for a maximal order N contains each polynomial with n <= N exactly once, in increasing OSA order; 'greater' and 'equal' comparisons agree "
     "with the OSA index for all pairs, and comparing with anything else raises ValueError. Polynomials of order up to 7 have non-empty, pairwise different long names which "
     "appear in their text form together with their orders and all indices, higher ones have none.",
     ["inputs"], "all N in 0..40, all pairs of polynomials, arbitrary non-polynomial operands",
     "Tests check one generated set; ordering and naming are statements about all polynomials and pairs.",
     [ZP, PR], [("generation", ZP + ":generate_polynomials"), ("comparison and text", ZP + ":__gt__, __eq__, __str__, get_polynomial_name"), ("names tables", PR)])

prop("P16", "Phase images hold the sum of polynomials per pixel, zero outside the circle",
     "A generated phase image has the requested height and width; each pixel at distance d from pixel (height//2, width//2) with d <= R = 1 + min(height, width)//2 holds the sum "
     "of the given polynomials with their amplitudes at radius d/R and the counterclockwise angle from the positive column direction (rows go down), every other pixel is 0.",
     ["inputs"], "image sizes 3..60 in both directions (odd, even, not square), any polynomials and amplitudes",
     "Tests generate square images of one size; orientation errors are invisible for symmetric sets and sizes.",
     [ZP], [("image generation", ZP + ":generate_phases_image")])

prop("P17", "Random phase images are consistent with the returned amplitudes",
     "A randomly generated phase image is, in every pixel, the image of the returned polynomials with the returned amplitudes; the returned polynomials are all those up to the requested "
     "order, one amplitude per polynomial, within [-1.5, 1.5] and at least one with magnitude 0.08 or more.",
     ["inputs", "histories"], "orders 0..9, sizes 3..40, states of the random generator",
     "The result is random: tests see one draw, while rare draws (all amplitudes zero or tiny) take a separate branch.",
     [ZP], [("random generation with fallback", ZP + ":generate_random_phases")])

prop("P18", "Fitting vectors recovers the amplitudes, or the least-squares solution",
     "Fitting phases that are a combination of the given polynomials at sufficiently many distinct points returns their amplitudes in the given order, rounded to the requested digits; for any other phases it "
     "returns the least-squares solution, and as many phases as radii times angles are treated as given on their mesh, stored radius by radius (also if there are as many radii as angles). "
     "Repeated or no polynomials and a number of phases which is neither that of the points nor of the mesh raise ValueError, phases, radii or angles that are not 1D raise TypeError, and inputs are not modified.",
     ["inputs"], "sets of 1..15 polynomials in any order with n <= 13, random well-conditioned point sets and meshes, phases with and without noise, rounding digits",
     "Tests fit a few fixed sets; recovery must hold for all sets, orders of terms and point layouts.",
     [FZ, ZP], [("least squares", FZ + ":fit_zernikes"), ("wrapper", ZP + ":fit_polynomials_vectors")])

prop("P19", "Fitting an image uses exactly the pixels of the inscribed circle",
     "For an image with odd side N the fit uses exactly the pixels whose distance to the central pixel does not exceed the crop radius times (N-1)/2 (with a tolerance of 0.1% of (N-1)/2), and the returned cropped image equals the input there and 0 elsewhere. "
     "For any image size (at least 3x3) the selected region is symmetric under left-right and up-down reflection and grows with the crop radius, strict border selects no more pixels than non-strict, and no pixel outside it influences the coefficients. "
     "Crop radii outside [0.5, 1], images with a side below 3 or not 2D raise ValueError.",
     ["inputs", "configurations"], "image sizes 3..40 odd/even/non-square, crop radii, both border modes, arbitrary pixel values",
     "Tests use one or two sizes; parity of rows and columns, non-square shapes and border mode select different branches.",
     [FZ, ZP], [("crop geometry", FZ + ":crop_phases_img"), ("wrapper", ZP + ":fit_polynomials")])

prop("P20", "Fitting an image recovers the polynomials drawn on it",
     "For an image of odd side N holding at each pixel the combination of given polynomials at radius distance/((N-1)/2) from the central pixel and counterclockwise angle (rows go down), the image fit returns the amplitudes of these polynomials within the resolution of the "
     "pixel coordinates, for any crop radius, border mode and values of pixels more than 0.2% outside the circle. The fit is linear in the image: fitting a*A + b*B gives a*fit(A) + b*fit(B), and it returns the number of decimals asked for.",
     ["inputs", "configurations"], "odd N in 15..61, sets of up to 10 polynomials with n <= 6, amplitudes, crop radii in [0.5, 1]",
     "Tests recover some coefficients at one size with wide tolerance; orientation and scale errors appear only for particular polynomials and crop radii.",
     [FZ, ZP], [("pixel -> polar coordinates", FZ + ":crop_phases_img"), ("least squares", FZ + ":fit_zernikes")])

prop("P21", "The PSF kernel is the diffraction integral of the aberrated pupil",
     "Every element of a not accelerated, not normalized kernel equals |1/pi * integral over the unit pupil of exp(i*(phase - k*NA*d*p*cos(phi - theta)))|^2, where phase is the sum of expansion coefficient / wavelength times polynomial value, d is the distance in physical units "
     "of the element from the kernel centre and theta = atan2(row offset, column offset) + pi, evaluated by the documented quadrature (trapezoidal on the radius, Simpson on the angle) with the set numbers of points. "
     "For single Piston it is the Airy pattern (2*J1(x)/x)^2, and the central element is never above 1.",
     ["inputs", "configurations"], "one or several polynomials with n <= 20, coefficients up to +-3 wavelengths, NA in (0, 1.7], wavelengths and pixel sizes over orders of magnitude, kernel sizes, numbers of integration points",
     "Tests compare shapes and maxima for one set of parameters; nothing compares values to the integral, and dropped or doubled nodes depend on the numbers of points.",
     [CP, PSF], [("integrand and quadrature", CP + ":diffraction_integral_r, radial_integral, get_psf_point_r_parallel, *_pols"),
                 ("pixel geometry", CP + ":get_psf_kernel, get_psf_kernel_zerns"), ("Airy pattern", CP + ":airy_ref_pattern")])

prop("P22", "Accelerated and plain PSF calculations agree",
     "With the same settings, the accelerated kernel equals the not accelerated one within rounding error (for single Piston: within quadrature error of the exact Airy pattern), for one and for several polynomials of radial order up to 10. For polynomials of higher order the "
     "accelerated calculation raises ValueError and never returns a kernel.",
     ["inputs", "configurations"], "all polynomials with n <= 10 alone and in sets of 2..5, any physical and calculation settings, n > 10 rejections",
     "The compiled code duplicates all tables; tests compile it for one polynomial and do not compare values.",
     [CN, CP, PSF], [("compiled duplicate of the polynomial tables and quadrature", CN + ":zernpol_value, get_psf_point_r_comp, *_pols_comp"),
                     ("dispatch", PSF + ":calculate_psf_kernel")])

prop("P23", "Kernel normalization, scaling, size and output flags behave consistently",
     "The normalized kernel is the not normalized one divided by its maximum; the kernel is a square of the set (made odd) size; suppressing warnings or verbose output never changes it. It does not change when wavelength, coefficients and pixel size are multiplied by the same factor or when Piston is added to "
     "several polynomials, the order of polynomials is irrelevant, and changing the sign of all coefficients rotates it by 180 degrees. "
     "The estimated size is always an odd positive integer, the same for opposite coefficients and any order of polynomials.",
     ["inputs", "configurations"], "one or several polynomials (n <= 10), any physical settings, both calculation variants, all flags",
     "Tests check the maximum of one normalized kernel; these relations hold for all settings.",
     [CP, CN, PSF], [("normalization", CP + ":get_psf_kernel, get_psf_kernel_zerns; " + CN + ":get_psf_kernel_comp"), ("size estimation", CP + ":get_kernel_size"), ("flags", PSF + ":calculate_psf_kernel")])

prop("P24", "A kernel depends only on the settings in force, not on the history of the object",
     "After any sequence of setting physical and calculation properties (including rejected ones), calculating, cropping, convolving and saving, a calculated kernel and the reported properties equal those of a new object given only the last "
     "accepted settings (a cropped size counts as a setting). Objects do not influence each other, the sequences passed in (polynomials, coefficients) are not changed, and their later changes by the caller have no effect.",
     ["histories"], "operation sequences on one or two interleaved PSF objects with one or several polynomials",
     "State is spread over class-level defaults and instance attributes; tests call each setter once or twice in one order.",
     [PSF, CP, CN], [("attributes set by setters", PSF + ":set_physical_props, set_calculation_props, calculate_psf_kernel, crop_kernel")],
     state=[("kernel, kernel_size, physical and calculation properties", "current settings of the PSF object", PSF)])

prop("P25", "PSF objects refuse inconsistent polynomials and settings",
     "Creating a PSF from anything else than a polynomial or a non-empty sequence of different polynomials raises ValueError. Setting NA outside (0, 1.7], a non-positive wavelength or pixel size, a pixel size above wavelength/(4*NA), a number of coefficients other than the number of polynomials, a kernel "
     "size below 3, less than 20 radial or less than 36 angular integration points raises ValueError (coefficients of a wrong type: TypeError or ValueError) and changes nothing that is stored, while all values inside these limits (limits included) are accepted and stored; an even kernel size is replaced by the next odd one. "
     "Coefficients above 10 wavelengths, kernel sizes below the estimated one and calculation settings given before the physical ones are accepted with a warning, nothing else warns.",
     ["inputs"], "values around and far outside each limit, sequences with repeated or foreign members, wrong numbers of coefficients",
     "Tests try a few wrong values; the quantifier is over every limit, its exact boundary and combinations.",
     [PSF], [("sanity checks", PSF + ":ZernPSF.__init__, set_physical_props, set_calculation_props")])

prop("P26", "Cropping a kernel removes only whole frames of negligible elements",
     "Cropping keeps a centred square part of the kernel: exactly those outer frames are removed, from outside inwards, in which each of the four border lines has its maximum below the given part of the kernel maximum, so that no element at or above that limit is lost. "
     "The stored size equals the kernel's, cropping again with the same part changes nothing, and parts outside (0, 0.5) raise ValueError.",
     ["inputs", "histories"], "calculated and loaded kernels of sizes 5..41 with arbitrary (also asymmetric) content, any part in (0, 0.5)",
     "Tests crop one kernel and check only that it became smaller.",
     [PSF], [("frame removal", PSF + ":crop_kernel")])

prop("P27", "Convolution with a kernel is the normalized convolution of the image",
     "The convolved image has the shape and type of the original and equals the convolution with the kernel divided by the kernel's sum, with reflected borders; with rescaling on, its maximum equals the maximum of the original (within one unit for integer images). "
     "A constant image stays constant, a blank image stays blank, the operation is linear for float images without rescaling, and neither image nor kernel is modified.",
     ["inputs"], "images of sizes 3..40, types uint8/uint16/int32/float32/float64, kernels of single and several polynomials and arbitrary non-negative kernels",
     "Tests convolve one disk; borders, types and orientation of asymmetric kernels are not looked at.",
     [CP, PSF], [("convolution", CP + ":convolute_img_psf")])

prop("P28", "Saved PSFs are restored completely",
     "Reading a saved PSF into any PSF object, whatever it held before, restores kernel, its size, NA, wavelength, pixel size, coefficients, polynomials and numbers of integration points exactly, and both objects then calculate the same kernels (with equal settings) and behave alike. "
     "This holds for single and several polynomials, cropped and custom-size kernels, and files given as text or path objects.",
     ["inputs", "histories"], "PSF objects with 1..25 polynomials and arbitrary settings, saved and read into objects with different previous content, chains of save/read",
     "Tests save and read one PSF of one kind into a fresh object; stale attributes need a different previous content.",
     [CP, PSF], [("writing / reading", CP + ":save_psf, read_psf"), ("restoring", PSF + ":save_json, read_json")])

prop("P29", "Saving never loses an existing file unless asked, and writes where told",
     "Saving into a given existing folder (text or path object) creates exactly one file there and remembers its path, so reading without a path returns what was saved; PSFs with different polynomials, or of one polynomial with different coefficients, never share a file. An existing file is never changed without the overwrite flag (a warning is given instead) and is completely replaced with it; "
     "reading a missing file warns and leaves the object unchanged; without a folder the file always goes to the package folder of saved PSFs.",
     ["histories", "configurations"], "sequences of save / overwrite / read over several objects sharing names and folders",
     "Tests save once; the outcome depends on which files exist and on previous calls of the same object.",
     [CP, PSF], [("overwrite logic", CP + ":save_psf"), ("path handling", PSF + ":save_json, read_json")],
     state=[("remembered path", "where the object was saved last", PSF)])

prop("P30", "Distributed computation returns each result at the place of its parameter",
     "For any function and list of at least as many parameters as workers, the distributed computation returns the list of function values in the order of parameters, for any number of workers, durations of single calls, repeated runs, replaced parameters, and managers that live at the same time or one after another; results returned earlier are not changed later. "
     "After closing, it computes nothing, gives a warning and leaves no worker running; empty or too short parameter lists and non-callables are rejected.",
     ["schedules", "histories"], "numbers of workers 2..8, list lengths, per-call delays, sequences of compute / update / close over several managers",
     "No existing test runs it; the outcome depends on completion order of processes and on earlier managers.",
     [IP], [("dispatch loop over events and queues", IP + ":DispenserManager.compute"), ("life cycle", IP + ":DispenserManager.__init__, close, update_params")],
     state=[("pool, triggers, queues", "workers of one manager", IP)])

prop("P31", "Parallel kernel calculation equals the sequential one",
     "For a single polynomial other than Piston, the kernel calculated with the parallel workers equals the not accelerated kernel with the same settings within rounding error, normalized or not, whatever settings were used before and for every PSF object that initializes workers, also after others released theirs.",
     ["configurations", "histories"], "polynomials, settings and sequences of several PSF objects using workers",
     "No existing test runs the parallel calculation; it keeps its own copy of derived settings.",
     [PSF, IP, CP], [("parallel integration", PSF + ":get_psf_point_r_parallel, get_kernel_parallel, initialize_parallel_workers, deinitialize_workers")])

prop("P32", "Figures show the calculated surface on the right coordinates",
     "A 2D or 3D plot of polynomials (profile, sum on a given figure, with default or given coordinates) shows exactly the surface values at the corresponding angles and radii, with the colour bar only if asked, clears what the figure held before, and returns the same figure. "
     "Missing or inconsistent input raises ValueError.",
     ["inputs", "configurations"], "coefficients, polynomials, coordinate vectors of any lengths, 2D/3D, flags",
     "Existing tests do not plot; swapped axes are visible only when data in the figure is compared with values.",
     [PL, ZP], [("plotting", PL + ":plot_sum_fig, subplot_sum_on_fig, *_3d"), ("wrappers", ZP + ":plot_profile, plot_sum_zernikes_on_fig")])

prop("P33", "Plotted kernels, sample disks and convolutions are the actual ones",
     "Plotting a PSF draws its current kernel element by element, first row on top, with a colour bar, in a figure named after its polynomials and the given text, however often and for whichever objects plots were made before. Visualizing the convolution draws a sample disk and its convolution with this kernel. "
     "The sample disk of radius r (at least 1) is symmetric about its centre, has the given intensity within r/4, at least 80% of it within r, nothing beyond 1.25 r, never gets brighter outwards, and is of the smallest type uint8 or uint16 that holds the intensity.",
     ["inputs", "histories"], "PSF objects with one or several polynomials and different kernels, sequences of plots with equal and different names, radii 0.1..20, intensities 0..65535",
     "Tests plot nothing; stale, transposed or wrongly scaled illustrations are noticed only by comparing the data behind the figure with the kernel.",
     [PSF, CP], [("kernel plot", PSF + ":plot_kernel"), ("illustration of convolution", PSF + ":visualize_convolution"), ("sample", CP + ":get_bumped_circle")])

prop("P34", "Coefficients found by recursion are the exact integers",
     "For every polynomial with n <= 60 the recursive search for coefficients of its radial part, and the one for its derivative, return exactly the integer coefficients of the closed formula for each power of the radius, "
     "independent of which coefficients were requested before and of which of both starting sets is used; results returned earlier are not changed by later requests.",
     ["inputs", "histories"], "all 1891 orders, both starting sets, generated sequences of requests in fresh processes (caches of dictionaries and results)",
     "The tests compare a few coefficients of orders 9 and 10; the results for orders 11..40 are built by recursion over shared caches whose content depends on the history.",
     [FC], [("recursion", FC + ":find_coeffs_orders, find_coeffs_orders_dr"), ("special cases", FC + ":check_special_orders, check_special_orders_dr"), ("sums of shifted coefficients", FC + ":increase_order_coeffs, sum_orders_coeffs")])

prop("P35", "Precompilation only saves time",
     "Forcing the compilation, at any moment and any number of times, returns two usable PSF objects with normalized kernels of the polynomials and settings they report, and changes neither the stored properties and kernels of existing objects, nor the defaults of new ones, "
     "nor the result of any later calculation, accelerated or not, within 1e-9.",
     ["histories"], "sequences of settings, calculations (accelerated and plain) and precompilations over several objects with one or several polynomials of order up to 10",
     "The test calls it once before calculating; state shared between objects and modules needs other orders of operations.",
     [PSF, CN], [("precompilation", PSF + ":force_get_psf_compilation"), ("compiled methods", CN + ":get_psf_kernel_comp, set_methods_compiled")])

prop("P36", "Warnings are given exactly when their condition holds",
     "Fitting an image warns once for each of: image not square, a side with an even number of pixels, additional border pixels used (border not strict and both sides even, or sides differing by 1). Calculating a PSF kernel warns when physical properties were never set, and when the brightest element on the border of the calculated kernel exceeds 5% of its maximum, and, accelerated, for kernels above 85x85. "
     "Generating a set of polynomials warns for an order not given as int and for orders above 30; setting more than 500 radial and more than 400 angular integration points warns; the first evaluation of a polynomial with n > 50 (radial derivative: n > 48) warns and repeating it on the same object does not. "
     "No warning comes without its condition, none at all with suppress_warnings, and suppressing never changes a result.",
     ["inputs", "configurations", "histories"], "image sizes of all parities, PSFs with kernels from too small to sufficient, orders and histories of evaluations",
     "Tests do not look at warnings; the conditions depend on calculated values, parities and previous calls.",
     [FZ, CP, CN, PSF, ZP], [("image sizes", FZ + ":crop_phases_img"), ("border of kernels", CP + ":get_psf_kernel, get_psf_kernel_zerns"), ("border of accelerated kernels", CN + ":get_psf_kernel_comp"),
                             ("missing properties, precision", PSF + ":calculate_psf_kernel, set_calculation_props"), ("orders", ZP + ":generate_polynomials, polynomial_value, radial, radial_dr")])

prop("P37", "Calculations running in several threads do not influence each other",
     "Values, derivatives, sums, surfaces, images, fits, kernels of different PSF objects and convolutions calculated at the same time in several threads of one process, on separate or on shared polynomials, give the results each of them gives alone, and none fails because of the others.",
     ["schedules", "inputs"], "generated sets of 2..6 jobs run concurrently and repeatedly, with a thread switch interval of some microseconds",
     "Tests run in one thread; shared work arrays, caches or attributes of a class do harm only when another thread runs in between.",
     [ZP, CZ, FC, FZ, CP, CN], [("recursion with caches", FC + ":find_coeffs_orders, find_coeffs_orders_dr"), ("evaluation", ZP + ":polynomial_value, sum_zernikes"), ("kernels", CP + ":get_psf_kernel, get_psf_kernel_zerns")])

prop("P38", "All implementations of one quantity agree, for orders and for objects",
     "The functions of the calculation modules that compute the same quantity in different ways (direct recursion for n <= 16, closed equation for n <= 38, search of coefficients, compiled values for n <= 10; radial part and derivative; PSF points and kernels one by one, vectorised, as a sum and compiled; size estimation) agree with each other and with the exact value within rounding error, "
     "for orders given as a tuple (m, n) and as a polynomial object, at single points and on arrays; the Airy pattern is the analytical one.",
     ["inputs", "configurations"], "all orders on a grid of radii, generated orders, radii, angles, PSF settings",
     "The tests compare implementations on a fixed set of radii up to some order with rounding to few digits, and PSF functions not at all.",
     [CZ, CP, CN], [("radial parts", CZ + ":radial_polynomial, radial_polynomial_eq, radial_polynomial_coeffs"), ("derivatives", CZ + ":radial_derivative, radial_derivative_eq, radial_polynomial_coeffs_dr"),
                    ("PSF points", CP + ":get_psf_point_r, get_psf_point_r_parallel, get_psf_point_r_pols"), ("compiled values", CN + ":zernpol_value, get_psf_point_r_comp, get_psf_point_r_pols_comp")])

prop("P39", "Arguments left out mean the documented defaults, by position and by name alike",
     "For every documented function and method, leaving out any subset of the optional arguments gives the same results, warnings, printed texts, figures and files as passing their documented defaults by name, "
     "and passing arguments by position in the documented order the same as passing them by name - whatever was calculated before. A PSF object without any settings uses NA 1.0, wavelength 0.532, coefficient 0.5, a pixel of 98% of the allowed size, a 19x19 kernel and 320 x 300 integration points, "
     "and is not influenced by settings of other objects; without a number of workers half of the available processors are used.",
     ["configurations", "inputs"], "35 functions and methods with 1..12 optional arguments: each alone left out, all left out, generated subsets and numbers of positional arguments, generated required arguments",
     "Tests pass most of the options explicitly or always the same ones; a changed default, a swapped order or a default object shared between calls shows only for the call which leaves it out.",
     [ZP, PSF, CP, CN, IP], [("polynomials", ZP + ":ZernPol, fit_polynomials, generate_phases_image"), ("PSF", PSF + ":ZernPSF"), ("functions for kernels", CP + ":get_psf_kernel, save_psf"), ("workers", IP + ":DispenserManager")])

prop("P40", "Reports printed on request tell the truth, and nothing else is printed",
     "With a report requested, calculating a kernel announces for up to 100 points each of them in order, for more (below 301, accelerated 651) the first and each tenth, for larger kernels (and the Airy pattern) none; the announced total is the real number of points, the start is announced from 301 points on, "
     "and the overall time once at the end, not shorter than the sum of the parts and not longer than the call; the kernel is the same as without the report. The parallel calculation announces each point. Workers announce their number, growing percentages which are really done at this moment, and the end once, when everything is done. "
     "Precompilation announces its start and time. Setting calculation properties comments an even size (which is enlarged), and sizes above 25 with nearly default precision by the estimated time (38.5 ms per point); saving names the folder only if it was chosen automatically. "
     "Without a request and with suppressed warnings nothing is printed, by any other part neither.",
     ["inputs", "configurations", "schedules"], "kernels 3x3..27x27 of all kinds, settings around the limits, 8..700 jobs with delays on 2..4 workers observed while running, folders, calls of all parts",
     "Tests never look at the printed reports; a report may be wrong only for some sizes, or only at the moment when it is printed.",
     [PSF, CP, CN, IP, ZP], [("kernel reports", PSF + ":ZernPSF.calculate_psf_kernel, set_calculation_props, get_kernel_parallel, force_get_psf_compilation"), ("points", CP + ":get_psf_kernel, get_psf_kernel_zerns, save_psf"), ("accelerated", CN + ":get_psf_kernel_comp"), ("progress", IP + ":DispenserManager.compute"), ("performances", ZP + ":compare_performances")])

prop("P41", "Calls change neither their arguments nor the process",
     "Every documented function and method, called with any required and optional arguments, leaves the given arrays, lists, polynomials and PSFs as they were (a read-only array is as good as a writable one and gives the same result; results share no memory with arguments), "
     "and leaves the process as it was: states of the random generators (besides the generation of random phases), handling of floating-point errors and warnings, printing options, settings of figures, current folder, environment, signals, recursion and collection settings, locale. "
     "Calculations open and close no figures and leave no files, threads or processes behind; plotting closes no figures of the user; only saving functions write files. Importing the package has none of these effects and prints nothing.",
     ["inputs", "configurations"], "all documented calls with any subset of optional arguments, five types and four layouts of arrays, writable or read-only, process settings different from the usual ones",
     "Tests call functions with fresh arguments and never look at them, or at the process, afterwards; a changed argument spoils the next calculation of the user.",
     [PSF, CP, CN, IP, ZP, FZ], [("polynomials", ZP + ":ZernPol.sum_zernikes, fit_polynomials, fit_polynomials_vectors, generate_phases_image"), ("PSF", PSF + ":ZernPSF.set_physical_props, convolute_img, save_json, get_kernel_parallel"), ("images", FZ + ":crop_phases_img"), ("convolution", CP + ":convolute_img_psf")])

prop("P42", "Copies and transported objects are equal and independent",
     "A polynomial or PSF object copied by copy.deepcopy or pickle (any protocol), at any moment of its use and also from another copy, or sent to another process, has the same properties and gives the same results (bit by bit) as the original; it is equal to it, treated as the same (repeated) polynomial, "
     "and from then on independent: operations on one object (settings, refused settings, calculation, cropping, saving, reading) change no other object, and each object behaves as a new one on which the same operations were carried out.",
     ["inputs", "histories"], "histories up to 14 operations on up to 4 objects and copies of 1 to 3 polynomials, polynomials of all orders up to 54, 42 objects per fresh process",
     "Tests use one object at a time and never copy it; state shared by the class, by identity or lost by a copy isn't seen.",
     [PSF, ZP], [("PSF objects", PSF + ":ZernPSF, set_physical_props, set_calculation_props, calculate_psf_kernel, crop_kernel, save_json, read_json"), ("polynomials", ZP + ":ZernPol.__init__, __eq__, __gt__, __str__, polynomial_value")])

prop("P43", "Repeated use accumulates nothing",
     "Memory, Python objects, open files, threads, processes and figures do not grow with the number of calls: neither of any documented function or method (with other arguments each time), nor of cycles of operations on the same PSF objects or on objects created and dropped, nor of workers created, "
     "used (with other parameters each time), closed or dropped. Only coefficients of polynomials are kept, at most once per order.",
     ["histories", "configurations"], "periods of 4 to 40 cycles repeated until one of them grows nothing (at most 10), all documented calls, all orders up to 42, random cycles of up to 7 operations, 2 to 3 workers",
     "Tests call each function a few times in a short process.",
     [PSF, CP, CN, IP, ZP, FZ], [("polynomials", ZP + ":ZernPol.polynomial_value, radial, sum_zernikes"), ("coefficients", "src/zernpy/calculations/find_pols_coeffs.py:find_coeffs_orders"), ("PSF", PSF + ":ZernPSF.calculate_psf_kernel, initialize_parallel_workers, deinitialize_workers"), ("workers", IP + ":DispenserManager.compute, update_params, close"), ("convolution", CP + ":convolute_img_psf")])

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w", encoding="utf-8") as f:
        for d in P:
            f.write(json.dumps(d) + "\n")
    print(len(P))
