EXH = "exhaustive bounded enumeration of inputs on the real code against an independent exact oracle"
prop("C01", "Indices and orders of polynomials convert one-to-one in all schemes",
     "For every Zernike polynomial of radial order 0..54, its OSA/ANSI, Noll and Fringe indices are the ones of the published definitions, every conversion between them and to the orders (m, n) is the exact inverse of the opposite one, and all results are plain Python integers. "
     "A polynomial constructed through any documented keyword spelling (orders or any index) or through a conventional index is the same polynomial: same orders, indices, name, text representation (which contains its orders and indices) and values.",
     ["inputs"], "all 1540 polynomials x all schemes x all keyword spellings of the constructor; all indices up to the largest supported one",
     "Tests compare a few dozen orders/indices; the claim is a bijection over all 1540 polynomials and over all keyword spellings, including edge indices of each radial order.",
     [ZP], [("conversion formulas", ZP + ": get_osa_index, get_noll_index, get_fringe_index, index2orders, osa2noll, noll2osa, osa2fringe, fringe2osa"), ("constructor", ZP + ": ZernPol.__init__")],
     "exploration", EXH, "Complete over the supported range of radial orders (0..54); trusts tables enumerated from the definitions of the schemes.")
prop("C02", "Exactly the valid orders and indices are accepted",
     "Constructing a polynomial succeeds exactly if the arguments define an existing Zernike polynomial of the supported range (0 <= n <= 54, |m| <= n, n - |m| even, or an index of such a polynomial) given as integers through one complete and unambiguous set of documented keywords. "
     "Anything else - wrong parity, |m| > n, negative or too large values, wrong types, missing or conflicting keywords - raises ValueError and never yields a polynomial. Converting an index to the orders or to another index accepts every integer index of a supported polynomial and raises ValueError for an index that does not exist (negative, or zero in the Noll and Fringe schemes), for one it cannot find and, between indices, for other types; it never returns the orders or the index of a different polynomial.",
     ["inputs"], "all integer pairs (n, m) in and around the valid range, all indices in and around it, all subsets/conflicting combinations of keywords, wrongly typed values in every position",
     "Tests try a handful of invalid calls; a missed check accepts a whole family of non-existing polynomials (|m| > n was accepted) that no sample hits.",
     [ZP], [("checks of input", ZP + ": ZernPol.__init__, index2orders, get_*_index, osa2noll etc.")],
     "exploration", EXH, "Complete for orders and indices in the enumerated box; types other than int (and bool / numpy integers) are left open.")
prop("C03", "Polynomial, radial and angular values equal their definition",
     "For every supported polynomial the radial part, the angular part, the normalization factor and the normalized polynomial value equal the mathematical definition (up to the floating-point error of the radial sum) for every radius in [0, 1] and any angle, on every evaluation path: recursive (default), tabulated and exact equation. "
     "Scalars give scalars, and lists, tuples and arrays give arrays of the same shape with exactly the element-wise values; radii outside of [0, 1] or incompatible shapes raise ValueError, and angles may be any real numbers (periodic with 2pi).",
     ["inputs"], "all 1540 polynomials x alphabet of radii (end points, near-end points, interior) x alphabet of angles (all quadrants, multiples of pi/2, outside of [0, 2pi]) x both equations x scalar / list / tuple / vector / matrix containers",
     "Tests compare some polynomials up to order ~7 with handwritten formulas at a few points; tables, recursion and the exact equation together cover 1540 polynomials and every container type.",
     [ZP, RADIAL], [("evaluation", ZP + ": polynomial_value, radial, triangular, normf, _check_radii, _check_angles"), ("recursive, tabulated and exact equations", RADIAL)],
     "exploration", EXH, "All polynomials; radii/angles from an alphabet; tolerance from the conditioning of the radial sum, loose above order 38 as the recursion loses digits there.")
prop("C04", "Derivatives over radius and angle equal the derivatives of the values",
     "For every supported polynomial the radial derivative and the angular derivative returned equal the exact mathematical derivatives of its radial and angular parts, for every radius in [0, 1] (end points included) and any angle, with the recursive and with the exact equation, for all containers accepted for the values. "
     "Scalars give scalars and arrays keep their shape.",
     ["inputs"], "all 1540 polynomials x alphabet of radii and angles x both equations x containers",
     "Tests check the derivatives of few low-order polynomials; the recursion used above some order (product rule) was wrong for m = 0, n > 39 and no test reaches it.",
     [ZP, RADIAL], [("derivatives", ZP + ": radial_dr, triangular_dtheta"), ("recursive and exact equations", RADIAL)],
     "exploration", EXH, "As for C03.")
prop("C05", "Evaluations are pure: independent of history, no changed or shared data",
     "The result of any evaluation, sum, surface, image or fit of polynomials depends only on its arguments and never on which calls on which polynomials were made before it, including calls that failed. "
     "No call changes the arrays, lists or tuples passed to it, and a returned array never shares memory with an argument or with another result, so a caller may overwrite either without any effect on past or future results.",
     ["histories"], "all ordered pairs of evaluations of recursively computed polynomials in a fresh interpreter state, and all sequences of operations (evaluations and in-place overwrites by the caller) up to a depth on shared objects",
     "Tests run one fixed order of calls; caches, tables and aliasing show up only in particular orders of calls and after a caller writes into an array.",
     [ZP, RADIAL, FIT], [("recursion and tables", RADIAL), ("evaluation", ZP)],
     "model_checking", "explicit-state exploration of call histories on the real code (forked states)", "All histories in the bounds; results compared with a fresh interpreter state up to rounding.")
prop("C06", "The generated pyramid is complete, ordered, comparable and orthonormal",
     "Generating all polynomials up to a radial order returns every polynomial up to that order exactly once in OSA/ANSI index order, equality and ordering of polynomials agree with their OSA/ANSI index, and low-order polynomials carry their conventional (long and short) names. "
     "The generated polynomials are orthonormal on the unit disk: the mean product over the disk is 1 for equal and 0 for different polynomials.",
     ["inputs"], "all supported maximum orders, all ordered pairs of polynomials up to a bound for comparisons, all pairs of polynomials for inner products (exact quadrature)",
     "Tests build one or two pyramids and check few elements; completeness, total order and orthonormality quantify over all pairs.",
     [ZP], [("pyramid", ZP + ": generate_polynomials"), ("comparison", ZP + ": __eq__, __gt__"), ("names", ZP + ": get_polynomial_name")],
     "exploration", EXH, "Inner products are exact (Gauss-Legendre x trapezoid) for the orders in the bound.")
prop("C07", "Sums and surfaces equal the sum of the single polynomials",
     "A sum of polynomials over given polar coordinates and a generated surface equal, element by element, the sum of coefficient times normalized polynomial value, for any selection, order and repetition of polynomials, any coefficients and any accepted containers. "
     "A surface has one row per radius and one column per angle, a sum over coordinates pairs them element-wise, and inconsistent or empty coefficient/polynomial sequences or coordinates of incompatible shapes raise ValueError.",
     ["inputs"], "all selections of up to 3-4 polynomials of an alphabet x all coefficient vectors of an alphabet x containers x all shapes of coordinate vectors up to a bound, incl. equal numbers of radii and angles",
     "Tests sum two or three polynomials; orientation errors, dropped terms and special-cased coefficients (0, negative) need combinations of shapes and coefficients.",
     [ZP], [("sums", ZP + ": sum_zernikes, _sum_zernikes_meshgrid, gen_zernikes_surface")],
     "exploration", EXH, "Complete in the stated alphabets and shapes.")
prop("C08", "Generated polar coordinates cover the whole unit disk",
     "For every allowed pair of steps the generated radii start at 0 and end at 1, and the generated angles start at 0 and end at 2pi (end values up to the rounding of floating-point numbers, but never above), both ascending with the requested step, never outside of the range accepted for evaluation; for a requested number of points both vectors have exactly that number (at least 4) equally spaced. "
     "Steps out of the allowed range (radius (0, 0.5], angle (0, pi]) raise ValueError.",
     ["inputs"], "a fine grid of radial and angular steps (thousands), incl. ones that divide the range exactly or nearly, and all numbers of points up to a bound",
     "Accumulated rounding depends on the step: tests use the defaults and one or two others; a step for which the last value leaves [0, 1] exists only in a dense sweep.",
     [ZP], [("coordinates", ZP + ": gen_polar_coordinates, gen_equal_polar_mesh")],
     "exploration", EXH, "Dense grid of steps, not all floats; the end point may be repeated within rounding.")
prop("C09", "Phase images show exactly the requested sum inside their circle",
     "A generated phases image has the requested size, is 0 outside of the circle around its central pixel (height // 2, width // 2) with the radius of 1 + half of the smaller size, and inside of it equals the sum of the given amplitudes times the normalized polynomials at the polar coordinates of each pixel (distance divided by this radius, angle counted counter-clockwise from the horizontal axis). "
     "For randomly generated phases, whatever the random numbers are, the returned image is exactly the image of the returned polynomials and amplitudes, the polynomials are the whole pyramid of the requested order, and at least one amplitude is noticeable (|amplitude| >= 0.08).",
     ["inputs", "schedules"], "all small image sizes (even / odd, wide / high) x polynomials x amplitudes; every answer of the random source from a small alphabet at every draw up to a bound",
     "Tests look at one image size and unseeded random numbers, so the rare draws (nothing selected, all amplitudes tiny) are never exercised deterministically.",
     [ZP, FIT], [("images", ZP + ": generate_phases_image, generate_random_phases"), ("pixel coordinates", FIT)],
     "exploration", "exhaustive enumeration of inputs and of the choices of the random source (stateless search over its answers)", "Complete for the enumerated sizes and answers of the random source; other members of its interface fall back to a seeded generator.")
prop("C10", "Fitting a phases image recovers the aberrations in the chosen circle",
     "Fitting an image that is a linear combination of the given polynomials over the circular aperture returns exactly these coefficients in the order of the polynomials, for every image shape, crop radius and choice of the aperture rule, and for any image it returns the least-squares solution over the aperture. "
     "Pixels outside of the aperture never influence the result, the image itself is not changed, the optionally returned cropped image contains exactly the fitted pixels, and invalid images, crop radii and repeated or missing polynomials raise ValueError.",
     ["inputs"], "all image shapes up to a bound x crop radii x both aperture flags x sets of polynomials x basis images; perturbation of every pixel outside of the aperture",
     "Tests fit few big square images; the radius/centre rules branch on parity, aspect and flags and each branch has its own edge.",
     [ZP, FIT], [("fit", ZP + ": fit_polynomials"), ("aperture and least squares", FIT + ": crop_phases_img, fit_zernikes")],
     "exploration", EXH, "Complete for the enumerated shapes and flags; conditioning limits sets of polynomials per number of fitted pixels.")
prop("C11", "Fitting phases given in polar coordinates recovers the coefficients",
     "Fitting phases given point by point (equal lengths of phases, radii and angles) or on a polar mesh (a vector of phases listed for all angles of the first radius, then of the second one, etc.) returns the least-squares coefficients, exactly the true ones for a linear combination of the polynomials, independent of the order of the points and equivariant with the order of the polynomials. "
     "Inconsistent lengths, radii outside of [0, 1] and repeated or missing polynomials raise ValueError, and no argument is changed.",
     ["inputs"], "all shapes of meshes and vectors up to a bound (incl. equal numbers of radii and angles) x sets and permutations of polynomials x basis phases",
     "Tests fit one mesh; confusion of rows/columns and the equal-length case appear only for particular shapes.",
     [ZP, FIT], [("fit", ZP + ": fit_polynomials_vectors"), ("least squares", FIT + ": fit_zernikes")],
     "exploration", EXH, "Complete for the enumerated shapes.")
prop("C12", "The calculated PSF converges to the diffraction integral for any settings",
     "For every allowed setting (polynomials, amplitudes, NA, wavelength, pixel size, kernel size, numbers of integration points) each kernel value approximates the squared modulus of the normalized diffraction integral of the aberrated pupil at that pixel, with an error bounded by the accuracy of the integration rule, and never jumps for particular numbers of points. "
     "The kernel is non-negative, has its centre pixel at the origin, equals 1 at the origin without aberrations (the Airy pattern), and its normalized version is scaled to the maximum of 1.",
     ["inputs", "configurations"], "all numbers of integration points in a range, all single polynomials up to an order, several amplitudes, pairs of polynomials, several optical settings and kernel sizes",
     "Tests check only that kernels are calculated or compare two implementations sharing the same rule; wrong quadrature weights for particular numbers of points and norm errors for particular orders survive.",
     [PSF, CPSF, NPSF], [("integration", CPSF), ("accelerated integration", NPSF), ("pixel geometry", CPSF + ": get_psf_kernel")],
     "exploration", EXH, "Tolerance follows the order of the integration rule; reference by converged Gauss-Legendre x trapezoid quadrature.")
prop("C13", "All ways of calculating the same PSF give the same kernel",
     "Plain, accelerated (compiled) and parallel calculation, single pixels and whole kernels, a single polynomial and a sequence of it (also with polynomials of zero amplitude added or in another order), and any combination of flags that should not matter give the same kernel up to rounding. "
     "Symmetries hold: scaling lengths together leaves the kernel unchanged, and rotating or mirroring the aberration rotates or mirrors the kernel.",
     ["inputs", "configurations"], "all polynomials up to an order (and selected high orders) x all calculation paths x flags x amplitudes x settings",
     "Tests compare plain and accelerated for a few polynomials; each path has its own copy of the formulas with branches on orders.",
     [PSF, CPSF, NPSF], [("paths", PSF + ": calculate_psf_kernel, get_psf_point_r_parallel, get_kernel_parallel"), ("formulas", CPSF + ", " + NPSF)],
     "exploration", EXH, "Complete in the enumerated polynomials, settings and flags.")
prop("C14", "A PSF object reflects its latest accepted settings, whatever came before",
     "After any sequence of setting physical or calculation properties, calculating, cropping, saving/loading and forced compilation, with accepted and rejected calls in any order and with several objects in use, the public properties and the next calculated kernel are those of a fresh object given the latest accepted settings. "
     "No object influences another one, and later changes by the caller of the sequences passed in or of the returned kernel of another object have no effect.",
     ["histories"], "all sequences of operations up to a depth over an alphabet of settings on one and on two objects",
     "Tests make one set-then-calculate sequence; stale derived values and leaks through class-level state need particular orders of calls.",
     [PSF], [("state", PSF + ": set_physical_props, set_calculation_props, calculate_psf_kernel, crop_kernel, read_json")],
     "model_checking", "explicit-state exploration of operation sequences on the real object against a specification model (each transition replayed on the implementation)", "All sequences up to the depth over the alphabet; kernels compared bit-tolerantly with fresh objects.")
prop("C15", "Rejected PSF settings raise ValueError and leave the object unchanged",
     "Setting physical properties outside of their documented ranges (NA in (0, 1.7], positive wavelength, pixel size in (0, Nyquist size], expansion coefficients matching the polynomials in number) or calculation properties outside of theirs (kernel size >= 3, radial points >= 20, angular points >= 36) raises ValueError and the object keeps all previous properties and results. "
     "Values on the accepted side of each limit are accepted and stored, alone and in every combination.",
     ["inputs", "histories"], "the full product of boundary alphabets of all parameters on fresh and configured objects",
     "Tests try few invalid values one at a time on a fresh object; partial updates appear when a later parameter is rejected after an earlier one has been stored.",
     [PSF], [("validation", PSF + ": __init__, set_physical_props, set_calculation_props")],
     "exploration", EXH, "Full product of boundary values; NaN and non-numeric values only where documented.")
prop("C16", "A saved PSF is restored exactly",
     "Saving a calculated PSF and reading the file with a new object (of the same or of another polynomial) restores the kernel and all properties exactly, so calculations afterwards give the same kernel as the original object. "
     "An existing file is replaced only if overwriting is requested, and reading an incomplete or foreign file leaves the object unchanged.",
     ["inputs", "histories"], "all combinations of kinds of polynomials, coefficients, settings, kind of path, overwrite flag and existing content; all subsets of missing keys",
     "Tests save/load once with one polynomial and do not compare every property or continue with the restored object.",
     [PSF, IO], [("JSON", PSF + ": save_json, read_json"), ("file writing", IO)],
     "exploration", EXH, "Complete over the enumerated combinations.")
prop("C17", "An interrupted or failed save never destroys a saved PSF",
     "If saving a PSF fails or the process stops at any point (any failing or partially completed file operation), the file path afterwards holds either the complete previous content or the complete new one (or still no file if there was none), and reading it works accordingly. "
     "A failed save can be repeated successfully, and simultaneous saves to the same file by several processes all succeed and leave the complete content of one of them.",
     ["crash_points", "fault_sequences"], "every file-system operation of a save as a crash point or fault point, with every torn-write pattern of the written data",
     "Tests never interrupt a save; the state left behind depends on the order of open, write and rename.",
     [PSF, IO], [("file writing", PSF + ": save_json; " + IO)],
     "fault_enumeration", "exhaustive enumeration of crash and fault points of the file operations of the real code", "All file-operation points of the executed history; assumes an atomic rename and that written data is durable in order.")
prop("C18", "Cropping a kernel removes exactly the dim borders",
     "Cropping keeps the kernel's centre and removes concentric borders exactly as long as every value on the border is below the given fraction of the maximum, down to the minimal size of 3, the kernel size follows, and the kept values are unchanged. "
     "A fraction outside of (0, 0.5) raises ValueError for every kernel and changes nothing.",
     ["inputs"], "all symmetric and asymmetric patterns of bright border values on kernels up to a size x fractions around each threshold, through computed and loaded kernels",
     "Tests crop one calculated kernel; off-by-one rings, one-sided borders and tiny kernels are not sampled.",
     [PSF], [("crop", PSF + ": crop_kernel")],
     "exploration", EXH, "Complete for kernel patterns on the enumerated rings and sizes; kernels enter through the public file interface.")
prop("C19", "Convolution with a PSF preserves constants, linearity and shift",
     "Convolving an image with a PSF equals the discrete convolution with the kernel divided by its sum (reflecting borders): constant images stay constant, the result has the shape and type of the image (integers rounded), it is linear before rescaling, and with rescaling its maximum equals the one of the original image. "
     "A zero image stays zero, and neither the image nor the kernel is changed.",
     ["inputs"], "all one-/two-impulse images and constants of small shapes x data types x kernels (sizes, asymmetric) x scaling flag",
     "Tests do not call the convolution; flips of an asymmetric kernel, border handling and integer types need specific images.",
     [PSF, INT], [("convolution", PSF + ": convolute_img; " + INT)],
     "exploration", EXH, "An impulse basis decides a linear operator completely for the enumerated shapes.")
prop("C20", "Parallel computation equals the sequential map for every schedule",
     "For every number of workers and parameters and for every interleaving of the parent process and its workers (including arbitrary delays of start, queues and events), a parallel computation terminates and returns the list of results of the function in the order of parameters, for the first and for every later computation with other parameters of the same manager. "
     "Invalid arguments raise the documented exceptions before any worker starts, and after closing no worker is left running.",
     ["schedules", "configurations"], "all interleavings up to a bound on scheduler deviations of a parent with 2-4 workers, all numbers of parameters up to a bound, repeated computations, all CPU counts",
     "Tests run real processes with one lucky schedule; lost triggers, early polls of queues and races with shutdown depend on the schedule.",
     [INT], [("protocol of queues and events", INT + ": DispenserManager, IndiWorker"), ("use", PSF + ": initialize_parallel_workers, get_kernel_parallel")],
     "model_checking", "stateless model checking of the real code under a controlled scheduler (deviation-bounded exhaustive search)", "Multiprocessing primitives are replaced by models of their semantics; all schedules in the bound.")
prop("C21", "Workers can be started, used, closed and restarted in any order",
     "For any sequence of creating managers, computing, changing parameters, closing and re-creating (also several managers or PSF objects at the same time), every computation returns the right results, closing one does not affect another one, closing twice is harmless, and using a closed manager gives no result instead of hanging. "
     "A PSF object can initialize workers, calculate in parallel and release the workers repeatedly and gets the kernel of the current settings each time.",
     ["histories", "schedules"], "all sequences of lifecycle operations up to a depth over two managers and over a PSF object",
     "Tests use one manager once; shared class-level lists and leftovers of the previous use appear with the second one.",
     [INT, PSF], [("lifecycle", INT + ": DispenserManager"), ("use", PSF + ": initialize_parallel_workers, deinitialize_workers")],
     "model_checking", "explicit-state exploration of lifecycle histories on the real code under the controlled scheduler", "All sequences up to the depth.")
prop("C22", "A failing worker is reported and never hangs the computation",
     "If the computed function raises an exception for any parameter or a worker terminates at any point, the computation ends with an error within bounded time for every schedule, the remaining workers are stopped, and a later new manager works. "
     "No partial result is ever returned as a complete one.",
     ["fault_sequences", "schedules"], "every fault point (exception for each parameter, death of each worker at each of its communication steps) x schedules in the bound",
     "Tests contain no failing function; a hang appears only when a worker dies at a particular moment of the protocol.",
     [INT], [("failure handling", INT + ": IndiWorker.run, DispenserManager.compute")],
     "fault_enumeration", "exhaustive enumeration of fault points under a controlled scheduler on the real code", "All fault points of the explored schedules.")
prop("C23", "Plots draw exactly the computed data",
     "Every plotting function draws the data it is called for: the surface of the requested polynomials and coefficients with the right orientation and coordinates, the current kernel, or the convolved image, on the given figure (replacing previous content) or on a new one, in the requested projection, title, colour map and with a colour bar as requested. "
     "Plotting changes neither the polynomials, the PSF nor the caller's data, and invalid requests raise the documented errors.",
     ["inputs", "histories"], "the full product of plotting options (projection, title, colour bar, colour map, defaults/own coordinates) x selections of polynomials, and sequences of plots on one figure",
     "Tests do not plot; visual output is inspected by eye for one or two options.",
     [PLOT, ZP, PSF], [("plots", PLOT + "; " + ZP + ": plot_profile, plot_sum_zernikes_on_fig; " + PSF + ": plot_kernel, visualize_convolution")],
     "exploration", EXH, "Inspects the drawn artists with the non-interactive backend, not pixels.")
prop("C24", "Evaluation from several threads gives the same results",
     "Evaluating, summing, generating and fitting polynomials concurrently from several threads, on the same or on different polynomial objects, gives each thread exactly the result it gets when run alone, for every interleaving of the threads.",
     ["schedules"], "all interleavings of two threads at line granularity up to a bound on preemptions, for all pairs of operations of an alphabet",
     "Tests are single-threaded; module- or class-level temporaries corrupt results only under a particular preemption.",
     [ZP, RADIAL, FIT], [("evaluation without shared mutable state", ZP + "; " + RADIAL + "; " + FIT)],
     "model_checking", "stateless model checking of the real code: preemption-bounded exhaustive thread interleavings (line-level scheduler)", "All interleavings up to the preemption bound at line granularity.")
prop("C25", "PSF objects used from several threads give the same results",
     "Setting properties of, calculating (plain or accelerated), cropping, saving, reading and convolving with different PSF objects concurrently from several threads gives each thread exactly the kernels, properties, images and files it gets when run alone, for every interleaving of the threads, also if the objects share polynomials, sequences of coefficients, images or the folder for saving.",
     ["schedules"], "all interleavings of two threads at line granularity up to a bound on preemptions, for all pairs of operations on PSF objects of an alphabet",
     "Tests are single-threaded; a module-level buffer, cache or flag in the calculation corrupts a kernel only under a particular preemption.",
     [PSF, "src/zernpy/calculations/calc_psfs.py", "src/zernpy/calculations/calc_psfs_numba.py"], [("calculation without shared mutable state", PSF + "; src/zernpy/calculations/calc_psfs.py; src/zernpy/calculations/calc_psfs_numba.py")],
     "model_checking", "stateless model checking of the real code: preemption-bounded exhaustive thread interleavings (line-level scheduler)", "All interleavings up to the preemption bound at line granularity; compiled functions are atomic.")
prop("C26", "The documented conditions are warned about, exactly when they hold",
     "A user gets a warning each time that an angle is outside of [0, 2pi], the exact equation is asked for an order above its limit (returning zeros: 40 for values, 38 for radial derivatives), polynomials above the order 30 are generated, the image for a fit isn't square or has an even side, a coefficient exceeds 10 wavelengths in magnitude, a kernel size is set right after the physical properties below the size estimated by them or before them, a kernel is calculated without physical properties or keeps more than 5% of its maximum on its border, or an existing file is kept by saving. "
     "There is no such warning otherwise, whatever has been called, warned about or rejected before, and suppressing warnings silences a calculation or fit without changing its result.",
     ["inputs", "histories"], "all settings of alphabets around each threshold (each position of vectors and sequences), all kernel sizes in a range and all histories of settings and calculations up to a depth",
     "Tests never look at warnings; a threshold checked for one sign, position or border only, or a message left from a previous call, needs combinations of values and calls.",
     [ZP, PSF, CPSF, NPSF, FIT], [("warnings of settings and kernels", PSF + ": set_physical_props, set_calculation_props, calculate_psf_kernel; " + CPSF + ", " + NPSF + ": check of the border"), ("warnings of evaluations and fits", ZP + ": _check_angles, radial, radial_dr, polynomial_value, generate_polynomials; " + FIT + ": crop_phases_img")],
     "exploration", "exhaustive bounded enumeration of settings and call histories on the real code against the documented conditions", "Judges only whether a warning (UserWarning) is given, not its text or category beyond that.")
prop("C27", "The package works the same without the optional numba library",
     "Without numba the package imports, and all settings, calculations, crops, convolutions, savings and readings of PSFs behave as with it and give the same kernels: acceleration asked for explicitly falls back to the plain calculation with a warning each time (unless suppressed), no flag gives the plain calculation without a warning, and the precompilation returns None with a warning and changes no object. "
     "With numba the precompilation returns two PSF objects, changes no properties of other or later objects, and recommends a newer version exactly if the installed one is older than 0.57.1, whatever its version text is and whether or not its metadata is installed.",
     ["configurations", "histories"], "numba absent or of any version x all combinations of flags x kinds of PSFs, and all histories of operations on PSF objects up to a depth in an interpreter without numba",
     "The test environment has exactly one configuration, in which numba is installed in one version; the fallback code never runs.",
     [PSF, NPSF, CPSF], [("detection of the library and fallback", PSF + ": import of numba, calculate_psf_kernel, force_get_psf_compilation"), ("plain calculation", CPSF + ": get_psf_kernel, get_psf_kernel_zerns"), ("compiled functions", NPSF)],
     "exploration", "exhaustive bounded enumeration of configurations, flags and call histories on the real code without numba against the reference and the specification model of C14", "Absence of numba is simulated by its failing import; small kernels.")
prop("C28", "An interrupted parallel computation never gives wrong results later",
     "If an exception such as KeyboardInterrupt (or one raised by a handler of a signal) arrives at any moment of creating a manager of workers, computing, updating parameters or closing, in the process of the manager only or in all processes, every later computation returns the right results, returns None or raises RuntimeError, and nothing waits for ever. "
     "No worker is left running after close() (or after an interrupted creation), and new managers work.",
     ["fault_sequences", "schedules"], "every point of interruption (each communication step and delay of the manager in each phase) x kinds of exceptions x following operations x schedules in the bound",
     "Tests never interrupt a computation; results left in a queue are mixed up only if the exception arrives between two particular steps.",
     [INT], [("interruption", INT + ": DispenserManager.__init__, compute, update_params, close; IndiWorker.run")],
     "fault_enumeration", "exhaustive enumeration of points of interruption under a controlled scheduler on the real code", "One exception per execution, at an operation with a shared object or a delay; modelled primitives of multiprocessing.")
prop("C29", "An interrupted operation can be repeated and damages nothing else",
     "If an exception such as KeyboardInterrupt, MemoryError or one raised by a handler of a signal arrives at any moment of an operation on a PSF object (setting properties, calculating, cropping, convolving, saving, reading), of evaluating, generating or fitting polynomials, repeating the operation gives the same results and the same kernel as without the interruption, and so do later operations with other settings. "
     "An interrupted calculation leaves the complete previous or the complete new kernel; other and new objects, data of the caller, saved files (complete or absent), filters of warnings and settings of numpy aren't affected.",
     ["fault_sequences", "histories"], "every line of the package executed by an operation (its first and last executions) as a point of interruption x operations x kinds and states of objects x following operations",
     "Tests never interrupt an operation; a temporarily changed attribute or setting, or a partially filled buffer stays only after an exception between two particular lines.",
     [PSF, ZP, CPSF, FIT], [("operations on PSF objects", PSF), ("evaluation and fitting", ZP + "; " + FIT + "; " + RADIAL)],
     "fault_enumeration", "exhaustive enumeration of points of interruption (executed lines) on the real code", "One exception per operation, at lines of the package; lines executed many times: first and last executions.")
prop("C30", "Copies and pickled objects behave as the originals and are independent of them",
     "A copy (copy.copy, copy.deepcopy, pickling with any protocol, alone or within containers) of a PSF object without initialized workers has, after any history of operations, the same properties, coefficients, polynomials and kernel as the original, and every later operation (setting properties, calculating, cropping, convolving, saving, reading) gives the same results, warnings and states with it as with an original that was never copied, also if the original doesn't exist any more. "
     "An operation on one of them never changes the other; deep copies and restored objects share no arrays. A copied or restored ZernPol is equal to its original, and gives the same indices, names, values and fits.",
     ["histories"], "all histories of operations up to a depth x ways of copying x following operations on the copy or the original x kinds of PSF objects; all polynomials up to an order x ways of copying",
     "Tests never copy an object; state kept outside of the object (by identity, in the class) or attributes that can't be copied are visible only after particular histories.",
     [PSF, ZP], [("attributes of PSF objects", PSF + ": __init__, set_physical_props, set_calculation_props, crop_kernel, read_json"), ("attributes of polynomials", ZP + ": __init__")],
     "exploration", "exhaustive bounded enumeration of histories on the real code against the same histories without copying (differential)", "Small kernels; objects without initialized workers.")
