"""Source of properties.jsonl: (id, title, statement, over, quantifier text, why tests cannot, files, mechanisms)."""
C = "crates/"
AC = C + "aether_core/src/"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe:
        d["anchors"]["observe_at"] = observe
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if hook:
        d["anchors"]["hook_needed"] = hook
    P.append(d)


prop("C01", "Dense matrix, vector and tensor arithmetic is the mathematical operation",
     "For every shape and every finite input, each arithmetic operator (products, sums, differences, negation, scaling, division, element-wise and broadcast operations, transposes, slices, reductions, norms, dot and cross products, angles, normalisation), in every by-value and by-reference spelling, equals the exact real result to within a few rounding errors proportional to the operation's own condition, and a NaN in an operand is not silently lost from a product. "
     "Blocked and unblocked paths, element access, iteration, collection, casting, printing and tensor indexing all agree on which element is which, and an access or collection with the wrong number of elements is refused rather than answered from another element.",
     ["inputs", "configurations"], "all shapes (1..48 per side, around the blocking and unrolling sizes), both scalar types, all operand magnitudes and special values",
     "The unit tests use a handful of 2x2 and 3x3 integer matrices; blocking remainders, large shapes, f32, cancellation and NaN are never reached.",
     [AC + "math/matrix.rs", AC + "math/vector.rs", AC + "math/tensor.rs", AC + "math/algorithms.rs", AC + "utils/angle_conversion.rs"],
     [("blocked products and operator impls", AC + "math/matrix.rs"), ("vector reductions", AC + "math/vector.rs"), ("strided and unrolled products", AC + "math/algorithms.rs"), ("row-major indexing", AC + "math/tensor.rs")],
     ["return values of public operators"])

prop("C02", "SIMD kernels equal scalar arithmetic and stay inside their operands",
     "In every build configuration (SIMD on or off, fused multiply-add on or off, with or without the standard library, any instruction set the CPU offers) every product, matrix-vector product, dot product and fixed-size kernel gives the scalar result to within rounding, for all shapes including remainders narrower than a vector register. "
     "No kernel reads or writes outside its operands or executes undefined behaviour.",
     ["inputs", "configurations"], "all shapes around the 2-, 4- and 8-lane widths, both scalar types, every feature combination and target-feature set, operands placed against guard zones",
     "The test suite is built in one feature set, with friendly sizes, and cannot see an out-of-bounds read that returns plausible data.",
     [AC + "math/arch/x86/matrix_simd.rs", AC + "math/arch/x86/vector_simd.rs", AC + "math/matrix.rs", AC + "math/vector.rs", AC + "real/no_std_impl.rs"],
     [("runtime dispatch", AC + "math/matrix.rs"), ("AVX/SSE/FMA kernels", AC + "math/arch/x86/matrix_simd.rs")],
     ["return values", "AddressSanitizer / Miri reports"])

prop("C03", "Solvers, inverses and factorisations return what they claim or refuse",
     "For every matrix safely away from singularity, the determinant, inverses, LU and Cholesky factorisations and linear solves (single and multiple right-hand sides) are returned and satisfy their defining equation with a residual proportional to machine precision and the conditioning, whatever row exchanges are needed; a Cholesky factor is lower triangular with positive diagonal; LU pivots partially (no multiplier exceeds one) and reports its permutation and sign. "
     "For a visibly singular matrix (a zero row or column, equal or opposite rows; not positive definite, for Cholesky) they refuse (no value) and the determinant is zero to rounding, never a panic or a silently wrong finite answer (with equal rows, the rounding of the multipliers may leave a pivot of rounding size, and then what is returned is backward stable).",
     ["inputs"], "all well- and ill-conditioned, permuted, scaled, exactly singular, indefinite and near-singular square matrices of order 1..12, f64 and f32",
     "Tests solve two or three fixed 3x3 systems that need at most one row exchange.",
     [AC + "math/matrix.rs", AC + "numerical_methods/solvers/lu.rs", AC + "numerical_methods/solvers/spd.rs"],
     [("partial pivoting", AC + "numerical_methods/solvers/lu.rs"), ("pivot thresholds", AC + "math/matrix.rs"), ("Cholesky pivot test", AC + "numerical_methods/solvers/spd.rs")])

prop("C04", "All attitude representations describe one and the same rotation",
     "Converting an attitude between direction-cosine matrix, quaternion and roll-pitch-yaw angles, in any chain, at any orientation including gimbal lock and half turns, preserves the rotation it applies to every vector; the matrices stay proper rotations, the quaternions stay unit, and angles come back in range. "
     "Composing, inverting and applying rotations agrees in every representation: composing two quaternions or two rotations is the matrix product of their matrices, inverse undoes, and every way of rotating a vector gives the same vector with its length kept.",
     ["inputs", "histories"], "all orientations (uniform, axis-aligned, near half turns, within 1e-12 of gimbal lock), all chains of conversions and compositions",
     "Tests check single-axis rotations and a few fixed triples; disagreement of conventions between two representations needs generic rotations, gimbal lock needs degenerate ones.",
     [AC + "attitude/dcm.rs", AC + "attitude/euler.rs", AC + "attitude/quaternion.rs", AC + "attitude/rotation.rs"],
     [("quaternion to matrix", AC + "attitude/dcm.rs"), ("matrix to quaternion, four branches", AC + "attitude/quaternion.rs"), ("angle extraction", AC + "attitude/euler.rs"), ("compose", AC + "attitude/rotation.rs")])

prop("C05", "Attitude propagation follows the kinematic equation",
     "Propagating an attitude with a constant body rate is the exact rotation by rate times time about that axis, for any rate, step and split into sub-steps (including zero and reversed steps), and keeps the attitude a unit rotation over arbitrarily long histories. "
     "Propagating with rate and angular acceleration agrees with the kinematic differential equation up to fourth order in the step, and a zero step is the identity.",
     ["inputs", "histories"], "all rates, accelerations, steps and initial attitudes; step sequences up to thousands of steps",
     "Tests propagate one axis for one step.",
     [AC + "attitude/quaternion.rs", AC + "attitude/rotation.rs"],
     [("Taylor step", AC + "attitude/quaternion.rs"), ("exponential map", AC + "attitude/rotation.rs")])

prop("C06", "Reference-frame transforms are mutually inverse, rigid and correctly oriented",
     "Every frame transform (Earth-fixed and inertial, local level, body, wind, flight path, and their rate matrices) is a proper rotation equal to its textbook definition at every angle and time, the two directions of a pair are inverses, and a rotation's rate matrix is its time derivative. "
     "Poses, bodies and assemblies keep positions and orientations as given, and the identity pose changes nothing.",
     ["inputs"], "all angles, latitudes and longitudes, times over centuries, vectors of any magnitude",
     "Tests check identity angles and single quarter turns.",
     [AC + "reference_frame/transforms.rs", AC + "reference_frame/itrf.rs", AC + "reference_frame/pose.rs", AC + "reference_frame/body.rs", AC + "reference_frame/asm.rs"],
     [("elementary rotations and their products", AC + "reference_frame/transforms.rs"), ("rotating frame", AC + "reference_frame/itrf.rs")])

prop("C07", "Cartesian, spherical and cylindrical coordinates round-trip",
     "Every point converted between Cartesian, spherical and cylindrical coordinates, along any path of conversions, names the same point of space, with radius, azimuth and inclination in their documented ranges, in every octant, on the axes and at the origin. "
     "Coordinate arithmetic, powers, maps, iteration and frame transforms act component-wise exactly like the underlying vectors.",
     ["inputs"], "all octants, axis and plane points, magnitudes 1e-12..1e12, all conversion paths up to length six",
     "Tests convert single points in the first octant.",
     [AC + "coordinate/cartesian.rs", AC + "coordinate/spherical.rs", AC + "coordinate/cylindrical.rs"],
     [("atan2 / acos conversions", AC + "coordinate/spherical.rs")])

prop("C08", "Geodetic and Earth-fixed positions convert both ways exactly",
     "The geodetic to Earth-fixed conversion is the closed-form ellipsoid formula, and both inverse conversions (closed-form and iterative) recover latitude, longitude and height to sub-millimetre accuracy everywhere from below the surface to beyond geostationary orbit, including the poles, the equator and the antimeridian, so the two inverses agree with each other. "
     "The ellipsoid's derived constants and radii are mutually consistent.",
     ["inputs"], "latitudes -90..90 including within 1e-9 of the poles, all longitudes, heights -10 km..1e6 km",
     "Tests convert a few mid-latitude points.",
     [C + "aether_models/src/terrestrial/wgs84/transforms/mod.rs", C + "aether_models/src/terrestrial/wgs84/constants/mod.rs", C + "aether_models/src/terrestrial/earth.rs"],
     [("Ferrari closed form", C + "aether_models/src/terrestrial/wgs84/transforms/mod.rs"), ("fixed-point iteration", C + "aether_models/src/terrestrial/wgs84/transforms/mod.rs")])

prop("C09", "Earth gravity is the normal gravity field at every position",
     "Surface gravity at every latitude is the closed (Somigliana) formula of the ellipsoid, and the gravity vector and its ellipsoidal components at every position above it are the gradient of the normal gravity potential: symmetric between hemispheres and about the axis, pointing down, decreasing with height, and on the surface as long as the surface formula says. "
     "Every result is finite on the whole domain, poles and equator included, and the force on a mass is mass times that vector.",
     ["inputs"], "all latitudes and longitudes, heights -10 km..100000 km, axis and equator positions",
     "Tests evaluate the equator only, where a wrong power of the sine vanishes.",
     [C + "aether_models/src/terrestrial/wgs84/gravity/mod.rs", C + "aether_models/src/terrestrial/earth.rs"],
     [("normal gravity", C + "aether_models/src/terrestrial/wgs84/gravity/mod.rs")])

prop("C10", "Standard atmospheres follow their layer definition at every altitude",
     "At every altitude of their range the standard atmospheres return the temperature of their published layer table and, up to 80 km (ISA) and 86 km (US standard), the pressure that the hydrostatic equation gives from it, continuous across layer boundaries and strictly decreasing; density, speed of sound and viscosity follow from them by the gas law and their closed formulas, and gravity and geopotential height are inverse-square. "
     "Altitudes beyond the top of the range, infinite or NaN are refused with an error, never a panic or a fabricated value.",
     ["inputs"], "altitudes from below sea level to beyond the top layer, dense around every layer boundary",
     "Tests sample sea level and one or two table rows.",
     [C + "aether_models/src/terrestrial/atmospheres/isa.rs", C + "aether_models/src/terrestrial/atmospheres/ussa.rs", C + "aether_models/src/terrestrial/earth.rs"],
     [("layer table and barometric formulas", C + "aether_models/src/terrestrial/atmospheres/isa.rs"), ("1976 layers", C + "aether_models/src/terrestrial/atmospheres/ussa.rs")])

prop("C11", "The magnetic model is the spherical-harmonic field of its coefficients",
     "At every position (pole to pole, any longitude wrap, any height above -10 km) and any decimal year, the returned north-east-down field is minus the gradient of the published WMM2025 potential with linearly propagated coefficients (reference radius 6371.2 km, Schmidt semi-normalised, truncated at the coefficient set's max_degree), the secular variation is the same expression of the rate coefficients, and horizontal and total intensity, declination, inclination and the four rates are the exact functions of those vectors. "
     "The embedded table is the published coefficient file, coefficients outside degree 12 read as zero, the published test values are reproduced, accuracy degrades only with the inverse distance to the pole, and PoleSingularity is returned only within 1e-12 rad of a pole.",
     ["inputs"], "all latitudes, longitudes (any wrap), heights above -10 km, any year",
     "Tests compare a few rows of the published test table at ordinary latitudes.",
     [C + "aether_catalogs/src/wmm/mod.rs", C + "aether_catalogs/src/wmm/wmm_generated.rs", C + "aether_catalogs/build.rs"],
     [("Legendre recursion and summation", C + "aether_catalogs/src/wmm/mod.rs"), ("generated coefficients", C + "aether_catalogs/src/wmm/wmm_generated.rs")])

prop("C12", "Integrators and the root finder meet their stated order and contract",
     "For vectors of any length, Cartesian coordinates and Euler angles alike: one classical Runge-Kutta step of x' = f(x) is the fourth-order tableau (on linear systems, the degree-4 Taylor polynomial of the flow), and repeated steps converge at fourth order; the Euler increment is rate times step, the trapezoidal increment is the mean of both samples times step, so accumulated increments are the exact integral of piecewise-constant and piecewise-linear signals; a zero step changes nothing. "
     "The Newton solver starts at the guess, follows the Newton recurrence, never exceeds its iteration limit, answers exactly when a step is smaller than the tolerance (so the answer is a root to that tolerance on convex functions, reached within the limit), and returns an error when the derivative is exactly zero or the iterations run out.",
     ["inputs", "histories"], "all state types, random linear and polynomial systems, step sizes and histories; random functions with simple, multiple and no roots",
     "Tests take one step of one scalar system.",
     [AC + "numerical_methods/integration/rk4.rs", AC + "numerical_methods/integration/euler.rs", AC + "numerical_methods/integration/trapezoidal.rs", AC + "numerical_methods/solvers/newton.rs"],
     [("classic tableau", AC + "numerical_methods/integration/rk4.rs"), ("iteration and guards", AC + "numerical_methods/solvers/newton.rs")])

prop("C13", "Serialised values decode to themselves; corrupt input is an error, not damage",
     "Every value of the encodable types (matrices and vectors of any shape and element type, Cartesian coordinates, quaternions, Euler angles, direction-cosine matrices, reference frames) decoded from its own encoding is bit-for-bit the value encoded and consumes exactly the bytes produced, in bincode (all bit patterns; layout is the elements in row-major order and nothing else) and in JSON (finite values). "
     "Decoding any truncated, mutated, over-long or random input returns an error or a valid value and never panics or touches uninitialised memory; whenever decoding, collecting or mapping fails part-way (bad element, short or long row, panicking iterator) every element already built is dropped exactly once.",
     ["inputs", "fault_sequences"], "all encodable types and shapes, all bit patterns incl. NaN, every truncation point, random mutations, element types whose construction fails at any index",
     "Tests round-trip a few friendly values and never feed corrupt input or an element type that owns memory.",
     [AC + "math/matrix.rs", AC + "math/vector.rs", AC + "attitude/quaternion.rs", AC + "reference_frame/body.rs", AC + "reference_frame/asm.rs", AC + "reference_frame/itrf.rs", AC + "reference_frame/ned.rs", AC + "coordinate/cartesian.rs"],
     [("partially initialised array drop guards", AC + "math/matrix.rs"), ("tuple serialisation", AC + "math/vector.rs")])

prop("C14", "Time arithmetic and time-scale conversions are exact and reversible",
     "Every duration constructor and normalize() give nanoseconds in [0, 1e9) and the exact length for any input; sums and differences of normalised durations and instants, and their ordering, equal exact integer-nanosecond arithmetic, negative values, carries and borrows alike. "
     "Converting between Unix, UTC, TAI and GPS shifts by exactly the documented epoch and the configured leap-second count (TAI-GPS is 19 s whatever that count, even while another thread changes it) and every conversion cycle returns the same instant. GPS second of week is in [0, 604800), raw week is the week modulo 1024, and the full week is the nearest non-negative week to the hint with that residue, before the GPS epoch and across rollovers.",
     ["inputs", "histories"], "durations and instants over +-1e11 s, all nanosecond carries, all leap offsets, all conversion cycles",
     "Tests use a few positive values with no carry.",
     [C + "aether_time/src/time/duration.rs", C + "aether_time/src/time/time.rs", C + "aether_time/src/time/gps.rs"],
     [("normalisation and carries", C + "aether_time/src/time/duration.rs"), ("scale offsets", C + "aether_time/src/time/time.rs"), ("week split", C + "aether_time/src/time/gps.rs")],
     state=[("leap-second count", "process-wide TAI-UTC offset", C + "aether_time/src/time/time.rs")])

prop("C15", "Civil dates and instants convert one-to-one over the whole calendar",
     "Every instant converts to the one valid proleptic Gregorian date and time naming it (month, day, hour, minute, second, nanosecond all in range) and back to the same instant, before and after 1970, across leap years, centuries and year zero. "
     "Calendar order is instant order, and consecutive days are consecutive dates.",
     ["inputs"], "every day of a 400-year cycle plus eras from year -10000 to 10000, every second boundary class, all nanoseconds",
     "Tests convert a couple of dates after 1970.",
     [C + "aether_time/src/time/schedule.rs", C + "aether_time/src/time/time.rs"],
     [("days-from-civil and inverse", C + "aether_time/src/time/schedule.rs")])

prop("C16", "Alarms, schedules and timers fire exactly when due, once per occurrence",
     "For every recurrence (interval, hourly, daily, yearly) and every polling history, stalls, repeats, clock steps back and times before 1970 included, the next occurrence is the earliest instant strictly after the reference that matches the rule, a check fires exactly when that occurrence has arrived, and several missed occurrences are reported once; 29 February rules fire on 1 March in common years. One-shot schedules and alarms fire once. "
     "Interval schedules and timers keep their phase without drift, no period (zero, negative or tiny against the elapsed time) makes polling run on, and the timekeeper's elapsed, step and absolute times are the exact tick count floored to nanoseconds across counter wrap.",
     ["inputs", "histories"], "all schedule kinds and parameters, reference instants around every boundary incl. negative times, arbitrary polling histories with stalls and repeats",
     "Tests poll one alarm two or three times.",
     [C + "aether_time/src/time/schedule.rs", C + "aether_time/src/time/mission.rs"],
     [("next-occurrence computation", C + "aether_time/src/time/schedule.rs"), ("event catch-up", C + "aether_time/src/time/mission.rs")],
     state=[("next due time", "per alarm or event", C + "aether_time/src/time/schedule.rs")])

prop("C17", "The random generator is its published sequence with the promised distributions",
     "For every seed (zero included) the generator yields exactly the published xorshift64* sequence, whose state map has the full period 2^64-1, never outputs zero, and copies replay it identically. Real draws are the top 53 bits of the next output divided by 2^53, in [0, 1) for f64 and for f32 alike (where they are that value rounded, never up to one). Normal draws are Box-Muller, sqrt(-2 ln u1) cos(2 pi u2) of the next two draws, finite even when u1 is zero, in both precisions.",
     ["inputs", "histories"], "all seeds incl. degenerate ones, sequences up to millions of draws, every output bit",
     "Tests check that two draws differ and a small sample's mean.",
     [C + "aether_rand/src/randomizers/xor_shift.rs"], [("state update and scrambler", C + "aether_rand/src/randomizers/xor_shift.rs"), ("Box-Muller", C + "aether_rand/src/randomizers/xor_shift.rs")])

prop("C18", "Deterministic gradient descent stays feasible, honest and terminates",
     "For every objective (non-convex, discontinuous, NaN-returning or with a wrong gradient), start, bounds and setter configuration (the documented defaults, and infinite, zero or NaN steps and shrink factors included) the optimiser terminates within its iteration limit; with finite gradients it evaluates and returns only points inside the bounds, starting from the projected start, and always returns the objective value of the very point it returns. A reported convergence satisfies the gradient or step tolerance, and it stops at the first iterate that does. With line search on no iterate is worse than the one before, and the step is the first lr*tau^j giving sufficient decrease along -g + (mu/lr)*(previous step), or along -g where that would climb (measured along the projected displacement when bounded); with line search off each step is the projection of x - lr*g + mu*(previous step); on strictly convex quadratics, bounded or not, line search without momentum (and with a sufficient-decrease constant of at least 0.002) reaches the constrained minimiser.",
     ["inputs", "histories"], "random convex quadratics, non-convex and hostile objectives, all bound patterns, all configuration settings",
     "Tests minimise one quadratic and one Rosenbrock start.",
     [C + "aether_opt/src/gradient_descent/basic.rs"], [("projection and backtracking", C + "aether_opt/src/gradient_descent/basic.rs")],
     observe=["every objective and gradient evaluation, recorded by a spying closure"])

prop("C19", "Stochastic optimisers are schedule-independent and sample exactly as configured",
     "For every configuration each iteration draws exactly batch_size samples at the current point, and moves to the projection of x - lr/(1+decay k) * (their mean) + mu*(previous step); every evaluated and returned point is inside the bounds, the returned value is the objective there, and the iteration, minimum-iteration, smoothed-gradient, step and (positive) objective stopping rules are all kept. The serial sampler is handed the seed's one generator sequence. In the parallel optimiser every worker of every iteration has its own stream, no more than the configured threads sample at once, results are bitwise the same for a seed and thread count whatever the thread schedule, there is no data race, and a panicking sampler reaches the caller without a hang.",
     ["schedules", "inputs", "configurations"], "all seeds, batch sizes, thread counts 1..16 incl. more threads than samples, injected delays in worker evaluations, all option combinations",
     "Tests run one seed, one thread count, without perturbing the schedule or counting evaluations.",
     [C + "aether_opt/src/gradient_descent/stochastic.rs", C + "aether_opt/src/gradient_descent/stochastic_parallel.rs"],
     [("scoped workers with per-worker seeds", C + "aether_opt/src/gradient_descent/stochastic_parallel.rs"), ("ordered reduction", C + "aether_opt/src/gradient_descent/stochastic_parallel.rs")],
     observe=["per-sample evaluations recorded by spying closures with injected delays", "ThreadSanitizer / Miri reports"])

prop("C20", "Statistics and distributions agree with their definitions",
     "For any sample set, the mean, sample covariance (denominator n-1), cross covariance, standard deviations, correlation and the conversion from correlation back to covariance equal their textbook definitions to rounding, symmetric and positive semi-definite; an empty set, a single sample, mismatched sample counts and (for standard deviations and correlation) an axis without variance are refused. The Gaussian and multivariate normal densities and the Bernoulli and categorical masses equal their formulas for all valid parameters; a Gaussian sample is the Box-Muller transform (cosine branch) of two successive uniform draws; the Gaussian, Bernoulli and categorical fits are the maximum-likelihood estimates, with a positive deviation and, for an empty sample, the standard normal.",
     ["inputs", "histories"], "all sample sizes from one, dimensions, offsets up to 1e8 spreads, all valid and invalid parameters, sample streams of 1e5 draws",
     "Tests evaluate one density value and one small covariance.",
     [C + "aether_stats/src/covariance.rs", C + "aether_stats/src/distributions/gaussian.rs", C + "aether_stats/src/distributions/multivariate.rs", C + "aether_stats/src/distributions/categorical.rs", C + "aether_stats/src/distributions/bernoulli.rs"],
     [("accumulation", C + "aether_stats/src/covariance.rs"), ("inverse-CDF and Cholesky sampling", C + "aether_stats/src/distributions/multivariate.rs")])

prop("C21", "Interpolants reproduce their data and the functions they are exact for",
     "Linear interpolation and its inverse and remapping equal their formulas inside and outside the range, with an empty input range mapped to the start of the output; a polynomial interpolant is the unique polynomial of degree N-1 through its nodes, in any order and at any scale; the cubic spline is the natural spline through its knots (values, continuous first and second derivatives, zero second derivative at both ends), continuing the end segments outside the data. All reproduce their nodes to rounding. Too few nodes, duplicate or NaN nodes and, for the spline, nodes out of order are refused.",
     ["inputs"], "random node sets of any spacing and scale, all evaluation points incl. nodes, ends and outside, malformed inputs",
     "Tests interpolate three equally spaced nodes.",
     [C + "aether_interp/src/lerp.rs", C + "aether_interp/src/polynomial.rs", C + "aether_interp/src/spline.rs"],
     [("tridiagonal solve", C + "aether_interp/src/spline.rs"), ("barycentric evaluation", C + "aether_interp/src/polynomial.rs")])

prop("C22", "Learning models fit and predict by their defining criterion",
     "One epoch of the linear, ridge, logistic and SVM models moves the parameters by the learning rate times the exact gradient of the mean squared error, the same plus alpha times the squared weight norm, the mean cross-entropy, and the mean hinge loss plus the squared weight norm over C times the sample count; fitting with the optimiser descends these criteria (for the SVM with the squared weight norm over 2C, for the perceptron the mean perceptron loss): each fixed step follows the exact gradient, each line search takes the first trial whose true loss decreases enough, and linear, ridge and logistic fits end at the minimiser on well-conditioned data. Empty data changes nothing. Predictions, probabilities and decisions are the linear score, its sigmoid and its sign; the perceptron updates exactly on mistakes (a zero score counts) and separates separable data within the classical mistake bound; Gaussian naive Bayes, LDA and QDA estimate priors, means, variances (naive Bayes: divided by n; LDA/QDA: sample covariances, pooled with the priors as weights) by their definitions, in any sample order, and predict the class with the largest posterior score, never an empty one, whenever the covariances are invertible.",
     ["inputs", "histories"], "random data sets of any size and conditioning, empty and single-class edge cases, permutations of the data",
     "Tests fit one tiny hand-made data set per model.",
     [C + "aether_ml/src/regression/linear.rs", C + "aether_ml/src/regression/ridge.rs", C + "aether_ml/src/regression/logistic.rs", C + "aether_ml/src/classification/lda_qda.rs", C + "aether_ml/src/classification/naive_bayes.rs", C + "aether_ml/src/classification/perceptron.rs", C + "aether_ml/src/classification/svm.rs"],
     [("normal equations", C + "aether_ml/src/regression/linear.rs"), ("score functions", C + "aether_ml/src/classification/lda_qda.rs")])

prop("C23", "Solid, composite and tank mass properties are physically consistent",
     "Volume and principal moments of spheres, cylinders (axis z) and prisms equal the integrals over the solid for all dimensions and obey the triangle inequality. The sum or difference of two placed solids, by operator or by the matrix form, conserves mass and volume, has the mean density, the mass-weighted centre, and the inertia of both parts about that centre in assembly axes, to rounding even far from the assembly origin; it exists exactly if both volumes and the net mass and volume are positive. Tank limits clamp the fill to the container and negative volumes and densities to zero, and aggregate tank mass and inertia are the sums over tanks, negative masses counting as zero.",
     ["inputs", "histories"], "all dimensions over many orders of magnitude, arbitrary assemblies and offsets, arbitrary fill and drain histories",
     "Tests evaluate unit shapes.",
     [C + "aether_shapes/src/attributes.rs", C + "aether_shapes/src/cylinder.rs", C + "aether_shapes/src/prism.rs", C + "aether_shapes/src/sphere.rs", C + "aether_fluids/src/lib.rs"],
     [("parallel-axis composition", C + "aether_shapes/src/attributes.rs"), ("tank fill", C + "aether_fluids/src/lib.rs")])

prop("C24", "SI prefix conversions are exact and reversible",
     "Converting a length, time or mass between its base unit and any SI prefix multiplies by the exact power of ten to the precision of the number type (f32 and f64), round-trips, and composes: going from one prefix to any other through the base unit gives the exact ratio. Constructors keep the value, and quantity arithmetic (sum, difference, scaling, negation, equality) acts on the values exactly.",
     ["inputs"], "all unit and prefix pairs and triples, all magnitudes, both number types",
     "Tests convert a few lengths.",
     [C + "aether_units/src/si/si.rs", C + "aether_units/src/si/si_prefix.rs", C + "aether_units/src/standard/standard.rs", C + "aether_units/src/base/units.rs"],
     [("factor tables", C + "aether_units/src/si/si_prefix.rs")])

prop("C25", "The assertion helpers accept exactly what is within tolerance",
     "The vector and matrix comparisons, and their panicking forms, pass if and only if every pair of elements differs by at most the tolerance: a single differing or NaN element, or an infinite one against anything else, fails them, finite equal operands always pass, and the element they report is one that differs. The symmetry check does the same for mirrored elements, the finiteness checks fail exactly on NaN or infinite elements. The grid comparison evaluates both functions at every point of the uniform grid including both ends, fails if the difference exceeds the tolerance or is NaN anywhere, refuses zero samples and returns a worst point with its error; maximum differences are the maxima over all elements (NaN if any difference is NaN), and Frobenius norms equal their definitions, and the coding assertions pass for every vector and quaternion whose elements are numbers.",
     ["inputs"], "all shapes, one perturbed element at every position, differences straddling the tolerance, NaN and infinities on either side",
     "The helpers are themselves the tests; nothing tests that they can fail.",
     [C + "aether_test/src/assert/matrix.rs", C + "aether_test/src/assert/vector.rs", C + "aether_test/src/assert/function.rs", C + "aether_test/src/assert/coding.rs"],
     [("element loops and tolerances", C + "aether_test/src/assert/matrix.rs")])

prop("C26", "The live CSV follower always shows exactly the complete rows of its file",
     "After every poll, whatever appends (split at any byte, even inside a character), truncations below what was already read, replacements and deletions preceded it, the displayed series are bit for bit the valid complete rows of the current file in order, each column as long as the abscissa, limited to the newest points when a limit is set; blank and malformed lines, including bytes that are not text, are skipped without disturbing later ones and an unfinished last line is held back until it is completed. A file that shrank below what was read, or another file under the name, restarts the series, and so do re-initialising and choosing other columns. A poll reports a change exactly when it took rows in or restarted; a missing file changes nothing; a header without a wanted column is an error that leaves the series empty; while another thread appends and replaces the file, every poll succeeds and shows the leading rows of one version, and after the last write the whole of it, and the endless loop (five polls a second for an unusable rate) keeps redrawing every new row until the drawing can no longer be written, which ends it with an error.",
     ["histories", "fault_sequences", "schedules"], "all interleavings of partial writes, truncation, atomic replacement, deletion and polls; rows malformed in every way; any text encoding boundary",
     "Tests append one whole line once.",
     [C + "aether_viz/src/realtime.rs"], [("offset, partial line and file identity", C + "aether_viz/src/realtime.rs")],
     ["public accessors after each poll"],
     [("file offset, partial line, identity", "what has been consumed", C + "aether_viz/src/realtime.rs")])

prop("C27", "Star catalogue positions, motions, colours and checksums are right",
     "For every catalogued position (poles included), motion, parallax and epoch, a star's propagated direction is its 2016 direction carried along the great circle at the catalogued rate (the right-ascension rate including cos dec), unchanged at 2016; its distance is 1000 pc/mas of parallax in AU at every epoch (1 without a positive parallax); its velocity, when parallax and both motions are present, is the derivative of the position in AU per year and zero without parallax; its uncertainties are finite, non-negative, follow the documented quadrature of position and motion errors since 2016 (Gaia) or 1991.25 (others) and equal the catalogued ones at 2016. Well-formed catalogue rows are read back exactly whatever the column order, quoting or malformed rows between them, and survive the binary archive. The checksum accepts the original file, in either case of the digest, and refuses every changed, missing or added byte and every other digest; colour temperatures interpolate the published knots, colours stay in range, redden monotonically, equal the documented fits and sRGB curve, and record colours are those of the record's own magnitudes, absent exactly when a magnitude is.",
     ["inputs", "fault_sequences"], "all directions incl. poles, motions, epochs +-10000 years, every single-byte corruption",
     "Tests build one star.",
     [C + "aether_catalogs/src/star_catalogs/mod.rs", C + "aether_catalogs/src/star_catalogs/color.rs", C + "aether_catalogs/build.rs"],
     [("propagation", C + "aether_catalogs/src/star_catalogs/mod.rs"), ("colour fit", C + "aether_catalogs/src/star_catalogs/color.rs")])

prop("C28", "Camera and projection matrices are rigid, invertible and frustum-exact",
     "For every eye, target and up direction that are not degenerate, look_at is a rigid right-handed motion (orthonormal axes, determinant +1, last row 0 0 0 1) that puts the eye at the origin, the target straight ahead at its distance on the negative z axis and the up direction in the upper half of the y-z plane. For every field of view, aspect ratio and pair of distinct depths, the perspective matrix applied to a view-space point maps the near plane to depth -1, the far plane to +1, the field-of-view edges to +-1 and w to the depth; look_at_perspective returns both, and translate composes a translation with a view. For every history of orbiting, world-axis rotation, setting angles, zooming and panning, the orbit camera's forward direction is a unit vector: set angles give the spherical direction (cos p cos y, cos p sin y, sin p), an orbit turns it about world z and then about the camera's right axis, a world rotation about world y and then x, the reported yaw and pitch are its angles, right and up complete a right-handed orthonormal set with right horizontal and up never below the horizon, equal to the axes of the view looking from the camera position at the target, and the position stays at the set distance behind the target.",
     ["inputs", "histories"], "all eye/target/up placements, fields of view, aspect ratios and depth ranges; input event histories of any length",
     "There are no tests of the graphics code beyond a smoke test.",
     [C + "aether_graphics/src/cameras/orbit_camera.rs", C + "aether_graphics/src/graphics/transforms.rs"],
     [("look-at and perspective", C + "aether_graphics/src/graphics/transforms.rs"), ("orbit state", C + "aether_graphics/src/cameras/orbit_camera.rs")])

prop("C29", "Concurrent performance logs lose and tear nothing",
     "However many threads log timings or power samples at once, the file holds its header followed by exactly one intact line per logged event (for names without commas or line breaks), each thread's own events in the order it logged them, with values that read back bit for bit, and a reader of the growing file sees only final lines before the last line break. A timed span writes one line when it ends, also when it ends by unwinding (innermost first), with a non-negative elapsed time at least as long as the work it timed and no longer than the code around it. Energy and power counters in micro-units are read as joules and watts, and unreadable ones as absent; logging has no data race.",
     ["schedules", "histories"], "1..16 threads, any interleaving, spans nested and unwound",
     "Tests log from one thread.",
     [C + "aether_benchmark/src/performance/performance.rs", C + "aether_benchmark/src/performance/timer.rs", C + "aether_benchmark/src/performance/power.rs"],
     [("lock around the file", C + "aether_benchmark/src/performance/performance.rs"), ("span drop", C + "aether_benchmark/src/performance/timer.rs")],
     ["the log file"], hook="the sinks and spans are private to the crate: a guarded re-export")

prop("C30", "Elementary functions behave identically with and without the standard library",
     "Every operation of the scalar abstraction for f32 and f64, and for f16 and f128 where those features are on (absolute value, sign, rounding, fraction, minimum, maximum, sign copy, square root, trigonometric functions and inverses, exponentials, logarithms, real and integer powers, angle conversion, conversions from and to other types, constants) returns the mathematical value on both the std and the no-std back end: exactly where it is representable by definition, correctly rounded for square roots and conversions, within two units in the last place for the transcendental functions (three for log10 and angle conversion), and within the rounding of repeated multiplication for integer powers of any exponent. Signed zeros, infinities, NaN and domain errors follow IEEE rules on both back ends alike; minimum and maximum ignore a NaN.",
     ["inputs", "configurations"], "all magnitudes, halfway cases, special values and domain edges, f16, f32, f64 and f128, std and no-std builds",
     "The test suite only ever builds the standard back end.",
     [AC + "real/real.rs", AC + "real/std_impl.rs", AC + "real/no_std_impl.rs"],
     [("std back end", AC + "real/std_impl.rs"), ("libm back end", AC + "real/no_std_impl.rs")])

prop("C31", "Lunar gravity, frames, orbits and constants follow their formulas",
     "At every time and for every epoch and epoch orientation, the transforms between inertial (ICRF, LIRF) and Moon-fixed (LTRF) axes are proper rotations, mutually inverse, and turn about the lunar z axis by one revolution in 27.321661 days from the Moon's own epoch; ICRF to LTRF is LIRF to LTRF after ICRF to LIRF. Gravitational acceleration, force and gravity-gradient torque equal -mu r/|r|^3, that times the mass, and 3 mu/|r|^5 r x (I r) at every position, and are zero at the centre. An orbit's total mu, mean motion and Keplerian period equal their formulas for all elements; the exported lunar, celestial and terrestrial constants equal their published values and satisfy the relations that define them (unit conversions, L_B from L_C and L_G, GM ratios, rotation rates, masses, synchronous rotation).",
     ["inputs"], "times over centuries, all epochs, orientations, positions and orbits",
     "Tests evaluate one epoch.",
     [C + "aether_models/src/lunar/orbit.rs", C + "aether_models/src/lunar/moon.rs", C + "aether_models/src/lunar/transforms.rs", C + "aether_models/src/celestial/constants.rs", C + "aether_models/src/terrestrial/earth.rs", C + "aether_models/src/terrestrial/iers/constants.rs", C + "aether_models/src/terrestrial/wgs84/constants/mod.rs"],
     [("mean motion and period", C + "aether_models/src/lunar/orbit.rs"), ("selenographic transforms", C + "aether_models/src/lunar/transforms.rs")])

prop("C32", "Plots draw exactly the finite data that was given, to scale",
     "A saved plot is a complete SVG file (or image, with the bitmap back end) holding, for every series with a finite point and in the given order, one line through all its finite points or one mark per finite point, each within a pixel of where the axes (the finite data range, widened by 3 per cent on every side for series plots, the interval and the range of errors for error plots) put it, with the title, axis labels and one legend entry per labelled series in that series' own style and colour (distinct for up to 20 series); the live follower draws the rows it holds, and an error plot samples the interval at its evenly spaced grid points. Points that are not finite are left out. Every call ends, for any magnitudes, poles and undefined values: data without a finite point, an axis that would overflow and an unwritable file are errors, an empty list of series and unequal lengths are refused by a panic, and without a path nothing is written.",
     ["inputs", "configurations"], "all series, styles, labels, intervals and functions, NaN, infinities and magnitudes up to overflow included",
     "No test looks into a drawn file, and the existing ones draw a few tame points.",
     [C + "aether_viz/src/lib.rs", C + "aether_viz/src/realtime.rs"],
     [("axis ranges and finite-point filter", C + "aether_viz/src/lib.rs"), ("drawing of the follower", C + "aether_viz/src/realtime.rs")])

prop("C33", "The Earth model's rotation, apparent forces and torque obey mechanics",
     "At every time and for every spin rate, the Earth model's inertial (ICRF) to Earth-fixed (ITRF) transform turns the axes about z by rate times time, its reverse is the exact inverse, turns compose, and lengths and z components are kept. The Coriolis and centrifugal forces are -2 m w x v and -m w x (w x r) for every angular velocity, position, velocity and mass (the first does no work, the second points away from the axis), so that together they are exactly the acceleration of a free body seen from the turning axes. The gravity-gradient torque is 3 mu/|r|^5 r x (I r) for every inertia and position, and the model's mass, radius, mu and spin are the published ones.",
     ["inputs"], "all spin rates and angular velocities, times within a century, positions to 1e12 m, velocities to light speed, masses and inertias of any size",
     "No test calls any of these functions.",
     [C + "aether_models/src/terrestrial/earth.rs", C + "aether_models/src/terrestrial/wgs84/transforms/mod.rs", C + "aether_models/src/terrestrial/iers/constants.rs"],
     [("apparent forces and torque", C + "aether_models/src/terrestrial/earth.rs"), ("inertial to Earth-fixed rotation", C + "aether_models/src/terrestrial/wgs84/transforms/mod.rs")])

prop("C34", "The live viewer draws exactly its files' complete finite rows",
     "Whatever is appended to, replaced, deleted or created while it runs, each frame of the live CSV viewer (csv_tail_egui) shows, for every loaded file and every column in use, exactly one line named run::column through exactly the file's complete finite rows, with matching totals; every file matching the pattern is loaded at the start or within about a second of appearing, a pattern with no match or a missing column is refused at the start, and a file that cannot be used does not disturb the others. The columns given on the command line (without them the first X component and the first column) are in use and ticked, and each tick in either list changes exactly which columns are in use, whatever was in use before. When X components and Y/scalar columns are both ticked and their common units differ, the lines of the ticked Y columns, and only those, are mapped affinely from the range of their group onto the range of the X group, and the text states these ranges.",
     ["inputs", "histories"], "up to three (later more) files, ten kinds of columns, rows with missing, unreadable and non-finite fields, up to 14 steps of file events and ticks, poll rates from 5 Hz to unlimited",
     "No test runs the viewer; its frames depend on the history of files and ticks.",
     [C + "aether_viz/src/bin/csv_tail_egui.rs", C + "aether_viz/src/realtime.rs"],
     [("frames, ticks and scaling", C + "aether_viz/src/bin/csv_tail_egui.rs"), ("files followed", C + "aether_viz/src/realtime.rs")])

if __name__ == "__main__":
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        assert p["statement"].count(". ") <= 2, p["id"]
