"""What each check runs. Stages are build configurations of the same monitor binary."""
NOT_APPLICABLE = {}
HOOKS = dict(guard="--cfg aether_monitor", enable="RUSTFLAGS='--cfg aether_monitor' (re-exports the private performance sinks; every other monitor uses public entry points)", source_commits=["7424706"])
NATIVE_NOTE = "Observes concrete executions of the real code only: generated inputs, not all inputs. The oracle is computed independently of the code under test. "
# cheap monitors run more cases than their source says in the quick tier
QUICK = dict(C04=3, C05=4, C06=4, C07=4, C08=4, C09=4, C10=4, C11=3, C12=4, C15=3, C16=4, C17=4, C18=2, C20=3, C21=4, C24=4, C25=4, C27=3, C28=3, C31=4, C32=2, C33=4)


def one(bin, features, technique, note, rule, **kw):
    """A property decided by one native monitor binary."""
    st = dict(name="native", features=features)
    if bin[:3].upper() in QUICK:
        st.update(scale=QUICK[bin[:3].upper()], scale_thorough=1.0)
    st.update(kw.pop("stage", {}))
    return dict(bin=bin, stages=[st] + kw.pop("more", []), technique="runtime monitoring: " + technique.removeprefix("runtime monitor: "), note=NATIVE_NOTE + note, rule=rule, **kw)
PROPS = {
    "C01": dict(bin="c01_linalg", stages=[dict(name="native", features="core")],
        technique="runtime monitoring: differential oracle (binary128 recomputation, error bound) on every operator spelling under generated operands",
        note="Observes concrete executions only; oracle is an independent binary128 recomputation with an a-priori rounding bound. Shapes are the listed monomorphisations, not all shapes.",
        rule="A case is one shape, scalar type and operand set (integers, normals, wide exponents, sparse, huge, tiny, cancelling, NaN-seeded); distinct by the bits of its operands; trivial if it carries no non-zero operand."),
    "C02": dict(bin="c02_simd", parallel=4,
        technique="runtime monitoring: binary128 differential oracle across build configurations, AddressSanitizer (quick) and Miri (thorough) on the SIMD kernels",
        note="Observes concrete executions in each feature/target-feature build the CPU can run; out-of-bounds accesses are seen by ASan red zones around boxed operands and by Miri's interpreter. The AArch64 NEON kernels are interpreted by Miri with three horizontal-add intrinsics written out in a private copy of the standard library (thorough), the 32-bit ARM ones on an armv7 target.",
        rule="A case is one shape, scalar type and operand set for one kernel family; distinct by operand bits; the same case run in another build configuration is not counted again.",
        stages=[
        dict(name="std-simd", features="core,simd"),
        dict(name="asan-simd", kind="asan", features="core,simd", scale=0.3),
        dict(name="std-simd-nofma", features="core,simdnofma", scale=0.3),
        dict(name="scalar", features="core", scale=0.3),
        dict(name="nostd-avx-fma", features="corens,simd", rustflags="-Ctarget-feature=+avx,+fma", cpu=["avx", "fma"], scale=0.3),
        dict(name="nostd-avx", features="corens,simd", rustflags="-Ctarget-feature=+avx", cpu=["avx"], scale=0.3),
        dict(name="nostd-fma", features="corens,simdnofma", rustflags="-Ctarget-feature=+fma,+avx", cpu=["avx", "fma"], scale=0.3),
        dict(name="nostd-sse", features="corens,simd", scale=0.3),
        dict(name="miri", kind="miri", features="core,simd", miriflags="", scale=0.0004, thorough_only=True),
        dict(name="neon", kind="miri", features="core,simd", target="aarch64-unknown-linux-gnu", scale=0.0004, thorough_only=True),
        dict(name="arm32", kind="miri", features="core,simd", target="armv7-unknown-linux-gnueabihf", scale=0.0004, thorough_only=True),
    ]),
    "C03": one("c03_solvers", "core", "residual oracles in binary128 on every factorisation, inverse and solve, refusal oracle on singular inputs",
        "Tolerances scale with the matrix's own condition number, so a wrong result on a nearly singular matrix can hide in its bound.",
        "A case is one order, scalar type and matrix (graded, permuted, scaled, structured, singular, indefinite); distinct by the bits of its entries."),
    "C04": one("c04_attitude", "core", "binary128 rotation oracle after every step of random chains of conversions and compositions",
        "", "A case is one orientation (or pair) and one chain of conversions or compositions; distinct by the bits of the orientation; states are orientation-class x chain combinations."),
    "C05": one("c05_propagate", "core", "binary128 closed-form attitude solution compared at the end of the propagated history, order-of-convergence and unit-norm monitors on the way",
        "", "A case is one initial attitude, rate history and step size; distinct by the bits of these."),
    "C06": one("c06_frames", "core", "textbook frame matrices in binary128 compared with every transform, rigidity and inverse-pair monitors",
        "body_to_ned's direction is a recorded finding.", "A case is one scalar type and one set of angles, time and rate; distinct by their bits; states are quantised angle pairs."),
    "C07": one("c07_coords", "core", "binary128 position oracle after every step of random conversion paths, component-wise differential oracle on coordinate arithmetic",
        "", "A case is one point (octant, axis, near-pole, near-cut, origin) and conversion path, or one operand set; distinct by bits; states are region x path."),
    "C08": one("c08_geodetic", "models", "binary128 closed-form ellipsoid oracle: every inverse result is reconverted and compared, both inverses cross-checked, constants re-derived",
        "Longitude is only compared away from the poles; heights from -10 km to 1e9 m.",
        "A case is one (latitude, longitude, height) or Earth-fixed position, incl. poles, equator, antimeridian, axes; distinct by its bits; states are latitude x longitude x height-decade cells."),
    "C09": one("c09_gravity", "models", "binary128 oracle: finite-difference gradient of the closed-form normal potential compared with every returned vector and component",
        "The reference gradient is a central difference in binary128 (error far below the tolerance).",
        "A case is one position (latitude, longitude, height, poles, equator, axes); distinct by its bits; states are latitude x longitude x height cells."),
    "C10": one("c10_atmos", "models", "binary128 hydrostatic integration of the published layer tables as oracle, boundary-continuity and monotonicity monitors, refusal probes",
        "US-standard pressure above 120 km is a recorded finding and only bounded, not compared tightly.",
        "A case is one altitude (dense at layer boundaries, beyond both ends, NaN); distinct by its bits; states are layer x 1/64-layer cells."),
    "C11": one("c11_wmm", "catalogs", "binary128 oracle: finite-difference gradient of the explicitly summed potential of the published coefficient file compared with every returned element",
        "Published test rows are compared as a second oracle.", "A case is one position, year and truncation degree (poles, equator, antimeridian, wraps); distinct by bits; states are latitude x longitude x height-decade cells."),
    "C12": one("c12_numerics", "core", "binary128 oracle of each integrator step (Taylor polynomial of the linear flow, tableau for nonlinear fields, accumulated histories) and replay of Newton's recorded evaluation log",
        "", "A case is one state, field and step, one history, or one function, guess, tolerance and iteration limit; distinct by bits."),
    "C13": dict(bin="c13_coding", parallel=3, technique="runtime monitoring: drop-balance monitor on counted memory-owning elements with failures injected at every position, round-trip and layout oracles, hostile-input driver; AddressSanitizer (quick) and Miri (thorough) as undefined-behaviour oracles",
        note=NATIVE_NOTE + "Elements that panic inside bincode's decode are not injected (leaking there is allowed). JSON covers finite values only.",
        rule="A case is one shape or type and one set of element bits, failure position or mutation; distinct by bits; states are failure kind x shape.",
        stages=[dict(name="native", features="coding"), dict(name="asan", kind="asan", features="coding", scale=0.3),
                dict(name="miri", kind="miri", features="coding", miriflags="", scale=0.00015, thorough_only=True)]),
    "C14": dict(bin="c14_time", stages=[dict(name="native", features="time"), dict(name="tsan", features="time", kind="tsan", family="leap-change-race", scale=0.34)],
        technique="runtime monitoring: i128-nanosecond oracle on every operation; leap-count races under load and ThreadSanitizer",
        note="all constructors, arithmetic, order, eight conversions and their cycles, GPS week split; readers race a writer of the leap count",
        rule="cases = operation groups; events name carries, borrows, negative values, rollovers and how many racing reads saw either count"),
    "C15": one("c15_civil", "time", "runtime monitor: the calendar walked day by day as oracle",
        "walks out of 1970 both ways for two cycles, whole 400-year cycles from year -2,000,000 to 2,000,000, random instants", "cases = walks, cycles and instants; dates checked are counted as events"),
    "C16": one("c16_schedule", "time", "runtime monitor: integer-nanosecond reference model replayed against polling histories; hang watchdog",
        "schedules of every kind, alarms, timers, timekeeper; stalls, repeats, clock steps back", "cases = polling histories; state = (kind, fired, phase)"),
    "C17": one("c17_rand", "rand", "runtime monitor: every output compared with an independent generator, seeds chosen by inverting it to hit extreme draws; GF(2) order of the observed state map; statistical monitors",
        "zero seed, single-bit seeds, seeds whose first draw is 0, 2^-53 or within 2^-26 of one", "cases = seeds; outputs compared are counted as events"),
    "C18": one("c18_gd", "opt", "runtime monitor: every objective and gradient evaluation recorded; offline checker of the update law, line-search law, feasibility, stopping rules and KKT residual",
        "nine objective families, hostile settings, f32 and f64, 1-6 dimensions", "cases = optimisation runs; state = (objective, options, outcome)"),
    "C19": dict(bin="c19_sgd", stages=[dict(name="native", features="opt"), dict(name="tsan", features="opt", kind="tsan", family="parallel", scale=0.25)],
        technique="runtime monitoring: recorded samples replayed against the update and stopping rules; jittered thread schedules with bitwise comparison; ThreadSanitizer (instrumented std)",
        note="samplers are delayed by yields, sleeps and spins; a panicking sampler is injected at every position",
        rule="cases = configurations, each run twice; state = distinct order in which worker threads sampled"),
    "C20": one("c20_stats", "stats", "runtime monitor: sums, densities and fits compared with binary128 evaluations of their definitions",
        "tolerances follow from the summation error of the data drawn; f32 and f64", "cases = data sets or parameter sets, hashed from their values"),
    "C21": one("c21_interp", "interp", "runtime monitor: interpolants compared with binary128 Lagrange and natural-spline evaluations",
        "node spacing from 1e-17 to 1e9; evaluation points at, next to, between and outside the nodes", "cases = node sets, hashed from their values"),
    "C22": one("c22_ml", "ml", "runtime monitor: steps, fits and predictions compared with binary128 evaluations of each model's criterion; exact replay of the perceptron",
        "cases where a hinge or a comparison is within rounding of its switching point are not judged; singular covariances are not judged", "cases = data sets with a model, hashed from their values"),
    "C23": one("c23_mass", "shapes", "runtime monitor: volumes, moments and composites compared with binary128 mass properties",
        "nearly complete cancellations (mass or volume left below 1e-3/sqrt(u)) are not judged", "cases = pairs of placed solids, or tanks, hashed from their values"),
    "C24": one("c24_units", "units", "runtime monitor: conversions compared with exact powers of ten, arithmetic compared bitwise",
        "every prefix of every family in f32 and f64", "cases = (unit pair, value), hashed"),
    "C25": one("c25_asserts", "testing", "runtime monitor: verdicts of the helpers compared with the definition evaluated in binary128, one difference planted at a time",
        "differences within rounding of the tolerance and equal infinities are not judged", "cases = operand pairs or pairs of functions, hashed from their values"),
    "C26": one("c26_realtime", "viz", "runtime monitor: random file histories (split writes, truncation, rename, symlink swap, delete) with a full re-read as oracle after every poll; a live writer thread raced against the poller; the endless loop watched until every row is drawn",
        "a file truncated and regrown past the read position between two polls is not observable through metadata and is not generated; replaced inodes are kept alive, or given to a file with another creation time, so their numbers are not reused", "cases = histories, hashed from the rows shown; polls, restarts and rows are counted as events"),
    "C28": one("c28_camera", "graphics", "runtime monitor: matrices applied to the points they must map, in binary128; camera histories replayed step by step against active rotations",
        "views whose up direction is within 1e-5 of the sight line are not judged; within 2e-8 of the poles only unit length, orthogonality and handedness are", "cases = views, projections and camera histories, hashed; camera states are counted as events"),
    "C27": one("c27_stars", "catalogs", "runtime monitor: sampled states compared with binary128 great-circle motion; generated catalogue files read back; single-byte corruption sweeps; colour fits re-evaluated",
        "positions to 1e-14, distances to 5e-9 (the code's AU per parsec constant); colours within 1 K of the 6600 K seam of the published fit are only range- and order-checked", "cases = records, files and colour indices, hashed"),
    "C29": dict(bin="c29_perflog", stages=[dict(name="native", features="bench", rustflags="--cfg aether_monitor"), dict(name="tsan-timing", features="bench", rustflags="--cfg aether_monitor", kind="tsan", family="timing", scale=0.2), dict(name="tsan-spans", features="bench", rustflags="--cfg aether_monitor", kind="tsan", family="spans", scale=0.1), dict(name="tsan-power", features="bench", rustflags="--cfg aether_monitor", kind="tsan", family="power", scale=0.2)],
        technique="runtime monitoring: jittered multi-thread logging with a concurrent reader, offline checker of the finished log (conservation, order, values, elapsed times) and ThreadSanitizer (instrumented std)",
        note=NATIVE_NOTE + "A hook re-exports the private sinks; elapsed times are judged with 10 per cent and 6 ms of slack for the clock behind them.",
        rule="cases = logs written by 1-16 threads or counter files; state = distinct interleavings of the threads' lines"),
    "C30": dict(bin="c30_scalar", stages=[dict(name="std", features="acore,core"), dict(name="nostd", features="acore,corens"), dict(name="wide", features="acore,core,wide")],
        technique="runtime monitoring: every scalar operation on both back ends compared with binary128 functions, distance counted in units in the last place",
        note=NATIVE_NOTE + "The binary128 functions are checked at known points first. Integer powers may lose two ulps per multiplication; negative ones whose positive power leaves the range are not judged. For the quadruple type, which has no wider oracle, functions are compared with the type's own and, after rounding, with the double functions. Signalling NaNs are not generated.",
        rule="cases = pairs of arguments per scalar type, hashed from their bits; kinds of result (ordinary, overflow, subnormal, zero, NaN) are counted as events"),
    "C31": one("c31_lunar", "models", "runtime monitor: frames, gravity, torque and periods compared with closed formulas in binary128; constants compared with each other and with their published values",
        "angles judged to eight rounding errors of the angle turned; times within three centuries", "cases = (time, epoch, orientation), positions or orbits, hashed from their values; constants are one case"),
    "C32": one("c32_plots", "viz", "runtime monitor: every SVG the plot helpers write (series, error grids, live follower) is parsed back and each vertex and mark compared with the affine image of the data given; hostile magnitudes, poles and NaNs under a CPU-time watchdog",
        "pixel positions to 1.6 px plus the rounding of the axis; spans of fewer than about 100 representable values, where the axis has no extent, are only required to stay on the chart; with the bitmap back end marks, stretches of line and legend marks are looked for by colour where they belong (at most eight series, line pixels to 2 px, up to 2 per cent of a line's pixels may be left out), and colour anywhere else is a violation; legend and axis text is compared with the text given, its placement is not", "cases = plots, hashed from their data; points, marks, line pixels and legend entries compared are counted as events", more=[dict(name="image", features="vizbmp")]),
    "C33": one("c33_earth", "models", "runtime monitor: rotation, apparent forces and torque compared with binary128 mechanics, and the motion of free bodies watched from the turning axes compared with the sum of the forces",
        "angles judged to the rounding of the angle turned; axes through the planet's z for rotation, any axis for forces", "cases = (rate, time) or (axis, position, velocity, mass, inertia), hashed from their values"),
    "C34": one("c34_viewer", "time", "runtime monitor: the viewer program itself is run with a stand-in for its window, driven by clicks while its files are appended to, replaced, deleted and created; every frame's lines, texts and labels are compared with an independent re-read of the files",
        "the window and plot widgets are stand-ins: what is checked is what the program hands them and which texts egui lays out, not pixels; ticking is exercised with at most four columns (more scroll out of the list); mapped points to 4e-15 of the target range", "cases = sessions of clicks and file events, hashed from the lines shown in their frames", stage=dict(viewer=True, threads=32))
}
