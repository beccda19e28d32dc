"""What each check compiles and how its evidence describes it."""

U = lambda src, variant, **kw: dict(src=[src], variant=variant, **kw)

PROPS = {}

PROPS["C01"] = dict(units=[U("c01_signal.cpp", "plain"), U("c01_signal.cpp", "asan")],
    method="depth-first enumeration of all container operation histories on the real BasicSignal, each step compared with a std::vector model",
    bounds={"quick": "33 operations, all histories of length <= 3 from empty (3 element types, 3 domains); all pairs from every size 0..40 and from sizes up to 4097, single operations at 70001; all ranges of sizes 0..18, border ranges of sizes to 65539",
            "thorough": "as quick with histories of length <= 4"})
PROPS["C02"] = dict(units=[U("c02_views.cpp", "plain"), U("c02_views.cpp", "asan")],
    method="enumeration of all chains of view operations on the real views, comparing addresses, values and writes with index arithmetic",
    bounds={"quick": "all view operations with all arguments, chains of length <= 2 on sizes 0..6 (3 on sizes 0..3), length 1 on sizes 7..24, length 2 at the borders of sizes to 70003; all constructions over all sub-ranges of sizes 0..20",
            "thorough": "chains of length 3 on sizes 0..6 (4 on sizes 0..4), length 2 on sizes 7..24"})
PROPS["C03"] = dict(units=[U("c03_elementwise.cpp", "plain"), U("c03_elementwise.cpp", "avx2"), U("c03_elementwise.cpp", "asan"),
           U("c03_elementwise.cpp", "plain", flags=["-DNDEBUG"], suffix="-ndebug", shards=2)],
    method="enumeration of all lengths, operand kinds, element types, alignments and aliasing patterns; every output element and its guard zones compared with long-double scalar arithmetic",
    bounds={"quick": "lengths 0..70, block-size neighbours up to 1000 and 1024, 4097, 65537; 9 operand type pairs, 8 signal/scalar pairs, native integer pairs, 4 operations, scalars taken from the signal itself; 28 functions over 10..40 point domains (near, far and border values, the complex plane around every branch cut) rotated through every lane, lengths 0..40; all size triples 0..9 for refusals",
            "thorough": "lengths 0..300 for arithmetic, 0..70 with every rotation for functions"})
PROPS["C04"] = dict(units=[U("c04_statistics.cpp", "plain"), U("c04_statistics.cpp", "avx2"), U("c04_statistics.cpp", "asan")],
    method="enumeration of all lengths, alignments, sign patterns and extreme positions; every statistic compared with its defining long-double sum",
    bounds={"quick": "lengths 0..140, block-size neighbours up to 1025, 4097 and 65537, data near and far from zero (moments 1..100 and up to 1000), moments k 2..9, extremes at every position of lengths 1..40",
            "thorough": "lengths 0..600, moments 1..400, extremes 1..80"})
PROPS["C05"] = dict(units=[U("c05_convolution.cpp", "plain"), U("c05_convolution.cpp", "avx2"), U("c05_convolution.cpp", "asan")],
    method="enumeration of operand lengths x output windows x element types x accumulate modes; exact comparison (small integers) with the defining double sum, guard zones around every output",
    bounds={"quick": "all windows of all operand pairs up to 14x14 (11x11 for other types); every offset with 8 lengths for 18x18 operand sizes around the 32 and 64 sample switch points; operands up to 700, and border windows of 70001 x 5, 4097 x 36, 65 x 20000",
            "thorough": "all windows up to 24x24; every offset for all pairs up to 72x72"})
PROPS["C06"] = dict(units=[U("c05_convolution.cpp", "plain", flags=["-DOLA"], suffix="-ola"), U("c05_convolution.cpp", "asan", flags=["-DOLA"], suffix="-ola"), U("c05_convolution.cpp", "avx2", flags=["-DOLA"], suffix="-ola")],
    method="enumeration of operand lengths x output windows x chunk sizes (admissible and automatic) x element types; comparison with the defining double sum",
    bounds={"quick": "all windows of all pairs up to 11x9 with 9 chunk sizes each; border windows of sizes up to 100 (2000 for double) with 4 chunk sizes, of 20000 x 257 and 20001 x 8193 with chunks to 65536",
            "thorough": "all windows up to 16x14, every offset for sizes up to 100"})
PROPS["C07"] = dict(units=[U("c07_fir_stream.cpp", "opt"), U("c07_fir_stream.cpp", "asan")],
    method="enumeration of every partition of a signal into successive blocks (every streaming history) x filter lengths x engines on the real stateful Filter; output and carried state compared with the defining sum",
    bounds={"quick": "all compositions of streams of 6 samples (5 for double and mixed, 4 for complex) x engine of every block, filters of 1..6 taps; all triples of 11 block lengths around the length of filters of 9..65 taps x engines; blocks to 20011 samples with filters of 3..1025 taps",
            "thorough": "filters of 1..9 taps, streams of 7 samples"})
PROPS["C08"] = dict(units=[U("c08_iir_stream.cpp", "opt"), U("c08_iir_stream.cpp", "asan")],
    method="enumeration of every partition of a signal into successive blocks x realizations x systems; output compared with the difference equation in long double",
    bounds={"quick": "15 pole sets x 13 zero sets (orders to 6) x realizations x all histories of 3 of 10 events (feeds of 1..5 samples, reset, copying and restoring the state; 2 events for float and complex signals), state orders up to order+2; streams of 20000 samples in blocks of 1..20000, orders to 21",
            "thorough": "histories of 4 events (3 for float)"})
PROPS["C09"] = dict(units=[U("c09_systems.cpp", "opt"), U("c09_systems.cpp", "asan")],
    method="enumeration of all zero/pole/gain systems over a root alphabet and all conversion chains between representations; frequency responses compared with the defining rational function",
    bounds={"quick": "all multisets of up to 3 real roots and 2 conjugate pairs over the alphabet as zeros x the same as poles x gains",
            "thorough": "up to 4 real roots"})
PROPS["C10"] = dict(units=[U("c10_fft.cpp", "plain"), U("c10_fft.cpp", "avx2"), U("c10_fft.cpp", "asan")],
    method="enumeration of all lengths x transform kinds x call histories over the process-wide plan cache; comparison with the long double DFT sum",
    bounds={"quick": "every length 1..140 (double) and 1..70 (float), 20 prime, smooth and power-of-two lengths up to 2000, sums of impulses at 15 lengths from 3000 to 131072; every unit impulse position up to length 40; all call histories over a cache-overflowing length alphabet; shifts for every length up to 70, in place and out of place",
            "thorough": "every length up to 400 / 260, impulses up to 90, shifts up to 300"})
PROPS["C11"] = dict(units=[U("c11_resample.cpp", "opt"), U("c11_resample.cpp", "asan")],
    method="enumeration of rates x start points x filter lengths x input lengths x output lengths on the real Resample; every output sample compared with linear interpolation on the defining zero-stuffed convolution",
    bounds={"quick": "6 pairs of signal and filter types (float, double, complex); phases 1..6, 12 rational rates x 6 start points, filters 1..13, inputs 1..7; inputs to 300 with filters to 520 taps; runs of over 2^24 output samples",
            "thorough": "phases up to 9, inputs to 12, filters to 24"})
PROPS["C12"] = dict(units=[U("c11_resample.cpp", "opt", must_compile=True, flags=["-DINTERP"], suffix="-interp"), U("c11_resample.cpp", "asan", must_compile=True, flags=["-DINTERP"], suffix="-interp")],
    method="enumeration of interpolation factors x filter lengths x input lengths x output windows; Interpolate, Expand and Decimate compared with the defining index formula",
    bounds={"quick": "real, complex and mixed signal and filter types; all inputs 1..7, filters 1..16, factors 1..6 with every output window; unit-length inputs with filters up to 30; factors around 128, 256, 1000 and 65536 with outputs around every phase boundary",
            "thorough": "inputs 1..12, filters 1..26, factors 1..8"})
PROPS["C13"] = dict(units=[U("c11_resample.cpp", "opt", flags=["-DSTREAM"], suffix="-stream"), U("c11_resample.cpp", "asan", flags=["-DSTREAM"], suffix="-stream")],
    method="enumeration of every split point and block partition of resampling/interpolation histories continued from the returned suspension point; comparison with the one-shot run",
    bounds={"quick": "every split of every output window of inputs up to 5..12 samples, filters up to 9..12 taps, factors up to 4",
            "thorough": "inputs up to 7, filters up to 14, factors up to 6"})
PROPS["C14"] = dict(units=[U("c14_polyphase.cpp", "plain"), U("c14_polyphase.cpp", "asan")],
    method="enumeration of all filter lengths x phase counts, and depth-first search over copy/move/assign/mutate histories of polyphase views against a model",
    bounds={"quick": "filters 1..40 x phases 1..12 and to 70001 taps x 65537 phases, real and complex, decomposed in place and to outputs of other precision; all histories of 4 operations", "thorough": "filters 1..120 x phases 1..40; all histories of 4 operations"})
PROPS["C15"] = dict(units=[U("c15_rational.cpp", "plain"), U("c15_rational.cpp", "asan", flags=["-fsanitize=undefined", "-fno-sanitize-recover=all"], suffix="-ubsan")],
    method="enumeration of all operand pairs over a range of numerators and denominators x all operators, and all short operation histories; exact comparison with 128-bit integer fractions",
    bounds={"quick": "all pairs with numerator and denominator magnitudes up to 12 (int32 and int64), mixed types, all histories of 4 operations", "thorough": "magnitudes up to 24/18, histories of 5"})
PROPS["C16"] = dict(units=[U("c16_polynomials.cpp", "plain"), U("c16_polynomials.cpp", "asan")],
    method="depth-first search over resize/regroup/set/copy/move histories of Polynomial and FactoredPolynomial against a list-of-roots model; enumeration of all root multisets for expansion and evaluation",
    bounds={"quick": "all histories of 3 operations, all root counts up to 5 real x 5 pairs, all root multisets up to 4 real + 2 pairs", "thorough": "histories of 4, multisets up to 6 + 4"})
PROPS["C20"] = dict(units=[U("c20_windows.cpp", "opt"), U("c20_windows.cpp", "asan", shards=16)],
    method="enumeration of all windows x lengths x element types; comparison with the published formulas, and of Dolph-Chebyshev side lobes with the requested attenuation",
    bounds={"quick": "every length 2..70 plus 127..10001 (double), 2..48 and to 4097 (float), 2..30 (complex); parameter grids for gaussian, kaiser, lanczos, tukey-like and Dolph-Chebyshev windows; side lobes for every length up to 40",
            "thorough": "every length to 300, side lobes to 120"})
PROPS["C21"] = dict(units=[U("c21_waveforms.cpp", "plain"), U("c21_waveforms.cpp", "avx2"), U("c21_waveforms.cpp", "asan")],
    method="enumeration of waveforms x lengths x frequencies x phases (negative ones too) x split points of phase-continued generation; comparison with the closed-form waveform",
    bounds={"quick": "lengths to 5000, and 1000003 samples of each shape, 30-sample continuation histories split at every point", "thorough": "70-sample histories"})
PROPS["C22"] = dict(units=[U("c22_spaces.cpp", "plain"), U("c22_spaces.cpp", "avx2"), U("c22_spaces.cpp", "asan")],
    method="enumeration of all lengths x endpoint pairs x inclusivity x element types; comparison with the defining formula",
    bounds={"quick": "every length up to 70, block-size neighbours, 4097, 100003 and 2^24+1027", "thorough": "every length up to 400"})
PROPS["C25"] = dict(units=[U("c25_elliptic.cpp", "opt", must_compile=True), U("c25_elliptic.cpp", "asan", must_compile=True)],
    method="exhaustive grids over modulus, argument and complex plane rectangles; identities and long double AGM/quadrature references evaluated at every grid point",
    bounds={"quick": "120 x 120 real grids (40 float), 10x10 complex grids per modulus", "thorough": "600 / 200 / 30 grids"})
PROPS["C27"] = dict(units=[U("c27_interval.cpp", "plain"), U("c27_interval.cpp", "asan")],
    method="enumeration of all pairs and triples of intervals over a small endpoint range, and all operation histories; membership compared pointwise",
    bounds={"quick": "all endpoints -5..5, end points next to the extremes of 7 types, all histories of 5 operations", "thorough": "endpoints -8..8, histories of 7"})
PROPS["C28"] = dict(units=[U("c28_solvers.cpp", "plain", must_compile=True), U("c28_solvers.cpp", "asan", must_compile=True)],
    method="enumeration of bracket endpoints x root positions x functions x tolerances; every call's result and evaluation sequence checked against the bracketing invariants",
    bounds={"quick": "see the enumerated classes", "thorough": "doubled grids"})
PROPS["C17"] = dict(units=[U("c17_iir.cpp", "opt"), U("c17_iir.cpp", "asan")],
    method="enumeration of every design family x band type x order x edge x ripple grid on the real designer; magnitude at every grid frequency compared with the closed-form (Butterworth, Chebyshev, elliptic rational) response computed in long double without library code",
    bounds={"quick": "4 families x 4 band types, orders 1..10 (double) and 1..6 (float), 5 edge sets, ripples {0.01, 0.1, 0.3} in every combination, 41 frequencies each; high orders (elliptic to 17 low/high pass and 34 band in double, 12 and 24 in float)",
            "thorough": "orders to 16 / 8, 121 frequencies"})
PROPS["C18"] = dict(units=[U("c18_fir.cpp", "opt", must_compile=True), U("c18_fir.cpp", "asan", must_compile=True)],
    method="enumeration of every design method x response type x filter length x edges x windows x grids on the real designer; windowed taps compared with the defining formula, least squares taps with the optimality conditions of their stated cost",
    bounds={"quick": "windowed: every odd length 3..45 and 63..257, 4 windows (one asymmetric), 5 cutoffs and 5 bands; least squares: every length 1..36 and 63..100, 6 split and 4 band layouts, 5..6 grids; response helpers for every length 1..70 in and out of place",
            "thorough": "lengths to 151 (windowed), 80 (least squares), 200 (helpers)"})
PROPS["C19"] = dict(units=[U("c18_fir.cpp", "opt", must_compile=True, flags=["-DHILBERT"], suffix="-hilbert"), U("c18_fir.cpp", "asan", must_compile=True, flags=["-DHILBERT"], suffix="-hilbert")],
    method="enumeration of every Hilbert filter length x window or least squares parameters; taps compared with the halfband filter's quadrature taps",
    bounds={"quick": "every length 2..80 and 127..1001 (designs), 1..300 (halfband conversions, exact)",
            "thorough": "every length to 300 (designs), 1500 (conversions)"})
PROPS["C29"] = dict(units=[U("c17_iir.cpp", "opt", flags=["-DTRANS"], suffix="-trans"), U("c17_iir.cpp", "asan", flags=["-DTRANS"], suffix="-trans")],
    method="enumeration of all systems over a root alphabet x transforms x parameters; transformed response compared at points of the complex plane with the original at the substituted point",
    bounds={"quick": "all multisets of up to 2 real roots and 1 pair as zeros x the same as poles; 5 sampling/prewarp settings, 5 split edges, 5 bands; 9 evaluation points",
            "thorough": "up to 3 real roots and 2 pairs"})
PROPS["C23"] = dict(units=[U("c23_descs.cpp", "plain"), U("c23_descs.cpp", "asan")],
    method="depth-first enumeration of all builder call histories of the filter descriptors, and of all parameter combinations around every admissibility border; acceptance compared with the documented admissible set",
    bounds={"quick": "every order and repetition of builder calls up to the depth in the case keys; every parameter at, just inside and just outside each border",
            "thorough": "as quick"})
PROPS["C24"] = dict(units=[U("c24_measure.cpp", "opt"), U("c24_measure.cpp", "asan")],
    method="enumeration of synthetic and designed responses x bands x ripples x grid sizes; frequency responses compared with the defining sum, classification and measured parameters with the known band layout",
    bounds={"quick": "all band layouts of the response alphabet in the case keys, designed filters of both families", "thorough": "finer edge grids"})

PROPS["C30"] = dict(units=[U("c30_kernels.cpp", v, must_compile=True) for v in ("plain", "avx2", "asan")],
    method="enumeration of kernels x operators x element and accumulator types x lengths x alignments x initial values x output windows on the real kernels; exact comparison (small integers) with the sequential definition, guard zones around every output; error of compensated sums against an exact reference",
    bounds={"quick": "lengths 0..75 and block-size neighbours up to 1025 at 4 alignments; 24 reductions (also with operators for which zero is not neutral), 8 transformed reductions, 10 inner products with up to 3 initial values each, 19 transforms; compensated sums up to 1000003 terms; every output window of all operand pairs up to 11x11 (and larger ones to 600) for 5 convolution kernels, accumulating and not",
            "thorough": "lengths 0..150, windows of pairs up to 18x18"})
PROPS["C31"] = dict(units=[U("c31_forms.cpp", v, flags=["-DPART=%d" % p], suffix="-%d" % p, must_compile=True) for v in ("o0", "o0asan") for p in (1, 2, 3)],
    method="enumeration of every function x every combination of operand forms (signal, constant signal, view, constant view, at every buffer offset class) x output forms (signal, view, temporary view, part of a buffer) x element types x lengths on the real code; results compared with those on plain signals (and of calls with an optional argument left out with those given its default), operands and guard zones compared with their originals",
    bounds={"quick": "12 lengths 1..130, 144 length pairs for two operand functions; recursive filters of all methods and bands designed in place up to order 8; every optional argument left out",
            "thorough": "20 lengths 1..300 and all their pairs; in-place designs up to order 16"})

PROPS["C32"] = dict(units=[U("c32_types.cpp", "o0", flags=["-DPART=%d" % p], suffix="-%d" % p, must_compile=True) for p in (1, 2, 3, 4, 5)],
    method="enumeration of operations x operand domains x operand forms x element type pairs: whether the compiler accepts the call is compared with whether domains and constness allow it, the type of the result with the operands' domain and the scalar operation's type; values on all domains and lengths compared with those in time domain on the real code",
    bounds={"quick": "all 16 pairs of domains x 25 pairs of operand forms x 6 element type pairs x up to 46 operations; result types of 20 operations x 9 type pairs and 25 one operand functions x 4 types in all forms and domains; values at 54 length pairs x 4 domains x 4 types",
            "thorough": "the same (the space of types is exhausted)"})

_ALLOC = ["-Wl,--wrap=" + f for f in ("malloc", "calloc", "realloc", "aligned_alloc", "posix_memalign", "free")]
PROPS["C33"] = dict(units=[U("c33_faults.cpp", v, flags=["-DPART=%d" % p] + _ALLOC, suffix="-%d" % p) for v, ps in (("opt", (1, 2, 3)), ("asan", (2, 3))) for p in ps],
    method="exhaustive fault injection: every allocation point (operator new, and malloc and its relatives as called from the headers) of every call, with a cold and with a warm store of FFT plans, is made to fail, alone and together with all later ones; every invocation of a user's function is made to throw; depth-first search over operation histories with a fault at every point; results, operands, states and the number of live blocks compared with the fault-free run or a model",
    bounds={"quick": "about 90 library calls x 8 lengths to 211 x 3 element types, 28 FIR designs x 4 lengths, 5 designs of each of 4 recursive families x orders 1..6; all histories of 3 operations out of 18 on signals with a fault at any point of each; all resizes and copies of polynomials to 6 real roots and 4 pairs; all order changes of 3 realizations; all histories of 3 transforms out of 8 with the plan store, each failing at one of 5 points or none",
            "thorough": "21 lengths to 1009, 9 FIR lengths, orders to 12, histories of 4"})

_WRAP = ["pthread_mutex_lock", "pthread_mutex_trylock", "pthread_mutex_unlock", "pthread_rwlock_rdlock", "pthread_rwlock_wrlock",
         "pthread_rwlock_tryrdlock", "pthread_rwlock_trywrlock", "pthread_rwlock_unlock", "pthread_spin_lock", "pthread_spin_unlock",
         "sched_yield", "pthread_once", "malloc", "calloc", "realloc", "free", "memcpy", "memmove", "memset"]
PROPS["C26"] = dict(units=[dict(src=[], variant="threads",
        parts=[("c26_sched.cpp", ["-O1"]), ("c26_threads.cpp", ["-O1", "-fsanitize=thread"])], flags=["-Wl,--wrap=" + f for f in _WRAP])],
    method="stateless exploration of the real code under a controlled scheduler: every synchronization operation (mutex, atomic, static initialization) is a scheduling point, all schedules up to a preemption bound are executed, each in a fresh process; results compared with sequential runs, every memory access checked for happens-before races and use after free",
    bounds={"quick": "all unordered pairs of 49 library calls at preemption bound 2; all pairs of 8 transform kinds x 4 length pairs at bound 3; cache contents (empty, one free entry, full, wanted plan oldest/newest/evicted) at bound 3; two calls per thread at bound 2; three threads at bound 1..2",
            "thorough": "one to two preemptions more"},
    assumptions=["interleavings of plain memory accesses are covered by the race check: code free of happens-before races in every explored order of synchronization operations behaves as in one of those orders", "code inside libstdc++.so, libm and libc is not instrumented"])

# Call histories (C34), and the same explorations for the properties about the functions called.
_AREAS = {"FFT": ["C10"], "WINDOWS": ["C20"], "FIR": ["C18", "C19"], "IIR": ["C17"], "TRANSFORMS": ["C29"], "ELLIPTIC": ["C25"],
          "CONV": ["C05", "C06", "C07"], "RESAMPLE": ["C11", "C12", "C13", "C14"], "STATS": ["C04"], "ARITHMETIC": ["C03"], "WAVES": ["C21"],
          "SPACES": ["C22"], "SYSTEMS": ["C08", "C09", "C16"], "SOLVERS": ["C28"], "MEASURE": ["C24"]}
_history = lambda area: U("c34_history.cpp", "plain", flags=["-DHIST_" + area], suffix="-" + area.lower())
PROPS["C34"] = dict(units=[_history(x) for x in list(_AREAS) + ["ALL"]],
    method="exhaustive exploration of call histories, each in a fresh process: any earlier calls, then a call whose values are compared with those of the same call in a process without earlier calls",
    bounds={"quick": "all pairs of calls of one family (700 calls each in double and float: parameters next to each other, sizes equal in their low bits, buffers whose contents changed in place, functions of one type holding other values), all pairs of about 330 different functions",
            "thorough": "as quick, and all histories of three calls of every third call of a family"})
for _area, _ids in _AREAS.items():
    for _id in _ids:
        PROPS[_id]["units"].append(_history(_area))
        PROPS[_id]["method"] += "; all pairs of calls with similar arguments, compared with calls in fresh processes"
