#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below and properties_config.py."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
from properties_config import PROPS
I = "include/dspbb/"
P = []


def prop(id, title, statement, over, text, why, files, mech, state=None):
    a = {"files": [I + f for f in files], "mechanism": [{"name": n, "where": I + w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": I + w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})


prop("C01", "A signal is a sequence container under every operation history",
     "After any sequence of construction, assignment, copy, move, resize, reserve, insert, append, prepend, push, erase, extract and clear operations, a signal has exactly the size and samples that a standard sequence given the same operations would have. Operands other than the target are unchanged (moved-from ones stay usable), and iterators, element access, data and size agree with each other. Extracting from the front or back removes those samples from the signal and returns them in order.",
     ["histories", "inputs"], "All operation sequences up to a depth, over element types, domains, sizes and insertion/erasure ranges.",
     "Tests call each operation once on one literal signal; interactions between operations (resize after move, insert in the middle after erase, ranges touching the ends) are unbounded histories.",
     ["Primitives/Signal.hpp", "Primitives/SignalTraits.hpp"], [("BasicSignal", "Primitives/Signal.hpp"), ("insert/erase/extract_front/extract_back/append/prepend", "Primitives/Signal.hpp")])
prop("C02", "Views alias exactly the samples of the signal they were taken from",
     "A view made from a signal, a view, an iterator pair or pointers denotes exactly the samples it was asked for: reads see writes through any other handle to the same samples, no other sample is touched, and taking a view copies nothing. Chains of first, last and subsignal views compose by index arithmetic for every offset and count inside the viewed range, empty and full ones included.",
     ["histories", "inputs"], "All chains of view and subview operations up to a depth with every offset and length.",
     "Tests sample a few offsets of one signal; offset composition must hold for every chain and every range, including empty and full ones.",
     ["Primitives/SignalView.hpp", "Primitives/Signal.hpp"], [("BasicSignalView::first/last/subsignal", "Primitives/SignalView.hpp"), ("AsView/AsConstView/IsSignalLike", "Primitives/SignalView.hpp")])
prop("C03", "Elementwise arithmetic and functions act on each sample independently",
     "Every arithmetic operator and every elementwise mathematical function writes to output sample i exactly the scalar operation applied to input sample i (up to rounding), for every length, alignment, element type, signal/scalar combination and in-place use. Samples outside the output range are never written, and the operators refuse operands of different length before anything is written.",
     ["inputs", "configurations"], "All lengths around the SIMD and unrolling widths, alignments, aliasing patterns, lane positions and element type pairs; scalar, SSE and AVX2 builds.",
     "Tests use one or two lengths at one alignment; tails of vectorized loops, lane-dependent special functions and in-place aliasing depend on lengths and value positions no test uses.",
     ["Primitives/SignalArithmetic.hpp", "Math/Functions.hpp", "Kernels/Numeric.hpp", "Kernels/Math.hpp", "Kernels/Functors.hpp"], [("kernels::Transform", "Kernels/Numeric.hpp"), ("math_functions", "Kernels/Math.hpp"), ("operators", "Primitives/SignalArithmetic.hpp")])
prop("C04", "Statistics equal their defining sums",
     "Sum, SumSquare, Mean, RootMeanSquare, Norm, Min, Max, central and standardized moments, variance, standard deviation, skewness, kurtosis, covariance, correlation and dot products equal their defining formulas over all samples (each sample counted exactly once) up to rounding, for every length, alignment and element type.",
     ["inputs", "configurations"], "All lengths around vector widths and block sizes, alignments, sign patterns, moment orders and positions of the extreme sample.",
     "Tests use one length per statistic; vectorized reductions split each length into differently handled head, body and tail.",
     ["Math/Statistics.hpp", "Math/DotProduct.hpp", "Kernels/Numeric.hpp"], [("kernels::Reduce/TransformReduce/InnerProduct", "Kernels/Numeric.hpp"), ("CentralMoment", "Math/Statistics.hpp")])
prop("C05", "Convolution writes the defining sum for every output window",
     "Convolution writes to output sample i exactly the sum over j of u[j] v[offset+i-j], for full and central convolutions and any window of them, for any operand lengths, order and element types; the accumulating form adds the same value, and the rounding error does not grow with the operand lengths. Nothing outside the output is written and the operands are unchanged.",
     ["inputs", "configurations"], "All operand length pairs, output offsets and lengths in a range covering each internal strategy and its switch points.",
     "Tests compare a few hand-picked sizes; the kernel dispatches on operand lengths and has separate head/body/tail paths for every window.",
     ["Math/Convolution.hpp", "Kernels/Convolution.hpp"], [("kernels::Convolution (slide/reduce)", "Kernels/Convolution.hpp"), ("Convolution", "Math/Convolution.hpp")])
prop("C06", "Overlap-add equals direct convolution for every chunk size",
     "Overlap-add convolution writes the same values as the defining convolution sum, up to FFT rounding, whatever the operand lengths and order, output window, chunk size (chosen or automatic) and element types. Accumulating and overwriting forms differ only by the previous content of the output, and nothing outside the output is written.",
     ["inputs", "configurations"], "All operand lengths, windows and admissible chunk sizes in range.",
     "Tests use a few windows with one chunk size; clipping of each chunk's contribution to the output window has border cases for every relation of chunk, filter and window.",
     ["Math/OverlapAdd.hpp", "Math/FFT.hpp"], [("impl_ola / OverlapAdd", "Math/OverlapAdd.hpp")])
prop("C07", "Streaming FIR filtering does not depend on block boundaries",
     "Feeding a signal to a stateful FIR filter in successive blocks yields the same output as filtering it whole, for every partition into blocks, every choice of direct or overlap-add engine per block and every filter length, up to rounding. The carried state is the most recent filter-length-minus-one inputs. Stateless full and central filtering equal the corresponding convolution.",
     ["histories", "inputs"], "All partitions of short streams into blocks, all engine sequences, all filter lengths; block patterns around the engine switch points.",
     "Tests stream one signal with one block size; the carried state depends on the whole history of block sizes, in particular blocks shorter than the filter.",
     ["Filtering/FIR/Filter.hpp", "Math/Convolution.hpp", "Math/OverlapAdd.hpp"], [("Filter (stateful)", "Filtering/FIR/Filter.hpp")],
     [("state signal", "last taps-1 inputs", "Filtering/FIR/Filter.hpp")])
prop("C08", "Streaming IIR filtering is the difference equation, in every realization",
     "Filtering through Direct Form I, Direct Form II and cascaded biquad realizations computes the difference equation of the system, whatever the partition of the input into blocks, the order of the state and the element types, up to rounding. The realizations agree with each other, and copies of a state continue independently.",
     ["histories", "inputs"], "All small systems over a root alphabet, all partitions of a stream, all realizations and state orders.",
     "Tests filter a few designed systems; shift-register updates and degenerate numerator/denominator orders occur only for particular systems and histories.",
     ["Filtering/IIR/Filter.hpp", "Filtering/IIR/Realizations.hpp"], [("DirectFormI/DirectFormII/CascadedForm::Feed", "Filtering/IIR/Realizations.hpp"), ("Filter", "Filtering/IIR/Filter.hpp")],
     [("realization state", "recent inputs/outputs of each section", "Filtering/IIR/Realizations.hpp")])
prop("C09", "All representations of a system have the same transfer function",
     "Converting a system between zero-pole-gain, transfer function and cascaded biquad forms preserves its transfer function at every complex frequency (up to rounding), its gain and its order, for every number of real and paired complex zeros and poles including none.",
     ["inputs", "histories"], "All multisets of roots over an alphabet as zeros and poles, and all chains of conversions.",
     "Tests convert a few fixed systems; pairing of real and complex roots into biquads has separate cases for each parity and excess.",
     ["LTISystems/Systems.hpp", "Math/Polynomials.hpp"], [("ZeroPoleGain/TransferFunction/CascadedBiquad conversions", "LTISystems/Systems.hpp")])
prop("C10", "The FFT is the DFT for every length and call history",
     "Fft and Ifft (real half, real full and complex) compute the defining discrete Fourier sum and its inverse for every length, power of two or not, up to rounding; Ifft undoes Fft. The result of a call does not depend on which transforms were computed before it. FftShift and IfftShift are the defining rotations and undo each other, in place or not.",
     ["inputs", "histories", "configurations"], "All lengths up to a bound plus larger primes and smooth numbers; all unit impulses; all sequences of transforms that overflow the plan cache.",
     "Tests use single power-of-two and one or two other lengths; radix passes, Bluestein and the plan cache's eviction depend on length and history.",
     ["Math/FFT.hpp", "PocketFFT/pocketfft_hdronly.h"], [("Fft/Ifft/FftShift/IfftShift", "Math/FFT.hpp"), ("get_plan cache, cfftp, rfftp, fftblue", "PocketFFT/pocketfft_hdronly.h")],
     [("plan cache", "last used transform plans", "PocketFFT/pocketfft_hdronly.h")])
prop("C11", "Resampling interpolates the zero-stuffed convolution at exact rational positions",
     "Every output sample of polyphase resampling is the linear interpolation, at start point plus index times the exact rational rate, of the input expanded by the number of phases and filtered by the polyphase filter's impulse response. Positions never drift with the index, output beyond the input sees zeros, and the returned suspension point is the exact position following the last output.",
     ["inputs"], "All rational rates, start points, phase counts, filter lengths, input and output lengths in range.",
     "Tests resample one signal at a few rates; wrap-around from the last phase to the next sample and index arithmetic differ for each rate, phase and filter length.",
     ["Filtering/Resample.hpp", "Filtering/Polyphase.hpp"], [("Resample", "Filtering/Resample.hpp"), ("resample sample indices", "Filtering/Resample.hpp")])
prop("C12", "Interpolate, expand and decimate equal their index formulas",
     "Interpolate writes exactly the polyphase-filtered zero-stuffed input, expand writes the input samples separated by zeros and decimate keeps every n-th sample, for every input length, filter length, factor, output offset and output length. Nothing outside the output is written, and in-place or view forms agree with the returning forms.",
     ["inputs"], "All input and filter lengths, factors and output windows in range.",
     "Tests use one filter and one window; phase offsets and partial filter overlap at both ends differ for every window.",
     ["Filtering/Resample.hpp", "Filtering/Polyphase.hpp"], [("Interpolate/Expand/Decimate", "Filtering/Resample.hpp")])
prop("C13", "Streaming resampling continues seamlessly from its suspension point",
     "Splitting a resampling or interpolation run anywhere and continuing from the returned suspension point, with any amount of already consumed input dropped as the suspension point allows, yields exactly the samples of the uninterrupted run, for every sequence of splits.",
     ["histories", "inputs"], "All split points and block partitions of short runs over rates, filters and factors.",
     "Tests continue one stream with one block size; the suspension point must be right at every position and for every later history.",
     ["Filtering/Resample.hpp"], [("suspension point computation in Resample/Interpolate", "Filtering/Resample.hpp")],
     [("suspension point", "first needed input sample and the rational start point within it", "Filtering/Resample.hpp")])
prop("C14", "Polyphase decomposition partitions the filter, and copies are independent",
     "Decomposing a filter into n phases places each coefficient in exactly one phase, phase k holding every n-th coefficient from k reversed and scaled by the phase count, for every filter length and phase count. Normalizing a decomposition scales every phase to unit sum. Copies, moves and assignments of decompositions are independent values.",
     ["inputs", "histories"], "All filter lengths and phase counts in range, all copy/move/assign/mutate histories up to a depth.",
     "Tests check one length; uneven phase lengths and self-referencing storage are only exercised by other lengths and by copy histories.",
     ["Filtering/Polyphase.hpp"], [("PolyphaseDecompose, PolyphaseView", "Filtering/Polyphase.hpp")])
prop("C15", "Rational arithmetic is exact",
     "Construction, arithmetic, comparison, rounding and conversion of rationals give exactly the mathematical result, in lowest terms with a positive denominator, for every combination of signs and mixed integer operands, as long as the result, and for sums and comparisons the operands over their least common denominator, are representable.",
     ["inputs", "histories"], "All operand pairs in a range of numerators and denominators, all short operation histories.",
     "Tests use a few positive fractions; sign and normalization rules interact for every operand pair.",
     ["Math/Rational.hpp"], [("Rational", "Math/Rational.hpp")])
prop("C16", "Polynomials keep their coefficients, roots and values through every history",
     "A polynomial or factored polynomial holds exactly the coefficients or the real roots and conjugate pairs last stored in it after any history of resizes, regroupings, assignments, copies and moves. Expanding a factored polynomial gives the coefficients of the product of its factors, and evaluating either form anywhere gives the same value up to rounding.",
     ["histories", "inputs"], "All operation sequences up to a depth, all root multisets over an alphabet.",
     "Tests resize once; the shared storage of real roots and pairs makes every resize order a different case.",
     ["Math/Polynomials.hpp"], [("FactoredPolynomial::resize/regroup, ExpandPolynomial", "Math/Polynomials.hpp")])
prop("C17", "Every IIR design meets its specification",
     "For every family, band type, order, edges and ripples, the designed IIR filter is stable, has the requested order (doubled for band types), and its magnitude response equals the closed-form Butterworth, Chebyshev I/II or elliptic response at every frequency; in particular pass and stop bands stay within the specified ripples and edges.",
     ["inputs"], "All combinations of family, band type, order, edge and ripple grids, at a frequency grid.",
     "Tests design a few filters with loose tolerances; parity of the order, extreme ripples and edge placement form a large product space.",
     ["Filtering/IIR.hpp", "Filtering/IIR/Butterworth.hpp", "Filtering/IIR/Chebyshev.hpp", "Filtering/IIR/Elliptic.hpp", "Filtering/IIR/BandTransforms.hpp"], [("DesignFilter (IIR)", "Filtering/IIR.hpp"), ("prototype designs", "Filtering/IIR/Elliptic.hpp")])
prop("C18", "Every FIR design is the filter its description defines",
     "Windowed designs have exactly the windowed ideal impulse response, normalized as specified; least squares designs minimize the weighted squared error of the described response over their frequency grid; both for every length, band layout, window and grid. Mirroring, complementing and shifting a response are the defining index formulas, in place or not.",
     ["inputs"], "All lengths, band types, cutoffs, windows, weights and grid sizes in range.",
     "Tests design one length per method with loose response checks; parity, centre taps and degenerate bands are not sampled.",
     ["Filtering/FIR.hpp", "Filtering/FIR/Windowed.hpp", "Filtering/FIR/LeastSquares.hpp", "Filtering/FIR/BandTransforms.hpp"], [("fir::KernelWindowed*", "Filtering/FIR/Windowed.hpp"), ("fir::LeastSquares*", "Filtering/FIR/LeastSquares.hpp"), ("MirrorResponse/ComplementaryResponse/ShiftResponse", "Filtering/FIR/BandTransforms.hpp")])
prop("C19", "Hilbert designs are antisymmetric quadrature filters of every length",
     "Hilbert FIR designs of every length and parity, windowed or least squares, are exactly antisymmetric, are the quadrature part of the matching halfband filter, and shift the phase of pass band tones by ninety degrees; conversions from halfband filters are exact coefficient formulas.",
     ["inputs"], "All lengths, windows and transition widths in range.",
     "Tests check two lengths; the four parity classes of the length take different conversion paths.",
     ["Filtering/FIR.hpp", "Filtering/FIR/BandTransforms.hpp"], [("HalfbandToHilbertOdd/Even", "Filtering/FIR/BandTransforms.hpp")])
prop("C20", "Window functions equal their published formulas",
     "Every window of length at least two equals its published formula sample by sample, and is symmetric, for every parameter; coherent and energy gain are the defining averages of any window given. Dolph-Chebyshev windows have side lobes at the requested attenuation. Generated and in-place forms agree.",
     ["inputs"], "All windows, lengths and parameter grids in range, float, double and complex.",
     "Tests check one or two lengths per window for symmetry and a few properties.",
     ["Filtering/Windowing.hpp"], [("windows::* functors", "Filtering/Windowing.hpp")])
prop("C21", "Generated waveforms are sampled closed forms, and continue seamlessly",
     "Sine, sawtooth, square and PWM waves and their chirps equal their closed form at every sample for any length, frequency, sample rate, phase (including negative phases and several periods), tilt and fill, and tone generation continued in blocks from the matching phase equals one-shot generation.",
     ["inputs", "histories"], "All waveforms, lengths, frequencies, phases and split points in range.",
     "Tests generate one period at phase zero.",
     ["Generators/Waveforms.hpp"], [("SineWave/SawtoothWave/PwmWave/SquareWave and *Chirp", "Generators/Waveforms.hpp")])
prop("C22", "Linear and logarithmic spaces hit every point, endpoints included as requested",
     "Sample i of a linear or logarithmic space is the defining interpolation between the endpoints, the last sample being the end point exactly when inclusive was requested, for every length (one and zero included), direction, element type and offset.",
     ["inputs"], "All lengths, endpoint pairs and inclusivity in range.",
     "Tests check one length; vectorized index generation differs per length.",
     ["Generators/Spaces.hpp"], [("LinSpace/LogSpace", "Generators/Spaces.hpp")])
prop("C23", "Filter descriptors are immutable values that refuse invalid parameters",
     "A filter descriptor describes the last accepted value of each of its parameters after any history of builder calls in any order, whatever their number; a parameter never given has its default (half band cutoffs, bands from a quarter to three quarters, 10 % ripples, flat responses, even weights, Hamming windows). Builder calls and designs with parameters outside the documented range throw, accept everything inside it, and leave every previously made descriptor unchanged.",
     ["histories", "inputs"], "All builder call sequences up to a depth; all parameters at and around every admissibility border.",
     "Tests build each descriptor in one canonical order and try a few invalid values.",
     ["Filtering/FIR/Descs.hpp", "Filtering/IIR/Descs.hpp", "Filtering/FIR.hpp", "Filtering/IIR.hpp"], [("descriptor builders", "Filtering/FIR/Descs.hpp"), ("descriptor builders", "Filtering/IIR/Descs.hpp")])
prop("C24", "Measured filter parameters describe the actual response",
     "Frequency responses of filters equal their defining sums on the stated grid, and normalized frequencies are fractions of half the sample rate. Classification recognizes the band layout of a response, and measured band edges, ripples and attenuations agree with the response they were measured on, for every band layout, ripple level and resolution.",
     ["inputs"], "All band layout words over a response alphabet, edges, ripples and grid sizes in range.",
     "Tests measure a handful of designed filters.",
     ["Filtering/MeasureFilter.hpp", "Filtering/FilterUtility.hpp"], [("FrequencyResponse", "Filtering/FilterUtility.hpp"), ("ClassifyResponse/MeasureFilter", "Filtering/MeasureFilter.hpp")])
prop("C25", "Elliptic integrals and functions satisfy their identities everywhere",
     "Carlson and Legendre integrals and Jacobi elliptic functions and their inverses equal their defining integrals over the whole real argument range and the complex strip used by elliptic design, for every modulus from zero to one inclusive, of either sign and, for real arguments of sn, cn, dn and am, beyond one, and satisfy the Pythagorean, parity, periodicity and inverse identities.",
     ["inputs"], "Exhaustive grids over modulus and argument, real and complex.",
     "Tests compare a table of a few values per function.",
     ["Math/EllipticFunctions.hpp"], [("CarlsonRF, EllipticK/F, EllipticSN/CN/DN/Arc*", "Math/EllipticFunctions.hpp")])
prop("C26", "Concurrent use of the library from several threads gives the sequential results",
     "Calls made concurrently from several threads on separate data, or on shared objects that are only read (transforms, convolutions, filter designs, windows, elliptic functions, streaming filters, systems, containers), return what the same calls return when made alone, for every interleaving, and access no shared memory without synchronization.",
     ["schedules", "histories"], "All interleavings of small multi-threaded programs up to a preemption bound, at every synchronization operation; every memory access checked for races.",
     "The tests are single threaded.",
     ["PocketFFT/pocketfft_hdronly.h", "Math/EllipticFunctions.hpp", "Math/FFT.hpp"], [("mutex of get_plan", "PocketFFT/pocketfft_hdronly.h"), ("thread_local scratch of EllipticAM", "Math/EllipticFunctions.hpp")],
     [("plan cache", "shared transform plans", "PocketFFT/pocketfft_hdronly.h")])
prop("C27", "Interval algebra is set algebra",
     "Size, shift, equality, disjointness, intersection, encompassing union and union of half-open intervals agree with the same operations on the sets of points they denote, for every pair and every operation history; a union exists exactly when the intervals overlap.",
     ["inputs", "histories"], "All pairs and triples of intervals over a range of endpoints, all operation histories up to a depth.",
     "Tests use a few pairs; touching, nested and separate intervals form many relations.",
     ["Utility/Interval.hpp"], [("Interval", "Utility/Interval.hpp")])
prop("C28", "Root solvers converge to the root and terminate",
     "For every function and bracket with a sign change, in either direction and orientation, bisection returns a point inside the bracket within the tolerance of the sign change, evaluates the function only inside the bracket, and terminates. Newton-Raphson started where its steps contract returns a root to the requested tolerance and terminates, for zero tolerance too.",
     ["inputs"], "All functions of an alphabet, brackets, root positions and directions in range.",
     "Tests solve a couple of functions.",
     ["Math/Solvers.hpp"], [("Bisect, NewtonRaphson", "Math/Solvers.hpp")])
prop("C29", "Discretization and band transforms are the substitutions they name",
     "The bilinear transform, root transforms and the halfband-to-lowpass, highpass, bandpass and bandstop transforms yield the system whose transfer function is the original's with the named substitution, at every complex frequency and for every zero/pole configuration (fewer, equal or more zeros than poles).",
     ["inputs"], "All systems over a root alphabet, all transform parameters in range.",
     "Tests only transform designed prototypes with few layouts.",
     ["LTISystems/DiscretizationTransforms.hpp", "Filtering/IIR/BandTransforms.hpp", "Math/RootTransforms.hpp"], [("BilinearTransform", "LTISystems/DiscretizationTransforms.hpp"), ("Halfband2Lowpass/Highpass/Bandpass/Bandstop", "Filtering/IIR/BandTransforms.hpp")])

prop("C30", "Vectorized kernels compute exactly what the sequential algorithms do",
     "The transform, reduce, transform-reduce and inner product kernels give the result of their sequential standard counterparts for every length, alignment, element type, accumulator type, operator and initial value, in place or not, whenever the result does not depend on the order of evaluation. Compensated sums have an error bounded by a few rounding units of the summed magnitudes whatever the number of terms. Every convolution kernel gives the defining sum for every window of the full convolution. Nothing outside the output is written.",
     ["inputs"], "All lengths around the vector and unrolling widths, alignments, types, operators, initial values and output windows in range.",
     "Tests run each kernel with one or two operators on two lengths; remainders, initial values that are no identity and windows reaching over both ends are not sampled.",
     ["Kernels/Numeric.hpp", "Kernels/Functors.hpp", "Kernels/Convolution.hpp", "Kernels/Utility.hpp"], [("Transform/Reduce/TransformReduce/InnerProduct", "Kernels/Numeric.hpp"), ("plus_compensated", "Kernels/Functors.hpp"), ("ConvolutionNaive/Slide/Reduce/ReduceVec", "Kernels/Convolution.hpp")])
prop("C31", "Views are interchangeable with signals in every function",
     "Every function that takes signals accepts signals, constant signals, views and constant views alike in each operand, in any mix, and returns the same result (type and values) for each; output arguments may be signals, views or temporary views of a part of a buffer, which then holds the same result as the returning form, with nothing outside it written. Operands are left unchanged. All headers can be included together. Recursive filters designed in place are those designed by order. Optional arguments left out mean their neutral defaults: outputs cleared, chunks sized automatically, phase zero, ranges inclusive, new samples zero.",
     ["inputs"], "All functions, all combinations of operand and output forms, element types and lengths in range.",
     "Tests call each function with one combination of forms; overloads for the others are separate instantiations that are never compiled or run.",
     ["Math/Statistics.hpp", "Math/Functions.hpp", "Math/FFT.hpp", "Math/Convolution.hpp", "Math/OverlapAdd.hpp", "Filtering/FIR.hpp", "Filtering/FIR/Filter.hpp", "Filtering/FIR/BandTransforms.hpp", "Filtering/IIR/Filter.hpp", "Filtering/Polyphase.hpp", "Filtering/Resample.hpp", "Filtering/MeasureFilter.hpp", "Filtering/Windowing.hpp", "Primitives/SignalArithmetic.hpp"],
     [("signal_traits, is_mutable_signal_v, is_same_domain_v", "Primitives/SignalTraits.hpp"), ("AsView, AsConstView", "Primitives/SignalView.hpp")])
prop("C32", "Domains never mix and constant data is never written",
     "Signals of different domains never combine: arithmetic, elementwise functions, dot products, convolutions, overlap-add, filtering, rate conversion, polyphase decomposition and FIR response transforms between different domains are refused at compile time, as are outputs of another domain and outputs on constant data; views only view signals of their own domain and element type, and constant data is never viewed as mutable. What is allowed yields the operands' domain (the Fourier transforms: the counterpart), the element type of the scalar operation, and values that do not depend on the domain.",
     ["inputs"], "All operations, pairs of domains, operand forms and element type pairs in range.",
     "A test cannot contain a call that must not compile, and each test instantiates one domain, nearly always time.",
     ["Primitives/SignalTraits.hpp", "Primitives/Signal.hpp", "Primitives/SignalView.hpp", "Primitives/SignalArithmetic.hpp", "Math/Functions.hpp", "Math/FFT.hpp", "Math/Convolution.hpp", "Math/OverlapAdd.hpp", "Math/DotProduct.hpp", "Filtering/FIR/Filter.hpp", "Filtering/Polyphase.hpp", "Filtering/Resample.hpp"],
     [("is_same_domain_v, is_mutable_signal_v", "Primitives/SignalTraits.hpp"), ("AsView, AsConstView", "Primitives/SignalView.hpp"), ("Fft, Ifft", "Math/FFT.hpp")])

prop("C33", "Running out of memory corrupts nothing",
     "When an allocation fails at any point of any call, std::bad_alloc reaches the caller (or the call succeeds with its usual result); nothing leaks, operands are unchanged, and every later call gives its usual result. In particular: an operation on a signal either takes place or leaves its samples as they were; a streaming FIR or IIR filter whose output could not be computed has not advanced its state; a realization whose order could not be raised goes on filtering as before; polynomials and polyphase filters keep consistent sizes and stay usable, and are untouched when an operation on another object fails; a failed transform neither poisons nor leaks the shared store of FFT plans, nor leaves its lock held. Exceptions thrown by user functions (responses, weights, windows, functions to solve) reach the caller in the same way.",
     ["crash points", "inputs", "histories"], "All allocation points (each failing alone, and it and all later ones) of the calls and histories in range.",
     "No test makes an allocation fail, and a failure only shows at one particular allocation of a call.",
     ["Primitives/Signal.hpp", "Math/FFT.hpp", "PocketFFT/pocketfft_hdronly.h", "Math/OverlapAdd.hpp", "Math/Polynomials.hpp", "Filtering/Polyphase.hpp", "Filtering/IIR/Realizations.hpp", "Filtering/FIR/Filter.hpp", "Filtering/FIR/LeastSquares.hpp", "Filtering/MeasureFilter.hpp", "Filtering/Windowing.hpp"],
     [("BasicSignal::append, insert, extract_front", "Primitives/Signal.hpp"), ("get_plan", "PocketFFT/pocketfft_hdronly.h"), ("Filter with state", "Filtering/FIR/Filter.hpp"), ("DirectFormI::order", "Filtering/IIR/Realizations.hpp"), ("FactoredPolynomial::resize", "Math/Polynomials.hpp"), ("PolyphaseFilter::operator=", "Filtering/Polyphase.hpp")])

prop("C34", "Results depend on the arguments alone, not on earlier calls",
     "What a call returns or writes is determined by its arguments and the samples they refer to at the time of the call. No earlier call changes it: not one of the same function with nearby parameters, with sizes that differ, with another element type, or on the same memory with other contents; not one of any other function; not one that was refused. This holds for transforms, convolutions, filters and resampling, filter designs of every method, windows, elliptic functions, statistics, elementwise functions, waveforms, spaces, systems and their conversions, solvers and response measurement.",
     ["histories", "inputs"], "All histories of two calls (three in the thorough tier) over alphabets of calls whose arguments are close to each other.",
     "A test calls a function once or a few times with unrelated arguments; what a cached plan, table or scratch buffer gets wrong shows only after particular earlier calls.",
     ["PocketFFT/pocketfft_hdronly.h", "Math/EllipticFunctions.hpp", "Math/FFT.hpp", "Math/OverlapAdd.hpp", "Filtering/Windowing.hpp", "Filtering/FIR.hpp", "Filtering/IIR.hpp", "Filtering/Resample.hpp", "Generators/Waveforms.hpp", "LTISystems/Systems.hpp"],
     [("get_plan", "PocketFFT/pocketfft_hdronly.h"), ("thread_local scratch of EllipticAM", "Math/EllipticFunctions.hpp")],
     [("plan cache", "transform plans kept between calls", "PocketFFT/pocketfft_hdronly.h")])

NOTE = ("Exhaustive within the enumerated bounds recorded in the evidence (every execution of the real, unmodified headers is checked; "
        "nothing is sampled). Trusts: gcc, the CPU's floating point, the harness's long double reference and its rounding tolerances; "
        "says nothing beyond the bounds except by the case structure of the code.")
NA = {}


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    checks = []
    for p in P:
        i = p["id"]
        if i not in PROPS:
            continue
        c = PROPS[i]
        checks.append({"property": i,
                       "quick_cmd": "VERIF_TIER=quick python3 check.py %s" % i,
                       "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": c.get("technique", "bounded exhaustive enumeration (model checking) of the implementation: " + c["method"]),
                       "level": "model_checking",
                       "level_note": c.get("level_note", NOTE)})
    na = [{"property": p["id"], "reason": NA.get(p["id"], "not built yet")} for p in P if p["id"] not in PROPS]
    m = {"version": 1, "setup_cmd": "python3 -c \"import properties_config\" && g++ --version",
         "checks": checks, "not_applicable": na,
         "notes": "Header-only library: every check compiles the headers of /repo's working tree afresh; no hooks are needed."}
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)


main()
