// The alphabets of calls for hist.hpp, by area; HIST_* selects them.
#pragma once
#include "hist.hpp"
#if defined(HIST_ALL)
#define HIST_FFT
#define HIST_WINDOWS
#define HIST_FIR
#define HIST_IIR
#define HIST_TRANSFORMS
#define HIST_ELLIPTIC
#define HIST_CONV
#define HIST_RESAMPLE
#define HIST_STATS
#define HIST_ARITHMETIC
#define HIST_WAVES
#define HIST_SPACES
#define HIST_SYSTEMS
#define HIST_SOLVERS
#define HIST_MEASURE
#endif
#include <dspbb/Filtering/FIR.hpp>
#include <dspbb/Filtering/IIR.hpp>
#include <dspbb/Filtering/MeasureFilter.hpp>
#include <dspbb/Filtering/Polyphase.hpp>
#include <dspbb/Filtering/Resample.hpp>
#include <dspbb/Filtering/Windowing.hpp>
#include <dspbb/Generators/Spaces.hpp>
#include <dspbb/Generators/Waveforms.hpp>
#include <dspbb/LTISystems/DiscretizationTransforms.hpp>
#include <dspbb/LTISystems/Systems.hpp>
#include <dspbb/Math/Convolution.hpp>
#include <dspbb/Math/DotProduct.hpp>
#include <dspbb/Math/EllipticFunctions.hpp>
#include <dspbb/Math/FFT.hpp>
#include <dspbb/Math/Functions.hpp>
#include <dspbb/Math/OverlapAdd.hpp>
#include <dspbb/Math/Polynomials.hpp>
#include <dspbb/Math/RootTransforms.hpp>
#include <dspbb/Math/Solvers.hpp>
#include <dspbb/Math/Statistics.hpp>
#include <dspbb/Primitives/SignalArithmetic.hpp>

namespace hist {
using namespace dspbb;
template <class T> using R = ref::real_of_t<T>;
template <class T> using Sig = BasicSignal<T, TIME_DOMAIN>;
template <class T> using Spec = BasicSignal<T, FREQUENCY_DOMAIN>;

// Memory at the same address in every call: contents differ, the address does not.
template <class T, int Slot>
T* Fixed() { alignas(64) static T mem[2048]; return mem; }
enum Variant { PLAIN, MIDDLE, SLIGHTLY, SWAPPED, FIRST, LAST, VARIANTS };
template <class T>
void Fill(T* p, size_t n, int seed, int variant) {
	for (size_t i = 0; i < n; ++i) p[i] = mc::ValAs<T>(uint64_t(seed) * 4099 + i, 9);
	if (n == 0) return;
	switch (variant) {
		case MIDDLE: p[n / 2] += T(1); break;
		case SLIGHTLY: p[n / 2] *= R<T>(1) + (sizeof(R<T>) == 4 ? R<T>(3e-6L) : R<T>(2e-9L)); break;
		case SWAPPED: if (n > 3) std::swap(p[1], p[2] == p[1] ? p[n - 2] : p[2]); break;
		case FIRST: p[0] -= T(1); break;
		case LAST: p[n - 1] -= T(1); break;
	}
}
template <class T, int Slot, eSignalDomain D = TIME_DOMAIN>
BasicSignalView<const T, D> Data(size_t n, int seed, int variant = PLAIN) {
	Fill(Fixed<T, Slot>(), n, seed, variant);
	return AsConstView<D>(static_cast<const T*>(Fixed<T, Slot>()), static_cast<const T*>(Fixed<T, Slot>()) + n);
}
template <class T, eSignalDomain D>
BasicSignal<std::remove_const_t<T>, D> Own(BasicSignalView<T, D> v) { return { v.begin(), v.end() }; }
// Output memory at the same address, holding something else.
template <class T, eSignalDomain D = TIME_DOMAIN>
BasicSignalView<T, D> Out(size_t n) {
	for (size_t i = 0; i < n; ++i) Fixed<T, 9>()[i] = T(R<T>(77));
	return AsView<D>(Fixed<T, 9>(), Fixed<T, 9>() + n);
}
template <class System>
Values Roots(const System& z) { return Of(z.gain, z.zeros.real_roots(), z.zeros.complex_pairs(), z.poles.real_roots(), z.poles.complex_pairs()); }

#ifdef HIST_FFT
template <class T>
void FftCalls(Alphabet& a) {
	using C = std::complex<T>;
	for (size_t n : { 6, 7, 8, 13, 262, 518 }) {
		Add<T>(a, "fft", Name("half", n), [n] { return Of(Fft(Data<T, 0>(n, 1), FFT_HALF)); });
		Add<T>(a, "fft", Name("full", n), [n] { return Of(Fft(Data<T, 0>(n, 1), FFT_FULL)); });
		Add<T>(a, "fft", Name("complex", n), [n] { return Of(Fft(Data<C, 0>(n, 1))); });
		Add<T>(a, "fft", Name("inverse-half", n), [n] { return Of(Ifft(Data<C, 0, FREQUENCY_DOMAIN>(n / 2 + 1, 1), FFT_HALF, n % 2 == 0)); });
		Add<T>(a, "fft", Name("inverse", n), [n] { return Of(Ifft(Data<C, 0, FREQUENCY_DOMAIN>(n, 1))); });
	}
	for (int v = MIDDLE; v < VARIANTS; ++v) {
		Add<T>(a, "fft", Name("half", 8, "contents", v), [v] { return Of(Fft(Data<T, 0>(8, 1, v), FFT_HALF)); });
		Add<T>(a, "fft", Name("complex", 8, "contents", v), [v] { return Of(Fft(Data<C, 0>(8, 1, v))); });
		Add<T>(a, "fft", Name("inverse", 8, "contents", v), [v] { return Of(Ifft(Data<C, 0, FREQUENCY_DOMAIN>(8, 1, v))); });
	}
	// Sizes that agree in their low sixteen bits; some of the values only.
	for (size_t n : { 6, 65542 }) {
		const auto some = [](const auto& s) { Values r = Of(s.size()); for (size_t i = 0; i < s.size(); i += 1 + s.size() / 64) Put(r, s[i]); return r; };
		Add<T>(a, "fft-sizes", Name("half", n), [=] { Sig<T> x(n); Fill(x.data(), n, 1, PLAIN); return some(Fft(x, FFT_HALF)); });
		Add<T>(a, "fft-sizes", Name("full", n), [=] { Sig<T> x(n); Fill(x.data(), n, 1, PLAIN); return some(Fft(x, FFT_FULL)); });
		Add<T>(a, "fft-sizes", Name("complex", n), [=] { Sig<C> x(n); Fill(x.data(), n, 1, PLAIN); return some(Fft(x)); });
		Add<T>(a, "fft-sizes", Name("inverse-half", n), [=] { Spec<C> x(n / 2 + 1); Fill(x.data(), n / 2 + 1, 1, PLAIN); return some(Ifft(x, FFT_HALF, true)); });
		Add<T>(a, "fft-sizes", Name("inverse", n), [=] { Spec<C> x(n); Fill(x.data(), n, 1, PLAIN); return some(Ifft(x)); });
	}
	for (size_t n : { 8, 13 }) {
		Add<T>(a, "fft", Name("shift", n), [n] { auto o = Out<T, FREQUENCY_DOMAIN>(n); FftShift(o, Data<T, 0, FREQUENCY_DOMAIN>(n, 1)); return Of(o); });
		Add<T>(a, "fft", Name("unshift", n), [n] { auto o = Out<T, FREQUENCY_DOMAIN>(n); IfftShift(o, Data<T, 0, FREQUENCY_DOMAIN>(n, 1)); return Of(o); });
	}
}
#endif

#ifdef HIST_WINDOWS
template <class T>
void WindowCalls(Alphabet& a) {
	for (size_t n : NearSizes(16)) {
		Add<T>(a, "window", Name("hamming", n), [n] { return Of(HammingWindow<T>(n)); });
		Add<T>(a, "window", Name("flattop", n), [n] { return Of(FlatTopWindow<T>(n)); });
		Add<T>(a, "window", Name("triangular", n), [n] { return Of(TriangularWindow<T>(n)); });
		Add<T>(a, "window", Name("blackman", n), [n] { return Of(BlackmanWindow<T>(n)); });
		Add<T>(a, "window", Name("blackman-harris", n), [n] { return Of(BlackmanHarrisWindow<T>(n)); });
		Add<T>(a, "window", Name("lanczos", n), [n] { return Of(LanczosWindow<T>(n)); });
		const bool all = n == 16;
		for (T s : { T(0.25), T(0.5) }) for (T p : all ? Near<T>(s) : std::vector<T>{ s }) Add<T>(a, "window", Name("gaussian", n, p), [=] { return Of(GaussianWindow<T>(n, p)); });
		for (T s : { T(0.5), T(2) }) for (T p : all ? Near<T>(s) : std::vector<T>{ s }) Add<T>(a, "window", Name("kaiser", n, p), [=] { return Of(KaiserWindow<T>(n, p)); });
		for (T s : { T(0.1), T(0.01) }) for (T p : all ? Near<T>(s) : std::vector<T>{ s }) Add<T>(a, "window", Name("dolph", n, p), [=] { return Of(DolphChebyshevWindow<T>(n, p)); });
	}
	for (int v = 0; v < VARIANTS; ++v) Add<T>(a, "window", Name("gains", v), [v] { auto w = Data<T, 0>(16, 3, v); return Of(CoherentGain(w), EnergyGain(w)); });
}
#endif

#ifdef HIST_FIR
// Response functions of one type that differ in what they hold.
template <class T>
struct Slope { T a; template <class F> F operator()(F f) const { return F(1) - F(a) * f; } };
// Equal sums, equal products, equal ends.
template <class T>
struct Steps { T low, high; template <class F> F operator()(F f) const { return f < F(0.5) ? F(low) : F(high); } };
template <class T>
void FirCalls(Alphabet& a) {
	const T c = T(0.3);
	for (size_t n : { 15, 17, 271 }) {
		const bool all = n == 15;
		for (T p : all ? Near<T>(c) : std::vector<T>{ c }) {
			Add<T>(a, "fir-windowed", Name("low", n, p), [=] { return Of(DesignFilter<T, TIME_DOMAIN>(n, Fir.Lowpass.Windowed.Cutoff(p).Window(windows::hamming))); });
			Add<T>(a, "fir-windowed", Name("high", n, p), [=] { return Of(DesignFilter<T, TIME_DOMAIN>(n, Fir.Highpass.Windowed.Cutoff(p).Window(windows::hamming))); });
			Add<T>(a, "fir-windowed", Name("bandpass", n, p), [=] { return Of(DesignFilter<T, TIME_DOMAIN>(n, Fir.Bandpass.Windowed.Band(p, T(0.75)).Window(windows::hamming))); });
			Add<T>(a, "fir-windowed", Name("bandstop", n, p), [=] { return Of(DesignFilter<T, TIME_DOMAIN>(n, Fir.Bandstop.Windowed.Band(T(0.125), p).Window(windows::hamming))); });
			Add<T>(a, "fir-windowed", Name("arbitrary", n, p), [=] { return Of(DesignFilter<T, TIME_DOMAIN>(n, Fir.Arbitrary.Windowed.Response(Slope<T>{ p }).Window(windows::hamming))); });
		}
		Add<T>(a, "fir-windowed", Name("low-blackman", n), [=] { return Of(DesignFilter<T, TIME_DOMAIN>(n, Fir.Lowpass.Windowed.Cutoff(c).Window(windows::blackman))); });
		Add<T>(a, "fir-windowed", Name("hilbert", n), [=] { return Of(DesignFilter<T, TIME_DOMAIN>(n, Fir.Hilbert.Windowed.Window(windows::hamming))); });
		Add<T>(a, "fir-windowed", Name("hilbert-blackman", n), [=] { return Of(DesignFilter<T, TIME_DOMAIN>(n, Fir.Hilbert.Windowed.Window(windows::blackman))); });
	}
	// Bands with the same sum, the same product, the same width.
	for (auto [lo, hi] : { std::pair<T, T>{ T(0.25), T(0.75) }, { T(0.375), T(0.625) }, { T(0.3), T(0.625) }, { T(0.125), T(0.625) } }) {
		Add<T>(a, "fir-windowed", Name("bandpass", lo, hi), [lo = lo, hi = hi] { return Of(DesignFilter<T, TIME_DOMAIN>(15, Fir.Bandpass.Windowed.Band(lo, hi).Window(windows::hamming))); });
		Add<T>(a, "fir-windowed", Name("bandstop", lo, hi), [lo = lo, hi = hi] { return Of(DesignFilter<T, TIME_DOMAIN>(15, Fir.Bandstop.Windowed.Band(lo, hi).Window(windows::hamming))); });
	}
	// Window functions of one type with different parameters, and window signals with different contents.
	for (T p : Near<T>(T(1.5))) {
		Add<T>(a, "fir-windowed", Name("low-kaiser", p), [=] { return Of(DesignFilter<T, TIME_DOMAIN>(15, Fir.Lowpass.Windowed.Cutoff(c).Window(windows::kaiser.alpha(p)))); });
		Add<T>(a, "fir-windowed", Name("hilbert-gaussian", p), [=] { return Of(DesignFilter<T, TIME_DOMAIN>(15, Fir.Hilbert.Windowed.Window(windows::gaussian.sigma(p)))); });
	}
	for (int v = 0; v < VARIANTS; ++v) {
		Add<T>(a, "fir-windowed", Name("low-user", v), [=] { return Of(DesignFilter<T, TIME_DOMAIN>(15, Fir.Lowpass.Windowed.Cutoff(c).Window(Own(Data<T, 0>(15, 1, v))))); });
		Add<T>(a, "fir-windowed", Name("high-user", v), [=] { return Of(DesignFilter<T, TIME_DOMAIN>(15, Fir.Highpass.Windowed.Cutoff(c).Window(Own(Data<T, 0>(15, 1, v))))); });
	}
	Add<T>(a, "fir-windowed", "refused", [] { try { (void)DesignFilter<T, TIME_DOMAIN>(15, Fir.Lowpass.Windowed.Cutoff(T(1.5))); } catch (const std::exception&) { return Of(1); } return Of(0); });
	Add<T>(a, "fir-least-squares", "refused", [] { try { (void)DesignFilter<T, TIME_DOMAIN>(9, Fir.Bandpass.LeastSquares.Band(T(0.3), T(0.2), T(0.6), T(0.7))); } catch (const std::exception&) { return Of(1); } return Of(0); });
	const T b = T(0.4);
	for (size_t n : { 8, 9, 10 }) {
		const bool all = n == 9;
		for (T p : all ? Near<T>(c) : std::vector<T>{ c }) {
			Add<T>(a, "fir-least-squares", Name("low", n, p), [=] { return Of(DesignFilter<T, TIME_DOMAIN>(n, Fir.Lowpass.LeastSquares.Cutoff(p, b))); });
			Add<T>(a, "fir-least-squares", Name("high", n, p), [=] { return Of(DesignFilter<T, TIME_DOMAIN>(n, Fir.Highpass.LeastSquares.Cutoff(p, b))); });
			Add<T>(a, "fir-least-squares", Name("bandpass", n, p), [=] { return Of(DesignFilter<T, TIME_DOMAIN>(n, Fir.Bandpass.LeastSquares.Band(p, b, T(0.6), T(0.7)))); });
			Add<T>(a, "fir-least-squares", Name("bandstop", n, p), [=] { return Of(DesignFilter<T, TIME_DOMAIN>(n, Fir.Bandstop.LeastSquares.Band(p, b, T(0.6), T(0.7)))); });
			Add<T>(a, "fir-least-squares", Name("arbitrary", n, p), [=] { return Of(DesignFilter<T, TIME_DOMAIN>(n, Fir.Arbitrary.LeastSquares.Response(Slope<T>{ p }))); });
			Add<T>(a, "fir-least-squares", Name("arbitrary-weight", n, p), [=] { return Of(DesignFilter<T, TIME_DOMAIN>(n, Fir.Arbitrary.LeastSquares.Response(Slope<T>{ T(1) }).Weight(Slope<T>{ p }))); });
			Add<T>(a, "fir-least-squares", Name("low-weight", n, p), [=] { return Of(DesignFilter<T, TIME_DOMAIN>(n, Fir.Lowpass.LeastSquares.Cutoff(c, b).Weight(T(1), T(0), p))); });
			Add<T>(a, "fir-least-squares", Name("low-weight-pass", n, p), [=] { return Of(DesignFilter<T, TIME_DOMAIN>(n, Fir.Lowpass.LeastSquares.Cutoff(c, b).Weight(p, T(0.5), T(1)))); });
			Add<T>(a, "fir-least-squares", Name("hilbert", n, p), [=] { return Of(DesignFilter<T, TIME_DOMAIN>(n, Fir.Hilbert.LeastSquares.TransitionWidth(p))); });
		}
	}
	for (T p : Near<T>(c)) {
		Add<T>(a, "fir-least-squares", Name("band-weight", p), [=] { return Of(DesignFilter<T, TIME_DOMAIN>(9, Fir.Bandpass.LeastSquares.Band(c, b, T(0.6), T(0.7)).Weight(T(1), T(0), p, T(0.25), T(2)))); });
		Add<T>(a, "fir-least-squares", Name("hilbert-weight", p), [=] { return Of(DesignFilter<T, TIME_DOMAIN>(9, Fir.Hilbert.LeastSquares.TransitionWidth(c).TransitionWeight(p))); });
	}
	for (auto [lo, hi] : { std::pair<T, T>{ T(1), T(4) }, { T(4), T(1) }, { T(2), T(3) }, { T(2), T(2) } }) {
		Add<T>(a, "fir-least-squares", Name("arbitrary-steps", lo, hi), [lo = lo, hi = hi] { return Of(DesignFilter<T, TIME_DOMAIN>(9, Fir.Arbitrary.LeastSquares.Response(Steps<T>{ lo, hi }))); });
		Add<T>(a, "fir-least-squares", Name("weight-steps", lo, hi), [lo = lo, hi = hi] { return Of(DesignFilter<T, TIME_DOMAIN>(9, Fir.Arbitrary.LeastSquares.Response(Slope<T>{ T(1) }).Weight(Steps<T>{ lo, hi }))); });
		Add<T>(a, "fir-least-squares", Name("low-weights", lo, hi), [lo = lo, hi = hi] { return Of(DesignFilter<T, TIME_DOMAIN>(9, Fir.Lowpass.LeastSquares.Cutoff(T(0.3), T(0.4)).Weight(lo, T(1), hi))); });
	}
	// Equal products of the filter's length, or of its coefficients, and the grid.
	for (auto [n, grid] : { std::pair<size_t, size_t>{ 9, 120 }, { 15, 72 }, { 10, 108 }, { 10, 120 } })
		Add<T>(a, "fir-least-squares", Name("grid-product", n, grid), [n = n, grid = grid] { return Of(DesignFilter<T, TIME_DOMAIN>(n, Fir.Lowpass.LeastSquares.Cutoff(T(0.3), T(0.4)).Grid(grid))); });
	for (size_t grid : { 40, 41, 296 }) Add<T>(a, "fir-least-squares", Name("grid", grid), [=] { return Of(DesignFilter<T, TIME_DOMAIN>(9, Fir.Lowpass.LeastSquares.Cutoff(c, b).Grid(grid))); });
	for (T p : Near<T>(b)) {
		Add<T>(a, "fir-least-squares", Name("low-end", p), [=] { return Of(DesignFilter<T, TIME_DOMAIN>(9, Fir.Lowpass.LeastSquares.Cutoff(c, p))); });
		Add<T>(a, "fir-least-squares", Name("bandpass-inner", p), [=] { return Of(DesignFilter<T, TIME_DOMAIN>(9, Fir.Bandpass.LeastSquares.Band(c, p, T(0.6), T(0.7)))); });
		Add<T>(a, "fir-least-squares", Name("bandstop-upper", p), [=] { return Of(DesignFilter<T, TIME_DOMAIN>(9, Fir.Bandstop.LeastSquares.Band(T(0.1), T(0.2), T(0.3), p))); });
	}
}
#endif

#ifdef HIST_IIR
template <class T>
void IirCalls(Alphabet& a) {
	const T c = T(0.3), h = T(0.6), rp = T(0.1), rs = T(0.05);
	for (size_t n : { 4, 6 }) {
		const bool all = n == 4;
		for (T p : all ? Near<T>(c) : std::vector<T>{ c }) {
			const auto low = [=](auto d) { return Roots(DesignFilter<T>(n, d.Cutoff(p))); };
			const auto band = [=](auto d) { return Roots(DesignFilter<T>(n, d.Band(p, h))); };
#define IIR_ALL(NAME, DESC)                                                                                  \
	Add<T>(a, "iir-" NAME, Name("low", n, p), [=] { return low(Iir.Lowpass.DESC); });                          \
	Add<T>(a, "iir-" NAME, Name("high", n, p), [=] { return low(Iir.Highpass.DESC); });                        \
	Add<T>(a, "iir-" NAME, Name("bandpass", n, p), [=] { return band(Iir.Bandpass.DESC); });                   \
	Add<T>(a, "iir-" NAME, Name("bandstop", n, p), [=] { return band(Iir.Bandstop.DESC); });
			IIR_ALL("butterworth", Butterworth)
			IIR_ALL("chebyshev1", Chebyshev1.PassbandRipple(rp))
			IIR_ALL("chebyshev2", Chebyshev2.StopbandRipple(rs))
			IIR_ALL("elliptic", Elliptic.PassbandRipple(rp).StopbandRipple(rs))
#undef IIR_ALL
		}
		for (T p : Near<T>(rp)) {
			if (!all && p != rp) continue;
			Add<T>(a, "iir-chebyshev1", Name("ripple", n, p), [=] { return Roots(DesignFilter<T>(n, Iir.Lowpass.Chebyshev1.Cutoff(c).PassbandRipple(p))); });
			Add<T>(a, "iir-chebyshev2", Name("ripple", n, p), [=] { return Roots(DesignFilter<T>(n, Iir.Lowpass.Chebyshev2.Cutoff(c).StopbandRipple(p))); });
			Add<T>(a, "iir-elliptic", Name("passband", n, p), [=] { return Roots(DesignFilter<T>(n, Iir.Lowpass.Elliptic.Cutoff(c).PassbandRipple(p).StopbandRipple(rs))); });
			Add<T>(a, "iir-elliptic", Name("stopband", n, p), [=] { return Roots(DesignFilter<T>(n, Iir.Lowpass.Elliptic.Cutoff(c).PassbandRipple(rp).StopbandRipple(p))); });
			Add<T>(a, "iir-elliptic", Name("band-stopband", n, p), [=] { return Roots(DesignFilter<T>(n, Iir.Bandpass.Elliptic.Band(c, h).PassbandRipple(rp).StopbandRipple(p))); });
		}
		Add<T>(a, "iir-elliptic", Name("swapped-ripples", n), [=] { return Roots(DesignFilter<T>(n, Iir.Lowpass.Elliptic.Cutoff(c).PassbandRipple(rs).StopbandRipple(rp))); });
	}
	for (size_t n : { 3, 5 })
		for (int f = 0; f < 4; ++f)
			Add<T>(a, f == 0 ? "iir-butterworth" : f == 1 ? "iir-chebyshev1" : f == 2 ? "iir-chebyshev2" : "iir-elliptic", Name("odd", n), [=] {
				switch (f) {
					case 0: return Roots(DesignFilter<T>(n, Iir.Lowpass.Butterworth.Cutoff(c)));
					case 1: return Roots(DesignFilter<T>(n, Iir.Lowpass.Chebyshev1.Cutoff(c).PassbandRipple(rp)));
					case 2: return Roots(DesignFilter<T>(n, Iir.Lowpass.Chebyshev2.Cutoff(c).StopbandRipple(rs)));
					default: return Roots(DesignFilter<T>(n, Iir.Lowpass.Elliptic.Cutoff(c).PassbandRipple(rp).StopbandRipple(rs)));
				}
			});
}
#endif

#ifdef HIST_TRANSFORMS
template <class T>
void TransformCalls(Alphabet& a) {
	const auto system = [](int v) {
		const T e = v == 1 ? T(0.5) : v == 2 ? T(0.25) * (T(1) + (sizeof(T) == 4 ? T(3e-6L) : T(2e-9L))) : T(0.25);
		return DiscreteZeroPoleGain<T>{ v == 3 ? T(2) : T(1.5), { T(-1), v == 4 ? T(0.5) : T(-1) }, { std::complex<T>(e, T(0.5)), std::complex<T>(e, T(-0.5)) } };
	};
	for (int v = 0; v < 5; ++v)
		for (T p : v == 0 ? Near<T>(T(0.3)) : std::vector<T>{ T(0.3) }) {
			Add<T>(a, "transform", Name("low", v, p), [=] { return Roots(Halfband2Lowpass(system(v), p)); });
			Add<T>(a, "transform", Name("high", v, p), [=] { return Roots(Halfband2Highpass(system(v), p)); });
			Add<T>(a, "transform", Name("bandpass", v, p), [=] { return Roots(Halfband2Bandpass(system(v), p, T(0.6))); });
			Add<T>(a, "transform", Name("bandstop", v, p), [=] { return Roots(Halfband2Bandstop(system(v), p, T(0.6))); });
			Add<T>(a, "transform", Name("bilinear", v, p), [=] {
				const auto d = system(v);
				return Roots(BilinearTransform(ContinuousZeroPoleGain<T>{ d.gain, d.zeros, d.poles }, T(48) * p));
			});
			Add<T>(a, "transform", Name("bilinear-warped", v, p), [=] {
				const auto d = system(v);
				return Roots(BilinearTransform(ContinuousZeroPoleGain<T>{ d.gain, d.zeros, d.poles }, T(2), std::optional<T>(p)));
			});
		}
	for (auto [lo, hi] : { std::pair<T, T>{ T(0.25), T(0.75) }, { T(0.375), T(0.625) }, { T(0.3), T(0.625) }, { T(0.125), T(0.625) } }) {
		Add<T>(a, "transform", Name("bandpass", lo, hi), [=, lo = lo, hi = hi] { return Roots(Halfband2Bandpass(system(0), lo, hi)); });
		Add<T>(a, "transform", Name("bandstop", lo, hi), [=, lo = lo, hi = hi] { return Roots(Halfband2Bandstop(system(0), lo, hi)); });
	}
}
#endif

#ifdef HIST_ELLIPTIC
template <class T>
void EllipticCalls(Alphabet& a) {
	using C = std::complex<T>;
	for (T s : { T(0.5), T(0.875) })
		for (T k : Near<T>(s))
			for (T x : { T(0.75), T(-2.5) }) {
				Add<T>(a, "elliptic", Name("am", k, x), [=] { return Of(EllipticAM(x, k)); });
				Add<T>(a, "elliptic", Name("sncndn", k, x), [=] { const auto [sn, cn, dn] = EllipticSNCNDN(x, k); return Of(sn, cn, dn); });
				if (x < 0) continue;
				Add<T>(a, "elliptic", Name("K", k), [=] { return Of(EllipticK(k)); });
				Add<T>(a, "elliptic", Name("arcsn", k, x), [=] { return Of(EllipticArcSN(x, k)); });
				Add<T>(a, "elliptic", Name("arccn", k, x), [=] { return Of(EllipticArcCN(x, k)); });
				Add<T>(a, "elliptic", Name("arcdn", k, x), [=] { return Of(EllipticArcDN(T(0.96875), k)); });
				Add<T>(a, "elliptic", Name("complex", k, x), [=] { const auto [sn, cn, dn] = EllipticSNCNDN(C(x, T(0.5)), k); return Of(sn, cn, dn); });
			}
	for (T x : Near<T>(T(0.75))) {
		Add<T>(a, "elliptic", Name("am-argument", x), [=] { return Of(EllipticAM(x, T(0.5))); });
		Add<T>(a, "elliptic", Name("sn-argument", x), [=] { return Of(EllipticSN(x, T(0.5)), EllipticCN(x, T(0.5)), EllipticDN(x, T(0.5))); });
		Add<T>(a, "elliptic", Name("arcsn-argument", x), [=] { return Of(EllipticArcSN(x, T(0.5))); });
		Add<T>(a, "elliptic", Name("complex-argument", x), [=] { return Of(EllipticSN(C(x, T(0.5)), T(0.5)), EllipticCN(C(T(0.5), x), T(0.5))); });
		Add<T>(a, "elliptic", Name("RF", x), [=] { return Of(CarlsonRF(x, T(1), T(2)), CarlsonRF(T(1), x, T(2)), CarlsonRF(T(1), T(2), x)); });
	}
	// The modulus only counts by its square, the functions are odd or even.
	Add<T>(a, "elliptic", "negative-modulus", [=] { return Of(EllipticSN(T(0.75), T(-0.5)), EllipticDN(T(-0.75), T(0.5))); });
	Add<T>(a, "elliptic", "modulus-beyond-one", [=] { return Of(EllipticSN(T(0.75), T(2)), EllipticAM(T(0.5), T(0)), EllipticSN(T(0.5), T(1))); });
}
#endif

#ifdef HIST_CONV
template <class T>
void ConvCalls(Alphabet& a) {
	for (int vu = 0; vu < VARIANTS; ++vu)
		for (int vv = 0; vv < VARIANTS; ++vv) {
			if (vu && vv) continue;
			const auto u = [=](size_t n) { return Data<T, 0>(n, 1, vu); };
			const auto v = [=](size_t n) { return Data<T, 1>(n, 2, vv); };
			Add<T>(a, "convolution", Name("short", vu, vv), [=] { auto o = Out<T>(30); Convolution(o, u(24), v(7), CONV_FULL); return Of(o); });
			Add<T>(a, "convolution", Name("long", vu, vv), [=] { auto o = Out<T>(139); Convolution(o, u(100), v(40), CONV_FULL); return Of(o); });
			Add<T>(a, "convolution", Name("overlap-add", vu, vv), [=] { auto o = Out<T>(30); OverlapAdd(o, u(24), v(7), CONV_FULL, 16); return Of(o); });
			Add<T>(a, "convolution", Name("overlap-add-automatic", vu, vv), [=] { auto o = Out<T>(94); OverlapAdd(o, u(100), v(7), CONV_CENTRAL); return Of(o); });
			Add<T>(a, "convolution", Name("filter", vu, vv), [=] { return Of(Filter(u(24), v(7), CONV_FULL, FILTER_OLA, 16), Filter(u(24), v(7), CONV_CENTRAL, FILTER_CONV)); });
			Add<T>(a, "convolution", Name("filter-stream", vu, vv), [=] {
				Sig<T> state(6, T(0));
				Values r = Of(Filter(u(24).first(10), v(7), state, FILTER_OLA));
				Put(r, Filter(u(24).last(14), v(7), state, FILTER_CONV));
				Put(r, state);
				return r;
			});
		}
	// Other windows and chunks of the same operands, and of operands of other sizes at the same place.
	for (size_t chunk : { 13, 16, 17, 272, 32 }) Add<T>(a, "convolution", Name("overlap-add-chunk", chunk), [=] { auto o = Out<T>(30); OverlapAdd(o, Data<T, 0>(24, 1), Data<T, 1>(7, 2), CONV_FULL, chunk); return Of(o); });
	for (size_t offset : { 0, 1, 5, 12 }) {
		Add<T>(a, "convolution", Name("overlap-add-offset", offset), [=] { auto o = Out<T>(10); OverlapAdd(o, Data<T, 0>(24, 1), Data<T, 1>(7, 2), offset, 16); return Of(o); });
		Add<T>(a, "convolution", Name("offset", offset), [=] { auto o = Out<T>(10); Convolution(o, Data<T, 0>(24, 1), Data<T, 1>(7, 2), offset); return Of(o); });
	}
	for (size_t n : { 5, 6, 8 }) {
		Add<T>(a, "convolution", Name("overlap-add-filter-size", n), [=] { auto o = Out<T>(24 + n - 1); OverlapAdd(o, Data<T, 0>(24, 1), Data<T, 1>(n, 2), CONV_FULL, 16); return Of(o); });
		Add<T>(a, "convolution", Name("overlap-add-signal-size", n), [=] { auto o = Out<T>(n + 6); OverlapAdd(o, Data<T, 0>(n, 1), Data<T, 1>(7, 2), CONV_FULL, 16); return Of(o); });
	}
	Add<T>(a, "convolution", "accumulate", [=] { auto o = Out<T>(30); OverlapAdd(o, Data<T, 0>(24, 1), Data<T, 1>(7, 2), CONV_FULL, 16, false); Convolution(o, Data<T, 0>(24, 1), Data<T, 1>(7, 2), CONV_FULL, false); return Of(o); });
	Add<T>(a, "convolution", "swapped", [=] { auto o = Out<T>(30); OverlapAdd(o, Data<T, 1>(7, 2), Data<T, 0>(24, 1), CONV_FULL, 47); return Of(o); });
}
#endif

#ifdef HIST_RESAMPLE
template <class T>
void ResampleCalls(Alphabet& a) {
	for (int vx = 0; vx < VARIANTS; ++vx)
		for (int vf = 0; vf < VARIANTS; ++vf) {
			if (vx && vf) continue;
			const auto x = [=](size_t n) { return Data<T, 0>(n, 1, vx); };
			const auto f = [=](size_t n) { return Own(Data<T, 1>(n, 2, vf)); };
			Add<T>(a, "resample", Name("resample", vx, vf), [=] { auto o = Out<T>(12); const auto s = Resample(o, x(20), PolyphaseDecompose(f(9), 3), { 5, 7 }, { 1, 2 }); return Of(o, s.firstInputSample); });
			Add<T>(a, "resample", Name("interpolate", vx, vf), [=] { auto o = Out<T>(30); const auto s = Interpolate(o, x(20), PolyphaseDecompose(f(9), 3), 4); return Of(o, s.firstInputSample, s.startPoint); });
			Add<T>(a, "resample", Name("polyphase", vx, vf), [=] { const auto p = PolyphaseNormalized(PolyphaseDecompose(f(9), 2)); return Of(p[0], p[1], p.size_original()); });
			if (!vf) {
				Add<T>(a, "resample", Name("decimate", vx), [=] { auto o = Out<T>(7); Decimate(o, x(20), 3); return Of(o); });
				Add<T>(a, "resample", Name("expand", vx), [=] { auto o = Out<T>(60); Expand(o, x(20), 3); return Of(o); });
			}
		}
	const auto x = [] { return Data<T, 0>(20, 1); };
	const auto f = [](size_t n) { return Own(Data<T, 1>(n, 2)); };
	// Rates and start points that agree as floats or in reduced form, sizes and phase counts next to each other.
	for (auto [n, d] : { std::pair<int64_t, int64_t>{ 5, 7 }, { 10, 14 }, { 7, 5 }, { 500000001, 700000001 }, { 500000000, 700000001 }, { 5, 8 } })
		Add<T>(a, "resample", Name("rate", size_t(n), size_t(d)), [=, n = n, d = d] { auto o = Out<T>(8); Resample(o, x(), PolyphaseDecompose(f(9), 3), { n, d }, { 1, 2 }); return Of(o); });
	for (auto [n, d] : { std::pair<int64_t, int64_t>{ 0, 1 }, { 1, 2 }, { 2, 4 }, { 500000001, 1000000000 }, { 3, 2 } })
		Add<T>(a, "resample", Name("start", size_t(n), size_t(d)), [=, n = n, d = d] { auto o = Out<T>(8); Resample(o, x(), PolyphaseDecompose(f(9), 3), { 5, 7 }, { n, d }); return Of(o); });
	for (size_t phases : { 1, 2, 3, 4, 9 }) {
		Add<T>(a, "resample", Name("phases", phases), [=] { auto o = Out<T>(8); Resample(o, x(), PolyphaseDecompose(f(9), phases), { 5, 7 }, { 1, 2 }); return Of(o); });
		Add<T>(a, "resample", Name("interpolate-phases", phases), [=] { auto o = Out<T>(16); Interpolate(o, x(), PolyphaseDecompose(f(9), phases), 4); return Of(o); });
	}
	for (size_t taps : { 8, 10 }) Add<T>(a, "resample", Name("taps", taps), [=] { auto o = Out<T>(8); Resample(o, x(), PolyphaseDecompose(f(taps), 3), { 5, 7 }, { 1, 2 }); return Of(o); });
	for (size_t offset : { 0, 3, 5 }) Add<T>(a, "resample", Name("interpolate-offset", offset), [=] { auto o = Out<T>(16); Interpolate(o, x(), PolyphaseDecompose(f(9), 3), offset); return Of(o); });
}
#endif

#if defined(HIST_STATS) || defined(HIST_ARITHMETIC)
template <class T>
void StatsCalls(Alphabet& a) {
	for (size_t n : { 19, 20 })
		for (int v = 0; v < VARIANTS; ++v) {
			if (n == 19 && v) continue;
			const auto x = [=] { return Data<T, 0>(n, 1, v); };
			const auto y = [=] { return Data<T, 1>(n, 2); };
#ifdef HIST_STATS
			Add<T>(a, "statistics", Name("mean", n, v), [=] { return Of(Mean(x()), Sum(x()), SumSquare(x()), MeanSquare(x()), RootMeanSquare(x()), Norm(x())); });
			Add<T>(a, "statistics", Name("deviation", n, v), [=] { return Of(Variance(x()), StandardDeviation(x()), Skewness(x()), Kurtosis(x())); });
			Add<T>(a, "statistics", Name("corrected", n, v), [=] { return Of(CorrectedVariance(x()), CorrectedStandardDeviation(x()), CorrectedSkewness(x()), CorrectedKurtosis(x())); });
			for (size_t k : { 2, 3, 5 }) Add<T>(a, "statistics", Name("moment", n, v, k), [=] { return Of(CentralMoment(x(), k), StandardizedMoment(x(), k)); });
			Add<T>(a, "statistics", Name("extremes", n, v), [=] { return Of(Max(x()), Min(x())); });
			Add<T>(a, "statistics", Name("covariance", n, v), [=] { return Of(Covariance(x(), y()), Correlation(x(), y()), Covariance(y(), x()), CorrectedCovariance(x(), y())); });
			Add<T>(a, "statistics", Name("dot", n, v), [=] { return Of(DotProduct(x(), y())); });
#endif
#ifdef HIST_ARITHMETIC
			Add<T>(a, "arithmetic", Name("operators", n, v), [=] { return Of(x() + y(), x() * y(), x() - T(3), T(3) / x()); });
			Add<T>(a, "arithmetic", Name("functions", n, v), [=] { return Of(Exp(x()), Sin(x()), Tanh(x()), Log(Abs(x())), Sqrt(Abs(x())), Pow(Abs(x()), T(2.5))); });
			Add<T>(a, "arithmetic", Name("special", n, v), [=] { return Of(Erf(x()), TGamma(Abs(x()) * T(0.25)), Atan(x()), Cbrt(x())); });
#endif
		}
#ifdef HIST_ARITHMETIC
	for (T p : Near<T>(T(2.5))) Add<T>(a, "arithmetic", Name("scalar", p), [=] { auto x = Data<T, 0>(20, 1); return Of(x * p, p / x, Pow(Abs(x), p)); });
#endif
}
#endif

#ifdef HIST_WAVES
template <class T>
void WaveCalls(Alphabet& a) {
	struct P { uint64_t rate; double f, phase, shape; };
	std::vector<P> ps;
	for (double f : Near<double>(7)) ps.push_back({ 100, f, 0.3, 0.4 });
	for (double p : Near<double>(0.3)) ps.push_back({ 100, 7, p, 0.4 });
	for (double s : Near<double>(0.4)) ps.push_back({ 100, 7, 0.3, s });
	for (uint64_t r : { 101ull, 356ull, 4294967396ull }) ps.push_back({ r, 7, 0.3, 0.4 });
	ps.push_back({ 100, -7, 0.3, 0.4 });
	ps.push_back({ 100, 7, -0.3, 0.4 });
	ps.push_back({ 200, 14, 0.3, 0.4 }); // the same ratio
	for (const P& p : ps) {
		const auto name = [&](const char* w) { return Name(w, size_t(p.rate), p.f, p.phase, p.shape); };
		Add<T>(a, "waveform", name("sine"), [=] { auto o = Out<T>(40); SineWave(o, p.rate, p.f, p.phase); return Of(o); });
		Add<T>(a, "waveform", name("sawtooth"), [=] { auto o = Out<T>(40); SawtoothWave(o, p.rate, p.f, p.phase, p.shape); return Of(o); });
		Add<T>(a, "waveform", name("pwm"), [=] { auto o = Out<T>(40); PwmWave(o, p.rate, p.f, p.phase, p.shape); return Of(o); });
		Add<T>(a, "waveform", name("square"), [=] { auto o = Out<T>(40); SquareWave(o, p.rate, p.f, p.phase); return Of(o); });
		Add<T>(a, "waveform", name("chirp"), [=] { auto o = Out<T>(40); SineChirp(o, p.rate, p.f, 12.0, p.phase); return Of(o); });
		Add<T>(a, "waveform", name("chirp-down"), [=] { auto o = Out<T>(40); SawtoothChirp(o, p.rate, 12.0, p.f, p.phase, p.shape); return Of(o); });
	}
	for (size_t n : NearSizes(20)) {
		Add<T>(a, "waveform", Name("length", n), [=] { auto o = Out<T>(n); SineChirp(o, 100, 2.0, 9.0, 0.1); return Of(o); });
	}
}
#endif

#ifdef HIST_SPACES
template <class T>
void SpaceCalls(Alphabet& a) {
	for (size_t n : NearSizes(20)) {
		for (bool inclusive : { false, true }) {
			Add<T>(a, "space", Name("lin", n, int(inclusive)), [=] { return Of(LinSpace<T, TIME_DOMAIN>(T(1), T(4), n, inclusive)); });
			Add<T>(a, "space", Name("log", n, int(inclusive)), [=] { return Of(LogSpace<T, TIME_DOMAIN>(T(0), T(2), n, T(10), inclusive)); });
		}
	}
	for (T p : Near<T>(T(3))) {
		Add<T>(a, "space", Name("lin-start", p), [=] { return Of(LinSpace<T, TIME_DOMAIN>(p, T(4), 20)); });
		Add<T>(a, "space", Name("lin-end", p), [=] { return Of(LinSpace<T, TIME_DOMAIN>(T(1), p, 20)); });
		Add<T>(a, "space", Name("log-start", p), [=] { return Of(LogSpace<T, TIME_DOMAIN>(p, T(4), 20)); });
		Add<T>(a, "space", Name("log-end", p), [=] { return Of(LogSpace<T, TIME_DOMAIN>(T(1), p, 20)); });
		Add<T>(a, "space", Name("log-base", p), [=] { return Of(LogSpace<T, TIME_DOMAIN>(T(1), T(2), 20, p)); });
	}
}
#endif

#ifdef HIST_SYSTEMS
template <class T>
void SystemCalls(Alphabet& a) {
	using C = std::complex<T>;
	const T d = sizeof(T) == 4 ? T(3e-6L) : T(2e-9L);
	const auto zpk = [=](int v) {
		const T e = v == 1 ? T(0.25) * (1 + d) : v == 2 ? T(0.5) : T(0.25);
		DiscreteZeroPoleGain<T> z{ v == 3 ? T(2) * (1 + d) : T(2), { v == 4 ? T(0.5) : T(0.375), T(-0.25), C(T(0.125), T(0.25)), C(T(0.125), T(-0.25)) }, { C(e, T(0.5)), C(e, T(-0.5)), T(0.3125), v == 5 ? T(-0.5) : T(-0.625) } };
		return z;
	};
	for (int v = 0; v < 6; ++v) {
		Add<T>(a, "system", Name("function", v), [=] { const auto t = DiscreteTransferFunction<T>(zpk(v)); return Of(t.numerator.coefficients(), t.denominator.coefficients(), t(C(T(0.5), T(0.75))), t.order()); });
		Add<T>(a, "system", Name("cascade", v), [=] { Values r; for (auto& s : CascadedBiquad<T>(zpk(v)).sections) { Put(r, s.numerator); Put(r, s.denominator); } return r; });
		Add<T>(a, "system", Name("value", v), [=] { return Of(zpk(v)(C(T(0.5), T(0.75))), CascadedBiquad<T>(zpk(v))(C(T(0.5), T(0.75)))); });
		Add<T>(a, "system", Name("direct1", v), [=] { const auto t = DiscreteTransferFunction<T>(zpk(v)); DirectFormI<T> f(t.order()); return Of(Filter(Data<T, 0>(30, 1), t, f), Filter(Data<T, 0>(11, 2), t, f)); });
		Add<T>(a, "system", Name("direct2", v), [=] { const auto t = DiscreteTransferFunction<T>(zpk(v)); DirectFormII<T> f(t.order()); return Of(Filter(Data<T, 0>(30, 1), t, f), Filter(Data<T, 0>(11, 2), t, f)); });
		Add<T>(a, "system", Name("cascaded", v), [=] { const auto t = CascadedBiquad<T>(zpk(v)); CascadedForm<T> f(t.order()); return Of(Filter(Data<T, 0>(30, 1), t, f), Filter(Data<T, 0>(11, 2), t, f)); });
		Add<T>(a, "system", Name("response", v), [=] { const auto [m, p] = FrequencyResponse(DiscreteTransferFunction<T>(zpk(v)), 40); return Of(m, p); });
		Add<T>(a, "system", Name("polynomial", v), [=] { return Of(ExpandPolynomial(zpk(v).poles).coefficients(), zpk(v).zeros(T(0.75)), zpk(v).poles(C(T(0.5), T(0.25)))); });
	}
	for (int v = 0; v < VARIANTS; ++v) {
		Add<T>(a, "system", Name("input-direct1", v), [=] { const auto t = DiscreteTransferFunction<T>(zpk(0)); DirectFormI<T> f(t.order()); return Of(Filter(Data<T, 0>(30, 1, v), t, f)); });
		Add<T>(a, "system", Name("input-cascaded", v), [=] { const auto t = CascadedBiquad<T>(zpk(0)); CascadedForm<T> f(t.order()); return Of(Filter(Data<T, 0>(30, 1, v), t, f)); });
	}
	for (T x : Near<T>(T(0.75))) {
		Add<T>(a, "system", Name("evaluate", x), [=] { return Of(Polynomial<T>{ T(1), T(-2), T(3) }(x), Polynomial<T>{ T(1), T(-2), T(3) }(C(T(0.5), x)), zpk(0)(C(T(0.5), x)), zpk(0)(x)); });
		Add<T>(a, "system", Name("coefficient", x), [=] { return Of(Polynomial<T>{ T(1), T(-2), x }(T(1.5)), Polynomial<T>{ T(1), x, T(3) }(T(1.5))); });
	}
	for (size_t n : NearSizes(40)) Add<T>(a, "system", Name("response-grid", n), [=] { const auto [m, p] = FrequencyResponse(DiscreteTransferFunction<T>(zpk(0)), n); return Of(m, p); });
}
#endif

#ifdef HIST_SOLVERS
template <class T>
void SolverCalls(Alphabet& a) {
	// Functions of one type that differ in what they hold, brackets and starting points next to each other.
	for (T r : Near<T>(T(1.25))) {
		const auto f = [r](T x) { return x * x - r; };
		Add<T>(a, "solver", Name("bisect", r), [=] { return Of(Bisect(f, T(0), T(2))); });
		Add<T>(a, "solver", Name("newton", r), [=] { return Of(NewtonRaphson(f, [](T x) { return 2 * x; }, T(1))); });
		Add<T>(a, "solver", Name("bisect-end", r), [=] { return Of(Bisect([](T x) { return x * x - T(0.75); }, T(0), r)); });
		Add<T>(a, "solver", Name("newton-start", r), [=] { return Of(NewtonRaphson([](T x) { return x * x - T(0.75); }, [](T x) { return 2 * x; }, r)); });
	}
}
#endif

#ifdef HIST_MEASURE
template <class T>
void MeasureCalls(Alphabet& a) {
	for (size_t n : NearSizes(40)) Add<T>(a, "response", Name("grid", n), [=] { const auto [m, p] = FrequencyResponse(Data<T, 0>(7, 1), n); return Of(m, p); });
	for (int v = MIDDLE; v < VARIANTS; ++v) Add<T>(a, "response", Name("contents", v), [=] { const auto [m, p] = FrequencyResponse(Data<T, 0>(7, 1, v), 40); return Of(m, p); });
	for (size_t n : { 6, 8 }) Add<T>(a, "response", Name("taps", n), [=] { const auto [m, p] = FrequencyResponse(Data<T, 0>(n, 1), 40); return Of(m, p); });
	// Responses at the same place: a step at different positions, and with different ripple.
	const auto response = [](int kind, size_t edge, T ripple) {
		T* p = Fixed<T, 3>();
		for (size_t i = 0; i < 512; ++i) {
			const bool pass = kind == 0 ? i < edge : i >= edge;
			p[i] = pass ? T(1) + ripple * std::sin(T(i) * T(0.2)) : T(0.01) + T(0.005) * std::cos(T(i) * T(0.2));
		}
		return AsConstView<FREQUENCY_DOMAIN>(static_cast<const T*>(p), static_cast<const T*>(p) + 512);
	};
	for (int kind : { 0, 1 })
		for (auto [edge, ripple] : { std::pair<size_t, T>{ 200, T(0.02) }, { 201, T(0.02) }, { 200, T(0.0201) }, { 300, T(0.02) } }) {
			Add<T>(a, "response", Name("measure", kind, edge, ripple), [=, edge = edge, ripple = ripple] {
				const auto m = MeasureFilter(response(kind, edge, ripple));
				Values r = Of(m.index());
				if (auto p = std::get_if<LowpassParameters<T>>(&m)) Put(r, Of(p->passbandEdge, p->stopbandEdge, p->passbandRipple, p->stopbandAtten));
				if (auto p = std::get_if<HighpassParameters<T>>(&m)) Put(r, Of(p->passbandEdge, p->stopbandEdge, p->passbandRipple, p->stopbandAtten));
				return r;
			});
		}
	for (T f : Near<T>(T(1000))) Add<T>(a, "response", Name("frequency", f), [=] { return Of(NormalizedFrequency(f, T(44100))); });
}
#endif

// Everything selected, in double and, where it can make a difference, in float.
template <class T>
void AddCalls(Alphabet& a) {
#ifdef HIST_FFT
	FftCalls<T>(a);
#endif
#ifdef HIST_WINDOWS
	WindowCalls<T>(a);
#endif
#ifdef HIST_FIR
	FirCalls<T>(a);
#endif
#ifdef HIST_IIR
	IirCalls<T>(a);
#endif
#ifdef HIST_TRANSFORMS
	TransformCalls<T>(a);
#endif
#ifdef HIST_ELLIPTIC
	EllipticCalls<T>(a);
#endif
#ifdef HIST_CONV
	ConvCalls<T>(a);
#endif
#ifdef HIST_RESAMPLE
	ResampleCalls<T>(a);
#endif
#if defined(HIST_STATS) || defined(HIST_ARITHMETIC)
	StatsCalls<T>(a);
#endif
#ifdef HIST_WAVES
	WaveCalls<T>(a);
#endif
#ifdef HIST_SPACES
	SpaceCalls<T>(a);
#endif
#ifdef HIST_SYSTEMS
	SystemCalls<T>(a);
#endif
#ifdef HIST_SOLVERS
	SolverCalls<T>(a);
#endif
#ifdef HIST_MEASURE
	MeasureCalls<T>(a);
#endif
}
} // namespace hist
