// C33: running out of memory, or a user's function throwing, at any point of any call.
// Every allocation point (operator new and the C allocator, as called by the library's headers) of every call is made to
// fail in turn, once and from there on; likewise every invocation of a user's function.
// Link with -Wl,--wrap=malloc,... for the C allocator.
#include <new>
#include <dspbb/Filtering/FIR.hpp>
#include <dspbb/Filtering/IIR.hpp>
#include <dspbb/Filtering/MeasureFilter.hpp>
#include <dspbb/Filtering/Polyphase.hpp>
#include <dspbb/Filtering/Resample.hpp>
#include <dspbb/Filtering/Windowing.hpp>
#include <dspbb/Generators/Spaces.hpp>
#include <dspbb/Generators/Waveforms.hpp>
#include <dspbb/LTISystems/Systems.hpp>
#include <dspbb/Math/Convolution.hpp>
#include <dspbb/Math/DotProduct.hpp>
#include <dspbb/Math/FFT.hpp>
#include <dspbb/Math/Functions.hpp>
#include <dspbb/Math/OverlapAdd.hpp>
#include <dspbb/Math/Solvers.hpp>
#include <dspbb/Math/Statistics.hpp>
#include <dspbb/Primitives/Signal.hpp>
#include <dspbb/Primitives/SignalArithmetic.hpp>
#include <dspbb/Primitives/SignalView.hpp>
#include "ref.hpp"
using namespace dspbb;
using namespace ref;

// ---- The fault injector.
namespace fault {
static bool armed = false, sticky = false;
static long countdown = -1, seen = 0, hits = 0;
static long live = 0; // Blocks allocated and not released.
static bool Fails() {
	if (!armed) return false;
	const long i = seen++;
	if (countdown < 0 || !(sticky ? i >= countdown : i == countdown)) return false;
	++hits;
	return true;
}
static void Arm(long k, bool stick) { countdown = k, sticky = stick, seen = hits = 0, armed = true; }
static void Disarm() { armed = false; }
} // namespace fault
extern "C" {
void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void* __real_aligned_alloc(size_t, size_t);
int __real_posix_memalign(void**, size_t, size_t);
void __real_free(void*);
void* __wrap_malloc(size_t n) { if (fault::Fails()) return nullptr; void* p = __real_malloc(n); fault::live += p != nullptr; return p; }
void* __wrap_calloc(size_t m, size_t n) { if (fault::Fails()) return nullptr; void* p = __real_calloc(m, n); fault::live += p != nullptr; return p; }
void* __wrap_realloc(void* q, size_t n) { if (fault::Fails()) return nullptr; void* p = __real_realloc(q, n); fault::live += !q && p; return p; }
void* __wrap_aligned_alloc(size_t a, size_t n) { if (fault::Fails()) return nullptr; void* p = __real_aligned_alloc(a, n); fault::live += p != nullptr; return p; }
int __wrap_posix_memalign(void** r, size_t a, size_t n) { if (fault::Fails()) return 12; const int e = __real_posix_memalign(r, a, n); fault::live += !e; return e; }
void __wrap_free(void* p) { fault::live -= p != nullptr; __real_free(p); }
}
static void* New(size_t n, size_t align, bool nothrow) {
	if (fault::Fails()) { if (nothrow) return nullptr; throw std::bad_alloc{}; }
	void* p = align ? __real_aligned_alloc(align, (n + align - 1) / align * align + (n == 0 ? align : 0)) : __real_malloc(n ? n : 1);
	if (!p) { if (nothrow) return nullptr; throw std::bad_alloc{}; }
	++fault::live;
	return p;
}
static void Delete(void* p) noexcept { fault::live -= p != nullptr; __real_free(p); }
void* operator new(size_t n) { return New(n, 0, false); }
void* operator new[](size_t n) { return New(n, 0, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return New(n, 0, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return New(n, 0, true); }
void* operator new(size_t n, std::align_val_t a) { return New(n, size_t(a), false); }
void* operator new[](size_t n, std::align_val_t a) { return New(n, size_t(a), false); }
void* operator new(size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return New(n, size_t(a), true); }
void* operator new[](size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return New(n, size_t(a), true); }
void operator delete(void* p) noexcept { Delete(p); }
void operator delete[](void* p) noexcept { Delete(p); }
void operator delete(void* p, size_t) noexcept { Delete(p); }
void operator delete[](void* p, size_t) noexcept { Delete(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { Delete(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { Delete(p); }
void operator delete(void* p, std::align_val_t) noexcept { Delete(p); }
void operator delete[](void* p, std::align_val_t) noexcept { Delete(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { Delete(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { Delete(p); }
void operator delete(void* p, std::align_val_t, const std::nothrow_t&) noexcept { Delete(p); }
void operator delete[](void* p, std::align_val_t, const std::nothrow_t&) noexcept { Delete(p); }

// ---- Equality of results: a repeated call gives the very same bits.
template <class T> concept Ranged = requires(const T& t) { t.size(); t.begin(); };
template <class A>
static bool Equal(const A& a, const A& b) {
	if constexpr (requires { a.firstInputSample; }) return a.firstInputSample == b.firstInputSample && a.startPoint == b.startPoint;
	else if constexpr (requires { a.num_phases(); }) {
		bool ok = a.num_phases() == b.num_phases() && a.size_original() == b.size_original();
		for (size_t i = 0; ok && i < a.num_phases(); ++i) ok = Equal(a[i], b[i]);
		return ok;
	}
	else if constexpr (requires { a.zeros; a.poles; }) return Equal(a.gain, b.gain) && Equal(a.zeros, b.zeros) && Equal(a.poles, b.poles);
	else if constexpr (requires { a.numerator; a.denominator; }) return Equal(a.numerator, b.numerator) && Equal(a.denominator, b.denominator);
	else if constexpr (requires { a.sections; }) return Equal(a.sections, b.sections);
	else if constexpr (requires { a.real_roots(); }) return Equal(a.real_roots(), b.real_roots()) && Equal(a.complex_pairs(), b.complex_pairs());
	else if constexpr (requires { a.coefficients(); }) return Equal(a.coefficients(), b.coefficients());
	else if constexpr (requires { a.first; a.second; }) return Equal(a.first, b.first) && Equal(a.second, b.second);
	else if constexpr (Ranged<A>) {
		if (a.size() != b.size()) return false;
		auto ib = b.begin();
		for (auto ia = a.begin(); ia != a.end(); ++ia, ++ib) if (!Equal(*ia, *ib)) return false;
		return true;
	}
	else if constexpr (is_cplx<A>::value) return Equal(a.real(), b.real()) && Equal(a.imag(), b.imag());
	else return a == b || (a != a && b != b);
}
template <class T>
static void Hash(mc::Hash& h, const T& v) {
	if constexpr (std::is_arithmetic_v<T> || is_cplx<T>::value) h.add(v);
	else if constexpr (Ranged<T>) for (auto& e : v) Hash(h, e);
}

// ---- FFT plans are kept between calls; this puts the store of plans in a known state.
template <class T>
static void EvictType() {
	// More than are kept, and none that the calls need themselves.
	for (size_t n : { 10, 12, 14, 15, 18, 20, 21, 24, 25, 27, 28, 30, 35, 36, 40, 42, 45 }) {
		static Signal<T> r(45, T(1));
		static Signal<std::complex<T>> c(45, T(1));
		static Spectrum<std::complex<T>> s(45);
		Fft(AsView(s).subsignal(0, n / 2 + 1), AsConstView(r).subsignal(0, n));
		Fft(AsView(s).subsignal(0, n), AsConstView(c).subsignal(0, n));
	}
}
static bool evictFloat = true, evictDouble = true;
static void Evict() { if (evictFloat) EvictType<float>(); if (evictDouble) EvictType<double>(); }

struct UserError { long where; };
// The set of observed states grows as well, but is not the library's.
template <class... A>
static void Observe(const A&... a) { const long live = fault::live; mc::StateOf(a...); fault::live = live; }

// One call at all its allocation points. f() has to give the same result every time.
template <class F>
static void All(const char* how, F&& f, bool cold) {
	const auto want = f();
	if (cold) {
		// Only for calls that need plans.
		f();
		fault::Arm(-1, false);
		f();
		fault::Disarm();
		const long warm = fault::seen;
		Evict();
		fault::Arm(-1, false);
		f();
		fault::Disarm();
		if (fault::seen == warm) return;
		Evict();
	}
	fault::Arm(-1, false);
	{ const auto again = f(); fault::Disarm(); mc::Check(Equal(again, want), "two calls give different results"); }
	const long points = fault::seen;
	mc::Step(1 + points);
	Observe(points, int(cold));
	for (bool sticky : { false, true })
		for (long k = 0; k < points; ++k) {
			for (int round = cold ? 2 : 0; round < 3; ++round) {
				if (cold) Evict();
				const long live0 = fault::live;
				bool threw = false;
				fault::Arm(k, sticky);
				try {
					const auto got = f();
					fault::Disarm();
					mc::Check(Equal(got, want), [&] { return "allocation " + std::to_string(k) + " of " + how + " failed unnoticed, with another result"; });
				}
				catch (const std::bad_alloc&) { fault::Disarm(); threw = true; }
				catch (const std::exception& e) { fault::Disarm(); mc::Fail("allocation " + std::to_string(k) + " failed: other exception " + e.what()); }
				catch (...) { fault::Disarm(); mc::Fail("allocation " + std::to_string(k) + " failed: unknown exception"); }
				mc::Check(!threw || fault::hits > 0, "out of memory without a reason");
				if (cold) Evict();
				// Whatever a call keeps, it keeps once.
				if (cold || round == 2) mc::Check(fault::live == live0, [&] { return "allocation " + std::to_string(k) + (sticky ? " and later" : "") + " failed: " + std::to_string(fault::live - live0) + " blocks leaked"; });
			}
			// The next call is not affected.
			const auto next = f();
			mc::Check(Equal(next, want), [&] { return "a call after allocation " + std::to_string(k) + " failed gives another result"; });
		}
}
template <class F>
static void Every(const char* name, const char* type, size_t n, size_t m, F&& f) {
	for (int cold = 0; cold < 2; ++cold) {
		if (!mc::Case("call", name, type, n, m, cold ? "cold" : "warm")) continue;
		All(name, f, cold);
	}
}
// A user's function throws at each of its invocations. f(throwing) calls the library with a function that calls throwing().
template <class F>
static void EveryInvocation(const char* name, const char* type, size_t n, F&& f) {
	if (!mc::Case("user-function", name, type, n)) return;
	long calls = 0;
	const auto want = f([&] { ++calls; });
	const long points = calls;
	mc::Check(points > 0, "the user's function is never called");
	Observe(points);
	for (long k = 0; k < points; ++k) {
		const long live0 = fault::live;
		long i = 0;
		bool caught = false;
		try { f([&] { if (i++ == k) throw UserError{ k }; }); }
		catch (const UserError& e) { caught = e.where == k; }
		mc::Step();
		mc::Check(caught, [&] { return "the exception of invocation " + std::to_string(k) + " is lost"; });
		mc::Check(fault::live == live0, [&] { return "invocation " + std::to_string(k) + " throws: blocks leaked"; });
		if (k < 3 || k == points - 1) mc::Check(Equal(f([] {}), want), "a call after an exception gives another result");
	}
}
#define CALL(...) Every(#__VA_ARGS__, TypeName<T>(), n, m, [&] { return __VA_ARGS__; })
// A call that writes to an output of its own.
#define INTO(TYPE, N, ...) Every(#__VA_ARGS__, TypeName<T>(), n, m, [&, out = TYPE(N)]() mutable { __VA_ARGS__; return CopyOf(out); })
// The copy of a result, made without meeting a fault.
template <class S>
static S CopyOf(const S& s) {
	const bool a = fault::armed;
	fault::armed = false;
	S c = s;
	fault::armed = a;
	return c;
}
template <class T, eSignalDomain D = TIME_DOMAIN>
static BasicSignal<T, D> Sig(size_t n, uint64_t seed) {
	BasicSignal<T, D> s(n);
	for (size_t i = 0; i < n; ++i) s[i] = mc::ValAs<T>(seed * 4099 + i, 7) * T(real_of_t<T>(0.125));
	return s;
}

#if PART == 1
template <class T>
static void Calls(size_t n) {
	using R = real_of_t<T>;
	evictFloat = std::is_same_v<R, float>, evictDouble = !evictFloat;
	using C = std::complex<R>;
	size_t m = 0;
	const auto a = Sig<T>(n, n), b = Sig<T>(n, n + 1);
	const auto r = Sig<R>(n, n + 2);
	const auto v = AsView(a);
	// Arithmetic, functions, statistics, generators, windows.
	CALL(a + b); CALL(a * b); CALL(a - R(2)); CALL(R(3) * a); CALL(v / v); CALL(a * b + a);
	CALL(Abs(a)); CALL(Exp(a)); CALL(Real(a)); CALL(Conj(a)); CALL(Pow(a, T(R(2))));
	CALL(Signal<C>(a)); CALL(Signal<T>(n, T(R(1)))); CALL(Signal<T>(a.begin(), a.end())); CALL(Signal<T>(n, a.data()));
	CALL(Sum(a)); CALL(Mean(a)); CALL(Norm(a)); CALL(DotProduct(a, b)); 
	if constexpr (!is_cplx<T>::value) {
		CALL(CentralMoment(a, 3)); CALL(StandardDeviation(a)); CALL(Variance(a)); CALL(Skewness(a)); CALL(Kurtosis(a)); if (n >= 4) CALL(CorrectedKurtosis(a)); if (n >= 2) { CALL(Covariance(a, b)); CALL(Correlation(a, b)); } CALL(Max(a)); CALL(Min(a));
		CALL(LinSpace<T, TIME_DOMAIN>(T(0), T(1), n)); CALL(LogSpace<T, TIME_DOMAIN>(T(0), T(1), n));
		CALL(SineWave<T, TIME_DOMAIN>(n, 48000, 440.)); CALL(PwmWave<T, TIME_DOMAIN>(n, 48000, 440., 0.3)); CALL(SquareWave<T, TIME_DOMAIN>(n, 48000, 440.)); CALL(SawtoothWave<T, TIME_DOMAIN>(n, 48000, 440., 0.3));
		if (n >= 2) {
			CALL(HammingWindow<T, TIME_DOMAIN>(n)); CALL(FlatTopWindow<T, TIME_DOMAIN>(n)); CALL(TriangularWindow<T, TIME_DOMAIN>(n)); CALL(BlackmanWindow<T, TIME_DOMAIN>(n));
			CALL(BlackmanHarrisWindow<T, TIME_DOMAIN>(n)); CALL(GaussianWindow<T, TIME_DOMAIN>(n)); CALL(KaiserWindow<T, TIME_DOMAIN>(n)); CALL(LanczosWindow<T, TIME_DOMAIN>(n));
		}
	}
	if (n >= 2) {
		CALL(DolphChebyshevWindow<R, TIME_DOMAIN>(n, R(0.01)));
		INTO(Signal<T>, n, DolphChebyshevWindow(out, R(0.01)));
	}
	// Transforms.
	if constexpr (is_cplx<T>::value) {
		CALL(Fft(a)); CALL(Ifft(Fft(a)));
		INTO(Spectrum<C>, n, Fft(out, a)); 
		const auto s = Fft(a);
		INTO(Signal<C>, n, Ifft(out, s));
	}
	else {
		CALL(Fft(a, FFT_FULL)); CALL(Fft(a, FFT_HALF));
		INTO(Spectrum<C>, n, Fft(out, a)); INTO(Spectrum<C>, n / 2 + 1, Fft(out, a));
		const auto f = Fft(a, FFT_FULL), h = Fft(a, FFT_HALF);
		CALL(Ifft(f, FFT_FULL)); CALL(Ifft(h, FFT_HALF, n % 2 == 0));
		INTO(Signal<T>, n, Ifft(out, f)); INTO(Signal<T>, n, Ifft(out, h));
		CALL(FrequencyResponse(a)); CALL(FrequencyResponse(a, 50));
	}
	CALL(FftShift(a)); CALL(IfftShift(a)); INTO(Signal<T>, n, FftShift(out, a));
	// Rate conversion.
	for (size_t p : { 1, 2, 3 }) {
		m = p;
		CALL(PolyphaseDecompose(r, m)); CALL(PolyphaseNormalized(PolyphaseDecompose(r, m))); CALL(Decimate(a, m)); CALL(Expand(a, m));
		const auto poly = PolyphaseDecompose(r, m);
		CALL(PolyphaseFilter<R, TIME_DOMAIN>(poly));
		CALL(Interpolate(a, poly, 0, n)); CALL(Resample(a, poly, { 3, 2 }, CONV_FULL)); CALL(Resample(a, poly, { 3, 2 }, { 1, 3 }, n / 2));
		INTO(Signal<T>, n, Interpolate(out, a, poly, 0)); INTO(Signal<T>, n / 2, Resample(out, a, poly, { 3, 2 }, { 1, 3 }));
	}
	// Convolution and filtering.
	for (size_t taps : { 1, 2, 5, 16 }) {
		m = taps;
		if (taps < 5 && n > mc::Tier<size_t>(8, 64)) continue; // Many small chunks, each with allocations of its own.
		const auto h = Sig<R>(taps, taps + 40);
		CALL(Convolution(a, h, CONV_FULL)); CALL(Convolution(a, h, CONV_CENTRAL)); CALL(OverlapAdd(a, h, CONV_FULL)); CALL(OverlapAdd(a, h, CONV_CENTRAL)); if (m > 1) CALL(OverlapAdd(a, h, 1, n, 2 * std::max(n, m) + 3));
		CALL(Filter(a, h, CONV_FULL, FILTER_CONV)); CALL(Filter(a, h, CONV_CENTRAL, FILTER_OLA)); CALL(Filter(a, h, CONV_FULL, FILTER_OLA));
		INTO(Signal<T>, n + m - 1, Convolution(out, a, h, CONV_FULL)); INTO(Signal<T>, n + m - 1, OverlapAdd(out, a, h, CONV_FULL)); INTO(Signal<T>, n + m - 1, Filter(out, a, h, CONV_FULL, FILTER_OLA));
		// Streaming: the state advances with the output, or not at all.
		if (m < 2) continue;
		const auto state0 = Sig<T>(m - 1, 900 + m);
		auto stream = [&](const char* name, auto engine) {
			for (int cold = 0; cold < 2; ++cold) {
				if (!mc::Case("streaming", name, TypeName<T>(), n, m, cold ? "cold" : "warm")) continue;
				auto state = state0;
				const auto want = Filter(a, h, state, engine);
				const auto stateWant = state;
				auto faulted = [&](long k, bool sticky) {
					if (cold) Evict();
					auto s = state0;
					Signal<T> out(n, T(R(-99)));
					bool threw = false;
					fault::Arm(k, sticky);
					try { Filter(out, a, h, s, engine); } catch (const std::bad_alloc&) { threw = true; }
					fault::Disarm();
					mc::Step();
					if (!threw) {
						mc::Check(Equal(out, want), "output of a stream");
						mc::Check(Equal(s, stateWant), "state of a stream");
					}
					else mc::Check(Equal(s, state0), "the state of a stream advances although its output is not written");
					// The stream goes on from where it was.
					if (threw) {
						Filter(out, a, h, s, engine);
						mc::Check(Equal(out, want) && Equal(s, stateWant), "a stream repeated after a failure");
					}
				};
				fault::Arm(-1, false);
				faulted(-1, false);
				const long points = fault::seen;
				for (bool sticky : { false, true }) for (long k = 0; k < points; ++k) faulted(k, sticky);
				auto returning = [&](long k, bool sticky) {
					if (cold) Evict();
					auto s = state0;
					bool threw = false;
					fault::Arm(k, sticky);
					try { const auto got = Filter(a, h, s, engine); fault::Disarm(); mc::Check(Equal(got, want) && Equal(s, stateWant), "returned stream"); }
					catch (const std::bad_alloc&) { threw = true; }
					fault::Disarm();
					mc::Step();
					if (threw) mc::Check(Equal(s, state0), "the state of a stream advances although nothing is returned");
				};
				returning(-1, false);
				const long rpoints = fault::seen;
				for (bool sticky : { false, true }) for (long k = 0; k < rpoints; ++k) returning(k, sticky);
			}
		};
		stream("conv", FILTER_CONV);
		stream("ola", FILTER_OLA);
	}
}
static void Body() {
	Evict();
	for (size_t n : mc::Tier<std::vector<size_t>>({ 1, 2, 3, 8, 37, 64, 75, 211 }, { 1, 2, 3, 4, 5, 7, 8, 11, 13, 16, 22, 30, 37, 49, 64, 75, 97, 128, 211, 419, 1009 })) {
		Calls<float>(n), Calls<double>(n), Calls<std::complex<double>>(n);
		if (mc::Thorough()) Calls<std::complex<float>>(n);
	}
}
#elif PART == 2
// Designs and measurements.
template <class T>
static void FirDesigns(size_t n) {
	const size_t m = 0;
	const auto w = HammingWindow<T, TIME_DOMAIN>(n);
	auto response = [](T f) { return f < T(0.4) ? T(1) : T(0); };
	CALL(DesignFilter<T, TIME_DOMAIN>(n, Fir.Lowpass.Windowed.Cutoff(T(0.3)).Window(w)));
	CALL(DesignFilter<T, TIME_DOMAIN>(n, Fir.Lowpass.Windowed.Cutoff(T(0.3))));
	CALL(DesignFilter<T, TIME_DOMAIN>(n, Fir.Highpass.Windowed.Cutoff(T(0.3))));
	CALL(DesignFilter<T, TIME_DOMAIN>(n, Fir.Bandpass.Windowed.Band(T(0.3), T(0.6)).Window(windows::blackman)));
	CALL(DesignFilter<T, TIME_DOMAIN>(n, Fir.Bandstop.Windowed.Band(T(0.3), T(0.6))));
	CALL(DesignFilter<T, TIME_DOMAIN>(n, Fir.Hilbert.Windowed));
	CALL(DesignFilter<T, TIME_DOMAIN>(n + 1, Fir.Hilbert.Windowed));
	CALL(DesignFilter<T, TIME_DOMAIN>(n, Fir.Arbitrary.Windowed.Response(response)));
	CALL(DesignFilter<T, TIME_DOMAIN>(n, Fir.Arbitrary.Windowed.Response(response).Window(w)));
	CALL(DesignFilter<T, TIME_DOMAIN>(n, Fir.Lowpass.LeastSquares.Cutoff(T(0.3), T(0.4))));
	CALL(DesignFilter<T, TIME_DOMAIN>(n, Fir.Highpass.LeastSquares.Cutoff(T(0.3), T(0.4))));
	CALL(DesignFilter<T, TIME_DOMAIN>(n, Fir.Bandpass.LeastSquares.Band(T(0.2), T(0.3), T(0.5), T(0.6))));
	CALL(DesignFilter<T, TIME_DOMAIN>(n, Fir.Bandstop.LeastSquares.Band(T(0.2), T(0.3), T(0.5), T(0.6))));
	CALL(DesignFilter<T, TIME_DOMAIN>(n, Fir.Hilbert.LeastSquares.TransitionWidth(T(0.1))));
	CALL(DesignFilter<T, TIME_DOMAIN>(n, Fir.Arbitrary.LeastSquares.Response(response)));
	INTO(Signal<T>, n, DesignFilter(out, Fir.Lowpass.Windowed.Cutoff(T(0.3)).Window(w)));
	INTO(Signal<T>, n, DesignFilter(out, Fir.Bandstop.Windowed.Band(T(0.3), T(0.6))));
	INTO(Signal<T>, n, DesignFilter(out, Fir.Hilbert.Windowed));
	INTO(Signal<T>, n, DesignFilter(out, Fir.Lowpass.LeastSquares.Cutoff(T(0.3), T(0.4))));
	// The user's functions.
	EveryInvocation("arbitrary response, windowed", TypeName<T>(), n, [&](auto tick) { return DesignFilter<T, TIME_DOMAIN>(n, Fir.Arbitrary.Windowed.Response([&](T f) { tick(); return f < T(0.4) ? T(1) : T(0); })); });
	EveryInvocation("arbitrary response, least squares", TypeName<T>(), n, [&](auto tick) { return DesignFilter<T, TIME_DOMAIN>(n, Fir.Arbitrary.LeastSquares.Response([&](T f) { tick(); return f < T(0.4) ? T(1) : T(0); })); });
	EveryInvocation("arbitrary weight, least squares", TypeName<T>(), n, [&](auto tick) { return DesignFilter<T, TIME_DOMAIN>(n, Fir.Arbitrary.LeastSquares.Response([](T f) { return f < T(0.4) ? T(1) : T(0); }).Weight([&](T) { tick(); return T(1); })); });
	EveryInvocation("window function", TypeName<T>(), n, [&](auto tick) { return DesignFilter<T, TIME_DOMAIN>(n, Fir.Lowpass.Windowed.Cutoff(T(0.3)).Window([&](auto&& o) { tick(); windows::hamming(o); })); });
}
template <class T>
static void IirDesigns(size_t n) {
	size_t m = 0;
	const auto x = Sig<T>(20, n);
	auto each = [&](auto lp, auto hp, auto bp, auto bs, size_t method) {
		m = method;
		CALL(DesignFilter<T>(n, lp.Cutoff(T(0.3)))); CALL(DesignFilter<T>(n, hp.Cutoff(T(0.3))));
		if (n % 2 == 0) {
			CALL(DesignFilter<T>(n, bp.Band(T(0.3), T(0.6)))); CALL(DesignFilter<T>(n, bs.Band(T(0.3), T(0.6))));
		}
		const auto zpk = DesignFilter<T>(n, lp.Cutoff(T(0.3)));
		CALL(DiscreteTransferFunction<T>(zpk)); CALL(CascadedBiquad<T>(zpk)); CALL(ExpandPolynomial(zpk.zeros));
		CALL(DiscreteZeroPoleGain<T>(zpk));
		INTO(DiscreteZeroPoleGain<T>, zpk, DesignFilter(out, hp.Cutoff(T(0.4))));
		CALL(FrequencyResponse(zpk, 40)); CALL(FrequencyResponse(CascadedBiquad<T>{ zpk }, 40)); CALL(FrequencyResponse(DiscreteTransferFunction<T>{ zpk }, 40));
		const DiscreteTransferFunction<T> tf{ zpk };
		const CascadedBiquad<T> bq{ zpk };
		// A recursive filter's state advances with its output, or not at all.
		auto stream = [&](const char* name, const auto& fresh, const auto& sys) {
			if (!mc::Case("recursive-streaming", name, TypeName<T>(), n, m)) return;
			auto s1 = fresh;
			const auto first = Filter(x, sys, s1), second = Filter(x, sys, s1);
			for (long k = 0;; ++k) {
				auto s = fresh;
				mc::Check(Equal(Filter(x, sys, s), first), "first block");
				bool threw = false;
				fault::Arm(k, true);
				try { const auto got = Filter(x, sys, s); fault::Disarm(); mc::Check(Equal(got, second), "second block"); } catch (const std::bad_alloc&) { threw = true; }
				fault::Disarm();
				mc::Step();
				if (threw) mc::Check(Equal(Filter(x, sys, s), second), "second block, repeated after a failure");
				if (fault::hits == 0) break;
			}
		};
		stream("direct form 1", DirectFormI<T>{ tf.order() }, tf);
		stream("direct form 2", DirectFormII<T>{ tf.order() }, tf);
		stream("cascade", CascadedForm<T>{ bq.order() }, bq);
	};
	each(Iir.Lowpass.Butterworth, Iir.Highpass.Butterworth, Iir.Bandpass.Butterworth, Iir.Bandstop.Butterworth, 0);
	each(Iir.Lowpass.Chebyshev1, Iir.Highpass.Chebyshev1, Iir.Bandpass.Chebyshev1, Iir.Bandstop.Chebyshev1, 1);
	each(Iir.Lowpass.Chebyshev2, Iir.Highpass.Chebyshev2, Iir.Bandpass.Chebyshev2, Iir.Bandstop.Chebyshev2, 2);
	each(Iir.Lowpass.Elliptic, Iir.Highpass.Elliptic, Iir.Bandpass.Elliptic, Iir.Bandstop.Elliptic, 3);
}
template <class T>
static void Measurements(size_t n) {
	const size_t m = 0;
	auto measured = [&](const char* name, auto f) { Every(name, TypeName<T>(), n, m, f); };
	const auto impulse = [&](auto desc) { return DesignFilter<T, TIME_DOMAIN>(n, desc); };
	auto magnitude = [](const auto& h) { return FrequencyResponse(h, 200).first; };
	const auto lp = magnitude(impulse(Fir.Lowpass.Windowed.Cutoff(T(0.3)))), hp = magnitude(impulse(Fir.Highpass.Windowed.Cutoff(T(0.3))));
	const auto bp = magnitude(impulse(Fir.Bandpass.Windowed.Band(T(0.3), T(0.6)))), bs = magnitude(impulse(Fir.Bandstop.Windowed.Band(T(0.3), T(0.6))));
	auto list = [](auto... v) { return std::array<T, sizeof...(v)>{ T(v)... }; };
	measured("MeasureLowpassFilter", [&] { const auto p = MeasureLowpassFilter(lp); return list(p.passbandEdge, p.stopbandEdge, p.passbandRipple, p.stopbandAtten); });
	measured("MeasureHighpassFilter", [&] { const auto p = MeasureHighpassFilter(hp); return list(p.passbandEdge, p.stopbandEdge, p.passbandRipple, p.stopbandAtten); });
	measured("MeasureBandpassFilter", [&] { const auto p = MeasureBandpassFilter(bp); return list(p.lowerStopbandEdge, p.passbandLowerEdge, p.passbandUpperEdge, p.upperStopbandEdge, p.passbandRipple); });
	measured("MeasureBandstopFilter", [&] { const auto p = MeasureBandstopFilter(bs); return list(p.lowerPassbandEdge, p.stopbandLowerEdge, p.stopbandUpperEdge, p.upperPassbandEdge, p.stopbandAtten); });
	measured("MeasureFilter", [&] { return list(MeasureFilter(lp).index(), MeasureFilter(hp).index(), MeasureFilter(bp).index(), MeasureFilter(bs).index()); });
}
static void Body() {
	Evict();
	for (size_t n : mc::Tier<std::vector<size_t>>({ 3, 7, 31, 65 }, { 3, 5, 7, 9, 15, 31, 47, 65, 127 })) FirDesigns<float>(n), FirDesigns<double>(n);
	for (size_t n = 1; n <= mc::Tier<size_t>(6, 12); ++n) IirDesigns<float>(n), IirDesigns<double>(n);
	for (size_t n : { 63, 127 }) Measurements<float>(n), Measurements<double>(n);
	for (int which = 0; which < 2; ++which) {
		EveryInvocation(which ? "NewtonRaphson" : "Bisect", "d", which, [&](auto tick) {
			auto f = [&](double x) { tick(); return x * x - 2.0; };
			return which ? NewtonRaphson(f, [&](double x) { tick(); return 2 * x; }, 1.0) : Bisect(f, 0.0, 2.0);
		});
	}
}
#else
// Containers: every operation at every allocation point, in every history.
// An operation on a signal either happens or leaves the signal as it was.
template <class T>
struct SignalOps {
	using S = Signal<T>;
	using V = std::vector<T>;
	struct Op { const char* name; std::function<void(S&)> real; std::function<void(V&)> model; };
	std::vector<Op> ops;
	S other = Sig<T>(5, 77);
	S longer = Sig<T>(40, 78);
	std::vector<T> raw{ T(1), T(2), T(3) };
	SignalOps() {
		const V o(other.begin(), other.end()), l(longer.begin(), longer.end());
		auto add = [&](const char* n, auto r, auto m) { ops.push_back({ n, r, m }); };
		add("append", [this](S& s) { s.append(other); }, [o](V& v) { v.insert(v.end(), o.begin(), o.end()); });
		add("append longer", [this](S& s) { s.append(longer); }, [l](V& v) { v.insert(v.end(), l.begin(), l.end()); });
		add("prepend", [this](S& s) { s.prepend(other); }, [o](V& v) { v.insert(v.begin(), o.begin(), o.end()); });
		add("push_back", [](S& s) { s.push_back(T(9)); }, [](V& v) { v.push_back(T(9)); });
		add("insert", [this](S& s) { s.insert(s.size() / 2, other); }, [o](V& v) { v.insert(v.begin() + v.size() / 2, o.begin(), o.end()); });
		add("insert at", [this](S& s) { s.insert(s.cbegin() + s.size() / 3, other); }, [o](V& v) { v.insert(v.begin() + v.size() / 3, o.begin(), o.end()); });
		add("insert range", [this](S& s) { s.insert(s.cbegin() + s.size() / 3, raw.begin(), raw.end()); }, [r = raw](V& v) { v.insert(v.begin() + v.size() / 3, r.begin(), r.end()); });
		add("resize", [](S& s) { s.resize(s.size() + 7, T(4)); }, [](V& v) { v.resize(v.size() + 7, T(4)); });
		add("resize zero", [](S& s) { s.resize(s.size() * 2 + 1); }, [](V& v) { v.resize(v.size() * 2 + 1); });
		add("shrink", [](S& s) { s.resize(s.size() / 2); }, [](V& v) { v.resize(v.size() / 2); });
		add("reserve", [](S& s) { s.reserve(s.size() + 31); }, [](V&) {});
		add("extract_front", [](S& s) { auto p = s.extract_front(s.size() / 2); (void)p; }, [](V& v) { v.erase(v.begin(), v.begin() + v.size() / 2); });
		add("extract_back", [](S& s) { auto p = s.extract_back(s.size() / 2); (void)p; }, [](V& v) { v.resize(v.size() - v.size() / 2); });
		add("keep front", [](S& s) { s = s.extract_front(s.size() / 2); }, [](V& v) { v.resize(v.size() / 2); });
		add("self append", [](S& s) { const S c = s; s.append(c); }, [](V& v) { const V c = v; v.insert(v.end(), c.begin(), c.end()); });
		add("assign", [this](S& s) { s = other; }, [o](V& v) { v = o; });
		add("assign sum", [](S& s) { s = s + s; }, [](V& v) { for (auto& e : v) e = e + e; });
		add("clear", [](S& s) { s.clear(); }, [](V& v) { v.clear(); });
	}
	static bool Same(const S& s, const V& v) { return s.size() == v.size() && std::equal(v.begin(), v.end(), s.begin()); }
	// Applies an operation with the k-th allocation failing; true if it took place.
	static bool Apply(const Op& op, S& s, V& v, long k, bool& hit) {
		bool threw = false;
		fault::Arm(k, false);
		try { op.real(s); } catch (const std::bad_alloc&) { threw = true; } catch (const std::length_error&) { fault::Disarm(); mc::Fail("length error"); }
		fault::Disarm();
		hit = fault::hits > 0;
		mc::Step();
		if (!threw) op.model(v);
		mc::Check(Same(s, v), [&] { return std::string(op.name) + (threw ? " failed, but changed the signal" : " gives other samples"); });
		mc::Check(s.capacity() >= s.size(), "capacity");
		return !threw;
	}
	void Walk(const S& s, const V& v, size_t depth) {
		Observe(v);
		if (depth == 0) return;
		for (auto& op : ops)
			for (long k = -1; k < 3; ++k) {
				S s2 = s;
				if (v.size() % 2) s2.reserve(v.size() + 6); // With room left, too.
				V v2 = v;
				bool hit;
				Apply(op, s2, v2, k, hit);
				if (k >= 0 && !hit) break;
				Walk(s2, v2, depth - 1);
			}
	}
	void Run(const char* type) {
		for (size_t i = 0; i < ops.size(); ++i)
			for (size_t n : { 0, 1, 6, 33 }) {
				if (!mc::Case("signal-history", type, ops[i].name, n)) continue;
				const long live0 = fault::live;
				{
					S s = Sig<T>(n, n);
					V v(s.begin(), s.end());
					for (long k = -1; k < 3; ++k) {
						S s2 = s; V v2 = v; bool hit;
						Apply(ops[i], s2, v2, k, hit);
						if (k >= 0 && !hit) break;
						Walk(s2, v2, mc::Tier<size_t>(2, 3));
					}
				}
				mc::Check(fault::live == live0, "blocks leaked");
			}
	}
};

// Polynomials, polyphase filters, realizations: after a failed operation they are valid, and later operations work.
template <class T>
static void Poly() {
	using P = FactoredPolynomial<T>;
	auto make = [](size_t r, size_t c, int base) {
		P p;
		p.resize(r, c);
		for (size_t i = 0; i < r; ++i) p.real_roots()[i] = T(base + int(i));
		for (size_t i = 0; i < c; ++i) p.complex_pairs()[i] = { T(base + int(i)), T(1 + int(i)) };
		return p;
	};
	auto valid = [](P& p, const char* what) {
		// Every root can be read and written on its own.
		const size_t r = p.num_real_roots(), c = p.num_complex_pairs();
		for (size_t i = 0; i < r; ++i) p.real_roots()[i] = T(100 + int(i));
		for (size_t i = 0; i < c; ++i) p.complex_pairs()[i] = { T(200 + int(i)), T(300 + int(i)) };
		for (size_t i = 0; i < r; ++i) mc::Check(p.real_roots()[i] == T(100 + int(i)), what);
		for (size_t i = 0; i < c; ++i) mc::Check(p.complex_pairs()[i] == std::complex<T>{ T(200 + int(i)), T(300 + int(i)) }, what);
	};
	for (size_t r0 = 0; r0 <= 4; ++r0) for (size_t c0 = 0; c0 <= 3; ++c0)
		for (size_t r1 = 0; r1 <= 6; ++r1) for (size_t c1 = 0; c1 <= 4; ++c1) {
			if (!mc::Case("factored", TypeName<T>(), r0, c0, r1, c1)) continue;
			const long live0 = fault::live;
			for (int op = 0; op < 4; ++op)
				for (long k = 0; k < 4; ++k) {
					P p = make(r0, c0, 1), other = make(r1, c1, 50);
					const P otherWas = other;
					bool threw = false;
					fault::Arm(k, false);
					try {
						if (op == 0) p.resize(r1, c1, T(7), { T(8), T(9) });
						else if (op == 1) p = other;
						else if (op == 2) { P q = other; p = std::move(q); }
						else { const auto e = ExpandPolynomial(other); (void)e; }
					}
					catch (const std::bad_alloc&) { threw = true; }
					fault::Disarm();
					mc::Step();
					mc::Check(Equal(other, otherWas), "the source of a copy changes");
					if (op == 3) { mc::Check(Equal(p, make(r0, c0, 1)), "another polynomial changes"); continue; }
					if (threw) {
						const bool was = p.num_real_roots() == r0 && p.num_complex_pairs() == c0, is = p.num_real_roots() == r1 && p.num_complex_pairs() == c1;
						mc::Check(was || is, "number of roots after a failure");
						if (op >= 2) mc::Check(Equal(p, make(r0, c0, 1)), "a polynomial changes although the operation on another failed");
					}
					else mc::Check(p.num_real_roots() == r1 && p.num_complex_pairs() == c1, "number of roots");
					Observe(r0, c0, r1, c1, op, int(threw));
					valid(p, "roots after a failure");
					// Retried, the operation works.
					if (op == 0) p.resize(r1, c1), valid(p, "roots after the retry");
					else { p = other; mc::Check(Equal(p, other), "copy after the retry"); }
					if (!fault::hits) break;
				}
			mc::Check(fault::live == live0, "blocks leaked");
		}
	for (size_t n0 = 0; n0 <= 6; ++n0) for (size_t n1 = 0; n1 <= 20; ++n1) {
		if (!mc::Case("polynomial", TypeName<T>(), n0, n1)) continue;
		for (int op = 0; op < 2; ++op)
			for (long k = 0; k < 2; ++k) {
				Polynomial<T> p, q;
				p.resize(n0, T(3)); q.resize(n1, T(5));
				fault::Arm(k, false);
				bool threw = false;
				try { if (op == 0) p.resize(n1, T(4)); else p = q; } catch (const std::bad_alloc&) { threw = true; }
				fault::Disarm();
				mc::Step();
				mc::Check(p.size() == (threw ? n0 : n1), "number of coefficients");
				if (op == 0 || threw) for (size_t i = 0; i < std::min(n0, p.size()); ++i) mc::Check(p.coefficients()[i] == T(3), "coefficient");
				for (auto& c : q.coefficients()) mc::Check(c == T(5), "the source of a copy changes");
			}
	}
}
template <class T>
static void Polyphase() {
	using F = PolyphaseFilter<T, TIME_DOMAIN>;
	for (size_t n0 : { 0, 1, 5, 12 }) for (size_t p0 = 1; p0 <= 4; ++p0)
		for (size_t n1 : { 0, 1, 5, 12, 30 }) for (size_t p1 = 1; p1 <= 4; ++p1) {
			if (!mc::Case("polyphase", TypeName<T>(), n0, p0, n1, p1)) continue;
			const long live0 = fault::live;
			for (int op = 0; op < 3; ++op)
				for (long k = 0; k < 3; ++k) {
					F a = n0 ? PolyphaseDecompose(Sig<T>(n0, 1), p0) : F(0, p0);
					const F a0 = a;
					const F b = n1 ? PolyphaseDecompose(Sig<T>(n1, 2), p1) : F(0, p1);
					const F b0 = b;
					bool threw = false;
					fault::Arm(k, false);
					try {
						if (op == 0) a = b;
						else if (op == 1) { F c = b; a = std::move(c); }
						else a = PolyphaseNormalized(b);
					} catch (const std::bad_alloc&) { threw = true; }
					fault::Disarm();
					mc::Step();
					mc::Check(Equal(b, b0), "the source of a copy changes");
					Observe(n0, p0, n1, p1, op, int(threw));
					if (threw) {
						// The view on the buffer agrees with the buffer.
						mc::Eq(a.size_original(), size_t(a.Buffer().size()), "size of the view and the buffer");
						size_t total = 0;
						for (size_t i = 0; i < a.num_phases(); ++i) {
							const auto ph = a[i];
							mc::Check(ph.size() == 0 || (ph.data() >= a.Buffer().data() && ph.data() + ph.size() <= a.Buffer().data() + a.Buffer().size()), "a phase lies outside of the buffer");
							total += ph.size();
						}
						mc::Eq(total, size_t(a.Buffer().size()), "samples in the phases");
						if (op > 0) mc::Check(Equal(a, a0), "a filter changes although the operation on another failed");
					}
					else if (op < 2) mc::Check(Equal(a, b), "copy");
					a = b;
					mc::Check(Equal(a, b), "copy after a failure");
				}
			mc::Check(fault::live == live0, "blocks leaked");
		}
}
// A realization whose order could not be changed goes on as it was.
template <class Form, class T, class System>
static void Realization(const char* name, const System& sys, size_t order) {
	const auto x = Sig<T>(12, 5);
	for (size_t from = order; from <= order + 3; ++from)
		for (size_t to = 0; to <= order + 12; ++to)
			for (size_t fed : { 0, 1, 7 }) {
				if (!mc::Case("realization", name, TypeName<T>(), order, from, to, fed)) continue;
				for (long k = 0; k < 4; ++k) {
					Form f{ from }, g{ from };
					const size_t order0 = f.order();
					for (size_t i = 0; i < fed; ++i) f.feed(x[i], sys), g.feed(x[i], sys);
					bool threw = false;
					fault::Arm(k, false);
					try { f.order(to); } catch (const std::bad_alloc&) { threw = true; }
					fault::Disarm();
					mc::Step();
					Observe(order, from, to, fed, int(threw));
					if (threw) {
						mc::Eq(f.order(), order0, "order after a failure");
						for (size_t i = fed; i < x.size(); ++i) mc::Check(Equal(f.feed(x[i], sys), g.feed(x[i], sys)), "a filter goes on differently after a failed change of its order");
					}
					f.order(to);
					f.reset();
					Form h{ to };
					mc::Eq(f.order(), h.order(), "order");
					if (f.order() >= sys.order()) for (size_t i = 0; i < x.size(); ++i) mc::Check(Equal(f.feed(x[i], sys), h.feed(x[i], sys)), "a filter after a retried change of its order");
				}
			}
}
// The store of FFT plans: histories of transforms, some of which run out of memory.
template <class T>
static void Plans() {
	evictFloat = std::is_same_v<T, float>, evictDouble = !evictFloat;
	const std::vector<size_t> lengths{ 6, 37, 64, 75 };
	std::vector<Signal<std::complex<T>>> in;
	std::vector<Spectrum<std::complex<T>>> want, wantr;
	for (size_t l : lengths) {
		in.push_back(Sig<std::complex<T>>(l, l));
		want.push_back(Fft(in.back()));
		wantr.push_back(Fft(Real(in.back()), FFT_HALF));
	}
	const size_t depth = mc::Tier<size_t>(3, 4);
	// A history: per step a length, a transform, and the allocation that fails (-1: none).
	struct Step { size_t l; bool real; long k; };
	std::vector<Step> alphabet;
	for (size_t l = 0; l < lengths.size(); ++l) for (bool r : { false, true }) for (long k : { -1L, 0L, 1L, 2L, 3L, 5L }) alphabet.push_back({ l, r, k });
	std::vector<size_t> h(depth, 0);
	const size_t A = alphabet.size();
	size_t total = 1;
	for (size_t i = 0; i < depth; ++i) total *= A;
	for (size_t c = 0; c < total; c += A) {
		if (!mc::Case("plans", TypeName<T>(), c)) continue;
		for (size_t e = c; e < c + A; ++e) {
			Evict();
			const long live0 = fault::live;
			for (size_t i = 0, v = e; i < depth; ++i, v /= A) {
				const Step& s = alphabet[v % A];
				const auto re = Real(in[s.l]);
				bool threw = false;
				fault::Arm(s.k, false);
				try {
					if (s.real) { const auto f = Fft(re, FFT_HALF); fault::Disarm(); mc::Check(Equal(f, wantr[s.l]), "real transform"); }
					else { const auto f = Fft(in[s.l]); fault::Disarm(); mc::Check(Equal(f, want[s.l]), "complex transform"); }
				}
				catch (const std::bad_alloc&) { threw = true; }
				fault::Disarm();
				mc::Check(!threw || fault::hits > 0, "out of memory without a reason");
				mc::Step();
			}
			Evict();
			mc::Check(fault::live == live0, "blocks leaked");
		}
	}
}
static void Body() {
	Evict();
	SignalOps<float>().Run("f");
	SignalOps<std::complex<double>>().Run("cd");
	Poly<float>(), Poly<double>();
	Polyphase<double>(), Polyphase<std::complex<float>>();
	for (size_t order = 0; order <= 4; ++order) {
		DiscreteZeroPoleGain<double> zpk{ 0.5, FactoredPolynomial<double>(), FactoredPolynomial<double>() };
		zpk.zeros.resize(order % 2, order / 2, 0.25, { 0.5, 0.25 });
		zpk.poles.resize(order % 2, order / 2, -0.5, { 0.25, 0.5 });
		const DiscreteTransferFunction<double> tf{ zpk };
		const CascadedBiquad<double> bq{ zpk };
		Realization<DirectFormI<double>, double>("direct form 1", tf, order);
		Realization<DirectFormII<double>, double>("direct form 2", tf, order);
		Realization<CascadedForm<double>, double>("cascade", bq, bq.order());
		Realization<DirectFormI<std::complex<double>>, std::complex<double>>("direct form 1", tf, order);
	}
	Plans<double>();
	if (mc::Thorough()) Plans<float>();
}
#endif
MC_MAIN(Body)
