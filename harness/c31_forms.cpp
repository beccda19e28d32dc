// C31: views are interchangeable with signals as operands and as outputs of every function.
//   -DPART=1 statistics, functions, arithmetic; 2 convolution and filtering; 3 transforms, resampling, designs, measurement.
#include <dspbb/Filtering/FIR.hpp>
#include <dspbb/Filtering/IIR.hpp>
#include <dspbb/Filtering/MeasureFilter.hpp>
#include <dspbb/Filtering/Polyphase.hpp>
#include <dspbb/Filtering/Resample.hpp>
#include <dspbb/Filtering/Windowing.hpp>
#include <dspbb/Generators/Spaces.hpp>
#include <dspbb/Generators/Waveforms.hpp>
#include <dspbb/LTISystems/Systems.hpp>
#include <dspbb/Math/Convolution.hpp>
#include <dspbb/Math/DotProduct.hpp>
#include <dspbb/Math/FFT.hpp>
#include <dspbb/Math/Functions.hpp>
#include <dspbb/Math/OverlapAdd.hpp>
#include <dspbb/Math/Statistics.hpp>
#include <dspbb/Primitives/Signal.hpp>
#include <dspbb/Primitives/SignalArithmetic.hpp>
#include <dspbb/Primitives/SignalView.hpp>
#include "ref.hpp"
using namespace dspbb;
using namespace ref;

// ---- Comparing results: same shape, and the same values up to the rounding a different evaluation order may bring.
template <class A, class B>
static void SameScalar(const A& got, const B& want, LD scale, const char* what, size_t i = 0) {
	const auto g = Wide(got), w = Wide(want);
	if (g == w || (g != g && w != w)) { ++mc::C().checks; return; }
	mc::Near(got, want, 64 * Eps<A>() * scale, what, i);
}
template <class T>
concept Ranged = requires(const T& t) { t.size(); t.begin(); };
template <class A, class B>
static void Same(const A& got, const B& want, const char* what) {
	using GA = std::decay_t<A>;
	if constexpr (requires { got.firstInputSample; got.startPoint; }) {
		mc::Check(got.firstInputSample == want.firstInputSample && got.startPoint == want.startPoint, what);
	}
	else if constexpr (requires { got.num_phases(); }) {
		mc::Eq(got.num_phases(), want.num_phases(), what);
		for (size_t i = 0; i < std::min(got.num_phases(), want.num_phases()); ++i) Same(got[i], want[i], what);
	}
	else if constexpr (requires { got.first; got.second; }) {
		Same(got.first, want.first, what);
		Same(got.second, want.second, what);
	}
	else if constexpr (Ranged<GA>) {
		mc::Eq(size_t(got.size()), size_t(want.size()), what);
		LD scale = 1;
		for (auto& v : want) if (const LD m = std::abs(Wide(v)); m > scale && m < 1e30L) scale = m;
		for (size_t i = 0; i < std::min(got.size(), want.size()); ++i) SameScalar(got[i], want[i], scale, what, i);
	}
	else SameScalar(got, want, std::max<LD>(1, std::abs(Wide(want))), what);
}

// ---- The forms of one operand. Each is a fresh copy, so that changes to it are noticed.
static const char* FORM[] = { "signal", "const signal", "view", "const view" };
template <class T, eSignalDomain D, class F>
static void Operand(const BasicSignal<T, D>& x, size_t off, F&& f) {
	const size_t n = x.size();
	{
		BasicSignal<T, D> s = x;
		f(s, 0);
		for (size_t i = 0; i < n; ++i) SameScalar(s[i], x[i], 0, "operand changed", i);
		const BasicSignal<T, D>& c = s;
		f(c, 1);
		for (size_t i = 0; i < n; ++i) SameScalar(s[i], x[i], 0, "constant operand changed", i);
	}
	Guarded<T> mem(n, off);
	for (size_t i = 0; i < n; ++i) mem[i] = x[i];
	const BasicSignalView<T, D> v(mem.data(), n);
	f(v, 2);
	for (size_t i = 0; i < n; ++i) SameScalar(mem[i], x[i], 0, "viewed operand changed", i);
	mem.CheckGuards();
	const BasicSignalView<const T, D> cv(mem.data(), n);
	f(cv, 3);
	for (size_t i = 0; i < n; ++i) SameScalar(mem[i], x[i], 0, "constantly viewed operand changed", i);
	mem.CheckGuards();
}
// The forms of an output; f is to write it, want is what it has to hold afterwards.
template <class R, eSignalDomain D, class W, class F>
static void Output(const W& want, size_t off, const BasicSignal<R, D>& before, F&& f) {
	mc::Step(4);
	const size_t n = want.size();
	BasicSignal<R, D> s = before;
	f(s);
	Same(s, want, "output signal");
	s = before;
	auto sv = AsView(s);
	f(sv);
	Same(s, want, "output through a view");
	s = before;
	f(AsView(s));
	Same(s, want, "output through a temporary view");
	Guarded<R> g(n, off);
	for (size_t i = 0; i < n; ++i) g[i] = before[i];
	f(BasicSignalView<R, D>(g.data(), n));
	Same(g.cview(), want, "output into a part of a buffer");
	g.CheckGuards();
}
template <class R, eSignalDomain D = TIME_DOMAIN>
static BasicSignal<R, D> Garbage(size_t n) {
	BasicSignal<R, D> s(n);
	for (size_t i = 0; i < n; ++i) s[i] = R(real_of_t<R>(-55 + int(i % 3)));
	return s;
}
template <class S> using Elem = std::remove_const_t<typename signal_traits<std::decay_t<S>>::type>;

// A function of one operand, returning.
template <class X, class F>
static void Un(const char* name, const X& x, F&& f) {
	using T = Elem<X>;
	const size_t n = x.size();
	if (!mc::Case("one-operand", name, TypeName<T>(), n)) return;
	const auto want = f(x);
	for (size_t off : { 0, 1, 3 })
		Operand(x, off, [&](auto& a, int form) {
			mc::Step();
			const auto got = f(a);
			static_assert(std::is_same_v<decltype(got), decltype(want)>, "the form of an operand changes the type of the result");
			Same(got, want, FORM[form]);
		});
	if constexpr (Ranged<std::decay_t<decltype(want)>>) mc::StateOf(want);
}
// A function of one operand, writing to an output of element type R, with the values of the returning form w.
template <class R, eSignalDomain D = TIME_DOMAIN, class X, class W, class F>
static void UnOut(const char* name, const X& x, const W& w, F&& f) {
	using T = Elem<X>;
	if (!mc::Case("one-operand-out", name, TypeName<T>(), TypeName<R>(), x.size())) return;
	const auto want = w();
	const auto before = Garbage<R, D>(want.size());
	for (size_t off : { 0, 1, 3 })
		Operand(x, off, [&](auto& a, int) { Output<R, D>(want, off, before, [&](auto&& o) { f(std::forward<decltype(o)>(o), a); }); });
	mc::StateOf(want);
}
// Two operands.
template <class X, class Y, class F>
static void Bin(const char* name, const X& x, const Y& y, F&& f) {
	if (!mc::Case("two-operands", name, TypeName<Elem<X>>(), TypeName<Elem<Y>>(), x.size(), y.size())) return;
	const auto want = f(x, y);
	for (size_t off : { 0, 3 })
		Operand(x, off, [&](auto& a, int fa) {
			Operand(y, 1, [&](auto& b, int fb) {
				mc::Step();
				const auto got = f(a, b);
				static_assert(std::is_same_v<decltype(got), decltype(want)>, "the form of an operand changes the type of the result");
				Same(got, want, (std::string(FORM[fa]) + ", " + FORM[fb]).c_str());
			});
		});
	if constexpr (Ranged<std::decay_t<decltype(want)>>) mc::StateOf(want);
}
template <class R, class X, class Y, class W, class F>
static void BinOut(const char* name, const X& x, const Y& y, const W& w, F&& f, bool accumulate = false) {
	if (!mc::Case("two-operands-out", name, TypeName<Elem<X>>(), TypeName<Elem<Y>>(), TypeName<R>(), x.size(), y.size())) return;
	auto want = w();
	const auto before = Garbage<R>(want.size());
	if (accumulate) for (size_t i = 0; i < want.size(); ++i) want[i] += before[i];
	Operand(x, 1, [&](auto& a, int) { Operand(y, 3, [&](auto& b, int) { Output<R, TIME_DOMAIN>(want, 2, before, [&](auto&& o) { f(std::forward<decltype(o)>(o), a, b); }); }); });
	mc::StateOf(want);
}

#define UN(call) Un(#call, x, [&](auto& a) { return call; })
#define UNOUT(R, ret, call) UnOut<R>(#call, x, [&] { auto& a = x; return ret; }, [&](auto&& o, auto& a) { call; })
#define BIN(call) Bin(#call, x, y, [&](auto& a, auto& b) { return call; })
#define BINOUT(R, ret, call) BinOut<R>(#call, x, y, [&] { auto& a = x; auto& b = y; return ret; }, [&](auto&& o, auto& a, auto& b) { call; })
#define O std::forward<decltype(o)>(o)

static const std::vector<size_t>& Sizes() {
	static const std::vector<size_t> s = mc::Thorough() ? std::vector<size_t>{ 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 100, 129, 300 } : std::vector<size_t>{ 1, 2, 3, 4, 5, 8, 9, 16, 17, 33, 67, 130 };
	return s;
}
template <class T, eSignalDomain D = TIME_DOMAIN>
static BasicSignal<T, D> Sig(size_t n, uint64_t seed, LD scale = 0.125L) {
	auto s = Ints<T, D>(n, seed);
	for (auto& v : s) v *= real_of_t<T>(scale);
	return s;
}

#if PART == 1
template <class T, eSignalDomain D>
static void Statistics(size_t n) {
	using R = real_of_t<T>;
	const auto x = Sig<T, D>(n, n), y = Sig<T, D>(n, n + 500);
	UN(Sum(a)); UN(Mean(a)); UN(SumSquare(a)); UN(MeanSquare(a)); UN(RootMeanSquare(a)); UN(Norm(a));
	if constexpr (!is_cplx<T>::value) {
		UN(Max(a)); UN(Min(a)); UN(CentralMoment(a, 3)); UN(CentralMoment(a, 5)); UN(CentralMoment(a, 4, R(0.25)));
		UN(Variance(a)); UN(StandardDeviation(a)); UN(Variance(a, R(0.5))); UN(StandardDeviation(a, R(0.5)));
		BIN(Covariance(a, b)); BIN(Covariance(a, b, R(0.5), R(0.25)));
		if (n > 3) {
			UN(Skewness(a)); UN(Kurtosis(a)); UN(StandardizedMoment(a, 3)); UN(StandardizedMoment(a, 4)); UN(Skewness(a, R(0.5))); UN(Kurtosis(a, R(0.5))); UN(StandardizedMoment(a, 3, R(0.5)));
			UN(CorrectedVariance(a)); UN(CorrectedStandardDeviation(a)); UN(CorrectedSkewness(a)); UN(CorrectedKurtosis(a)); BIN(CorrectedCovariance(a, b)); BIN(Correlation(a, b));
		}
	}
	BIN(DotProduct(a, b));
}
template <class T>
static void Functions(size_t n) {
	const auto x = Sig<T>(n, n, 0.0625L);
	UN(Abs(a)); UNOUT(real_of_t<T>, Abs(a), Abs(O, a));
	UN(Real(a)); UN(Imag(a)); UNOUT(real_of_t<T>, Real(a), Real(O, a)); UNOUT(real_of_t<T>, Imag(a), Imag(O, a));
	if constexpr (is_cplx<T>::value) { UN(Arg(a)); UN(Conj(a)); UNOUT(real_of_t<T>, Arg(a), Arg(O, a)); UNOUT(T, Conj(a), Conj(O, a)); }
#define FN(f) UN(f(a)); UNOUT(T, f(a), f(O, a));
	FN(Exp) FN(Sin) FN(Cos) FN(Tan) FN(Sinh) FN(Cosh) FN(Tanh) FN(Asinh) FN(Atan) FN(Asin) FN(Acos) FN(Atanh) FN(Log) FN(Log10) FN(Sqrt) FN(Acosh)
	UN(Pow(a, T(real_of_t<T>(2)))); UNOUT(T, Pow(a, T(real_of_t<T>(3))), Pow(O, a, T(real_of_t<T>(3))));
	if constexpr (!is_cplx<T>::value) { FN(Log2) FN(Cbrt) FN(Erf) FN(Erfc) FN(TGamma) }
#undef FN
}
template <class T, class U>
static void Arithmetic(size_t n) {
	const auto x = Sig<T>(n, n);
	const auto y = Sig<U>(n, n + 500);
	using R = multiplies_result_t<T, U>;
	const U two(real_of_t<U>(2));
	BIN(a + b); BIN(a - b); BIN(a* b); BIN(a / b);
	UN(a * two); UN(two * a); UN(a / two); UN(two / a); UN(a + two); UN(two + a); UN(a - two); UN(two - a);
	BINOUT(R, a + b, Add(O, a, b)); BINOUT(R, a - b, Subtract(O, a, b)); BINOUT(R, a * b, Multiply(O, a, b)); BINOUT(R, a / b, Divide(O, a, b));
	UNOUT(R, a + two, Add(O, a, two)); UNOUT(R, two - a, Subtract(O, two, a)); UNOUT(R, a * two, Multiply(O, a, two)); UNOUT(R, two / a, Divide(O, two, a));
	if constexpr (std::is_same_v<R, T>) {
		// Compound assignment: the operand is the output.
		if (mc::Case("compound", TypeName<T>(), TypeName<U>(), n)) {
			for (int op = 0; op < 8; ++op) {
				BasicSignal<R, TIME_DOMAIN> want;
				switch (op) { case 0: want = x + y; break; case 1: want = x - y; break; case 2: want = x * y; break; case 3: want = x / y; break; case 4: want = x + two; break; case 5: want = x - two; break; case 6: want = x * two; break; default: want = x / two; }
				Operand(y, 1, [&](auto& b, int) {
					Output<T, TIME_DOMAIN>(want, 3, x, [&](auto&& o) {
						switch (op) { case 0: o += b; break; case 1: o -= b; break; case 2: o *= b; break; case 3: o /= b; break; case 4: o += two; break; case 5: o -= two; break; case 6: o *= two; break; default: o /= two; }
					});
				});
			}
		}
	}
}
static void Body() {
	for (size_t n : Sizes()) {
		Statistics<double, TIME_DOMAIN>(n);
		Statistics<float, FREQUENCY_DOMAIN>(n);
		Statistics<std::complex<double>, TIME_DOMAIN>(n);
		Functions<double>(n);
		Functions<float>(n);
		Functions<std::complex<double>>(n);
		Arithmetic<double, double>(n);
		Arithmetic<float, float>(n);
		Arithmetic<double, float>(n);
		Arithmetic<std::complex<float>, float>(n);
		Arithmetic<std::complex<double>, std::complex<double>>(n);
	}
}
#elif PART == 2
template <class T, class U>
static void Convolutions(size_t n, size_t m) {
	const auto x = Sig<T>(n, n, 1);
	const auto y = Sig<U>(m, m + 500, 1);
	using R = multiplies_result_t<T, U>;
	const size_t k = (n + m) / 2, l = (n + m - 1) - k;
	BIN(Convolution(a, b, CONV_FULL)); BIN(Convolution(a, b, CONV_CENTRAL)); BIN(Convolution(a, b, k, l));
	BINOUT(R, Convolution(a, b, CONV_FULL), Convolution(O, a, b, CONV_FULL)); BINOUT(R, Convolution(a, b, CONV_CENTRAL), Convolution(O, a, b, CONV_CENTRAL));
	BINOUT(R, Convolution(a, b, k, l), Convolution(O, a, b, k));
	auto full = [&] { return Convolution(x, y, CONV_FULL); };
	auto central = [&] { return Convolution(x, y, CONV_CENTRAL); };
	auto part = [&] { return Convolution(x, y, k, l); };
	BinOut<R>("Convolution, accumulating", x, y, part, [&](auto&& o, auto& a, auto& b) { Convolution(O, a, b, k, false); }, true);
	BinOut<R>("Convolution, full, accumulating", x, y, full, [&](auto&& o, auto& a, auto& b) { Convolution(O, a, b, CONV_FULL, false); }, true);
	BinOut<R>("Convolution, central, accumulating", x, y, central, [&](auto&& o, auto& a, auto& b) { Convolution(O, a, b, CONV_CENTRAL, false); }, true);
	BIN(Filter(a, b, CONV_FULL, FILTER_CONV)); BIN(Filter(a, b, CONV_CENTRAL, FILTER_CONV));
	BINOUT(R, Convolution(a, b, CONV_FULL), Filter(O, a, b, CONV_FULL, FILTER_CONV)); BINOUT(R, Convolution(a, b, CONV_CENTRAL), Filter(O, a, b, CONV_CENTRAL, FILTER_CONV));
	if constexpr (std::is_same_v<real_of_t<T>, real_of_t<U>>) {
		const size_t chunk = 2 * std::max(m, n) + 5;
		BIN(OverlapAdd(a, b, CONV_FULL)); BIN(OverlapAdd(a, b, CONV_CENTRAL)); BIN(OverlapAdd(a, b, k, l, chunk));
		BINOUT(R, Convolution(a, b, CONV_FULL), OverlapAdd(O, a, b, CONV_FULL)); BINOUT(R, Convolution(a, b, k, l), OverlapAdd(O, a, b, k, chunk));
		BinOut<R>("OverlapAdd, accumulating", x, y, part, [&](auto&& o, auto& a, auto& b) { OverlapAdd(O, a, b, k, 0, false); }, true);
		BinOut<R>("OverlapAdd, full, accumulating", x, y, full, [&](auto&& o, auto& a, auto& b) { OverlapAdd(O, a, b, CONV_FULL, chunk, false); }, true);
		BinOut<R>("OverlapAdd, central, accumulating", x, y, central, [&](auto&& o, auto& a, auto& b) { OverlapAdd(O, a, b, CONV_CENTRAL, chunk, false); }, true);
		// Chunks sized by the function, by the caller, and the smallest ones.
		BINOUT(R, Convolution(a, b, CONV_CENTRAL), OverlapAdd(O, a, b, CONV_CENTRAL)); BINOUT(R, Convolution(a, b, k, l), OverlapAdd(O, a, b, k));
		BINOUT(R, Convolution(a, b, CONV_CENTRAL), OverlapAdd(O, a, b, CONV_CENTRAL, chunk)); BINOUT(R, Convolution(a, b, CONV_FULL), OverlapAdd(O, a, b, CONV_FULL, chunk));
		BIN(OverlapAdd(a, b, CONV_CENTRAL, chunk)); BIN(OverlapAdd(a, b, CONV_FULL, chunk)); BIN(OverlapAdd(a, b, k, l));
		BIN(Filter(a, b, CONV_FULL, FILTER_OLA)); BIN(Filter(a, b, CONV_CENTRAL, FILTER_OLA));
		BINOUT(R, Convolution(a, b, CONV_FULL), Filter(O, a, b, CONV_FULL, FILTER_OLA)); BINOUT(R, Convolution(a, b, CONV_CENTRAL), Filter(O, a, b, CONV_CENTRAL, FILTER_OLA));
	}
	// Streaming: the state is an operand that is both read and written.
	if (m < 2) return;
	const auto state = Sig<T>(m - 1, n + m + 900, 1);
	auto joined = state;
	joined.append(x);
	const auto conv = Convolution(joined, y, m - 1, n);
	auto wantState = joined;
	wantState.erase(wantState.begin(), wantState.begin() + n);
	auto stream = [&](const char* name, auto engine) {
		if (!mc::Case("stateful", name, TypeName<T>(), TypeName<U>(), n, m)) return;
		Operand(x, 1, [&](auto& a, int) {
			Operand(y, 3, [&](auto& b, int) {
				Output<T, TIME_DOMAIN>(wantState, 2, state, [&](auto&& s) { Same(Filter(a, b, std::forward<decltype(s)>(s), engine), conv, "returned stream"); });
				Output<R, TIME_DOMAIN>(conv, 2, Garbage<R>(n), [&](auto&& o) {
					auto s = state;
					Filter(O, a, b, s, engine);
					Same(s, wantState, "state signal");
					s = state;
					Filter(O, a, b, AsView(s), engine);
					Same(s, wantState, "state through a temporary view");
				});
			});
		});
	};
	stream("conv", FILTER_CONV);
	if constexpr (std::is_same_v<real_of_t<T>, real_of_t<U>>) stream("ola", FILTER_OLA);
}
template <class T>
static void IirForms(size_t n) {
	const auto x = Sig<T>(n, n, 0.25L);
	DiscreteZeroPoleGain<double> zpk{ 0.7, FactoredPolynomial<double>(), FactoredPolynomial<double>() };
	zpk.zeros.resize(1, 1); zpk.zeros.real_roots()[0] = -0.5; zpk.zeros.complex_pairs()[0] = { 0.25, 0.75 };
	zpk.poles.resize(1, 1); zpk.poles.real_roots()[0] = 0.5; zpk.poles.complex_pairs()[0] = { -0.25, 0.5 };
	const DiscreteTransferFunction<double> tf{ zpk };
	const CascadedBiquad<double> bq{ zpk };
	auto df1 = [&] { return DirectFormI<T>{ tf.order() }; };
	auto df2 = [&] { return DirectFormII<T>{ tf.order() }; };
	auto cas = [&] { return CascadedForm<T>{ bq.order() }; };
	UN(([&] { auto s = df1(); return Filter(a, tf, s); }()));
	UN(([&] { auto s = df2(); return Filter(a, tf, s); }()));
	UN(([&] { auto s = cas(); return Filter(a, bq, s); }()));
	UnOut<T>("direct form 1", x, [&] { auto s = df1(); return Filter(x, tf, s); }, [&](auto&& o, auto& a) { auto s = df1(); Filter(O, a, tf, s); });
	UnOut<T>("direct form 2", x, [&] { auto s = df2(); return Filter(x, tf, s); }, [&](auto&& o, auto& a) { auto s = df2(); Filter(O, a, tf, s); });
	UnOut<T>("cascade", x, [&] { auto s = cas(); return Filter(x, bq, s); }, [&](auto&& o, auto& a) { auto s = cas(); Filter(O, a, bq, s); });
	// In place.
	if (mc::Case("iir-in-place", TypeName<T>(), n)) {
		auto s0 = df1(); const auto w1 = Filter(x, tf, s0);
		Output<T, TIME_DOMAIN>(w1, 1, x, [&](auto&& o) { auto s = df1(); Filter(O, o, tf, s); });
		Output<T, TIME_DOMAIN>(w1, 1, x, [&](auto&& o) { auto s = df2(); Filter(O, o, tf, s); });
		Output<T, TIME_DOMAIN>(w1, 1, x, [&](auto&& o) { auto s = cas(); Filter(O, o, bq, s); });
	}
}
static void Body() {
	for (size_t n : Sizes())
		for (size_t m : Sizes()) {
			if (n > 40 && m > 40 && n != m) continue;
			Convolutions<double, double>(n, m);
			if ((n > 9 || m > 9) && n != m && !mc::Thorough()) continue;
			Convolutions<float, float>(n, m);
			Convolutions<double, float>(n, m);
			Convolutions<std::complex<double>, double>(n, m);
			Convolutions<std::complex<float>, std::complex<float>>(n, m);
		}
	for (size_t n : Sizes()) IirForms<double>(n), IirForms<float>(n), IirForms<std::complex<double>>(n);
}
#else
template <class T>
static void Transforms(size_t n) {
	using C = std::complex<real_of_t<T>>;
	{
		const auto x = Sig<T>(n, n);
		UN(FftShift(a)); UN(IfftShift(a));
		UNOUT(T, FftShift(a), FftShift(O, a)); UNOUT(T, IfftShift(a), IfftShift(O, a));
		if constexpr (is_cplx<T>::value) {
			UN(Fft(a));
			UnOut<C, FREQUENCY_DOMAIN>("Fft", x, [&] { return Fft(x); }, [&](auto&& o, auto& a) { Fft(O, a); });
		}
		else {
			UN(Fft(a, FFT_FULL)); UN(Fft(a, FFT_HALF));
			UnOut<C, FREQUENCY_DOMAIN>("Fft, full", x, [&] { return Fft(x, FFT_FULL); }, [&](auto&& o, auto& a) { Fft(O, a); });
			UnOut<C, FREQUENCY_DOMAIN>("Fft, half", x, [&] { return Fft(x, FFT_HALF); }, [&](auto&& o, auto& a) { Fft(O, a); });
		}
	}
	{
		const auto x = Sig<C, FREQUENCY_DOMAIN>(n, n + 77);
		UN(FftShift(a));
		UnOut<C, FREQUENCY_DOMAIN>("FftShift of a spectrum", x, [&] { return FftShift(x); }, [&](auto&& o, auto& a) { FftShift(O, a); });
		UnOut<C, FREQUENCY_DOMAIN>("IfftShift of a spectrum", x, [&] { return IfftShift(x); }, [&](auto&& o, auto& a) { IfftShift(O, a); });
		if constexpr (is_cplx<T>::value) {
			UN(Ifft(a));
			UNOUT(C, Ifft(a), Ifft(O, a));
		}
	}
	if constexpr (!is_cplx<T>::value) {
		const auto s = Sig<T>(n, n + 3);
		{
			const auto x = Fft(s, FFT_HALF);
			Un("Ifft, half", x, [&](auto& a) { return Ifft(a, FFT_HALF, n % 2 == 0); });
			UnOut<T>("Ifft, half", x, [&] { return Ifft(x, FFT_HALF, n % 2 == 0); }, [&](auto&& o, auto& a) { Ifft(O, a); });
		}
		{
			const auto x = Fft(s, FFT_FULL);
			UN(Ifft(a, FFT_FULL));
			UnOut<T>("Ifft, full", x, [&] { return Ifft(x, FFT_FULL); }, [&](auto&& o, auto& a) { Ifft(O, a); });
		}
	}
}
template <class T>
static void Resampling(size_t n) {
	using R = real_of_t<T>;
	const auto x = Sig<T>(n, n, 1);
	UN(PolyphaseDecompose(a, 1)); UN(PolyphaseDecompose(a, 3)); UN(PolyphaseDecompose(a, 4));
	UnOut<T>("PolyphaseDecompose", x, [&] { BasicSignal<T, TIME_DOMAIN> w(n); PolyphaseDecompose(w, x, 3); return w; }, [&](auto&& o, auto& a) { PolyphaseDecompose(O, a, 3); });
	UN(Decimate(a, 1)); UN(Decimate(a, 3)); UN(Expand(a, 1)); UN(Expand(a, 3));
	UNOUT(T, Decimate(a, 3), Decimate(O, a, 3)); UNOUT(T, Expand(a, 3), Expand(O, a, 3));
	for (size_t taps : { 1, 5, 12 }) {
		const auto h = Sig<R>(taps, taps + 30, 1);
		const auto y = h;
		const size_t k = taps / 2, l = n + taps / 2;
		Bin("Interpolate", x, h, [&](auto& a, auto& b) { return Interpolate(a, PolyphaseDecompose(b, 3), k, l); });
		Bin("Resample, full", x, h, [&](auto& a, auto& b) { return Resample(a, PolyphaseDecompose(b, 3), { 3, 2 }, CONV_FULL); });
		if (n * 3 >= taps) Bin("Resample, central", x, h, [&](auto& a, auto& b) { return Resample(a, PolyphaseDecompose(b, 3), { 3, 2 }, CONV_CENTRAL); });
		Bin("Resample, section", x, h, [&](auto& a, auto& b) { return Resample(a, PolyphaseDecompose(b, 3), { 3, 2 }, { 1, 3 }, n / 3); });
		auto poly = PolyphaseDecompose(h, 3);
		const auto cpoly = poly;
		PolyphaseView<R, TIME_DOMAIN>& vpoly = poly;
		const BasicSignal<T, TIME_DOMAIN>& cx = x;
		UnOut<T>(("Interpolate " + std::to_string(taps)).c_str(), x, [&] { return Interpolate(cx, cpoly, k, l); }, [&](auto&& o, auto& a) { Interpolate(O, a, poly, k); });
		UnOut<T>(("Interpolate by a view " + std::to_string(taps)).c_str(), x, [&] { return Interpolate(cx, cpoly, k, l); }, [&](auto&& o, auto& a) { Interpolate(O, a, vpoly, k); });
		UnOut<T>(("Resample from the start " + std::to_string(taps)).c_str(), x, [&] { return Resample(cx, cpoly, { 3, 2 }, { 0, 1 }, n / 3); }, [&](auto&& o, auto& a) { Resample(O, a, poly, { 3, 2 }); });
		UnOut<T>(("Resample " + std::to_string(taps)).c_str(), x, [&] { return Resample(cx, cpoly, { 3, 2 }, { 1, 3 }, n / 3); }, [&](auto&& o, auto& a) { Resample(O, a, poly, { 3, 2 }, { 1, 3 }); });
	}
	for (size_t t : { 0, 1, 2 }) { // Suspension points do not depend on the forms either.
		const auto y = Sig<R>(4 + t, t, 1);
		BIN(([&] { BasicSignal<T, TIME_DOMAIN> o(n); return Interpolate(o, a, PolyphaseDecompose(b, 2), 1); }()));
		BIN(([&] { BasicSignal<T, TIME_DOMAIN> o(n / 2); return Resample(o, a, PolyphaseDecompose(b, 2), { 3, 2 }, { 1, 2 }); }()));
	}
}
template <class T>
static void Responses(size_t n) {
	using R = real_of_t<T>;
	const auto x = Sig<T>(n, n);
	UnOut<T>("MirrorResponse", x, [&] { BasicSignal<T, TIME_DOMAIN> w(n); fir::MirrorResponse(w, x); return w; }, [&](auto&& o, auto& a) { fir::MirrorResponse(O, a); });
	if (n % 2) UnOut<T>("ComplementaryResponse", x, [&] { BasicSignal<T, TIME_DOMAIN> w(n); fir::ComplementaryResponse(w, x); return w; }, [&](auto&& o, auto& a) { fir::ComplementaryResponse(O, a); });
	UnOut<T>("ShiftResponse", x, [&] { BasicSignal<T, TIME_DOMAIN> w(n); fir::ShiftResponse(w, x, R(0.3)); return w; }, [&](auto&& o, auto& a) { fir::ShiftResponse(O, a, R(0.3)); });
	if (n % 2) UnOut<T>("HalfbandToHilbertOdd", x, [&] { BasicSignal<T, TIME_DOMAIN> w(n); fir::HalfbandToHilbertOdd(w, x); return w; }, [&](auto&& o, auto& a) { fir::HalfbandToHilbertOdd(O, a); });
	if (n % 4 == 3) UnOut<T>("HalfbandToHilbertEven", x, [&] { BasicSignal<T, TIME_DOMAIN> w((n + 1) / 2); fir::HalfbandToHilbertEven(w, x); return w; }, [&](auto&& o, auto& a) { fir::HalfbandToHilbertEven(O, a); });
	// Into outputs of another precision.
	if constexpr (!is_cplx<T>::value) {
		using P = std::conditional_t<std::is_same_v<T, float>, double, float>;
		UnOut<P>("MirrorResponse", x, [&] { BasicSignal<T, TIME_DOMAIN> w(n); fir::MirrorResponse(w, x); return w; }, [&](auto&& o, auto& a) { fir::MirrorResponse(O, a); });
		if (n % 2) UnOut<P>("HalfbandToHilbertOdd", x, [&] { BasicSignal<T, TIME_DOMAIN> w(n); fir::HalfbandToHilbertOdd(w, x); return w; }, [&](auto&& o, auto& a) { fir::HalfbandToHilbertOdd(O, a); });
		if (n % 4 == 3) UnOut<P>("HalfbandToHilbertEven", x, [&] { BasicSignal<T, TIME_DOMAIN> w((n + 1) / 2); fir::HalfbandToHilbertEven(w, x); return w; }, [&](auto&& o, auto& a) { fir::HalfbandToHilbertEven(O, a); });
	}
	UN(CoherentGain(a)); UN(EnergyGain(a));
	if constexpr (!is_cplx<T>::value) {
		UN(FrequencyResponse(a)); UN(FrequencyResponse(a, 100));
		// Windows given as signals or views, in designs that return or write.
		auto design = [&](const char* name, auto desc) {
			UnOut<T>(name, x, [&] { return DesignFilter<T, TIME_DOMAIN>(n, desc(x)); }, [&](auto&& o, auto& a) { DesignFilter(O, desc(a)); });
			Un(name, x, [&](auto& a) { return DesignFilter<T, TIME_DOMAIN>(n, desc(a)); });
		};
		if (n % 2 == 0) return;
		design("windowed lowpass", [](auto& w) { return Fir.Lowpass.Windowed.Cutoff(R(0.3)).Window(w); });
		design("windowed highpass", [](auto& w) { return Fir.Highpass.Windowed.Cutoff(R(0.3)).Window(w); });
		design("windowed bandpass", [](auto& w) { return Fir.Bandpass.Windowed.Band(R(0.3), R(0.6)).Window(w); });
		design("windowed bandstop", [](auto& w) { return Fir.Bandstop.Windowed.Band(R(0.3), R(0.6)).Window(w); });
		if (n > 1) design("windowed hilbert", [](auto& w) { return Fir.Hilbert.Windowed.Window(w); });
		design("windowed arbitrary", [](auto& w) { return Fir.Arbitrary.Windowed.Response([](R f) { return f < R(0.4) ? R(1) : R(0.25); }).Window(w); });
	}
}
// Recursive filters designed in place.
template <class T>
static void InPlaceDesigns() {
	auto design = [&](const char* name, auto desc, size_t step) {
		for (size_t order = step; order <= mc::Tier<size_t>(8, 16); order += step) {
			if (!mc::Case("in-place-design", name, TypeName<T>(), order)) continue;
			const auto want = DesignFilter<T>(order, desc);
			for (size_t real = order % 2; real <= order; real += 2) { // However the output is grouped before.
				DiscreteZeroPoleGain<T> out;
				out.gain = T(-3);
				out.zeros.resize(real, (order - real) / 2);
				out.poles.resize(order % 2, order / 2);
				DesignFilter(out, desc);
				mc::Step();
				mc::Eq(LD(out.gain), LD(want.gain), "gain");
				auto same = [](const auto& g, const auto& w, const char* what) {
					mc::Eq(g.num_real_roots(), w.num_real_roots(), what);
					mc::Eq(g.num_complex_pairs(), w.num_complex_pairs(), what);
					for (size_t i = 0; i < g.num_real_roots(); ++i) mc::Eq(LD(g.real_roots()[i]), LD(w.real_roots()[i]), what, i);
					for (size_t i = 0; i < g.num_complex_pairs(); ++i) mc::Check(g.complex_pairs()[i] == w.complex_pairs()[i], what);
				};
				same(out.zeros, want.zeros, "zeros");
				same(out.poles, want.poles, "poles");
			}
		}
	};
	auto methods = [&](auto pick) {
		const auto b = pick(Iir.Lowpass, Iir.Highpass, Iir.Bandpass, Iir.Bandstop);
		const char* names[4] = { "lowpass", "highpass", "bandpass", "bandstop" };
		design(names[0], std::get<0>(b).Cutoff(T(0.3)), 1);
		design(names[1], std::get<1>(b).Cutoff(T(0.3)), 1);
		design(names[2], std::get<2>(b).Band(T(0.3), T(0.6)), 2);
		design(names[3], std::get<3>(b).Band(T(0.3), T(0.6)), 2);
	};
	methods([](auto& l, auto& h, auto& p, auto& s) { return std::tuple{ l.Butterworth, h.Butterworth, p.Butterworth, s.Butterworth }; });
	methods([](auto& l, auto& h, auto& p, auto& s) { return std::tuple{ l.Chebyshev1, h.Chebyshev1, p.Chebyshev1, s.Chebyshev1 }; });
	methods([](auto& l, auto& h, auto& p, auto& s) { return std::tuple{ l.Chebyshev2, h.Chebyshev2, p.Chebyshev2, s.Chebyshev2 }; });
	methods([](auto& l, auto& h, auto& p, auto& s) { return std::tuple{ l.Elliptic, h.Elliptic, p.Elliptic, s.Elliptic }; });
}
// Optional arguments left out.
template <class T>
static void Defaults(size_t n) {
	using R = real_of_t<T>;
	using S = BasicSignal<T, TIME_DOMAIN>;
	auto gen = [&](const char* name, auto omitted, auto given) {
		if (!mc::Case("omitted", name, TypeName<T>(), n)) return;
		mc::Step(2);
		S got(n), want(n);
		omitted(got);
		given(want);
		Same(got, want, "written");
		mc::StateOf(want);
	};
	auto ret = [&](const char* name, const S& omitted, const S& given) {
		if (!mc::Case("omitted", name, TypeName<T>(), n)) return;
		mc::Step(2);
		Same(omitted, given, "returned");
	};
	gen("LinSpace", [](auto& o) { LinSpace(o, R(-1), R(2)); }, [](auto& o) { LinSpace(o, R(-1), R(2), true); });
	ret("LinSpace", LinSpace<T, TIME_DOMAIN>(R(-1), R(2), n), LinSpace<T, TIME_DOMAIN>(R(-1), R(2), n, true));
	gen("LogSpace", [](auto& o) { LogSpace(o, R(-1), R(2)); }, [](auto& o) { LogSpace(o, R(-1), R(2), R(10), true); });
	ret("LogSpace", LogSpace<T, TIME_DOMAIN>(R(-1), R(2), n), LogSpace<T, TIME_DOMAIN>(R(-1), R(2), n, R(10), true));
	gen("LogSpace, base", [](auto& o) { LogSpace(o, R(-1), R(2), R(2)); }, [](auto& o) { LogSpace(o, R(-1), R(2), R(2), true); });
	{
		const S one(n), zero(n, T(0));
		ret("signal", one, zero);
		S a(n / 2, T(R(3))), b = a;
		a.resize(n); b.resize(n, T(0));
		ret("resize", a, b);
	}
	if constexpr (!is_cplx<T>::value) {
		const uint64_t rate = 48000;
		const double f = 1234.5, g = 3000.0;
#define WAVE(name, given, ...) \
	gen(#name, [&](auto& o) { name(o, rate, __VA_ARGS__); }, [&](auto& o) { name(o, rate, __VA_ARGS__, given); }); \
	ret(#name, name<T, TIME_DOMAIN>(n, rate, __VA_ARGS__), name<T, TIME_DOMAIN>(n, rate, __VA_ARGS__, given))
#define WAVE2(name, second, ...) \
	gen(#name ", second", [&](auto& o) { name(o, rate, __VA_ARGS__, 0.75); }, [&](auto& o) { name(o, rate, __VA_ARGS__, 0.75, second); }); \
	ret(#name ", second", name<T, TIME_DOMAIN>(n, rate, __VA_ARGS__, 0.75), name<T, TIME_DOMAIN>(n, rate, __VA_ARGS__, 0.75, second))
		WAVE(SineWave, 0.0, f); WAVE(SawtoothWave, 0.0, f); WAVE(PwmWave, 0.0, f); WAVE(SquareWave, 0.0, f);
		WAVE(SineChirp, 0.0, f, g); WAVE(SawtoothChirp, 0.0, f, g); WAVE(PwmChirp, 0.0, f, g); WAVE(SquareChirp, 0.0, f, g);
		WAVE2(SawtoothWave, 1.0, f); WAVE2(PwmWave, 0.5, f); WAVE2(SawtoothChirp, 1.0, f, g); WAVE2(PwmChirp, 0.5, f, g);
		ret("GaussianWindow", GaussianWindow<T, TIME_DOMAIN>(n), GaussianWindow<T, TIME_DOMAIN>(n, T(1)));
		ret("KaiserWindow", KaiserWindow<T, TIME_DOMAIN>(n), KaiserWindow<T, TIME_DOMAIN>(n, T(1)));
	}
}
// Outputs alone.
template <class T>
static void Generated(size_t n) {
	using R = real_of_t<T>;
	auto gen = [&](const char* name, auto f) {
		if (!mc::Case("generated", name, TypeName<T>(), n)) return;
		BasicSignal<T, TIME_DOMAIN> want(n);
		f(want);
		Output<T, TIME_DOMAIN>(want, 3, Garbage<T>(n), f);
		mc::StateOf(want);
	};
	gen("LinSpace", [](auto&& o) { LinSpace(O, R(-1), R(2), true); });
	gen("LogSpace", [](auto&& o) { LogSpace(O, R(-1), R(2), R(10), true); });
	gen("Hamming", [](auto&& o) { HammingWindow(O); });
	gen("FlatTop", [](auto&& o) { FlatTopWindow(O); });
	gen("Rectangular", [](auto&& o) { RectangularWindow(O); });
	gen("Triangular", [](auto&& o) { TriangularWindow(O); });
	gen("Blackman", [](auto&& o) { BlackmanWindow(O); });
	gen("BlackmanHarris", [](auto&& o) { BlackmanHarrisWindow(O); });
	gen("Gaussian", [](auto&& o) { GaussianWindow(O, R(0.4)); });
	gen("Kaiser", [](auto&& o) { KaiserWindow(O, R(3)); });
	gen("Lanczos", [](auto&& o) { LanczosWindow(O); });
	gen("DolphChebyshev", [](auto&& o) { DolphChebyshevWindow(O, R(0.01)); });
	if constexpr (!is_cplx<T>::value) {
		gen("SineWave", [](auto&& o) { SineWave(O, 48000, 1234.5, 0.3); });
		gen("SawtoothWave", [](auto&& o) { SawtoothWave(O, 48000, 1234.5, 0.3, 0.5); });
		gen("PwmWave", [](auto&& o) { PwmWave(O, 48000, 1234.5, 0.3, 0.25); });
		gen("SquareWave", [](auto&& o) { SquareWave(O, 48000, 1234.5, 0.3); });
		gen("SineChirp", [](auto&& o) { SineChirp(O, 48000, 100.0, 3000.0, 0.3); });
		gen("SawtoothChirp", [](auto&& o) { SawtoothChirp(O, 48000, 100.0, 3000.0, 0.3, 0.5); });
		gen("PwmChirp", [](auto&& o) { PwmChirp(O, 48000, 100.0, 3000.0, 0.3, 0.25); });
		gen("SquareChirp", [](auto&& o) { SquareChirp(O, 48000, 100.0, 3000.0, 0.3); });
		gen("least squares lowpass", [](auto&& o) { DesignFilter(O, Fir.Lowpass.LeastSquares.Cutoff(R(0.3), R(0.5))); });
		if (n % 2) gen("windowed lowpass", [](auto&& o) { DesignFilter(O, Fir.Lowpass.Windowed.Cutoff(R(0.3)).Window(windows::hamming)); });
		if (n % 2) gen("windowed bandstop", [](auto&& o) { DesignFilter(O, Fir.Bandstop.Windowed.Band(R(0.3), R(0.5)).Window(windows::hamming)); });
		gen("windowed hilbert", [](auto&& o) { DesignFilter(O, Fir.Hilbert.Windowed.Window(windows::hamming)); });
		if (n > 4) gen("least squares hilbert", [](auto&& o) { DesignFilter(O, Fir.Hilbert.LeastSquares.TransitionWidth(R(0.2))); });
	}
}
template <class T>
static void Measuring() {
	for (size_t n : { 64, 255, 600 })
		for (int kind = 0; kind < 4; ++kind) {
			const auto x = [&] {
				Spectrum<T> s(n);
				for (size_t i = 0; i < n; ++i) {
					const double f = double(i) / double(n - 1);
					const double low = f < 0.3 ? 1.0 + 0.03 * std::cos(40 * f) : f > 0.4 ? 0.02 * std::abs(std::sin(50 * f)) : 1.0 - (f - 0.3) * 9.8;
					const double band = f < 0.25 || f > 0.75 ? 0.02 : f > 0.35 && f < 0.65 ? 1.0 + 0.02 * std::cos(60 * f) : f < 0.5 ? 0.02 + (f - 0.25) * 9.8 : 1 - (f - 0.65) * 9.8;
					s[kind == 1 ? n - 1 - i : i] = T(kind < 2 ? low : kind == 2 ? band : 1.02 - band);
				}
				return s;
			}();
			auto edges = [](const auto& p) { return std::vector<double>{ double(p.passbandEdge), double(p.stopbandEdge), double(p.passbandRipple), double(p.stopbandAtten) }; };
			auto bpEdges = [](const auto& p) { return std::vector<double>{ double(p.lowerStopbandEdge), double(p.passbandLowerEdge), double(p.passbandUpperEdge), double(p.upperStopbandEdge), double(p.lowerStopbandAtten), double(p.passbandRipple), double(p.upperStopbandAtten) }; };
			auto bsEdges = [](const auto& p) { return std::vector<double>{ double(p.lowerPassbandEdge), double(p.stopbandLowerEdge), double(p.stopbandUpperEdge), double(p.upperPassbandEdge), double(p.lowerPassbandRipple), double(p.stopbandAtten), double(p.upperPassbandRipple) }; };
			Un(("MeasureFilter " + std::to_string(kind)).c_str(), x, [&](auto& a) { return std::vector<double>{ double(MeasureFilter(a).index()) }; });
			switch (kind) {
				case 0: Un("MeasureLowpassFilter", x, [&](auto& a) { return edges(MeasureLowpassFilter(a)); }); break;
				case 1: Un("MeasureHighpassFilter", x, [&](auto& a) { return edges(MeasureHighpassFilter(a)); }); break;
				case 2: Un("MeasureBandpassFilter", x, [&](auto& a) { return bpEdges(MeasureBandpassFilter(a)); }); break;
				case 3: Un("MeasureBandstopFilter", x, [&](auto& a) { return bsEdges(MeasureBandstopFilter(a)); }); break;
			}
		}
}
static void Body() {
	for (size_t n : Sizes()) {
		Transforms<double>(n); Transforms<float>(n); Transforms<std::complex<double>>(n); Transforms<std::complex<float>>(n);
		Resampling<double>(n); Resampling<float>(n); Resampling<std::complex<double>>(n);
		Responses<double>(n); Responses<float>(n); Responses<std::complex<double>>(n);
		if (n > 1) { Generated<double>(n); Generated<float>(n); }
		if (n > 1) { Defaults<double>(n); Defaults<float>(n); Defaults<std::complex<double>>(n); }
	}
	Measuring<double>();
	Measuring<float>();
	InPlaceDesigns<double>();
	InPlaceDesigns<float>();
}
#endif
MC_MAIN(Body)
