// C32: domains never mix, constant data is never an output, and results have the operands' domain and the scalar operation's type.
//   -DPART=1 values; 2, 3 what is refused; 4, 5 types of results.
#include "ref.hpp"
#include <dspbb/Filtering/FIR.hpp>
#include <dspbb/Filtering/MeasureFilter.hpp>
#include <dspbb/Filtering/Polyphase.hpp>
#include <dspbb/Filtering/Resample.hpp>
#include <dspbb/Filtering/Windowing.hpp>
#include <dspbb/Generators/Spaces.hpp>
#include <dspbb/Generators/Waveforms.hpp>
#include <dspbb/Math/Convolution.hpp>
#include <dspbb/Math/DotProduct.hpp>
#include <dspbb/Math/FFT.hpp>
#include <dspbb/Math/Functions.hpp>
#include <dspbb/Math/OverlapAdd.hpp>
#include <dspbb/Math/Statistics.hpp>
#include <dspbb/Primitives/SignalArithmetic.hpp>
using namespace dspbb;
using namespace ref;
using cf = std::complex<float>;
using cd = std::complex<double>;

template <class T, eSignalDomain D> using S = BasicSignal<T, D>;
template <class T, eSignalDomain D> using V = BasicSignalView<T, D>;
template <class T, eSignalDomain D> using CV = BasicSignalView<const T, D>;

template <class T> constexpr eSignalDomain DomainOf = signal_traits<std::decay_t<T>>::domain;
template <class T> using Elem = std::remove_cv_t<typename signal_traits<std::decay_t<T>>::type>;

// Whether an expression of the given operands is accepted, without evaluating it.
#define ALLOWED(...) ([]<class A, class B, class C>(std::type_identity<A>, std::type_identity<B>, std::type_identity<C>) { return requires(A a, B b, C c) { __VA_ARGS__; }; }(std::type_identity<A>{}, std::type_identity<B>{}, std::type_identity<C>{}))

template <class F>
void ForDomains(F&& f) {
	f(std::integral_constant<eSignalDomain, TIME_DOMAIN>{});
	f(std::integral_constant<eSignalDomain, FREQUENCY_DOMAIN>{});
	f(std::integral_constant<eSignalDomain, QUEFRENCY_DOMAIN>{});
	f(std::integral_constant<eSignalDomain, DOMAINLESS>{});
}
// Every reference form an operand can have.
template <class T, eSignalDomain D, class F>
void ForForms(F&& f) {
	f(std::type_identity<S<T, D>&>{}, 0);
	f(std::type_identity<const S<T, D>&>{}, 1);
	f(std::type_identity<V<T, D>&>{}, 2);
	f(std::type_identity<const V<T, D>&>{}, 3);
	f(std::type_identity<CV<T, D>&>{}, 4);
}
static void Is(bool got, bool want, const char* what) { mc::Step(); mc::Check(got == want, [&] { return std::string(what) + (want ? " is refused" : " is accepted"); }); }

// Two operands of possibly different domains.
template <class T, class U>
void Mixing() {
	ForDomains([](auto da) {
		ForDomains([=](auto db) {
			ForForms<T, decltype(da)::value>([&](auto fa, int ia) {
				ForForms<U, decltype(db)::value>([&](auto fb, int ib) {
					if (!mc::Case("mixing", TypeName<T>(), TypeName<U>(), int(decltype(da)::value), int(decltype(db)::value), ia, ib)) return;
					constexpr bool same = decltype(da)::value == decltype(db)::value;
					using A = typename decltype(fa)::type;
					using B = typename decltype(fb)::type;
					using C = size_t;
					mc::StateOf(int(decltype(da)::value), int(decltype(db)::value), ia, ib);
					Is(ALLOWED(a + b), same, "a + b");
					Is(ALLOWED(a - b), same, "a - b");
					Is(ALLOWED(a * b), same, "a * b");
					Is(ALLOWED(a / b), same, "a / b");
					Is(ALLOWED(DotProduct(a, b)), same, "DotProduct");
					Is(ALLOWED(Convolution(a, b, CONV_FULL)), same, "full convolution");
					Is(ALLOWED(Convolution(a, b, CONV_CENTRAL)), same, "central convolution");
					Is(ALLOWED(Convolution(a, b, c, c)), same, "convolution window");
					if constexpr (std::is_same_v<real_of_t<T>, real_of_t<U>>) {
						Is(ALLOWED(OverlapAdd(a, b, CONV_FULL)), same, "full overlap-add");
						Is(ALLOWED(OverlapAdd(a, b, CONV_CENTRAL)), same, "central overlap-add");
						Is(ALLOWED(OverlapAdd(a, b, c, c)), same, "overlap-add window");
						Is(ALLOWED(Filter(a, b, CONV_FULL, FILTER_OLA)), same, "overlap-add filter");
					}
					Is(ALLOWED(Filter(a, b, CONV_FULL, FILTER_CONV)), same, "full filter");
					Is(ALLOWED(Filter(a, b, CONV_CENTRAL, FILTER_CONV)), same, "central filter");
					constexpr bool mutableA = !std::is_same_v<A, const S<T, decltype(da)::value>&> && !std::is_same_v<A, CV<T, decltype(da)::value>&>;
					if constexpr (!is_cplx<U>::value || is_cplx<T>::value) {
						Is(ALLOWED(a += b), same && mutableA, "a += b");
						Is(ALLOWED(a -= b), same && mutableA, "a -= b");
						Is(ALLOWED(a *= b), same && mutableA, "a *= b");
						Is(ALLOWED(a /= b), same && mutableA, "a /= b");
						// Outputs.
						Is(ALLOWED(Add(a, b, b)), same && mutableA, "Add to output");
						Is(ALLOWED(Subtract(a, b, b)), same && mutableA, "Subtract to output");
						Is(ALLOWED(Multiply(a, b, b)), same && mutableA, "Multiply to output");
						Is(ALLOWED(Divide(a, b, b)), same && mutableA, "Divide to output");
						using Num = real_of_t<U>;
						Is(ALLOWED(Multiply(a, b, Num(2))), same && mutableA, "Multiply by scalar to output");
						Is(ALLOWED(Divide(a, Num(2), b)), same && mutableA, "Divide scalar to output");
						Is(ALLOWED(Add(a, Num(2), b)), same && mutableA, "Add scalar to output");
						Is(ALLOWED(Subtract(a, b, Num(2))), same && mutableA, "Subtract scalar to output");
						if constexpr (mutableA) {
							Is(ALLOWED(Convolution(a, b, b, CONV_FULL)), same, "convolution to output");
							Is(ALLOWED(Convolution(a, b, b, CONV_CENTRAL)), same, "central convolution to output");
							Is(ALLOWED(Convolution(a, b, b, c)), same, "convolution window to output");
							Is(ALLOWED(Filter(a, b, b, CONV_FULL, FILTER_CONV)), same, "filter to output");
							Is(ALLOWED(Decimate(a, b, c)), same, "Decimate to output");
							Is(ALLOWED(Expand(a, b, c)), same, "Expand to output");
							Is(ALLOWED(PolyphaseDecompose(a, b, c)), same, "PolyphaseDecompose to output");
							if constexpr (std::is_same_v<T, U>) {
								Is(ALLOWED(OverlapAdd(a, b, b, CONV_FULL)), same, "overlap-add to output");
								Is(ALLOWED(OverlapAdd(a, b, b, c)), same, "overlap-add window to output");
								Is(ALLOWED(Exp(a, b)), same, "Exp to output");
								Is(ALLOWED(Sqrt(a, b)), same, "Sqrt to output");
								Is(ALLOWED(Pow(a, b, T(2))), same, "Pow to output");
								Is(ALLOWED(FftShift(a, b)), same, "FftShift to output");
								Is(ALLOWED(IfftShift(a, b)), same, "IfftShift to output");
								if constexpr (!is_cplx<T>::value) {
									Is(ALLOWED(Abs(a, b)), same, "Abs to output");
									Is(ALLOWED(LGamma(a, b)), same, "LGamma to output");
									Is(ALLOWED(fir::MirrorResponse(a, b)), same, "MirrorResponse to output");
									Is(ALLOWED(fir::ComplementaryResponse(a, b)), same, "ComplementaryResponse to output");
									Is(ALLOWED(fir::ShiftResponse(a, b, T(0.25))), same, "ShiftResponse to output");
								}
								Is(ALLOWED(Filter(b, b, a, FILTER_CONV)), same, "filter state");
							}
						}
					}
				});
			});
			// Assignment and construction.
			if (!mc::Case("conversion", TypeName<T>(), TypeName<U>(), int(decltype(da)::value), int(decltype(db)::value))) return;
			constexpr bool same = decltype(da)::value == decltype(db)::value, sameType = std::is_same_v<T, U>;
			if constexpr (!same || (!is_cplx<U>::value || is_cplx<T>::value)) {
				Is(std::is_constructible_v<S<T, decltype(da)::value>, S<U, decltype(db)::value>&>, same, "signal from signal");
				Is(std::is_assignable_v<S<T, decltype(da)::value>&, const S<U, decltype(db)::value>&>, same, "signal assigned a signal");
			}
			Is(std::is_constructible_v<V<T, decltype(da)::value>, S<U, decltype(db)::value>&>, same && sameType, "view of a signal");
			Is(std::is_constructible_v<V<T, decltype(da)::value>, const S<U, decltype(db)::value>&>, false, "mutable view of a constant signal");
			Is(std::is_constructible_v<V<T, decltype(da)::value>, S<U, decltype(db)::value>&&>, false, "mutable view of a temporary signal");
			Is(std::is_constructible_v<CV<T, decltype(da)::value>, S<U, decltype(db)::value>&>, same && sameType, "constant view of a signal");
			Is(std::is_constructible_v<CV<T, decltype(da)::value>, const S<U, decltype(db)::value>&>, same && sameType, "constant view of a constant signal");
			Is(std::is_constructible_v<CV<T, decltype(da)::value>, const V<U, decltype(db)::value>&>, same && sameType, "constant view of a view");
			Is(std::is_constructible_v<V<T, decltype(da)::value>, const CV<U, decltype(db)::value>&>, false, "mutable view of a constant view");
			Is(std::is_constructible_v<V<T, decltype(da)::value>, const V<U, decltype(db)::value>&>, same && sameType, "view of a view");
			Is(std::is_assignable_v<V<T, decltype(da)::value>&, const V<U, decltype(db)::value>&>, same && sameType, "view assigned a view");
			Is(std::is_assignable_v<CV<T, decltype(da)::value>&, const V<U, decltype(db)::value>&>, same && sameType, "constant view assigned a view");
			Is(std::is_assignable_v<V<T, decltype(da)::value>&, const CV<U, decltype(db)::value>&>, false, "mutable view assigned a constant view");
			mc::StateOf(int(decltype(da)::value), int(decltype(db)::value), sizeof(T), sizeof(U));
		});
	});
}

#define RESULT(EXPR, T_, D_, WHAT) do { mc::Step(); using X_ = std::decay_t<decltype(EXPR)>; mc::Check(std::is_same_v<X_, BasicSignal<T_, D_>>, [] { return std::string(WHAT) + " has another type or domain"; }); } while (0)

template <class T, class U>
void Results() {
	ForDomains([](auto d) {
		constexpr auto D = d();
		ForForms<T, D>([&](auto fa, int ia) {
			ForForms<U, D>([&](auto fb, int ib) {
				if (!mc::Case("result", TypeName<T>(), TypeName<U>(), int(D), ia, ib)) return;
				using A = typename decltype(fa)::type;
				using B = typename decltype(fb)::type;
				using R = decltype(std::declval<T>() * std::declval<U>());
				mc::StateOf(int(D), ia, ib, sizeof(R));
				RESULT(std::declval<A>() + std::declval<B>(), R, D, "a + b");
				RESULT(std::declval<A>() - std::declval<B>(), R, D, "a - b");
				RESULT(std::declval<A>() * std::declval<B>(), R, D, "a * b");
				RESULT(std::declval<A>() / std::declval<B>(), R, D, "a / b");
				RESULT(std::declval<A>() * std::declval<U>(), R, D, "a * scalar");
				RESULT(std::declval<U>() * std::declval<A>(), R, D, "scalar * a");
				RESULT(std::declval<A>() + std::declval<U>(), R, D, "a + scalar");
				RESULT(std::declval<U>() + std::declval<A>(), R, D, "scalar + a");
				RESULT(std::declval<A>() - std::declval<U>(), R, D, "a - scalar");
				RESULT(std::declval<U>() - std::declval<A>(), R, D, "scalar - a");
				RESULT(std::declval<A>() / std::declval<U>(), R, D, "a / scalar");
				RESULT(std::declval<U>() / std::declval<A>(), R, D, "scalar / a");
				RESULT(Convolution(std::declval<A>(), std::declval<B>(), CONV_FULL), R, D, "full convolution");
				RESULT(Convolution(std::declval<A>(), std::declval<B>(), CONV_CENTRAL), R, D, "central convolution");
				RESULT(Convolution(std::declval<A>(), std::declval<B>(), size_t(0), size_t(1)), R, D, "convolution window");
				RESULT(Filter(std::declval<A>(), std::declval<B>(), CONV_FULL, FILTER_CONV), R, D, "filter");
				mc::Step();
				mc::Check(std::is_same_v<std::decay_t<decltype(DotProduct(std::declval<A>(), std::declval<B>()))>, R>, "DotProduct has another type");
				if constexpr (std::is_same_v<real_of_t<T>, real_of_t<U>>) {
					RESULT(OverlapAdd(std::declval<A>(), std::declval<B>(), CONV_FULL), R, D, "full overlap-add");
					RESULT(OverlapAdd(std::declval<A>(), std::declval<B>(), CONV_CENTRAL), R, D, "central overlap-add");
					RESULT(OverlapAdd(std::declval<A>(), std::declval<B>(), size_t(0), size_t(1)), R, D, "overlap-add window");
				}
			});
		});
	});
}
template <class A>
constexpr bool IsConst() { return std::is_const_v<std::remove_reference_t<A>> ? is_signal_v<std::decay_t<A>> : std::is_const_v<typename signal_traits<std::decay_t<A>>::type>; }
template <class T>
void Unary() {
	ForDomains([](auto d) {
		constexpr auto D = d();
		ForForms<T, D>([&](auto fa, int ia) {
			if (!mc::Case("unary", TypeName<T>(), int(D), ia)) return;
			using A = typename decltype(fa)::type;
			using R = real_of_t<T>;
			mc::StateOf(int(D), ia, sizeof(T));
			RESULT(Abs(std::declval<A>()), R, D, "Abs");
			RESULT(Arg(std::declval<A>()), R, D, "Arg");
			RESULT(Real(std::declval<A>()), R, D, "Real");
			RESULT(Imag(std::declval<A>()), R, D, "Imag");
			RESULT(Conj(std::declval<A>()), std::complex<R>, D, "Conj");
			RESULT(Exp(std::declval<A>()), T, D, "Exp");
			RESULT(Log(std::declval<A>()), T, D, "Log");
			RESULT(Log10(std::declval<A>()), T, D, "Log10");
			RESULT(Sqrt(std::declval<A>()), T, D, "Sqrt");
			RESULT(Pow(std::declval<A>(), T(2)), T, D, "Pow");
			RESULT(Sin(std::declval<A>()), T, D, "Sin");
			RESULT(Tan(std::declval<A>()), T, D, "Tan");
			RESULT(Acos(std::declval<A>()), T, D, "Acos");
			RESULT(Tanh(std::declval<A>()), T, D, "Tanh");
			RESULT(FftShift(std::declval<A>()), T, D, "FftShift");
			RESULT(IfftShift(std::declval<A>()), T, D, "IfftShift");
			if constexpr (!is_cplx<T>::value) {
				RESULT(LGamma(std::declval<A>()), T, D, "LGamma");
				RESULT(Erf(std::declval<A>()), T, D, "Erf");
				RESULT(Cbrt(std::declval<A>()), T, D, "Cbrt");
			}
			mc::Step();
			mc::Check(std::is_same_v<decltype(Sum(std::declval<A>())), T> && std::is_same_v<decltype(Mean(std::declval<A>())), T>, "Sum or Mean has another type");
			mc::Check(DomainOf<decltype(AsConstView(std::declval<A>()))> == D && std::is_same_v<decltype(AsConstView(std::declval<A>())), CV<T, D>>, "AsConstView");
			constexpr bool isConst = IsConst<A>();
			mc::Check(std::is_same_v<decltype(AsView(std::declval<A>())), std::conditional_t<isConst, CV<T, D>, V<T, D>>>, "AsView");
			using W = decltype(AsView(std::declval<A>()));
			mc::Check(std::is_same_v<decltype(std::declval<W>().subsignal(0, 1)), W> && std::is_same_v<decltype(std::declval<W>().first(0)), W> && std::is_same_v<decltype(std::declval<W>().last(0)), W>, "views of views");
			// Every way to a sample of constant data is constant.
			using L = std::conditional_t<isConst, const T&, T&>;
			mc::Check(std::is_same_v<decltype(std::declval<W>()[0]), L> && std::is_same_v<decltype(*std::declval<W>().begin()), L> && std::is_same_v<decltype(*std::declval<W>().data()), L> && std::is_same_v<decltype(*std::declval<W>().rbegin()), L> && std::is_same_v<decltype(std::declval<W>().front()), L> && std::is_same_v<decltype(std::declval<W>().back()), L>, "access through a view");
			mc::Check(std::is_same_v<decltype(*std::declval<W>().cbegin()), const T&> && std::is_same_v<decltype(*std::declval<W>().crend()), const T&>, "constant iterators of a view");
		});
	});
}

// Fourier transforms go from time to frequency and back.
template <class R>
void Transforms() {
	using K = std::complex<R>;
	ForDomains([](auto da) {
		ForDomains([=](auto db) {
			if (!mc::Case("transforms", TypeName<R>(), int(decltype(da)::value), int(decltype(db)::value))) return;
			constexpr auto X = decltype(da)::value, Y = decltype(db)::value;
			constexpr bool fwd = X == TIME_DOMAIN, inv = X == FREQUENCY_DOMAIN;
			using C = int;
			mc::StateOf(int(X), int(Y));
			{
				using A = const S<R, X>&;
				using B = S<K, Y>&;
				Is(ALLOWED(Fft(a, FFT_HALF)), fwd, "Fft half");
				Is(ALLOWED(Fft(a, FFT_FULL)), fwd, "Fft full");
				Is(ALLOWED(Fft(b, a)), fwd && Y == FREQUENCY_DOMAIN, "real Fft to output");
				if constexpr (fwd) {
					RESULT(Fft(std::declval<A>(), FFT_HALF), K, FREQUENCY_DOMAIN, "half spectrum");
					RESULT(Fft(std::declval<A>(), FFT_FULL), K, FREQUENCY_DOMAIN, "full spectrum");
				}
			}
			{
				using A = const S<K, X>&;
				using B = S<K, Y>&;
				Is(ALLOWED(Fft(a)), fwd, "complex Fft");
				Is(ALLOWED(Ifft(a)), inv, "complex Ifft");
				Is(ALLOWED(Ifft(a, FFT_HALF, true)), inv, "Ifft half");
				Is(ALLOWED(Ifft(a, FFT_FULL)), inv, "Ifft full");
				Is(ALLOWED(Fft(b, a)), fwd && Y == FREQUENCY_DOMAIN, "complex Fft to output");
				Is(ALLOWED(Ifft(b, a)), inv && Y == TIME_DOMAIN, "complex Ifft to output");
				if constexpr (fwd) RESULT(Fft(std::declval<A>()), K, FREQUENCY_DOMAIN, "complex spectrum");
				if constexpr (inv) {
					RESULT(Ifft(std::declval<A>()), K, TIME_DOMAIN, "complex inverse");
					RESULT(Ifft(std::declval<A>(), FFT_HALF, true), R, TIME_DOMAIN, "inverse of half spectrum");
					RESULT(Ifft(std::declval<A>(), FFT_FULL), R, TIME_DOMAIN, "inverse of full spectrum");
				}
			}
			{
				using A = const S<K, X>&;
				using B = S<R, Y>&;
				Is(ALLOWED(Ifft(b, a)), inv && Y == TIME_DOMAIN, "real Ifft to output");
			}
			{ // Polyphase filters only filter signals of their domain.
				using A = const S<R, X>&;
				using B = PolyphaseFilter<R, Y>&;
				using C = size_t;
				Is(ALLOWED(Interpolate(a, b, c, c)), X == Y, "Interpolate");
				using Out = S<R, Y>&;
				Is([]<class A, class B, class O>(std::type_identity<A>, std::type_identity<B>, std::type_identity<O>) { return requires(A a, B b, O o) { Interpolate(o, a, b, size_t(0)); }; }(std::type_identity<A>{}, std::type_identity<B>{}, std::type_identity<Out>{}), X == Y, "Interpolate to output");
			}
		});
	});
}
// The domain is a label: the values are those computed on time domain signals.
template <class T>
void Values() {
	ForDomains([](auto d) {
		constexpr auto D = decltype(d)::value;
		for (size_t n : { 1, 2, 3, 5, 8, 13, 33, 40, 70 })
			for (size_t m : { 1, 2, 4, 7, 33, 36 }) {
				if (!mc::Case("values", TypeName<T>(), int(D), n, m)) continue;
				auto x = Ints<T, TIME_DOMAIN>(n, n + 3 * m, 5);
				auto y = Ints<T, TIME_DOMAIN>(m, m + 7 * n + 1, 5);
				auto z = Ints<T, TIME_DOMAIN>(n, 11 * n + m, 5);
				for (auto& v : z) v += T(real_of_t<T>(20));
				const BasicSignal<T, D> a(x.begin(), x.end()), b(y.begin(), y.end()), c(z.begin(), z.end());
				auto same = [](const auto& got, const auto& want, const char* what) {
					mc::Step();
					mc::Check(DomainOf<decltype(got)> == D, "domain");
					mc::Eq(got.size(), want.size(), what);
					for (size_t i = 0; i < got.size() && i < want.size(); ++i) mc::Check(got[i] == want[i], what);
				};
				same(a + c, x + z, "sum");
				same(a - c, x - z, "difference");
				same(a * c, x * z, "product");
				same(a / c, x / z, "quotient");
				same(Exp(a), Exp(x), "Exp");
				same(Abs(a), Abs(x), "Abs");
				same(Pow(c, T(2)), Pow(z, T(2)), "Pow");
				same(FftShift(a), FftShift(x), "FftShift");
				same(Convolution(a, b, CONV_FULL), Convolution(x, y, CONV_FULL), "convolution");
				same(Convolution(a, b, CONV_CENTRAL), Convolution(x, y, CONV_CENTRAL), "central convolution");
				same(OverlapAdd(a, b, CONV_FULL), OverlapAdd(x, y, CONV_FULL), "overlap-add");
				same(OverlapAdd(a, b, size_t(0), n, 2 * (n + m)), OverlapAdd(x, y, size_t(0), n, 2 * (n + m)), "overlap-add window");
				same(Filter(a, b, CONV_FULL, FILTER_OLA), Filter(x, y, CONV_FULL, FILTER_OLA), "filter");
				BasicSignal<T, D> out(n + m - 1, T(real_of_t<T>(3)));
				BasicSignal<T, TIME_DOMAIN> ref(n + m - 1, T(real_of_t<T>(3)));
				OverlapAdd(out, a, b, CONV_FULL, 0, false);
				OverlapAdd(ref, x, y, CONV_FULL, 0, false);
				same(out, ref, "accumulated overlap-add");
				mc::Check(DotProduct(a, c) == DotProduct(x, z) && Sum(a) == Sum(x) && Mean(a) == Mean(x), "reductions");
				BasicSignal<T, D> e(2 * n), ha((n + 1) / 2);
				BasicSignal<T, TIME_DOMAIN> f(2 * n), hx((n + 1) / 2);
				Expand(e, a, 2);
				Expand(f, x, 2);
				same(e, f, "Expand");
				Decimate(ha, a, 2);
				Decimate(hx, x, 2);
				same(ha, hx, "Decimate");
				same(PolyphaseDecompose(b, 3).Buffer(), PolyphaseDecompose(y, 3).Buffer(), "PolyphaseDecompose");
				mc::StateOf(out, int(D));
			}
	});
}
static void Body() {
#if PART == 1
	Values<float>();
	Values<double>();
	Values<cf>();
	Values<cd>();
#elif PART == 2
	Mixing<float, float>();
	Mixing<cf, float>();
	Mixing<float, double>();
#elif PART == 3
	Mixing<double, double>();
	Mixing<double, cd>();
	Mixing<cf, cf>();
#elif PART == 4
	Results<float, float>();
	Results<float, double>();
	Results<double, float>();
	Results<double, double>();
	Results<cd, cd>();
	Unary<float>();
	Unary<double>();
	Transforms<float>();
	Transforms<double>();
#else
	Results<cf, float>();
	Results<float, cf>();
	Results<cf, cf>();
	Results<cd, double>();
	Unary<cf>();
	Unary<cd>();
#endif
}
MC_MAIN(Body)
