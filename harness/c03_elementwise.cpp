// C03: element-wise arithmetic and functions, for every length, operand kind, alignment and in-place pattern.
#include "ref.hpp"
#include <dspbb/Math/Functions.hpp>
using namespace dspbb;
using namespace ref;

using cf = std::complex<float>;
using cd = std::complex<double>;

enum { MUL, DIV, ADD, SUB };
template <class A, class B>
auto Exact(int op, const A& a, const B& b) {
	const auto x = Wide(a);
	const auto y = Wide(b);
	using R = decltype(x * y);
	switch (op) { case MUL: return R(x * y); case DIV: return R(x / y); case ADD: return R(x + y); default: return R(x - y); }
}
// Powers of two keep real divisions exact; everything else is a small integer.
template <class T>
T In(size_t i, uint64_t seed) { return mc::ValAs<T>(seed * 7919 + i, 9); }

template <class R, class A, class B>
void Three(int op, R&& r, const A& a, const B& b) {
	switch (op) { case MUL: Multiply(r, a, b); break; case DIV: Divide(r, a, b); break; case ADD: Add(r, a, b); break; default: Subtract(r, a, b); }
}
template <class A, class B>
auto Operator(int op, const A& a, const B& b) {
	auto r = a + b;
	switch (op) { case MUL: return decltype(r)(a * b); case DIV: return decltype(r)(a / b); case ADD: return r; default: return decltype(r)(a - b); }
}
template <class A, class B>
void Compound(int op, A&& a, const B& b) {
	switch (op) { case MUL: a *= b; break; case DIV: a /= b; break; case ADD: a += b; break; default: a -= b; }
}
template <class R> LD Tol(int op, const typename ref::wide_t<R>& v) {
	// Sums and products of small integers are exact; quotients are correctly rounded, or nearly so for complex ones.
	return op == DIV ? 8 * Eps<R>() * (std::abs(v) + LD(1e-30)) : 0;
}

template <class A, class B, class R>
void SignalSignal(const char* name, const std::vector<size_t>& lengths) {
	for (size_t n : lengths)
		for (int op = 0; op < 4; ++op) {
			const size_t maxMis = n <= 40 ? 4 : 2;
			for (size_t ma = 0; ma < maxMis; ++ma)
				if (mc::Case(name, n, op, ma)) {
					Guarded<A> a(n, ma);
					Guarded<B> b(n, (ma * 3 + 1) % 4);
					for (size_t i = 0; i < n; ++i) { a[i] = In<A>(i, 1 + n); b[i] = In<B>(i, 2 + n); }
					auto want = [&](size_t i) { return Exact(op, a[i], b[i]); };
					{
						Guarded<R> r(n, (ma + 2) % 4);
						Three(op, r.view(), a.cview(), b.cview());
						for (size_t i = 0; i < n; ++i) mc::Near(r[i], want(i), Tol<R>(op, Wide(R(want(i)))), "out of place", i);
						r.CheckGuards();
						mc::StateOf(r.mem);
					}
					{
						BasicSignal<A, TIME_DOMAIN> sa(n, a.data());
						BasicSignal<B, TIME_DOMAIN> sb(n, b.data());
						auto r = Operator(op, sa, sb);
						mc::Eq(r.size(), n, "operator result size");
						for (size_t i = 0; i < n; ++i) mc::Near(r[i], want(i), Tol<R>(op, Wide(R(want(i)))), "operator", i);
						auto r2 = Operator(op, a.cview(), sb);
						auto r3 = Operator(op, sa, b.cview());
						for (size_t i = 0; i < n; ++i) { mc::Near(r2[i], want(i), Tol<R>(op, Wide(R(want(i)))), "operator view-signal", i); mc::Near(r3[i], want(i), Tol<R>(op, Wide(R(want(i)))), "operator signal-view", i); }
					}
					if constexpr (std::is_same_v<A, R>) {
						Guarded<A> x = a;
						Three(op, x.view(), x.cview(), b.cview());
						Guarded<A> y = a;
						Compound(op, y.view(), b.cview());
						BasicSignal<A, TIME_DOMAIN> z(n, a.data());
						Compound(op, z, b.cview());
						for (size_t i = 0; i < n; ++i) {
							const LD tol = Tol<R>(op, Wide(R(want(i))));
							mc::Near(x[i], want(i), tol, "in place left", i);
							mc::Near(y[i], want(i), tol, "compound view", i);
							mc::Near(z[i], want(i), tol, "compound signal", i);
						}
						x.CheckGuards();
						y.CheckGuards();
					}
					if constexpr (std::is_same_v<B, R>) {
						Guarded<B> x = b;
						Three(op, x.view(), a.cview(), x.cview());
						for (size_t i = 0; i < n; ++i) mc::Near(x[i], want(i), Tol<R>(op, Wide(R(want(i)))), "in place right", i);
						x.CheckGuards();
					}
					if constexpr (std::is_same_v<A, B> && std::is_same_v<A, R>) {
						Guarded<A> x = a, y = a;
						Three(op, x.view(), x.cview(), x.cview());
						Compound(op, y.view(), y.cview());
						for (size_t i = 0; i < n; ++i) {
							const auto w = Exact(op, a[i], a[i]);
							mc::Near(x[i], w, Tol<R>(op, Wide(R(w))), "both operands in place", i);
							mc::Near(y[i], w, Tol<R>(op, Wide(R(w))), "compound with itself", i);
						}
						x.CheckGuards();
						y.CheckGuards();
					}
					mc::Step(6);
				}
		}
}

template <class A, class S, class R>
void SignalScalar(const char* name, const std::vector<size_t>& lengths) {
	const S scalars[] = { mc::ValAs<S>(1), S(real_of_t<S>(2)), S(real_of_t<S>(-3)), S(real_of_t<S>(1)) };
	for (size_t n : lengths)
		for (int op = 0; op < 4; ++op)
			for (int k = 0; k < 4; ++k)
				if (mc::Case(name, n, op, k)) {
					const S s = scalars[k];
					const size_t ma = (n + k) % 4;
					Guarded<A> a(n, ma);
					for (size_t i = 0; i < n; ++i) a[i] = In<A>(i, 3 + n);
					Guarded<R> r(n, (ma + k) % 4), l(n, (ma + 1) % 4);
					Three(op, r.view(), a.cview(), s);
					Three(op, l.view(), s, a.cview());
					BasicSignal<A, TIME_DOMAIN> sa(n, a.data());
					auto ro = Operator(op, sa, s);
					auto lo = Operator(op, s, sa);
					auto rv = Operator(op, a.cview(), s);
					mc::Check(ro.size() == n && lo.size() == n && rv.size() == n, "operator result size");
					auto tol = [&](auto w) { return Tol<R>(op, Wide(R(w))); };
					for (size_t i = 0; i < n; ++i) {
						const auto wr = Exact(op, a[i], s), wl = Exact(op, s, a[i]);
						mc::Near(r[i], wr, tol(wr), "signal op scalar", i);
						mc::Near(l[i], wl, tol(wl), "scalar op signal", i);
						mc::Near(ro[i], wr, tol(wr), "operator signal scalar", i);
						mc::Near(rv[i], wr, tol(wr), "operator view scalar", i);
						mc::Near(lo[i], wl, tol(wl), "operator scalar signal", i);
					}
					r.CheckGuards();
					l.CheckGuards();
					if constexpr (std::is_same_v<A, R>) {
						Guarded<A> x = a, y = a, z = a;
						Three(op, x.view(), x.cview(), s);
						Three(op, y.view(), s, y.cview());
						Compound(op, z.view(), s);
						for (size_t i = 0; i < n; ++i) {
							const auto wr = Exact(op, a[i], s), wl = Exact(op, s, a[i]);
							mc::Near(x[i], wr, tol(wr), "in place, scalar right", i);
							mc::Near(y[i], wl, tol(wl), "in place, scalar left", i);
							mc::Near(z[i], wr, tol(wr), "compound scalar", i);
						}
						x.CheckGuards(); y.CheckGuards(); z.CheckGuards();
					}
					mc::Step(8);
					mc::StateOf(r.mem, l.mem);
				}
}

// The scalar operand may be a sample of the signal that is being overwritten.
template <class T>
void SampleScalar(const std::vector<size_t>& lengths) {
	for (size_t n : lengths)
		for (size_t k = 0; k < n; k += n <= 40 ? 1 : n / 3)
			for (int op = 0; op < 4; ++op)
				if (mc::Case("sample as scalar", TypeName<T>(), n, k, op)) {
					mc::Step(3);
					Guarded<T> a(n, k % 4);
					for (size_t i = 0; i < n; ++i) a[i] = In<T>(i, 5 + n);
					Guarded<T> x = a, y = a, z = a;
					Compound(op, x.view(), x[k]);
					Three(op, y.view(), y.cview(), y[k]);
					Three(op, z.view(), z[k], z.cview());
					for (size_t i = 0; i < n; ++i) {
						const auto wr = Exact(op, a[i], a[k]), wl = Exact(op, a[k], a[i]);
						mc::Near(x[i], wr, Tol<T>(op, Wide(T(wr))), "compound with own sample", i);
						mc::Near(y[i], wr, Tol<T>(op, Wide(T(wr))), "in place with own sample on the right", i);
						mc::Near(z[i], wl, Tol<T>(op, Wide(T(wl))), "in place with own sample on the left", i);
					}
					x.CheckGuards(); y.CheckGuards(); z.CheckGuards();
					mc::StateOf(x.mem, z.mem);
				}
}

// Integers, and integers mixed with floating point: the C++ operators are the reference.
template <class A, class B>
void Native(const char* name, const std::vector<size_t>& lengths) {
	auto scalar = [](int op, const auto& x, const auto& y) {
		using R = decltype(x + y);
		switch (op) { case MUL: return R(x * y); case DIV: return R(x / y); case ADD: return R(x + y); default: return R(x - y); }
	};
	using R = decltype(A() + B());
	for (size_t n : lengths)
		for (int op = 0; op < 4; ++op)
			if (mc::Case("native", name, n, op)) {
				mc::Step(5);
				Guarded<A> a(n, n % 4);
				Guarded<B> b(n, (n + 1) % 4);
				for (size_t i = 0; i < n; ++i) { a[i] = In<A>(i, 1 + n); b[i] = In<B>(i, 2 + n); }
				const B s = B(2.5);
				auto ab = Operator(op, a.cview(), b.cview());
				auto as = Operator(op, a.cview(), s);
				auto sa = Operator(op, s, a.cview());
				static_assert(std::is_same_v<decltype(ab), BasicSignal<R, TIME_DOMAIN>> && std::is_same_v<decltype(as), BasicSignal<R, TIME_DOMAIN>>);
				mc::Check(ab.size() == n && as.size() == n && sa.size() == n, "operator result size");
				Guarded<R> r(n, (n + 2) % 4);
				Three(op, r.view(), a.cview(), b.cview());
				auto same = [&](const auto& got, const auto& want, const char* what, size_t i) {
					// Vectorized division may round differently.
					if constexpr (std::is_floating_point_v<R>) mc::Near(got, want, op == DIV ? 4 * Eps<R>() * std::abs(LD(want)) : 0, what, i);
					else mc::Eq(got, want, what, i);
				};
				for (size_t i = 0; i < n; ++i) {
					same(ab[i], scalar(op, a[i], b[i]), "operator", i);
					same(r[i], scalar(op, a[i], b[i]), "out of place", i);
					same(as[i], scalar(op, a[i], s), "scalar right", i);
					same(sa[i], scalar(op, s, a[i]), "scalar left", i);
				}
				r.CheckGuards();
				mc::StateOf(r.mem);
			}
}

// ---------------------------------------------------------------- functions
const std::vector<double> WIDE = { -9.5, -4, -2.5, -1, -0.75, -0.3, -0.01, 0, 0.003, 0.25, 0.5, 0.9, 1, 1.5, 2, 3.25, 7, 11, 20 };
const std::vector<double> POS = { 0.001, 0.02, 0.1, 0.25, 0.5, 0.9, 1, 1.25, 2, 3, 4, 7.5, 10, 64, 100, 1000, 12345 };
const std::vector<double> UNIT = { -0.99, -0.9, -0.5, -0.25, -0.1, -0.01, 0, 0.02, 0.125, 0.3, 0.5, 0.7, 0.95, 0.99 };
const std::vector<double> ONEUP = { 1, 1.01, 1.2, 1.5, 2, 3, 5, 10, 100, 1234 };
const std::vector<double> BELOW = { -0.5, -1.5, 0.75, -2.5, -3.25, 2.5, -10.5, -25.25 };
const double INF = std::numeric_limits<double>::infinity();
const std::vector<double> FAR = { -INF, -1e18, -1e10, -1000, -50, 0, 1e-20, 30, 50, 1000, 1e5, 1e10, 1e18, INF };
const std::vector<double> FARPOS = { 0, 1e-20, 1e-5, 30, 88, 1000, 1e5, 2e7, 1e10, 1e18, INF };
const std::vector<double> FARONEUP = { 1, 50, 1e5, 1e10, 1e18, INF };
const std::vector<double> CLOSED = { -1, -0.999, -1e-5, 0, 1e-20, 0.999, 1 };
const std::vector<double> PLANE = { 0, 0.5, -0.5, 1, -1, 3, -3, 20, -20, 1000, -1000, 1e-5, -1e-5, 0.25, -2 };
const std::vector<double> IMAG = { 0.5, -0.5, 0.125, -1.25, 3, -3, 40, -40, 500, -500, 1e-3 };
const std::vector<double> GAMMA = { 0.3, 0.5, 0.75, 1.25, 1.5, 2.5, 3, 3.5, 4, 5, 6.5, 8, 10, 12.25, 20 };

// Infinite results, and those beyond the range of the element type.
template <class R, class W>
bool Same(const R& got, const W& want, LD) {
	if constexpr (is_cplx<R>::value) return false;
	else return LD(got) == LD(R(want));
}

template <class T, class Ref, class F2, class F1>
void Function(const char* name, const std::vector<double>& dom, Ref reference, F2 two, F1 one, double ulps = 64, double abs = 4, const std::vector<double>& imag = { 0.5, -1.25, 0.75 }) {
	using R = std::decay_t<decltype(one(BasicSignal<T, TIME_DOMAIN>(1))[0])>;
	for (size_t n = 0; n <= mc::Tier<size_t>(40, 70); ++n)
		for (size_t shift = 0; shift < dom.size(); shift += mc::Tier<size_t>(n <= 9 ? 1 : 5, 1))
			if (mc::Case(name, TypeName<T>(), n, shift)) {
				Guarded<T> in(n, shift % 4);
				for (size_t i = 0; i < n; ++i) {
					const double re = dom[(i + shift) % dom.size()];
					if constexpr (is_cplx<T>::value) in[i] = T(re, imag[(i + shift) % imag.size()]);
					else in[i] = T(re);
				}
				Guarded<R> out(n, (shift + 1) % 4);
				two(out.view(), in.cview());
				BasicSignal<T, TIME_DOMAIN> s(n, in.data());
				auto o1 = one(s);
				mc::Eq(o1.size(), n, "result size");
				for (size_t i = 0; i < n; ++i) {
					const auto w = reference(Wide(in[i]));
					const LD tol = Eps<R>() * (ulps * std::abs(w) + abs);
					if (Same(out[i], w, tol) && Same(o1[i], w, tol)) continue;
					mc::Near(out[i], w, tol, "two-argument form", i);
					mc::Near(o1[i], w, tol, "one-argument form", i);
				}
				out.CheckGuards();
				if constexpr (std::is_same_v<T, R>) {
					Guarded<T> x = in;
					two(x.view(), x.cview());
					for (size_t i = 0; i < n; ++i) {
						const auto w = reference(Wide(in[i]));
						if (!Same(x[i], w, 0)) mc::Near(x[i], w, Eps<R>() * (ulps * std::abs(w) + abs), "in place", i);
					}
					x.CheckGuards();
				}
				mc::Step(3);
				mc::StateOf(out.mem);
			}
}
#define FN(NAME, DOM, EXPR, ...) Function<T>(#NAME, DOM, [](auto x) { return EXPR; }, [](auto&& o, const auto& i) { NAME(o, i); }, [](const auto& i) { return NAME(i); }, ##__VA_ARGS__)

template <class T>
void RealFunctions() {
	FN(Abs, WIDE, std::abs(x));
	FN(Real, WIDE, x);
	FN(Imag, WIDE, x * 0);
	FN(Arg, WIDE, std::arg(x));
	FN(Conj, WIDE, std::conj(x));
	FN(Log, POS, std::log(x));
	FN(Log2, POS, std::log2(x));
	FN(Log10, POS, std::log10(x));
	FN(Exp, WIDE, std::exp(x));
	FN(Sqrt, POS, std::sqrt(x));
	FN(Cbrt, POS, std::cbrt(x));
	FN(Sin, WIDE, std::sin(x));
	FN(Cos, WIDE, std::cos(x));
	FN(Tan, WIDE, std::tan(x), 256);
	FN(Asin, UNIT, std::asin(x));
	FN(Acos, UNIT, std::acos(x));
	FN(Atan, WIDE, std::atan(x));
	FN(Sinh, WIDE, std::sinh(x));
	FN(Cosh, WIDE, std::cosh(x));
	FN(Tanh, WIDE, std::tanh(x));
	FN(Asinh, WIDE, std::asinh(x));
	FN(Acosh, ONEUP, std::acosh(x));
	FN(Atanh, UNIT, std::atanh(x));
	FN(Erf, WIDE, std::erf(x));
	FN(Erfc, UNIT, std::erfc(x));
	FN(TGamma, GAMMA, std::tgamma(x));
	FN(LGamma, GAMMA, std::lgamma(x), 64, 64);
	// Far out, and at the borders of the domain.
	FN(Abs, FAR, std::abs(x));
	FN(Log, FARPOS, std::log(x));
	FN(Log2, FARPOS, std::log2(x));
	FN(Log10, FARPOS, std::log10(x));
	FN(Exp, FAR, std::exp(x));
	FN(Sqrt, FARPOS, std::sqrt(x));
	FN(Cbrt, FAR, std::cbrt(x));
	FN(Asin, CLOSED, std::asin(x));
	FN(Acos, CLOSED, std::acos(x));
	FN(Atan, FAR, std::atan(x));
	FN(Sinh, FAR, std::sinh(x));
	FN(Cosh, FAR, std::cosh(x));
	FN(Tanh, FAR, std::tanh(x));
	FN(Asinh, FAR, std::asinh(x));
	FN(Acosh, FARONEUP, std::acosh(x));
	FN(Atanh, CLOSED, std::atanh(x));
	FN(Erf, FAR, std::erf(x));
	FN(Erfc, FAR, std::erfc(x));
	FN(TGamma, FARPOS, std::tgamma(x));
	FN(TGamma, BELOW, std::tgamma(x), 256);
	FN(LGamma, BELOW, std::lgamma(x), 64, 64);
	for (double p : { 0.0, 1.0, 2.0, 3.0, 0.5, -1.0, -2.0 }) {
		const std::string nm = "Pow-far:" + std::to_string(p);
		const std::vector<double> bases = p == std::floor(p) ? std::vector<double>{ 0, 1, -1, -2, -0.5, 3, 1e10, -1e10, 1e-5, INF } : std::vector<double>{ 0, 1, 1e10, 1e-5, INF };
		Function<T>(nm.c_str(), bases, [p](auto x) { return std::pow(x, LD(p)); }, [p](auto&& o, const auto& i) { Pow(o, i, T(p)); }, [p](const auto& i) { return Pow(i, T(p)); }, 512);
	}
	for (double p : { 0.0, 1.0, 2.0, 3.0, 0.5, -1.0, 2.5 }) {
		const std::string nm = "Pow:" + std::to_string(p);
		Function<T>(nm.c_str(), POS, [p](auto x) { return std::pow(x, LD(p)); }, [p](auto&& o, const auto& i) { Pow(o, i, T(p)); }, [p](const auto& i) { return Pow(i, T(p)); }, 512);
	}
}
template <class T>
void ComplexFunctions() {
	FN(Abs, WIDE, std::abs(x));
	FN(Real, WIDE, x.real());
	FN(Imag, WIDE, x.imag());
	FN(Arg, WIDE, std::arg(x));
	FN(Conj, WIDE, std::conj(x));
	FN(Log, WIDE, std::log(x));
	FN(Exp, UNIT, std::exp(x));
	FN(Sqrt, WIDE, std::sqrt(x));
	FN(Sin, UNIT, std::sin(x));
	FN(Cos, UNIT, std::cos(x));
	FN(Tan, UNIT, std::tan(x), 256);
	FN(Sinh, UNIT, std::sinh(x));
	FN(Cosh, UNIT, std::cosh(x));
	FN(Tanh, UNIT, std::tanh(x), 256);
	FN(Log10, WIDE, std::log10(x));
	FN(Tan, PLANE, std::tan(x), 256, 16, IMAG);
	FN(Tanh, PLANE, std::tanh(x), 256, 16, IMAG);
	FN(Abs, PLANE, std::abs(x), 64, 4, IMAG);
	FN(Arg, PLANE, std::arg(x), 64, 4, IMAG);
	FN(Sqrt, PLANE, std::sqrt(x), 64, 4, IMAG);
	FN(Log, PLANE, std::log(x), 64, 4, IMAG);
	FN(Sin, PLANE, std::sin(x), 256, 16);
	FN(Cos, PLANE, std::cos(x), 256, 16);
	FN(Asin, PLANE, std::asin(x), 256, 4, IMAG);
	FN(Acos, PLANE, std::acos(x), 256, 4, IMAG);
	FN(Atan, PLANE, std::atan(x), 256, 4, IMAG);
	FN(Asinh, PLANE, std::asinh(x), 256, 4, IMAG);
	FN(Acosh, PLANE, std::acosh(x), 256, 4, IMAG);
	FN(Atanh, PLANE, std::atanh(x), 256, 4, IMAG);
	for (auto p : { std::complex<double>(2), std::complex<double>(0.5), std::complex<double>(-1), std::complex<double>(0.5, 0.5) }) {
		const std::string nm = "Pow:" + std::to_string(p.real()) + "," + std::to_string(p.imag());
		Function<T>(nm.c_str(), WIDE, [p](auto x) { return std::pow(x, CLD(p)); }, [p](auto&& o, const auto& i) { Pow(o, i, T(p)); }, [p](const auto& i) { return Pow(i, T(p)); }, 512);
	}
}

#ifdef NDEBUG
// With assertions off, mismatched sizes must be refused, and the output left alone.
template <class F>
void Refused(F&& f, const SignalF& r) {
	mc::Step();
	mc::Check(mc::Throws<std::invalid_argument>(f), "mismatched sizes were not refused");
	for (size_t i = 0; i < r.size(); ++i) mc::Eq(r[i], 5.0f, "output of a refused operation", i);
}
void Body() {
	for (size_t nr = 0; nr <= 9; ++nr)
		for (size_t na = 0; na <= 9; ++na)
			for (size_t nb = 0; nb <= 9; ++nb)
				if (!(nr == na && na == nb) && mc::Case("mismatch", nr, na, nb)) {
					SignalF r(nr, 5.f), a(na, 2.f), b(nb, 4.f);
					for (int op = 0; op < 4; ++op) {
						Refused([&] { Three(op, r, a, b); }, r);
						if (na != nb) { SignalF x(na, 5.f); Refused([&] { Operator(op, x, b); }, x); Refused([&] { Compound(op, x, b); }, x); Refused([&] { Compound(op, AsView(x), AsConstView(b)); }, x); }
						if (nr != na) { Refused([&] { Three(op, r, a, 3.f); }, r); Refused([&] { Three(op, r, 3.f, a); }, r); }
					}
					mc::StateOf(nr, na, nb);
				}
}
#else
void Body() {
	const auto L = Lengths(mc::Tier<size_t>(70, 300), { 71, 127, 128, 129, 130, 255, 256, 257, 511, 512, 513, 1000, 1024, 4097, 65537 });
	SignalSignal<float, float, float>("f.f", L);
	SignalSignal<double, double, double>("d.d", L);
	SignalSignal<cf, cf, cf>("cf.cf", L);
	SignalSignal<cd, cd, cd>("cd.cd", L);
	SignalSignal<float, cf, cf>("f.cf", L);
	SignalSignal<cf, float, cf>("cf.f", L);
	SignalSignal<double, cd, cd>("d.cd", L);
	SignalSignal<cd, double, cd>("cd.d", L);
	SignalSignal<float, double, double>("f.d", L);
	SignalScalar<float, float, float>("f.sf", L);
	SignalScalar<double, double, double>("d.sd", L);
	SignalScalar<cf, cf, cf>("cf.scf", L);
	SignalScalar<cd, cd, cd>("cd.scd", L);
	SignalScalar<cf, float, cf>("cf.sf", L);
	SignalScalar<float, cf, cf>("f.scf", L);
	SignalScalar<cd, double, cd>("cd.sd", L);
	SignalScalar<float, double, double>("f.sd", L);
	SampleScalar<float>(L);
	SampleScalar<double>(L);
	SampleScalar<cf>(L);
	SampleScalar<cd>(L);
	Native<int, int>("i.i", L);
	Native<int64_t, int64_t>("l.l", L);
	Native<int, float>("i.f", L);
	Native<float, int>("f.i", L);
	Native<int, double>("i.d", L);
	Native<double, int64_t>("d.l", L);
	Native<int16_t, int>("s.i", L);
	Native<uint8_t, float>("u8.f", L);
	using cl = std::complex<long double>;
	const auto S = Lengths(mc::Tier<size_t>(30, 100), { 127, 128, 129, 1000 });
	SignalSignal<long double, long double, long double>("ld.ld", S);
	SignalSignal<cl, cl, cl>("cld.cld", S);
	SignalSignal<cl, long double, cl>("cld.ld", S);
	SignalSignal<float, long double, long double>("f.ld", S);
	SignalScalar<long double, long double, long double>("ld.sld", S);
	SignalScalar<cl, cl, cl>("cld.scld", S);
	SampleScalar<long double>(S);
	SampleScalar<cl>(S);
	RealFunctions<long double>();
	ComplexFunctions<cl>();
	RealFunctions<float>();
	RealFunctions<double>();
	ComplexFunctions<cf>();
	ComplexFunctions<cd>();
}
#endif
MC_MAIN(Body)
