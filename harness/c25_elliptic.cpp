// C25: elliptic integrals and Jacobi functions satisfy their defining integrals, identities and periodicity.
#include <dspbb/Math/EllipticFunctions.hpp> // first: it has to compile on its own
#include "ref.hpp"
using namespace dspbb;
using namespace ref;
static const LD PI = acosl(-1.0L);

// Carlson's duplication run until the arguments agree.
template <class C>
static C RefRF(C x, C y, C z) {
	for (int i = 0; i < 70; ++i) {
		const C l = std::sqrt(x) * std::sqrt(y) + std::sqrt(x) * std::sqrt(z) + std::sqrt(y) * std::sqrt(z);
		x = (x + l) / LD(4); y = (y + l) / LD(4); z = (z + l) / LD(4);
	}
	return LD(1) / std::sqrt((x + y + z) / LD(3));
}
// K by the arithmetic-geometric mean.
static LD RefK(LD k) {
	LD a = 1, b = std::sqrt((1 - k) * (1 + k));
	for (int i = 0; i < 40; ++i) { const LD t = (a + b) / 2; b = std::sqrt(a * b); a = t; }
	return PI / (2 * a);
}
// F(phi, k) by composite Gauss-Legendre quadrature of its definition.
static LD RefF(LD phi, LD k) {
	static const LD xs[5] = { 0.1488743389816312108848260L, 0.4333953941292471907992659L, 0.6794095682990244062343274L, 0.8650633666889845107320967L, 0.9739065285171717200779640L };
	static const LD ws[5] = { 0.2955242247147528701738930L, 0.2692667193099963550912269L, 0.2190863625159820439955349L, 0.1494513491505805931457763L, 0.0666713443086881375935688L };
	const int N = 400;
	LD s = 0;
	for (int i = 0; i < N; ++i) {
		const LD c = phi * (i + 0.5L) / N, h = phi / (2 * N);
		for (int j = 0; j < 5; ++j)
			for (int sg = -1; sg <= 1; sg += 2) {
				const LD t = std::sin(c + sg * h * xs[j]);
				s += ws[j] * h / std::sqrt((1 - k * t) * (1 + k * t));
			}
	}
	return s;
}
struct SCD { LD s, c, d; };
// Gauss's descending transformation.
static SCD RefReal(LD u, LD k) {
	if (k < 1e-12L) return { std::sin(u), std::cos(u), std::sqrt(1 - k * k * std::sin(u) * std::sin(u)) };
	if (k == 1) return { std::tanh(u), 1 / std::cosh(u), 1 / std::cosh(u) };
	const LD kp = std::sqrt((1 - k) * (1 + k)), k1 = (1 - kp) / (1 + kp);
	const SCD a = RefReal(u / (1 + k1), k1);
	const LD q = 1 + k1 * a.s * a.s;
	return { (1 + k1) * a.s / q, a.c * a.d / q, (1 - k1 * a.s * a.s) / q };
}

static const std::vector<LD> Ks = { 0, 0.05L, 0.1L, 0.25L, 0.4L, 0.5L, 0.6L, 0.7071L, 0.8L, 0.9L, 0.95L, 0.99L, 0.999L, 1 };

template <class T>
static void Real(int steps) {
	for (size_t ki = 0; ki < Ks.size(); ++ki) {
		const T k = T(Ks[ki]);
		const LD K = k < 1 ? RefK(k) : LD(6);
		if (k < 1 && mc::Case("elliptic-K", TypeName<T>(), ki)) {
			mc::Step();
			mc::Near(EllipticK(k), K, 32 * Eps<T>() * K / (1 - LD(k) * k), "complete integral");
		}
		for (int i = -steps; i <= steps; ++i) {
			if (!mc::Case("elliptic-real", TypeName<T>(), ki, i)) continue;
			mc::Step(9);
			// Quarter periods -5K..5K (the quarter points themselves included).
			const T x = T(K * 5 * i / steps);
			const LD tol = 200 * Eps<T>() * (1 + std::abs(LD(x))) * (k < 1 ? 1 / std::sqrt(1 - LD(k) * k) : 1);
			const auto [s, c, d] = EllipticSNCNDN(x, k);
			const SCD w = RefReal(x, k);
			const LD dtol = tol + 16 * Eps<T>() / std::max(w.d, std::sqrt(Eps<T>())); // dn is computed from dn^2
			mc::Near(s, w.s, tol, "sn");
			mc::Near(c, w.c, tol, "cn");
			mc::Near(d, w.d, dtol, "dn");
			mc::Near(EllipticSN(x, k), w.s, tol, "EllipticSN");
			mc::Near(EllipticCN(x, k), w.c, tol, "EllipticCN");
			mc::Near(EllipticDN(x, k), w.d, dtol, "EllipticDN");
			mc::Near(LD(s) * s + LD(c) * c, LD(1), 16 * Eps<T>(), "sn^2 + cn^2");
			mc::Near(LD(d) * d + LD(k) * k * s * s, LD(1), 16 * Eps<T>(), "dn^2 + k^2 sn^2");
			const auto [s2, c2, d2] = EllipticSNCNDN(-x, k);
			mc::Near(s2, -LD(s), tol, "sn is odd");
			mc::Near(c2, LD(c), tol, "cn is even");
			mc::Near(d2, LD(d), tol, "dn is even");
			const T am = EllipticAM(x, k);
			mc::Near(std::sin(LD(am)), w.s, tol, "sin am");
			mc::Near(std::cos(LD(am)), w.c, tol, "cos am");
			if (k <= T(0.99) && i % 4 == 0) mc::Near(RefF(am, k), LD(x), 20 * tol, "am inverts the elliptic integral");
			mc::StateOf(s, c, d, am);
		}
		// Mixed argument types.
		if (mc::Case("elliptic-mixed", TypeName<T>(), ki)) {
			mc::Step();
			const float xf = 0.75f;
			const SCD w = RefReal(xf, k);
			mc::Near(EllipticSN(xf, double(k)), w.s, 2e-7, "mixed sn");
			mc::Near(EllipticAM(xf, double(k)), EllipticAM(double(xf), double(k)), 1e-15, "mixed am");
		}
	}
}
// Moduli beyond one by the reciprocal modulus; the modulus only counts by its square.
template <class T>
static void Modulus(int steps) {
	for (LD kl : { 1.0625L, 1.25L, 1.5L, 2.0L, 3.5L, 8.0L, -0.0625L, -0.25L, -0.5L, -0.9375L, -1.25L, -2.0L })
		for (int i = -steps; i <= steps; ++i) {
			if (!mc::Case("elliptic-modulus", TypeName<T>(), (double)kl, i)) continue;
			mc::Step(3);
			const T k = T(kl);
			const LD m = std::abs(kl), m1 = m > 1 ? 1 / m : m, scale = m > 1 ? m : 1;
			const T x = T(RefK(m1) / scale * 5 * i / steps);
			const SCD v = RefReal(LD(x) * scale, m1);
			const SCD w = m > 1 ? SCD{ v.s / m, v.d, v.c } : v;
			const LD tol = 400 * Eps<T>() * (1 + std::abs(LD(x)) * scale) / std::sqrt(1 - m1 * m1);
			const auto [s, c, d] = EllipticSNCNDN(x, k);
			mc::Near(s, w.s, tol, "sn");
			mc::Near(c, w.c, tol, "cn");
			mc::Near(d, w.d, tol, "dn");
			mc::Near(LD(s) * s + LD(c) * c, LD(1), 16 * Eps<T>(), "sn^2 + cn^2");
			mc::Near(LD(d) * d + kl * kl * s * s, LD(1), 16 * Eps<T>() * scale, "dn^2 + k^2 sn^2");
			mc::Eq(EllipticSN(x, k), s, "EllipticSN");
			mc::Eq(EllipticCN(x, k), c, "EllipticCN");
			mc::Eq(EllipticDN(x, k), d, "EllipticDN");
			// The inverse within a quarter period.
			if (m < 1 && 5 * std::abs(i) < steps * 9 / 10) mc::Near(EllipticArcSN(s, k), LD(x), 50 * tol, "arcsn");
			if (m < 1 && i > 0 && 5 * i < steps * 9 / 10) {
				mc::Near(EllipticArcCN(c, k), LD(x), 50 * tol / v.s / v.d, "arccn");
				mc::Near(EllipticArcDN(d, k), LD(x), 50 * tol / (v.s * v.c * m * m), "arcdn");
			}
			mc::StateOf(s, c, d);
		}
}
// Arguments of different types are taken to the common one.
template <class A, class B>
static void MixedArguments() {
	using C = std::common_type_t<A, B>;
	for (LD kl : { 0.25L, 0.5L, 0.75L })
		for (int i = 1; i < 8; ++i) {
			if (!mc::Case("elliptic-mixed-arguments", TypeName<A>(), TypeName<B>(), (double)kl, i)) continue;
			mc::Step(14);
			const A x = A(i / 8.0L);
			const B k = B(kl);
			const C xc = C(x), kc = C(k);
			const std::complex<A> z(x, A(i / 16.0L));
			const std::complex<C> zc(xc, C(z.imag()));
			auto eq = [](auto got, auto want, const char* what) { static_assert(std::is_same_v<decltype(got), decltype(want)>); mc::Eq(got, want, what); };
			eq(EllipticAM(x, k), EllipticAM(xc, kc), "mixed am");
			eq(EllipticSN(x, k), EllipticSN(xc, kc), "mixed sn");
			eq(EllipticCN(x, k), EllipticCN(xc, kc), "mixed cn");
			eq(EllipticDN(x, k), EllipticDN(xc, kc), "mixed dn");
			eq(EllipticArcSN(x, k), EllipticArcSN(xc, kc), "mixed arcsn");
			eq(EllipticArcCN(x, k), EllipticArcCN(xc, kc), "mixed arccn");
			const A y = A(0.98L);
			eq(EllipticArcDN(y, k), EllipticArcDN(C(y), kc), "mixed arcdn");
			eq(EllipticSN(z, k), EllipticSN(zc, kc), "mixed complex sn");
			eq(EllipticCN(z, k), EllipticCN(zc, kc), "mixed complex cn");
			eq(EllipticDN(z, k), EllipticDN(zc, kc), "mixed complex dn");
			eq(EllipticArcSN(z, k), EllipticArcSN(zc, kc), "mixed complex arcsn");
			eq(EllipticArcCN(z, k), EllipticArcCN(zc, kc), "mixed complex arccn");
			eq(EllipticArcDN(z, k), EllipticArcDN(zc, kc), "mixed complex arcdn");
			eq(CarlsonRF(x, k, C(2)), CarlsonRF(xc, kc, C(2)), "mixed RF");
			mc::StateOf(xc, kc);
		}
}
template <class T>
static void Inverse(int steps) {
	for (size_t ki = 0; ki < Ks.size(); ++ki)
		for (int i = -steps; i <= steps; ++i) {
			const T k = T(Ks[ki]);
			const LD kp = std::sqrt(1 - LD(k) * k);
			if (k >= 1 && std::abs(i) == steps) continue;
			if (!mc::Case("elliptic-inverse", TypeName<T>(), ki, i)) continue;
			mc::Step(3);
			const T y = T(LD(i) / steps);
			const LD tol = 400 * Eps<T>() / std::max(kp, LD(0.02));
			const T a = EllipticArcSN(y, k);
			mc::Near(RefReal(a, k).s, LD(y), tol, "sn of arcsn");
			if (k < 1) mc::Check(std::abs(LD(a)) <= RefK(k) * (1 + 300 * Eps<T>() / (kp * kp)), "arcsn is principal");
			mc::Check((y < 0) == (a < 0) || y == 0, "arcsn has the sign of its argument");
			if (y >= 0 && !(k >= 1 && y == 0)) {
				const T c = EllipticArcCN(y, k);
				mc::Near(RefReal(c, k).c, LD(y), tol, "cn of arccn");
				mc::Check(c >= 0, "arccn is principal");
			}
			if (k > 0 && y >= 0 && k < 1) { // dn covers [k', 1]
				const T v = T(kp + 1e-3L + (1 - kp - 1e-3L) * i / steps);
				if (LD(v) <= 1 && LD(v) > kp) {
					const T d = EllipticArcDN(v, k);
					mc::Near(RefReal(d, k).d, LD(v), 4 * tol, "dn of arcdn");
				}
			}
			mc::StateOf(a);
		}
}
template <class T>
static void Carlson() {
	const std::vector<LD> v = { 0, 0.01L, 0.5L, 1, 2, 7, 100 };
	for (LD x : v) for (LD y : v) for (LD z : v) {
		if (!mc::Case("elliptic-carlson", TypeName<T>(), (double)x, (double)y, (double)z)) continue;
		mc::Step(3);
		const T r = CarlsonRF(T(x), T(y), T(z));
		mc::Check(r == CarlsonRF(T(z), T(x), T(y)) || std::abs(r - CarlsonRF(T(z), T(x), T(y))) <= 8 * Eps<T>() * r, "RF is symmetric");
		if ((x == 0) + (y == 0) + (z == 0) >= 2) { mc::Check(std::isinf(r), "RF diverges with two zeros"); continue; }
		const LD w = RefRF(LD(T(x)), LD(T(y)), LD(T(z)));
		mc::Near(r, w, 16 * Eps<T>() * w, "RF");
		mc::Near(CarlsonRF(T(4 * x), T(4 * y), T(4 * z)), w / 2, 16 * Eps<T>() * w, "RF is homogeneous");
		mc::StateOf(r);
	}
}
template <class T>
static void Complex(int steps) {
	for (size_t ki = 0; ki < Ks.size(); ++ki)
		for (int i = -steps; i <= steps; ++i)
			for (int j = -steps; j <= steps; ++j) {
				const T k = T(Ks[ki]);
				if (k == 0 || k >= 1) continue;
				if (!mc::Case("elliptic-complex", TypeName<T>(), ki, i, j)) continue;
				const LD kp = std::sqrt(1 - LD(k) * k), K = RefK(k), Kp = RefK(kp);
				mc::Step(4);
				// |Im| < K', away from the poles at iK'.
				const std::complex<T> x(T(2.5L * K * i / steps), T(0.9L * Kp * j / steps));
				const SCD a = RefReal(x.real(), k), b = RefReal(x.imag(), kp);
				const LD D = b.c * b.c + LD(k) * k * a.s * a.s * b.s * b.s;
				const CLD ws = CLD(a.s * b.d, a.c * a.d * b.s * b.c) / D, wc = CLD(a.c * b.c, -a.s * a.d * b.s * b.d) / D, wd = CLD(a.d * b.c * b.d, -LD(k) * k * a.s * a.c * b.s) / D;
				const LD tol = 2000 * Eps<T>() * (1 + K + Kp) / D / kp / k;
				const auto [s, c, d] = EllipticSNCNDN(x, k);
				mc::Near(s, ws, tol, "complex sn");
				mc::Near(c, wc, tol, "complex cn");
				mc::Near(d, wd, tol, "complex dn");
				mc::Near(Wide(s) * Wide(s) + Wide(c) * Wide(c), CLD(1), tol * (1 + std::abs(ws)) * 4, "complex sn^2 + cn^2");
				mc::Near(Wide(d) * Wide(d) + LD(k) * k * Wide(s) * Wide(s), CLD(1), tol * (1 + std::abs(ws)) * 4, "complex dn^2 + k^2 sn^2");
				mc::Near(EllipticSN(x, k), ws, tol, "complex EllipticSN");
				mc::Near(EllipticCN(x, k), wc, tol, "complex EllipticCN");
				mc::Near(EllipticDN(x, k), wd, tol, "complex EllipticDN");
				// The inverse within the principal cell.
				if (std::abs(x.real()) < 0.9L * K && std::abs(x.imag()) < 0.9L * Kp) mc::Near(EllipticArcSN(std::complex<T>(ws), k), x, tol * 50 / (std::abs(wc * wd) + 1e-3L), "complex arcsn");
				// The even functions give the argument of the right half of the cell.
				if (std::abs(x.real()) < 0.9L * K && std::abs(x.imag()) < 0.9L * Kp && std::abs(x.real()) > 0.05L * K) {
					const CLD want = x.real() < 0 ? -Wide(x) : Wide(x);
					mc::Near(EllipticArcCN(std::complex<T>(wc), k), want, tol * 50 / (std::abs(ws * wd) + 1e-3L), "complex arccn");
					mc::Near(EllipticArcDN(std::complex<T>(wd), k), want, tol * 50 / (LD(k) * k * std::abs(ws * wc) + 1e-3L), "complex arcdn");
				}
				mc::StateOf(s, c, d);
			}
}
static void Body() {
	Real<double>(mc::Tier(120, 600));
	Real<float>(mc::Tier(40, 200));
	Real<long double>(mc::Tier(40, 200));
	Inverse<double>(mc::Tier(100, 500));
	Inverse<float>(mc::Tier(40, 200));
	Inverse<long double>(mc::Tier(40, 200));
	Modulus<double>(mc::Tier(100, 500));
	Modulus<float>(mc::Tier(40, 200));
	Modulus<long double>(mc::Tier(40, 200));
	MixedArguments<float, double>();
	MixedArguments<double, float>();
	MixedArguments<double, long double>();
	Carlson<double>();
	Carlson<float>();
	Carlson<long double>();
	Complex<double>(mc::Tier(10, 30));
	Complex<float>(mc::Tier(5, 12));
	Complex<long double>(mc::Tier(5, 12));
}
MC_MAIN(Body)
