// C20: every window is the window of its definition: values, symmetry, peak, side lobes and gains, at every length.
#include "ref.hpp"
#include <dspbb/Filtering/Windowing.hpp>
using namespace dspbb;
using namespace ref;
// The coefficients of some windows are double precision numbers.
template <class T> constexpr LD Acc() { return std::max(Eps<T>(), Eps<double>()); }
static const LD PI = acosl(-1.0L);

static LD Bessel0(LD x) {
	LD s = 1, t = 1;
	for (int k = 1; k < 400; ++k) {
		t *= (x / (2 * k)) * (x / (2 * k));
		s += t;
		if (t < s * 1e-22L) break;
	}
	return s;
}
static LD Cheb(size_t n, LD x) {
	if (std::abs(x) <= 1) return std::cos(n * std::acos(x));
	const LD v = std::cosh(n * std::acosh(std::abs(x)));
	return x < 0 && n % 2 ? -v : v;
}
enum W { HAMMING, FLATTOP, RECT, TRI, BLACKMAN, BHARRIS, GAUSS, KAISER, LANCZOS, DOLPH, COUNT };
static const char* NAMES[] = { "hamming", "flattop", "rectangular", "triangular", "blackman", "blackman-harris", "gaussian", "kaiser", "lanczos", "dolph-chebyshev" };
static std::vector<double> Params(int w) {
	switch (w) {
		case GAUSS: return { 0.2, 0.5, 1, 2 };
		case KAISER: return { 0, 0.5, 1, 3, 5 };
		case DOLPH: return { 0.5, 0.1, 0.01, 0.001 };
		default: return { 1 };
	}
}
static std::vector<LD> Reference(int w, size_t n, LD p) {
	std::vector<LD> r(n);
	const LD m = LD(n - 1);
	for (size_t i = 0; i < n; ++i) {
		const LD a = 2 * PI * i / m, c = 2 * i / m - 1;
		switch (w) {
			case HAMMING: r[i] = 0.54L - 0.46L * std::cos(a); break;
			case FLATTOP: r[i] = 0.21557895L - 0.41663158L * std::cos(a) + 0.277263158L * std::cos(2 * a) - 0.083578947L * std::cos(3 * a) + 0.006947368L * std::cos(4 * a); break;
			case RECT: r[i] = 1; break;
			case TRI: r[i] = 1 - std::abs(c); break;
			case BLACKMAN: r[i] = 0.42L - 0.5L * std::cos(a) + 0.08L * std::cos(2 * a); break;
			case BHARRIS: r[i] = 0.35875L - 0.48829L * std::cos(a) + 0.14128L * std::cos(2 * a) - 0.01168L * std::cos(3 * a); break;
			case GAUSS: r[i] = std::exp(-0.5L * (c / p) * (c / p)); break;
			case KAISER: r[i] = Bessel0(PI * p * std::sqrt(std::max(LD(0), 1 - c * c))) / Bessel0(PI * p); break;
			case LANCZOS: r[i] = 2 * i == n - 1 ? 1 : std::sin(PI * c) / (PI * c); break;
			case DOLPH: {
				const LD beta = std::cosh(std::acosh(1 / p) / m);
				LD s = 0;
				for (size_t k = 0; k < n; ++k) s += Cheb(n - 1, beta * std::cos(PI * k / LD(n))) * std::cos(2 * PI * k * (LD(i) - m / 2) / LD(n));
				r[i] = s;
				break;
			}
		}
	}
	if (w == DOLPH) {
		LD mx = 0;
		for (auto& v : r) mx = std::max(mx, std::abs(v));
		for (auto& v : r) v /= mx;
	}
	return r;
}
template <class S>
static void Into(int w, S&& out, double p) {
	switch (w) {
		case HAMMING: HammingWindow(out); break;
		case FLATTOP: FlatTopWindow(out); break;
		case RECT: RectangularWindow(out); break;
		case TRI: TriangularWindow(out); break;
		case BLACKMAN: BlackmanWindow(out); break;
		case BHARRIS: BlackmanHarrisWindow(out); break;
		case GAUSS: GaussianWindow(out, p); break;
		case KAISER: KaiserWindow(out, p); break;
		case LANCZOS: LanczosWindow(out); break;
		case DOLPH: DolphChebyshevWindow(out, p); break;
	}
}
template <class T>
static BasicSignal<T, TIME_DOMAIN> Make(int w, size_t n, double p) {
	switch (w) {
		case HAMMING: return HammingWindow<T>(n);
		case FLATTOP: return FlatTopWindow<T>(n);
		case RECT: return RectangularWindow<T>(n);
		case TRI: return TriangularWindow<T>(n);
		case BLACKMAN: return BlackmanWindow<T>(n);
		case BHARRIS: return BlackmanHarrisWindow<T>(n);
		case GAUSS: return GaussianWindow<T>(n, T(p));
		case KAISER: if constexpr (!is_cplx<T>::value) return KaiserWindow<T>(n, T(p)); else { BasicSignal<T, TIME_DOMAIN> s(n); KaiserWindow(s, p); return s; }
		case LANCZOS: return LanczosWindow<T>(n);
		default: if constexpr (!is_cplx<T>::value) return DolphChebyshevWindow<T>(n, T(p)); else { BasicSignal<T, TIME_DOMAIN> s(n); DolphChebyshevWindow(s, p); return s; }
	}
}
template <class T, class F>
static void WithFunctor(int w, double p, F&& f) {
	switch (w) {
		case HAMMING: f(windows::hamming); break;
		case FLATTOP: f(windows::flattop); break;
		case RECT: f(windows::rectangular); break;
		case TRI: f(windows::triangular); break;
		case BLACKMAN: f(windows::blackman); break;
		case BHARRIS: f(windows::blackmanHarris); break;
		case GAUSS: f(windows::gaussian.sigma(p)); break;
		case KAISER: f(windows::kaiser.alpha(p)); break;
		case LANCZOS: f(windows::lanczos); break;
		case DOLPH: f(windows::dolphChebyshev.attenuation(p)); break;
	}
}
template <class S>
static void Compare(const S& got, const std::vector<LD>& want, LD tol) {
	mc::Step();
	mc::Eq(size_t(got.size()), want.size(), "length");
	for (size_t i = 0; i < want.size() && i < got.size(); ++i) mc::Near(got[i], want[i], tol, "window", i);
}
template <class T>
static void Windows(const std::vector<size_t>& lengths) {
	for (int w = 0; w < COUNT; ++w)
		for (size_t n : lengths)
			for (double p : Params(w)) {
				if (n < 2 || (w == DOLPH && n > 600)) continue;
				if (!mc::Case(NAMES[w], TypeName<T>(), n, p)) continue;
				const auto want = Reference(w, n, p);
				const LD tol = Acc<T>() * (w == DOLPH ? (100 + 10 * LD(n) + LD(n) * LD(n) / 4) : w == KAISER ? 400 : w == GAUSS ? 60 / std::min(1.0, p) : 40);
				Guarded<T> out(n, n % 4);
				Into(w, out.view(), p);
				out.CheckGuards();
				Compare(out.view(), want, tol);
				if constexpr (is_cplx<T>::value)
					for (size_t i = 0; i < n; ++i) mc::Eq(out[i].imag(), real_of_t<T>(0), "imaginary part", i);
				BasicSignal<T, TIME_DOMAIN> own(n, T(real_of_t<T>(3)));
				Into(w, own, p);
				Compare(own, want, tol);
				if constexpr (!is_cplx<T>::value) {
					Compare(Make<T>(w, n, p), want, tol);
					WithFunctor<T>(w, p, [&](auto f) {
						Guarded<T> o2(n, 1);
						f(o2.view());
						o2.CheckGuards();
						Compare(o2.view(), want, tol);
						Compare(f.template operator()<T>(n), want, tol);
						if constexpr (!std::is_same_v<decltype(f), windows::DolphChebyshev>) Compare(f.template operator()<T, FREQUENCY_DOMAIN>(n), want, tol); // time domain only
					});
					LD sum = 0, sq = 0;
					for (auto& v : want) { sum += v; sq += v * v; }
					mc::Near(CoherentGain(own), sum / n, tol, "coherent gain");
					mc::Near(CoherentGain(AsView(own)), sum / n, tol, "coherent gain of view");
					mc::Near(EnergyGain(own), sq / n, tol, "energy gain");
					mc::Near(EnergyGain(AsConstView(own)), sq / n, tol, "energy gain of view");
				}
				for (size_t i = 0; i < n; ++i) mc::Near(out[i], Wide(out[n - 1 - i]), 2 * tol, "symmetric", i);
				mc::StateOf(out.view());
			}
}
// The Dolph-Chebyshev window's defining property: no side lobe rises above the given attenuation.
static void SideLobes(size_t upTo) {
	for (size_t n = 3; n <= upTo; ++n)
		for (double att : { 0.1, 0.01, 0.001 }) {
			if (!mc::Case("dolph-sidelobes", n, att)) continue;
			mc::Step();
			const auto w = DolphChebyshevWindow<double>(n, att);
			const LD beta = std::cosh(std::acosh(1 / LD(att)) / (n - 1));
			LD dc = 0;
			for (auto& v : w) dc += v;
			// The main lobe ends where beta cos(f/2) = 1.
			const LD edge = 2 * std::acos(1 / beta);
			for (int g = 0; g <= 200; ++g) {
				const LD f = edge + (PI - edge) * g / 200;
				CLD s = 0;
				for (size_t i = 0; i < n; ++i) s += LD(w[i]) * CLD(std::cos(f * i), -std::sin(f * i));
				mc::Check(std::abs(s) <= dc * att * (1 + 1e-6L), [&] { return "side lobe at " + mc::Str(f) + ": " + mc::Str(std::abs(s) / dc); });
			}
		}
}
static void Body() {
	Windows<double>(Lengths(mc::Tier(70, 300), { 127, 128, 129, 256, 257, 513, 1024, 1025, 4096, 10001 }));
	Windows<float>(Lengths(mc::Tier(48, 200), { 127, 128, 257, 1023, 4097 }));
	Windows<long double>(Lengths(mc::Tier(24, 70), { 128, 257 }));
	Windows<std::complex<double>>(Lengths(mc::Tier(30, 100), { 64, 129 }));
	Windows<std::complex<float>>(Lengths(mc::Tier(20, 60), { 64, 129 }));
	SideLobes(mc::Tier(40, 120));
}
MC_MAIN(Body)
