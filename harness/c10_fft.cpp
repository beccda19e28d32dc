// C10: the Fourier transforms are the DFT and its inverse, at every length, half, full and complex.
#include "ref.hpp"
#include <dspbb/Math/FFT.hpp>
#include <optional>
using namespace dspbb;
using namespace ref;

static std::vector<CLD> Roots(size_t n) { // e^(-2 pi i k / n)
	std::vector<CLD> r(n);
	for (size_t k = 0; k < n; ++k) {
		const LD a = -2 * acosl(-1.0L) * LD(k) / LD(n);
		r[k] = { cosl(a), sinl(a) };
	}
	return r;
}
template <class V>
static std::vector<CLD> Dft(const V& x, const std::vector<CLD>& w, bool inverse = false) {
	const size_t n = w.size();
	std::vector<CLD> r(n);
	for (size_t k = 0; k < n; ++k) {
		CLD s = 0;
		for (size_t j = 0, p = 0; j < n; ++j, p = (p + k) % n) s += CLD(Wide(x[j])) * (inverse ? std::conj(w[p]) : w[p]);
		r[k] = inverse ? s / LD(n) : s;
	}
	return r;
}
template <class V, class W>
static void Same(const V& got, const W& want, LD tol, const char* what) {
	mc::Eq(size_t(got.size()), size_t(want.size()), "size");
	for (size_t i = 0; i < want.size() && i < got.size(); ++i) mc::Near(got[i], want[i], tol, what, i);
}
template <class V>
static LD Norm(const V& v) {
	LD s = 0;
	for (auto& e : v) s += std::norm(CLD(Wide(e)));
	return std::sqrt(s);
}

// Everything the forward and inverse real transforms promise about one input.
template <class T>
static void RealCase(const BasicSignal<T, TIME_DOMAIN>& x, const std::vector<CLD>& w) {
	using C = std::complex<T>;
	const size_t n = x.size(), half = n / 2 + 1;
	const auto X = Dft(x, w);
	const LD tol = 40 * Eps<T>() * (Norm(x) + 1) * std::sqrt(std::log2(LD(n) + 2));
	const LD itol = tol / std::sqrt(LD(n));
	const std::vector<CLD> Xh(X.begin(), X.begin() + half);
	mc::Step(7);
	const auto fh = Fft(x, FFT_HALF);
	Same(fh, Xh, tol, "half spectrum");
	const auto ff = Fft(AsConstView(x), FFT_FULL);
	Same(ff, X, tol, "full spectrum");
	Guarded<C> o(half, n % 3), of(n, n % 2);
	Fft(o.template view<FREQUENCY_DOMAIN>(), x);
	Same(o.template view<FREQUENCY_DOMAIN>(), Xh, tol, "half spectrum into view");
	o.CheckGuards();
	Fft(of.template view<FREQUENCY_DOMAIN>(), AsConstView(x));
	Same(of.template view<FREQUENCY_DOMAIN>(), X, tol, "full spectrum into view");
	of.CheckGuards();
	// Inverses, each from its own spectrum, so an error common to both directions cannot cancel.
	BasicSignal<C, FREQUENCY_DOMAIN> sh(half), sf(n);
	for (size_t i = 0; i < half; ++i) sh[i] = C(X[i]);
	for (size_t i = 0; i < n; ++i) sf[i] = C(X[i]);
	Same(Ifft(sh, FFT_HALF, n % 2 == 0), x, itol, "inverse of half spectrum");
	Same(Ifft(sf, FFT_FULL), x, itol, "real inverse of full spectrum");
	Guarded<T> t(n, 1), t2(n, 2);
	Ifft(t.view(), AsConstView(sh));
	Same(t.view(), x, itol, "inverse into view");
	t.CheckGuards();
	Ifft(t2.view(), sf);
	Same(t2.view(), x, itol, "inverse of full spectrum into view");
	t2.CheckGuards();
	mc::StateOf(fh);
}
template <class T>
static void ComplexCase(const BasicSignal<std::complex<T>, TIME_DOMAIN>& x, const std::vector<CLD>& w) {
	using C = std::complex<T>;
	const size_t n = x.size();
	const auto X = Dft(x, w);
	const LD tol = 40 * Eps<T>() * (Norm(x) + 1) * std::sqrt(std::log2(LD(n) + 2));
	mc::Step(4);
	const auto f = Fft(x);
	Same(f, X, tol, "complex spectrum");
	Guarded<C> o(n, n % 3), t(n, n % 2);
	Fft(o.template view<FREQUENCY_DOMAIN>(), AsConstView(x));
	Same(o.template view<FREQUENCY_DOMAIN>(), X, tol, "complex spectrum into view");
	o.CheckGuards();
	BasicSignal<C, FREQUENCY_DOMAIN> s(n);
	for (size_t i = 0; i < n; ++i) s[i] = x[i];
	const auto xi = Dft(s, w, true);
	const LD itol = tol / std::sqrt(LD(n));
	Same(Ifft(s), xi, itol, "complex inverse");
	Ifft(t.view(), AsConstView(s));
	Same(t.view(), xi, itol, "complex inverse into view");
	t.CheckGuards();
	mc::StateOf(f);
}

template <class T>
static void Transforms(size_t basisUpTo, const std::vector<size_t>& dense) {
	using C = std::complex<T>;
	for (size_t n = 1; n <= basisUpTo; ++n) {
		std::vector<CLD> w;
		for (size_t k = 0; k < n; ++k) {
			if (mc::Case("fft-real-basis", TypeName<T>(), n, k)) {
				if (w.empty()) w = Roots(n);
				BasicSignal<T, TIME_DOMAIN> x(n, T(0));
				x[k] = T(3);
				RealCase<T>(x, w);
			}
			for (int im = 0; im < 2; ++im)
				if (mc::Case("fft-complex-basis", TypeName<T>(), n, k, im)) {
					if (w.empty()) w = Roots(n);
					BasicSignal<C, TIME_DOMAIN> x(n, C(0));
					x[k] = im ? C(0, 2) : C(2, 0);
					ComplexCase<T>(x, w);
				}
		}
	}
	for (size_t n : dense)
		for (int seed = 0; seed < 2; ++seed) {
			if (mc::Case("fft-real-dense", TypeName<T>(), n, seed)) RealCase<T>(Ints<T>(n, n + 7 * seed, 9), Roots(n));
			if (mc::Case("fft-complex-dense", TypeName<T>(), n, seed)) ComplexCase<T>(Ints<C>(n, n + 7 * seed, 9), Roots(n));
		}
}

// A transform's result does not depend on which transforms ran before it (plans are cached and evicted).
static void Histories() {
	const std::vector<size_t> alphabet = { 1, 2, 3, 4, 5, 8, 11, 12, 64, 127 };
	std::vector<BasicSignal<double, TIME_DOMAIN>> x;
	std::vector<std::vector<CLD>> X;
	for (size_t n : alphabet) { x.push_back(Ints<double>(n, n)); X.push_back(Dft(x.back(), Roots(n))); }
	for (size_t a = 0; a < alphabet.size(); ++a)
		for (size_t b = 0; b < alphabet.size(); ++b)
			for (size_t c = 0; c < alphabet.size(); ++c) {
				if (!mc::Case("fft-history", alphabet[a], alphabet[b], alphabet[c])) continue;
				for (size_t i : { a, b, c }) {
					mc::Step();
					Same(Fft(x[i], FFT_FULL), X[i], 1e-11, "spectrum in a history");
				}
			}
	// More lengths than any bounded plan cache holds, then the first again.
	for (size_t count : { 15, 16, 17, 18, 24, 40 })
		for (size_t stride : { 1, 2, 3 }) {
			if (!mc::Case("fft-eviction", count, stride)) continue;
			for (int round = 0; round < 3; ++round)
				for (size_t i = 0; i < count; ++i) {
					const size_t n = 20 + i * stride;
					mc::Step();
					auto v = Ints<double>(n, n);
					auto c = Ints<std::complex<float>>(n, n);
					Same(Fft(v, FFT_HALF), [&] { auto d = Dft(v, Roots(n)); d.resize(n / 2 + 1); return d; }(), 1e-11, "spectrum after eviction");
					Same(Fft(c), Dft(c, Roots(n)), 1e-4, "complex spectrum after eviction");
				}
		}
}

// Every length that is near, or a power of two away from, the one just used, with a full plan cache behind it.
static void Related(size_t upTo) {
	auto check = [](size_t n, const char* what) {
		mc::Step();
		BasicSignal<std::complex<double>, TIME_DOMAIN> x(n, 0.0);
		x[n / 2] = 1;
		x[n - 1] += 2;
		const auto y = Fft(x);
		const auto h = Fft(Signal<double>(n, 1.0), FFT_HALF);
		const auto w = Roots(n);
		for (size_t k = 0; k < n; ++k) mc::Near(y[k], w[k * (n / 2) % n] + LD(2) * w[k * (n - 1) % n], 1e-11, what, k);
		for (size_t k = 0; k < h.size(); ++k) mc::Near(h[k], k ? CLD(0) : CLD(LD(n)), 1e-11 * LD(n), what, k);
	};
	for (size_t first = 1; first <= upTo; ++first)
		for (int gap = 0; gap < 16; ++gap) { // plans used between the two
			std::vector<size_t> rel;
			for (size_t p = 1; p <= 2048; p *= 2) {
				rel.push_back(first ^ p);
				rel.push_back(first + p);
				if (first > p) rel.push_back(first - p);
			}
			for (size_t n : rel) {
				if (n == 0 || n > upTo + 2048) continue;
				if (gap % 5 && n > 64 && !mc::Thorough()) continue;
				if (!mc::Case("fft-related", first, gap, n)) continue;
				for (int i = 0; i < 16; ++i) Fft(Signal<std::complex<double>>(401 + i, 1.0)), Fft(Signal<double>(401 + i, 1.0), FFT_HALF);
				check(first, "first spectrum");
				for (int i = 0; i < gap; ++i) Fft(Signal<std::complex<double>>(431 + i, 1.0)), Fft(Signal<double>(431 + i, 1.0), FFT_HALF);
				check(n, "related spectrum");
				check(first, "first spectrum again");
				mc::StateOf(first, n);
			}
		}
}

// Far lengths: sums of a few impulses, whose spectra are known in closed form.
template <class T>
static void Far(std::initializer_list<size_t> lengths) {
	using C = std::complex<T>;
	for (size_t n : lengths) {
		std::vector<std::vector<size_t>> sets{ { 0 }, { 1 }, { n - 1 }, { n / 2 }, { 2, n / 3 }, { 1, 255, n - 2, n / 2 + 1 } };
		for (size_t s = 0; s < sets.size(); ++s) {
			if (!mc::Case("fft-far", TypeName<T>(), n, s)) continue;
			const auto w = Roots(n);
			auto& at = sets[s];
			std::vector<CLD> X(n);
			BasicSignal<T, TIME_DOMAIN> x(n, T(0));
			BasicSignal<C, TIME_DOMAIN> z(n, C(0));
			for (size_t j = 0; j < at.size(); ++j) {
				x[at[j]] += T(j + 1);
				z[at[j]] += C(T(j + 1));
				size_t p = 0;
				for (size_t k = 0; k < n; ++k, p = (p + at[j]) % n) X[k] += LD(j + 1) * w[p];
			}
			const LD tol = 40 * Eps<T>() * 10 * std::sqrt(std::log2(LD(n) + 2));
			const std::vector<CLD> Xh(X.begin(), X.begin() + n / 2 + 1);
			mc::Step(7);
			BasicSignal<C, FREQUENCY_DOMAIN> sf(n), sh(n / 2 + 1), sz(n);
			for (size_t k = 0; k < n; ++k) { sf[k] = C(X[k]); if (k < sh.size()) sh[k] = C(X[k]); }
			Same(Fft(x, FFT_HALF), Xh, tol, "half spectrum");
			Same(Fft(x, FFT_FULL), X, tol, "full spectrum");
			Same(Fft(z), X, tol, "complex spectrum");
			Same(Ifft(sh, FFT_HALF, n % 2 == 0), x, tol, "inverse of half spectrum");
			Same(Ifft(sf, FFT_FULL), x, tol, "real inverse of full spectrum");
			Same(Ifft(sf), z, tol, "complex inverse");
			const auto sft = FftShift(sf);
			for (size_t k = 0; k < n; ++k) mc::Check(sft[(k + n / 2) % n] == sf[k], "shifted bin");
			const auto back = IfftShift(sft);
			for (size_t k = 0; k < n; ++k) mc::Check(back[k] == sf[k], "shifted back");
			mc::StateOf(n, s);
		}
	}
}

static void Shifts(size_t upTo) {
	for (size_t n = 0; n <= upTo; ++n)
		for (int how = 0; how < 5; ++how)
			for (int inv = 0; inv < 2; ++inv) {
				if (!mc::Case("fft-shift", n, how, inv)) continue;
				mc::Step();
				auto x = Ints<double, FREQUENCY_DOMAIN>(n, n + 3, 5000);
				for (size_t i = 0; i < n; ++i) x[i] = double(i + 1);
				const auto orig = x;
				Guarded<double> o(n, n % 3);
				BasicSignal<double, FREQUENCY_DOMAIN> r;
				auto run = [&](auto&& out, const auto& in) { inv ? IfftShift(out, in) : FftShift(out, in); };
				switch (how) {
					case 0: r = inv ? IfftShift(x) : FftShift(x); break;
					case 1: run(o.view<FREQUENCY_DOMAIN>(), x); for (size_t i = 0; i < n; ++i) r.push_back(o[i]); o.CheckGuards(); break;
					case 2: run(x, x); r = x; break;
					case 3: run(AsView(x), x); r = x; break;
					case 4: run(x, AsConstView(x)); r = x; break;
				}
				// Bin 0 goes to index n/2; the inverse brings it back.
				mc::Eq(r.size(), n, "shifted size");
				for (size_t i = 0; i < n; ++i) {
					if (!inv) mc::Eq(r[(i + n / 2) % n], orig[i], "shifted bin", i);
					else mc::Eq(r[i], orig[(i + n / 2) % n], "unshifted bin", i);
				}
				auto back = inv ? FftShift(r) : IfftShift(r);
				for (size_t i = 0; i < n; ++i) mc::Eq(back[i], orig[i], "shift and back", i);
				mc::StateOf(r);
			}
}

static void Bins() {
	for (uint64_t rate : { 1ull, 2ull, 100ull, 8000ull, 44100ull, 48000ull, 192000ull })
		for (size_t n = 1; n <= 130; ++n) {
			if (!mc::Case("fft-bins", rate, n)) continue;
			for (size_t b = 0; b <= n; ++b) {
				mc::Step();
				const double f = FourierBin2Frequency(b, n, rate);
				mc::Near(f, LD(b) * LD(rate) / LD(n), 1e-15 * LD(rate) * 4, "bin frequency", b);
				mc::Eq(FourierFrequency2Bin(f, n, rate), b, "bin of its own frequency", b);
				for (double d : { -0.45, -0.2, 0.2, 0.45 })
					if (double(b) + d > 0) mc::Eq(FourierFrequency2Bin((double(b) + d) * double(rate) / double(n), n, rate), b, "nearest bin", b);
			}
			mc::StateOf(rate, n);
		}
}

static std::vector<size_t> Pos(size_t all, std::initializer_list<size_t> more) {
	auto v = ref::Lengths(all, more);
	v.erase(v.begin()); // an empty transform is not defined
	return v;
}
static void Body() {
	Transforms<double>(mc::Tier(40, 90), Pos(mc::Tier(140, 400), { 169, 211, 243, 251, 256, 289, 343, 360, 500, 509, 512, 625, 1000, 1009, 1024, 2000, 2003 }));
	Transforms<long double>(mc::Tier(12, 40), Pos(mc::Tier(30, 100), { 64, 101, 128, 169, 211, 360 }));
	Transforms<float>(mc::Tier(24, 60), Pos(mc::Tier(70, 260), { 81, 97, 100, 121, 127, 128, 211, 256, 360, 509, 512, 1000, 1009 }));
	Far<double>({ 3000, 4096, 4097, 6561, 8192, 10007, 16384, 30030, 32768, 59049, 65535, 65536, 65537, 100000, 131072 });
	Far<float>({ 4096, 8191, 10007, 30030, 65536, 65537 });
	Histories();
	Related(mc::Tier(24, 80));
	Shifts(mc::Tier(70, 300));
	Bins();
}
MC_MAIN(Body)
