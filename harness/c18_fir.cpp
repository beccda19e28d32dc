// C18: FIR designs are the filters their descriptors define (default build).
// C19: Hilbert designs are antisymmetric quadrature filters (-DHILBERT).
#include "ref.hpp"
#include <dspbb/Filtering/FIR.hpp>
using namespace dspbb;
using namespace ref;
const LD PI = acosl(-1.0L);

template <class T> using Sig = BasicSignal<T, TIME_DOMAIN>;

inline LD Sinc(LD x) { return x == 0 ? 1 : sinl(x) / x; }

// The window as the library produces it for this element type (the windows themselves are another property).
template <class T, class W>
std::vector<LD> Window(W w, size_t n) {
	Sig<std::common_type_t<T, double>> s(n);
	w(s);
	return { s.begin(), s.end() };
}
// An asymmetric, sign-changing user window: nothing about the design may assume symmetry.
template <class T>
Sig<T> UserWindow(size_t n) {
	Sig<T> s(n);
	for (size_t i = 0; i < n; ++i) s[i] = T(1) + T(mc::Val(i, 5)) / T(16);
	return s;
}

std::vector<LD> Lowpass(const std::vector<LD>& win, LD cutoff) {
	const size_t n = win.size();
	std::vector<LD> h(n);
	LD sum = 0;
	for (size_t i = 0; i < n; ++i) sum += h[i] = win[i] * Sinc(PI * cutoff * (LD(i) - LD(n / 2)));
	for (auto& v : h) v /= sum;
	return h;
}
std::vector<LD> Complement(std::vector<LD> h) {
	for (auto& v : h) v = -v;
	h[h.size() / 2] += 1;
	return h;
}
std::vector<LD> Shift(std::vector<LD> h, LD f) {
	for (size_t i = 0; i < h.size(); ++i) h[i] *= 2 * cosl(PI * f * (LD(i) - LD(h.size() / 2)));
	return h;
}
std::vector<LD> Sampled(const std::vector<LD>& win, const std::function<LD(LD)>& resp) {
	const size_t n = win.size(), c = n / 2;
	std::vector<LD> h(n);
	for (size_t i = 0; i < n; ++i) {
		const LD d = LD(i) - LD(c);
		LD v = resp(0);
		for (size_t k = 1; k <= c; ++k) v += 2 * resp(LD(k) / LD(c)) * cosl(2 * PI * LD(k) * d / LD(n));
		h[i] = win[i] * v / LD(n);
	}
	return h;
}

// Runs one descriptor through every calling form and compares with the reference.
template <class T, class Desc>
void Compare(size_t n, const Desc& desc, const std::vector<LD>& want, LD tol) {
	const auto ret = DesignFilter<T, TIME_DOMAIN>(n, desc);
	mc::Eq(ret.size(), n, "number of taps");
	for (size_t i = 0; i < n; ++i) mc::Near(ret[i], want[i], tol, "tap", i);
	Sig<T> out(n, T(77));
	DesignFilter(out, desc);
	for (size_t i = 0; i < n; ++i) mc::Eq(out[i], ret[i], "in-place tap", i);
	Guarded<T> g(n, n % 3);
	auto view = g.view();
	DesignFilter(view, desc);
	for (size_t i = 0; i < n; ++i) mc::Near(g[i], want[i], tol, "tap in a view", i);
	g.CheckGuards();
	mc::Step(3);
}

struct Resp1 { template <class F> F operator()(F f) const { return F(1) - f; } };
struct Resp2 { template <class F> F operator()(F f) const { return f < F(0.4137) ? F(1) : F(0.25) + f * f; } };
struct Weight1 { template <class F> F operator()(F f) const { return F(0.5) + f; } };
struct Weight2 { template <class F> F operator()(F f) const { return f < F(0.3137) ? F(3) : f < F(0.6137) ? F(0) : F(1); } };

#ifndef HILBERT

template <class T, class MakeDesc>
void WithWindows(const char* name, size_t n, LD a, LD b, MakeDesc make, const std::function<std::vector<LD>(const std::vector<LD>&)>& reference, LD tol) {
	const int bits = sizeof(T) * 8;
	if (mc::Case(name, bits, n, a, b, "hamming")) Compare<T>(n, make(windows::Hamming{}), reference(Window<T>(windows::Hamming{}, n)), tol);
	if (mc::Case(name, bits, n, a, b, "blackman")) Compare<T>(n, make(windows::Blackman{}), reference(Window<T>(windows::Blackman{}, n)), tol);
	if (mc::Case(name, bits, n, a, b, "rectangular")) Compare<T>(n, make(windows::Rectangular{}), reference(Window<T>(windows::Rectangular{}, n)), tol);
	if (mc::Case(name, bits, n, a, b, "user")) {
		const auto w = UserWindow<T>(n);
		Compare<T>(n, make(w), reference({ w.begin(), w.end() }), tol);
	}
}
template <class T>
void Windowed(const std::vector<size_t>& sizes) {
	const std::vector<T> cuts{ T(0), T(0.1), T(0.25), T(0.5), T(0.9) };
	const std::vector<std::pair<T, T>> bands{ { T(0.25), T(0.75) }, { T(0.1), T(0.3) }, { T(0.3), T(0.3) }, { T(0), T(0.5) }, { T(0.5), T(0.875) } };
	for (size_t n : sizes) {
		if (n < 3) continue; // windows are defined from two samples on
		const LD tol = 100 * Eps<T>();
		for (T c : cuts) {
			if (c == 0 && n > 40) continue;
			WithWindows<T>("win-lowpass", n, c, 0, [&](auto w) { return Fir.Lowpass.Windowed.Cutoff(c).Window(w); }, [&](auto& w) { return Lowpass(w, c); }, tol);
			WithWindows<T>("win-highpass", n, c, 0, [&](auto w) { return Fir.Highpass.Windowed.Cutoff(c).Window(w); }, [&](auto& w) { return Complement(Lowpass(w, c)); }, tol);
		}
		for (auto [lo, hi] : bands) {
			auto bp = [&, lo = lo, hi = hi](auto& w) { return Shift(Lowpass(w, (LD(hi) - LD(lo)) / 2), (LD(hi) + LD(lo)) / 2); };
			const LD t = tol * (2 + LD(n) / 4);
			WithWindows<T>("win-bandpass", n, lo, hi, [&, lo = lo, hi = hi](auto w) { return Fir.Bandpass.Windowed.Band(lo, hi).Window(w); }, bp, t);
			WithWindows<T>("win-bandstop", n, lo, hi, [&, lo = lo, hi = hi](auto w) { return Fir.Bandstop.Windowed.Window(w).Band(lo, hi); }, [&](auto& w) { return Complement(bp(w)); }, t);
		}
		const LD t = tol * 4;
		WithWindows<T>("win-arbitrary", n, 1, 0, [&](auto w) { return Fir.Arbitrary.Windowed.Response(Resp1{}).Window(w); }, [&](auto& w) { return Sampled(w, Resp1{}); }, t);
		WithWindows<T>("win-arbitrary", n, 2, 0, [&](auto w) { return Fir.Arbitrary.Windowed.Response(Resp2{}).Window(w); }, [&](auto& w) { return Sampled(w, Resp2{}); }, t);
	}
}
// Each class of the response helpers, in place and out of place.
template <class T>
void Helpers(size_t maxN) {
	for (size_t n = 1; n <= maxN; ++n) {
		if (!mc::Case("helpers", sizeof(T), n)) continue;
		const auto h = Ints<T, TIME_DOMAIN>(n, n + 3, 9);
		std::vector<LD> wide(h.begin(), h.end());
		for (bool inPlace : { false, true }) {
			auto run = [&](auto f, const std::vector<LD>& want, LD tol, const char* what) {
				Sig<T> src = h;
				Guarded<T> g(n, 1, T(55));
				if (inPlace) { f(src, src); for (size_t i = 0; i < n; ++i) mc::Near(src[i], want[i], tol, what, i); }
				else {
					auto v = g.view();
					f(v, src);
					for (size_t i = 0; i < n; ++i) mc::Near(g[i], want[i], tol, what, i);
					for (size_t i = 0; i < n; ++i) mc::Eq(src[i], h[i], "source", i);
					g.CheckGuards();
				}
				mc::Step();
			};
			std::vector<LD> m = wide;
			for (size_t i = 1; i < n; i += 2) m[i] = -m[i];
			run([](auto&& o, auto& i) { fir::MirrorResponse(o, i); }, m, 0, "mirrored");
			if (n % 2) run([](auto&& o, auto& i) { fir::ComplementaryResponse(o, i); }, Complement(wide), 0, "complementary");
			if (n % 2)
				for (T f : { T(0), T(0.25), T(0.4), T(1) }) run([f](auto&& o, auto& i) { fir::ShiftResponse(o, i, f); }, Shift(wide, f), 40 * Eps<T>() * (10 + LD(n)), "shifted");
		}
	}
}

// ------------------------------------------------------------------ least squares
// The returned taps are a linear phase filter whose amplitude minimizes the weighted squared error on the grid:
// the error is orthogonal to every cosine.
template <class T>
void Optimal(const Sig<T>& h, size_t n, const std::function<LD(LD)>& resp, const std::function<LD(LD)>& weight, size_t grid) {
	mc::Eq(h.size(), n, "number of taps");
	const size_t L = (n + 1) / 2;
	const size_t G = grid == 0 ? 4 * L : std::max(L, grid);
	for (size_t i = 0; i < 2 * L - 1; ++i) mc::Eq(h[i], h[2 * L - 2 - i], "symmetric tap", i);
	if (n % 2 == 0) mc::Eq(h[n - 1], T(0), "unused tap");
	LD size = 1, maxW = 0;
	for (auto& v : h) { mc::Check(std::isfinite(v), "a tap is not finite"); size += std::abs(LD(v)); }
	std::vector<LD> err(G);
	for (size_t g = 0; g < G; ++g) {
		const LD f = LD(T(T(g) / T(G - 1)));
		LD a = h[L - 1];
		for (size_t k = 1; k < L; ++k) a += 2 * LD(h[L - 1 + k]) * cosl(PI * LD(g) / LD(G - 1) * LD(k));
		const LD w = weight(f);
		maxW = std::max(maxW, fabsl(w));
		err[g] = w * w * (a - resp(f));
	}
	const LD tol = 60 * Eps<T>() * LD(G) * (1 + sqrtl(LD(G))) * maxW * maxW * size;
	for (size_t k = 0; k < L; ++k) {
		LD grad = 0;
		for (size_t g = 0; g < G; ++g) grad += err[g] * cosl(PI * LD(g) / LD(G - 1) * LD(k));
		mc::Near(grad, LD(0), tol, "error component along cosine", k);
	}
}
template <class T, class Desc>
void LsCase(size_t n, const Desc& desc, const std::function<LD(LD)>& resp, const std::function<LD(LD)>& weight, size_t grid) {
	const auto ret = DesignFilter<T, TIME_DOMAIN>(n, desc);
	Optimal<T>(ret, n, resp, weight, grid);
	Guarded<T> g(n, n % 3, T(55));
	auto view = g.view();
	DesignFilter(view, desc);
	for (size_t i = 0; i < n; ++i) mc::Eq(g[i], ret[i], "tap in a view", i);
	g.CheckGuards();
	mc::Step(2);
	mc::StateOf(ret);
}
LD Step(LD x, LD lo, LD hi) {
	if (x <= lo) return 0;
	if (x >= hi) return 1;
	const LD t = (x - lo) / (hi - lo);
	return t * t * (3 - 2 * t);
}
template <class T>
void LeastSquares(const std::vector<size_t>& sizes) {
	struct Split { T b, e, w1, w2, w3; };
	// The last two have edges on the points of dyadic grids, and zero-width transitions.
	const Split splits[] = { { T(0.3137), T(0.4517), 1, 0, 1 }, { T(0.6131), T(0.6131), 1, 0, 4 }, { T(0.1137), T(0.8517), 2, T(0.5), 1 }, { T(0), T(0.2617), 1, 0, 3 }, { T(0.5), T(0.5), 1, 1, 2 }, { T(0.25), T(0.5), 3, T(0.25), 1 } };
	struct Band { T a, b, c, d, w1, w2, w3, w4, w5; };
	const Band bands[] = { { T(0.2137), T(0.3137), T(0.6517), T(0.7517), 1, 0, 1, 0, 1 }, { T(0.1137), T(0.1137), T(0.4517), T(0.4517), 2, 0, 1, 0, 3 }, { T(0.0137), T(0.4131), T(0.4131), T(0.9517), 1, T(0.5), 2, T(0.25), 3 }, { T(0.25), T(0.25), T(0.75), T(0.75), 1, 1, 2, 1, 4 } };
	const int bits = sizeof(T) * 8;
	for (size_t n : sizes) {
		const size_t L = (n + 1) / 2;
		std::vector<size_t> grids{ 0, L, 2 * L + 3, 33, 129 };
		if (L > 4) grids.push_back(L - 2);
		if (n > 40) grids = { 0, 129 };
		for (size_t grid : grids) {
			if (std::max(L, grid) < 2 && grid) continue;
			const size_t G = grid == 0 ? 4 * L : std::max(L, grid);
			const bool dyadic = ((G - 1) & (G - 2)) == 0;
			for (int i = 0; i < (int)std::size(splits); ++i) {
				const auto s = splits[i];
				if (i >= 4 && !dyadic) continue;
				auto weight = [s](LD f) -> LD { return f <= LD(s.b) ? s.w1 : f <= LD(s.e) ? s.w2 : s.w3; };
				auto rise = [s](LD f) { return Step(f, s.b, s.e); };
				if (mc::Case("ls-lowpass", bits, n, grid, i)) LsCase<T>(n, Fir.Lowpass.LeastSquares.Cutoff(s.b, s.e).Weight(s.w1, s.w2, s.w3).Grid(grid), [&](LD f) { return 1 - rise(f); }, weight, grid);
				if (mc::Case("ls-highpass", bits, n, grid, i)) LsCase<T>(n, Fir.Highpass.LeastSquares.Weight(s.w1, s.w2, s.w3).Grid(grid).Cutoff(s.b, s.e), rise, weight, grid);
			}
			for (int i = 0; i < (int)std::size(bands); ++i) {
				const auto s = bands[i];
				if (i >= 3 && !dyadic) continue;
				auto weight = [s](LD f) -> LD { return f <= LD(s.a) ? s.w1 : f <= LD(s.b) ? s.w2 : f <= LD(s.c) ? s.w3 : f <= LD(s.d) ? s.w4 : s.w5; };
				auto pass = [s](LD f) { return f < (LD(s.b) + LD(s.c)) / 2 ? Step(f, s.a, s.b) : 1 - Step(f, s.c, s.d); };
				if (mc::Case("ls-bandpass", bits, n, grid, i)) LsCase<T>(n, Fir.Bandpass.LeastSquares.Band(s.a, s.b, s.c, s.d).Weight(s.w1, s.w2, s.w3, s.w4, s.w5).Grid(grid), pass, weight, grid);
				if (mc::Case("ls-bandstop", bits, n, grid, i)) LsCase<T>(n, Fir.Bandstop.LeastSquares.Weight(s.w1, s.w2, s.w3, s.w4, s.w5).Band(s.a, s.b, s.c, s.d).Grid(grid), [&](LD f) { return 1 - pass(f); }, weight, grid);
			}
			if (mc::Case("ls-arbitrary", bits, n, grid, 1)) LsCase<T>(n, Fir.Arbitrary.LeastSquares.Response(Resp1{}).Weight(Weight1{}).Grid(grid), Resp1{}, Weight1{}, grid);
			if (mc::Case("ls-arbitrary", bits, n, grid, 2)) LsCase<T>(n, Fir.Arbitrary.LeastSquares.Grid(grid).Weight(Weight2{}).Response(Resp2{}), [](LD f) { return LD(Resp2{}(T(f))); }, [](LD f) { return LD(Weight2{}(T(f))); }, grid);
		}
	}
}
void Body() {
	std::vector<size_t> odd, all;
	for (size_t n = 1; n <= mc::Tier<size_t>(45, 151); n += 2) odd.push_back(n);
	for (size_t n : { 63, 65, 127, 129, 257 }) if (n > odd.back()) odd.push_back(n);
	for (size_t n = 1; n <= mc::Tier<size_t>(36, 80); ++n) all.push_back(n);
	for (size_t n : { 63, 64, 65, 100 }) if (n > all.back()) all.push_back(n);
	Windowed<double>(odd);
	Windowed<float>({ 3, 5, 7, 9, 15, 31, 33, 65 });
	Helpers<double>(mc::Tier(70, 200));
	Helpers<float>(mc::Tier(40, 200));
	Helpers<long double>(20);
	LeastSquares<double>(all);
	LeastSquares<float>({ 1, 2, 3, 4, 7, 12, 21, 32, 41 });
}
#else
// ------------------------------------------------------------------ Hilbert
std::vector<LD> Hilbert(const std::vector<LD>& halfband, size_t n) {
	const size_t c = halfband.size() / 2;
	std::vector<LD> k(halfband.size());
	for (size_t i = 0; i < k.size(); ++i) {
		const long d = long(i) - long(c);
		k[i] = d % 2 == 0 ? 0 : 2 * halfband[i] * (((d % 4) + 4) % 4 == 1 ? 1 : -1);
	}
	if (n % 2) return k;
	std::vector<LD> r;
	// The even length filter keeps the nonzero taps.
	for (size_t i = 0; i < k.size(); i += 2) r.push_back(k[i]);
	return r;
}
template <class T, class Desc>
void HilbertCase(size_t n, const Desc& desc, const std::vector<LD>& want, LD tol, bool antisymmetric) {
	const auto ret = DesignFilter<T, TIME_DOMAIN>(n, desc);
	mc::Eq(ret.size(), n, "number of taps");
	for (size_t i = 0; i < n; ++i) mc::Near(ret[i], want[i], tol, "tap", i);
	Sig<T> out(n, T(77));
	DesignFilter(out, desc);
	for (size_t i = 0; i < n; ++i) mc::Eq(out[i], ret[i], "in-place tap", i);
	if (antisymmetric)
		for (size_t i = 0; i < n; ++i) mc::Near(ret[i], -LD(ret[n - 1 - i]), tol, "antisymmetric tap", i);
	mc::Step(2);
	mc::StateOf(ret);
}
template <class T>
std::vector<LD> Wide(const Sig<T>& s) { return { s.begin(), s.end() }; }
template <class T>
void Designs(const std::vector<size_t>& sizes) {
	const int bits = sizeof(T) * 8;
	for (size_t n : sizes) {
		const size_t hb = n % 2 ? n : 2 * n - 1;
		const LD tol = 200 * Eps<T>();
		auto windowed = [&](const char* name, auto w) {
			if (mc::Case("win-hilbert", bits, n, name)) HilbertCase<T>(n, Fir.Hilbert.Windowed.Window(w), Hilbert(Lowpass(Window<T>(w, hb), 0.5L), n), tol, true);
		};
		if (hb >= 3) {
			windowed("hamming", windows::Hamming{});
			windowed("blackman", windows::Blackman{});
			windowed("rectangular", windows::Rectangular{});
			if (mc::Case("win-hilbert", bits, n, "default")) HilbertCase<T>(n, Fir.Hilbert.Windowed, Hilbert(Lowpass(Window<T>(windows::Hamming{}, hb), 0.5L), n), tol, true);
			if (mc::Case("win-hilbert", bits, n, "user")) {
				const auto w = UserWindow<T>(hb);
				HilbertCase<T>(n, Fir.Hilbert.Windowed.Window(w), Hilbert(Lowpass({ w.begin(), w.end() }, 0.5L), n), tol, false);
			}
		}
		if (n > 130) continue;
		for (T width : { T(0.1), T(0.25), T(0.03125) })
			for (T wt : { T(0), T(1) })
				for (size_t grid : { size_t(0), size_t(2 * hb + 1), size_t(3) }) {
					if (n > 40 && grid) continue;
					if (hb < 3) continue;
					if (!mc::Case("ls-hilbert", bits, n, width, wt, grid)) continue;
					const auto halfband = DesignFilter<T, TIME_DOMAIN>(hb, Fir.Lowpass.LeastSquares.Cutoff(T(0.5) - width, T(0.5) + width).Weight(T(1), wt, T(1)).Grid(grid));
					HilbertCase<T>(n, Fir.Hilbert.LeastSquares.TransitionWidth(width).TransitionWeight(wt).Grid(grid), Hilbert(Wide(halfband), n), tol, true);
				}
	}
}
// The conversion itself on arbitrary (also asymmetric) halfband filters, across its block size.
template <class T>
void Kernels(size_t maxN) {
	for (size_t n = 1; n <= maxN; ++n) {
		const size_t hb = n % 2 ? n : 2 * n - 1;
		if (!mc::Case("kernel", sizeof(T), n)) continue;
		const auto h = Ints<T, TIME_DOMAIN>(hb, n + 5, 9);
		const auto want = Hilbert(Wide(h), n);
		Guarded<T> g(n, n % 4, T(55));
		auto v = g.view();
		if (n % 2) fir::HalfbandToHilbertOdd(v, h);
		else fir::HalfbandToHilbertEven(v, h);
		for (size_t i = 0; i < n; ++i) mc::Eq(LD(g[i]), want[i], "tap", i);
		g.CheckGuards();
		if (n % 2) {
			auto in = h;
			fir::HalfbandToHilbertOdd(in, in);
			for (size_t i = 0; i < n; ++i) mc::Eq(LD(in[i]), want[i], "tap in place", i);
		}
		mc::Step(2);
		mc::StateOf(h);
	}
}
void Body() {
	std::vector<size_t> sizes;
	for (size_t n = 2; n <= mc::Tier<size_t>(80, 300); ++n) sizes.push_back(n);
	for (size_t n : { 127, 128, 129, 255, 256, 257, 511, 1001 }) if (n > sizes.back()) sizes.push_back(n);
	Designs<double>(sizes);
	Designs<long double>({ 2, 5, 16, 33 });
	Designs<float>({ 2, 3, 4, 5, 9, 15, 16, 17, 18, 31, 32, 33, 34, 63, 65, 66, 97, 98 });
	Kernels<double>(mc::Tier(300, 1500));
	Kernels<float>(mc::Tier(200, 1500));
}
#endif
MC_MAIN(Body)
