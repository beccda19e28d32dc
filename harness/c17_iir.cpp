// C17: every IIR design meets its published magnitude specification (default build).
// C29: the bilinear and the band transforms substitute the frequency variable exactly (-DTRANS).
#include "ref.hpp"
#include <dspbb/Filtering/IIR.hpp>
using namespace dspbb;
using namespace ref;

const LD PI = acosl(-1.0L);

template <class T, eDiscretization D>
CLD Eval(const ZeroPoleGain<T, D>& s, CLD x) {
	CLD n = LD(s.gain), d = 1;
	for (auto& r : s.zeros.real_roots()) n *= x - LD(r);
	for (auto& r : s.zeros.complex_pairs()) n *= (x - Wide(r)) * (x - std::conj(Wide(r)));
	for (auto& r : s.poles.real_roots()) d *= x - LD(r);
	for (auto& r : s.poles.complex_pairs()) d *= (x - Wide(r)) * (x - std::conj(Wide(r)));
	return n / d;
}
// The evaluation's sensitivity to relative errors of the roots and the gain.
template <class T, eDiscretization D>
LD Sens(const ZeroPoleGain<T, D>& s, CLD x) {
	LD r = 1;
	auto one = [&](CLD p) { return (std::abs(p) + std::abs(x)) / (std::abs(x - p) + 1e-30L); };
	for (auto& p : s.zeros.real_roots()) r += one(LD(p));
	for (auto& p : s.zeros.complex_pairs()) r += one(Wide(p)) + one(std::conj(Wide(p)));
	for (auto& p : s.poles.real_roots()) r += one(LD(p));
	for (auto& p : s.poles.complex_pairs()) r += one(Wide(p)) + one(std::conj(Wide(p)));
	return r;
}

// Frequency warping, in terms of the lowpass prototype with the edge at 1.
enum Band { LP, HP, BP, BS };
CLD Proto(Band b, CLD s, LD f1, LD f2) {
	const LD o1 = tanl(PI * f1 / 2), o2 = tanl(PI * f2 / 2);
	switch (b) {
		case LP: return s / o1;
		case HP: return o1 / s;
		case BP: return (s * s + o1 * o2) / (s * (o2 - o1));
		default: return s * (o2 - o1) / (s * s + o1 * o2);
	}
}
const char* const BANDS[] = { "lowpass", "highpass", "bandpass", "bandstop" };

#ifndef TRANS
enum Family { BUTTER, CHEB1, CHEB2, ELLIP };
const char* const FAMILIES[] = { "butterworth", "chebyshev1", "chebyshev2", "elliptic" };

template <class T>
DiscreteZeroPoleGain<T> Design(Family f, Band b, size_t n, T lo, T hi, T rp, T rs) {
#define BANDED(DESC, PARAM)                                                           \
	switch (b) {                                                                      \
		case LP: return DesignFilter<T>(n, Iir.Lowpass.DESC.Cutoff(lo) PARAM);         \
		case HP: return DesignFilter<T>(n, Iir.Highpass.DESC.Cutoff(lo) PARAM);        \
		case BP: return DesignFilter<T>(n, Iir.Bandpass.DESC.Band(lo, hi) PARAM);      \
		default: return DesignFilter<T>(n, Iir.Bandstop.DESC.Band(lo, hi) PARAM);      \
	}
	switch (f) {
		case BUTTER: BANDED(Butterworth, )
		case CHEB1: BANDED(Chebyshev1, .PassbandRipple(rp))
		case CHEB2: BANDED(Chebyshev2, .StopbandRipple(rs))
		default: BANDED(Elliptic, .PassbandRipple(rp).StopbandRipple(rs))
	}
}
LD Cheb(int n, LD x) {
	LD a = 1, b = x;
	if (n == 0) return 1;
	for (int i = 1; i < n; ++i) { const LD c = 2 * x * b - a; a = b; b = c; }
	return b;
}
// The elliptic rational function, from its zeros; modulus from the nome (theta functions), no library code.
struct EllipticR {
	int n;
	LD k, k1;
	std::vector<LD> x;
	static LD Agm(LD a, LD b) { for (int i = 0; i < 40; ++i) { const LD c = (a + b) / 2; b = sqrtl(a * b); a = c; } return a; }
	static LD K(LD m) { return PI / 2 / Agm(1, sqrtl(1 - m * m)); }
	static LD KfromComp(LD mc) { return PI / 2 / Agm(1, mc); }
	// cd(u K, k) through theta functions: cd(uK) = theta2-like series in q.
	static LD Cd(LD u, LD q, LD k) {
		LD num = 0, den = 0;
		for (int i = 0; i < 60; ++i) { num += (i % 2 ? 1 : 1) * powl(q, LD(i) * (i + 1)) * cosl((2 * i + 1) * PI * u / 2); }
		den = 1;
		for (int i = 1; i < 60; ++i) den += 2 * powl(q, LD(i) * i) * cosl(i * PI * u);
		// cd = (theta3/theta2) * theta2(z)/theta3(z);  theta3/theta2 = 1/sqrt(k)
		return 2 * powl(q, 0.25L) * num / den / sqrtl(k);
	}
	EllipticR(int n, LD k1) : n(n), k1(k1) {
		const LD q1 = expl(-PI * KfromComp(k1) / K(k1)); // K'(k1) = K(k1') = pi/2/agm(1,k1)
		const LD q = powl(q1, 1 / LD(n));
		LD t2 = 0, t3 = 1;
		for (int i = 0; i < 60; ++i) t2 += 2 * powl(q, (i + 0.5L) * (i + 0.5L));
		for (int i = 1; i < 60; ++i) t3 += 2 * powl(q, LD(i) * i);
		k = (t2 / t3) * (t2 / t3);
		for (int i = 0; i < n / 2; ++i) x.push_back(Cd(LD(2 * i + 1) / n, q, k));
	}
	LD Raw(LD w) const {
		LD r = n % 2 ? w : 1;
		for (LD xi : x) r *= (w * w - xi * xi) / (1 - k * k * xi * xi * w * w);
		return r;
	}
	LD operator()(LD w) const { return Raw(w) / Raw(1); }
};

template <class T>
void Spec(Family f, Band b, size_t n, T lo, T hi, T rp, T rs, int grid) {
	const auto sys = Design<T>(f, b, n, lo, hi, rp, rs);
	const size_t proto = b >= BP ? n / 2 : n;
	mc::Eq(sys.poles.num_roots(), n, "number of poles");
	mc::Eq(sys.zeros.num_roots(), n, "number of zeros");
	mc::Eq(sys.order(), n, "order");
	for (auto& p : sys.poles.real_roots()) mc::Check(std::abs(p) < 1, "a real pole is not inside the unit circle");
	for (auto& p : sys.poles.complex_pairs()) mc::Check(std::abs(p) < 1, "a pole is not inside the unit circle");
	const LD ep = sqrtl(1 / ((1 - LD(rp)) * (1 - LD(rp))) - 1);
	const LD es = LD(rs) / sqrtl(1 - LD(rs) * LD(rs));
	const EllipticR er(f == ELLIP ? int(proto) : 1, f == ELLIP ? ep / sqrtl(1 / (LD(rs) * LD(rs)) - 1) : 0.5L);
	auto want = [&](LD W) -> LD {
		switch (f) {
			case BUTTER: return 1 / sqrtl(1 + powl(W, 2 * LD(proto)));
			case CHEB1: { const LD t = ep * Cheb(int(proto), W); return 1 / sqrtl(1 + t * t); }
			case CHEB2: { if (W == 0) return 1; const LD t = es * Cheb(int(proto), 1 / W); return fabsl(t) / sqrtl(1 + t * t); }
			default: { const LD t = ep * er(W); return 1 / sqrtl(1 + t * t); }
		}
	};
	// The design's own rounding: pole positions are computed to a few ulp, the elliptic modulus by bisection.
	LD q = 0;
	for (auto& p : sys.poles.real_roots()) q = std::max(q, 1 / (1 - std::abs(LD(p))));
	for (auto& p : sys.poles.complex_pairs()) q = std::max(q, 1 / (1 - std::abs(Wide(p))));
	const LD base = (f == ELLIP ? 400 : 60) * Eps<T>() * (1 + LD(n)) * (1 + q);
	std::vector<LD> freqs;
	for (int i = 0; i <= grid; ++i) freqs.push_back(LD(i) / grid);
	freqs.push_back(LD(lo));
	if (b >= BP) freqs.push_back(LD(hi));
	for (LD w : freqs) {
		if (w == 1) continue; // the tangent is infinite; its neighbours are in the grid
		const CLD z = std::polar(LD(1), PI * w);
		if (w == 0 && (b == HP || b == BP)) continue;
		const LD W = std::abs(Proto(b, CLD(0, tanl(PI * w / 2)), lo, hi));
		const LD got = std::abs(Eval(sys, z));
		const LD expect = W > 1e6L ? (f == CHEB2 ? (proto % 2 ? 0 : LD(rs)) : f == ELLIP ? (proto % 2 ? 0 : LD(rs)) : 0) : want(W);
		const LD tol = W > 1e6L ? base * 10 + 2e-5L : base * 10;
		mc::Near(got, expect, tol, "magnitude at grid point", size_t(w * 1000000));
		// The specification itself, independent of the prototype formula.
		if (f == CHEB1 || f == ELLIP) {
			mc::Check(got <= 1 + tol, "passband exceeds unity");
			if (W <= 1) mc::Check(got >= 1 - LD(rp) - tol, "passband ripple exceeded");
		}
		if (f == CHEB2 && W >= 1) mc::Check(got <= LD(rs) + tol, "stopband ripple exceeded");
		if (f == ELLIP && W >= 1 / er.k) mc::Check(got <= LD(rs) + tol, "stopband ripple exceeded");
		mc::Step();
	}
	mc::StateOf(std::vector<T>{ T(sys.gain), lo, hi, rp, rs }, int(f), int(b), n);
}
template <class T>
void Designs(int maxOrder, int grid, const std::vector<T>& cuts, const std::vector<std::pair<T, T>>& bands, const std::vector<T>& ripples) {
	const int bits = sizeof(T) * 8;
	for (int f = 0; f < 4; ++f)
		for (int b = 0; b < 4; ++b)
			for (int n = b >= BP ? 2 : 1; n <= maxOrder; n += b >= BP ? 2 : 1) {
				const size_t nedges = b >= BP ? bands.size() : cuts.size();
				for (size_t e = 0; e < nedges; ++e)
					for (T rp : (f == CHEB1 || f == ELLIP) ? ripples : std::vector<T>{ T(0.1) })
						for (T rs : (f == CHEB2 || f == ELLIP) ? ripples : std::vector<T>{ T(0.1) }) {
							const T lo = b >= BP ? bands[e].first : cuts[e], hi = b >= BP ? bands[e].second : T(0);
							// A design is meaningful when the passband lies above the stopband.
							if (f == ELLIP && !(1 - rp > rs + T(0.05))) continue;
							if (mc::Case(FAMILIES[f], bits, BANDS[b], n, lo, hi, rp, rs)) Spec<T>(Family(f), Band(b), n, lo, hi, rp, rs, grid);
						}
			}
}
void Body() {
	Designs<double>(mc::Tier(10, 16), mc::Tier(40, 120), { 0.1, 0.25, 0.5, 0.6, 0.9 }, { { 0.25, 0.75 }, { 0.1, 0.6 }, { 0.3, 0.4 }, { 0.15, 0.8 }, { 0.5, 0.7 } }, { 0.01, 0.1, 0.3 });
	Designs<long double>(mc::Tier(4, 8), 20, { 0.2L, 0.7L }, { { 0.25L, 0.75L }, { 0.2L, 0.5L } }, { 0.05L, 0.2L });
	Designs<float>(mc::Tier(6, 8), 30, { 0.2f, 0.5f, 0.7f }, { { 0.25f, 0.75f }, { 0.2f, 0.5f } }, { 0.05f, 0.1f, 0.2f });
	// High orders, past any machine word's bits.
	for (int f = 0; f < 4; ++f)
		for (int b = 0; b < 4; ++b)
			for (int n : { 12, 17, 24, 31, 32, 33, 34, 40, 48, 62, 64, 65, 66, 70 })
				for (double lo : { 0.25, 0.5, 0.6 }) {
					if (b >= BP ? n % 2 || lo == 0.6 : n > 50) continue;
					if (f == ELLIP && n > (b >= BP ? 34 : 17)) continue;
					const double hi = b >= BP ? lo + 0.4 : 0;
					if (mc::Case("high-order", FAMILIES[f], BANDS[b], n, lo)) Spec<double>(Family(f), Band(b), n, lo, hi, 0.1, 0.1, 60);
					// In single precision an elliptic modulus this close to one is not representable any more.
					if (f == ELLIP && n > (b >= BP ? 24 : 12)) continue;
					if (n <= 40 && mc::Case("high-order-float", FAMILIES[f], BANDS[b], n, lo)) Spec<float>(Family(f), Band(b), n, float(lo), float(hi), 0.1f, 0.1f, 60);
				}
	// Defaults of the descriptors.
	if (mc::Case("defaults")) {
		auto edge = [](auto sys, LD w) { return std::abs(Eval(sys, std::polar(LD(1), PI * w))); };
		for (size_t n : { 2, 4, 6 }) {
			mc::Near(edge(DesignFilter<double>(n, Iir.Lowpass.Butterworth), 0.5L), sqrtl(0.5L), 1e-9L, "default lowpass");
			mc::Near(edge(DesignFilter<double>(n, Iir.Highpass.Butterworth), 0.5L), sqrtl(0.5L), 1e-9L, "default highpass");
			for (LD w : { 0.25L, 0.75L }) {
				mc::Near(edge(DesignFilter<double>(n, Iir.Bandpass.Butterworth), w), sqrtl(0.5L), 1e-9L, "default bandpass");
				mc::Near(edge(DesignFilter<double>(n, Iir.Bandstop.Butterworth), w), sqrtl(0.5L), 1e-9L, "default bandstop");
			}
		}
	}
}
#else
const std::vector<double> REALS{ 0.5, -0.75, 0, -1, 1.625 };
const std::vector<std::complex<double>> PAIRS{ { 0.25, 0.5 }, { -0.5, 0.75 } };
std::vector<std::vector<int>> Sets(int maxReal, int maxPairs) {
	std::vector<std::vector<int>> r;
	std::function<void(std::vector<int>, int, int)> pairs = [&](std::vector<int> cur, int from, int left) {
		r.push_back(cur);
		if (left) for (int i = from; i < (int)PAIRS.size(); ++i) { auto c = cur; c.push_back(-1 - i); pairs(c, i, left - 1); }
	};
	std::function<void(std::vector<int>, int, int)> reals = [&](std::vector<int> cur, int from, int left) {
		pairs(cur, 0, maxPairs);
		if (left) for (int i = from; i < (int)REALS.size(); ++i) { auto c = cur; c.push_back(i); reals(c, i, left - 1); }
	};
	reals({}, 0, maxReal);
	return r;
}
template <class T>
FactoredPolynomial<T> Make(const std::vector<int>& set, T scale) {
	FactoredPolynomial<T> f;
	size_t nr = 0, np = 0;
	for (int i : set) (i >= 0 ? nr : np)++;
	f.resize(nr, np);
	auto r = f.real_roots().begin();
	auto p = f.complex_pairs().begin();
	for (int i : set) {
		if (i >= 0) *r++ = T(REALS[i]) * scale;
		else *p++ = std::complex<T>(PAIRS[-1 - i]) * scale;
	}
	return f;
}
const CLD POINTS[] = { { 1, 0 }, { 0, 1 }, { -0.9L, 0.1L }, { 0.6L, 0.8L }, { -0.6L, -0.8L }, { 1.3L, 0.4L }, { 0.2L, -0.3L }, { 2, 0 }, { -1.5L, 0.2L } };

template <class T>
void Compare(const DiscreteZeroPoleGain<T>& out, size_t order, std::function<std::pair<CLD, LD>(CLD)> want, LD slack) {
	mc::Eq(out.poles.num_roots(), order, "number of poles");
	mc::Eq(out.zeros.num_roots(), order, "number of zeros");
	for (size_t i = 0; i < std::size(POINTS); ++i) {
		const auto [w, sens] = want(POINTS[i]);
		if (!std::isfinite(std::abs(w)) || !std::isfinite(sens) || sens > 1e4L) continue; // on top of a root
		const LD so = Sens(out, POINTS[i]);
		if (so > 1e5L) continue;
		const LD tol = slack * Eps<T>() * (1 + std::abs(w)) * (sens + so);
		mc::Near(Eval(out, POINTS[i]), w, tol, "transformed response at point", i);
	}
	mc::Step(std::size(POINTS));
}
template <class T>
void Bilinear(const std::vector<std::vector<int>>& sets) {
	struct P { T rate, warp; bool use; };
	const P params[] = { { T(1), 0, false }, { T(48), 0, false }, { T(2), T(0.5), true }, { T(0.6366197723675814), T(1), true }, { T(44.1), T(60), true } };
	for (size_t z = 0; z < sets.size(); ++z)
		for (size_t p = 0; p < sets.size(); ++p)
			for (int kv = 0; kv < 15; ++kv) {
				// Every setting with a positive gain, with a negative gain, and with roots on the far side of the mapping constant.
				const int k = kv % 5, variant = kv / 5;
				if (!mc::Case("bilinear", sizeof(T), sets[z], sets[p], k, variant)) continue;
				const LD kk = params[k].use ? LD(params[k].warp) / tanl(LD(params[k].warp) / LD(params[k].rate) / 2) : 2 * LD(params[k].rate);
				// Roots are placed relative to k so that none falls on it.
				const T scale = T(kk) * (variant == 2 ? T(2.75) : T(0.4375));
				ContinuousZeroPoleGain<T> c{ variant == 1 ? T(-2) : T(1.5), Make<T>(sets[z], scale), Make<T>(sets[p], scale) };
				const auto d = params[k].use ? BilinearTransform(c, params[k].rate, std::optional<T>(params[k].warp)) : BilinearTransform(c, params[k].rate);
				const LD size = powl(kk, LD(sets[z].size()) - LD(sets[p].size()));
				Compare<T>(d, std::max(c.zeros.num_roots(), c.poles.num_roots()), [&](CLD x) {
					const CLD s = kk * (x - LD(1)) / (x + LD(1));
					return std::make_pair(Eval(c, s), Sens(c, s));
				}, 200);
				mc::StateOf(sets[z], sets[p], k, sizeof(T));
				(void)size;
			}
}
template <class T>
void BandMaps(const std::vector<std::vector<int>>& sets, const std::vector<T>& cuts, const std::vector<std::pair<T, T>>& bands) {
	for (size_t z = 0; z < sets.size(); ++z)
		for (size_t p = 0; p < sets.size(); ++p)
			for (int b = 0; b < 4; ++b)
				for (size_t e = 0; e < (b >= BP ? bands.size() : cuts.size()); ++e) {
					const T lo = b >= BP ? bands[e].first : cuts[e], hi = b >= BP ? bands[e].second : T(0);
					DiscreteZeroPoleGain<T> in{ (z + 2 * p) % 3 ? T(1.5) : T(-0.75), Make<T>(sets[z], T(1)), Make<T>(sets[p], T(1)) };
					const bool balanced = in.zeros.num_roots() == in.poles.num_roots();
					const bool half = b >= BP ? std::abs(hi - lo - T(0.5)) < T(0.01) : std::abs(lo - T(0.5)) < T(0.01);
					// A response of different degrees has a root of the substitution among its roots; there that root is at infinity.
					if (half && !balanced) continue;
					if (!mc::Case(BANDS[b], sizeof(T), sets[z], sets[p], lo, hi)) continue;
					const auto out = b == LP ? Halfband2Lowpass(in, lo) : b == HP ? Halfband2Highpass(in, lo) : b == BP ? Halfband2Bandpass(in, lo, hi) : Halfband2Bandstop(in, lo, hi);
					const size_t order = std::max(in.zeros.num_roots(), in.poles.num_roots()) * (b >= BP ? 2 : 1);
					Compare<T>(out, order, [&](CLD x) {
						const CLD s = (x - LD(1)) / (x + LD(1));
						if ((b == HP || b == BP) && std::abs(s) == 0) return std::make_pair(Eval(in, CLD(-1)), Sens(in, CLD(-1)));
						const CLD S = Proto(Band(b), s, lo, hi);
						const CLD Z = (LD(1) + S) / (LD(1) - S);
						return std::make_pair(Eval(in, Z), Sens(in, Z));
					}, 2000);
					mc::StateOf(sets[z], sets[p], b, int(e), sizeof(T));
				}
}
void Body() {
	const auto sets = Sets(2, mc::Tier(1, 2));
	Bilinear<double>(sets);
	Bilinear<float>(Sets(2, 1));
	Bilinear<long double>(Sets(2, 1));
	const auto bs = Sets(2, 1);
	BandMaps<double>(mc::Thorough() ? Sets(3, 1) : bs, { 0.1, 0.3, 0.5, 0.75, 0.9 }, { { 0.25, 0.75 }, { 0.1, 0.6 }, { 0.3, 0.4 }, { 0.15, 0.8 }, { 0.5, 0.7 } });
	BandMaps<float>(Sets(1, 1), { 0.1f, 0.5f, 0.8f }, { { 0.25f, 0.75f }, { 0.3f, 0.45f }, { 0.1f, 0.7f } });
}
#endif
MC_MAIN(Body)
