// C24: measured frequency responses are the responses of the filters, and measured filters are classified and
// parametrized by the bands their response has.
#include "ref.hpp"
#include <dspbb/Filtering/FilterUtility.hpp>
#include <dspbb/Filtering/MeasureFilter.hpp>
using namespace dspbb;
using namespace ref;
const LD PI = acosl(-1.0L);

// ------------------------------------------------------------------ frequency responses
template <class T>
void PhaseNear(T got, CLD h, LD ampTol, const char* what, size_t i) {
	if (std::abs(h) <= ampTol * 4) return; // the phase of (nearly) nothing
	const LD tol = 4 * ampTol / std::abs(h) + 16 * Eps<T>();
	if (tol > 0.5L) return;
	LD d = std::fmod(std::abs(LD(got) - std::arg(h)), 2 * PI);
	d = std::min(d, 2 * PI - d);
	mc::Check(d <= tol, [&] { return std::string(what) + "[" + std::to_string(i) + "]: got " + mc::Str(got) + ", expected " + mc::Str(std::arg(h)); });
	mc::Check(std::abs(LD(got)) <= PI + 8 * Eps<T>(), "phase out of range");
}
template <class T>
void FirResponses(size_t maxLen, const std::vector<size_t>& extra) {
	std::vector<size_t> lens;
	for (size_t n = 1; n <= maxLen; ++n) lens.push_back(n);
	lens.insert(lens.end(), extra.begin(), extra.end());
	for (size_t n : lens)
		for (size_t hint : { size_t(0), size_t(1), size_t(2), size_t(5), n / 2, n, n + 1, 2 * n, size_t(64), size_t(101) })
			for (bool view : { false, true }) {
				if (hint == 0 && n > 60) continue;
				if (!mc::Case("fir-response", sizeof(T), n, hint, view)) continue;
				const auto h = Ints<T, TIME_DOMAIN>(n, n + hint);
				const auto [amp, phase] = view ? (hint ? FrequencyResponse(AsConstView(h), hint) : FrequencyResponse(AsConstView(h))) : (hint ? FrequencyResponse(h, hint) : FrequencyResponse(h));
				const size_t grid = hint > 0 ? hint : 10 * n;
				const size_t padded = std::max(n, 2 * grid - 1);
				mc::Eq(amp.size(), padded / 2 + 1, "amplitude size");
				mc::Eq(phase.size(), padded / 2 + 1, "phase size");
				LD norm = 0;
				for (auto& v : h) norm += std::abs(LD(v));
				for (size_t k = 0; k < amp.size(); ++k) {
					CLD w = 0;
					for (size_t i = 0; i < n; ++i) w += std::polar(LD(h[i]), LD(0)) * std::polar(LD(1), -2 * PI * LD((k * i) % padded) / LD(padded));
					const LD tol = 32 * Eps<T>() * norm;
					mc::Near(amp[k], std::abs(w), tol, "amplitude", k);
					PhaseNear(phase[k], w, tol, "phase", k);
				}
				mc::Step(amp.size());
				mc::StateOf(amp);
			}
	// An all-zero filter has amplitude and phase zero.
	for (size_t n : { 1, 4, 9 })
		if (mc::Case("fir-response", sizeof(T), n, "zero")) {
			const auto [amp, phase] = FrequencyResponse(BasicSignal<T, TIME_DOMAIN>(n, T(0)));
			for (auto& v : amp) mc::Eq(v, T(0), "amplitude of nothing");
			for (auto& v : phase) mc::Eq(v, T(0), "phase of nothing");
		}
}
// Normalized frequencies: half the sample rate is one.
template <class T, class U>
void Normalized(std::vector<U> rates) {
	for (U rate : rates)
		for (int k = 0; k <= 64; ++k) {
			if (!mc::Case("normalized-frequency", sizeof(T), double(rate), k)) continue;
			mc::Step();
			const T f = T(rate) * T(k) / T(128);
			mc::Near(NormalizedFrequency(f, rate), LD(k) / 64, 4 * Eps<T>(), "normalized frequency");
			static_assert(std::is_same_v<decltype(NormalizedFrequency(f, rate)), T>);
			mc::StateOf(f);
		}
}
template <class T>
void SystemResponses() {
	const std::vector<T> reals{ T(0.5), T(-0.75) };
	const std::complex<T> pair{ T(0.25), T(0.5) };
	for (int zr = 0; zr < 4; ++zr)
		for (int zp = 0; zp < 2; ++zp)
			for (int pr = 0; pr < 4; ++pr)
				for (int pp = 0; pp < 2; ++pp)
					for (size_t hint : { 0, 2, 3, 17, 64 }) {
						if (!mc::Case("system-response", sizeof(T), zr, zp, pr, pp, hint)) continue;
						auto make = [&](int r, int p) {
							FactoredPolynomial<T> f;
							f.resize(size_t(r & 1) + size_t(r >> 1), size_t(p));
							size_t i = 0;
							for (auto& v : f.real_roots()) v = (r == 2 || i++ == 1) ? reals[1] : reals[0];
							for (auto& v : f.complex_pairs()) v = pair;
							return f;
						};
						const DiscreteZeroPoleGain<T> zpk{ T(-1.5), make(zr, zp), make(pr, pp) };
						const DiscreteTransferFunction<T> tf(zpk);
						const CascadedBiquad<T> cascade(zpk);
						const size_t order = std::max(zpk.zeros.num_roots(), zpk.poles.num_roots());
						const size_t grid = hint ? hint : (1 + order) * 20;
						auto check = [&](auto& sys, const char* what) {
							const auto [amp, phase] = hint ? FrequencyResponse(sys, hint) : FrequencyResponse(sys);
							mc::Eq(amp.size(), grid, "amplitude size");
							mc::Eq(phase.size(), grid, "phase size");
							for (size_t k = 0; k < grid; ++k) {
								const CLD z = std::polar(LD(1), PI * LD(k) / LD(grid - 1));
								CLD n = -1.5L, d = 1;
								for (auto& r : zpk.zeros.real_roots()) n *= z - LD(r);
								for (auto& r : zpk.zeros.complex_pairs()) n *= (z - Wide(r)) * (z - std::conj(Wide(r)));
								for (auto& r : zpk.poles.real_roots()) d *= z - LD(r);
								for (auto& r : zpk.poles.complex_pairs()) d *= (z - Wide(r)) * (z - std::conj(Wide(r)));
								const LD tol = 200 * Eps<T>() * (1 + std::abs(n / d)) * 20;
								mc::Near(amp[k], std::abs(n / d), tol, what, k);
								PhaseNear(phase[k], n / d, tol, what, k);
							}
							mc::Step(grid);
						};
						check(zpk, "zero-pole response");
						check(tf, "transfer function response");
						check(cascade, "cascade response");
						mc::StateOf(zr, zp, pr, pp, hint, sizeof(T));
					}
}

// ------------------------------------------------------------------ classification
enum Kind { NONE, LOW, HIGH, PASS, STOP };
template <class T>
int KindOf(const FilterParameters<T>& p) { return int(p.index()); }
template <class T>
void Classified(const Spectrum<T>& s, int kind) {
	mc::Eq(KindOf(MeasureFilter(s)), kind, "kind of filter");
	mc::Eq(KindOf(MeasureFilter(AsConstView(s))), kind, "kind of filter, from a view");
	mc::Eq(mc::Throws<std::invalid_argument>([&] { MeasureLowpassFilter(s); }), kind != LOW, "refused as lowpass");
	mc::Eq(mc::Throws<std::invalid_argument>([&] { MeasureHighpassFilter(s); }), kind != HIGH, "refused as highpass");
	mc::Eq(mc::Throws<std::invalid_argument>([&] { MeasureBandpassFilter(s); }), kind != PASS, "refused as bandpass");
	mc::Eq(mc::Throws<std::invalid_argument>([&] { MeasureBandstopFilter(s); }), kind != STOP, "refused as bandstop");
	mc::Step(6);
}
// All spectra that are words over six levels around the half amplitude, each letter held for a few bins.
template <class T>
void Words(int maxLen, const std::vector<int>& holds) {
	const T levels[] = { T(0), T(0.49), T(0.49975), T(0.50025), T(0.51), T(1) };
	std::vector<int> w;
	std::function<void()> rec = [&] {
		if (!w.empty())
			for (int hold : holds) {
				if (!mc::Case("classify", sizeof(T), w, hold)) continue;
				Spectrum<T> s(w.size() * hold);
				for (size_t i = 0; i < s.size(); ++i) s[i] = levels[w[i / hold]];
				// A band ends where the response is past the half amplitude by more than the measurement noise.
				bool pass = w[0] >= 3;
				std::vector<bool> bands{ pass };
				for (int l : w) {
					if (pass && l <= 1) bands.push_back(pass = false);
					else if (!pass && l >= 4) bands.push_back(pass = true);
				}
				const int kind = bands.size() == 2 ? (bands[0] ? LOW : HIGH) : bands.size() == 3 ? (bands[0] ? STOP : PASS) : NONE;
				Classified(s, kind);
				mc::StateOf(w, hold, kind);
			}
		if ((int)w.size() < maxLen)
			for (int l = 0; l < 6; ++l) { w.push_back(l); rec(); w.pop_back(); }
	};
	rec();
}

// ------------------------------------------------------------------ parametrization
LD Smooth(LD x, LD a, LD b) {
	if (x <= a) return 0;
	if (x >= b) return 1;
	const LD t = (x - a) / (b - a);
	return t * t * (3 - 2 * t);
}
template <class T>
Spectrum<T> Shape(size_t n, const std::function<LD(LD)>& f) {
	Spectrum<T> s(n);
	for (size_t i = 0; i < n; ++i) s[i] = T(f(LD(i) / LD(n - 1)));
	return s;
}
template <class T>
void Edges(const std::vector<size_t>& sizes, bool dense) {
	const LD step = dense ? 0.025L : 0.05L;
	for (size_t n : sizes)
		for (LD w : { 0.04L, 0.08L, 0.1L, 0.2L })
			for (int ia = 0; 0.1L + ia * step + w < 0.91L; ++ia) {
				const LD a = 0.1L + ia * step;
				const LD tol = 0.012L + 1 / LD(n);
				auto near = [&](T got, LD want, const char* what) { mc::Near(got, want, tol, what); };
				auto flat = [&](T got, const char* what) { mc::Near(got, LD(0), 1e-5L, what); };
				if (mc::Case("edges-split", sizeof(T), n, w, a)) {
					const auto lp = Shape<T>(n, [&](LD f) { return 1 - Smooth(f, a, a + w); });
					const auto hp = Shape<T>(n, [&](LD f) { return Smooth(f, a, a + w); });
					Classified(lp, LOW);
					Classified(hp, HIGH);
					const auto l = MeasureLowpassFilter(lp);
					const auto h = MeasureHighpassFilter(hp);
					near(l.passbandEdge, a, "lowpass passband edge");
					near(l.stopbandEdge, a + w, "lowpass stopband edge");
					flat(l.passbandRipple, "lowpass ripple");
					flat(l.stopbandAtten, "lowpass attenuation");
					near(h.stopbandEdge, a, "highpass stopband edge");
					near(h.passbandEdge, a + w, "highpass passband edge");
					flat(h.passbandRipple, "highpass ripple");
					flat(h.stopbandAtten, "highpass attenuation");
				}
				// Two transitions, the second one of another width.
				for (LD gap : { 0.1L, 0.25L }) {
					const LD b = a + w + gap, w2 = w == 0.08L ? 0.1L : 0.08L;
					if (b + w2 > 0.9L) continue;
					if (!mc::Case("edges-band", sizeof(T), n, w, a, gap)) continue;
					const auto bp = Shape<T>(n, [&](LD f) { return Smooth(f, a, a + w) - Smooth(f, b, b + w2); });
					const auto bs = Shape<T>(n, [&](LD f) { return 1 - Smooth(f, a, a + w) + Smooth(f, b, b + w2); });
					Classified(bp, PASS);
					Classified(bs, STOP);
					const auto p = MeasureBandpassFilter(bp);
					const auto s = MeasureBandstopFilter(bs);
					near(p.lowerStopbandEdge, a, "bandpass lower stopband edge");
					near(p.passbandLowerEdge, a + w, "bandpass lower passband edge");
					near(p.passbandUpperEdge, b, "bandpass upper passband edge");
					near(p.upperStopbandEdge, b + w2, "bandpass upper stopband edge");
					near(s.lowerPassbandEdge, a, "bandstop lower passband edge");
					near(s.stopbandLowerEdge, a + w, "bandstop lower stopband edge");
					near(s.stopbandUpperEdge, b, "bandstop upper stopband edge");
					near(s.upperPassbandEdge, b + w2, "bandstop upper passband edge");
					for (T v : { p.lowerStopbandAtten, p.passbandRipple, p.upperStopbandAtten, s.lowerPassbandRipple, s.stopbandAtten, s.upperPassbandRipple }) flat(v, "ripple of a flat band");
					// The general measurement reports the same numbers.
					const auto gp = std::get<BandpassParameters<T>>(MeasureFilter(bp));
					const auto gs = std::get<BandstopParameters<T>>(MeasureFilter(bs));
					mc::Check(gp.lowerStopbandEdge == p.lowerStopbandEdge && gp.passbandLowerEdge == p.passbandLowerEdge && gp.passbandUpperEdge == p.passbandUpperEdge && gp.upperStopbandEdge == p.upperStopbandEdge, "bandpass by the general measurement");
					mc::Check(gs.lowerPassbandEdge == s.lowerPassbandEdge && gs.stopbandLowerEdge == s.stopbandLowerEdge && gs.stopbandUpperEdge == s.stopbandUpperEdge && gs.upperPassbandEdge == s.upperPassbandEdge, "bandstop by the general measurement");
				}
			}
}
// Every band with its own ripple: each measured ripple is the one of its band.
template <class T>
void Ripples(size_t n) {
	const LD amounts[] = { 0, 0.01L, 0.05L, 0.12L };
	for (int r0 = 0; r0 < 4; ++r0)
		for (int r1 = 0; r1 < 4; ++r1)
			for (int r2 = 0; r2 < 4; ++r2)
				for (int kind : { LOW, HIGH, PASS, STOP }) {
				for (int sign = 0; sign < 4; ++sign) {
					// The ripple swings around the band's ideal value, or lies on one side of it; stop bands of
					// amplitude responses are above zero, those of real-valued responses on either side.
					if ((kind == LOW || kind == HIGH) && r2) continue;
					if (!mc::Case("ripples", sizeof(T), n, r0, r1, r2, kind, sign)) continue;
					const LD r[] = { amounts[r0], amounts[r1], amounts[r2] };
					const int bands = kind == LOW || kind == HIGH ? 2 : 3;
					const bool first = kind == LOW || kind == STOP;
					// Band k covers [from, to]; the ripple has five periods in it and vanishes at its borders.
					const LD from[] = { 0, bands == 2 ? 0.5L : 0.35L, 0.75L };
					const LD to[] = { bands == 2 ? 0.4L : 0.25L, bands == 2 ? 1.0L : 0.65L, 1.0L };
					const auto s = Shape<T>(n, [&](LD f) {
						LD v = first;
						for (int k = 1; k < bands; ++k) { const LD t = Smooth(f, to[k - 1], from[k]); v += ((k % 2) == first ? -t : t); }
						for (int k = 0; k < bands; ++k) if (f > from[k] && f < to[k]) {
							const bool pass = (k % 2 == 0) == first;
							const LD u = sinl(5 * 2 * PI * (f - from[k]) / (to[k] - from[k]));
							v += r[k] * (sign == 0 ? (pass ? u : fabsl(u)) : sign == 1 ? (pass ? -fabsl(u) : -fabsl(u)) : sign == 2 ? (pass ? fabsl(u) : u) : (u > 0 ? u : u / 3) * (k % 2 ? 1 : -1));
						}
						return v;
					});
					Classified(s, kind);
					auto near = [&](T got, int k, const char* what) { mc::Near(got, r[k], r[k] * 0.03L + 1e-5L, what); };
					if (kind == LOW) { auto p = MeasureLowpassFilter(s); near(p.passbandRipple, 0, "passband ripple"); near(p.stopbandAtten, 1, "stopband"); }
					if (kind == HIGH) { auto p = MeasureHighpassFilter(s); near(p.stopbandAtten, 0, "stopband"); near(p.passbandRipple, 1, "passband ripple"); }
					if (kind == PASS) { auto p = MeasureBandpassFilter(s); near(p.lowerStopbandAtten, 0, "lower stopband"); near(p.passbandRipple, 1, "passband ripple"); near(p.upperStopbandAtten, 2, "upper stopband"); }
					if (kind == STOP) { auto p = MeasureBandstopFilter(s); near(p.lowerPassbandRipple, 0, "lower passband"); near(p.stopbandAtten, 1, "stopband"); near(p.upperPassbandRipple, 2, "upper passband"); }
					mc::StateOf(r0, r1, r2, kind, sign);
				}
				}
}
void Body() {
	FirResponses<double>(mc::Tier(20, 40), { 31, 32, 33, 64, 100, 129 });
	FirResponses<float>(mc::Tier(12, 24), { 33, 100 });
	SystemResponses<double>();
	SystemResponses<float>();
	Normalized<double, int>({ 1, 2, 3, 11025, 44100, 48000, 192000 });
	Normalized<double, double>({ 1.0, 44100.0, 6.283185307179586 });
	Normalized<double, uint64_t>({ 48000, 22051, 20000000000ull });
	Normalized<float, int>({ 2, 5, 11025, 44100, 96000 });
	Normalized<float, float>({ 1.0f, 44100.0f });
	Words<double>(mc::Tier(5, 6), { 1, 4 });
	Words<float>(4, { 1, 2, 7 });
	Edges<double>({ 300, 500, 1000 }, mc::Thorough());
	Edges<float>({ 500, 1000 }, mc::Thorough());
	Ripples<double>(1000);
	Ripples<float>(1001);
}
MC_MAIN(Body)
