// C11: resampling is the defining interpolation-filter-decimation, and C12/C13 (see below) its integer-rate relatives.
//   -DINTERP: C12, Interpolate equals expand-then-filter; Decimate and Expand.
//   -DSTREAM: C13, resuming from a suspension point continues the output as if it was never interrupted.
#include "ref.hpp"
#include <dspbb/Filtering/Resample.hpp>
#include <dspbb/Math/Convolution.hpp>
#include <numeric>
using namespace dspbb;
using namespace ref;
using R64 = Rational<int64_t>;

// The continuous-time output at a rational input position pos = p/q (in input samples): taps of the two neighbouring
// phases blended linearly. hr is the phase-rate convolution of the zero-stuffed input (times N) with the filter.
template <class X, class H>
struct Model {
	using W = decltype(Wide(std::declval<X>()[0]) * Wide(std::declval<H>()[0]));
	std::vector<W> hr; // sum over the expanded input, scaled by N: hr[j] = N * sum_k x[k] h[j - kN]
	size_t N;
	Model(const X& x, const H& h, size_t N) : N(N) {
		if (x.size() == 0 || h.size() == 0) return;
		hr.assign(x.size() * N + h.size() - 1, W(0));
		for (size_t k = 0; k < x.size(); ++k)
			for (size_t j = 0; j < h.size(); ++j) hr[k * N + j] += LD(N) * (Wide(x[k]) * Wide(h[j]));
	}
	W At(int64_t i) const { return i >= 0 && i < int64_t(hr.size()) ? hr[i] : W(0); }
	// Position num/den in input samples -> num*N/den at the phase rate.
	W Position(int64_t num, int64_t den) const {
		const __int128 n = __int128(num) * __int128(N);
		const int64_t i = int64_t(n / den);
		const LD t = LD(n % den) / LD(den);
		return At(i) * (1 - t) + At(i + 1) * t;
	}
};
template <class T, class W>
static void Equal(const T& got, const W& want, LD scale, const char* what, size_t i) { mc::Near(got, want, 16 * Eps<T>() * scale, what, i); }
template <class V, class H>
static LD Scale(const V& x, const H& h, size_t N) {
	LD a = 0, b = 0;
	for (auto& v : x) a = std::max(a, LD(std::abs(v)));
	for (auto& v : h) b += LD(std::abs(v));
	return LD(N) * a * b + 1;
}

#if defined(INTERP)
template <class T, class H = T>
static void Interp(size_t maxIn, size_t maxTaps, size_t maxN) {
	for (size_t len = 1; len <= maxIn; ++len)
		for (size_t taps = 1; taps <= maxTaps; ++taps)
			for (size_t N = 1; N <= maxN; ++N) {
				if (!mc::Case("interpolate", TypeName<T>(), TypeName<H>(), len, taps, N)) continue;
				const auto x = Ints<T>(len, len * 7 + N, 6);
				const auto h = Ints<H>(taps, taps + 50, 6);
				const auto poly = PolyphaseDecompose(h, N);
				const Model m(x, h, N);
				const size_t full = InterpolLength(len, taps, N, CONV_FULL);
				mc::Eq(full, len * N + taps - 1, "full length");
				if (len * N >= taps) mc::Eq(InterpolLength(len, taps, N, CONV_CENTRAL), len * N - taps + 1, "central length");
				mc::Near(InterpolFilterCutoff(N), 1.0L / N, 1e-15L, "cutoff");
				// The library's own expand-then-convolve, scaled.
				const auto composed = Convolution(Expand(x, N), h, CONV_FULL);
				for (size_t i = 0; i < full; ++i) mc::Eq(Wide(composed[i]) * LD(N), m.At(i), "expand then convolve", i);
				// Every window of the output.
				for (size_t off = 0; off <= full; ++off)
					for (size_t n = 0; off + n <= full; ++n) {
						if (full > 14 && n > 3 && n + 3 < full - off && (n * 5 + off) % 7) continue;
						mc::Step();
						Guarded<multiplies_result_t<T, H>> out(n, (off + n) % 4);
						Interpolate(out.view(), x, poly, off);
						for (size_t i = 0; i < n; ++i) mc::Eq(Wide(out[i]), m.At(off + i), "interpolated sample", off + i);
						out.CheckGuards();
						if ((off + n) % 3 == 0) {
							const auto r = Interpolate(AsConstView(x), poly, off, n);
							mc::Eq(r.size(), n, "returned length");
							for (size_t i = 0; i < n; ++i) mc::Eq(Wide(r[i]), m.At(off + i), "returned sample", off + i);
						}
					}
				mc::StateOf(m.hr);
			}
}
// Many phases: rates beyond 8 and 16 bits, single outputs around every phase boundary.
template <class T>
static void BigRates() {
	for (size_t N : { 31, 64, 127, 128, 255, 256, 257, 300, 1000, 65535, 65536, 65537 })
		for (size_t len : { 1, 2, 3 })
			for (size_t taps : { size_t(1), size_t(2), N - 1, N, N + 1, 2 * N + 3 }) {
				if (!mc::Case("interpolate-many-phases", TypeName<T>(), N, len, taps)) continue;
				const auto x = Ints<T>(len, len * 7 + N, 6), h = Ints<T>(taps, taps + 50, 6);
				const auto poly = PolyphaseDecompose(h, N);
				const Model m(x, h, N);
				const size_t full = len * N + taps - 1;
				mc::Eq(InterpolLength(len, taps, N, CONV_FULL), full, "full length");
				mc::Step(2);
				const auto all = Interpolate(AsConstView(x), poly, 0, full);
				for (size_t i = 0; i < full; ++i) mc::Eq(LD(all[i]), m.At(i), "interpolated sample", i);
				const auto e = Expand(x, N);
				mc::Eq(e.size(), len * N, "expanded length");
				for (size_t i = 0; i < e.size(); ++i) mc::Eq(e[i], i % N ? T(0) : x[i / N], "expanded", i);
				for (size_t k = 0; k <= full / N; ++k)
					for (size_t d : { size_t(0), size_t(1), N / 2, N - 1 }) {
						const size_t off = k * N + d;
						if (off >= full) continue;
						mc::Step();
						Guarded<T> out(std::min<size_t>(full - off, 3), off % 4);
						Interpolate(out.view(), x, poly, off);
						for (size_t i = 0; i < out.n; ++i) mc::Eq(LD(out[i]), m.At(off + i), "interpolated window", off + i);
						out.CheckGuards();
					}
				mc::StateOf(m.hr);
			}
}
static void Rates(size_t maxLen) {
	std::vector<size_t> rates{ 1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 100, 127, 128, 129, 255, 256, 257, 300, 1000, 32767, 32768, 65535, 65536, 65537, 70001 };
	for (size_t len = 0; len <= maxLen; ++len)
		for (size_t rate : rates) {
			if (rate > 9 && len > 5 && len % 10) continue;
			if (rate > 1000 && len > 5) continue;
			if (!mc::Case("decimate-expand", len, rate)) continue;
			mc::Step(5);
			const auto x = Ints<double>(len, len, 100);
			const auto d = Decimate(x, rate);
			mc::Eq(d.size(), (len + rate - 1) / rate, "decimated length");
			for (size_t i = 0; i < d.size(); ++i) mc::Eq(d[i], x[i * rate], "decimated", i);
			Guarded<double> o((len + rate - 1) / rate, 1);
			Decimate(o.view(), AsConstView(x), rate);
			for (size_t i = 0; i < d.size(); ++i) mc::Eq(o[i], x[i * rate], "decimated into view", i);
			o.CheckGuards();
			const auto e = Expand(x, rate);
			mc::Eq(e.size(), len * rate, "expanded length");
			for (size_t i = 0; i < e.size(); ++i) mc::Eq(e[i], i % rate ? 0.0 : x[i / rate], "expanded", i);
			Guarded<float> o2(len * rate, 3, 5.0f);
			const auto xf = Ints<float>(len, len, 100);
			Expand(o2.view(), AsConstView(xf), rate);
			for (size_t i = 0; i < len * rate; ++i) mc::Eq(o2[i], i % rate ? 0.0f : xf[i / rate], "expanded into view", i);
			o2.CheckGuards();
			const auto back = Decimate(e, rate);
			for (size_t i = 0; i < len; ++i) mc::Eq(back[i], x[i], "expand then decimate", i);
			mc::StateOf(d, e);
		}
}
static void Body() {
	Interp<double>(mc::Tier(7, 12), mc::Tier(16, 26), mc::Tier(6, 8));
	Interp<float>(4, 11, 5);
	Interp<double>(1, mc::Tier(30, 60), 3);
	Interp<std::complex<double>>(mc::Tier(3, 6), mc::Tier(9, 16), mc::Tier(4, 6));
	Interp<double, std::complex<double>>(mc::Tier(3, 6), mc::Tier(9, 16), mc::Tier(4, 6));
	Interp<std::complex<float>, float>(mc::Tier(3, 6), mc::Tier(7, 16), mc::Tier(4, 6));
	Interp<float, double>(3, 7, 4);
	Rates(mc::Tier(60, 300));
	BigRates<double>();
	BigRates<float>();
}

#elif defined(STREAM)
// C13. Splitting the output anywhere, dropping the input before the suspension point, and resuming.
template <class T, class H = T>
static void InterpSplits(size_t maxIn, size_t maxTaps, size_t maxN) {
	for (size_t len = 1; len <= maxIn; ++len)
		for (size_t taps = 1; taps <= maxTaps; ++taps)
			for (size_t N = 1; N <= maxN; ++N)
				for (size_t off0 = 0; off0 < 3; ++off0) {
					if (!mc::Case("interpolate-resume", TypeName<T>(), TypeName<H>(), len, taps, N, off0)) continue;
					const auto x = Ints<T>(len, len * 7 + N, 6);
				const auto h = Ints<H>(taps, taps + 50, 6);
					const auto poly = PolyphaseDecompose(h, N);
					const Model m(x, h, N);
					const size_t full = m.hr.size();
					for (size_t a = off0; a <= full; ++a)
						for (size_t b = a; b <= full; ++b) {
							mc::Step(3);
							BasicSignal<multiplies_result_t<T, H>, TIME_DOMAIN> o1(a - off0), o2(b - a), o3(full - b);
							const auto s1 = Interpolate(o1, x, poly, off0);
							for (size_t i = 0; i < o1.size(); ++i) mc::Eq(Wide(o1[i]), m.At(off0 + i), "first part", off0 + i);
							if (a == full) continue;
							// The suspension point may ask for input that has not arrived yet, never beyond.
							mc::Check(s1.firstInputSample <= len, "suspension point beyond the input");
							if (s1.firstInputSample > len) continue;
							const auto rest = AsConstView(x).subsignal(s1.firstInputSample);
							if (s1.startPoint + o2.size() > InterpolLength(rest.size(), taps, N, CONV_FULL)) { mc::Fail("resuming needs dropped input"); continue; }
							const auto s2 = Interpolate(o2, rest, poly, s1.startPoint);
							for (size_t i = 0; i < o2.size(); ++i) mc::Eq(Wide(o2[i]), m.At(a + i), "second part", a + i);
							if (b == full) continue;
							mc::Check(s2.firstInputSample <= rest.size(), "second suspension point beyond the input");
							if (s2.firstInputSample > rest.size()) continue;
							const auto rest2 = rest.subsignal(s2.firstInputSample);
							if (s2.startPoint + o3.size() > InterpolLength(rest2.size(), taps, N, CONV_FULL)) { mc::Fail("resuming needs dropped input"); continue; }
							Interpolate(o3, rest2, poly, s2.startPoint);
							for (size_t i = 0; i < o3.size(); ++i) mc::Eq(Wide(o3[i]), m.At(b + i), "third part", b + i);
							mc::StateOf(s1.firstInputSample, s1.startPoint, s2.firstInputSample, s2.startPoint);
						}
				}
}
// Input arriving in blocks: each step consumes what is available, keeping only what the suspension point asks for.
template <class T, class H = T>
static void InterpBlocks(size_t total, size_t maxBlocks) {
	for (size_t taps : { 1, 2, 5, 8, 13 })
		for (size_t N : { 1, 2, 3, 5 }) {
			const auto x = Ints<T>(total, taps * 7 + N, 6);
				const auto h = Ints<H>(taps, taps + 50, 6);
			const auto poly = PolyphaseDecompose(h, N);
			const Model m(x, h, N);
			std::vector<size_t> blocks;
			std::function<void(size_t)> rec = [&](size_t left) {
				if (left == 0) {
					if (!mc::Case("interpolate-blocks", TypeName<T>(), TypeName<H>(), taps, N, blocks)) return;
					BasicSignal<T, TIME_DOMAIN> buf;
					size_t produced = 0;
					InterpolSuspensionPoint at{ 0, 0 };
					for (size_t b = 0, fed = 0; b < blocks.size(); ++b) {
						for (size_t i = 0; i < blocks[b]; ++i) buf.push_back(x[fed++]);
						// Outputs up to fed*N need only the input seen so far.
						const size_t n = b + 1 == blocks.size() ? m.hr.size() - produced : fed * N - produced;
						BasicSignal<multiplies_result_t<T, H>, TIME_DOMAIN> out(n);
						mc::Step();
						const auto next = Interpolate(out, buf, poly, at.startPoint);
						for (size_t i = 0; i < n; ++i) mc::Eq(Wide(out[i]), m.At(produced + i), "streamed output", produced + i);
						produced += n;
						mc::Check(next.firstInputSample <= buf.size(), "suspension point beyond the input");
						buf.erase(buf.begin(), buf.begin() + std::min(next.firstInputSample, size_t(buf.size())));
						at = next;
						mc::StateOf(buf, at.startPoint);
					}
					return;
				}
				if (blocks.size() == maxBlocks) return;
				for (size_t n = 1; n <= left; ++n) {
					if (blocks.size() + 1 == maxBlocks && n != left) continue;
					blocks.push_back(n);
					rec(left - n);
					blocks.pop_back();
				}
			};
			rec(total);
		}
}
static const std::vector<std::pair<int64_t, int64_t>> RATES = { { 1, 1 }, { 1, 2 }, { 2, 1 }, { 3, 2 }, { 2, 3 }, { 7, 5 }, { 5, 7 }, { 44100, 48000 }, { 48000, 44100 }, { 1, 4 }, { 9, 2 } };
template <class T, class H = T>
static void ResampleSplits(size_t maxIn, size_t maxTaps, size_t maxN) {
	for (size_t r = 0; r < RATES.size(); ++r)
		for (size_t len = 1; len <= maxIn; ++len)
			for (size_t taps = 1; taps <= maxTaps; ++taps)
				for (size_t N = 1; N <= maxN; ++N)
					for (int st = 0; st < 3; ++st) {
						if (!mc::Case("resample-resume", TypeName<T>(), TypeName<H>(), r, len, taps, N, st)) continue;
						const auto x = Ints<T>(len, len * 7 + N, 6);
				const auto h = Ints<H>(taps, taps + 50, 6);
						const auto poly = PolyphaseDecompose(h, N);
						const Model m(x, h, N);
						const LD scale = Scale(x, h, N);
						const R64 rate{ RATES[r].first, RATES[r].second }; // input rate / output rate
						const R64 start = st == 0 ? R64{ 0, 1 } : st == 1 ? R64{ 1, 3 } : R64{ 7, 4 };
						const R64 maxLen = ResampleLength(len, taps, N, rate, CONV_FULL) - start;
						if (maxLen < 0ll) { --mc::C().cases; continue; }
						const size_t full = floor(maxLen);
						auto want = [&](size_t i) { const R64 p = (start + int64_t(i)) * rate; return m.Position(p.Numerator(), p.Denominator()); };
						for (size_t a = 0; a <= full; ++a)
							for (size_t b = a; b <= full; ++b) {
								if (full > 12 && a % 3 && b % 5) continue;
								mc::Step(3);
								BasicSignal<multiplies_result_t<T, H>, TIME_DOMAIN> o1(a), o2(b - a), o3(full - b);
								const auto s1 = Resample(o1, x, poly, rate, start);
								for (size_t i = 0; i < a; ++i) Equal(o1[i], want(i), scale, "first part", i);
								mc::Check(s1.startPoint >= 0ll, "negative start point");
								if (a == full) continue;
								mc::Check(s1.firstInputSample <= len, "suspension point beyond the input");
								if (s1.firstInputSample > len) continue;
								const auto rest = AsConstView(x).subsignal(s1.firstInputSample);
								if (s1.startPoint + int64_t(full - a) > ResampleLength(rest.size(), taps, N, rate, CONV_FULL)) { mc::Fail("resuming needs dropped input"); continue; }
								const auto s2 = Resample(o2, rest, poly, rate, s1.startPoint);
								for (size_t i = 0; i < o2.size(); ++i) Equal(o2[i], want(a + i), scale, "second part", a + i);
								if (b == full) continue;
								mc::Check(s2.firstInputSample <= rest.size(), "second suspension point beyond the input");
								if (s2.firstInputSample > rest.size()) continue;
								const auto rest2 = rest.subsignal(s2.firstInputSample);
								if (s2.startPoint + int64_t(full - b) > ResampleLength(rest2.size(), taps, N, rate, CONV_FULL)) { mc::Fail("resuming needs dropped input"); continue; }
								Resample(o3, rest2, poly, rate, s2.startPoint);
								for (size_t i = 0; i < o3.size(); ++i) Equal(o3[i], want(b + i), scale, "third part", b + i);
								mc::StateOf(s1.firstInputSample, s1.startPoint.Numerator(), s1.startPoint.Denominator());
							}
					}
}
static void Body() {
	InterpSplits<double>(mc::Tier(5, 7), mc::Tier(9, 14), mc::Tier(4, 6));
	InterpSplits<float>(3, 5, 3);
	InterpSplits<double, std::complex<double>>(3, 5, 3);
	InterpBlocks<double>(mc::Tier(9, 12), mc::Tier(9, 12));
	ResampleSplits<double>(mc::Tier(4, 6), mc::Tier(7, 11), mc::Tier(4, 6));
	ResampleSplits<float>(3, 4, 3);
	ResampleSplits<std::complex<double>>(2, 4, 3);
}

#else
// C11.
static const std::vector<std::pair<int64_t, int64_t>> RATES = { { 1, 1 }, { 1, 2 }, { 2, 1 }, { 3, 2 }, { 2, 3 }, { 7, 5 }, { 5, 7 }, { 44100, 48000 }, { 48000, 44100 }, { 1, 4 }, { 9, 2 }, { 101, 100 } };
static const std::vector<std::pair<int64_t, int64_t>> STARTS = { { 0, 1 }, { 1, 1 }, { 1, 2 }, { 5, 3 }, { 7, 4 }, { 13, 5 } };
template <class T, class H = T>
static void Windows(size_t maxIn, size_t maxTaps, size_t maxN) {
	for (size_t r = 0; r < RATES.size(); ++r)
		for (size_t len = 1; len <= maxIn; ++len)
			for (size_t taps = 1; taps <= maxTaps; ++taps)
				for (size_t N = 1; N <= maxN; ++N) {
					if (!mc::Case("resample", TypeName<T>(), TypeName<H>(), r, len, taps, N)) continue;
					const auto x = Ints<T>(len, len * 7 + N, 6);
				const auto h = Ints<H>(taps, taps + 50, 6);
					const auto poly = PolyphaseDecompose(h, N);
					const Model m(x, h, N);
					const LD scale = Scale(x, h, N);
					const R64 rate{ RATES[r].first, RATES[r].second };
					const R64 maxLen = ResampleLength(len, taps, N, rate, CONV_FULL);
					// (len N + taps - 1) / rate / N
					mc::Check(maxLen == R64{ int64_t(len * N + taps - 1), int64_t(N) } / rate, "full length");
					if (len * N >= taps) mc::Check(ResampleLength(len, taps, N, rate, CONV_CENTRAL) == R64{ int64_t(len * N - taps + 1), int64_t(N) } / rate, "central length");
					mc::Check(ResampleDelay(taps, N, rate) == R64{ int64_t(taps) - 1, int64_t(2 * N) } / rate, "delay");
					mc::Near(ResampleFilterCutoff(rate, N), std::min<LD>(1, LD(RATES[r].second) / RATES[r].first) / N, 1e-15L, "cutoff");
					for (auto& [sn, sd] : STARTS) {
						const R64 start{ sn, sd };
						if (start > maxLen) continue;
						const size_t full = floor(maxLen - start);
						auto want = [&](size_t i) { const R64 p = (start + int64_t(i)) * rate; return m.Position(p.Numerator(), p.Denominator()); };
						for (size_t n : { size_t(0), size_t(1), full / 2, full }) {
							if (n > full) continue;
							mc::Step(2);
							Guarded<multiplies_result_t<T, H>> out(n, n % 4);
							Resample(out.view(), x, poly, rate, start);
							for (size_t i = 0; i < n; ++i) Equal(out[i], want(i), scale, "resampled", i);
							out.CheckGuards();
							const auto v = Resample(AsConstView(x), poly, rate, start, n);
							mc::Eq(v.size(), n, "returned length");
							for (size_t i = 0; i < n; ++i) Equal(v[i], want(i), scale, "returned sample", i);
							mc::StateOf(v);
						}
					}
					mc::Step();
					const auto f = Resample(x, poly, rate, CONV_FULL);
					mc::Eq(f.size(), size_t(floor(maxLen)), "full resampling length");
					for (size_t i = 0; i < f.size(); ++i) { const R64 p = rate * int64_t(i); Equal(f[i], m.Position(p.Numerator(), p.Denominator()), scale, "full resampling", i); }
					if (len * N >= taps) {
						mc::Step();
						// Only those outputs whose filter is fully inside the input.
						const auto c = Resample(x, poly, rate, CONV_CENTRAL);
						const R64 s0 = R64{ int64_t(taps) - 1, int64_t(N) };
						mc::Eq(c.size(), size_t(floor(ResampleLength(len, taps, N, rate, CONV_CENTRAL))), "central resampling length");
						for (size_t i = 0; i < c.size(); ++i) { const R64 p = s0 + rate * int64_t(i); Equal(c[i], m.Position(p.Numerator(), p.Denominator()), scale, "central resampling", i); }
					}
				}
}
// Longer inputs and filters, so the dot products take the vector path.
template <class T, class H = T>
static void Long() {
	for (size_t r = 0; r < RATES.size(); ++r)
		for (size_t len : { 40, 130, 300 })
			for (size_t taps : { 33, 100, 257, 520 })
				for (size_t N : { 1, 3, 8, 16 }) {
					if (!mc::Case("resample-long", TypeName<T>(), TypeName<H>(), r, len, taps, N)) continue;
					mc::Step();
					const auto x = Ints<T>(len, len * 7 + N, 6);
				const auto h = Ints<H>(taps, taps + 50, 6);
					const auto poly = PolyphaseDecompose(h, N);
					const Model m(x, h, N);
					const LD scale = Scale(x, h, N);
					const R64 rate{ RATES[r].first, RATES[r].second };
					const auto f = Resample(x, poly, rate, CONV_FULL);
					mc::Eq(f.size(), size_t(floor(ResampleLength(len, taps, N, rate, CONV_FULL))), "length");
					for (size_t i = 0; i < f.size(); ++i) { const R64 p = rate * int64_t(i); Equal(f[i], m.Position(p.Numerator(), p.Denominator()), scale, "long resampling", i); }
					mc::StateOf(f);
				}
}
// Very many outputs in one call, and starting points far into the signal: positions past 2^24 stay exact.
template <class T>
static void LongRun() {
	for (auto [num, den] : { std::pair<int64_t, int64_t>{ 1, 64 }, { 3, 128 } })
		for (int late = 0; late < 2; ++late) {
			if (!mc::Case("resample-long-run", TypeName<T>(), num, den, late)) continue;
			mc::Step();
			const size_t n = (size_t(1) << 24) + 300, len = n * num / den + 10;
			BasicSignal<T, TIME_DOMAIN> x(len), h(1, T(1));
			for (size_t i = 0; i < len; ++i) x[i] = T((i * i + 3 * i) % 31);
			const auto poly = PolyphaseDecompose(h, 1);
			const int64_t first = late ? int64_t(n) - 5000 : 0;
			const auto out = Resample(AsConstView(x), poly, R64{ num, den }, R64{ first }, n - first);
			mc::Eq(out.size(), n - first, "length");
			size_t bad = 0;
			for (size_t i = 0; i < out.size(); ++i) {
				const int64_t pos = (first + int64_t(i)) * num;
				const double t = double(pos % den) / double(den);
				const double want = double(x[pos / den]) * (1 - t) + double(x[pos / den + 1]) * t;
				if (std::abs(double(out[i]) - want) > 1e-4 && bad++ < 3) mc::Near(out[i], LD(want), 1e-4L, "sample of a long run", first + i);
			}
			mc::StateOf(out[out.size() - 1], out[out.size() / 2], n, late);
		}
}
static void Body() {
	LongRun<double>();
	LongRun<float>();
	Windows<double>(mc::Tier(7, 12), mc::Tier(13, 24), mc::Tier(6, 9));
	Windows<float>(4, 7, 4);
	Windows<std::complex<double>>(mc::Tier(3, 5), mc::Tier(7, 10), mc::Tier(4, 6));
	Windows<double, std::complex<double>>(mc::Tier(3, 5), mc::Tier(7, 10), mc::Tier(4, 6));
	Windows<std::complex<float>, float>(3, 7, 4);
	Windows<float, double>(3, 5, 3);
	Long<double>();
	Long<float>();
	Long<long double>();
	Long<std::complex<double>>();
	Long<std::complex<float>, float>();
}
#endif
MC_MAIN(Body)
