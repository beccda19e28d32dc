// C26: concurrent calls on unrelated data give the sequential results, in every interleaving, without data races.
#define MC_NO_ALARM // waits for child processes
#include "ref.hpp"
#include "c26_sched.hpp"
#include <dspbb/Filtering/Resample.hpp>
#include <dspbb/Filtering/Polyphase.hpp>
#include <dspbb/Filtering/FIR.hpp>
#include <dspbb/Filtering/IIR.hpp>
#include <dspbb/Filtering/MeasureFilter.hpp>
#include <dspbb/Filtering/Windowing.hpp>
#include <dspbb/Generators/Spaces.hpp>
#include <dspbb/Generators/Waveforms.hpp>
#include <dspbb/Math/Convolution.hpp>
#include <dspbb/Math/EllipticFunctions.hpp>
#include <dspbb/Math/FFT.hpp>
#include <dspbb/Math/OverlapAdd.hpp>
#include <dspbb/Math/Polynomials.hpp>
#include <dspbb/Math/Rational.hpp>
#include <dspbb/Math/Solvers.hpp>
#include <dspbb/Math/Statistics.hpp>
#include <dspbb/Utility/Interval.hpp>
using namespace dspbb;

using Values = std::vector<double>;
using Body = std::function<Values()>;
using sched::Program;

template <class C>
Values Flat(const C& c) {
	Values r;
	for (const auto& v : c) {
		if constexpr (requires { v.real(); }) { r.push_back(double(v.real())); r.push_back(double(v.imag())); }
		else r.push_back(double(v));
	}
	return r;
}
template <class T>
BasicSignal<T, TIME_DOMAIN> In(size_t n, int seed) { return ref::Ints<T, TIME_DOMAIN>(n, seed, 9); }
template <class T>
BasicSignal<T, FREQUENCY_DOMAIN> InF(size_t n, int seed) { return ref::Ints<T, FREQUENCY_DOMAIN>(n, seed, 9); }

// One transform of the plan-cached kinds.
enum Kind { RF, RD, CF, CD, IRF, IRD, ICF, ICD, KINDS };
Body Transform(int kind, size_t n, int seed) {
	return [=]() -> Values {
		switch (kind) {
			case RF: return Flat(Fft(In<float>(n, seed), FFT_HALF));
			case RD: return Flat(Fft(In<double>(n, seed), FFT_FULL));
			case CF: return Flat(Fft(In<std::complex<float>>(n, seed)));
			case CD: return Flat(Fft(In<std::complex<double>>(n, seed)));
			case IRF: return Flat(Ifft(InF<std::complex<float>>(n / 2 + 1, seed), FFT_HALF, n % 2 == 0));
			case IRD: return Flat(Ifft(InF<std::complex<double>>(n / 2 + 1, seed), FFT_HALF, n % 2 == 0));
			case ICF: return Flat(Ifft(InF<std::complex<float>>(n, seed)));
			default: return Flat(Ifft(InF<std::complex<double>>(n, seed)));
		}
	};
}

// Read-only objects used by all threads at once.
struct SharedInputs {
	Signal<double> x = In<double>(40, 1), h = In<double>(7, 2);
	Signal<float> xf = In<float>(40, 3);
	Signal<std::complex<double>> xc = In<std::complex<double>>(20, 4);
	PolyphaseFilter<double, TIME_DOMAIN> poly = PolyphaseDecompose(In<double>(9, 5), 3);
	DiscreteZeroPoleGain<double> zpk{ 2.0, { 0.5, -0.25, std::complex<double>(0.1, 0.3), std::complex<double>(0.1, -0.3) }, { 0.3, std::complex<double>(-0.2, 0.4), std::complex<double>(-0.2, -0.4) } };
	DiscreteTransferFunction<double> tf{ zpk };
	CascadedBiquad<double> cascade{ zpk };
	Polynomial<double> polynomial{ 1.0, -2.0, 3.0 };
};
const SharedInputs* in = nullptr; // made by the main thread of each run

struct Named { const char* name; Body body; };
std::vector<Named> Bodies() {
	using namespace std::complex_literals;
	std::vector<Named> b;
	auto add = [&](const char* name, Body f) { b.push_back({ name, std::move(f) }); };
	add("fft-real-half-float", [] { return Flat(Fft(In<float>(12, 1), FFT_HALF)); });
	add("fft-real-full-double", [] { return Flat(Fft(in->x, FFT_FULL)); });
	add("fft-complex-double", [] { return Flat(Fft(in->xc)); });
	add("ifft-real-double", [] { return Flat(Ifft(InF<std::complex<double>>(9, 2), FFT_HALF, true)); });
	add("ifft-complex-float", [] { return Flat(Ifft(InF<std::complex<float>>(13, 2))); });
	add("fft-prime", [] { return Flat(Fft(In<std::complex<double>>(101, 7))); });
	add("fft-shift", [] { auto s = Fft(in->xc); FftShift(s, s); return Flat(s); });
	add("convolution", [] { return Flat(Convolution(in->x, in->h, CONV_FULL)); });
	add("convolution-central", [] { return Flat(Convolution(in->xf, in->h, CONV_CENTRAL)); });
	add("overlap-add", [] { return Flat(OverlapAdd(in->x, in->h, CONV_FULL, 16)); });
	add("filter-ola-stream", [] {
		Signal<double> state(6, 0.0);
		Values r;
		for (int i = 0; i < 2; ++i) for (auto v : Flat(Filter(AsView(in->x).subsignal(20 * i, 20), in->h, state, FILTER_OLA))) r.push_back(v);
		return r;
	});
	add("filter-conv-stream", [] {
		Signal<double> state(6, 0.0);
		Values r;
		for (int i = 0; i < 4; ++i) for (auto v : Flat(Filter(AsView(in->x).subsignal(10 * i, 10), in->h, state, FILTER_CONV))) r.push_back(v);
		return r;
	});
	add("design-iir-elliptic", [] { auto z = DesignFilter<double>(4, Iir.Lowpass.Elliptic.Cutoff(0.4).PassbandRipple(0.1).StopbandRipple(0.05)); auto r = Flat(z.zeros.complex_pairs()); for (auto v : Flat(z.poles.complex_pairs())) r.push_back(v); r.push_back(z.gain); return r; });
	add("design-iir-elliptic-band", [] { auto z = DesignFilter<double>(6, Iir.Bandpass.Elliptic.Band(0.3, 0.6).PassbandRipple(0.2).StopbandRipple(0.1)); auto r = Flat(z.poles.complex_pairs()); r.push_back(z.gain); return r; });
	add("design-iir-elliptic-float", [] { auto z = DesignFilter<float>(3, Iir.Highpass.Elliptic.Cutoff(0.3f).PassbandRipple(0.2f).StopbandRipple(0.1f)); auto r = Flat(z.poles.complex_pairs()); r.push_back(double(z.gain)); return r; });
	add("design-iir-butterworth", [] { auto z = DesignFilter<double>(4, Iir.Bandstop.Butterworth.Band(0.3, 0.6)); auto r = Flat(z.poles.complex_pairs()); r.push_back(z.gain); return r; });
	add("design-iir-chebyshev1", [] { auto z = DesignFilter<double>(4, Iir.Highpass.Chebyshev1.Cutoff(0.3).PassbandRipple(0.1)); auto r = Flat(z.poles.complex_pairs()); r.push_back(z.gain); return r; });
	add("design-iir-chebyshev2", [] { auto z = DesignFilter<double>(4, Iir.Lowpass.Chebyshev2.Cutoff(0.3).StopbandRipple(0.1)); auto r = Flat(z.poles.complex_pairs()); r.push_back(z.gain); return r; });
	add("design-fir-windowed", [] { return Flat(DesignFilter<double, TIME_DOMAIN>(15, Fir.Lowpass.Windowed.Cutoff(0.3).Window(windows::blackman))); });
	add("design-fir-windowed-float", [] { return Flat(DesignFilter<float, TIME_DOMAIN>(15, Fir.Bandpass.Windowed.Band(0.3f, 0.6f).Window(windows::hamming))); });
	add("design-fir-least-squares", [] { return Flat(DesignFilter<double, TIME_DOMAIN>(7, Fir.Bandstop.LeastSquares.Band(0.2, 0.3, 0.5, 0.6))); });
	add("design-fir-arbitrary", [] { return Flat(DesignFilter<double, TIME_DOMAIN>(15, Fir.Arbitrary.Windowed.Response([](double f) { return f * f; }).Window(windows::hamming))); });
	add("design-fir-hilbert", [] { return Flat(DesignFilter<double, TIME_DOMAIN>(11, Fir.Hilbert.Windowed.Window(windows::hamming))); });
	add("elliptic-functions", [] {
		Values r;
		for (double k : { 0.3, 0.95 })
			for (double x : { 0.4, 2.5 }) {
				const auto [s, c, d] = EllipticSNCNDN(x, k);
				for (double v : { s, c, d, EllipticAM(x, k), EllipticK(k) }) r.push_back(v);
			}
		return r;
	});
	add("elliptic-functions-float", [] {
		Values r;
		for (float k : { 0.2f, 0.8f }) for (float x : { -0.7f, 1.5f }) { r.push_back(EllipticAM(x, k)); r.push_back(EllipticSN(x, k)); }
		return r;
	});
	add("elliptic-functions-complex", [] { return Flat(std::vector<std::complex<double>>{ EllipticSN(0.4 + 0.3i, 0.6), EllipticCN(-0.4 + 0.2i, 0.3) }); });
	add("window-dolph-chebyshev", [] { return Flat(DolphChebyshevWindow<double>(21, 0.01)); });
	add("window-kaiser", [] { return Flat(KaiserWindow<double>(20, 2.5)); });
	add("window-flattop-float", [] { return Flat(FlatTopWindow<float>(20)); });
	add("waveform", [] { auto r = Flat(SineWave<double, TIME_DOMAIN>(20, 100, 7.0, 0.3)); for (auto v : Flat(SineChirp<double, TIME_DOMAIN>(20, 100, 2.0, 9.0, 0.1))) r.push_back(v); return r; });
	add("spaces", [] { auto r = Flat(LinSpace<double, TIME_DOMAIN>(1.0, 4.0, 9)); for (auto v : Flat(LogSpace<double, TIME_DOMAIN>(0.0, 2.0, 9))) r.push_back(v); return r; });
	add("resample", [] { return Flat(Resample(in->x, in->poly, { 5, 7 }, CONV_FULL)); });
	add("resample-central", [] { return Flat(Resample(in->x, in->poly, { 4, 3 }, CONV_CENTRAL)); });
	add("interpolate", [] { Signal<double> o(30); Interpolate(o, in->x, in->poly, 4); return Flat(o); });
	add("polyphase", [] { auto p = PolyphaseNormalized(PolyphaseDecompose(In<double>(9, 6), 2)); auto r = Flat(p[0]); for (auto v : Flat(p[1])) r.push_back(v); return r; });
	add("frequency-response", [] { auto [a, p] = FrequencyResponse(in->h, 40); auto r = Flat(a); for (auto v : Flat(p)) r.push_back(v); return r; });
	add("frequency-response-iir", [] { auto [a, p] = FrequencyResponse(in->tf, 40); return Flat(a); });
	add("iir-direct1", [] { DirectFormI<double> f(in->tf.order()); return Flat(Filter(in->x, in->tf, f)); });
	add("iir-direct2", [] { DirectFormII<double> f(in->tf.order()); return Flat(Filter(in->x, in->tf, f)); });
	add("iir-cascade", [] { CascadedForm<double> f(in->cascade.order()); return Flat(Filter(in->x, in->cascade, f)); });
	add("systems", [] { CascadedBiquad<double> c(in->zpk); DiscreteTransferFunction<double> t(in->zpk); return Flat(std::vector<std::complex<double>>{ c(0.3 + 0.9i), t(0.3 + 0.9i), in->zpk(0.3 + 0.9i), in->cascade(0.1i) }); });
	add("polynomials", [] { auto e = ExpandPolynomial(in->zpk.zeros); auto r = Flat(e.coefficients()); r.push_back(in->polynomial(3.0)); return r; });
	add("statistics", [] { return Values{ Mean(in->x), StandardDeviation(in->x), Skewness(in->x), Kurtosis(in->x), RootMeanSquare(in->x), double(Max(in->xf)), Covariance(in->x, in->x) }; });
	add("arithmetic", [] { auto s = in->x * in->x + 2.0 * in->x; s /= 3.0; return Flat(Exp(s * 0.01)); });
	add("functions", [] { auto s = Abs(in->x) + 1.0; Values r = Flat(Log(s)); for (auto v : Flat(Sqrt(s))) r.push_back(v); for (auto v : Flat(Erf(s))) r.push_back(v); return r; });
	add("containers", [] { auto s = in->x; s.append(in->h); auto f = s.extract_front(5); s.insert(3, f); s.push_back(4); return Flat(s); });
	add("rational", [] { const Rational<int64_t> a{ 3, 4 }, b{ -5, 6 }; const auto c = (a + b) * a / b; return Values{ double(c.Numerator()), double(c.Denominator()) }; });
	add("interval", [] { const auto u = Intersection(Interval<double>{ 1, 4 }, Interval<double>{ 2, 8 }); return Values{ u.first, u.last, u.size() }; });
	return b;
}

static std::string Judge(const sched::Results& got, const sched::Results& want) {
	for (size_t t = 0; t < want.size(); ++t) {
		if (got[t].size() != want[t].size()) return "thread " + std::to_string(t + 1) + " returned " + std::to_string(got[t].size()) + " values instead of " + std::to_string(want[t].size());
		double scale = 0;
		for (double v : want[t]) if (std::isfinite(v)) scale = std::max(scale, std::abs(v));
		for (size_t i = 0; i < want[t].size(); ++i) {
			const double g = got[t][i], w = want[t][i];
			if (g == w || (std::isnan(g) && std::isnan(w)) || std::abs(g - w) <= 1e-5 * scale) continue;
			return "thread " + std::to_string(t + 1) + " value " + std::to_string(i) + ": got " + std::to_string(g) + ", alone " + std::to_string(w);
		}
	}
	return "";
}

static sched::Stats total;
// Explores all schedules of the program and compares each with every body run alone.
static void Decide(const std::function<void()>& prelude, const std::vector<Body>& bodies, int bound) {
	auto make = [] { in = new SharedInputs; };
	sched::Results want;
	std::string error;
	for (auto& b : bodies) {
		auto r = sched::Sequential(Program{ make, { b } }, error);
		if (!error.empty()) mc::Fail("alone: " + error);
		want.push_back(r[0]);
		mc::Check(!r[0].empty(), "a body returned nothing");
		mc::StateOf(r[0]);
	}
	Program p{ [&] { make(); if (prelude) prelude(); }, bodies };
	sched::Stats st;
	const std::string e = sched::Explore(p, bound, mc::Tier(1500, 60000), 2000000, [&](const sched::Results& got) { return Judge(got, want); }, st);
	mc::Step(st.schedules);
	mc::State(st.schedules * 1000003 + st.points);
	if (!e.empty()) mc::Fail(e);
	mc::Check(st.stopped == 0, "schedule limit reached");
	total.schedules += st.schedules;
	total.points += st.points;
	total.accesses += st.accesses;
	total.syncs += st.syncs;
	total.contended += st.contended;
	for (int i = 0; i < 8; ++i) total.bounds[i] += st.bounds[i];
	total.maxPreemptions = std::max(total.maxPreemptions, st.maxPreemptions);
}

// The cache holds 16 plans per kind; fill it with other lengths, the wanted ones being the oldest, the newest or absent.
static std::function<void()> Fill(int kind, std::vector<size_t> lengths) {
	return [=] { for (auto n : lengths) Transform(kind, n, 1)(); };
}

static void Body_() {
	const auto all = Bodies();
	// Two threads, one call each.
	for (size_t i = 0; i < all.size(); ++i)
		for (size_t j = i; j < all.size(); ++j)
			if (mc::Case("two-calls", all[i].name, all[j].name)) Decide(nullptr, { all[i].body, all[j].body }, mc::Tier(2, 3));
	// Every pair of cached transforms, same and different lengths, from every kind of cache content.
	for (int ka = 0; ka < KINDS; ++ka)
		for (int kb = ka; kb < KINDS; ++kb)
			for (auto [na, nb] : { std::pair<size_t, size_t>{ 6, 6 }, { 6, 10 }, { 1, 2 }, { 37, 6 } })
				if (mc::Case("two-transforms", ka, kb, na, nb)) Decide(nullptr, { Transform(ka, na, 1), Transform(kb, nb, 2) }, mc::Tier(3, 5));
	for (int k = 0; k < KINDS; ++k)
		for (int content = 0; content < 5; ++content)
			for (auto [na, nb] : { std::pair<size_t, size_t>{ 6, 6 }, { 6, 10 } }) {
				if (!mc::Case("full-cache", k, content, na, nb)) continue;
				std::vector<size_t> fill;
				for (size_t n = 20; n < 34; ++n) fill.push_back(n); // 14 others
				if (content == 0) fill.push_back(40); // one free entry
				if (content == 1) fill.insert(fill.end(), { 40, 41 }); // full of others
				if (content == 2) fill.insert(fill.begin(), { na, nb == na ? size_t(40) : nb }); // wanted ones are the oldest
				if (content == 3) fill.insert(fill.end(), { na, nb == na ? size_t(40) : nb }); // wanted ones are the newest
				if (content == 4) { fill.insert(fill.begin(), { nb, 40 }); fill.push_back(41); } // one wanted was just evicted
				Decide(Fill(k, fill), { Transform(k, na, 1), Transform(k, nb, 2) }, mc::Tier(3, 4));
			}
	// A plan in use is evicted by another thread.
	for (int k : { int(RD), int(CF), int(IRD), int(ICF) }) {
		std::vector<size_t> fill{ 6 };
		for (size_t n = 20; n < 35; ++n) fill.push_back(n);
		if (mc::Case("evicted-in-use", k)) Decide(Fill(k, fill), { Transform(k, 6, 1), [=] { Transform(k, 50, 2)(); return Transform(k, 51, 3)(); } }, mc::Tier(3, 4));
	}
	// Histories of two calls per thread.
	for (int k : { int(RF), int(CD) })
		for (int w = 0; w < 16; ++w) {
			const size_t n[2] = { 6, 9 };
			if (mc::Case("two-by-two", k, w))
				Decide(nullptr, { [=] { auto r = Transform(k, n[w & 1], 1)(); for (auto v : Transform(k, n[w >> 1 & 1], 2)()) r.push_back(v); return r; },
				                  [=] { auto r = Transform(k, n[w >> 2 & 1], 3)(); for (auto v : Transform(k, n[w >> 3 & 1], 4)()) r.push_back(v); return r; } }, mc::Tier(2, 3));
		}
	// Three threads.
	for (int k = 0; k < KINDS; ++k)
		for (int w = 0; w < 3; ++w)
			if (mc::Case("three-transforms", k, w)) Decide(nullptr, { Transform(k, 6, 1), Transform(k, w > 0 ? 10 : 6, 2), Transform(k, w > 1 ? 15 : 6, 3) }, mc::Tier(2, 3));
	for (size_t i = 0; i < all.size(); ++i)
		if (mc::Case("three-calls", all[i].name)) Decide(nullptr, { all[i].body, all[i].body, all[(i + 1) % all.size()].body }, mc::Tier(1, 2));
	char b[600];
	snprintf(b, sizeof b, "shard: %llu schedules, %llu scheduling points, %llu synchronization operations (%llu found the lock taken), %llu memory accesses checked, up to %llu preemptions",
		(unsigned long long)total.schedules, (unsigned long long)total.points, (unsigned long long)total.syncs, (unsigned long long)total.contended, (unsigned long long)total.accesses, (unsigned long long)total.maxPreemptions);
	std::string s = b;
	s += "; programs by preemption bound:";
	for (int i = 0; i < 8; ++i) if (total.bounds[i]) s += " " + std::to_string(i) + ": " + std::to_string(total.bounds[i]);
	mc::Note(s);
}
MC_MAIN(Body_)
