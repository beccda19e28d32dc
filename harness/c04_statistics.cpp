// C04: reductions and statistics equal their definitions, whatever the length and wherever the samples are.
#include "ref.hpp"
#include <dspbb/Math/DotProduct.hpp>
#include <dspbb/Math/Statistics.hpp>
using namespace dspbb;
using namespace ref;

template <class T>
Guarded<T> Input(size_t n, size_t mis, uint64_t seed, bool allNegative) {
	Guarded<T> g(n, mis);
	for (size_t i = 0; i < n; ++i) {
		g[i] = mc::ValAs<T>(seed * 8191 + i, 9);
		if constexpr (!is_cplx<T>::value) if (allNegative) g[i] = -std::abs(g[i]) - T(3);
	}
	return g;
}

template <class T>
void Sums(const char* name, const std::vector<size_t>& lengths) {
	for (size_t n : lengths)
		for (size_t mis = 0; mis < (n <= 70 ? 4 : 1); ++mis)
			for (int neg = 0; neg < 2; ++neg)
				if (mc::Case(name, n, mis, neg)) {
					auto g = Input<T>(n, mis, n + 1, neg);
					auto v = g.cview();
					BasicSignal<T, TIME_DOMAIN> s(v.begin(), v.end());
					wide_t<T> sum(0), sq(0);
					for (size_t i = 0; i < n; ++i) { sum += Wide(g[i]); sq += Wide(g[i]) * Wide(g[i]); }
					mc::Near(Sum(v), sum, 0, "Sum");
					mc::Near(Sum(s), sum, 0, "Sum of signal");
					mc::Near(SumSquare(v), sq, 0, "SumSquare");
					const LD nn = n ? LD(n) : 1;
					mc::Near(Mean(v), sum / nn, 4 * Eps<T>() * std::abs(sum / nn), "Mean");
					mc::Near(MeanSquare(v), sq / nn, 4 * Eps<T>() * std::abs(sq / nn), "MeanSquare");
					mc::Near(RootMeanSquare(v), std::sqrt(sq / nn), 8 * Eps<T>() * std::abs(std::sqrt(sq / nn)), "RootMeanSquare");
					mc::Near(Norm(v), std::sqrt(sq), 8 * Eps<T>() * std::abs(std::sqrt(sq)), "Norm");
					mc::Step(7);
					mc::StateOf(g.mem);
				}
}

template <class T>
void Extremes(const char* name) {
	for (size_t n : Lengths(mc::Tier<size_t>(40, 80), { 64, 65, 127, 128, 129, 257, 4097, 65537 }))
		for (size_t p = 0; p < n; p += n <= 80 ? 1 : n <= 257 ? 7 : n / 5)
			for (int neg = -1; neg <= 1; ++neg)
				if (mc::Case(name, n, p, neg)) {
					// One strict maximum / minimum, at every position; the surroundings are more extreme.
					Guarded<T> g(n, p % 4);
					for (size_t i = 0; i < n; ++i) g[i] = T(neg * 50 + mc::Val(i + n, 9));
					Guarded<T> lo = g;
					g[p] = T(neg * 50 + 10);
					lo[p] = T(neg * 50 - 11);
					for (auto& x : lo.mem) if (x == lo.sentinel) x = T(-99999);
					mc::Eq(Max(g.cview()), T(neg * 50 + 10), "Max");
					mc::Eq(Min(lo.cview()), T(neg * 50 - 11), "Min");
					// Ties and constants.
					Guarded<T> c(n, p % 3, T(neg * 4));
					mc::Eq(Max(c.cview()), T(neg * 4), "Max of a constant");
					mc::Eq(Min(c.cview()), T(neg * 4), "Min of a constant");
					mc::Step(4);
					mc::StateOf(g.mem, p);
				}
}

template <class T>
void Moments(const char* name, const std::vector<size_t>& lengths) {
	for (size_t n : lengths) {
		if (n < 1) continue;
		for (int neg = 0; neg < 4; ++neg)
			if (mc::Case(name, n, neg)) {
				auto g = Input<T>(n, n % 4, 5 * n + 1, neg == 1);
				if (neg == 2 && n) for (size_t i = 0; i < n; ++i) g[i] = T(std::abs(g[i])) * g[i]; // skewed
				if (neg == 3) for (size_t i = 0; i < n; ++i) g[i] += std::is_same_v<T, float> ? T(1e4) : T(1e7); // far from zero: naive formulas cancel
				auto v = g.cview();
				LD mean = 0;
				for (size_t i = 0; i < n; ++i) mean += Wide(g[i]);
				mean /= n;
				auto moment = [&](int k, LD m, LD& mag) { LD r = 0; mag = 0; for (size_t i = 0; i < n; ++i) { LD t = std::pow(Wide(g[i]) - m, k); r += t; mag += std::abs(t); } mag = mag / n + LD(1e-30); return r / n; };
				LD mag;
				auto tolOf = [&](LD mag) { return (1024 + 2 * LD(n)) * Eps<T>() * mag; };
				// The library's own mean is rounded: its effect on a k-th moment is k*|dm|*E|x-m|^(k-1).
				for (int k = 2; k <= 9; ++k) {
					const LD w = moment(k, mean, mag);
					LD low; moment(k - 1, mean, low);
					mc::Near(CentralMoment(v, k), w, tolOf(mag) + 64 * k * Eps<T>() * (std::abs(mean) + 1) * low, "CentralMoment", k);
					for (T m : { T(0), T(2), T(-3), T(0.5) }) {
						const LD w2 = moment(k, LD(m), mag);
						if (mag * n > LD(std::numeric_limits<T>::max()) / 4) continue; // the sum itself overflows
						mc::Near(CentralMoment(v, k, m), w2, tolOf(mag), "CentralMoment about a given mean", k);
					}
				}
				LD g2, g3, g4;
				const LD m2 = moment(2, mean, g2), m3 = moment(3, mean, g3), m4 = moment(4, mean, g4);
				mc::Near(Variance(v), m2, tolOf(g2), "Variance");
				mc::Near(StandardDeviation(v), std::sqrt(m2), tolOf(std::sqrt(g2)), "StandardDeviation");
				if (m2 > 0) {
					const LD rel = 64 * Eps<T>() * (std::abs(mean) + 1) / std::sqrt(m2);
					auto tol = [&](LD mag, int k) { return tolOf(mag / std::pow(m2, LD(k) / 2)) * 2 + rel * k * (1 + mag / std::pow(m2, LD(k) / 2)); };
					mc::Near(Skewness(v), m3 / std::pow(m2, LD(1.5)), tol(g3, 3), "Skewness");
					mc::Near(Kurtosis(v), m4 / (m2 * m2), tol(g4, 4), "Kurtosis");
					for (int k = 2; k <= 7; ++k) { const LD w = moment(k, mean, mag); mc::Near(StandardizedMoment(v, k), w / std::pow(m2, LD(k) / 2), tol(mag, k), "StandardizedMoment", k); }
					for (T m : { T(0), T(2), T(-3) }) {
						LD a2, a3, a4;
						const LD c2 = moment(2, LD(m), a2), c3 = moment(3, LD(m), a3), c4 = moment(4, LD(m), a4);
						if (c2 <= 0) continue;
						mc::Near(Variance(v, m), c2, tolOf(a2), "Variance about a given mean");
						mc::Near(StandardDeviation(v, m), std::sqrt(c2), tolOf(std::sqrt(a2)), "StandardDeviation about a given mean");
						mc::Near(Skewness(v, m), c3 / std::pow(c2, LD(1.5)), tolOf(a3 / std::pow(c2, LD(1.5))) * 2, "Skewness about a given mean");
						mc::Near(Kurtosis(v, m), c4 / (c2 * c2), tolOf(a4 / (c2 * c2)) * 2, "Kurtosis about a given mean");
					}
					const LD N = n;
					if (n >= 2) {
						mc::Near(CorrectedVariance(v), m2 * N / (N - 1), tolOf(g2) * 2, "CorrectedVariance");
						mc::Near(CorrectedStandardDeviation(v), std::sqrt(m2 * N / (N - 1)), tolOf(std::sqrt(g2)) * 2, "CorrectedStandardDeviation");
					}
					if (n >= 3) {
						const LD s = N * N / ((N - 1) * (N - 2)), d = std::pow(m2 * N / (N - 1), LD(1.5));
						mc::Near(CorrectedSkewness(v), m3 * s / d, 4 * (tol(g3, 3)) * s, "CorrectedSkewness");
					}
					if (n >= 4 && n <= 300) {
						const LD Kx = (N - 1) / (N * N * N) * ((N * N - 3 * N + 3) * m4 + (6 * N - 9) * m2 * m2), sx = (N - 1) / N * m2;
						const LD K = N * N / ((N - 1) * (N - 1) * (N - 1) * (N * N - 3 * N + 3)) * ((N * (N - 1) * (N - 1) + (6 * N - 9)) * Kx - N * (6 * N - 9) * sx * sx);
						const LD s2 = N / (N - 1) * m2;
						mc::Near(CorrectedKurtosis(v), K / (s2 * s2), 64 * tol(g4, 4), "CorrectedKurtosis");
					}
				}
				mc::Step(20);
				mc::StateOf(g.mem);
			}
	}
}

template <class T>
void Pairs(const char* name, const std::vector<size_t>& lengths) {
	for (size_t n : lengths) {
		if (n < 2) continue;
		for (size_t mis = 0; mis < 4; ++mis)
			if (mc::Case(name, n, mis)) {
				auto a = Input<T>(n, mis, n + 11, false), b = Input<T>(n, (mis + 1) % 3, n + 12, false);
				if (mis == 2) for (size_t i = 0; i < n; ++i) b[i] = -2 * a[i] + 3; // exactly anticorrelated
				if (mis == 3) for (size_t i = 0; i < n; ++i) { a[i] += std::is_same_v<T, float> ? T(1e4) : T(1e7); b[i] += std::is_same_v<T, float> ? T(2e4) : T(-1e7); }
				LD ma = 0, mb = 0, cov = 0, mag = 0, va = 0, vb = 0;
				for (size_t i = 0; i < n; ++i) { ma += a[i]; mb += b[i]; }
				ma /= n; mb /= n;
				for (size_t i = 0; i < n; ++i) { const LD x = a[i] - ma, y = b[i] - mb; cov += x * y; mag += std::abs(x * y); va += x * x; vb += y * y; }
				cov /= n; mag = mag / n + 1; va /= n; vb /= n;
				LD ax = 0, ay = 0;
				for (size_t i = 0; i < n; ++i) { ax += std::abs(a[i] - ma); ay += std::abs(b[i] - mb); }
				const LD tol = (256 + n) * Eps<T>() * mag + (mis == 3 ? 64 * Eps<T>() * (std::abs(ma) * ay + std::abs(mb) * ax) / n : 0);
				mc::Near(Covariance(a.cview(), b.cview()), cov, tol, "Covariance");
				mc::Near(Covariance(b.cview(), a.cview()), cov, tol, "Covariance, swapped");
				mc::Near(CorrectedCovariance(a.cview(), b.cview()), cov * n / (n - 1), 2 * tol, "CorrectedCovariance");
				LD c2 = 0, m2 = 0;
				for (size_t i = 0; i < n; ++i) { c2 += (a[i] - 1) * (b[i] + 2); m2 += std::abs((a[i] - 1) * (b[i] + 2)); }
				mc::Near(Covariance(a.cview(), b.cview(), T(1), T(-2)), c2 / n, (64 + n) * Eps<T>() * (m2 / n), "Covariance about given means");
				if (va > 0 && vb > 0) {
					mc::Near(Correlation(a.cview(), b.cview()), cov / std::sqrt(va * vb), 8 * tol / std::sqrt(va * vb) + 512 * Eps<T>(), "Correlation");
					if (mis == 2) mc::Near(Correlation(a.cview(), b.cview()), LD(-1), 8 * tol / std::sqrt(va * vb) + 512 * Eps<T>(), "Correlation of an exact linear relation");
				}
				mc::Step(5);
				mc::StateOf(a.mem, b.mem);
			}
	}
}

template <class A, class B>
void Dots(const char* name, const std::vector<size_t>& lengths) {
	for (size_t n : lengths)
		for (size_t mis = 0; mis < 4; ++mis)
			if (mc::Case(name, n, mis)) {
				auto a = Input<A>(n, mis, n + 21, false);
				auto b = Input<B>(n, (3 * mis + 1) % 4, n + 22, false);
				auto conj = [](auto v) { if constexpr (is_cplx<decltype(v)>::value) return std::conj(v); else return v; };
				decltype(Wide(a[0]) * Wide(b[0])) w(0);
				for (size_t i = 0; i < n; ++i) w += Wide(a[i]) * conj(Wide(b[i]));
				mc::Near(DotProduct(a.cview(), b.cview()), w, 0, "DotProduct");
				BasicSignal<A, TIME_DOMAIN> sa(n, a.data());
				BasicSignal<B, TIME_DOMAIN> sb(n, b.data());
				mc::Near(DotProduct(sa, sb), w, 0, "DotProduct of signals");
				mc::Step(2);
				mc::StateOf(a.mem, b.mem);
			}
}

// Integers: sums and products are exact, and the result has the type of the samples.
template <class T>
void Integers(const char* name, const std::vector<size_t>& lengths) {
	for (size_t n : lengths)
		for (size_t mis = 0; mis < (n <= 70 ? 4 : 1); ++mis)
			if (mc::Case(name, n, mis)) {
				Guarded<T> g(n, mis), h(n, (mis + 1) % 3);
				long long sum = 0, sq = 0, dot = 0;
				for (size_t i = 0; i < n; ++i) {
					g[i] = T(mc::Val(i + n, 5) + (std::is_unsigned_v<T> ? 5 : 0));
					h[i] = T(mc::Val(3 * i + n + 1, 5) + (std::is_unsigned_v<T> ? 5 : 0));
					sum += g[i], sq += (long long)g[i] * g[i], dot += (long long)g[i] * h[i];
				}
				static_assert(std::is_same_v<decltype(Sum(g.cview())), T>);
				mc::Eq((long long)Sum(g.cview()), (long long)T(sum), "Sum");
				mc::Eq((long long)SumSquare(g.cview()), (long long)T(sq), "SumSquare");
				mc::Eq((long long)DotProduct(g.cview(), h.cview()), (long long)T(dot), "DotProduct");
				g.CheckGuards();
				mc::Step(3);
				mc::StateOf(g.mem);
			}
}

void Body() {
	const auto L = Lengths(mc::Tier<size_t>(140, 600), { 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4097, 65537 });
	Sums<float>("sum-f", L);
	Sums<double>("sum-d", L);
	Sums<std::complex<float>>("sum-cf", L);
	Sums<std::complex<double>>("sum-cd", L);
	using cl = std::complex<long double>;
	const auto S = Lengths(mc::Tier<size_t>(40, 140), { 257, 1025, 4097 });
	Sums<long double>("sum-ld", S);
	Sums<cl>("sum-cld", S);
	Dots<long double, long double>("dot-ld-ld", S);
	Dots<cl, cl>("dot-cld-cld", S);
	Dots<long double, float>("dot-ld-f", S);
	Moments<long double>("moment-ld", Lengths(40, { 257, 1000 }));
	Pairs<long double>("pair-ld", S);
	Integers<int>("integers-i", L);
	Integers<int64_t>("integers-l", S);
	Integers<uint32_t>("integers-u", S);
	Extremes<long double>("extreme-ld");
	Extremes<int>("extreme-i");
	Extremes<int64_t>("extreme-l");
	Extremes<int16_t>("extreme-s");
	Extremes<float>("extreme-f");
	Extremes<double>("extreme-d");
	const auto M = Lengths(mc::Tier<size_t>(100, 400), { 127, 128, 129, 257, 1000, 4097 });
	Moments<float>("moment-f", M);
	Moments<double>("moment-d", M);
	Pairs<float>("pair-f", L);
	Pairs<double>("pair-d", L);
	Dots<float, float>("dot-f-f", L);
	Dots<double, double>("dot-d-d", L);
	Dots<std::complex<float>, std::complex<float>>("dot-cf-cf", L);
	Dots<std::complex<double>, std::complex<double>>("dot-cd-cd", L);
	Dots<float, std::complex<float>>("dot-f-cf", L);
	Dots<std::complex<float>, float>("dot-cf-f", L);
	Dots<float, double>("dot-f-d", L);
	// Defined results for empty signals.
	if (mc::Case("empty")) {
		SignalF e;
		mc::Check(Sum(e) == 0 && Mean(e) == 0 && SumSquare(e) == 0 && MeanSquare(e) == 0 && RootMeanSquare(e) == 0 && Norm(e) == 0 && DotProduct(e, e) == 0, "statistics of an empty signal");
	}
}
MC_MAIN(Body)
