// C22: LinSpace and LogSpace are the arithmetic and geometric sequences between their end points.
#include "ref.hpp"
#include <dspbb/Generators/Spaces.hpp>
using namespace dspbb;
using namespace ref;

template <class R>
static void Check(const R& got, size_t n, const std::function<LD(size_t)>& want, const std::function<LD(size_t)>& tol) {
	mc::Eq(size_t(got.size()), n, "size");
	for (size_t i = 0; i < n && i < got.size(); ++i) mc::Near(got[i], want(i), tol(i), "sample", i);
}
template <class T>
static void Lin(size_t upTo) {
	using U = real_of_t<T>;
	const std::vector<std::pair<double, double>> ends = { { 0, 1 }, { 1, 0 }, { -3, 5 }, { 2, 2 }, { -1e3, 1e3 }, { 0.1, 0.7 }, { 100, 101 }, { 0, -6.28318 } };
	for (size_t n : Lengths(upTo, { 127, 128, 129, 255, 256, 257, 1000, 1023, 4097, 100003 }))
		for (size_t e = 0; e < ends.size(); ++e)
			for (int mode = 0; mode < 4; ++mode) {
				if (!mc::Case("linspace", TypeName<T>(), n, e, mode)) continue;
				mc::Step(2);
				const U a = U(ends[e].first), b = U(ends[e].second);
				const bool inc = mode & 1;
				const LD div = std::max<LD>(1, LD(n) - inc);
				auto want = [&](size_t i) { return LD(a) + LD(i) * (LD(b) - LD(a)) / div; };
				auto tol = [&](size_t i) { return 4 * Eps<T>() * (std::abs(LD(a)) + std::abs(LD(b) - LD(a)) * i / div); };
				if (mode & 2) {
					Guarded<T> out(n, n % 4, T(U(55)));
					if (inc && e % 2) LinSpace(out.view(), a, b); // inclusive is the default
					else LinSpace(out.view(), a, b, inc);
					Check(out.view(), n, want, tol);
					out.CheckGuards();
					if (n) mc::Check(out[0] == T(a), "starts at the start");
					mc::StateOf(out.view());
				}
				else {
					auto s = inc && e % 2 ? LinSpace<T, FREQUENCY_DOMAIN>(a, b, n) : LinSpace<T, FREQUENCY_DOMAIN>(a, b, n, inc);
					Check(s, n, want, tol);
					BasicSignal<T, DOMAINLESS> t(n, T(U(-9)));
					LinSpace(t, a, b, inc);
					Check(t, n, want, tol);
				}
			}
}
template <class T>
static void Log(size_t upTo) {
	using U = real_of_t<T>;
	const std::vector<std::pair<double, double>> ends = { { 0, 1 }, { 1, 0 }, { -3, 3 }, { 2, 2 }, { 0.25, 4 } };
	const std::vector<double> bases = { 10, 2, 2.718281828, 0.5 };
	for (size_t n : Lengths(upTo, { 127, 128, 129, 256, 1000, 4097, 30001 }))
		for (size_t e = 0; e < ends.size(); ++e)
			for (size_t bi = 0; bi < bases.size(); ++bi)
				for (int mode = 0; mode < 4; ++mode) {
					if (!mc::Case("logspace", TypeName<T>(), n, e, bi, mode)) continue;
					mc::Step();
					const U a = U(ends[e].first), b = U(ends[e].second), base = U(bases[bi]);
					const bool inc = mode & 1;
					const LD div = std::max<LD>(1, LD(n) - inc);
					auto want = [&](size_t i) { return std::pow(LD(base), LD(a) + LD(i) * (LD(b) - LD(a)) / div); };
					auto tol = [&](size_t i) { return 16 * Eps<T>() * want(i) * (1 + 4 * std::abs(std::log(LD(base)))); };
					if (mode & 2) {
						Guarded<T> out(n, n % 4, T(U(55)));
						if (inc && bi == 0) LogSpace(out.view(), a, b);
						else LogSpace(out.view(), a, b, base, inc);
						Check(out.view(), n, want, tol);
						out.CheckGuards();
						mc::StateOf(out.view());
					}
					else {
						auto s = inc && bi == 0 ? LogSpace<T, TIME_DOMAIN>(a, b, n) : LogSpace<T, TIME_DOMAIN>(a, b, n, base, inc);
						Check(s, n, want, tol);
					}
				}
}
static void Body() {
	// More samples than a float can count.
	for (int inc = 0; inc < 2; ++inc)
		if (mc::Case("linspace-huge", inc)) {
			mc::Step();
			const size_t n = (size_t(1) << 24) + 1027;
			const auto s = LinSpace<float, TIME_DOMAIN>(-1.0f, 3.0f, n, bool(inc));
			mc::Eq(size_t(s.size()), n, "size");
			for (size_t i = 0; i < n; ++i) mc::Near(s[i], -1 + LD(i) * 4 / LD(n - inc), 16 * Eps<float>(), "sample", i);
		}
	Lin<double>(mc::Tier(70, 400));
	Lin<float>(mc::Tier(70, 400));
	Lin<long double>(mc::Tier(30, 100));
	Lin<std::complex<float>>(mc::Tier(40, 200));
	Lin<std::complex<double>>(mc::Tier(40, 200));
	Log<double>(mc::Tier(40, 200));
	Log<float>(mc::Tier(40, 200));
	Log<long double>(mc::Tier(20, 100));
	Log<std::complex<double>>(mc::Tier(20, 70));
}
MC_MAIN(Body)
