// C05 (and C06 with -DOLA): every window of every small convolution, against the defining double sum.
#include "ref.hpp"
#include <dspbb/Math/Convolution.hpp>
#include <dspbb/Math/OverlapAdd.hpp>
using namespace dspbb;
using namespace ref;

using cf = std::complex<float>;
using cd = std::complex<double>;

template <class A, class B, class R>
struct Pair {
	Guarded<A> u;
	Guarded<B> v;
	std::vector<wide_t<R>> full;
	LD tol = 0;
	Pair(size_t n, size_t m, size_t mis = 0) : u(n, mis % 4), v(m, (mis + 1) % 3) {
		for (size_t i = 0; i < n; ++i) u[i] = mc::ValAs<A>(n * 131 + m * 17 + i, 5);
		for (size_t i = 0; i < m; ++i) v[i] = mc::ValAs<B>(n * 37 + m * 1009 + i + 5000, 5);
		std::vector<A> uu(u.data(), u.data() + n);
		std::vector<B> vv(v.data(), v.data() + m);
		auto f = Convolve(uu, vv);
		for (auto& x : f) full.push_back(wide_t<R>(x));
#ifdef OLA
		LD nu = 0, nv = 0;
		for (auto& x : uu) nu += std::norm(Wide(x));
		for (auto& x : vv) nv += std::norm(Wide(x));
		tol = 64 * Eps<R>() * (std::sqrt(nu * nv) + 1);
#endif
	}
};

#ifndef OLA
#define EXTRA_ARG
template <class P, class R>
void Window(P& p, size_t off, size_t len, size_t) {
	Guarded<R> out(len, off % 4), acc(len, (off + 1) % 4), sw(len, 0);
	for (size_t i = 0; i < len; ++i) acc[i] = mc::ValAs<R>(i + 777, 9);
	const Guarded<R> before = acc;
	Convolution(out.view(), p.u.cview(), p.v.cview(), off);
	Convolution(sw.view(), p.v.cview(), p.u.cview(), off, true);
	Convolution(acc.view(), p.u.cview(), p.v.cview(), off, false);
	auto ret = Convolution(p.u.cview(), p.v.cview(), off, len);
	mc::Eq(ret.size(), len, "result length");
	for (size_t i = 0; i < len; ++i) {
		mc::Near(out[i], p.full[off + i], 0, "window", i);
		mc::Near(sw[i], p.full[off + i], 0, "window, operands swapped", i);
		mc::Near(acc[i], p.full[off + i] + Wide(before[i]), 0, "accumulated window", i);
		mc::Near(ret[i], p.full[off + i], 0, "returned window", i);
	}
	out.CheckGuards(); acc.CheckGuards(); sw.CheckGuards();
	mc::Step(4);
	mc::StateOf(out.mem);
}
template <class P, class R>
void Whole(P& p, size_t n, size_t m, size_t) {
	auto f = Convolution(p.u.cview(), p.v.cview(), CONV_FULL);
	mc::Eq(f.size(), n + m - 1, "full length");
	mc::Eq(ConvolutionLength(n, m, CONV_FULL), n + m - 1, "ConvolutionLength full");
	const size_t c0 = std::min(n, m) - 1, cn = std::max(n, m) - std::min(n, m) + 1;
	auto c = Convolution(p.u.cview(), p.v.cview(), CONV_CENTRAL);
	mc::Eq(c.size(), cn, "central length");
	mc::Eq(ConvolutionLength(n, m, CONV_CENTRAL), cn, "ConvolutionLength central");
	Guarded<R> fo(n + m - 1), co(cn), fa(n + m - 1, 0, R(real_of_t<R>(3))), ca(cn, 0, R(real_of_t<R>(3)));
	Convolution(fo.view(), p.u.cview(), p.v.cview(), CONV_FULL);
	Convolution(co.view(), p.u.cview(), p.v.cview(), CONV_CENTRAL);
	Convolution(fa.view(), p.u.cview(), p.v.cview(), CONV_FULL, false);
	Convolution(ca.view(), p.u.cview(), p.v.cview(), CONV_CENTRAL, false);
	for (size_t i = 0; i < f.size(); ++i) { mc::Near(f[i], p.full[i], 0, "full", i); mc::Near(fo[i], p.full[i], 0, "full out", i); mc::Near(fa[i], p.full[i] + wide_t<R>(3), 0, "full accumulated", i); }
	for (size_t i = 0; i < cn; ++i) { mc::Near(c[i], p.full[c0 + i], 0, "central", i); mc::Near(co[i], p.full[c0 + i], 0, "central out", i); mc::Near(ca[i], p.full[c0 + i] + wide_t<R>(3), 0, "central accumulated", i); }
	fo.CheckGuards(); co.CheckGuards(); fa.CheckGuards(); ca.CheckGuards();
	mc::Step(6);
}
#else
template <class P, class R>
void Window(P& p, size_t off, size_t len, size_t chunk) {
	Guarded<R> out(len, off % 4), acc(len, (off + 1) % 4), sw(len, 0);
	for (size_t i = 0; i < len; ++i) acc[i] = mc::ValAs<R>(i + 777, 9);
	const Guarded<R> before = acc;
	OverlapAdd(out.view(), p.u.cview(), p.v.cview(), off, chunk);
	OverlapAdd(sw.view(), p.v.cview(), p.u.cview(), off, chunk, true);
	OverlapAdd(acc.view(), p.u.cview(), p.v.cview(), off, chunk, false);
	auto ret = OverlapAdd(p.u.cview(), p.v.cview(), off, len, chunk);
	mc::Eq(ret.size(), len, "result length");
	for (size_t i = 0; i < len; ++i) {
		mc::Near(out[i], p.full[off + i], p.tol, "window", i);
		mc::Near(sw[i], p.full[off + i], p.tol, "window, operands swapped", i);
		mc::Near(acc[i], p.full[off + i] + Wide(before[i]), p.tol + 16 * Eps<R>(), "accumulated window", i);
		mc::Near(ret[i], p.full[off + i], p.tol, "returned window", i);
	}
	out.CheckGuards(); acc.CheckGuards(); sw.CheckGuards();
	mc::Step(4);
	mc::StateOf(out.mem);
}
template <class P, class R>
void Whole(P& p, size_t n, size_t m, size_t chunk) {
	const size_t c0 = std::min(n, m) - 1, cn = std::max(n, m) - std::min(n, m) + 1;
	auto f = OverlapAdd(p.u.cview(), p.v.cview(), CONV_FULL, chunk);
	mc::Eq(f.size(), n + m - 1, "full length");
	auto c = OverlapAdd(p.u.cview(), p.v.cview(), CONV_CENTRAL, chunk);
	mc::Eq(c.size(), cn, "central length");
	Guarded<R> fo(n + m - 1), co(cn), fa(n + m - 1, 0, R(real_of_t<R>(3))), ca(cn, 1, R(real_of_t<R>(3)));
	OverlapAdd(ca.view(), p.u.cview(), p.v.cview(), CONV_CENTRAL, chunk, false);
	OverlapAdd(fo.view(), p.u.cview(), p.v.cview(), CONV_FULL, chunk);
	OverlapAdd(co.view(), p.u.cview(), p.v.cview(), CONV_CENTRAL, chunk);
	OverlapAdd(fa.view(), p.u.cview(), p.v.cview(), CONV_FULL, chunk, false);
	for (size_t i = 0; i < f.size(); ++i) { mc::Near(f[i], p.full[i], p.tol, "full", i); mc::Near(fo[i], p.full[i], p.tol, "full out", i); mc::Near(fa[i], p.full[i] + wide_t<R>(3), p.tol + 16 * Eps<R>(), "full accumulated", i); }
	for (size_t i = 0; i < cn; ++i) { mc::Near(c[i], p.full[c0 + i], p.tol, "central", i); mc::Near(co[i], p.full[c0 + i], p.tol, "central out", i); mc::Near(ca[i], p.full[c0 + i] + wide_t<R>(3), p.tol + 16 * Eps<R>(), "central accumulated", i); }
	fo.CheckGuards(); co.CheckGuards(); fa.CheckGuards(); ca.CheckGuards();
	mc::Step(6);
}
#endif

std::vector<size_t> Chunks(size_t n, size_t m, bool many) {
#ifdef OLA
	const size_t lo = 2 * std::min(n, m) - 1;
	if (many) return { 0, lo, lo + 1, lo + 2, lo + 3, lo + 5, lo + 8, n + m - 1 > lo ? n + m - 1 : lo + 9, n + m + 6 };
	return { 0, lo, lo + 1, lo + 7 };
#else
	return { 0 };
#endif
}

// Every window of every pair up to max x max.
template <class A, class B, class R>
void Small(const char* name, size_t maxN, size_t maxM) {
	for (size_t n = 1; n <= maxN; ++n)
		for (size_t m = 1; m <= maxM; ++m)
			for (size_t chunk : Chunks(n, m, true))
				if (mc::Case(name, n, m, chunk)) {
					Pair<A, B, R> p(n, m, n);
					Whole<Pair<A, B, R>, R>(p, n, m, chunk);
					for (size_t off = 0; off <= n + m - 1; ++off)
						for (size_t len = 0; off + len <= n + m - 1; ++len) Window<Pair<A, B, R>, R>(p, off, len, chunk);
				}
}
// Larger operands around the block sizes; every offset with a set of lengths.
template <class A, class B, class R>
void Large(const char* name, const std::vector<size_t>& sizes, bool dense) {
	for (size_t n : sizes)
		for (size_t m : sizes)
			for (size_t chunk : Chunks(n, m, false))
				if (mc::Case(name, n, m, chunk)) {
					Pair<A, B, R> p(n, m, m);
					Whole<Pair<A, B, R>, R>(p, n, m, chunk);
					const size_t full = n + m - 1;
					std::vector<size_t> offs;
					for (size_t o = 0; o < full; ++o)
						if (dense || o < 6 || full - o < 6 || (o + 6 > std::min(n, m) && o < std::min(n, m) + 6) || (o + 4 > std::max(n, m) && o < std::max(n, m) + 4)) offs.push_back(o);
					for (size_t o : offs)
						for (size_t len : { size_t(1), size_t(2), size_t(3), size_t(5), size_t(8), size_t(13), full / 2, full - o })
							if (len <= full - o) Window<Pair<A, B, R>, R>(p, o, len, chunk);
				}
}

// Far operands: windows at the borders, at round indices and at the middle.
template <class A, class B, class R>
void Far(const char* name, std::initializer_list<std::pair<size_t, size_t>> shapes, std::initializer_list<size_t> chunks = { 0 }) {
	for (auto [n, m] : shapes)
		for (size_t chunk : chunks) {
			if (chunk && chunk < 2 * std::min(n, m) - 1) continue;
			if (std::max(n, m) / std::min(n, m) * chunk > 2000000) continue; // one transform per operand length: too long a run
			if (!mc::Case(name, n, m, chunk)) continue;
			Pair<A, B, R> p(n, m, m);
			Whole<Pair<A, B, R>, R>(p, n, m, chunk);
			const size_t full = n + m - 1;
			for (size_t o : { size_t(0), size_t(1), std::min(n, m) - 1, std::min(n, m), size_t(255), size_t(1024), size_t(4095), size_t(4096), size_t(8191), size_t(65536), full / 2, std::max(n, m) - 1, std::max(n, m), full - 1 })
				for (size_t len : { size_t(1), size_t(7), size_t(256), size_t(1025), size_t(4096), size_t(4099), full })
#ifdef OLA
					if (o < full && (len + o) % 3 != 1)
#else
					if (o < full)
#endif
					 Window<Pair<A, B, R>, R>(p, o, std::min(len, full - o), chunk);
		}
}

// The rounding error of a sample does not grow with the number of products in it: long operands are summed with compensation.
template <class A, class B, class R>
static void Accuracy(const char* name, const std::vector<size_t>& sizes) {
	for (size_t n : sizes)
		for (size_t m : sizes)
			for (int pat = 0; pat < 3; ++pat) {
				if (n < 33 || m < 33 || !mc::Case(name, n, m, pat)) continue;
				Signal<A> u(n);
				Signal<B> v(m);
				for (size_t i = 0; i < n; ++i) u[i] = A(real_of_t<A>(pat == 0 ? 0.1 : pat == 1 ? 0.1 + 0.01 * double(i * 7919 % 13) : i % 97 == 0 ? 50.3 : 0.01));
				for (size_t i = 0; i < m; ++i) v[i] = B(real_of_t<B>(pat == 0 ? 0.3 : pat == 1 ? 0.7 - 0.02 * double(i * 31 % 17) : i % 53 == 5 ? 20.7 : 0.03));
				const size_t s = std::min(n, m), l = std::max(n, m);
				for (size_t off : { s - 20, (s + l) / 2 - 10, l - 3 }) {
					const size_t len = std::min<size_t>(19, n + m - 1 - off);
					mc::Step();
					const auto out = Convolution(u, v, off, len);
					for (size_t k = 0; k < len; ++k) {
						const size_t p = off + k;
						wide_t<R> ref(0), carry(0); // itself a compensated sum
						LD mag = 0;
						for (size_t j = p + 1 > m ? p + 1 - m : 0; j < std::min(n, p + 1); ++j) {
							const auto t = wide_t<R>(Wide(u[j])) * wide_t<R>(Wide(v[p - j]));
							const auto y = t - carry, next = ref + y;
							carry = (next - ref) - y;
							ref = next;
							mag += std::abs(t);
						}
						mc::Near(out[k], ref, 6 * Eps<R>() * mag, "long convolution", k);
					}
					mc::StateOf(out);
				}
			}
}

void Body() {
#ifndef OLA
	const size_t S = mc::Tier<size_t>(14, 24);
	Small<float, float, float>("small-f", S, S);
	Small<cf, cf, cf>("small-cf", S - 3, S - 3);
	Small<float, cf, cf>("small-f-cf", S - 3, S - 3);
	Small<cf, float, cf>("small-cf-f", S - 3, S - 3);
	Small<double, double, double>("small-d", S - 3, S - 3);
	Small<cd, double, cd>("small-cd-d", 8, 8);
	Small<float, double, double>("small-f-d", 8, 8);
	const std::vector<size_t> around{ 1, 2, 7, 16, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 47, 64, 65 };
	Large<float, float, float>("large-f", around, true);
	Large<double, double, double>("large-d", around, true);
	Large<cf, cf, cf>("large-cf", { 5, 32, 33, 34, 35, 36, 37, 49 }, true);
	Large<float, cf, cf>("large-f-cf", { 5, 32, 33, 34, 35, 36, 37, 49 }, true);
	Large<cf, float, cf>("large-cf-f", { 5, 32, 33, 34, 35, 36, 37, 49 }, true);
	Large<cd, cd, cd>("large-cd", { 5, 33, 34, 35, 42 }, true);
	Large<float, double, double>("large-f-d", { 5, 33, 34, 35, 42 }, true);
	Large<float, float, float>("huge-f", { 3, 40, 128, 255, 513, 700 }, mc::Tier(false, true));
	Far<float, float, float>("far-f", { { 1025, 1 }, { 4097, 3 }, { 4097, 32 }, { 4096, 33 }, { 1024, 257 }, { 70001, 5 }, { 2, 65537 }, { 65, 20000 } });
	Far<double, double, double>("far-d", { { 4097, 4 }, { 40, 4096 }, { 65537, 2 } });
	Far<cf, cf, cf>("far-cf", { { 4097, 4 }, { 40, 4096 } });
	Far<cf, float, cf>("far-cf-f", { { 4097, 36 }, { 5, 8193 } });
	Far<float, cf, cf>("far-f-cf", { { 4097, 36 }, { 5, 8193 } });
	// Value types without (floating point) vectors.
	using cl = std::complex<long double>;
	Small<int, int, int>("small-i", 8, 8);
	Small<int64_t, int64_t, int64_t>("small-l", 7, 7);
	Small<long double, long double, long double>("small-ld", 7, 7);
	Small<cl, cl, cl>("small-cld", 5, 5);
	Small<long double, double, long double>("small-ld-d", 6, 6);
	Small<int, double, double>("small-i-d", 6, 6);
	Large<int, int, int>("large-i", { 1, 3, 4, 5, 8, 9, 16, 17, 33, 65 }, false);
	Large<long double, long double, long double>("large-ld", { 1, 2, 5, 16, 33, 65 }, false);
	if (mc::Thorough()) {
		std::vector<size_t> a;
		for (size_t i = 1; i <= 72; ++i) a.push_back(i);
		Large<float, float, float>("all72-f", a, true);
		Large<cf, cf, cf>("all72-cf", a, false);
	}
	const std::vector<size_t> lengths = mc::Thorough() ? std::vector<size_t>{ 40, 100, 333, 1000, 3000, 10001, 30000, 100003 } : std::vector<size_t>{ 40, 333, 1000, 3001, 10000, 30000 };
	Accuracy<float, float, float>("accuracy-f", lengths);
	Accuracy<double, double, double>("accuracy-d", lengths);
	Accuracy<cf, float, cf>("accuracy-cf-f", { 40, 1000, 10001 });
	for (size_t n = 0; n <= 40; ++n)
		if (mc::Case("empty", n)) {
			SignalF e, s(n, 1.f);
			mc::Check(Convolution(e, s, CONV_FULL).empty() && Convolution(s, e, CONV_FULL).empty(), "convolution with an empty signal");
			mc::Check(ConvolutionLength(0, n, CONV_FULL) == 0 && ConvolutionLength(n, 0, CONV_CENTRAL) == 0, "lengths with an empty signal");
		}
#else
	const size_t S = mc::Tier<size_t>(9, 14);
	Small<float, float, float>("small-f", S + 2, S);
	Small<double, double, double>("small-d", S, S);
	Small<cf, cf, cf>("small-cf", S - 1, S - 1);
	Small<float, cf, cf>("small-f-cf", S - 1, S - 1);
	Small<cf, float, cf>("small-cf-f", S - 1, S - 1);
	Small<cd, double, cd>("small-cd-d", 6, 6);
	const std::vector<size_t> around{ 1, 2, 5, 15, 16, 17, 31, 32, 33, 47, 64, 65, 100 };
	Large<float, float, float>("large-f", around, mc::Tier(false, true));
	Large<double, double, double>("large-d", { 3, 16, 33, 50, 128 }, mc::Tier(false, true));
	Large<cf, float, cf>("large-cf-f", { 4, 31, 33, 50, 97 }, false);
	Large<float, cf, cf>("large-f-cf", { 4, 31, 33, 50, 97 }, false);
	Large<cd, cd, cd>("large-cd", { 4, 31, 33, 97 }, false);
	Large<float, float, float>("huge-f", { 3, 64, 257, 1000 }, false);
	Large<double, double, double>("huge-d", { 100, 2000 }, false);
	Far<float, float, float>("far-f", { { 5000, 33 }, { 20000, 257 }, { 4096, 4 }, { 257, 8193 } }, { 0, 512, 1000, 4096, 8192, 16384, 30030 });
	Far<double, double, double>("far-d", { { 5001, 34 }, { 1025, 4097 }, { 20001, 8193 } }, { 0, 512, 4099, 8192, 65536 });
	Far<cf, cf, cf>("far-cf", { { 5001, 34 }, { 129, 4097 } }, { 0, 512, 4099, 8192 });
	Far<cf, float, cf>("far-cf-f", { { 5001, 34 } }, { 0, 512, 8192 });
	Far<float, cf, cf>("far-f-cf", { { 34, 5001 } }, { 0, 512, 8192 });
#endif
}
MC_MAIN(Body)
