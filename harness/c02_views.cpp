// C02: every chain of view operations addresses exactly the samples it names.
#include "ref.hpp"
using namespace dspbb;

template <class V, class E>
void Same(V v, const E* base, size_t a, size_t b, const std::vector<E>& m) {
	mc::Step();
	const size_t n = b - a;
	mc::Eq(v.size(), n, "size");
	mc::Eq(v.empty(), n == 0, "empty");
	mc::Eq(v.size_bytes(), n * sizeof(E), "size_bytes");
	if (v.size() != n) return;
	mc::Check(v.end() - v.begin() == ptrdiff_t(n) && v.cend() - v.cbegin() == ptrdiff_t(n) && v.rend() - v.rbegin() == ptrdiff_t(n) && v.crend() - v.crbegin() == ptrdiff_t(n), "iterator distance");
	if (!n) return;
	mc::Check(v.data() == base + a, "data does not point at the first sample");
	mc::Check(&v.front() == base + a && &v.back() == base + b - 1, "front/back address");
	size_t k = a;
	for (auto it = v.begin(); it != v.end(); ++it, ++k) { mc::Check(&*it == base + k, "iterator address"); mc::Check(*it == m[k], "value through an iterator"); }
	k = a;
	for (auto it = v.cbegin(); it != v.cend(); ++it, ++k) mc::Check(&*it == base + k, "const iterator address");
	k = b;
	for (auto it = v.rbegin(); it != v.rend(); ++it) mc::Check(&*it == base + --k, "reverse iterator address");
	k = b;
	for (auto it = v.crbegin(); it != v.crend(); ++it) mc::Check(&*it == base + --k, "const reverse iterator address");
	for (size_t i = 0; i < n; ++i) mc::Check(&v[i] == base + a + i, "index address");
}

template <class T, eSignalDomain D>
BasicSignal<T, D> MakeOf(size_t n) { BasicSignal<T, D> s(n); for (size_t i = 0; i < n; ++i) s[i] = T(ref::real_of_t<T>(i + 1)); return s; }
SignalF Make(size_t n) { SignalF s(n); for (size_t i = 0; i < n; ++i) s[i] = float(i + 1); return s; }

// One view operation: kind and two arguments.
struct Op { int kind; size_t a, b; };
std::vector<Op> OpsFor(size_t n) {
	std::vector<Op> r;
	for (size_t i = 0; i <= n; ++i) { r.push_back({ 0, i, 0 }); r.push_back({ 1, i, 0 }); r.push_back({ 2, i, 0 }); }
	for (size_t i = 0; i <= n; ++i) for (size_t c = 0; i + c <= n; ++c) r.push_back({ 3, i, c });
	r.push_back({ 4, 0, 0 }); // copy/assign
	r.push_back({ 5, 0, 0 }); // through iterators
	r.push_back({ 6, 0, 0 }); // iterator and size
	return r;
}
template <class V>
V Do(V v, const Op& o, size_t& a, size_t& b) {
	switch (o.kind) {
		case 0: b = a + o.a; return v.first(o.a);
		case 1: a = b - o.a; return v.last(o.a);
		case 2: a += o.a; return v.subsignal(o.a);
		case 3: a += o.a; b = a + o.b; return v.subsignal(o.a, o.b);
		case 4: { V w; w = v; V x(w); return x; }
		case 5: return V(v.begin(), v.end());
		default: return V(v.begin(), v.size());
	}
}
template <bool Const, class T = float, eSignalDomain D = TIME_DOMAIN>
void Chains(const char* name, size_t n, int depth) {
	auto s = MakeOf<T, D>(n);
	const auto& cs = s;
	const T bump(ref::real_of_t<T>(100)), zero(ref::real_of_t<T>(0));
	std::vector<T> m(s.begin(), s.end());
	std::vector<size_t> path;
	using V = std::conditional_t<Const, BasicSignalView<const T, D>, BasicSignalView<T, D>>;
	std::function<void(V, size_t, size_t, int)> rec = [&](V v, size_t a, size_t b, int d) {
		const auto ops = OpsFor(b - a);
		for (size_t o = 0; o < ops.size(); ++o) {
			path.push_back(o);
			size_t a2 = a, b2 = b;
			V w = Do(v, ops[o], a2, b2);
			if (mc::Case(name, ref::TypeName<T>(), int(D), n, path)) {
				Same(w, s.data(), a2, b2, m);
				Same(v, s.data(), a, b, m); // the original is unaffected
				mc::StateOf(n, a2, b2, Const);
				if constexpr (!Const) {
					Same(BasicSignalView<const T, D>(w), s.data(), a2, b2, m);
					Same(AsConstView(w), s.data(), a2, b2, m);
					Same(AsView(w), s.data(), a2, b2, m);
					// Writes land in the signal at the named place and nowhere else.
					for (size_t i = 0; i < w.size(); ++i) w[i] += bump;
					for (size_t i = 0; i < n; ++i) mc::Check(s[i] == m[i] + (i >= a2 && i < b2 ? bump : zero), "signal after writing through the view");
					for (auto& x : w) x -= bump;
				}
				else {
					Same(AsConstView(w), s.data(), a2, b2, m);
					Same(AsView(w), s.data(), a2, b2, m);
				}
			}
			if (d > 1) rec(w, a2, b2, d - 1);
			path.pop_back();
		}
	};
	if constexpr (Const) rec(AsView(cs), 0, n, depth);
	else rec(AsView(s), 0, n, depth);
}

void Body() {
	for (size_t n = 0; n <= 6; ++n) { Chains<false>("chain", n, mc::Tier(2, 3)); Chains<true>("chain-const", n, mc::Tier(2, 3)); }
	for (size_t n = 7; n <= 24; ++n) { Chains<false>("chain", n, mc::Tier(1, 2)); Chains<true>("chain-const", n, mc::Tier(1, 2)); }
	for (size_t n = 0; n <= 8; ++n) Chains<false>("chain3", n, mc::Tier(n <= 3 ? 3 : 1, n <= 4 ? 4 : 1));
	// Every sample type and domain.
	for (size_t n = 0; n <= 6; ++n) {
		Chains<false, double, FREQUENCY_DOMAIN>("chain", n, mc::Tier(1, 2));
		Chains<true, std::complex<float>, TIME_DOMAIN>("chain-const", n, mc::Tier(1, 2));
		Chains<false, std::complex<float>, FREQUENCY_DOMAIN>("chain", n, mc::Tier(1, 2));
		Chains<false, std::complex<double>, QUEFRENCY_DOMAIN>("chain", n, mc::Tier(1, 2));
		Chains<true, std::complex<double>, QUEFRENCY_DOMAIN>("chain-const", n, mc::Tier(1, 2));
		Chains<false, int, TIME_DOMAIN>("chain", n, mc::Tier(1, 2));
		Chains<true, double, TIME_DOMAIN>("chain-const", n, mc::Tier(1, 2));
	}
	// Every way of making a view of a signal, a raw range, or a vector.
	for (size_t n = 0; n <= 20; ++n)
		for (size_t a = 0; a <= n; ++a)
			for (size_t b = a; b <= n; ++b)
				if (mc::Case("construct", n, a, b)) {
					SignalF s = Make(n);
					const SignalF& c = s;
					std::vector<float> m(s.begin(), s.end());
					const float* base = s.data();
					Same(AsView(s), base, 0, n, m);
					Same(AsView(c), base, 0, n, m);
					Same(AsConstView(s), base, 0, n, m);
					Same(SignalView<float>(s), base, 0, n, m);
					Same(SignalView<const float>(s), base, 0, n, m);
					Same(SignalView<const float>(c), base, 0, n, m);
					Same(AsView<TIME_DOMAIN>(s.begin() + a, s.begin() + b), base, a, b, m);
					Same(AsView<TIME_DOMAIN>(s.begin() + a, b - a), base, a, b, m);
					Same(AsConstView<TIME_DOMAIN>(s.begin() + a, s.begin() + b), base, a, b, m);
					Same(AsConstView<TIME_DOMAIN>(c.begin() + a, c.begin() + b), base, a, b, m);
					Same(AsConstView<TIME_DOMAIN>(c.begin() + a, b - a), base, a, b, m);
					Same(AsView<FREQUENCY_DOMAIN>(s.data() + a, s.data() + b), base, a, b, m);
					Same(AsConstView<QUEFRENCY_DOMAIN>(s.data() + a, b - a), base, a, b, m);
					SignalView<float> moved = AsView(s), target;
					target = std::move(moved);
					Same(target, base, 0, n, m);
					// A signal made from a view is an independent copy.
					auto v = AsView(s).subsignal(a, b - a);
					SignalF copy(v.begin(), v.end());
					for (auto& x : copy) x += 1;
					mc::Eq(copy.size(), b - a, "copy size");
					for (size_t i = 0; i < n; ++i) mc::Eq(s[i], m[i], "source after changing a copy", i);
					mc::StateOf(n, a, b, 7);
				}
	// Far sizes: all pairs of operations whose arguments sit at the borders.
	for (size_t n : { 255, 257, 1025, 65537, 70003 }) {
		auto near = [](size_t m) { std::vector<size_t> r; for (size_t x : { size_t(0), size_t(1), size_t(127), size_t(128), size_t(255), size_t(256), size_t(32768), size_t(65535), size_t(65536), m / 2, m - 1, m }) if (x <= m) r.push_back(x); return r; };
		auto ops = [&](size_t m) { std::vector<Op> r; for (size_t x : near(m)) { r.push_back({ 0, x, 0 }); r.push_back({ 1, x, 0 }); r.push_back({ 2, x, 0 }); for (size_t c : near(m - x)) r.push_back({ 3, x, c }); } for (int k = 4; k < 7; ++k) r.push_back({ k, 0, 0 }); return r; };
		const auto first = ops(n);
		for (size_t o = 0; o < first.size(); ++o) {
			if (!mc::Case("far-chain", n, o)) continue;
			auto s = Make(n);
			size_t a = 0, b = n;
			auto v = Do(AsView(s), first[o], a, b);
			auto same = [&](auto w, size_t a, size_t b) {
				mc::Step();
				mc::Eq(w.size(), b - a, "size");
				mc::Eq(w.size_bytes(), (b - a) * sizeof(float), "size_bytes");
				mc::Check(w.end() - w.begin() == ptrdiff_t(b - a) && w.rend() - w.rbegin() == ptrdiff_t(b - a), "iterator distance");
				if (a == b || w.size() != b - a) return;
				mc::Check(w.data() == s.data() + a && &w.front() == s.data() + a && &w.back() == s.data() + b - 1 && &w[(b - a) / 2] == s.data() + a + (b - a) / 2 && &*w.rbegin() == s.data() + b - 1, "addresses");
			};
			same(v, a, b);
			const auto second = ops(b - a);
			for (auto& q : second) {
				size_t a2 = a, b2 = b;
				const auto w2 = Do(v, q, a2, b2);
				same(w2, a2, b2);
				size_t a3 = a, b3 = b;
				const auto w3 = Do(AsConstView(v), q, a3, b3);
				same(w3, a3, b3);
			}
			mc::StateOf(n, a, b);
		}
	}
}
MC_MAIN(Body)
