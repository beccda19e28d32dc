// C16: polynomials keep their coefficients and roots through every history, and all forms evaluate to the same value.
#include "ref.hpp"
#include <array>
#include <optional>
#include <dspbb/Math/Polynomials.hpp>
#include <dspbb/Math/RootTransforms.hpp>
using namespace dspbb;
using namespace ref;

template <class T>
struct Roots {
	std::vector<T> re;
	std::vector<std::complex<T>> cp;
};
template <class T>
static void Compare(FactoredPolynomial<T>& p, const Roots<T>& m) {
	const auto& c = p;
	mc::Eq(p.num_real_roots(), m.re.size(), "number of real roots");
	mc::Eq(p.num_complex_pairs(), m.cp.size(), "number of complex pairs");
	mc::Eq(p.num_complex_roots(), 2 * m.cp.size(), "number of complex roots");
	mc::Eq(p.num_roots(), m.re.size() + 2 * m.cp.size(), "number of roots");
	mc::Eq(p.order(), m.re.size() + 2 * m.cp.size(), "order");
	mc::Eq(p.real_roots().size(), m.re.size(), "real roots");
	mc::Eq(c.real_roots().size(), m.re.size(), "const real roots");
	mc::Eq(p.complex_pairs().size(), m.cp.size(), "complex pairs");
	mc::Eq(c.complex_pairs().size(), m.cp.size(), "const complex pairs");
	for (size_t i = 0; i < m.re.size(); ++i) {
		mc::Eq(p.real_roots()[i], m.re[i], "real root", i);
		mc::Eq(c.real_roots()[i], m.re[i], "const real root", i);
	}
	for (size_t i = 0; i < m.cp.size(); ++i) {
		mc::Eq(p.complex_pairs()[i], m.cp[i], "complex pair", i);
		mc::Eq(c.complex_pairs()[i], m.cp[i], "const complex pair", i);
	}
	// Evaluation is a function of the roots shown.
	CLD want = 1;
	const CLD x(2, -1);
	for (auto& r : m.re) want *= x - CLD(r, 0);
	for (auto& r : m.cp) want *= (x - Wide(r)) * (x - std::conj(Wide(r)));
	mc::Near(c(std::complex<T>(2, -1)), want, 64 * Eps<T>() * (std::abs(want) + 1), "evaluation");
	mc::StateOf(m.re, m.cp);
}

template <class T>
static void FactoredHistories(int depth) {
	using P = FactoredPolynomial<T>;
	using C = std::complex<T>;
	const std::vector<std::vector<C>> lists = { {}, { C(3), C(-2) }, { C(1, 2), C(5), C(1, -2) }, { C(0, 1), C(0, -1), C(4, 3), C(4, -3) }, { C(1), C(2), C(3) } };
	struct Op { int kind, a, b; };
	std::vector<Op> all;
	for (int i = 0; i < int(lists.size()); ++i) all.push_back({ 0, i, 0 });
	for (int r = 0; r <= 4; ++r) for (int p = 0; p <= 2; ++p) all.push_back({ 1, r, p });
	for (int r = 0; r <= 5; ++r) all.push_back({ 2, r, 0 });
	for (int k = 3; k <= 13; ++k) all.push_back({ k, 0, 0 });
	std::vector<int> ops;
	auto run = [&] {
		P x, y; // Operations act on x, and y is reached by copying, moving and swapping.
		std::optional<P> held(std::in_place); // Stays alive as it was constructed: from a copy or a move of x.
		Roots<T> mx, my, mh;
		int w = 0;
		for (int i : ops) {
			const Op& o = all[i];
			mc::Step();
			switch (o.kind) {
				case 0: {
					x = P(lists[o.a].begin(), lists[o.a].end());
					mx = {};
					for (auto& r : lists[o.a]) { if (r.imag() == 0) mx.re.push_back(r.real()); else if (r.imag() > 0) mx.cp.push_back(r); }
					break;
				}
				case 1: ++w; x.resize(o.a, o.b, T(10 + w), C(T(20 + w), T(w))); mx.re.resize(o.a, T(10 + w)); mx.cp.resize(o.b, C(T(20 + w), T(w))); break;
				case 2: {
					++w;
					const size_t n = mx.re.size() + 2 * mx.cp.size();
					const bool bad = size_t(o.a) > n || size_t(o.a) % 2 != n % 2;
					const bool threw = mc::Throws<std::invalid_argument>([&] { x.regroup(o.a, T(30 + w), C(T(40 + w), T(w))); });
					mc::Eq(threw, bad, "regroup refuses impossible groupings");
					if (!bad) { mx.re.resize(o.a, T(30 + w)); mx.cp.resize((n - o.a) / 2, C(T(40 + w), T(w))); }
					break;
				}
				case 3: if (!mx.re.empty()) { ++w; x.real_roots()[mx.re.size() - 1] = T(50 + w); mx.re.back() = T(50 + w); } break;
				case 4: if (!mx.cp.empty()) { ++w; x.complex_pairs()[0] = C(T(60 + w), 1); mx.cp[0] = C(T(60 + w), 1); } break;
				case 5: mc::Check(&(y = x) == &y, "copy assignment returns the target"); my = mx; break;
				case 6: mc::Check(&(y = std::move(x)) == &y, "move assignment returns the target"); my = mx; mx = {}; x = P{}; break;
				case 7: std::swap(x, y); std::swap(mx, my); break;
				case 8: { P c(x); y = std::move(c); my = mx; break; }
				case 9: { P c(std::move(x)); Compare(c, mx); mc::Eq(x.num_roots(), size_t(0), "roots left behind by a move"); y = c; my = mx; mx = {}; break; }
				case 10: { P& self = x; x = self; break; }
				case 11: held.emplace(x); mh = mx; break;
				case 12: held.emplace(std::move(x)); mh = mx; mx = {}; x = P{}; break;
				case 13: // Every root of the held object.
					++w;
					for (size_t k = 0; k < mh.re.size(); ++k) held->real_roots()[k] = mh.re[k] = T(70 + w + int(k));
					for (size_t k = 0; k < mh.cp.size(); ++k) held->complex_pairs()[k] = mh.cp[k] = C(T(80 + w), T(1 + int(k)));
					break;
			}
			Compare(x, mx);
			Compare(y, my);
			Compare(*held, mh);
		}
	};
	std::function<void()> rec = [&] {
		if (int(ops.size()) == depth) {
			if (mc::Case("factored-history", TypeName<T>(), ops)) run();
			return;
		}
		for (int i = 0; i < int(all.size()); ++i) {
			ops.push_back(i);
			rec();
			ops.pop_back();
		}
	};
	rec();
}

// Every list of roots over an alphabet: accepted exactly when closed under conjugation.
template <class T>
static void Construction(int maxLen) {
	using C = std::complex<T>;
	const std::vector<C> alphabet = { C(1), C(-2), C(0, 1), C(0, -1), C(1, 1), C(1, -1), C(0) };
	std::vector<int> l;
	std::function<void()> rec = [&] {
		if (mc::Case("factored-construct", TypeName<T>(), l)) {
			mc::Step();
			std::vector<C> roots;
			Roots<T> m;
			int cnt[7] = {};
			for (int i : l) {
				roots.push_back(alphabet[i]);
				++cnt[i];
				if (alphabet[i].imag() == 0) m.re.push_back(alphabet[i].real());
				else if (alphabet[i].imag() > 0) m.cp.push_back(alphabet[i]);
			}
			const bool bad = cnt[2] != cnt[3] || cnt[4] != cnt[5];
			FactoredPolynomial<T> p;
			const bool threw = mc::Throws<std::invalid_argument>([&] { p = FactoredPolynomial<T>(roots.begin(), roots.end()); });
			mc::Eq(threw, bad, "refuses unpaired roots");
			if (!bad) Compare(p, m);
		}
		if (int(l.size()) == maxLen) return;
		for (int i = 0; i < 7; ++i) { l.push_back(i); rec(); l.pop_back(); }
	};
	rec();
}

// Expansion and evaluation on all root multisets (integers: exact in every type used).
template <class T>
static void Expansion(size_t maxReal, size_t maxPairs) {
	using C = std::complex<T>;
	const std::vector<T> reals = { T(-3), T(-1), T(0), T(2), T(1) };
	const std::vector<C> pairs = { C(0, 1), C(1, 2), C(-2, 1), C(-1, 3) };
	std::vector<int> ri, ci;
	auto run = [&] {
		if (!mc::Case("poly-expand", TypeName<T>(), ri, ci)) return;
		mc::Step(4);
		FactoredPolynomial<T> f;
		f.resize(ri.size(), ci.size());
		std::vector<LD> want = { 1 };
		auto mul = [&](std::vector<LD> g) {
			std::vector<LD> r(want.size() + g.size() - 1, 0);
			for (size_t i = 0; i < want.size(); ++i) for (size_t j = 0; j < g.size(); ++j) r[i + j] += want[i] * g[j];
			want = r;
		};
		for (size_t i = 0; i < ri.size(); ++i) { f.real_roots()[i] = reals[ri[i]]; mul({ -LD(reals[ri[i]]), 1 }); }
		for (size_t i = 0; i < ci.size(); ++i) {
			const C c = pairs[ci[i]];
			f.complex_pairs()[i] = i % 2 ? std::conj(c) : c;
			mul({ LD(std::norm(c)), -2 * LD(c.real()), 1 });
		}
		const auto p = ExpandPolynomial(f);
		mc::Eq(p.size(), want.size(), "coefficients");
		mc::Eq(p.order(), want.size() - 1, "order");
		for (size_t i = 0; i < want.size(); ++i) mc::Eq(LD(p.coefficients()[i]), want[i], "coefficient", i);
		for (int x = -3; x <= 3; ++x) {
			LD w = 0;
			for (size_t i = want.size(); i-- > 0;) w = w * x + want[i];
			LD mag = 1;
			for (size_t i = want.size(); i-- > 0;) mag = mag * std::abs(x) + std::abs(want[i]);
			mc::Near(p(T(x)), w, 8 * Eps<T>() * mag, "expanded value");
			mc::Near(f(T(x)), w, 8 * Eps<T>() * mag, "factored value");
			for (int y = -2; y <= 2; ++y) {
				CLD z(x, y), v = 0;
				for (size_t i = want.size(); i-- > 0;) v = v * z + want[i];
				LD mz = 1;
				for (size_t i = want.size(); i-- > 0;) mz = mz * std::abs(z) + std::abs(want[i]);
				mc::Near(p(C(T(x), T(y))), v, 32 * Eps<T>() * mz, "expanded complex value");
				mc::Near(f(C(T(x), T(y))), v, 32 * Eps<T>() * mz, "factored complex value");
			}
		}
		mc::StateOf(want);
	};
	std::function<void(int)> recC = [&](int from) {
		run();
		if (ci.size() == maxPairs) return;
		for (int i = from; i < int(pairs.size()); ++i) { ci.push_back(i); recC(i); ci.pop_back(); }
	};
	std::function<void(int)> recR = [&](int from) {
		recC(0);
		if (ri.size() == maxReal) return;
		for (int i = from; i < int(reals.size()); ++i) { ri.push_back(i); recR(i); ri.pop_back(); }
	};
	recR(0);
}

// Histories of plain polynomials.
template <class T>
static void PlainHistories(int depth) {
	using P = Polynomial<T>;
	std::vector<int> ops;
	const int n = 4 + 6 + 9;
	auto run = [&] {
		P x, y;
		std::optional<P> held(std::in_place);
		std::vector<T> mx, my, mh;
		int w = 0;
		auto cmp = [&](P& p, const std::vector<T>& m) {
			mc::Eq(p.size(), m.size(), "size");
			mc::Eq(p.order(), m.empty() ? size_t(0) : m.size() - 1, "order");
			mc::Eq(p.coefficients().size(), m.size(), "coefficients");
			mc::Eq(std::as_const(p).coefficients().size(), m.size(), "const coefficients");
			for (size_t i = 0; i < m.size(); ++i) { mc::Eq(p.coefficients()[i], m[i], "coefficient", i); mc::Eq(std::as_const(p).coefficients()[i], m[i], "coefficient", i); }
			LD v = 0;
			CLD c = 0;
			for (size_t i = m.size(); i-- > 0;) { v = v * 3 + m[i]; c = c * CLD(1, 2) + CLD(m[i], 0); }
			mc::Near(p(T(3)), v, 16 * Eps<T>() * (std::abs(v) + 1), "value");
			mc::Near(p(std::complex<T>(1, 2)), c, 64 * Eps<T>() * (std::abs(c) + 100), "complex value");
			mc::StateOf(m);
		};
		for (int o : ops) {
			mc::Step();
			if (o < 4) {
				const std::vector<std::vector<T>> l = { {}, { T(7) }, { T(1), T(-2) }, { T(4), T(0), T(3) } };
				x = P(l[o].begin(), l[o].end());
				mx = l[o];
			}
			else if (o < 10) { ++w; x.resize(o - 4, T(10 + w)); mx.resize(o - 4, T(10 + w)); }
			else switch (o - 10) {
				case 0: if (!mx.empty()) { ++w; x.coefficients()[mx.size() / 2] = T(20 + w); mx[mx.size() / 2] = T(20 + w); } break;
				case 1: y = x; my = mx; break;
				case 2: y = std::move(x); my = mx; x = P{ T(5), T(6) }; mx = { T(5), T(6) }; break;
				case 3: std::swap(x, y); std::swap(mx, my); break;
				case 4: { P c(x); y = std::move(c); my = mx; break; }
				case 5: { P c(std::move(x)); y = c; my = mx; x = P{}; mx = {}; break; }
				case 6: held.emplace(x); mh = mx; break;
				case 7: held.emplace(std::move(x)); mh = mx; x = P{}; mx = {}; break;
				case 8: ++w; for (size_t k = 0; k < mh.size(); ++k) held->coefficients()[k] = mh[k] = T(30 + w + int(k)); break;
			}
			cmp(x, mx);
			cmp(y, my);
			cmp(*held, mh);
		}
	};
	std::function<void()> rec = [&] {
		if (int(ops.size()) == depth) {
			if (mc::Case("polynomial-history", TypeName<T>(), ops)) run();
			return;
		}
		for (int i = 0; i < n; ++i) { ops.push_back(i); rec(); ops.pop_back(); }
	};
	rec();
}

// TransformRoots: the result's roots are the images of all roots plus the padding.
template <class T>
static void Transforms() {
	using C = std::complex<T>;
	const std::vector<T> reals = { T(4), T(-9), T(1) };
	const std::vector<C> pairs = { C(3, 4), C(-5, 12), C(0, 2) };
	auto check = [&](const FactoredPolynomial<T>& r, const std::vector<CLD>& images) {
		mc::Eq(r.num_roots(), images.size(), "transformed roots");
		for (auto& p : r.complex_pairs()) mc::Check(std::isfinite(p.real()) && std::isfinite(p.imag()), "finite");
		for (C z : { C(T(0.5), 1), C(-2, T(0.25)), C(7, -3), C(1, 0) }) {
			CLD v = 1;
			LD mag = 1;
			for (auto& i : images) { v *= Wide(z) - i; mag *= std::abs(z) + std::abs(i) + 1; }
			mc::Near(r(z), v, 64 * Eps<T>() * mag, "transformed polynomial");
		}
		mc::StateOf(r.real_roots(), r.complex_pairs());
	};
	for (int rm = 0; rm < 8; ++rm)
		for (int cm = 0; cm < 8; ++cm)
			for (int extra = 0; extra < 3; ++extra)
				for (int fn = 0; fn < 3; ++fn) {
					if (!mc::Case("transform-roots", TypeName<T>(), rm, cm, extra, fn)) continue;
					mc::Step();
					std::vector<C> all;
					for (int i = 0; i < 3; ++i) if (rm >> i & 1) all.push_back(reals[i]);
					for (int i = 0; i < 3; ++i) if (cm >> i & 1) { all.push_back(pairs[i]); all.push_back(std::conj(pairs[i])); }
					FactoredPolynomial<T> p(all.begin(), all.end());
					const size_t total = extra ? all.size() + extra : 0;
					std::vector<CLD> images;
					const size_t pads = extra;
					if (fn == 0) {
						auto f = [](auto root) { return std::array<C, 1>{ C(root) * T(2) + T(1) }; };
						for (auto& r : all) images.push_back(Wide(r) * 2.0L + 1.0L);
						for (size_t i = 0; i < pads; ++i) images.push_back(CLD(-6));
						check(TransformRoots(p, f, total, std::array<C, 1>{ C(-6) }), images);
					}
					else {
						auto f = [](auto root) { C s = std::sqrt(C(root)); if (std::abs(s.real()) < T(1e-6)) s = C(0, s.imag()); return std::array<C, 2>{ s, -s }; };
						for (auto& r : all) { auto s = std::sqrt(Wide(r)); images.push_back(s); images.push_back(-s); }
						const std::array<C, 2> pad = fn == 1 ? std::array<C, 2>{ C(3), C(-5) } : std::array<C, 2>{ C(1, 2), C(1, -2) };
						for (size_t i = 0; i < pads; ++i) for (auto& c : pad) images.push_back(Wide(c));
						check(TransformRoots(p, f, total, pad), images);
					}
				}
}

static void Body() {
	FactoredHistories<double>(mc::Tier(3, 4));
	FactoredHistories<float>(2);
	Construction<double>(mc::Tier(5, 6));
	Construction<float>(3);
	Construction<long double>(3);
	Expansion<double>(mc::Tier(4, 6), mc::Tier(2, 4));
	Expansion<float>(3, 1);
	Expansion<long double>(3, 1);
	PlainHistories<double>(mc::Tier(3, 4));
	PlainHistories<float>(2);
	Transforms<double>();
	Transforms<float>();
}
MC_MAIN(Body)
