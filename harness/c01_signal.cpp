// C01: every history of container operations, against std::vector.
#include "ref.hpp"
using namespace dspbb;

template <class T, eSignalDomain D>
struct Machine {
	using S = BasicSignal<T, D>;
	S s;
	std::vector<T> m;
	S snap;              // a copy taken before the last operation; must not follow later changes
	std::vector<T> snapM;
	int fresh = 1;
	T next() { return T(ref::real_of_t<T>(fresh++)); }
	S sig(size_t n) { S r(n); for (size_t i = 0; i < n; ++i) r[i] = next(); return r; }
	static void ins(std::vector<T>& v, size_t at, const S& x) { std::vector<T> t(v.begin(), v.begin() + at); for (size_t i = 0; i < x.size(); ++i) t.push_back(x[i]); t.insert(t.end(), v.begin() + at, v.end()); v = t; }

	static constexpr int OPS = 33;
	// Returns false when the operation is not applicable in this state (its precondition fails).
	bool Apply(int op) {
		const size_t n = s.size();
		const size_t mid = n / 2;
		switch (op) {
			case 0: { T v = next(); s.push_back(v); m.push_back(v); break; }
			case 1: { S x = sig(2); s.append(x); ins(m, n, x); break; }
			case 2: { S x = sig(2); s.prepend(x); ins(m, 0, x); break; }
			case 3: { S x = sig(2); s.insert(mid, x); ins(m, mid, x); break; }
			case 4: { S x = sig(1); s.insert(s.begin() + mid, x); ins(m, mid, x); break; }
			case 5: { S x = sig(3); s.insert(s.cend(), x.begin(), x.end()); ins(m, n, x); break; }
			case 6: { S x = sig(1); s.insert(size_t(0), x); ins(m, 0, x); break; }
			case 7: { S x; s.append(x); s.prepend(x); s.insert(mid, x); break; }
			case 8: { if (!n) return false; s.erase(s.begin() + mid); m.erase(m.begin() + mid); break; }
			case 9: { if (n < 2) return false; s.erase(s.begin() + 1, s.end() - 1); m.erase(m.begin() + 1, m.end() - 1); break; }
			case 10: { if (n < 1) return false; Extract(s.extract_front(1), 0, 1, n); break; }
			case 11: { Extract(s.extract_front(mid), 0, mid, n); break; }
			case 12: { if (n < 1) return false; Extract(s.extract_back(1), n - 1, n, n); break; }
			case 13: { Extract(s.extract_back(mid), n - mid, n, n); break; }
			case 14: { Extract(s.extract_back(n), 0, n, n); break; }
			case 15: s.resize(n + 2); m.resize(n + 2, T(0)); break;
			case 16: { T v = next(); s.resize(n + 3, v); m.resize(n + 3, v); break; }
			case 17: s.resize(mid); m.resize(mid); break;
			case 18: s.clear(); m.clear(); break;
			case 19: { s.reserve(n + 5); mc::Check(s.capacity() >= n + 5, "capacity after reserve"); break; }
			case 20: { S c(s); mc::Check(c.size() == n, "copy size"); s = c; break; }
			case 21: { S c(std::move(s)); s = S(); s = std::move(c); break; }
			case 22: { S c(s.size(), s.data()); s = c; break; }
			case 23: { S c(s.rbegin(), s.rend()); s = c; m = std::vector<T>(m.rbegin(), m.rend()); break; }
			case 24: { // conversion to the other precision and back (values are small integers: exact)
				using O = std::conditional_t<ref::is_cplx<T>::value, std::complex<double>, double>;
				BasicSignal<O, D> o(s);
				mc::Check(o.size() == n, "converted size");
				for (size_t i = 0; i < n; ++i) mc::Eq(o[i], O(m[i]), "converted value", i);
				BasicSignal<O, D> o2{ O(9), O(8) };
				o2 = s;
				mc::Check(o2.size() == n, "assigned size");
				for (size_t i = 0; i < n; ++i) mc::Eq(o2[i], O(m[i]), "assigned value", i);
				break;
			}
			case 25: { if (!n) return false; T v = next(); s[n - 1] = v; m[n - 1] = v; break; }
			case 26: { if (!n) return false; T v = next(); s.data()[0] = v; m[0] = v; break; }
			case 27: { if (!n) return false; T v = next(); *(s.begin() + mid) = v; m[mid] = v; break; }
			case 28: { if (!n) return false; T v = next(); *(s.rbegin() + mid) = v; m[n - 1 - mid] = v; break; }
			case 29: { T v = next(); s = S(n + 1, v); m.assign(n + 1, v); break; }
			case 30: { T a = next(), b = next(); s = S{ a, b }; m = { a, b }; break; }
			case 31: { Extract(s.extract_front(n), 0, n, n); break; }
			case 32: { if (n < 3) return false; s.erase(s.begin(), s.begin() + 2); m.erase(m.begin(), m.begin() + 2); break; }
		}
		return true;
	}
	void Extract(const S& part, size_t a, size_t b, size_t n) {
		mc::Eq(part.size(), b - a, "extracted size");
		for (size_t i = a; i < b && i - a < part.size(); ++i) mc::Eq(part[i - a], m[i], "extracted value", i);
		m.erase(m.begin() + a, m.begin() + b);
	}
	void Observe() {
		mc::Step();
		const S& c = s;
		mc::Eq(s.size(), m.size(), "size");
		mc::Eq(s.empty(), m.empty(), "empty");
		mc::Check(s.capacity() >= s.size(), "capacity below size");
		if (s.size() != m.size()) return;
		size_t k = 0;
		for (auto it = s.begin(); it != s.end(); ++it, ++k) { mc::Eq(*it, m[k], "iterated value", k); mc::Check(&*it == s.data() + k, "iterators and data disagree"); }
		mc::Eq(k, m.size(), "iterated length");
		k = 0;
		for (auto it = c.rbegin(); it != c.rend(); ++it, ++k) mc::Eq(*it, m[m.size() - 1 - k], "reverse iterated value", k);
		mc::Eq(k, m.size(), "reverse length");
		for (size_t i = 0; i < m.size(); ++i) { mc::Eq(c[i], m[i], "value", i); mc::Check(&c[i] == c.data() + i && &s[i] == s.data() + i, "index and data disagree"); }
		mc::Check(c.end() - c.begin() == ptrdiff_t(m.size()) && s.cend() - s.cbegin() == ptrdiff_t(m.size()) && s.crend() - s.crbegin() == ptrdiff_t(m.size()) && s.rend() - s.rbegin() == ptrdiff_t(m.size()), "iterator distances");
		mc::Eq(snap.size(), snapM.size(), "size of an older copy");
		for (size_t i = 0; i < snapM.size() && i < snap.size(); ++i) mc::Eq(snap[i], snapM[i], "older copy", i);
		snap = s;
		snapM = m;
		mc::StateOf(m);
	}
};

template <class T, eSignalDomain D>
void Walk(const char* name, int depth) {
	using M = Machine<T, D>;
	std::vector<int> h;
	// Depth-first over histories; every history is replayed from scratch on a fresh object.
	std::function<void()> rec = [&] {
		for (int op = 0; op < M::OPS; ++op) {
			h.push_back(op);
			bool applicable = true;
			const bool run = mc::Case(name, h);
			{
				M m;
				for (size_t i = 0; i < h.size() && applicable; ++i) {
					applicable = m.Apply(h[i]);
					if (run && applicable) m.Observe();
				}
			}
			if (run && !applicable) --mc::C().cases; // not a history of the system
			if (applicable && (int)h.size() < depth) rec();
			h.pop_back();
		}
	};
	rec();
}

// Erasing, extracting and inserting the range [i, j) of n samples.
void Ranges(size_t n, size_t i, size_t j) {
	SignalF s(n);
	for (size_t k = 0; k < n; ++k) s[k] = float(k + 1);
	SignalF e = s, f = s, b = s, x = s;
	e.erase(e.begin() + i, e.begin() + j);
	mc::Eq(e.size(), n - (j - i), "size after erase");
	for (size_t k = 0; k < e.size(); ++k) mc::Eq(e[k], float((k < i ? k : k + j - i) + 1), "after erase", k);
	auto pf = f.extract_front(j), pb = b.extract_back(j);
	mc::Check(pf.size() == j && f.size() == n - j && pb.size() == j && b.size() == n - j, "sizes after extraction");
	for (size_t k = 0; k < j; ++k) { mc::Eq(pf[k], float(k + 1), "front part", k); mc::Eq(pb[k], float(n - j + k + 1), "back part", k); }
	for (size_t k = 0; k < n - j; ++k) { mc::Eq(f[k], float(j + k + 1), "front remainder", k); mc::Eq(b[k], float(k + 1), "back remainder", k); }
	SignalF ins(j - i, 100.f);
	x.insert(i, ins);
	mc::Eq(x.size(), n + j - i, "size after insert");
	for (size_t k = 0; k < x.size(); ++k) mc::Eq(x[k], k < i ? float(k + 1) : k < j ? 100.f : float(k - (j - i) + 1), "after insert", k);
	mc::Step(4);
	mc::StateOf(n, i, j);
}

void Body() {
	Walk<float, TIME_DOMAIN>("history-f", mc::Tier(3, 4));
	Walk<std::complex<float>, FREQUENCY_DOMAIN>("history-cf", mc::Tier(3, 4));
	Walk<double, QUEFRENCY_DOMAIN>("history-d", mc::Tier(3, 4));
	// From non-initial states: every single operation and pair from every size up to 12.
	for (size_t n = 0; n <= 40; ++n)
		for (int a = 0; a < Machine<float, TIME_DOMAIN>::OPS; ++a)
			for (int b = 0; b < Machine<float, TIME_DOMAIN>::OPS; ++b)
				if (mc::Case("from-size", n, a, b)) {
					Machine<float, TIME_DOMAIN> m;
					m.s = m.sig(n);
					m.m.assign(m.s.begin(), m.s.end());
					m.Observe();
					if (m.Apply(a)) { m.Observe(); if (m.Apply(b)) m.Observe(); }
				}
	// Far sizes: every single operation, and every pair on the smaller ones.
	for (size_t n : { 255, 256, 257, 1000, 4097, 70001 })
		for (int a = 0; a < Machine<float, TIME_DOMAIN>::OPS; ++a)
			for (int b = 0; b < (n < 5000 ? Machine<float, TIME_DOMAIN>::OPS : 1); ++b)
				if (mc::Case("far-size", n, a, b)) {
					Machine<float, TIME_DOMAIN> m;
					m.s = m.sig(n);
					m.m.assign(m.s.begin(), m.s.end());
					m.Observe();
					if (m.Apply(a)) { m.Observe(); if (m.Apply(b)) m.Observe(); }
				}
	// Every extraction and erasure range of every size, and the ranges at the borders of far sizes.
	for (size_t n : { 255, 257, 1023, 4099, 65539 }) {
		std::vector<size_t> at{ 0, 1, 2, 127, 128, 129, 254, 255 };
		for (size_t x : { n / 2, n - 129, n - 128, n - 2, n - 1, n }) at.push_back(x);
		if (n > 300) for (size_t x : { 256, 257, 300 }) at.push_back(x);
		if (n > 5000) for (size_t x : { 32767, 32768, 65535, 65536, 65537 }) at.push_back(x);
		for (size_t i : at)
			for (size_t j : at)
				if (i <= j && j <= n && mc::Case("far-ranges", n, i, j)) Ranges(n, i, j);
	}
	for (size_t n = 0; n <= 18; ++n)
		for (size_t i = 0; i <= n; ++i)
			for (size_t j = i; j <= n; ++j)
				if (mc::Case("ranges", n, i, j)) Ranges(n, i, j);
}
MC_MAIN(Body)
