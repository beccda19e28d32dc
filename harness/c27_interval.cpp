// C27: interval operations are the set operations on half-open ranges.
#include "ref.hpp"
#include <dspbb/Utility/Interval.hpp>
#include <set>
using namespace dspbb;

template <class T>
static std::vector<Interval<T>> All(int lo, int hi) {
	std::vector<Interval<T>> r;
	for (int a = lo; a <= hi; ++a)
		for (int b = a; b <= hi; ++b) r.push_back({ T(a), T(b) });
	return r;
}
// Membership of the unit cells [i, i+1) is enough to compare sets with integer end points.
template <class T>
static bool In(const Interval<T>& i, int cell) { return i.first <= T(cell) && T(cell) < i.last; }

template <class T>
static void Pairs(const char* name, int lo, int hi) {
	for (auto& a : All<T>(lo, hi))
		for (auto& b : All<T>(lo, hi)) {
			if (!mc::Case(name, (long long)a.first, (long long)a.last, (long long)b.first, (long long)b.last)) continue;
			mc::Step(6);
			bool common = false;
			for (int c = lo; c < hi; ++c) common |= In(a, c) && In(b, c);
			mc::Eq(IsDisjoint(a, b), !common, "disjoint");
			mc::Eq(IsDisjoint(b, a), !common, "disjoint, swapped");
			const auto x = Intersection(a, b);
			for (int c = lo; c < hi; ++c) mc::Eq(In(x, c), In(a, c) && In(b, c), "intersection contains cell", c - lo);
			mc::Check(Intersection(b, a) == x, "intersection is symmetric");
			mc::Check(x.size() >= T(0) && x.first <= x.last, "intersection is an interval");
			if (!common) mc::Eq(x.size(), T(0), "size of an empty intersection");
			const auto e = EncompassingUnion(a, b);
			mc::Eq(e.first, std::min(a.first, b.first), "encompassing union first");
			mc::Eq(e.last, std::max(a.last, b.last), "encompassing union last");
			const auto u = Union(a, b);
			mc::Eq(u.has_value(), common, "union exists");
			if (u) {
				for (int c = lo; c < hi; ++c) mc::Eq(In(*u, c), In(a, c) || In(b, c), "union contains cell", c - lo);
				mc::Check(*u == e, "union of overlapping intervals");
				mc::Eq(a.size() + b.size(), u->size() + x.size(), "sizes add up");
			}
			const bool same = a.first == b.first && a.last == b.last;
			mc::Eq(a == b, same, "equality");
			mc::Eq(a != b, !same, "inequality");
			mc::StateOf(a.first, a.last, b.first, b.last);
		}
}
template <class T>
static void Offsets(const char* name, int lo, int hi, int klo, int khi) {
	for (auto& a : All<T>(lo, hi))
		for (int k = klo; k <= khi; ++k) {
			if (!mc::Case(name, (long long)a.first, (long long)a.last, k)) continue;
			mc::Step(6);
			auto is = [&](const Interval<T>& i, T f, T l, const char* what) { mc::Eq(i.first, f, what); mc::Eq(i.last, l, what); };
			is(a + T(k), a.first + T(k), a.last + T(k), "interval + offset");
			auto c = a;
			mc::Check(&(c += T(k)) == &c, "+= returns the target");
			is(c, a.first + T(k), a.last + T(k), "+=");
			mc::Eq(c.size(), a.size(), "size is kept");
			if (std::is_signed_v<T> || int(a.first) >= k) {
				is(a - T(k), a.first - T(k), a.last - T(k), "interval - offset");
				c = a;
				mc::Check(&(c -= T(k)) == &c, "-= returns the target");
				is(c, a.first - T(k), a.last - T(k), "-=");
				mc::Check((a - T(k)) + T(k) == a, "there and back");
			}
			mc::Eq(a.size(), a.last - a.first, "size");
			mc::StateOf(c.first, c.last);
		}
}
// End points far from zero, where a detour through another type would lose them.
template <class T>
static void Far(const char* name, T base) {
	const std::vector<int> d{ 0, 1, 2, 3, 5 };
	for (int a : d) for (int b : d) for (int e : d) for (int f : d) {
		if (a > b || e > f || !mc::Case(name, a, b, e, f)) continue;
		mc::Step(6);
		const Interval<T> i{ T(base + T(a)), T(base + T(b)) }, j{ T(base + T(e)), T(base + T(f)) };
		const int lo = std::max(a, e), hi = std::min(b, f);
		const bool common = lo < hi;
		mc::Eq(i.size(), T(b - a), "size");
		mc::Eq(IsDisjoint(i, j), !common, "disjoint");
		const auto x = Intersection(i, j);
		if (common) mc::Check(x.first == T(base + T(lo)) && x.last == T(base + T(hi)), "intersection");
		else mc::Eq(x.size(), T(0), "empty intersection");
		const auto u = EncompassingUnion(i, j);
		mc::Check(u.first == T(base + T(std::min(a, e))) && u.last == T(base + T(std::max(b, f))), "encompassing union");
		mc::Eq(Union(i, j).has_value(), common, "union exists");
		mc::Eq(i == j, a == e && b == f, "equality");
		const auto s = i + T(7);
		mc::Check(s.first == T(base + T(a + 7)) && s.last == T(base + T(b + 7)) && s - T(7) == i, "shift");
		mc::StateOf(a, b, e, f);
	}
}
// All histories of updates: shifting, and replacing by a combination with the other interval.
static void Histories(int depth) {
	std::vector<int> ops;
	std::function<void(Interval<int>, std::pair<int, int>)> rec = [&](Interval<int> i, std::pair<int, int> m) {
		mc::Eq(i.first, m.first, "history first");
		mc::Eq(i.last, m.second, "history last");
		mc::StateOf(m.first, m.second);
		if (int(ops.size()) == depth) return;
		for (int op = 0; op < 8; ++op) {
			ops.push_back(op);
			if (ops.size() > 2 || mc::Case("interval-history", ops)) {
				mc::Step();
				auto j = i;
				auto n = m;
				const std::pair<int, int> other = op % 2 ? std::pair(-2, 3) : std::pair(1, 6);
				const Interval<int> o{ other.first, other.second };
				switch (op / 2) {
					case 0: j += op + 1; n.first += op + 1; n.second += op + 1; break;
					case 1: j -= op; n.first -= op; n.second -= op; break;
					case 2: { j = Intersection(j, o); n = { std::max(n.first, other.first), std::min(n.second, other.second) }; if (n.first >= n.second) n = { j.first, j.first }; break; }
					case 3: j = EncompassingUnion(j, o); n = { std::min(n.first, other.first), std::max(n.second, other.second) }; break;
				}
				rec(j, n);
			}
			ops.pop_back();
		}
	};
	rec({ 0, 4 }, { 0, 4 });
}
static void Body() {
	const int r = mc::Tier(5, 8);
	Pairs<int>("interval-int", -r, r);
	Pairs<ptrdiff_t>("interval-ptrdiff", -r, r);
	Pairs<double>("interval-double", -r, r);
	Pairs<float>("interval-float", -4, 4);
	Pairs<size_t>("interval-size", 0, r + 4);
	Offsets<int>("interval-offset-int", -6, 6, -8, 8);
	Offsets<double>("interval-offset-double", -6, 6, -8, 8);
	Offsets<size_t>("interval-offset-size", 0, 10, 0, 10);
	Far<int>("interval-far-int", 2147483600);
	Far<int>("interval-far-negative-int", -2147483640);
	Far<long long>("interval-far-int64", 9223372036854775700ll);
	Far<long long>("interval-far-53", (1ll << 53) + 1);
	Far<size_t>("interval-far-size", ~size_t(0) - 100);
	Far<unsigned>("interval-far-unsigned", 4294967200u);
	Far<double>("interval-far-double", 1125899906842624.0);
	Histories(mc::Tier(5, 7));
}
MC_MAIN(Body)
