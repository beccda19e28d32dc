// C28: the root finders return a root, to the requested tolerance, and terminate.
#include <dspbb/Math/Solvers.hpp> // first: it has to compile on its own
#include "ref.hpp"
using namespace dspbb;
using namespace ref;

template <class T>
struct Fn {
	const char* name;
	std::function<T(T)> f; // increasing, with f(0) = 0
};
template <class T>
static std::vector<Fn<T>> Functions() {
	return {
		{ "linear", [](T x) { return x; } },
		{ "steep", [](T x) { return T(1000) * x; } },
		{ "cubic", [](T x) { return x * x * x + x / T(4); } },
		{ "atan", [](T x) { return std::atan(x); } },
		{ "expm1", [](T x) { return std::expm1(x / T(4)); } },
		{ "step", [](T x) { return x < T(0) ? T(-1) : T(1); } },
	};
}
template <class T>
static void Bisection(int grid) {
	const auto fns = Functions<T>();
	const std::vector<T> tols = { T(0), T(1e-2), T(1e-4), T(0.5) };
	for (size_t fi = 0; fi < fns.size(); ++fi)
		for (int root = -grid; root <= grid; ++root)
			for (int lo = -grid; lo <= root; ++lo)
				for (int hi = root; hi <= grid; ++hi)
					for (int dir = 0; dir < 4; ++dir)
						for (size_t ti = 0; ti < tols.size(); ++ti) {
							if (hi == lo) continue;
							if (!mc::Case("bisect", TypeName<T>(), fns[fi].name, root, lo, hi, dir, ti)) continue;
							mc::Step();
							const T scale = T(0.3125), r = T(root) * scale + (root > lo && root < hi ? T(0.1) : T(0));
							T a = T(lo) * scale, b = T(hi) * scale;
							const bool exactEnd = root == lo || root == hi;
							if (exactEnd && !strcmp(fns[fi].name, "step")) { --mc::C().cases; continue; } // no sign change inside
							const T s = dir & 2 ? T(-1) : T(1);
							if (dir & 1) std::swap(a, b);
							long calls = 0;
							const T left = std::min(a, b), right = std::max(a, b);
							const T x = Bisect([&](T v) {
								++calls;
								mc::Check(v >= left && v <= right, "evaluated outside the bracket");
								return s * fns[fi].f(v - r);
							}, a, b, tols[ti]);
							mc::Check(x >= left && x <= right, "result outside the bracket");
							if (tols[ti] == T(0)) mc::Eq(LD(Bisect([&](T v) { return s * fns[fi].f(v - r); }, a, b)), LD(x), "root without a tolerance");
							const LD slack = 8 * Eps<T>() * std::max(std::abs(LD(left)), std::abs(LD(right)));
							mc::Near(x, LD(r), LD(tols[ti]) + slack, "root");
							mc::Check(calls < 4000, "too many evaluations");
							mc::StateOf(x);
						}
}
template <class T>
static void Newton(int grid) {
	// Convex functions started right of the root: the steps shrink all the way.
	for (int fn = 0; fn < 5; ++fn)
		for (int c = 1; c <= grid; ++c)
			for (int st = 0; st <= grid; ++st)
				for (int ti = 0; ti < 3; ++ti) {
					if (!mc::Case("newton", TypeName<T>(), fn, c, st, ti)) continue;
					mc::Step();
					const T tol = ti == 0 ? T(0) : ti == 1 ? T(1e-3) : T(1e-5);
					const T k = T(c) * T(0.75);
					LD root = 0;
					std::function<T(T)> f, d;
					switch (fn) {
						case 0: root = std::sqrt(LD(k)); f = [=](T x) { return x * x - k; }; d = [](T x) { return T(2) * x; }; break;
						case 1: root = std::cbrt(LD(k)); f = [=](T x) { return x * x * x - k; }; d = [](T x) { return T(3) * x * x; }; break;
						case 2: root = std::log(LD(k)); f = [=](T x) { return std::exp(x) - k; }; d = [](T x) { return std::exp(x); }; break;
						case 3: root = LD(k); f = [=](T x) { return T(3) * (x - k); }; d = [](T) { return T(3); }; break;
						case 4: root = -std::sqrt(LD(k)); f = [=](T x) { return x * x - k; }; d = [](T x) { return T(2) * x; }; break;
					}
					const T x0 = T(root) + (fn == 4 ? T(-1) : T(1)) * T(st) * T(0.375);
					if (fn != 3 && st == 0 && ti == 0) {} // started on the root
					long calls = 0;
					const T x = NewtonRaphson([&](T v) { ++calls; return f(v); }, [&](T v) { return d(v); }, x0, tol);
					if (ti == 0) mc::Eq(LD(NewtonRaphson(f, d, x0)), LD(x), "root without a tolerance");
					// Quadratic convergence: within the tolerance of the last step, plus the rounding of f near the root.
					mc::Near(x, root, LD(tol) + 64 * Eps<T>() * (std::abs(root) + 1), "root");
					mc::Check(calls < 500, "too many iterations");
					mc::StateOf(x);
				}
}
static void Body() {
	Bisection<double>(mc::Tier(6, 12));
	Bisection<float>(mc::Tier(4, 10));
	Newton<double>(mc::Tier(24, 60));
	Newton<float>(mc::Tier(16, 40));
}
MC_MAIN(Body)
