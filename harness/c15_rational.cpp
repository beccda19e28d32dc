// C15: Rational arithmetic and comparison are exact and results are in lowest terms with a positive denominator.
#include "ref.hpp"
#include <dspbb/Math/Rational.hpp>
#include <numeric>
using namespace dspbb;
using Wide128 = __int128;

struct Q { // the model: an unreduced fraction, denominator > 0
	Wide128 n, d;
};
static Wide128 Gcd(Wide128 a, Wide128 b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { auto t = a % b; a = b; b = t; } return a; }
static Q Norm(Q q) {
	if (q.d < 0) { q.n = -q.n; q.d = -q.d; }
	auto g = Gcd(q.n, q.d);
	return { q.n / g, q.d / g };
}
template <class T>
static void Is(const Rational<T>& r, Q want, const char* what) {
	want = Norm(want);
	mc::Eq((long long)r.Numerator(), (long long)want.n, what);
	mc::Eq((long long)r.Denominator(), (long long)want.d, what);
	mc::StateOf((long long)want.n, (long long)want.d);
}
static Q Add(Q a, Q b) { return { a.n * b.d + b.n * a.d, a.d * b.d }; }
static Q Sub(Q a, Q b) { return { a.n * b.d - b.n * a.d, a.d * b.d }; }
static Q Mul(Q a, Q b) { return { a.n * b.n, a.d * b.d }; }
static Q Div(Q a, Q b) { return { a.n * b.d, a.d * b.n }; }
static int Cmp(Q a, Q b) { auto l = a.n * b.d, r = b.n * a.d; return l < r ? -1 : l > r; }
static long long Floor(Q a) { a = Norm(a); auto q = a.n / a.d; return (long long)(a.n % a.d < 0 ? q - 1 : q); }
static long long Ceil(Q a) { a = Norm(a); auto q = a.n / a.d; return (long long)(a.n % a.d > 0 ? q + 1 : q); }

template <class A, class B>
static void Compare(const A& a, const B& b, int c, const char* what) {
	mc::Eq(a == b, c == 0, what);
	mc::Eq(a != b, c != 0, what);
	mc::Eq(a < b, c < 0, what);
	mc::Eq(a > b, c > 0, what);
	mc::Eq(a <= b, c <= 0, what);
	mc::Eq(a >= b, c >= 0, what);
}

template <class T>
static void Binary(const Rational<T>& a, const Rational<T>& b, Q qa, Q qb) {
	mc::Step(10);
	Is(a + b, Add(qa, qb), "sum");
	Is(a - b, Sub(qa, qb), "difference");
	Is(a * b, Mul(qa, qb), "product");
	if (qb.n != 0) Is(a / b, Div(qa, qb), "quotient");
	auto c = a; c += b; Is(c, Add(qa, qb), "+=");
	c = a; c -= b; Is(c, Sub(qa, qb), "-=");
	c = a; c *= b; Is(c, Mul(qa, qb), "*=");
	if (qb.n != 0) { c = a; c /= b; Is(c, Div(qa, qb), "/="); }
	Compare(a, b, Cmp(qa, qb), "comparison");
	// Aliased compound operations.
	c = a; c += c; Is(c, Add(qa, qa), "x += x");
	c = a; c *= c; Is(c, Mul(qa, qa), "x *= x");
	c = a; c -= c; Is(c, { 0, 1 }, "x -= x");
	if (qa.n != 0) { c = a; c /= c; Is(c, { 1, 1 }, "x /= x"); }
}
template <class T>
static void WithInteger(const Rational<T>& a, Q qa, T i) {
	const Q qi{ i, 1 };
	mc::Step(12);
	Is(a + i, Add(qa, qi), "rational + integer");
	Is(a - i, Sub(qa, qi), "rational - integer");
	Is(a * i, Mul(qa, qi), "rational * integer");
	Is(i + a, Add(qa, qi), "integer + rational");
	Is(i - a, Sub(qi, qa), "integer - rational");
	Is(i * a, Mul(qa, qi), "integer * rational");
	if (i != 0) Is(a / i, Div(qa, qi), "rational / integer");
	if (qa.n != 0) Is(i / a, Div(qi, qa), "integer / rational");
	auto c = a; c += i; Is(c, Add(qa, qi), "+= integer");
	c = a; c -= i; Is(c, Sub(qa, qi), "-= integer");
	c = a; c *= i; Is(c, Mul(qa, qi), "*= integer");
	if (i != 0) { c = a; c /= i; Is(c, Div(qa, qi), "/= integer"); }
	Compare(a, i, Cmp(qa, qi), "comparison with integer");
	Compare(i, a, Cmp(qi, qa), "comparison of integer");
}
template <class T>
static void Unary(const Rational<T>& a, Q qa) {
	mc::Step(8);
	Is(a, qa, "construction");
	mc::Eq((long long)floor(a), Floor(qa), "floor");
	mc::Eq((long long)ceil(a), Ceil(qa), "ceil");
	Is(frac(a), Sub(qa, { Floor(qa), 1 }), "frac");
	auto c = a;
	Is(++c, Add(qa, { 1, 1 }), "++x"); Is(c, Add(qa, { 1, 1 }), "after ++x");
	c = a; Is(--c, Sub(qa, { 1, 1 }), "--x"); Is(c, Sub(qa, { 1, 1 }), "after --x");
	c = a; Is(c++, qa, "x++"); Is(c, Add(qa, { 1, 1 }), "after x++");
	c = a; Is(c--, qa, "x--"); Is(c, Sub(qa, { 1, 1 }), "after x--");
	mc::Near(double(a), (long double)qa.n / (long double)qa.d, 1e-15L * std::abs((long double)qa.n), "to double");
	mc::Near(float(a), (long double)qa.n / (long double)qa.d, 2e-7L * std::abs((long double)qa.n), "to float");
}

template <class T>
static void Small(const char* name, int N, int D) {
	for (int n = -N; n <= N; ++n)
		for (int d = 1; d <= D; ++d) {
			if (!mc::Case(name, n, d)) continue;
			const Rational<T> a{ T(n), T(d) };
			const Q qa{ n, d };
			Unary(a, qa);
			for (int i = -N; i <= N; ++i) WithInteger<T>(a, qa, T(i));
			for (int n2 = -N; n2 <= N; ++n2)
				for (int d2 = 1; d2 <= D; ++d2) Binary(a, Rational<T>{ T(n2), T(d2) }, qa, { n2, d2 });
		}
}

// Comparisons between rationals of different integer types.
static void Mixed(int N, int D) {
	for (int n = -N; n <= N; ++n)
		for (int d = 1; d <= D; ++d) {
			if (!mc::Case("rational-mixed", n, d)) continue;
			for (int n2 = -N; n2 <= N; ++n2)
				for (int d2 = 1; d2 <= D; ++d2) {
					mc::Step();
					const Rational<int> a{ n, d };
					const Rational<int64_t> b{ n2, d2 };
					const int c = Cmp({ n, d }, { n2, d2 });
					Compare(a, b, c, "mixed comparison");
					Compare(b, a, -c, "mixed comparison");
				}
			mc::StateOf(n, d);
		}
}

// Operands near the limits whose reduced result still fits.
template <class T>
static void Large(const char* name, std::vector<T> vals) {
	const Wide128 lim = std::numeric_limits<T>::max();
	auto fits = [&](Q q) { q = Norm(q); return q.n >= -lim && q.n <= lim && q.d <= lim; };
	for (T a : vals)
		for (T b : vals) {
			if (!mc::Case(name, (long long)a, (long long)b)) continue;
			for (T c : vals)
				for (T d : vals)
					for (int s = 0; s < 4; ++s) {
						const Q qa{ s & 1 ? -Wide128(a) : Wide128(a), b }, qb{ s & 2 ? -Wide128(c) : Wide128(c), d };
						const Rational<T> ra{ T(qa.n), T(qa.d) }, rb{ T(qb.n), T(qb.d) };
						mc::Step(3);
						if (fits(Mul(qa, qb))) Is(ra * rb, Mul(qa, qb), "large product");
						if (fits(Div(qa, qb))) Is(ra / rb, Div(qa, qb), "large quotient");
						if (fits(Mul(qa, { qb.n, 1 }))) Is(ra * T(qb.n), Mul(qa, { qb.n, 1 }), "large product with integer");
						if (fits(Div(qa, { qb.n, 1 }))) Is(ra / T(qb.n), Div(qa, { qb.n, 1 }), "large quotient by integer");
						// Sums and comparisons over the least common denominator, as long as that and the numerators over it fit.
						const Q na = Norm(qa), nb = Norm(qb);
						if (fits({ na.n + na.d * qb.n, 1 }) && fits({ na.d * qb.n, 1 })) {
							Is(ra + T(qb.n), Add(qa, { qb.n, 1 }), "large sum with integer");
							Is(T(qb.n) + ra, Add(qa, { qb.n, 1 }), "large integer sum");
							Compare(ra, T(qb.n), Cmp(qa, { qb.n, 1 }), "large comparison with integer");
						}
						if (fits({ na.n - na.d * qb.n, 1 }) && fits({ na.d * qb.n, 1 })) {
							Is(ra - T(qb.n), Sub(qa, { qb.n, 1 }), "large difference with integer");
							Is(T(qb.n) - ra, Sub({ qb.n, 1 }, qa), "large integer difference");
						}
						const Wide128 lcm = na.d / Gcd(na.d, nb.d) * nb.d, ta = na.n * (lcm / na.d), tb = nb.n * (lcm / nb.d);
						if (lcm > lim || !fits({ ta, 1 }) || !fits({ tb, 1 })) continue;
						Compare(ra, rb, Cmp(qa, qb), "large comparison");
						if (fits({ ta + tb, 1 })) {
							Is(ra + rb, Add(qa, qb), "large sum");
							auto r = ra; r += rb; Is(r, Add(qa, qb), "large +=");
						}
						if (fits({ ta - tb, 1 })) {
							Is(ra - rb, Sub(qa, qb), "large difference");
							auto r = ra; r -= rb; Is(r, Sub(qa, qb), "large -=");
						}
					}
		}
}

// Comparisons across widths that only fit the wider type.
static void LargeMixed(std::vector<int> narrow, std::vector<int64_t> wide) {
	const Wide128 lim = std::numeric_limits<int64_t>::max();
	for (int a : narrow)
		for (int b : narrow) {
			if (!mc::Case("rational-large-mixed", a, b)) continue;
			for (int64_t c : wide)
				for (int64_t d : wide)
					for (int s = 0; s < 4; ++s) {
						const Q qa = Norm({ s & 1 ? -a : a, b }), qb = Norm({ s & 2 ? -c : c, d });
						const Wide128 lcm = qa.d / Gcd(qa.d, qb.d) * qb.d, ta = qa.n * (lcm / qa.d), tb = qb.n * (lcm / qb.d);
						if (lcm > lim || ta > lim || ta < -lim || tb > lim || tb < -lim) continue;
						mc::Step();
						const Rational<int> x{ int(qa.n), int(qa.d) };
						const Rational<int64_t> y{ int64_t(qb.n), int64_t(qb.d) };
						Compare(x, y, Cmp(qa, qb), "large mixed comparison");
						Compare(y, x, -Cmp(qa, qb), "large mixed comparison");
						if (qb.d == 1) {
							Compare(x, int64_t(qb.n), Cmp(qa, qb), "large mixed comparison with integer");
							Compare(int64_t(qb.n), x, -Cmp(qa, qb), "large mixed comparison of integer");
						}
					}
			mc::StateOf(a, b);
		}
}

// All histories of compound operations from a start value.
template <class T>
static void Histories(const char* name, int depth) {
	const std::vector<Q> operands = { { 1, 2 }, { -2, 3 }, { 3, 1 }, { 5, 6 }, { -1, 4 } };
	for (Q start : { Q{ 0, 1 }, Q{ 1, 3 }, Q{ -7, 4 }, Q{ 6, 1 } }) {
		std::vector<int> ops;
		std::function<void(Rational<T>, Q)> rec = [&](Rational<T> r, Q q) {
			if (int(ops.size()) == depth) return;
			for (int op = 0; op < int(operands.size()) * 4 + 2; ++op) {
				ops.push_back(op);
				if (ops.size() > 1 || mc::Case(name, (long long)start.n, (long long)start.d, op)) {
					auto r2 = r;
					Q q2 = q;
					mc::Step();
					if (op < int(operands.size()) * 4) {
						const Q o = operands[op / 4];
						const Rational<T> ro{ T(o.n), T(o.d) };
						switch (op % 4) {
							case 0: r2 += ro; q2 = Add(q, o); break;
							case 1: r2 -= ro; q2 = Sub(q, o); break;
							case 2: r2 *= ro; q2 = Mul(q, o); break;
							case 3: r2 /= ro; q2 = Div(q, o); break;
						}
					}
					else if (op % 2) { ++r2; q2 = Add(q, { 1, 1 }); }
					else { r2--; q2 = Sub(q, { 1, 1 }); }
					Is(r2, q2, "history");
					rec(r2, Norm(q2));
				}
				ops.pop_back();
			}
		};
		rec(Rational<T>{ T(start.n), T(start.d) }, start);
	}
}

static void Body() {
	Small<int>("rational-i32", mc::Tier(12, 24), mc::Tier(12, 20));
	Small<int64_t>("rational-i64", mc::Tier(12, 18), mc::Tier(12, 18));
	Mixed(mc::Tier(12, 30), mc::Tier(12, 30));
	Large<int>("rational-large-i32", { 1, 2, 3, 46341, 65536, 50000, 92682, 100000, 1000003, 30000001, 1073741824, 2147483647 });
	Large<int64_t>("rational-large-i64", { 1, 6, 65537, 3037000500ll, 4294967296ll, 1000000007ll, 6000000042ll, 9223372036854775807ll });
	LargeMixed({ 1, 2, 3, 46341, 65536, 50000, 99991, 100000, 1000003, 1073741824, 2147483647 },
			   { 1, 2, 3, 46341, 65536, 100003, 1000003, 1073741824, 2147483647, 2147483648ll, 4294967295ll, 4294967296ll, 1000000000039ll, 9223372036854775807ll });
	Histories<int64_t>("rational-history", mc::Tier(4, 5));
	Histories<int>("rational-history-i32", 3);
}
MC_MAIN(Body)
