// C30: the vectorized kernels compute what their sequential counterparts do, for every length, alignment, type and operator.
#include "ref.hpp"
#include <dspbb/Kernels/Convolution.hpp>
#include <dspbb/Kernels/Functors.hpp>
#include <dspbb/Kernels/Math.hpp>
#include <dspbb/Kernels/Numeric.hpp>
#include <numeric>
#include <span>
using namespace dspbb;
using namespace ref;
namespace k = dspbb::kernels;

static std::vector<size_t> Sizes() { return Lengths(mc::Tier(75, 150), { 127, 128, 129, 160, 255, 256, 257, 511, 512, 513, 1000, 1025 }); }
template <class T>
static Guarded<T> Data(size_t n, size_t mis, uint64_t seed, int range = 7) {
	Guarded<T> g(n, mis);
	for (size_t i = 0; i < n; ++i) g[i] = mc::ValAs<T>(seed * 7919 + i, range);
	return g;
}
template <class T> const char* Name() {
	if constexpr (std::is_same_v<T, int64_t>) return "l";
	else if constexpr (std::is_same_v<T, uint8_t>) return "u8";
	else if constexpr (std::is_same_v<T, int16_t>) return "i16";
	else return TypeName<T>();
}

// ---- Transform
template <class T, class U, class Op>
static void Unary(const char* name, Op op) {
	for (size_t n : Sizes())
		for (size_t mis = 0; mis < 4; ++mis) {
			if (!mc::Case("transform-unary", name, Name<T>(), Name<U>(), n, mis)) continue;
			mc::Step(2);
			const auto in = Data<T>(n, mis, n);
			std::vector<U> want(n);
			std::transform(in.data(), in.data() + n, want.begin(), op);
			Guarded<U> out(n, (mis * 3 + n) % 4);
			const auto end = k::Transform(in.data(), in.data() + n, out.data(), op);
			mc::Check(end == out.data() + n, "returned end");
			for (size_t i = 0; i < n; ++i) mc::Eq(out[i], want[i], "transformed", i);
			out.CheckGuards();
			if constexpr (std::is_same_v<T, U>) {
				auto io = in;
				k::Transform(io.data(), io.data() + n, io.data(), op);
				for (size_t i = 0; i < n; ++i) mc::Eq(io[i], want[i], "transformed in place", i);
				io.CheckGuards();
			}
			std::vector<T> vin(in.data(), in.data() + n);
			BasicSignal<U, TIME_DOMAIN> vout(n);
			if (n) {
				const auto e2 = k::Transform(vin.cbegin(), vin.cend(), vout.begin(), op);
				mc::Check(e2 == vout.end(), "returned end iterator");
				for (size_t i = 0; i < n; ++i) mc::Eq(vout[i], want[i], "transformed by iterators", i);
			}
			mc::StateOf(want);
		}
}
template <class T1, class T2, class U, class Op>
static void Binary(const char* name, Op op) {
	for (size_t n : Sizes())
		for (size_t mis = 0; mis < 4; ++mis) {
			if (!mc::Case("transform-binary", name, Name<T1>(), Name<T2>(), Name<U>(), n, mis)) continue;
			mc::Step(3);
			const auto a = Data<T1>(n, mis, n);
			const auto b = Data<T2>(n, (mis + n) % 4, n + 1);
			std::vector<U> want(n);
			std::transform(a.data(), a.data() + n, b.data(), want.begin(), op);
			Guarded<U> out(n, (mis * 3 + n) % 4);
			const auto end = k::Transform(a.data(), a.data() + n, b.data(), out.data(), op);
			mc::Check(end == out.data() + n, "returned end");
			for (size_t i = 0; i < n; ++i) mc::Eq(out[i], want[i], "transformed", i);
			out.CheckGuards();
			if constexpr (std::is_same_v<T1, U>) {
				auto io = a;
				k::Transform(io.data(), io.data() + n, b.data(), io.data(), op);
				for (size_t i = 0; i < n; ++i) mc::Eq(io[i], want[i], "transformed onto the first operand", i);
				io.CheckGuards();
			}
			if constexpr (std::is_same_v<T2, U>) {
				auto io = b;
				k::Transform(a.data(), a.data() + n, io.data(), io.data(), op);
				for (size_t i = 0; i < n; ++i) mc::Eq(io[i], want[i], "transformed onto the second operand", i);
				io.CheckGuards();
			}
			mc::StateOf(want);
		}
}

// ---- Reductions. The data make every order of evaluation exact.
template <class T, class I, class Op>
static void Reductions(const char* name, Op op, std::function<T(uint64_t)> value, std::vector<I> inits) {
	for (size_t n : Sizes())
		for (size_t mis = 0; mis < 4; ++mis)
			for (size_t init = 0; init < inits.size(); ++init) {
				if (!mc::Case("reduce", name, Name<T>(), Name<I>(), n, mis, init)) continue;
				mc::Step(2);
				Guarded<T> in(n, mis);
				for (size_t i = 0; i < n; ++i) in[i] = value(n * 7919 + i);
				I want = inits[init];
				for (size_t i = 0; i < n; ++i) want = op(want, I(in[i]));
				const I got = k::Reduce(in.data(), in.data() + n, inits[init], op);
				mc::Eq(got, want, "reduced");
				if (n) {
					const auto view = in.cview();
					mc::Eq(k::Reduce(view.begin(), view.end(), inits[init], op), want, "reduced by view iterators");
				}
				mc::StateOf(got, n);
			}
}
template <class T, class I, class Op, class Map>
static void MapReductions(const char* name, Op op, Map map, std::vector<I> inits) {
	for (size_t n : Sizes())
		for (size_t mis = 0; mis < 4; ++mis)
			for (size_t init = 0; init < inits.size(); ++init) {
				if (!mc::Case("transform-reduce", name, Name<T>(), Name<I>(), n, mis, init)) continue;
				mc::Step();
				const auto in = Data<T>(n, mis, n);
				I want = inits[init];
				for (size_t i = 0; i < n; ++i) want = op(want, I(map(in[i])));
				const I got = k::TransformReduce(in.data(), in.data() + n, inits[init], op, map);
				mc::Eq(got, want, "transformed and reduced");
				mc::StateOf(got, n);
			}
}
template <class T1, class T2, class I, class Op, class Product>
static void InnerProducts(const char* name, Op op, Product product, std::vector<I> inits) {
	for (size_t n : Sizes())
		for (size_t mis = 0; mis < 4; ++mis)
			for (size_t init = 0; init < inits.size(); ++init) {
				if (!mc::Case("inner-product", name, Name<T1>(), Name<T2>(), Name<I>(), n, mis, init)) continue;
				mc::Step();
				const auto a = Data<T1>(n, mis, n);
				const auto b = Data<T2>(n, (mis + n) % 4, n + 1);
				I want = inits[init];
				for (size_t i = 0; i < n; ++i) want = op(want, I(product(a[i], b[i])));
				const I got = k::InnerProduct(a.data(), a.data() + n, b.data(), inits[init], op, product);
				mc::Eq(got, want, "inner product");
				mc::StateOf(got, n);
			}
}

// A long double sum whose own error does not matter.
template <class W>
struct Exact {
	W sum{ 0 }, c{ 0 };
	void Add(const W& v) {
		const W y = v - c, t = sum + y;
		c = (t - sum) - y;
		sum = t;
	}
};
// ---- Compensated summation: the error does not grow with the length.
template <class T>
static T Pattern(int p, size_t i) {
	using R = real_of_t<T>;
	R v;
	switch (p) {
		case 0: v = R(0.1); break;
		case 1: v = R(1) / R(i + 1); break;
		case 2: v = R(1) / R(i % 97 + 3); break;
		case 3: v = i % 2 ? R(-0.3) : R(0.7); break;
		default: v = i < 9 ? R(4096) : R(0.001); break;
	}
	if constexpr (is_cplx<T>::value) return T(v, -v * R(0.37));
	else return v;
}
template <class T>
static void Compensated() {
	const std::vector<size_t> lengths = { 1, 2, 3, 5, 8, 9, 31, 100, 1000, 10000, 100000, 1000003 };
	for (size_t n : lengths)
		for (int p = 0; p < 5; ++p)
			for (int form = 0; form < 6; ++form) {
				if (!mc::Case("compensated", Name<T>(), n, p, form)) continue;
				mc::Step();
				std::vector<T> x(n), y(n);
				Exact<wide_t<T>> want;
				LD mag = 0;
				for (size_t i = 0; i < n; ++i) {
					x[i] = Pattern<T>(p, i), y[i] = T(real_of_t<T>(form >= 4 ? 0.75 : 1));
					const auto w = Wide(x[i]) * Wide(y[i]) * (form == 2 || form == 3 ? LD(2) : LD(1));
					want.Add(w), mag += std::abs(w);
				}
				T got(0);
				const auto twice = [](const auto& v) { return v + v; };
				const T zero = T(real_of_t<T>(0));
				switch (form) {
					case 0: got = k::Reduce(x.data(), x.data() + n, zero, plus_compensated<>{}); break;
					case 1: got = k::Reduce(x.data(), x.data() + n, zero, plus_compensated<T>{}); break;
					case 2: got = k::TransformReduce(x.data(), x.data() + n, zero, plus_compensated<>{}, twice); break;
					case 3: got = k::TransformReduce(x.data(), x.data() + n, zero, plus_compensated<T>{}, twice); break;
					case 4: got = k::InnerProduct(x.data(), x.data() + n, y.data(), zero, plus_compensated<>{}, std::multiplies<>{}); break;
					case 5: got = k::InnerProduct(x.data(), x.data() + n, y.data(), zero, plus_compensated<T>{}, std::multiplies<T>{}); break;
				}
				mc::Near(got, want.sum, 8 * Eps<T>() * mag, "compensated sum");
				mc::StateOf(got, n);
			}
	// A long kernel sliding over a constant: every output is a long compensated sum.
	for (size_t n : { 1000, 20000, 200003 })
		for (int p = 0; p < 5; ++p) {
			if (!mc::Case("compensated-convolution", Name<T>(), n, p)) continue;
			mc::Step();
			std::vector<T> x(n), h(n), out(5);
			for (size_t i = 0; i < n; ++i) x[i] = Pattern<T>(p, i), h[i] = T(real_of_t<T>(0.7));
			k::ConvolutionReduceVec(x.begin(), x.end(), h.begin(), h.end(), out.begin(), out.end(), ptrdiff_t(n) - 3, false, plus_compensated<>{});
			for (size_t o = 0; o < out.size(); ++o) {
				Exact<wide_t<T>> want;
				LD mag = 0;
				for (size_t i = 0; i < n; ++i) {
					const ptrdiff_t j = ptrdiff_t(n) - 3 + ptrdiff_t(o) - ptrdiff_t(i);
					if (j < 0 || j >= ptrdiff_t(n)) continue;
					const auto w = Wide(x[i]) * Wide(h[j]);
					want.Add(w), mag += std::abs(w);
				}
				mc::Near(out[o], want.sum, 8 * Eps<T>() * mag, "compensated convolution", o);
			}
			mc::StateOf(out[0], out[4], n);
		}
}

// ---- Convolution kernels
enum { NAIVE, SLIDE, REDUCE, VEC, VECPLUS };
static const char* KERNELS[] = { "naive", "slide", "reduce", "reducevec", "reducevec-plus" };
template <class A, class B, class O>
static void Window(int kernel, const A& a, const B& b, Guarded<O>& out, ptrdiff_t first, bool acc) {
	const auto a0 = a.data(), a1 = a0 + a.n;
	const auto b0 = b.data(), b1 = b0 + b.n;
	const auto o0 = out.data(), o1 = o0 + out.n;
	switch (kernel) {
		case NAIVE: k::ConvolutionNaive(a0, a1, b0, b1, o0, o1, first, acc); break;
		case SLIDE: k::ConvolutionSlide(a0, a1, b0, b1, o0, o1, first, acc); break;
		case REDUCE: k::ConvolutionReduce(a0, a1, b0, b1, o0, o1, first); break;
		case VEC: k::ConvolutionReduceVec(a0, a1, b0, b1, o0, o1, first, acc); break;
		case VECPLUS: k::ConvolutionReduceVec(a0, a1, b0, b1, o0, o1, first, acc, std::plus<>{}); break;
	}
}
template <class T1, class T2, class O>
static void Convolutions(size_t max, std::vector<std::pair<size_t, size_t>> large) {
	std::vector<std::pair<size_t, size_t>> sizes;
	for (size_t a = 1; a <= max; ++a)
		for (size_t b = 1; b <= max; ++b) sizes.push_back({ a, b });
	sizes.insert(sizes.end(), large.begin(), large.end());
	for (int kernel = 0; kernel < 5; ++kernel)
		for (auto [la, lb] : sizes) {
			if (!mc::Case("kernel-windows", KERNELS[kernel], Name<T1>(), Name<T2>(), Name<O>(), la, lb)) continue;
			const auto a = Data<T1>(la, la % 4, la, 5);
			const auto b = Data<T2>(lb, lb % 3, lb + 40, 5);
			const auto full = Convolve(std::span(a.data(), la), std::span(b.data(), lb));
			for (size_t first = 0; first <= full.size(); ++first)
				for (size_t n = 0; first + n <= full.size(); ++n) {
					if (full.size() > 40 && n > 9 && (n * 7 + first) % 29 && first + n != full.size()) continue;
					if (full.size() > 200 && first > 9 && first % 37) continue;
					for (int acc = 0; acc < (kernel == REDUCE ? 1 : 2); ++acc) {
						mc::Step();
						Guarded<O> out(n, (first + n) % 4);
						for (size_t i = 0; i < n; ++i) out[i] = mc::ValAs<O>(i + n, 9);
						const auto before = out;
						Window(kernel, a, b, out, ptrdiff_t(first), acc);
						for (size_t i = 0; i < n; ++i) mc::Eq(Wide(out[i]), decltype(Wide(out[i]))(full[first + i] + (acc ? Wide(before[i]) : decltype(Wide(out[i]))(0))), "convolved", first + i);
						out.CheckGuards();
					}
				}
			mc::StateOf(full);
		}
}

template <class T>
static std::vector<T> Inits() { return { T(real_of_t<T>(0)), T(real_of_t<T>(5)), T(real_of_t<T>(-11)) }; }
template <class T> static std::function<T(uint64_t)> SmallInts() { return [](uint64_t i) { return mc::ValAs<T>(i, 7); }; }
template <class T> static std::function<T(uint64_t)> Powers() {
	return [](uint64_t i) -> T { const int v = mc::Val(i, 3); const real_of_t<T> r(v == 1 ? 2 : v == 2 ? 0.5 : v < 0 ? -1 : 1); return T(r); };
}

static void Body() {
	const auto square = [](const auto& v) { return v * v; };
	const auto negate = [](const auto& v) { return -v; };
	// Reductions: vectorized and scalar operators, same and other accumulator types, initial values that are no identity.
	Reductions<float, float>("plus", std::plus<>{}, SmallInts<float>(), Inits<float>());
	Reductions<double, double>("plus", std::plus<>{}, SmallInts<double>(), Inits<double>());
	Reductions<float, float>("plus-typed", std::plus<float>{}, SmallInts<float>(), Inits<float>());
	Reductions<std::complex<float>, std::complex<float>>("plus", std::plus<>{}, SmallInts<std::complex<float>>(), Inits<std::complex<float>>());
	Reductions<std::complex<double>, std::complex<double>>("plus", std::plus<>{}, SmallInts<std::complex<double>>(), Inits<std::complex<double>>());
	Reductions<int, int>("plus", std::plus<>{}, SmallInts<int>(), Inits<int>());
	Reductions<int64_t, int64_t>("plus", std::plus<>{}, SmallInts<int64_t>(), Inits<int64_t>());
	Reductions<float, double>("plus", std::plus<>{}, SmallInts<float>(), Inits<double>());
	Reductions<int, double>("plus", std::plus<>{}, SmallInts<int>(), Inits<double>());
	Reductions<float, float>("compensated", plus_compensated<>{}, SmallInts<float>(), Inits<float>());
	Reductions<double, double>("compensated-typed", plus_compensated<double>{}, SmallInts<double>(), Inits<double>());
	Reductions<double, double>("multiplies", std::multiplies<>{}, Powers<double>(), { 1.0, -2.0, 0.25 });
	Reductions<float, float>("multiplies", std::multiplies<>{}, Powers<float>(), { 1.0f, -2.0f });
	Reductions<std::complex<double>, std::complex<double>>("multiplies", std::multiplies<>{}, Powers<std::complex<double>>(), { std::complex<double>(1), std::complex<double>(0, 2) });
	Reductions<double, double>("max", [](const auto& a, const auto& b) { return k::math_functions::max(a, b); }, SmallInts<double>(), { -1000.0, 3.0, 100.0 });
	Reductions<float, float>("min", [](const auto& a, const auto& b) { return k::math_functions::min(a, b); }, SmallInts<float>(), { 1000.0f, -3.0f, -100.0f });
	Reductions<double, double>("max-negative", [](const auto& a, const auto& b) { return k::math_functions::max(a, b); }, [](uint64_t i) { return -10 + double(mc::Val(i, 7)); }, { -1000.0, -3.0, -9.0 });
	Reductions<float, float>("min-positive", [](const auto& a, const auto& b) { return k::math_functions::min(a, b); }, [](uint64_t i) { return 10 + float(mc::Val(i, 7)); }, { 1000.0f, 3.0f, 9.0f });
	Reductions<double, double>("max-scalar", [](double a, double b) { return std::max(a, b); }, SmallInts<double>(), { -1000.0, 3.0, 100.0 });
	Reductions<int, int>("xor", std::bit_xor<>{}, SmallInts<int>(), { 0, 0x55, -1 });
	Reductions<int, int>("or", std::bit_or<>{}, [](uint64_t i) { return 1 << (i % 31); }, { 0, 0x40 });
	Reductions<int, int>("and", std::bit_and<>{}, [](uint64_t i) { return ~(1 << (i % 31)); }, { -1, 0x7777 });
	MapReductions<float, float>("plus-square", std::plus<>{}, square, Inits<float>());
	MapReductions<double, double>("plus-square", std::plus<>{}, square, Inits<double>());
	MapReductions<std::complex<double>, std::complex<double>>("plus-square", std::plus<>{}, square, Inits<std::complex<double>>());
	MapReductions<int, int>("plus-square", std::plus<>{}, square, Inits<int>());
	MapReductions<std::complex<float>, float>("plus-norm", std::plus<>{}, [](const std::complex<float>& v) { return std::norm(v); }, Inits<float>());
	MapReductions<double, double>("max-negate", [](const auto& a, const auto& b) { return k::math_functions::max(a, b); }, negate, { -1000.0, 3.0, 100.0 });
	const auto max = [](const auto& a, const auto& b) { return k::math_functions::max(a, b); };
	const auto min = [](const auto& a, const auto& b) { return k::math_functions::min(a, b); };
	const auto below = [](const auto& v) { return -(v * v) - v / v; }; // The data have no zeros.
	const auto above = [](const auto& v) { return v * v + v / v; };
	MapReductions<double, double>("max-below", max, below, { -1000.0, -3.0, -20.0 });
	MapReductions<float, float>("min-above", min, above, { 1000.0f, 3.0f, 20.0f });
	MapReductions<float, float>("multiplies-sign", std::multiplies<>{}, [](const auto& v) { return v / k::math_functions::abs(v); }, { 1.0f, -0.25f });
	MapReductions<int, int>("and-not", std::bit_and<>{}, [](int v) { return ~(1 << (v & 15)); }, { -1, 0x7777 });
	InnerProducts<double, double, double>("max-below", max, [](const auto& a, const auto& b) { return -(a * a) - b * b; }, { -1000.0, -3.0, -60.0 });
	InnerProducts<float, float, float>("min-above", min, [](const auto& a, const auto& b) { return a * a + b * b; }, { 1000.0f, 3.0f, 60.0f });
	InnerProducts<float, float, float>("multiplies-mixed", std::multiplies<>{}, [](const auto& a, const auto& b) { return a / k::math_functions::abs(a) * (b / b); }, { 1.0f, -0.25f });
	MapReductions<float, double>("plus-square", std::plus<>{}, square, Inits<double>());
	MapReductions<float, float>("compensated-square", plus_compensated<>{}, square, Inits<float>());
	InnerProducts<float, float, float>("plus-multiplies", std::plus<>{}, std::multiplies<>{}, Inits<float>());
	InnerProducts<double, double, double>("plus-multiplies", std::plus<>{}, std::multiplies<>{}, Inits<double>());
	InnerProducts<std::complex<float>, std::complex<float>, std::complex<float>>("plus-multiplies", std::plus<>{}, std::multiplies<>{}, Inits<std::complex<float>>());
	InnerProducts<std::complex<double>, double, std::complex<double>>("plus-multiplies", std::plus<>{}, std::multiplies<>{}, Inits<std::complex<double>>());
	InnerProducts<float, double, double>("plus-multiplies", std::plus<>{}, std::multiplies<>{}, Inits<double>());
	InnerProducts<int, int, int>("plus-multiplies", std::plus<>{}, std::multiplies<>{}, Inits<int>());
	InnerProducts<float, float, float>("compensated-multiplies", plus_compensated<>{}, std::multiplies<>{}, Inits<float>());
	InnerProducts<double, double, double>("max-minus", [](const auto& a, const auto& b) { return k::math_functions::max(a, b); }, std::minus<>{}, { -1000.0, 3.0, 100.0 });
	InnerProducts<double, double, double>("plus-minus", std::plus<>{}, std::minus<>{}, Inits<double>());

	Unary<float, float>("square", square);
	Unary<double, double>("square", square);
	Unary<std::complex<float>, std::complex<float>>("negate", negate);
	Unary<std::complex<double>, std::complex<double>>("square", square);
	Unary<int, int>("negate", negate);
	Unary<int64_t, int64_t>("square", square);
	Unary<float, double>("widen", [](float v) { return double(v) * 3; });
	Unary<double, float>("narrow", [](double v) { return float(v) + 1; });
	Unary<int16_t, float>("convert", [](int16_t v) { return float(v) / 2; });
	Unary<double, double>("scaled", multiplies_scalar_left<double>{ 3.0 });
	Unary<float, float>("offset", minus_scalar_left<float>{ 3.0f });
	Binary<float, float, float>("minus", std::minus<>{});
	Binary<double, double, double>("multiplies", std::multiplies<>{});
	Binary<std::complex<float>, std::complex<float>, std::complex<float>>("multiplies", std::multiplies<>{});
	Binary<std::complex<double>, double, std::complex<double>>("minus", std::minus<>{});
	Binary<int, int, int>("minus", std::minus<>{});
	Binary<float, double, double>("minus", std::minus<>{});
	Binary<double, float, float>("minus", [](double a, float b) { return float(a - b); });
	Binary<double, double, double>("scalar", [](double a, double b) { return a * 2 - b; });

	Compensated<float>();
	Compensated<double>();
	Compensated<std::complex<float>>();

	const std::vector<std::pair<size_t, size_t>> large = { { 40, 9 }, { 9, 40 }, { 64, 64 }, { 33, 100 }, { 511, 3 }, { 513, 514 }, { 514, 513 }, { 512, 600 }, { 600, 512 } };
	Convolutions<float, float, float>(mc::Tier(11, 18), large);
	Convolutions<double, double, double>(mc::Tier(11, 18), large);
	Convolutions<std::complex<float>, std::complex<float>, std::complex<float>>(mc::Tier(7, 12), { { 40, 9 }, { 513, 514 } });
	Convolutions<std::complex<double>, double, std::complex<double>>(mc::Tier(6, 12), { { 9, 40 }, { 513, 514 } });
	Convolutions<float, double, double>(mc::Tier(6, 12), { { 40, 9 } });
	Convolutions<int, int, int>(mc::Tier(6, 12), { { 40, 9 } });
}
MC_MAIN(Body)
