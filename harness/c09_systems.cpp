// C09: zero-pole-gain, transfer function and cascaded biquad forms of a system are the same system.
#include "ref.hpp"
#include <dspbb/LTISystems/Systems.hpp>
using namespace dspbb;
using namespace ref;

const std::vector<double> REALS{ 0.5, -0.75, 0, 1, -2 };
const std::vector<std::complex<double>> PAIRS{ { 0.25, 0.5 }, { -0.5, 0.75 }, { 0, 1 } };

// All multisets of the alphabets with at most the given sizes, as lists of indices (negative: complex pair).
std::vector<std::vector<int>> RootSets(int maxReal, int maxPairs) {
	std::vector<std::vector<int>> r;
	std::function<void(std::vector<int>, int, int)> pairs = [&](std::vector<int> cur, int from, int left) {
		r.push_back(cur);
		if (left) for (int i = from; i < (int)PAIRS.size(); ++i) { auto c = cur; c.push_back(-1 - i); pairs(c, i, left - 1); }
	};
	std::function<void(std::vector<int>, int, int)> reals = [&](std::vector<int> cur, int from, int left) {
		pairs(cur, 0, maxPairs);
		if (left) for (int i = from; i < (int)REALS.size(); ++i) { auto c = cur; c.push_back(i); reals(c, i, left - 1); }
	};
	reals({}, 0, maxReal);
	return r;
}
std::vector<std::complex<double>> Roots(const std::vector<int>& set) {
	std::vector<std::complex<double>> r;
	for (int i : set) {
		if (i >= 0) r.push_back(REALS[i]);
		else { r.push_back(PAIRS[-1 - i]); r.insert(r.begin(), std::conj(PAIRS[-1 - i])); }
	}
	return r;
}
template <class T>
void Check(const std::vector<int>& zi, const std::vector<int>& pi, double gain) {
	auto z = Roots(zi), p = Roots(pi);
	std::vector<std::complex<T>> zt(z.begin(), z.end()), pt(p.begin(), p.end());
	ZeroPoleGain<T, eDiscretization::DISCRETE> zpk{ T(gain), FactoredPolynomial<T>(zt.begin(), zt.end()), FactoredPolynomial<T>(pt.begin(), pt.end()) };
	ZeroPoleGain<T, eDiscretization::CONTINUOUS> czpk{ T(gain), zpk.zeros, zpk.poles };
	const DiscreteTransferFunction<T> tf(zpk);
	const ContinuousTransferFunction<T> ctf(czpk);
	const CascadedBiquad<T> cascade(zpk);
	const size_t order = std::max(z.size(), p.size());
	mc::Eq(zpk.order(), order, "order of the zero-pole form");
	mc::Eq(tf.order(), order, "order of the transfer function");
	mc::Eq(ctf.order(), order, "order of the continuous transfer function");
	mc::Eq(cascade.order(), order, "order of the cascade");
	mc::Eq(tf.numerator.size(), z.size() + 1, "numerator size");
	mc::Eq(tf.denominator.size(), p.size() + 1, "denominator size");
	auto eval = [&](CLD x, LD& mag) {
		CLD n = gain, d = 1;
		LD mn = std::abs(LD(gain)), md = 1;
		for (auto& r : z) { n *= x - Wide(r); mn *= std::abs(x) + std::abs(Wide(r)); }
		for (auto& r : p) { d *= x - Wide(r); md *= std::abs(x) + std::abs(Wide(r)); }
		mag = mn / std::abs(d) * (1 + md / std::abs(d));
		return n / d;
	};
	for (CLD x : { CLD(0.3L, 0.2L), CLD(-1.1L, 0.4L), CLD(0, -1.5L), CLD(2.5L, 0), CLD(0.8L, -0.6L) }) {
		LD mag;
		const CLD w = eval(x, mag);
		const LD tol = 64 * Eps<T>() * mag;
		const std::complex<T> xt{ T(x.real()), T(x.imag()) };
		mc::Near(zpk(xt), w, tol, "zero-pole form");
		mc::Near(tf(xt), w, tol, "transfer function");
		mc::Near(ctf(xt), w, tol, "continuous transfer function");
		mc::Near(czpk(xt), w, tol, "continuous zero-pole form");
		mc::Near(cascade(xt), w, tol, "cascade");
		mc::Step(5);
	}
	for (LD x : { 0.3L, -1.25L, 3.0L }) {
		LD mag;
		const LD w = eval(x, mag).real();
		const LD tol = 64 * Eps<T>() * mag;
		mc::Near(zpk(T(x)), w, tol, "zero-pole form, real argument");
		mc::Near(tf(T(x)), w, tol, "transfer function, real argument");
		mc::Near(cascade(T(x)), w, tol, "cascade, real argument");
		mc::Step(3);
	}
	mc::StateOf(zi, pi, sizeof(T));
}
void Body() {
	const auto zs = RootSets(mc::Tier(3, 4), 2);
	const auto ps = RootSets(mc::Tier(3, 4), 2);
	const auto big = RootSets(5, 1);
	for (size_t i = 0; i < zs.size(); ++i)
		for (size_t j = 0; j < ps.size(); ++j)
			if (mc::Case("pair", zs[i], ps[j])) { Check<double>(zs[i], ps[j], (i + j) % 2 ? -1.5 : 0.25); if ((i + j) % 3 == 0) Check<float>(zs[i], ps[j], 2); }
	for (size_t i = 0; i < big.size(); ++i)
		for (int k = 0; k < 4; ++k) {
			const size_t j = (i * 7 + k * 31) % big.size();
			if (mc::Case("big", big[i], big[j])) Check<double>(big[i], big[j], 3);
		}
}
MC_MAIN(Body)
