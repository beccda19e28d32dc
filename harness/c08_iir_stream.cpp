// C08: every feeding history of every IIR realization equals the difference equation.
#include "ref.hpp"
#include <optional>
#include <dspbb/Filtering/IIR.hpp>
using namespace dspbb;
using namespace ref;

using Roots = std::vector<CLD>; // real roots, and one of each conjugate pair (im > 0)
std::vector<LD> Expand(const Roots& roots) { // ascending powers
	std::vector<CLD> p{ 1 };
	auto mul = [&](CLD r) { std::vector<CLD> q(p.size() + 1, 0); for (size_t i = 0; i < p.size(); ++i) { q[i + 1] += p[i]; q[i] -= r * p[i]; } p = q; };
	for (auto r : roots) { mul(r); if (r.imag() != 0) mul(std::conj(r)); }
	std::vector<LD> r;
	for (auto& c : p) r.push_back(c.real());
	return r;
}
struct Sys { std::vector<LD> num, den; };

// a[top] y[n] = sum b[top-k] x[n-k] - sum a[top-k] y[n-k]
template <class W>
struct Difference {
	Sys s;
	std::vector<W> x, y;
	W Feed(W in) {
		x.push_back(in);
		W acc(0);
		for (size_t k = 0; k < s.num.size() && k < x.size(); ++k) acc += s.num[s.num.size() - 1 - k] * x[x.size() - 1 - k];
		for (size_t k = 1; k < s.den.size() && k <= y.size(); ++k) acc -= s.den[s.den.size() - 1 - k] * y[y.size() - k];
		acc /= s.den.back();
		y.push_back(acc);
		return acc;
	}
	void Reset() { x.clear(); y.clear(); }
};

// Root sets well inside the unit circle; includes zero, repeated and mixed-sign roots.
const std::vector<Roots> POLES = {
	{}, { 0.5L }, { -0.6L }, { 0 }, { 0.5L, -0.5L }, { 0.4L, 0.4L }, { CLD(0.3L, 0.6L) }, { -0.25L, 0.5L, 0.7L }, { 0.5L, CLD(-0.4L, 0.5L) }, { CLD(0.2L, 0.7L), CLD(-0.5L, 0.25L) },
	{ -0.7L, -0.2L, 0.3L, 0.6L }, { CLD(0, 0.6L), 0.25L, -0.25L }, { 0.1L, 0.2L, CLD(0.6L, 0.3L), -0.3L }, { 0.1L, 0.2L, -0.6L, CLD(0.6L, 0.3L), CLD(-0.3L, 0.5L) }, { CLD(0.5L, 0.5L), CLD(0.1L, 0.2L), CLD(-0.5L, 0.1L) }
};
const std::vector<Roots> ZEROS = {
	{}, { -1 }, { 1 }, { 2 }, { 1, -1 }, { -1, -1 }, { CLD(0, 1) }, { 0.5L, 0.25L, -2 }, { -1, CLD(0.6L, 0.8L) }, { -1, -1, -1, -1 }, { CLD(0.8L, 0.6L), CLD(-0.8L, 0.6L) }, { 3, -0.5L, 0.5L, 1, CLD(0.2L, 1.1L) }, { 0, 1, 0, CLD(1, 1) }
};

template <class T>
FactoredPolynomial<T> Factored(const Roots& r) {
	std::vector<std::complex<T>> v;
	for (auto& x : r) { v.push_back({ T(x.real()), T(x.imag()) }); if (x.imag() != 0) v.push_back({ T(x.real()), T(-x.imag()) }); }
	return FactoredPolynomial<T>(v.begin(), v.end());
}

enum { ONE, RANGE1, RANGE2, RANGE5, FILTER_RET3, FILTER_OUT3, RESET, EMPTY, FORK, RESTORE, EVENTS };
template <class Form, class System, class T>
struct Run {
	Form form;
	const System& system;
	Difference<wide_t<T>> oracle;
	LD eps;
	size_t fed = 0;
	std::optional<Form> saved; // A copied state, which must not follow the original and can be continued from.
	Difference<wide_t<T>> savedOracle;
	void Event(int e) {
		mc::Step();
		if (e == FORK) { saved.emplace(form); savedOracle = oracle; return; }
		if (e == RESTORE) {
			if (!saved) return;
			std::swap(form, *saved);
			std::swap(oracle, savedOracle);
			return;
		}
		const size_t n = e == ONE || e == RANGE1 ? 1 : e == RANGE2 ? 2 : e == RANGE5 ? 5 : e == RESET || e == EMPTY ? 0 : 3;
		BasicSignal<T, TIME_DOMAIN> in(n);
		for (auto& v : in) v = mc::ValAs<T>(fed++ + 31, 5);
		Guarded<T> out(n, fed % 3);
		switch (e) {
			case ONE: out[0] = form.feed(in[0], system); break;
			case RANGE1: case RANGE2: case RANGE5: case EMPTY: form.feed(in.begin(), in.end(), out.data(), system); break;
			case FILTER_RET3: { auto r = Filter(in, system, form); mc::Eq(r.size(), n, "result length"); for (size_t i = 0; i < n; ++i) out[i] = r[i]; break; }
			case FILTER_OUT3: { Filter(out.view(), in, system, form); break; }
			case RESET: form.reset(); oracle.Reset(); break;
		}
		LD scale = 1;
		for (size_t i = 0; i < n; ++i) {
			const auto w = oracle.Feed(Wide(in[i]));
			for (auto& c : oracle.s.num) scale = std::max(scale, std::abs(c / oracle.s.den.back()));
			mc::Near(out[i], w, 4096 * eps * (std::abs(w) + 40 * scale), "output", oracle.y.size() - 1);
		}
		out.CheckGuards();
		mc::StateOf(oracle.y);
	}
};

template <class T, class ST, class Form, class System>
void Histories(const char* name, const char* form, size_t p, size_t z, size_t extra, const Sys& ref, const System& system, size_t order, int depth) {
	// Coefficients given exactly are only rounded in the arithmetic; roots are rounded to the system's own type.
	const LD eps = name[0] == 'z' ? std::max(Eps<T>(), Eps<ST>()) : Eps<T>();
	std::vector<int> h;
	std::function<void()> rec = [&] {
		if ((int)h.size() == depth) {
			if (!mc::Case(name, form, TypeName<T>(), p, z, extra, h)) return;
			Run<Form, System, T> r{ Form(order + extra), system, { ref, {}, {} }, eps };
			mc::Check(r.form.order() >= order + extra, "state order is less than requested");
			if constexpr (!std::is_same_v<Form, CascadedForm<T>>) {
				mc::Eq(r.form.order(), order + extra, "order of the state");
				Form f;
				mc::Eq(f.order(), size_t(0), "order of the state by default");
				for (size_t o : { order + 2, order, order + 1 }) {
					f.order(o);
					mc::Eq(f.order(), o, "order of the state when set");
				}
			}
			for (int e : h) r.Event(e);
			r.Event(RANGE5);
			if (r.saved) {
				r.Event(RESTORE);
				r.Event(RANGE2);
				r.form = *r.saved;
				r.oracle = r.savedOracle;
				r.Event(RANGE2);
			}
			// A state given its order after construction behaves the same.
			Run<Form, System, T> q{ Form(), system, { ref, {}, {} }, eps };
			q.form.order(order + extra);
			q.Event(FILTER_RET3);
			q.Event(ONE);
			return;
		}
		for (int e = 0; e < EVENTS; ++e) { h.push_back(e); rec(); h.pop_back(); }
	};
	rec();
}

template <class T, class ST>
void Systems(int depth, bool all) {
	for (size_t p = 0; p < POLES.size(); ++p)
		for (size_t z = 0; z < ZEROS.size(); ++z) {
			if (!all && (p + z) % 3) continue;
			// Direct forms: coefficients straight into the transfer function, with a leading denominator coefficient.
			for (int scaled = 0; scaled < 2; ++scaled) {
				Sys s{ Expand(ZEROS[z]), Expand(POLES[p]) };
				for (auto& c : s.num) c *= 0.5L;
				if (scaled) for (auto& c : s.den) c *= -4;
				std::vector<ST> num(s.num.begin(), s.num.end()), den(s.den.begin(), s.den.end());
				Sys rounded{ { num.begin(), num.end() }, { den.begin(), den.end() } };
				DiscreteTransferFunction<ST> tf{ Polynomial<ST>(num.begin(), num.end()), Polynomial<ST>(den.begin(), den.end()) };
				const size_t order = std::max(num.size(), den.size()) - 1;
				mc::Check(tf.order() == order, "order of the transfer function");
				for (size_t extra = 0; extra <= (scaled ? 0 : 2); ++extra) {
					const int d = extra == 0 && !scaled ? depth : depth - 1;
					Histories<T, ST, DirectFormI<T>>(scaled ? "scaled" : "tf", "I", p, z, extra, rounded, tf, order, d);
					Histories<T, ST, DirectFormII<T>>(scaled ? "scaled" : "tf", "II", p, z, extra, rounded, tf, order, d);
				}
			}
			{
				DiscreteZeroPoleGain<ST> zpk;
				zpk.gain = ST(0.75);
				zpk.zeros = Factored<ST>(ZEROS[z]);
				zpk.poles = Factored<ST>(POLES[p]);
				Sys s{ Expand(ZEROS[z]), Expand(POLES[p]) };
				for (auto& c : s.num) c *= 0.75L;
				const CascadedBiquad<ST> cascade(zpk);
				const DiscreteTransferFunction<ST> tf(zpk);
				const size_t order = zpk.order();
				for (size_t extra = 0; extra <= 2; ++extra) {
					const int d = extra == 0 ? depth : depth - 1;
					Histories<T, ST, CascadedForm<T>>("zpk", "C", p, z, extra, s, cascade, order, d);
				}
				Histories<T, ST, DirectFormI<T>>("zpk", "I", p, z, 0, s, tf, order, depth - 1);
				Histories<T, ST, DirectFormII<T>>("zpk", "II", p, z, 0, s, tf, order, depth - 1);
			}
		}
}
// Long streams in long blocks, and systems of high order.
template <class T>
void Far() {
	std::vector<std::pair<Roots, Roots>> systems{ { POLES[8], ZEROS[8] }, { POLES[14], ZEROS[11] } };
	Roots p, z, q;
	for (int i = 0; i < 10; ++i) { p.push_back(std::polar(0.55L, 0.25L + 0.27L * i)); z.push_back(std::polar(0.9L, 0.1L + 0.3L * i)); }
	systems.push_back({ p, z });
	systems.push_back({ p, {} });
	p.push_back(0.3L);
	z.push_back(-1);
	systems.push_back({ p, { -1, CLD(0, 1) } });
	systems.push_back({ { 0.5L }, z });
	for (size_t s = 0; s < systems.size(); ++s)
		for (size_t block : { 1, 7, 64, 1023, 4096, 20000 })
			for (int form = 0; form < 3; ++form) {
				if (!mc::Case("far-stream", TypeName<T>(), s, block, form)) continue;
				DiscreteZeroPoleGain<T> zpk;
				zpk.gain = T(0.75);
				zpk.zeros = Factored<T>(systems[s].second);
				zpk.poles = Factored<T>(systems[s].first);
				const DiscreteTransferFunction<T> tf(zpk);
				const CascadedBiquad<T> cascade(zpk);
				Sys ref{ Expand(systems[s].second), Expand(systems[s].first) };
				for (auto& c : ref.num) c *= 0.75L;
				Difference<LD> oracle{ ref, {}, {} };
				const size_t total = std::max<size_t>(3000, block + 100);
				auto x = Ints<T>(total, s + 5, 5);
				DirectFormI<T> d1(zpk.order());
				DirectFormII<T> d2(zpk.order());
				CascadedForm<T> c(zpk.order());
				LD size = 0; // the sum of the numerator's coefficients bounds the intermediate values
				for (auto& v : ref.num) size += std::abs(v);
				for (size_t at = 0; at < total; at += block) {
					mc::Step();
					const size_t n = std::min(block, total - at);
					auto in = AsConstView(x).subsignal(at, n);
					BasicSignal<T, TIME_DOMAIN> out(n);
					if (form == 0) Filter(out, in, tf, d1);
					else if (form == 1) out = Filter(in, tf, d2);
					else Filter(out, in, cascade, c);
					for (size_t i = 0; i < n; ++i) {
						const LD w = oracle.Feed(Wide(in[i]));
						mc::Near(out[i], w, 1e5L * Eps<T>() * (std::abs(w) + 10 * size), "long stream", at + i);
					}
				}
				mc::StateOf(s, block, form);
			}
}
void Body() {
	Far<double>();
	Far<float>();
	Systems<double, double>(mc::Tier(3, 4), mc::Tier(false, true));
	Systems<double, double>(2, true);
	Systems<float, float>(mc::Tier(2, 3), true);
	Systems<std::complex<double>, double>(2, mc::Tier(false, true));
	Systems<double, float>(1, true);
	Systems<long double, long double>(2, true);
}
MC_MAIN(Body)
