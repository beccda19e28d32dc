// C23: filter descriptors validate their arguments and are immutable values: every history of builder calls describes
// the filter of the last accepted value of each parameter, whatever the order, and a refused call changes nothing.
#include "ref.hpp"
#include <dspbb/Filtering/Resample.hpp>
#include <dspbb/Filtering/FIR.hpp>
#include <dspbb/Filtering/IIR.hpp>
using namespace dspbb;
using namespace ref;

using Params = std::vector<double>;
enum Refusal { OK, RANGE, ORDER, EITHER };
template <class Desc>
struct Op {
	std::function<Desc(const Desc&)> call;
	Refusal refusal;
	std::function<void(Params&)> model;
};
// Runs all histories of up to depth calls; observe reads a descriptor back, design makes the filter it describes.
template <class Desc>
struct Explorer {
	const char* name;
	std::vector<Op<Desc>> ops;
	std::function<Params(const Desc&)> observe;
	std::function<Params(const Desc&)> design;
	std::function<Desc(const Params&)> canonical;
	std::vector<std::pair<Desc, Params>> trail;
	void Run(const Desc& start, const Params& p, size_t depth) {
		std::vector<int> hist;
		Explore(start, p, depth, hist);
	}
	// The histories are split into cases by their first two calls.
	void Explore(const Desc& d, const Params& p, size_t depth, std::vector<int>& hist) {
		if (depth == 0) return;
		for (size_t i = 0; i < ops.size(); ++i) {
			hist.push_back(int(i));
			Params np = p;
			if (hist.size() == 2) {
				if (mc::Case(name, hist)) Sub(d, p, depth, hist);
			}
			else if (ops[i].refusal == OK) {
				if (hist.size() == 1) {
					if (mc::Case(name, hist)) Check(d, p, i);
					Params q = p;
					ops[i].model(q);
					Explore(ops[i].call(d), q, depth - 1, hist);
				}
			}
			else if (mc::Case(name, hist)) Check(d, p, i);
			hist.pop_back();
		}
	}
	void Sub(const Desc& d, const Params& p, size_t depth, std::vector<int>& hist) { Deep(d, p, depth, hist.back()); }
	void Deep(const Desc& d, const Params& p, size_t depth, int only = -1) {
		if (depth == 0) return;
		for (size_t i = only < 0 ? 0 : size_t(only); i < (only < 0 ? ops.size() : size_t(only) + 1); ++i) {
			Check(d, p, i);
			if (ops[i].refusal != OK) { Deep(d, p, depth - 1 > 1 ? 1 : depth - 1); continue; }
			Params q = p;
			ops[i].model(q);
			const Desc next = ops[i].call(d);
			Same(observe(next), q, "parameters after a call");
			Deep(next, q, depth - 1);
			Same(observe(d), p, "parameters of the descriptor the call was made on");
		}
	}
	void Check(const Desc& d, const Params& p, size_t i) {
		mc::Step();
		const auto& op = ops[i];
		int thrown = 0;
		Params got;
		try { got = observe(op.call(d)); }
		catch (const std::domain_error&) { thrown = RANGE; }
		catch (const std::invalid_argument&) { thrown = ORDER; }
		if (op.refusal == OK) {
			mc::Check(thrown == OK, "a valid call was refused");
			Params q = p;
			op.model(q);
			Same(got, q, "parameters");
			if (design) {
				const auto a = design(op.call(d)), b = design(canonical(q));
				Same(a, b, "designed filter, against the one described in canonical order");
			}
		}
		else {
			mc::Check(thrown != OK, "an invalid call was accepted");
			if (op.refusal != EITHER) mc::Check(thrown == op.refusal, op.refusal == RANGE ? "expected domain_error" : "expected invalid_argument");
		}
		Same(observe(d), p, "parameters of the original descriptor");
		mc::StateOf(p, int(i), std::string(name));
	}
	static void Same(const Params& a, const Params& b, const char* what) {
		mc::Eq(a.size(), b.size(), what);
		for (size_t i = 0; i < b.size(); ++i) mc::Check(a[i] == b[i] || (a[i] != a[i] && b[i] != b[i]), [&] { return std::string(what) + "[" + std::to_string(i) + "]: got " + mc::Str(a[i]) + ", expected " + mc::Str(b[i]); });
	}
};

// Parameters never given may be held in another precision.
inline void Close(const Params& a, const Params& b, const char* what) {
	mc::Eq(a.size(), b.size(), what);
	for (size_t i = 0; i < b.size(); ++i) mc::Near(a[i], b[i], 1e-5L, what, i);
}

const double NaN = std::numeric_limits<double>::quiet_NaN(), INF = std::numeric_limits<double>::infinity();
struct Arg1 { double v; Refusal r; };
const Arg1 ONE[] = { { 0.3, OK }, { 0.8, OK }, { 0, OK }, { 1, OK }, { -0.001, RANGE }, { 1.001, RANGE }, { NaN, RANGE }, { -INF, RANGE }, { INF, RANGE } };
struct Arg2 { double a, b; Refusal r; };
const Arg2 TWO[] = { { 0.2, 0.6 }, { 0.4, 0.4 }, { 0, 1 }, { 0.6, 0.2, ORDER }, { 1, 0, ORDER }, { -0.1, 0.5, RANGE }, { 0.5, 1.1, RANGE }, { NaN, 0.5, RANGE }, { 0.5, NaN, RANGE }, { 1.5, -0.5, EITHER } };
struct Arg4 { double a, b, c, d; Refusal r; };
const Arg4 FOUR[] = { { 0.1, 0.2, 0.6, 0.7 }, { 0.2, 0.3, 0.3, 0.8 }, { 0, 0.25, 0.5, 1 }, { 0.2, 0.1, 0.6, 0.7, ORDER }, { 0.1, 0.6, 0.2, 0.7, ORDER }, { 0.1, 0.2, 0.7, 0.6, ORDER }, { 0.7, 0.1, 0.2, 0.3, ORDER },
	{ -0.1, 0.2, 0.6, 0.7, RANGE }, { 0.1, NaN, 0.6, 0.7, RANGE }, { 0.1, 0.2, NaN, 0.7, RANGE }, { 0.1, 0.2, 0.6, 1.7, RANGE }, { 0.1, 0.2, 1.6, 1.7, RANGE }, { 0.1, -0.2, 0.6, 0.7, EITHER } };

template <class T>
Params Taps(const T& s) { return { s.begin(), s.end() }; }
template <class T>
Params Zpk(const DiscreteZeroPoleGain<T>& s) {
	Params r{ double(s.gain) };
	for (auto& x : s.zeros.real_roots()) r.push_back(x);
	for (auto& x : s.poles.real_roots()) r.push_back(x);
	for (auto& x : s.zeros.complex_pairs()) { r.push_back(x.real()); r.push_back(x.imag()); }
	for (auto& x : s.poles.complex_pairs()) { r.push_back(x.real()); r.push_back(x.imag()); }
	return r;
}
// A designed response away from degenerate edges only; 0, 1 and empty bands describe no IIR filter.
inline bool Usable(double lo, double hi) { return lo > 0.05 && hi < 0.95 && lo <= hi; }

// ------------------------------------------------------------------------------------ IIR
template <class Void>
void IirSplit(const char* name, const Void& start, int kind, size_t depth) { // kind: 0 Butterworth 1 pass 2 stop 3 both
	auto run = [&](auto first, Params p) {
		using D = std::decay_t<decltype(first)>;
		Explorer<D> e;
		e.name = name;
		e.observe = [kind](const D& d) {
			Params r{ double(d.cutoff) };
			if constexpr (requires { d.passbandRipple; }) r.push_back(d.passbandRipple);
			if constexpr (requires { d.stopbandRipple; }) r.push_back(d.stopbandRipple);
			return r;
		};
		for (auto a : ONE) e.ops.push_back({ [a](const D& d) { return d.Cutoff(a.v); }, a.r, [a](Params& p) { p[0] = a.v; } });
		if constexpr (requires { first.passbandRipple; })
			for (double v : { 0.05, 0.2 }) e.ops.push_back({ [v](const D& d) { return d.PassbandRipple(v); }, OK, [v](Params& p) { p[1] = v; } });
		if constexpr (requires { first.stopbandRipple; })
			for (double v : { 0.15, 0.25 }) e.ops.push_back({ [v](const D& d) { return d.StopbandRipple(v); }, OK, [v](Params& p) { p[p.size() - 1] = v; } });
		auto desc = [=](const Params& p) {
			if constexpr (requires { first.passbandRipple; first.stopbandRipple; }) return start.PassbandRipple(p[1]).StopbandRipple(p[2]).Cutoff(p[0]);
			else if constexpr (requires { first.passbandRipple; }) return start.PassbandRipple(p[1]).Cutoff(p[0]);
			else if constexpr (requires { first.stopbandRipple; }) return start.StopbandRipple(p[1]).Cutoff(p[0]);
			else return start.Cutoff(p[0]);
		};
		e.canonical = desc;
		e.design = [](const D& d) { return Usable(d.cutoff, d.cutoff) ? Zpk(DesignFilter<double>(3, d)) : Params{}; };
		e.Run(first, p, depth);
	};
	if constexpr (requires { start.PassbandRipple(0.05).StopbandRipple(0.1); }) {
		run(start.Cutoff(0.35), { 0.35, 0.1, 0.1 });
		run(start.PassbandRipple(0.03), { 0.5, 0.03, 0.1 });
		run(start.StopbandRipple(0.03), { 0.5, 0.1, 0.03 });
	}
	else if constexpr (requires { start.PassbandRipple(0.05); }) { run(start.Cutoff(0.35), { 0.35, 0.1 }); run(start.PassbandRipple(0.03), { 0.5, 0.03 }); }
	else if constexpr (requires { start.StopbandRipple(0.05); }) { run(start.Cutoff(0.35), { 0.35, 0.1 }); run(start.StopbandRipple(0.03), { 0.5, 0.03 }); }
	else run(start.Cutoff(0.35), { 0.35 });
	// The first call on the shared constant is validated as well.
	for (auto a : ONE)
		if (mc::Case("first call", name, a.v)) {
			int t = 0;
			try { (void)start.Cutoff(a.v); } catch (const std::domain_error&) { t = RANGE; } catch (const std::invalid_argument&) { t = ORDER; }
			mc::Eq(t, int(a.r), "refusal");
		}
}
template <class Void>
void IirBand(const char* name, const Void& start, size_t depth) {
	auto run = [&](auto first, Params p) {
		using D = std::decay_t<decltype(first)>;
		Explorer<D> e;
		e.name = name;
		e.observe = [](const D& d) {
			Params r{ double(d.lower), double(d.upper) };
			if constexpr (requires { d.passbandRipple; }) r.push_back(d.passbandRipple);
			if constexpr (requires { d.stopbandRipple; }) r.push_back(d.stopbandRipple);
			return r;
		};
		for (auto a : TWO) e.ops.push_back({ [a](const D& d) { return d.Band(a.a, a.b); }, a.r, [a](Params& p) { p[0] = a.a; p[1] = a.b; } });
		if constexpr (requires { first.passbandRipple; })
			for (double v : { 0.05, 0.2 }) e.ops.push_back({ [v](const D& d) { return d.PassbandRipple(v); }, OK, [v](Params& p) { p[2] = v; } });
		if constexpr (requires { first.stopbandRipple; })
			for (double v : { 0.15, 0.25 }) e.ops.push_back({ [v](const D& d) { return d.StopbandRipple(v); }, OK, [v](Params& p) { p[p.size() - 1] = v; } });
		e.canonical = [=](const Params& p) {
			if constexpr (requires { first.passbandRipple; first.stopbandRipple; }) return start.StopbandRipple(p[3]).PassbandRipple(p[2]).Band(p[0], p[1]);
			else if constexpr (requires { first.passbandRipple; }) return start.PassbandRipple(p[2]).Band(p[0], p[1]);
			else if constexpr (requires { first.stopbandRipple; }) return start.StopbandRipple(p[2]).Band(p[0], p[1]);
			else return start.Band(p[0], p[1]);
		};
		e.design = [](const D& d) { return Usable(d.lower, d.upper) && d.upper - d.lower > 0.05 ? Zpk(DesignFilter<double>(4, d)) : Params{}; };
		e.Run(first, p, depth);
	};
	if constexpr (requires { start.PassbandRipple(0.05).StopbandRipple(0.1); }) {
		run(start.Band(0.35, 0.45), { 0.35, 0.45, 0.1, 0.1 });
		run(start.PassbandRipple(0.03), { 0.25, 0.75, 0.03, 0.1 });
		run(start.StopbandRipple(0.03), { 0.25, 0.75, 0.1, 0.03 });
	}
	else if constexpr (requires { start.PassbandRipple(0.05); }) { run(start.Band(0.35, 0.45), { 0.35, 0.45, 0.1 }); run(start.PassbandRipple(0.03), { 0.25, 0.75, 0.03 }); }
	else if constexpr (requires { start.StopbandRipple(0.05); }) { run(start.Band(0.35, 0.45), { 0.35, 0.45, 0.1 }); run(start.StopbandRipple(0.03), { 0.25, 0.75, 0.03 }); }
	else run(start.Band(0.35, 0.45), { 0.35, 0.45 });
	for (auto a : TWO)
		if (mc::Case("first call", name, a.a, a.b)) {
			int t = 0;
			try { (void)start.Band(a.a, a.b); } catch (const std::domain_error&) { t = RANGE; } catch (const std::invalid_argument&) { t = ORDER; }
			if (a.r == EITHER) mc::Check(t != 0, "refusal");
			else mc::Eq(t, int(a.r), "refusal");
		}
}
// ------------------------------------------------------------------------------------ FIR
struct Win { // windows of one type, so that histories stay within one descriptor type
	int kind;
	template <class S> void operator()(S&& s) const { kind == 0 ? windows::Hamming{}(s) : kind == 1 ? windows::Blackman{}(s) : windows::Rectangular{}(s); }
};
using Double = double;
template <class Start>
void FirSplitWindowed(const char* name, const Start& start, size_t depth) {
	const auto first = start.Cutoff(0.45).Window(Win{ 0 });
	if (mc::Case("never given", name)) {
		mc::Step(2);
		mc::Eq(LD(start.Window(Win{ 1 }).cutoff), LD(0.5), "cutoff never given");
		Close(Taps(DesignFilter<double, TIME_DOMAIN>(7, start.Window(Win{ 1 }))), Taps(DesignFilter<double, TIME_DOMAIN>(7, start.Window(Win{ 1 }).Cutoff(0.5))), "design without a cutoff");
		Close(Taps(DesignFilter<double, TIME_DOMAIN>(7, start)), Taps(DesignFilter<double, TIME_DOMAIN>(7, start.Cutoff(0.5).Window(windows::hamming))), "design without parameters");
	}
	using D = std::decay_t<decltype(first)>;
	Explorer<D> e;
	e.name = name;
	e.observe = [](const D& d) { return Params{ d.cutoff, double(d.window.kind) }; };
	for (auto a : ONE) e.ops.push_back({ [a](const D& d) { return d.Cutoff(a.v); }, a.r, [a](Params& p) { p[0] = a.v; } });
	for (int w : { 0, 1, 2 }) e.ops.push_back({ [w](const D& d) { return d.Window(Win{ w }); }, OK, [w](Params& p) { p[1] = w; } });
	e.canonical = [=](const Params& p) { return start.Window(Win{ int(p[1]) }).Cutoff(p[0]); };
	e.design = [](const D& d) { return Taps(DesignFilter<double, TIME_DOMAIN>(7, d)); };
	e.Run(first, { 0.45, 0 }, depth);
	for (auto a : ONE)
		if (mc::Case("first call", name, a.v)) {
			int t = 0;
			try { (void)start.Cutoff(a.v); } catch (const std::domain_error&) { t = RANGE; } catch (const std::invalid_argument&) { t = ORDER; }
			mc::Eq(t, int(a.r), "refusal");
		}
}
template <class Start>
void FirBandWindowed(const char* name, const Start& start, size_t depth) {
	const auto first = start.Band(0.35, 0.45).Window(Win{ 0 });
	if (mc::Case("never given", name)) {
		mc::Step(2);
		const auto d = start.Window(Win{ 1 });
		mc::Eq(LD(d.lower), LD(0.25), "lower edge never given");
		mc::Eq(LD(d.upper), LD(0.75), "upper edge never given");
		Close(Taps(DesignFilter<double, TIME_DOMAIN>(7, d)), Taps(DesignFilter<double, TIME_DOMAIN>(7, d.Band(0.25, 0.75))), "design without a band");
		Close(Taps(DesignFilter<double, TIME_DOMAIN>(7, start)), Taps(DesignFilter<double, TIME_DOMAIN>(7, start.Band(0.25, 0.75).Window(windows::hamming))), "design without parameters");
	}
	using D = std::decay_t<decltype(first)>;
	Explorer<D> e;
	e.name = name;
	e.observe = [](const D& d) { return Params{ d.lower, d.upper, double(d.window.kind) }; };
	for (auto a : TWO) e.ops.push_back({ [a](const D& d) { return d.Band(a.a, a.b); }, a.r, [a](Params& p) { p[0] = a.a; p[1] = a.b; } });
	for (int w : { 0, 1, 2 }) e.ops.push_back({ [w](const D& d) { return d.Window(Win{ w }); }, OK, [w](Params& p) { p[2] = w; } });
	e.canonical = [=](const Params& p) { return start.Window(Win{ int(p[2]) }).Band(p[0], p[1]); };
	e.design = [](const D& d) { return Taps(DesignFilter<double, TIME_DOMAIN>(7, d)); };
	e.Run(first, { 0.35, 0.45, 0 }, depth);
}
template <class Start>
void FirSplitLs(const char* name, const Start& start, size_t depth) {
	auto run = [&](auto first, Params p) {
		using D = std::decay_t<decltype(first)>;
		Explorer<D> e;
		e.name = name;
		e.observe = [](const D& d) { return Params{ d.cutoffBegin, d.cutoffEnd, d.weightLow, d.weightTransition, d.weightHigh, double(d.grid) }; };
		for (auto a : TWO) e.ops.push_back({ [a](const D& d) { return d.Cutoff(a.a, a.b); }, a.r, [a](Params& p) { p[0] = a.a; p[1] = a.b; } });
		for (double w : { 2.0, 3.0 }) e.ops.push_back({ [w](const D& d) { return d.Weight(w, w / 8, 1 / w); }, OK, [w](Params& p) { p[2] = w; p[3] = w / 8; p[4] = 1 / w; } });
		for (size_t g : { 0, 20, 33 }) e.ops.push_back({ [g](const D& d) { return d.Grid(g); }, OK, [g](Params& p) { p[5] = double(g); } });
		e.canonical = [=](const Params& p) { return start.Weight(p[2], p[3], p[4]).Grid(size_t(p[5])).Cutoff(p[0], p[1]); };
		e.design = [](const D& d) { return Taps(DesignFilter<double, TIME_DOMAIN>(7, d)); };
		e.Run(first, p, depth);
	};
	run(start.Cutoff(0.35, 0.45), { 0.35, 0.45, 1, 0, 1, 0 });
	run(start.Weight(4.0, 0.5, 5.0), { 0.45, 0.55, 4, 0.5, 5, 0 });
	for (auto a : TWO)
		if (mc::Case("first call", name, a.a, a.b)) {
			int t = 0;
			try { (void)start.Cutoff(a.a, a.b); } catch (const std::domain_error&) { t = RANGE; } catch (const std::invalid_argument&) { t = ORDER; }
			if (a.r == EITHER) mc::Check(t != 0, "refusal");
			else mc::Eq(t, int(a.r), "refusal");
		}
}
template <class Start>
void FirBandLs(const char* name, const Start& start, size_t depth) {
	auto run = [&](auto first, Params p) {
		using D = std::decay_t<decltype(first)>;
		Explorer<D> e;
		e.name = name;
		e.observe = [](const D& d) { return Params{ d.lowerBegin, d.lowerEnd, d.upperBegin, d.upperEnd, d.weightLow, d.weightTransition1, d.weightMid, d.weightTransition2, d.weightHigh, double(d.grid) }; };
		for (auto a : FOUR) e.ops.push_back({ [a](const D& d) { return d.Band(a.a, a.b, a.c, a.d); }, a.r, [a](Params& p) { p[0] = a.a; p[1] = a.b; p[2] = a.c; p[3] = a.d; } });
		for (double w : { 2.0, 3.0 }) e.ops.push_back({ [w](const D& d) { return d.Weight(w, w / 8, 1 / w, w / 16, w + 1); }, OK, [w](Params& p) { p[4] = w; p[5] = w / 8; p[6] = 1 / w; p[7] = w / 16; p[8] = w + 1; } });
		for (size_t g : { 0, 20, 33 }) e.ops.push_back({ [g](const D& d) { return d.Grid(g); }, OK, [g](Params& p) { p[9] = double(g); } });
		e.canonical = [=](const Params& p) { return start.Weight(p[4], p[5], p[6], p[7], p[8]).Grid(size_t(p[9])).Band(p[0], p[1], p[2], p[3]); };
		e.design = [](const D& d) { return Taps(DesignFilter<double, TIME_DOMAIN>(7, d)); };
		e.Run(first, p, depth);
	};
	run(start.Band(0.15, 0.25, 0.35, 0.45), { 0.15, 0.25, 0.35, 0.45, 1, 0, 1, 0, 1, 0 });
	run(start.Weight(4.0, 0.5, 5.0, 0.75, 6.0), { 0.2, 0.3, 0.7, 0.8, 4, 0.5, 5, 0.75, 6, 0 });
	for (auto a : FOUR)
		if (mc::Case("first call", name, a.a, a.b, a.c, a.d)) {
			int t = 0;
			try { (void)start.Band(a.a, a.b, a.c, a.d); } catch (const std::domain_error&) { t = RANGE; } catch (const std::invalid_argument&) { t = ORDER; }
			if (a.r == EITHER) mc::Check(t != 0, "refusal");
			else mc::Eq(t, int(a.r), "refusal");
		}
}
struct Resp { double k; template <class F> F operator()(F f) const { return F(k) * f + F(0.25); } };
struct Wgt { double k; template <class F> F operator()(F f) const { return F(1) + F(k) * f; } };
void Others(size_t depth) {
	if (mc::Case("never given", "arbitrary")) { // Flat responses and even weights.
		mc::Step(6);
		auto same = [](auto a, auto b, const char* what) { Close(Taps(DesignFilter<double, TIME_DOMAIN>(9, a)), Taps(DesignFilter<double, TIME_DOMAIN>(9, b)), what); };
		const auto flat = [](auto) { return 1.0; };
		same(Fir.Arbitrary.Windowed.Window(Win{ 1 }), Fir.Arbitrary.Windowed.Window(Win{ 1 }).Response(flat), "windowed, no response");
		same(Fir.Arbitrary.Windowed.Response(Resp{ 1 }), Fir.Arbitrary.Windowed.Response(Resp{ 1 }).Window(windows::hamming), "windowed, no window");
		same(Fir.Arbitrary.LeastSquares.Response(Resp{ 1 }), Fir.Arbitrary.LeastSquares.Response(Resp{ 1 }).Weight(flat), "least squares, no weight");
		same(Fir.Arbitrary.LeastSquares.Weight(Wgt{ 1 }), Fir.Arbitrary.LeastSquares.Weight(Wgt{ 1 }).Response(flat), "least squares, no response");
		same(Fir.Arbitrary.LeastSquares.Grid(40).Response(Resp{ 1 }), Fir.Arbitrary.LeastSquares.Response(Resp{ 1 }).Weight(flat).Grid(40), "least squares, grid first");
		same(Fir.Hilbert.Windowed, Fir.Hilbert.Windowed.Window(windows::hamming), "hilbert, no window");
	}
	{
		const auto first = Fir.Hilbert.LeastSquares.TransitionWidth(0.2);
		using D = std::decay_t<decltype(first)>;
		for (bool viaWeight : { false, true }) {
			Explorer<D> e;
			e.name = viaWeight ? "ls hilbert from weight" : "ls hilbert";
			e.observe = [](const D& d) { return Params{ d.transitionWidth, d.transitionWeight, double(d.grid) }; };
			for (double v : { 0.1, 0.3 }) e.ops.push_back({ [v](const D& d) { return d.TransitionWidth(v); }, OK, [v](Params& p) { p[0] = v; } });
			for (double v : { 0.0, 0.5 }) e.ops.push_back({ [v](const D& d) { return d.TransitionWeight(v); }, OK, [v](Params& p) { p[1] = v; } });
			for (size_t v : { 0, 35, 50 }) e.ops.push_back({ [v](const D& d) { return d.Grid(v); }, OK, [v](Params& p) { p[2] = double(v); } });
			e.canonical = [](const Params& p) { return Fir.Hilbert.LeastSquares.TransitionWeight(p[1]).Grid(size_t(p[2])).TransitionWidth(p[0]); };
			e.design = [](const D& d) { return d.transitionWidth <= 0.5 ? Taps(DesignFilter<double, TIME_DOMAIN>(9, d)) : Params{}; };
			if (viaWeight) e.Run(Fir.Hilbert.LeastSquares.TransitionWeight(0.75), { 1, 0.75, 0 }, depth);
			else e.Run(first, { 0.2, 1, 0 }, depth);
		}
	}
	{
		const auto first = Fir.Arbitrary.LeastSquares.Response(Resp{ 1 }).Weight(Wgt{ 1 });
		using D = std::decay_t<decltype(first)>;
		Explorer<D> e;
		e.name = "ls arbitrary";
		e.observe = [](const D& d) { return Params{ d.responseFunc.k, d.weightFunc.k, double(d.grid) }; };
		for (double v : { 1., 2. }) e.ops.push_back({ [v](const D& d) { return d.Response(Resp{ v }); }, OK, [v](Params& p) { p[0] = v; } });
		for (double v : { 1., 3. }) e.ops.push_back({ [v](const D& d) { return d.Weight(Wgt{ v }); }, OK, [v](Params& p) { p[1] = v; } });
		for (size_t v : { 0, 35, 50 }) e.ops.push_back({ [v](const D& d) { return d.Grid(v); }, OK, [v](Params& p) { p[2] = double(v); } });
		e.canonical = [](const Params& p) { return Fir.Arbitrary.LeastSquares.Grid(size_t(p[2])).Weight(Wgt{ p[1] }).Response(Resp{ p[0] }); };
		e.design = [](const D& d) { return Taps(DesignFilter<double, TIME_DOMAIN>(9, d)); };
		e.Run(first, { 1, 1, 0 }, depth);
	}
	{
		const auto first = Fir.Arbitrary.Windowed.Response(Resp{ 1 }).Window(Win{ 0 });
		using D = std::decay_t<decltype(first)>;
		Explorer<D> e;
		e.name = "windowed arbitrary";
		e.observe = [](const D& d) { return Params{ d.responseFunc.k, double(d.window.kind) }; };
		for (double v : { 1., 2. }) e.ops.push_back({ [v](const D& d) { return d.Response(Resp{ v }); }, OK, [v](Params& p) { p[0] = v; } });
		for (int v : { 0, 1, 2 }) e.ops.push_back({ [v](const D& d) { return d.Window(Win{ v }); }, OK, [v](Params& p) { p[1] = v; } });
		e.canonical = [](const Params& p) { return Fir.Arbitrary.Windowed.Window(Win{ int(p[1]) }).Response(Resp{ p[0] }); };
		e.design = [](const D& d) { return Taps(DesignFilter<double, TIME_DOMAIN>(9, d)); };
		e.Run(first, { 1, 0 }, depth);
	}
	// The parameter type follows the last frequency given, and windows may be replaced by signals.
	if (mc::Case("types")) {
		static_assert(std::is_same_v<decltype(Fir.Lowpass.Windowed.Cutoff(0.25f).Cutoff(0.5).cutoff), double>);
		static_assert(std::is_same_v<decltype(Iir.Bandstop.Butterworth.Band(0.25f, 0.5f).Band(0.25, 0.5).upper), double>);
		BasicSignal<double, TIME_DOMAIN> w(7, 1.0);
		w[2] = 3;
		const auto d = Fir.Highpass.Windowed.Window(w).Cutoff(0.3);
		w[2] = 9;
		mc::Eq(d.window[2], 3.0, "the descriptor keeps its own window");
		const auto a = DesignFilter<double, TIME_DOMAIN>(7, d);
		w[2] = 3;
		const auto b = DesignFilter<double, TIME_DOMAIN>(7, Fir.Highpass.Windowed.Cutoff(0.3).Window(w));
		Explorer<int>::Same(Taps(a), Taps(b), "windowed by a signal");
	}
}
void Body() {
	const size_t depth = mc::Tier<size_t>(3, 4);
	IirSplit("iir lp butterworth", Iir.Lowpass.Butterworth, 0, depth);
	IirSplit("iir hp butterworth", Iir.Highpass.Butterworth, 0, depth);
	IirSplit("iir lp chebyshev1", Iir.Lowpass.Chebyshev1, 1, depth);
	IirSplit("iir hp chebyshev1", Iir.Highpass.Chebyshev1, 1, depth);
	IirSplit("iir lp chebyshev2", Iir.Lowpass.Chebyshev2, 2, depth);
	IirSplit("iir hp chebyshev2", Iir.Highpass.Chebyshev2, 2, depth);
	IirSplit("iir lp elliptic", Iir.Lowpass.Elliptic, 3, depth);
	IirSplit("iir hp elliptic", Iir.Highpass.Elliptic, 3, depth);
	IirBand("iir bp butterworth", Iir.Bandpass.Butterworth, depth);
	IirBand("iir bs butterworth", Iir.Bandstop.Butterworth, depth);
	IirBand("iir bp chebyshev1", Iir.Bandpass.Chebyshev1, depth);
	IirBand("iir bs chebyshev1", Iir.Bandstop.Chebyshev1, depth);
	IirBand("iir bp chebyshev2", Iir.Bandpass.Chebyshev2, depth);
	IirBand("iir bs chebyshev2", Iir.Bandstop.Chebyshev2, depth);
	IirBand("iir bp elliptic", Iir.Bandpass.Elliptic, depth);
	IirBand("iir bs elliptic", Iir.Bandstop.Elliptic, depth);
	FirSplitWindowed("fir lp windowed", Fir.Lowpass.Windowed, depth);
	FirSplitWindowed("fir hp windowed", Fir.Highpass.Windowed, depth);
	FirBandWindowed("fir bp windowed", Fir.Bandpass.Windowed, depth);
	FirBandWindowed("fir bs windowed", Fir.Bandstop.Windowed, depth);
	FirSplitLs("fir lp ls", Fir.Lowpass.LeastSquares, depth);
	FirSplitLs("fir hp ls", Fir.Highpass.LeastSquares, depth);
	FirBandLs("fir bp ls", Fir.Bandpass.LeastSquares, depth);
	FirBandLs("fir bs ls", Fir.Bandstop.LeastSquares, depth);
	Others(depth);
}
MC_MAIN(Body)
