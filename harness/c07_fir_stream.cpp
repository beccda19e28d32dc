// C07: filtering a stream in chunks, with any chunking and any mix of methods, equals filtering it at once.
#include "ref.hpp"
#include <dspbb/Filtering/FIR.hpp>
using namespace dspbb;
using namespace ref;
using cf = std::complex<float>;
using cd = std::complex<double>;

// A chunk of a history: its length and how it is filtered.
enum { CONV_OUT, OLA_OUT, CONV_RET, OLA_RET, OLA_CHUNK, METHODS };

template <class S, class F>
struct Stream {
	using R = decltype(std::declval<S>() * std::declval<F>());
	BasicSignal<S, TIME_DOMAIN> x, state;
	BasicSignal<F, TIME_DOMAIN> h;
	std::vector<wide_t<R>> want;
	LD tol;
	Stream(size_t total, size_t taps) : x(Ints<S>(total, total + 1, 5)), state(taps - 1), h(Ints<F>(taps, taps + 99, 5)) {
		for (auto& v : Convolve(x, h)) want.push_back(wide_t<R>(v));
		LD nx = 0, nh = 0;
		for (auto& v : x) nx += std::norm(Wide(v));
		for (auto& v : h) nh += std::norm(Wide(v));
		tol = 64 * Eps<R>() * (std::sqrt(nx * nh) + 1);
	}
	void Feed(size_t at, size_t len, int method) {
		mc::Step();
		auto in = AsConstView(x).subsignal(at, len);
		const size_t chunk = 2 * h.size() + 1;
		Guarded<R> out(len, at % 4);
		BasicSignal<R, TIME_DOMAIN> ret;
		switch (method) {
			case CONV_OUT: Filter(out.view(), in, h, state, FILTER_CONV); break;
			case OLA_OUT: Filter(out.view(), in, h, state, FILTER_OLA); break;
			case CONV_RET: ret = Filter(in, h, state, FILTER_CONV); break;
			case OLA_RET: ret = Filter(in, AsConstView(h), state, FILTER_OLA); break;
			case OLA_CHUNK: Filter(out.view(), in, h, state, FILTER_OLA, chunk); break;
		}
		if (method == CONV_RET || method == OLA_RET) {
			mc::Eq(ret.size(), len, "result length");
			for (size_t i = 0; i < len; ++i) out[i] = ret[i];
		}
		const LD t = method == CONV_OUT || method == CONV_RET ? 0 : tol;
		for (size_t i = 0; i < len; ++i) mc::Near(out[i], want[at + i], t, "streamed sample", at + i);
		out.CheckGuards();
		mc::Eq(state.size(), h.size() - 1, "state length");
		mc::StateOf(at + len, state);
	}
};

// All ways to split `total` into chunks (an optional empty chunk in every position), with a method per chunk.
template <class S, class F>
void Compositions(const char* name, size_t total, size_t taps, bool empties) {
	std::vector<size_t> len;
	std::vector<int> met;
	std::function<void(size_t)> rec = [&](size_t left) {
		if (left == 0) {
			std::vector<size_t> key;
			for (size_t i = 0; i < len.size(); ++i) { key.push_back(len[i]); key.push_back(met[i]); }
			if (!mc::Case(name, total, taps, key)) return;
			Stream<S, F> s(total, taps);
			size_t at = 0;
			for (size_t i = 0; i < len.size(); ++i) { s.Feed(at, len[i], met[i]); at += len[i]; }
			return;
		}
		for (size_t l = (empties && (len.empty() || len.back() != 0)) ? 0 : 1; l <= left; ++l)
			for (int m : { CONV_OUT, OLA_OUT }) {
				// The remaining call forms rotate over the positions so that each follows each.
				const int method = m == CONV_OUT ? (len.size() % 2 ? CONV_RET : CONV_OUT) : (len.size() % 3 == 1 ? OLA_CHUNK : len.size() % 3 == 2 ? OLA_RET : OLA_OUT);
				len.push_back(l);
				met.push_back(method);
				rec(left - l);
				len.pop_back();
				met.pop_back();
			}
	};
	rec(total);
}
// All triples of chunk lengths around a long filter's length, all pairs of methods.
template <class S, class F>
void Long(const char* name, size_t taps) {
	const std::vector<size_t> lens{ 0, 1, 2, 16, 31, 33, taps - 2, taps - 1, taps, taps + 1, 2 * taps + 3 };
	for (size_t a : lens) for (size_t b : lens) for (size_t c : lens)
		for (int m = 0; m < METHODS; ++m)
			if (mc::Case(name, taps, a, b, c, m)) {
				Stream<S, F> s(a + b + c, taps);
				s.Feed(0, a, m);
				s.Feed(a, b, (m + a) % METHODS);
				s.Feed(a + b, c, (m + b + 1) % METHODS);
			}
}
// Whole-signal forms equal the convolution.
template <class S, class F>
void Whole(const char* name) {
	using R = decltype(std::declval<S>() * std::declval<F>());
	for (size_t n : { 1, 2, 3, 5, 8, 16, 33, 40, 70 })
		for (size_t taps : { 1, 2, 3, 4, 7, 16, 32, 33, 34, 64 })
			if (mc::Case(name, n, taps)) {
				Stream<S, F> s(n, taps);
				const size_t c0 = std::min(n, taps) - 1, cn = std::max(n, taps) - std::min(n, taps) + 1, chunk = 2 * std::min(n, taps) + 2;
				auto cmp = [&](const auto& r, size_t off, size_t len, LD tol, const char* what) { mc::Step(); mc::Eq(r.size(), len, what); for (size_t i = 0; i < len; ++i) mc::Near(r[i], s.want[off + i], tol, what, i); };
				cmp(Filter(s.x, s.h, CONV_FULL, FILTER_CONV), 0, n + taps - 1, 0, "full conv");
				cmp(Filter(s.x, s.h, CONV_FULL, FILTER_OLA), 0, n + taps - 1, s.tol, "full ola");
				cmp(Filter(s.x, s.h, CONV_FULL, FILTER_OLA, chunk), 0, n + taps - 1, s.tol, "full ola chunk");
				cmp(Filter(s.x, s.h, CONV_CENTRAL, FILTER_CONV), c0, cn, 0, "central conv");
				cmp(Filter(s.x, s.h, CONV_CENTRAL, FILTER_OLA), c0, cn, s.tol, "central ola");
				cmp(Filter(s.x, s.h, CONV_CENTRAL, FILTER_OLA, chunk), c0, cn, s.tol, "central ola chunk");
				BasicSignal<R, TIME_DOMAIN> f(n + taps - 1, R(5.f)), c(cn, R(5.f));
				Filter(f, s.x, s.h, CONV_FULL, FILTER_CONV); cmp(f, 0, f.size(), 0, "full conv out");
				Filter(f, s.x, s.h, CONV_FULL, FILTER_OLA, chunk); cmp(f, 0, f.size(), s.tol, "full ola out");
				Filter(c, s.x, s.h, CONV_CENTRAL, FILTER_CONV); cmp(c, c0, cn, 0, "central conv out");
				Filter(c, s.x, s.h, CONV_CENTRAL, FILTER_OLA, chunk); cmp(c, c0, cn, s.tol, "central ola out");
				mc::StateOf(f);
			}
}
// Long filters and long blocks: every triple of far block lengths, all methods in rotation.
template <class S, class F>
void Far(const char* name, size_t taps, const std::vector<size_t>& lens) {
	for (size_t a : lens) for (size_t b : lens) for (size_t c : lens)
		for (int m = 0; m < METHODS; ++m)
			if (mc::Case(name, taps, a, b, c, m)) {
				Stream<S, F> s(a + b + c + 3, taps);
				s.Feed(0, a, m);
				s.Feed(a, b, (m + 1) % METHODS);
				s.Feed(a + b, c, (m + b + 2) % METHODS);
				s.Feed(a + b + c, 3, (m + 3) % METHODS);
			}
}
void Body() {
	Far<float, float>("far-f", 129, { 1, 128, 1024, 4097 });
	Far<float, float>("far-f", 1025, { 5, 1024, 2048 });
	Far<float, float>("far-f", 3, { 4096, 20011 });
	Far<double, double>("far-d", 257, { 255, 256, 4096 });
	Far<cf, float>("far-cf-f", 65, { 63, 4097 });
	Far<float, cf>("far-f-cf", 65, { 63, 4097 });
	for (size_t taps = 1; taps <= mc::Tier<size_t>(6, 9); ++taps) {
		Compositions<float, float>("chunks-f", mc::Tier<size_t>(6, 7), taps, false);
		Compositions<float, float>("chunks0-f", mc::Tier<size_t>(4, 5), taps, true);
		Compositions<double, double>("chunks-d", 5, taps, false);
		Compositions<cf, float>("chunks-cf-f", 5, taps, false);
		Compositions<float, cf>("chunks-f-cf", 5, taps, false);
		Compositions<cf, cf>("chunks-cf", 4, taps, false);
		Compositions<cd, double>("chunks-cd-d", 4, taps, false);
	}
	for (size_t taps : { 9, 32, 33, 34, 40, 65 }) Long<float, float>("long-f", taps);
	for (size_t taps : { 33, 47 }) Long<double, double>("long-d", taps);
	Long<cf, float>("long-cf-f", 35);
	Whole<float, float>("whole-f");
	Whole<double, double>("whole-d");
	Whole<cf, float>("whole-cf-f");
	Whole<float, cf>("whole-f-cf");
	Whole<cf, cf>("whole-cf");
}
MC_MAIN(Body)
