// C14: a polyphase decomposition holds exactly the filter's taps, and owns them through every copy and move history.
#include "ref.hpp"
#include <dspbb/Filtering/Polyphase.hpp>
#include <dspbb/Filtering/Resample.hpp>
using namespace dspbb;
using namespace ref;

// The model: phase p holds taps p, p+N, p+2N ... in reverse order, scaled by N.
template <class T>
struct Model {
	size_t original = 0, n = 1;
	std::vector<std::vector<wide_t<T>>> phases{ {} };
	bool known = true; // a moved-from object is only good for assignment
	template <class V>
	static Model Of(const V& filter, size_t n) {
		Model m;
		m.original = filter.size();
		m.n = n;
		m.phases.assign(n, {});
		for (size_t i = 0; i < filter.size(); ++i) m.phases[i % n].push_back(Wide(filter[i]) * LD(n));
		for (auto& p : m.phases) std::reverse(p.begin(), p.end());
		return m;
	}
};
template <class T, class P>
void Compare(P& p, const Model<T>& m, LD tol = 0) {
	mc::Step();
	mc::Eq(p.num_phases(), m.n, "number of phases");
	mc::Eq(p.size_original(), m.original, "original size");
	mc::Eq(p.size_per_phase(), (m.original + m.n - 1) / m.n, "size per phase");
	if (p.num_phases() != m.n || p.size_original() != m.original) return;
	for (size_t i = 0; i < m.n; ++i) {
		auto phase = p[i];
		auto cphase = std::as_const(p)[i];
		mc::Eq(phase.size(), m.phases[i].size(), "phase size", i);
		mc::Eq(cphase.size(), m.phases[i].size(), "const phase size", i);
		for (size_t j = 0; j < std::min(phase.size(), m.phases[i].size()); ++j) {
			mc::Near(phase[j], m.phases[i][j], tol, "phase tap", j);
			mc::Near(cphase[j], m.phases[i][j], tol, "const phase tap", j);
		}
		mc::StateOf(phase);
	}
}

template <class T>
static void ShapeOf(size_t size, size_t n) {
	if (!mc::Case("polyphase-shape", TypeName<T>(), size, n)) return;
	auto filter = Ints<T>(size, size * 31 + n, 9);
	const auto m = Model<T>::Of(filter, n);
	auto p = PolyphaseDecompose(filter, n);
	Compare(p, m);
	auto p2 = PolyphaseDecompose(AsView(filter), n);
	Compare(p2, m);
	Guarded<T> buf(size, size % 3);
	auto v = PolyphaseDecompose(buf.view(), AsConstView(filter), n);
	buf.CheckGuards();
	Compare(v, m);
	{ // Into a buffer of another element type, mutable view and temporary alike.
		using O = std::conditional_t<is_cplx<T>::value, std::conditional_t<std::is_same_v<T, std::complex<float>>, std::complex<double>, std::complex<float>>, std::conditional_t<std::is_same_v<T, float>, double, float>>;
		Model<O> mo;
		mo.original = m.original, mo.n = m.n;
		mo.phases.assign(n, {});
		for (size_t k = 0; k < n; ++k) for (auto& t : m.phases[k]) mo.phases[k].push_back(t);
		Guarded<O> other(size, size % 3);
		auto w = other.view();
		auto vo = PolyphaseDecompose(w, filter, n);
		other.CheckGuards();
		Compare(vo, mo);
	}
	// A view over given memory partitions it completely, without overlap.
	BasicSignal<T, TIME_DOMAIN> mem(size);
	for (size_t i = 0; i < size; ++i) mem[i] = T(real_of_t<T>(i));
	PolyphaseView<T, TIME_DOMAIN> pv{ AsView(mem), n };
	std::vector<int> hits(size, 0);
	for (size_t k = 0; k < n; ++k)
		for (auto& t : pv[k]) {
			mc::Check(&t >= mem.data() && &t < mem.data() + size, "phase outside the memory");
			++hits[&t - mem.data()];
		}
	for (size_t i = 0; i < size; ++i) mc::Eq(hits[i], 1, "phases covering coefficient", i);
	if (size >= n) { // Normalization is defined when every phase has a nonzero sum.
		for (auto& t : filter) t = T(real_of_t<T>(std::floor(std::abs(Wide(t))) + 1));
		auto q = PolyphaseDecompose(filter, n);
		auto mq = Model<T>::Of(filter, n);
		for (auto& ph : mq.phases) {
			wide_t<T> s(0);
			for (auto& t : ph) s += t;
			for (auto& t : ph) t /= s;
		}
		auto nq = PolyphaseNormalized(q);
		Compare(nq, mq, 16 * Eps<T>());
		auto untouched = Model<T>::Of(filter, n);
		Compare(q, untouched);
		PolyphaseNormalize(q);
		Compare(q, mq, 16 * Eps<T>());
	}
}
template <class T>
static void Shapes(size_t maxSize, size_t maxPhases) {
	for (size_t size = 1; size <= maxSize; ++size)
		for (size_t n = 1; n <= maxPhases; ++n) ShapeOf<T>(size, n);
}

// All histories of two owning filters.
template <class T>
static void Histories(int depth) {
	using P = PolyphaseFilter<T, TIME_DOMAIN>;
	const std::vector<std::pair<size_t, size_t>> shapes = { { 0, 1 }, { 5, 2 }, { 6, 2 }, { 7, 3 }, { 2, 4 } };
	const int opsPer = int(shapes.size()) + 6;
	std::vector<int> ops;
	auto run = [&] {
		P obj[2];
		Model<T> mod[2];
		int writes = 0;
		for (int op : ops) {
			const int a = op / opsPer, b = 1 - a, o = op % opsPer;
			mc::Step();
			if (o < int(shapes.size())) {
				auto f = Ints<T>(shapes[o].first, o + 10 * a, 9);
				if (shapes[o].first == 0) obj[a] = P{};
				else obj[a] = PolyphaseDecompose(f, shapes[o].second);
				mod[a] = Model<T>::Of(f, shapes[o].second);
				continue;
			}
			switch (o - int(shapes.size())) {
				case 0: if (!mod[b].known) break; obj[a] = obj[b]; mod[a] = mod[b]; break;
				case 1: if (!mod[b].known) break; obj[a] = std::move(obj[b]); mod[a] = mod[b]; mod[b].known = false; break;
				case 2: { if (!mod[b].known) break; P c(obj[b]); Compare(c, mod[b]); obj[a] = std::move(c); mod[a] = mod[b]; break; }
				case 3: { if (!mod[b].known) break; P c(std::move(obj[b])); Compare(c, mod[b]); obj[a] = c; mod[a] = mod[b]; mod[b].known = false; break; }
				case 4: // Writing through a phase, which the copies must not see.
					if (!mod[a].known) break;
					for (size_t k = 0; k < mod[a].n; ++k)
						if (!mod[a].phases[k].empty()) {
							const int w = ++writes;
							obj[a][k][mod[a].phases[k].size() - 1] = T(real_of_t<T>(100 + w));
							mod[a].phases[k].back() = wide_t<T>(LD(100 + w));
							break;
						}
					break;
				case 5: if (!mod[0].known || !mod[1].known) break; std::swap(obj[0], obj[1]); std::swap(mod[0], mod[1]); break;
			}
			for (int i = 0; i < 2; ++i)
				if (mod[i].known) {
					Compare(obj[i], mod[i]);
					// The owned buffer is what the phases show.
					mc::Eq(obj[i].Buffer().size(), mod[i].original, "buffer size");
					if (mod[i].original) mc::Check(static_cast<const void*>(obj[i].Buffer().data()) == static_cast<const void*>(obj[i][0].data()), "phases show another object's buffer");
				}
		}
	};
	std::function<void()> rec = [&] {
		if (int(ops.size()) == depth) {
			if (mc::Case("polyphase-history", TypeName<T>(), ops)) run();
			return;
		}
		for (int op = 0; op < 2 * opsPer; ++op) {
			ops.push_back(op);
			rec();
			ops.pop_back();
		}
	};
	rec();
}

static void Body() {
	Shapes<double>(mc::Tier(40, 120), mc::Tier(12, 40));
	Shapes<float>(24, 8);
	Shapes<long double>(16, 7);
	Shapes<std::complex<double>>(mc::Tier(24, 60), mc::Tier(8, 20));
	Shapes<std::complex<float>>(15, 6);
	
	for (size_t size : { 257, 1000, 4097, 70001 })
		for (size_t n : { 1, 2, 7, 64, 127, 255, 256, 257, 1000, 4096, 65537 }) {
			ShapeOf<double>(size, n);
			ShapeOf<float>(size, n);
			if (size < 5000) ShapeOf<std::complex<float>>(size, n);
		}
	Histories<double>(mc::Tier(4, 4));
	Histories<float>(3);
	if (mc::Thorough()) Histories<float>(5);
}
MC_MAIN(Body)
