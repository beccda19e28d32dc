// Shared pieces of the reference models: guarded output buffers and long-double arithmetic.
#pragma once
#include "mc.hpp"
#include <dspbb/Primitives/Signal.hpp>
#include <dspbb/Primitives/SignalView.hpp>

namespace ref {
using LD = long double;
using CLD = std::complex<long double>;

template <class T> struct is_cplx : std::false_type {};
template <class T> struct is_cplx<std::complex<T>> : std::true_type {};
template <class T> struct real_of { using type = T; };
template <class T> struct real_of<std::complex<T>> { using type = T; };
template <class T> using real_of_t = typename real_of<T>::type;
// The exact counterpart a value of type T is computed in.
template <class T> using wide_t = std::conditional_t<is_cplx<T>::value, CLD, LD>;
template <class T> wide_t<T> Wide(const T& v) {
	if constexpr (is_cplx<T>::value) return { LD(v.real()), LD(v.imag()) };
	else return LD(v);
}
template <class T> constexpr LD Eps() { return LD(std::numeric_limits<real_of_t<T>>::epsilon()); }

// A buffer of n values with guard zones on both sides and a chosen misalignment (in elements).
template <class T>
struct Guarded {
	static constexpr size_t G = 24;
	size_t n, off;
	std::vector<T> mem;
	T sentinel;
	Guarded(size_t n, size_t misalign = 0, T fill = T(real_of_t<T>(-777))) : n(n), off(G + misalign), mem(n + 2 * G + misalign, T(real_of_t<T>(12321))), sentinel(T(real_of_t<T>(12321))) {
		for (size_t i = 0; i < n; ++i) mem[off + i] = fill;
	}
	T* data() { return mem.data() + off; }
	const T* data() const { return mem.data() + off; }
	T& operator[](size_t i) { return mem[off + i]; }
	const T& operator[](size_t i) const { return mem[off + i]; }
	template <dspbb::eSignalDomain D = dspbb::TIME_DOMAIN>
	auto view() { return dspbb::AsView<D>(data(), data() + n); }
	template <dspbb::eSignalDomain D = dspbb::TIME_DOMAIN>
	auto cview() const { return dspbb::AsConstView<D>(data(), data() + n); }
	void CheckGuards() const {
		for (size_t i = 0; i < off; ++i) if (!(mem[i] == sentinel)) { mc::Fail("wrote before the output at -" + std::to_string(off - i)); return; }
		for (size_t i = off + n; i < mem.size(); ++i) if (!(mem[i] == sentinel)) { mc::Fail("wrote past the output at +" + std::to_string(i - off - n)); return; }
	}
};

// Signal lengths that cross every block size the kernels use, plus all small ones.
inline std::vector<size_t> Lengths(size_t allUpTo, std::initializer_list<size_t> more = { 63, 64, 65, 127, 128, 129, 130, 255, 256, 257, 511, 512, 513, 1000 }) {
	std::vector<size_t> r;
	for (size_t i = 0; i <= allUpTo; ++i) r.push_back(i);
	for (size_t m : more) if (m > allUpTo) r.push_back(m);
	return r;
}

// Full linear convolution in wide arithmetic.
template <class A, class B>
auto Convolve(const A& a, const B& b) {
	using T = decltype(Wide(a[0]) * Wide(b[0]));
	std::vector<T> r;
	if (a.size() == 0 || b.size() == 0) return r;
	r.assign(a.size() + b.size() - 1, T(0));
	for (size_t i = 0; i < a.size(); ++i)
		for (size_t j = 0; j < b.size(); ++j) r[i + j] += Wide(a[i]) * Wide(b[j]);
	return r;
}

template <class T, dspbb::eSignalDomain D = dspbb::TIME_DOMAIN>
dspbb::BasicSignal<T, D> Ints(size_t n, uint64_t seed, int range = 7) {
	dspbb::BasicSignal<T, D> s(n);
	for (size_t i = 0; i < n; ++i) s[i] = mc::ValAs<T>(seed * 4099 + i, range);
	return s;
}
template <class T> const char* TypeName() {
	if constexpr (std::is_same_v<T, float>) return "f";
	else if constexpr (std::is_same_v<T, double>) return "d";
	else if constexpr (std::is_same_v<T, std::complex<float>>) return "cf";
	else if constexpr (std::is_same_v<T, std::complex<double>>) return "cd";
	else if constexpr (std::is_same_v<T, int>) return "i";
	else if constexpr (std::is_same_v<T, long double>) return "ld";
	else return "?";
}
template <class... T> struct Types {};
template <class F, class... T> void ForTypes(Types<T...>, F&& f) { (f(T{}), ...); }
} // namespace ref
