// Call histories: the result of a call depends on its arguments alone.
// Every history is run in a fresh process of its own: a few earlier calls, then the call whose result is compared with
// what it returns in a fresh process without any earlier calls. The alphabets put arguments next to each other that a
// shortcut could take for the same: values that round to the same float or the same few digits, sizes that agree in
// their low bits, pairs with the same sum, buffers whose contents changed in place.
#pragma once
#include "ref.hpp"
#include <map>
#include <memory>
#include <signal.h>
#include <sys/resource.h>
#include <sys/wait.h>

namespace hist {
using ref::LD;
using Values = std::vector<LD>;
struct Call { std::string family, name; std::function<Values()> f; int bits; };
using Alphabet = std::vector<Call>;

// The values of anything: numbers, complex numbers, containers.
inline void Put(Values& r, const Values& v) { r.insert(r.end(), v.begin(), v.end()); }
template <class T>
void Put(Values& r, const T& v) {
	if constexpr (std::is_arithmetic_v<T>) r.push_back(LD(v));
	else if constexpr (requires { v.real(); v.imag(); }) { r.push_back(LD(v.real())); r.push_back(LD(v.imag())); }
	else { r.push_back(LD(v.size())); for (const auto& e : v) Put(r, e); }
}
template <class... T> Values Of(const T&... v) { Values r; (Put(r, v), ...); return r; }

inline std::string Tag(LD v) { char b[48]; snprintf(b, sizeof b, "%.12Lg", v); return b; }
inline std::string Tag(size_t v) { return std::to_string(v); }
inline std::string Tag(int v) { return std::to_string(v); }
inline std::string Tag(double v) { return Tag(LD(v)); }
inline std::string Tag(float v) { return Tag(LD(v)); }
inline std::string Tag(const char* v) { return v; }
inline std::string Tag(const std::string& v) { return v; }
template <class... T> std::string Name(const T&... v) { std::string r; ((r += (r.empty() ? "" : ",") + Tag(v)), ...); return r; }

// p and values a coarse comparison would take for p.
template <class T>
std::vector<T> Near(T p) {
	if constexpr (std::is_same_v<T, float>) return { p, p * 1.000003f, p + 0.0004f };
	else return { p, p * T(1 + 2e-9L), p * T(1 - 3e-6L), p + T(0.0004L) };
}
// Sizes that agree in their low bits, or halves.
inline std::vector<size_t> NearSizes(size_t n) { return { n, n + 1, n + 2, n + 256 }; }

template <class T, class F>
void Add(Alphabet& a, const char* family, std::string name, F f) { a.push_back({ family, std::string(family) + ":" + ref::TypeName<T>() + ":" + name, f, std::numeric_limits<ref::real_of_t<T>>::digits }); }

// Runs the calls in a fresh process and returns the values of the last one.
inline Values Run(const std::vector<const Call*>& seq) {
	int fd[2];
	if (pipe(fd)) { perror("pipe"); _exit(3); }
	fflush(nullptr);
	const pid_t pid = fork();
	if (pid < 0) { perror("fork"); _exit(3); }
	if (pid == 0) {
		close(fd[0]);
		for (int s : { SIGABRT, SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGVTALRM, SIGALRM }) signal(s, SIG_DFL);
		rlimit cpu{ 30, 31 };
		setrlimit(RLIMIT_CPU, &cpu);
		alarm(50);
		Values r;
		for (size_t i = 0; i < seq.size(); ++i) {
			Values v = seq[i]->f();
			if (i + 1 == seq.size()) r = std::move(v);
		}
		const char* p = reinterpret_cast<const char*>(r.data());
		size_t left = r.size() * sizeof(LD);
		while (left) {
			const ssize_t k = write(fd[1], p, left);
			if (k <= 0) _exit(9);
			p += k, left -= size_t(k);
		}
		_exit(0);
	}
	close(fd[1]);
	std::string bytes;
	char buf[1 << 14];
	for (ssize_t k; (k = read(fd[0], buf, sizeof buf)) > 0;) bytes.append(buf, size_t(k));
	close(fd[0]);
	int status = 0;
	while (waitpid(pid, &status, 0) < 0) {}
	if (WIFSIGNALED(status)) {
		const int s = WTERMSIG(status);
		if (s == SIGKILL) { fprintf(stderr, "the run was ended from outside\n"); _exit(3); }
		mc::Fail(s == SIGALRM || s == SIGXCPU ? std::string("the calls do not return") : std::string("the calls crash: ") + strsignal(s));
	}
	else if (WEXITSTATUS(status)) mc::Fail("the calls end the process with status " + std::to_string(WEXITSTATUS(status)));
	Values r(bytes.size() / sizeof(LD));
	if (!r.empty()) memcpy(r.data(), bytes.data(), r.size() * sizeof(LD));
	return r;
}
inline void Same(const Call& c, const Values& got, const Values& want) {
	mc::Eq(got.size(), want.size(), "number of values");
	LD scale = 0;
	for (LD v : want) if (std::isfinite(v)) scale = std::max(scale, std::abs(v));
	// A result may be reached on another path, but not by other arguments.
	const LD tol = scale * 16 * std::ldexp(LD(1), -c.bits);
	for (size_t i = 0; i < want.size() && i < got.size(); ++i) {
		if (std::isnan(want[i])) mc::Check(std::isnan(got[i]), "NaN without earlier calls");
		else if (std::isinf(want[i])) mc::Eq(got[i], want[i], "value without earlier calls", i);
		else mc::Near(got[i], want[i], tol, "value compared with no earlier calls", i);
	}
	mc::StateOf(got);
}
// All histories of `depth` calls: any earlier calls of the alphabet, or of the family of the last one.
inline void Explore(const Alphabet& a, bool familyOnly, int depth) {
	std::map<size_t, Values> base;
	std::vector<size_t> pick(depth);
	for (size_t last = 0; last < a.size(); ++last) {
		std::vector<size_t> before;
		for (size_t i = 0; i < a.size(); ++i)
			if (!familyOnly || a[i].family == a[last].family) before.push_back(i);
		std::vector<size_t> idx(depth - 1, 0);
		for (bool more = true; more;) {
			std::vector<const Call*> seq;
			std::string key;
			for (size_t i : idx) { seq.push_back(&a[before[i]]); key += a[before[i]].name + ";"; }
			seq.push_back(&a[last]);
			if (mc::Case("history", key, a[last].name)) {
				auto it = base.find(last);
				if (it == base.end()) {
					it = base.emplace(last, Run({ &a[last] })).first;
					mc::Check(!it->second.empty(), "a call returned nothing");
				}
				mc::Step(depth);
				Same(a[last], Run(seq), it->second);
			}
			more = false;
			for (size_t d = 0; d < idx.size(); ++d) {
				if (++idx[d] < before.size()) { more = true; break; }
				idx[d] = 0;
			}
		}
	}
}
} // namespace hist
