// Explicit enumeration support shared by every harness.
//
// A harness walks a bounded space (shapes, configurations, operation histories, schedules) with plain loops or
// depth-first search and runs the real library on every point of it. Each point has a key, "name i j k ..."; a point
// is run when mc::Case(...) returns true. The same binary replays one single point (MC_ONLY=<key>) and splits the space
// over processes (MC_SHARD=i/n), so a reported violation is always a key that can be replayed alone.
#pragma once
#include <algorithm>
#include <atomic>
#include <cmath>
#include <complex>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <limits>
#include <string>
#include <sys/time.h>
#include <ctime>
#include <type_traits>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace mc {

struct Known { std::string pattern, what; };

struct Ctx {
	std::string only;
	long shard = 0, nshards = 1, seq = 0;
	bool thorough = false;
	char key[4096] = "(startup)";
	char cls[64] = "";
	std::vector<Known> known;
	// Measured counts.
	uint64_t cases = 0, steps = 0, checks = 0;
	std::unordered_set<uint64_t> states;
	std::vector<std::string> samples;
	std::vector<std::string> order; // enumerated classes in order of appearance
	std::vector<std::pair<std::string, uint64_t>> classes;
	std::vector<std::string> notes;
	std::string lastClass;
	bool failed = false;
	bool knownCase = false;
	std::string failKey, failMsg;
	std::vector<std::string> knownHit;
	std::string out;
	std::atomic<uint64_t> progress{ 0 };
	uint64_t lastProgress = 0;
	int stuck = 0;
	uint64_t lastAlarmProgress = 0, lastAlarmCpu = 0;
	int blocked = 0;
};

inline Ctx& C() {
	static Ctx* c = new Ctx;
	return *c;
}

inline bool Thorough() { return C().thorough; }
template <class T>
inline T Tier(T quick, T thorough) { return C().thorough ? thorough : quick; }

inline bool Glob(const char* p, const char* s) {
	for (; *p; ++p, ++s) {
		if (*p == '*') {
			for (const char* t = s;; ++t) {
				if (Glob(p + 1, t)) return true;
				if (!*t) return false;
			}
		}
		if (*p != *s) return false;
	}
	return !*s;
}

// ----------------------------------------------------------------------------- results
inline std::string Esc(const std::string& s) {
	std::string r;
	for (char ch : s) {
		if (ch == '"' || ch == '\\') { r += '\\'; r += ch; }
		else if ((unsigned char)ch < 0x20) r += ' ';
		else r += ch;
	}
	return r;
}

inline void WriteOut() {
	Ctx& c = C();
	FILE* f = fopen(c.out.c_str(), "w");
	if (!f) { perror(c.out.c_str()); _exit(3); }
	fprintf(f, "{\"cases\":%llu,\"steps\":%llu,\"checks\":%llu,", (unsigned long long)c.cases, (unsigned long long)c.steps, (unsigned long long)c.checks);
	fprintf(f, "\"failed\":%s,\"fail_key\":\"%s\",\"fail_msg\":\"%s\",", c.failed ? "true" : "false", Esc(c.failKey).c_str(), Esc(c.failMsg).c_str());
	fprintf(f, "\"classes\":{");
	bool first = true;
	for (auto& k : c.classes) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", Esc(k.first).c_str(), (unsigned long long)k.second); first = false; }
	fprintf(f, "},\"samples\":[");
	for (size_t i = 0; i < c.samples.size(); ++i) fprintf(f, "%s\"%s\"", i ? "," : "", Esc(c.samples[i]).c_str());
	fprintf(f, "],\"notes\":[");
	for (size_t i = 0; i < c.notes.size(); ++i) fprintf(f, "%s\"%s\"", i ? "," : "", Esc(c.notes[i]).c_str());
	fprintf(f, "],\"known\":[");
	for (size_t i = 0; i < c.knownHit.size(); ++i) fprintf(f, "%s\"%s\"", i ? "," : "", Esc(c.knownHit[i]).c_str());
	fprintf(f, "],\"complete\":true}\n");
	fclose(f);
	// The distinct states, for the union over shards.
	FILE* g = fopen((c.out + ".states").c_str(), "wb");
	if (g) {
		for (uint64_t h : c.states) fwrite(&h, 8, 1, g);
		fclose(g);
	}
}

inline const Known* KnownCase() {
	for (auto& k : C().known)
		if (Glob(k.pattern.c_str(), C().key)) return &k;
	return nullptr;
}

[[noreturn]] inline void Finish() {
	WriteOut();
	fflush(stdout);
	_exit(C().failed ? 1 : 0);
}

// A violated expectation. Returns only when the case is a listed finding.
inline void Fail(const std::string& msg) {
	Ctx& c = C();
	if (const Known* k = KnownCase()) {
		if (std::find(c.knownHit.begin(), c.knownHit.end(), k->what) == c.knownHit.end()) c.knownHit.push_back(k->what);
		c.knownCase = true;
		return;
	}
	c.failed = true;
	c.failKey = c.key;
	c.failMsg = msg;
	Finish();
}

extern "C" inline void mc_crash(int sig) {
	// Async-signal context: write the bare minimum and leave.
	Ctx& c = C();
	char buf[6000];
	int n = snprintf(buf, sizeof buf, "{\"failed\":true,\"crash\":%d,\"fail_key\":\"%s\",\"fail_msg\":\"signal %d (%s)\"}\n", sig, c.key, sig,
					 sig == SIGABRT ? "assertion, sanitizer or abort" : sig == SIGVTALRM ? "no progress: hang" : "crash");
	FILE* f = fopen(c.out.c_str(), "w");
	if (f) { fwrite(buf, 1, n, f); fclose(f); }
	_exit(70);
}
extern "C" inline void mc_tick(int) {
	Ctx& c = C();
	uint64_t p = c.progress.load();
	if (p == c.lastProgress) {
		if (++c.stuck >= (c.only.empty() ? 12 : 30)) mc_crash(SIGVTALRM);
	}
	else c.stuck = 0, c.lastProgress = p;
}

// Blocked for ever (a lock that is never released) uses no CPU time: neither progress nor CPU time for a minute.
extern "C" inline void mc_alarm(int) {
	Ctx& c = C();
	timespec ts;
	clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &ts);
	const uint64_t p = c.progress.load(), cpu = uint64_t(ts.tv_sec) * 1000 + ts.tv_nsec / 1000000;
	if (p == c.lastAlarmProgress && cpu < c.lastAlarmCpu + 10) {
		if (++c.blocked >= 6) mc_crash(SIGVTALRM);
	}
	else c.blocked = 0;
	c.lastAlarmProgress = p, c.lastAlarmCpu = cpu;
}

// ----------------------------------------------------------------------------- cases
inline void AppendKey(std::string& s, long long v) { s += ' '; s += std::to_string(v); }
inline void AppendKey(std::string& s, const char* v) { s += ' '; s += v; }
inline void AppendKey(std::string& s, const std::string& v) { s += ' '; s += v; }
template <class T>
inline void AppendKey(std::string& s, const std::vector<T>& v) {
	s += " [";
	for (size_t i = 0; i < v.size(); ++i) { if (i) s += ','; s += std::to_string(v[i]); }
	s += ']';
}
template <class T, std::enable_if_t<std::is_floating_point_v<T>, int> = 0>
inline void AppendKey(std::string& s, T v) { char b[40]; snprintf(b, sizeof b, " %.10g", double(v)); s += b; }
template <class T, std::enable_if_t<std::is_integral_v<T> || std::is_enum_v<T>, int> = 0>
inline void AppendKey(std::string& s, T v) { AppendKey(s, (long long)v); }

// Announces a point of the space; true when this process has to run it.
template <class... Args>
inline bool Case(const char* name, const Args&... args) {
	Ctx& c = C();
	++c.seq;
	if (c.only.empty() && c.nshards > 1) {
		// A multiplicative hash spreads neighbouring (similarly expensive) points.
		uint64_t h = uint64_t(c.seq) * 0x9E3779B97F4A7C15ull >> 33;
		if (long(h % uint64_t(c.nshards)) != c.shard) return false;
	}
	std::string s = name;
	(AppendKey(s, args), ...);
	if (!c.only.empty() && c.only != s) return false;
	if (s.size() >= sizeof c.key) s.resize(sizeof c.key - 1);
	memcpy(c.key, s.c_str(), s.size() + 1);
	++c.cases;
	c.progress.fetch_add(1, std::memory_order_relaxed);
	c.knownCase = false;
	if (c.lastClass != name) {
		c.lastClass = name;
		auto it = std::find_if(c.classes.begin(), c.classes.end(), [&](auto& k) { return k.first == name; });
		if (it == c.classes.end()) {
			c.classes.push_back({ name, 0 });
			if (c.samples.size() < 24) c.samples.push_back(s);
		}
	}
	for (auto& k : c.classes)
		if (k.first == c.lastClass) { if (++k.second == 57 && c.samples.size() < 24) c.samples.push_back(s); break; }
	return true;
}
inline void Step(uint64_t n = 1) { C().steps += n; C().progress.fetch_add(1, std::memory_order_relaxed); }
inline void Note(const std::string& s) { C().notes.push_back(s); }

// ----------------------------------------------------------------------------- observed states
struct Hash {
	uint64_t h = 1469598103934665603ull;
	void raw(const void* p, size_t n) {
		const unsigned char* b = (const unsigned char*)p;
		for (size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 1099511628211ull; }
		h ^= h >> 29;
	}
	template <class T>
	void add(const T& v) { if constexpr (std::is_arithmetic_v<T> || std::is_enum_v<T>) raw(&v, sizeof v); else if constexpr (requires { v.real(); }) { add(v.real()); add(v.imag()); } else { size_t n = 0; for (auto& e : v) { add(e); ++n; } add(n); } }
};
inline void State(uint64_t h) { C().states.insert(h); }
template <class... T>
inline void StateOf(const T&... v) { Hash h; (h.add(v), ...); State(h.h); }

// ----------------------------------------------------------------------------- expectations
inline std::string Str(bool v) { return v ? "true" : "false"; }
inline std::string Str(const std::string& v) { return v; }
inline std::string Str(const char* v) { return v; }
template <class T, std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, bool>, int> = 0>
std::string Str(T v) { return std::to_string(v); }
template <class T, std::enable_if_t<std::is_floating_point_v<T>, int> = 0>
std::string Str(T v) { char b[64]; snprintf(b, sizeof b, "%.17Lg", (long double)v); return b; }
template <class T>
std::string Str(const std::complex<T>& v) { return "(" + Str(v.real()) + "," + Str(v.imag()) + ")"; }

inline void Check(bool ok, const char* what) {
	++C().checks;
	if (!ok) Fail(what);
}
template <class F, std::enable_if_t<std::is_invocable_v<F>, int> = 0>
inline void Check(bool ok, F&& describe) {
	++C().checks;
	if (!ok) Fail(describe());
}
template <class A, class B>
inline void Eq(const A& got, const B& want, const char* what) {
	++C().checks;
	if (!(got == want)) Fail(std::string(what) + ": got " + Str(got) + ", expected " + Str(want));
}
template <class A, class B>
inline void Eq(const A& got, const B& want, const char* what, size_t i) {
	++C().checks;
	if (!(got == want)) Fail(std::string(what) + "[" + std::to_string(i) + "]: got " + Str(got) + ", expected " + Str(want));
}
// |got-want| <= tol, NaN fails.
template <class A, class B>
inline void Near(const A& got, const B& want, long double tol, const char* what, size_t i = size_t(-1)) {
	++C().checks;
	using LD = long double;
	std::complex<LD> g, w;
	if constexpr (requires { got.real(); }) g = { LD(got.real()), LD(got.imag()) }; else g = { LD(got), 0 };
	if constexpr (requires { want.real(); }) w = { LD(want.real()), LD(want.imag()) }; else w = { LD(want), 0 };
	const LD d = std::max(std::abs(g.real() - w.real()), std::abs(g.imag() - w.imag()));
	if (!(d <= tol)) Fail(std::string(what) + (i == size_t(-1) ? "" : "[" + std::to_string(i) + "]") + ": got " + Str(got) + ", expected " + Str(want) + ", tolerance " + Str(tol));
}
template <class E, class F>
inline bool Throws(F&& f) {
	try { f(); } catch (const E&) { return true; }
	return false;
}

// A tiny deterministic value source: small integers that are exactly representable in every type.
inline int Val(uint64_t i, int range = 7) {
	uint64_t z = (i + 1) * 0x9E3779B97F4A7C15ull;
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
	z ^= z >> 27;
	int v = int(z % uint64_t(2 * range)) - range;
	return v >= 0 ? v + 1 : v; // never 0: a dropped term always shows
}
template <class T>
inline T ValAs(uint64_t i, int range = 7) {
	if constexpr (requires(T t) { t.real(); }) { using U = decltype(T().real()); return T(U(Val(2 * i, range)), U(Val(2 * i + 1, range))); }
	else return T(Val(i, range));
}

inline int Main(int argc, char** argv, void (*body)()) {
	Ctx& c = C();
	c.out = argc > 1 ? argv[1] : "/dev/stdout";
	if (const char* t = getenv("MC_TIER")) c.thorough = !strcmp(t, "thorough");
	if (const char* o = getenv("MC_ONLY")) c.only = o;
	if (const char* s = getenv("MC_SHARD")) sscanf(s, "%ld/%ld", &c.shard, &c.nshards);
	if (const char* k = getenv("MC_KNOWN")) { // pattern \t what \n ...
		std::string all = k;
		size_t p = 0;
		while (p < all.size()) {
			size_t e = all.find('\n', p);
			if (e == std::string::npos) e = all.size();
			std::string l = all.substr(p, e - p);
			size_t t = l.find('\t');
			if (t != std::string::npos) c.known.push_back({ l.substr(0, t), l.substr(t + 1) });
			p = e + 1;
		}
	}
	for (int s : { SIGABRT, SIGSEGV, SIGBUS, SIGFPE, SIGILL }) {
		struct sigaction sa {};
		sa.sa_handler = mc_crash;
		sa.sa_flags = SA_ONSTACK | SA_NODEFER;
		sigaction(s, &sa, nullptr);
	}
	static char stack[1 << 16];
	stack_t ss{};
	ss.ss_sp = stack;
	ss.ss_size = sizeof stack;
	sigaltstack(&ss, nullptr);
	struct sigaction sa {};
	sa.sa_handler = mc_tick;
	sa.sa_flags = SA_RESTART;
	sigaction(SIGVTALRM, &sa, nullptr);
	itimerval iv{ { 5, 0 }, { 5, 0 } }; // CPU time, so a loaded machine raises no alarm
	setitimer(ITIMER_VIRTUAL, &iv, nullptr);
	struct sigaction sr {};
	sr.sa_handler = mc_alarm;
	sr.sa_flags = SA_RESTART;
	sigaction(SIGALRM, &sr, nullptr);
#ifndef MC_NO_ALARM
	itimerval ir{ { 10, 0 }, { 10, 0 } };
	setitimer(ITIMER_REAL, &ir, nullptr);
#endif
	try {
		body();
	}
	catch (const std::exception& e) {
		Fail(std::string("unexpected exception: ") + e.what());
	}
	catch (...) {
		Fail("unexpected exception");
	}
	Finish();
}

} // namespace mc

#define MC_MAIN(body) \
	int main(int argc, char** argv) { return mc::Main(argc, argv, body); }

#if defined(__SANITIZE_ADDRESS__)
extern "C" inline __attribute__((used, visibility("default"))) const char* __asan_default_options() {
	return "abort_on_error=1:handle_abort=0:handle_segv=0:handle_sigfpe=0:handle_sigill=0:handle_sigbus=0:detect_leaks=0:detect_stack_use_after_return=0:alloc_dealloc_mismatch=0";
}
#endif
