// The controlled scheduler and race detector of C26. Compiled without instrumentation; the library under test is compiled
// with -fsanitize=thread and calls the __tsan_* functions below instead of the sanitizer's run-time library.
#include "c26_sched.hpp"
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <malloc.h>
#include <memory>
#include <new>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>

using namespace sched;

namespace {

constexpr int NT = MAX_THREADS + 1;
using Clock = std::array<uint32_t, NT>;

struct Point {
	uint8_t cur, enabled, chosen, forced; // forced: the running thread could not continue, or yielded
	uint64_t obj;
};
struct Shared { // between the explorer and the process that runs one schedule
	int nprefix;
	uint8_t prefix[MAX_POINTS];
	int npoints;
	Point points[MAX_POINTS];
	uint64_t accesses, syncs, contended;
	int done, truncated;
	char error[512];
	int nresults[MAX_THREADS];
	double results[MAX_THREADS][MAX_RESULT];
};
Shared* S = nullptr;

enum State : uint8_t { NONE, READY, BLOCKED, DONE };
struct Thread {
	sem_t sem;
	State state = NONE;
	const void* waits = nullptr;
	Clock clock{};
	uint32_t streak = 0;
};
Thread T[NT];
int running = 0;
bool active = false;      // inside a controlled run
bool sequential = false;  // no preemption: workers run one after the other
thread_local int self = -1; // index of the controlled thread, -1 outside
thread_local bool inside = false;

struct Guard {
	bool on;
	Guard() : on(active && self >= 0 && !inside) { if (on) inside = true; }
	~Guard() { if (on) inside = false; }
	explicit operator bool() const { return on; }
};

[[noreturn]] void Die(const char* what) {
	if (!S->error[0]) { strncpy(S->error, what, sizeof S->error - 1); }
	_exit(3);
}
[[noreturn]] void Die(const std::string& s) { Die(s.c_str()); }

// ------------------------------------------------------------------ happens-before
struct Obj {
	Clock clock{};
	uint8_t touched = 0; // threads that operated on it
	int owner = -1;      // mutex
	int readers = 0;
	int depth = 0;
};
// Plain allocations of the run-time must not go through the tracked operator new.
template <class X>
struct Raw {
	using value_type = X;
	Raw() = default;
	template <class Y> Raw(const Raw<Y>&) {}
	X* allocate(size_t n) { return (X*)malloc(n * sizeof(X)); }
	void deallocate(X* p, size_t) { free(p); }
	template <class Y> bool operator==(const Raw<Y>&) const { return true; }
};
template <class K, class V>
using Map = std::unordered_map<K, V, std::hash<K>, std::equal_to<K>, Raw<std::pair<const K, V>>>;
Map<uintptr_t, Obj>* objs;
Obj& Object(const void* p) {
	Obj& o = (*objs)[(uintptr_t)p];
	if (self > 0) o.touched |= uint8_t(1 << self);
	return o;
}
void Join(Clock& a, const Clock& b) { for (int i = 0; i < NT; ++i) a[i] = std::max(a[i], b[i]); }

struct Cell { // eight bytes of memory
	uint32_t w[8];     // last write: thread << 28 | clock
	uint32_t r[NT][8]; // last read of every thread
	uint8_t freed;     // thread+1
};
constexpr uint32_t CLK = (1u << 28) - 1;
Map<uintptr_t, Cell>* cells;

std::string Site(const void* addr, size_t size, const char* what, int other) {
	char b[200];
	snprintf(b, sizeof b, "%s: thread %d and thread %d, %zu bytes without synchronization", what, self, other, size);
	(void)addr;
	return b;
}
void Access(const void* addr, size_t size, bool write, bool release = false) {
	uintptr_t a = (uintptr_t)addr;
	const uintptr_t end = a + size;
	const Clock& c = T[self].clock;
	S->accesses += 1;
	while (a < end) {
		const uintptr_t g = a >> 3;
		Cell& cell = (*cells)[g];
		if (cell.freed) Die("access to freed memory by thread " + std::to_string(self) + ", freed by thread " + std::to_string(cell.freed - 1));
		for (; a < end && a >> 3 == g; ++a) {
			const int b = a & 7;
			const uint32_t w = cell.w[b];
			if (w && int(w >> 28) != self && (w & CLK) > c[w >> 28]) Die(Site(addr, size, write ? "data race (write after write)" : "data race (read after write)", w >> 28));
			if (write) {
				for (int t = 0; t < NT; ++t)
					if (t != self && cell.r[t][b] > c[t]) Die(Site(addr, size, "data race (write after read)", t));
				cell.w[b] = uint32_t(self) << 28 | c[self];
			}
			else cell.r[self][b] = c[self];
		}
		if (release) cell.freed = uint8_t(self + 1);
	}
}

// ------------------------------------------------------------------ scheduling
uint8_t Enabled() {
	uint8_t m = 0;
	for (int i = 1; i < NT; ++i) if (T[i].state == READY) m |= uint8_t(1 << i);
	return m;
}
// Hands the processor to thread t and sleeps until it comes back (unless this thread is done).
void Switch(int t, bool sleep) {
	const int me = self;
	if (t == me) return;
	running = t;
	sem_post(&T[t].sem);
	if (sleep) while (sem_wait(&T[me].sem) != 0) {}
}
// The running thread is about to operate on obj, or cannot continue (its state says so).
void SchedulingPoint(const void* obj, bool yield = false) {
	if (self <= 0) return; // the main thread runs alone
	const uint8_t en = Enabled();
	const bool can = T[self].state == READY;
	if (!en) {
		for (int i = 1; i < NT; ++i) if (T[i].state == BLOCKED) Die("deadlock: no thread can continue");
		Switch(0, false); // all done
		return;
	}
	if (can && ++T[self].streak > 20000) { yield = true; }
	int next;
	const uint8_t others = en & ~uint8_t(1 << self);
	bool forced = !can || (yield && others);
	auto lowest = [](uint8_t m) { int i = 0; while (!(m >> i & 1)) ++i; return i; };
	if (forced) {
		// Round robin among the others, so that waiting loops make progress.
		const uint8_t above = others & ~uint8_t((2 << self) - 1);
		next = sequential ? lowest(others ? others : en) : above ? lowest(above) : lowest(others ? others : en);
	}
	else next = self;
	if (!sequential) {
		if (S->npoints < MAX_POINTS) {
			Point& p = S->points[S->npoints];
			if (S->npoints < S->nprefix) {
				next = S->prefix[S->npoints];
				if (!(en >> next & 1)) Die("the schedule cannot be replayed");
			}
			p.cur = uint8_t(self);
			p.enabled = en;
			p.chosen = uint8_t(next);
			p.forced = forced;
			p.obj = (uint64_t)obj;
			++S->npoints;
		}
		else S->truncated = 1;
	}
	if (next != self) {
		T[next].streak = 0;
		Switch(next, T[self].state != DONE);
	}
}
void Block(const void* obj) {
	T[self].state = BLOCKED;
	T[self].waits = obj;
	++S->contended;
	SchedulingPoint(obj);
}
void Wake(const void* obj) {
	for (int i = 1; i < NT; ++i) if (T[i].state == BLOCKED && T[i].waits == obj) { T[i].state = READY; T[i].waits = nullptr; }
}
void Tick() { ++T[self].clock[self]; }

// ------------------------------------------------------------------ mutexes, guards
void Lock(const void* m, bool shared, bool recursive) {
	++S->syncs;
	SchedulingPoint(m);
	for (;;) {
		Obj& o = Object(m);
		const bool free = o.owner == -1 && (shared || o.readers == 0);
		if (free) { if (shared) ++o.readers; else { o.owner = self; o.depth = 1; } break; }
		if (o.owner == self && recursive) { ++o.depth; break; }
		if (o.owner == self) Die("deadlock: a thread locks the mutex it holds");
		if (self == 0) Die("deadlock in the main thread");
		Block(m);
	}
	Join(T[self].clock, Object(m).clock);
}
bool TryLock(const void* m, bool shared) {
	++S->syncs;
	SchedulingPoint(m);
	Obj& o = Object(m);
	if (o.owner != -1 || (!shared && o.readers)) return false;
	if (shared) ++o.readers; else { o.owner = self; o.depth = 1; }
	Join(T[self].clock, o.clock);
	return true;
}
void Unlock(const void* m) {
	++S->syncs;
	Obj& o = Object(m);
	if (o.owner == self) { if (--o.depth > 0) return; o.owner = -1; }
	else if (o.readers > 0) --o.readers;
	else Die("a thread unlocks a mutex that it does not hold");
	Join(o.clock, T[self].clock);
	Tick();
	Wake(m);
}
bool Recursive(const pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }

} // namespace

// ------------------------------------------------------------------ intercepted functions
extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_trylock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
	Guard g;
	if (!g) return __real_pthread_mutex_lock(m);
	Lock(m, false, Recursive(m));
	return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) {
	Guard g;
	if (!g) return __real_pthread_mutex_trylock(m);
	return TryLock(m, false) ? 0 : EBUSY;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
	Guard g;
	if (!g) return __real_pthread_mutex_unlock(m);
	Unlock(m);
	return 0;
}
int __real_pthread_rwlock_rdlock(pthread_rwlock_t*);
int __real_pthread_rwlock_wrlock(pthread_rwlock_t*);
int __real_pthread_rwlock_tryrdlock(pthread_rwlock_t*);
int __real_pthread_rwlock_trywrlock(pthread_rwlock_t*);
int __real_pthread_rwlock_unlock(pthread_rwlock_t*);
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m) { Guard g; if (!g) return __real_pthread_rwlock_rdlock(m); Lock(m, true, false); return 0; }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m) { Guard g; if (!g) return __real_pthread_rwlock_wrlock(m); Lock(m, false, false); return 0; }
int __wrap_pthread_rwlock_tryrdlock(pthread_rwlock_t* m) { Guard g; if (!g) return __real_pthread_rwlock_tryrdlock(m); return TryLock(m, true) ? 0 : EBUSY; }
int __wrap_pthread_rwlock_trywrlock(pthread_rwlock_t* m) { Guard g; if (!g) return __real_pthread_rwlock_trywrlock(m); return TryLock(m, false) ? 0 : EBUSY; }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m) { Guard g; if (!g) return __real_pthread_rwlock_unlock(m); Unlock(m); return 0; }
int __real_pthread_spin_lock(pthread_spinlock_t*);
int __real_pthread_spin_unlock(pthread_spinlock_t*);
int __wrap_pthread_spin_lock(pthread_spinlock_t* m) { Guard g; if (!g) return __real_pthread_spin_lock(m); Lock((const void*)m, false, false); return 0; }
int __wrap_pthread_spin_unlock(pthread_spinlock_t* m) { Guard g; if (!g) return __real_pthread_spin_unlock(m); Unlock((const void*)m); return 0; }
int __real_sched_yield();
int __wrap_sched_yield() {
	Guard g;
	if (!g) return __real_sched_yield();
	SchedulingPoint(nullptr, true);
	return 0;
}
int __real_pthread_once(pthread_once_t*, void (*)());

// Function-local statics. The first byte of the guard is set once the object exists.
int __cxa_guard_acquire(uint64_t* gp) {
	uint8_t* done = (uint8_t*)gp;
	Guard g;
	if (!g) { if (*done) return 0; return 1; } // single threaded there
	++S->syncs;
	SchedulingPoint(gp);
	for (;;) {
		Obj& o = Object(gp);
		if (*done) { Join(T[self].clock, o.clock); return 0; }
		if (o.owner == -1) { o.owner = self; return 1; }
		if (o.owner == self) Die("recursive initialization of a static object");
		if (self == 0) Die("deadlock in the main thread");
		Block(gp);
	}
}
static void GuardEnd(uint64_t* gp, bool ok) {
	if (ok) *(uint8_t*)gp = 1;
	Guard g;
	if (!g) return;
	Obj& o = Object(gp);
	o.owner = -1;
	if (ok) { Join(o.clock, T[self].clock); Tick(); }
	Wake(gp);
}
void __cxa_guard_release(uint64_t* gp) { GuardEnd(gp, true); }
void __cxa_guard_abort(uint64_t* gp) { GuardEnd(gp, false); }
int __wrap_pthread_once(pthread_once_t* c, void (*f)()) {
	{
		Guard g;
		if (g) {
			++S->syncs;
			SchedulingPoint(c);
			for (;;) {
				Obj& o = Object(c);
				if (o.depth == 2) { Join(T[self].clock, o.clock); return 0; }
				if (o.owner == -1) { o.owner = self; break; }
				if (self == 0 || o.owner == self) Die("deadlock in call_once");
				Block(c);
			}
		}
		else return __real_pthread_once(c, f);
	}
	struct Leave { // also on an exception
		pthread_once_t* c;
		int ok = 0;
		~Leave() {
			Guard g;
			Obj& o = Object(c);
			o.owner = -1;
			if (ok) { o.depth = 2; Join(o.clock, T[self].clock); Tick(); }
			Wake(c);
		}
	} leave{ c };
	f();
	leave.ok = 1;
	return 0;
}

// Memory of a controlled run is never reused, so an access to freed memory is always seen.
void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void __real_free(void*);
static void Freed(void* p) {
	if (!p) return;
	Access(p, malloc_usable_size(p), true, true);
}
void* __wrap_malloc(size_t n) { return __real_malloc(n); }
void __wrap_free(void* p) {
	Guard g;
	if (!g) { if (!active) __real_free(p); return; }
	Freed(p);
}
void* __wrap_realloc(void* p, size_t n) {
	Guard g;
	if (!g) return __real_realloc(p, n);
	void* q = __real_malloc(n);
	if (p) { memcpy(q, p, std::min(n, malloc_usable_size(p))); Freed(p); }
	return q;
}
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) { { Guard g; if (g) { Access(s, n, false); Access(d, n, true); } } return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { { Guard g; if (g) { Access(s, n, false); Access(d, n, true); } } return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int v, size_t n) { { Guard g; if (g) Access(d, n, true); } return __real_memset(d, v, n); }

void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) \
	void __tsan_read##n(void* p) { Guard g; if (g) Access(p, n, false); } \
	void __tsan_write##n(void* p) { Guard g; if (g) Access(p, n, true); } \
	void __tsan_unaligned_read##n(void* p) { Guard g; if (g) Access(p, n, false); } \
	void __tsan_unaligned_write##n(void* p) { Guard g; if (g) Access(p, n, true); } \
	void __tsan_volatile_read##n(void* p) { Guard g; if (g) Access(p, n, false); } \
	void __tsan_volatile_write##n(void* p) { Guard g; if (g) Access(p, n, true); } \
	void __tsan_read_write##n(void* p) { Guard g; if (g) { Access(p, n, false); Access(p, n, true); } }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, long n) { Guard g; if (g) Access(p, size_t(n), false); }
void __tsan_write_range(void* p, long n) { Guard g; if (g) Access(p, size_t(n), true); }
void __tsan_vptr_update(void** p, void* v) { Guard g; if (g) Access(p, 8, *p != v); }
void __tsan_vptr_read(void** p) { Guard g; if (g) Access(p, 8, false); }

// Atomics: memory_order as the compiler numbers them. consume counts as acquire.
static void Before(const volatile void* p) {
	++S->syncs;
	SchedulingPoint((const void*)p);
	// Atomic accesses to memory that has been freed.
	auto it = cells->find((uintptr_t)p >> 3);
	if (it != cells->end() && it->second.freed) Die("atomic access to freed memory by thread " + std::to_string(self));
}
static void Acquire(const volatile void* p, int mo) {
	Obj& o = Object((const void*)p);
	if (mo == 1 || mo == 2 || mo >= 4) Join(T[self].clock, o.clock);
}
static void Release(const volatile void* p, int mo) {
	Obj& o = Object((const void*)p);
	if (mo >= 3) { Join(o.clock, T[self].clock); Tick(); }
}
static char fence; // one location stands for all fences: more ordering than the language gives, never less
void __tsan_atomic_thread_fence(int mo) { Guard g; if (!g) return; Before(&fence); Acquire(&fence, mo); Release(&fence, mo); }
void __tsan_atomic_signal_fence(int) {}
#define AT(bits, type) \
	type __tsan_atomic##bits##_load(const volatile type* p, int mo) { Guard g; if (g) { Before(p); Acquire(p, mo); } return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
	void __tsan_atomic##bits##_store(volatile type* p, type v, int mo) { Guard g; if (g) { Before(p); Release(p, mo); } __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
	type __tsan_atomic##bits##_exchange(volatile type* p, type v, int mo) { Guard g; if (g) { Before(p); Acquire(p, mo); Release(p, mo); } return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
	type __tsan_atomic##bits##_fetch_add(volatile type* p, type v, int mo) { Guard g; if (g) { Before(p); Acquire(p, mo); Release(p, mo); } return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
	type __tsan_atomic##bits##_fetch_sub(volatile type* p, type v, int mo) { Guard g; if (g) { Before(p); Acquire(p, mo); Release(p, mo); } return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
	type __tsan_atomic##bits##_fetch_and(volatile type* p, type v, int mo) { Guard g; if (g) { Before(p); Acquire(p, mo); Release(p, mo); } return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
	type __tsan_atomic##bits##_fetch_or(volatile type* p, type v, int mo) { Guard g; if (g) { Before(p); Acquire(p, mo); Release(p, mo); } return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
	type __tsan_atomic##bits##_fetch_xor(volatile type* p, type v, int mo) { Guard g; if (g) { Before(p); Acquire(p, mo); Release(p, mo); } return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
	type __tsan_atomic##bits##_fetch_nand(volatile type* p, type v, int mo) { Guard g; if (g) { Before(p); Acquire(p, mo); Release(p, mo); } return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
	bool __tsan_atomic##bits##_compare_exchange_strong(volatile type* p, type* e, type v, int mo, int fmo) { \
		Guard g; \
		if (g) Before(p); \
		const bool ok = __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
		if (g) { Acquire(p, ok ? mo : fmo); if (ok) Release(p, mo); } \
		return ok; \
	} \
	bool __tsan_atomic##bits##_compare_exchange_weak(volatile type* p, type* e, type v, int mo, int fmo) { return __tsan_atomic##bits##_compare_exchange_strong(p, e, v, mo, fmo); }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
} // extern "C"

void* operator new(size_t n) { void* p = __real_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return __real_malloc(n ? n : 1); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return __real_malloc(n ? n : 1); }
void operator delete(void* p) noexcept { __wrap_free(p); }
void operator delete[](void* p) noexcept { __wrap_free(p); }
void operator delete(void* p, size_t) noexcept { __wrap_free(p); }
void operator delete[](void* p, size_t) noexcept { __wrap_free(p); }

// ------------------------------------------------------------------ one run
namespace {
struct Start { int id; const std::function<std::vector<double>()>* body; };
void* Worker(void* arg) {
	Start s = *(Start*)arg;
	while (sem_wait(&T[s.id].sem) != 0) {}
	self = s.id;
	try {
		std::vector<double> r = (*s.body)();
		inside = true;
		S->nresults[s.id - 1] = int(std::min<size_t>(r.size(), MAX_RESULT));
		for (int i = 0; i < S->nresults[s.id - 1]; ++i) S->results[s.id - 1][i] = r[i];
	}
	catch (const std::exception& e) { inside = true; Die(std::string("exception in thread ") + std::to_string(s.id) + ": " + e.what()); }
	catch (...) { inside = true; Die("unknown exception"); }
	inside = true;
	T[self].state = DONE;
	SchedulingPoint(nullptr);
	self = -1; // destructors of thread-local objects run uncontrolled
	return nullptr;
}
void RunHere(const Program& p, bool seq) {
	sequential = seq;
	objs = new (malloc(sizeof *objs)) Map<uintptr_t, Obj>();
	cells = new (malloc(sizeof *cells)) Map<uintptr_t, Cell>();
	cells->reserve(1 << 12);
	for (auto& t : T) { sem_init(&t.sem, 0, 0); t.state = NONE; t.clock.fill(0); }
	for (int i = 0; i < NT; ++i) T[i].clock[i] = 1;
	self = 0;
	active = true;
	running = 0;
	try {
		if (p.prelude) p.prelude();
	}
	catch (const std::exception& e) { Die(std::string("exception in the prelude: ") + e.what()); }
	inside = true;
	const int n = int(p.bodies.size());
	pthread_t th[MAX_THREADS];
	static Start st[MAX_THREADS];
	for (int i = 1; i <= n; ++i) {
		T[i].state = READY;
		Join(T[i].clock, T[0].clock); // creation orders the prelude before the workers
		st[i - 1] = { i, &p.bodies[i - 1] };
		if (pthread_create(&th[i - 1], nullptr, Worker, &st[i - 1]) != 0) _exit(4);
	}
	Tick();
	// Which worker starts is the first choice.
	int first = 1;
	if (!seq) {
		Point& q = S->points[0];
		const uint8_t en = Enabled();
		if (S->nprefix > 0) first = S->prefix[0];
		q = { 0, en, uint8_t(first), 1, 0 };
		S->npoints = 1;
	}
	running = first;
	sem_post(&T[first].sem);
	while (sem_wait(&T[0].sem) != 0) {}
	// Objects touched by one thread only need no branching.
	if (!seq)
		for (int i = 0; i < S->npoints; ++i) {
			Point& q = S->points[i];
			if (q.obj) {
				const uint8_t t = (*objs)[q.obj].touched;
				if ((t & (t - 1)) == 0) q.obj = 1; // private
			}
		}
	S->done = 1;
	_exit(0);
}

bool RunOnce(const Program& p, bool seq, std::string& error) {
	S->npoints = 0;
	S->accesses = S->syncs = S->contended = 0;
	S->done = S->truncated = 0;
	S->error[0] = 0;
	memset(S->nresults, 0, sizeof S->nresults);
	const pid_t pid = fork();
	if (pid == 0) {
		for (int s : { SIGABRT, SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGVTALRM }) signal(s, SIG_DFL);
		const int null = 2;
		close(null);
		itimerval iv{ { 0, 0 }, { 60, 0 } }; // CPU time
		setitimer(ITIMER_VIRTUAL, &iv, nullptr);
		alarm(600);
		RunHere(p, seq);
	}
	if (pid < 0) { perror("fork"); abort(); }
	int st = 0;
	while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
	if (S->error[0]) { error = S->error; return false; }
	if (WIFSIGNALED(st)) {
		const int sig = WTERMSIG(st);
		error = sig == SIGVTALRM || sig == SIGALRM ? "the run does not terminate" : std::string("crash: ") + strsignal(sig);
		return false;
	}
	if (!WIFEXITED(st) || WEXITSTATUS(st) != 0 || !S->done) { error = "the run ended with status " + std::to_string(st); return false; }
	return true;
}
void Init() {
	if (S) return;
	S = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (S == MAP_FAILED) { perror("mmap"); abort(); }
}
Results Collect(size_t n) {
	Results r(n);
	for (size_t i = 0; i < n; ++i) r[i].assign(S->results[i], S->results[i] + S->nresults[i]);
	return r;
}
std::string ScheduleString() {
	// Run-length: thread x operations
	std::string s;
	for (int i = 0; i < S->npoints;) {
		int j = i;
		while (j < S->npoints && S->points[j].chosen == S->points[i].chosen) ++j;
		s += (s.empty() ? "" : " ") + std::to_string(S->points[i].chosen) + "x" + std::to_string(j - i);
		i = j;
	}
	return s;
}
} // namespace

namespace sched {
Results Sequential(const Program& p, std::string& error) {
	Init();
	S->nprefix = 0;
	if (!RunOnce(p, true, error)) return {};
	return Collect(p.bodies.size());
}
std::string Explore(const Program& p, int bound, double affordable, uint64_t limit, const std::function<std::string(const Results&)>& judge, Stats& stats) {
	Init();
	std::vector<std::vector<uint8_t>> todo{ {} };
	while (!todo.empty()) {
		const std::vector<uint8_t> prefix = std::move(todo.back());
		todo.pop_back();
		if (stats.schedules >= limit) { ++stats.stopped; return ""; }
		S->nprefix = int(prefix.size());
		if (!prefix.empty()) memcpy(S->prefix, prefix.data(), prefix.size());
		std::string error;
		const bool ok = RunOnce(p, false, error);
		++stats.schedules;
		stats.points += uint64_t(S->npoints);
		stats.accesses += S->accesses;
		stats.syncs += S->syncs;
		stats.contended += S->contended;
		if (ok) error = judge(Collect(p.bodies.size()));
		if (!error.empty()) return error + " (schedule " + ScheduleString() + ")";
		if (prefix.empty()) { // The first schedule shows how long the program is: the largest affordable bound up to the wanted one.
			double points = 0;
			for (int i = 0; i < S->npoints; ++i) points += S->points[i].obj != 1;
			const double alternatives = points * double(p.bodies.size() - 1);
			double cost = 1;
			int b = 0;
			while (b < bound && (b < 1 || cost * alternatives / (b + 1) <= affordable)) { ++b; cost *= alternatives / b; }
			bound = b;
			++stats.bounds[std::min(bound, 7)];
		}
		// Alternatives after the prefix.
		int preempt = 0;
		std::vector<uint8_t> path;
		for (int i = 0; i < S->npoints; ++i) {
			const Point& q = S->points[i];
			if (i >= int(prefix.size()) && q.obj != 1)
				for (int t = 1; t < NT; ++t) {
					if (t == q.chosen || !(q.enabled >> t & 1)) continue;
					const int cost = !q.forced && t != q.cur;
					if (preempt + cost > bound) continue;
					auto alt = path;
					alt.push_back(uint8_t(t));
					todo.push_back(std::move(alt));
				}
			if (!q.forced && q.chosen != q.cur) ++preempt;
			path.push_back(q.chosen);
		}
		stats.maxPreemptions = std::max<uint64_t>(stats.maxPreemptions, uint64_t(preempt));
	}
	return "";
}
} // namespace sched
