// A replacement for the OpenMP runtime (GOMP_* entry points of gcc): teams of ordinary threads of any generated size.
// In serial mode only one thread of a team runs at a time, in a generated order, which shows dependence on that order;
// in parallel mode ThreadSanitizer sees every thread and synchronisation.
#pragma once
#include <pthread.h>
#include <omp.h>
#include <map>
#include <vector>
#include <algorithm>
#include <cstdint>
#include <cstdlib>
namespace gomp {
struct Loop { long next, end, incr, chunk; };
struct Team {
	int n = 1; pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER; pthread_cond_t c = PTHREAD_COND_INITIALIZER;
	bool serial = false; std::vector<int> order; size_t turn = 0; std::vector<char> done; // serial: order[turn] runs
	int arrived = 0; long phase = 0; std::map<long, Loop> loops; std::map<long, bool> singles; void* copied = nullptr;
};
struct Thread { int id = 0; Team* team = nullptr; long work = 0, single = 0; unsigned long long base = 0; };
inline thread_local Thread self;
inline int want = 1; inline bool serial = false; inline unsigned long seed = 1; inline long parallel_regions = 0;
inline pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER; inline std::map<void*, pthread_mutex_t*> locks;
inline void wait_turn(Team& t, int id) { while (t.order[t.turn] != id) pthread_cond_wait(&t.c, &t.m); }
inline void pass(Team& t) { for (int k = 0; k < t.n; k++) { t.turn = (t.turn + 1) % t.n; if (!t.done[t.order[t.turn]]) break; } pthread_cond_broadcast(&t.c); }
struct Start { void (*fn)(void*); void* data; Team* team; int id; };
inline void body(void (*fn)(void*), void* data, Team* t, int id) {
	Thread saved = self; self = Thread(); self.id = id; self.team = t;
	if (t->serial) { pthread_mutex_lock(&t->m); wait_turn(*t, id); pthread_mutex_unlock(&t->m); }
	fn(data);
	if (t->serial) { pthread_mutex_lock(&t->m); t->done[id] = 1; pass(*t); pthread_mutex_unlock(&t->m); }
	self = saved;
}
inline void* main_of(void* p) { Start* s = (Start*)p; body(s->fn, s->data, s->team, s->id); return nullptr; }
inline void run(void (*fn)(void*), void* data, unsigned nt, const Loop* loop) {
	Team t; t.n = self.team ? 1 : nt ? (int)nt : want; t.serial = serial && t.n > 1; parallel_regions++; if (loop) t.loops[0] = *loop;
	t.done.assign(t.n, 0); for (int i = 0; i < t.n; i++) t.order.push_back(i);
	for (int i = t.n - 1; i > 0; i--) { seed = seed * 6364136223846793005ul + 1442695040888963407ul; std::swap(t.order[i], t.order[(seed >> 33) % (i + 1)]); }
	std::vector<Start> s(t.n); std::vector<pthread_t> th(t.n); pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 64 << 20);
	for (int i = 1; i < t.n; i++) { s[i] = {fn, data, &t, i}; if (pthread_create(&th[i], &a, main_of, &s[i])) abort(); }
	body(fn, data, &t, 0); for (int i = 1; i < t.n; i++) pthread_join(th[i], nullptr); pthread_attr_destroy(&a);
}
inline void barrier() {
	Team* t = self.team; if (!t || t->n == 1) return; pthread_mutex_lock(&t->m); long p = t->phase;
	if (++t->arrived == t->n) { t->arrived = 0; t->phase++; pthread_cond_broadcast(&t->c); if (t->serial) pass(*t); }
	else { if (t->serial) pass(*t); while (t->phase == p) pthread_cond_wait(&t->c, &t->m); }
	if (t->serial) wait_turn(*t, self.id);
	pthread_mutex_unlock(&t->m);
}
inline bool take(Team* t, long k, long* a, long* b) {
	pthread_mutex_lock(&t->m); Loop& l = t->loops[k]; bool more = l.incr > 0 ? l.next < l.end : l.next > l.end;
	if (more) { long step = l.incr * std::max(1L, l.chunk); *a = l.next; long e = l.next + step; *b = l.incr > 0 ? std::min(e, l.end) : std::max(e, l.end); l.next = e; }
	pthread_mutex_unlock(&t->m); return more;
}
inline bool loop_start(long s, long e, long i, long c, long* a, long* b) { static Team alone; Team* t = self.team ? self.team : &alone; long k = ++self.work; pthread_mutex_lock(&t->m); if (!t->loops.count(k)) t->loops[k] = {s, e, i, c}; pthread_mutex_unlock(&t->m); return take(t, k, a, b); }
inline bool loop_next(long* a, long* b) { static Team alone; return take(self.team ? self.team : &alone, self.work, a, b); }
} // namespace gomp
extern "C" {
int omp_get_thread_num() noexcept { return gomp::self.id; }
int omp_get_num_threads() noexcept { return gomp::self.team ? gomp::self.team->n : 1; }
int omp_get_max_threads() noexcept { return gomp::want; }
int omp_get_num_procs() noexcept { return 8; }
int omp_in_parallel() noexcept { return gomp::self.team && gomp::self.team->n > 1; }
void omp_set_num_threads(int n) noexcept { gomp::want = n; }
void omp_set_dynamic(int) noexcept {}
void GOMP_parallel(void (*fn)(void*), void* data, unsigned nt, unsigned) { gomp::run(fn, data, nt, nullptr); }
void GOMP_barrier() { gomp::barrier(); }
void GOMP_critical_start() { pthread_mutex_lock(&gomp::lock); }
void GOMP_critical_end() { pthread_mutex_unlock(&gomp::lock); }
void GOMP_critical_name_start(void**) { pthread_mutex_lock(&gomp::lock); }
void GOMP_critical_name_end(void**) { pthread_mutex_unlock(&gomp::lock); }
void GOMP_atomic_start() { pthread_mutex_lock(&gomp::lock); }
void GOMP_atomic_end() { pthread_mutex_unlock(&gomp::lock); }
bool GOMP_single_start() { gomp::Team* t = gomp::self.team; if (!t) return true; long k = ++gomp::self.single; pthread_mutex_lock(&t->m); bool f = !t->singles[k]; t->singles[k] = true; pthread_mutex_unlock(&t->m); return f; }
#define LOOPS(kind) \
	void GOMP_parallel_loop_##kind(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, long c, unsigned) { gomp::Loop l{s, e, i, c}; gomp::run(fn, d, nt, &l); } \
	bool GOMP_loop_##kind##_start(long s, long e, long i, long c, long* a, long* b) { return gomp::loop_start(s, e, i, c, a, b); } \
	bool GOMP_loop_##kind##_next(long* a, long* b) { return gomp::loop_next(a, b); }
LOOPS(static) LOOPS(dynamic) LOOPS(guided) LOOPS(nonmonotonic_dynamic) LOOPS(nonmonotonic_guided)
#undef LOOPS
#define LOOPS(kind) \
	void GOMP_parallel_loop_##kind(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, unsigned) { gomp::Loop l{s, e, i, 1}; gomp::run(fn, d, nt, &l); } \
	bool GOMP_loop_##kind##_start(long s, long e, long i, long* a, long* b) { return gomp::loop_start(s, e, i, 1, a, b); } \
	bool GOMP_loop_##kind##_next(long* a, long* b) { return gomp::loop_next(a, b); }
LOOPS(runtime) LOOPS(nonmonotonic_runtime) LOOPS(maybe_nonmonotonic_runtime)
#undef LOOPS
// unsigned long long loops: the iteration space as signed distances from its start
typedef unsigned long long ull;
#define LOOPS(kind) \
	bool GOMP_loop_ull_##kind##_start(bool up, ull s, ull e, ull i, ull c, ull* a, ull* b) { (void)up; long x, y; long span = (long)(e - s); bool r = gomp::loop_start(0, span, (long)i, (long)c, &x, &y); gomp::self.base = s; if (r) { *a = s + x; *b = s + y; } return r; } \
	bool GOMP_loop_ull_##kind##_next(ull* a, ull* b) { long x, y; bool r = gomp::loop_next(&x, &y); if (r) { *a = gomp::self.base + x; *b = gomp::self.base + y; } return r; }
LOOPS(static) LOOPS(dynamic) LOOPS(guided) LOOPS(nonmonotonic_dynamic) LOOPS(nonmonotonic_guided)
#undef LOOPS
// sections: numbered 1..n, 0 when none is left
unsigned GOMP_sections_start(unsigned n) { long a, b; return gomp::loop_start(1, (long)n + 1, 1, 1, &a, &b) ? (unsigned)a : 0; }
unsigned GOMP_sections_next() { long a, b; return gomp::loop_next(&a, &b) ? (unsigned)a : 0; }
void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned nt, unsigned n, unsigned) { gomp::Loop l{1, (long)n + 1, 1, 1}; gomp::run(fn, d, nt, &l); }
void GOMP_sections_end() { gomp::barrier(); }
void GOMP_sections_end_nowait() {}
bool GOMP_cancel(int, bool) { return false; }
bool GOMP_cancellation_point(int) { return false; }
bool GOMP_barrier_cancel() { gomp::barrier(); return false; }
bool GOMP_loop_end_cancel() { gomp::barrier(); return false; }
bool GOMP_sections_end_cancel() { gomp::barrier(); return false; }
void* GOMP_single_copy_start() { gomp::Team* t = gomp::self.team; if (!t || GOMP_single_start()) return nullptr; gomp::barrier(); void* p = t->copied; gomp::barrier(); return p; }
void GOMP_single_copy_end(void* p) { gomp::Team* t = gomp::self.team; if (!t) return; t->copied = p; gomp::barrier(); gomp::barrier(); }
// tasks run where they are created
void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long size, long align, bool, unsigned, void**, int) {
	if (!cpy) { fn(data); return; } std::vector<char> buf(size + align); char* p = buf.data(); p += (align - (uintptr_t)p % align) % align; cpy(p, data); fn(p); }
void GOMP_taskwait() {}
void GOMP_taskyield() {}
void GOMP_taskgroup_start() {}
void GOMP_taskgroup_end() {}
// locks
void omp_init_lock(omp_lock_t* l) noexcept { pthread_mutex_lock(&gomp::lock); gomp::locks[l] = new pthread_mutex_t(PTHREAD_MUTEX_INITIALIZER); pthread_mutex_unlock(&gomp::lock); }
static pthread_mutex_t* gomp_lock_of(omp_lock_t* l) { pthread_mutex_lock(&gomp::lock); auto* m = gomp::locks[l]; pthread_mutex_unlock(&gomp::lock); return m; }
void omp_set_lock(omp_lock_t* l) noexcept { pthread_mutex_lock(gomp_lock_of(l)); }
int omp_test_lock(omp_lock_t* l) noexcept { return pthread_mutex_trylock(gomp_lock_of(l)) == 0; }
void omp_unset_lock(omp_lock_t* l) noexcept { pthread_mutex_unlock(gomp_lock_of(l)); }
void omp_destroy_lock(omp_lock_t*) noexcept {}
void GOMP_loop_end() { gomp::barrier(); }
void GOMP_loop_end_nowait() {}
}
