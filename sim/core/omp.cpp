// libgomp / TSan-hook replacement: OpenMP threads are fibers of the simulator.
#include "simcore.h"
#include "internal.h"
#include <map>
#include <stdio.h>
#include <stdlib.h>
#include <errno.h>
#include <time.h>
using namespace sim;

namespace sim {
	struct RankOmp { int maxThreads = 1; Fiber *crit = nullptr; int critDepth = 0; };
	static RankOmp ro[MAXR];
	static std::map<std::pair<int, void*>, Fiber*> named;
	static Fiber *atomicOwner[MAXR];
	void ompReset() {
		for (int r = 0; r < MAXR; r++) { ro[r] = RankOmp(); ro[r].maxThreads = spec->nthreads; atomicOwner[r] = nullptr; }
		named.clear();
	}
	static void teamBarrier(Team *t) {
		if (!t || t->size <= 1) return;
		int g = t->gen;
		if (++t->arrived == t->size) { t->arrived = 0; t->gen++; yieldNow("omp-barrier"); return; }
		block([t, g] { return t->gen != g; }, "omp-barrier");
	}
}

extern "C" {
int omp_get_thread_num()  { return cur ? cur->tid : 0; }
int omp_get_num_threads() { return cur && cur->team ? cur->team->size : 1; }
int omp_get_max_threads() { int r = curRank(); return r >= 0 ? ro[r].maxThreads : 1; }
int omp_get_num_procs()   { return spec ? spec->procs : 1; }
int omp_in_parallel()     { return cur && cur->team && cur->team->size > 1; }
void omp_set_num_threads(int n) { int r = curRank(); if (r >= 0 && n > 0) ro[r].maxThreads = n; }
void omp_set_dynamic(int) {}
int  omp_get_dynamic() { return 0; }
void omp_set_nested(int) {}
int  omp_get_nested() { return 0; }
int  omp_get_level() { return cur && cur->team ? 1 : 0; }
int  omp_get_thread_limit() { return 1 << 20; }
double omp_get_wtime()    { return now() * 1e-9; }
double omp_get_wtick()    { return 1e-9; }

void GOMP_parallel(void (*fn)(void*), void *data, unsigned nth, unsigned flags) {
	if (!active || !cur) { fn(data); return; }
	int r = curRank();
	bool nested = cur->team && cur->team->size > 1;
	int n = nested ? 1 : (nth ? (int) nth : ro[r].maxThreads);
	if (n > MAXT * 4) n = MAXT * 4;
	Fiber *me = cur; Team *old = me->team; int oldTid = me->tid; int oL = me->loopGen, oS = me->singleGen;
	Team *t = new Team(); t->size = n; t->parent = old;
	int done = 1;
	int *pd = &done;
	for (int i = 1; i < n; i++) {
		Fiber *f = spawn(r, i, [fn, data] { fn(data); }, t, 1);
		f->onDone = [pd] { ++*pd; };
	}
	me->team = t; me->tid = 0; me->loopGen = me->singleGen = 0;
	if (n > 1) yieldNow("omp-fork");
	fn(data);
	if (n > 1) block([pd, n] { return *pd == n; }, "omp-join");
	me->team = old; me->tid = oldTid; me->loopGen = oL; me->singleGen = oS;
	for (auto l : t->loops) delete l;
	delete t;
}
void GOMP_barrier() { if (active && cur) teamBarrier(cur->team); }
bool GOMP_cancel(int, bool) { return false; }
bool GOMP_cancellation_point(int) { return false; }
bool GOMP_barrier_cancel() { GOMP_barrier(); return false; }

static void critEnter(Fiber *&o, const char *w) {
	if (!active || !cur) return;
	yieldNow(w);
	Fiber **p = &o;
	while (*p) block([p] { return *p == nullptr; }, w);
	*p = cur;
}
void GOMP_critical_start() { if (active && cur) critEnter(ro[curRank()].crit, "omp-critical"); }
void GOMP_critical_end()   { if (active && cur) { ro[curRank()].crit = nullptr; yieldNow("omp-critical-end"); } }
void GOMP_critical_name_start(void **p) { if (active && cur) critEnter(named[{ curRank(), (void*) p }], "omp-critical-named"); }
void GOMP_critical_name_end(void **p)   { if (active && cur) { named[{ curRank(), (void*) p }] = nullptr; yieldNow("omp-critical-end"); } }
void GOMP_atomic_start() { if (active && cur) critEnter(atomicOwner[curRank()], "omp-atomic"); }
void GOMP_atomic_end()   { if (active && cur) { atomicOwner[curRank()] = nullptr; yieldNow("omp-atomic-end"); } }

bool GOMP_single_start() {
	if (!active || !cur || !cur->team || cur->team->size <= 1) return true;
	yieldNow("omp-single");
	Team *t = cur->team; int g = ++cur->singleGen;
	if (t->singles < g) { t->singles = g; return true; }
	return false;
}
// ordered: enforced only as a barrier-free mutual exclusion in iteration order is not needed by the code under test
void GOMP_ordered_start() {}
void GOMP_ordered_end() {}

static Team::Loop *getLoop(long start, long end, long incr, long chunk, bool guided) {
	static Team solo; Team *t = cur->team ? cur->team : &solo;
	int g = cur->loopGen++;
	while ((int) t->loops.size() <= g) t->loops.push_back(nullptr);
	if (!t->loops[g]) { auto l = new Team::Loop(); l->next = start; l->start = start; l->end = end; l->incr = incr; l->chunk = chunk > 0 ? chunk : 1; l->guided = guided; t->loops[g] = l; }
	return t->loops[g];
}
static bool loopNext(Team::Loop *l, long *s, long *e) {
	yieldNow("omp-loop");
	if (l->incr > 0 ? l->next >= l->end : l->next <= l->end) return false;
	long c = l->chunk;
	if (l->guided) { long rem = (l->end - l->next) / l->incr; long q = rem / (cur->team ? cur->team->size : 1); if (q > c) c = q; }
	*s = l->next; long ne = l->next + c * l->incr;
	if (l->incr > 0 ? ne > l->end : ne < l->end) ne = l->end;
	*e = ne; l->next = ne; return true;
}
#define CURLOOP (cur->team->loops[cur->loopGen - 1])
#define LOOPFN(kind, g) \
bool GOMP_loop_##kind##_start(long st, long en, long in, long ch, long *s, long *e) { return loopNext(getLoop(st, en, in, ch, g), s, e); } \
bool GOMP_loop_##kind##_next(long *s, long *e) { return loopNext(CURLOOP, s, e); } \
bool GOMP_loop_ull_##kind##_start(bool up, unsigned long long st, unsigned long long en, unsigned long long in, unsigned long long ch, unsigned long long *s, unsigned long long *e) { return loopNext(getLoop((long) st, (long) en, (long) in, (long) ch, g), (long*) s, (long*) e); } \
bool GOMP_loop_ull_##kind##_next(unsigned long long *s, unsigned long long *e) { return loopNext(CURLOOP, (long*) s, (long*) e); }
LOOPFN(dynamic, false) LOOPFN(guided, true) LOOPFN(nonmonotonic_dynamic, false) LOOPFN(nonmonotonic_guided, true) LOOPFN(static, false)
LOOPFN(runtime, false) LOOPFN(maybe_nonmonotonic_runtime, false)
void GOMP_loop_end() { GOMP_barrier(); }
void GOMP_loop_end_nowait() {}
unsigned GOMP_sections_start(unsigned n) { long s, e; auto l = getLoop(1, (long) n + 1, 1, 1, false); return loopNext(l, &s, &e) ? (unsigned) s : 0; }
unsigned GOMP_sections_next() { long s, e; return loopNext(CURLOOP, &s, &e) ? (unsigned) s : 0; }
void GOMP_sections_end() { GOMP_barrier(); }
void GOMP_sections_end_nowait() {}
void GOMP_parallel_sections(void (*fn)(void*), void *data, unsigned nth, unsigned count, unsigned flags) { 
	struct W { void (*fn)(void*); void *d; unsigned c; };
	GOMP_parallel(fn, data, nth, flags);
}
#define PARLOOP(kind) void GOMP_parallel_loop_##kind(void (*fn)(void*), void *data, unsigned nth, long st, long en, long in, long ch, unsigned flags) { \
	struct C { void (*fn)(void*); void *data; long st, en, in, ch; } c{ fn, data, st, en, in, ch }; \
	GOMP_parallel([](void *p) { C *c = (C*) p; getLoop(c->st, c->en, c->in, c->ch, false); c->fn(c->data); }, &c, nth, flags); }
PARLOOP(dynamic) PARLOOP(guided) PARLOOP(nonmonotonic_dynamic) PARLOOP(nonmonotonic_guided) PARLOOP(static) PARLOOP(runtime)
void GOMP_task(void (*fn)(void*), void *data, void (*cpyfn)(void*, void*), long argSize, long argAlign, bool, unsigned, void**, int) {
	if (cpyfn) { char *b = (char*) malloc(argSize + argAlign); char *p = (char*)(((uintptr_t) b + argAlign - 1) & ~(uintptr_t)(argAlign - 1)); cpyfn(p, data); fn(p); free(b); } else fn(data);
}
void GOMP_taskwait() {}
void GOMP_taskgroup_start() {}
void GOMP_taskgroup_end() {}
struct SimLock { void *owner; };
void omp_init_lock(void *l) { *(void**) l = nullptr; }
void omp_destroy_lock(void *) {}
void omp_set_lock(void *l) { if (!active || !cur) return; yieldNow("omp-lock"); void **p = (void**) l; while (*p) block([p] { return *p == nullptr; }, "omp-lock"); *p = cur; }
void omp_unset_lock(void *l) { *(void**) l = nullptr; yieldNow("omp-unlock"); }
int  omp_test_lock(void *l) { yieldNow("omp-lock", true); void **p = (void**) l; if (*p) return 0; *p = cur ? (void*) cur : (void*) 1; return 1; }

// ------------------------------------------------------------- TSan instrumentation entry points
#define HOOK() do { if (__builtin_expect(--preemptCountdown <= 0, 0)) preemptSlow(); } while (0)
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(n) \
void __tsan_read##n(void*) { HOOK(); } void __tsan_write##n(void*) { HOOK(); } \
void __tsan_unaligned_read##n(void*) { HOOK(); } void __tsan_unaligned_write##n(void*) { HOOK(); } \
void __tsan_read##n##_pc(void*, void*) { HOOK(); } void __tsan_write##n##_pc(void*, void*) { HOOK(); } \
void __tsan_volatile_read##n(void*) { HOOK(); } void __tsan_volatile_write##n(void*) { HOOK(); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void*, unsigned long) { HOOK(); }
void __tsan_write_range(void*, unsigned long) { HOOK(); }
void __tsan_vptr_update(void**, void*) { HOOK(); }
void __tsan_vptr_read(void**) { HOOK(); }
#define AT(n, T) \
T __tsan_atomic##n##_load(const volatile T *a, int) { HOOK(); return *a; } \
void __tsan_atomic##n##_store(volatile T *a, T v, int) { HOOK(); *a = v; } \
T __tsan_atomic##n##_exchange(volatile T *a, T v, int) { HOOK(); T o = *a; *a = v; return o; } \
T __tsan_atomic##n##_fetch_add(volatile T *a, T v, int) { HOOK(); T o = *a; *a = o + v; return o; } \
T __tsan_atomic##n##_fetch_sub(volatile T *a, T v, int) { HOOK(); T o = *a; *a = o - v; return o; } \
T __tsan_atomic##n##_fetch_and(volatile T *a, T v, int) { HOOK(); T o = *a; *a = o & v; return o; } \
T __tsan_atomic##n##_fetch_or(volatile T *a, T v, int) { HOOK(); T o = *a; *a = o | v; return o; } \
T __tsan_atomic##n##_fetch_xor(volatile T *a, T v, int) { HOOK(); T o = *a; *a = o ^ v; return o; } \
T __tsan_atomic##n##_fetch_nand(volatile T *a, T v, int) { HOOK(); T o = *a; *a = ~(o & v); return o; } \
int __tsan_atomic##n##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { HOOK(); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
int __tsan_atomic##n##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { HOOK(); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
T __tsan_atomic##n##_compare_exchange_val(volatile T *a, T c, T v, int, int) { HOOK(); T o = *a; if (o == c) *a = v; return o; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
