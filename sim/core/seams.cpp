// libc / libstdc++ seams: clocks, sleeps, threads, randomness, exit, allocation and stdio failures.
#include "simcore.h"
#include "internal.h"
#include <dlfcn.h>
#include <time.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <string.h>
#include <pthread.h>
#include <unistd.h>
#include <stdio.h>
#include <stdlib.h>
#include <errno.h>
#include <fcntl.h>
#include <string>
#include <map>
#include <set>
using namespace sim;
namespace sim {
	static uint64_t nClock, nFopen, nAlloc, nRand[MAXR]; static int64_t jump[MAXR];
	void seamReset() { nClock = nFopen = nAlloc = 0; memset(nRand, 0, sizeof nRand); memset(jump, 0, sizeof jump); }
	template<class F> static F real(const char *n) { return (F) dlsym(RTLD_NEXT, n); }
	static uint64_t wall() {
		int r = curRank(); uint64_t c = ++nClock; res->clocks = c; Fault *f;
		if (fault(FK_CLOCK_JUMP, c, &f)) { int k = f->arg % spec->nranks; jump[k] += f->arg2; }
		int64_t skew = 0; if (spec->clockSkew && r >= 0) skew = (int64_t)(hash3(spec->seed, 0x5e3, r) % 2000000000ULL) - 1000000000LL;
		return 1700000000000000000ULL + now() + (uint64_t) nClock * 37 + (r >= 0 ? jump[r] : 0) + skew;
	}
	static std::map<pthread_t, int> fakeThreads;
	static uintptr_t nextFake = 0x51000;
}
extern "C" {
int clock_gettime(clockid_t id, struct timespec *ts) {
	if (!active) { static auto f = real<int(*)(clockid_t, struct timespec*)>("clock_gettime"); return f(id, ts); }
	uint64_t t = wall(); ts->tv_sec = t / 1000000000ULL; ts->tv_nsec = t % 1000000000ULL; return 0;
}
int gettimeofday(struct timeval *tv, void *tz) {
	if (!active) { static auto f = real<int(*)(struct timeval*, void*)>("gettimeofday"); return f(tv, tz); }
	uint64_t t = wall(); tv->tv_sec = t / 1000000000ULL; tv->tv_usec = (t % 1000000000ULL) / 1000; return 0;
}
time_t time(time_t *p) {
	if (!active) { static auto f = real<time_t(*)(time_t*)>("time"); return f(p); }
	time_t t = wall() / 1000000000ULL; if (p) *p = t; return t;
}
int nanosleep(const struct timespec *a, struct timespec *b) {
	if (!active) { static auto f = real<int(*)(const struct timespec*, struct timespec*)>("nanosleep"); return f(a, b); }
	sleepNs(a->tv_sec * 1000000000ULL + a->tv_nsec); return 0;
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec *a, struct timespec *b) {
	if (!active) { static auto f = real<int(*)(clockid_t, int, const struct timespec*, struct timespec*)>("clock_nanosleep"); return f(c, fl, a, b); }
	sleepNs(a->tv_sec * 1000000000ULL + a->tv_nsec); return 0;
}
int usleep(useconds_t u) {
	if (!active) { static auto f = real<int(*)(useconds_t)>("usleep"); return f(u); }
	sleepNs(u * 1000ULL); return 0;
}
unsigned sleep(unsigned s) {
	if (!active) { static auto f = real<unsigned(*)(unsigned)>("sleep"); return f(s); }
	sleepNs(s * 1000000000ULL); return 0;
}
int sched_yield() { if (active) yieldNow("sched_yield", true); return 0; }
int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void*), void *arg) {
	if (!active) { static auto f = real<int(*)(pthread_t*, const pthread_attr_t*, void*(*)(void*), void*)>("pthread_create"); return f(t, a, fn, arg); }
	pthread_t id = (pthread_t) nextFake++;
	fakeThreads[id] = 0; *t = id;
	Fiber *f = spawn(curRank(), 100 + (int)(id & 0xff), [fn, arg] { fn(arg); }, nullptr, 2);
	f->onDone = [id] { fakeThreads[id] = 1; };
	yieldNow("thread-create"); return 0;
}
int pthread_join(pthread_t t, void **r) {
	if (!active || !fakeThreads.count(t)) { static auto f = real<int(*)(pthread_t, void**)>("pthread_join"); return f(t, r); }
	block([t] { return fakeThreads[t] == 1; }, "thread-join"); if (r) *r = nullptr; return 0;
}
int pthread_detach(pthread_t t) {
	if (!active || !fakeThreads.count(t)) { static auto f = real<int(*)(pthread_t)>("pthread_detach"); return f(t); }
	return 0;
}
// std::mutex between fibers
struct FMutex { Fiber *owner; int depth; };
static std::map<void*, FMutex> mtx;
int pthread_mutex_lock(pthread_mutex_t *m) {
	if (!active || !cur) { static auto f = real<int(*)(pthread_mutex_t*)>("pthread_mutex_lock"); return f ? f(m) : 0; }
	auto &x = mtx[m]; if (x.owner == cur) { x.depth++; return 0; }
	FMutex *p = &x; if (p->owner) { while (p->owner) block([p] { return p->owner == nullptr; }, "mutex"); }
	p->owner = cur; p->depth = 1; return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
	if (!active || !cur) { static auto f = real<int(*)(pthread_mutex_t*)>("pthread_mutex_trylock"); return f(m); }
	auto &x = mtx[m]; if (x.owner && x.owner != cur) return EBUSY; x.owner = cur; x.depth++; return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
	if (!active || !cur) { static auto f = real<int(*)(pthread_mutex_t*)>("pthread_mutex_unlock"); return f ? f(m) : 0; }
	auto it = mtx.find(m); if (it == mtx.end()) return 0;
	if (--it->second.depth <= 0) { it->second.owner = nullptr; it->second.depth = 0; yieldNow("mutex-unlock"); } return 0;
}
void exit(int code) {
	if (!active) { static auto f = real<void(*)(int)>("exit"); f(code); }
	rankExit(code);
}
int gethostname(char *n, size_t l) {
	if (!active) { static auto f = real<int(*)(char*, size_t)>("gethostname"); return f(n, l); }
	// seeded placement of ranks on nodes
	snprintf(n, l, "node%d", (int)(hash3(spec->seed, 0x4057, curRank()) % (spec->ip[30] > 0 ? spec->ip[30] : 1))); return 0;
}
int posix_memalign(void **p, size_t al, size_t n) {
	static auto f = real<int(*)(void**, size_t, size_t)>("posix_memalign");
	if (active) { uint64_t k = ++nAlloc; res->allocs = k; if (fault(FK_ALLOC_FAIL, k)) { *p = nullptr; return ENOMEM; } }
	int rc = f(p, al, n);
	if (active && rc == 0 && spec->perturb) memset(*p, 0xff ^ (spec->perturb & 0xff), n);
	return rc;
}
void *aligned_alloc(size_t al, size_t n) {
	static auto f = real<void*(*)(size_t, size_t)>("aligned_alloc");
	if (active) { uint64_t k = ++nAlloc; res->allocs = k; if (fault(FK_ALLOC_FAIL, k)) { errno = ENOMEM; return nullptr; } }
	return f(al, n);
}
FILE *fopen(const char *p, const char *m) {
	static auto f = real<FILE*(*)(const char*, const char*)>("fopen");
	if (active && strncmp(p, "/proc", 5) && strncmp(p, "/sys", 4)) {
		yieldNow("fopen"); { const char *b = strrchr(p, '/'); b = b ? b + 1 : p; const char *cn[] = { "stop", "abort", "savejaxconf" }; for (int i = 0; i < 3; i++) if (!strcmp(b, cn[i])) res->polls[i]++; } uint64_t k = ++nFopen; res->fopens = k;
		if (fault(FK_FOPEN_FAIL, k)) { const char *b = strrchr(p, '/'); snprintf(res->failedFile, sizeof res->failedFile, "%s", b ? b + 1 : p); errno = EMFILE; return nullptr; }
	}
	return f(p, m);
}
FILE *fopen64(const char *p, const char *m) { return fopen(p, m); }
int remove(const char *p) { static auto f = real<int(*)(const char*)>("remove"); if (active) yieldNow("remove"); return f(p); }
int rename(const char *a, const char *b) { static auto f = real<int(*)(const char*, const char*)>("rename"); if (active) { yieldNow("rename"); diskOp(1); diskRename(a, b); } return f(a, b); }
int stat(const char *p, struct stat *s) { static auto f = real<int(*)(const char*, struct stat*)>("stat"); if (active) yieldNow("stat"); return f(p, s); }
void sim_control_file(const char *name) { static auto f = real<FILE*(*)(const char*, const char*)>("fopen"); FILE *h = f(name, "w"); if (h) fclose(h); }
// function-local statics: a fiber may be preempted inside the initialiser
static std::map<void*, Fiber*> guards;
int __cxa_guard_acquire(long long *g) {
	if (*(char*) g) return 0;
	if (!active || !cur) return 1;
	Fiber *&o = guards[g]; Fiber **p = &o;
	if (o == cur) return 1;
	while (*p) block([p] { return *p == nullptr; }, "static-init");
	if (*(char*) g) return 0;
	*p = cur; return 1;
}
void __cxa_guard_release(long long *g) { *(char*) g = 1; if (active) guards[g] = nullptr; }
void __cxa_guard_abort(long long *g) { if (active) guards[g] = nullptr; }
}
// FFTW's planner times candidate plans with rdtsc; its timing routine is replaced (in the per-rank copies) by a seeded cost, so which
// algorithm "wins" is a seeded choice (as in the real routine, the ranks agree on the time of a distributed plan).  As in the real routine the arrays of the problem are overwritten with zeros.
extern "C" double sim_fftw_measure(const void *plnr, void *pln, const void *p) {
	void **adt = *(void***) p; ((void(*)(const void*)) adt[2])(p);
	const double *ops = (const double*) ((char*) pln + 8); double c = ops[0] + ops[1] + 2 * ops[2] + ops[3];
	static uint64_t n = 0; if (!active) return c;
	res->rds++;
	double u = (hash3(spec->seed, 0xff7, ++n) >> 11) * (1.0 / 9007199254740992.0);
	c = c * (1 + u) + 1; auto hook = ((double (*const *)(const void*, double, int)) plnr)[2];   // the MPI planner makes the ranks agree on the largest time
	return hook ? hook(p, c, 1) : c;
}
#include <random>
unsigned int std::random_device::_M_getval() {
	if (!active) { static uint64_t n = 0; return (unsigned) mix64(++n); }
	int r = curRank(); res->randomDevice++;
	return (unsigned) hash3(spec->ip[31] ? (uint64_t) spec->ip[31] : spec->seed, 0x4a4d + r, nRand[r]++);
}
double std::random_device::_M_getentropy() const noexcept { return 0; }
