#include <execinfo.h>
// Fibers, seeded scheduler, simulated time, observations, job life cycle.
#include "simcore.h"
#include "internal.h"
#include <sys/mman.h>
#include <sys/prctl.h>
#include <signal.h>
#include <ucontext.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <cxxabi.h>
#include <dlfcn.h>
#include <malloc.h>
#include <string>
#include <algorithm>

const char *const faultKindNames[FK_NKINDS] = { "none","crash-at-diskop","crash-mid-write","powerloss-at-diskop","crash-at-step","write-eio","write-enospc","write-short","read-eio","read-short","open-fail","fopen-fail","alloc-fail","clock-jump","stall","control-file" };
const char *const outcomeNames[] = { "none","done","exit","mpi-abort","signal","deadlock","step-limit","mpi-protocol","crashed","internal" };

extern "C" void sim_swap(void **saveSp, void *newSp);
asm(R"(
.text
.globl sim_swap
.type sim_swap,@function
sim_swap:
	pushq %rbp; pushq %rbx; pushq %r12; pushq %r13; pushq %r14; pushq %r15
	subq $16,%rsp
	stmxcsr (%rsp)
	fnstcw 4(%rsp)
	movq %rsp,(%rdi)
	movq %rsi,%rsp
	ldmxcsr (%rsp)
	fldcw 4(%rsp)
	addq $16,%rsp
	popq %r15; popq %r14; popq %r13; popq %r12; popq %rbx; popq %rbp
	ret
.size sim_swap,.-sim_swap
)");

namespace sim {
bool active = false;
JobSpec *spec = nullptr;
JobResult *res = nullptr;
Fiber *cur = nullptr;
static std::vector<Fiber*> fibers;      // by id; finished ones stay (state DONE)
static std::vector<Fiber*> live;
static Rng *schedRng = nullptr;
static uint64_t simTime = 0, stepNo = 0, lastProgress = 0, evHash = 0, schedHash = 0;
static char *obsBuf = nullptr; static size_t obsCap = 0;
static void *schedSp = nullptr;         // main (scheduler) stack
static int liveMains = 0;
static uint32_t devIdx = 0;
long preemptCountdown = 0x7fffffffffffffffL;
static std::vector<int> prio;           // PCT
static int prioLow = 0;
static uint64_t stallUntil[MAXR]; 
static bool ending = false;
uint64_t nAccess = 0;

size_t obsCapacity() { return obsCap; }
int curRank() { return cur ? cur->rank : -1; }
int curTid()  { return cur ? cur->tid : 0; }
uint64_t now() { return simTime; }
static int logFd = -1;
void note(uint64_t x) { if (logFd >= 0) dprintf(logFd, "%llu r%d f%d %s %llx acc %llu\n", (unsigned long long) stepNo, curRank(), cur ? cur->id : -1, cur ? cur->why : "-", (unsigned long long) x, (unsigned long long) nAccess); evHash = mix64(evHash ^ x) + (evHash << 1); }
void reach(int i) { if (res && i >= 0 && i < 64) res->reached[i]++; }
bool fiberIsMain(Fiber *f) { return f->kind == 0; }
const char *fiberWhy(Fiber *f) { return f->why; }
uint64_t steps() { return stepNo; }

static uint64_t strHash(const char *s) { uint64_t h = 1469598103934665603ULL; while (*s) { h ^= (unsigned char)*s++; h *= 1099511628211ULL; } return h; }

bool fault(int kind, int64_t ordinal, Fault **out) {
	for (int i = 0; i < spec->nfaults; i++) {
		Fault &f = spec->faults[i];
		if (f.kind == kind && (f.at == ordinal || (kind == FK_WRITE_ENOSPC && ordinal >= f.at))) {
			res->fired[kind]++;
			note(strHash(faultKindNames[kind]) ^ (uint64_t) ordinal);
			if (out) *out = &f;
			return true;
		}
	}
	return false;
}

static void *newStack(size_t sz) {
	char *p = (char*) mmap(nullptr, sz + 4096, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
	if (p == MAP_FAILED) { fprintf(stderr, "sim: stack mmap failed\n"); _exit(98); }
	mprotect(p, 4096, PROT_NONE);
	// seeded garbage in the part a fiber is likely to touch first: uninitialised stack reads become seed-dependent but repeatable
	size_t fill = 65536; memset(p + 4096 + sz - fill, spec->perturb & 0xff, fill);
	return p;
}

static std::vector<void*> stackPool[2];

static void fiberMain() {
	Fiber *f = cur;
	f->fn();
	fiberExit();
}

static void fiberTramp() { fiberMain(); __builtin_trap(); }

Fiber *spawn(int rank, int tid, std::function<void()> fn, Team *team, int kind) {
	Fiber *f = new Fiber();
	f->id = fibers.size(); f->rank = rank; f->tid = tid; f->fn = std::move(fn); f->team = team; f->kind = kind;
	f->stackSz = kind == 0 ? (16u << 20) : (8u << 20);
	int pool = kind == 0 ? 0 : 1;
	if (!stackPool[pool].empty()) { f->stack = stackPool[pool].back(); stackPool[pool].pop_back(); memset((char*)f->stack + 4096 + f->stackSz - 16384, spec->perturb & 0xff, 16384); }
	else f->stack = newStack(f->stackSz);
	uint64_t *sp = (uint64_t*) ((char*) f->stack + 4096 + f->stackSz);
	*--sp = 0;
	*--sp = (uint64_t) fiberTramp;
	for (int i = 0; i < 6; i++) *--sp = 0;
	sp -= 2; uint32_t mx = 0x1f80; uint16_t cw = 0x37f; memset(sp, 0, 16); memcpy(sp, &mx, 4); memcpy((char*)sp + 4, &cw, 2);
	f->sp = sp;
	f->prio = (int)(hash3(spec->schedSeed, 77, f->id) & 0xffffff) + 0x1000000;
	fibers.push_back(f); live.push_back(f);
	if (kind == 0) liveMains++;
	return f;
}

static bool stalled(Fiber *f) { return f->rank >= 0 && f->rank < MAXR && stallUntil[f->rank] > stepNo; }

static bool runnable(Fiber *f) {
	switch (f->st) {
		case FS_READY: return true;
		case FS_SLEEP: if (simTime >= f->wake) { f->st = FS_READY; return true; } return false;
		case FS_BLOCK: if (f->pred()) { f->st = FS_READY; return true; } return false;
		default: return false;
	}
}

struct EhGlobals { void *caught; unsigned int uncaught; };

static void switchTo(Fiber *n) {
	Fiber *o = cur;
	if (o == n) return;
	res->switches++;
	EhGlobals *g = (EhGlobals*) abi::__cxa_get_globals();
	void **save;
	if (o) { o->err = errno; o->ehCaught = g->caught; o->ehUncaught = g->uncaught; save = &o->sp; } else save = &schedSp;
	cur = n;
	g->caught = n->ehCaught; g->uncaught = n->ehUncaught;
	errno = n->err;
	sim_swap(save, n->sp);
	// back on o's stack; globals were installed by whoever switched to us
}

static Fiber *cyclicNext(Fiber *from, bool includeFrom) {
	size_t n = live.size(); if (!n) return nullptr;
	size_t i0 = 0;
	for (size_t i = 0; i < n; i++) if (live[i] == from) { i0 = i; break; }
	for (size_t k = includeFrom ? 0 : 1; k <= n; k++) { Fiber *f = live[(i0 + k) % n]; if (!stalled(f) && runnable(f)) return f; }
	return nullptr;
}

void describeBlocked(char *buf, size_t n) {
	size_t p = 0; buf[0] = 0;
	for (auto f : live) {
		if (p + 64 > n) break;
		p += snprintf(buf + p, n - p, "%s[rank %d%s%d: %s]", p ? " " : "", f->rank, f->kind == 2 ? " aux" : " thr ", f->tid, f->st == FS_READY ? "ready" : f->why);
	}
}

static void noProgress(const char *kind) {
	char b[480]; describeBlocked(b, sizeof b);
	snprintf(res->where, sizeof res->where, "%s", b);
	endJob(OC_DEADLOCK, curRank(), 0, "%s: %s", kind, b);
}

// choose the next fiber to run after cur yielded
static Fiber *pick(bool poll, const char *why) {
	for (;;) {
		Fiber *def = nullptr;
		bool curOk = cur && cur->st != FS_DONE && !stalled(cur) && runnable(cur);
		if (curOk && !poll) def = cur; else def = cyclicNext(cur, false);
		if (!def) {
			// nothing runnable: unstall or advance simulated time to the next timer
			bool un = false; for (int r = 0; r < MAXR; r++) if (stallUntil[r] > stepNo) { stallUntil[r] = 0; un = true; }
			if (un) continue;
			uint64_t w = ~0ULL; for (auto f : live) if (f->st == FS_SLEEP && f->wake < w) w = f->wake;
			extern uint64_t mpiNextDelivery(); uint64_t d = mpiNextDelivery(); if (d > simTime && d < w) w = d;
			if (w == ~0ULL || w <= simTime) { noProgress("deadlock"); }
			simTime = w; continue;
		}
		Fiber *n = def;
		switch (spec->schedMode) {
			case SM_RUN: break;
			case SM_RR: n = cyclicNext(cur, true); { Fiber *x = cyclicNext(cur, false); if (x) n = x; } break;
			case SM_RANDOM: case SM_STARVE: case SM_PCT: {
				static std::vector<Fiber*> c; c.clear();
				for (auto f : live) if (!stalled(f) && runnable(f)) c.push_back(f);
				if (spec->schedMode == SM_STARVE && c.size() > 1 && schedRng->below(64)) {
					std::vector<Fiber*> d2; for (auto f : c) if (f->rank != spec->starve) d2.push_back(f);
					if (!d2.empty() && !(poll && d2.size() == 1 && d2[0] == cur)) c.swap(d2);
				}
				if (spec->schedMode == SM_PCT) {
					if (poll || schedRng->below(48) == 0) cur->prio = --prioLow;
					n = c[0]; for (auto f : c) if (f->prio > n->prio) n = f;
				} else n = c[schedRng->below(c.size())];
				break;
			}
			case SM_TRACE:
				while (devIdx < (uint32_t) spec->ndev && spec->devs[devIdx].step < stepNo) devIdx++;
				if (devIdx < (uint32_t) spec->ndev && spec->devs[devIdx].step == stepNo) {
					int id = spec->devs[devIdx++].fiber;
					if (id >= 0 && id < (int) fibers.size()) { Fiber *f = fibers[id]; if (f->st != FS_DONE && !stalled(f) && runnable(f)) n = f; }
				}
				break;
		}
		if (n != def) { if (res->ndev < MAXDEV) res->devs[res->ndev] = Dev{ (uint32_t) stepNo, n->id }; res->ndev++; }
		return n;
	}
}

static void stepHousekeeping(const char *why, bool poll) {
	stepNo++;
	simTime += 300 + (mix64(stepNo ^ spec->seed) & 1023);
	uint64_t h = strHash(why) ^ ((uint64_t)(cur ? cur->id : 255) << 32);
	schedHash = mix64(schedHash ^ h); note(h);
	if (!poll && cur && cur->kind != 2) lastProgress = stepNo;
	if (stepNo - lastProgress > 40000) noProgress("no progress (only polling)");
	if (stepNo > spec->maxSteps) { char b[400]; describeBlocked(b, sizeof b); endJob(OC_STEPLIMIT, curRank(), 0, "step limit %llu: %s", (unsigned long long) spec->maxSteps, b); }
	for (int i = 0; i < spec->nfaults; i++) {
		Fault &f = spec->faults[i];
		if ((uint64_t) f.at != stepNo) continue;
		if (f.kind == FK_CRASH_STEP) { res->fired[FK_CRASH_STEP]++; materialiseCrash(f.arg2 != 0, f.arg); endJob(OC_CRASHED, curRank(), 0, "injected crash at step %llu", (unsigned long long) stepNo); }
		if (f.kind == FK_STALL && f.arg >= 0 && f.arg < spec->nranks) { res->fired[FK_STALL]++; stallUntil[f.arg] = stepNo + f.arg2; }
		if (f.kind == FK_FILE_APPEAR) { res->fired[FK_FILE_APPEAR]++; static const char *nm[] = { "./stop", "./abort", "./savejaxconf" }; int w = f.arg % 3; res->appeared[w]++; res->pollsAt[w] = res->polls[w]; sim_control_file(nm[w]); }
	}
}

void yieldNow(const char *why, bool poll) {
	if (!active || !cur) return;
	cur->why = why;
	stepHousekeeping(why, poll);
	Fiber *n = pick(poll, why);
	if (n != cur) switchTo(n);
}

void block(const std::function<bool()> &pred, const char *why) {
	if (!active || !cur) return;
	cur->why = why;
	stepHousekeeping(why, false);
	if (!pred()) { cur->pred = pred; cur->st = FS_BLOCK; }
	Fiber *n = pick(false, why);
	if (n != cur) switchTo(n);
	cur->pred = nullptr;
}

void sleepNs(uint64_t ns) {
	cur->why = "sleep"; cur->wake = simTime + ns; cur->st = FS_SLEEP;
	stepHousekeeping("sleep", true);
	Fiber *n = pick(true, "sleep");
	if (n != cur) switchTo(n);
}

void killRankFibers(int rank, Fiber *except) {
	for (auto f : live) if (f->rank == rank && f != except) f->st = FS_DONE;
	live.erase(std::remove_if(live.begin(), live.end(), [](Fiber *f){ return f->st == FS_DONE; }), live.end());
}

void fiberExit() {
	Fiber *f = cur;
	stepHousekeeping("fiber-end", false);
	f->st = FS_DONE;
	live.erase(std::find(live.begin(), live.end(), f));
	if (f->kind != 0) stackPool[1].push_back(nullptr), stackPool[1].pop_back();
	if (f->onDone) f->onDone();
	f->fn = nullptr;
	if (f->kind == 0) {
		liveMains--;
		res->returned[f->rank] = 1;
		if (liveMains == 0) endJob(OC_DONE, -1, 0, "all ranks returned");
		if (!res->finalized[f->rank]) endJob(OC_EXIT, f->rank, res->retcode[f->rank], "rank %d ended (code %d) without MPI_Finalize while others were running", f->rank, res->retcode[f->rank]);
		killRankFibers(f->rank, nullptr);
	}
	// the stack of a finished fiber is recycled once we are off it
	static Fiber *zombie = nullptr;
	if (zombie && zombie->stack) { stackPool[zombie->kind == 0 ? 0 : 1].push_back(zombie->stack); zombie->stack = nullptr; }
	zombie = f;
	Fiber *n;
	{
		// cyclic default relative to a finished fiber: first live one with a larger id
		for (;;) {
			n = nullptr;
			Fiber *save = cur;
			if (live.empty()) noProgress("no fibers left");
			cur = live[0];
			for (auto g : live) if (g->id > f->id) { cur = g; break; }
			n = nullptr;
			// reuse pick() with a poll so that default = next runnable
			Fiber *base = cur; (void) base;
			n = pick(true, "fiber-end");
			cur = save;
			break;
		}
	}
	switchTo(n);
	__builtin_trap();
}

void endJob(int outcome, int rank, int code, const char *fmt, ...) {
	if (ending) _exit(0);
	ending = true;
	va_list ap; va_start(ap, fmt); vsnprintf(res->msg, sizeof res->msg, fmt, ap); va_end(ap);
	res->outcome = outcome; res->rank = rank; res->code = code;
	res->steps = stepNo; res->simNs = simTime; res->accesses = nAccess;
	res->schedHash = schedHash;
	note(strHash(res->msg)); note(outcome);
	res->hash = evHash;
	active = false;
	if (outcome == OC_DONE || outcome == OC_EXIT) { fflush(nullptr); }
	else if (outcome != OC_SIGNAL) fflush(stdout);
	_exit(0);
}

// ---------------------------------------------------------------- signals (TSC trap + real crashes)
static uint64_t tscTicks = 0;
static void onSegv(int sig, siginfo_t *si, void *uc_) {
	ucontext_t *uc = (ucontext_t*) uc_;
	unsigned char *ip = (unsigned char*) uc->uc_mcontext.gregs[REG_RIP];
	if (sig == SIGSEGV && si->si_code == SI_KERNEL && active) {
		int len = 0;
		if (ip[0] == 0x0f && ip[1] == 0x31) len = 2;
		else if (ip[0] == 0x0f && ip[1] == 0x01 && ip[2] == 0xf9) len = 3;
		if (len) {
			tscTicks++;
			uint64_t t = simTime * 3 + tscTicks * 40000 + (hash3(spec->seed, 0x75c, tscTicks) & 0x3fff);
			uc->uc_mcontext.gregs[REG_RAX] = t & 0xffffffffu; uc->uc_mcontext.gregs[REG_RDX] = t >> 32;
			if (len == 3) uc->uc_mcontext.gregs[REG_RCX] = 0;
			uc->uc_mcontext.gregs[REG_RIP] += len;
			if (res) res->rds = tscTicks;
			return;
		}
	}
	if (sig == SIGXCPU) endJob(OC_STEPLIMIT, curRank(), 0, "rank %d uses up its processor time without reaching a scheduling point", curRank());
	if (res) {
		res->sig = sig;
		Dl_info di; const char *sym = "?"; 
		bool inMod = dladdr((void*) ip, &di); const char *fn = inMod && di.dli_fname ? di.dli_fname : "?"; if (const char *q = strrchr(fn, '/')) fn = q + 1;
		if (inMod && di.dli_sname) sym = di.dli_sname;
		snprintf(res->where, sizeof res->where, "%s (%s+0x%lx)", sym, fn, inMod ? (unsigned long) (ip - (unsigned char*) di.dli_fbase) : 0ul);
		if (getenv("SIM_BT")) { void *bt[64]; int nb = backtrace(bt, 64); for (int i = 0; i < nb; i++) { Dl_info d; if (dladdr(bt[i], &d)) dprintf(1, "FRAME %s +%lx (%s+0x%lx)\n", d.dli_sname ? d.dli_sname : "?", d.dli_saddr ? (long) ((char*) bt[i] - (char*) d.dli_saddr) : 0, d.dli_fname, (long) ((char*) bt[i] - (char*) d.dli_fbase)); } uint64_t *sp = (uint64_t*) uc->uc_mcontext.gregs[REG_RSP];     // plausible return addresses on the stack
			for (int i = 0, k = 0; i < 900 && k < 30; i++) { Dl_info d; if (dladdr((void*) sp[i], &d) && d.dli_sname && d.dli_fname) { dprintf(1, "BT %s +%lx (%s+0x%lx)\n", d.dli_sname, (long) (sp[i] - (uint64_t) d.dli_saddr), d.dli_fname, (long) (sp[i] - (uint64_t) d.dli_fbase)); k++; } } }
	}
	endJob(OC_SIGNAL, curRank(), sig, "signal %d in rank %d at %s", sig, curRank(), res ? res->where : "?");
}

static void installSignals() {
	static char *alt = (char*) mmap(nullptr, 1 << 18, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
	stack_t ss{}; ss.ss_sp = alt; ss.ss_size = 1 << 18; sigaltstack(&ss, nullptr);
	struct sigaction sa{}; sa.sa_sigaction = onSegv; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
	for (int s : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGXCPU }) sigaction(s, &sa, nullptr);
}

void runJob(JobSpec *s, JobResult *r, char *obs, size_t cap, std::function<int(int)> rankMain) {
	spec = s; res = r; obsBuf = obs; obsCap = cap;
	memset(r, 0, sizeof *r);
	fibers.clear(); live.clear(); simTime = 1000000000ULL; stepNo = 0; lastProgress = 0; evHash = mix64(s->seed); schedHash = 0; devIdx = 0; prioLow = 0; liveMains = 0;
	memset(stallUntil, 0, sizeof stallUntil);
	schedRng = new Rng(s->schedSeed);
	if (s->perturb) mallopt(M_PERTURB, s->perturb & 0xff);
	mallopt(M_MMAP_THRESHOLD, 1 << 26); mallopt(M_TRIM_THRESHOLD, 1 << 30); mallopt(M_ARENA_MAX, 1);
	if (getenv("SIM_LOG")) logFd = ::open(getenv("SIM_LOG"), O_WRONLY|O_CREAT|O_APPEND, 0644);
	installSignals();
	mpiReset(); ompReset(); seamReset();
	prctl(PR_SET_TSC, PR_TSC_SIGSEGV);
	resetPreempt();
	for (int k = 0; k < s->nranks; k++)
		spawn(k, 0, [k, rankMain]{ int rc = rankMain(k); rankLeft(rc); }, nullptr, 0);
	active = true;
	cur = nullptr;
	Fiber *first = fibers[0];
	if (s->schedMode == SM_RANDOM || s->schedMode == SM_PCT) first = fibers[schedRng->below(fibers.size())];
	else if (s->schedMode == SM_TRACE && s->ndev && s->devs[0].step == 0) { first = fibers[s->devs[0].fiber % fibers.size()]; devIdx = 1; }
	if (first != fibers[0]) { r->devs[0] = Dev{0, first->id}; r->ndev = 1; }
	switchTo(first);
	__builtin_trap();
}

void rankLeft(int code) {
	res->retcode[curRank()] = code;
	note(0xdead0000u + code);
}

void rankExit(int code) {           // exit() called by a rank
	int r = curRank();
	res->retcode[r] = code;
	if (!res->finalized[r]) endJob(OC_EXIT, r, code, "rank %d called exit(%d)", r, code);
	Fiber *self = cur;
	if (self->kind == 0) { killRankFibers(r, self); fiberExit(); }
	endJob(OC_EXIT, r, code, "rank %d called exit(%d) from a thread", r, code);
}

// ---------------------------------------------------------------- preemption at instrumented memory accesses
static uint64_t preemptN = 0; static long lastCount = 1L << 24; static uint64_t accAtStep = 0, accStep = 0;
void resetPreempt() {
	if (!spec || spec->preemptMean <= 0) { preemptCountdown = lastCount = 1L << 24; return; }
	uint64_t h = hash3(spec->schedSeed, 0x9ee, preemptN++);
	// mixture: mostly around the mean, sometimes very short bursts
	uint64_t m = spec->preemptMean;
	if ((h & 7) == 0) m = 1 + (h >> 8) % 8; else m = 1 + (h >> 8) % (2 * m);
	preemptCountdown = lastCount = (long) m;
}
void preemptSlow() {
	if (!active || !cur || ending) { preemptCountdown = 1L << 40; return; }
	nAccess += lastCount;
	if (accStep != stepNo) { accStep = stepNo; accAtStep = nAccess; }
	else if (nAccess - accAtStep > 2000000000ULL) endJob(OC_STEPLIMIT, curRank(), 0, "rank %d runs on without ever reaching a scheduling point (after %s)", curRank(), cur->why);
	resetPreempt();
	if (spec->preemptMean <= 0) return;
	// only worth a decision if another fiber of this rank could interleave
	bool other = false;
	for (auto f : live) if (f != cur && f->rank == cur->rank) { other = true; break; }
	if (!other) return;
	res->preempts++;
	yieldNow("preempt");
}
} // namespace sim

using namespace sim;
extern "C" {
int sim_rank() { return curRank(); }
JobSpec *sim_spec() { return spec; }
void sim_reach(int p) { reach(p); }
uint64_t sim_steps() { return stepNo; }
double sim_seconds() { return simTime * 1e-9; }
void sim_yield() { yieldNow("user"); }
void sim_record(const char *name, uint64_t off, const void *data, uint64_t bytes, uint32_t elem) {
	uint64_t need = sizeof(ObsHdr) + ((bytes + 7) & ~7ULL);
	if (res->obsBytes + need > obsCap) { res->obsOverflow = 1; return; }
	ObsHdr h{}; strncpy(h.name, name, sizeof h.name - 1); h.rank = curRank(); h.elem = elem; h.off = off; h.bytes = bytes;
	memcpy(obsBuf + res->obsBytes, &h, sizeof h);
	if (bytes) memcpy(obsBuf + res->obsBytes + sizeof h, data, bytes);
	res->obsBytes += need; res->nObs++;
	uint64_t x = strHash(name) ^ off; const unsigned char *p = (const unsigned char*) data; uint64_t k = 0;
	for (uint64_t i = 0; i + 8 <= bytes; i += 8) { memcpy(&k, p + i, 8); x = (x ^ k) * 0x9fb21c651e98df25ULL; x ^= x >> 29; }
	for (uint64_t i = bytes & ~7ULL; i < bytes; i++) x = (x ^ p[i]) * 1099511628211ULL;
	note(x);
}
void sim_fail(const char *fmt, ...) {
	char b[900]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	endJob(OC_INTERNAL, curRank(), 0, "%s", b);
}
}
