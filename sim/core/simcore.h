// Deterministic in-process simulator for MPI+OpenMP programs: shared declarations.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <vector>
#include <functional>

// ------------------------------------------------------------------ job description (driver -> simulated job)
enum FaultKind : int {
	FK_NONE = 0,
	FK_CRASH_DISKOP,     // kill the whole job immediately before disk operation #at (process crash: completed writes survive)
	FK_CRASH_MID_WRITE,  // kill the job in the middle of disk write #at (a prefix of the write reaches the file)
	FK_POWERLOSS_DISKOP, // power loss before disk op #at: only synced data + arg-chosen subset of the later writes survive
	FK_CRASH_STEP,       // kill the job at scheduler step #at
	FK_WRITE_EIO,        // MPI-IO write #at fails (EIO)
	FK_WRITE_ENOSPC,     // MPI-IO write #at and every later one fails (disk full)
	FK_WRITE_SHORT,      // MPI-IO write #at is short
	FK_READ_EIO,         // MPI-IO read #at fails
	FK_READ_SHORT,       // MPI-IO read #at is short (rest of buffer garbage, status says so)
	FK_OPEN_FAIL,        // MPI_File_open #at fails
	FK_FOPEN_FAIL,       // fopen #at fails
	FK_ALLOC_FAIL,       // aligned allocation #at (of the program under test) fails
	FK_CLOCK_JUMP,       // wall clock of rank arg jumps by arg2 ns at clock read #at
	FK_STALL,            // rank arg makes no progress for arg2 scheduler steps starting at step #at
	FK_FILE_APPEAR,      // control file (arg: 0 stop, 1 abort, 2 savejaxconf) appears at scheduler step #at
	FK_NKINDS
};
extern const char *const faultKindNames[FK_NKINDS];

struct Fault { int kind; int64_t at; int64_t arg; int64_t arg2; };

enum SchedMode : int { SM_RANDOM = 0, SM_PCT, SM_RR, SM_RUN, SM_STARVE, SM_TRACE, SM_NMODES };

constexpr int MAXR = 8, MAXT = 8, MAXF = 16, MAXDEV = 4096, MAXARG = 160, ARGBUF = 8192;

struct Dev { uint32_t step; int32_t fiber; };

struct JobSpec {
	uint64_t seed;          // every non-schedule draw
	uint64_t schedSeed;     // schedule draws
	int nranks, nthreads;
	int schedMode;
	int starve;             // victim rank for SM_STARVE
	int preemptMean;        // mean number of instrumented memory accesses between preemptions (0 = none)
	int eager;              // 0: rendezvous, 1: eager, 2: per-message coin
	int lateRecv;           // 1: receive buffer is filled only when the receive is waited for (and holds garbage before)
	int redOrder;           // 1: seeded order of floating-point reductions
	int netDelay;           // max message delay, ns
	int clockSkew;          // 1: per-rank constant skews
	int perturb;            // malloc fill byte
	int procs;              // omp_get_num_procs
	uint64_t maxSteps;      // progress bound
	int nfaults; Fault faults[MAXF];
	int ndev; Dev devs[MAXDEV];     // SM_TRACE: deviations from the default schedule
	char entry[64];         // symbol of the rank entry
	int argc; char args[ARGBUF]; uint16_t argOff[MAXARG];
	int64_t ip[32]; double dp[32];  // free parameters for harness entries
	int logKeep;
};

enum Outcome : int { OC_NONE = 0, OC_DONE, OC_EXIT, OC_MPIABORT, OC_SIGNAL, OC_DEADLOCK, OC_STEPLIMIT, OC_PROTO, OC_CRASHED, OC_INTERNAL };
extern const char *const outcomeNames[];

struct ObsHdr { char name[40]; int32_t rank; uint32_t elem; uint64_t off, bytes; };   // followed by data, padded to 8

struct JobResult {
	int outcome, rank, code, sig;
	uint64_t steps, hash, simNs, accesses, preempts, switches, msgs, colls, diskOps, reads, writes, opens, fopens, allocs, clocks, rds;
	uint64_t schedHash;     // hash of the sequence of (fiber, yield kind)
	uint64_t fired[FK_NKINDS];
	uint64_t nObs, obsBytes; int obsOverflow;
	uint64_t ndev; Dev devs[MAXDEV];
	int finalized[MAXR], returned[MAXR], retcode[MAXR];
	int leakedReq; char failedFile[64];   // last file whose fopen was made to fail
	uint32_t polls[3], pollsAt[3]; int appeared[3];   // looks of the program for stop, abort, savejaxconf; the count when the file appeared
	int randomDevice;
	char msg[1024];
	char where[512];
	uint64_t reached[64];   // rare-condition probes
};

// ------------------------------------------------------------------ PRNG
static inline uint64_t mix64(uint64_t z) { z += 0x9e3779b97f4a7c15ULL; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
static inline uint64_t hash3(uint64_t a, uint64_t b, uint64_t c) { return mix64(mix64(mix64(a) ^ b) ^ (c * 0xd6e8feb86659fd93ULL)); }
struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed = 1) : s(mix64(seed)) {}
	uint64_t next() { s += 0x9e3779b97f4a7c15ULL; uint64_t z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
	uint64_t below(uint64_t n) { return n ? next() % n : 0; }
	int range(int a, int b) { return a + (int) below((uint64_t)(b - a + 1)); }
	double uni() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
	bool coin(double p = 0.5) { return uni() < p; }
	template<class T> T pick(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
};

// ------------------------------------------------------------------ internals (libsim)
namespace sim {
	struct Fiber;
	struct Team;
	extern bool active;              // inside a simulated job
	extern JobSpec *spec;
	extern JobResult *res;
	extern Fiber *cur;
	int  curRank();
	int  curTid();
	void yieldNow(const char *why, bool poll = false);        // reschedule point
	void block(const std::function<bool()> &pred, const char *why);
	void sleepNs(uint64_t ns);
	uint64_t now();
	Fiber *spawn(int rank, int tid, std::function<void()> fn, Team *team, int kind);
	[[noreturn]] void endJob(int outcome, int rank, int code, const char *fmt, ...);
	[[noreturn]] void fiberExit();
	void note(uint64_t x);           // feeds the event hash
	bool fault(int kind, int64_t ordinal, Fault **out = nullptr);
	void reach(int i);
	void diskRename(const char *a, const char *b);
	void diskOp(int isWrite);        // counts a disk operation, fires crash faults
	void materialiseCrash(bool powerloss, uint64_t arg);
	void closeAllForCrash();
	int  ioCrashMid(int64_t writeOrd);
	bool fiberIsMain(Fiber *);
	const char *fiberWhy(Fiber *);
	void describeBlocked(char *buf, size_t n);
	void runJob(JobSpec *s, JobResult *r, char *obs, size_t obsCap, std::function<int(int)> rankMain);
	void mpiReset(); void ompReset(); void seamReset();
	size_t obsCapacity();
}

// ------------------------------------------------------------------ API used by rank-side harness code (resolved from libsim)
extern "C" {
	void    sim_record(const char *name, uint64_t off, const void *data, uint64_t bytes, uint32_t elem);
	int     sim_rank();
	JobSpec *sim_spec();
	void    sim_reach(int probe);
	[[noreturn]] void sim_fail(const char *fmt, ...);   // harness-detected violation inside the run
	void    sim_control_file(const char *name);
	uint64_t sim_steps();
	double  sim_seconds();
	int     sim_leaked_requests(int rank);
	void    sim_yield();
}
