#include "fw.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <signal.h>
#include <sys/prctl.h>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <unistd.h>
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <time.h>
#include <algorithm>
#include <fstream>
#include <sstream>
#include <cmath>

extern "C" double sim_fftw_measure(const void *, void *, const void *);
std::vector<Prop> &props() { static std::vector<Prop> v; return v; }
std::string strf(const char *fmt, ...) { char b[4096]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a); return b; }
std::string slurp(const std::string &p) { std::ifstream f(p, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
bool spew(const std::string &p, const std::string &s) { std::ofstream f(p, std::ios::binary | std::ios::trunc); f << s; return f.good(); }
bool exists(const std::string &p) { struct stat s; return ::lstat(p.c_str(), &s) == 0; }
std::vector<std::string> listDir(const std::string &p) { std::vector<std::string> v; DIR *d = opendir(p.c_str()); if (!d) return v; while (dirent *e = readdir(d)) { std::string n = e->d_name; if (n != "." && n != "..") v.push_back(n); } closedir(d); std::sort(v.begin(), v.end()); return v; }
void mkdirs(const std::string &p) { for (size_t i = 1; i <= p.size(); i++) if (i == p.size() || p[i] == '/') mkdir(p.substr(0, i).c_str(), 0755); }
static std::string scratchRoot;
void wipe(const std::string &p) {          // removes a directory tree, only inside this process's scratch area
	if (scratchRoot.empty() || p.compare(0, scratchRoot.size(), scratchRoot) != 0) return;
	struct stat s; if (::lstat(p.c_str(), &s)) return;
	if (S_ISDIR(s.st_mode)) { for (auto &n : listDir(p)) wipe(p + "/" + n); rmdir(p.c_str()); } else unlink(p.c_str());
}
static double wallNow() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// ---------------------------------------------------------------- rank objects
static std::map<std::string, std::vector<void*>> units; static std::string libDir;
static void loadUnit(const std::string &u) {
	auto &v = units[u]; if (!v.empty()) return;
	for (int k = 0; k < 4; k++) {
		void *h = dlopen(strf("%s/unit_%s_r%d.so", libDir.c_str(), u.c_str(), k).c_str(), RTLD_LAZY | RTLD_LOCAL);
		if (!h) { fprintf(stderr, "jxsim: %s\n", dlerror()); exit(4); }
		v.push_back(h);
		for (const char *pre : { "fftw", "fftwf" }) {
			static std::set<void*> done; void *l = dlopen(strf("%s/lib%s%s_r%d.so.3", libDir.c_str(), pre[4] ? "fftw3f" : "fftw3", "", k).c_str(), RTLD_LAZY | RTLD_NOLOAD); if (!l) continue;
			unsigned char *f = (unsigned char*) dlsym(l, strf("%s_measure_execution_time", pre).c_str()); if (!f || !done.insert(f).second) continue;
			uintptr_t a = (uintptr_t) f & ~4095UL; if (mprotect((void*) a, 8192, PROT_READ|PROT_WRITE|PROT_EXEC)) continue;
			unsigned char j[12] = { 0x48, 0xb8, 0,0,0,0,0,0,0,0, 0xff, 0xe0 }; void *t = (void*) sim_fftw_measure; memcpy(j + 2, &t, 8); memcpy(f, j, 12);
			mprotect((void*) a, 8192, PROT_READ|PROT_EXEC);
		}
	}
}

// A job runs in a child of a zygote: a freshly exec'd process that has loaded the rank objects and never does anything else,
// so that every job starts from the same memory image whatever the driver did before.
struct Ctl { char dir[600], label[64], unit[32]; int verbose, timeout, waitStatus; double limit; };
struct Shm { JobSpec spec; JobResult res; Ctl ctl; };
static Shm *shm = nullptr; static JobSpec *shSpec; static JobResult *shRes; static char *shObs; static const size_t OBSCAP = 192u << 20;
static double jobTimeout = 120;
static int cmdFd = -1, rspFd = -1; static pid_t zygotePid = 0; static std::string zygoteUnits, selfExe;
static char rankArgBuf[MAXR][ARGBUF]; static char *rankArgv[MAXR][MAXARG + 1];
enum { ZSHM = 190, ZOBS, ZCMD, ZRSP };
static void mapShared(int fs, int fo) {
	shm = (Shm*) mmap(nullptr, sizeof(Shm), PROT_READ|PROT_WRITE, MAP_SHARED, fs, 0); shSpec = &shm->spec; shRes = &shm->res;
	shObs = (char*) mmap(nullptr, OBSCAP, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_NORESERVE, fo, 0);
	if (shm == MAP_FAILED || shObs == MAP_FAILED) { perror("jxsim: mmap"); _exit(4); }
}
static void jobChild() {
	prctl(PR_SET_PDEATHSIG, SIGKILL); setpgid(0, 0);
	if (chdir(shm->ctl.dir)) _exit(97);
	rlimit rl{ 0, 0 }; setrlimit(RLIMIT_CORE, &rl); rl = { 40, 80 }; setrlimit(RLIMIT_CPU, &rl);
	int fd = open((std::string(shm->ctl.label) + ".out").c_str(), O_WRONLY|O_CREAT|O_TRUNC, 0644); dup2(fd, 1); if (!shm->ctl.verbose) dup2(fd, 2); close(fd);
	close(ZCMD); close(ZRSP);
	setvbuf(stdout, nullptr, _IOFBF, 1 << 16);
	JobSpec *sp = shSpec; std::vector<int(*)(int, char**)> fn; auto &u = units[shm->ctl.unit];
	for (int k = 0; k < sp->nranks; k++) {
		void *f = dlsym(u[k], sp->entry); if (!f) { fprintf(stderr, "jxsim: no symbol %s\n", sp->entry); _exit(96); }
		fn.push_back((int(*)(int, char**)) f);
		memcpy(rankArgBuf[k], sp->args, ARGBUF);
		for (int i = 0; i < sp->argc; i++) rankArgv[k][i] = rankArgBuf[k] + sp->argOff[i]; rankArgv[k][sp->argc] = nullptr;
	}
	sim::runJob(sp, shRes, shObs, OBSCAP, [&](int k) { return fn[k](shSpec->argc, rankArgv[k]); });
	_exit(95);
}
static int zygoteMain(const char *unitList) {
	prctl(PR_SET_PDEATHSIG, SIGKILL);
	mapShared(ZSHM, ZOBS); close(ZSHM); close(ZOBS);
	std::string cur; for (const char *c = unitList;; c++) { if (*c == ',' || !*c) { if (!cur.empty()) loadUnit(cur); cur.clear(); if (!*c) break; } else cur += *c; }
	wallNow(); usleep(1);
	char c = 'r'; if (write(ZRSP, &c, 1) != 1) return 0;
	for (;;) {
		if (read(ZCMD, &c, 1) != 1) return 0;
		pid_t p = fork(); if (!p) { jobChild(); }
		double t0 = wallNow(); int st = 0; shm->ctl.timeout = 0;
		for (int spin = 0;; spin++) {
			pid_t w = waitpid(p, &st, WNOHANG);
			if (w == p || (w < 0 && errno != EINTR)) break;
			if (wallNow() - t0 > shm->ctl.limit) { kill(p, SIGKILL); waitpid(p, &st, 0); shm->ctl.timeout = 1; break; }
			usleep(spin < 200 ? 200 : 2000);
		}
		shm->ctl.waitStatus = st; c = 'd'; if (write(ZRSP, &c, 1) != 1) return 0;
	}
}
static void dropZygote() { if (cmdFd >= 0) { close(cmdFd); close(rspFd); cmdFd = rspFd = -1; if (zygotePid > 0) waitpid(zygotePid, nullptr, 0); zygotePid = 0; } }
static void initShared() {       // gives this process a zygote of its own
	cmdFd = rspFd = -1; zygotePid = 0;
	int fs = memfd_create("spec", 0), fo = memfd_create("obs", 0), c[2], r[2];
	if (ftruncate(fs, sizeof(Shm)) || ftruncate(fo, OBSCAP) || pipe(c) || pipe(r)) { perror("jxsim"); _exit(4); }
	mapShared(fs, fo); fflush(nullptr);
	pid_t p = fork();
	if (!p) {
		// move everything out of the way first, then to the fixed numbers
		int t[4] = { fcntl(fs, F_DUPFD, 200), fcntl(fo, F_DUPFD, 200), fcntl(c[0], F_DUPFD, 200), fcntl(r[1], F_DUPFD, 200) };
		for (int i = 0; i < 4; i++) dup2(t[i], ZSHM + i);
		for (int i = 3; i < 260; i++) if (i < ZSHM || i > ZRSP) close(i);
		std::vector<std::string> ev = { "PATH=/usr/bin:/bin", "HOME=/", "JXSIM_CHILD=1", "GLIBC_TUNABLES=glibc.malloc.tcache_count=0", "LC_ALL=C", "TZ=UTC" };
		if (getenv("SIM_LOG")) ev.push_back(std::string("SIM_LOG=") + getenv("SIM_LOG")); if (getenv("SIM_BT")) ev.push_back("SIM_BT=1");
		std::vector<char*> envp; for (auto &x : ev) envp.push_back((char*) x.c_str()); envp.push_back(nullptr);
		const char *av[] = { "jxsim", "zygote", zygoteUnits.c_str(), nullptr };
		execve(selfExe.c_str(), (char**) av, envp.data()); _exit(98);
	}
	zygotePid = p; close(fs); close(fo); close(c[0]); close(r[1]); cmdFd = c[1]; rspFd = r[0];
	fcntl(cmdFd, F_SETFD, FD_CLOEXEC); fcntl(rspFd, F_SETFD, FD_CLOEXEC);
	char b; if (read(rspFd, &b, 1) != 1) { fprintf(stderr, "jxsim: the zygote did not start\n"); _exit(4); }
}

JobOut Ep::run(const std::string &label, const char *unit, const char *entry, JobSpec &s, const std::vector<std::string> &args) {
	strncpy(s.entry, entry, sizeof s.entry - 1);
	size_t o = 0; s.argc = 0;
	auto add = [&](const std::string &a) { if (o + a.size() + 1 > ARGBUF || s.argc >= MAXARG) { fprintf(stderr, "jxsim: argument overflow\n"); exit(4); } s.argOff[s.argc++] = o; memcpy(s.args + o, a.c_str(), a.size() + 1); o += a.size() + 1; };
	add("jaxions"); for (auto &a : args) add(a);
	auto it = traceOver.find(label);
	if (it != traceOver.end() && it->second.trace) { s.schedMode = SM_TRACE; s.ndev = 0; for (auto &d : it->second.devs) if (s.ndev < MAXDEV) s.devs[s.ndev++] = d; }
	*shSpec = s; memset(shRes, 0, sizeof *shRes);
	snprintf(shm->ctl.dir, sizeof shm->ctl.dir, "%s", dir.c_str()); snprintf(shm->ctl.label, sizeof shm->ctl.label, "%s", label.c_str()); snprintf(shm->ctl.unit, sizeof shm->ctl.unit, "%s", unit);
	shm->ctl.verbose = verbose; shm->ctl.limit = jobTimeout;
	char cb = 'j'; if (write(cmdFd, &cb, 1) != 1 || read(rspFd, &cb, 1) != 1) { fprintf(stderr, "jxsim: lost the zygote\n"); _exit(4); }
	JobOut out; out.label = label; int st = shm->ctl.waitStatus; out.timeout = shm->ctl.timeout;
	out.waitStatus = st; out.r = *shRes;
	if (!out.timeout && (!WIFEXITED(st) || WEXITSTATUS(st))) { // the simulator itself failed
		if (out.r.outcome == OC_NONE) { out.r.outcome = OC_SIGNAL; out.r.sig = WIFSIGNALED(st) ? WTERMSIG(st) : 0; snprintf(out.r.msg, sizeof out.r.msg, "job process ended abnormally (status 0x%x)", st); }
	}
	if (out.timeout) { out.r.outcome = OC_NONE; snprintf(out.r.msg, sizeof out.r.msg, "wall-clock timeout of the job process"); }
	uint64_t pos = 0;
	for (uint64_t i = 0; i < out.r.nObs && pos < out.r.obsBytes; i++) {
		ObsHdr h; memcpy(&h, shObs + pos, sizeof h); Obs b; b.name = h.name; b.rank = h.rank; b.elem = h.elem; b.off = h.off; b.data.assign(shObs + pos + sizeof h, shObs + pos + sizeof h + h.bytes);
		pos += sizeof h + ((h.bytes + 7) & ~7ULL); out.obs.push_back(std::move(b));
	}
	if (out.r.obsBytes > (1u << 20)) madvise(shObs, OBSCAP, MADV_REMOVE);
	JobTrace t; t.label = label; t.hash = out.r.hash; t.ndev = out.r.ndev; t.outcome = out.r.outcome; t.msg = out.r.msg;
	for (uint64_t i = 0; i < out.r.ndev && i < MAXDEV; i++) t.devs.push_back(out.r.devs[i]);
	traces.push_back(t);
	hash = mix64(hash ^ out.r.hash) ^ out.r.outcome;
	count("jobs"); count("steps", out.r.steps); count("switches", out.r.switches); count("preemptions", out.r.preempts); count("messages", out.r.msgs); count("collectives", out.r.colls); count("diskops", out.r.diskOps); count("clock_reads", out.r.clocks + out.r.rds);
	count("simulated_ns", out.r.simNs);
	for (int k = 1; k < FK_NKINDS; k++) if (out.r.fired[k]) count(std::string("fault:") + faultKindNames[k], out.r.fired[k]);
	for (int k = 0; k < 64; k++) if (out.r.reached[k]) count(strf("probe:%d", k), out.r.reached[k]);
	count(std::string("outcome:") + outcomeNames[out.r.outcome]);
	counts["sched:" + strf("%016llx", (unsigned long long) (out.r.schedHash ^ mix64(s.nranks * 64 + s.nthreads)))] = 1;
	if (out.timeout) { // not an answer: the check must not call it a violation
		fprintf(stderr, "jxsim: job %s timed out (%s)\n", label.c_str(), dir.c_str()); count("timeouts");
	}
	if (verbose) fprintf(stderr, "  job %-10s %-8s steps %llu switches %llu devs %llu sim %.6fs %s\n", label.c_str(), outcomeNames[out.r.outcome], (unsigned long long) out.r.steps, (unsigned long long) out.r.switches, (unsigned long long) out.r.ndev, out.r.simNs * 1e-9, out.r.msg);
	return out;
}
const Obs *JobOut::find(const std::string &n, int rank) const { for (auto &o : obs) if (o.name == n && (rank < 0 || o.rank == rank)) return &o; return nullptr; }
std::vector<const Obs*> JobOut::all(const std::string &n, int rank) const { std::vector<const Obs*> v; for (auto &o : obs) if (o.name == n && (rank < 0 || o.rank == rank)) v.push_back(&o); return v; }
bool JobOut::gather(const std::string &n, std::vector<char> &out) const {
	auto v = all(n); uint64_t tot = 0; for (auto o : v) tot = std::max<uint64_t>(tot, o->off + o->data.size());
	out.assign(tot, 0); std::vector<bool> seen(tot, false); uint64_t got = 0; bool ok = !v.empty();
	for (auto o : v) { memcpy(out.data() + o->off, o->data.data(), o->data.size()); for (size_t i = 0; i < o->data.size(); i++) { if (seen[o->off + i]) ok = false; else got++; seen[o->off + i] = true; } }
	return ok && got == tot;
}
double JobOut::num(const std::string &n, int rank, double d) const { auto o = find(n, rank); if (!o || o->data.size() < 8) return d; double x; memcpy(&x, o->data.data(), 8); return x; }
std::string JobOut::outcome() const { return strf("%s (%s)", outcomeNames[r.outcome], r.msg); }

int64_t Ep::pick(const std::string &name, std::vector<int64_t> alts) {
	auto c = cache.find(name); if (c != cache.end()) return c->second;
	auto o = over.find(name); int64_t v = o != over.end() ? o->second : alts[sub(name) % alts.size()];
	cache[name] = v; draws.push_back({ name, v, alts }); return v;
}
int64_t Ep::range(const std::string &name, int64_t lo, int64_t hi) {
	auto c = cache.find(name); if (c != cache.end()) return c->second;
	auto o = over.find(name); int64_t v = o != over.end() ? o->second : lo + (int64_t)(sub(name) % (uint64_t)(hi - lo + 1));
	std::vector<int64_t> a; a.push_back(lo); if (v != lo) { int64_t m = lo + (v - lo) / 2; if (m != lo && m != v) a.push_back(m); if (v - 1 != lo && v - 1 != m) a.push_back(v - 1); a.push_back(v); }
	cache[name] = v; draws.push_back({ name, v, a }); return v;
}
bool Ep::coin(const std::string &name, int pm) {
	auto c = cache.find(name); if (c != cache.end()) return c->second;
	auto o = over.find(name); int64_t v = o != over.end() ? o->second : (sub(name) % 1000 < (uint64_t) pm ? 1 : 0);
	cache[name] = v; draws.push_back({ name, v, { 0, 1 } }); return v;
}
double Ep::real(const std::string &name, double lo, double hi) { return lo + (hi - lo) * ((sub(name) >> 11) * (1.0 / 9007199254740992.0)); }
void Ep::fail(const std::string &cls, const char *fmt, ...) { char b[3000]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a); viols.push_back({ cls, b }); throw Stop(); }
void Ep::check(bool ok, const std::string &cls, const char *fmt, ...) { count("oracle_checks"); if (ok) return; char b[3000]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a); viols.push_back({ cls, b }); throw Stop(); }

JobSpec baseSpec(Ep &e, const std::string &label) {
	JobSpec s; memset(&s, 0, sizeof s);
	s.seed = hash3(e.seed, 0x10b, std::hash<std::string>()(label)); s.schedSeed = hash3(e.seed, 0x5c4ed, std::hash<std::string>()(label));
	s.nranks = 1; s.nthreads = 1; s.schedMode = SM_RUN; s.preemptMean = 0; s.eager = 1; s.lateRecv = 0; s.redOrder = 0; s.netDelay = 0; s.clockSkew = 0; s.perturb = 0xa5; s.procs = 1; s.maxSteps = 3000000; s.starve = 0; s.ip[30] = 1; return s;
}
void schedule(Ep &e, JobSpec &s, const std::string &pfx, bool threads) {
	s.schedMode = e.pick(pfx + "schedMode", { SM_RUN, SM_RR, SM_RANDOM, SM_RANDOM, SM_PCT, SM_PCT, SM_STARVE });
	s.starve = e.range(pfx + "starve", 0, std::max(0, s.nranks - 1)); if (s.starve >= s.nranks) s.starve = 0;
	s.preemptMean = threads && s.nthreads > 1 ? e.pick(pfx + "preempt", { 0, 2000, 20000, 300 }) : 0;
	s.eager = e.pick(pfx + "eager", { 1, 0, 2 });
	s.lateRecv = e.pick(pfx + "lateRecv", { 0, 1, 2 });
	s.redOrder = e.pick(pfx + "redOrder", { 0, 1 });
	s.netDelay = e.pick(pfx + "netDelay", { 0, 2000, 100000, 10000000 });
	s.clockSkew = e.pick(pfx + "clockSkew", { 0, 1 });
	s.perturb = e.pick(pfx + "perturb", { 0xa5, 0x5a, 0x81, 0x3c });
}
void addFault(JobSpec &s, int kind, int64_t at, int64_t arg, int64_t arg2) { if (s.nfaults < MAXF) s.faults[s.nfaults++] = Fault{ kind, at, arg, arg2 }; }

// ---------------------------------------------------------------- running episodes
static const Prop *P; static std::string tier = "quick", verifDir; static uint64_t masterSeed = 1;
static int epCounter = 0;
static void runEpisode(Ep &e) {
	e.dir = scratchRoot + strf("/e%d_%d", (int) getpid(), epCounter++); mkdirs(e.dir);
	try { P->fn(e); } catch (Stop &) {}
	if (!e.keep) wipe(e.dir);
}
static Ep makeEp(int index) { Ep e; e.prop = P->id; e.tier = tier; e.index = index; e.seed = hash3(masterSeed, std::hash<std::string>()(std::string(P->id)), index); return e; }
static Ep rerun(const Ep &b, const std::map<std::string, int64_t> &over, const std::map<std::string, JobTrace> &tr) { Ep e; e.prop = b.prop; e.tier = b.tier; e.index = b.index; e.seed = b.seed; e.over = over; e.traceOver = tr; e.verbose = b.verbose; runEpisode(e); return e; }
static bool same(const Ep &e, const std::string &cls) { return !e.viols.empty() && e.viols[0].cls == cls; }

// ---------------------------------------------------------------- known findings
struct Known { std::string prop, cls, text; bool fixed; };
static std::vector<Known> known;
static void loadKnown() {
	std::ifstream f(verifDir + "/known-findings.txt"); std::string l;
	while (std::getline(f, l)) {
		// finding: property=<id> class=<class> <text>       |     fixed: property=<id> <commit> <text>
		if (l.compare(0, 9, "finding: ") == 0) { std::istringstream s(l.substr(9)); std::string a, b; s >> a >> b; Known k; k.prop = a.substr(9); k.cls = b.substr(6); std::getline(s, k.text); k.fixed = false; known.push_back(k); }
	}
}
static const Known *isKnown(const std::string &cls) { for (auto &k : known) if (k.prop == P->id && k.cls == cls) return &k; return nullptr; }

// ---------------------------------------------------------------- replay files
static std::string jstr(const std::string &s) { std::string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32) o += strf("\\u%04x", c); else o += c; } return o + "\""; }
static void writeReplay(const std::string &p, const Ep &e) {
	std::string o = strf("jxsim-replay 1\nproperty %s\ntier %s\nmaster %llu\nindex %d\nseed %llu\nclass %s\nhash %016llx\n", e.prop.c_str(), e.tier.c_str(), (unsigned long long) masterSeed, e.index, (unsigned long long) e.seed, e.viols[0].cls.c_str(), (unsigned long long) e.hash);
	for (auto &kv : e.over) o += strf("draw %s %lld\n", kv.first.c_str(), (long long) kv.second);
	for (auto &kv : e.traceOver) if (kv.second.trace) { o += "trace " + kv.first; for (auto &d : kv.second.devs) o += strf(" %u:%d", d.step, d.fiber); o += "\n"; }
	o += "# " + e.viols[0].detail + "\n# decisions of this run (name = value):\n";
	for (auto &d : e.draws) o += strf("#   %s = %lld\n", d.name.c_str(), (long long) d.value);
	for (auto &t : e.traces) o += strf("# job %s: outcome %s, hash %016llx, %llu scheduling deviations; %s\n", t.label.c_str(), outcomeNames[t.outcome], (unsigned long long) t.hash, (unsigned long long) t.ndev, t.msg.c_str());
	spew(p, o);
}
static bool readReplay(const std::string &p, Ep &e, std::string &cls, uint64_t &h) {
	std::ifstream f(p); std::string l; if (!std::getline(f, l) || l.compare(0, 12, "jxsim-replay")) return false;
	while (std::getline(f, l)) {
		if (l.empty() || l[0] == '#') continue; std::istringstream s(l); std::string k; s >> k;
		if (k == "property") s >> e.prop; else if (k == "tier") s >> e.tier; else if (k == "master") s >> masterSeed; else if (k == "index") s >> e.index; else if (k == "seed") s >> e.seed;
		else if (k == "class") s >> cls; else if (k == "hash") { s >> std::hex >> h; }
		else if (k == "draw") { std::string n; long long v; s >> n >> v; e.over[n] = v; }
		else if (k == "trace") { JobTrace t; s >> t.label; t.trace = true; std::string d; while (s >> d) { unsigned a; int b; if (sscanf(d.c_str(), "%u:%d", &a, &b) == 2) t.devs.push_back({ a, b }); } e.traceOver[t.label] = t; }
	}
	return true;
}

// ---------------------------------------------------------------- minimisation
static Ep minimise(Ep best, double budget) {
	double end = wallNow() + budget; std::string cls = best.viols[0].cls; int tries = 0;
	auto attempt = [&](const std::map<std::string, int64_t> &ov, const std::map<std::string, JobTrace> &tr) { if (wallNow() > end) return false; tries++; Ep e = rerun(best, ov, tr); if (same(e, cls)) { best = e; return true; } return false; };
	bool changed = true;
	for (int pass = 0; pass < 4 && changed && wallNow() < end; pass++) {
		changed = false; auto ds = best.draws;
		for (auto &d : ds) {
			auto it = best.cache.find(d.name); if (it == best.cache.end()) continue;
			for (auto a : d.alts) { if (a == it->second) break; auto ov = best.over; ov[d.name] = a; if (attempt(ov, best.traceOver)) { changed = true; break; } }
		}
	}
	// schedule: turn each job's schedule into explicit deviations from run-to-block order, then drop as many as possible
	for (size_t ji = 0; ji < best.traces.size() && wallNow() < end; ji++) {
		JobTrace t = best.traces[ji]; if (t.ndev == 0 || t.ndev > MAXDEV || best.traceOver.count(t.label)) continue;
		t.trace = true; auto tr = best.traceOver; tr[t.label] = t;
		if (!attempt(best.over, tr)) continue;
		{ auto z = best.traceOver; z[t.label].devs.clear(); if (attempt(best.over, z)) continue; }
		size_t chunk = std::max<size_t>(1, best.traceOver[t.label].devs.size() / 2);
		while (wallNow() < end) {
			auto &cur = best.traceOver[t.label].devs; bool any = false;
			for (size_t i = 0; i < best.traceOver[t.label].devs.size() && wallNow() < end;) {
				auto z = best.traceOver; auto &v = z[t.label].devs; v.erase(v.begin() + i, v.begin() + std::min(v.size(), i + chunk));
				if (attempt(best.over, z)) any = true; else i += chunk;
			}
			if (chunk == 1 && !any) break; if (chunk > 1) chunk /= 2; else if (!any) break;
		}
	}
	fprintf(stderr, "jxsim: minimised in %d runs\n", tries);
	return best;
}

// ---------------------------------------------------------------- main
struct Slot { int state; int known; char cls[80]; char detail[600]; uint64_t hash; int nontriv; char sample[400]; };
struct Shared { volatile int next, stop, best; double deadline; };

static void reexec(char **argv) {
	if (getenv("JXSIM_CHILD")) return;
	int p = personality(0xffffffff); if (p == -1 || personality(p | ADDR_NO_RANDOMIZE) == -1) fprintf(stderr, "jxsim: cannot disable address randomisation\n");
	setenv("JXSIM_CHILD", "1", 1); setenv("GLIBC_TUNABLES", "glibc.malloc.tcache_count=0", 1); setenv("LC_ALL", "C", 1);
	setenv("TZ", "UTC", 1);
	execv("/proc/self/exe", argv); perror("execv"); exit(4);
}
static void loadUnits(const Prop &p) { zygoteUnits.clear(); for (auto &u : p.units) zygoteUnits += (zygoteUnits.empty() ? "" : ",") + u; }
static void cleanup() { if (!scratchRoot.empty()) wipe(scratchRoot); }

int main(int argc, char **argv) {
	reexec(argv);
	char exe[4096]; ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1); exe[n] = 0; libDir = exe; libDir = libDir.substr(0, libDir.rfind('/'));
	verifDir = getenv("JX_VERIF") ? getenv("JX_VERIF") : libDir.substr(0, libDir.rfind('/'));
	selfExe = exe; if (argc == 3 && !strcmp(argv[1], "zygote")) return zygoteMain(argv[2]);
	if (argc < 3) { fprintf(stderr, "usage: jxsim check ID | replay FILE | one ID INDEX [name=value ...] | selftest ID N | list all\n"); return 4; }
	std::string mode = argv[1], id = argv[2];
	if (getenv("VERIF_SEED")) masterSeed = strtoull(getenv("VERIF_SEED"), nullptr, 10);
	if (getenv("VERIF_TIER")) tier = getenv("VERIF_TIER");
	if (mode == "list") { for (auto &p : props()) { printf("%s %s units=", p.id, p.title); for (auto &u : p.units) printf("%s ", u.c_str()); printf("\n"); } return 0; }
	std::string cls; uint64_t rh = 0; Ep rep; bool isReplay = mode == "replay";
	if (isReplay) { if (!readReplay(id, rep, cls, rh)) { fprintf(stderr, "jxsim: cannot read %s\n", argv[2]); return 4; } id = rep.prop; tier = rep.tier; }
	for (auto &p : props()) if (id == p.id) P = &p;
	if (!P) { fprintf(stderr, "jxsim: unknown property %s\n", id.c_str()); return 4; }
	// the scratch path has a fixed length and content class so that addresses and lengths do not depend on it
	const char *tmp = getenv("JX_TMP") ? getenv("JX_TMP") : "/tmp"; 
	scratchRoot = strf("%s/jxsim.%07d", tmp, (int) getpid()); mkdirs(scratchRoot); atexit(cleanup);
	pid_t mainPid = getpid(); (void) mainPid;
	loadKnown(); loadUnits(*P); initShared();
	if (isReplay) {
		rep.verbose = true; rep.keep = getenv("JX_KEEP") != nullptr; runEpisode(rep);
		if (rep.keep) { fprintf(stderr, "kept %s\n", rep.dir.c_str()); scratchRoot.clear(); }
		if (rep.viols.empty()) { printf("replay: no violation (expected %s)\n", cls.c_str()); return 0; }
		printf("replay: %s: %s\nhash %016llx expected %016llx%s\n", rep.viols[0].cls.c_str(), rep.viols[0].detail.c_str(), (unsigned long long) rep.hash, (unsigned long long) rh, rep.hash == rh ? " (identical execution)" : "");
		if (rep.viols[0].cls == cls && rep.hash == rh) { printf("VIOLATION property=%s replay=%s\n", P->id, argv[2]); return 1; }
		return 5;
	}
	if (mode == "one") {
		for (int i = 3; i < argc && strchr(argv[i], '=') == nullptr; i++) {
			Ep e = makeEp(atoi(argv[i])); for (int k = 4; k < argc; k++) { char *q = strchr(argv[k], '='); if (q) e.over[std::string(argv[k], q)] = atoll(q + 1); }
			e.verbose = true; e.keep = getenv("JX_KEEP") != nullptr; double t0 = wallNow(); runEpisode(e);
			printf("episode %d: %.2fs hash %016llx %s\n", e.index, wallNow() - t0, (unsigned long long) e.hash, e.sample.c_str());
			for (auto &d : e.draws) printf("   %s = %lld\n", d.name.c_str(), (long long) d.value);
			for (auto &kv : e.counts) if (kv.first.compare(0, 6, "sched:")) printf("   # %s %llu\n", kv.first.c_str(), (unsigned long long) kv.second);
			for (auto &v : e.viols) printf("VIOL %s: %s\n", v.cls.c_str(), v.detail.c_str());
			if (e.keep) printf("kept %s\n", e.dir.c_str());
		}
		if (getenv("JX_KEEP")) scratchRoot.clear();
		return 0;
	}
	if (mode == "selftest") { // determinism: every episode twice, in different processes and in a different order
		int N = argc > 3 ? atoi(argv[3]) : 40; int W = argc > 4 ? atoi(argv[4]) : 8;
		auto hs = (uint64_t*) mmap(nullptr, sizeof(uint64_t) * N * 2, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
		for (int round = 0; round < 2; round++) {
			int w2 = round ? std::max(1, W - 1) : W; std::vector<pid_t> ps;
			for (int w = 0; w < w2; w++) { pid_t p = fork(); if (!p) { initShared(); for (int k = w; k < N; k += w2) { int i = round ? N - 1 - k : k; Ep e = makeEp(i); runEpisode(e); hs[round * N + i] = e.hash + 1; } _exit(0); } ps.push_back(p); }
			for (auto p : ps) { int st; waitpid(p, &st, 0); }
		}
		int bad = 0; for (int i = 0; i < N; i++) if (hs[i] != hs[N + i]) { printf("episode %d not repeatable: %016llx %016llx\n", i, (unsigned long long) hs[i], (unsigned long long) hs[N + i]); bad++; }
		printf("selftest %s: %d episodes twice, %d differ\n", P->id, N, bad); return bad ? 2 : 0;
	}
	// ------------------------------------------------------------ check
	double t0 = wallNow();
	int N = tier == "thorough" ? P->thorough : P->quick; if (getenv("JX_EPISODES")) N = atoi(getenv("JX_EPISODES"));
	double cap = tier == "thorough" ? 3000 : 240; if (getenv("JX_CAP")) cap = atof(getenv("JX_CAP"));
	int W = 8; if (getenv("JX_WORKERS")) W = atoi(getenv("JX_WORKERS"));
	auto slots = (Slot*) mmap(nullptr, sizeof(Slot) * N, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
	auto sh = (Shared*) mmap(nullptr, sizeof(Shared), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
	sh->next = 0; sh->stop = 0; sh->best = 1 << 30; sh->deadline = t0 + cap;
	std::vector<pid_t> ps;
	for (int w = 0; w < W; w++) {
		pid_t p = fork();
		if (p == 0) {
			initShared(); std::map<std::string, uint64_t> tot; 
			for (;;) {
				int i = __sync_fetch_and_add(&sh->next, 1); if (i >= N || wallNow() > sh->deadline || i > sh->best) break;
				Ep e = makeEp(i); runEpisode(e);
				for (auto &kv : e.counts) if (kv.first.compare(0, 6, "sched:") == 0) tot[kv.first] = 1; else tot[kv.first] += kv.second;
				Slot &s = slots[i]; s.hash = e.hash; s.nontriv = e.nontrivial; strncpy(s.sample, e.sample.c_str(), sizeof s.sample - 1);
				if (!e.viols.empty()) {
					strncpy(s.cls, e.viols[0].cls.c_str(), sizeof s.cls - 1); strncpy(s.detail, e.viols[0].detail.c_str(), sizeof s.detail - 1); s.known = isKnown(e.viols[0].cls) != nullptr;
					if (!s.known && !getenv("JX_ALL")) { int b; while ((b = sh->best) > i && !__sync_bool_compare_and_swap(&sh->best, b, i)) {} }
				}
				s.state = 1;
			}
			std::string o; for (auto &kv : tot) o += kv.first + " " + strf("%llu", (unsigned long long) kv.second) + "\n";
			spew(strf("%s/w%d.counts", scratchRoot.c_str(), w), o); _exit(0);
		}
		ps.push_back(p);
	}
	bool infra = false;
	for (auto p : ps) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) infra = true; }
	double explore = wallNow() - t0;
	std::map<std::string, uint64_t> tot; uint64_t scheds = 0;
	for (int w = 0; w < W; w++) { std::ifstream f(strf("%s/w%d.counts", scratchRoot.c_str(), w)); std::string k; unsigned long long v; std::set<std::string> dummy; while (f >> k >> v) { if (k.compare(0, 6, "sched:") == 0) tot[k] = 1; else tot[k] += v; } }
	for (auto it = tot.begin(); it != tot.end();) if (it->first.compare(0, 6, "sched:") == 0) { scheds++; it = tot.erase(it); } else ++it;
	int done = 0, nviol = 0, nontriv = 0; std::set<uint64_t> hashes; std::map<std::string, int> knownHit; std::vector<std::string> samples; int bad = -1;
	for (int i = 0; i < N; i++) if (slots[i].state) {
		done++; if (slots[i].nontriv && hashes.insert(slots[i].hash).second) nontriv++;
		if (slots[i].cls[0]) { if (slots[i].known) knownHit[slots[i].cls]++; else { nviol++; if (bad < 0) bad = i; } }
		if (samples.size() < 5 && slots[i].sample[0]) samples.push_back(slots[i].sample);
	}
	// evidence
	auto writeEvidence = [&](int viol) {
		double wall = wallNow() - t0; std::string o = "{\n"; double hrs = std::max(1e-9, explore / 3600);
		o += strf(" \"property\": \"%s\",\n \"tier\": \"%s\",\n \"seed\": %llu,\n \"level\": \"exploration\",\n \"wall_s\": %.2f,\n \"violations\": %d,\n", P->id, tier == "thorough" ? "thorough" : "quick", (unsigned long long) masterSeed, wall, viol);
		o += strf(" \"coverage\": {\n  \"evaluations\": %d,\n  \"distinct_nontrivial\": %d,\n  \"rule\": %s,\n", done, nontriv, jstr(P->rule).c_str());
		o += strf("  \"episodes_planned\": %d,\n  \"simulated_jobs\": %llu,\n  \"runs_per_hour\": %.0f,\n  \"seeds_per_hour\": %.0f,\n  \"simulated_seconds\": %.6f,\n  \"distinct_interleavings\": %llu,\n  \"interleaving_measure\": \"distinct hashes of the whole sequence of scheduling decisions (fiber, yield point) per job\",\n", N, (unsigned long long) tot["jobs"], tot["jobs"] / hrs, done / hrs, tot["simulated_ns"] * 1e-9, (unsigned long long) scheds);
		o += "  \"counters\": {"; bool f = true; for (auto &kv : tot) { if (kv.first.compare(0, 6, "fault:") == 0) continue; o += strf("%s%s: %llu", f ? "" : ", ", jstr(kv.first).c_str(), (unsigned long long) kv.second); f = false; } o += "},\n";
		o += "  \"faults_fired\": {"; f = true; for (auto &kv : tot) if (kv.first.compare(0, 6, "fault:") == 0) { o += strf("%s%s: %llu", f ? "" : ", ", jstr(kv.first.substr(6)).c_str(), (unsigned long long) kv.second); f = false; } o += "},\n";
		o += "  \"known_findings_hit\": {"; f = true; for (auto &kv : knownHit) { o += strf("%s%s: %d", f ? "" : ", ", jstr(kv.first).c_str(), kv.second); f = false; } o += "},\n";
		auto arr = [&](const std::vector<std::string> &v) { std::string s = "["; for (size_t i = 0; i < v.size(); i++) s += (i ? ", " : "") + jstr(v[i]); return s + "]"; };
		o += "  \"real_components\": " + arr(P->real) + ",\n  \"stubbed_components\": " + arr(P->stubs) + ",\n  \"samples\": " + arr(samples) + "\n },\n";
		o += " \"assumptions\": " + arr(P->assumptions) + "\n}\n";
		mkdirs(verifDir + "/evidence"); spew(verifDir + "/evidence/" + P->id + ".json", o);
	};
	for (auto &k : known) if (k.prop == P->id) printf("KNOWN-FINDING: property=%s class=%s%s (met in %d of %d runs)\n", P->id, k.cls.c_str(), k.text.c_str(), knownHit.count(k.cls) ? knownHit[k.cls] : 0, done);
	if (bad >= 0 && getenv("JX_ALL")) {
		std::map<std::string, std::vector<int>> by; for (int i = 0; i < N; i++) if (slots[i].state && slots[i].cls[0]) by[slots[i].cls].push_back(i);
		for (auto &kv : by) { printf("class %s: %zu of %d\n", kv.first.c_str(), kv.second.size(), done); for (int k = 0; k < atoi(getenv("JX_ALL")) && k < (int) kv.second.size(); k++) printf("   [%d] %s || %s\n", kv.second[k], slots[kv.second[k]].detail, slots[kv.second[k]].sample); }
		printf("%d episodes, %llu jobs, %.1fs, timeouts %llu\n", done, (unsigned long long) tot["jobs"], wallNow() - t0, (unsigned long long) tot["timeouts"]); return 1;
	}
	if (bad >= 0) {
		fprintf(stderr, "jxsim: episode %d: %s: %s\n", bad, slots[bad].cls, slots[bad].detail);
		Ep a; bool exact = false, found = false;
		for (int i = bad, tried = 0; i < N && !found && tried < 5; i++) if (slots[i].state && slots[i].cls[0] && !slots[i].known) {
			tried++; a = makeEp(i); runEpisode(a); Ep b = makeEp(i); runEpisode(b);
			exact = !a.viols.empty() && !b.viols.empty() && a.hash == b.hash && a.hash == slots[i].hash && a.viols[0].cls == slots[i].cls;
			// memory corruption in the code under test can make the aftermath differ between processes; the violation itself has to come back
			found = exact || (same(a, slots[i].cls) && same(b, slots[i].cls)); if (found) bad = i;
			if (!exact) fprintf(stderr, "jxsim: episode %d does not repeat exactly (hashes %016llx %016llx %016llx)%s\n", i, (unsigned long long) slots[i].hash, (unsigned long long) a.hash, (unsigned long long) b.hash, found ? ", but violates again" : "");
		}
		if (!found) { fprintf(stderr, "jxsim: no violation repeats: an error of the check\n"); writeEvidence(0); return 3; }
		Ep m = minimise(a, getenv("JX_NOMIN") ? 0 : tier == "thorough" ? 300 : 60);
		mkdirs(verifDir + "/replays"); std::string rp = verifDir + strf("/replays/%s-%llu-%d.replay", P->id, (unsigned long long) masterSeed, bad);
		writeReplay(rp, m);
		fflush(nullptr); pid_t q = fork(); if (!q) { int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); if (!getenv("JX_VERBOSE")) dup2(fd, 2); unsetenv("JXSIM_CHILD"); execl(exe, exe, "replay", rp.c_str(), (char*) nullptr); _exit(99); }
		int st; waitpid(q, &st, 0);
		if (!WIFEXITED(st) || !(WEXITSTATUS(st) == 1 || (!exact && WEXITSTATUS(st) == 5))) { fprintf(stderr, "jxsim: the replay file does not reproduce in a fresh process (status %x): an error of the check\n", st); writeEvidence(0); return 3; }
		writeEvidence(nviol);
		printf("%s: %s\n", m.viols[0].cls.c_str(), m.viols[0].detail.c_str());
		printf("VIOLATION property=%s replay=%s\n", P->id, rp.c_str());
		return 1;
	}
	writeEvidence(0);
	if (infra) { fprintf(stderr, "jxsim: a worker process failed\n"); return 3; }
	if (tot["timeouts"]) { fprintf(stderr, "jxsim: %llu jobs timed out\n", (unsigned long long) tot["timeouts"]); return 3; }
	printf("%s: held on %d episodes (%llu simulated jobs, %llu distinct interleavings), %.1fs\n", P->id, done, (unsigned long long) tot["jobs"], (unsigned long long) scheds, wallNow() - t0);
	return 0;
}
