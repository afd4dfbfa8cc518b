// C09: a failing disk never goes unnoticed: no crash, no hang, no silently incomplete file.
#include "h5.h"
#include <unistd.h>
static const char *fk[] = { "sxsmooth", "axrand", "axjump", "axrand" };
static bool loud(const std::string &t) { return t.find("Error") != std::string::npos || t.find("error") != std::string::npos || t.find("Could not") != std::string::npos || t.find("could not") != std::string::npos || t.find("rror:") != std::string::npos; }
static std::string faults(Ep &e, JobSpec &s, uint64_t writes, uint64_t opens, uint64_t fopens) {
	int k = e.pick("fault", { 0, 1, 2, 3, 4 }); double f = e.real("where", 0, 1); auto at = [&](uint64_t n) { return 1 + (int64_t) (f * n); };
	switch (k) { case 0: addFault(s, FK_WRITE_EIO, at(writes)); return "write error"; case 1: addFault(s, FK_WRITE_ENOSPC, at(writes)); return "full disk"; case 2: addFault(s, FK_WRITE_SHORT, at(writes)); return "short write"; case 3: addFault(s, FK_OPEN_FAIL, at(opens)); return "failing open"; default: addFault(s, FK_FOPEN_FAIL, at(fopens)); return "failing fopen"; }
}
// After a failed write the HDF5 library leaves its files in a state in which its own cleanup may crash or wait for ever; a run that
// ends that way has not passed the failure over in silence, and what the library does is not judged. Failing opens it handles.
static bool ended(Ep &e, JobOut &R, const std::string &what) {
	auto oc = R.r.outcome; bool ok = oc == OC_DONE || oc == OC_EXIT || oc == OC_MPIABORT, wr = R.r.fired[FK_WRITE_EIO] + R.r.fired[FK_WRITE_ENOSPC] + R.r.fired[FK_WRITE_SHORT];
	if (!ok && wr) { e.count("ended_in_library"); return false; }
	e.check(ok, oc == OC_DEADLOCK || oc == OC_STEPLIMIT ? std::string("hang") : R.r.failedFile[0] ? std::string("crash-") + R.r.failedFile : "crash", "the run ended with %s after a %s%s%s", R.outcome().c_str(), what.c_str(), R.r.failedFile[0] ? " of " : "", R.r.failedFile); return true;
}
static void harness(Ep &e) {
	GridOpt o; o.kinds = { 0, 1, 2, 3 }; o.ngs = { 1, 2 }; o.maxSites = 12000; o.maxDepth = 8; Grid g = drawGrid(e, "w", o);
	bool restart = e.coin("restart", 400); int idx = e.range("idx", 0, 40); std::string file = restart ? "out/m/axion.restart" : strf("out/m/axion.%05d", idx);
	std::vector<std::string> ph = { "--lsize", strf("%.9f", e.real("lsize", 2, 8)), "--zi", strf("%.9f", e.real("zi", 0.4, 1.2)), "--zf", "4.0", "--qcd", "3.0", "--ind3", "1.0", "--llcf", "5.0", "--verbose", "0" };
	auto args = [&](int gen) { std::vector<std::string> a = g.a; a += ph; a += Strs{ "@", "new", strf("setz:%.17g", 1. + gen), strf("fill:%s:%llu:1.1", fk[g.kind], (unsigned long long) e.sub(strf("fill%d", gen))), "dump:m:m", "dump:v:v", "params:p", strf("wconf:%d:%d", idx, restart), "mark:done" }; return a; };
	mkdirs(e.path("out/m")); JobOut A = e.run("first", "harn", "h_main", g.s, args(0)); ENDED(e, A); if (!e.coin("replace", 700)) unlink(e.path(file).c_str());
	bool old = exists(e.path(file));
	std::string what = faults(e, g.s, A.r.writes, A.r.opens, std::max<uint64_t>(A.r.fopens, 1)); JobOut R = e.run("second", "harn", "h_main", g.s, args(1)); bool regular = ended(e, R, what);
	uint64_t fired = 0; for (int k = 0; k < FK_NKINDS; k++) fired += R.r.fired[k]; if (fired) e.count("fault_fired"); std::string text = slurp(e.path("second.out")); bool told = !regular || loud(text) || (R.r.outcome != OC_DONE && R.r.code);
	e.sample = strf("%s n=%d nz=%d ranks=%d %s %s", g.ftype(), g.n, g.nz(), g.nr, what.c_str(), restart ? "restart file" : "configuration");
	if (!fired) { e.check(R.r.outcome == OC_DONE, "end", "run without faults: %s", R.outcome().c_str()); }
	auto F = exists(e.path(file)) ? h5read(e, "look", { file })[0] : H5File();
	auto is = [&](JobOut &J) { if (!F.readable) return false; for (auto nm : { "m", "v" }) { std::vector<char> x; auto i = F.get(std::string("/") + nm); if (!J.gather(nm, x) || !i || i->type != 'd' || x.size() != i->raw.size() || memcmp(x.data(), i->raw.data(), x.size())) return false; } auto p = J.find("p", 0); return p && F.num("/@z") == p->as<double>()[12]; };
	bool good = is(R);
	if (!told) e.check(good, "silent", "%s is %s after a %s, and the run did not say so", file.c_str(), !exists(e.path(file)) ? "missing" : !F.readable ? "unreadable" : "wrong", what.c_str());
	// a restart file is never lost, whatever fails while its successor is written
	if (restart && old) e.check(good || is(A), "restart-lost", "the restart file is neither the previous nor the new one after a %s", what.c_str());
}
static void program(Ep &e) {
	Grid g; g.kind = e.pick("field", { 0, 1 }); g.prec = e.pick("prec", { 0, 1 }); g.ng = 1; g.shift = g.kind ? (g.prec ? 4 : 8) : (g.prec ? 2 : 4); g.n = 16; g.nr = e.pick("nranks", { 1, 2, 4 }); g.depth = 16 / g.nr; g.s = baseSpec(e, "w"); g.s.nranks = g.nr; g.s.nthreads = g.thr = e.pick("nthreads", { 1, 2 }); g.s.procs = g.thr; schedule(e, g.s, "");
	std::vector<std::string> a = gridArgs(g, g.nr, g.depth); a += Strs{ "--qcd", "4.0", "--msa", "1.0", "--lsize", "4.0", "--zi", "0.8", "--zf", "1.1", "--steps", "4", "--dump", "2", "--p3D", strf("%lld", (long long) e.pick("p3D", { 2, 1, 3 })), "--vqcd0", "--notheta", "--meas", strf("%lld", (long long) e.pick("meas", { 0, 1, 3, 7, 31, 256 })), "--verbose", "0" };
	bool gen = !g.kind && e.coin("gen", 500); std::string ic;
	if (gen) a += Strs{ "--ctype", "vilgor" }; else a += Strs{ "--index", "0" };
	mkdirs(e.path("out/m")); if (!gen) { std::vector<std::string> b = gridArgs(g, g.nr, g.depth); b += Strs{ "--qcd", "4.0", "--msa", "1.0", "--lsize", "4.0", "--zi", "0.8", "--zf", "1.1", "--vqcd0", "--verbose", "0", "@", "new", strf("fill:%s:%llu:1.1", g.kind ? "axsmooth" : "sxsmooth", (unsigned long long) e.sub("fill")), "wconf:0:0" }; JobOut I = e.run("ic", "harn", "h_main", g.s, b); ENDED(e, I); ic = slurp(e.path("out/m/axion.00000")); }
	auto files = [&] { std::vector<std::string> v; for (auto &n : listDir(e.path("out/m"))) if (n.find("axion.") == 0) v.push_back("out/m/" + n); return v; };
	JobOut A = e.run("clean", "vax", "_Z9prog_mainiPPc", g.s, a); ENDED(e, A); auto f0 = files(); auto c0 = h5read(e, "c", f0); e.check(!f0.empty(), "no-file", "nothing was written");
	wipe(e.path("out")); mkdirs(e.path("out/m")); unlink(e.path("tuneCache.dat").c_str()); if (!gen) spew(e.path("out/m/axion.00000"), ic);
	std::string what = faults(e, g.s, A.r.writes, A.r.opens, A.r.fopens); JobOut R = e.run("faulty", "vax", "_Z9prog_mainiPPc", g.s, a); bool regular = ended(e, R, what);
	uint64_t fired = 0; for (int k = 0; k < FK_NKINDS; k++) fired += R.r.fired[k]; if (fired) e.count("fault_fired"); std::string text = slurp(e.path("faulty.out")); bool told = !regular || loud(text) || (R.r.outcome != OC_DONE && R.r.code);
	e.sample = strf("program: %s ranks=%d %s", g.ftype(), g.nr, what.c_str()); e.count("program_level");
	if (told) return; e.check(R.r.outcome == OC_DONE, "silent", "the run ended early without a message and with status 0 after a %s", what.c_str());
	auto f1 = files(); e.check(f0 == f1, "silent", "%zu files were written instead of %zu after a %s, and the run did not say so", f1.size(), f0.size(), what.c_str()); auto c1 = h5read(e, "d", f1);
	for (size_t i = 0; i < f0.size(); i++) { e.check(c1[i].readable || !c0[i].readable, "silent", "%s is unreadable after a %s, and the run did not say so", f1[i].c_str(), what.c_str()); for (auto &x : c0[i].it) { auto y = c1[i].get(x.first); e.check(y && y->type == x.second.type && y->raw.size() == x.second.raw.size(), "silent", "%s lacks %s after a %s, and the run did not say so", f1[i].c_str(), x.first.c_str(), what.c_str()); if (y->cls == 'f' && x.second.kind == 'd' && (x.first == "/m" || x.first == "/v")) e.check(y->raw == x.second.raw, "silent", "%s: %s holds other data after a %s, and the run did not say so", f1[i].c_str(), x.first.c_str(), what.c_str()); } }
}
static void ep(Ep &e) { if (e.pick("level", { 0, 0, 1 })) program(e); else harness(e); }
static Reg r({ "C09", "disk failures never go unnoticed", { "harn", "vax" }, ep, 1800, 9000, "distinct (field, lattice, layout, kind and place of the disk fault, schedule)", { "configuration and measurement writers", "main program", "HDF5 library" }, { "MPI and MPI-IO (simulated, write, space and open errors injected)", "OpenMP runtime (simulated)", "clock (simulated)" }, { "an error message on the standard output or error stream, or a nonzero exit status, counts as notice" } });
