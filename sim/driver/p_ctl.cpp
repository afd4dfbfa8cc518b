// C11: stop, abort, save and walltime requests are obeyed by all ranks together, whenever they come.
#include "h5.h"
#include <unistd.h>
static void ep(Ep &e) {
	Grid g; g.kind = e.pick("field", { 0, 1 }); g.prec = e.pick("prec", { 0, 1 }); g.ng = e.pick("ng", { 1, 2 }); g.shift = g.kind ? (g.prec ? 4 : 8) : (g.prec ? 2 : 4); g.n = g.kind && !g.prec && g.ng == 2 ? 32 : 16;
	g.nr = e.pick("nranks", g.n == 16 && g.ng == 2 ? std::vector<int64_t>{ 2, 1, 4 } : std::vector<int64_t>{ 2, 4, 1 }); g.depth = g.n / g.nr; g.s = baseSpec(e, "a"); g.s.nranks = g.nr; g.s.nthreads = g.thr = e.pick("nthreads", { 1, 2, 3 }); g.s.procs = g.thr; schedule(e, g.s, "");
	double zi = e.real("zi", 0.4, 1.2), L = e.real("lsize", 2, 8); int steps = e.range("steps", 3, 10); double zf = zi + e.real("cfl", 0.05, 0.2) * L / g.n * steps;
	std::vector<std::string> a = gridArgs(g, g.nr, g.depth); a += Strs{ "--qcd", "4.0", "--msa", "1.0", "--lsize", strf("%.9f", L), "--zi", strf("%.9f", zi), "--zf", strf("%.9f", zf), "--vqcd0", "--verbose", "0" };
	std::vector<std::string> ic = a; ic += Strs{ "@", "new", strf("fill:%s:%llu:1.1", g.kind ? "axsmooth" : "sxsmooth", (unsigned long long) e.sub("fill")), "wconf:0:0" };
	mkdirs(e.path("out/m")); JobOut I = e.run("ic", "harn", "h_main", g.s, ic); ENDED(e, I); std::string icf = slurp(e.path("out/m/axion.00000"));
	a += Strs{ "--index", "0", "--notheta", "--steps", strf("%d", steps), "--dump", strf("%lld", (long long) e.pick("dump", { 2, 1, 3, 50 })), "--p3D", "2", "--meas", strf("%lld", (long long) e.pick("meas", { 0, 1, 32 })) };
	auto confs = [&] { std::set<std::string> v; for (auto &n : listDir(e.path("out/m"))) if (n.compare(0, 6, "axion.") == 0 && n != "axion.00000") v.insert(n); return v; };
	JobOut F = e.run("full", "vax", "_Z9prog_mainiPPc", g.s, a); ENDED(e, F); auto c0 = confs(); std::string last; for (auto &n : c0) if (n.size() == 11 && n > last) last = n; e.check(!last.empty(), "no-final", "the undisturbed run wrote no configuration"); auto H = h5read(e, "h0", { "out/m/" + last })[0];
	uint64_t total = F.r.steps;
	wipe(e.path("out")); mkdirs(e.path("out/m")); spew(e.path("out/m/axion.00000"), icf); if (e.coin("cold", 700)) unlink(e.path("tuneCache.dat").c_str());
	// requests
	int kind = e.pick("request", { 0, 1, 2, 3, 4, 5, 6 }); bool stop = false, abort = false, save = false, wall = false; auto at = [&](const char *n, double hi) { return 1 + (int64_t) (e.real(n, 0, hi) * total); };
	switch (kind) { case 0: stop = true; addFault(g.s, FK_FILE_APPEAR, at("t1", 1), 0); break; case 1: abort = true; addFault(g.s, FK_FILE_APPEAR, at("t1", 1), 1); break; case 2: save = true; addFault(g.s, FK_FILE_APPEAR, at("t1", 1), 2); break;
		case 3: stop = save = true; addFault(g.s, FK_FILE_APPEAR, at("t1", 1), 0); addFault(g.s, FK_FILE_APPEAR, at("t2", 1), 2); break;
		case 4: stop = abort = true; addFault(g.s, FK_FILE_APPEAR, at("t1", 1), 0); addFault(g.s, FK_FILE_APPEAR, at("t2", 1), 1); break;
		case 5: wall = true; if (e.coin("jump", 500)) { a += Strs{ "--wTime", "1000" }; addFault(g.s, FK_CLOCK_JUMP, 1 + (int64_t) (e.real("tj", 0, 1) * F.r.clocks), e.range("jrank", 0, g.nr - 1), 4000000000000000LL); } else a += Strs{ "--wTime", strf("%.9f", e.real("wt", 0, 1) * F.r.simNs * 1e-9 / 3600) }; break;
		case 6: if (e.coin("stalestop", 600)) spew(e.path("stop"), ""); if (e.coin("staleabort", 600)) spew(e.path("abort"), ""); break; }
	if (e.coin("stall", 300)) addFault(g.s, FK_STALL, at("ts", 1), e.range("srank", 0, g.nr - 1), e.range("slen", 1, 3000));
	// another schedule of the same run
	schedule(e, g.s, "r");
	JobOut R = e.run("run", "vax", "_Z9prog_mainiPPc", g.s, a); std::string text = slurp(e.path("run.out"));
	static const char *kn[] = { "stop", "abort", "save", "stop+save", "stop+abort", "walltime", "stale files" }; e.sample = strf("%s n=%d ranks=%d steps=%d %s", g.ftype(), g.n, g.nr, steps, kn[kind]); e.count(strf("request_%s", kn[kind]));
	e.check(R.r.outcome == OC_DONE, "end", "a run with %s did not end regularly: %s", kn[kind], R.outcome().c_str());
	bool fin = text.find("EVOLUTION FINISHED") != std::string::npos, saidStop = text.find("Interrupted manually") != std::string::npos, saidAbort = text.find("Aborting ...") != std::string::npos, saidWall = text.find("Walltime reached") != std::string::npos;
	auto c1 = confs(); bool rest = c1.count("axion.restart");
	bool stopAlive = stop && exists(e.path("stop")), abortAlive = abort && exists(e.path("abort"));   // not removed as stale at the start of the run
	auto after = [&](int w) { return R.r.appeared[w] ? (int) R.r.polls[w] - (int) R.r.pollsAt[w] : 0; };
	e.count("finished", fin); e.count("stopped", saidStop); e.count("aborted", saidAbort); e.count("walled", saidWall);
	e.check(fin + saidStop + saidAbort + saidWall == 1, "answer", "the run says it finished (%d), stopped (%d), aborted (%d), met its walltime (%d)", fin, saidStop, saidAbort, saidWall);
	e.check(!saidStop || stopAlive, "unasked", "the run stopped although nobody asked for it"); e.check(!saidAbort || abortAlive, "unasked", "the run aborted although nobody asked for it"); e.check(!saidWall || wall, "unasked", "the run stopped at a walltime nobody set");
	if (stopAlive) e.check(saidStop || saidAbort || after(0) == 0, "ignored", "the stop file was there for %d looks of the program and the run went on", after(0));
	if (abortAlive) e.check(saidStop || saidAbort || after(1) == 0, "ignored", "the abort file was there for %d looks of the program and the run went on", after(1));
	if (stopAlive && saidStop) e.check(after(0) <= 3 * g.nr, "late", "the run needed %d looks at the stop file (%d ranks) before it stopped", after(0), g.nr);
	if (abortAlive && saidAbort) e.check(after(1) <= 3 * g.nr, "late", "the run needed %d looks at the abort file (%d ranks) before it aborted", after(1), g.nr);
	e.check(rest == (saidStop || saidWall), rest ? "unasked" : "no-restart", rest ? "a restart file was written although the run was not stopped" : "the run was stopped and left no restart file");
	e.check(!exists(e.path("out/m/axion.restart.tmp")), "leftover", "an unfinished restart file was left behind");
	// every configuration left is complete and belongs to the end of a step
	std::vector<std::string> p; for (auto &n : c1) if (n.compare(0, 7, "axion.m") != 0) p.push_back("out/m/" + n); auto C = h5read(e, "h1", p); double dz = (zf - zi) / steps;
	for (size_t i = 0; i < p.size(); i++) { e.check(C[i].readable, "broken", "%s cannot be read", p[i].c_str()); auto m = C[i].get("/m"), v = C[i].get("/v"); size_t want = H.get("/m")->raw.size(); e.check(m && v && m->raw.size() == want && v->raw.size() == want, "broken", "%s lacks data", p[i].c_str());
		double k = (C[i].num("/@z") - zi) / dz; e.check(std::abs(k - std::round(k)) < 1e-4 && k > -0.5 && k < steps + 0.5, "state", "%s was written at time %.12g, which is not the end of a step", p[i].c_str(), C[i].num("/@z"));
		bool nz = false; for (size_t j = 0; j < m->n() && !nz; j++) nz = m->d()[j] != 0; e.check(nz, "broken", "%s is empty", p[i].c_str()); }
	if (save) { bool alive = exists(e.path("savejaxconf")); e.check(!alive || after(2) == 0 || !fin, "ignored", "the save request was seen %d times and is still there", after(2));
		bool saved = text.find("Saving") != std::string::npos || text.find("saving") != std::string::npos || text.find("Dumping") != std::string::npos; (void) saved; if (!alive && fin) { bool more = false; for (auto &n : c1) more = more || (n.size() == 11 && !c0.count(n)) || n != last; e.check(more, "ignored", "the save request was taken but nothing was saved"); } }
	if (fin) { size_t i = 0; for (; i < p.size(); i++) if (p[i] == "out/m/" + last) break; e.check(i < p.size(), "no-final", "the final configuration %s is missing", last.c_str()); for (auto n : { "/m", "/v" }) e.check(C[i].get(n)->raw == H.get(n)->raw, "final", "the final %s differs from that of the undisturbed run", n); }
	if (kind == 6) { e.check(fin, "unasked", "a stale control file ended the run"); e.check(!exists(e.path("stop")) && !exists(e.path("abort")), "stale", "a stale control file was left in place"); }
}
static Reg r({ "C11", "requests are obeyed by all ranks together", { "harn", "vax" }, ep, 1400, 7000, "distinct (lattice, layout, request kinds and their moments, stalls, schedule)", { "main program", "configuration writer and reader", "measurements", "propagators" }, { "MPI and MPI-IO (simulated)", "OpenMP runtime (simulated)", "clock (simulated, with jumps)", "user creating the control files (simulated)" }, {} });
