// C07: stopping and restarting gives the uninterrupted evolution.  C08: a crash never destroys the last good restart file.
#include "h5.h"
#include <unistd.h>
static std::vector<int64_t> rankChoices(int nz, int minDepth, int mx = 4) { std::vector<int64_t> v; for (int i : { 1, 2, 4, 3 }) if (i <= mx && nz % i == 0 && nz / i >= minDepth) v.push_back(i); return v; }
static std::string bitdiff(JobOut &A, const char *x, JobOut &B, const char *y) {
	std::vector<char> u, v; if (!A.gather(x, u)) return strf("incomplete record of %s", x); if (!B.gather(y, v)) return strf("incomplete record of %s", y); if (u.size() != v.size()) return strf("%s has %zu values, %s %zu", x, u.size() / 8, y, v.size() / 8);
	const double *p = (const double*) u.data(), *q = (const double*) v.data(); for (size_t i = 0; i < u.size() / 8; i++) if (p[i] != q[i] && !(std::isnan(p[i]) && std::isnan(q[i]))) return strf("%s[%zu] is %.17g, without the interruption %.17g", y, i, q[i], p[i]); return "";
}
static std::string bitdiff(const H5File &A, const H5File &B) {
	for (auto n : { "/m", "/v" }) { auto a = A.get(n), b = B.get(n); if (!a || !b) return strf("no dataset %s", n); if (a->raw.size() != b->raw.size()) return strf("%s has %zu values instead of %zu", n, b->n(), a->n()); for (size_t i = 0; i < a->n(); i++) if (a->d()[i] != b->d()[i]) return strf("%s[%zu] is %.17g, without the interruption %.17g", n, i, b->d()[i], a->d()[i]); }
	for (auto n : { "/@z", "/@R", "/@Axion mass", "/potential@Lambda", "/potential@Gamma", "/@Physical size" }) if (A.num(n) != B.num(n)) return strf("%s is %.17g, without the interruption %.17g", n, B.num(n), A.num(n));
	return "";
}
static std::vector<std::string> phys(Ep &e, const Grid &g, bool prog = false) {
	std::vector<std::string> ph = { "--lsize", strf("%.9f", e.real("lsize", 2, 8)), "--zi", strf("%.9f", e.real("zi", 0.4, 1.2)), "--verbose", "0" };
	auto fr = e.pick("frw", { 10, 10, 5, 0, 20 }); if (fr == 0) ph += std::string("--mink"); else if (fr != 10) ph += Strs{ "--frw", strf("%.1f", fr / 10.) };
	ph += Strs{ "--qcd", strf("%.3f", e.real("nqcd", 0, 8)) };
	bool pot0 = e.coin("pot0", 200); if (pot0) ph += std::string("--vqcd0"); else { ph += Strs{ "--ind3", strf("%.5f", e.real("indi3", 0.2, 3)) }; if (g.kind == 0) switch (e.pick("pot", { 0, 1, 2 })) { case 1: ph += std::string("--vqcdC"); break; case 2: ph += std::string("--N2"); break; } }
	if (e.coin("msa", 500)) ph += Strs{ "--msa", strf("%.4f", e.real("msav", 0.3, 1.2)) }; else ph += Strs{ "--llcf", strf("%.4f", e.real("llcf", 1, 20)) };
	auto lz = e.pick("lz2e", { -1, 0, 2, 1 }); if (lz >= 0) ph += Strs{ "--lz2e", strf("%lld.0", (long long) lz) };
	if (!prog && e.coin("rc", 400)) { ph += Strs{ "--Rc", strf("%.6f", e.real("rcv", 0.5, 1.8)) }; if (e.coin("rcoff", 600)) ph += Strs{ "--RcOff", strf("%.6f", e.real("rcoffv", 1.8, 3)) }; }
	auto gm = [&](const char *o) { ph += Strs{ o, strf("%.5f", e.real("gam", 0.1, 3)) }; };
	if (g.kind == 0) switch (e.pick("evol", prog ? std::vector<int64_t>{ 0, 3, 4 } : std::vector<int64_t>{ 0, 1, 2, 3, 4, 5, 6 })) {
		case 1: ph += std::string("--onlytheta"); break; case 2: ph += std::string("--onlyrho"); break; case 3: gm("--gam"); break; case 4: gm("--gamall"); break;
		case 5: gm("--gam"); ph += std::string("--onlyrho"); break; case 6: gm("--gamall"); ph += std::string("--onlytheta"); break; }
	return ph;
}
static const char *fk[] = { "sxsmooth", "axrand", "axjump", "axrand" };
static void newJob(Ep &e, Grid &h, const std::string &label, int nr, int nz) { h.nr = nr; h.depth = nz / nr; h.s = baseSpec(e, label); h.s.nranks = nr; h.s.nthreads = h.thr = e.pick(label + ".thr", { 1, 2, 3 }); h.s.procs = h.thr; schedule(e, h.s, label); h.a = gridArgs(h, nr, h.depth); }
static void harness(Ep &e) {
	GridOpt o; o.kinds = { 0, 1, 2, 3 }; o.ngs = { 1, 2, 3 }; o.maxSites = 20000; o.maxDepth = 12; Grid g = drawGrid(e, "a", o); int minD = 2 * g.ng;
	bool restart = e.coin("restart", 500); int idx = e.range("idx", 0, 40); auto ph = phys(e, g); ph += Strs{ "--zf", "4.0" }; double L = e.real("lsize", 2, 8), dz = e.real("cfl", 0.05, 0.2) * L / g.n; int k1 = e.range("k1", 0, 3), k2 = e.range("k2", 1, 3);
	std::vector<std::string> a = g.a; a += ph; a += Strs{ "@", "new", strf("fill:%s:%llu:1.1", fk[g.kind], (unsigned long long) e.sub("fill")), "poison", "prop", "fold" }; if (k1) a += strf("step:%.17g:%d", dz, k1);
	a += Strs{ strf("wconf:%d:%d", idx, restart), strf("step:%.17g:%d", dz, k2), "dump:m:m", "dump:v:v", "params:p" };
	mkdirs(e.path("out/m")); JobOut A = e.run("a", "harn", "h_main", g.s, a); ENDED(e, A);
	Grid h = g; newJob(e, h, "b", e.pick("rranks", rankChoices(g.nz(), minD)), g.nz());
	std::vector<std::string> b = h.a; if (restart) { b += ph; b += std::string("--restart"); } else b += Strs{ "--index", strf("%d", idx), "--verbose", "0" };
	b += Strs{ "@", strf("rconf:%d:%d:read", idx, restart), "need", "poison", "prop", "fold", strf("step:%.17g:%d", dz, k2), "dump:m:m", "dump:v:v", "params:p" };
	JobOut B = e.run("b", "harn", "h_main", h.s, b); ENDED(e, B);
	e.sample = strf("steps of one process image: %s n=%d nz=%d ranks %d->%d threads %d->%d restart=%d steps %d+%d", g.ftype(), g.n, g.nz(), g.nr, h.nr, g.thr, h.thr, restart, k1, k2);
	std::string d = bitdiff(A, "m", B, "m"); e.check(d.empty(), "field", "%s", d.c_str()); d = bitdiff(A, "v", B, "v"); e.check(d.empty(), "velocity", "%s", d.c_str());
	const double *p = A.find("p", 0)->as<double>(), *q = B.find("p", 0)->as<double>(); e.check(p[12] == q[12] && std::abs(p[13] - q[13]) <= 1e-14 * p[13] && std::abs(p[22] - q[22]) <= 1e-12 * std::abs(p[22]), "clock", "time %.17g R %.17g mass^2 %.17g, without the interruption %.17g %.17g %.17g", q[12], q[13], q[22], p[12], p[13], p[22]);
}
static void program(Ep &e) {
	Grid g; g.kind = e.pick("field", { 0, 1 }); g.prec = e.pick("prec", { 0, 1 }); g.ng = e.pick("ng", { 1, 2 }); g.shift = g.kind ? (g.prec ? 4 : 8) : (g.prec ? 2 : 4); g.n = g.kind && !g.prec && g.ng == 2 ? 32 : 16; int nz = g.n, minD = 2 * g.ng;
	auto ph = phys(e, g, true); double zi = e.real("zi", 0.4, 1.2); int steps = e.range("steps", 3, 7); double L = e.real("lsize", 2, 8), zf = zi + e.real("cfl", 0.05, 0.2) * L / g.n * steps; ph += Strs{ "--zf", strf("%.9f", zf) };
	std::vector<std::string> run = { "--steps", strf("%d", steps), "--dump", strf("%lld", (long long) e.pick("dump", { 2, 1, 3, 50 })), "--p3D", "2", "--notheta" };
	if (e.coin("walltune", 300)) run[1] = "200", run += std::string("--wDz"), run += std::string("0.4");
	newJob(e, g, "ic", e.pick("r0", rankChoices(nz, minD)), nz);
	std::vector<std::string> a = g.a; a += ph; a += Strs{ "@", "new", strf("fill:%s:%llu:1.1", g.kind ? "axsmooth" : "sxsmooth", (unsigned long long) e.sub("fill")), "wconf:0:0" };
	mkdirs(e.path("out/m")); JobOut I = e.run("ic", "harn", "h_main", g.s, a); ENDED(e, I); std::string ic = slurp(e.path("out/m/axion.00000"));
	auto go = [&](const std::string &label, bool restart, const std::function<void(JobSpec&)> &f) { newJob(e, g, label, e.pick(label + ".ranks", rankChoices(nz, minD)), nz); f(g.s);
		std::vector<std::string> b = g.a; b += run; if (restart) { b += ph; b += std::string("--restart"); } else b += Strs{ "--index", "0", "--zf", strf("%.9f", zf), "--verbose", "0" };
		return e.run(label, "vax", "_Z9prog_mainiPPc", g.s, b); };
	auto last = [&] { std::string l; for (auto &n : listDir(e.path("out/m"))) if (n.size() == 11 && n.compare(0, 6, "axion.") == 0 && n != "axion.00000" && n > l) l = n; return l; };
	JobOut full = go("full", false, [](JobSpec&) {}); ENDED(e, full); std::string f0 = last(); e.check(!f0.empty(), "no-final", "the uninterrupted run wrote no final configuration");
	auto F = h5read(e, "h5full", { "out/m/" + f0 })[0]; e.check(F.readable, "no-final", "%s cannot be read", f0.c_str());
	wipe(e.path("out")); mkdirs(e.path("out/m")); spew(e.path("out/m/axion.00000"), ic); unlink(e.path("tuneCache.dat").c_str());
	int cycles = e.range("cycles", 1, 3), stops = 0; JobOut o; uint64_t total = full.r.steps;
	for (int c = 0; c <= cycles; c++) {
		bool kill = c < cycles; int how = e.pick(strf("how%d", c), { 0, 1 });
		o = go(strf("part%d", c), c > 0 && stops > 0, [&](JobSpec &s) { if (!kill) return; double f = e.real(strf("at%d", c), 0.02, 0.9);
			if (how == 0) addFault(s, FK_FILE_APPEAR, 1 + (int64_t) (f * total), 0); else { addFault(s, FK_FILE_APPEAR, 1 + (int64_t) (f * total), 2); addFault(s, FK_FILE_APPEAR, 1 + (int64_t) ((f + 0.05) * total), 0); } });
		ENDED(e, o);
		if (exists(e.path("stop"))) unlink(e.path("stop").c_str());
		bool fin = false; for (int r = 0; r < g.nr; r++) fin = true; (void) fin;
		if (exists(e.path("out/m/axion.restart"))) stops++;
		std::string text = slurp(e.path(strf("part%d.out", c))); if (text.find("EVOLUTION FINISHED") != std::string::npos) break;
		e.check(kill, "not-finished", "the restarted run ended before its final time without being stopped");
		e.check(exists(e.path("out/m/axion.restart")), "no-restart", "the run was stopped but there is no restart file");
	}
	e.sample = strf("program: %s n=%d steps=%d prec=%d cycles=%d stops=%d", g.ftype(), g.n, steps, g.prec, cycles, stops); e.count(strf("stops_%d", stops));
	std::string f1 = last(); e.check(!f1.empty(), "no-final", "the restarted run wrote no final configuration");
	auto G = h5read(e, "h5part", { "out/m/" + f1 })[0]; e.check(G.readable, "no-final", "%s cannot be read", f1.c_str());
	std::string d = bitdiff(F, G); e.check(d.empty(), "program", "%s", d.c_str());
}
static void ep7(Ep &e) { if (e.pick("level", { 0, 0, 1 })) program(e); else harness(e); }
static Reg r7({ "C07", "restart equals uninterrupted run", { "harn", "vax" }, ep7, 1300, 6500, "distinct (field, lattice, layouts before and after, stop points, number of stop/restart cycles, schedule)", { "main program", "propagators", "configuration writer and reader", "measurements", "HDF5 library" }, { "MPI and MPI-IO (simulated)", "OpenMP runtime (simulated)", "clock (simulated)", "user creating the stop file (simulated)" }, {} });

static void ep8(Ep &e) {
	GridOpt o; o.kinds = { 0, 1, 2 }; o.ngs = { 1, 2 }; o.maxSites = 12000; o.maxDepth = 8; Grid g = drawGrid(e, "a", o); int minD = g.ng, nz = g.nz();
	auto ph = phys(e, g); ph += Strs{ "--zf", "4.0" }; double L = e.real("lsize", 2, 8), dz = 0.1 * L / g.n; mkdirs(e.path("out/m"));
	// every generation continues from the restart file, evolves, and writes the next restart file; a crash may hit anywhere
	struct St { std::vector<char> m, v; double z; }; std::vector<St> ok; int gens = e.range("gens", 2, 4); std::string d; int crashes = 0; uint64_t ops = 0, steps = 0;
	auto state = [&](JobOut &A, const char *s, St &t) { auto p = A.find(strf("p%s", s), 0); for (int r = 0; r < g.s.nranks; r++) if (!A.find(strf("m%s", s), r) || !A.find(strf("v%s", s), r)) return false;   // a crash between the records of two ranks
		return A.gather(strf("m%s", s), t.m) && A.gather(strf("v%s", s), t.v) && p && (t.z = p->as<double>()[12], true); };
	auto eq = [](const St &a, const St &b) { return a.z == b.z && a.m == b.m && a.v == b.v; };
	for (int k = 0; k < gens; k++) {
		newJob(e, g, strf("g%d", k), e.pick(strf("ranks%d", k), rankChoices(nz, minD)), nz);
		std::vector<std::string> a = g.a; a += ph; if (k) a += std::string("--restart"); a += std::string("@");
		if (k) a += Strs{ "rconf:0:1:read", "need", "dump:m0:m", "dump:v0:v", "params:p0", strf("setz:%.17g", 1 + 0.1 * k), strf("fill:%s:%llu:1", fk[g.kind], (unsigned long long) e.sub(strf("fill%d", k))) }; else a += Strs{ "new", strf("fill:%s:%llu:1.1", fk[g.kind], (unsigned long long) e.sub("fill")) };
		a += Strs{ "dump:m1:m", "dump:v1:v", "params:p1", "wconf:7:1", "mark:done" };
		int kind = k ? e.pick(strf("crash%d", k), { 1, 2, 3, 4, 0 }) : 0;
		// crash points are spread over the disk operations (steps) of the first, undisturbed generation, and a little beyond
		int64_t at = 1 + (int64_t) (e.real(strf("at%d", k), 0, 1.4) * ops);
		switch (kind) { case 1: addFault(g.s, FK_CRASH_DISKOP, at); break; case 2: addFault(g.s, FK_CRASH_MID_WRITE, 1 + (int64_t) (e.real(strf("at%d", k), 0, 1.2) * ops), e.range(strf("frac%d", k), 0, 99)); break;
			case 3: addFault(g.s, FK_POWERLOSS_DISKOP, at, e.range(strf("mode%d", k), 0, 1000)); break; case 4: addFault(g.s, FK_CRASH_STEP, 1 + (int64_t) (e.real(strf("at%d", k), 0, 2.) * steps), e.range(strf("mode%d", k), 0, 1000), e.pick(strf("power%d", k), { 0, 1 })); break; }
		JobOut A = e.run(strf("g%d", k), "harn", "h_main", g.s, a); bool crashed = A.r.outcome == OC_CRASHED; if (crashed) crashes++; else ENDED(e, A);
		if (!k) { ops = A.r.diskOps; steps = A.r.steps; }
		St n, f; bool wrote = state(A, "1", n);
		if (k) { if (state(A, "0", f)) { bool hit = false; for (auto &s : ok) hit = hit || eq(s, f); e.check(hit, "state", "generation %d restarted from a state that was never written (z=%.9g)", k, f.z); ok = { f }; }
			else e.check(crashed, "record", "incomplete record"); }
		if (wrote && crashed) ok.push_back(n); else if (wrote) ok = { n };
	}
	newJob(e, g, "last", e.pick("lastranks", rankChoices(nz, minD)), nz); std::vector<std::string> b = g.a; b += ph; b += Strs{ "--restart", "@", "rconf:0:1:read", "need", "dump:m0:m", "dump:v0:v", "params:p0" };
	JobOut B = e.run("last", "harn", "h_main", g.s, b); e.sample = strf("%s n=%d nz=%d generations=%d crashes=%d", g.ftype(), g.n, nz, gens, crashes); e.count("crashes", crashes);
	e.check(B.r.outcome == OC_DONE && B.num("read") == 1, "lost", "after %d crashes no restart file can be read: %s", crashes, B.outcome().c_str());
	St f; e.check(state(B, "0", f), "lost", "after %d crashes no complete state can be read", crashes); bool hit = false; for (auto &s : ok) hit = hit || eq(s, f); e.check(hit, "state", "the state read after %d crashes (z=%.9g) is neither the last complete one nor the one being written", crashes, f.z);
}
static Reg r8({ "C08", "a crash keeps the last restart file", { "harn" }, ep8, 1500, 7500, "distinct (field, lattice, layouts, crash points and kinds over the generations, schedule)", { "configuration writer and reader", "HDF5 library" }, { "MPI and MPI-IO (simulated, with a durability model)", "OpenMP runtime (simulated)" }, { "a power loss keeps a prefix, a subset (with a torn last write) or all of the writes that were not synchronised, and a rename may or may not have reached the disk" } });
