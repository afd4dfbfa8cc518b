// C03: the block tuner ends, agrees on every rank, leaves the field alone, and its cache file can neither break nor alter a run.
#include "cfg.h"
#include <sstream>
#include <unistd.h>
static std::vector<std::string> lines(const std::string &s) { std::vector<std::string> v; std::istringstream i(s); std::string l; while (std::getline(i, l)) v.push_back(l); return v; }
static void ep(Ep &e) {
	GridOpt o; o.kinds = { 0, 1, 2, 3 }; o.ngs = { 1, 2, 3 }; o.maxSites = 20000; o.wide = false; o.maxDepth = 8;
	Grid g = drawGrid(e, "a", o); bool pax = g.kind == 3; if (g.depth < (pax ? 2 * g.ng : g.ng)) g.depth = pax ? 2 * g.ng : g.ng;
	bool exact = g.n / g.shift >= 2 * g.ng && g.depth >= 2 * g.ng;      // lattices on which block order cannot matter
	double L = e.real("lsize", 2, 8), dz = 0.1 * L / g.n;
	std::vector<std::string> ph = { "--lsize", strf("%.6f", L), "--zi", "0.8", "--zf", "4.0", "--qcd", "4", "--msa", "1.0", "--verbose", "0" };
	if (!pax) ph += std::string("--vqcd0");
	const char *fcls = "field"; if (g.kind == 0 && e.coin("projected", 40)) { ph += std::string(e.pick("projection", { 0, 1 }) ? "--onlyrho" : "--onlytheta"); fcls = "field-projected"; }
	std::string cache = e.path("tuneCache.dat"); int myF = g.kind == 0 ? 0 : g.kind == 1 ? 1 : g.kind == 3 ? 3 : 4, Y = g.n / g.shift;
	auto line = [&](int y, int z) { return strf("Cpu %d %d %d %d %d %d %d %d %d\n", g.nr, g.thr, g.n, g.depth, myF, g.n * g.shift, y, z, g.ng); };
	std::string old; int kind = e.pick("cache", { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9 }); int y0 = 0, z0 = 0;
	switch (kind) {
		case 1: case 2: { std::vector<int64_t> dy, dzv; for (int i = 1; i <= Y; i++) if (Y % i == 0) dy.push_back(i); for (int i = 1; i <= g.depth; i++) if (g.depth % i == 0) dzv.push_back(i); y0 = e.pick("cy", dy); z0 = e.pick("cz", dzv);
			old = strf("Cpu %d %d %d %d %d %d 1 1 %d\n", g.nr, g.thr + 1, g.n, g.depth, myF, g.n * g.shift, g.ng) + strf("Cpu %d %d %d %d %d %d 1 1 %d\n", g.nr, g.thr, g.n * 2, g.depth, myF, g.n * g.shift, g.ng) + line(y0, z0); if (kind == 2) old += line(1, 1); break; }
		case 3: { // lines of other machines and layouts only
			for (int i = 0, n = e.range("others", 1, 4); i < n; i++) switch (e.pick(strf("oth%d", i), { 0, 1, 2, 3, 4, 5 })) {
				case 0: old += strf("Gpu %d %d %d %d %d %d 1 1 %d\n", g.nr, g.thr, g.n, g.depth, myF, g.n * g.shift, g.ng); break;
				case 1: old += strf("Cpu %d %d %d %d %d %d 1 1 %d\n", g.nr + 1, g.thr, g.n, g.depth, myF, g.n * g.shift, g.ng); break;
				case 2: old += strf("Cpu %d %d %d %d %d %d 1 1 %d\n", g.nr, g.thr, g.n, g.depth + 1, myF, g.n * g.shift, g.ng); break;
				case 3: old += strf("Cpu %d %d %d %d %d %d 1 1 %d\n", g.nr, g.thr, g.n, g.depth, myF ? 0 : 1, g.n * g.shift, g.ng); break;
				case 4: old += strf("Cpu %d %d %d %d %d %d 1 1 %d\n", g.nr, g.thr, g.n, g.depth, myF, g.n * g.shift, g.ng + 1); break;
				case 5: old += strf("Cpu %d %d %d %d %d %d %d %d %d\n", g.nr, g.thr, g.n, g.depth, myF, g.n * g.shift, Y * 2, g.depth, g.ng); break; } break; }
		case 4: old = line(0, 1); break;
		case 5: old = line(1, 0); break;
		case 6: old = line(1, g.depth + 3); break;
		case 7: { std::string l = line(1, 1); old = l.substr(0, 1 + e.range("cut", 0, (int) l.size() - 3)); break; }
		case 8: old = "# a comment someone wrote into the tuning cache\n" + line(1, 1); break;
		case 9: old = "\n"; break;
	}
	if (kind) spew(cache, old);
	int fault = e.pick("fault", { 0, 0, 1, 2, 3, 4 });
	if (fault == 1) addFault(g.s, FK_FOPEN_FAIL, e.range("openAt", 1, 6));
	if (fault == 2) for (int i = 0, n = e.range("jumps", 1, 3); i < n; i++) addFault(g.s, FK_CLOCK_JUMP, e.range(strf("jumpAt%d", i), 1, 60), e.pick(strf("jump%d", i), { 1000000000LL, -500000000LL, 3600000000000LL, -20000000LL }));
	if (fault == 3) addFault(g.s, FK_STALL, e.range("stallAt", 1, 40), e.range("stallRank", 0, g.nr - 1), 2000000000LL);
	if (fault == 4) { unlink(cache.c_str()); mkdirs(cache); }
	std::vector<std::string> a = gridArgs(g, g.nr, g.depth); a += ph;
	a += Strs{ "@", "new", strf("fill:%s:%llu:%g", g.kind ? "axrand" : "sxrand", (unsigned long long) e.sub("fill"), g.kind ? 1.5 : 1.), "poison", "prop", "fold", "dump:m0:m", "dump:v0:v", "params:p0", "tune", "dump:m1:m", "dump:v1:v", "params:p1", "blocks:b" };
	if (exact) a += Strs{ strf("step:%.17g:1", dz), "dump:m2:m", "dump:v2:v" };
	mkdirs(e.path("out/m"));
	JobOut t = e.run("tune", "harn", "h_main", g.s, a);
	e.sample = strf("%s n=%d depth=%d ranks=%d thr=%d cache=%d fault=%d", g.ftype(), g.n, g.depth, g.nr, g.thr, kind, fault);
	ENDED(e, t); e.check(t.r.leakedReq == 0, "requests", "%d open requests at the end", t.r.leakedReq);
	auto cmp = [&](JobOut &A, const char *x, JobOut &B, const char *y, const char *cls) { std::vector<char> u, v; e.check(A.gather(x, u) && B.gather(y, v) && u.size() == v.size(), "record", "incomplete record of %s", x);
		const double *p = (const double*) u.data(), *q = (const double*) v.data(); for (size_t i = 0; i < u.size() / 8; i++) if (p[i] != q[i] && !(std::isnan(p[i]) && std::isnan(q[i]))) e.fail(cls, "%s[%zu] is %.17g, not %.17g", x, i, q[i], p[i]); };
	cmp(t, "m0", t, "m1", "field"); cmp(t, "v0", t, "v1", fcls);
	auto p0 = t.find("p0", 0), p1 = t.find("p1", 0); e.check(p0 && p1 && p0->data == p1->data, "clock", "tuning changed the conformal time or the background");
	std::vector<double> b0; for (int r = 0; r < g.nr; r++) { auto b = t.find("b", r); e.check(b && b->count() == 4, "record", "no block of rank %d", r); const double *d = b->as<double>(); std::vector<double> v(d, d + 4); if (!r) b0 = v;
		e.check(v == b0, "agree", "rank %d uses blocks %g x %g x %g, rank 0 %g x %g x %g", r, v[0], v[1], v[2], b0[0], b0[1], b0[2]);
		e.check(v[3] == 1 && v[0] >= 1 && v[1] >= 1 && v[2] >= 1, "block", "rank %d ends with blocks %g x %g x %g (tuned %g) on a lattice of %d x %d x %d", r, v[0], v[1], v[2], v[3], g.n * g.shift, Y, g.depth); }
	// the cache file afterwards
	if (fault != 4) {
		std::string now = slurp(cache); bool hit = (kind == 1 || kind == 2) && fault != 1;
		if (hit) { e.check(b0[1] == y0 && b0[2] == z0, "cached", "the cache says %d x %d, the run uses %g x %g", y0, z0, b0[1], b0[2]); e.check(now == old, "cache-file", "a run that found its entry changed the cache file"); }
		else if (fault != 1) {
			e.check(now.compare(0, old.size(), old) == 0, "cache-file", "the tuner changed entries that were there");
			std::string want = strf("Cpu %d %d %d %d %d %d %d %d %d", g.nr, g.thr, g.n, g.depth, myF, (int) b0[0], (int) b0[1], (int) b0[2], g.ng), add = now.substr(old.size());
			e.check(add == want + "\n", "cache-file", "the tuner wrote '%s' for its choice '%s'", add.c_str(), want.c_str());
		}
	}
	if (exact) {   // the same step without tuning
		std::vector<std::string> b; for (auto &x : a) if (x != "tune" && x.compare(0, 7, "blocks:")) b.push_back(x);
		JobSpec s = baseSpec(e, "plain"); s.nranks = g.nr; s.nthreads = g.thr; s.procs = g.thr; JobOut u = e.run("plain", "harn", "h_main", s, b); ENDED(e, u);
		cmp(u, "m2", t, "m2", "evolution"); cmp(u, "v2", t, "v2", "evolution");
	}
}
static Reg r({ "C03", "the block tuner is harmless", { "harn" }, ep, 2500, 12500, "distinct (lattice, cache content, fault, schedule)", { "tuner", "propagators", "parser", "communication layer" }, { "MPI (simulated)", "OpenMP runtime (simulated)", "clock (simulated)", "stdio files (real, with injected open failures)" }, {} });
