// C06: a configuration file holds exactly the state it was written from, whatever ranks write and read it.
#include "h5.h"
static std::vector<int64_t> divs(int n, int mx) { std::vector<int64_t> v; for (int i = 1; i <= mx; i++) if (n % i == 0) v.push_back(i); return v; }
// raw record (field precision) -> double
static std::vector<double> wide(const std::vector<char> &u) { std::vector<double> o(u.size() / 8); memcpy(o.data(), u.data(), o.size() * 8); return o; }
static void ep(Ep &e) {
	GridOpt o; o.kinds = { 0, 1, 2, 3 }; o.ngs = { 1, 2 }; o.maxSites = 20000; o.wide = true; o.minN = 8; o.maxDepth = 8;
	Grid g = drawGrid(e, "w", o); if (g.kind == 3 && g.depth < 2 * g.ng) g.depth = 2 * g.ng;
	int idx = e.range("idx", 0, 120); bool restart = e.coin("restart", 250); std::string file = restart ? "out/m/axion.restart" : strf("out/m/axion.%05d", idx);
	std::vector<std::string> ph = { "--lsize", strf("%.9f", e.real("lsize", 2, 8)), "--zi", strf("%.9f", e.real("zi", 0.4, 1.5)), "--zf", "4.0", "--verbose", "0" };
	auto fr = e.pick("frw", { 10, 10, 5, 0, 20 }); if (fr == 0) ph += std::string("--mink"); else if (fr != 10) ph += Strs{ "--frw", strf("%.1f", fr / 10.) };
	ph += Strs{ "--qcd", strf("%.3f", e.real("nqcd", 0, 8)) };
	bool pot0 = e.coin("pot0", 200); if (!pot0) ph += Strs{ "--ind3", strf("%.5f", e.real("indi3", 0.2, 3)) };
	if (e.coin("msa", 500)) ph += Strs{ "--msa", strf("%.4f", e.real("msav", 0.3, 1.5)) }; else ph += Strs{ "--llcf", strf("%.4f", e.real("llcf", 1, 300)) };
	auto lz = e.pick("lz2e", { -1, 0, 2, 1 }); if (lz >= 0) ph += Strs{ "--lz2e", strf("%lld.0", (long long) lz) };
	if (e.coin("rc", 400)) { ph += Strs{ "--Rc", strf("%.6f", e.real("rcv", 0.5, 1.8)) }; if (e.coin("rcoff", 600)) ph += Strs{ "--RcOff", strf("%.6f", e.real("rcoffv", 1.8, 3)) }; }
	if (pot0) ph += std::string("--vqcd0"); else switch (e.pick("pot", { 0, 1, 2, 3, 4 })) { case 1: ph += std::string("--vqcdC"); break; case 2: ph += std::string("--vqcdV"); break; case 3: ph += std::string("--vqcdL"); break; case 4: ph += std::string("--N2"); break; }
	switch (e.pick("vpq", { 0, 1, 2, 3 })) { case 1: ph += std::string("--vPQ1"); break; case 2: ph += std::string("--vPQ2"); break; case 3: ph += std::string("--vPQ3"); break; }
	switch (e.pick("evol", { 0, 1, 2 })) { case 1: ph += std::string("--onlyrho"); break; case 2: ph += std::string("--onlytheta"); break; }
	switch (e.pick("damp", { 0, 1, 2 })) { case 1: ph += Strs{ "--gam", strf("%.5f", e.real("gam", 0.1, 3)) }; break; case 2: ph += Strs{ "--gamall", strf("%.5f", e.real("gam", 0.1, 3)) }; break; }
	std::vector<std::string> ic; switch (e.pick("ic", { 0, 1, 2, 3, 4, 5 })) {
		case 1: ic = { "--ctype", "smooth", "--sIter", strf("%lld", (long long) e.range("siter", 1, 90)), "--alpha", strf("%.4f", e.real("alpha", 0.01, 0.9)) }; break;
		case 2: ic = { "--ctype", "kmax", "--kmax", strf("%lld", (long long) e.range("kmax", 1, 90)), "--kcr", strf("%.4f", e.real("kcr", 0.1, 9)) }; break;
		case 3: ic = { "--ctype", "vilgor", "--kcr", strf("%.4f", e.real("kcr", 0.1, 9)) }; break;
		case 4: ic = { "--ctype", "lola", "--kmax", strf("%lld", (long long) e.range("kmax", 1, 90)) }; break;
		case 5: ic = { "--ctype", "smooth", "--smvar", e.pick("smv", { 0, 1 }) ? "stXY" : "mc", "--mode0", strf("%.4f", e.real("mode0", 0.1, 3)) }; break; }
	ph += ic;
	const char *fk[] = { "sxrand", "axrand", "axjump", "axrand" };
	bool folded = g.kind != 3 && e.coin("folded", 500); double zNow = e.real("znow", 0.5, 3);
	std::vector<std::string> a = g.a; a += ph;
	a += Strs{ "@", "new", strf("setz:%.17g", zNow), strf("fill:%s:%llu:1.1", fk[g.kind], (unsigned long long) e.sub("fill")), "poison" };
	if (folded) a += std::string("fold");
	a += Strs{ "dump:m0:m", "dump:v0:v", "params:p0", "globals:g0" };
	bool over = e.coin("overwrite", 200); if (over) a += strf("wconf:%d:%d", idx, restart);   // the file may exist already
	a += Strs{ strf("wconf:%d:%d", idx, restart), "dump:m1:m", "dump:v1:v", "params:p1" };
	mkdirs(e.path("out/m")); if (e.coin("stale", 300)) { spew(e.path(file), std::string(e.range("staleLen", 0, 5000), 'x')); }
	JobOut w = e.run("write", "harn", "h_main", g.s, a); ENDED(e, w);
	auto get = [&](JobOut &A, const char *x) { std::vector<char> u; e.check(A.gather(x, u), "record", "incomplete record of %s", x); return wide(u); };
	auto same = [&](const std::vector<double> &x, const std::vector<double> &y, const char *cls, const char *what) { e.check(x.size() == y.size(), cls, "%s: %zu values, expected %zu", what, y.size(), x.size());
		for (size_t i = 0; i < x.size(); i++) if (memcmp(&x[i], &y[i], 8) && !(x[i] == y[i])) e.fail(cls, "%s[%zu] is %.17g, expected %.17g", what, i, y[i], x[i]); };
	auto m0 = get(w, "m0"), v0 = get(w, "v0"); same(m0, get(w, "m1"), "written-field", "the field after writing"); same(v0, get(w, "v1"), "written-field", "the velocity after writing");
	auto p0 = w.find("p0", 0), p1 = w.find("p1", 0); e.check(p0 && p1 && p0->data == p1->data, "written-field", "writing changed the parameters of the run");
	// what the file says
	auto F = h5read(e, "look", { file })[0]; e.check(F.readable, "unreadable", "%s cannot be opened", file.c_str());
	auto ds = [&](const char *p) { auto i = F.get(p); e.check(i && i->type == 'd', "file-data", "no dataset %s", p); return std::vector<double>(i->d(), i->d() + i->n()); };
	same(m0, ds("/m"), "file-data", "dataset m"); same(v0, ds("/v"), "file-data", "dataset v");
	const double *P = p0->as<double>(); struct { const char *n; int i; } at[] = { { "/@Physical size", 0 }, { "/potential@Lambda", 1 }, { "/potential@Lambda Z2 exponent", 2 }, { "/potential@Indi3", 3 }, { "/potential@Gamma", 4 }, { "/potential@nQcd", 6 }, { "/potential@nQcd2", 7 }, { "/potential@z Threshold", 8 }, { "/potential@z Restore", 9 }, { "/@Frw", 10 }, { "/@z", 12 }, { "/@R", 13 }, { "/@Size", 14 }, { "/@Depth", 15 } };
	for (auto &x : at) e.check(F.num(x.n) == P[x.i], "file-attr", "%s is %.17g in the file, %.17g in the run", x.n, F.num(x.n), P[x.i]);
	// reading, by other ranks, with other schedules
	Grid h = g; std::vector<int64_t> d2; for (auto r : divs(g.nz(), 4)) if (g.nz() / r >= (g.kind == 3 ? 2 * g.ng : g.ng)) d2.push_back(r);
	h.nr = e.pick("rranks", d2); h.depth = g.nz() / h.nr; h.s = baseSpec(e, "r"); h.s.nranks = h.nr; h.s.nthreads = h.thr = e.pick("rthreads", { 1, 2, 3 }); h.s.procs = h.thr; schedule(e, h.s, "r");
	int rp = e.pick("rprec", { 0, 0, 1, 2 }); h.prec = rp == 0 ? g.prec : rp - 1;
	std::vector<std::string> b = gridArgs(h, h.nr, h.depth); if (rp == 0) for (size_t i = 0; i + 1 < b.size(); i++) if (b[i] == "--prec") { b.erase(b.begin() + i, b.begin() + i + 2); break; }   // not given: taken from the file
	if (restart) b += std::string("--restart"); else b += Strs{ "--index", strf("%d", idx) };
	b += Strs{ "--verbose", "0" };
	std::vector<double> X(P, P + 26); X[14] = g.n; X[17] = h.prec ? 8 : 4; bool same0 = rp == 0 || h.prec == g.prec, ov = false;
	if (restart) { b += ph; }                                           // a restart repeats the command line
	else {
		auto put = [&](const char *nm, const char *opt, int i, double lo, double hi) { if (!e.coin(strf("ov_%s", nm), 120)) return false; std::string t = strf("%.6f", e.real(strf("ovv_%s", nm), lo, hi)); b += Strs{ opt, t }; X[i] = atof(t.c_str()); ov = true; return true; };
		put("lsize", "--lsize", 0, 2, 9); if (put("qcd", "--qcd", 6, 0, 8)) X[7] = X[6]; if (!pot0) put("ind3", "--ind3", 3, 0.3, 3); put("zi", "--zi", 12, 0.4, 2);
		bool frwo = fr != 0 && put("frw", "--frw", 10, 0.5, 2); (void) frwo;
		if (e.coin("ov_lam", 120)) { std::string t = strf("%.4f", e.real("ovv_lam", 1, 400)); b += Strs{ "--llcf", t }; X[1] = atof(t.c_str()); X[2] = -1; ov = true; }
		X[13] = NAN;
	}
	b += Strs{ "@", strf("rconf:%d:%d:read", idx, restart), "need", "dump:m0:m", "dump:v0:v", "params:p0", "isfolded:f" };
	bool again = !ov && same0; if (again) b += strf("wconf:%d:0", 777);
	JobOut r = e.run("read", "harn", "h_main", h.s, b); ENDED(e, r);
	e.sample = strf("%s %dx%dx%d ranks %d->%d prec %d->%d folded=%d restart=%d override=%d", g.ftype(), g.n, g.n, g.nz(), g.nr, h.nr, g.prec, h.prec, folded, restart, ov);
	e.check(r.num("read") == 1, "no-field", "the file was not read"); e.check(r.num("f") == 0, "read-folded", "the field read is marked as folded");
	auto mx = m0, vx = v0; if (!same0 && h.prec == 0) for (auto *q : { &mx, &vx }) for (auto &t : *q) t = (float) t;
	same(mx, get(r, "m0"), "read-field", "the field read"); same(vx, get(r, "v0"), "read-field", "the velocity read");
	auto q0 = r.find("p0", 0); const double *Q = q0->as<double>();
	struct { const char *n; int i; } ck[] = { { "box size", 0 }, { "lambda", 1 }, { "lambda exponent", 2 }, { "indi3", 3 }, { "damping", 4 }, { "mass exponent", 6 }, { "mass exponent above the restoring scale", 7 }, { "threshold scale", 8 }, { "restoring scale", 9 }, { "expansion exponent", 10 }, { "potential", 11 }, { "time", 12 }, { "lattice size", 14 }, { "lattice depth", 15 }, { "field type", 16 }, { "precision", 17 }, { "Minkowski flag", 19 } };
	for (auto &x : ck) { if (x.i == 2 && X[2] < 0) continue; e.check(Q[x.i] == X[x.i], "read-param", "%s is %.17g after reading, expected %.17g", x.n, Q[x.i], X[x.i]); }
	{ double R = pow(X[12], X[10]); e.check(std::abs(Q[13] - R) < 1e-12 * R, "read-param", "scale factor is %.17g after reading, expected %.17g", Q[13], R); }
	for (int k = 1; k < h.nr; k++) { auto qk = r.find("p0", k); e.check(qk && qk->data == q0->data, "ranks-differ", "rank %d holds other parameters than rank 0", k); }
	if (again) { auto H = h5read(e, "look2", { "out/m/axion.00777" })[0]; std::vector<std::string> skip = { "nSteps", "Current step", "zFinal", "zInitial", "@index" }; std::string d = h5diff(F, H, 0, skip);
		e.check(d.empty(), "rewrite", "a configuration read and written again differs: %s", d.c_str()); }
}
static Reg rg({ "C06", "configuration files round trip", { "harn" }, ep, 1800, 9000, "distinct (field, lattice, writing ranks, reading ranks, precision, potential, overridden parameter set, schedule)", { "configuration writer", "configuration reader", "parser", "folder", "HDF5 library" }, { "MPI and MPI-IO (simulated)", "OpenMP runtime (simulated)" }, {} });
