// C01: results do not depend on how the lattice is distributed, on the number of threads or on the schedule.
#include "h5.h"
static void ep(Ep &e) {
	GridOpt o; o.ranks = { 1 }; o.kinds = { 0, 1, 2, 3 }; o.ngs = { 1, 2, 3, 4 }; o.maxSites = 40000;
	Grid g = drawGrid(e, "a", o); bool pax = g.kind == 3;
	// a second layout of the same lattice
	int d0 = 2 * g.ng; std::vector<int64_t> nzs; for (int z : { 12, 8, 16, 24, 4 }) if (z >= d0 * 2 && z * g.n * g.n <= 60000 * 2) nzs.push_back(z); if (nzs.empty()) nzs.push_back(2 * d0);
	int nz = e.pick("nz", nzs); std::vector<int64_t> rs; for (int r : { 2, 3, 4, 1 }) if (nz % r == 0 && nz / r >= d0) rs.push_back(r); int r2 = e.pick("ranks2", rs);
	JobSpec s2 = baseSpec(e, "b"); s2.nranks = r2; s2.nthreads = e.pick("threads2", { 1, 2, 3, 4 }); s2.procs = s2.nthreads; schedule(e, s2, "b.");
	JobSpec s1 = baseSpec(e, "a"); s1.nranks = 1; s1.nthreads = 1; s1.schedMode = SM_RR;
	double L = e.real("lsize", 2, 8), dz = e.real("cfl", 0.02, 0.2) * L / g.n; int steps = e.pick("steps", { 1, 2, 3 });
	std::vector<std::string> ph = { "--lsize", strf("%.6f", L), "--zi", strf("%.4f", e.real("zi", 0.4, 1.6)), "--zf", "4.0", "--qcd", "4", "--msa", strf("%.3f", e.real("msa", 0.3, 1.5)), "--ind3", strf("%.3f", e.real("ind3", 0.3, 2)) };
	if (!pax) switch (e.pick("pot", { 1, 0, 2 })) { case 0: ph += std::string("--vqcd0"); break; case 2: ph += std::string("--vqcdC"); break; }
	auto gm = [&](const char *o) { ph += Strs{ o, strf("%.5f", e.real("gam", 0.1, 3)) }; };
	if (g.kind == 0) switch (e.pick("evol", { 0, 1, 2, 3, 4, 5, 6 })) {
		case 1: ph += std::string("--onlytheta"); break; case 2: ph += std::string("--onlyrho"); break; case 3: gm("--gam"); break; case 4: gm("--gamall"); break;
		case 5: gm("--gam"); ph += std::string("--onlyrho"); break; case 6: gm("--gamall"); ph += std::string("--onlytheta"); break; }
	uint64_t sd = e.sub("fill"); bool rough = e.coin("rough", 600);
	std::vector<std::string> ops = { "@", "new", strf("fill:%s:%llu:%g", g.kind ? (rough ? "axrand" : "axsmooth") : (rough ? "sxrand" : "sxsmooth"), (unsigned long long) sd, g.kind ? 1.5 : 1.), "poison", "prop", "fold" };
	int nm = e.range("measures", 0, 3); bool proj = g.kind == 0 && e.cache["evol"] % 4 && e.cache["evol"] != 3, tune = e.coin("tune", 250) && !proj /* the tuner's trial steps project the velocity: a finding of C03 */; if (tune) ops += std::string("tune"); std::vector<std::string> nums, maps;
	std::vector<std::string> mo; bool toTheta = g.kind == 0 && g.n * (nz / r2 + 2) >= 16 * s2.nthreads /* scratch space the mending needs */ && e.coin("totheta", 200);
	ops += strf("step:%.17g:%d", dz, steps); ops += Strs{ "dump:m:m", "dump:v:v", "params:par" };
	if (!pax) for (int i = 0; i < nm; i++) switch (e.pick(strf("meas%d", i), g.kind == 0 ? std::vector<int64_t>{ 0, 1, 2, 3 } : std::vector<int64_t>{ 0, 3 })) {
		case 0: ops += strf("energy:e%d:1:0", i); nums.push_back(strf("e%d", i)); break;
		case 1: ops += strf("strings:s%d", i); nums.push_back(strf("s%d", i)); break;
		case 2: ops += strf("strings2:t%d", i); nums.push_back(strf("t%d", i)); break;
		case 3: ops += strf("energy:f%d:3:0", i); nums.push_back(strf("f%d", i)); ops += strf("dump:em%d:m2r", i); maps.push_back(strf("em%d", i)); break;
	}
	if (toTheta) { ops += Strs{ "theta:0:0", "dump:th:m", "dump:tv:v" }; }
	ops += Strs{ "unfold", "wconf:7:0" };
	std::vector<std::string> a1 = gridArgs(g, 1, nz), a2 = gridArgs(g, r2, nz / r2); a1 += ph; a2 += ph; a1 += ops; a2 += ops;
	auto env = [&](JobSpec &s, const char *d) { mkdirs(e.path(std::string(d) + "/m")); (void) s; };
	env(s1, "out");
	JobOut oa = e.run("a", "harn", "h_main", s1, a1); ENDED(e, oa); rename(e.path("out").c_str(), e.path("outA").c_str()); env(s2, "out");
	JobOut ob = e.run("b", "harn", "h_main", s2, a2); ENDED(e, ob);
	e.sample = strf("%s n=%d nz=%d ng=%d prec=%d ranks 1/%d threads 1/%d steps=%d measures=%d", g.ftype(), g.n, nz, g.ng, g.prec, r2, s2.nthreads, steps, nm);
	auto cmp = [&](const char *nme, const char *cls, double tol) {
		std::vector<char> x, y; bool p = oa.gather(nme, x), q = ob.gather(nme, y); e.check(p && q && x.size() == y.size(), "record", "incomplete record of %s", nme);
		const double *u = (const double*) x.data(), *v = (const double*) y.data(); size_t N = x.size() / 8; double sc = 0; for (size_t i = 0; i < N; i++) sc = std::max(sc, std::abs(u[i]));
		for (size_t i = 0; i < N; i++) if (u[i] != v[i] && !(std::isnan(u[i]) && std::isnan(v[i])) && !(std::abs(u[i] - v[i]) <= tol * sc)) e.fail(cls, "%s[%zu] is %.17g on 1 rank with 1 thread and %.17g on %d ranks with %d threads", nme, i, u[i], v[i], r2, s2.nthreads);
	};
	double ft = 0; cmp("m", "field", ft); cmp("v", "velocity", ft);
	for (auto &m : maps) cmp(m.c_str(), "map", g.prec ? 1e-13 : 1e-6);
	if (toTheta) { cmp("th", "theta", 0); cmp("tv", "theta-velocity", 0); }
	for (auto &n : nums) for (int r = 0; r < r2; r++) { auto x = oa.find(n, 0), y = ob.find(n, r); e.check(x && y && x->count() == y->count(), "record", "missing %s", n.c_str()); bool st = n[0] != 'e' && n[0] != 'f';
		for (size_t i = 0; i < x->count(); i++) { double u = x->as<double>()[i], v = y->as<double>()[i]; double tol = st ? 0 : 1e-9; e.check(u == v || (std::isnan(u) && std::isnan(v)) || std::abs(u - v) <= tol * std::max(std::abs(u), std::abs(v)), st ? "strings" : "energies", "%s[%zu] is %.17g on 1 rank and %.17g on rank %d of %d with %d threads", n.c_str(), i, u, v, r, r2, s2.nthreads); } }
	auto f = h5read(e, "rd", { "outA/m/axion.00007", "out/m/axion.00007" }); e.check(f[0].readable && f[1].readable, "file", "a configuration file cannot be read");
	std::string d = h5diff(f[0], f[1], 0, { "@Depth" }); e.check(d.empty(), "file", "configuration written by 1 rank and by %d ranks differ: %s", r2, d.c_str());
}
static Reg r({ "C01", "results independent of the distribution, threads and schedule", { "harn" }, ep, 1200, 6000, "distinct (physics configuration, layout, threads, schedule)", { "propagators", "ghost exchange", "energies", "strings", "theta conversion", "writeConf", "HDF5", "parser" }, { "MPI (simulated)", "MPI-IO (simulated over real files)", "OpenMP runtime (simulated)" }, {} });
