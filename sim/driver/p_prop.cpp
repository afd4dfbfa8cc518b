// C02: every propagation step applies the discretised equations of motion, whatever the execution configuration.
#include "cfg.h"
static void ep(Ep &e) {
	int kind = e.pick("field", { 0, 1, 2 });      // saxion, axion, axion mod
	int prec = e.pick("prec", { 0, 1 });
	int nr = e.pick("nranks", { 1, 2, 4, 3 }); int ng = e.pick("ng", { 1, 2, 3, 4, 5 });
	int shift = kind ? (prec ? 4 : 8) : (prec ? 2 : 4);
	// the kernels assume that a rank holds at least 2 Ng slices and a SIMD lane at least 2 Ng rows; smaller lattices are known findings
	std::vector<int64_t> ns, dep; for (int k : { 16, 24, 32, 40, 48, 64, 80 }) if (k % shift == 0 && k / shift >= 2 * ng && (ns.size() < 3) && k * k * 2 * ng * nr < 300000) ns.push_back(k);
	bool narrow = false, shallow = false;
	if (ns.empty() || e.coin("narrow", 15)) { narrow = true; ns.clear(); for (int k : { 16, 24, 32, 40, 48, 64 }) if (k % shift == 0 && k / shift < 2 * ng && k / shift > 1) ns.push_back(k); if (ns.empty()) { narrow = false; ng = 1; ns.push_back(32); } }
	int n = e.pick("n", ns);
	for (int d : { 4, 6, 8, 10, 12, 16 }) if (d >= 2 * ng && d * nr <= std::max(2 * n, 2 * ng * nr)) dep.push_back(d);
	if (ng > 1 && e.coin("shallow", 15)) { shallow = true; dep.clear(); for (int d = ng + 1; d < 2 * ng; d++) dep.push_back(d); }
	if (dep.empty()) { dep.push_back(10); }
	int depth = e.pick("depth", dep); const char *sfx = shallow ? "-shallow" : narrow ? "-narrow" : "";
	JobSpec s = baseSpec(e, "p"); s.nranks = nr; s.nthreads = e.pick("nthreads", { 1, 2, 3, 4 }); s.procs = s.nthreads; schedule(e, s, "");
	std::vector<std::string> a = { "--size", strf("%d", n), "--depth", strf("%d", depth), "--zgrid", strf("%d", nr), "--prec", prec ? "double" : "single", "--device", "cpu", "--prop", "rkn4", "--lap", strf("%d", ng), "--nologmpi", "--ftype", kind == 0 ? "saxion" : kind == 1 ? "axion" : "axionmod" };
	int steps = e.pick("steps", { 1, 2, 3 }); double L = e.real("lsize", 2.0, 8.0), dz = e.real("cfl", 0.02, 0.3) * L / n; a.push_back("--lsize"); a.push_back(strf("%.6f", L));
	for (auto &x : physArgs(e, n * n / (L * L))) a.push_back(x);
	bool beta = false;
	switch (e.pick("pot", kind ? std::vector<int64_t>{ 1, 0, 2, 4 } : std::vector<int64_t>{ 1, 0, 2, 3 })) { case 0: a.push_back("--vqcd0"); break; case 2: a.push_back("--vqcdC"); break; case 3: a.push_back("--N2"); break; case 4: if (kind != 0) { a.push_back("--vqcdL"); if (prec || !e.coin("selfint", 100)) { a.push_back("--beta"); a.push_back("0"); } else beta = true; } break; }
	if (beta) sfx = "-quadratic";
	bool dect = kind == 0 && e.coin("dectime", 200); if (dect) { a.push_back("--dectime"); a.push_back(strf("%.3f", e.real("dectimev", 0.5, 2))); }
	if (kind == 0) switch (e.pick("evol", dect ? std::vector<int64_t>{ 0, 2, 3, 4, 5, 6 } : std::vector<int64_t>{ 0, 1, 2, 3, 4, 5, 6 })) {
		case 1: a.push_back("--onlytheta"); break; case 2: a.push_back("--onlyrho"); break;
		case 3: a.push_back("--gam"); a.push_back(strf("%.3f", e.real("gam", 0.1, 3))); break;
		case 4: a.push_back("--gamall"); a.push_back(strf("%.3f", e.real("gam", 0.1, 3))); break;
		case 5: a.push_back("--gam"); a.push_back(strf("%.3f", e.real("gam", 0.1, 3))); a.push_back("--onlyrho"); break;
		case 6: a.push_back("--gamall"); a.push_back(strf("%.3f", e.real("gam", 0.1, 3))); a.push_back("--onlytheta"); break;
	}
	const char *fk = kind == 0 ? (e.coin("rough", 600) ? "sxrand" : "sxsmooth") : (e.coin("rough", 600) ? (kind == 2 ? "axjump" : "axrand") : "axsmooth");
	double amp = kind == 0 ? 1 : e.real("amp", 0.3, 2.5); uint64_t fs = e.sub("fill");
	// one step where repeated rounding could cross a discontinuity (|phi| = 0 under a projection, theta = pi for the periodic field)
	if (!strcmp(fk, "axjump")) steps = 1;
	if (!prec && !strcmp(fk, "sxrand")) { int ev = e.cache["evol"]; if (ev == 1 || ev == 2 || ev == 5 || ev == 6 || e.cache["pot"] == 2) steps = 1; }
	a.insert(a.end(), { "@", "new", strf("fill:%s:%llu:%.17g", fk, (unsigned long long) fs, amp), "params:par", "poison", "prop", "fold" });
	switch (e.pick("blk", { 0, 1, 2 })) { case 1: a.push_back(strf("block:%lld:%lld", (long long) e.range("by", 0, 5), (long long) e.range("bz", 0, 5))); break;
		case 2: a.push_back(strf("blockraw:%lld:%lld", (long long) e.range("byr", 1, 9), (long long) e.range("bzr", 1, 17))); break; }
	a.insert(a.end(), { strf("step:%.17g:%d", dz, steps), "dump:m:m", "dump:v:v", "params:par2" });
	JobOut o = e.run("p", "harn", "h_main", s, a);
	e.check(o.r.outcome == OC_DONE, "end", "the run did not complete: %s", o.outcome().c_str());
	Par p = Par::from(o), p2 = Par::from(o, "par2"); int k = fillf::kindOf(fk);
	double tol = prec ? 1e-11 : 2e-5;
	double z1 = p.z; for (int i = 0; i < steps * 4; i++) z1 += dz * (i % 4 == 0 ? 0.5153528374311229364 : i % 4 == 1 ? -0.085782019412973646 : i % 4 == 2 ? 0.4415830236164665242 : 0.1288461583653841854);
	e.check(std::abs(p2.z - z1) < 1e-10 && std::abs(p2.R - p.Rof(z1)) < 1e-9, "clock", "conformal time after %d steps is %.15g (scale factor %.15g), expected %.15g (%.15g)", steps, p2.z, p2.R, z1, p.Rof(z1));
	size_t w = 0; auto where = [&](size_t i) { return strf("site (%zu,%zu,%zu) of %zux%zux%zu over %d ranks", i % p.n, i / p.n % p.n, i / p.n / p.n, p.n, p.n, p.nz, nr); };
	e.sample = strf("kind=%d steps=%d %s ng=%d n=%d depth=%d ranks=%d thr=%d pot=%d prec=%d dz=%.4f", kind, steps, fk, ng, n, depth, nr, s.nthreads, p.pot, prec, dz);
	if (kind == 0) {
		auto m = fillSx(k, fs, 0, p, p.R, amp), v = fillSx(k, fs, 1, p, p.R, amp); roundTo(m, prec ? 8 : 4); roundTo(v, prec ? 8 : 4);
		std::vector<cd> gm, gv; e.check(gatherC(o, "m", gm) && gatherC(o, "v", gv), "dump", "incomplete dump");
		// rounding noise of the kernels, amplified by the equations of motion themselves (1/|phi| terms): measured on the reference
		auto m1 = m, v1 = v; double eps = prec ? 2e-15 : 1e-6; for (size_t i = 0; i < m1.size(); i++) { m1[i] += eps * std::abs(m1[i]) * cd(fillf::u(fs, i, 11), fillf::u(fs, i, 12)); v1[i] += eps * std::abs(v1[i]) * cd(fillf::u(fs, i, 13), fillf::u(fs, i, 14)); }
		Par q = p; for (int i = 0; i < steps; i++) { refStepSaxion(m, v, p, ng, dz); refStepSaxion(m1, v1, q, ng, dz); }
		double am = 20 * maxDiff(m, m1), av = 20 * maxDiff(v, v1);
		double d = maxDiff(m, gm, &w), sc = maxAbs(m); e.check(d <= tol * sc + am, std::string("field") + sfx, "field differs from the equations of motion by %.3g (scale %.3g) at %s [pot %d]", d, sc, where(w).c_str(), p.pot);
		d = maxDiff(v, gv, &w); sc = maxAbs(v) + maxAbs(m) * 0.1 / dz; e.check(d <= tol * sc + av, std::string("velocity") + sfx, "velocity differs from the equations of motion by %.3g (scale %.3g) at %s [pot %d]", d, sc, where(w).c_str(), p.pot);
	} else {
		auto m = fillAx(k, fs, 0, p, p.R, amp), v = fillAx(k, fs, 1, p, p.R, amp); roundTo(m, prec ? 8 : 4); roundTo(v, prec ? 8 : 4);
		std::vector<double> gm, gv; e.check(gatherD(o, "m", gm) && gatherD(o, "v", gv), "dump", "incomplete dump");
		auto m1 = m, v1 = v; double eps = prec ? 2e-15 : 1e-6; for (size_t i = 0; i < m1.size(); i++) { m1[i] += eps * m1[i] * fillf::u(fs, i, 11); v1[i] += eps * v1[i] * fillf::u(fs, i, 13); }
		Par q = p; for (int i = 0; i < steps; i++) { refStepAxion(m, v, p, ng, dz, kind == 2); refStepAxion(m1, v1, q, ng, dz, kind == 2); }
		double am = 20 * maxDiff(m, m1), av = 20 * maxDiff(v, v1);
		double d = maxDiff(m, gm, &w), sc = maxAbs(m); e.check(d <= tol * sc + am, std::string("field") + sfx, "field differs from the equations of motion by %.3g (scale %.3g) at %s [pot %d]", d, sc, where(w).c_str(), p.pot);
		d = maxDiff(v, gv, &w); sc = maxAbs(v) + maxAbs(m) * 0.1 / dz; e.check(d <= tol * sc + av, std::string("velocity") + sfx, "velocity differs from the equations of motion by %.3g (scale %.3g) at %s [pot %d]", d, sc, where(w).c_str(), p.pot);
	}
}
static Reg r({ "C02", "propagation = discretised equations of motion", { "harn" }, ep, 700, 4000,
	"distinct (field type, precision, ranks, threads, neighbours, potential, damping, block shape, schedule)", { "propagator kernels", "Scalar ghost exchange", "Folder", "Cosmos", "parser" }, { "MPI (simulated)", "OpenMP runtime (simulated)" }, {} });
