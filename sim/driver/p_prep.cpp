// C28: the evolution before the start time ends at the start time, obeys its own parameters and leaves those of the run alone.
#include "cfg.h"
static void ep(Ep &e) {
	GridOpt o; o.kinds = { 0 }; o.maxSites = 14000; o.even = true; Grid g = drawGrid(e, "a", o);
	double L = atof(strf("%.6f", e.real("lsize", 2.0, 8.0)).c_str()), ood = g.n / L, pc = e.pick("prepcoe", { 3, 2, 5, 0 }); if (!pc) pc = e.real("prepcoev", 1.02, 8);
	int f10 = e.pick("frw", { 10, 5, 0, 20, 13 }); double frw = f10 / 10.; auto lz = e.pick("lz2e", { 0, 20, 10, 13 }), plz = e.pick("prelz2e", { 0, 20, 10, -1 }); double wdz = atof(strf("%.4f", e.real("wdz", 0.3, 1.2)).c_str());
	double lr = e.real("lamR2", 0.02, 1.5) * ood * ood;                                  // lambda R^2 at the start of the run
	double zi = std::min(e.real("steps", 0.4, 5) * wdz / sqrt(12 * ood * ood + 2 * lr) / (1 - 1 / pc), 3.0);
	if (frw * (frw - 1) * pc * pc / (zi * zi) > 2 * sqrt(12 * ood * ood + 2 * lr)) { f10 = 10; frw = 1; }   // the step is bounded by R''/R, thousands of steps otherwise
	double Ri = pow(zi, frw), lp = lr / (Ri * Ri);
	Strs ph = { "--lsize", strf("%.6f", L), "--zi", strf("%.6f", zi), "--zf", strf("%.4f", zi + 2), "--wDz", strf("%.4f", wdz), "--qcd", strf("%lld", (long long) e.pick("nqcd", { 4, 7, 0 })), "--ind3", strf("%.3f", e.real("indi3", 0.3, 3.0)), "--nncore" };
	if (f10) ph += Strs{ "--frw", strf("%.1f", frw) }; else ph += std::string("--mink");
	bool msa = e.coin("msa", 600); if (msa) { ph += Strs{ "--msa", strf("%.3f", e.real("msav", 0.3, 1.5)) }; if (lz) ph += Strs{ "--lz2e", strf("%.1f", lz / 10.) }; } else ph += Strs{ "--llcf", strf("%.6g", lp) };
	int wd = e.pick("damping", { 0, 1, 2 }); double gam = 0, pgam = 0; if (wd) { gam = e.real("gam", 0.1, 3); ph += Strs{ wd == 1 ? "--gam" : "--gamall", strf("%.4f", gam) }; }
	if (e.coin("pregam", 600)) { pgam = atof(strf("%.4f", e.real("pregamv", 0.1, 5)).c_str()); }
	switch (e.pick("pot", { 1, 0, 2 })) { case 0: ph += std::string("--vqcd0"); break; case 2: ph += std::string("--vqcdC"); break; }
	int pv[] = { 8192 + 1024 + 2, 1024 + 1, 1024 + 2, 16384 + 1024 + 1, 32768 + 1024 + 2, 8192 + 16384 + 1024 + 1, 4096 + 1024 + 2, 1024 + 32 }; int pt = pv[e.pick("pretype", { 0, 3, 1, 2, 4, 5, 6, 7 })];
	Strs pp = { "--preprop", "--prepcoe", strf("%.6f", pc), "--prevqcdtype", strf("%d", pt) }; if (plz > 0) pp += Strs{ "--prelz2e", strf("%.1f", plz / 10.) }; if (pgam > 0) pp += Strs{ "--pregam", strf("%.4f", pgam) };
	pc = atof(strf("%.6f", pc).c_str()); zi = atof(strf("%.6f", zi).c_str());
	bool gen = e.coin("gen", 250); int after = e.coin("after", 500); mkdirs(e.path("out/m"));
	uint64_t fs = e.sub("fill"); const char *fk = e.pick("fk", { 0, 1 }) ? "sxloops" : "sxsmooth"; double z0 = zi / pc, dz1 = 0.1 / ood;
	Strs a = g.a; a += ph; std::vector<cd> m, v; Par p;
	if (gen) {
		Strs ic = { "--ctype", "smooth", "--smvar", e.pick("smvar", { 0, 1 }) ? "stYZ" : "stXY", "--sIter", "0" };
		Strs b = g.a; b += ph; b += ic; size_t k = std::find(b.begin(), b.end(), "--zi") - b.begin(); b[k + 1] = strf("%.17g", z0); b += Strs{ "@", "genconf", "dump:m:m", "params:par" };
		JobOut B = e.run("b", "harn", "h_main", g.s, b); ENDED(e, B); e.check(gatherC(B, "m", m), "dump", "incomplete dump");
		double R0 = pow(z0, frw); for (auto &x : m) x /= R0;
		a += ic; a += pp; a += Strs{ "@", "new", "params:par", "free", "genconf" };
	} else { a += pp; a += Strs{ "@", "new", strf("fill:%s:%llu:1", fk, (unsigned long long) fs), "params:par", strf("setz:%.17g", z0) }; if (e.coin("folded", 400)) a += std::string("fold"); a += std::string("prepropa"); }
	a += Strs{ "dump:m:m", "dump:v:v", "params:par2" }; if (after) a += Strs{ "prop", "fold", strf("step:%.17g:1", dz1), "dump:m3:m", "dump:v3:v", "params:par3" };
	JobOut J = e.run("p", "harn", "h_main", g.s, a); e.sample = strf("n=%d depth=%d ranks=%d ng=%d frw=%.1f zi=%.3f pc=%.2f ltype=%d lz=%lld plz=%lld pt=%d gen=%d", g.n, g.depth, g.nr, g.ng, frw, zi, pc, (int) msa, (long long) lz, (long long) plz, pt, gen); ENDED(e, J);
	p = Par::from(J); Par p2 = Par::from(J, "par2"); e.check(J.r.leakedReq == 0, "requests", "%d open requests at the end", J.r.leakedReq);
	e.check(std::abs(p2.z - zi) < 1e-9 * zi && std::abs(p2.R - p.Rof(zi)) < 1e-9 * p.Rof(zi), "clock", "the run starts at conformal time %.15g (scale factor %.15g), not at %.15g (%.15g)", p2.z, p2.R, zi, p.Rof(zi));
	const char *nm[] = { "size", "lambda", "exponent of the scale factor", "axion mass", "damping" }; double was[] = { p.L, p.lambda, p.lz2e, p.indi3, p.gamma }, is[] = { p2.L, p2.lambda, p2.lz2e, p2.indi3, p2.gamma };
	for (int i = 0; i < 5; i++) e.check(was[i] == is[i], "parameter", "the evolution before the start changed the %s of the run from %.15g to %.15g", nm[i], was[i], is[i]);
	e.check(p.ltype == p2.ltype && p.pot == p2.pot && p.frw == p2.frw && p.mink == p2.mink, "parameter", "the evolution before the start changed the kind of string tension (%d to %d) or the potential (%d to %d)", p.ltype, p2.ltype, p.pot, p2.pot);
	for (int r = 1; r < g.nr; r++) { auto x = J.find("par2", 0), y = J.find("par2", r); e.check(x && y && x->data == y->data, "ranks", "rank %d ends the evolution before the start with other parameters than rank 0", r); }
	// the reference: the field and its copy as velocity, evolved with the physical string tension of the start time
	Par q = p; q.z = z0; q.R = q.Rof(z0); q.pot = pt; double pe = plz > 0 ? plz / 10. : 0, phys = p.ltype == 1 ? p.lambda / pow(p.Rof(zi), p.lz2e) : p.lambda; q.lz2e = pe; q.lambda = phys * pow(p.Rof(zi), pe); if (pgam > 0) q.gamma = pgam; q.ng = p.ng;
	if (!gen) { m = fillSx(fillf::kindOf(fk), fs, 0, p, p.R, 1); roundTo(m, g.prec ? 8 : 4); }
	v = m; roundTo(v, g.prec ? 8 : 4); for (auto &x : m) x *= q.R; roundTo(m, g.prec ? 8 : 4);
	auto m1 = m, v1 = v; double eps = g.prec ? 2e-15 : 1e-6; for (size_t i = 0; i < m1.size(); i++) { m1[i] += eps * std::abs(m1[i]) * cd(fillf::u(fs, i, 11), fillf::u(fs, i, 12)); v1[i] += eps * std::abs(v1[i]) * cd(fillf::u(fs, i, 13), fillf::u(fs, i, 14)); }
	Par q1 = q; int steps = 0; double last = 0;
	while (q.z < zi && steps < 60) {
		double R = q.Rof(q.z), ma = sqrt(q.axm2(q.z) * R * R + 12 * ood * ood), ms = sqrt(2 * q.lam(q.z) * R * R + 12 * ood * ood); ma = std::max(ma, q.mink ? 0. : q.rpp(q.z)); double dz = wdz / std::max(ms, ma); last = dz;
		if (q.z + dz > zi) dz = zi - q.z;
		refStepSaxion(m, v, q, g.ng, dz); refStepSaxion(m1, v1, q1, g.ng, dz); steps++; if (zi - q.z < 1e-13) break;
	}
	if (steps >= 60) { e.count("long"); return; } e.count("steps", steps);
	double tol = g.prec ? 1e-10 : 2e-5; size_t w = 0; auto where = [&](size_t i) { return strf("site (%zu,%zu,%zu) of %zux%zux%zu over %d ranks", i % p.n, i / p.n % p.n, i / p.n / p.n, p.n, p.n, p.nz, g.nr); };
	auto cmp = [&](const char *nmm, const char *nv, const char *cls, double dz) { std::vector<cd> gm, gv; e.check(gatherC(J, nmm, gm) && gatherC(J, nv, gv) && gm.size() == m.size(), "dump", "incomplete dump");
		double k = !g.prec && (pt & 12288) ? 150 : 30, am = k * maxDiff(m, m1), av = k * maxDiff(v, v1); if (am > 0.05 * maxAbs(m)) { e.count("chaotic"); return; }
		double d = maxDiff(m, gm, &w), sc = maxAbs(m); e.check(d <= tol * sc + am, cls, "field %s differs from the equations of motion by %.3g (scale %.3g) at %s [%d steps]", cls, d, sc, where(w).c_str(), steps);
		d = maxDiff(v, gv, &w); sc = maxAbs(v) + maxAbs(m) * 0.1 / dz; e.check(d <= tol * sc + av, cls, "velocity %s differs from the equations of motion by %.3g (scale %.3g) at %s [%d steps]", cls, d, sc, where(w).c_str(), steps); };
	if (pt & 4096) { // a last step of length zero, by rounding of the time, projects the velocity once more
		auto m2 = m, v2 = v, m3 = m1, v3 = v1; std::vector<cd> gv; Par q2 = q, q3 = q1; refStepSaxion(m2, v2, q2, g.ng, 0); refStepSaxion(m3, v3, q3, g.ng, 0); e.check(gatherC(J, "v", gv) && gv.size() == v.size(), "dump", "incomplete dump");
		if (maxDiff(v2, gv) < maxDiff(v, gv)) { v = v2; v1 = v3; e.count("zero-step"); }
	}
	cmp("m", "v", "before", last);
	if (after) { Par r = p; r.z = zi; r.R = p.Rof(zi); Par r1 = r; refStepSaxion(m, v, r, g.ng, dz1); refStepSaxion(m1, v1, r1, g.ng, dz1); cmp("m3", "v3", "after", dz1); }
}
static Reg r({ "C28", "evolution before the start time", { "harn" }, ep, 400, 3000,
	"distinct (lattice, layout, potentials and dampings before and after, tension law before and after, expansion law, source of the field, schedule)", { "prepropagator", "propagator kernels", "time step", "string counting", "initial conditions" }, { "MPI (simulated)", "OpenMP runtime (simulated)" }, {} });
