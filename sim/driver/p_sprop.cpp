// C29: the spectral propagators apply the equations of motion with the exact Laplacian of the periodic box.
#include "cfg.h"
namespace {
void ep(Ep &e) {
	GridOpt o; o.kinds = { 0, 1 }; o.maxSites = 14000; o.cube = true; o.wide = false; o.ngs = { 1 }; Grid g = drawGrid(e, "a", o); while (g.n > 32) g.n /= 2; while (g.n % g.nr || g.n % g.shift) g.nr--; 
	g.depth = g.n / g.nr; g.s.nranks = g.nr; bool sax = g.kind == 0; Strs a = gridArgs(g, g.nr, g.depth); auto l = std::find(a.begin(), a.end(), "--lap"); a.erase(l, l + 2);
	bool full = !sax && !g.prec && e.coin("full", 400); a += std::string(full ? "--fspec" : "--spec"); double L = e.real("lsize", 2.0, 8.0), dz = e.real("cfl", 0.02, 0.3) * L / g.n; int steps = e.pick("steps", { 1, 2, 3 }); a += Strs{ "--lsize", strf("%.6f", L) }; a += physArgs(e, g.n * g.n / (L * L));
	switch (e.pick("pot", sax ? std::vector<int64_t>{ 1, 0, 2 } : std::vector<int64_t>{ 1, 0 })) { case 0: a += std::string("--vqcd0"); break; case 2: a += std::string("--vqcdC"); break; }
	if (sax) switch (e.pick("evol", { 0, 1, 2 })) { case 1: a += Strs{ "--gamall", strf("%.3f", e.real("gam", 0.1, 3)) }; break; case 2: if (e.cache["pot"] == 0) a += std::string("--onlyrho"); break; }
	const char *fk = sax ? (e.coin("rough", 600) ? "sxrand" : "sxsmooth") : (e.coin("rough", 600) ? "axrand" : "axsmooth"); double amp = sax ? 1 : e.real("amp", 0.3, 2.5); uint64_t fs = e.sub("fill");
	if (!g.prec && !strcmp(fk, "sxrand") && (e.cache["evol"] == 2 || e.cache["pot"] == 2)) steps = 1;
	a += Strs{ "@", "new", strf("fill:%s:%llu:%.17g", fk, (unsigned long long) fs, amp), "params:par", "poison", "prop" }; if (e.coin("folded", 500)) a += std::string("fold");
	a += Strs{ strf("step:%.17g:%d", dz, steps), "isfolded:f", full ? "ftfield:3:2" : "unfold", "dump:m:m", "dump:v:v", "params:par2" };
	JobOut J = e.run("p", "harn", "h_main", g.s, a); Par p = Par::from(J), p2 = Par::from(J, "par2"); e.sample = strf("%skind=%d n=%d ranks=%d thr=%d prec=%d pot=%d %s steps=%d frw=%.1f", full ? "full " : "", g.kind, g.n, g.nr, g.thr, g.prec, p.pot, fk, steps, p.frw); ENDED(e, J);
	double z1 = p.z; for (int i = 0; i < steps * 4; i++) z1 += dz * (i % 4 == 0 ? 0.5153528374311229364 : i % 4 == 1 ? -0.085782019412973646 : i % 4 == 2 ? 0.4415830236164665242 : 0.1288461583653841854);
	e.check(std::abs(p2.z - z1) < 1e-10 && std::abs(p2.R - p.Rof(z1)) < 1e-9, "clock", "conformal time after %d steps is %.15g (scale factor %.15g), expected %.15g (%.15g)", steps, p2.z, p2.R, z1, p.Rof(z1));
	double tol = g.prec ? 1e-11 : 4e-5; size_t w = 0; auto where = [&](size_t i) { return strf("site (%zu,%zu,%zu) of %zux%zux%zu over %d ranks", i % p.n, i / p.n % p.n, i / p.n / p.n, p.n, p.n, p.nz, g.nr); };
	double eps = g.prec ? 2e-15 : 1e-6;
	auto run = [&](auto m, auto v, auto gather, auto step, auto noise) {
		roundTo(m, g.prec ? 8 : 4); roundTo(v, g.prec ? 8 : 4); auto gm = m, gv = v, m1 = m, v1 = v; e.check(gather(J, "m", gm) && gather(J, "v", gv) && gm.size() == m.size(), "dump", "incomplete dump");
		for (size_t i = 0; i < m.size(); i++) { m1[i] += noise(m1[i], i, 0); v1[i] += noise(v1[i], i, 2); }
		Par q = p; for (int i = 0; i < steps; i++) { step(m, v, p); step(m1, v1, q); }
		double am = 20 * maxDiff(m, m1), av = 20 * maxDiff(v, v1), d = maxDiff(m, gm, &w), sc = maxAbs(m);
		e.check(d <= tol * sc + am, "field", "field differs from the equations of motion by %.3g (scale %.3g) at %s [pot %d]", d, sc, where(w).c_str(), p.pot);
		d = maxDiff(v, gv, &w); sc = maxAbs(v) + maxAbs(m) * 0.1 / dz; e.check(d <= tol * sc + av, "velocity", "velocity differs from the equations of motion by %.3g (scale %.3g) at %s [pot %d]", d, sc, where(w).c_str(), p.pot);
	};
	int k = fillf::kindOf(fk);
	if (sax) run(fillSx(k, fs, 0, p, p.R, amp), fillSx(k, fs, 1, p, p.R, amp), [](const JobOut &o, const char *n, std::vector<cd> &x) { return gatherC(o, n, x); }, [&](std::vector<cd> &m, std::vector<cd> &v, Par &q) { refStepSaxion(m, v, q, 0, dz); }, [&](cd x, size_t i, int c) { return eps * std::abs(x) * cd(fillf::u(fs, i, 11 + c), fillf::u(fs, i, 12 + c)); });
	else run(fillAx(k, fs, 0, p, p.R, amp), fillAx(k, fs, 1, p, p.R, amp), [](const JobOut &o, const char *n, std::vector<double> &x) { return gatherD(o, n, x); }, [&](std::vector<double> &m, std::vector<double> &v, Par &q) { refStepAxion(m, v, q, full ? -1 : 0, dz, false); }, [&](double x, size_t i, int c) { return eps * x * fillf::u(fs, i, 11 + c); });
}
Reg r({ "C29", "spectral propagation", { "harn" }, ep, 400, 3000, "distinct (kind of field, precision, lattice, ranks, threads, potential, damping, expansion law, schedule)", { "spectral propagators", "spectral Laplacian", "FFT plans", "FFTW", "Cosmos", "parser" }, { "MPI (simulated)", "OpenMP runtime (simulated)" }, {} });
}
