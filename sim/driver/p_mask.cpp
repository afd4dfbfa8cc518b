// C21: masks cover exactly the sites they are defined to cover, on the whole periodic lattice, however it is distributed.
#include "cfg.h"
enum { VIL = 2, VIL2 = 4, REDO = 8, GAUS = 16, DIFF = 32, BALL = 64, AXIT = 512, AXIT2 = 1024 };
static void ep(Ep &e) {
	GridOpt o; o.wide = false; o.kinds = { 0, 0, 1 }; o.minN = 8; o.maxSites = 14000; o.cube = true; o.ngs = { 1, 2, 3 }; Grid g = drawGrid(e, "g", o); int n = g.n; if (g.depth < g.ng) g.ng = g.depth; g.a = gridArgs(g, g.nr, g.depth); bool sx = g.kind == 0; double eps = g.prec ? 1e-11 : 1e-5;
	int dens = e.pick("density", { 3, 1, 10, 30, 0 }); bool stale = e.coin("stale", 500); int nm = e.pick("masks", { 1, 2, 3 }); bool cum = !sx && e.coin("cumulative", 400); double amp = sx ? 1 : e.real("amp", 0.3, 1.5);
	auto a = g.a; a += Strs{ "--lsize", strf("%.9f", e.real("lsize", 2, 8)), "--qcd", "4.0", "--msa", strf("%.3f", e.real("msa", 0.4, 1.4)), "--zi", strf("%.6f", e.real("zi", 0.7, 1.6)), "--zf", "4.0", "--ind3", "1.3" }; if (e.coin("mink", 150)) a += "--mink";
	uint64_t sd = e.sub("defects"); a += Strs{ "@", "new", strf("fill:%s:%llu:%.17g", sx ? "sxsmooth" : e.coin("rough", 500) ? "axrand" : "axsmooth", (unsigned long long) e.sub("fill"), amp), "params:par", "dump:m:m", "dump:v:v", "poison" };
	if (sx) a += strf("setdef:%llu:%d:%d", (unsigned long long) sd, dens, stale); if (e.coin("fold", 500)) a += "fold"; if (!sx) { if (!cum && e.coin("leftover", 400)) a += strf("setdef:%llu:%d:%d", (unsigned long long) sd, dens, stale); a += strf("energy:e:%d:0", e.pick("entype", { 3, 2 })); a += "dump:E:m2r"; }
	struct Mk { int m, out; double r; }; std::vector<Mk> ms; for (int i = 0; i < nm; i++) { e.sub(strf("mk%d", i)); Mk k; k.m = e.pick(strf("mask%d", i), sx ? std::vector<int64_t>{ BALL, BALL, BALL, REDO, GAUS, DIFF, VIL, VIL2 } : std::vector<int64_t>{ AXIT, AXIT, AXIT2 });
		int big = 10 * std::min(g.depth, n / 2); k.r = e.range(strf("radius%d", i), k.m & (BALL | AXIT) ? 10 : 15, std::min(k.m == DIFF ? 40 : 60, big + (k.m & (BALL | AXIT) ? 9 : 0))) / 10. ; if (k.m & (BALL | AXIT) && k.r != floor(k.r)) k.r += 0.003; k.out = e.pick(strf("out%d", i), { 1, 2, 0 }); if (sx && k.out == 0) k.out = 1;
		ms.push_back(k); a += strf("masker:w%d:%.4f:%d:%d:%d", i, k.r, k.m, k.out, cum); }
	a += Strs{ "unfold", "dump:m1:m", "dump:v1:v" }; JobOut J = e.run("k", "harn", "h_main", g.s, a); ENDED(e, J); Par p = Par::from(J); Lat l{ p.n, p.nz }; size_t V = l.V();
	e.sample = strf("%s n=%d ranks=%d threads=%d ng=%d prec=%d density=%d masks=", g.ftype(), n, g.nr, g.thr, g.ng, g.prec, dens); for (auto &k : ms) e.sample += strf("%d(r=%.1f out=%d) ", k.m, k.r, k.out);
	std::vector<cd> mc, m1, vc, v1; std::vector<double> mr, mr1, vr, vr1, E; if (sx) { gatherC(J, "m", mc); gatherC(J, "m1", m1); gatherC(J, "v", vc); gatherC(J, "v1", v1); e.check(mc == m1 && vc == v1, "state", "masking changed the field"); }
	else { gatherD(J, "m", mr); gatherD(J, "m1", mr1); gatherD(J, "v", vr); gatherD(J, "v1", vr1); gatherD(J, "E", E); e.check(mr == mr1 && vr == vr1, "state", "masking changed the field"); }
	std::vector<int> bits(V); std::vector<char> P(V, 0), und(V, 0), hot(V, 0);
	if (sx) for (size_t z = 0; z < p.nz; z++) for (size_t y = 0; y < p.n; y++) for (size_t x = 0; x < p.n; x++) { size_t i = l.at(x, y, z); int b = bits[i] = fillf::defect(sd, i, dens, stale) & 127; if (b & 63) P[i] = 1;
		if (b & 9) P[l.at(x + 1, y, z)] = P[l.at(x, y + 1, z)] = P[l.at(x + 1, y + 1, z)] = 1; if (b & 18) P[l.at(x, y + 1, z)] = P[l.at(x, y, z + 1)] = P[l.at(x, y + 1, z + 1)] = 1; if (b & 36) P[l.at(x + 1, y, z)] = P[l.at(x, y, z + 1)] = P[l.at(x + 1, y, z + 1)] = 1; }
	auto *zk = J.find("w0.zk", 0); e.check(zk, "harness", "no status"); double R = p.R, saskia = zk->as<double>()[1];
	if (!sx) { double et = 2 * p.axm2(p.z), tt = std::min(3., sqrt(12 / et) / R / p.delta()); for (size_t i = 0; i < V; i++) { double t = std::abs(mr[i]) / R; hot[i] = E[i] > et || t > tt; if (std::abs(E[i] - et) < eps * et || std::abs(t - tt) < eps * tt) und[i] = 1; } }
	auto ball = [&](const std::vector<char> &s, double r) { std::vector<char> o(V, 0); int q = floor(r); for (size_t z = 0; z < p.nz; z++) for (size_t y = 0; y < p.n; y++) for (size_t x = 0; x < p.n; x++) if (s[l.at(x, y, z)]) for (int c = -q; c <= q; c++) for (int b = -q; b <= q; b++) for (int d = -q; d <= q; d++) if (b * b + c * c + d * d <= r * r) o[l.at((long) x + d, (long) y + b, (long) z + c)] = 1; return o; };
	auto smooth = [&](const std::vector<char> &s, double r) { std::vector<cd> f(s.begin(), s.end()); dft3(f, p.n, p.nz, -1); auto w = [](long k, long m) { return k > m / 2 ? k - m : k; }; for (size_t i = 0; i < V; i++) { double x = w(i % n, n), y = w(i / n % n, n), z = w(i / n / n, p.nz); f[i] *= exp(-0.5 * M_PI * M_PI * r * r / (n * n) * (x * x + y * y + z * z)) / (double) V; } dft3(f, p.n, p.nz, 1); std::vector<double> o(V); for (size_t i = 0; i < V; i++) o[i] = f[i].real(); return o; };
	for (int q = 0; q < nm; q++) { auto &k = ms[q]; std::string id = strf("w%d", q); std::vector<double> d, w; gatherD(J, id + ".d", d); gatherD(J, id + ".m", w); std::vector<char> M(V, 0), D(V, 0); std::vector<double> F(V); double tol = 0; e.count(strf("mask_%d", k.m)); const char *nmk = k.m == BALL ? "ball" : k.m == REDO ? "smoothed" : k.m == GAUS ? "gaussian" : k.m == DIFF ? "diffused" : k.m == VIL ? "modulus" : k.m == VIL2 ? "modulus squared" : k.m == AXIT ? "axiton ball" : "axiton smoothed";
		double rs = 1.25 * k.r, cut = 2.5 * 4 / (2 * M_PI * rs * rs) * exp(-2 / (1.25 * 1.25)); bool mapped = true;
		if (k.m == BALL) { M = ball(P, k.r); for (size_t i = 0; i < V; i++) F[i] = !M[i]; }
		else if (k.m == VIL || k.m == VIL2) { mapped = false; tol = eps * 10; for (size_t i = 0; i < V; i++) { F[i] = std::abs(mc[i] - saskia) / R; if (k.m == VIL2) F[i] *= F[i]; } }
		else if (k.m == REDO || k.m == GAUS) { auto s = smooth(P, rs); tol = eps * 3 / cut; for (size_t i = 0; i < V; i++) { M[i] = s[i] > cut; D[i] = std::abs(s[i] - cut) < eps * 3; F[i] = M[i] ? 0 : k.m == REDO ? 1 : 1 - s[i] / cut; } }
		else if (k.m == DIFF) { std::vector<char> core = P; std::vector<double> s(P.begin(), P.end()), t(V); size_t it = k.r * k.r, dil = k.r; tol = eps; for (size_t c = 0; c <= it; c++) { for (size_t z = 0; z < p.nz; z++) for (size_t y = 0; y < p.n; y++) for (size_t x = 0; x < p.n; x++) { size_t i = l.at(x, y, z); double nb[6] = { s[l.at((long) x + 1, y, z)], s[l.at((long) x - 1, y, z)], s[l.at(x, (long) y + 1, z)], s[l.at(x, (long) y - 1, z)], s[l.at(x, y, (long) z + 1)], s[l.at(x, y, (long) z - 1)] }; double sum = 0; bool any = false; for (double b : nb) { sum += b; any |= b > 0; } t[i] = core[i] ? 1 : c < dil ? any : sum / 6; } if (c < dil) for (size_t i = 0; i < V; i++) if (t[i] > 0) core[i] = 1; s = t; }
			for (size_t i = 0; i < V; i++) { M[i] = s[i] > 0.5; D[i] = std::abs(s[i] - 0.5) < eps; F[i] = 1 - s[i]; } }
		else { std::vector<char> u = hot; if (k.m == AXIT) { M = ball(hot, k.r); if (std::count(und.begin(), und.end(), 1)) D = ball(und, k.r); } else { if (std::count(und.begin(), und.end(), 1)) { e.count("undecided_axiton"); continue; } auto s = smooth(hot, k.r); for (size_t i = 0; i < V; i++) { M[i] = s[i] > cut; D[i] = std::abs(s[i] - cut) < eps * 3; } } for (size_t i = 0; i < V; i++) F[i] = k.out == 0 ? E[i] : !M[i]; }
		if (k.m == DIFF && g.depth < 2 * g.ng) e.count("diff_thin");
		const char *sfx = k.m == DIFF && g.depth < 2 * g.ng ? "-thin" : ""; size_t cov = 0, und2 = 0; for (size_t i = 0; i < V; i++) { if (M[i]) cov++; if (D[i]) { und2++; continue; } int x = i % n, y = i / n % n, z = i / n / n; if (mapped) e.check((((int) d[i] & 128) != 0) == (M[i] != 0), strf("mask%s%s", sfx, q ? "-again" : ""), "the %s mask of radius %.3f (number %d) %s site (%d,%d,%d), which is %s it, on %d^3 sites, %d ranks, %d threads", nmk, k.r, q, M[i] ? "misses" : "covers", x, y, z, M[i] ? "inside" : "outside", n, g.nr, g.thr);
			if (sx) e.check(((int) d[i] & 127) == bits[i], "map", "the %s mask (number %d) changed the string map at (%d,%d,%d) from %d to %d", nmk, q, x, y, z, bits[i], (int) d[i] & 127);
			double f = k.out == 2 ? 1 - F[i] : F[i]; e.check(std::abs(w[i] - f) <= tol * (1 + std::abs(f)), strf("value%s", sfx), "the %s mask of radius %.3f holds %.9g at (%d,%d,%d) instead of %.9g, on %d^3 sites, %d ranks", nmk, k.r, w[i], x, y, z, f, n, g.nr); }
		e.count("masked", cov); e.count("undecided", und2); e.count("partial", cov && cov < V);
		// the spectrum of the mask
		size_t nb = floor(sqrt(3. * (n / 2) * (n / 2))) + 1; auto *S = J.find(id + ".P", 0); if (!und2 && S && S->count() == nb) { bool fld = !sx; std::vector<cd> f(V); for (size_t i = 0; i < V; i++) f[i] = fld ? (M[i] ? 0 : E[i]) : F[i]; dft3(f, n, n, -1); std::vector<double> B(nb); double T = 0, norm = p.L * p.L * p.L / (2. * V * V) * (sx ? 2 : 1); auto wr = [](long k, long m) { return k > m / 2 ? k - m : k; };
			for (size_t i = 0; i < V; i++) { double x = wr(i % n, n), y = wr(i / n % n, n), z = wr(i / n / n, n); double Pw = std::norm(f[i]) * norm; B[(size_t) floor(sqrt(x * x + y * y + z * z))] += Pw; T += Pw; } double ep2 = std::max(eps, tol) * 2; if (sx) T = std::max(T, norm * V * V); for (size_t b = 0; b < nb; b++) e.check(std::abs(S->as<double>()[b] - B[b]) <= 2 * sqrt(B[b] * T) * ep2 + 10 * T * ep2 * ep2 + 5 * ep2 * B[b], strf("spectrum%s", sfx), "bin %zu of the spectrum of the %s mask holds %.9g instead of %.9g", b, nmk, S->as<double>()[b], B[b]); }
	}
	(void) cum;
}
static Reg r({ "C21", "masks cover the sites they are defined to cover", { "harn" }, ep, 2200, 14000, "distinct (field, lattice, layout, defects, masks and radii, schedule)", { "masks", "halo exchange", "distributed FFT", "spectra" }, { "MPI (simulated)", "OpenMP runtime (simulated)" }, {} });
