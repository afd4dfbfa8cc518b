// C19: reduced, expanded and projected fields are those of the whole lattice, however it is distributed.
#include "cfg.h"
#include "h5.h"
static std::vector<cd> reduceRef(std::vector<cd> a, const Lat &l, size_t N, size_t NZ, const std::function<double(int, int, int)> &f) {
	dft3(a, l.n, l.nz, -1); for (size_t z = 0; z < l.nz; z++) for (size_t y = 0; y < l.n; y++) for (size_t x = 0; x < l.n; x++) { auto w = [](size_t k, size_t m) { return (int) k > (int) m / 2 ? (int) k - (int) m : (int) k; }; a[l.at(x, y, z)] *= f(w(x, l.n), w(y, l.n), w(z, l.nz)) / l.V(); }
	dft3(a, l.n, l.nz, +1); std::vector<cd> o(N * N * NZ); Lat s{ N, NZ }; for (size_t z = 0; z < NZ; z++) for (size_t y = 0; y < N; y++) for (size_t x = 0; x < N; x++) o[s.at(x, y, z)] = trilin(a, l, (double) x * l.n / N, (double) y * l.n / N, (double) z * l.nz / NZ); return o; }
static bool field(const JobOut &J, const std::string &nm, int kind, std::vector<cd> &o) { if (!kind) return gatherC(J, nm, o); std::vector<double> d; if (!gatherD(J, nm, d)) return false; o.assign(d.begin(), d.end()); return true; }
static void ep(Ep &e) {
	int how = e.pick("how", { 0, 1, 2, 3, 4, 5, 6 });   // 0 out of place, 1 in place, 2 energy map, 3 smaller when read, 4 larger when read, 5 projection, 6 reduction program
	GridOpt o; o.wide = false; o.minN = 8; o.maxSites = 20000; o.ngs = { 1, 2, 3 }; if (how == 4) o.kinds = { 0, 1 }; Grid g = drawGrid(e, "g", o); int n = g.n; while (n % g.nr) { g.nr--; } g.s.nranks = g.nr; g.a = gridArgs(g, g.nr, g.depth); if (how != 4 && how != 5 && g.depth < 2) return;
	double L = e.real("lsize", 2, 8); Strs phys{ "--lsize", strf("%.9f", L), "--qcd", "4.0", "--msa", "1.0", "--zi", strf("%.6f", e.real("zi", 0.5, 1.5)), "--zf", "4.0" }; double tol = g.prec ? 1e-11 : 1e-5;
	const char *fk = g.kind == 0 ? (e.coin("rough", 700) ? "sxrand" : "sxsmooth") : (e.coin("rough", 700) ? "axrand" : "axsmooth"); double amp = g.kind ? e.real("amp", 0.3, 1.2) : 1; std::string fill = strf("fill:%s:%llu:%.17g", fk, (unsigned long long) e.sub("fill"), amp);
	int N, NZ; auto pickN = [&](bool up) { std::vector<int64_t> c; if (up) { for (int k : { 2 * n, n + 8, n + n / 2, 3 * n, n + 4 }) if (k % g.shift == 0 && k % g.nr == 0 && k <= 48) c.push_back(k); } else for (int k : { n / 2, n / 4, n - 2, 3 * n / 4, n - n / 8, 4, n - 4 }) if (k >= 2 && k < n && (how || k % 4 == 0)) c.push_back(k); return (int) e.pick("newn", c); };
	e.sample = strf("how=%d %s %s n=%d depth=%d ranks=%d threads=%d ng=%d prec=%d", how, g.ftype(), fk, n, g.depth, g.nr, g.thr, g.ng, g.prec);
	auto cmp = [&](const char *cls, const char *what, const std::vector<cd> &got, const std::vector<cd> &want) { size_t w = 0; double d = maxDiff(got, want, &w), m = maxAbs(want); e.check(got.size() == want.size() && d <= tol * std::max(m, 1e-3), cls, "%s differs from the reference by %g at site %zu (largest value %g)", what, d, w, m); };
	Strs b = g.a; b += phys;
	if (how == 0 || how == 1 || how == 2) { N = pickN(false); std::vector<int64_t> cz; for (int k : { g.depth / 2, g.depth * N / n, g.depth - 1, 1 }) if (k >= 1 && k < g.depth) cz.push_back(k); NZ = e.pick("newdepth", cz); 
		if (how == 1) { while (N % g.nr || N < 2) { if (N == 2) return; N--; } } char fc = "gsi"[e.pick("filter", { 0, 1, 2 })]; double q = fc == 'g' ? e.real("efc", 0.001, 0.3) : fc == 's' ? e.range("k2", 1, n * n / 2) + 0.5 : 0; auto F = [&](int x, int y, int z) { double k = (double) x * x + (double) y * y + (double) z * z; return fc == 'g' ? exp(-q * k) : fc == 's' ? (k > q ? 0. : 1.) : 1.; };
		b += Strs{ "@", "new", fill, "params:par", "dump:m:m", "dump:v:v", "poison" }; if (how < 2 && e.coin("fold", 500)) b += "fold"; if (how == 2) { b += strf("energy:e:%d:0", e.pick("entype", { 2, 3 })); b += "dump:map:m2r"; }
		b += strf("reduce:%d:%d:%s:%d:%c%.17g", N, NZ, how == 2 ? "m2" : "mv", how == 1, fc, q); if (how == 2) b += "redmap:red"; if (how == 0) b += Strs{ "swap", "dump:rm:m", "dump:rv:v", "swap" }; if (how == 1) b += Strs{ "dump:rm:m", "dump:rv:v" }; else b += Strs{ "unfold", "dump:m1:m", "dump:v1:v" };
		JobOut J = e.run("r", "harn", "h_main", g.s, b); ENDED(e, J); Par p = Par::from(J); Lat l{ p.n, p.nz }; std::vector<cd> m, v, a; field(J, "m", g.kind, m); field(J, "v", g.kind, v); if (how != 1) { std::vector<cd> m1, v1; field(J, "m1", g.kind, m1); field(J, "v1", g.kind, v1); e.check(m1 == m && v1 == v, "state", "reducing changed the field itself"); }
		if (how == 2) { field(J, "map", 1, m); field(J, "red", 1, a); cmp("map", "the reduced energy map", a, reduceRef(m, l, N, NZ * g.nr, F)); }
		else { field(J, "rm", g.kind, a); cmp("field", "the reduced field", a, reduceRef(m, l, N, NZ * g.nr, F)); field(J, "rv", g.kind, a); cmp("velocity", "the reduced velocity", a, reduceRef(v, l, N, NZ * g.nr, F)); }
	} else if (how == 5) { b += Strs{ "@", "new", fill, "params:par", "dump:m:m", "dump:v:v", strf("energy:e:%d:0", e.pick("entype", { 2, 3 })), "dump:map:m2r", "proj:pr", "unfold", "dump:m1:m", "dump:v1:v" }; JobOut J = e.run("p", "harn", "h_main", g.s, b); ENDED(e, J); Par p = Par::from(J); std::vector<cd> m, v, m1, v1, mp, pr; field(J, "map", 1, mp); field(J, "m", g.kind, m); field(J, "v", g.kind, v); field(J, "m1", g.kind, m1); field(J, "v1", g.kind, v1); e.check(m1 == m && v1 == v, "state", "projecting changed the field");
		auto *o = J.find("pr", 0); std::vector<cd> want(p.n * p.n), got; for (size_t i = 0; i < mp.size(); i++) want[i % want.size()] += mp[i] / (double) p.nz; for (size_t i = 0; o && i < o->count(); i++) got.push_back(o->as<double>()[i]); cmp("projection", "the projected map", got, want);
	} else { // write on one layout, read on another size and layout (or reduce with the program)
		Strs w = b; w += Strs{ "@", "new", fill, "params:par", "dump:m:m", "dump:v:v", "wconf:3:0" }; mkdirs(e.path("out/m")); JobOut W = e.run("w", "harn", "h_main", g.s, w); ENDED(e, W); Par p = Par::from(W); Lat l{ p.n, p.nz }; std::vector<cd> m, v, a; field(W, "m", g.kind, m); field(W, "v", g.kind, v);
		JobSpec s = baseSpec(e, "rd"); std::vector<int64_t> rs; int tz = l.nz; for (int k : { g.nr, 1, 2, 4, 3 }) if (tz % k == 0 && n % k == 0) rs.push_back(k); int nr = e.pick("readers", rs), rd = tz / nr; s.nranks = nr; s.nthreads = e.pick("rthreads", { 2, 1, 3 }); s.procs = s.nthreads; schedule(e, s, "rd.");
		if (how == 6) { // the program keeps the proportions; sharp cut in single precision, gaussian in double
			std::vector<int64_t> c; for (int k : { n / 2, n / 4, n - 4 }) if (k >= 4 && k % 4 == 0 && k < n && k % nr == 0 && (rd * k) / n >= 2) c.push_back(k); if (c.empty()) { e.count("no_size"); return; } N = e.pick("newn", c); NZ = rd * N / n; double beta = e.real("beta", 0.2, 2); Grid h = g; Strs x = gridArgs(g, nr, rd); x += phys; x += Strs{ "--index", "3", "--redmp", strf("%d", N), "--beta", strf("%.6f", beta) };
			JobOut J = e.run("redu", "redu", "_Z9prog_mainiPPc", s, x); ENDED(e, J); auto f = h5read(e, "h5", { "out/m/axion.00003", "out/m/axion.01003" }); e.check(f.size() == 2 && f[1].readable, "nofile", "the reduced configuration was not written"); if (f.size() < 2 || !f[1].readable) return;
			beta = atof(strf("%.6f", beta).c_str()); double ss = floor((double) n / N) ; ss = (double) (n / N); double q = 0.5 * M_PI * M_PI * beta * beta * ss * ss / ((double) n * n); double k2 = (N / 2) * (N / 2); auto F = [&](int x, int y, int z) { double k = (double) x * x + (double) y * y + (double) z * z; return g.prec ? exp(-q * k) : k > k2 ? 0. : 1.; };
			for (int part = 0; part < 2; part++) { auto *d = f[1].get(part ? "/v" : "/m"); std::vector<cd> got, want = reduceRef(part ? v : m, l, N, NZ * nr, F); size_t cnt = want.size(), nc = g.kind ? 1 : 2; if (!d || d->n() != cnt * nc) { e.fail("shape", "the reduced configuration has the wrong size"); return; } auto at = [&](size_t i) { return d->d()[i]; }; for (size_t i = 0; i < cnt; i++) got.push_back(nc == 2 ? cd(at(2 * i), at(2 * i + 1)) : cd(at(i))); cmp(part ? "velocity" : "field", "the reduced configuration", got, want); }
		} else { bool up = how == 4; N = pickN(up); std::vector<int64_t> cz; if (up) { for (int k : { 2 * rd, rd + 1, rd * N / n, rd + rd / 2 }) if (k > rd && k <= 24) cz.push_back(k); } else for (int k : { rd / 2, rd * N / n, rd - 1, 1 }) if (k >= 1 && k < rd) cz.push_back(k); if (cz.empty() || N % nr || (N % g.shift && up)) { e.count("no_size"); return; } NZ = e.pick("newdepth", cz); if (NZ < g.ng || rd < g.ng) { e.count("no_size"); return; }
			Grid h = g; h.n = N; Strs x = gridArgs(h, nr, NZ); x += phys; x += Strs{ "--index", "3", "@", "rconf:3:0:rd", "need", "params:par", "dump:rm:m", "dump:rv:v" }; JobOut J = e.run("rd", "harn", "h_main", s, x); ENDED(e, J); Par q = Par::from(J); e.check(q.n == (size_t) N && q.nz == (size_t) NZ * nr, "shape", "asked for %dx%dx%d, got %zux%zux%zu", N, N, NZ * nr, q.n, q.n, q.nz); if (q.n != (size_t) N) return;
			for (int part = 0; part < 2; part++) { std::vector<cd> want; auto &src = part ? v : m; field(J, part ? "rv" : "rm", g.kind, a);
				if (up) { want.resize((size_t) N * N * NZ * nr); Lat t{ (size_t) N, (size_t) NZ * nr }; for (size_t k = 0; k < t.nz; k++) for (int j = 0; j < N; j++) for (int i = 0; i < N; i++) want[t.at(i, j, k)] = trilin(src, l, (double) i * n / N, (double) j * n / N, (double) k * l.nz / t.nz); }
				else { double ex = 2 * M_PI * M_PI / ((double) N * N), ez = 2 * M_PI * M_PI / ((double) NZ * NZ * nr * nr); want = reduceRef(src, l, N, NZ * nr, [&](int x, int y, int z) { return exp(-ex * ((double) x * x + (double) y * y) - ez * z * z); }); }
				cmp(part ? "velocity" : "field", up ? "the expanded field" : "the reduced field", a, want); } } }
	e.count(strf("how_%d", how));
}
static Reg r({ "C19", "reduced, expanded and projected fields are those of the whole lattice", { "harn", "redu" }, ep, 2500, 12500, "distinct (operation, field, lattice, layouts of writer and reader, new size, filter, schedule)", { "reducer", "expansion when reading", "projection", "distributed FFT", "configuration reader and writer" }, { "MPI (simulated)", "OpenMP runtime (simulated)" }, {} });
