// C14: strings and walls are counted and mapped exactly where the phase of the field winds.
#include "cfg.h"
static void ep(Ep &e) {
	GridOpt o; o.wide = false; o.kinds = { 0 }; o.minN = 8; Grid g = drawGrid(e, "g", o); int n = g.n; if (n / g.shift < 2) return;
	auto a = g.a; a += Strs{ "--qcd", "4.0", "--msa", "1.0", "--lsize", "6.0", "--zi", strf("%.6f", e.real("zi", 0.5, 1.5)) }; const char *fk = (const char*[]) { "sxrand", "sxloops", "sxsmooth" }[e.pick("fill", { 0, 1, 2 })];
	a += Strs{ "@", "new", strf("fill:%s:%llu:%.9f", fk, (unsigned long long) e.sub("fill"), e.real("amp", 0.5, 1.5)), "params:par", "dump:m:m", "dump:v:v", "poison" }; if (e.coin("stale", 500)) a += strf("setmask:%llu:500", (unsigned long long) e.sub("mask")); if (e.coin("fold", 500)) a += "fold";
	int how = e.pick("how", { 0, 1, 2, 3 }); if (how == 0) a += "strings:s"; if (how == 1) a += "strings2:s"; if (how == 2) { a += "strpos:p"; } if (how == 3) { a += "strings2:x"; a += "strings:s"; }
	a += Strs{ "sdata:map", "unfold", "dump:m1:m", "dump:v1:v" }; JobOut J = e.run("s", "harn", "h_main", g.s, a); ENDED(e, J); Par p = Par::from(J); Lat l{ p.n, p.nz }; size_t V = l.V();
	std::vector<cd> m, v, m1, v1; gatherC(J, "m", m); gatherC(J, "v", v); gatherC(J, "m1", m1); gatherC(J, "v1", v1); e.check(m == m1 && v == v1, "state", "counting strings changed the field"); std::vector<double> map; gatherD(J, "map", map);
	double eps = g.prec ? 1e-13 : 1e-5; std::vector<int> W(V), D(V);   // D: undecided bits (an edge passes through zero within rounding)
	size_t strs = 0, walls = 0; long chr = 0; bool sure = true;
	for (size_t z = 0; z < p.nz; z++) for (size_t y = 0; y < p.n; y++) for (size_t x = 0; x < p.n; x++) { size_t i = l.at(x, y, z); cd c[4]; int bits = 0, dunno = 0;
		for (int k = 0; k < 3; k++) { auto at = [&](int u, int w) { long d[3] = { 0, 0, 0 }; d[k] += u; d[(k + 1) % 3] += w; return m[l.at(x + d[0], y + d[1], z + d[2])]; }; c[0] = at(0, 0); c[1] = at(1, 0); c[2] = at(1, 1); c[3] = at(0, 1); double w = 0; bool bad = false;
			for (int q = 0; q < 4; q++) { cd r = c[q] * std::conj(c[(q + 1) & 3]); if (std::abs(r.imag()) <= eps * std::abs(r) && r.real() < 0) bad = true; if (std::abs(c[q].imag()) <= 1e-20) bad = true; w += std::arg(r); }
			int h = (int) std::lround(w / (2 * M_PI)), pos = 1 << k, neg = 8 << k; if (bad) dunno |= pos | neg; else if (h == 1) bits |= pos; else if (h == -1) bits |= neg; 
			cd s = c[0], t = c[1]; if (s.imag() * t.imag() < 0) { double xr = s.real() + (t.real() - s.real()) * s.imag() / (s.imag() - t.imag()); double cr = std::abs((s * std::conj(t)).imag()); if (cr <= eps * std::abs(s) * std::abs(t)) dunno |= 64; else if (xr < 0) bits |= 64; } }
		if (bits & 64) dunno &= ~64; W[i] = bits; D[i] = dunno; if (dunno) sure = false; for (int k = 0; k < 3; k++) { if (bits & (1 << k)) strs++, chr++; if (bits & (8 << k)) strs++, chr--; } if (bits & 64) walls++;
		int got = (int) map[i] & 127; e.check((got & ~dunno) == (bits & ~dunno), "map", "site (%zu,%zu,%zu) is marked %d, the winding of the phase gives %d (undecided %d) on %dx%dx%d, %d ranks", x, y, z, got, bits, dunno, n, n, (int) p.nz, g.nr); }
	std::string nm = how == 2 ? "p.n" : "s"; for (int r = 0; r < g.nr; r++) { auto *s = J.find(nm, r); e.check(s && s->count() == 3, "harness", "no counts"); auto *d = s->as<double>(); if (sure) { e.check(d[0] == strs, "count", "rank %d counts %.0f strings, there are %zu", r, d[0], strs); e.check(d[1] == chr, "count", "rank %d finds chirality %.0f, it is %ld", r, d[1], chr); e.check(d[2] == walls, "count", "rank %d counts %.0f walls, there are %zu", r, d[2], walls); } }
	if (how != 2) { double L[3] = {}; for (int r = 0; r < g.nr; r++) if (auto *s = J.find("s.local", r)) for (int k = 0; k < 3; k++) L[k] += s->as<double>()[k]; if (sure && J.find("s.local", 0)) e.check(L[0] == strs && L[1] == chr && L[2] == walls, "count", "the local counts sum to %.0f strings, %.0f, %.0f walls instead of %zu, %ld, %zu", L[0], L[1], L[2], strs, chr, walls); }
	else if (sure) { std::set<std::array<int, 3>> want, got; size_t tot = 0; for (size_t i = 0; i < V; i++) { int x = i % p.n, y = i / p.n % p.n, z = i / p.n / p.n; if (W[i] & 9) want.insert({ 2 * x + 1, 2 * y + 1, 2 * z }); if (W[i] & 18) want.insert({ 2 * x, 2 * y + 1, 2 * z + 1 }); if (W[i] & 36) want.insert({ 2 * x + 1, 2 * y, 2 * z + 1 }); }
		bool fits = true; for (int r = 0; r < g.nr; r++) { auto *s = J.find("p", r); size_t c = s ? s->count() / 3 : 0; if (c * 6 > (size_t) n * n * g.depth * (g.prec ? 16 : 8)) { fits = false; continue; } tot += c; for (size_t i = 0; i < c; i++) { auto *d = s->as<double>() + 3 * i; got.insert({ (int) d[0], (int) d[1], (int) d[2] }); } }
		if (fits) { e.check(tot == want.size(), "positions", "%zu string positions recorded, %zu strings", tot, want.size()); e.check(got == want, "positions", "the recorded string positions are not those of the strings"); } else e.count("positions_do_not_fit"); }
	e.count("strings", strs); e.count("undecided", !sure); e.sample = strf("%s n=%d depth=%d ranks=%d threads=%d ng=%d prec=%d how=%d strings=%zu walls=%zu", fk, n, g.depth, g.nr, g.thr, g.ng, g.prec, how, strs, walls);
}
static Reg r({ "C14", "strings and walls are where the phase winds", { "harn" }, ep, 2400, 12000, "distinct (lattice, layout, field, way of counting, schedule)", { "string kernels", "string positions", "halo exchange", "layout conversion" }, { "MPI (simulated)", "OpenMP runtime (simulated)" }, {} });
