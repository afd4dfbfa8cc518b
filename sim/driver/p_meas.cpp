// C27: a measurement file holds the same numbers however the lattice is distributed.
#include "cfg.h"
#include "h5.h"
#include <array>
#include <algorithm>
enum { BT = 1, BR = 2, BL = 4, BD = 8, STR = 32, SMAP = 64, SCOO = 128, ENE = 256, E3D = 512, RED = 1024, M2D = 2048, MASK = 8192, PSPA = 16384, PSPS = 32768, NSPA = 65536, NSPS = 131072, NN = 262144, MCON = 524288 };
static void ep(Ep &e) {
	GridOpt o; o.wide = false; o.minN = 8; o.maxSites = 9000; o.cube = true; o.ngs = { 1, 2, 3 }; o.kinds = { 0, 1 }; o.ranks = { 1, 2, 4 }; Grid g = drawGrid(e, "g", o); int n = g.n; bool sx = g.kind == 0; if (g.depth < g.ng) g.ng = g.depth;
	if (n / g.shift < 2) n = g.n = 2 * g.shift, g.depth = n / g.nr;   // one row per lane: known finding of C13
	std::vector<int64_t> rs; for (int k : { 1, 2, 4 }) if (n % k == 0 && n / k >= g.ng) rs.push_back(k); int nr2 = e.pick("ranks2", rs), thr2 = e.pick("threads2", { 1, 2, 3, 4 });
	double L = e.real("lsize", 2, 8); Strs phys{ "--lsize", strf("%.9f", L), "--qcd", "4.0", "--msa", strf("%.3f", e.real("msa", 0.4, 1.4)), "--zi", strf("%.6f", e.real("zi", 0.5, 1.5)), "--zf", "4.0", "--ind3", "1.3" };
	int meas = 0; auto add = [&](const char *nm, int bit, int pm) { if (e.coin(nm, pm)) meas |= bit; };
	add("theta", BT, 400); add("logtheta", BL, 300); add("delta", BD, 300); add("energy", ENE, 400); add("psp", PSPA, 300); add("nsp", NSPA, 400); add("nn", NN, 200); add("e3d", E3D, 200); add("red", RED, 150); if (sx) { add("rho", BR, 300); add("str", STR, 400); add("smap", SMAP, 200); add("scoo", SCOO, 200); add("nsps", NSPS, 300); } if (!(meas & RED)) add("mcon", MCON, 100); if (!meas) meas = ENE;
	if (e.coin("spmask", 500)) { int mk = sx ? e.pick("mask", { 1, 2, 4, 8, 16, 32, 64, 256, 7, 15 }) : e.pick("maska", { 1, 512, 1024 }); phys += Strs{ "--spmask", strf("%d", mk) }; if (mk & ~7) { phys += Strs{ "--rmask", strf("%.1f", e.pick("rmask", { 20, 10, 35 }) / 10.) }; } }
	else phys += Strs{ "--spmask", "1" };
	phys += Strs{ "--spKGV", strf("%lld", (long long) e.pick("nrt", sx ? std::vector<int64_t>{ 7, 112, 1, 2, 4, 64 } : std::vector<int64_t>{ 7, 15 })) }; if (e.coin("nb", 300)) phys += Strs{ "--nbinsspec", "13" }; if (meas & RED) phys += Strs{ "--redmp", strf("%d", n / 2) };
	if (sx) { int sm = e.pick("strmeas", { 0, 1, 3, 4, 5 }); if (sm) phys += Strs{ "--strmeas", strf("%d", sm) }; } for (auto m : { "--p2Dmap", "--p2DmapE", "--p2DmapPE", "--p2DmapPE2", "--p2DmapYZ" }) if (e.coin(m, 120)) phys += m; if (e.coin("slice", 300)) phys += Strs{ "--sliceprint", strf("%lld", (long long) e.range("slicez", 0, n - 1)) };
	const char *fk = sx ? (const char*[]) { "sxsmooth", "sxrand", "sxloops" }[e.pick("field_kind", { 0, 1, 2 })] : e.coin("rough", 500) ? "axrand" : "axsmooth"; double amp = sx ? 1 : e.real("amp", 0.3, 1.2); std::string fill = strf("fill:%s:%llu:%.17g", fk, (unsigned long long) e.sub("fill"), amp);
	e.sample = strf("%s %s n=%d ranks=%d/%d threads=%d/%d ng=%d prec=%d meas=%d %s", g.ftype(), fk, n, g.nr, nr2, g.thr, thr2, g.ng, g.prec, meas, [&] { std::string r; for (size_t i = 12; i < phys.size(); i++) r += phys[i] + " "; return r; }().c_str());
	bool fold1 = e.coin("fold1", 500), fold2 = e.coin("fold2", 500); H5File F[2];
	for (int k = 0; k < 2; k++) { Grid h = g; if (k) { h.nr = nr2; h.depth = n / nr2; h.s = baseSpec(e, "g2"); h.s.nranks = nr2; h.s.nthreads = h.s.procs = thr2; schedule(e, h.s, "b."); } Strs b = gridArgs(h, h.nr, h.depth); b += phys; b += Strs{ "@", "new", fill, "dump:m:m", "dump:v:v" }; if (k ? fold2 : fold1) b += "fold"; b += Strs{ strf("meas:%d:%d", 7 + k, meas), "unfold", "dump:m1:m", "dump:v1:v" }; mkdirs(e.path("out/m"));
		JobOut J = e.run(k ? "b" : "a", "harn", "h_main", h.s, b); bool pp = std::count(phys.begin(), phys.end(), "--p2DmapPE") && std::count(phys.begin(), phys.end(), "--p2DmapPE2"); if (pp) e.check(J.r.outcome == OC_DONE, "two-projections", "%s", J.outcome().c_str()); ENDED(e, J); std::vector<char> x, y; for (auto nm : { "m", "v" }) { J.gather(nm, x); J.gather(strf("%s1", nm), y); e.check(x == y, "state", "the measurement changed the field (%s)", nm); } }
	auto fs = h5read(e, "h5", { "out/m/axion.m.00007", "out/m/axion.m.00008" }); for (int k = 0; k < 2; k++) { F[k] = fs[k]; e.check(F[k].readable, "nofile", "no measurement file"); }
	double V = (double) n * n * n, tol = g.prec ? 1e-9 : 3e-5;
	// histograms: the distribution may shift by rounding
	for (auto &kv : F[0].it) if (kv.first.rfind("/bins/", 0) == 0 && kv.second.kind == 'd' && F[1].get(kv.first)) { const H5Item *x = &kv.second, *y = F[1].get(kv.first); if (x->n() != y->n()) continue; double sx_ = 0, sy = 0, c = 0, d = 0; for (size_t i = 0; i < x->n(); i++) sx_ += x->d()[i], sy += y->d()[i]; double worst = 0; for (size_t i = 0; i < x->n(); i++) { c += x->d()[i] / sx_; d += y->d()[i] / sy; if (i + 1 < x->n()) worst = std::max(worst, std::min(std::abs(c - d), std::max(std::abs(c - d - x->d()[i] / sx_), 0.))); } e.check(!(worst > 0.02 + 4 / V), "histogram", "%s differs between the layouts (%g of the sites)", kv.first.c_str(), worst); }
	// the coordinates of the string plaquettes come in no particular order
	for (auto &f : F) for (auto &kv : f.it) if (kv.first.find("codata") != std::string::npos && kv.second.kind == 'd' && kv.second.n() % 3 == 0) { std::vector<std::array<double, 3>> t(kv.second.n() / 3); memcpy(t.data(), kv.second.d(), kv.second.n() * 8); std::sort(t.begin(), t.end()); memcpy(&kv.second.raw[0], t.data(), kv.second.n() * 8); }
	auto has = [](const std::string &s, std::initializer_list<const char *> l) { for (auto x : l) if (s.find(x) != std::string::npos) return true; return false; };
	auto cls = [&](const std::string &k) { if ((meas & RED) && has(k, { "/string", "_Red", "_Bal", "mask" })) return 6; if (has(k, { "String length" })) return 1; if (has(k, { "String number with gamma", "String velocity", "String gamma" })) return 2; if (has(k, { "_Axit", "/sPmasked" })) return 3; if (has(k, { "_Gau", "_Dif" })) return 4; if (has(k, { "sCV_Bal", "sCG_Bal" })) return 5; return 0; };
	auto part = [&](int which) { H5File o[2]; for (int k = 0; k < 2; k++) { o[k].readable = true; for (auto &kv : F[k].it) if (cls(kv.first) == which) o[k].it.insert(kv); } return h5diff(o[0], o[1], tol, { "Wall time", "/bins/", "@Depth", "Creation", "@Current step" }); };
	std::string d = part(0); e.check(d.empty(), "file", "measurement files of the two layouts differ: %s", d.c_str());
	d = part(1); e.check(d.empty(), g.nr == nr2 ? "string-length" : "string-length-ranks", "%s", d.c_str()); d = part(3); e.check(d.empty(), "axiton-mask", "%s", d.c_str()); d = part(2); e.check(d.empty(), "string-gamma", "%s", d.c_str()); d = part(4); e.check(d.empty(), "smooth-mask", "%s", d.c_str()); d = part(5); e.check(d.empty(), "stale-correlator", "%s", d.c_str()); d = part(6); e.check(d.empty(), "reduced-strings", "%s", d.c_str());
	for (auto &kv : F[0].it) if (kv.second.kind == 'd') e.count("datasets"); e.count(strf("ranks_%d_%d", g.nr, nr2));
}
static Reg r({ "C27", "a measurement file holds the same numbers on every layout", { "harn" }, ep, 1800, 9000, "distinct (field, lattice, both layouts, measurements and options, schedule)", { "measurements", "energies", "strings", "spectra", "histograms", "maps", "HDF5 writers" }, { "MPI (simulated)", "MPI-IO (simulated disk)", "OpenMP runtime (simulated)" }, {} });
