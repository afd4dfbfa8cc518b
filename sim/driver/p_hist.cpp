// C16: histograms count every site of the lattice once, in the right bin, between the right extremes.
#include "cfg.h"
#include "h5.h"
#include <algorithm>
enum { BT = 1, BR = 2, BL = 4, BD = 8, ENE = 256, E3D = 512 };
// h: the N bins; v: the values; tol: absolute uncertainty of a value
static void compare(Ep &e, const char *nm, const double *h, size_t N, double mn, double mx, std::vector<double> v, double tol) {
	std::vector<double> w; for (double x : v) if (std::isfinite(x)) w.push_back(x); size_t T = v.size(); std::sort(w.begin(), w.end());
	if (w.empty() || w.back() - w[0] < 1e-9) { e.count("constant"); return; } double t = tol * std::max(1., std::max(std::abs(w[0]), std::abs(w.back())));
	e.check(std::abs(mn - w[0]) <= t && std::abs(mx - w.back()) <= t, "extremes", "%s runs from %.10g to %.10g, the values from %.10g to %.10g", nm, mn, mx, w[0], w.back());
	double st = (mx - mn) / (N - 1), c = 0; for (size_t i = 0; i < N; i++) { double k = h[i] * T * st; e.check(k > -1e-6 && std::abs(k - std::round(k)) < 1e-6 * T + 1e-6, "count", "%s bin %zu holds %.10g counts", nm, i, k); c += std::round(k); double ed = mn + st * (i + 0.5), sl = t + 1e-9 * st + (i == 0 ? 0.011 * st : 0);
		double lo = std::lower_bound(w.begin(), w.end(), ed - sl) - w.begin(), hi = std::upper_bound(w.begin(), w.end(), ed + sl) - w.begin(); e.check(c >= lo && c <= hi, "count", "%s has %.0f values up to bin %zu (edge %.10g), there are %.0f%s%.0f below the edge", nm, c, i, ed, lo, hi > lo ? " to " : "/", hi); }
	e.check(c == w.size(), "total", "%s counts %.0f values of %zu", nm, c, w.size()); e.count("values", w.size());
}
static void ep(Ep &e) {
	GridOpt o; o.wide = false; o.minN = 8; o.maxSites = 14000; o.ngs = { 1, 2, 3 }; o.kinds = { 0, 1 }; Grid g = drawGrid(e, "g", o); if (g.depth < g.ng) g.depth = g.ng; if (g.n / g.shift < 2) g.n = 2 * g.shift;
	Strs a = gridArgs(g, g.nr, g.depth); a += Strs{ "--lsize", strf("%.9f", e.real("lsize", 2, 8)), "--qcd", "4.0", "--msa", strf("%.3f", e.real("msa", 0.4, 1.4)), "--zi", strf("%.6f", e.real("zi", 0.4, 1.8)), "--zf", "4.0", "--ind3", "1.3" };
	if (e.coin("direct", 300)) { long lines = e.range("lines", 1, 40), len = e.range("len", 1, 60), pad = e.coin("padded", 600) ? e.range("pad", 1, 5) : 0; int kind = e.pick("numbers", { 0, 1, 2, 3 }); bool again = e.coin("again", 300);
		a += Strs{ "@", "new" }; for (int i = 0; i < 1 + again; i++) a += strf("bin:b%d:%llu:%ld:%ld:%ld:%d", i, (unsigned long long) e.sub("numbers") + i, lines, len, pad, kind);
		JobOut J = e.run("b", "harn", "h_main", g.s, a); ENDED(e, J); e.sample = strf("histogram of %ld lines of %ld+%ld numbers (kind %d), ranks=%d threads=%d prec=%d", lines, len, pad, kind, g.nr, g.thr, g.prec);
		for (int i = 0; i < 1 + again; i++) { std::vector<double> d; std::vector<char> raw; J.gather(strf("b%d.d", i), raw); if (g.prec) d.assign((double*) raw.data(), (double*) (raw.data() + raw.size())); else d.assign((float*) raw.data(), (float*) (raw.data() + raw.size())); if (kind != 3) for (auto &x : d) x = g.prec ? log10(x) : (double) log10f(x);
			e.check(d.size() == (size_t) lines * len * g.nr, "harness", "numbers missing"); for (int k = 0; k < g.nr; k++) { const Obs *b = J.find(strf("b%d", i), k); e.check(b && b->count() == 502, "harness", "no bins"); compare(e, strf("histogram of rank %d", k).c_str(), b->as<double>(), 500, b->as<double>()[500], b->as<double>()[501], d, g.prec ? 1e-13 : 5e-7); } }
		e.count("direct"); return; }
	int meas = 0; auto add = [&](const char *nm, int bit, int pm) { if (e.coin(nm, pm)) meas |= bit; }; add("theta", BT, 600); add("logtheta", BL, 500); add("delta", BD, 500); if (g.kind == 0) add("rho", BR, 600); if (!meas) meas = BT; if (meas & BD) meas |= E3D;
	const char *fk = g.kind == 0 ? (const char*[]) { "sxsmooth", "sxrand", "sxloops" }[e.pick("field_kind", { 0, 1, 2 })] : e.coin("rough", 500) ? "axrand" : "axsmooth"; double amp = g.kind == 0 ? 1 : e.real("amp", 0.3, 3);
	a += Strs{ "@", "new", strf("fill:%s:%llu:%.17g", fk, (unsigned long long) e.sub("fill"), amp), "params:par", "dump:m:m" }; if (e.coin("fold", 500)) a += "fold"; a += strf("meas:7:%d", meas); mkdirs(e.path("out/m"));
	JobOut J = e.run("a", "harn", "h_main", g.s, a); ENDED(e, J); Par p = Par::from(J); e.sample = strf("%s %s n=%d depth=%d ranks=%d threads=%d ng=%d prec=%d meas=%d", g.ftype(), fk, g.n, g.depth, g.nr, g.thr, g.ng, g.prec, meas);
	auto F = h5read(e, "h5", { "out/m/axion.m.00007" }); H5File &f = F[0]; e.check(f.readable, "nofile", "no measurement file");
	std::vector<double> th, rho, lt; double R = p.R; if (g.kind == 0) { std::vector<cd> m; gatherC(J, "m", m); for (auto &x : m) { th.push_back(std::arg(x)); rho.push_back(std::abs(x) / R); } } else { gatherD(J, "m", th); for (auto &x : th) x /= R; }
	for (double x : th) lt.push_back(log10(1e-10 + x * x)); double tol = g.prec ? 1e-12 : 1e-6;
	auto one = [&](const char *nm, const std::vector<double> &v, double t) { const H5Item *d = f.get(strf("/bins/%s/data", nm)); e.check(d && d->n() == 3000, "missing", "no histogram %s in the file", nm); std::string b = strf("/bins/%s@", nm); const H5Item *x = f.get(b + "Minimum"), *y = f.get(b + "Maximum"), *z = f.get(b + "Size"); e.check(x && y && z && z->d()[0] == 3000, "missing", "no extremes of histogram %s", nm); e.check(v.size() == p.n * p.n * p.nz, "harness", "sites"); compare(e, nm, d->d(), 3000, x->d()[0], y->d()[0], v, t); e.count(nm); };
	if (meas & BT) one("thetaB", th, tol); if (meas & BR) one("rhoB", rho, tol); if (meas & BL) one("logtheta2B", lt, g.prec && g.kind == 0 ? 1e-11 : g.prec ? 2e-7 : 2e-6);
	if (meas & BD) { const H5Item *d = f.get("/energy/density/theta"), *x; double eA = 0; for (auto k : { "Axion Gr X", "Axion Gr Y", "Axion Gr Z", "Axion Kinetic", "Axion Potential" }) { x = f.get(strf("/energy@%s", k)); e.check(x, "missing", "no attribute %s", k); eA += x->d()[0]; } e.check(d && d->n() == p.n * p.n * p.nz, "missing", "no energy density"); std::vector<double> v; for (size_t i = 0; i < d->n(); i++) v.push_back(log10(d->d()[i] / eA)); one("contB", v, 2e-6); }
}
static Reg r({ "C16", "histograms count every site once", { "harn" }, ep, 2500, 15000, "distinct (field, lattice, layout, histograms or generated numbers, schedule)", { "binner", "measurement sequence", "energy maps", "HDF5 writers" }, { "MPI (simulated)", "MPI-IO (simulated disk)", "OpenMP runtime (simulated)" }, {} });
