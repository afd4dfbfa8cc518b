// C15: spectra hold the Fourier power of the documented quantities on the whole lattice, however it is distributed.
#include "cfg.h"
enum { FLAT = 1, VIL = 2, VIL2 = 4, REDO = 8 };
enum { K = 1, G = 2, V = 4, S = 8, CK = 16, CG = 32, CV = 64, CS = 128 };
static void ep(Ep &e) {
	GridOpt o; o.wide = false; o.minN = 8; o.maxSites = 9000; o.cube = true; o.ngs = { 1, 2, 3 }; Grid g = drawGrid(e, "g", o); int n = g.n; if (g.depth < g.ng) { g.ng = g.depth; } g.a = gridArgs(g, g.nr, g.depth); bool sx = g.kind == 0;
	double L = e.real("lsize", 2, 8); Strs phys{ "--lsize", strf("%.9f", L), "--qcd", "4.0", "--msa", strf("%.3f", e.real("msa", 0.4, 1.4)), "--zi", strf("%.6f", e.real("zi", 0.5, 1.5)), "--zf", "4.0", "--ind3", "1.3" }; if (e.coin("mink", 150)) phys += "--mink"; if (sx) phys += (e.pick("pot", { 0, 1 }) ? "--vqcdV" : "--vqcdC");
	double eps = g.prec ? 1e-12 : 4e-6;
	const char *fk = sx ? (const char*[]) { "sxsmooth", "sxrand", "sxloops" }[e.pick("field_kind", { 0, 1, 2 })] : e.coin("rough", 600) ? "axrand" : "axsmooth"; double amp = sx ? 1 : e.real("amp", 0.3, 1.2);
	int what = e.pick("what", sx ? std::vector<int64_t>{ 0, 1, 0, 2, 1, 3 } : std::vector<int64_t>{ 0, 2, 0, 3 });   // 0 axion spectra, 1 saxion spectra, 2 energy power spectrum, 3 numbers of modes
	int mask = sx && what < 2 ? e.pick("mask", { FLAT, VIL, VIL2, REDO }) : FLAT, perm = mask == REDO ? e.pick("maskdensity", { 300, 20, 900 }) : 0; int nrt = what == 1 ? K | G | V : e.pick("nrt", sx ? std::vector<int64_t>{ CK | CG | CV, K | G | V, CK, G, V, CV, CG, K } : std::vector<int64_t>{ K | G | V, K | G | V | S, S, K }); if (what == 0 && sx && (mask == VIL || mask == VIL2)) nrt &= ~V;
	int nat = floor(sqrt(3. * (n / 2) * (n / 2))) + 1; std::vector<int64_t> nbc{ -1, nat, 2 * nat }; for (int k : { 5, 7, 3, 11, 31, 1 }) if (std::__gcd(k, nat) == 1) nbc.push_back(k); int nbs = e.pick("nbins", nbc), nb = nbs < 0 ? nat : nbs; double mul = (double) nb / nat;
	Strs b = g.a; b += phys; b += Strs{ "@", "new", strf("fill:%s:%llu:%.17g", fk, (unsigned long long) e.sub("fill"), amp), "params:par", "dump:m:m", "dump:v:v" }; if (sx) b += "lut:lut"; b += "poison";
	if (perm) b += strf("setmask:%llu:%d", (unsigned long long) e.sub("mask"), perm); if (e.coin("fold", 500)) b += "fold"; if (what == 2) { b += strf("energy:e:%d:0", e.pick("entype", { 3, 2 })); b += "dump:map:m2r"; }
	int rep = what == 2 ? 1 : e.pick("repeat", { 1, 2 }); for (int i = 0; i < rep; i++) b += strf("spec:%s:%s:%d:%d:%d", i ? "s2" : "s", (const char*[]) { "n", "s", "p", "m" }[what], nbs, nrt, mask); if (what == 3) b += strf("spec:q:k:%d", nbs); b += Strs{ "unfold", "dump:m1:m", "dump:v1:v" };
	e.sample = strf("%s %s what=%d nrt=%d mask=%d n=%d ranks=%d threads=%d ng=%d prec=%d bins=%d", g.ftype(), fk, what, nrt, mask, n, g.nr, g.thr, g.ng, g.prec, nbs);
	JobOut J = e.run("s", "harn", "h_main", g.s, b); ENDED(e, J); Par p = Par::from(J); Lat l{ p.n, p.nz }; size_t VV = l.V(); double norm = p.L * p.L * p.L / (2. * VV * VV), R = p.R, k02 = 4 * M_PI * M_PI / (p.L * p.L), mA2 = p.axm2(p.z) * R * R;
	auto get = [&](const char *nm) { std::vector<double> r; auto *x = J.find(nm, 0); if (!x || x->count() != (size_t) nb) e.fail("harness", "no spectrum %s", nm); for (size_t i = 0; i < (size_t) nb; i++) r.push_back(x->as<double>()[i]); for (int k = 1; k < g.nr; k++) { auto *y = J.find(nm, k); e.check(y && y->data == x->data, "ranks", "ranks 0 and %d have different spectra (%s)", k, nm); } return r; };
	auto bin = [&](size_t i, double &k2) { auto w = [](long k, long m) { return k > m / 2 ? k - m : k; }; long x = w(i % n, n), y = w(i / n % n, n), z = w(i / n / n, n); k2 = (double) (x * x + y * y + z * z); return (size_t) floor(mul * sqrt(k2)); };
	std::vector<double> nm(nb), ak(nb); for (size_t i = 0; i < VV; i++) { double k2; size_t q = bin(i, k2); if (q < (size_t) nb) { nm[q]++; ak[q] += k2; } else e.fail("harness", "bin"); }
	// power of a quantity, optionally weighted by |k|^2 or corrected from differences along one direction
	struct Sp { std::vector<double> b, t; }; double kx2 = 3. * (n / 2) * (n / 2) * k02;
	auto power = [&](std::vector<cd> a, int how, double f, Sp &out) { dft3(a, n, n, -1); if (out.b.empty()) { out.b.resize(nb); out.t.resize(nb); } std::vector<double> B(nb); double T = 0; for (size_t i = 0; i < VV; i++) { double k2, c = 1; size_t q = bin(i, k2), d[3] = { i % n, i / n % n, i / n / n }; if (how >= 10) { double w = M_PI * 2 * std::min(d[how - 10], n - d[how - 10]) / n; if (w > 0) c = 2 * (1 - cos(w)) / (w * w); } double P = std::norm(a[i]) * norm * f; T += P; B[q] += P / c * (how == 1 ? k2 * k02 : 1); } double wmax = how == 1 ? kx2 : how >= 10 ? 2.5 : 1; for (int q = 0; q < nb; q++) { out.b[q] += B[q]; out.t[q] += 2 * sqrt(B[q] * T * wmax) * eps + T * wmax * eps * eps * 10 + 5 * eps * B[q]; } };
	auto cmp = [&](const char *nm, const char *what, const Sp &w) { auto x = get(nm); for (int i = 0; i < nb; i++) e.check(std::abs(x[i] - w.b[i]) <= w.t[i] + 1e-300, "spectrum", "%s: bin %d of %d holds %.10g, expected %.10g (tolerance %.3g)", what, i, nb, x[i], w.b[i], w.t[i]); };
	auto same = [&](const char *a, const char *b2) { if (rep < 2) return; auto x = get(a), y = get(b2); double mx = 0; for (double v : x) mx = std::max(mx, std::abs(v)); for (int i = 0; i < nb; i++) e.check(std::abs(x[i] - y[i]) <= 1e-9 * mx, "repeat", "measuring again gives %.10g instead of %.10g in bin %d (%s)", y[i], x[i], i, a); };
	if (what == 3) { auto x = get("s.N"), y = get("q.A"); for (int i = 0; i < nb; i++) { e.check(x[i] == nm[i], "modes", "bin %d counts %.17g modes, there are %.0f", i, x[i], nm[i]); e.check(std::abs(y[i] - ak[i]) <= 1e-12 * (1 + ak[i]), "modes", "bin %d: sum of k^2 %.17g, expected %.17g", i, y[i], ak[i]); } same("s.N", "s2.N"); }
	auto *zk = J.find("s.zk", 0); double zs = zk ? zk->as<double>()[0] : 0; std::vector<char> in(VV, 0); if (perm) for (size_t i = 0; i < VV; i++) in[i] = (long) (hash3(e.sub("mask"), i, 77) % 1000) < perm;
	if (sx) { std::vector<cd> m, v, m1, v1; gatherC(J, "m", m); gatherC(J, "v", v); gatherC(J, "m1", m1); gatherC(J, "v1", v1); e.check(m == m1 && v == v1, "state", "measuring the spectrum changed the field"); double mmin = 1e9; bool cut = false; for (auto &c : m) { cd q = c - zs; mmin = std::min(mmin, std::abs(q)); if (q.real() < 0 && std::abs(q.imag()) < 1e-5 * std::abs(q)) cut = true; }
		if (what < 2 && mmin < 0.02 * R) { e.count("near_zero"); return; }   // the phase of a vanishing field is not resolved in single precision
		auto W = [&](size_t i) { double a = std::abs(m[i] - zs) / R; return mask == VIL ? a : mask == VIL2 ? a * a : in[i] ? 0. : 1.; }; double rp = p.rp(p.z) * R;
		std::vector<cd> a(VV), c(VV), d(VV); Sp s;
		if (what == 1) { double ms = 0; Sp kk, gg, vv; for (size_t i = 0; i < VV; i++) { cd q = m[i] - zs; double mo = std::abs(q), vs = (q.real() * v[i].real() + q.imag() * v[i].imag()) / mo - mo * rp / R; a[i] = W(i) * vs; c[i] = W(i) * (mo - R); } power(a, 0, 1, kk); power(c, 1, 1, gg); power(c, 0, 1, vv); auto x = get("s.V"); double sx_ = 0, sr = 0; for (int i = 0; i < nb; i++) sx_ += x[i], sr += vv.b[i]; ms = sr > 0 ? sx_ / sr : 0; for (auto &t : vv.b) t *= ms; for (auto &t : vv.t) t = t * std::abs(ms) + 20 * eps * std::abs(sx_);
			cmp("s.K", "saxion kinetic spectrum", kk); cmp("s.G", "saxion gradient spectrum", gg); cmp("s.V", "saxion potential spectrum", vv); same("s.K", "s2.K"); same("s.G", "s2.G"); }
		if (what == 0) { std::vector<double> lut; gatherD(J, "lut", lut);
			if (nrt & (K | CK)) { for (size_t i = 0; i < VV; i++) { cd q = m[i] - zs; a[i] = W(i) * R * (nrt & K ? lut[4 * i] : (q.real() * v[i].imag() - q.imag() * v[i].real()) / std::norm(q)); } Sp k; power(a, 0, 1, k); cmp("s.K", "axion kinetic spectrum", k); same("s.K", "s2.K"); }
			if (nrt & (G | CG)) { Sp k; for (int dir = 0; dir < 3; dir++) { for (size_t z = 0; z < p.nz; z++) for (size_t y = 0; y < p.n; y++) for (size_t x = 0; x < p.n; x++) { size_t i = l.at(x, y, z), j = l.at(x + (dir == 0), y + (dir == 1), z + (dir == 2)); if (nrt & G) a[i] = W(i) * R * lut[4 * i + 1 + dir] / (2 * p.delta()); else { cd s2 = m[i] + m[j] - 2 * zs; if (std::abs(s2) < 0.02 * R) { e.count("near_zero"); return; } a[i] = W(i) * 2 * R / p.delta() * std::imag((m[j] - m[i]) / s2); } } power(a, 10 + dir, 1, k); } cmp("s.G", "axion gradient spectrum", k); same("s.G", "s2.G"); }
			if ((nrt & (V | CV)) && mA2 > 0) { for (size_t i = 0; i < VV; i++) { cd q = m[i] - zs; a[i] = W(i) * R * std::arg(q); c[i] = W(i) * 2 * R * sin(0.5 * std::arg(q)); } if (!cut) { Sp k, s2; power(a, 0, mA2, k); cmp("s.V", "axion potential spectrum", k); if (nrt & V) { power(c, 0, mA2, s2); cmp("s.S", "nonlinear axion potential spectrum", s2); } same("s.V", "s2.V"); } else e.count("at_the_cut"); } }
	} else { std::vector<double> m, v, m1, v1; gatherD(J, "m", m); gatherD(J, "v", v); gatherD(J, "m1", m1); gatherD(J, "v1", v1); e.check(m == m1 && v == v1, "state", "measuring the spectrum changed the field");
		if (what == 0) { std::vector<cd> a(m.begin(), m.end()), c(v.begin(), v.end()), d(VV); for (size_t i = 0; i < VV; i++) d[i] = 2 * R * sin(0.5 * m[i] / R); Sp k, gg, pv, s; if (nrt & (G | V)) { power(a, 1, 1, gg); power(a, 0, mA2, pv); cmp("s.G", "gradient spectrum", gg); cmp("s.V", "potential spectrum", pv); same("s.G", "s2.G"); } if (nrt & K) { power(c, 0, 1, k); cmp("s.K", "kinetic spectrum", k); same("s.K", "s2.K"); } if ((nrt & S) && mA2 > 0) { power(d, 0, mA2, s); cmp("s.S", "nonlinear potential spectrum", s); } } }
	if (what == 2) { std::vector<double> mp; gatherD(J, "map", mp); std::vector<cd> a(mp.begin(), mp.end()); Sp s; power(a, 0, 1, s); cmp("s.P", "power spectrum of the energy", s); }
	e.count(strf("what_%d", what)); e.count("modes", VV);
}
static Reg r({ "C15", "spectra hold the Fourier power of the documented quantities", { "harn" }, ep, 5000, 25000, "distinct (field, lattice, layout, kind of spectrum, mask, bins, schedule)", { "spectra", "field operators", "distributed FFT", "energy maps", "halo exchange" }, { "MPI (simulated)", "OpenMP runtime (simulated)" }, { "the string correction is taken from the code's own correction function, site by site" } });
