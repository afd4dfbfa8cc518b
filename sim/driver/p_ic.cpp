// C22: the initial conditions are the documented ones, on the whole lattice, on every layout.
#include "cfg.h"
#include <algorithm>
namespace {
struct Ic { double zi, logi, kcr; int kMax, siter, ltype; double delta, zV, lamP, mode0, alpha, gamma; };
bool getIc(const JobOut &o, Ic &c) { const Obs *b = o.find("ic", 0); if (!b) return false; const double *d = b->as<double>(); c = { d[0], d[1], d[2], (int) d[3], (int) d[4], (int) d[5], d[6], d[7], d[8], d[9], d[10], d[11] }; return true; }
void smooth(std::vector<cd> &m, const Lat &l, int it, double al) { std::vector<cd> o(m.size()); for (; it > 0; it--) { for (size_t z = 0; z < l.nz; z++) for (size_t y = 0; y < l.n; y++) for (size_t x = 0; x < l.n; x++) o[l.at(x, y, z)] = al * m[l.at(x, y, z)] + (1 - al) / 6 * (m[l.at(x + 1, y, z)] + m[l.at((long) x - 1, y, z)] + m[l.at(x, y + 1, z)] + m[l.at(x, (long) y - 1, z)] + m[l.at(x, y, z + 1)] + m[l.at(x, y, (long) z - 1)]); m.swap(o); } }
void norm(std::vector<cd> &m) { for (auto &c : m) c /= std::abs(c); }
// the fit used for string cores: the modulus as a function of the gradient of the phase
void core(std::vector<cd> &m, const Lat &l, double lamP, double R, double delta) { std::vector<cd> o(m.size());
	for (size_t z = 0; z < l.nz; z++) for (size_t y = 0; y < l.n; y++) for (size_t x = 0; x < l.n; x++) { cd c = m[l.at(x, y, z)]; double g = 0, rho = 1; for (int k = 0; k < 6; k++) { int s = k & 1 ? -1 : 1; cd q = m[l.at((long) x + (k / 2 == 0) * s, (long) y + (k / 2 == 1) * s, (long) z + (k / 2 == 2) * s)]; double h = ((q - c) / c).imag(); g += h * h; }
		if (g > 1e-7) { double s = 2 * sqrt(lamP) * R * delta / sqrt(g), s2 = s * s, s4 = s2 * s2; rho = (0.43 * s + 0.164 * s2 + 0.036 * s4) / (1 + 0.39 * s + 0.2 * s2 + 0.036 * s4); } o[l.at(x, y, z)] = c * rho / std::abs(c); }
	m.swap(o); }
double KK[3];   // wave vector of the resonance mode
double wrapc(double d, double N) { if (d > N / 2) d -= N; return d; }
// phase of the explicit shapes
double shape(int v, long x, long y, long z, long n, long nz, const Ic &c, double L, double kz, double pert = 0) {
	double k2 = L * L / (2.0 * n * n * c.kcr * c.kcr), rad = (c.mode0 > 0 ? c.mode0 : 0.2501) * n * (1 + pert);
	auto loop = [&](double rho, double h2) { double a = (rho + rad) * (rho + rad) + h2, b = (rho - rad) * (rho - rad) + h2; return M_PI * (0.5 + (4 * rad * rad - a - b) / (4 * sqrt(a * b))); };
	double X = wrapc(x, n), Y = wrapc(y, n), Z = wrapc(z, nz), cx = x - n / 2, cy = y - n / 2;
	switch (v) {
	case 1: { double h = z - kz; if (h > nz / 2.) h -= nz; if (-h > nz / 2.) h += nz; return loop(sqrt(cx * cx + cy * cy), h * h) * (h - 0.01 > 0 ? 1 : -1); }
	case 2: return loop(sqrt(Z * Z + cy * cy), cx * cx) * (x > n / 2 ? -1 : 1);
	case 3: return c.mode0 * exp(-(X * X + Y * Y + Z * Z) * k2);
	case 4: return c.mode0 * exp(-(cx * cx + cy * cy + Z * Z) * k2);
	case 7: return c.mode0 * cos(2 * M_PI * (x * (double) c.kMax + y) / n);
	case 8: return c.mode0 * cos(2 * M_PI * (x * KK[0] + y * KK[1] + z * KK[2]) / n);
	case 9: return c.mode0 / ((X * X + Y * Y + Z * Z) * k2 + 1);
	case 10: { double t = 0, s = (double) n / c.kMax; for (int i = -c.kMax; i < c.kMax + 2; i++) for (int j = -c.kMax; j < c.kMax + 2; j++) t += ((i + j) % 2 ? -1 : 1) * atan2(y - (j + 0.5) * s, x - (i + 0.5) * s); return t; } }
	return 0;
}
// expected modulus of the field (0) or velocity (1) in a Fourier mode of squared wave number p2
double amp(int type, int part, double p2, double kc, int n, double m2, double k0, const std::vector<double> &tab) {
	double p = sqrt(p2), q = p / kc;
	switch (type) {
	case 0: return 1; case 1: return p ? sin(q) / q : 1; case 2: return part == 0 ? (p ? sin(q) / q : 1) : (p ? cos(q) - sin(q) / q : 0);
	case 4: return exp(-q); case 8: return exp(-q * q); case 16: return exp(-4 * kc * kc / n / n * q * q) / pow(q * q + 1, 1.5);
	case 2048: { int b = (int) p; return tab[b] + (tab[b + 1] - tab[b]) * (p - b); }
	case 4096: { double e = sqrt(p2 * k0 * k0 + m2), ne = sqrt(1 / expm1(e / kc)); return part == 0 ? (p2 ? ne / sqrt(e) : 0) : p2 ? ne * sqrt(e) : sqrt(kc); } }
	return 0;
}
void ep(Ep &e) {
	GridOpt o; o.wide = false; o.ngs = { 1, 2, 3 }; o.kinds = { 0 }; o.maxSites = 9000; o.ranks = { 1, 2, 4, 3, 2 }; Grid g = drawGrid(e, "g", o); if (g.n > 24) g.n = 16;
	enum { SHAPE, NOISE, KMAX, VILGOR, LOLA, TKACHEV, SPAX, THERMAL, COLE, SPSAX, STRING, RAW, NCASE }; int kase = e.pick("kind", { SHAPE, SHAPE, SHAPE, NOISE, NOISE, KMAX, VILGOR, LOLA, LOLA, TKACHEV, SPAX, THERMAL, COLE, SPSAX, SPSAX, STRING, RAW, RAW });
	if (kase >= KMAX) { while (g.n % g.nr) g.nr--; g.s.nranks = g.nr; } if (g.depth < g.ng) g.depth = g.ng; if (g.depth * g.nr < 2) g.depth = 2; int n = g.n, nz = g.depth * g.nr; double eps = g.prec ? 2.3e-16 : 1.2e-7; bool mink = kase != SPAX && kase != THERMAL && kase != RAW && kase != TKACHEV && kase != COLE && kase != SPSAX && e.coin("mink", 120), frwo = kase == SHAPE || kase == NOISE || kase == KMAX || kase == LOLA || kase == VILGOR || kase == SPSAX || kase == STRING; bool low = frwo && kase != SPSAX && kase != STRING && e.coin("lowmem", 120);
	double L = e.real("lsize", 2, 8), kcr = 1, zi = e.real("zi", 0.4, 1.6), md0 = e.real("mode0", 0.1, 2.9), kick = e.coin("kick", 200) ? e.real("kickv", -0.9, 0.9) : 0; int siter = 0, kMax = 2, sv = -1; bool core_ = e.coin("core", 500), useLogi = frwo && e.coin("logi", 300);
	Strs ph{ "--lsize", strf("%.9f", L), "--qcd", "4.0", "--msa", strf("%.3f", e.real("msa", 0.4, 1.4)), "--zf", "4.0", "--ind3", "1.3", "--lz2e", e.coin("lz2e", 300) ? "2.0" : "0.0" }; if (useLogi) ph += Strs{ "--logi", strf("%.6f", e.real("logiv", 1, 3)) }; else ph += Strs{ "--zi", strf("%.6f", zi) };
	if (mink) ph += "--mink"; else if (frwo && e.coin("frw", 250)) ph += Strs{ "--frw", strf("%.3f", e.real("frwv", 0.5, 2)) };
	if (low) ph += "--lowmem"; if (!core_) ph += "--nncore"; if (kick != 0) { ph += Strs{ "--kickalpha", strf("%.6f", kick) }; kick = atof(strf("%.6f", kick).c_str()); }
	static const char *svn[] = { "rand", "stXY", "stYZ", "mc0", "mc", "axnoise", "saxnoise", "ax1mode", "parres", "axiton", "stringwave" };
	bool setMode = false; const char *ct = "smooth"; std::vector<double> tm, tv; int type = 0; bool rnd = true;
	auto svar = [&](int v) { sv = v; if (v) ph += Strs{ "--smvar", svn[v] }; };
	switch (kase) {
	case SHAPE: { svar(e.pick("smvar", { 1, 2, 3, 4, 7, 8, 9, 10 })); siter = e.range("siter", 0, 4); setMode = true; kMax = sv == 10 ? 2 * e.range("k2", 1, 2) : e.range("kmax", 1, 3); kcr = sv == 1 ? e.range("zc", 0, nz - 1) : e.real("kcr", 0.1, 0.6); if (sv <= 2) { md0 = e.real("rad", 0.15, 0.45); if (e.coin("defrad", 300)) setMode = false; } if (setMode == false) md0 = 0; KK[0] = kMax; KK[1] = KK[2] = 0; if (sv == 8 && e.coin("kkk", 600)) { for (int k = 0; k < 3; k++) KK[k] = e.range(strf("kkk%d", k).c_str(), -2, 3); spew(e.path("kkk.dat"), strf("%g %g %g ", KK[0], KK[1], KK[2])); } break; }
	case NOISE: svar(e.pick("smvar", { 0, 0, 0, 5, 6 })); siter = e.range("siter", 0, 5); kcr = e.real("kcr", 0.05, 0.9); setMode = sv != 0; break;
	case KMAX: ct = "kmax"; kMax = e.range("kmax", 1, n); kcr = e.real("kcr", 0.5, 4); setMode = e.coin("setm", 400); type = 8; break;
	case VILGOR: ct = "vilgor"; siter = e.range("siter", 0, 2); kcr = e.real("kcr", 0.6, 1.8); setMode = e.coin("setm", 300); type = 8; break;
	case LOLA: ct = "lola"; siter = e.range("siter", 0, 2); kcr = e.real("kcr", 0.6, 1.8); kMax = e.coin("kspace", 500) ? 1 : 0; if (!kMax) svar(0); type = 8; break;
	case TKACHEV: ct = "tkachev"; kMax = e.range("kmax", 1, n / 2); kcr = e.real("kcr", 0.3, 2); setMode = e.coin("setm", 300); type = 2; break;
	case THERMAL: ct = "thermal"; kcr = e.real("kcr", 0.5, 4); setMode = e.coin("setm", 300); type = 4096; break;
	case COLE: ct = "cole"; kcr = e.real("kcr", 0.2, 2); setMode = e.coin("setm", 300); type = 16; break;
	case STRING: { ct = "string"; siter = e.range("siter", 0, 2); int np = e.range("np", 8, 30); double r = e.real("rad", 0.15, 0.4) * n, c[3]; for (int i = 0; i < 3; i++) c[i] = (i < 2 ? n / 2 : nz / 2) + e.real(strf("c%d", i), -2, 2); int pl = e.range("plane", 0, 2); std::string f = "# x y z end\n"; for (int i = 0; i <= np; i++) { double t = 2 * M_PI * (i == np ? 0 : i) / np, q[3] = { c[0], c[1], c[2] }; q[pl] += r * cos(t); q[(pl + 1) % 3] += r * sin(t); f += strf("%.9f %.9f %.9f %d\n", q[0], q[1], q[2], i == np); } spew(e.path("string.dat"), f); break; }
	case SPSAX: case SPAX: { ct = kase == SPSAX ? e.coin("alias", 500) ? "spsax" : "spax" : "spax"; if (kase == SPSAX) { siter = e.range("siter", 0, 1); kcr = e.real("kcr", 0.6, 1.8); kMax = e.coin("kspace", 500); } type = 2048; rnd = !e.coin("norand", 400); if (!rnd) ph += "--norandommom"; std::string f; for (int i = 0; i < 2 * n; i++) { tm.push_back(e.real("tab0", 0.5, 1.5) / (1 + i) * (1 + 0.3 * fillf::u(5, i, 1))); tv.push_back(e.real("tab1", 0.5, 1.5) / (1 + 0.2 * i)); f += strf("%s%.17g %.17g", i ? "\n" : "", tm.back(), tv.back()); } spew(e.path("initialspectrum.dat"), f); for (auto &k : g.a) if (k == "saxion") k = "axion"; break; }
	default: type = e.pick("type", { 0, 1, 2, 4, 8, 16, 2048, 4096 }); rnd = e.coin("rnd", 500); kMax = e.range("kmax", 1, n); kcr = e.real("kcr", 0.5, 4); setMode = e.coin("setm", 300); for (int i = 0; i < 2 * n; i++) tm.push_back(1. / (1 + i)); }
	g.a = gridArgs(g, g.nr, g.depth); if (kase == SPAX) for (auto &k : g.a) if (k == "saxion") k = "axion";
	ph += Strs{ "--ctype", ct, "--kmax", strf("%d", kMax), "--kcr", strf("%.6f", kcr), "--sIter", strf("%d", siter) }; kcr = atof(strf("%.6f", kcr).c_str()); if (setMode) { ph += Strs{ "--mode0", strf("%.6f", md0) }; md0 = atof(strf("%.6f", md0).c_str()); } if (e.coin("alpha", 300)) ph += Strs{ "--alpha", strf("%.4f", e.real("alphav", 0.05, 0.9)) };
	g.s.ip[31] = 1 + (int) (e.sub("rd") & 0x7ffffff); e.sample = strf("%s%s%s n=%d depth=%d ranks=%d threads=%d ng=%d prec=%d siter=%d core=%d mink=%d low=%d kick=%.3f", kase == RAW ? "raw" : ct, sv >= 0 ? "/" : "", sv >= 0 ? svn[sv] : "", n, g.depth, g.nr, g.thr, g.ng, g.prec, siter, core_, mink, low, kick);
	auto modes = [&](const JobOut &J, const char *name, int lx, std::vector<cd> &f) { std::vector<cd> t; e.check(gatherC(J, name, t) && t.size() == (size_t) n * nz * lx, "size", "%s holds %zu modes", name, t.size()); f.assign((size_t) lx * n * nz, 0); for (int y = 0; y < n; y++) for (int z = 0; z < nz; z++) for (int x = 0; x < lx; x++) f[x + (size_t) lx * (y + (size_t) n * z)] = t[x + (size_t) lx * (z + (size_t) nz * y)]; };
	auto mom2 = [&](int x, int y, int z) { double X = x > n / 2 ? x - n : x, Y = y > n / 2 ? y - n : y, Z = z > nz / 2 ? z - nz : z; return X * X + Y * Y + Z * Z; };
	int type0 = type; // the moduli of the modes, their independence, the zero mode
	auto checkModes = [&](const std::vector<cd> &f, int part, int lx, double kc, double m2, double k0, const std::vector<double> &tab, int kM, bool rn, int type = -1) { if (type < 0) type = type0;
		double cut = 3. * std::min(kM, n / 2 - 1) * std::min(kM, n / 2 - 1), s2 = 0; size_t N = 0; cd ph = 0; std::vector<double> args; int zp = type == 2 || type == 4096 ? 1 : 0; std::vector<double> mx;
		for (int z = 0; z < nz; z++) for (int y = 0; y < n; y++) for (int x = 0; x < lx; x++) { cd c = f[x + (size_t) lx * (y + (size_t) n * z)]; double p2 = mom2(x, y, z), a = p2 <= cut ? fabs(amp(type, part, p2, kc, n, m2, k0, tab)) : 0;
			if (p2 == 0 && part == zp && type != 2048) { if (setMode) { e.check(std::abs(c - std::polar(1., md0)) < 1e-6, "zero-mode", "the zero mode is %.6g%+.6gi instead of exp(%.6gi)", c.real(), c.imag(), md0); continue; } }
			if (part == 1 && type == 2 && p2 > cut) continue;   // (the velocity of modes beyond the cut is left as it was)
			if (p2 > cut && part == 1) continue;
			if (a < 1e-25) { e.check(std::abs(c) < 1e-20 || (p2 <= cut && std::abs(c) < 1e-6), "cut", "mode (%d,%d,%d) beyond the cut holds %.3g", x, y, z, std::abs(c)); continue; }
			double r = std::abs(c) / a, cond = type == 1 || type == 2 ? (1 + 30 * sqrt(p2) / kc / a) : 30; if (!(part == 1 && type == 4096) && !rn) e.check(fabs(r - 1) < eps * cond * (8 + p2 / kc / kc), "modulus", "mode (%d,%d,%d) part %d has modulus %.9g instead of %.9g", x, y, z, part, std::abs(c), a); if (cond > 1e3) continue; if (c != 0.) { s2 += r * r; N++; ph += c / std::abs(c); args.push_back(std::arg(c)); mx.push_back(r); } }
		if (N > 30) { double mean = s2 / N; if (rn || (part == 1 && type == 4096)) e.check(fabs(mean - 1) < 8 * sqrt(2. / N), "variance", "the squared moduli are on average %.4g times the documented ones (%zu modes)", mean, N); e.check(std::abs(ph) < 7 * sqrt((double) N), "phases", "the phases of %zu modes have mean %.3g", N, std::abs(ph) / N); std::sort(args.begin(), args.end()); size_t dup = 0; for (size_t i = 1; i < args.size(); i++) dup += args[i] - args[i - 1] < 1e-6 * eps / 1e-7; e.check(dup < 4 + N / 8, "repeated", "%zu of %zu modes have the phase of another mode", dup, N); } };
	if (kase == RAW) { int lx = type == 2048 ? n / 2 + 1 : n; double m2 = e.real("m2", 0.1, 5), k0 = e.real("k0", 0.3, 3); std::string tb; for (double t : tm) tb += strf("%s%.17g", tb.empty() ? "" : ",", t);
		Strs a = g.a; a += ph; a += Strs{ "@", "new", strf("momconf:f:%d:%d:%.17g:%d:%d:%.17g:%.17g:%s", type, kMax, kcr, rnd, type != 2048, m2, k0, tb.c_str()) }; JobOut J = e.run("a", "harn", "h_main", g.s, a); ENDED(e, J); std::vector<cd> f; modes(J, "f", lx, f); checkModes(f, 0, lx, kcr, m2, k0, tm, kMax, rnd); if (type == 2 || type == 4096) { modes(J, "f.v", lx, f); checkModes(f, 1, lx, kcr, m2, k0, tm, kMax, rnd); } e.count("raw"); return; }
	Strs a = g.a; a += ph; a += Strs{ "@", "genconf", "icdata:ic", "params:par", "dump:m:m", "dump:v:v", "ghosts:gh:0:1:1" }; a.pop_back(); JobOut J = e.run("a", "harn", "h_main", g.s, a); ENDED(e, J); Par p = Par::from(J); Ic c; e.check(getIc(J, c), "size", "no data"); Lat l{ p.n, p.nz }; size_t V = l.V(); double R = mink ? 1 : p.R, Rp = mink ? 0 : p.frw * R / p.z;
	e.check(fabs(p.z - c.zi) < 1e-14 * c.zi, "time", "the field starts at %.17g instead of %.17g", p.z, c.zi); if (setMode) c.mode0 = md0;
	if (kase == STRING) { Strs b = gridArgs(g, 1, nz); b += ph; b += Strs{ "@", "genconf", "dump:m:m", "dump:v:v" }; JobSpec s1 = g.s; s1.nranks = 1; JobOut K = e.run("b", "harn", "h_main", s1, b); ENDED(e, K); std::vector<cd> m[2], v[2]; gatherC(J, "m", m[0]); gatherC(J, "v", v[0]); gatherC(K, "m", m[1]); gatherC(K, "v", v[1]); double tl = g.prec ? 1e-10 : 2e-3; e.check(m[0].size() == V && m[1].size() == V && v[0].size() == V, "size", "the field has %zu sites", m[0].size()); e.check(maxDiff(m[0], m[1]) < tl * maxAbs(m[1]), "layout", "the field around the string differs by %.3g (largest %.3g) from that of a single rank", maxDiff(m[0], m[1]), maxAbs(m[1])); e.check(maxDiff(v[0], v[1]) < tl * maxAbs(v[1]) + 1e-9, "layout", "the velocity around the string differs by %.3g (largest %.3g) from that of a single rank", maxDiff(v[0], v[1]), maxAbs(v[1]));
		for (size_t i = 0; i < V; i++) { if (!core_) e.check(fabs(std::abs(m[0][i]) - R) < 20 * eps * R, "vacuum", "site %zu has modulus %.9g", i, std::abs(m[0][i])); e.check(std::abs(v[0][i] - (1 + kick) * Rp / R * m[0][i]) < 20 * eps * (R + Rp), "velocity", "site %zu has velocity %.9g%+.9gi for a field %.9g%+.9gi", i, v[0][i].real(), v[0][i].imag(), m[0][i].real(), m[0][i].imag()); } double w = 0; for (size_t i = 0; i < V; i++) w = std::max(w, std::abs(m[0][i] - m[0][0])); e.check(w > 0.2 * maxAbs(m[0]), "flat", "the phase around the string varies by %.3g only", w); e.count("string"); return; }
	// --- the same random numbers (or shapes), taken through the documented steps
	std::vector<cd> raw, rawv; Strs b = g.a; b += ph; JobOut K; double rr = 0; bool modesK = kase >= KMAX && !(kase == LOLA && !kMax); std::vector<cd> str; int lx = n, cutK = n; double kc = kcr, m2 = 0, k0 = 2 * M_PI / p.L; int niter = siter; double al = c.alpha;
	if (kase == SHAPE) { raw.resize(V); rawv.assign(V, 0); for (size_t z = 0; z < l.nz; z++) for (size_t y = 0; y < l.n; y++) for (size_t x = 0; x < l.n; x++) { double t = shape(sv, x, y, z, n, nz, c, p.L, kcr); if ((sv == 1 || sv == 2) && !g.prec) t = (float) t; raw[l.at(x, y, z)] = std::polar(sv == 8 ? kcr : 1, t); if (sv == 10) rawv[l.at(x, y, z)] = cd(0, c.mode0 * sin(2 * M_PI * kMax * x / n)) * raw[l.at(x, y, z)]; } }
	else {
		if ((kase == VILGOR || kase == LOLA) && siter == 2) b += Strs{ "@", "new", "rdraw:r" }; else b += Strs{ "@", "new" };
		double nN3 = 0; auto setKc = [&](double r) { double li = c.logi, xit = (249.48 + 38.8431 * li + 1086.06 * li * li) / (21775.3 + 3665.11 * li), f = siter == 1 ? kcr : siter == 2 ? pow(kcr, r) : 1; if (kase == VILGOR) { nN3 = 6 * xit * c.delta * c.delta / c.zi / c.zi; if (siter) nN3 = std::min(f * nN3, 1.0); } else nN3 = std::min(6 * xit * f * c.delta * c.delta / pow(c.zV, 2), 1.0); kc = n * sqrt((nN3 / 4.7) * pow(1 - pow(nN3, 1.5), -1 / 1.5)); niter = (int) (0.8 / nN3); };
		if (kase == VILGOR || kase == LOLA || kase == SPSAX) { if (siter == 2) { JobOut D = e.run("r", "harn", "h_main", g.s, b); ENDED(e, D); for (int q = 0; q < g.nr; q++) { const Obs *x = D.find("r", q); rr = x ? x->as<double>()[0] : 9; } } setKc(rr); e.check(kase == VILGOR ? true : nN3 > 0, "size", "?"); if (!(nN3 > 0) || !std::isfinite(kc) || nN3 > 0.999 || (kase != VILGOR && !kMax && niter > 200)) { e.count("skipped"); return; } al = kase != VILGOR ? 0.143 : al; }
		if (kase == TKACHEV) { kc = p.L / (6.283185307179586 * p.z); cutK = kMax; } if (kase == KMAX) cutK = kMax; if (kase == THERMAL) { double T2 = kcr * kcr; m2 = c.lamP * (T2 > 3 ? R * R * (T2 / 3 - 1) : 2 * R * R * (1 - T2 / 3)); } double kcs = kc; if (kase == COLE) kc = p.L / (6.283185307179586 * p.z * kcr); if (kase == SPAX || kase == SPSAX) { lx = n / 2 + 1; kc = 1; } bool half = lx != n;
		auto tabs = [&](const std::vector<double> &t) { std::string s; for (double x : t) s += strf("%s%.17g", s.empty() ? "" : ",", x); return s; };
		if (modesK) b += strf("momconf:f:%d:%d:%.17g:%d:%d:%.17g:%.17g:%s", type, cutK, kc, rnd, !half, m2, k0, tabs(tm).c_str()); else b += Strs{ "randconf", "dump:raw:m" };
		if (half) b += strf("momconf:g:%d:%d:1:%d:0:0:1:%s", type, cutK, rnd, tabs(tv).c_str()); if (kase == SPSAX) { if (kMax) b += strf("momconf:h:8:%d:%.17g:1:1:0:1:", n, kcs); else b += Strs{ "randconf", "dump:raw:m" }; }
		K = e.run("b", "harn", "h_main", g.s, b); ENDED(e, K);
		if (modesK) { modes(K, "f", lx, raw); checkModes(raw, 0, lx, kc, m2, k0, tm, cutK, rnd); if (half) { modes(K, "g", lx, rawv); checkModes(rawv, 0, lx, kc, m2, k0, tv, cutK, rnd); } else modes(K, "f.v", lx, rawv); if (kase == SPSAX) { if (kMax) { modes(K, "h", n, str); checkModes(str, 0, n, kcs, 0, 1, tm, n, true, 8); } else { gatherC(K, "raw", str); e.check(str.size() == V, "size", "raw field of %zu sites", str.size()); } } if (kase == TKACHEV || kase == THERMAL) checkModes(rawv, 1, lx, kc, m2, k0, tm, cutK, rnd); }
		else { gatherC(K, "raw", raw); e.check(raw.size() == V, "size", "raw field of %zu sites", raw.size()); std::vector<std::pair<double, double>> s; cd mean = 0; double q2 = 0;
			for (auto x : raw) { s.push_back({ x.real(), x.imag() }); mean += x; q2 += std::norm(x); if (sv == 0) e.check(fabs(x.real()) <= 1 && fabs(x.imag()) <= 1, "range", "random value %.9g%+.9gi", x.real(), x.imag()); if (sv == 5) { e.check(fabs(std::abs(x) - 1) < 8 * eps && std::abs(std::arg(x * std::polar(1., -md0))) <= kcr + 8 * eps, "range", "noise value %.9g%+.9gi around phase %.6g", x.real(), x.imag(), md0); } if (sv == 6) e.check(fabs(std::abs(x) - 1) <= kcr + 8 * eps && fabs(std::arg(x * std::polar(1., -md0))) < 8 * eps, "range", "noise value %.9g%+.9gi around phase %.6g", x.real(), x.imag(), md0); }
			std::sort(s.begin(), s.end()); size_t dup = 0; for (size_t i = 1; i < V; i++) dup += s[i] == s[i - 1]; e.check(dup < 4 + V / 8, "repeated", "%zu of %zu sites hold the numbers of another site", dup, V); mean /= V; q2 /= V;
			if (sv == 0) { e.check(std::abs(mean) < 8 * sqrt(2. / 3 / V) && fabs(q2 - 2. / 3) < 8 * sqrt(0.18 / V), "variance", "random numbers with mean %.4g and variance %.4g", std::abs(mean), q2); } } }
	// --- through the documented steps, twice to see how the rounding of the input is amplified
	std::vector<cd> M[2], W[2]; std::vector<double> X[2], Y[2];
	for (int k = 0; k < 2; k++) { std::vector<cd> m = raw, v = rawv; if (kase == SHAPE && sv <= 2 && k) for (size_t z = 0; z < l.nz; z++) for (size_t y = 0; y < l.n; y++) for (size_t x = 0; x < l.n; x++) m[l.at(x, y, z)] = std::polar(1., shape(sv, x, y, z, n, nz, c, p.L, kcr, g.prec ? 1e-9 : 3 * eps)); double mx = maxAbs(m), vx = maxAbs(v); if (k) for (size_t i = 0; i < m.size(); i++) m[i] += 2 * eps * mx * cd(fillf::u(3, i, 1), fillf::u(3, i, 2)); if (k) for (size_t i = 0; i < v.size(); i++) v[i] += 2 * eps * vx * cd(fillf::u(3, i, 5), fillf::u(3, i, 6));
		auto idft = [&](std::vector<cd> &f) { if (lx == n) { dft3(f, n, nz, 1); return; } std::vector<cd> t(V, 0); for (int z = 0; z < nz; z++) for (int y = 0; y < n; y++) for (int x = 0; x < lx; x++) t[l.at(x, y, z)] = f[x + (size_t) lx * (y + (size_t) n * z)] * (x == 0 || x == n / 2 ? 1. : 2.); dft3(t, n, nz, 1); for (auto &x : t) x = x.real(); f = t; };
		if (modesK) { idft(m); if (lx != n || kase == TKACHEV || kase == THERMAL) idft(v); }
		if (kase == SPAX) { for (auto x : m) X[k].push_back(x.real()); for (auto x : v) Y[k].push_back(x.real()); continue; }
		if (kase == SPSAX) { std::vector<cd> q = str; double sx = maxAbs(q); if (k) for (size_t i = 0; i < q.size(); i++) q[i] += 2 * eps * sx * cd(fillf::u(3, i, 7), fillf::u(3, i, 8)); if (kMax) dft3(q, n, nz, 1); else smooth(q, l, niter, g.prec ? al : (float) al); norm(q); if (core_) core(q, l, c.lamP, p.R, c.delta); W[k].resize(V); for (size_t i = 0; i < V; i++) { double th = m[i].real() / R, tp = v[i].real() / R - th * Rp / R; q[i] *= std::polar(R, th); W[k][i] = cd(Rp / R, tp) * q[i]; } M[k] = q; continue; }
		if (kase == COLE) { double mn = 0; for (auto x : m) mn += std::abs(x); mn /= V; for (auto &x : m) x /= mn; if (core_) core(m, l, c.lamP, p.R, c.delta); v = m; for (auto &x : v) x *= 1 + kick; for (auto &x : m) x *= R; M[k] = m; W[k] = v; continue; }
		if (kase == THERMAL) { double f = 1 / pow(p.L, 1.5); for (auto &x : m) x *= f; for (auto &x : v) x *= f; M[k] = m; W[k] = v; continue; }
		if (kase == TKACHEV) { double t2 = 0; for (auto x : m) t2 += x.real() * x.real(); t2 /= V; double f = M_PI / sqrt(3 * t2 / kcr); W[k].resize(V); M[k].resize(V); for (size_t i = 0; i < V; i++) { M[k][i] = std::polar(R, m[i].real() * f); W[k][i] = M[k][i] * cd(Rp / R, v[i].real() * f / p.z); } continue; }
		if (v.size() != V || modesK) v.assign(V, 0);
		if (!modesK) smooth(m, l, niter, g.prec ? al : (float) al);
		bool nocore = !core_ || (mink && (kase == VILGOR || kase == LOLA)); if (sv != 6 && sv != 8) norm(m); if (!nocore) core(m, l, c.lamP, p.R, c.delta);
		double kk = kase == KMAX ? 1 : 1 + kick; bool velo = !(mink && kase >= KMAX); if (velo) for (size_t i = 0; i < V; i++) v[i] = ((mink ? 1 : R) * v[i] + Rp * m[i]) * kk; for (auto &x : m) x *= R; M[k] = m; W[k] = v; }
	double tol = g.prec ? kase == SHAPE ? 1e-6 : 1e-12 : kase == SHAPE && (sv == 1 || sv == 2) ? 1e-3 : 2e-5; if (kase == SPAX) { std::vector<double> gm, gv; gatherD(J, "m", gm); gatherD(J, "v", gv); e.check(gm.size() == V && gv.size() == V, "type", "the field is not an axion field"); e.check(maxDiff(gm, X[0]) < tol * maxAbs(X[0]) * 4, "field", "the field differs from that of the modes by %.3g (largest %.3g)", maxDiff(gm, X[0]), maxAbs(X[0])); e.check(maxDiff(gv, Y[0]) < tol * 4 * maxAbs(Y[0]), "velocity", "the velocity differs from that of the modes by %.3g (largest %.3g)", maxDiff(gv, Y[0]), maxAbs(Y[0])); e.count("spax"); return; }
	std::vector<cd> gm, gv; gatherC(J, "m", gm); gatherC(J, "v", gv); e.check(gm.size() == V && gv.size() == V, "type", "the field has %zu sites", gm.size()); double am = maxAbs(M[0]), av = maxAbs(W[0]); size_t bad = 0;
	// loops: the formula jumps where a site is exactly on a symmetry plane
	for (size_t i = 0; i < V; i++) { double dm = std::abs(M[0][i] - M[1][i]), dv = std::abs(W[0][i] - W[1][i]); if (dm > 0.02 * am || !(dm == dm)) { bad++; continue; } bool okm = std::abs(gm[i] - M[0][i]) < tol * am + 100 * dm, okv = std::abs(gv[i] - W[0][i]) < tol * (av + 1e-3 * am) + 100 * dv; size_t x = i % n, y = i / n % n, z = i / n / n;
		if (!okm && !g.prec && kase == SHAPE && (sv == 1 || sv == 2)) { bad++; continue; }   // (smoothing cancels the field on the core of the string)
		e.check(okm, "field", "site (%zu,%zu,%zu) starts as %.9g%+.9gi, not %.9g%+.9gi", x, y, z, gm[i].real(), gm[i].imag(), M[0][i].real(), M[0][i].imag()); e.check(okv, "velocity", "site (%zu,%zu,%zu) starts with velocity %.9g%+.9gi, not %.9g%+.9gi", x, y, z, gv[i].real(), gv[i].imag(), W[0][i].real(), W[0][i].imag()); }
	e.check(bad < 4 + V / 10, "skipped", "%zu of %zu sites could not be compared", bad, V); e.count(kase == SHAPE ? svn[sv] : ct);
}
Reg r({ "C22", "initial conditions", { "harn" }, ep, 2400, 30000, "distinct (kind of initial condition, lattice, layout, random numbers, schedule)", { "configuration generator", "random modes", "random fields", "smoothing", "string cores", "FFTW" }, { "MPI (simulated)", "OpenMP runtime (simulated)", "random_device (seeded)" }, {} });
}
