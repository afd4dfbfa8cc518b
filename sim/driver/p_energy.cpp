// C13: the reported energies are box averages of the documented densities, for the whole box and for the masked part; the maps hold the densities.
#include "cfg.h"
static const char *nm[] = { "axion gradient x", "axion gradient y", "axion gradient z", "axion kinetic", "axion potential", "saxion gradient x", "saxion gradient y", "saxion gradient z", "saxion kinetic", "saxion potential", "modulus" };
static void ep(Ep &e) {
	GridOpt o; o.wide = false; o.minN = 8; Grid g = drawGrid(e, "g", o); if (g.n / g.shift < 2 && !e.coin("narrow", 60)) g.n = 2 * g.shift, g.a = gridArgs(g, g.nr, g.depth); int n = g.n;
	double L = e.real("lsize", 2, 8); auto a = g.a; a += strf("--lsize"); a += strf("%.9f", L); a += physArgs(e, n * n / (L * L));
	int pot = g.kind ? 0 : e.pick("pot", { 0, 1, 2, 3 }), pq = g.kind ? 1 : e.pick("pq", { 1, 2 }); if (pot == 1) a += "--vqcdV"; if (pot == 2) a += "--N2"; if (pot == 3) a += "--vqcd0"; if (pot == 0 && e.coin("vC", 500)) a += "--vqcdC"; if (pq == 2) a += "--vPQ2";
	const char *fk = g.kind == 0 ? (e.coin("rough", 600) ? "sxrand" : "sxsmooth") : (e.coin("rough", 600) ? (g.kind == 2 ? "axjump" : "axrand") : "axsmooth"); double amp = g.kind == 0 ? 1 : e.real("amp", 0.3, 1.2), shift = g.kind == 0 && e.coin("shift", 400) ? e.real("shiftv", 0.01, 0.3) : 0;
	int mask = g.kind == 0 && e.coin("mask", 500); int perm = mask ? e.pick("maskdensity", { 300, 20, 900, 1 }) : 0;
	int type = e.pick("type", mask ? std::vector<int64_t>{ 5, 4, 6, 7, 3 } : std::vector<int64_t>{ 3, 1 }); bool map = type & 2, tot = type & 1, msk = type & 4;
	a += Strs{ "@", "new", strf("fill:%s:%llu:%.17g", fk, (unsigned long long) e.sub("fill"), amp), "params:par", "dump:m:m", "dump:v:v", "poison" }; if (mask) a += strf("setmask:%llu:%d", (unsigned long long) e.sub("mask"), perm);
	if (e.coin("folded", 500)) a += "fold"; int rep = e.pick("repeat", { 1, 2 }); for (int i = 0; i < rep; i++) a += strf("energy:e:%d:%.17g", type, shift);
	if (map) { a += "dump:map:m2r"; if (g.kind == 0) a += "dump:rho:m2rho"; } a += Strs{ "unfold", "dump:m1:m", "dump:v1:v" };
	JobOut J = e.run("e", "harn", "h_main", g.s, a); ENDED(e, J); Par p = Par::from(J); Lat l{ p.n, p.nz }; size_t V = l.V(); double tol = g.prec ? 1e-10 : 2e-5, R = p.R, d = p.delta(), o2 = 0.25 / (d * d);
	e.sample = strf("%s n=%d depth=%d ranks=%d threads=%d ng=%d prec=%d %s pot=%d/%d type=%d mask=%d", g.ftype(), n, g.depth, g.nr, g.thr, g.ng, g.prec, fk, pot, pq, type, perm);
	auto *E = J.find("e", 0); e.check(E && E->count() == 23, "harness", "no energies"); for (int r = 1; r < g.nr; r++) { auto *x = J.find("e", r); int k = g.kind ? 5 : msk ? 23 : 11; e.check(x && !memcmp(x->data.data(), E->data.data(), 8 * k), "ranks", "ranks 0 and %d report different energies", r); }
	double mA = p.axm2(p.z); std::vector<std::array<double, 11>> T(V); std::vector<double> mp, rh; if (map) { gatherD(J, "map", mp); if (g.kind == 0) gatherD(J, "rho", rh); }
	int NC = g.kind ? 5 : 11; const char *sfx = n / g.shift < 2 ? "-narrow" : "";   // one row per vector lane is a known finding
	if (g.kind == 0) { std::vector<cd> m, v, m1, v1; gatherC(J, "m", m); gatherC(J, "v", v); gatherC(J, "m1", m1); gatherC(J, "v1", v1); e.check(m == m1 && v == v1, "state", "measuring the energy changed the field"); double rp = p.rp(p.z), lam = p.lam(p.z);
		for (size_t z = 0; z < p.nz; z++) for (size_t y = 0; y < p.n; y++) for (size_t x = 0; x < p.n; x++) { size_t i = l.at(x, y, z); cd M = m[i], c = std::conj(M) / std::norm(M); double mod = std::norm(M) / (R * R); auto &t = T[i];
			for (int k = 0; k < 3; k++) { size_t ip = l.at(x + (k == 0), y + (k == 1), z + (k == 2)), im = l.at((long) x - (k == 0), (long) y - (k == 1), (long) z - (k == 2)); cd f = (m[ip] - M) * c, b = (M - m[im]) * c; t[5 + k] = mod * (f.real() * f.real() + b.real() * b.real()) * o2 / (R * R); t[k] = mod * (f.imag() * f.imag() + b.imag() * b.imag()) * o2 / (R * R); }
			cd k = v[i] * c - rp; t[8] = 0.5 * mod * k.real() * k.real() / (R * R); t[3] = 0.5 * mod * k.imag() * k.imag() / (R * R);
			cd S = M - shift; double q = std::norm(S) / (R * R); t[10] = sqrt(q); double h = pq == 1 ? q - 1 : q * q - 1; t[9] = 0.25 * lam * h * h;
			double w = pot == 0 ? 1 - S.real() / std::abs(S) : pot == 1 ? 0.5 * std::norm(1. - S / R) : pot == 2 ? 0.5 * (1 - S.real() * S.real() / std::norm(S)) : 0; t[4] = mA * w; } }
	else { std::vector<double> m, v, m1, v1; gatherD(J, "m", m); gatherD(J, "v", v); gatherD(J, "m1", m1); gatherD(J, "v1", v1); e.check(m == m1 && v == v1, "state", "measuring the energy changed the field"); double d1 = p.frw * R / p.z, R4 = R * R * R * R; if (p.mink) d1 = 0;
		for (size_t z = 0; z < p.nz; z++) for (size_t y = 0; y < p.n; y++) for (size_t x = 0; x < p.n; x++) { size_t i = l.at(x, y, z); auto &t = T[i]; auto df = [&](long dx, long dy, long dz) { double q = m[l.at(x + dx, y + dy, z + dz)] - m[i]; if (g.kind == 2) { double w = 2 * M_PI * R; q -= w * std::round(q / w); } return q * q; };
			t[0] = (df(1, 0, 0) + df(-1, 0, 0)) * o2 / R4; t[1] = (df(0, 1, 0) + df(0, -1, 0)) * o2 / R4; t[2] = (df(0, 0, 1) + df(0, 0, -1)) * o2 / R4; double k = v[i] - d1 * m[i] / R; t[3] = 0.5 * k * k / R4; double s = sin(0.5 * m[i] / R); t[4] = mA * 2 * s * s; } }
	// masks
	std::vector<char> in(V, 0); size_t nm_ = 0; if (mask) for (size_t i = 0; i < V; i++) { in[i] = (long) (hash3(e.sub("mask"), i, 77) % 1000) < perm; nm_ += in[i]; }
	const double *ev = E->as<double>(); double mx[11] = {};  for (auto &t : T) for (int c = 0; c < NC; c++) mx[c] = std::max(mx[c], std::abs(t[c]));
	if (pot == 0 || g.kind) mx[4] = std::max(mx[4], mA); if (pot == 1) mx[4] = std::max(mx[4], mA); mx[9] = std::max(mx[9], 0.02 * p.lam(p.z)); for (int c = 0; c < NC; c++) if (c != 4 && c < 9) mx[c] = std::max(mx[c], 1e-7 * o2 / (R * R));
	for (int c = 0; c < NC; c++) { double s = 0, k = 0; for (size_t i = 0; i < V; i++) { s += T[i][c]; if (in[i]) k += T[i][c]; }
		if (tot) { double w = s / V; e.check(std::abs(ev[c] - w) <= tol * std::max(std::abs(w), mx[c]), strf("energy%s", sfx).c_str(), "%s energy %.10g, the average over the box is %.10g", nm[c], ev[c], w); }
		if (msk && nm_) { double w = k / nm_; e.check(std::abs(ev[11 + c] - w) <= tol * std::max(std::abs(w), mx[c]), "masked", "masked %s energy %.10g, the average over the %zu masked sites is %.10g", nm[c], ev[11 + c], nm_, w); } }
	if (msk) e.check(ev[22] == (double) nm_, "masked", "%.0f sites counted in the mask, there are %zu", ev[22], nm_);
	if (map) for (size_t i = 0; i < V; i++) { double th = 0, r = 0, st = 0, sr = 0; for (int c = 0; c < 5; c++) { th += T[i][c]; st += mx[c]; } if (g.kind == 0) for (int c = 5; c < 10; c++) { r += T[i][c]; sr += mx[c]; } if (type == 6 && !in[i]) th = r = 0;
		e.check(std::abs(mp[i] - th) <= tol * st, strf("map%s", sfx).c_str(), "the map of the axion energy holds %.10g at site %zu, the density is %.10g", mp[i], i, th); if (g.kind == 0) e.check(std::abs(rh[i] - r) <= tol * sr, "map", "the map of the saxion energy holds %.10g at site %zu, the density is %.10g", rh[i], i, r); }
	e.count(strf("type_%d", type)); e.count("sites", V); if (!g.prec && 0) (void) tol;
}
static Reg r({ "C13", "energies are box averages of the documented densities", { "harn" }, ep, 3000, 15000, "distinct (field, lattice, layout, potential, mask, kind of request, schedule)", { "energy kernels", "halo exchange", "layout conversion" }, { "MPI (simulated)", "OpenMP runtime (simulated)" }, {} });
