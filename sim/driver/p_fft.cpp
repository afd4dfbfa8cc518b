// C17: every transform plan computes the discrete Fourier transform of the field spread over the ranks, and the way back undoes it.
#include "cfg.h"
#include "h5.h"
namespace {
struct Plan { int type; const char *in, *lin, *out, *lout, *back; bool cplx; };        // back: where the inverse leaves the field
const Plan plans[] = {
	{ 1, "ms", "c", "ms", "t", "ms", true }, { 2, "m2", "c", "m2", "t", "m2", true }, { 3, "ms", "c", "m2", "c", "ms", true }, { 4, "v", "c", "m2", "c", "v", true }, { 5, "ms", "c", "m2", "t", "m2", true },
	{ 9, "ms", "c", "m2", "t", "m2", true }, { 10, "v", "c", "m2", "t", "m2", true }, { 15, "v", "c", "v", "t", "v", true }, { 16, "m2", "c", "ms", "t", "m2", true },
	{ 6, "m2", "p", "m2", "h", "m2", false }, { 8, "m2", "p", "m2", "h", "m2", false }, { 11, "m2h", "p", "m2h", "h", "m2h", false }, { 12, "mc", "p", "mc", "h", "mc", false }, { 13, "v", "p", "v", "h", "v", false },
	{ 14, "m2", "p", "m2", "h", "m2", false }, { 17, "m2", "p", "mc", "h", "m2", false }, { 18, "m2", "p", "v", "h", "m2", false }, { 19, "m2s", "p", "m2s", "h", "m2s", false } };
struct Step { const Plan *p; uint64_t seed; size_t red; int k; bool fwd, back; const char *keep; uint64_t kseed; };
void ep(Ep &e) {
	GridOpt o; o.kinds = { 0, 1 }; o.maxSites = 14000; o.even = true; Grid g = drawGrid(e, "a", o); if (g.n % g.nr) { e.count("odd"); return; } int NZ = g.nz();
	bool fits = g.depth <= g.n, fs = fits && e.coin("fspec", 400), sax = g.kind == 0; Strs a = g.a; a += Strs{ "--lsize", "4.0", "--zi", "0.9", "--zf", "2.0", "--msa", "1.0" }; if (fs) { auto l = std::find(a.begin(), a.end(), "--lap"); if (l != a.end()) a.erase(l, l + 2); a += std::string("--fspec"); } mkdirs(e.path("out/m")); a += Strs{ "@", "new" };
	auto lab = [&](const char *k, int i) { return strf("%s%d", k, i); };
	// a history of transforms with plans made and used in any order
	int nst = 1 + e.pick("steps", { 1, 0, 2, 3 }); std::vector<Step> st; std::vector<std::string> made; bool early = e.coin("early", 500);
	for (int i = 0; i < nst; i++) {
		Step s; std::vector<const Plan*> ok; for (auto &p : plans) if ((sax || !p.cplx || p.type == 2) && (sax ? p.type != 11 || fits : fits || (p.type != 11 && strcmp(p.in, "mc") && strcmp(p.in, "v") && strcmp(p.out, "mc") && strcmp(p.out, "v")))) ok.push_back(&p);
		s.p = ok[e.range(strf("type%d", i), 0, ok.size() - 1)]; s.seed = e.sub(strf("f%d", i)); s.red = 1; s.k = i; s.keep = nullptr; s.kseed = e.sub(strf("k%d", i));
		if (s.p->type == 8 && e.coin(strf("red%d", i), 400) && g.n % (4 * g.nr) == 0 && NZ % (2 * g.nr) == 0) s.red = 2;
		for (const char *w : { "ms", "v" }) if (strcmp(w, s.p->in) && strcmp(w, s.p->out) && strcmp(w, s.p->back) && !(w[0] == 'm' && !strcmp(s.p->in, "mc"))) s.keep = w;       // an array the transform has nothing to do with
		if (!strcmp(s.p->out, "mc")) s.keep = nullptr;
		s.fwd = true; s.back = e.coin(strf("back%d", i), 700); st.push_back(s);
	}
	auto name = [&](const Step &s) { return strf("P%d_%zu", s.p->type, s.red); };
	auto make = [&](const Step &s) { auto nm = name(s); if (std::find(made.begin(), made.end(), nm) != made.end()) return; made.push_back(nm); bool two = e.coin("two" + nm, 300);
		if (two) { a += strf("fftplan:%sB:%d:2:%zu", nm.c_str(), s.p->type, s.red); a += strf("fftplan:%s:%d:1:%zu", nm.c_str(), s.p->type, s.red); made.push_back(nm + "B"); } else a += strf("fftplan:%s:%d:3:%zu", nm.c_str(), s.p->type, s.red); };
	if (early) for (auto &s : st) make(s);
	for (auto &s : st) {
		make(s); auto nm = name(s); bool two = std::find(made.begin(), made.end(), nm + "B") != made.end();
		a += strf("fput:%s:%s:%llu:%zu", s.p->in, s.p->lin, (unsigned long long) s.seed, s.red); if (s.keep) a += strf("fput:%s:%s:%llu", s.keep, sax ? "c" : "r", (unsigned long long) s.kseed);
		a += strf("fftrun:%s:1", nm.c_str()); a += strf("fget:F%d:%s:%s:%zu", s.k, s.p->out, s.p->lout, s.red);
		if (s.back) { a += strf("fftrun:%s%s:2", nm.c_str(), two ? "B" : ""); a += strf("fget:B%d:%s:%s:%zu", s.k, s.p->back, s.p->lin, s.red); }
		if (s.keep) a += strf("fget:K%d:%s:%s", s.k, s.keep, sax ? "c" : "r");
	}
	// the field itself to Fourier space and back
	uint64_t ff = e.sub("field"); int which = 0; bool folded = false, again = false, conf = false; const char *fk = sax ? "sxrand" : "axrand";
	if (fs) {
		which = e.pick("which", { 3, 1, 2 }); folded = e.coin("folded", 500); again = e.coin("again", 300); conf = e.coin("conf", 300);
		a += strf("fill:%s:%llu:1", fk, (unsigned long long) ff); a += "params:par"; if (folded) a += "fold"; a += strf("ftfield:%d:1", which); if (again) a += strf("ftfield:%d:1", which);
		if (which & 1) a += strf("fget:FM:%s:%s", sax ? "ms" : "mc", sax ? "t" : "h"); if (which & 2) a += strf("fget:FV:v:%s", sax ? "t" : "h");
		if (conf && which == 3) a += "wconf:0:0"; else a += strf("ftfield:%d:2", which);
		a += Strs{ "isfolded:fold", "dump:m:m", "dump:v:v" };
	}
	JobOut J = e.run("j", "harn", "h_main", g.s, a); e.sample = strf("kind=%d n=%d depth=%d ranks=%d threads=%d prec=%d fspec=%d", g.kind, g.n, g.depth, g.nr, g.thr, g.prec, fs); for (auto &s : st) e.sample += " " + name(s); ENDED(e, J);
	double eps = g.prec ? 2e-13 : 1e-5; size_t n = g.n; auto rnd = [&](double x) { return g.prec ? x : (double) (float) x; };
	auto get = [&](const std::string &nm, size_t want) { std::vector<double> v; e.check(gatherD(J, nm.c_str(), v), "dump", "incomplete dump %s", nm.c_str()); e.check(v.size() == want, "dump", "dump %s has %zu values instead of %zu", nm.c_str(), v.size(), want); return v; };
	for (auto &s : st) {
		size_t m = n / s.red, mz = NZ / s.red, N = m * m * mz; std::vector<cd> f(N); e.count(strf("plan%d", s.p->type));
		for (size_t i = 0; i < N; i++) f[i] = s.p->cplx ? cd(rnd(fillf::u(s.seed, 2 * i, 3)), rnd(fillf::u(s.seed, 2 * i + 1, 3))) : cd(rnd(fillf::u(s.seed, i, 3)), 0);
		auto F = f; dft3(F, m, mz, -1); size_t X = s.p->cplx ? m : m / 2 + 1; double tol = eps * sqrt(N), w = 0;
		auto v = get(strf("F%d", s.k), 2 * X * m * mz);
		for (size_t z = 0; z < mz; z++) for (size_t y = 0; y < m; y++) for (size_t x = 0; x < X; x++) { size_t i = s.p->lout[0] == 'c' ? x + X * (y + m * z) : x + X * (z + mz * y); cd c(v[2 * i], v[2 * i + 1]), r = F[x + m * (y + m * z)]; w = std::abs(c - r);
			e.check(w <= tol, "forward", "transform %d (%s): mode (%zu,%zu,%zu) of %zux%zux%zu over %d ranks is %.9g%+.9gi instead of %.9g%+.9gi", s.k, name(s).c_str(), x, y, z, m, m, mz, g.nr, c.real(), c.imag(), r.real(), r.imag()); }
		if (s.back) { auto b = get(strf("B%d", s.k), (s.p->cplx ? 2 : 1) * N);
			for (size_t i = 0; i < N; i++) { cd c = s.p->cplx ? cd(b[2 * i], b[2 * i + 1]) : cd(b[i], 0); e.check(std::abs(c - f[i] * (double) N) <= eps * N, "inverse", "transform %d (%s): after the way back site %zu of %zux%zux%zu over %d ranks holds %.9g%+.9gi instead of %.9g%+.9gi", s.k, name(s).c_str(), i, m, m, mz, g.nr, c.real(), c.imag(), f[i].real() * N, f[i].imag() * N); } }
		if (s.keep) { size_t c = sax ? 2 : 1; auto b = get(strf("K%d", s.k), c * n * n * NZ); for (size_t i = 0; i < b.size(); i++) e.check(b[i] == rnd(fillf::u(s.kseed, i, 3)), "bystander", "transform %d (%s) changed the array %s, which is not part of it, at element %zu", s.k, name(s).c_str(), s.keep, i); }
	}
	if (!fs) return;
	Par p = Par::from(J); size_t N = n * n * NZ; e.count("field");
	for (int q = 0; q < 2; q++) {
		std::vector<cd> f; const char *nm = q ? "v" : "m";
		if (sax) { std::vector<cd> got; f = fillSx(fillf::kindOf(fk), ff, q, p, p.R, 1); roundTo(f, g.prec ? 8 : 4); e.check(gatherC(J, nm, got) && got.size() == N, "dump", "incomplete dump"); size_t w = 0; double d = maxDiff(f, got, &w); e.check(d <= (which & (1 << q) ? eps * maxAbs(f) * 4 : 0), "field", "%s is not the same after a trip to Fourier space and back: site %zu is %.9g%+.9gi instead of %.9g%+.9gi", nm, w, got[w].real(), got[w].imag(), f[w].real(), f[w].imag()); }
		else { std::vector<double> x = fillAx(fillf::kindOf(fk), ff, q, p, p.R, 1), got; roundTo(x, g.prec ? 8 : 4); e.check(gatherD(J, nm, got) && got.size() == N, "dump", "incomplete dump"); size_t w = 0; double d = maxDiff(x, got, &w); e.check(d <= (which & (1 << q) ? eps * maxAbs(x) * 4 : 0), "field", "%s is not the same after a trip to Fourier space and back: site %zu is %.9g instead of %.9g", nm, w, got[w], x[w]); f.assign(x.begin(), x.end()); }
		if (!(which & (1 << q))) continue;
		dft3(f, n, NZ, -1); size_t X = sax ? n : n / 2 + 1; auto v = get(q ? "FV" : "FM", 2 * X * n * NZ); double sc = 0; for (auto &x : f) sc = std::max(sc, std::abs(x) / N);
		for (size_t z = 0; z < (size_t) NZ; z++) for (size_t y = 0; y < n; y++) for (size_t x = 0; x < X; x++) { size_t i = x + X * (z + NZ * y); cd c(v[2 * i], v[2 * i + 1]), r = f[x + n * (y + n * z)] / (double) N;
			e.check(std::abs(c - r) <= 10 * eps * sc, "fieldmode", "%s in Fourier space: mode (%zu,%zu,%zu) of %zux%zux%d over %d ranks is %.9g%+.9gi instead of %.9g%+.9gi", nm, x, y, z, n, n, NZ, g.nr, c.real(), c.imag(), r.real(), r.imag()); }
	}
	if (conf && which == 3) {
		auto hs = h5read(e, "h", { "out/m/axion.00000" }); e.check(hs.size() == 1 && hs[0].readable, "conf", "the configuration written from Fourier space is not readable"); auto m = hs[0].get("/m"); e.check(m != nullptr, "conf", "no field in the file"); auto d = m->d(); std::vector<double> x; if (sax) { for (auto &c : fillSx(fillf::kindOf(fk), ff, 0, p, p.R, 1)) { x.push_back(c.real()); x.push_back(c.imag()); } } else x = fillAx(fillf::kindOf(fk), ff, 0, p, p.R, 1);
		e.check(m->n() == x.size(), "conf", "the file holds %zu values instead of %zu", (size_t) m->n(), x.size()); double sc = 0; for (double y : x) sc = std::max(sc, std::abs(y)); for (size_t i = 0; i < x.size(); i++) e.check(std::abs(d[i] - x[i]) <= 5 * eps * sc, "conf", "value %zu of the file written from Fourier space is %.9g instead of %.9g", i, d[i], x[i]);
	}
}
Reg r({ "C17", "Fourier transforms", { "harn" }, ep, 500, 5000, "distinct (kind of field, lattice, layout, sequence of plans, trips of the field, schedule)", { "FFT plans", "field transforms", "scaling", "FFTW", "configuration writer" }, { "MPI (simulated)", "OpenMP runtime (simulated)" }, {} });
}
