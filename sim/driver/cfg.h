// Draws of lattice configurations shared by the harness based properties.
#pragma once
#include "ref.h"
struct Grid { int kind = 0, prec = 0, nr = 1, thr = 1, n = 16, depth = 8, ng = 1, shift = 4; std::vector<std::string> a; JobSpec s;
	int nz() const { return depth * nr; }
	const char *ftype() const { return kind == 0 ? "saxion" : kind == 1 ? "axion" : kind == 2 ? "axionmod" : "Paxion"; } };
struct GridOpt { std::vector<int64_t> kinds = { 0, 1, 2 }, ranks = { 1, 2, 4, 3 }, ngs = { 1, 2, 3, 4, 5 }, precs = { 0, 1 }; bool wide = true; int maxSites = 60000; int minN = 8; bool cube = false; bool even = false; int maxDepth = 16; };
inline std::vector<std::string> gridArgs(const Grid &g, int nr, int depth) {
	return { "--size", strf("%d", g.n), "--depth", strf("%d", depth), "--zgrid", strf("%d", nr), "--prec", g.prec ? "double" : "single", "--device", "cpu", "--prop", "rkn4", "--lap", strf("%d", g.ng), "--nologmpi", "--ftype", g.ftype() };
}
// wide: lattices on which the propagator kernels are exact (at least 2 Ng rows per lane and 2 Ng slices per rank)
inline Grid drawGrid(Ep &e, const std::string &label, const GridOpt &o = GridOpt()) {
	Grid g; g.kind = e.pick("field", o.kinds); g.prec = e.pick("prec", o.precs); g.nr = e.pick("nranks", o.ranks); g.ng = e.pick("ng", o.ngs);
	g.shift = g.kind ? (g.prec ? 4 : 8) : (g.prec ? 2 : 4);
	std::vector<int64_t> ns, dep;
	for (int k : { 8, 16, 24, 32, 40, 48, 64, 80 }) if (k >= o.minN && k % g.shift == 0 && (!o.wide || k / g.shift >= 2 * g.ng) && ns.size() < 3 && (ns.empty() || k * k * 2 * g.ng * g.nr < o.maxSites)) ns.push_back(k);
	g.n = e.pick("n", ns);
	if (o.cube) { while (g.n % g.nr) g.nr--; g.depth = g.n / g.nr; while (o.wide && g.depth < 2 * g.ng) { g.nr = g.nr == 4 ? 2 : 1; g.depth = g.n / g.nr; } }
	else {
		for (int d : { 4, 6, 8, 10, 12, 16, 3, 5, 7, 9, 2, 1 }) if (d >= (o.wide ? 2 * g.ng : g.ng) && d <= o.maxDepth && (!o.even || d % 2 == 0) && d * g.nr * g.n * g.n <= std::max(o.maxSites, 2 * g.ng * g.nr * g.n * g.n)) dep.push_back(d);
		g.depth = e.pick("depth", dep);
	}
	g.s = baseSpec(e, label); g.s.nranks = g.nr; g.s.nthreads = g.thr = e.pick("nthreads", { 1, 2, 3, 4 }); g.s.procs = g.thr; schedule(e, g.s, "");
	g.a = gridArgs(g, g.nr, g.depth); return g;
}
typedef std::vector<std::string> Strs;
inline void operator+=(std::vector<std::string> &a, const std::string &b) { a.push_back(b); }
inline void operator+=(std::vector<std::string> &a, const std::vector<std::string> &b) { a.insert(a.end(), b.begin(), b.end()); }
#define ENDED(e, o) ((e).check((o).r.outcome == OC_DONE, "end", "run %s did not complete: %s", (o).label.c_str(), (o).outcome().c_str()), (e).check((o).r.leakedReq == 0, "requests", "%d requests were left open at the end of run %s", (o).r.leakedReq, (o).label.c_str()))
inline std::vector<std::string> physArgs(Ep &e, double llmax) {
	std::vector<std::string> a;
	auto frw = e.pick("frw", { 10, 5, 0, 20, 13 }); if (frw == 0) a.push_back("--mink"); else { a.push_back("--frw"); a.push_back(strf("%.1f", frw / 10.)); }
	a.push_back("--zi"); a.push_back(strf("%.4f", e.real("zi", 0.4, 1.6)));
	a.push_back("--zf"); a.push_back("4.0");
	a.push_back("--qcd"); a.push_back(strf("%lld", (long long) e.pick("nqcd", { 4, 7, 0, 2 })));
	a.push_back("--ind3"); a.push_back(strf("%.3f", e.real("indi3", 0.3, 3.0)));
	if (e.coin("msa", 500)) { a.push_back("--msa"); a.push_back(strf("%.3f", e.real("msav", 0.3, 1.5))); } else { a.push_back("--llcf"); a.push_back(strf("%.2f", e.real("llcf", 0.1, 3.) * llmax)); }
	auto lz = e.pick("lz2e", { 0, 20, 10 }); if (lz) { a.push_back("--lz2e"); a.push_back(strf("%.1f", lz / 10.)); }
	if (e.coin("rc", 300)) { a.push_back("--Rc"); a.push_back(strf("%.4f", e.real("rcv", 0.5, 1.8))); if (e.coin("rcoff", 500)) { a.push_back("--RcOff"); a.push_back(strf("%.4f", e.real("rcoffv", 1.8, 3.0))); } }
	return a;
}
