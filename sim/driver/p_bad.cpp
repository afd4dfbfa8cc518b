// C10: a damaged configuration file is rejected by every rank, whatever is wrong with it.
#include "h5.h"
#include <unistd.h>
static const char *fk[] = { "sxsmooth", "axrand", "axjump", "axrand" };
static void ep(Ep &e) {
	GridOpt o; o.kinds = { 0, 1, 2, 3 }; o.ngs = { 1, 2 }; o.maxSites = 12000; o.maxDepth = 8; Grid g = drawGrid(e, "w", o); int minD = g.kind == 3 ? 2 * g.ng : g.ng;
	bool restart = e.coin("restart", 300), prog = g.kind < 2 && e.pick("level", { 0, 0, 0, 1 }); if (prog) restart = false;
	int idx = e.range("idx", 0, 40); std::string file = restart ? "out/m/axion.restart" : strf("out/m/axion.%05d", idx);
	std::vector<std::string> ph = { "--lsize", strf("%.9f", e.real("lsize", 2, 8)), "--zi", strf("%.9f", e.real("zi", 0.4, 1.2)), "--zf", "4.0", "--qcd", strf("%.3f", e.real("nqcd", 0, 8)), "--ind3", strf("%.5f", e.real("indi3", 0.2, 3)), "--llcf", strf("%.4f", e.real("llcf", 1, 20)), "--verbose", "0" };
	std::vector<std::string> a = g.a; a += ph; a += Strs{ "@", "new", strf("setz:%.17g", e.real("znow", 0.5, 2)), strf("fill:%s:%llu:1.1", fk[g.kind], (unsigned long long) e.sub("fill")), "dump:m:m", "dump:v:v", "params:p", strf("wconf:%d:%d", idx, restart) };
	mkdirs(e.path("out/m")); JobOut W = e.run("write", "harn", "h_main", g.s, a); ENDED(e, W);
	std::string full = slurp(e.path(file)); e.check(full.size() > 2000, "no-file", "no configuration was written");
	// the damage
	Grid h = g; std::vector<int64_t> d2; for (int r : { 1, 2, 4, 3 }) if (g.nz() % r == 0 && g.nz() / r >= minD) d2.push_back(r);
	h.nr = e.pick("rranks", d2); h.depth = g.nz() / h.nr; h.s = baseSpec(e, "r"); h.s.nranks = h.nr; h.s.nthreads = h.thr = e.pick("rthreads", { 1, 2, 3 }); h.s.procs = h.thr; schedule(e, h.s, "r");
	auto edit = [&](const std::string &op) { JobSpec s = baseSpec(e, "edit"); s.nranks = 1; s.nthreads = 1; s.schedMode = SM_RR; s.schedSeed = 1; JobOut E = e.run("edit", "harn", "h5_edit", s, { file, op }); e.check(E.r.outcome == OC_DONE && E.num("edited") == 1, "edit", "the file editor failed: %s %s", op.c_str(), E.outcome().c_str()); };
	std::vector<int64_t> kinds = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 10, 12 }; int kind = e.pick("damage", kinds); bool must = true; std::string what;
	size_t comps = (g.kind == 0 ? 2 : 1) * (size_t) g.n * g.n * g.nz(), es = g.prec ? 8 : 4; (void) es;
	switch (kind) {
		case 0: unlink(e.path(file).c_str()); what = "missing"; break;
		case 1: spew(e.path(file), ""); what = "empty"; break;
		case 2: { size_t at = e.coin("tail", 500) ? full.size() - 1 - (size_t) (e.real("cut", 0, 1) * 64) : (size_t) (e.real("cut", 0, 1) * (full.size() - 1)); spew(e.path(file), full.substr(0, at)); what = strf("cut to %zu of %zu bytes", at, full.size()); break; }
		case 3: { std::string s(e.range("len", 1, 6000), ' '); Rng r(e.sub("garbage")); for (auto &c : s) c = (char) r.below(256); spew(e.path(file), s); what = "garbage"; break; }
		case 4: what = e.pick("which", { 0, 1 }) ? "/v" : "/m"; edit("delobj:" + what); what = "without " + what; break;
		case 5: { const char *at[] = { "Size", "Depth", "Precision", "Field type", "z", "zFinal", "Frw", "Physical size", "zInitial" }; what = at[e.pick("attr", { 0, 1, 2, 3, 4, 5, 6, 7, 8 })]; if (restart && (what == "zFinal" || what == "Physical size")) what = "z"; if (what == "Precision" ) { } edit("delattr:/:" + what); what = "without attribute " + what; break; }
		case 6: { const char *at[] = { "nQcd", "Indi3", "Lambda", "z Threshold", "z Restore", "Gamma" }; int k = e.pick("pattr", { 0, 1, 2, 3, 4, 5 }); what = at[k]; if (restart) must = false; edit("delattr:/potential:" + what); what = "without potential attribute " + what; break; }
		case 7: { size_t m = e.pick("much", { 0, 1, 2 }) == 0 ? comps / 2 : e.coin("one", 500) ? comps - 1 : (size_t) (e.real("left", 0, 1) * comps); std::string d = e.pick("which", { 0, 1 }) ? "/v" : "/m"; edit(strf("resize:%s:%zu", d.c_str(), m)); what = strf("%s with %zu of %zu values", d.c_str(), m, comps); break; }
		case 8: { bool dep = e.coin("dep", 500); int v = dep ? g.nz() / 2 : g.n / 2; if (e.coin("twice", 500)) v = (dep ? g.nz() : g.n) * 2; edit(strf("num:/:%s:%d", dep ? "Depth" : "Size", v)); what = strf("%s set to %d", dep ? "Depth" : "Size", v); break; }
		case 9: addFault(h.s, FK_OPEN_FAIL, prog ? 1 : 1 + e.range("openAt", 0, 1)); what = "failing open"; must = false; break;
		case 10: { // read errors: the reads of an undisturbed run tell where they may hit
			addFault(h.s, FK_READ_EIO, 1 + e.range("readAt", 0, 60)); what = "read error"; must = false; break; }
		case 12: edit("delobj:/ic"); must = false; what = "without /ic"; break;
	}
	std::vector<std::string> b = gridArgs(h, h.nr, h.depth);
	if (!prog && !restart && e.coin("readprec", 500)) for (size_t i = 0; i + 1 < b.size(); i++) if (b[i] == "--prec") { b.erase(b.begin() + i, b.begin() + i + 2); break; }
	bool precGiven = false; for (auto &x : b) precGiven = precGiven || x == "--prec";
	e.sample = strf("%s n=%d nz=%d ranks %d->%d %s %s", g.ftype(), g.n, g.nz(), g.nr, h.nr, what.c_str(), prog ? "program" : restart ? "restart" : "configuration"); e.count(strf("damage_%d", kind)); (void) precGiven;
	std::set<std::string> before; for (auto &n : listDir(e.path("out/m"))) before.insert(n);
	if (restart) { b += ph; b += std::string("--restart"); } else b += Strs{ "--index", strf("%d", idx), "--verbose", "0" };
	JobOut R;
	if (prog) { b += Strs{ "--steps", "2", "--dump", "50", "--p3D", "2", "--notheta", "--zf", "4.0" }; if (what.find("zFinal") != std::string::npos) must = false; R = e.run("read", "vax", "_Z9prog_mainiPPc", h.s, b); }
	else { b += Strs{ "@", strf("rconf:%d:%d:read", idx, restart), "need", "dump:m:m", "dump:v:v", "params:q" }; R = e.run("read", "harn", "h_main", h.s, b); }
	auto oc = R.r.outcome; uint64_t fired = 0; for (int k = 0; k < FK_NKINDS; k++) fired += R.r.fired[k]; if (fired) e.count("fault_fired");
	e.check(oc == OC_DONE || oc == OC_EXIT || oc == OC_MPIABORT, oc == OC_DEADLOCK || oc == OC_STEPLIMIT ? "hang" : "crash", "reading a configuration (%s) ended with %s", what.c_str(), R.outcome().c_str());
	std::string text = slurp(e.path("read.out")); bool said = text.find("Error") != std::string::npos || text.find("error") != std::string::npos || text.find("Could not") != std::string::npos;
	if (prog) {
		std::string made; for (auto &n : listDir(e.path("out/m"))) if (!before.count(n)) made = n;
		bool rejected = oc != OC_DONE || made.empty();
		if (must) { e.check(rejected, "accepted", "the run went on from a configuration %s and wrote %s", what.c_str(), made.c_str()); }
		if (rejected && (must || fired)) e.check(said || (oc != OC_DONE && R.r.code), "silent", "the run did not say why it stopped (%s, %s)", what.c_str(), R.outcome().c_str());
		if (!must && !fired && kind != 12) e.check(!rejected, "rejected", "a good configuration (%s, no fault met) was rejected: %s", what.c_str(), R.outcome().c_str());
		return;
	}
	if (oc != OC_DONE) { e.check(must || fired, "rejected", "a good configuration was rejected: %s", R.outcome().c_str()); e.check(said || R.r.code, "silent", "the run ended without a message and with status 0 (%s)", what.c_str()); return; }
	int yes = 0, no = 0; for (int r = 0; r < h.nr; r++) { if (R.num("read", r, -1) == 1) yes++; else no++; }
	e.check(!yes || !no, "disagree", "%d ranks accepted and %d ranks rejected a configuration (%s)", yes, no, what.c_str());
	if (!yes) { e.check(must || fired, "rejected", "a good configuration (%s) was rejected", what.c_str()); e.check(said, "silent", "the configuration (%s) was rejected without a message", what.c_str()); return; }
	e.check(!must, "accepted", "a configuration %s was accepted", what.c_str());
	for (auto nm : { "m", "v" }) { std::vector<char> x, y; e.check(W.gather(nm, x), "record", "incomplete record"); e.check(R.gather(nm, y), "half-read", "incomplete field after %s", what.c_str()); 
		e.check(x.size() == y.size(), "half-read", "%s has another size after %s", nm, what.c_str()); const double *p = (const double*) x.data(), *q = (const double*) y.data();
		for (size_t i = 0; i < x.size() / 8; i++) if (memcmp(p + i, q + i, 8)) e.fail("half-read", "%s[%zu] is %.17g after %s, the file has %.17g", nm, i, q[i], what.c_str(), p[i]); }
	const double *p = W.find("p", 0)->as<double>(); for (int r = 0; r < h.nr; r++) { auto q0 = R.find("q", r); e.check(q0, "half-read", "no parameters on rank %d", r); const double *q = q0->as<double>();
		for (int i : { 0, 1, 2, 3, 4, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16 }) e.check(std::abs(p[i] - q[i]) <= 1e-14 * std::abs(p[i]), "half-read", "parameter %d is %.17g on rank %d after %s, the file has %.17g", i, q[i], r, what.c_str(), p[i]); }
}
static Reg r({ "C10", "damaged configurations are rejected", { "harn", "vax" }, ep, 2400, 12000, "distinct (field, lattice, layouts, kind and place of the damage or fault, schedule)", { "configuration reader", "main program", "HDF5 library" }, { "MPI and MPI-IO (simulated, read and open errors injected)", "OpenMP runtime (simulated)", "clock (simulated)" }, { "bytes of the data themselves are not altered: the format has no checksums" } });
