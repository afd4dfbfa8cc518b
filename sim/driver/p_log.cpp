// C12: what any rank or thread logs is in the log exactly once and complete; logging neither crashes nor blocks.
#include "h5.h"
#include <map>
static void ep(Ep &e) {
	Grid g; g.kind = 0; g.prec = 0; g.ng = 1; g.shift = 4; g.n = 16; g.nr = e.pick("nranks", { 2, 3, 1, 4 }); if (g.nr == 3) g.n = 24; g.depth = g.n / g.nr; g.s = baseSpec(e, "a"); g.s.nranks = g.nr; g.s.nthreads = g.thr = e.pick("nthreads", { 2, 1, 3, 4 }); g.s.procs = g.thr; schedule(e, g.s, "");
	g.s.maxSteps = 6000000; g.s.eager = 1;   // messages are far below every library's eager limit
	int verb = e.pick("verbose", { 1, 0, 2, 3 }); bool zero = e.coin("zerorank", 150);
	std::vector<std::string> a = gridArgs(g, g.nr, g.depth); std::vector<std::string> b; for (auto &x : a) if (x != "--nologmpi") b.push_back(x); if (zero) b.push_back("--nologmpi");
	b += Strs{ "--qcd", "4.0", "--msa", "1.0", "--lsize", "6.0", "--vqcd0", "--verbose", strf("%d", verb), "@" };
	int n = e.range("ops", 1, 8), maxlen = 0; bool made = false; std::vector<std::string> tags; std::map<std::string, int> kinds;
	for (int i = 0; i < n; i++) { std::string pf = strf("op%d.", i); switch (e.pick(pf + "what", { 0, 1, 2, 3, 4, 5, 6 })) {
		case 0: case 1: case 2: { std::string t = strf("t%d", i); int kind = e.pick(pf + "kind", { 0, 2, 1 }), par = e.coin(pf + "par", 500), len = e.pick(pf + "len", { 0, 20, 300, 1990, 4000 }), mx = e.range(pf + "max", 1, len > 1000 ? 6 : 30); b.push_back(strf("log:%s:%llu:%d:%d:%d:%d", t.c_str(), (unsigned long long) e.sub(pf + "s"), mx, kind, par, len)); tags.push_back(t); kinds[t] = kind; maxlen = std::max(maxlen, len); break; }
		case 3: b.push_back(strf("usleep:%lld", (long long) e.pick(pf + "us", { 1000, 60000, 49999, 50001, 150000 }))); break;
		case 4: b.push_back("logflush"); break;
		case 5: b.push_back("barrier"); break;
		case 6: if (!made) { b.push_back("new"); b.push_back("fill:sxsmooth:3:1.0"); b.push_back("prop"); made = true; } else b.push_back("step:0.01:1"); break; } }
	int old = e.pick("oldlogs", { 0, 1, 2 }); for (int i = 0; i < old; i++) spew(e.path(strf("axion.log.%d", i)), "kept");
	if (e.coin("stall", 300)) addFault(g.s, FK_STALL, e.range("ts", 1, 20000), e.range("srank", 0, g.nr - 1), e.range("slen", 1, 3000));
	if (e.coin("jump", 200)) addFault(g.s, FK_CLOCK_JUMP, e.range("tj", 1, 60), e.range("jrank", 0, g.nr - 1), e.pick("jby", { 1000000000LL, -1000000000LL, 4000000000000LL, 60000000LL }));
	mkdirs(e.path("out/m")); JobOut o = e.run("run", "harn", "h_main", g.s, b); e.sample = strf("ranks=%d threads=%d ops=%d verbose=%d %s longest=%d", g.nr, g.thr, n, verb, zero ? "rank 0 only" : "all ranks", maxlen);
	e.check(o.r.outcome == OC_DONE, "end", "a run that only logs did not end regularly: %s", o.outcome().c_str()); e.check(o.r.leakedReq == 0, "request", "%d requests were left open", o.r.leakedReq);
	for (int i = 0; i < old; i++) e.check(slurp(e.path(strf("axion.log.%d", i))) == "kept", "overwritten", "the log of an earlier run was changed");
	std::string log = slurp(e.path(strf("axion.log.%d", old))); e.check(!log.empty(), "nolog", "no log was written"); e.check(!exists(e.path(strf("axion.log.%d", old + 1))), "twologs", "a second log was written");
	std::map<std::string, std::vector<std::string>> got; size_t p = 0, errs = 0; while (p < log.size()) { size_t q = log.find('\n', p); if (q == std::string::npos) q = log.size(); std::string l = log.substr(p, q - p); p = q + 1; if (l.find("Error in file") != std::string::npos) { errs++; continue; }
		size_t k = l.find("JXL "); if (k == std::string::npos) continue; int r, t, i, L, used = 0; char tg[16]; if (sscanf(l.c_str() + k, "JXL %15s %d %d %d %d%n", tg, &r, &t, &i, &L, &used) != 5) { e.fail("torn", "a broken line in the log: %.200s", l.c_str()); continue; } got[strf("%s %d %d %d", tg, r, t, i)].push_back(l.substr(k)); }
	size_t want = 0, seen = 0, ew = 0;
	for (auto &t : tags) for (int r = 0; r < g.nr; r++) { auto *c = o.find("log." + t, r); if (!c) { e.check(false, "harness", "no record"); return; }
		for (size_t th = 0; th < c->count(); th++) for (int i = 0; i < (int) c->as<double>()[th]; i++) { std::string k = strf("%s %d %d %d", t.c_str(), r, (int) th, i); bool due = !(zero && r), mayskip = kinds[t] != 1 && verb < 1; auto it = got.find(k); size_t m = it == got.end() ? 0 : it->second.size(); want++; seen += m;
			if (!due) { e.check(m == 0, "unasked", "message %s of rank %d is in a log of rank 0 only", k.c_str(), r); continue; }
			if (m == 0) { e.check(mayskip, "lost", "message %s (kind %d) is not in the log", k.c_str(), kinds[t]); continue; }
			e.check(m == 1, "twice", "message %s is %zu times in the log", k.c_str(), m); const std::string &s = it->second[0]; bool full = s.size() > 4 && s.compare(s.size() - 4, 4, " LXJ") == 0; int L = 0; sscanf(s.c_str(), "JXL %*s %*d %*d %*d %d", &L);
			if (!full) e.check(L > 1900 && s.size() > 1900, "torn", "message %s is broken: %zu characters of %d", k.c_str(), s.size(), L); else e.check((int) s.size() == L + (int) strf("JXL %s %d  LXJ", k.c_str(), L).size(), "torn", "message %s has the wrong length %zu", k.c_str(), s.size()); } }
	for (auto &kv : got) (void) kv; (void) ew; (void) errs; size_t total = 0; for (auto &kv : got) total += kv.second.size(); e.check(total == seen, "unasked", "%zu messages in the log, %zu of them known", total, seen);
	e.count("messages", want); e.count("found", seen); e.count("late_ops", n);
}
static Reg r({ "C12", "log messages arrive exactly once and complete", { "harn" }, ep, 6000, 30000, "distinct (ranks, threads, sequence of log, sleep, flush and step operations, schedule)", { "logger (its flushing thread included)", "communication set-up and shutdown" }, { "MPI (simulated)", "OpenMP runtime and threads (simulated)", "clock (simulated, with jumps)" }, {} });
