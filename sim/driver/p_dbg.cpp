// Development aid (not a property): runs the harness with arguments from the environment.
#include "fw.h"
#include <sstream>
static void ep(Ep &e) {
	JobSpec s = baseSpec(e, "p"); s.nranks = getenv("DBG_RANKS") ? atoi(getenv("DBG_RANKS")) : 1; s.nthreads = getenv("DBG_THREADS") ? atoi(getenv("DBG_THREADS")) : 1; s.procs = s.nthreads; s.schedMode = SM_RR;
	std::vector<std::string> a; std::stringstream ss(getenv("DBG_ARGS") ? getenv("DBG_ARGS") : ""); std::string t; while (ss >> t) a.push_back(t);
	mkdirs(e.path("out/m")); JobOut o = e.run("p", getenv("DBG_UNIT") ? getenv("DBG_UNIT") : "harn", getenv("DBG_ENTRY") ? getenv("DBG_ENTRY") : "h_main", s, a);
	fprintf(stderr, "outcome %s\n", o.outcome().c_str());
	for (auto &b : o.obs) if (b.elem == 8) { fprintf(stderr, "%s[%d] n=%zu:", b.name.c_str(), b.rank, b.count()); for (size_t i = 0; i < b.count() && i < 24; i++) fprintf(stderr, " %.9g", b.as<double>()[i]); fprintf(stderr, "\n"); }
	fprintf(stderr, "%s\n", slurp(e.path("p.out")).substr(0, 3000).c_str());
}
static Reg r({ "X00", "debug", { getenv("DBG_UNIT") ? getenv("DBG_UNIT") : "harn" }, ep, 1, 1, "", {}, {}, {} });
