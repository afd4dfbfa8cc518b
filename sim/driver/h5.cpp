#include "h5.h"
#include <cstring>
#include <cmath>
std::vector<H5File> h5read(Ep &e, const std::string &label, const std::vector<std::string> &paths, const char *unit) {
	std::vector<H5File> r; if (paths.empty()) return r;
	for (size_t lo = 0; lo < paths.size(); lo += 100) {
		std::vector<std::string> p(paths.begin() + lo, paths.begin() + std::min(paths.size(), lo + 100));
		JobSpec s = baseSpec(e, label); s.nranks = 1; s.nthreads = 1; s.schedMode = SM_RR; s.schedSeed = 1; JobOut o = e.run(lo ? label + strf("%zu", lo) : label, unit, "h5_main", s, p);
		e.check(o.r.outcome == OC_DONE, "h5-reader", "the file reader did not complete: %s", o.outcome().c_str());
		for (size_t i = 0; i < p.size(); i++) {
			H5File f; auto ob = o.find(strf("h5:%zu", i)); if (ob && !(ob->data.size() == 11 && !memcmp(ob->data.data(), "UNREADABLE\n", 11))) {
				f.readable = true; const char *q = ob->data.data(), *end = q + ob->data.size();
				while (q < end) {
					const char *nl = (const char*) memchr(q, '\n', end - q); if (!nl) break; std::string h(q, nl); q = nl + 1; auto tab = h.find('\t'); std::string path = h.substr(tab + 1); H5Item it; char k, t, c; int sz; size_t n; int used = 0;
					if (sscanf(h.c_str(), "%c %c%c %d %zu%n", &k, &t, &c, &sz, &n, &used) < 5) break;
					it.kind = k; it.type = t; it.cls = c; it.size = sz; const char *d = h.c_str() + used; while (*d == ' ') { char *en; it.dims.push_back(strtoull(d, &en, 10)); d = en; }
					it.raw.assign(q, n); q += n + 1; f.it[path] = it;
				}
			}
			r.push_back(f);
		}
	}
	return r;
}
std::string h5diff(const H5File &a, const H5File &b, double rel, const std::vector<std::string> &skip, const std::function<double(const std::string&)> &relOf) {
	if (a.readable != b.readable) return "one file cannot be read";
	auto skipped = [&](const std::string &p) { for (auto &s : skip) if (p.find(s) != std::string::npos) return true; return false; };
	for (auto &kv : a.it) if (!skipped(kv.first) && !b.it.count(kv.first)) return kv.first + " missing in the second file";
	for (auto &kv : b.it) if (!skipped(kv.first) && !a.it.count(kv.first)) return kv.first + " missing in the first file";
	for (auto &kv : a.it) {
		if (skipped(kv.first)) continue; auto &x = kv.second, &y = b.it.at(kv.first);
		if (x.type != y.type || x.dims != y.dims || x.kind != y.kind || x.raw.size() != y.raw.size()) return kv.first + strf(": type or shape differs (%c%zu %c%zu)", x.type, x.raw.size(), y.type, y.raw.size());
		if (x.type != 'd') { if (x.raw != y.raw) return kv.first + strf(": '%s' and '%s'", x.raw.substr(0, 40).c_str(), y.raw.substr(0, 40).c_str()); continue; }
		double r = relOf ? relOf(kv.first) : rel; double sc = 0; for (size_t i = 0; i < x.n(); i++) sc = std::max(sc, std::isfinite(x.d()[i]) ? std::abs(x.d()[i]) : 0);
		for (size_t i = 0; i < x.n(); i++) { double u = x.d()[i], v = y.d()[i]; if (u == v || (std::isnan(u) && std::isnan(v))) continue; if (!(std::abs(u - v) <= r * sc)) return kv.first + strf("[%zu]: %.17g and %.17g (scale %.3g, type %c)", i, u, v, sc, x.cls); }
	}
	return "";
}
