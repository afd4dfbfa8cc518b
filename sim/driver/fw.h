// Driver framework: episodes (named draws), simulated jobs, oracles, minimisation, replay, evidence.
#pragma once
#include "simcore.h"
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <memory>
#include <complex>

struct Obs { std::string name; int rank; uint32_t elem; uint64_t off; std::vector<char> data;
	template<class T> const T *as() const { return (const T*) data.data(); }
	size_t count() const { return elem ? data.size() / elem : 0; } };
struct JobOut {
	JobResult r; std::vector<Obs> obs; std::string label;
	bool timeout = false; int waitStatus = 0;
	const Obs *find(const std::string &n, int rank = -1) const;
	std::vector<const Obs*> all(const std::string &n, int rank = -1) const;
	// gathers the pieces of a distributed array (by byte offset) into one buffer; returns false if a byte is missing or covered twice
	bool gather(const std::string &n, std::vector<char> &out) const;
	double num(const std::string &n, int rank = 0, double dflt = 0) const;
	std::string outcome() const;
};
struct Viol { std::string cls, detail; };
struct JobTrace { std::string label; bool trace = false; std::vector<Dev> devs; uint64_t hash = 0; uint64_t ndev = 0; int outcome = 0; std::string msg; };

struct Stop : std::exception { };    // ends an episode after a violation
struct Ep {
	uint64_t seed; std::string prop, tier; int index = 0;
	std::map<std::string, int64_t> over;                                  // overridden draws
	struct Draw { std::string name; int64_t value; std::vector<int64_t> alts; };
	std::vector<Draw> draws; std::map<std::string, int64_t> cache;
	std::map<std::string, JobTrace> traceOver; std::vector<JobTrace> traces;
	std::string dir; bool keep = false, verbose = false; int jobNo = 0;
	std::vector<Viol> viols; std::string sample; bool nontrivial = true;
	std::map<std::string, uint64_t> counts; std::map<std::string, double> sums;
	uint64_t hash = 0;
	// draws: the first alternative is the simplest one; values depend on the name only, so overriding one leaves the others alone
	int64_t pick(const std::string &name, std::vector<int64_t> alts);
	int64_t range(const std::string &name, int64_t lo, int64_t hi);       // lo is simplest
	bool coin(const std::string &name, int permille);                     // false is simplest
	double real(const std::string &name, double lo, double hi);           // not minimised
	uint64_t sub(const std::string &name) const { return hash3(seed, 0x5ab, std::hash<std::string>()(name)); }
	JobOut run(const std::string &label, const char *unit, const char *entry, JobSpec &s, const std::vector<std::string> &args = {});
	void fail(const std::string &cls, const char *fmt, ...);              // records a violation and ends the episode
	void check(bool ok, const std::string &cls, const char *fmt, ...);
	void count(std::string k, uint64_t n = 1) { for (auto &c : k) if (c == 32 || c == 10) c = 95; counts[k] += n; }
	std::string path(const std::string &f) const { return dir + "/" + f; }
};
struct Prop { const char *id; const char *title; std::vector<std::string> units; std::function<void(Ep&)> fn; int quick, thorough; const char *rule; std::vector<std::string> real, stubs, assumptions; };
extern std::vector<Prop> &props();
struct Reg { Reg(Prop p) { props().push_back(std::move(p)); } };

JobSpec baseSpec(Ep &e, const std::string &label);      // defaults + seeds
void schedule(Ep &e, JobSpec &s, const std::string &pfx, bool threads = true);   // draws the scheduling knobs
void addFault(JobSpec &s, int kind, int64_t at, int64_t arg = 0, int64_t arg2 = 0);
std::string strf(const char *fmt, ...);
std::string slurp(const std::string &p); bool spew(const std::string &p, const std::string &s); bool exists(const std::string &p);
std::vector<std::string> listDir(const std::string &p);
void mkdirs(const std::string &p);
void wipe(const std::string &p);
