// Contents of HDF5 files as recorded by h5_main.
#pragma once
#include "cfg.h"
struct H5Item { char kind, type, cls; int size; std::vector<size_t> dims; std::string raw; const double *d() const { return (const double*) raw.data(); } size_t n() const { return raw.size() / 8; } };
struct H5File { bool readable = false; std::map<std::string, H5Item> it;
	const H5Item *get(const std::string &p) const { auto i = it.find(p); return i == it.end() ? nullptr : &i->second; }
	double num(const std::string &p, double dflt = NAN) const { auto i = get(p); return i && i->type == 'd' && i->n() ? i->d()[0] : dflt; }
	std::string str(const std::string &p) const { auto i = get(p); return i && i->type == 's' ? i->raw : ""; } };
std::vector<H5File> h5read(Ep &e, const std::string &label, const std::vector<std::string> &paths, const char *unit = "harn");
// first difference; rel/abs tolerance for floating datasets, attributes and datasets in skip are ignored (substring match)
std::string h5diff(const H5File &a, const H5File &b, double rel, const std::vector<std::string> &skip = {}, const std::function<double(const std::string&)> &relOf = nullptr);
