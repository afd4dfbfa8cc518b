// Reads HDF5 files (with the real library, inside a one-rank job) and records everything in them.
// Record "h5:<index>": text header lines "kind path type n dims..\n" followed by raw doubles / bytes.
#include "simcore.h"
#include <hdf5.h>
#include <string>
#include <vector>
#include <mpi.h>
static void item(std::string &o, char kind, const std::string &path, hid_t obj, bool attr) {
	hid_t sp = attr ? H5Aget_space(obj) : H5Dget_space(obj), ty = attr ? H5Aget_type(obj) : H5Dget_type(obj);
	hssize_t n = H5Sget_simple_extent_npoints(sp); hsize_t dims[8] = { 0 }; int nd = H5Sget_simple_extent_ndims(sp); if (nd > 0) H5Sget_simple_extent_dims(sp, dims, nullptr);
	H5T_class_t cl = H5Tget_class(ty); size_t sz = H5Tget_size(ty); char t = 'd'; std::string data; bool ok = true;
	if (n > 50000000 || n < 0) { ok = false; n = 0; }
	if (cl == H5T_STRING) { t = 's';
		if (H5Tis_variable_str(ty)) { char *p = nullptr; if (attr ? H5Aread(obj, ty, &p) < 0 : H5Dread(obj, ty, H5S_ALL, H5S_ALL, H5P_DEFAULT, &p) < 0) ok = false; else if (p) { data = p; } }
		else { std::vector<char> b(sz * n + 1, 0); if ((attr ? H5Aread(obj, ty, b.data()) : H5Dread(obj, ty, H5S_ALL, H5S_ALL, H5P_DEFAULT, b.data())) < 0) ok = false; data.assign(b.data(), strnlen(b.data(), sz * n)); }
	} else if (cl == H5T_FLOAT || cl == H5T_INTEGER) { data.resize(n * 8); if (n && (attr ? H5Aread(obj, H5T_NATIVE_DOUBLE, &data[0]) : H5Dread(obj, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, &data[0])) < 0) ok = false; }
	else { t = 'b'; data.resize(n * sz); if (n && (attr ? H5Aread(obj, ty, &data[0]) : H5Dread(obj, ty, H5S_ALL, H5S_ALL, H5P_DEFAULT, &data[0])) < 0) ok = false; }
	char h[600]; int k = snprintf(h, sizeof h, "%c %c%c %d %zu", kind, ok ? t : 'x', cl == H5T_INTEGER ? 'i' : cl == H5T_FLOAT ? 'f' : 's', (int) sz, data.size()); for (int i = 0; i < nd; i++) k += snprintf(h + k, sizeof h - k, " %llu", (unsigned long long) dims[i]);
	o += h; o += "\t" + path + "\n"; o += data; o += "\n"; H5Sclose(sp); H5Tclose(ty);
}
struct Ctx { std::string *o; std::string path; };
static herr_t attrCb(hid_t loc, const char *name, const H5A_info_t *, void *c) { auto x = (Ctx*) c; hid_t a = H5Aopen(loc, name, H5P_DEFAULT); if (a >= 0) { item(*x->o, 'a', x->path + "@" + name, a, true); H5Aclose(a); } return 0; }
static herr_t objCb(hid_t root, const char *name, const H5O_info_t *info, void *c) {
	auto x = (Ctx*) c; Ctx y { x->o, std::string("/") + (strcmp(name, ".") ? name : "") };
	hid_t ob = H5Oopen(root, name, H5P_DEFAULT); if (ob < 0) { *x->o += "e ?? 0 0\t" + y.path + "\n\n"; return 0; }
	H5Aiterate(ob, H5_INDEX_NAME, H5_ITER_INC, nullptr, (H5A_operator2_t) attrCb, &y);
	if (info->type == H5O_TYPE_DATASET) item(*x->o, 'd', y.path, ob, false); else if (info->type == H5O_TYPE_GROUP) *x->o += "g -- 0 0\t" + y.path + "\n\n";
	H5Oclose(ob); return 0;
}
extern "C" int h5_main(int argc, char **argv) {
	int i0 = 0; MPI_Init_thread(&argc, &argv, MPI_THREAD_SERIALIZED, &i0); H5Eset_auto(H5E_DEFAULT, nullptr, nullptr);
	for (int i = 1; i < argc; i++) {
		std::string o; char nm[40]; snprintf(nm, sizeof nm, "h5:%d", i - 1);
		hid_t f = H5Fopen(argv[i], H5F_ACC_RDONLY, H5P_DEFAULT);
		if (f < 0) { sim_record(nm, 0, "UNREADABLE\n", 11, 1); continue; }
		Ctx c { &o, "/" }; H5Ovisit(f, H5_INDEX_NAME, H5_ITER_INC, (H5O_iterate_t) objCb, &c); H5Fclose(f);
		sim_record(nm, 0, o.data(), o.size(), 1);
	}
	MPI_Finalize(); return 0;
}
// Edits a file: argv[1] file, then ops  delattr:obj:name | num:obj:name:value | delobj:path | shrink:path:n | grow:path:n
extern "C" int h5_edit(int argc, char **argv) {
	int i0 = 0; MPI_Init_thread(&argc, &argv, MPI_THREAD_SERIALIZED, &i0); H5Eset_auto(H5E_DEFAULT, nullptr, nullptr);
	hid_t f = H5Fopen(argv[1], H5F_ACC_RDWR, H5P_DEFAULT); double ok = f >= 0;
	for (int i = 2; i < argc && f >= 0; i++) {
		std::vector<std::string> a; std::string t; for (const char *p = argv[i]; ; p++) { if (!*p || *p == ':') { a.push_back(t); t.clear(); if (!*p) break; } else t += *p; }
		if (a[0] == "delattr") { if (H5Adelete_by_name(f, a[1].c_str(), a[2].c_str(), H5P_DEFAULT) < 0) ok = 0; }
		else if (a[0] == "num") { hid_t q = H5Aopen_by_name(f, a[1].c_str(), a[2].c_str(), H5P_DEFAULT, H5P_DEFAULT); double v = strtod(a[3].c_str(), 0); if (q < 0 || H5Awrite(q, H5T_NATIVE_DOUBLE, &v) < 0) ok = 0; if (q >= 0) H5Aclose(q); }
		else if (a[0] == "delobj") { if (H5Ldelete(f, a[1].c_str(), H5P_DEFAULT) < 0) ok = 0; }
		else if (a[0] == "resize") {          // the dataset is replaced by one of another size with the same first values
			hid_t d = H5Dopen(f, a[1].c_str(), H5P_DEFAULT); if (d < 0) { ok = 0; continue; } hid_t ty = H5Dget_type(d), sp = H5Dget_space(d); hsize_t n = H5Sget_simple_extent_npoints(sp), m = strtoull(a[2].c_str(), 0, 10); size_t sz = H5Tget_size(ty);
			std::vector<char> b(std::max(n, m) * sz, 0); H5Dread(d, ty, H5S_ALL, H5S_ALL, H5P_DEFAULT, b.data()); H5Dclose(d); H5Ldelete(f, a[1].c_str(), H5P_DEFAULT);
			hid_t s2 = H5Screate_simple(1, &m, nullptr), d2 = H5Dcreate(f, a[1].c_str(), ty, s2, H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT); if (d2 < 0 || (m && H5Dwrite(d2, ty, H5S_ALL, H5S_ALL, H5P_DEFAULT, b.data()) < 0)) ok = 0; H5Dclose(d2); H5Sclose(s2); H5Sclose(sp); H5Tclose(ty);
		}
	}
	if (f >= 0) H5Fclose(f); sim_record("edited", 0, &ok, 8, 8); MPI_Finalize(); return 0;
}
