// Small executable reference models (plain double arithmetic on an unfolded periodic lattice).
#pragma once
#include "fw.h"
#include "fill.h"
#include <complex>
typedef std::complex<double> cd;
struct Par {   // as recorded by the harness ("params")
	double L, lambda, lz2e, indi3, gamma, dectime, nQcd, nQcdr, zThRes, zRestore, frw; int pot; double z, R; size_t n, nz; int field, prec, ltype, mink; double grav, lamP, mA2; int ng, shift, nng;
	static Par from(const JobOut &o, const std::string &name = "par");
	double Rof(double z) const; double rpp(double z) const; double rp(double z) const; double axm2(double z) const; double lam(double z) const;
	double delta() const { return L / (double) n; }
};
const std::vector<double> &lapCoef(int ng);
struct Lat { size_t n, nz; size_t V() const { return n * n * nz; }
	size_t at(long x, long y, long z) const { long N = n, Z = nz; x = ((x % N) + N) % N; y = ((y % N) + N) % N; z = ((z % Z) + Z) % Z; return x + n * (y + n * (size_t) z); } };
void refStepSaxion(std::vector<cd> &m, std::vector<cd> &v, Par &p, int ng, double dz);
void refStepAxion(std::vector<double> &m, std::vector<double> &v, Par &p, int ng, double dz, bool wMod);
// unnormalised discrete Fourier transform (sign -1 forward, +1 backward) on n x n x nz
void dft3(std::vector<cd> &a, size_t n, size_t nz, int sign);
// trilinear interpolation of a periodic lattice at (x,y,z) in units of its spacing
template<class T> T trilin(const std::vector<T> &a, const Lat &l, double x, double y, double z) { long i = floor(x), j = floor(y), k = floor(z); double u = x - i, v = y - j, w = z - k; T r{}; for (int c = 0; c < 8; c++) { double q = (c & 1 ? u : 1 - u) * (c & 2 ? v : 1 - v) * (c & 4 ? w : 1 - w); if (q != 0) r += a[l.at(i + (c & 1), j + (c >> 1 & 1), k + (c >> 2))] * q; } return r; }
// decodes gathered observations
bool gatherD(const JobOut &o, const std::string &n, std::vector<double> &out);
bool gatherC(const JobOut &o, const std::string &n, std::vector<cd> &out);
// maximum |a-b| and the place
double maxDiff(const std::vector<double> &a, const std::vector<double> &b, size_t *where = nullptr);
double maxDiff(const std::vector<cd> &a, const std::vector<cd> &b, size_t *where = nullptr);
double maxAbs(const std::vector<double> &a); double maxAbs(const std::vector<cd> &a);
std::vector<double> fillAx(int kind, uint64_t seed, int part, const Par &p, double R, double amp);
std::vector<cd> fillSx(int kind, uint64_t seed, int part, const Par &p, double R, double amp);
// rounds to the field's precision
template<class T> void roundTo(std::vector<T> &a, int prec);
