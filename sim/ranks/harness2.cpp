// Further rank-side operations (measurements, spectra, histograms, reductions).
#include "simcore.h"
#include "fill.h"
#include <mpi.h>
#include <omp.h>
#include <unistd.h>
#include "utils/logger.h"
#include <functional>
#include <string>
#include <vector>
#include "enum-field.h"
#include "scalar/scalarField.h"
#include "scalar/folder.h"
#include "comms/comms.h"
#include "reducer/reducer.h"
#include "projector/projector.h"
#include "spectrum/spectrum.h"
#include "meas/measa.h"
#include "utils/utils.h"
#include "utils/binner.h"
#include "utils/parse.h"
#include "utils/kgvops.h"
#include "io/readWrite.h"
#include "WKB/WKB.h"
#include "strings/strings.h"
#include "gen/momConf.h"
#include "gen/randXeon.h"
#include <random>
bool doOp2(const std::vector<std::string> &a, Cosmos *cosmos, Scalar **reg, const std::function<void(const std::string&, const double*, size_t)> &vec) {
	const std::string &op = a[0]; Scalar *&A = reg[0];
	auto S = [&](size_t i, const char *d = "") { return i < a.size() ? a[i] : std::string(d); };
	auto I = [&](size_t i, long d = 0) { return i < a.size() && !a[i].empty() ? strtol(a[i].c_str(), 0, 10) : d; };
	auto U = [&](size_t i, uint64_t d = 0) { return i < a.size() && !a[i].empty() ? strtoull(a[i].c_str(), 0, 10) : d; };
	auto D = [&](size_t i, double d = 0) { return i < a.size() && !a[i].empty() ? strtod(a[i].c_str(), 0) : d; };
	(void) I; (void) U; (void) D; (void) cosmos;
	if (op == "fput" || op == "fget") { // fput:which:layout:seed[:red], fget:name:which:layout[:red]: which ms mc v m2 m2s m2h; layout c complex, p padded real, r real, t complex with y and z exchanged and y over the ranks, h half of it
		bool put = op == "fput"; std::string w = S(put ? 1 : 2), l = S(put ? 2 : 3); size_t red = U(4, 1), n = A->Length() / red, NZ = A->TotalDepth() / red, nr = commSize(), nz = NZ / nr, ny = n / nr, r = commRank(), pr = A->Precision(); if (!red) red = 1;
		char *b = (char*) (w == "ms" ? A->mStart() : w == "mc" ? A->mCpu() : w == "v" ? A->vCpu() : w == "m2" ? A->m2Cpu() : w == "m2s" ? A->m2Start() : A->m2half()); uint64_t sd = U(3);
		bool tr = l == "t" || l == "h"; size_t X = l == "h" ? n / 2 + 1 : n, c = l == "p" || l == "r" ? 1 : 2, pitch = l == "p" ? n + 2 : X * c, rows = tr ? ny * NZ : n * nz; std::vector<double> o(put ? 0 : rows * X * c);
		for (size_t j = 0; j < rows; j++) for (size_t i = 0; i < X * c; i++) { char *q = b + pr * (j * pitch + i); size_t g = (r * rows + j) * X * c + i;
			if (put) { double x = fillf::u(sd, g, 3); if (pr == 4) *(float*) q = x; else *(double*) q = x; } else o[j * X * c + i] = pr == 4 ? *(float*) q : *(double*) q; }
		if (put) { A->setFolded(false); A->setM2Folded(false); } else sim_record(S(1).c_str(), o.size() * 8 * r, o.data(), o.size() * 8, 8);
		return true;
	}
	if (op == "spec") {             // spec:name:what(n|p|s|m|k):nbins[:nrt[:mask]]
		MeasInfo mi = deninfa; mi.nbinsspec = I(3, -1); SpectrumMaskType mk = (SpectrumMaskType) I(5, SPMASK_FLAT); nRunType rt = (nRunType) I(4, NRUN_KGV);
		SpecBin sp(A, (pType & (PROP_SPEC | PROP_FSPEC)) ? true : false, mi);
		std::string w = S(2), nm = S(1); size_t nb = sp.NBins(); auto out = [&](const char *x, SpectrumType t) { vec(nm + x, sp.data(t), nb); };
		if (w == "n") sp.nRun(mk, rt); else if (w == "p") sp.pRun(); else if (w == "s") sp.nSRun(mk, rt); else if (w == "m") sp.nmodRun(); else if (w == "k") sp.avekRun();
		if (w == "n" || w == "s") { out(".K", SPECTRUM_KK); out(".G", SPECTRUM_GG); out(".V", SPECTRUM_VV); out(".S", SPECTRUM_VVNL); }
		if (w == "p") out(".P", SPECTRUM_P); if (w == "m") out(".N", SPECTRUM_NN); if (w == "k") out(".A", SPECTRUM_AK);
		double zk[2] = { A->Saskia() * *A->RV(), A->AxionMassSq() }; vec(nm + ".zk", zk, 2); return true;
	}
	if (op == "meas") {             // meas:index:what: a whole measurement with the options of the command line
		MeasInfo mi = deninfa; mi.index = I(1, 1); mi.measdata = (MeasureType) (I(2) | (deninfa.measdata & (MEAS_2DMAP | MEAS_MASK | MEAS_AUX))); Measureme(A, mi); return true;
	}
	if (op == "icdata") {           // icdata:name
		IcData ic = cosmos->ICData(); double x[12] = { ic.zi, ic.logi, ic.kcr, (double) ic.kMax, (double) ic.siter, (double) A->LambdaT(), A->Delta(), *A->zV(), A->LambdaP(), ic.mode0, ic.alpha, A->BckGnd()->Gamma() }; vec(S(1), x, 12); return true;
	}
	if (op == "rdraw") {            // rdraw:name: the random number the program draws once for all ranks
		double r = 0; if (commRank() == 0) { std::random_device rd; std::mt19937 mt(rd()); std::uniform_real_distribution<double> d(-1.0, 1.0); r = d(mt); } MPI_Bcast(&r, 8, MPI_BYTE, 0, MPI_COMM_WORLD); vec(S(1), &r, 1); return true;
	}
	if (op == "momconf") {          // momconf:name:type:kMax:kCrt:random:complex:mass2:k0[:table,...]: random modes as they are before the Fourier transform, (y,z,x) order
		MomParms mp; mp.mocoty = (MomConfType) I(2); mp.kMax = I(3); mp.kCrt = D(4); mp.randommom = I(5); mp.cmplx = I(6); mp.mass2 = D(7); mp.k0 = D(8); mp.ftype = A->Field(); mp.vp = A->vCpu(); mp.mp = mp.cmplx ? A->mStart() : A->m2Cpu();
		std::string t = S(9); for (char *p = &t[0]; *p; ) { mp.mfttab.push_back(strtod(p, &p)); if (*p == ',') p++; }
		momConf(A, mp); size_t lx = mp.cmplx ? A->Length() : A->Length() / 2 + 1, N = A->Length() / commSize() * A->TotalDepth() * lx * 2;
		auto rec = [&](const std::string &nm, void *p) { std::vector<double> t(N); for (size_t i = 0; i < N; i++) t[i] = A->Precision() == FIELD_DOUBLE ? ((double*) p)[i] : ((float*) p)[i]; sim_record(nm.c_str(), N * 8 * commRank(), t.data(), N * 8, 8); };
		rec(S(1), mp.mp); if (mp.cmplx) rec(S(1) + ".v", A->vCpu()); return true;
	}
	if (op == "randconf") {         // randconf:smvar
		IcData ic = cosmos->ICData(); ic.fieldindex = FIELD_M; ic.smvarType = (ConfsubType) I(1, ic.smvarType); randConf(A, ic); return true;
	}
	if (op == "saskia") { double x[2] = { A->Saskia() * *A->RV(), (double) A->Field() }; vec(S(1), x, 2); return true; }
	if (op == "bin") {              // bin:name:seed:lines:len:pad:kind:first: histogram of generated numbers, one chunk of lines per rank, every line padded with numbers that must not count
		unsigned long long sd = strtoull(S(2).c_str(), 0, 10); long lines = I(3), len = I(4), pad = I(5); int kind = I(6); long r0 = (long) commRank() * lines; auto num = [&](long k) { unsigned long long x = (sd + 0x9E3779B97F4A7C15ull * (k + 1)); x ^= x >> 30; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 27; x *= 0x94D049BB133111EBull; x ^= x >> 31; double u = (x >> 11) * 0x1p-53; if (kind == 3) return std::floor(20 * u) + 1; if ((kind & 1) && (x & 7) == 0) return 0.; if ((kind & 2) && (x & 7) == 1) return -u; return pow(10., 5 * u - 3); };
		auto go = [&](auto t) { typedef decltype(t) F; std::vector<F> d(lines * (len + pad)), o(lines * len); for (long l = 0; l < lines; l++) for (long i = 0; i < len + pad; i++) { F v = i < len ? num((r0 + l) * len + i) : 1e7; d[l * (len + pad) + i] = v; if (i < len) o[l * len + i] = v; }
			Binner<500,F> B(d.data(), d.size(), [kind](F x) { return (double) (kind == 3 ? x : log10(x)); }); if (pad) B.setpad(len + pad, len); B.run(); sim_record((S(1) + ".d").c_str(), r0 * len * sizeof(F), o.data(), o.size() * sizeof(F), sizeof(F)); double q[502]; for (int i = 0; i < 500; i++) q[i] = B[i]; q[500] = B.min(); q[501] = B.max(); vec(S(1), q, 502); };
		if (A->Precision() == FIELD_SINGLE) go(0.f); else go(0.); return true;
	}
	if (op == "lut") {              // lut:name: velocity and gradients of the axion near strings (4 numbers per site), neighbour by neighbour through the correction function
		A->sendGhosts(FIELD_M, COMM_SDRV); A->sendGhosts(FIELD_M, COMM_WAIT); size_t n = A->Length(), nz = A->Depth(); std::vector<double> o(4 * n * n * nz); double zk = A->Saskia() * *A->RV();
		auto go = [&](auto t) { typedef decltype(t) F; const std::complex<F> *m = (const std::complex<F>*) A->mStart(), *v = (const std::complex<F>*) A->vCpu(); F pre = 0.5 * 0.4; long N = n;
			for (long z = 0; z < (long) nz; z++) for (long y = 0; y < N; y++) for (long x = 0; x < N; x++) { auto at = [&](long X, long Y, long Z) { return m[(X + N) % N + N * ((Y + N) % N) + N * N * Z]; }; size_t i = x + N * (y + N * z);
				std::complex<F> c = at(x, y, z) - (F) zk, w = v[i], g[3] = { at(x + 1, y, z) - at(x - 1, y, z), at(x, y + 1, z) - at(x, y - 1, z), at(x, y, z + 1) - at(x, y, z - 1) }; F d[10]; bool near = true; d[0] = c.real(); d[1] = c.imag();
				for (int k = 0; k < 3; k++) { d[4 + k] = pre * g[k].real(); d[7 + k] = pre * g[k].imag(); if (std::abs(d[0]) > std::abs(5 * d[4 + k]) || std::abs(d[1]) > std::abs(5 * d[7 + k])) near = false; }
				for (int k = 0; k < 4; k++) { std::complex<F> q = k ? g[k - 1] : w; F r; if (near) { d[2] = q.real(); d[3] = q.imag(); stringcorre(d, &r, A->Precision(), 1); } else r = (c.real() * q.imag() - c.imag() * q.real()) / std::norm(c); o[4 * i + k] = r; } } };
		if (A->Precision() == FIELD_SINGLE) go(0.f); else go(0.);
		sim_record(S(1).c_str(), (size_t) commRank() * o.size() * 8, o.data(), o.size() * 8, 8); return true;
	}
	if (op == "reduce") {           // reduce:newLx:newLz:what(mv|m2):inplace:filter(i|g<eFc>|s<k2>): the result of a reduction out of place becomes field 1
		std::string f = S(5, "i"); double q = f.size() > 1 ? strtod(f.c_str() + 1, 0) : 0; char c = f[0]; auto w = [c, q](int x, int y, int z) -> double { double k = (double) x * x + (double) y * y + (double) z * z; return c == 'g' ? exp(-q * k) : c == 's' ? (k > q ? 0. : 1.) : 1.; };
		FieldIndex fi = S(3) == "m2" ? FIELD_M2 : FIELD_MV; int keep = fIndex; fIndex = 0; Scalar *r;
		if (A->Precision() == FIELD_DOUBLE) r = reduceField(A, U(1), U(2), fi, [w](int x, int y, int z, std::complex<double> v) -> std::complex<double> { return v * w(x, y, z); }, I(4));
		else r = reduceField(A, U(1), U(2), fi, [w](int x, int y, int z, std::complex<float> v) -> std::complex<float> { return v * (float) w(x, y, z); }, I(4));
		fIndex = keep; if (r != A) reg[1] = r; return true;
	}
	if (op == "swap") { std::swap(reg[0], reg[1]); return true; }
	if (op == "redmap") {           // redmap:name: the reduced map in m2
		size_t n = A->rLength() * A->rLength() * A->rDepth(); std::vector<double> o(n); for (size_t i = 0; i < n; i++) o[i] = A->Precision() == FIELD_SINGLE ? ((float*) A->m2Cpu())[i] : ((double*) A->m2Cpu())[i];
		sim_record(S(1).c_str(), (size_t) commRank() * n * 8, o.data(), n * 8, 8); return true;
	}
	if (op == "proj") {             // proj:name: the projection of the map, on rank 0
		if (A->Precision() == FIELD_DOUBLE) projectField(A, [](double x) -> double { return x; }); else projectField(A, [](double x) -> double { return x; });
		std::vector<double> o(A->Surf()); for (size_t i = 0; i < o.size(); i++) o[i] = A->Precision() == FIELD_SINGLE ? ((float*) A->mFrontGhost())[i] : ((double*) A->mFrontGhost())[i]; if (commRank() == 0) vec(S(1), o.data(), o.size()); return true;
	}
	if (op == "strpos") {           // strpos:name: positions left by strings2
		StringData st = strings2(A); const unsigned short *q = (const unsigned short*) A->m2Cpu(); std::vector<double> d(3 * st.strDen_local); for (size_t i = 0; i < d.size(); i++) d[i] = q[i]; vec(S(1), d.data(), d.size());
		double t[3] = { (double) st.strDen, (double) st.strChr, (double) st.wallDn }; vec(S(1) + ".n", t, 3); return true;
	}
	if (op == "setmask") {          // setmask:seed:permille: marks sites of the string map as masked
		size_t n = A->Length(), nz = A->Depth(), z0 = (size_t) commRank() * nz; char *sd = (char*) A->sData(); for (size_t z = 0; z < nz; z++) for (size_t i = 0; i < n * n; i++) sd[i + n * n * z] = (long) (hash3(U(1), i + n * n * (z0 + z), 77) % 1000) < I(2) ? STRING_MASK : 0;
		A->setSD(SD_MASK); return true;
	}
	if (op == "setdef") {           // setdef:seed:permille:stale: a string map with random defects (plaquettes pierced by strings, walls), left over marks of masks
		size_t n = A->Length(), nz = A->Depth(), z0 = (size_t) commRank() * nz; char *sd = (char*) A->sData(); for (size_t z = 0; z < nz; z++) for (size_t i = 0; i < n * n; i++) sd[i + n * n * z] = (char) fillf::defect(U(1), i + n * n * (z0 + z), I(2), I(3));
		A->setSD(SD_MAP); return true;
	}
	if (op == "masker") {           // masker:name:radius:mask:out(0 field,1 mask,2 antimask):cumulative
		SpecBin sp(A, (pType & (PROP_SPEC | PROP_FSPEC)) ? true : false, deninfa); long o = I(4); sp.masker(D(2), (SpectrumMaskType) I(3), o == 0 ? M2_ENERGY : o == 1 ? M2_MASK : M2_ANTIMASK, I(5));
		vec(S(1) + ".P", sp.data(SPECTRUM_P), sp.NBins()); double zk[3] = { (double) A->m2Status(), A->Saskia() * *A->RV(), A->Delta() }; vec(S(1) + ".zk", zk, 3);
		size_t V = A->Size(); std::vector<double> d(V), m(V); for (size_t i = 0; i < V; i++) { d[i] = ((unsigned char*) A->sData())[i]; m[i] = A->Precision() == FIELD_SINGLE ? ((float*) A->m2Cpu())[i] : ((double*) A->m2Cpu())[i]; }
		sim_record((S(1) + ".d").c_str(), (size_t) commRank() * V * 8, d.data(), V * 8, 8); sim_record((S(1) + ".m").c_str(), (size_t) commRank() * V * 8, m.data(), V * 8, 8); return true;
	}
	if (op == "log") {              // log:tag:seed:max:kind(0 messages, 1 errors, 2 both):parallel:length
		uint64_t seed = U(2); int mx = I(3, 1), kind = I(4), par = I(5), len = I(6), rk = commRank(); std::vector<double> sent;
		auto one = [&](int t, int i) { uint64_t h = seed * 0x9e3779b97f4a7c15ull + (rk * 64 + t) * 1000003ull + i; h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 32; int L = len ? (int) (h % (len + 1)) : 0; std::string fill(L, ' '); for (int j = 0; j < L; j++) fill[j] = 'a' + (h + j * 7 + rk + t) % 26;
			bool err = kind == 1 || (kind == 2 && (h >> 20) % 4 == 0); std::string m = "JXL " + S(1) + " " + std::to_string(rk) + " " + std::to_string(t) + " " + std::to_string(i) + " " + std::to_string(L) + " " + fill + " LXJ";
			if (err) LogError("%s", m.c_str()); else LogMsg(VERB_NORMAL, "%s", m.c_str()); };
		auto cnt = [&](int t) { uint64_t h = (seed + 17) * 0xd6e8feb86659fd93ull + rk * 131 + t; h ^= h >> 32; h *= 0xd6e8feb86659fd93ull; h ^= h >> 32; return (int) (h % (mx + 1)); };
		int T = 1; std::vector<double> c;
		if (par) { T = omp_get_max_threads(); c.resize(T, 0);
			#pragma omp parallel num_threads(T)
			{ int t = omp_get_thread_num(), n = cnt(t); c[t] = n; for (int i = 0; i < n; i++) one(t, i); } }
		else { int n = cnt(0); c.push_back(n); for (int i = 0; i < n; i++) one(0, i); }
		vec("log." + S(1), c.data(), c.size()); return true;
	}
	if (op == "usleep") { usleep(I(1)); return true; }
	if (op == "logflush") { LogFlush(); return true; }
	if (op == "mark") { double one = 1; vec(S(1), &one, 1); return true; }
	if (op == "globals") { double g[] = { (double) fIndex, zInit, zFinl, (double) cType, (double) smvarType, (double) kMax, kCrit, mode0, alpha, (double) iter }; vec(S(1), g, sizeof g / 8); return true; }
	return false;
}
