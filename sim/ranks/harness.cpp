// Rank-side harness: initialises the program under test through its own entry (initAxions) and then executes a
// list of operations given after "@" in argv. Everything it calls is the unmodified library code in /repo/lib.
#include "simcore.h"
#include "fill.h"
#include <mpi.h>
#include <omp.h>
#include <functional>
#include <string>
#include <sstream>
#include <memory>
#include "enum-field.h"
#include "scalar/scalarField.h"
#include "scalar/folder.h"
#include "scalar/fourier.h"
#include "scalar/thetaScalar.h"
#include "scalar/mendTheta.h"
#include "scalar/scaleField.h"
#include "scalar/normField.h"
#include "comms/comms.h"
#include "cosmos/cosmos.h"
#include "propagator/allProp.h"
#include "propagator/propBase.h"
#include "energy/energy.h"
#include "energy/dContrast.h"
#include "strings/strings.h"
#include "reducer/reducer.h"
#include "projector/projector.h"
#include "spectrum/spectrum.h"
#include "fft/fftCode.h"
#include "io/readWrite.h"
#include "meas/measa.h"
#include "utils/utils.h"
#include "utils/misc.h"
#include "utils/binner.h"
#include "utils/parse.h"
#include "WKB/WKB.h"
#include "gen/prepropa.h"
extern std::unique_ptr<PropBase> prop;
extern "C" int h_nop() { return 0; }

extern bool doOp2(const std::vector<std::string> &, Cosmos *, Scalar **, const std::function<void(const std::string&, const double*, size_t)> &);
namespace {
Cosmos *cosmos = nullptr;
Scalar *reg[4] = { nullptr, nullptr, nullptr, nullptr };
Scalar *&A = reg[0];

void num(const std::string &n, double v) { sim_record(n.c_str(), 0, &v, 8, 8); }
void vec(const std::string &n, const double *v, size_t k) { sim_record(n.c_str(), 0, v, k * 8, 8); }

int ncomp(Scalar *f) { return (f->Field() & (FIELD_SAXION)) && f->Field() != FIELD_AX_RD && f->Field() != FIELD_AX_MOD_RD && f->Field() != FIELD_AXION_MOD ? 2 : 1; }

// address of the site (x,y,z) inside a slab of complex/real elements, following the documented folded layout
size_t site(Scalar *f, size_t x, size_t y, size_t z, bool folded) {
	size_t n = f->Length();
	if (!folded) return x + n * (y + n * z);
	size_t s = f->Shift(), YC = n / s, iy = y % YC, k = y / YC;
	return z * n * n + iy * n * s + x * s + k;
}
template<class F> void dumpT(Scalar *f, const std::string &name, const void *base, int nc, bool folded, size_t pitchx = 0) {
	const F *p = (const F*) base; size_t n = f->Length(), nz = f->Depth();
	std::vector<double> out(n * n * nz * nc);
	for (size_t z = 0; z < nz; z++) for (size_t y = 0; y < n; y++) for (size_t x = 0; x < n; x++) {
		size_t i = pitchx ? x + pitchx * (y + n * z) : site(f, x, y, z, folded);
		for (int c = 0; c < nc; c++) out[(x + n * (y + n * z)) * nc + c] = p[i * nc + c];
	}
	sim_record(name.c_str(), (size_t) commRank() * n * n * nz * nc * 8, out.data(), out.size() * 8, 8);
}
void dumpPtr(Scalar *f, const std::string &name, const void *base, int nc, bool folded, size_t pitch = 0) {
	if (f->Precision() == FIELD_SINGLE) dumpT<float>(f, name, base, nc, folded, pitch); else dumpT<double>(f, name, base, nc, folded, pitch);
}
template<class F> void fillT(Scalar *f, int kind, uint64_t seed, double amp, int which) {
	size_t n = f->Length(), nz = f->Depth(), tz = f->TotalDepth(); double R = *f->RV(); int nc = ncomp(f);
	for (int part = 0; part < 2; part++) {
		if (!(which & (1 << part))) continue;
		F *p = (F*) (part == 0 ? f->mStart() : f->vStart());
		for (size_t z = 0; z < nz; z++) for (size_t y = 0; y < n; y++) for (size_t x = 0; x < n; x++) {
			size_t i = x + n * (y + n * z), gz = z + nz * commRank();
			if (nc == 2) { auto c = fillf::sx(kind, seed, part, x, y, gz, n, tz, R, amp); p[2 * i] = (F) c.real(); p[2 * i + 1] = (F) c.imag(); }
			else p[i] = (F) fillf::ax(kind, seed, part, x, y, gz, n, tz, R, amp);
		}
	}
	f->setFolded(false);
}
void fillF(Scalar *f, int kind, uint64_t seed, double amp, int which) {
	if (f->Precision() == FIELD_SINGLE) fillT<float>(f, kind, seed, amp, which); else fillT<double>(f, kind, seed, amp, which);
}
// fills everything that is not interior (ghost slices) with a recognisable value
void poisonGhosts(Scalar *f) {
	size_t b = f->DataSize() * f->Surf() * f->getNg();
	memset(f->mFrontGhost(), 0x7b, b); memset(f->mBackGhost(), 0x7b, b);
}
// raw ghost slices + own boundary slices, byte exact
void dumpGhosts(Scalar *f, const std::string &name, int ng, int which) {
	size_t sl = f->Surf() * f->DataSize(), Ng = f->getNg(), nz = f->Depth(); int r = commRank(); 
	if (which == 0) {
		// back ghost at index Ng+nz.. : first ng of them; front ghost: the last ng before mStart
		sim_record((name + ".back").c_str(), (size_t) r * sl * ng, f->mBackGhost(), sl * ng, 1);
		sim_record((name + ".front").c_str(), (size_t) r * sl * ng, (char*) f->mStart() - sl * ng, sl * ng, 1);
		sim_record((name + ".own").c_str(), (size_t) r * sl * nz, f->mStart(), sl * nz, 1);
	} else if (which == 2) {
		sim_record((name + ".back").c_str(), (size_t) r * sl * ng, f->m2BackGhost(), sl * ng, 1);
		sim_record((name + ".front").c_str(), (size_t) r * sl * ng, (char*) f->m2Start() - sl * ng, sl * ng, 1);
		sim_record((name + ".own").c_str(), (size_t) r * sl * nz, f->m2Start(), sl * nz, 1);
	} else {
		sim_record((name + ".back").c_str(), (size_t) r * sl * ng, f->vBackGhost(), sl * ng, 1);
		sim_record((name + ".front").c_str(), (size_t) r * sl * ng, (char*) f->vStart() - sl * ng, sl * ng, 1);
		sim_record((name + ".own").c_str(), (size_t) r * sl * nz, f->vStart(), sl * nz, 1);
	}
	(void) Ng;
}
void params(const std::string &n) {
	auto &c = *cosmos; double z = A ? *A->zV() : 0, R = A ? *A->RV() : 0;
	double p[] = { c.PhysSize(), c.Lambda(), c.LamZ2Exp(), c.Indi3(), c.Gamma(), c.DecTime(), c.QcdExp(), c.QcdExpr(), c.ZThRes(), c.ZRestore(), c.Frw(), (double) c.QcdPot(), z, R,
		A ? (double) A->Length() : 0, A ? (double) A->TotalDepth() : 0, A ? (double) A->Field() : 0, A ? (double) A->Precision() : 0, A ? (double) A->LambdaT() : 0, (double) c.Mink(), c.ICData().grav,
		A ? A->LambdaP() : 0, A ? A->AxionMassSq() : 0, A ? (double) A->getNg() : 0, A ? (double) A->Shift() : 0, (double) Nng };
	vec(n, p, sizeof p / 8);
}
std::vector<std::string> split(const std::string &s) { std::vector<std::string> v; std::string t; std::stringstream ss(s); while (std::getline(ss, t, ':')) v.push_back(t); return v; }

bool ended = false;
void doOp(const std::vector<std::string> &a) {
	const std::string &op = a[0];
	auto S = [&](size_t i, const char *d = "") { return i < a.size() ? a[i] : std::string(d); };
	auto I = [&](size_t i, long d = 0) { return i < a.size() && !a[i].empty() ? strtol(a[i].c_str(), 0, 10) : d; };
	auto U = [&](size_t i, uint64_t d = 0) { return i < a.size() && !a[i].empty() ? strtoull(a[i].c_str(), 0, 10) : d; };
	auto D = [&](size_t i, double d = 0) { return i < a.size() && !a[i].empty() ? strtod(a[i].c_str(), 0) : d; };
	if (op == "new") {               // new[:fieldtype]
		int keep = fIndex; fIndex = 0; auto kc = cosmos->ICData().cType; cosmos->ICData().cType = CONF_NONE;
		FieldType ft = (FieldType) I(1, fTypeP);
		A = new Scalar(cosmos, sizeN, sizeZ, sPrec, cDev, D(2, cosmos->ICData().zi), lowmem, zGrid, ft, lType, cosmos->ICData().Nghost);
		fIndex = keep; cosmos->ICData().cType = kc;
		*A->zV() = D(2, cosmos->ICData().zi); A->updateR();
	} else if (op == "genconf") {    // the program's own initial conditions
		A = new Scalar(cosmos, sizeN, sizeZ, sPrec, cDev, zInit, lowmem, zGrid, fTypeP, lType, cosmos->ICData().Nghost);
	} else if (op == "setz") { *A->zV() = D(1); A->updateR(); }
	else if (op == "fill") fillF(A, fillf::kindOf(S(1).c_str()), U(2), D(3, 1), I(4, 3));
	else if (op == "poison") poisonGhosts(A);
	else if (op == "fold") { Folder m(A); m(FOLD_ALL); }
	else if (op == "unfold") { Folder m(A); m(UNFOLD_ALL); }
	else if (op == "fillm2") { size_t b = A->DataSize() * A->Size(); uint64_t sd = U(1); float *q = (float*) A->m2Start(); double *qd = (double*) A->m2Start();
		size_t g0 = (size_t) commRank() * A->Size(); int nc = A->DataSize() / A->Precision(); for (size_t i = 0; i < b / A->Precision(); i++) { double v = fillf::u(sd, g0 * nc + i, 7); if (A->Precision() == 4) q[i] = v; else qd[i] = v; } A->setM2Folded(false); }
	else if (op == "slice" || op == "sliceyz") { Folder m(A); bool s = op == "slice"; size_t k = U(2); 
		if (s) m(UNFOLD_SLICE, k); else m(UNFOLD_SLICEYZ, k);
		size_t e = A->DataSize(), by = e * A->Length() * (s ? A->Length() : A->Depth());
		sim_record((S(1) + ".m").c_str(), by * commRank(), A->mFrontGhost(), by, 1); sim_record((S(1) + ".v").c_str(), by * commRank(), A->mBackGhost(), by, 1); }
	else if (op == "slicem2") { Folder m(A); m(UNFOLD_SLICEM2, U(2)); size_t by = A->DataSize() * A->Surf(); sim_record(S(1).c_str(), by * commRank(), A->m2FrontGhost(), by, 1); }
	else if (op == "raw") { int w = I(2); size_t by = A->DataSize() * A->Size(); sim_record(S(1).c_str(), by * commRank(), w == 0 ? A->mStart() : w == 1 ? A->vStart() : A->m2Start(), by, 1); }
	else if (op == "foldm2") { Folder m(A); m(FOLD_M2); }
	else if (op == "unfoldm2") { Folder m(A); m(UNFOLD_M2); }
	else if (op == "isfolded") num(S(1), A->Folded());
	else if (op == "prop") { initPropagator(pType, A, cosmos->QcdPot(), I(1, Nng)); }
	else if (op == "propfor") { initPropagator(pType, A, (VqcdType) I(1), Nng); }
	else if (op == "prepropa") prepropa2(A);
	else if (op == "tune") tunePropagator(A);
	else if (op == "resetprop") resetPropagator(A);
	else if (op == "blocks") { double b[4] = { (double) prop->BlockX(), (double) prop->BlockY(), (double) prop->BlockZ(), (double) prop->IsTuned() }; vec(S(1), b, 4); }
	else if (op == "block") {       // block:yi:zi  -> the yi-th divisor of the y size / zi-th divisor of the depth
		prop->InitBlockSize(A->Length(), A->Depth(), A->DataSize(), A->DataAlign());
		size_t Y = A->Length() / A->Shift(), Z = A->Depth(); std::vector<size_t> dy, dz;
		for (size_t i = 1; i <= Y; i++) if (Y % i == 0) dy.push_back(i);
		for (size_t i = 1; i <= Z; i++) if (Z % i == 0) dz.push_back(i);
		prop->SetBlockY(dy[U(1) % dy.size()]); prop->SetBlockZ(dz[U(2) % dz.size()]); prop->UpdateBestBlock();
	} else if (op == "blockraw") { prop->InitBlockSize(A->Length(), A->Depth(), A->DataSize(), A->DataAlign()); prop->SetBlockY(U(1)); prop->SetBlockZ(U(2)); prop->UpdateBestBlock(); }
	else if (op == "step") { for (long i = 0, n = I(2, 1); i < n; i++) propagate(A, D(1)); }
	else if (op == "dzstep") { for (long i = 0, n = I(1, 1); i < n; i++) propagate(A, A->dzSize()); }
	else if (op == "dump") {        // dump:name:what
		std::string w = S(2, "m");
		if (w == "m") dumpPtr(A, S(1), A->mStart(), ncomp(A), A->Folded());
		else if (w == "v") dumpPtr(A, S(1), A->vStart(), ncomp(A), A->Folded());
		else if (w == "m2r") dumpPtr(A, S(1), A->m2Cpu(), 1, false);             // real map, unfolded, no ghosts
		else if (w == "m2rho") dumpPtr(A, S(1), (char*) A->m2Cpu() + A->eSize() * A->Precision(), 1, false);
		else if (w == "m2hr") dumpPtr(A, S(1), A->m2half(), 1, false);
		else if (w == "m2s") dumpPtr(A, S(1), A->m2Start(), 1, false);           // real map after the ghosts
		else if (w == "m2pad") dumpPtr(A, S(1), A->m2Cpu(), 1, false, A->Length() + 2);
		else if (w == "m2c") dumpPtr(A, S(1), A->m2Cpu(), 2, false);
		else if (w == "m2cs") dumpPtr(A, S(1), A->m2Start(), 2, false);
	} else if (op == "params") params(S(1));
	else if (op == "setm2st") A->setM2((StatusM2) I(1));
	else if (op == "ghosts") {      // ghosts:name:which(0 m,1 v,2 m2):mode:ng
		int which = I(2), mode = I(3), ng = I(4, A->getNg()); FieldIndex fi = which == 0 ? FIELD_M : which == 1 ? FIELD_V : FIELD_M2;
		if (mode == 0) { A->sendGhosts(fi, COMM_SDRV); A->sendGhosts(fi, COMM_WAIT); }
		else if (mode == 1) A->exchangeGhosts(fi);
		else if (mode == 2) { A->sendGhosts2(fi, COMM_SDRV, ng); A->sendGhosts2(fi, COMM_WAIT, ng); }
		else if (mode == 3) { A->sendGhosts2(fi, COMM_SDRV, ng); for (int i = 0; i < 3; i++) { A->sendGhosts2(fi, COMM_TEST, ng); sim_yield(); } A->sendGhosts2(fi, COMM_WAIT, ng); }
		else if (mode == 4) { A->sendGhosts(fi, COMM_SDRV); for (int i = 0; i < 3; i++) { A->sendGhosts(fi, COMM_TEST); sim_yield(); } A->sendGhosts(fi, COMM_WAIT); }
		{ // the exchange is over: what its owner does with the array from here on must not reach the neighbours
			char *b = (char*) (which == 0 ? A->mStart() : which == 1 ? A->vStart() : A->m2Start()); size_t bytes = (size_t) A->Surf() * A->DataSize() * A->Depth();
			std::vector<char> keep(b, b + bytes); memset(b, 0xa7, bytes); commSync(); for (int i = 0; i < 3; i++) sim_yield(); memcpy(b, keep.data(), bytes);
		}
		dumpGhosts(A, S(1), ng, which);
	} else if (op == "sendgen") {   // sendgen:name:count
		size_t cnt = U(2); std::vector<int> sB(cnt), sF(cnt), rF(cnt, -1), rB(cnt, -1); int r = commRank();
		for (size_t i = 0; i < cnt; i++) { sB[i] = r * 1000000 + (int) i * 2; sF[i] = r * 1000000 + (int) i * 2 + 1; }
		A->sendGeneral(COMM_SDRV, cnt, MPI_INT, sB.data(), rF.data(), sF.data(), rB.data());
		if (I(3)) { for (int i = 0; i < 3; i++) { A->sendGeneral(COMM_TEST, cnt, MPI_INT, sB.data(), rF.data(), sF.data(), rB.data()); sim_yield(); } }
		A->sendGeneral(COMM_WAIT, cnt, MPI_INT, sB.data(), rF.data(), sF.data(), rB.data());
		std::fill(sB.begin(), sB.end(), -7); std::fill(sF.begin(), sF.end(), -7); commSync(); sim_yield();
		sim_record((S(1) + ".rF").c_str(), (size_t) r * cnt * 4, rF.data(), cnt * 4, 4); sim_record((S(1) + ".rB").c_str(), (size_t) r * cnt * 4, rB.data(), cnt * 4, 4);
	} else if (op == "energy") {    // energy:name:type:shift
		double e[32]; for (auto &x : e) x = 0; energy(A, e, (EnType) I(2, EN_ENE), D(3, 0)); vec(S(1), e, 23);
	} else if (op == "strings") { StringData s = strings(A); double d[3] = { (double) s.strDen, (double) s.strChr, (double) s.wallDn }; vec(S(1), d, 3);
		double l[3] = { (double) s.strDen_local, (double) s.strChr_local, (double) s.wallDn_local }; vec(S(1) + ".local", l, 3);
	} else if (op == "strings2") { StringData s = strings2(A); double d[3] = { (double) s.strDen, (double) s.strChr, (double) s.wallDn }; vec(S(1), d, 3); }
	else if (op == "sdata") { size_t n = A->Length(), nz = A->Depth(); const char *p = (const char*) A->sData(); std::vector<double> o(n * n * nz); for (size_t i = 0; i < o.size(); i++) o[i] = (unsigned char) p[i];
		sim_record(S(1).c_str(), (size_t) commRank() * o.size() * 8, o.data(), o.size() * 8, 8); }
	else if (op == "wconf") { writeConf(A, I(1), I(2)); }
	else if (op == "rconf") { Scalar *n = nullptr; readConf(cosmos, &n, I(1), I(2)); num(S(3, "read"), n != nullptr); A = n; }
	else if (op == "need") { if (!A) { num("need", 0); ended = true; } }
	else if (op == "free") { delete A; A = nullptr; }
	else if (op == "barrier") commSync();
	else if (op == "mend") { num(S(1), (double) mendTheta(A)); }
	else if (op == "theta") { cmplxToTheta(A, D(1), I(2)); }
	else if (op == "scale") { scaleField(A, (FieldIndex) I(1, FIELD_M), D(2)); }
	else if (op == "ftfield") { FTfield f(A); f((FieldIndex) I(1), (FFTdir) I(2)); }
	else if (op == "fftplan") { AxionFFT::initPlan(A, (FFTtype) I(2), (FFTdir) I(3), S(1), I(4, 1)); }
	else if (op == "fftrun") { auto &p = AxionFFT::fetchPlan(S(1)); p.run((FFTdir) I(2)); }
	else if (op == "cdens") { cDensityMap(A, U(1), I(2)); }
	else if (op == "project") { double k0 = D(1); projectField(A, [k0](double k2) -> double { return k2 <= k0 * k0 ? 1.0 : 0.0; }); }
	else if (op == "setfield") A->setField((FieldType) I(1));
	else if (op == "end") { endAxions(); ended = true; }
	else if (op == "yield") sim_yield();
	else if (op == "reach") sim_reach(I(1));
	else {
		if (!doOp2(a, cosmos, reg, vec)) sim_fail("unknown op %s", op.c_str());
	}
}
}
// operations after "@"; the rest goes to the program's own command line parser
extern "C" int h_main(int argc, char **argv) {
	int at = argc; for (int i = 0; i < argc; i++) if (!strcmp(argv[i], "@")) { at = i; break; }
	std::vector<char*> av(argv, argv + at); av.push_back(nullptr);
	Cosmos c = initAxions(at, av.data()); cosmos = &c;
	for (int i = at + 1; i < argc && !ended; i++) doOp(split(argv[i]));
	if (!ended) { endAxions(); }
	return 0;
}
