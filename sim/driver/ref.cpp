#include "ref.h"
Par Par::from(const JobOut &o, const std::string &name) {
	Par p; memset(&p, 0, sizeof p); const Obs *b = o.find(name, 0); if (!b) return p; const double *d = b->as<double>();
	p.L = d[0]; p.lambda = d[1]; p.lz2e = d[2]; p.indi3 = d[3]; p.gamma = d[4]; p.dectime = d[5]; p.nQcd = d[6]; p.nQcdr = d[7]; p.zThRes = d[8]; p.zRestore = d[9]; p.frw = d[10]; p.pot = (int) d[11];
	p.z = d[12]; p.R = d[13]; p.n = (size_t) d[14]; p.nz = (size_t) d[15]; p.field = (int) d[16]; p.prec = (int) d[17]; p.ltype = (int) d[18]; p.mink = (int) d[19]; p.grav = d[20]; p.lamP = d[21]; p.mA2 = d[22]; p.ng = (int) d[23]; p.shift = (int) d[24]; p.nng = (int) d[25];
	return p;
}
double Par::Rof(double z) const { return frw == 1 && grav > 0 ? z * (1 + 0.25 * z * grav) : pow(z, frw); }
double Par::rpp(double z) const { return frw * (frw - 1) / (z * z); }
double Par::rp(double z) const { return frw / z; }
double Par::lam(double z) const { return lambda / pow(Rof(z), lz2e); }
double Par::axm2(double z) const {
	double R = Rof(z), i2 = indi3 * indi3;
	if (zThRes <= zRestore) { if (R < zThRes) return i2 * pow(R, nQcd); if (R <= zRestore) return i2 * pow(zThRes, nQcd); return i2 * pow(zThRes, nQcd) * pow(R / zRestore, nQcdr); }
	return R < zThRes ? i2 * pow(R, nQcd) : i2 * pow(zThRes, nQcd);
}
const std::vector<double> &lapCoef(int ng) {
	static const std::vector<double> c[6] = { {}, { 1. }, { 4. / 3, -1. / 12 }, { 1.5, -3. / 20, 1. / 90 }, { 1.6, -.2, 8. / 315, -1. / 560 }, { 5. / 3, -5. / 21, 5. / 126, -5. / 1008, 1. / 3150 } };
	return c[ng];
}
static const double rkC[4] = { 0.1344961992774310892, -0.2248198030794208058, 0.7563200005156682911, 0.3340036032863214255 };
static const double rkD[4] = { 0.5153528374311229364, -0.085782019412973646, 0.4415830236164665242, 0.1288461583653841854 };
template<class T, class S> static T lapl(const Lat &l, const std::vector<T> &m, long x, long y, long z, const std::vector<double> &co, double o2, S sub) {
	T mel = m[l.at(x, y, z)], acc = T(0);
	for (size_t k = 1; k <= co.size(); k++) {
		long j = (long) k; T s = sub(m[l.at(x + j, y, z)], mel) + sub(m[l.at(x - j, y, z)], mel) + sub(m[l.at(x, y + j, z)], mel) + sub(m[l.at(x, y - j, z)], mel) + sub(m[l.at(x, y, z + j)], mel) + sub(m[l.at(x, y, z - j)], mel);
		acc += s * (co[k - 1] * o2);
	}
	return acc;
}
// spectral Laplacian on a cubic box (ng = 0)
template<class T> static std::vector<T> specLap(const std::vector<T> &m, const Par &p) {
	std::vector<cd> a(m.begin(), m.end()); size_t n = p.n; dft3(a, n, p.nz, -1); double k1 = 2 * M_PI / p.L, N = a.size();
	auto w = [](size_t i, size_t n) { double k = i > n / 2 ? (double) i - (double) n : (double) i; return k * k; };
	for (size_t z = 0; z < p.nz; z++) for (size_t y = 0; y < n; y++) for (size_t x = 0; x < n; x++) a[x + n * (y + n * z)] *= -k1 * k1 * (w(x, n) + w(y, n) + w(z, p.nz)) / N;
	dft3(a, n, p.nz, 1); std::vector<T> r(m.size()); for (size_t i = 0; i < r.size(); i++) if constexpr (std::is_same<T, double>::value) r[i] = a[i].real(); else r[i] = a[i]; return r;
}
// free waves over a time dt, exact on every mode
static void rotate(std::vector<double> &m, std::vector<double> &v, const Par &p, double dt) {
	std::vector<cd> a(m.begin(), m.end()), b(v.begin(), v.end()); size_t n = p.n; dft3(a, n, p.nz, -1); dft3(b, n, p.nz, -1); double k1 = 2 * M_PI / p.L, N = a.size();
	auto w = [](size_t i, size_t n) { double k = i > n / 2 ? (double) i - (double) n : (double) i; return k * k; };
	for (size_t z = 0; z < p.nz; z++) for (size_t y = 0; y < n; y++) for (size_t x = 0; x < n; x++) { size_t i = x + n * (y + n * z); double k = k1 * sqrt(w(x, n) + w(y, n) + w(z, p.nz)), C = cos(k * dt), S = sin(k * dt); cd A = a[i], B = b[i]; a[i] = (A * C + B * (k ? S / k : dt)) / N; b[i] = (B * C - A * k * S) / N; }
	dft3(a, n, p.nz, 1); dft3(b, n, p.nz, 1); for (size_t i = 0; i < m.size(); i++) { m[i] = a[i].real(); v[i] = b[i].real(); }
}
enum { Q0 = 1, Q1 = 2, QV = 4, Q2 = 8, QL = 16, QC = 32, P3 = 512, P1 = 1024, P2 = 2048, ETH = 4096, ERH = 8192, DRH = 16384, DAL = 32768 };
void refStepSaxion(std::vector<cd> &m, std::vector<cd> &v, Par &p, int ng, double dz) {
	Lat l{ p.n, p.nz }; auto &co = lapCoef(ng); double o2 = 1 / (p.delta() * p.delta());
	for (int s = 0; s < 4; s++) {
		double R = p.Rof(p.z), LL = p.lam(p.z), mA2 = p.axm2(p.z), Rpp = p.rpp(p.z), Rp = p.rp(p.z), dzc = dz * rkC[s], dzd = dz * rkD[s], R2 = R * R;
		double G = p.gamma / R; if (p.dectime > 0) G *= R2 / p.dectime;
		double mola = G * dzc / 2, damp1 = 1 / (1 + mola), damp2 = (1 - mola) * damp1, epsi = mola / (1 + mola);
		std::vector<cd> nm(m.size()), sl; if (!ng) sl = specLap(m, p);
		for (size_t z = 0; z < l.nz; z++) for (size_t y = 0; y < l.n; y++) for (size_t x = 0; x < l.n; x++) {
			size_t i = l.at(x, y, z); cd M = m[i], V = v[i]; double a2 = std::norm(M);
			cd A = !ng ? sl[i] : lapl(l, m, x, y, z, co, o2, [](cd a, cd b) { return a - b; });
			if (!(p.pot & ETH)) A -= M * ((a2 - R2) * LL - Rpp);
			if (!(p.pot & ERH)) {
				if ((p.pot & 63) == Q1) A += mA2 * R2 * R;
				else if ((p.pot & 63) == QV) A += mA2 * R2 * R * (cd(R, 0) - M);
				else if ((p.pot & 63) == Q2) A += mA2 * R2 / 2 * std::conj(M);
				else if ((p.pot & 63) == QC) A += mA2 * R2 * R2 * cd(M.imag() * M.imag(), -M.real() * M.imag()) / (a2 * sqrt(a2));
			}
			if (p.pot & ETH) {
				cd t(-M.imag(), M.real()); double at = A.real() * t.real() + A.imag() * t.imag(), vt = V.real() * t.real() + V.imag() * t.imag();
				A = t * at / a2 + M * Rpp; V = t * vt / a2 + M * Rp;
			}
			cd W;
			if (p.pot & DRH) { double mv = M.real() * V.real() + M.imag() * V.imag(), ma = M.real() * A.real() + M.imag() * A.imag(); W = V + A * dzc - epsi * (M / a2) * (2 * (mv - a2 * Rp) + ma * dzc); }
			else if (p.pot & DAL) W = V * damp2 + A * damp1 * dzc;
			else W = V + A * dzc;
			if (p.pot & ERH) { double mw = M.real() * W.real() + M.imag() * W.imag(); W = M * mw / a2; }
			v[i] = W; nm[i] = M + dzd * W;
		}
		m.swap(nm); p.z += dzd; p.R = p.Rof(p.z);
	}
}
void refStepAxion(std::vector<double> &m, std::vector<double> &v, Par &p, int ng, double dz, bool wMod) {
	Lat l{ p.n, p.nz }; auto &co = lapCoef(ng); double o2 = 1 / (p.delta() * p.delta());
	for (int s = 0; s < 4; s++) {
		double R = p.Rof(p.z), mA2 = p.axm2(p.z), Rpp = p.rpp(p.z), dzc = dz * rkC[s], dzd = dz * rkD[s];
		std::vector<double> nm(m.size()), sl; if (!ng) sl = specLap(m, p); if (ng < 0) sl.assign(m.size(), 0);
		for (size_t z = 0; z < l.nz; z++) for (size_t y = 0; y < l.n; y++) for (size_t x = 0; x < l.n; x++) {
			size_t i = l.at(x, y, z); double P = 2 * M_PI * R;
			double A = ng <= 0 ? sl[i] : lapl(l, m, x, y, z, co, o2, [&](double a, double b) { double d = a - b; if (wMod) d -= P * std::round(d / P); return d; });
			int q = p.pot;
			if (q == (P1 | Q0)) ; else if (q == (P1 | QL)) A -= mA2 * R * R * m[i]; else A -= mA2 * R * R * R * sin(m[i] / R);
			A += Rpp * m[i];
			v[i] += A * dzc; nm[i] = m[i] + dzd * v[i];
			if (wMod) nm[i] -= P * std::round(nm[i] / P);
		}
		if (ng < 0) rotate(m, v, p, dzd); else m.swap(nm);
		p.z += dzd; p.R = p.Rof(p.z);
	}
}
bool gatherD(const JobOut &o, const std::string &n, std::vector<double> &out) { std::vector<char> b; if (!o.gather(n, b)) return false; out.resize(b.size() / 8); memcpy(out.data(), b.data(), out.size() * 8); return true; }
bool gatherC(const JobOut &o, const std::string &n, std::vector<cd> &out) { std::vector<double> d; if (!gatherD(o, n, d)) return false; out.resize(d.size() / 2); for (size_t i = 0; i < out.size(); i++) out[i] = cd(d[2 * i], d[2 * i + 1]); return true; }
template<class T> static double md(const std::vector<T> &a, const std::vector<T> &b, size_t *w) { double r = 0; if (a.size() != b.size()) return INFINITY; for (size_t i = 0; i < a.size(); i++) { double d = std::abs(a[i] - b[i]); if (!(d <= r)) { r = d; if (w) *w = i; if (std::isnan(d)) return INFINITY; } } return r; }
double maxDiff(const std::vector<double> &a, const std::vector<double> &b, size_t *w) { return md(a, b, w); }
double maxDiff(const std::vector<cd> &a, const std::vector<cd> &b, size_t *w) { return md(a, b, w); }
double maxAbs(const std::vector<double> &a) { double r = 0; for (auto x : a) r = std::max(r, std::abs(x)); return r; }
double maxAbs(const std::vector<cd> &a) { double r = 0; for (auto x : a) r = std::max(r, std::abs(x)); return r; }
std::vector<double> fillAx(int k, uint64_t sd, int part, const Par &p, double R, double amp) { std::vector<double> o(p.n * p.n * p.nz); Lat l{ p.n, p.nz }; for (size_t z = 0; z < p.nz; z++) for (size_t y = 0; y < p.n; y++) for (size_t x = 0; x < p.n; x++) o[l.at(x, y, z)] = fillf::ax(k, sd, part, x, y, z, p.n, p.nz, R, amp); return o; }
std::vector<cd> fillSx(int k, uint64_t sd, int part, const Par &p, double R, double amp) { std::vector<cd> o(p.n * p.n * p.nz); Lat l{ p.n, p.nz }; for (size_t z = 0; z < p.nz; z++) for (size_t y = 0; y < p.n; y++) for (size_t x = 0; x < p.n; x++) o[l.at(x, y, z)] = fillf::sx(k, sd, part, x, y, z, p.n, p.nz, R, amp); return o; }
template<> void roundTo<double>(std::vector<double> &a, int prec) { if (prec == 4) for (auto &x : a) x = (float) x; }
template<> void roundTo<cd>(std::vector<cd> &a, int prec) { if (prec == 4) for (auto &x : a) x = cd((float) x.real(), (float) x.imag()); }
static void dft1(const std::vector<cd> &w, const cd *in, size_t st, size_t n, cd *out) { for (size_t k = 0; k < n; k++) { cd s = 0; for (size_t i = 0; i < n; i++) s += in[i * st] * w[i * k % n]; out[k] = s; } }
void dft3(std::vector<cd> &a, size_t n, size_t nz, int sign) {
	auto tw = [&](size_t m) { std::vector<cd> w(m); for (size_t i = 0; i < m; i++) w[i] = std::polar(1.0, sign * 2 * M_PI * i / m); return w; }; auto wn = tw(n), wz = tw(nz); std::vector<cd> t(std::max(n, nz));
	for (size_t z = 0; z < nz; z++) for (size_t y = 0; y < n; y++) { cd *p = &a[n * (y + n * z)]; dft1(wn, p, 1, n, t.data()); for (size_t i = 0; i < n; i++) p[i] = t[i]; }
	for (size_t z = 0; z < nz; z++) for (size_t x = 0; x < n; x++) { cd *p = &a[x + n * n * z]; dft1(wn, p, n, n, t.data()); for (size_t i = 0; i < n; i++) p[i * n] = t[i]; }
	for (size_t y = 0; y < n; y++) for (size_t x = 0; x < n; x++) { cd *p = &a[x + n * y]; dft1(wz, p, n * n, nz, t.data()); for (size_t i = 0; i < nz; i++) p[i * n * n] = t[i]; }
}
