// Field contents as a pure function of the global site index, shared by the rank harness and the reference models.
#pragma once
#include "simcore.h"
#include <cmath>
#include <complex>
namespace fillf {
	static inline double u(uint64_t seed, uint64_t g, int c) { return 2.0 * ((hash3(seed, g, c) >> 11) * (1.0 / 9007199254740992.0)) - 1.0; }   // [-1,1)
	// marks of a string map: permille of the sites have defects, stale: some sites carry the mark of an earlier mask
	static inline int defect(uint64_t seed, uint64_t g, long permille, bool stale) {
		uint64_t h = hash3(seed, g, 91); int r = 0; if ((long) (h % 1000) < permille) { static const int k[8] = { 1, 8, 2, 16, 4, 32, 1 | 16, 8 | 4 | 2 }; r = k[(h >> 12) & 7]; }
		if ((h >> 20) % 1000 < 30) r |= 64; if (stale && (h >> 32) % 4 == 0) r |= 128; return r;
	}
	enum Kind { SX_RAND = 0, SX_SMOOTH, AX_RAND, AX_SMOOTH, ZERO, INDEX, SX_UNIT, AX_CONST, AX_JUMP, SX_LOOPS, SX_PHASE, AX_WRAP };
	static inline int kindOf(const char *s) {
		const char *n[] = { "sxrand", "sxsmooth", "axrand", "axsmooth", "zero", "index", "sxunit", "axconst", "axjump", "sxloops", "sxphase", "axwrap" };
		for (int i = 0; i < 12; i++) if (!strcmp(n[i], s)) return i;
		return -1;
	}
	// a few plane waves compatible with periodic boundary conditions
	static inline double waves(uint64_t seed, int salt, size_t x, size_t y, size_t z, size_t n, size_t nz) {
		double r = 0;
		for (int w = 0; w < 4; w++) {
			int kx = (int) (hash3(seed, salt, w * 4) % 5) - 2, ky = (int) (hash3(seed, salt, w * 4 + 1) % 5) - 2, kz = (int) (hash3(seed, salt, w * 4 + 2) % 5) - 2;
			r += 0.25 * cos(2 * M_PI * (kx * (double) x / n + ky * (double) y / n + kz * (double) z / nz) + M_PI * u(seed, salt, w * 4 + 3));
		}
		return r;
	}
	// component c of the field (part 0 = m, 1 = v) in units where R is the vacuum value
	static inline std::complex<double> sx(int kind, uint64_t seed, int part, size_t x, size_t y, size_t z, size_t n, size_t nz, double R, double amp) {
		uint64_t g = x + n * (y + n * z);
		switch (kind) {
			case SX_RAND: if (part == 0) { double rho = R * (1 + 0.3 * amp * u(seed, g, 0)), ph = M_PI * u(seed, g, 1); return { rho * cos(ph), rho * sin(ph) }; }
			              return { 0.5 * amp * u(seed, g, 2), 0.5 * amp * u(seed, g, 3) };
			case SX_SMOOTH: if (part == 0) { double rho = R * (1 + 0.3 * amp * waves(seed, 0, x, y, z, n, nz)), ph = 3 * amp * waves(seed, 1, x, y, z, n, nz); return { rho * cos(ph), rho * sin(ph) }; }
			              return { 0.5 * amp * waves(seed, 2, x, y, z, n, nz), 0.5 * amp * waves(seed, 3, x, y, z, n, nz) };
			case SX_LOOPS: if (part == 0) return { R * (amp * waves(seed, 0, x, y, z, n, nz) + 0.01 * u(seed, g, 0)), R * (amp * waves(seed, 1, x, y, z, n, nz) + 0.01 * u(seed, g, 1)) };
			              return { 0.5 * waves(seed, 2, x, y, z, n, nz), 0.5 * waves(seed, 3, x, y, z, n, nz) };
			case SX_PHASE: { double ph = amp * waves(seed, 1, x, y, z, n, nz) + M_PI * u(seed, 1, 77), rho = R * (1 + 0.6 * u(seed, g, 0)); if (part == 0) return { rho * cos(ph), rho * sin(ph) };    // a phase without jumps or windings that leaves (-pi,pi)
			              return { 0.5 * u(seed, g, 2), 0.5 * u(seed, g, 3) }; }
			case SX_UNIT: { double ph = M_PI * u(seed, g, 1); if (part == 0) return { cos(ph), sin(ph) }; return { -0.1 * sin(ph), 0.1 * cos(ph) }; }
			case INDEX:   return { (double) g + 1, (double) g + 0.5 };
			case AX_CONST: return { amp, 0 };
			default:      return { 0, 0 };
		}
	}
	static inline double ax(int kind, uint64_t seed, int part, size_t x, size_t y, size_t z, size_t n, size_t nz, double R, double amp) {
		uint64_t g = x + n * (y + n * z);
		switch (kind) {
			case AX_RAND:   return part == 0 ? amp * R * u(seed, g, 0) : 0.5 * amp * u(seed, g, 1);
			case AX_SMOOTH: return part == 0 ? amp * R * waves(seed, 0, x, y, z, n, nz) : 0.5 * amp * waves(seed, 1, x, y, z, n, nz);
			case AX_WRAP:   { double t = amp * waves(seed, 1, x, y, z, n, nz) + M_PI * u(seed, 1, 77), k = std::floor(3 * (u(seed, g, 9) + 1) / 2) - 1; return part == 0 ? R * (t + 2 * M_PI * k) : 0.5 * u(seed, g, 1); }   // the same phase with jumps of 2 pi anywhere
			case INDEX:     return (double) g + 1 + (part ? 0.5 : 0);
			case AX_CONST:  return amp * R;
			case AX_JUMP:   return part == 0 ? R * ((hash3(seed, g, 5) & 1 ? 2.4 : -2.4) + 0.2 * u(seed, g, 0)) : 0.5 * amp * u(seed, g, 1);   // neighbours differ by about 0 or 4.8: wraps, never near pi
			default:        return 0;
		}
	}
}
