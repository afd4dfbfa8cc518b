// C04 ghost exchange; C18 folding.
#include "cfg.h"
// bytes of the unfolded slab field of a rank layout: (component value) as stored
static std::vector<char> bytesOf(const Grid &g, int kind, uint64_t seed, int part, double R, double amp) {
	std::vector<char> b; size_t n = g.n, nz = g.nz(); int el = (g.prec ? 8 : 4) * (g.kind ? 1 : 2); b.resize(n * n * nz * el);
	for (size_t z = 0, i = 0; z < nz; z++) for (size_t y = 0; y < n; y++) for (size_t x = 0; x < n; x++, i++) {
		double c[2]; if (g.kind) c[0] = fillf::ax(kind, seed, part, x, y, z, n, nz, R, amp); else { auto q = fillf::sx(kind, seed, part, x, y, z, n, nz, R, amp); c[0] = q.real(); c[1] = q.imag(); }
		for (int k = 0; k < (g.kind ? 1 : 2); k++) if (g.prec) memcpy(&b[i * el + 8 * k], &c[k], 8); else { float f = c[k]; memcpy(&b[i * el + 4 * k], &f, 4); }
	}
	return b;
}
static std::vector<char> bytesM2(const Grid &g, uint64_t seed) {
	size_t nc = g.kind ? 1 : 2, N = (size_t) g.n * g.n * g.nz() * nc; std::vector<char> b(N * (g.prec ? 8 : 4));
	for (size_t i = 0; i < N; i++) { double v = fillf::u(seed, i, 7); if (g.prec) memcpy(&b[8 * i], &v, 8); else { float f = v; memcpy(&b[4 * i], &f, 4); } }
	return b;
}
static void ghosts(Ep &e) {
	GridOpt o; o.wide = false; o.minN = 8; o.kinds = { 0, 1, 2, 3 }; o.maxSites = 30000; Grid g = drawGrid(e, "g", o);
	int k = e.range("exchanges", 1, 4); std::vector<std::string> a = g.a; a += Strs{ "@", "new", "params:par" };
	struct X { int which, mode, ng; uint64_t seed; bool pois; }; std::vector<X> xs; bool gen = e.coin("general", 300); size_t gc = e.range("gcount", 1, 64);
	for (int i = 0; i < k; i++) {
		std::string p = strf("x%d.", i); X x; x.which = e.pick(p + "array", g.kind == 3 ? std::vector<int64_t>{ 0, 1, 2 } : std::vector<int64_t>{ 0, 2 }); x.mode = e.pick(p + "mode", { 1, 0, 2, 3, 4 }); x.ng = (x.mode == 2 || x.mode == 3) ? (int) e.range(p + "ng", 1, g.ng) : g.ng; x.seed = e.sub(p + "seed");
		a += strf("fill:index:%llu:1", (unsigned long long) x.seed); if (!g.kind) a += strf("fill:sxrand:%llu:1", (unsigned long long) x.seed); else a += strf("fill:axrand:%llu:1", (unsigned long long) x.seed);
		a += strf("fillm2:%llu", (unsigned long long) x.seed); a += std::string("poison");
		a += strf("ghosts:g%d:%d:%d:%d", i, x.which, x.mode, x.ng); if (gen) a += strf("sendgen:s%d:%zu:%d", i, gc, i & 1); xs.push_back(x);
	}
	e.sample = strf("%s ng=%d n=%d depth=%d ranks=%d thr=%d prec=%d exchanges=%d", g.ftype(), g.ng, g.n, g.depth, g.nr, g.thr, g.prec, k);
	JobOut o1 = e.run("g", "harn", "h_main", g.s, a); ENDED(e, o1);
	Par p = Par::from(o1); size_t sl = (size_t) g.n * g.n * (g.prec ? 8 : 4) * (g.kind ? 1 : 2);
	for (int i = 0; i < k; i++) {
		std::vector<char> own = xs[i].which == 2 ? bytesM2(g, xs[i].seed) : bytesOf(g, g.kind ? fillf::AX_RAND : fillf::SX_RAND, xs[i].seed, xs[i].which, p.R, 1), got;
		e.check(o1.gather(strf("g%d.own", i), got) && got == own, "own", "exchange %d changed the rank's own slices", i);
		for (int r = 0; r < g.nr; r++) {
			const Obs *bk = o1.find(strf("g%d.back", i), r), *fr = o1.find(strf("g%d.front", i), r); e.check(bk && fr && bk->data.size() == sl * xs[i].ng && fr->data.size() == sl * xs[i].ng, "record", "missing record");
			size_t nx = (size_t) ((r + 1) % g.nr) * g.depth * sl, pv = (size_t) ((r + g.nr - 1) % g.nr) * g.depth * sl + (g.depth - xs[i].ng) * sl;
			for (int s = 0; s < xs[i].ng; s++) {
				e.check(!memcmp(bk->data.data() + s * sl, own.data() + nx + s * sl, sl), "upper", "exchange %d (array %d, mode %d): upper ghost slice %d of rank %d is not slice %d of rank %d", i, xs[i].which, xs[i].mode, s, r, s, (r + 1) % g.nr);
				e.check(!memcmp(fr->data.data() + s * sl, own.data() + pv + s * sl, sl), "lower", "exchange %d (array %d, mode %d): lower ghost slice %d of rank %d is not the matching last slice of rank %d", i, xs[i].which, xs[i].mode, s, r, (r + g.nr - 1) % g.nr);
			}
			if (gen) { const Obs *rF = o1.find(strf("s%d.rF", i), r), *rB = o1.find(strf("s%d.rB", i), r); int f = (r + 1) % g.nr, b = (r + g.nr - 1) % g.nr;
				for (size_t q = 0; q < gc; q++) { e.check(rF->as<int>()[q] == f * 1000000 + (int) q * 2, "general", "word %zu from the next rank is %d", q, rF->as<int>()[q]); e.check(rB->as<int>()[q] == b * 1000000 + (int) q * 2 + 1, "general", "word %zu from the previous rank is %d", q, rB->as<int>()[q]); } }
		}
	}
}
static Reg r4({ "C04", "halo exchange", { "harn" }, ghosts, 4000, 20000, "distinct (field type, precision, ranks, slices, array, exchange form, message schedule)", { "Scalar ghost exchange (all forms)", "communicator set-up" }, { "MPI (simulated delivery)" }, {} });

static void fold(Ep &e) {
	GridOpt o; o.wide = false; o.minN = 8; o.kinds = { 0, 1, 2, 3 }; o.maxSites = 40000; Grid g = drawGrid(e, "f", o); uint64_t sd = e.sub("fill");
	std::vector<std::string> a = g.a; a += Strs{ "@", "new", "params:par", strf("fill:%s:%llu:1", g.kind ? "axrand" : "sxrand", (unsigned long long) sd), strf("fillm2:%llu", (unsigned long long) sd), "isfolded:f0" };
	std::vector<std::string> chk; int k = e.range("ops", 1, 6); bool f = false, f2 = false; struct O { int what; size_t at; bool f, f2; }; std::vector<O> ops;
	for (int i = 0; i < k; i++) {
		int w = e.pick(strf("op%d", i), { 0, 1, 2, 3, 4, 5, 6 }); O q{ w, 0, f, f2 };
		switch (w) {
			case 0: a += std::string("fold"); f = true; break; case 1: a += std::string("unfold"); f = false; break;
			case 2: a += std::string("foldm2"); f2 = true; break; case 3: a += std::string("unfoldm2"); f2 = false; break;
			case 4: q.at = e.range(strf("z%d", i), 0, g.depth - 1); a += strf("slice:s%d:%zu", i, q.at); break;
			case 5: q.at = e.range(strf("x%d", i), 0, g.n - 1); if ((size_t) g.depth <= (size_t) g.n * g.ng) a += strf("sliceyz:s%d:%zu", i, q.at); else q.what = 9; break;
			case 6: q.at = e.range(strf("w%d", i), 0, g.depth - 1); a += strf("slicem2:s%d:%zu", i, q.at); break;
		}
		q.f = f; q.f2 = f2; a += Strs{ strf("isfolded:F%d", i), strf("raw:m%d:0", i), strf("raw:v%d:1", i), strf("raw:w%d:2", i) }; ops.push_back(q);
	}
	e.sample = strf("%s n=%d depth=%d ranks=%d thr=%d prec=%d ops=%d", g.ftype(), g.n, g.depth, g.nr, g.thr, g.prec, k);
	JobOut o1 = e.run("f", "harn", "h_main", g.s, a); ENDED(e, o1);
	Par p = Par::from(o1); int kd = g.kind ? fillf::AX_RAND : fillf::SX_RAND; size_t el = (g.prec ? 8 : 4) * (g.kind ? 1 : 2), n = g.n, YC = n / g.shift;
	std::vector<char> M[3] = { bytesOf(g, kd, sd, 0, p.R, 1), bytesOf(g, kd, sd, 1, p.R, 1), bytesM2(g, sd) };
	auto folded = [&](const std::vector<char> &u) { std::vector<char> r(u.size()); for (size_t z = 0; z < (size_t) g.nz(); z++) for (size_t y = 0; y < n; y++) for (size_t x = 0; x < n; x++) memcpy(&r[(z * n * n + (y % YC) * n * g.shift + x * g.shift + y / YC) * el], &u[(x + n * (y + n * z)) * el], el); return r; };
	std::vector<char> Fd[3] = { folded(M[0]), folded(M[1]), folded(M[2]) };
	for (int i = 0; i < k; i++) {
		e.check((o1.num(strf("F%d", i)) != 0) == ops[i].f, "flag", "after operation %d the field says folded=%g", i, o1.num(strf("F%d", i)));
		std::vector<char> b; const char *nm = "mvw";
		for (int c = 0; c < 3; c++) { bool fo = c == 2 ? ops[i].f2 : ops[i].f; e.check(o1.gather(strf("%c%d", nm[c], i), b) && b == (fo ? Fd[c] : M[c]), std::string("data-") + nm[c], "array %c after operation %d (type %d) is not the %s field", nm[c], i, ops[i].what, fo ? "folded" : "original"); }
		if (ops[i].what == 4) for (int r = 0; r < g.nr; r++) for (int c = 0; c < 2; c++) { auto s = o1.find(strf("s%d.%c", i, nm[c]), r); e.check(s && !memcmp(s->data.data(), &M[c][(r * g.depth + ops[i].at) * n * n * el], n * n * el), "slice", "unfolded slice z=%zu of rank %d differs (array %c, folded=%d)", ops[i].at, r, nm[c], ops[i].f); }
		if (ops[i].what == 6) for (int r = 0; r < g.nr; r++) { auto s = o1.find(strf("s%d", i), r); e.check(s && !memcmp(s->data.data(), &M[2][(r * g.depth + ops[i].at) * n * n * el], n * n * el), "slice-m2", "unfolded slice z=%zu of rank %d differs (array m2)", ops[i].at, r); }
		if (ops[i].what == 5) for (int r = 0; r < g.nr; r++) for (int c = 0; c < 2; c++) { auto s = o1.find(strf("s%d.%c", i, nm[c]), r); bool ok = s != nullptr; for (size_t z = 0; ok && z < (size_t) g.depth; z++) for (size_t y = 0; ok && y < n; y++) ok = !memcmp(&s->data[(z * n + y) * el], &M[c][(ops[i].at + n * (y + n * (r * g.depth + z))) * el], el); e.check(ok, "slice-yz", "unfolded plane x=%zu of rank %d differs (array %c, folded=%d)", ops[i].at, r, nm[c], ops[i].f); }
	}
}
static Reg r18({ "C18", "memory layout changes preserve the field", { "harn" }, fold, 4000, 20000, "distinct (field type, precision, ranks, threads, operation sequence, schedule)", { "Folder (all operations)" }, { "OpenMP runtime (simulated)" }, {} });
