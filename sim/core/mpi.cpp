// In-process MPI (Open MPI 4.1 ABI) over the deterministic scheduler.
#include "mpi_int.h"
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <map>
#include <deque>
#include <algorithm>
#include <memory>

// ---- predefined handle objects (addresses are the handles)
#define OBJ(T, n) struct T { char pad[1024]; }; 
struct ompi_predefined_communicator_t { char pad[1024]; };
struct ompi_predefined_datatype_t { char pad[1024]; };
struct ompi_predefined_op_t { char pad[1024]; };
struct ompi_predefined_info_t { char pad[1024]; };
struct ompi_predefined_request_t { char pad[1024]; };
struct ompi_predefined_errhandler_t { char pad[1024]; };
struct ompi_predefined_group_t { char pad[1024]; };
struct ompi_predefined_file_t { char pad[1024]; };
struct ompi_predefined_message_t { char pad[1024]; };
struct ompi_predefined_win_t { char pad[1024]; };
extern "C" {
ompi_predefined_communicator_t ompi_mpi_comm_world, ompi_mpi_comm_self, ompi_mpi_comm_null;
ompi_predefined_info_t ompi_mpi_info_null, ompi_mpi_info_env;
ompi_predefined_request_t ompi_request_null;
ompi_predefined_errhandler_t ompi_mpi_errors_return, ompi_mpi_errors_are_fatal, ompi_mpi_errhandler_null;
ompi_predefined_group_t ompi_mpi_group_null, ompi_mpi_group_empty;
ompi_predefined_file_t ompi_mpi_file_null;
ompi_predefined_win_t ompi_mpi_win_null;
ompi_predefined_op_t ompi_mpi_op_null, ompi_mpi_op_max, ompi_mpi_op_min, ompi_mpi_op_sum, ompi_mpi_op_prod, ompi_mpi_op_land, ompi_mpi_op_band, ompi_mpi_op_lor, ompi_mpi_op_bor, ompi_mpi_op_lxor, ompi_mpi_op_bxor, ompi_mpi_op_maxloc, ompi_mpi_op_minloc, ompi_mpi_op_replace, ompi_mpi_op_no_op;
#define DT(n) ompi_predefined_datatype_t ompi_mpi_##n;
DT(datatype_null) DT(char) DT(signed_char) DT(unsigned_char) DT(byte) DT(short) DT(unsigned_short) DT(int) DT(unsigned) DT(long) DT(unsigned_long) DT(long_long_int) DT(unsigned_long_long) DT(float) DT(double) DT(long_double) DT(c_bool) DT(cxx_bool)
DT(int8_t) DT(int16_t) DT(int32_t) DT(int64_t) DT(uint8_t) DT(uint16_t) DT(uint32_t) DT(uint64_t) DT(packed) DT(aint) DT(offset) DT(count) DT(c_complex) DT(c_float_complex) DT(c_double_complex) DT(wchar) DT(2int) DT(double_int) DT(float_int) DT(long_int)
}

namespace sim {

[[noreturn]] void proto(const char *fmt, ...) {
	char b[900]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	endJob(OC_PROTO, curRank(), 0, "MPI usage error in rank %d: %s", curRank(), b);
}

// ------------------------------------------------------------------ datatypes
static std::map<void*, Dtype> basics;
static Dtype mkBasic(BaseKind k, size_t n) { Dtype d; d.base = k; d.size = n; d.lb = 0; d.extent = n; d.segs = { { 0, n } }; d.committed = true; d.predefined = true; return d; }
static void initBasics() {
	if (!basics.empty()) return;
	auto add = [](void *h, BaseKind k, size_t n) { basics[h] = mkBasic(k, n); basics[h].align = n <= 16 && n ? (long) n : 8; };
	add(&ompi_mpi_char, BK_I8, 1); add(&ompi_mpi_signed_char, BK_I8, 1); add(&ompi_mpi_unsigned_char, BK_U8, 1); add(&ompi_mpi_byte, BK_U8, 1);
	add(&ompi_mpi_short, BK_I16, 2); add(&ompi_mpi_unsigned_short, BK_U16, 2); add(&ompi_mpi_int, BK_I32, 4); add(&ompi_mpi_unsigned, BK_U32, 4);
	add(&ompi_mpi_long, BK_I64, 8); add(&ompi_mpi_unsigned_long, BK_U64, 8); add(&ompi_mpi_long_long_int, BK_I64, 8); add(&ompi_mpi_unsigned_long_long, BK_U64, 8);
	add(&ompi_mpi_float, BK_F32, 4); add(&ompi_mpi_double, BK_F64, 8); add(&ompi_mpi_c_bool, BK_U8, 1); add(&ompi_mpi_cxx_bool, BK_U8, 1);
	add(&ompi_mpi_int8_t, BK_I8, 1); add(&ompi_mpi_int16_t, BK_I16, 2); add(&ompi_mpi_int32_t, BK_I32, 4); add(&ompi_mpi_int64_t, BK_I64, 8);
	add(&ompi_mpi_uint8_t, BK_U8, 1); add(&ompi_mpi_uint16_t, BK_U16, 2); add(&ompi_mpi_uint32_t, BK_U32, 4); add(&ompi_mpi_uint64_t, BK_U64, 8);
	add(&ompi_mpi_packed, BK_U8, 1); add(&ompi_mpi_aint, BK_I64, 8); add(&ompi_mpi_offset, BK_I64, 8); add(&ompi_mpi_count, BK_I64, 8);
	add(&ompi_mpi_c_complex, BK_C32, 8); add(&ompi_mpi_c_float_complex, BK_C32, 8); add(&ompi_mpi_c_double_complex, BK_C64, 16);
}
static std::map<void*, Dtype*> derived;
Dtype *dtype(MPI_Datatype h) {
	auto it = basics.find((void*) h); if (it != basics.end()) return &it->second;
	auto jt = derived.find((void*) h); if (jt != derived.end()) return jt->second;
	proto("invalid datatype handle");
}
static MPI_Datatype newType(Dtype *d) { derived[(void*) d] = d; return (MPI_Datatype) d; }
static void pushSeg(std::vector<Seg> &v, long off, size_t len) {
	if (!len) return;
	if (!v.empty() && v.back().off + (long) v.back().len == off) v.back().len += len; else v.push_back({ off, len });
}
static void place(Dtype *d, Dtype *o, long disp, size_t count) {
	if (o->segs.size() == 1 && o->segs[0].off == 0 && (long) o->segs[0].len == o->extent) { pushSeg(d->segs, disp, o->segs[0].len * count); }
	else for (size_t i = 0; i < count; i++) for (auto &s : o->segs) pushSeg(d->segs, disp + (long) i * o->extent + s.off, s.len);
	d->size += o->size * count; d->align = std::max(d->align, o->align);
}
static void finish(Dtype *d, Dtype *o) {
	long lo = 0, hi = 0; bool f = true;
	for (auto &s : d->segs) { if (f || s.off < lo) lo = s.off; if (f || s.off + (long) s.len > hi) hi = s.off + s.len; f = false; }
	d->lb = lo; d->extent = hi - lo; d->base = o->base;
}
void packInto(const void *buf, int count, Dtype *d, char *out) {
	const char *b = (const char*) buf;
	for (int i = 0; i < count; i++) for (auto &s : d->segs) { memcpy(out, b + (long) i * d->extent + s.off, s.len); out += s.len; }
}
size_t unpackFrom(const char *in, size_t n, void *buf, int count, Dtype *d) {
	char *b = (char*) buf; size_t done = 0;
	for (int i = 0; i < count && done < n; i++) for (auto &s : d->segs) { size_t k = std::min(s.len, n - done); memcpy(b + (long) i * d->extent + s.off, in + done, k); done += k; if (done >= n) break; }
	return done;
}

// ------------------------------------------------------------------ communicators
struct Coll {
	std::string kind; int arrived = 0; int left = 0; bool opened = false;
	std::vector<const void*> sb; std::vector<void*> rb; std::vector<int> sc; std::vector<MPI_Datatype> sd, rd; std::vector<int> rc;
	std::vector<const int*> scs, sds, rcs, rds; std::vector<char> here; std::vector<std::vector<char>> data; std::vector<char> result; bool resultReady = false;
	std::vector<int> ia, ib; std::vector<const MPI_Datatype*> sts, rts; void *shared = nullptr;
	int root = -1; MPI_Op op = nullptr;
};
struct Ctx { int id; std::vector<int> group; std::vector<long> seq; std::map<long, Coll*> colls; };
struct CommObj { Ctx *ctx; int rank; MPI_Errhandler eh; std::map<int, void*> attrs; bool freed = false; char name[64]; };
static std::vector<Ctx*> ctxs;
static std::map<std::pair<int, void*>, CommObj*> comms;    // (world rank, handle) -> object
static Ctx *newCtx(const std::vector<int> &g) { Ctx *c = new Ctx(); c->id = ctxs.size(); c->group = g; c->seq.assign(g.size(), 0); ctxs.push_back(c); return c; }
static CommObj *comm(MPI_Comm h) {
	auto it = comms.find({ curRank(), (void*) h });
	if (it == comms.end()) proto("invalid communicator");
	return it->second;
}
static MPI_Comm mkComm(Ctx *c, int rank) {
	CommObj *o = new CommObj(); o->ctx = c; o->rank = rank; o->eh = (MPI_Errhandler) &ompi_mpi_errors_are_fatal;
	comms[{ curRank(), (void*) o }] = o; return (MPI_Comm) o;
}
int commSizeOf(MPI_Comm c) { return comm(c)->ctx->group.size(); }
int commRankOf(MPI_Comm c) { return comm(c)->rank; }

struct KeyVal { MPI_Comm_delete_attr_function *del; void *extra; };
static std::map<int, KeyVal> keyvals; static int nextKey = 100;
static bool initialized[MAXR], finalizedF[MAXR];

// ------------------------------------------------------------------ point to point
struct Req;
struct Message { int src, dst, ctx, tag; size_t bytes; std::vector<char> data; bool haveData = false, matched = false, sync = false; Req *sreq = nullptr; uint64_t avail = 0; uint64_t seq = 0; bool cancelled = false; };
struct Req {
	bool isSend = false, persistent = false, active = false, done = false, freed = false, ibar = false, genDone = false; int rank = 0;
	const void *sbuf = nullptr; void *rbuf = nullptr; int count = 0; MPI_Datatype dt = nullptr; int peer = 0, tag = 0; MPI_Comm ch = nullptr; Ctx *ctx = nullptr; int myRank = 0;
	std::shared_ptr<Message> msg; MPI_Status st; bool sync = false; long collSeq = 0; bool nullPeer = false;
};
static std::vector<std::deque<std::shared_ptr<Message>>> inbox;     // per destination world rank, send order
static std::vector<std::vector<Req*>> posted;                        // per destination world rank
static uint64_t msgSeq = 0; static std::map<std::pair<int,int>, uint64_t> lastAvail;
static int liveReqs[MAXR];
static std::map<Req*, int> allReqs;

void mpiReset() {
	initBasics(); ctxs.clear(); comms.clear(); keyvals.clear(); inbox.assign(MAXR, {}); posted.assign(MAXR, {}); msgSeq = 0; lastAvail.clear(); allReqs.clear();
	memset(initialized, 0, sizeof initialized); memset(finalizedF, 0, sizeof finalizedF); memset(liveReqs, 0, sizeof liveReqs);
	std::vector<int> g; for (int i = 0; i < spec->nranks; i++) g.push_back(i);
	Ctx *w = newCtx(g);
	for (int i = 0; i < spec->nranks; i++) {
		CommObj *o = new CommObj(); o->ctx = w; o->rank = i; o->eh = (MPI_Errhandler) &ompi_mpi_errors_are_fatal; comms[{ i, (void*) &ompi_mpi_comm_world }] = o;
		CommObj *s = new CommObj(); s->ctx = newCtx({ i }); s->rank = 0; s->eh = (MPI_Errhandler) &ompi_mpi_errors_are_fatal; comms[{ i, (void*) &ompi_mpi_comm_self }] = s;
	}
	mpiioReset();
}
uint64_t mpiNextDelivery() {
	uint64_t w = ~0ULL;
	for (auto &q : inbox) for (auto &m : q) if (m->avail > now() && m->avail < w) w = m->avail;
	return w;
}
static void grab(Message *m) { // take the payload from the sender's buffer
	if (m->haveData) return;
	Req *r = m->sreq; Dtype *d = dtype(r->dt);
	m->data.resize(m->bytes); packInto(r->sbuf, r->count, d, m->data.data());
	m->haveData = true;
}
static bool matches(Req *r, Message *m) {
	if (m->ctx != r->ctx->id || m->matched) return false;
	if (r->peer != MPI_ANY_SOURCE && r->ctx->group[r->peer] != m->src) return false;
	if (r->tag != MPI_ANY_TAG && r->tag != m->tag) return false;
	return true;
}
static std::shared_ptr<Message> findMsg(Req *r, int wr) {
	std::vector<std::shared_ptr<Message>> cand; std::vector<int> seenSrc;
	for (auto &m : inbox[wr]) {
		if (!matches(r, m.get())) continue;
		if (std::find(seenSrc.begin(), seenSrc.end(), m->src) != seenSrc.end()) continue;
		seenSrc.push_back(m->src);
		if (m->avail > now()) continue;
		cand.push_back(m);
	}
	if (cand.empty()) return nullptr;
	if (cand.size() == 1) return cand[0];
	return cand[hash3(spec->seed, 0xa11, cand[0]->seq) % cand.size()];
}
static void completeRecv(Req *r) {   // payload into the user's buffer
	Message *m = r->msg.get(); grab(m);
	Dtype *d = dtype(r->dt); size_t cap = d->size * (size_t) r->count;
	if (m->bytes > cap) proto("message truncated: %zu bytes sent by rank %d (tag %d), receive buffer has %zu", m->bytes, m->src, m->tag, cap);
	unpackFrom(m->data.data(), m->bytes, r->rbuf, r->count, d);
	r->st.MPI_SOURCE = 0; for (size_t i = 0; i < r->ctx->group.size(); i++) if (r->ctx->group[i] == m->src) r->st.MPI_SOURCE = i;
	r->st.MPI_TAG = m->tag; r->st.MPI_ERROR = MPI_SUCCESS; r->st._ucount = m->bytes; r->st._cancelled = 0;
	r->done = true; res->msgs++;
	note(hash3(m->bytes, m->src * 64 + m->dst, m->tag));
}
static void matchPosted(int wr) {
	auto &pv = posted[wr];
	for (size_t i = 0; i < pv.size();) {
		Req *r = pv[i];
		if (r->msg) { i++; continue; }
		auto m = findMsg(r, wr);
		if (!m) { // keep posting order among overlapping receives
			i++; continue;
		}
		m->matched = true; r->msg = m;
		inbox[wr].erase(std::find(inbox[wr].begin(), inbox[wr].end(), m));
		bool late = spec->lateRecv == 1 || (spec->lateRecv == 2 && (hash3(spec->seed, 0x1a7e, m->seq) & 1));
		if (!late) { completeRecv(r); pv.erase(pv.begin() + i); continue; }
		i++;
	}
}
static bool tryComplete(Req *r, bool force) {   // progress one request; force: the owner is waiting for it
	if (r->done) return true;
	if (r->nullPeer) { r->done = true; return true; }
	if (r->isSend) {
		Message *m = r->msg.get();
		if (m->haveData && !m->sync) { r->done = true; return true; }
		if (!m->matched) matchPosted(m->dst);
		if (m->matched) { grab(m); r->done = true; return true; }
		return false;
	}
	if (r->ibar) { Coll *c = r->ctx->colls[r->collSeq]; if (c->arrived == (int) r->ctx->group.size()) { r->done = true; return true; } return false; }
	matchPosted(r->rank);
	if (r->done) return true;
	if (r->msg && force) { completeRecv(r); auto &pv = posted[r->rank]; pv.erase(std::find(pv.begin(), pv.end(), r)); return true; }
	return false;
}
static void startSend(Req *r) {
	r->active = true; r->done = false; r->msg.reset();
	if (r->peer == MPI_PROC_NULL) { r->nullPeer = true; return; }
	Dtype *d = dtype(r->dt);
	auto m = std::make_shared<Message>(); m->src = r->rank; m->dst = r->ctx->group[r->peer]; m->ctx = r->ctx->id; m->tag = r->tag; m->bytes = d->size * (size_t) r->count; m->sreq = r; m->seq = ++msgSeq;
	bool eager = spec->eager == 1 || (spec->eager == 2 && (hash3(spec->seed, 0xea9e, m->seq) & 1));
	m->sync = r->sync;
	uint64_t delay = spec->netDelay > 0 ? hash3(spec->seed, 0xde1a, m->seq) % (uint64_t) spec->netDelay : 0;
	uint64_t &la = lastAvail[{ m->src, m->dst }]; m->avail = std::max(now() + delay, la); la = m->avail;
	r->msg = m;
	if (eager) { grab(m.get()); m->sreq = nullptr; }
	inbox[m->dst].push_back(m);
}
static void startRecv(Req *r) {
	r->active = true; r->done = false; r->msg.reset();
	if (r->peer == MPI_PROC_NULL) { r->nullPeer = true; r->st.MPI_SOURCE = MPI_PROC_NULL; r->st.MPI_TAG = MPI_ANY_TAG; r->st._ucount = 0; return; }
	if (spec->lateRecv) { // contents of a posted receive buffer are undefined until completion
		Dtype *d = dtype(r->dt); unsigned char p = 0xff - (spec->perturb & 0x0f);
		for (int i = 0; i < r->count; i++) for (auto &s : d->segs) memset((char*) r->rbuf + (long) i * d->extent + s.off, p, s.len);
	}
	posted[r->rank].push_back(r);
}
static Req *newReq() { Req *r = new Req(); r->rank = curRank(); liveReqs[r->rank]++; allReqs[r] = 1; memset(&r->st, 0, sizeof r->st); return r; }
static void dropReq(Req *r) { liveReqs[r->rank]--; allReqs.erase(r); if (r->msg && r->msg->sreq == r) { grab(r->msg.get()); r->msg->sreq = nullptr; } delete r; }
static Req *req(MPI_Request h) { Req *r = (Req*) h; if (allReqs.find(r) == allReqs.end()) proto("invalid request handle"); return r; }
static void fillSend(Req *r, const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c) {
	auto o = comm(c); if (dst != MPI_PROC_NULL && (dst < 0 || dst >= (int) o->ctx->group.size())) proto("send to invalid rank %d", dst);
	if (n < 0) proto("negative count"); if (tag < 0) proto("negative tag %d in send", tag);
	r->isSend = true; r->sbuf = b; r->count = n; r->dt = t; r->peer = dst; r->tag = tag; r->ch = c; r->ctx = o->ctx; r->myRank = o->rank;
}
static void fillRecv(Req *r, void *b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c) {
	auto o = comm(c); if (src != MPI_PROC_NULL && src != MPI_ANY_SOURCE && (src < 0 || src >= (int) o->ctx->group.size())) proto("receive from invalid rank %d", src);
	if (n < 0) proto("negative count");
	r->isSend = false; r->rbuf = b; r->count = n; r->dt = t; r->peer = src; r->tag = tag; r->ch = c; r->ctx = o->ctx; r->myRank = o->rank;
}
static void waitReq(Req *r, const char *why) {
	yieldNow(why);
	if (!tryComplete(r, true)) block([r] { return tryComplete(r, true); }, why);
}

// ------------------------------------------------------------------ reductions
template<class T> static void redT(MPI_Op op, const T *in, T *io, size_t n) {
	void *o = (void*) op;
	for (size_t i = 0; i < n; i++) {
		if (o == &ompi_mpi_op_sum) io[i] = io[i] + in[i];
		else if (o == &ompi_mpi_op_max) io[i] = in[i] > io[i] ? in[i] : io[i];
		else if (o == &ompi_mpi_op_min) io[i] = in[i] < io[i] ? in[i] : io[i];
		else if (o == &ompi_mpi_op_prod) io[i] = io[i] * in[i];
		else if (o == &ompi_mpi_op_land) io[i] = (T)(io[i] && in[i]);
		else if (o == &ompi_mpi_op_lor) io[i] = (T)(io[i] || in[i]);
		else proto("unsupported reduction on this type");
	}
}
template<class T> static void redI(MPI_Op op, const T *in, T *io, size_t n) {
	void *o = (void*) op;
	if (o == &ompi_mpi_op_band) for (size_t i = 0; i < n; i++) io[i] &= in[i];
	else if (o == &ompi_mpi_op_bor) for (size_t i = 0; i < n; i++) io[i] |= in[i];
	else if (o == &ompi_mpi_op_bxor) for (size_t i = 0; i < n; i++) io[i] ^= in[i];
	else if (o == &ompi_mpi_op_lxor) for (size_t i = 0; i < n; i++) io[i] = (T)(!io[i] != !in[i]);
	else redT(op, in, io, n);
}
static void reduceInto(MPI_Op op, MPI_Datatype t, const char *in, char *io, size_t count) {
	Dtype *d = dtype(t);
	size_t bs = 1; switch (d->base) { case BK_I16: case BK_U16: bs = 2; break; case BK_I32: case BK_U32: case BK_F32: bs = 4; break; case BK_I64: case BK_U64: case BK_F64: case BK_C32: bs = 8; break; case BK_C64: bs = 16; break; default: bs = 1; }
	size_t n = d->size * count / bs;
	switch (d->base) {
		case BK_I8: redI(op, (const signed char*) in, (signed char*) io, n); break;
		case BK_U8: redI(op, (const unsigned char*) in, (unsigned char*) io, n); break;
		case BK_I16: redI(op, (const short*) in, (short*) io, n); break;
		case BK_U16: redI(op, (const unsigned short*) in, (unsigned short*) io, n); break;
		case BK_I32: redI(op, (const int*) in, (int*) io, n); break;
		case BK_U32: redI(op, (const unsigned*) in, (unsigned*) io, n); break;
		case BK_I64: redI(op, (const long*) in, (long*) io, n); break;
		case BK_U64: redI(op, (const unsigned long*) in, (unsigned long*) io, n); break;
		case BK_F32: redT(op, (const float*) in, (float*) io, n); break;
		case BK_F64: redT(op, (const double*) in, (double*) io, n); break;
		case BK_C32: redT(op, (const float*) in, (float*) io, n * 2); break;
		case BK_C64: redT(op, (const double*) in, (double*) io, n * 2); break;
	}
}

// ------------------------------------------------------------------ collectives
static Coll *enter(CommObj *o, const char *kind, long &seqOut) {
	if (finalizedF[curRank()]) proto("%s after MPI_Finalize", kind);
	Ctx *x = o->ctx; long s = x->seq[o->rank]++; seqOut = s;
	Coll *&c = x->colls[s];
	size_t n = x->group.size();
	if (!c) { c = new Coll(); c->kind = kind; c->sb.resize(n); c->rb.resize(n); c->sc.resize(n); c->rc.resize(n); c->sd.resize(n); c->rd.resize(n); c->scs.resize(n); c->sds.resize(n); c->rcs.resize(n); c->rds.resize(n); c->here.assign(n, 0); c->data.resize(n); c->ia.resize(n); c->ib.resize(n); c->sts.resize(n); c->rts.resize(n); }
	else if (c->kind != kind) proto("collective mismatch on communicator %d, call #%ld: rank %d called %s while another rank called %s", x->id, s, o->rank, kind, c->kind.c_str());
	c->arrived++; c->here[o->rank] = 1; res->colls++;
	return c;
}
static void leave(CommObj *o, Coll *c, long s) {
	if (++c->left == (int) o->ctx->group.size()) { o->ctx->colls.erase(s); delete c; }
}
static bool full(CommObj *o, Coll *c) { return c->arrived == (int) o->ctx->group.size(); }
static void waitFull(CommObj *o, Coll *c, const char *why) {
	yieldNow(why);
	if (!full(o, c)) block([o, c] { return full(o, c); }, why);
}
static std::vector<char> packed(const void *b, int n, MPI_Datatype t) { Dtype *d = dtype(t); std::vector<char> v(d->size * (size_t) n); packInto(b, n, d, v.data()); return v; }
static void checkRoot(CommObj *o, Coll *c, int root) {
	if (root < 0 || root >= (int) o->ctx->group.size()) proto("%s: invalid root %d", c->kind.c_str(), root);
	if (c->arrived == 1) c->root = root; else if (c->root != root) proto("%s: ranks disagree on the root (%d and %d)", c->kind.c_str(), c->root, root);
}
static void combine(CommObj *o, Coll *c, MPI_Op op, MPI_Datatype t, int count, long s) {
	if (c->resultReady) return;
	size_t n = o->ctx->group.size(); std::vector<int> ord(n); for (size_t i = 0; i < n; i++) ord[i] = i;
	if (spec->redOrder) { Rng r(hash3(spec->seed, 0x4ed0, s * 131 + o->ctx->id)); for (size_t i = n; i > 1; i--) std::swap(ord[i - 1], ord[r.below(i)]); }
	c->result = c->data[ord[0]];
	for (size_t i = 1; i < n; i++) reduceInto(op, t, c->data[ord[i]].data(), c->result.data(), count);
	c->resultReady = true;
}
static void checkRed(CommObj *o, Coll *c, MPI_Op op, size_t bytes) {
	if (c->arrived == 1) c->op = op; else if (c->op != op) proto("%s: ranks disagree on the operation", c->kind.c_str());
	for (size_t i = 0; i < c->data.size(); i++) if (c->here[i] && c->data[i].size() != bytes) proto("%s: ranks disagree on the amount of data (%zu and %zu bytes)", c->kind.c_str(), c->data[i].size(), bytes);
}
// used by MPI-IO: a synchronising collective; last one to arrive runs fn
void collSync(MPI_Comm ch, const char *kind, const std::function<void()> &last) {
	auto o = comm(ch); long s; Coll *c = enter(o, kind, s);
	if (full(o, c) && last) last();
	waitFull(o, c, kind); leave(o, c, s);
}
// like collSync but does not make anybody wait: it only checks that all ranks make the same calls
void collMatch(MPI_Comm ch, const char *kind) { auto o = comm(ch); long s; Coll *c = enter(o, kind, s); yieldNow(kind); leave(o, c, s); }
void *collShared(MPI_Comm ch, const char *kind, const std::function<void*()> &make) {
	auto o = comm(ch); long s; Coll *c = enter(o, kind, s);
	if (c->arrived == 1) c->shared = make();
	waitFull(o, c, kind); void *p = c->shared; leave(o, c, s); return p;
}
MPI_Comm dupComm(MPI_Comm ch) {
	auto o = comm(ch); long s; Coll *c = enter(o, "MPI_Comm_dup", s);
	if (!c->shared) c->shared = newCtx(o->ctx->group);
	waitFull(o, c, "MPI_Comm_dup"); Ctx *x = (Ctx*) c->shared; MPI_Comm r = mkComm(x, o->rank); comm(r)->eh = o->eh; leave(o, c, s); return r;
}
static int errOn(MPI_Comm, int code) { return code; }
} // namespace sim

using namespace sim;
static std::map<std::pair<int,void*>, std::map<std::string, std::string>> infos;

#define REQ_INIT() 
extern "C" {
int MPI_Init(int*, char***) { yieldNow("MPI_Init"); if (initialized[curRank()]) proto("MPI_Init called twice"); initialized[curRank()] = true; return MPI_SUCCESS; }
int MPI_Init_thread(int *a, char ***b, int req, int *prov) { if (prov) *prov = req; return MPI_Init(a, b); }
int MPI_Query_thread(int *p) { *p = MPI_THREAD_FUNNELED; return MPI_SUCCESS; }
int MPI_Initialized(int *f) { *f = initialized[curRank()]; return MPI_SUCCESS; }
int MPI_Finalized(int *f) { *f = finalizedF[curRank()]; return MPI_SUCCESS; }
int MPI_Is_thread_main(int *f) { *f = cur->kind == 0; return MPI_SUCCESS; }
int MPI_Finalize() {
	int r = curRank();
	if (finalizedF[r]) proto("MPI_Finalize called twice");
	auto o = comm((MPI_Comm) &ompi_mpi_comm_self);
	while (!o->attrs.empty()) { auto it = std::prev(o->attrs.end()); int k = it->first; void *v = it->second; o->attrs.erase(it); if (keyvals[k].del) keyvals[k].del((MPI_Comm) &ompi_mpi_comm_self, k, v, keyvals[k].extra); }
	auto w = comm((MPI_Comm) &ompi_mpi_comm_world); long s; Coll *c = enter(w, "MPI_Finalize", s); waitFull(w, c, "MPI_Finalize"); leave(w, c, s);
	finalizedF[r] = true; res->finalized[r] = 1; res->leakedReq += liveReqs[r];
	return MPI_SUCCESS;
}
int MPI_Abort(MPI_Comm, int code) { endJob(OC_MPIABORT, curRank(), code, "rank %d called MPI_Abort(%d)", curRank(), code); }
int MPI_Comm_rank(MPI_Comm c, int *r) { *r = comm(c)->rank; return MPI_SUCCESS; }
int MPI_Comm_size(MPI_Comm c, int *n) { *n = comm(c)->ctx->group.size(); return MPI_SUCCESS; }
int MPI_Comm_compare(MPI_Comm a, MPI_Comm b, int *r) { auto x = comm(a), y = comm(b); *r = x->ctx == y->ctx ? MPI_IDENT : x->ctx->group == y->ctx->group ? MPI_CONGRUENT : MPI_UNEQUAL; return MPI_SUCCESS; }
int MPI_Comm_dup(MPI_Comm c, MPI_Comm *n) { *n = dupComm(c); return MPI_SUCCESS; }
int MPI_Comm_free(MPI_Comm *c) {
	auto o = comm(*c);
	while (!o->attrs.empty()) { auto it = o->attrs.begin(); int k = it->first; void *v = it->second; o->attrs.erase(it); if (keyvals[k].del) keyvals[k].del(*c, k, v, keyvals[k].extra); }
	comms.erase({ curRank(), (void*) *c }); *c = MPI_COMM_NULL; return MPI_SUCCESS;
}
int MPI_Comm_split(MPI_Comm ch, int color, int key, MPI_Comm *n) {
	auto o = comm(ch); long s; Coll *c = enter(o, "MPI_Comm_split", s); c->ia[o->rank] = color; c->ib[o->rank] = key;
	waitFull(o, c, "MPI_Comm_split");
	if (!c->shared) {
		auto *mp = new std::map<int, Ctx*>(); std::map<int, std::vector<std::pair<int,int>>> g;
		for (size_t i = 0; i < o->ctx->group.size(); i++) if (c->ia[i] != MPI_UNDEFINED) g[c->ia[i]].push_back({ c->ib[i], (int) i });
		for (auto &kv : g) { std::stable_sort(kv.second.begin(), kv.second.end()); std::vector<int> v; for (auto &p : kv.second) v.push_back(o->ctx->group[p.second]); (*mp)[kv.first] = newCtx(v); }
		c->shared = mp;
	}
	if (color == MPI_UNDEFINED) *n = MPI_COMM_NULL;
	else { Ctx *x = (*(std::map<int, Ctx*>*) c->shared)[color]; int r = std::find(x->group.begin(), x->group.end(), curRank()) - x->group.begin(); *n = mkComm(x, r); }
	leave(o, c, s); return MPI_SUCCESS;
}
int MPI_Comm_split_type(MPI_Comm c, int, int key, MPI_Info, MPI_Comm *n) { return MPI_Comm_split(c, 0, key, n); }
MPI_Comm MPI_Comm_f2c(MPI_Fint) { return (MPI_Comm) &ompi_mpi_comm_world; }
MPI_Fint MPI_Comm_c2f(MPI_Comm) { return 0; }
int MPI_Comm_create_keyval(MPI_Comm_copy_attr_function *, MPI_Comm_delete_attr_function *d, int *k, void *e) { *k = nextKey++; keyvals[*k] = { d, e }; return MPI_SUCCESS; }
int MPI_Comm_free_keyval(int *k) { *k = MPI_KEYVAL_INVALID; return MPI_SUCCESS; }
int MPI_Comm_set_attr(MPI_Comm c, int k, void *v) { comm(c)->attrs[k] = v; return MPI_SUCCESS; }
int MPI_Comm_get_attr(MPI_Comm c, int k, void *v, int *f) {
	static int tagub = 0x7fffffff; if (k == MPI_TAG_UB) { *(int**) v = &tagub; *f = 1; return MPI_SUCCESS; }
	auto o = comm(c); auto it = o->attrs.find(k); *f = it != o->attrs.end(); if (*f) *(void**) v = it->second; return MPI_SUCCESS; }
int MPI_Comm_delete_attr(MPI_Comm c, int k) { comm(c)->attrs.erase(k); return MPI_SUCCESS; }
int MPI_Comm_set_errhandler(MPI_Comm c, MPI_Errhandler e) { comm(c)->eh = e; return MPI_SUCCESS; }
int MPI_Comm_get_errhandler(MPI_Comm c, MPI_Errhandler *e) { *e = comm(c)->eh; return MPI_SUCCESS; }
int MPI_Errhandler_free(MPI_Errhandler *e) { *e = MPI_ERRHANDLER_NULL; return MPI_SUCCESS; }
int MPI_Comm_set_name(MPI_Comm, const char*) { return MPI_SUCCESS; }
int OMPI_C_MPI_COMM_NULL_COPY_FN(MPI_Comm, int, void*, void*, void*, int *f) { *f = 0; return MPI_SUCCESS; }
int OMPI_C_MPI_COMM_NULL_DELETE_FN(MPI_Comm, int, void*, void*) { return MPI_SUCCESS; }
int OMPI_C_MPI_COMM_DUP_FN(MPI_Comm, int, void*, void *a, void *b, int *f) { *f = 1; *(void**) b = a; return MPI_SUCCESS; }
int MPI_Get_processor_name(char *n, int *l) { strcpy(n, "simnode"); *l = 7; return MPI_SUCCESS; }
int MPI_Get_version(int *a, int *b) { *a = 3; *b = 1; return MPI_SUCCESS; }
int MPI_Get_library_version(char *s, int *l) { strcpy(s, "simulator"); *l = 9; return MPI_SUCCESS; }
int MPI_Error_string(int e, char *s, int *l) { *l = sprintf(s, "simulated MPI error %d", e); return MPI_SUCCESS; }
int MPI_Error_class(int e, int *c) { *c = e; return MPI_SUCCESS; }
double MPI_Wtime() { return sim::now() * 1e-9; }
double MPI_Wtick() { return 1e-9; }
int MPI_Get_address(const void *p, MPI_Aint *a) { *a = (MPI_Aint) p; return MPI_SUCCESS; }
int MPI_Alloc_mem(MPI_Aint n, MPI_Info, void *p) { *(void**) p = malloc(n); return MPI_SUCCESS; }
int MPI_Free_mem(void *p) { free(p); return MPI_SUCCESS; }

// ---- info objects
int MPI_Info_create(MPI_Info *i) { void *p = malloc(8); infos[{ 0, p }]; *i = (MPI_Info) p; return MPI_SUCCESS; }
int MPI_Info_set(MPI_Info i, const char *k, const char *v) { infos[{ 0, (void*) i }][k] = v; return MPI_SUCCESS; }
int MPI_Info_delete(MPI_Info i, const char *k) { infos[{ 0, (void*) i }].erase(k); return MPI_SUCCESS; }
int MPI_Info_get(MPI_Info i, const char *k, int n, char *v, int *f) { auto &m = infos[{ 0, (void*) i }]; auto it = m.find(k); *f = it != m.end(); if (*f) { strncpy(v, it->second.c_str(), n); } return MPI_SUCCESS; }
int MPI_Info_get_nkeys(MPI_Info i, int *n) { *n = infos[{ 0, (void*) i }].size(); return MPI_SUCCESS; }
int MPI_Info_get_nthkey(MPI_Info i, int n, char *k) { auto it = infos[{ 0, (void*) i }].begin(); std::advance(it, n); strcpy(k, it->first.c_str()); return MPI_SUCCESS; }
int MPI_Info_dup(MPI_Info i, MPI_Info *o) { MPI_Info_create(o); infos[{ 0, (void*) *o }] = infos[{ 0, (void*) i }]; return MPI_SUCCESS; }
int MPI_Info_free(MPI_Info *i) { infos.erase({ 0, (void*) *i }); *i = MPI_INFO_NULL; return MPI_SUCCESS; }

// ---- datatypes
int MPI_Type_contiguous(int n, MPI_Datatype o, MPI_Datatype *t) { auto d = new Dtype(); place(d, dtype(o), 0, n); finish(d, dtype(o)); d->extent = (long) n * dtype(o)->extent; d->lb = dtype(o)->lb; *t = newType(d); return MPI_SUCCESS; }
static void vec(Dtype *d, int n, int bl, long strideBytes, Dtype *o) { for (int i = 0; i < n; i++) place(d, o, (long) i * strideBytes, bl); finish(d, o); }
int MPI_Type_vector(int n, int bl, int st, MPI_Datatype o, MPI_Datatype *t) { auto d = new Dtype(); vec(d, n, bl, (long) st * dtype(o)->extent, dtype(o)); *t = newType(d); return MPI_SUCCESS; }
int MPI_Type_create_hvector(int n, int bl, MPI_Aint st, MPI_Datatype o, MPI_Datatype *t) { auto d = new Dtype(); vec(d, n, bl, st, dtype(o)); *t = newType(d); return MPI_SUCCESS; }
int MPI_Type_create_hindexed(int n, const int bl[], const MPI_Aint di[], MPI_Datatype o, MPI_Datatype *t) { auto d = new Dtype(); for (int i = 0; i < n; i++) place(d, dtype(o), di[i], bl[i]); finish(d, dtype(o)); *t = newType(d); return MPI_SUCCESS; }
int MPI_Type_create_hindexed_block(int n, int bl, const MPI_Aint di[], MPI_Datatype o, MPI_Datatype *t) { auto d = new Dtype(); for (int i = 0; i < n; i++) place(d, dtype(o), di[i], bl); finish(d, dtype(o)); *t = newType(d); return MPI_SUCCESS; }
int MPI_Type_indexed(int n, const int bl[], const int di[], MPI_Datatype o, MPI_Datatype *t) { auto d = new Dtype(); for (int i = 0; i < n; i++) place(d, dtype(o), (long) di[i] * dtype(o)->extent, bl[i]); finish(d, dtype(o)); *t = newType(d); return MPI_SUCCESS; }
int MPI_Type_create_struct(int n, const int bl[], const MPI_Aint di[], const MPI_Datatype ty[], MPI_Datatype *t) { auto d = new Dtype(); for (int i = 0; i < n; i++) place(d, dtype(ty[i]), di[i], bl[i]); finish(d, n ? dtype(ty[0]) : dtype((MPI_Datatype) &ompi_mpi_byte)); d->extent = (d->extent + d->align - 1) / d->align * d->align; /* alignment padding of a C struct */ *t = newType(d); return MPI_SUCCESS; }
int MPI_Type_create_resized(MPI_Datatype o, MPI_Aint lb, MPI_Aint ex, MPI_Datatype *t) { auto d = new Dtype(*dtype(o)); d->predefined = false; d->lb = lb; d->extent = ex; *t = newType(d); return MPI_SUCCESS; }
int MPI_Type_create_subarray(int nd, const int sz[], const int sub[], const int st[], int order, MPI_Datatype o, MPI_Datatype *t) {
	Dtype *ot = dtype(o); auto d = new Dtype(); std::vector<int> ix(nd, 0); bool c = order == MPI_ORDER_C;
	long total = 1; for (int i = 0; i < nd; i++) total *= sz[i];
	std::vector<long> stride(nd); long a = 1; if (c) for (int i = nd - 1; i >= 0; i--) { stride[i] = a; a *= sz[i]; } else for (int i = 0; i < nd; i++) { stride[i] = a; a *= sz[i]; }
	for (;;) { long off = 0; for (int i = 0; i < nd; i++) off += (st[i] + ix[i]) * stride[i]; place(d, ot, off * ot->extent, 1); int k; if (c) { for (k = nd - 1; k >= 0; k--) { if (++ix[k] < sub[k]) break; ix[k] = 0; } if (k < 0) break; } else { for (k = 0; k < nd; k++) { if (++ix[k] < sub[k]) break; ix[k] = 0; } if (k == nd) break; } }
	finish(d, ot); d->lb = 0; d->extent = total * ot->extent; *t = newType(d); return MPI_SUCCESS; }
int MPI_Type_dup(MPI_Datatype o, MPI_Datatype *t) { auto d = new Dtype(*dtype(o)); d->predefined = false; *t = newType(d); return MPI_SUCCESS; }
int MPI_Type_commit(MPI_Datatype *t) { dtype(*t)->committed = true; return MPI_SUCCESS; }
int MPI_Type_free(MPI_Datatype *t) { auto it = derived.find((void*) *t); if (it == derived.end()) proto("MPI_Type_free of a predefined or invalid type"); /* kept alive: pending operations may still use it */ derived[(void*) *t] = it->second; *t = MPI_DATATYPE_NULL; return MPI_SUCCESS; }
int MPI_Type_size(MPI_Datatype t, int *n) { *n = dtype(t)->size; return MPI_SUCCESS; }
int MPI_Type_size_x(MPI_Datatype t, MPI_Count *n) { *n = dtype(t)->size; return MPI_SUCCESS; }
int MPI_Type_get_extent(MPI_Datatype t, MPI_Aint *lb, MPI_Aint *ex) { *lb = dtype(t)->lb; *ex = dtype(t)->extent; return MPI_SUCCESS; }
int MPI_Type_get_extent_x(MPI_Datatype t, MPI_Count *lb, MPI_Count *ex) { *lb = dtype(t)->lb; *ex = dtype(t)->extent; return MPI_SUCCESS; }
int MPI_Type_get_true_extent(MPI_Datatype t, MPI_Aint *lb, MPI_Aint *ex) { *lb = dtype(t)->lb; *ex = dtype(t)->extent; return MPI_SUCCESS; }
int MPI_Get_count(const MPI_Status *s, MPI_Datatype t, int *n) { size_t z = dtype(t)->size; *n = z ? (int)(s->_ucount / z) : 0; return MPI_SUCCESS; }
int MPI_Get_elements(const MPI_Status *s, MPI_Datatype t, int *n) { (void) t; *n = (int) s->_ucount; return MPI_SUCCESS; }
int MPI_Get_elements_x(const MPI_Status *s, MPI_Datatype t, MPI_Count *n) { auto b = dtype(t); size_t bs = b->base == BK_U8 || b->base == BK_I8 ? 1 : b->size; *n = s->_ucount / (bs ? bs : 1); return MPI_SUCCESS; }
int MPI_Status_set_elements(MPI_Status *s, MPI_Datatype t, int n) { s->_ucount = dtype(t)->size * (size_t) n; return MPI_SUCCESS; }

// ---- point to point
static int sendGeneric(const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, bool sync, const char *why) {
	Req *r = newReq(); fillSend(r, b, n, t, dst, tag, c); r->sync = sync; startSend(r); waitReq(r, why); dropReq(r); return MPI_SUCCESS;
}
int MPI_Send(const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c) { return sendGeneric(b, n, t, dst, tag, c, false, "MPI_Send"); }
int MPI_Ssend(const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c) { return sendGeneric(b, n, t, dst, tag, c, true, "MPI_Ssend"); }
int MPI_Rsend(const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c) { return sendGeneric(b, n, t, dst, tag, c, false, "MPI_Rsend"); }
int MPI_Recv(void *b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Status *st) {
	Req *r = newReq(); fillRecv(r, b, n, t, src, tag, c); startRecv(r); waitReq(r, "MPI_Recv"); if (st != MPI_STATUS_IGNORE) *st = r->st; dropReq(r); return MPI_SUCCESS;
}
int MPI_Sendrecv(const void *sb, int sn, MPI_Datatype stp, int dst, int stag, void *rb, int rn, MPI_Datatype rt, int src, int rtag, MPI_Comm c, MPI_Status *st) {
	Req *r = newReq(); fillRecv(r, rb, rn, rt, src, rtag, c); startRecv(r);
	Req *s = newReq(); fillSend(s, sb, sn, stp, dst, stag, c); startSend(s);
	yieldNow("MPI_Sendrecv");
	auto both = [r, s] { bool a = tryComplete(s, true), b2 = tryComplete(r, true); return a && b2; };
	if (!both()) block(both, "MPI_Sendrecv");
	if (st != MPI_STATUS_IGNORE) *st = r->st; dropReq(r); dropReq(s); return MPI_SUCCESS;
}
int MPI_Sendrecv_replace(void *b, int n, MPI_Datatype t, int dst, int stag, int src, int rtag, MPI_Comm c, MPI_Status *st) {
	std::vector<char> tmp = packed(b, n, t); Dtype *d = dtype(t);
	std::vector<char> out(d->size * n);
	int rc = MPI_Sendrecv(tmp.data(), tmp.size(), (MPI_Datatype) &ompi_mpi_byte, dst, stag, out.data(), out.size(), (MPI_Datatype) &ompi_mpi_byte, src, rtag, c, st);
	if (src != MPI_PROC_NULL) unpackFrom(out.data(), out.size(), b, n, d);
	return rc;
}
static int isendG(const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, MPI_Request *q, bool sync) { Req *r = newReq(); fillSend(r, b, n, t, dst, tag, c); r->sync = sync; startSend(r); *q = (MPI_Request) r; yieldNow("MPI_Isend"); return MPI_SUCCESS; }
int MPI_Isend(const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, MPI_Request *q) { return isendG(b, n, t, dst, tag, c, q, false); }
int MPI_Issend(const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, MPI_Request *q) { return isendG(b, n, t, dst, tag, c, q, true); }
int MPI_Ibsend(const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, MPI_Request *q) { return isendG(b, n, t, dst, tag, c, q, false); }
int MPI_Irecv(void *b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Request *q) { Req *r = newReq(); fillRecv(r, b, n, t, src, tag, c); startRecv(r); *q = (MPI_Request) r; yieldNow("MPI_Irecv"); return MPI_SUCCESS; }
int MPI_Send_init(const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, MPI_Request *q) { Req *r = newReq(); fillSend(r, b, n, t, dst, tag, c); r->persistent = true; *q = (MPI_Request) r; return MPI_SUCCESS; }
int MPI_Ssend_init(const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, MPI_Request *q) { MPI_Send_init(b, n, t, dst, tag, c, q); ((Req*) *q)->sync = true; return MPI_SUCCESS; }
int MPI_Recv_init(void *b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Request *q) { Req *r = newReq(); fillRecv(r, b, n, t, src, tag, c); r->persistent = true; *q = (MPI_Request) r; return MPI_SUCCESS; }
int MPI_Start(MPI_Request *q) { Req *r = req(*q); if (!r->persistent) proto("MPI_Start on a non-persistent request"); if (r->active) proto("MPI_Start on an active request"); if (r->isSend) startSend(r); else startRecv(r); yieldNow("MPI_Start"); return MPI_SUCCESS; }
int MPI_Startall(int n, MPI_Request q[]) { for (int i = 0; i < n; i++) MPI_Start(&q[i]); return MPI_SUCCESS; }
static void retire(MPI_Request *q, MPI_Status *st) {
	Req *r = req(*q);
	if (st != MPI_STATUS_IGNORE) { MPI_Status e; memset(&e, 0, sizeof e); e.MPI_SOURCE = MPI_ANY_SOURCE; e.MPI_TAG = MPI_ANY_TAG; *st = r->active ? r->st : e; }
	if (r->persistent) { r->active = false; r->done = false; if (r->msg && r->msg->sreq == r) { grab(r->msg.get()); r->msg->sreq = nullptr; } r->msg.reset(); }
	else { if (r->ibar) { auto o = comm(r->ch); Coll *c = r->ctx->colls[r->collSeq]; leave(o, c, r->collSeq); } dropReq(r); *q = MPI_REQUEST_NULL; }
}
static void emptyStatus(MPI_Status *st) { if (st != MPI_STATUS_IGNORE) { memset(st, 0, sizeof *st); st->MPI_SOURCE = MPI_ANY_SOURCE; st->MPI_TAG = MPI_ANY_TAG; } }
int MPI_Wait(MPI_Request *q, MPI_Status *st) {
	if (*q == MPI_REQUEST_NULL) { emptyStatus(st); return MPI_SUCCESS; }
	Req *r = req(*q); if (r->persistent && !r->active) { emptyStatus(st); return MPI_SUCCESS; }
	waitReq(r, r->isSend ? "MPI_Wait(send)" : "MPI_Wait(recv)"); retire(q, st); return MPI_SUCCESS;
}
int MPI_Waitall(int n, MPI_Request q[], MPI_Status st[]) {
	for (int i = 0; i < n; i++) {} // all requests progress together
	yieldNow("MPI_Waitall");
	auto all = [n, q] { bool a = true; for (int i = 0; i < n; i++) { if (q[i] == MPI_REQUEST_NULL) continue; Req *r = (Req*) q[i]; if (r->persistent && !r->active) continue; if (!tryComplete(r, true)) a = false; } return a; };
	for (int i = 0; i < n; i++) if (q[i] != MPI_REQUEST_NULL) req(q[i]);
	if (!all()) block(all, "MPI_Waitall");
	for (int i = 0; i < n; i++) { MPI_Status *s = st == MPI_STATUSES_IGNORE ? MPI_STATUS_IGNORE : &st[i]; if (q[i] == MPI_REQUEST_NULL) emptyStatus(s); else retire(&q[i], s); }
	return MPI_SUCCESS;
}
int MPI_Waitany(int n, MPI_Request q[], int *ix, MPI_Status *st) {
	bool any = false; for (int i = 0; i < n; i++) if (q[i] != MPI_REQUEST_NULL && (!req(q[i])->persistent || req(q[i])->active)) any = true;
	if (!any) { *ix = MPI_UNDEFINED; emptyStatus(st); return MPI_SUCCESS; }
	int found = -1; int *pf = &found;
	auto one = [n, q, pf] { for (int i = 0; i < n; i++) { if (q[i] == MPI_REQUEST_NULL) continue; Req *r = (Req*) q[i]; if (r->persistent && !r->active) continue; if (tryComplete(r, true)) { *pf = i; return true; } } return false; };
	yieldNow("MPI_Waitany"); if (!one()) block(one, "MPI_Waitany"); *ix = found; retire(&q[found], st); return MPI_SUCCESS;
}
static bool testLie(Req *r) { static std::map<Req*, int> n; (void) r; return (hash3(spec->seed, 0x7e57, ++msgSeq) & 3) == 0 && spec->lateRecv; }
int MPI_Test(MPI_Request *q, int *f, MPI_Status *st) {
	if (*q == MPI_REQUEST_NULL) { *f = 1; emptyStatus(st); return MPI_SUCCESS; }
	Req *r = req(*q); if (r->persistent && !r->active) { *f = 1; emptyStatus(st); return MPI_SUCCESS; }
	bool ok = !testLie(r) && tryComplete(r, true);
	if (ok) { *f = 1; retire(q, st); yieldNow("MPI_Test"); } else { *f = 0; yieldNow("MPI_Test", true); }
	return MPI_SUCCESS;
}
int MPI_Testall(int n, MPI_Request q[], int *f, MPI_Status st[]) {
	bool a = true; for (int i = 0; i < n; i++) { if (q[i] == MPI_REQUEST_NULL) continue; Req *r = req(q[i]); if (r->persistent && !r->active) continue; if (!tryComplete(r, true)) a = false; }
	*f = a; if (a) { for (int i = 0; i < n; i++) { MPI_Status *s = st == MPI_STATUSES_IGNORE ? MPI_STATUS_IGNORE : &st[i]; if (q[i] == MPI_REQUEST_NULL) emptyStatus(s); else retire(&q[i], s); } yieldNow("MPI_Testall"); } else yieldNow("MPI_Testall", true);
	return MPI_SUCCESS;
}
int MPI_Request_free(MPI_Request *q) {
	Req *r = req(*q);
	if (r->active && !r->done) {
		if (!r->isSend && !r->ibar) proto("MPI_Request_free on an active receive");
		if (r->isSend && r->msg && r->msg->sreq == r && !r->msg->haveData) {   // completes in the background: what the buffer holds when the receiver takes it is what arrives
			liveReqs[r->rank]--; allReqs.erase(r); *q = MPI_REQUEST_NULL; return MPI_SUCCESS;
		}
	}
	dropReq(r); *q = MPI_REQUEST_NULL; return MPI_SUCCESS;
}
int MPI_Request_get_status(MPI_Request q, int *f, MPI_Status *st) { if (q == MPI_REQUEST_NULL) { *f = 1; emptyStatus(st); return MPI_SUCCESS; } Req *r = req(q); *f = tryComplete(r, true); if (*f && st != MPI_STATUS_IGNORE) *st = r->st; return MPI_SUCCESS; }
int MPI_Cancel(MPI_Request *q) { Req *r = req(*q); if (!r->done && !r->isSend) { auto &pv = posted[r->rank]; auto it = std::find(pv.begin(), pv.end(), r); if (it != pv.end()) { pv.erase(it); r->done = true; r->st._cancelled = 1; } } return MPI_SUCCESS; }
int MPI_Test_cancelled(const MPI_Status *s, int *f) { *f = s->_cancelled; return MPI_SUCCESS; }
int MPI_Iprobe(int src, int tag, MPI_Comm c, int *f, MPI_Status *st) {
	Req tmp; fillRecv(&tmp, nullptr, 0, (MPI_Datatype) &ompi_mpi_byte, src, tag, c); tmp.rank = curRank();
	auto m = findMsg(&tmp, curRank());
	bool lie = m && spec->lateRecv && (hash3(spec->seed, 0x19e0, sim::steps()) & 3) == 0;
	if (m && !lie) { *f = 1; if (st != MPI_STATUS_IGNORE) { memset(st, 0, sizeof *st); for (size_t i = 0; i < tmp.ctx->group.size(); i++) if (tmp.ctx->group[i] == m->src) st->MPI_SOURCE = i; st->MPI_TAG = m->tag; st->_ucount = m->bytes; } yieldNow("MPI_Iprobe"); }
	else { *f = 0; yieldNow("MPI_Iprobe", true); }
	return MPI_SUCCESS;
}
int MPI_Probe(int src, int tag, MPI_Comm c, MPI_Status *st) {
	Req *tmp = new Req(); fillRecv(tmp, nullptr, 0, (MPI_Datatype) &ompi_mpi_byte, src, tag, c); tmp->rank = curRank();
	yieldNow("MPI_Probe"); int wr = curRank();
	auto p = [tmp, wr] { return findMsg(tmp, wr) != nullptr; };
	if (!p()) block(p, "MPI_Probe");
	auto m = findMsg(tmp, wr);
	if (st != MPI_STATUS_IGNORE) { memset(st, 0, sizeof *st); for (size_t i = 0; i < tmp->ctx->group.size(); i++) if (tmp->ctx->group[i] == m->src) st->MPI_SOURCE = i; st->MPI_TAG = m->tag; st->_ucount = m->bytes; }
	delete tmp; return MPI_SUCCESS;
}

// ---- collectives
int MPI_Barrier(MPI_Comm ch) { auto o = comm(ch); long s; Coll *c = enter(o, "MPI_Barrier", s); waitFull(o, c, "MPI_Barrier"); leave(o, c, s); return MPI_SUCCESS; }
int MPI_Ibarrier(MPI_Comm ch, MPI_Request *q) { auto o = comm(ch); long s; enter(o, "MPI_Ibarrier", s); Req *r = newReq(); r->ibar = true; r->active = true; r->ch = ch; r->ctx = o->ctx; r->collSeq = s; *q = (MPI_Request) r; yieldNow("MPI_Ibarrier"); return MPI_SUCCESS; }
int MPI_Bcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm ch) {
	auto o = comm(ch); long s; Coll *c = enter(o, "MPI_Bcast", s); checkRoot(o, c, root);
	if (o->rank == root) { c->data[root] = packed(b, n, t); yieldNow("MPI_Bcast"); }
	else {
		yieldNow("MPI_Bcast"); if (!c->here[root]) block([c, root] { return (bool) c->here[root]; }, "MPI_Bcast");
		size_t cap = dtype(t)->size * (size_t) n; if (c->data[root].size() != cap) proto("MPI_Bcast: root sends %zu bytes, rank %d expects %zu", c->data[root].size(), o->rank, cap);
		unpackFrom(c->data[root].data(), cap, b, n, dtype(t));
	}
	leave(o, c, s); return MPI_SUCCESS;
}
int MPI_Allreduce(const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm ch) {
	auto o = comm(ch); long s; Coll *c = enter(o, "MPI_Allreduce", s);
	c->data[o->rank] = packed(sb == MPI_IN_PLACE ? rb : sb, n, t); checkRed(o, c, op, c->data[o->rank].size());
	waitFull(o, c, "MPI_Allreduce"); combine(o, c, op, t, n, s);
	unpackFrom(c->result.data(), c->result.size(), rb, n, dtype(t)); leave(o, c, s); return MPI_SUCCESS;
}
int MPI_Reduce(const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm ch) {
	auto o = comm(ch); long s; Coll *c = enter(o, "MPI_Reduce", s); checkRoot(o, c, root);
	c->data[o->rank] = packed(sb == MPI_IN_PLACE ? rb : sb, n, t); checkRed(o, c, op, c->data[o->rank].size());
	if (o->rank == root) { waitFull(o, c, "MPI_Reduce"); combine(o, c, op, t, n, s); unpackFrom(c->result.data(), c->result.size(), rb, n, dtype(t)); }
	else yieldNow("MPI_Reduce");
	leave(o, c, s); return MPI_SUCCESS;
}
int MPI_Reduce_scatter_block(const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm ch) {
	auto o = comm(ch); int N = o->ctx->group.size(); std::vector<char> out(dtype(t)->extent * (size_t) n * N);
	MPI_Allreduce(sb == MPI_IN_PLACE ? rb : sb, out.data(), n * N, t, op, ch); memcpy(rb, out.data() + dtype(t)->extent * (size_t) n * o->rank, dtype(t)->extent * (size_t) n); return MPI_SUCCESS;
}
static int scanG(const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm ch, bool ex) {
	auto o = comm(ch); long s; Coll *c = enter(o, ex ? "MPI_Exscan" : "MPI_Scan", s); c->data[o->rank] = packed(sb == MPI_IN_PLACE ? rb : sb, n, t);
	waitFull(o, c, "MPI_Scan"); int last = ex ? o->rank - 1 : o->rank;
	if (last >= 0) { std::vector<char> a = c->data[0]; for (int i = 1; i <= last; i++) reduceInto(op, t, c->data[i].data(), a.data(), n); unpackFrom(a.data(), a.size(), rb, n, dtype(t)); }
	leave(o, c, s); return MPI_SUCCESS;
}
int MPI_Scan(const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm ch) { return scanG(sb, rb, n, t, op, ch, false); }
int MPI_Exscan(const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm ch) { return scanG(sb, rb, n, t, op, ch, true); }
static int gatherG(const char *kind, const void *sb, int sn, MPI_Datatype st, void *rb, int rn, const int *rcs, const int *dis, MPI_Datatype rt, int root, MPI_Comm ch) {
	auto o = comm(ch); long s; Coll *c = enter(o, kind, s); bool all = root < 0; if (!all) checkRoot(o, c, root);
	size_t N = o->ctx->group.size(); bool recv = all || o->rank == root;
	if (sb == MPI_IN_PLACE) { Dtype *d = dtype(rt); int cnt = rcs ? rcs[o->rank] : rn; long off = (rcs ? (long) dis[o->rank] : (long) rn * o->rank) * d->extent; c->data[o->rank] = packed((char*) rb + off, cnt, rt); }
	else c->data[o->rank] = packed(sb, sn, st);
	if (recv) {
		waitFull(o, c, kind); Dtype *d = dtype(rt);
		for (size_t i = 0; i < N; i++) { int cnt = rcs ? rcs[i] : rn; long off = (rcs ? (long) dis[i] : (long) rn * (long) i) * d->extent; size_t cap = d->size * (size_t) cnt;
			if (c->data[i].size() > cap || (!rcs && c->data[i].size() != cap)) proto("%s: rank %zu sends %zu bytes where rank %d expects %zu", kind, i, c->data[i].size(), o->rank, cap);
			unpackFrom(c->data[i].data(), c->data[i].size(), (char*) rb + off, cnt, d); }
	} else yieldNow(kind);
	leave(o, c, s); return MPI_SUCCESS;
}
int MPI_Allgather(const void *sb, int sn, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, MPI_Comm ch) { return gatherG("MPI_Allgather", sb, sn, st, rb, rn, nullptr, nullptr, rt, -1, ch); }
int MPI_Allgatherv(const void *sb, int sn, MPI_Datatype st, void *rb, const int rc[], const int di[], MPI_Datatype rt, MPI_Comm ch) { return gatherG("MPI_Allgatherv", sb, sn, st, rb, 0, rc, di, rt, -1, ch); }
int MPI_Gather(const void *sb, int sn, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, int root, MPI_Comm ch) { return gatherG("MPI_Gather", sb, sn, st, rb, rn, nullptr, nullptr, rt, root, ch); }
int MPI_Gatherv(const void *sb, int sn, MPI_Datatype st, void *rb, const int rc[], const int di[], MPI_Datatype rt, int root, MPI_Comm ch) { static const int z[MAXR] = {}; auto o = comm(ch); bool r = o->rank == root; return gatherG("MPI_Gatherv", sb, sn, st, rb, 0, r ? rc : z, r ? di : z, rt, root, ch); }
static int scatterG(const char *kind, const void *sb, int sn, const int *scs, const int *dis, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, int root, MPI_Comm ch) {
	auto o = comm(ch); long s; Coll *c = enter(o, kind, s); checkRoot(o, c, root); size_t N = o->ctx->group.size();
	if (o->rank == root) { Dtype *d = dtype(st); for (size_t i = 0; i < N; i++) { int cnt = scs ? scs[i] : sn; long off = (scs ? (long) dis[i] : (long) sn * (long) i) * d->extent; c->data[i] = packed((const char*) sb + off, cnt, st); } yieldNow(kind); }
	else { yieldNow(kind); if (!c->here[root]) block([c, root] { return (bool) c->here[root]; }, kind); }
	if (rb != MPI_IN_PLACE) { size_t cap = dtype(rt)->size * (size_t) rn; if (c->data[o->rank].size() > cap) proto("%s: truncation", kind); unpackFrom(c->data[o->rank].data(), c->data[o->rank].size(), rb, rn, dtype(rt)); }
	leave(o, c, s); return MPI_SUCCESS;
}
int MPI_Scatter(const void *sb, int sn, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, int root, MPI_Comm ch) { return scatterG("MPI_Scatter", sb, sn, nullptr, nullptr, st, rb, rn, rt, root, ch); }
int MPI_Scatterv(const void *sb, const int sc[], const int di[], MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, int root, MPI_Comm ch) { return scatterG("MPI_Scatterv", sb, 0, sc, di, st, rb, rn, rt, root, ch); }
static int a2aG(const char *kind, const void *sb, int sn, const int *scs, const int *sds, MPI_Datatype st, void *rb, int rn, const int *rcs, const int *rds, MPI_Datatype rt, MPI_Comm ch) {
	auto o = comm(ch); long s; Coll *c = enter(o, kind, s); size_t N = o->ctx->group.size(); bool ip = sb == MPI_IN_PLACE;
	// serialise per-destination blocks with a size table in front
	std::vector<char> all; std::vector<size_t> sizes(N);
	for (size_t i = 0; i < N; i++) {
		MPI_Datatype tt = ip ? rt : st; Dtype *d = dtype(tt); int cnt = ip ? (rcs ? rcs[i] : rn) : (scs ? scs[i] : sn);
		long off = (ip ? (rcs ? (long) rds[i] : (long) rn * (long) i) : (scs ? (long) sds[i] : (long) sn * (long) i)) * d->extent;
		auto v = packed((const char*)(ip ? rb : sb) + off, cnt, tt); sizes[i] = v.size(); all.insert(all.end(), v.begin(), v.end());
	}
	std::vector<char> blob(sizeof(size_t) * N + all.size()); memcpy(blob.data(), sizes.data(), sizeof(size_t) * N); if (!all.empty()) memcpy(blob.data() + sizeof(size_t) * N, all.data(), all.size());
	c->data[o->rank] = std::move(blob);
	waitFull(o, c, kind);
	for (size_t i = 0; i < N; i++) {
		const size_t *sz = (const size_t*) c->data[i].data(); size_t off = sizeof(size_t) * N; for (int k = 0; k < o->rank; k++) off += sz[k];
		Dtype *d = dtype(rt); int cnt = rcs ? rcs[i] : rn; long ro = (rcs ? (long) rds[i] : (long) rn * (long) i) * d->extent; size_t cap = d->size * (size_t) cnt;
		if (sz[o->rank] != cap) proto("%s: rank %zu sends %zu bytes to rank %d which expects %zu", kind, i, sz[o->rank], o->rank, cap);
		unpackFrom(c->data[i].data() + off, cap, (char*) rb + ro, cnt, d);
	}
	leave(o, c, s); return MPI_SUCCESS;
}
int MPI_Alltoall(const void *sb, int sn, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, MPI_Comm ch) { return a2aG("MPI_Alltoall", sb, sn, nullptr, nullptr, st, rb, rn, nullptr, nullptr, rt, ch); }
int MPI_Alltoallv(const void *sb, const int sc[], const int sd[], MPI_Datatype st, void *rb, const int rc[], const int rd[], MPI_Datatype rt, MPI_Comm ch) { return a2aG("MPI_Alltoallv", sb, 0, sc, sd, st, rb, 0, rc, rd, rt, ch); }
int MPI_Comm_group(MPI_Comm, MPI_Group *g) { *g = MPI_GROUP_NULL; return MPI_SUCCESS; }
int MPI_Group_free(MPI_Group *g) { *g = MPI_GROUP_NULL; return MPI_SUCCESS; }
int sim_leaked_requests(int r) { return liveReqs[r]; }
}
