// MPI-IO over a simulated disk: real files in the job's scratch directory plus a durability model and injected faults.
#include "mpi_int.h"
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <algorithm>
#include <set>
#include <memory>
namespace sim {
	static long nWrites, nReads, nOpens, nDisk;
	static bool full;
	// durability model, per path: content known durable + operations not yet synced
	struct DOp { bool trunc; long off; std::vector<char> d; };
	struct DFile { std::vector<char> durable; std::vector<DOp> pend; bool existed = false, tracked = false; std::shared_ptr<DFile> prev; std::string from; };   // prev: what the path held before a rename replaced it
	static std::map<std::string, DFile> disk;
	struct View { long disp = 0; MPI_Datatype ft = nullptr; size_t esz = 1; };
	struct Shared { std::string path; int users = 0; };
	struct FileObj { int fd; MPI_Comm comm; Shared *sh; View v; int amode; bool atom; };
	static std::map<std::pair<int, void*>, FileObj*> files;
	static std::vector<int> allFds;
	static bool wantPower;

	void mpiioReset() {
		nWrites = nReads = nOpens = nDisk = 0; full = false; disk.clear(); files.clear(); allFds.clear();
		wantPower = false;
		for (int i = 0; i < spec->nfaults; i++) if (spec->faults[i].kind == FK_POWERLOSS_DISKOP || (spec->faults[i].kind == FK_CRASH_STEP && spec->faults[i].arg2)) wantPower = true;
	}
	static void slurp(const std::string &p, std::vector<char> &v, bool &ex) {
		int fd = ::open(p.c_str(), O_RDONLY); ex = fd >= 0; v.clear(); if (fd < 0) return;
		struct stat s; fstat(fd, &s); v.resize(s.st_size); size_t o = 0; while (o < v.size()) { ssize_t k = ::pread(fd, v.data() + o, v.size() - o, o); if (k <= 0) break; o += k; } ::close(fd);
	}
	static DFile *track(const std::string &p) {
		if (!wantPower) return nullptr;
		DFile &f = disk[p]; if (!f.tracked) { f.tracked = true; slurp(p, f.durable, f.existed); } return &f;
	}
	static void apply(std::vector<char> &c, const DOp &o, size_t len) {
		if (o.trunc) { c.resize(o.off, 0); return; }
		if (c.size() < (size_t) o.off + len) c.resize(o.off + len, 0);
		memcpy(c.data() + o.off, o.d.data(), len);
	}
	void materialiseCrash(bool power, uint64_t arg) {
		if (!power) return;     // process crash: everything already handed to the kernel survives
		std::vector<std::pair<std::string, DFile*>> todo; Rng rn(hash3(spec->seed, 0x4e4a + arg, disk.size()));
		for (auto &kv : disk) if (!kv.second.prev) todo.push_back({ kv.first, &kv.second });
			else if (rn.coin()) { todo.push_back({ kv.second.from, &kv.second }); DFile *q = kv.second.prev.get(); while (q->prev && rn.coin()) q = q->prev.get(); todo.push_back({ kv.first, q }); }   // the rename had not reached the disk
			else { ::unlink(kv.second.from.c_str()); todo.push_back({ kv.first, &kv.second }); }
		for (auto &kv : todo) {
			DFile &f = *kv.second; std::vector<char> c = f.durable; Rng r(hash3(spec->seed, 0x90e7 + arg, f.pend.size()));
			int mode = r.below(4);     // nothing, a prefix, a random subset, all of the unsynced operations survive
			size_t cut = r.below(f.pend.size() + 1); bool any = f.existed;
			for (size_t i = 0; i < f.pend.size(); i++) {
				bool keep = mode == 0 ? false : mode == 1 ? i < cut : mode == 2 ? r.coin() : true;
				if (!keep) continue;
				any = true; size_t len = f.pend[i].d.size();
				if (!f.pend[i].trunc && mode == 2 && r.below(8) == 0) len = (len * r.below(100)) / 100;      // torn
				apply(c, f.pend[i], len);
			}
			if (!any) { ::unlink(kv.first.c_str()); continue; }
			int fd = ::open(kv.first.c_str(), O_WRONLY|O_CREAT|O_TRUNC, 0644); if (fd < 0) continue;
			size_t o = 0; while (o < c.size()) { ssize_t k = ::pwrite(fd, c.data() + o, c.size() - o, o); if (k <= 0) break; o += k; } ::close(fd);
		}
	}
	void diskRename(const char *a, const char *b) {
		if (!wantPower) return; track(a); auto old = std::make_shared<DFile>(*track(b)); DFile n = disk[a]; n.prev = old; n.from = a; disk.erase(a); disk[b] = n;
	}
	void diskOp(int isWrite) {
		long n = ++nDisk; res->diskOps = n; Fault *f;
		if (fault(FK_CRASH_DISKOP, n)) endJob(OC_CRASHED, curRank(), 0, "injected crash before disk operation %ld", n);
		if (fault(FK_POWERLOSS_DISKOP, n, &f)) { materialiseCrash(true, f->arg); endJob(OC_CRASHED, curRank(), 0, "injected power loss before disk operation %ld", n); }
	}
	static FileObj *fobj(MPI_File h) { auto it = files.find({ curRank(), (void*) h }); if (it == files.end()) proto("invalid file handle"); return it->second; }

	// map a linear byte range of the view to file segments
	static void viewSegs(FileObj *f, long off, size_t bytes, std::vector<Seg> &out) {
		out.clear();
		if (!f->v.ft || dtype(f->v.ft)->segs.empty() ) { if (bytes) out.push_back({ f->v.disp + off, bytes }); return; }
		Dtype *d = dtype(f->v.ft); size_t per = d->size; if (!per) return;
		if (d->segs.size() == 1 && d->segs[0].off == 0 && (long) d->segs[0].len == d->extent) { if (bytes) out.push_back({ f->v.disp + off, bytes }); return; }
		long tile = off / (long) per; size_t in = off % per;
		while (bytes) {
			long base = f->v.disp + tile * d->extent;
			for (auto &s : d->segs) {
				if (!bytes) break;
				if (in >= s.len) { in -= s.len; continue; }
				size_t k = std::min(bytes, s.len - in);
				if (!out.empty() && out.back().off + (long) out.back().len == base + s.off + (long) in) out.back().len += k; else out.push_back({ base + s.off + (long) in, k });
				bytes -= k; in = 0;
			}
			tile++; in = 0;
		}
	}
	static void setStatus(MPI_Status *st, size_t n) { if (st != MPI_STATUS_IGNORE) { memset(st, 0, sizeof *st); st->_ucount = n; } }

	static int doWrite(FileObj *f, long off, const void *buf, int count, MPI_Datatype t, MPI_Status *st) {
		Dtype *d = dtype(t); size_t bytes = d->size * (size_t) count; setStatus(st, 0);
		yieldNow("disk-write");
		if (!(f->amode & (MPI_MODE_WRONLY | MPI_MODE_RDWR))) return MPI_ERR_READ_ONLY;
		if (!bytes) return MPI_SUCCESS;
		long n = ++nWrites; res->writes = n;
		diskOp(1);
		std::vector<char> v(bytes); packInto(buf, count, d, v.data());
		std::vector<Seg> segs; viewSegs(f, off * (long) f->v.esz, bytes, segs);
		Fault *fl; size_t lim = bytes; bool crash = false, shortw = false;
		if (fault(FK_WRITE_EIO, n)) return MPI_ERR_IO;
		if (fault(FK_WRITE_ENOSPC, n)) { return MPI_ERR_NO_SPACE; }
		if (fault(FK_WRITE_SHORT, n, &fl)) { lim = bytes * (size_t)(fl->arg % 100) / 100; shortw = true; }
		if (fault(FK_CRASH_MID_WRITE, n, &fl)) { lim = bytes * (size_t)(fl->arg % 100) / 100; crash = true; }
		DFile *df = track(f->sh->path); size_t done = 0;
		for (auto &s : segs) {
			size_t k = std::min(s.len, lim - done); if (!k) break;
			size_t o = 0; while (o < k) { ssize_t w = ::pwrite(f->fd, v.data() + done + o, k - o, s.off + o); if (w <= 0) { setStatus(st, done + o); return MPI_ERR_IO; } o += w; }
			if (df) df->pend.push_back({ false, s.off, std::vector<char>(v.begin() + done, v.begin() + done + k) });
			done += k; if (done >= lim) break;
		}
		note(hash3(off, bytes, done));
		if (crash) endJob(OC_CRASHED, curRank(), 0, "injected crash inside disk write %ld", n);
		setStatus(st, done); (void) shortw;
		return MPI_SUCCESS;
	}
	static int doRead(FileObj *f, long off, void *buf, int count, MPI_Datatype t, MPI_Status *st) {
		Dtype *d = dtype(t); size_t bytes = d->size * (size_t) count; setStatus(st, 0);
		yieldNow("disk-read");
		if (!bytes) return MPI_SUCCESS;
		long n = ++nReads; res->reads = n; diskOp(0);
		if (fault(FK_READ_EIO, n)) return MPI_ERR_IO;
		std::vector<char> v(bytes, (char) 0); std::vector<Seg> segs; viewSegs(f, off * (long) f->v.esz, bytes, segs);
		size_t done = 0, lim = bytes; Fault *fl;
		if (fault(FK_READ_SHORT, n, &fl)) lim = bytes * (size_t)(fl->arg % 100) / 100;
		for (auto &s : segs) {
			size_t k = std::min(s.len, lim - done); size_t o = 0;
			while (o < k) { ssize_t w = ::pread(f->fd, v.data() + done + o, k - o, s.off + o); if (w < 0) return MPI_ERR_IO; if (w == 0) break; o += w; }
			done += o; if (o < k || done >= lim) break;
		}
		unpackFrom(v.data(), done, buf, count, d); setStatus(st, done);
		return MPI_SUCCESS;
	}
	static int openFile(MPI_Comm c, const char *fn, int am, MPI_File *fh) {
		auto sh = (Shared*) collShared(c, "MPI_File_open", [fn] { auto s = new Shared(); s->path = fn; return (void*) s; });
		if (sh->path != fn) proto("MPI_File_open: ranks open different files (%s and %s)", sh->path.c_str(), fn);
		struct Op { int err; }; 
		auto o = (Op*) collShared(c, "MPI_File_open#2", [fn, am, sh] {
			auto p = new Op{ MPI_SUCCESS }; long n = ++nOpens; res->opens = n;
			diskOp(0);
			if (fault(FK_OPEN_FAIL, n)) { p->err = MPI_ERR_IO; return (void*) p; }
			track(sh->path);
			int fl = (am & MPI_MODE_RDWR) ? O_RDWR : (am & MPI_MODE_WRONLY) ? O_WRONLY : O_RDONLY;
			if (am & MPI_MODE_CREATE) fl |= O_CREAT; if (am & MPI_MODE_EXCL) fl |= O_EXCL;
			int fd = ::open(fn, fl, 0644);
			if (fd < 0) p->err = errno == ENOENT ? MPI_ERR_NO_SUCH_FILE : errno == EEXIST ? MPI_ERR_FILE_EXISTS : errno == EACCES ? MPI_ERR_ACCESS : MPI_ERR_IO;
			else ::close(fd);
			return (void*) p; });
		if (o->err != MPI_SUCCESS) { *fh = MPI_FILE_NULL; return o->err; }
		int fl = (am & MPI_MODE_RDWR) ? O_RDWR : (am & MPI_MODE_WRONLY) ? O_WRONLY : O_RDONLY;
		int fd = ::open(fn, fl, 0644); if (fd < 0) { *fh = MPI_FILE_NULL; return MPI_ERR_IO; }
		auto f = new FileObj(); f->fd = fd; f->comm = dupComm(c); f->sh = sh; f->amode = am; f->atom = false; allFds.push_back(fd);
		files[{ curRank(), (void*) f }] = f; *fh = (MPI_File) f; return MPI_SUCCESS;
	}
}
using namespace sim;
extern "C" {
int MPI_File_open(MPI_Comm c, const char *fn, int am, MPI_Info, MPI_File *fh) { return openFile(c, fn, am, fh); }
int MPI_File_close(MPI_File *fh) {
	auto f = fobj(*fh); collSync(f->comm, "MPI_File_close", nullptr);
	::close(f->fd); files.erase({ curRank(), (void*) *fh }); *fh = MPI_FILE_NULL; return MPI_SUCCESS;
}
int MPI_File_delete(const char *fn, MPI_Info) { yieldNow("disk-delete"); track(fn); return ::unlink(fn) == 0 ? MPI_SUCCESS : MPI_ERR_NO_SUCH_FILE; }
int MPI_File_set_size(MPI_File h, MPI_Offset n) {
	auto f = fobj(h); 
	collSync(f->comm, "MPI_File_set_size", [f, n] { diskOp(1); DFile *df = track(f->sh->path); if (ftruncate(f->fd, n)) {} if (df) df->pend.push_back({ true, (long) n, {} }); note(n); });
	return MPI_SUCCESS; }
int MPI_File_preallocate(MPI_File h, MPI_Offset n) { struct stat s; fstat(fobj(h)->fd, &s); if (s.st_size < n) return MPI_File_set_size(h, n); return MPI_SUCCESS; }
int MPI_File_get_size(MPI_File h, MPI_Offset *n) { auto f = fobj(h); yieldNow("disk-size"); struct stat s; fstat(f->fd, &s); *n = s.st_size; return MPI_SUCCESS; }
int MPI_File_set_view(MPI_File h, MPI_Offset disp, MPI_Datatype et, MPI_Datatype ft, const char*, MPI_Info) {
	auto f = fobj(h); f->v.disp = disp; f->v.ft = ft; f->v.esz = dtype(et)->size; collMatch(f->comm, "MPI_File_set_view"); return MPI_SUCCESS; }
int MPI_File_read_at(MPI_File h, MPI_Offset o, void *b, int n, MPI_Datatype t, MPI_Status *s) { return doRead(fobj(h), o, b, n, t, s); }
int MPI_File_read_at_all(MPI_File h, MPI_Offset o, void *b, int n, MPI_Datatype t, MPI_Status *s) { auto f = fobj(h); collMatch(f->comm, "MPI_File_read_at_all"); return doRead(f, o, b, n, t, s); }
int MPI_File_write_at(MPI_File h, MPI_Offset o, const void *b, int n, MPI_Datatype t, MPI_Status *s) { return doWrite(fobj(h), o, b, n, t, s); }
int MPI_File_write_at_all(MPI_File h, MPI_Offset o, const void *b, int n, MPI_Datatype t, MPI_Status *s) { auto f = fobj(h); collMatch(f->comm, "MPI_File_write_at_all"); return doWrite(f, o, b, n, t, s); }
int MPI_File_sync(MPI_File h) {
	auto f = fobj(h);
	collSync(f->comm, "MPI_File_sync", [f] { diskOp(1); DFile *df = track(f->sh->path); if (df) { for (auto &o : df->pend) apply(df->durable, o, o.d.size()); df->pend.clear(); df->existed = true; } });
	return MPI_SUCCESS; }
int MPI_File_set_atomicity(MPI_File h, int a) { fobj(h)->atom = a; collMatch(fobj(h)->comm, "MPI_File_set_atomicity"); return MPI_SUCCESS; }
int MPI_File_get_atomicity(MPI_File h, int *a) { *a = fobj(h)->atom; return MPI_SUCCESS; }
int MPI_File_set_errhandler(MPI_File, MPI_Errhandler) { return MPI_SUCCESS; }
int MPI_File_get_info(MPI_File, MPI_Info *i) { *i = MPI_INFO_NULL; return MPI_SUCCESS; }
}
