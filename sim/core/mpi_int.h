#pragma once
#define OMPI_SKIP_MPICXX 1
#include <mpi.h>
#include "simcore.h"
#include "internal.h"
#include <string>
#include <vector>
#include <map>
namespace sim {
	enum BaseKind { BK_I8, BK_U8, BK_I16, BK_U16, BK_I32, BK_U32, BK_I64, BK_U64, BK_F32, BK_F64, BK_C32, BK_C64 };
	struct Seg { long off; size_t len; };
	struct Dtype { BaseKind base = BK_U8; size_t size = 0; long lb = 0, extent = 0, align = 1; std::vector<Seg> segs; bool committed = false, predefined = false; };
	Dtype *dtype(MPI_Datatype);
	void packInto(const void *buf, int count, Dtype *d, char *out);
	size_t unpackFrom(const char *in, size_t n, void *buf, int count, Dtype *d);
	[[noreturn]] void proto(const char *fmt, ...);
	void collSync(MPI_Comm, const char *kind, const std::function<void()> &last);
	void collMatch(MPI_Comm, const char *kind);
	void *collShared(MPI_Comm, const char *kind, const std::function<void*()> &make);
	MPI_Comm dupComm(MPI_Comm);
	int commSizeOf(MPI_Comm); int commRankOf(MPI_Comm);
	void mpiioReset();
}
