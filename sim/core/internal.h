#pragma once
#include "simcore.h"
namespace sim {
	enum { FS_READY = 0, FS_BLOCK, FS_SLEEP, FS_DONE };
	struct Fiber {
		int id = 0, rank = 0, tid = 0, kind = 0;    // kind 0 rank main, 1 team thread, 2 auxiliary (std::thread)
		int st = FS_READY; int prio = 0; int err = 0;
		void *sp = nullptr, *stack = nullptr; size_t stackSz = 0;
		void *ehCaught = nullptr; unsigned ehUncaught = 0;
		uint64_t wake = 0; const char *why = "start";
		std::function<void()> fn; std::function<bool()> pred; std::function<void()> onDone;
		Team *team = nullptr; bool joined = false;
		int loopGen = 0, singleGen = 0;
	};
	struct Team {
		int size = 1, arrived = 0, gen = 0, ended = 0;
		struct Loop { long next, end, incr, chunk; int users; bool guided; bool isStatic; long start; std::vector<long> pos; };
		std::vector<Loop*> loops; int singles = 0;
		Team *parent = nullptr;
	};
	extern long preemptCountdown; extern uint64_t nAccess;
	void resetPreempt(); void preemptSlow();
	void rankLeft(int code);
	[[noreturn]] void rankExit(int code);
	void killRankFibers(int rank, Fiber *except);
	uint64_t steps();
	uint64_t mpiNextDelivery();
}
extern "C" void sim_control_file(const char *name);
