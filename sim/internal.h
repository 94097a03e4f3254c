#pragma once
#include "sim.h"

namespace sim
{
	struct CounterSlot { char name[40]; u64 n; };

	/** Written by a run (child), read by the driver (parent). Lives in shared memory. */
	struct RunResult
	{
		enum { RUNNING = 0, OK = 1, VIOLATION = 2, ERROR = 3 };
		enum { MAX_PRES = 1 << 15, MAX_STALES = 1 << 12, MAX_COUNTERS = 128, MAX_PCS = 24 };
		int status;
		char cls[64];
		char msg[3000];
		u64 execHash, schedHash, stateHash;
		u64 steps, switches, localSteps[MAX_TASKS];
		u32 npcs; u64 pcs[MAX_PCS];
		u32 nPres, nStales, nCounters;
		bool overflow;
		CounterSlot counters[MAX_COUNTERS];
		Pre pres[MAX_PRES];
		Stale stales[MAX_STALES];
	};

	extern RunResult * res;
	/** Executes a plan in this (forked) process and ends the process. */
	[[noreturn]] void runInThisProcess(const Scenario & s, const Plan & plan);
	/** One-time set-up of address regions, before any fork. */
	void initRegions();
	const std::vector<Scenario> & scenarios();
}
