// Interface between the scenarios (compiled with instrumentation) and the simulator
// (compiled without). Nothing in here looks at how korin is written.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <map>
#include <string>
#include <vector>

#define SIM_NOINSTR __attribute__((no_sanitize("thread")))

namespace sim
{
	using u8 = uint8_t; using u32 = uint32_t; using u64 = uint64_t; using i64 = int64_t;

	enum { MAX_TASKS = 5 }; // the main task and up to four clients

	// ---- seeded randomness -------------------------------------------------
	struct Rng
	{
		u64 s;
		explicit Rng(u64 seed = 1) : s{seed * 0x9e3779b97f4a7c15ull + 0x2545f4914f6cdd1dull} { next(); next(); }
		u64 next()
		{
			u64 z = (s += 0x9e3779b97f4a7c15ull);
			z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
			z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
			return z ^ (z >> 31);
		}
		u64 below(u64 n) { return n ? next() % n : 0; }
		i64 range(i64 lo, i64 hi) { return lo + (i64)below((u64)(hi - lo + 1)); }
		bool chance(u32 num, u32 den) { return below(den) < num; }
		template<size_t N, typename T> T pick(const T (&a)[N]) { return a[below(N)]; }
	};
	inline u64 mix(u64 h, u64 v)
	{
		h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
		h *= 0xff51afd7ed558ccdull; h ^= h >> 32;
		return h;
	}

	// ---- a run's plan: everything a run depends on ---------------------------
	struct Op { int task = 0; int code = 0; i64 a = 0, b = 0, c = 0, d = 0; };
	struct Fault { std::string kind; u64 n = 0; };               // the n-th event of this kind fails
	struct Pre { int task; u64 step; int target; };              // scheduling decision
	struct Stale { int task; u64 step; int back; };              // an older value read by an atomic load
	struct Plan
	{
		std::string scenario, property;
		std::map<std::string, i64> cfg;
		std::vector<Op> ops;
		std::vector<Fault> faults;
		bool explicitSchedule = false;                           // else drawn from cfg["sched.seed"]
		std::vector<Pre> pres;
		std::vector<Stale> stales;

		i64 get(const std::string & k, i64 dflt = 0) const { auto it = cfg.find(k); return it == cfg.end() ? dflt : it->second; }
	};

	// ---- modes --------------------------------------------------------------
	extern thread_local int inSim; // non-zero while code under test runs
	struct SimScope { int saved; SIM_NOINSTR SimScope() : saved{inSim} { inSim = 1; } SIM_NOINSTR ~SimScope() { inSim = saved; } };
	struct HarnessScope { int saved; SIM_NOINSTR HarnessScope() : saved{inSim} { inSim = 0; } SIM_NOINSTR ~HarnessScope() { inSim = saved; } };
	/** Runs code under test. */
	template<typename F> SIM_NOINSTR inline auto call(F && f) -> decltype(f()) { SimScope s; return f(); }

	// ---- verdicts -----------------------------------------------------------
	/** Ends the run with a violation. cls is stable: it names the kind of breakage. */
	[[noreturn]] void fail(const char * cls, const char * fmt, ...) __attribute__((format(printf, 2, 3)));
	#define SIM_CHECK(cond, cls, ...) do { if (!(cond)) ::sim::fail(cls, __VA_ARGS__); } while (0)

	// ---- measures -----------------------------------------------------------
	void count(const char * name, u64 n = 1);  // fault kinds, probes: named counters of this run
	void noteState(u64 h);                     // fold a value into the hash of results of the run

	// ---- tasks --------------------------------------------------------------
	void runTasks(const std::vector<std::function<void()>> & bodies); // tasks 1..n, returns when all ended
	int taskId();
	u64 observed(int task);                    // hash of what a task noted since it was started
	/** Runs a body by itself in a copy of this process; false if that went wrong. */
	bool alone(const std::function<void()> & body, u64 & observed);
	void exitProgram();                        // what leaving main() does: static objects registered during the run are destroyed
	[[noreturn]] void endRun();                // the process is gone, whatever others are doing
	void endThread();                          // what the end of a thread does to objects of its own
	void point();                              // an extra scheduling point
	u64 now();                                 // simulated time: number of simulated steps so far
	u64 tick();                                // strictly increasing event counter

	// ---- the simulated memory system -------------------------------------------
	struct HeapStats { u64 live, liveBytes, allocs, frees, failed; };
	HeapStats heapStats();
	enum { OWNER_SYSTEM = 0 };
	void * heapAlloc(size_t size, size_t align, int owner, bool mayFail);     // null when refused
	void heapFree(void * p, int owner);        // reports double, foreign and cross-owner releases
	bool isHeap(const void * p);
	size_t heapBlockSize(const void * p);      // of the live block starting at p, else 0
	bool heapExtent(const void * p, uintptr_t * base, size_t * size); // the live block p lies in
	int heapOwner(const void * p);             // of the live block starting at p, else -1
	u64 heapLive(int owner);                   // live blocks of an owner
	bool heapAccessible(const void * p, size_t n); // every byte inside a live block
	void heapForgive(int owner);               // drop the remaining blocks of an owner (after a verdict about them)
	void freeze(bool on);                      // existing blocks may only be read / may be written again
	std::string heapDescribe(const void * p);
	void setFaultsEnabled(bool on);            // refused allocations stop / resume
	/** True if this event, the next of its kind, is to fail. */
	bool fault(const char * kind);
	u64 faultEvents(const char * kind);        // events of that kind so far
	void checkAccess(const void * p, size_t n, bool write, const char * what);

	// ---- scenarios -------------------------------------------------------------
	struct Scenario
	{
		const char * name;
		const char * property;                 // comma separated ids it serves
		void (*gen)(Rng &, Plan &);            // fills cfg, ops, faults from a seed
		void (*run)(const Plan &);             // executes a plan on the real code
		int weight;                            // share of runs within a property
		std::string (*show)(const Op &);       // one operation, readable
		std::string (*showIn)(const Plan &, const Op &) = nullptr; // where that takes the plan
	};
	void registerScenario(const Scenario &);
	struct Register { Register(const Scenario & s) { registerScenario(s); } };
	extern bool thorough;

	/** Common configuration: memory placement, fill, schedule. */
	void genEnvironment(Rng &, Plan &, bool concurrent);
}
