// The simulator: scheduler, memory model, race detector, simulated heap, and the
// entry points the compiler's instrumentation calls. Compiled WITHOUT instrumentation.
#include "internal.h"
#include <algorithm>
#include <cerrno>
#include <climits>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <linux/futex.h>
#include <malloc.h>
#include <new>
#include <pthread.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>

extern "C" char __data_start, _end;

extern "C" {
	void * __real_malloc(size_t);
	void * __real_calloc(size_t, size_t);
	void * __real_realloc(void *, size_t);
	void __real_free(void *);
	int __real_posix_memalign(void **, size_t, size_t);
	void * __real_aligned_alloc(size_t, size_t);
	size_t __real_malloc_usable_size(void *);
	int __real_vsnprintf(char *, size_t, const char *, va_list);
	int __real_vsprintf(char *, const char *, va_list);
	int __real_vfprintf(FILE *, const char *, va_list);
	int __real_puts(const char *);
	int __real___cxa_guard_acquire(u_int64_t *);
	void __real___cxa_guard_release(u_int64_t *);
	void __real___cxa_guard_abort(u_int64_t *);
	int __real_pthread_mutex_lock(pthread_mutex_t *);
	int __real_pthread_mutex_trylock(pthread_mutex_t *);
	int __real_pthread_mutex_unlock(pthread_mutex_t *);
	int __real_pthread_once(pthread_once_t *, void (*)());
	int __real_sched_yield();
	int __real___cxa_atexit(void (*)(void *), void *, void *);
	int __real___cxa_thread_atexit(void (*)(void *), void *, void *);
	void * __real_memcpy(void *, const void *, size_t);
	void * __real_memmove(void *, const void *, size_t);
	void * __real_memset(void *, int, size_t);
	int __real_memcmp(const void *, const void *, size_t);
	void * __real_memchr(const void *, int, size_t);
	int __real_strcmp(const char *, const char *);
	int __real_strncmp(const char *, const char *, size_t);
	char * __real_strchr(const char *, int);
	char * __real_strrchr(const char *, int);
	char * __real_strstr(const char *, const char *);
	int __real_strcasecmp(const char *, const char *);
	int __real_strncasecmp(const char *, const char *, size_t);
	size_t __real_strspn(const char *, const char *);
	size_t __real_strcspn(const char *, const char *);
	char * __real_strpbrk(const char *, const char *);
}

namespace sim
{
	thread_local int inSim = 0;
	bool thorough = false;
	RunResult * res = nullptr;

	// ---- address regions -----------------------------------------------------
	static const uintptr_t ARENA = 0x100000000000ull, ARENA_SIZE = 512ull << 20;
	static const uintptr_t SHADOW = 0x110000000000ull;
	static const uintptr_t CELLS = 0x120000000000ull;
	static const uintptr_t STACKS = 0x130000000000ull, STACK_SIZE = 1ull << 20, STACK_SPAN = 2ull << 20;
	static const uintptr_t GCELLS = 0x140000000000ull;
	static const uintptr_t STACKS_SIZE = STACK_SPAN * MAX_TASKS;
	static uintptr_t dataLo, dataHi;

	enum { SH_NONE = 0, SH_LIVE = 1, SH_FREED = 2, SH_SLACK = 3, SH_FROZEN = 4 };
	static inline bool there(u8 s) { return s == SH_LIVE || s == SH_FROZEN; }
	static u8 * const shadow = (u8*)SHADOW;

	struct Cell { u32 w, wpc; u32 r[MAX_TASKS]; u32 a[MAX_TASKS]; };
	static Cell * const cells = (Cell*)CELLS;
	static Cell * const gcells = (Cell*)GCELLS;

	static void mapAt(uintptr_t at, size_t size)
	{
		void * p = mmap((void*)at, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
		if (p != (void*)at) { dprintf(2, "sim: cannot map region %lx\n", (long)at); _exit(3); }
	}
	void initRegions()
	{
		dataLo = (uintptr_t)&__data_start; dataHi = (uintptr_t)&_end;
		mapAt(ARENA, ARENA_SIZE);
		mapAt(SHADOW, ARENA_SIZE);
		mapAt(CELLS, ARENA_SIZE * sizeof(Cell));
		mapAt(STACKS, STACKS_SIZE);
		mapAt(GCELLS, (dataHi - dataLo) * sizeof(Cell));
		for (int i = 0; i < MAX_TASKS; ++i) mprotect((void*)(STACKS + i * STACK_SPAN), 64 << 10, PROT_NONE);
	}

	// ---- per-run state ---------------------------------------------------------
	struct VC
	{
		u32 c[MAX_TASKS];
		void join(const VC & o) { for (int i = 0; i < MAX_TASKS; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; }
	};
	struct AtExit { void (*f)(void *); void * arg; };
	enum TaskState { T_UNUSED, T_READY, T_BLOCKED, T_DONE };
	struct Task
	{
		int id; TaskState state; const void * waitsFor; int go; u64 local; u64 prio;
		VC vc; VC relFence; bool hasRelFence; VC acqPending;
		u64 run; // consecutive points
		u64 state_; // what it observed
		u32 depth; uintptr_t stack[256];
		std::function<void()> body; pthread_t thread;
		std::vector<AtExit> * atEnd; // of objects of thread storage duration
	};
	static Task tasks[MAX_TASKS];
	static __thread Task * self = nullptr;
	static bool concurrent = false;    // more than the main task exists
	static int nTasks = 1;
	static const Plan * plan;
	static u64 stepBudget = 0, eventClock = 0;
	static VC scClock;

	static Rng * schedRng; // scheduling and memory-model choices
	static std::map<std::pair<int, u64>, int> preMap, staleMap;
	static std::vector<u64> changePoints;
	static int stratKind; static u64 stratDen; static int stalledTask; static u64 stallFrom, stallTo;
	static u64 lowPrio;
	static const u64 QUANTUM = 20000;

	static inline void h(u64 v) { res->execHash = mix(res->execHash, v); }

	static inline bool inArena(uintptr_t a) { return a - ARENA < ARENA_SIZE; }
	static inline bool inStacks(uintptr_t a) { return a - STACKS < STACKS_SIZE; }
	static inline bool inData(uintptr_t a) { return a - dataLo < dataHi - dataLo; }
	static inline u64 canon(uintptr_t a) { return inArena(a) ? a - ARENA : inData(a) ? (1ull << 40) + (a - dataLo) : 0; }

	// ---- verdicts ----------------------------------------------------------------
	[[noreturn]] static void finish(int status)
	{
		res->status = status;
		for (int i = 0; i < MAX_TASKS; ++i) res->localSteps[i] = tasks[i].local;
		_exit(0);
	}
	static void keepStack(uintptr_t pc)
	{
		u32 n = 0;
		if (pc) res->pcs[n++] = pc;
		if (self) for (u32 i = self->depth; i > 0 && n < RunResult::MAX_PCS; --i) if (i - 1 < 256) res->pcs[n++] = self->stack[i - 1];
		res->npcs = n;
	}
	static void setViolation(const char * cls, const char * msg)
	{
		snprintf(res->cls, sizeof res->cls, "%s", cls);
		snprintf(res->msg, sizeof res->msg, "%s", msg);
	}
	void fail(const char * cls, const char * fmt, ...)
	{
		inSim = 0;
		char msg[2500];
		va_list ap; va_start(ap, fmt); __real_vsnprintf(msg, sizeof msg, fmt, ap); va_end(ap);
		char full[2900]; snprintf(full, sizeof full, "task %d: %s", self ? self->id : 0, msg);
		keepStack(0);
		setViolation(cls, full);
		finish(RunResult::VIOLATION);
	}
	[[noreturn]] static void simError(const char * what)
	{
		setViolation("sim-error", what);
		finish(RunResult::ERROR);
	}
	static u64 cpuBudgetHit = 0;
	static void onSignal(int sig, siginfo_t * si, void * uc)
	{
		inSim = 0;
		uintptr_t pc = ((ucontext_t*)uc)->uc_mcontext.gregs[REG_RIP];
		char msg[600];
		if (sig == SIGVTALRM || sig == SIGPROF)
		{
			keepStack(pc); setViolation("hang", "no progress: the CPU budget of the run is used up"); finish(RunResult::VIOLATION);
		}
		uintptr_t a = (uintptr_t)si->si_addr;
		const char * where = sig != SIGSEGV && sig != SIGBUS ? "" : a < 65536 ? " (null page)" : inStacks(a) ? " (stack overflow)" : " (wild address)";
		snprintf(msg, sizeof msg, "task %d: signal %d%s", self ? self->id : 0, sig, where);
		keepStack(pc);
		setViolation(sig == SIGABRT ? "abort" : "crash", msg);
		finish(RunResult::VIOLATION);
	}
	static void installAltStack(int id)
	{
		stack_t ss{}; ss.ss_size = 64 << 10; ss.ss_sp = (void*)(STACKS + id * STACK_SPAN + (128 << 10)); ss.ss_flags = 0;
		sigaltstack(&ss, nullptr);
	}

	void count(const char * name, u64 n)
	{
		HarnessScope hs;
		for (u32 i = 0; i < res->nCounters; ++i) if (!strcmp(res->counters[i].name, name)) { res->counters[i].n += n; return; }
		if (res->nCounters < RunResult::MAX_COUNTERS)
		{
			CounterSlot & c = res->counters[res->nCounters++];
			snprintf(c.name, sizeof c.name, "%s", name); c.n = n;
		}
	}
	void noteState(u64 v) { res->stateHash = mix(res->stateHash, v); Task & t = self ? *self : tasks[0]; t.state_ = mix(t.state_, v); }
	u64 observed(int task) { return tasks[task].state_; }
	int taskId() { return self ? self->id : 0; }
	u64 now() { return res->steps; }
	u64 tick() { return ++eventClock; }

	// ---- scheduler -----------------------------------------------------------------
	static void futexWait(int * w) { while (__atomic_load_n(w, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, w, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0); }
	static void futexWake(int * w) { __atomic_store_n(w, 1, __ATOMIC_RELEASE); syscall(SYS_futex, w, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }
	static void switchTo(Task * t)
	{
		Task * me = self;
		++res->switches;
		res->schedHash = mix(res->schedHash, (u64)me->id * 0x100000001b3ull + me->local * 8 + t->id);
		t->run = 0;
		me->go = 0;
		futexWake(&t->go);
		if (me->state != T_DONE) futexWait(&me->go);
	}
	static bool runnable(const Task & t) { return t.state == T_READY; }
	static Task * lowestRunnable(const Task * except)
	{
		for (int i = 0; i < nTasks; ++i) if (&tasks[i] != except && runnable(tasks[i])) return &tasks[i];
		return nullptr;
	}
	static void recordPre(int target)
	{
		if (res->nPres < RunResult::MAX_PRES) res->pres[res->nPres++] = Pre{self->id, self->local, target};
		else res->overflow = true;
	}
	static Task * chooseRandom(bool mustLeave)
	{
		Task * c[MAX_TASKS]; int n = 0;
		for (int i = 0; i < nTasks; ++i) if (runnable(tasks[i]) && !(mustLeave && &tasks[i] == self)) c[n++] = &tasks[i];
		if (!n) return nullptr;
		// a stalled task runs only when nobody else can
		if (stalledTask && n > 1 && res->steps >= stallFrom && res->steps < stallTo)
		{
			int m = 0;
			for (int i = 0; i < n; ++i) if (c[i]->id != stalledTask) c[m++] = c[i];
			if (m < n) count("fault.stall");
			n = m;
		}
		if (stratKind == 1)
		{
			Task * best = c[0];
			for (int i = 1; i < n; ++i) if (c[i]->prio > best->prio) best = c[i];
			return best;
		}
		if (!mustLeave)
		{
			bool selfIn = false;
			for (int i = 0; i < n; ++i) if (c[i] == self) selfIn = true;
			if (selfIn && !schedRng->chance(1, (u32)stratDen)) return self;
		}
		return c[schedRng->below(n)];
	}
	/** A scheduling decision. mustLeave: the current task cannot go on. */
	static void decide(bool mustLeave)
	{
		Task * me = self;
		++me->local; ++me->run;
		if (stratKind == 1 && !changePoints.empty() && res->steps >= changePoints.back())
		{
			changePoints.pop_back();
			me->prio = lowPrio--;
		}
		Task * dflt = mustLeave ? lowestRunnable(me) : me;
		if (!dflt) fail("deadlock", "no task can run");
		Task * t = dflt;
		if (plan->explicitSchedule)
		{
			auto it = preMap.find({me->id, me->local});
			if (it != preMap.end() && it->second < nTasks && runnable(tasks[it->second]) && !(mustLeave && it->second == me->id)) t = &tasks[it->second];
		}
		else
		{
			t = chooseRandom(mustLeave);
			if (!t) t = dflt;
			if (t != dflt) recordPre(t->id);
		}
		// fairness: nobody spins for ever while others could run
		if (t == me && me->run > QUANTUM) { me->run = 0; for (int k = 1; k < nTasks; ++k) { Task * o = &tasks[(me->id + k) % nTasks]; if (runnable(*o)) { t = o; break; } } }
		if (t != me) switchTo(t);
	}
	static inline void step()
	{
		if (++res->steps > stepBudget) fail("hang", "no progress within %llu simulated steps", (unsigned long long)stepBudget);
	}
	static inline void schedPoint()
	{
		step();
		if (concurrent) decide(false);
	}
	void point() { if (self && concurrent) { HarnessScope hs; schedPoint(); } }

	static void blockOn(const void * what)
	{
		self->state = T_BLOCKED; self->waitsFor = what;
		decide(true);
	}
	static void wakeAll(const void * what)
	{
		for (int i = 0; i < nTasks; ++i) if (tasks[i].state == T_BLOCKED && tasks[i].waitsFor == what) { tasks[i].state = T_READY; tasks[i].waitsFor = nullptr; }
	}
	static char joinTag;
	/** Destroys what was registered, last first; more may be registered meanwhile. */
	static std::vector<AtExit> * atExit;
	static VC atExitVC;
	static void runList(std::vector<AtExit> * l)
	{
		while (l && !l->empty())
		{
			AtExit e = l->back(); l->pop_back();
			if (l == atExit) self->vc.join(atExitVC);
			count(l == atExit ? "life.static_objects_destroyed" : "life.thread_objects_destroyed");
			int d = self->depth;
			inSim = 1; e.f(e.arg); inSim = 0;
			self->depth = d;
		}
	}
	/** What leaving main() does: objects of this thread go, then the static ones. */
	void exitProgram() { HarnessScope hs; runList(self->atEnd); runList(atExit); }
	void endRun() { inSim = 0; finish(RunResult::OK); }
	void endThread() { HarnessScope hs; runList(self->atEnd); }
	static void * taskMain(void * arg)
	{
		Task * t = (Task*)arg;
		self = t; inSim = 0;
		installAltStack(t->id);
		futexWait(&t->go);
		try { t->body(); }
		catch (...) { inSim = 0; fail("exception", "an exception left a task"); }
		inSim = 0;
		endThread();
		t->state = T_DONE;
		bool all = true;
		for (int i = 1; i < nTasks; ++i) if (tasks[i].state != T_DONE) all = false;
		if (all) wakeAll(&joinTag);
		decide(true);
		return nullptr;
	}
	void runTasks(const std::vector<std::function<void()>> & bodies)
	{
		HarnessScope hs;
		nTasks = 1 + (int)bodies.size();
		if (nTasks > MAX_TASKS) simError("too many tasks");
		u64 base = schedRng->next();
		Rng pr(base);
		for (int i = 1; i < nTasks; ++i)
		{
			Task & t = tasks[i];
			t.id = i; t.state = T_READY; t.go = 0; t.local = 0; t.run = 0; t.depth = 0; t.state_ = 0;
			t.prio = 1000000 + pr.below(1000000);
			t.vc = tasks[0].vc; t.vc.c[i] = 1; t.hasRelFence = false; memset(&t.relFence, 0, sizeof t.relFence); memset(&t.acqPending, 0, sizeof t.acqPending);
			t.body = bodies[i - 1];
			pthread_attr_t at; pthread_attr_init(&at);
			pthread_attr_setstack(&at, (void*)(STACKS + i * STACK_SPAN + (STACK_SPAN - STACK_SIZE)), STACK_SIZE);
			if (pthread_create(&t.thread, &at, taskMain, &t)) simError("pthread_create");
			pthread_attr_destroy(&at);
		}
		tasks[0].vc.c[0]++;
		if (bodies.empty()) return;
		concurrent = nTasks > 1;
		blockOn(&joinTag);
		concurrent = false;
		for (int i = 1; i < nTasks; ++i) { tasks[0].vc.join(tasks[i].vc); pthread_join(tasks[i].thread, nullptr); tasks[i].body = nullptr; }
		tasks[0].vc.c[0]++;
		nTasks = 1;
	}

	// ---- happens-before and races ------------------------------------------------------
	static inline u32 epoch() { return ((u32)self->id << 28) | (self->vc.c[self->id] & 0xfffffff); }
	static inline bool hb(u32 ep) { return self->vc.c[ep >> 28] >= (ep & 0xfffffff); }
	static inline Cell * cellOf(uintptr_t a) { return inArena(a) ? cells + (a - ARENA) : inData(a) ? gcells + (a - dataLo) : nullptr; }

	static std::string siteOf(uintptr_t a)
	{
		char b[200];
		if (inArena(a)) return heapDescribe((void*)a);
		snprintf(b, sizeof b, "static data"); return b;
	}
	[[noreturn]] static void reportRace(uintptr_t a, bool write, u32 otherTask, u32 otherPc, const char * what)
	{
		HarnessScope hs;
		keepStack(0);
		char m[900];
		snprintf(m, sizeof m, "task %d: unsynchronised %s of %s conflicts with an earlier %s by task %u (site 0x%x)", self->id, write ? "write" : "read", siteOf(a).c_str(), what, otherTask, otherPc);
		u32 n = res->npcs;
		if (otherPc && n < RunResult::MAX_PCS) { res->pcs[n] = otherPc; res->npcs = n + 1; }
		setViolation("data-race", m);
		inSim = 0;
		finish(RunResult::VIOLATION);
	}
	static inline u32 pc32() { return self->depth ? (u32)self->stack[std::min(self->depth, 256u) - 1] : 0; }
	static void raceCheck(uintptr_t a, size_t n, bool write, bool atomic, uintptr_t pc)
	{
		Cell * c = cellOf(a);
		if (!c) return;
		u32 me = self->id, ep = epoch(), clk = ep & 0xfffffff;
		for (size_t i = 0; i < n; ++i, ++c)
		{
			if (c->w && (c->w >> 28) != me && !hb(c->w)) reportRace(a + i, write, c->w >> 28, c->wpc, "write");
			if (write) for (u32 t = 0; t < MAX_TASKS; ++t)
				if (t != me && c->r[t] && self->vc.c[t] < c->r[t]) reportRace(a + i, write, t, 0, "read");
			if (!atomic) for (u32 t = 0; t < MAX_TASKS; ++t)
				if (t != me && c->a[t] && self->vc.c[t] < c->a[t]) reportRace(a + i, write, t, 0, "atomic write");
			if (atomic) { if (write) c->a[me] = clk; }
			else if (write) { c->w = ep; c->wpc = (u32)pc; }
			else c->r[me] = clk;
		}
	}

	// ---- the C++ memory model for atomics ---------------------------------------------
	struct Store { u64 val; u32 ep; bool hasSync; VC sync; };
	struct Loc
	{
		size_t size; std::vector<Store> hist; size_t base = 0; // index of hist[0]
		size_t scFloor = 0; size_t lastRead[MAX_TASKS] = {};
		std::vector<std::pair<u32, size_t>> reads[MAX_TASKS]; // (clock, index)
	};
	static std::map<uintptr_t, Loc> * locs;
	static void dropLocs(uintptr_t a, size_t n)
	{
		if (locs->empty()) return;
		auto it = locs->lower_bound(a >= 16 ? a - 16 : 0);
		while (it != locs->end() && it->first < a + n)
			if (it->first + it->second.size > a) it = locs->erase(it); else ++it;
	}
	static u64 rawLoad(uintptr_t a, size_t n) { u64 v = 0; memcpy(&v, (void*)a, n); return v; }
	static void rawStore(uintptr_t a, size_t n, u64 v) { memcpy((void*)a, &v, n); }
	static Loc & locOf(uintptr_t a, size_t n)
	{
		auto it = locs->find(a);
		if (it != locs->end() && it->second.size == n) return it->second;
		dropLocs(a, n);
		Loc & l = (*locs)[a];
		l.size = n;
		Store s{}; s.val = rawLoad(a, n); s.ep = 0; s.hasSync = false;
		l.hist.push_back(s);
		return l;
	}
	static bool isAcq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
	static bool isRel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }

	static void noteRead(Loc & l, size_t idx, int mo)
	{
		Task * t = self;
		l.lastRead[t->id] = std::max(l.lastRead[t->id], idx);
		l.reads[t->id].push_back({t->vc.c[t->id], idx});
		if (mo == __ATOMIC_SEQ_CST) l.scFloor = std::max(l.scFloor, idx);
		Store & s = l.hist[idx - l.base];
		if (s.hasSync) { if (isAcq(mo)) t->vc.join(s.sync); else t->acqPending.join(s.sync); }
	}
	static u64 modelLoad(uintptr_t a, size_t n, int mo)
	{
		if (!concurrent) { return rawLoad(a, n); }
		Task * t = self;
		Loc & l = locOf(a, n);
		if (l.hist.back().val != rawLoad(a, n)) { dropLocs(a, n); return modelLoad(a, n, mo); } // changed behind our back: start over
		size_t last = l.base + l.hist.size() - 1, floor = l.base;
		floor = std::max(floor, l.lastRead[t->id]);
		for (size_t i = l.hist.size(); i-- > 0;)
		{
			u32 ep = l.hist[i].ep;
			if (ep == 0 || hb(ep)) { floor = std::max(floor, l.base + i); break; }
		}
		for (int k = 0; k < MAX_TASKS; ++k) if (k != t->id)
			for (size_t i = l.reads[k].size(); i-- > 0;)
				if (l.reads[k][i].first <= t->vc.c[k]) { floor = std::max(floor, l.reads[k][i].second); break; }
		if (mo == __ATOMIC_SEQ_CST) floor = std::max(floor, l.scFloor);
		size_t pick = last;
		if (floor < last)
		{
			count("model.weak-loads");
			if (plan->explicitSchedule)
			{
				auto it = staleMap.find({t->id, t->local});
				if (it != staleMap.end()) pick = (size_t)it->second > last - floor ? floor : last - it->second;
			}
			else if (schedRng->chance(2, 5))
			{
				pick = floor + schedRng->below(last - floor + 1);
				if (pick != last)
				{
					if (res->nStales < RunResult::MAX_STALES) res->stales[res->nStales++] = Stale{t->id, t->local, (int)(last - pick)};
					else res->overflow = true;
				}
			}
			if (pick != last) count("fault.stale-load");
		}
		u64 v = l.hist[pick - l.base].val;
		noteRead(l, pick, mo);
		return v;
	}
	static void modelStore(uintptr_t a, size_t n, u64 v, int mo, bool rmw, bool rmwSync, const VC & rmwVC)
	{
		rawStore(a, n, v);
		if (!concurrent) return;
		Task * t = self;
		Loc & l = locOf(a, n);
		if (l.hist.size() == 1 && !rmw && l.hist[0].ep == 0 && 0) {}
		Store s{}; s.val = v; s.ep = epoch(); s.hasSync = false; memset(&s.sync, 0, sizeof s.sync);
		if (isRel(mo)) { s.hasSync = true; s.sync = t->vc; }
		else if (t->hasRelFence) { s.hasSync = true; s.sync = t->relFence; }
		if (rmw && rmwSync) { s.hasSync = true; s.sync.join(rmwVC); }
		l.hist.push_back(s);
		size_t idx = l.base + l.hist.size() - 1;
		l.lastRead[t->id] = idx;
		if (mo == __ATOMIC_SEQ_CST) l.scFloor = idx;
		if (l.hist.size() > 12) { l.hist.erase(l.hist.begin()); ++l.base; }
		t->vc.c[t->id]++;
	}
	/** locOf() must see the value before the store */
	static void prepare(uintptr_t a, size_t n) { if (concurrent) { Loc & l = locOf(a, n); if (l.hist.back().val != rawLoad(a, n)) { dropLocs(a, n); locOf(a, n); } } }

	// ---- accesses --------------------------------------------------------------------
	static std::string describe(const void * p);
	static void invalid(uintptr_t a, size_t n, bool write, uintptr_t pc, const char * what)
	{
		HarnessScope hs;
		keepStack(pc);
		char m[900];
		u8 sh = inArena(a) ? shadow[a - ARENA] : 0;
		const char * cls = a < 65536 ? "null-access" : sh == SH_FREED ? "use-after-free" : sh == SH_FROZEN ? "written-while-shared" : "out-of-bounds";
		snprintf(m, sizeof m, "task %d: %s of %zu byte(s)%s%s at %s", self->id, write ? "write" : "read", n, *what ? " in " : "", what, a < 65536 ? "the null page" : heapDescribe((void*)a).c_str());
		setViolation(cls, m);
		inSim = 0;
		finish(RunResult::VIOLATION);
	}
	static inline void validity(uintptr_t a, size_t n, bool write, uintptr_t pc, const char * what, bool sync = false)
	{
		if (inArena(a))
		{
			const u8 * s = shadow + (a - ARENA);
			for (size_t i = 0; i < n; ++i) if (s[i] != SH_LIVE && (s[i] != SH_FROZEN || (write && !sync))) invalid(a + i, n, write, pc, what);
		}
		else if (a < 65536 && n) invalid(a, n, write, pc, what);
	}
	static void access(uintptr_t a, size_t n, bool write, bool atomicLike, uintptr_t pc, const char * what)
	{
		if (inStacks(a) || !self) return;
		inSim = 0;
		bool arena = inArena(a), data = inData(a);
		if (arena || data || a < 65536)
		{
			h((u64)self->id | (write ? 8 : 0) | (n << 4) | canon(a) << 16);
			schedPoint();
			validity(a, n, write, pc, what);
			if (concurrent)
			{
				raceCheck(a, n, write, atomicLike, pc);
				if (write) dropLocs(a, n);
			}
			else if (write && !locs->empty()) dropLocs(a, n);
		}
		inSim = 1;
	}
	void checkAccess(const void * p, size_t n, bool write, const char * what)
	{
		HarnessScope hs;
		validity((uintptr_t)p, n, write, 0, what);
		if (concurrent) raceCheck((uintptr_t)p, n, write, false, 0);
	}

	// ---- simulated heap ----------------------------------------------------------------
	struct Block { uintptr_t at; size_t size, slack, align; int owner; bool live; u64 seq; uintptr_t lo, hi; };
	struct Heap
	{
		Rng rng{1};
		std::map<uintptr_t, Block> blocks;      // by start; live and quarantined
		std::vector<uintptr_t> freed;
		uintptr_t up = ARENA + 4096, down = ARENA + ARENA_SIZE - 4096;
		u64 seq = 0; HeapStats st{};
		std::map<int, u64> live;
		int policy = 0, fill = 0, freeFill = 1; u64 window = 4 << 20;
	};
	static Heap * heap;
	static bool faultsOn = true;
	static std::map<std::string, u64> * events;
	static std::map<std::string, std::vector<u64>> * faultPlan;

	void setFaultsEnabled(bool on) { faultsOn = on; }
	bool fault(const char * kind)
	{
		HarnessScope hs;
		u64 n = (*events)[kind]++;
		if (!faultsOn) return false;
		auto it = faultPlan->find(kind);
		if (it == faultPlan->end()) return false;
		if (!std::binary_search(it->second.begin(), it->second.end(), n)) return false;
		count((std::string("fault.") + kind).c_str());
		return true;
	}
	u64 faultEvents(const char * kind) { HarnessScope hs; return (*events)[kind]; }

	/** Nearest block at or before a, and the one after. */
	static const Block * blockNear(uintptr_t a, const Block ** next)
	{
		auto it = heap->blocks.upper_bound(a);
		*next = it == heap->blocks.end() ? nullptr : &it->second;
		if (it == heap->blocks.begin()) return nullptr;
		return &std::prev(it)->second;
	}
	std::string heapDescribe(const void * p)
	{
		HarnessScope hs;
		uintptr_t a = (uintptr_t)p; char m[300];
		if (!inArena(a)) { snprintf(m, sizeof m, "%s", a < 65536 ? "the null page" : "an address outside the simulated heap"); return m; }
		const Block * next, * b = blockNear(a, &next);
		if (b && a < b->at + b->size) snprintf(m, sizeof m, "offset %zu of %s block #%llu (%zu bytes)", (size_t)(a - b->at), b->live ? "live" : "released", (unsigned long long)b->seq, b->size);
		else if (b && (!next || a - (b->at + b->size) <= next->at - a)) snprintf(m, sizeof m, "%zu byte(s) past the end of %s block #%llu (%zu bytes)", (size_t)(a - (b->at + b->size)), b->live ? "live" : "released", (unsigned long long)b->seq, b->size);
		else if (next) snprintf(m, sizeof m, "%zu byte(s) before %s block #%llu (%zu bytes)", (size_t)(next->at - a), next->live ? "live" : "released", (unsigned long long)next->seq, next->size);
		else snprintf(m, sizeof m, "unallocated heap space");
		return m;
	}
	static bool fits(uintptr_t lo, uintptr_t hi)
	{
		if (lo < ARENA + 4096 || hi > ARENA + ARENA_SIZE - 4096) return false;
		auto it = heap->blocks.lower_bound(lo);
		if (it != heap->blocks.end() && it->second.lo < hi) return false;
		if (it != heap->blocks.begin() && std::prev(it)->second.hi > lo) return false;
		return true;
	}
	static uintptr_t alignExact(uintptr_t a, size_t al, bool up)
	{
		uintptr_t x = up ? (a + al - 1) & ~(al - 1) : a & ~(al - 1);
		// not more aligned than asked for, most of the time
		if (al < (1u << 16) && (x & (2 * al - 1)) == 0 && heap->rng.chance(3, 4)) x += up ? al : -al;
		return x;
	}
	void * heapAlloc(size_t size, size_t align, int owner, bool mayFail)
	{
		HarnessScope hs;
		Heap & H = *heap;
		if (self && concurrent) schedPoint(); else step();
		++H.st.allocs;
		if (mayFail && fault(owner == OWNER_SYSTEM ? "sysalloc" : "alloc")) { ++H.st.failed; h(0xFA11); return nullptr; }
		if (align < 1) align = 1;
		if (size > (40u << 20)) { ++H.st.failed; count("heap.too-large"); return nullptr; } // no system grants everything
		size_t slack = H.rng.below(3) ? (H.rng.below(4) * 8) : 0;
		size_t total = size + slack;
		const size_t RZ = 32;
		uintptr_t at = 0;
		bool ok = false;
		// reuse of a released block
		if (!H.freed.empty() && (H.policy == 3 || H.policy == 4 || (H.policy == 5 && H.rng.chance(1, 2))))
		{
			for (size_t k = 0; k < H.freed.size() && k < 24 && !ok; ++k)
			{
				size_t i = H.policy == 4 ? k : H.freed.size() - 1 - k;
				auto it = H.blocks.find(H.freed[i]);
				Block & b = it->second;
				if (b.size + b.slack >= total && b.size <= 4 * size + 64 && (b.at & (align - 1)) == 0)
				{
					at = b.at;
					std::fill(shadow + (b.at - ARENA), shadow + (b.at + b.size + b.slack - ARENA), SH_NONE);
					H.blocks.erase(it); H.freed.erase(H.freed.begin() + i);
					ok = fits(at - RZ, at + total + RZ);
					count("heap.reuse");
				}
			}
		}
		for (int tries = 0; !ok && tries < 400; ++tries)
		{
			// nothing left: give up the memory of all released blocks
			if (tries == 200) { for (uintptr_t f : H.freed) H.blocks.erase(f); H.freed.clear(); H.up = ARENA + 4096; H.down = ARENA + ARENA_SIZE - 4096; count("heap.recycled"); }
			// crowded: spread out further
			if (tries % 16 == 15 && H.window < ARENA_SIZE / 2) H.window *= 2;
			int pol = H.policy >= 3 ? (H.policy == 5 ? (int)H.rng.below(3) : H.policy - 3) : H.policy;
			if (pol == 0) { at = alignExact(H.up + RZ + H.rng.below(4) * 16, align, true); ok = fits(at - RZ, at + total + RZ); H.up = at + total + RZ; }
			else if (pol == 1) { at = alignExact(H.down - RZ - total - H.rng.below(4) * 16, align, false); ok = fits(at - RZ, at + total + RZ); H.down = at - RZ; }
			else { at = alignExact(ARENA + 65536 + H.rng.below(std::max<u64>(H.window, 8 * total)), align, true); ok = fits(at - RZ, at + total + RZ); }
		}
		if (!ok) fail("exhausted", "task %d asks for %zu more bytes: the simulated memory is used up", self ? self->id : 0, size);
		Block b; b.at = at; b.size = size; b.slack = slack; b.align = align; b.owner = owner; b.live = true; b.seq = ++H.seq; b.lo = at - RZ; b.hi = at + total + RZ;
		H.blocks[at] = b;
		std::fill(shadow + (at - ARENA), shadow + (at + size - ARENA), SH_LIVE);
		std::fill(shadow + (at + size - ARENA), shadow + (at + total - ARENA), SH_SLACK);
		if (concurrent) memset((void*)(cells + (at - ARENA)), 0, total * sizeof(Cell));
		dropLocs(at, total);
		switch (H.fill)
		{
		case 0: memset((void*)at, 0, total); break;
		case 1: memset((void*)at, 0xff, total); break;
		case 2: memset((void*)at, 0xa5, total); break;
		case 3: for (size_t i = 0; i < total; ++i) ((u8*)at)[i] = (u8)H.rng.next(); break;
		default: break; // whatever was there
		}
		++H.st.live; H.st.liveBytes += size; ++H.live[owner];
		h(at - ARENA); h(size);
		return (void*)at;
	}
	void heapFree(void * p, int owner)
	{
		if (!p) return;
		HarnessScope hs;
		Heap & H = *heap;
		if (self && concurrent) schedPoint(); else step();
		uintptr_t a = (uintptr_t)p;
		auto it = H.blocks.find(a);
		if (it == H.blocks.end() || !it->second.live)
		{
			bool dbl = it != H.blocks.end();
			fail(dbl ? "double-free" : "foreign-free", "release of %s", heapDescribe(p).c_str());
		}
		Block & b = it->second;
		if (b.owner != owner) fail("wrong-allocator", "block #%llu (%zu bytes) of allocator %d released through allocator %d", (unsigned long long)b.seq, b.size, b.owner, owner);
		if (b.size && shadow[a - ARENA] == SH_FROZEN) fail("written-while-shared", "%s is released while others only look at it", heapDescribe(p).c_str());
		if (concurrent) raceCheck(a, b.size, true, false, pc32());
		b.live = false;
		std::fill(shadow + (a - ARENA), shadow + (a + b.size + b.slack - ARENA), SH_FREED);
		dropLocs(a, b.size + b.slack);
		if (H.freeFill) memset(p, 0xdd, b.size);
		H.freed.push_back(a);
		++H.st.frees; --H.st.live; H.st.liveBytes -= b.size; --H.live[owner];
		h(a - ARENA);
	}
	/** From now on the blocks that exist may only be read, not written, until thawed. */
	void freeze(bool on)
	{
		HarnessScope hs;
		for (auto & kv : heap->blocks) if (kv.second.live)
			for (uintptr_t a = kv.second.at; a < kv.second.at + kv.second.size; ++a) { u8 & s = shadow[a - ARENA]; if (s == (on ? SH_LIVE : SH_FROZEN)) s = on ? SH_FROZEN : SH_LIVE; }
	}
	bool isHeap(const void * p) { return inArena((uintptr_t)p); }
	static const Block * liveBlock(const void * p) { auto it = heap->blocks.find((uintptr_t)p); return it == heap->blocks.end() || !it->second.live ? nullptr : &it->second; }
	size_t heapBlockSize(const void * p) { HarnessScope hs; const Block * b = liveBlock(p); return b ? b->size : 0; }
	bool heapExtent(const void * p, uintptr_t * base, size_t * size)
	{
		HarnessScope hs;
		const Block * next, * b = inArena((uintptr_t)p) ? blockNear((uintptr_t)p, &next) : nullptr;
		if (!b || !b->live || (uintptr_t)p >= b->at + b->size) return false;
		*base = b->at; *size = b->size;
		return true;
	}
	int heapOwner(const void * p) { HarnessScope hs; const Block * b = liveBlock(p); return b ? b->owner : -1; }
	u64 heapLive(int owner) { HarnessScope hs; return heap->live[owner]; }
	HeapStats heapStats() { return heap->st; }
	bool heapAccessible(const void * p, size_t n)
	{
		uintptr_t a = (uintptr_t)p;
		if (!inArena(a)) return false;
		for (size_t i = 0; i < n; ++i) if (!there(shadow[a - ARENA + i])) return false;
		return true;
	}
	void heapForgive(int owner)
	{
		HarnessScope hs;
		std::vector<uintptr_t> v;
		for (auto & kv : heap->blocks) if (kv.second.live && kv.second.owner == owner) v.push_back(kv.first);
		for (auto a : v) heapFree((void*)a, owner);
	}
	static size_t usableSize(void * p)
	{
		HarnessScope hs;
		auto it = heap->blocks.find((uintptr_t)p);
		if (it == heap->blocks.end() || !it->second.live) fail("bad-size-query", "size query of %s", heapDescribe(p).c_str());
		Block & b = it->second;
		// the extra room now counts as part of the block
		std::fill(shadow + (b.at - ARENA), shadow + (b.at + b.size + b.slack - ARENA), shadow[b.at - ARENA] == SH_FROZEN ? SH_FROZEN : SH_LIVE);
		b.size += b.slack; heap->st.liveBytes += b.slack; b.slack = 0;
		return b.size;
	}

	// ---- a run ----------------------------------------------------------------------------
	static const Scenario * runScenario;
	static std::vector<Scenario> * scens;
	void registerScenario(const Scenario & s) { if (!scens) scens = new std::vector<Scenario>; scens->push_back(s); }
	const std::vector<Scenario> & scenarios() { if (!scens) scens = new std::vector<Scenario>; return *scens; }

	void genEnvironment(Rng & r, Plan & p, bool conc)
	{
		p.cfg["heap.seed"] = (i64)(r.next() >> 1);
		p.cfg["heap.policy"] = r.below(6);
		p.cfg["heap.fill"] = r.below(5);
		p.cfg["heap.freefill"] = r.below(2);
		p.cfg["sched.seed"] = (i64)(r.next() >> 1);
		if (conc)
		{
			int k = (int)r.below(10);
			p.cfg["sched.kind"] = k < 5 ? 0 : 1;
			static const i64 dens[] = {2, 3, 5, 10, 30, 100, 300};
			p.cfg["sched.den"] = dens[r.below(7)];
			p.cfg["sched.changes"] = r.below(5);
			static const i64 ests[] = {30, 100, 300, 1000, 4000};
			p.cfg["sched.est"] = ests[r.below(5)];
			p.cfg["sched.stall"] = r.chance(1, 5) ? 1 + r.below(3) : 0;
		}
	}
	static void * mainTask(void *)
	{
		self = &tasks[0]; inSim = 0;
		installAltStack(0);
		try { runScenario->run(*plan); }
		catch (...) { inSim = 0; fail("exception", "an exception left the run"); }
		inSim = 0;
		finish(RunResult::OK);
	}
	/** What a body does and observes when nobody else is there: in a copy of the process. */
	bool alone(const std::function<void()> & body, u64 & what)
	{
		HarnessScope hs;
		static RunResult * scratch = nullptr;
		if (!scratch)
		{
			scratch = (RunResult*)mmap(nullptr, sizeof(RunResult), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
			if (scratch == MAP_FAILED) simError("mmap");
		}
		scratch->status = RunResult::RUNNING;
		pid_t pid = fork();
		if (pid < 0) simError("fork");
		if (pid == 0)
		{
			memcpy((void*)scratch, (void*)res, offsetof(RunResult, counters));
			res = scratch; res->nCounters = 0;
			struct itimerval tv{}; tv.it_value.tv_sec = plan->get("cpu", 20); setitimer(ITIMER_PROF, &tv, nullptr);
			runTasks({body});
			res->stateHash = tasks[1].state_;
			finish(RunResult::OK);
		}
		int st = 0;
		while (waitpid(pid, &st, 0) < 0) {}
		what = scratch->stateHash;
		return scratch->status == RunResult::OK;
	}
	void runInThisProcess(const Scenario & s, const Plan & p)
	{
		plan = &p; runScenario = &s;
		memset((void*)res, 0, offsetof(RunResult, counters));
		u64 ss = (u64)p.get("sched.seed", 1);
		schedRng = new Rng(ss);
		locs = new std::map<uintptr_t, Loc>; events = new std::map<std::string, u64>; faultPlan = new std::map<std::string, std::vector<u64>>;
		for (auto & f : p.faults) (*faultPlan)[f.kind].push_back(f.n);
		for (auto & kv : *faultPlan) std::sort(kv.second.begin(), kv.second.end());
		heap = new Heap; heap->rng = Rng((u64)p.get("heap.seed", 1));
		heap->policy = (int)p.get("heap.policy"); heap->fill = (int)p.get("heap.fill"); heap->freeFill = (int)p.get("heap.freefill", 1);
		stepBudget = (u64)p.get("budget", 20000000);
		stratKind = (int)p.get("sched.kind"); stratDen = (u64)p.get("sched.den", 5); if (!stratDen) stratDen = 1;
		stalledTask = (int)p.get("sched.stall");
		u64 est = (u64)p.get("sched.est", 300); if (!est) est = 1;
		stallFrom = schedRng->below(est); stallTo = stallFrom + est * 4;
		for (i64 i = 0; i < p.get("sched.changes"); ++i) changePoints.push_back(schedRng->below(est));
		std::sort(changePoints.rbegin(), changePoints.rend());
		lowPrio = 1000;
		for (auto & x : p.pres) preMap[{x.task, x.step}] = x.target;
		for (auto & x : p.stales) staleMap[{x.task, x.step}] = x.back;
		Task & t = tasks[0]; t.id = 0; t.state = T_READY; t.vc.c[0] = 1;
		struct sigaction sa{}; sa.sa_sigaction = onSignal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER; sigemptyset(&sa.sa_mask);
		for (int sig : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGPROF}) sigaction(sig, &sa, nullptr);
		struct itimerval tv{}; tv.it_value.tv_sec = p.get("cpu", 20); setitimer(ITIMER_PROF, &tv, nullptr);
		pthread_attr_t at; pthread_attr_init(&at);
		pthread_attr_setstack(&at, (void*)(STACKS + (STACK_SPAN - STACK_SIZE)), STACK_SIZE);
		pthread_t th;
		if (pthread_create(&th, &at, mainTask, nullptr)) simError("pthread_create");
		pthread_join(th, nullptr);
		_exit(4);
	}
}

using namespace sim;
#define PC ((uintptr_t)__builtin_return_address(0))

// ---- instrumentation entry points -----------------------------------------------------
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void * pc) { if (inSim && self) { if (self->depth < 256) self->stack[self->depth] = (uintptr_t)pc; ++self->depth; } }
void __tsan_func_exit() { if (inSim && self && self->depth) --self->depth; }

#define RW(n) \
	void __tsan_read##n(void * p) { if (inSim) access((uintptr_t)p, n, false, false, PC, ""); } \
	void __tsan_write##n(void * p) { if (inSim) access((uintptr_t)p, n, true, false, PC, ""); } \
	void __tsan_unaligned_read##n(void * p) { if (inSim) access((uintptr_t)p, n, false, false, PC, ""); } \
	void __tsan_unaligned_write##n(void * p) { if (inSim) access((uintptr_t)p, n, true, false, PC, ""); } \
	void __tsan_volatile_read##n(void * p) { if (inSim) access((uintptr_t)p, n, false, true, PC, ""); } \
	void __tsan_volatile_write##n(void * p) { if (inSim) access((uintptr_t)p, n, true, true, PC, ""); } \
	void __tsan_unaligned_volatile_read##n(void * p) { if (inSim) access((uintptr_t)p, n, false, true, PC, ""); } \
	void __tsan_unaligned_volatile_write##n(void * p) { if (inSim) access((uintptr_t)p, n, true, true, PC, ""); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void * p, unsigned long n) { if (inSim) access((uintptr_t)p, n, false, false, PC, ""); }
void __tsan_write_range(void * p, unsigned long n) { if (inSim) access((uintptr_t)p, n, true, false, PC, ""); }
void __tsan_vptr_update(void ** p, void *) { if (inSim) access((uintptr_t)p, 8, true, false, PC, ""); }
void __tsan_vptr_read(void ** p) { if (inSim) access((uintptr_t)p, 8, false, false, PC, ""); }

} // extern "C"

/** Before an atomic operation: scheduling point, validity, race bookkeeping. */
static bool atomicBegin(uintptr_t a, size_t n, bool write, uintptr_t pc)
{
	if (!inSim || !self || inStacks(a)) return false;
	inSim = 0;
	h(0xA0 | (u64)self->id | n << 8 | (write ? 8 : 0) | canon(a) << 16);
	schedPoint();
	validity(a, n, write, pc, "an atomic operation", true);
	if (concurrent) { if (n > 1 && (a & (n - 1)) == 0) {} raceCheck(a, n, write, true, pc); prepare(a, n); }
	return true;
}
static void atomicEnd() { inSim = 1; }

template<typename T, typename F> static T rmw(volatile T * p, int mo, uintptr_t pc, F f)
{
	uintptr_t a = (uintptr_t)p;
	if (!atomicBegin(a, sizeof(T), true, pc))
	{
		T old = __atomic_load_n(p, __ATOMIC_SEQ_CST);
		while (!__atomic_compare_exchange_n(p, &old, f(old), false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) {}
		return old;
	}
	T old = *p; bool hs = false; VC sv{};
	if (concurrent)
	{
		Loc & l = locOf(a, sizeof(T));
		hs = l.hist.back().hasSync; sv = l.hist.back().sync;
		noteRead(l, l.base + l.hist.size() - 1, mo);
	}
	modelStore(a, sizeof(T), (u64)(typename std::make_unsigned<T>::type)f(old), mo, true, hs, sv);
	atomicEnd();
	return old;
}
template<typename T> static T aload(const volatile T * p, int mo, uintptr_t pc)
{
	if (!atomicBegin((uintptr_t)p, sizeof(T), false, pc)) return __atomic_load_n(p, __ATOMIC_SEQ_CST);
	T v = (T)modelLoad((uintptr_t)p, sizeof(T), mo);
	h((u64)v);
	atomicEnd();
	return v;
}
template<typename T> static void astore(volatile T * p, T v, int mo, uintptr_t pc)
{
	if (!atomicBegin((uintptr_t)p, sizeof(T), true, pc)) { __atomic_store_n(p, v, __ATOMIC_SEQ_CST); return; }
	VC none{};
	modelStore((uintptr_t)p, sizeof(T), (u64)(typename std::make_unsigned<T>::type)v, mo, false, false, none);
	h((u64)v);
	atomicEnd();
}
template<typename T> static bool acas(volatile T * p, T * expected, T desired, int mo, int fmo, uintptr_t pc)
{
	uintptr_t a = (uintptr_t)p;
	if (!atomicBegin(a, sizeof(T), true, pc)) return __atomic_compare_exchange_n(p, expected, desired, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
	T old = *p; bool okay = old == *expected, hs = false; VC sv{};
	if (concurrent)
	{
		Loc & l = locOf(a, sizeof(T));
		hs = l.hist.back().hasSync; sv = l.hist.back().sync;
		noteRead(l, l.base + l.hist.size() - 1, okay ? mo : fmo);
	}
	if (okay) modelStore(a, sizeof(T), (u64)(typename std::make_unsigned<T>::type)desired, mo, true, hs, sv);
	else *expected = old;
	atomicEnd();
	return okay;
}
#include <type_traits>
extern "C" {
#define AT(n, T) \
	T __tsan_atomic##n##_load(const volatile T * p, int mo) { return aload<T>(p, mo, PC); } \
	void __tsan_atomic##n##_store(volatile T * p, T v, int mo) { astore<T>(p, v, mo, PC); } \
	T __tsan_atomic##n##_exchange(volatile T * p, T v, int mo) { return rmw<T>(p, mo, PC, [=](T) { return v; }); } \
	T __tsan_atomic##n##_fetch_add(volatile T * p, T v, int mo) { return rmw<T>(p, mo, PC, [=](T o) { return (T)((typename std::make_unsigned<T>::type)o + (typename std::make_unsigned<T>::type)v); }); } \
	T __tsan_atomic##n##_fetch_sub(volatile T * p, T v, int mo) { return rmw<T>(p, mo, PC, [=](T o) { return (T)((typename std::make_unsigned<T>::type)o - (typename std::make_unsigned<T>::type)v); }); } \
	T __tsan_atomic##n##_fetch_and(volatile T * p, T v, int mo) { return rmw<T>(p, mo, PC, [=](T o) { return (T)(o & v); }); } \
	T __tsan_atomic##n##_fetch_or(volatile T * p, T v, int mo) { return rmw<T>(p, mo, PC, [=](T o) { return (T)(o | v); }); } \
	T __tsan_atomic##n##_fetch_xor(volatile T * p, T v, int mo) { return rmw<T>(p, mo, PC, [=](T o) { return (T)(o ^ v); }); } \
	T __tsan_atomic##n##_fetch_nand(volatile T * p, T v, int mo) { return rmw<T>(p, mo, PC, [=](T o) { return (T)~(o & v); }); } \
	int __tsan_atomic##n##_compare_exchange_strong(volatile T * p, T * e, T d, int mo, int fmo) { return acas<T>(p, e, d, mo, fmo, PC); } \
	int __tsan_atomic##n##_compare_exchange_weak(volatile T * p, T * e, T d, int mo, int fmo) { return acas<T>(p, e, d, mo, fmo, PC); } \
	T __tsan_atomic##n##_compare_exchange_val(volatile T * p, T e, T d, int mo, int fmo) { acas<T>(p, &e, d, mo, fmo, PC); return e; }
AT(8, char) AT(16, short) AT(32, int) AT(64, long)
void __tsan_atomic_thread_fence(int mo)
{
	if (!inSim || !self) { __atomic_thread_fence(__ATOMIC_SEQ_CST); return; }
	inSim = 0;
	schedPoint();
	if (concurrent)
	{
		Task * t = self;
		if (isAcq(mo)) t->vc.join(t->acqPending);
		if (mo == __ATOMIC_SEQ_CST) { t->vc.join(scClock); scClock.join(t->vc); }
		if (isRel(mo)) { t->hasRelFence = true; t->relFence = t->vc; }
		t->vc.c[t->id]++;
	}
	inSim = 1;
}
void __tsan_atomic_signal_fence(int) {}

// ---- function-local statics and mutexes -------------------------------------------------
int __wrap___cxa_guard_acquire(u_int64_t * g)
{
	if (!inSim || !self) return __real___cxa_guard_acquire(g);
	HarnessScope hs;
	for (;;)
	{
		schedPoint();
		char * b = (char*)g;
		if (b[0]) { if (concurrent) { prepare((uintptr_t)g, 1); modelLoad((uintptr_t)g, 1, __ATOMIC_SEQ_CST); } return 0; }
		if (!b[1]) { b[1] = 1; return 1; }
		blockOn(g);
	}
}
void __wrap___cxa_guard_release(u_int64_t * g)
{
	if (!inSim || !self) { __real___cxa_guard_release(g); return; }
	HarnessScope hs;
	((char*)g)[1] = 0;
	VC none{};
	if (concurrent) prepare((uintptr_t)g, 1);
	modelStore((uintptr_t)g, 1, 1, __ATOMIC_SEQ_CST, false, false, none);
	wakeAll(g);
}
void __wrap___cxa_guard_abort(u_int64_t * g)
{
	if (!inSim || !self) { __real___cxa_guard_abort(g); return; }
	((char*)g)[1] = 0; wakeAll(g);
}
struct SimMutex { int owner = -1; int depth = 0; VC vc{}; };
static std::map<void*, SimMutex> * mutexes;
static SimMutex & mutexOf(void * m) { if (!mutexes) mutexes = new std::map<void*, SimMutex>; return (*mutexes)[m]; }
int __wrap_pthread_mutex_lock(pthread_mutex_t * m)
{
	if (!inSim || !self) return __real_pthread_mutex_lock(m);
	HarnessScope hs;
	schedPoint();
	SimMutex & s = mutexOf(m);
	bool recursive = (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE;
	while (s.owner != -1 && !(recursive && s.owner == self->id)) { if (s.owner == self->id) fail("deadlock", "a task locks a mutex it holds"); blockOn(m); }
	s.owner = self->id; ++s.depth; self->vc.join(s.vc);
	return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t * m)
{
	if (!inSim || !self) return __real_pthread_mutex_trylock(m);
	HarnessScope hs;
	schedPoint();
	SimMutex & s = mutexOf(m);
	if (s.owner != -1) return EBUSY;
	s.owner = self->id; ++s.depth; self->vc.join(s.vc);
	return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t * m)
{
	if (!inSim || !self) return __real_pthread_mutex_unlock(m);
	HarnessScope hs;
	schedPoint();
	SimMutex & s = mutexOf(m);
	if (--s.depth <= 0) { s.owner = -1; s.depth = 0; s.vc = self->vc; self->vc.c[self->id]++; wakeAll(m); }
	return 0;
}
int __wrap_pthread_once(pthread_once_t * o, void (*f)())
{
	if (!inSim || !self) return __real_pthread_once(o, f);
	static_assert(sizeof(pthread_once_t) >= 4, "");
	u_int64_t * g = nullptr; { HarnessScope hs; static std::map<void*, u_int64_t> * m; if (!m) m = new std::map<void*, u_int64_t>; g = &(*m)[(void*)o]; }
	if (__wrap___cxa_guard_acquire(g)) { f(); __wrap___cxa_guard_release(g); }
	return 0;
}
int __wrap___cxa_atexit(void (*f)(void *), void * arg, void * dso)
{
	if (!inSim || !self) return __real___cxa_atexit(f, arg, dso);
	HarnessScope hs;
	schedPoint();
	if (!atExit) atExit = new std::vector<AtExit>;
	atExit->push_back({f, arg});
	atExitVC.join(self->vc); self->vc.c[self->id]++;
	return 0;
}
int __wrap___cxa_thread_atexit(void (*f)(void *), void * arg, void * dso)
{
	if (!inSim || !self) return __real___cxa_thread_atexit(f, arg, dso);
	HarnessScope hs;
	if (!self->atEnd) self->atEnd = new std::vector<AtExit>;
	self->atEnd->push_back({f, arg});
	return 0;
}
int __wrap_sched_yield() { if (inSim && self) { HarnessScope hs; schedPoint(); return 0; } return __real_sched_yield(); }

// ---- the system's memory functions -----------------------------------------------------------
void * __wrap_malloc(size_t n) { return inSim && self ? heapAlloc(n, 16, OWNER_SYSTEM, true) : __real_malloc(n); }
void * __wrap_calloc(size_t n, size_t m)
{
	if (!(inSim && self)) return __real_calloc(n, m);
	void * p = heapAlloc(n * m, 16, OWNER_SYSTEM, true);
	if (p) memset(p, 0, n * m);
	return p;
}
void __wrap_free(void * p)
{
	if (!p) return;
	if (isHeap(p)) { heapFree(p, OWNER_SYSTEM); return; }
	if (inSim && self) fail("foreign-free", "release of an address the system never handed out");
	__real_free(p);
}
void * __wrap_realloc(void * p, size_t n)
{
	if (!(inSim && self) && !isHeap(p)) return __real_realloc(p, n);
	if (!p) return __wrap_malloc(n);
	size_t old = heapBlockSize(p);
	if (!old && heapOwner(p) < 0) fail("foreign-free", "reallocation of %s", heapDescribe(p).c_str());
	void * q = heapAlloc(n, 16, OWNER_SYSTEM, true);
	if (!q) return nullptr;
	memcpy(q, p, old < n ? old : n);
	heapFree(p, OWNER_SYSTEM);
	return q;
}
int __wrap_posix_memalign(void ** out, size_t al, size_t n)
{
	if (!(inSim && self)) return __real_posix_memalign(out, al, n);
	if (al < sizeof(void*) || (al & (al - 1))) { count("heap.einval"); return EINVAL; }
	void * p = heapAlloc(n, al, OWNER_SYSTEM, true);
	if (!p) return ENOMEM;
	*out = p;
	return 0;
}
void * __wrap_aligned_alloc(size_t al, size_t n) { return inSim && self ? heapAlloc(n, al, OWNER_SYSTEM, true) : __real_aligned_alloc(al, n); }
size_t __wrap_malloc_usable_size(void * p) { return isHeap(p) ? usableSize(p) : p && inSim && self ? (fail("bad-size-query", "size query of an address the system never handed out"), 0) : __real_malloc_usable_size(p); }

// ---- memory and string functions of the C library, as seen by code under test ------------------
#define CHECKED(p, n, w, name) do { if (inSim && (n)) access((uintptr_t)(p), (n), (w), false, PC, name); } while (0)
void * __wrap_memcpy(void * d, const void * s, size_t n)
{
	if (inSim && self)
	{
		CHECKED(s, n, false, "memcpy"); CHECKED(d, n, true, "memcpy");
		if (n && d != s && (uintptr_t)d < (uintptr_t)s + n && (uintptr_t)s < (uintptr_t)d + n) fail("overlap", "memcpy of overlapping ranges (%zu bytes)", n);
	}
	return __real_memmove(d, s, n);
}
void * __wrap_memmove(void * d, const void * s, size_t n) { CHECKED(s, n, false, "memmove"); CHECKED(d, n, true, "memmove"); return __real_memmove(d, s, n); }
void * __wrap_memset(void * d, int c, size_t n) { CHECKED(d, n, true, "memset"); return __real_memset(d, c, n); }
int __wrap_memcmp(const void * a, const void * b, size_t n) { CHECKED(a, n, false, "memcmp"); CHECKED(b, n, false, "memcmp"); return __real_memcmp(a, b, n); }
static size_t slen(const char * s, uintptr_t pc, size_t max, const char * what)
{
	size_t n = 0;
	if (!inSim) { while (n < max && s[n]) ++n; return n; }
	// the whole string is one access; find its extent without leaving live memory
	uintptr_t a = (uintptr_t)s;
	while (n < max) { if (inArena(a + n) && !there(shadow[a + n - ARENA])) { access(a, n + 1, false, false, pc, what); break; } if (a < 65536) { access(a, 1, false, false, pc, what); } if (!s[n]) break; ++n; }
	access(a, n < max ? n + 1 : (n ? n : 1), false, false, pc, what);
	return n;
}
size_t __wrap_strlen(const char * s) { return slen(s, PC, (size_t)-1, "strlen"); }
size_t __wrap_strnlen(const char * s, size_t m) { return m ? slen(s, PC, m, "strnlen") : 0; }
int __wrap_strcmp(const char * a, const char * b) { if (inSim) { slen(a, PC, (size_t)-1, "strcmp"); slen(b, PC, (size_t)-1, "strcmp"); } return __real_strcmp(a, b); }
int __wrap_strncmp(const char * a, const char * b, size_t n) { if (inSim && n) { size_t i = 0; for (; i < n; ++i) { if (inArena((uintptr_t)a + i) && !there(shadow[(uintptr_t)a + i - ARENA])) { access((uintptr_t)a, i + 1, false, false, PC, "strncmp"); } if (inArena((uintptr_t)b + i) && !there(shadow[(uintptr_t)b + i - ARENA])) access((uintptr_t)b, i + 1, false, false, PC, "strncmp"); if (a[i] != b[i] || !a[i]) break; } } return __real_strncmp(a, b, n); }
char * __wrap_strcpy(char * d, const char * s) { size_t n = slen(s, PC, (size_t)-1, "strcpy"); CHECKED(d, n + 1, true, "strcpy"); __real_memmove(d, s, n + 1); return d; }
char * __wrap_strncpy(char * d, const char * s, size_t m) { size_t n = m ? slen(s, PC, m, "strncpy") : 0; CHECKED(d, m, true, "strncpy"); __real_memmove(d, s, n); if (n < m) __real_memset(d + n, 0, m - n); return d; }
char * __wrap_strcat(char * d, const char * s) { size_t k = slen(d, PC, (size_t)-1, "strcat"), n = slen(s, PC, (size_t)-1, "strcat"); CHECKED(d + k, n + 1, true, "strcat"); __real_memmove(d + k, s, n + 1); return d; }
char * __wrap_strchr(const char * s, int c) { if (inSim) slen(s, PC, (size_t)-1, "strchr"); return (char*)__real_strchr(s, c); }
char * __wrap_strrchr(const char * s, int c) { if (inSim) slen(s, PC, (size_t)-1, "strrchr"); return (char*)__real_strrchr(s, c); }
char * __wrap_strstr(const char * s, const char * t) { if (inSim) { slen(s, PC, (size_t)-1, "strstr"); slen(t, PC, (size_t)-1, "strstr"); } return (char*)__real_strstr(s, t); }
void * __wrap_memchr(const void * s, int c, size_t n)
{
	if (!inSim) return (void*)__real_memchr(s, c, n);
	const char * p = (const char*)s; size_t i = 0; bool found = false; // reads no further than the first match
	for (; i < n; ++i) { if (inArena((uintptr_t)p + i) && !there(shadow[(uintptr_t)p + i - ARENA])) { ++i; break; } if (p[i] == (char)c) { found = true; ++i; break; } }
	CHECKED(s, i, false, "memchr");
	return found ? (void*)(p + i - 1) : nullptr;
}
void * __wrap_memalign(size_t al, size_t n) { return __wrap_aligned_alloc(al, n); }
void * __wrap_mempcpy(void * d, const void * s, size_t n) { return (char*)__wrap_memcpy(d, s, n) + n; }
char * __wrap_stpcpy(char * d, const char * s) { size_t n = slen(s, PC, (size_t)-1, "stpcpy"); CHECKED(d, n + 1, true, "stpcpy"); __real_memmove(d, s, n + 1); return d + n; }
char * __wrap_strncat(char * d, const char * s, size_t m) { size_t k = slen(d, PC, (size_t)-1, "strncat"), n = m ? slen(s, PC, m, "strncat") : 0; CHECKED(d + k, n + 1, true, "strncat"); __real_memmove(d + k, s, n); d[k + n] = 0; return d; }
char * __wrap_strdup(const char * s) { size_t n = slen(s, PC, (size_t)-1, "strdup"); char * d = (char*)__wrap_malloc(n + 1); if (d) __real_memmove(d, s, n + 1); return d; }
int __wrap_strcasecmp(const char * a, const char * b) { if (inSim) { slen(a, PC, (size_t)-1, "strcasecmp"); slen(b, PC, (size_t)-1, "strcasecmp"); } return __real_strcasecmp(a, b); }
int __wrap_strncasecmp(const char * a, const char * b, size_t n) { if (inSim && n) { slen(a, PC, n, "strncasecmp"); slen(b, PC, n, "strncasecmp"); } return __real_strncasecmp(a, b, n); }
size_t __wrap_strspn(const char * s, const char * t) { if (inSim) { slen(s, PC, (size_t)-1, "strspn"); slen(t, PC, (size_t)-1, "strspn"); } return __real_strspn(s, t); }
size_t __wrap_strcspn(const char * s, const char * t) { if (inSim) { slen(s, PC, (size_t)-1, "strcspn"); slen(t, PC, (size_t)-1, "strcspn"); } return __real_strcspn(s, t); }
char * __wrap_strpbrk(const char * s, const char * t) { if (inSim) { slen(s, PC, (size_t)-1, "strpbrk"); slen(t, PC, (size_t)-1, "strpbrk"); } return (char*)__real_strpbrk(s, t); }
char * __wrap_strtok(char * s, const char * t)
{
	static char * place; // of all threads
	CHECKED(&place, sizeof place, false, "strtok"); CHECKED(&place, sizeof place, true, "strtok");
	if (!s) s = place;
	if (!s) return nullptr;
	s += __wrap_strspn(s, t);
	if (!*s) { place = nullptr; return nullptr; }
	char * e = s + __wrap_strcspn(s, t);
	if (*e) { CHECKED(e, 1, true, "strtok"); *e = 0; place = e + 1; } else place = nullptr;
	return s;
}
int __wrap_vsnprintf(char * d, size_t n, const char * f, va_list ap)
{
	if (!inSim || !self) return __real_vsnprintf(d, n, f, ap);
	inSim = 0; va_list aq; va_copy(aq, ap);
	int k = __real_vsnprintf(nullptr, 0, f, aq); va_end(aq);
	inSim = 1;
	if (n && k >= 0) CHECKED(d, (size_t)k + 1 < n ? (size_t)k + 1 : n, true, "vsnprintf");
	inSim = 0; int r = __real_vsnprintf(d, n, f, ap); inSim = 1;
	return r;
}
int __wrap_snprintf(char * d, size_t n, const char * f, ...) { va_list ap; va_start(ap, f); int r = __wrap_vsnprintf(d, n, f, ap); va_end(ap); return r; }
int __wrap_vsprintf(char * d, const char * f, va_list ap) { return inSim && self ? __wrap_vsnprintf(d, (size_t)INT_MAX, f, ap) : __real_vsprintf(d, f, ap); }
int __wrap_sprintf(char * d, const char * f, ...) { va_list ap; va_start(ap, f); int r = __wrap_vsprintf(d, f, ap); va_end(ap); return r; }
// what the code under test prints is dropped
int __wrap_vfprintf(FILE * o, const char * f, va_list ap) { if (inSim) { count("lib.messages"); return 0; } return __real_vfprintf(o, f, ap); }
int __wrap_fprintf(FILE * o, const char * f, ...) { if (inSim) { count("lib.messages"); return 0; } va_list ap; va_start(ap, f); int r = __real_vfprintf(o, f, ap); va_end(ap); return r; }
int __wrap_printf(const char * f, ...) { if (inSim) { count("lib.messages"); return 0; } va_list ap; va_start(ap, f); int r = __real_vfprintf(stdout, f, ap); va_end(ap); return r; }
int __wrap_puts(const char * s) { if (inSim) { count("lib.messages"); return 0; } return __real_puts(s); }
} // extern "C"

// ---- operators new and delete -----------------------------------------------------------------
static void * newOf(size_t n, size_t al)
{
	if (!(inSim && self)) { void * p = nullptr; if (al > 16) { if (__real_posix_memalign(&p, al, n ? n : 1)) p = nullptr; } else p = __real_malloc(n ? n : 1); if (!p) abort(); return p; }
	void * p = nullptr;
	if (!fault("sysnew")) p = heapAlloc(n, al, OWNER_SYSTEM, false); else ++heap->st.failed;
	if (!p) throw std::bad_alloc();
	return p;
}
static void delOf(void * p) { if (!p) return; if (isHeap(p)) heapFree(p, OWNER_SYSTEM); else __real_free(p); }
void * operator new(size_t n) { return newOf(n, 16); }
void * operator new[](size_t n) { return newOf(n, 16); }
void * operator new(size_t n, std::align_val_t a) { return newOf(n, (size_t)a); }
void * operator new[](size_t n, std::align_val_t a) { return newOf(n, (size_t)a); }
void * operator new(size_t n, const std::nothrow_t &) noexcept { try { return newOf(n, 16); } catch (...) { return nullptr; } }
void * operator new[](size_t n, const std::nothrow_t &) noexcept { try { return newOf(n, 16); } catch (...) { return nullptr; } }
void operator delete(void * p) noexcept { delOf(p); }
void operator delete[](void * p) noexcept { delOf(p); }
void operator delete(void * p, size_t) noexcept { delOf(p); }
void operator delete[](void * p, size_t) noexcept { delOf(p); }
void operator delete(void * p, std::align_val_t) noexcept { delOf(p); }
void operator delete[](void * p, std::align_val_t) noexcept { delOf(p); }
void operator delete(void * p, size_t, std::align_val_t) noexcept { delOf(p); }
void operator delete[](void * p, size_t, std::align_val_t) noexcept { delOf(p); }
