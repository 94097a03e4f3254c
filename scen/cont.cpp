#include "cont.h"
namespace cont
{
	Judge judge; Registry reg; int nextOwned = OWNER_OWNED, nextBook = 0; u64 books[32]; Seen seenBy[sim::MAX_TASKS], seenBackBy[sim::MAX_TASKS];
	std::function<void(int)> * opened[sim::MAX_TASKS]; bool World::outer = false; bool loose = false, copiesFail = false; u64 failedCopies = 0;
	static MallocBase * original = nullptr;

	World::World(const Plan & p)
	{
		if (!inner) nextBook = 0;
		for (SimMalloc * m : {&givenA, &givenB}) m->book = books + nextBook++ % 32;
		if (inner) return;
		reg = Registry{}; nextOwned = OWNER_OWNED;
		if (p.property == "P19") return; // the library's own
		if (!original) original = gMalloc;
		gMalloc = p.get("global") ? (MallocBase*)&global : original;
		systemBefore = sim::heapLive(sim::OWNER_SYSTEM);
	}
	void World::settle()
	{
		if (inner) return;
		if (original) gMalloc = original;
		if (judge.elements && !reg.live.empty()) sim::fail("element-leak", "%llu element(s) are never destroyed (%llu constructed, %llu destroyed)", (unsigned long long)reg.live.size(), (unsigned long long)reg.born, (unsigned long long)reg.died);
		if (judge.memory)
		{
			for (int o : {OWNER_GLOBAL, OWNER_GIVEN_A, OWNER_GIVEN_B}) if (u64 n = sim::heapLive(o)) sim::fail("leak", "%llu block(s) of %s never given back", (unsigned long long)n, o == OWNER_GLOBAL ? "the global allocator" : "an allocator given at construction");
			if (u64 n = sim::heapLive(sim::OWNER_SYSTEM) - systemBefore) sim::fail("leak", "%llu block(s) of system memory never given back", (unsigned long long)n);
		}
		sim::noteState(reg.born);
	}
	std::string text(const std::vector<i64> & v)
	{
		std::string s = "[";
		for (size_t i = 0; i < v.size() && i < 40; ++i) s += (i ? " " : "") + std::to_string(v[i]);
		return s + (v.size() > 40 ? " ...]" : "]");
	}
	std::map<std::string, Part> & parts() { static std::map<std::string, Part> m; return m; }
	void judgeFor(const Plan & p)
	{
		const std::string & q = p.property;
		judge.content = q == "P11" || q == "P10" || q == "P04" || q == "P03" || q == "P19";
		judge.elements = q == "P12";
		judge.memory = q == "P14" || q == "P10";
		judge.atomicity = q == "P10";
		loose = !judge.content && !p.faults.empty(); failedCopies = 0; copiesFail = false;
		for (const sim::Fault & f : p.faults) copiesFail |= f.kind == "copy";
	}
	static void addFaults(Rng & r, Plan & p, int span, const char * kind)
	{
		std::vector<u64> ns;
		int k = 1 + (int)r.below(r.chance(1, 3) ? 8 : 3);
		for (int i = 0; i < k; ++i)
		{
			u64 at = r.below(r.chance(1, 3) ? 8 : span), len = r.chance(1, 6) ? 1 + r.below(6) : 1;
			for (u64 j = 0; j < len; ++j) ns.push_back(at + j);
		}
		std::sort(ns.begin(), ns.end()); ns.erase(std::unique(ns.begin(), ns.end()), ns.end());
		for (u64 n : ns) { sim::Fault f; f.kind = kind; f.n = n; p.faults.push_back(f); }
	}
	void genFaults(Rng & r, Plan & p, int span) { addFaults(r, p, span, "alloc"); }
	void genStrict(Rng & r, Plan & p, int n)
	{
		const bool copies = r.chance(1, 4);
		if (!copies || r.chance(1, 3)) genFaults(r, p, (r.chance(1, 4) ? 6 * n : n) + 4);
		if (copies) addFaults(r, p, 2 * n + 4, "copy");
	}
	void genLoose(Rng & r, Plan & p, int n)
	{
		if (!r.chance(2, 5)) return;
		const int what = 1 + (int)r.below(3);
		const bool dense = r.chance(1, 3); // operations on elements that hold memory take many requests
		if (what & 1) { genFaults(r, p, (dense ? 6 * n : n) + 4); if (p.property == "P12" || r.chance(2, 3)) p.cfg["global"] = 1; }
		if (what & 2) addFaults(r, p, (dense ? 8 * n : 2 * n) + 4, "copy");
	}
}
