// P03, P04: the container programs of the other files, several at once.
#include "slots.h"
#include "algorithm/sort.h"
using namespace cont;

namespace
{
	// ---- programs that exist only here: raw blocks, allocators, sorting, formatting ------------
	const char * const rawOps[] = {"alloc", "free", "realloc", "aligned alloc"};
	u8 stamp(u64 k, u64 i) { return (u8)(k * 31 + i * 7 + 5); }
	/** Blocks of one allocator, filled and checked. */
	struct Blocks
	{
		struct B { u8 * p = nullptr; u64 n = 0, key = 0; } b[6];
		u64 keys = 1;
		void fillIn(B & x) { sim::call([&] { for (u64 i = 0; i < x.n; ++i) x.p[i] = stamp(x.key, i); }); }
		void verify(const B & x, u64 n, const char * when)
		{
			u64 bad = 0;
			sim::call([&] { for (u64 i = 0; i < n; ++i) if (x.p[i] != stamp(x.key, i)) ++bad; });
			WANT(!bad, "%s: %llu of %llu bytes of a block changed", when, (unsigned long long)bad, (unsigned long long)n);
		}
		template<typename A, typename R, typename F> void step(const Op & o, u64 most, bool aligns, A alloc, R resize, F release)
		{
			B & x = b[o.a % 6];
			const u64 n = 1 + (u64)o.b % most;
			switch (o.code)
			{
			case 1: if (x.p) { verify(x, x.n, "before its release"); sim::call([&] { release(x.p); }); x = B{}; } break;
			case 2:
				if (!x.p) break;
				{
					void * q = nullptr;
					const u64 keep = std::min(n, x.n);
					sim::call([&] { q = resize(x.p, n); });
					if (q) { x.p = (u8*)q; x.n = n; verify(x, keep, "after a reallocation"); x.key = keys++; fillIn(x); }
					sim::noteState(q != nullptr);
				}
				break;
			default:
				if (x.p) { verify(x, x.n, "a live block"); break; }
				{
					static const u64 al[] = {8, 16, 32, 64};
					const u64 align = aligns && o.code == 3 ? al[o.c % 4] : 8;
					void * q = nullptr;
					sim::call([&] { q = alloc(n, align); });
					sim::noteState(q != nullptr);
					if (q) { WANT((u64)q % align == 0, "a block of alignment %llu starts %llu bytes after a multiple", (unsigned long long)align, (unsigned long long)((u64)q % align)); x.p = (u8*)q; x.n = n; x.key = keys++; fillIn(x); }
				}
			}
		}
		template<typename F> void end(F release) { for (B & x : b) if (x.p) { verify(x, x.n, "at the end"); sim::call([&] { release(x.p); }); } }
	};
	struct OneBin : public MallocBinned { OneBin() : MallocBinned{MallocBinned::BucketInfo{1024, 8, 512, 8}, 16} {} };
	void runRaw(const Plan & p)
	{
		Blocks bl;
		switch (p.get("kind") % 4)
		{
		case 0: // whatever the program's global allocator is
			for (const Op & o : p.ops) bl.step(o, 300, true, [](u64 n, u64 al) { return gMalloc->alloc(n, al); }, [](void * q, u64 n) { return gMalloc->realloc(q, n); }, [](void * q) { gMalloc->free(q); });
			bl.end([](void * q) { gMalloc->free(q); });
			break;
		case 1: // through an object allocator
		{
			auto * m = makeIn<MallocObject<u64>>();
			for (const Op & o : p.ops) bl.step(o, 40, false, [&](u64 n, u64) { return (void*)m->alloc((n + 7) / 8); }, [&](void * q, u64 n) { return (void*)m->realloc((u64*)q, (n + 7) / 8); }, [&](void * q) { m->free((u64*)q); });
			bl.end([&](void * q) { m->free((u64*)q); });
			endIn(m);
			break;
		}
		case 2:
		{
			auto * m = makeIn<MallocPooled>((uint32)4, (sizet)48, (sizet)16, (uint32)(p.get("mode") & 1));
			for (const Op & o : p.ops) bl.step(o, 48, false, [&](u64 n, u64) { return m->alloc(n, 8); }, [&](void *, u64) { return (void*)nullptr; }, [&](void * q) { m->free(q); });
			bl.end([&](void * q) { m->free(q); });
			endIn(m);
			break;
		}
		case 3:
		{
			auto * m = makeIn<OneBin>();
			for (const Op & o : p.ops) bl.step(o, 200, false, [&](u64 n, u64) { return m->alloc(n, 8); }, [&](void * q, u64 n) { return m->realloc(q, n); }, [&](void * q) { m->free(q); });
			bl.end([&](void * q) { m->free(q); });
			endIn(m);
			break;
		}
		}
	}
	void genRaw(Rng & r, Plan & p)
	{
		p.cfg["kind"] = r.below(4); p.cfg["mode"] = r.below(2);
		for (int i = 0, n = 3 + (int)r.below(12); i < n; ++i) { Op o; o.code = (int)r.below(4); o.a = (i64)r.below(6); o.b = (i64)r.below(100000); o.c = (i64)r.below(8); p.ops.push_back(o); }
	}
	std::string showRaw(const Op & o) { return std::string(rawOps[o.code % 4]) + " in place " + std::to_string(o.a % 6) + ", size#" + std::to_string(o.b); }
	RegisterPart raw("blocks", {genRaw, runRaw, showRaw, nullptr});

	// ---- sorting an array of one's own, and texts made from numbers ------------------------------
	struct ByValue { template<typename E> int32 operator()(const E & a, const E & b) const { return (int32)(b < a) - (int32)(a < b); } };
	template<typename E> void sortOne(const Op & o)
	{
		using X = Elem<E>;
		const u64 n = (u64)o.b % 20;
		std::vector<i64> v; Rng r{(u64)o.c};
		for (u64 i = 0; i < n; ++i) v.push_back((i64)r.below(o.d % 3 ? 900 : 5));
		Array<E> * a = makeIn<Array<E>>();
		for (i64 x : v) sim::call([&] { a->add(X::mk(x)); });
		seen.n = 0;
		if (n)
		{
			if (o.d & 8)
			{
				Array<uint64> * order = makeIn<Array<uint64>>();
				sim::call([&] { for (u64 i = 0; i < n; ++i) order->add((uint64)i); Sort::argquicksort(**a, **a + n, **order, ByValue{}); for (u64 i = 0; i < n; ++i) seen.add((i64)(*order)[i]); for (u64 i = 0; i < n; ++i) seen.add(X::get((*a)[i])); });
				endIn(order);
			}
			else sim::call([&] { Sort::quicksort(**a, **a + n, ByValue{}); for (u64 i = 0; i < n; ++i) seen.add(X::get((*a)[i])); });
			for (u64 i = 0; i < seen.n; ++i) sim::noteState((u64)seen.v[i]);
		}
		endIn(a);
	}
	const char * const miscOps[] = {"sort numbers", "sort objects", "format", "callable"};
	void runMisc(const Plan & p)
	{
		for (const Op & o : p.ops)
			switch (o.code)
			{
			case 0: sortOne<int64>(o); break;
			case 1: sortOne<Tracked>(o); break;
			case 2:
			{
				const std::string body((u64)o.c % 700 + (o.d % 4 ? 0 : 900), (char)('a' + o.b % 26)), want = body + "<" + std::to_string((int)o.b) + "|" + body + ">";
				std::string got;
				sim::call([&] { String s = String::format("%s<%d|%s>", body.c_str(), (int)o.b, body.c_str()); u64 n = s.getLength(); for (u64 i = 0; i < n; ++i) { char c = s[i]; sim::HarnessScope h; got += c; } });
				WANT(got == want, "format gives %zu characters, expected %zu; they differ", got.size(), want.size());
				break;
			}
			case 3:
			{
				i64 got = 0;
				sim::call([&] { Callable f{[b = o.b](i64 x) { return b + x; }}; Callable g{f}; Callable h; h = std::move(f); got = g(1) + h(2); });
				WANT(got == 2 * o.b + 3, "two copies of a callable give %lld, expected %lld", (long long)got, (long long)(2 * o.b + 3));
				break;
			}
			}
	}
	void genMisc(Rng & r, Plan & p)
	{
		for (int i = 0, n = 1 + (int)r.below(4); i < n; ++i) { Op o; o.code = (int)r.below(4); o.b = (i64)r.below(100000); o.c = (i64)r.below(100000); o.d = (i64)r.below(64); p.ops.push_back(o); }
	}
	std::string showMisc(const Op & o) { return std::string(miscOps[o.code % 4]) + " (values#" + std::to_string(o.b) + ", " + std::to_string(o.c) + ", variant " + std::to_string(o.d) + ")"; }
	RegisterPart misc("misc", {genMisc, runMisc, showMisc, nullptr});

	// ---- runs ----------------------------------------------------------------------------------
	const char * const partNames[] = {"sequence", "associative", "string", "wrapper", "blocks", "misc"};
	Part & part(i64 k) { return parts()[partNames[k % 6]]; }
	std::string name(int t, const char * what) { return "t" + std::to_string(t) + "." + what; }
	const char * const keys[] = {"kind", "mode", "first", "last", "span"};

	// P03: every task has a program and objects of its own
	void run3(const Plan & p)
	{
		judgeFor(p);
		World w(p);
		World::outer = true;
		const int tasks = (int)p.get("tasks", 2);
		std::vector<Plan> plans(tasks + 1);
		for (int t = 1; t <= tasks; ++t)
		{
			Plan & q = plans[t];
			q.property = "P03";
			for (const char * k : keys) if (p.cfg.count(name(t, k))) q.cfg[k] = p.get(name(t, k));
			for (const Op & o : p.ops) if (o.task == t) q.ops.push_back(o);
		}
		std::vector<std::function<void()>> bodies; std::vector<u64> want;
		for (int t = 1; t <= tasks; ++t)
		{
			const Plan & q = plans[t]; Part & x = part(p.get(name(t, "part")));
			bodies.push_back([&q, &x] { x.run(q); });
		}
		// what each does by itself; what goes wrong even then is not this property's business
		for (int t = 1; t <= tasks; ++t)
		{
			u64 v = 0;
			if (!sim::alone(bodies[t - 1], v)) { sim::count("alone.fails"); return; }
			want.push_back(v);
		}
		sim::runTasks(bodies);
		for (int t = 1; t <= tasks; ++t)
			if (sim::observed(t) != want[t - 1]) sim::fail("results-differ", "the program of task %d (%s) gives other results among others than alone", t, partNames[p.get(name(t, "part")) % 6]);
		sim::count("alone.compared", tasks);
	}
	void gen3(Rng & r, Plan & p)
	{
		sim::genEnvironment(r, p, true);
		static const i64 ests[] = {100, 300, 1000, 4000, 20000}, dens[] = {2, 5, 20, 100, 500, 3000};
		p.cfg["sched.est"] = r.pick(ests); p.cfg["sched.den"] = r.pick(dens);
		p.cfg["global"] = r.chance(1, 5);
		const int tasks = 2 + (int)r.below(3); p.cfg["tasks"] = tasks;
		const i64 same = r.chance(1, 2) ? (i64)r.below(6) : -1; // often all do the same kind of thing
		const bool twins = r.chance(1, 4); Plan first;
		for (int t = 1; t <= tasks; ++t)
		{
			const i64 k = same >= 0 ? same : (i64)r.below(6);
			Plan q; q.property = "P03";
			if (twins && same >= 0 && t > 1) q = first; else part(k).gen(r, q);
			if (t == 1) first = q;
			p.cfg[name(t, "part")] = k;
			for (const char * c : keys) if (q.cfg.count(c)) p.cfg[name(t, c)] = q.cfg[c];
			const u64 most = 1 + r.below(12);
			for (u64 i = 0; i < q.ops.size() && i < most; ++i) { q.ops[i].task = t; p.ops.push_back(q.ops[i]); }
		}
	}
	std::string show3(const Plan & p, const Op & o) { return part(p.get(name(o.task, "part"))).show(o); }

	// P03 as well: the same objects, but one task at a time
	void runTurns(const Plan & p) { part(p.get("part")).run(p); }
	void genTurns(Rng & r, Plan & p)
	{
		static const i64 ks[] = {0, 0, 0, 1, 1, 1, 2, 3};
		const i64 k = r.pick(ks);
		Plan q; q.property = "P03";
		part(k).gen(r, q);
		p.cfg = q.cfg; p.cfg["part"] = k; p.cfg["turns"] = 1;
		sim::genEnvironment(r, p, true);
		static const i64 ests[] = {100, 300, 1000, 4000, 20000}, dens[] = {2, 3, 5, 10, 30, 300};
		p.cfg["sched.est"] = r.pick(ests); p.cfg["sched.den"] = r.pick(dens);
		const int tasks = 2 + (int)r.below(2); p.cfg["tasks"] = tasks;
		const u64 most = 4 + r.below(24);
		u64 before = r.below(8);
		const std::vector<int> looks = part(k).reads(q);
		const bool one = r.chance(2, 3), focused = r.chance(1, 2); // one object; looked at and worked on again and again
		for (u64 i = 0; i < q.ops.size() && i < most; ++i)
		{
			Op o = q.ops[i];
			if (focused && o.code >= CREATE && r.chance(3, 4)) { o = q.ops[r.below(q.ops.size())]; if (o.code >= CREATE) continue; }
			if (one && o.code < CREATE) o.a = 0;
			if (focused && !before && !looks.empty() && r.chance(2, 5)) o.code = looks[r.below(looks.size())];
			if (focused && i && !p.ops.empty() && r.chance(1, 6)) { o = p.ops[r.below(p.ops.size())]; }
			if (focused && !p.ops.empty() && o.code < CREATE && r.chance(1, 2)) { const Op & l = p.ops.back(); if (l.code < CREATE) { o.b = l.b; o.c = l.c; o.d = l.d; } } // the same element
			o.task = before ? (--before, 0) : 1 + (int)r.below(tasks);
			p.ops.push_back(o);
		}
	}
	// P04: one task fills, several look
	void run4(const Plan & p) { part(p.get("part")).run(p); }
	void gen4(Rng & r, Plan & p)
	{
		for (;;)
		{
			static const i64 ks[] = {0, 0, 0, 1, 1, 1, 1, 2, 2, 3};
			const i64 k = r.pick(ks);
			Plan q; q.property = "P04";
			part(k).gen(r, q);
			const std::vector<int> looks = part(k).reads(q);
			if (looks.empty()) continue;
			p.cfg = q.cfg; p.cfg["part"] = k;
			sim::genEnvironment(r, p, true);
			static const i64 ests[] = {100, 300, 1000, 4000, 20000}, dens[] = {2, 5, 20, 100, 500, 3000};
			p.cfg["sched.est"] = r.pick(ests); p.cfg["sched.den"] = r.pick(dens);
			u64 build = std::min<u64>(q.ops.size(), k == 2 ? 1 + r.below(6) : 1 + r.below(r.chance(1, 5) ? 40 : 12));
			for (u64 i = 0; i < build; ++i) { Op o = q.ops[i]; if (o.code < CREATE && r.chance(3, 4)) o.a = (i64)r.below(2); p.ops.push_back(o); }
			const int tasks = 2 + (int)r.below(3); p.cfg["tasks"] = tasks;
			const bool twins = r.chance(1, 3); std::vector<Op> first;
			for (int t = 1; t <= tasks; ++t)
			{
				std::vector<Op> mine;
				for (u64 i = 0, n = 1 + r.below(5); i < n; ++i)
				{
					Op o; o.b = (i64)(r.next() % 1000000000); o.c = (i64)(r.next() >> 40); o.d = (i64)(r.next() >> 44); o.a = (i64)r.below(2);
					o.code = looks[0];
					const u64 what = r.below(10);
					if (what < 6) o.code = looks[r.below(looks.size())];
					else if (what < 9) { o.a = 2; o.b = (i64)r.below(2); static const int cs[] = {COPY, COPY, COPY_ASSIGN, BASE_ASSIGN}; o.code = r.pick(cs); if (o.code != COPY) { Op c; c.code = CREATE; c.a = 2; c.c = o.c; mine.push_back(c); } }
					else if (!q.ops.empty()) { o = q.ops[r.below(q.ops.size())]; if (o.code >= CREATE) o.code = looks[0]; o.a = 2; }
					mine.push_back(o);
				}
				if (t == 1) first = mine; else if (twins) mine = first;
				for (Op o : mine) { o.task = t; p.ops.push_back(o); }
			}
			return;
		}
	}
	std::string show4(const Plan & p, const Op & o) { return part(p.get("part")).show(o); }

	sim::Register reg3({"separate-objects", "P03", gen3, run3, 4, nullptr, show3});
	sim::Register regTurns({"taking-turns", "P03", genTurns, runTurns, 2, nullptr, show4});
	sim::Register reg4({"shared-readers", "P04", gen4, run4, 6, nullptr, show4});
}
