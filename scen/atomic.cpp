// P01, P02: the real Atomic<> under simulated threads and the C++ memory model.
#include "../sim/sim.h"
#include <memory>
#include <set>
#include <unordered_set>
#include <cstdio>
#include "core_types.h"
#include "templates/atomic.h"
#include "hal/platform_atomics.h"


using sim::u64; using sim::i64; using sim::Op; using sim::Plan; using sim::Rng;

namespace
{
	enum Code { LOAD, STORE, ASSIGN, PREINC, POSTINC, PREDEC, POSTDEC, ADD, SUB, CONV, EXCHANGE, LOAD_RLX, STORE_RLX, NCODES };
	const char * codeName[] = {"load", "store", "operator=", "++a", "a++", "--a", "a--", "+=", "-=", "conversion", "exchange", "load(Relaxed)", "store(Relaxed)"};

	struct S24 { char c[24]; };
	struct S3 { char c[3]; };

	/** How a value of T is written as a number, and what the sequential model says. */
	template<typename T> struct Rep
	{
		static const u64 mask = sizeof(T) == 8 ? ~0ull : (1ull << (8 * (sizeof(T) & 7))) - 1;
		static T make(u64 v) { return (T)v; }
		static u64 num(T v) { return (u64)v & mask; }
		static u64 add(u64 v, u64 d) { return (v + d) & mask; }
	};
	template<typename E> struct Rep<E*>
	{
		static E * make(u64 v) { return (E*)(uintptr_t)v; }
		static u64 num(E * v) { return (u64)(uintptr_t)v; }
		static u64 add(u64 v, u64 d) { return v + d * sizeof(E); }
	};

	struct Cell
	{
		virtual ~Cell() {}
		virtual u64 apply(int code, u64 arg) = 0;   // on the real atomic
		virtual u64 norm(u64 arg) = 0;              // the value as this type holds it
		virtual u64 model(int code, u64 & value, u64 arg) = 0;
		virtual const char * type() = 0;
		virtual Cell * neighbour(int i) = 0;        // the i-th of the row it stands in
	};
	enum { ROW = 4 };
	template<typename T> struct CellOf : Cell
	{
		Atomic<T> * a; const char * name; bool mine = true;
		CellOf(u64 init, const char * n) : name{n}
		{
			char * p = (char*)sim::heapAlloc(ROW * sizeof(Atomic<T>), alignof(Atomic<T>), 99, false);
			for (int i = ROW; i--; ) a = new (p + i * sizeof(Atomic<T>)) Atomic<T>(Rep<T>::make(init));
		}
		CellOf(Atomic<T> * at, const char * n) : a{at}, name{n}, mine{false} {}
		~CellOf() { if (mine) sim::heapFree(a, 99); }
		Cell * neighbour(int i) override { return new CellOf(a + i, name); }
		u64 norm(u64 v) override { return Rep<T>::num(Rep<T>::make(v)); }
		const char * type() override { return name; }
		template<typename U> static U amount(u64 v) { return (U)v; }
		u64 apply(int code, u64 arg) override
		{
			using N = typename std::conditional<std::is_pointer<T>::value, int64, T>::type;
			T r{};
			switch (code)
			{
			case LOAD: r = sim::call([&] { return a->load(); }); break;
			case LOAD_RLX: r = sim::call([&] { return a->load(Atomic<T>::AtomicOrder::Relaxed); }); break;
			case STORE: sim::call([&] { a->store(Rep<T>::make(arg)); }); break;
			case STORE_RLX: sim::call([&] { a->store(Rep<T>::make(arg), Atomic<T>::AtomicOrder::Relaxed); }); break;
			case ASSIGN: { T v = Rep<T>::make(arg); r = sim::call([&] { return (*a = v); }); break; }
			case PREINC: r = sim::call([&] { return ++*a; }); break;
			case POSTINC: r = sim::call([&] { return (*a)++; }); break;
			case PREDEC: r = sim::call([&] { return --*a; }); break;
			case POSTDEC: r = sim::call([&] { return (*a)--; }); break;
			case ADD: r = sim::call([&] { return *a += (N)arg; }); break;
			case SUB: r = sim::call([&] { return *a -= (N)arg; }); break;
			case CONV: r = sim::call([&] { return static_cast<T>(*a); }); break;
			}
			return code == STORE || code == STORE_RLX ? 0 : Rep<T>::num(r);
		}
		u64 model(int code, u64 & v, u64 arg) override
		{
			u64 old = v;
			switch (code)
			{
			case LOAD: case LOAD_RLX: case CONV: return v;
			case STORE: case STORE_RLX: v = norm(arg); return 0;
			case ASSIGN: v = norm(arg); return v;
			case PREINC: return v = Rep<T>::add(v, 1);
			case POSTINC: v = Rep<T>::add(v, 1); return old;
			case PREDEC: return v = Rep<T>::add(v, (u64)-1);
			case POSTDEC: v = Rep<T>::add(v, (u64)-1); return old;
			case ADD: return v = Rep<T>::add(v, std::is_pointer<T>::value ? arg : norm(arg));
			case SUB: return v = Rep<T>::add(v, (u64)-(i64)(std::is_pointer<T>::value ? arg : norm(arg)));
			}
			return 0;
		}
	};
	/** The platform layer's operations on a bare cell, including exchange. */
	template<typename T> struct BareCell : Cell
	{
		volatile T * a; const char * name; bool mine = true;
		BareCell(u64 init, const char * n) : name{n} { a = (volatile T*)sim::heapAlloc(ROW * sizeof(T), alignof(T), 99, false); for (int i = 0; i < ROW; ++i) a[i] = Rep<T>::make(init); }
		BareCell(volatile T * at, const char * n) : a{at}, name{n}, mine{false} {}
		~BareCell() { if (mine) sim::heapFree((void*)a, 99); }
		Cell * neighbour(int i) override { return new BareCell(a + i, name); }
		u64 norm(u64 v) override { return Rep<T>::num(Rep<T>::make(v)); }
		const char * type() override { return name; }
		u64 apply(int code, u64 arg) override
		{
			T r{};
			switch (code)
			{
			case LOAD: case CONV: r = sim::call([&] { return PlatformAtomics::read(a); }); break;
			case STORE: case ASSIGN: sim::call([&] { PlatformAtomics::store(a, Rep<T>::make(arg)); }); return 0;
			case PREINC: case POSTINC: r = sim::call([&] { return PlatformAtomics::add(a, 1); }); break;
			case PREDEC: case POSTDEC: r = sim::call([&] { return PlatformAtomics::sub(a, 1); }); break;
			case ADD: r = sim::call([&] { return PlatformAtomics::add(a, (T)arg); }); break;
			case SUB: r = sim::call([&] { return PlatformAtomics::sub(a, (T)arg); }); break;
			case EXCHANGE: r = sim::call([&] { return PlatformAtomics::exchange(a, (T)arg); }); break;
			}
			return Rep<T>::num(r);
		}
		u64 model(int code, u64 & v, u64 arg) override
		{
			u64 old = v;
			switch (code)
			{
			case STORE: case ASSIGN: v = norm(arg); return 0;
			case PREINC: case POSTINC: v = Rep<T>::add(v, 1); break;
			case PREDEC: case POSTDEC: v = Rep<T>::add(v, (u64)-1); break;
			case ADD: v = Rep<T>::add(v, norm(arg)); break;
			case SUB: v = Rep<T>::add(v, (u64)-(i64)norm(arg)); break;
			case EXCHANGE: v = norm(arg); break;
			}
			return old;
		}
	};
	enum { NTYPES = 15 };
	Cell * makeCell(int type, u64 init)
	{
		switch (type)
		{
		case 0: return new CellOf<int32>(init, "Atomic<int32>");
		case 1: return new CellOf<uint32>(init, "Atomic<uint32>");
		case 2: return new CellOf<int64>(init, "Atomic<int64>");
		case 3: return new CellOf<uint64>(init, "Atomic<uint64>");
		case 4: return new CellOf<int16>(init, "Atomic<int16>");
		case 5: return new CellOf<uint16>(init, "Atomic<uint16>");
		case 6: return new CellOf<int8>(init, "Atomic<int8>");
		case 7: return new CellOf<uint8>(init, "Atomic<uint8>");
		case 8: return new CellOf<int32*>(init, "Atomic<int32*>");
		case 9: return new CellOf<S24*>(init, "Atomic<S24*>");
		case 10: return new CellOf<uint8*>(init, "Atomic<uint8*>");
		case 11: return new CellOf<S3*>(init, "Atomic<S3*>");
		case 12: return new BareCell<int32>(init, "PlatformAtomics on int32");
		case 13: return new BareCell<uint64>(init, "PlatformAtomics on uint64");
		default: return new BareCell<int16>(init, "PlatformAtomics on int16");
		}
	}
	u64 interestingValue(Rng & r)
	{
		switch (r.below(6))
		{
		case 0: return r.below(4);
		case 1: return (u64)-(i64)r.below(4);
		case 2: { u64 w = 8u << r.below(4); u64 top = w == 64 ? ~0ull : (1ull << w) - 1; return (r.chance(1, 2) ? top : top >> 1) + r.below(3) - 1; }
		case 3: return 0x0102030405060708ull * (1 + r.below(15));
		default: return r.next();
		}
	}
	std::string show(const Op & o)
	{
		char b[120]; snprintf(b, sizeof b, "task %d: %s(0x%llx) on variable %lld", o.task, o.code < NCODES ? codeName[o.code] : "?", (unsigned long long)o.a, (long long)o.b);
		return b;
	}

	// ---- P01: linearizability of one cell ------------------------------------------------
	struct Done { int task, code; u64 arg, ret, inv, resp; };
	std::string historyText(const std::vector<Done> & h)
	{
		std::string s; char b[200];
		for (auto & d : h) { snprintf(b, sizeof b, "\n    task %d [%llu,%llu] %s(0x%llx) -> 0x%llx", d.task, (unsigned long long)d.inv, (unsigned long long)d.resp, codeName[d.code], (unsigned long long)d.arg, (unsigned long long)d.ret); s += b; }
		return s;
	}
	bool search(const std::vector<Done> & h, Cell & c, u64 done, u64 value, std::set<std::pair<u64, u64>> & seen)
	{
		if (done == (1ull << h.size()) - 1) return true;
		if (!seen.insert({done, value}).second) return false;
		u64 firstResp = ~0ull;
		for (size_t i = 0; i < h.size(); ++i) if (!(done >> i & 1) && h[i].resp < firstResp) firstResp = h[i].resp;
		for (size_t i = 0; i < h.size(); ++i)
		{
			if ((done >> i & 1) || h[i].inv > firstResp) continue;
			u64 v = value;
			if (c.model(h[i].code, v, h[i].arg) == h[i].ret && search(h, c, done | 1ull << i, v, seen)) return true;
		}
		return false;
	}
	void genLin(Rng & r, Plan & p)
	{
		sim::genEnvironment(r, p, true);
		int type = r.below(NTYPES);
		p.cfg["type"] = type;
		bool ptr = type >= 8 && type <= 11;
		p.cfg["init"] = (i64)(ptr ? 0x100000 + 24 * r.below(1000) : interestingValue(r));
		int n = 2 + r.below(3);
		int total = 0;
		const int row = r.chance(1, 3) ? 2 + (int)r.below(ROW - 1) : 1; // variables side by side
		int mode = r.below(4); // everything / increments only / stores against increments / loads and stores
		for (int t = 1; t <= n; ++t)
		{
			int k = 1 + r.below(4);
			for (int i = 0; i < k && total < 11; ++i, ++total)
			{
				Op o; o.task = t;
				static const int incs[] = {PREINC, POSTINC, PREDEC, POSTDEC, ADD, SUB};
				static const int mixd[] = {STORE, ASSIGN, PREINC, POSTINC, ADD, LOAD};
				static const int ls[] = {LOAD, STORE, ASSIGN, CONV};
				o.code = mode == 0 ? (int)r.below(EXCHANGE + 1) : mode == 1 ? r.pick(incs) : mode == 2 ? r.pick(mixd) : r.pick(ls);
				if (o.code == EXCHANGE) o.code = ASSIGN; // exchange is an acquire operation only: not part of the guarantee
				o.a = (i64)(ptr ? ((o.code == STORE || o.code == ASSIGN) ? 0x200000 + 24 * r.below(1000) : (u64)r.range(-3, 3)) : interestingValue(r));
				if (row > 1) o.b = (i64)r.below(row);
				p.ops.push_back(o);
			}
		}
	}
	void runLin(const Plan & p)
	{
		u64 init = (u64)p.get("init");
		std::unique_ptr<Cell> c(makeCell((int)p.get("type"), init));
		init = c->norm(init);
		std::vector<Done> hist[ROW];
		std::unique_ptr<Cell> row[ROW];
		for (int i = 0; i < ROW; ++i) row[i].reset(c->neighbour(i));
		std::vector<std::function<void()>> bodies;
		for (int t = 1; t < sim::MAX_TASKS; ++t)
		{
			std::vector<Op> mine; for (auto & o : p.ops) if (o.task == t) mine.push_back(o);
			if (mine.empty()) continue;
			bodies.push_back([&, mine, t] {
				for (auto & o : mine)
				{
					sim::point();
					Done d; d.task = t; d.code = o.code; d.arg = (u64)o.a;
					d.inv = sim::tick();
					d.ret = row[o.b % ROW]->apply(o.code, (u64)o.a);
					d.resp = sim::tick();
					hist[o.b % ROW].push_back(d);
				}
			});
		}
		sim::runTasks(bodies);
		for (int i = 0; i < ROW; ++i)
		{
			Done f; f.task = 0; f.code = LOAD; f.arg = 0; f.inv = sim::tick(); f.ret = row[i]->apply(LOAD, 0); f.resp = sim::tick();
			hist[i].push_back(f);
			for (auto & d : hist[i]) sim::noteState(d.ret);
			std::set<std::pair<u64, u64>> seen;
			if (!search(hist[i], *c, 0, init, seen))
				sim::fail("not-linearizable", "%s, variable %d of a row, initially 0x%llx: no order of these operations explains what they returned:%s", c->type(), i, (unsigned long long)init, historyText(hist[i]).c_str());
		}
	}
	sim::Register r1({"atomic_lin", "P01", genLin, runLin, 1, show});

	// ---- P02a: sequential consistency over several variables --------------------------------
	void genSC(Rng & r, Plan & p)
	{
		sim::genEnvironment(r, p, true);
		int nv = 2 + r.below(2);
		p.cfg["vars"] = nv;
		for (int v = 0; v < nv; ++v) { char k[16]; snprintf(k, sizeof k, "type%d", v); static const int ty[] = {0, 1, 2, 3, 4, 5, 6, 7, 12, 13, 8, 9, 10, 11}; p.cfg[k] = ty[r.below(14)]; }
		auto op = [&](int t, int code, int var, i64 arg) { Op o; o.task = t; o.code = code; o.b = var; o.a = arg; p.ops.push_back(o); };
		static const int writes[] = {STORE, STORE, ASSIGN, PREINC, POSTINC, ADD, PREDEC, SUB};
		static const int reads[] = {LOAD, LOAD, CONV};
		static const int upd[] = {PREINC, POSTINC, ADD, STORE, SUB};
		switch (r.below(6))
		{
		case 0: // store buffering
			op(1, r.pick(writes), 0, 1); op(1, r.pick(reads), 1, 0); op(2, r.pick(writes), 1, 1); op(2, r.pick(reads), 0, 0); break;
		case 1: // message passing
			op(1, r.pick(writes), 0, 1); op(1, r.pick(writes), 1, 1); op(2, r.pick(reads), 1, 0); op(2, r.pick(reads), 0, 0); break;
		case 2: // independent readers of independent writers
			op(1, r.pick(writes), 0, 1); op(2, r.pick(writes), 1, 1);
			op(3, r.pick(reads), 0, 0); op(3, r.pick(reads), 1, 0); op(4, r.pick(reads), 1, 0); op(4, r.pick(reads), 0, 0); break;
		case 3: // load buffering, writes against reads
			op(1, r.pick(reads), 0, 0); op(1, r.pick(writes), 1, 1); op(2, r.pick(reads), 1, 0); op(2, r.pick(writes), 0, 1); break;
		default:
		{
			int n = 2 + r.below(3), total = 0;
			for (int t = 1; t <= n; ++t) { int k = 2 + r.below(3); for (int i = 0; i < k && total < 10; ++i, ++total) { int w = r.below(5); op(t, w < 2 ? r.pick(reads) : w < 4 ? r.pick(writes) : r.pick(upd), (int)r.below(nv), (i64)(1 + r.below(100))); } }
		}
		}
	}
	struct Ev { int task, code, var; u64 arg, ret; };
	bool searchSC(const std::vector<std::vector<Ev>> & th, std::vector<std::unique_ptr<Cell>> & cells, std::vector<size_t> & pos, std::vector<u64> & val, std::set<std::vector<u64>> & seen)
	{
		bool all = true;
		for (size_t t = 0; t < th.size(); ++t) if (pos[t] < th[t].size()) all = false;
		if (all) return true;
		std::vector<u64> key(pos.begin(), pos.end()); key.insert(key.end(), val.begin(), val.end());
		if (!seen.insert(key).second) return false;
		for (size_t t = 0; t < th.size(); ++t)
		{
			if (pos[t] == th[t].size()) continue;
			const Ev & e = th[t][pos[t]];
			u64 v = val[e.var];
			if (cells[e.var]->model(e.code, v, e.arg) != e.ret) continue;
			u64 saved = val[e.var];
			val[e.var] = v; ++pos[t];
			if (searchSC(th, cells, pos, val, seen)) return true;
			val[e.var] = saved; --pos[t];
		}
		return false;
	}
	void runSC(const Plan & p)
	{
		int nv = (int)p.get("vars", 2);
		std::vector<std::unique_ptr<Cell>> cells; std::vector<u64> val;
		for (int v = 0; v < nv; ++v) { char k[16]; snprintf(k, sizeof k, "type%d", v); cells.emplace_back(makeCell((int)p.get(k), 0)); val.push_back(0); }
		std::vector<std::vector<Ev>> th;
		std::vector<std::function<void()>> bodies;
		th.reserve(sim::MAX_TASKS);
		for (int t = 1; t < sim::MAX_TASKS; ++t)
		{
			std::vector<Op> mine; for (auto & o : p.ops) if (o.task == t) mine.push_back(o);
			if (mine.empty()) continue;
			th.emplace_back(); size_t me = th.size() - 1;
			bodies.push_back([&, mine, me, t] { for (auto & o : mine) { sim::point(); Ev e{t, o.code, (int)(o.b % nv), (u64)o.a, 0}; e.ret = cells[e.var]->apply(e.code, e.arg); th[me].push_back(e); } });
		}
		sim::runTasks(bodies);
		std::string text; char b[200];
		for (auto & q : th) for (auto & e : q) { sim::noteState(e.ret); snprintf(b, sizeof b, "\n    task %d: %s(0x%llx) on variable %d (%s) -> 0x%llx", e.task, codeName[e.code], (unsigned long long)e.arg, e.var, cells[e.var]->type(), (unsigned long long)e.ret); text += b; }
		std::vector<size_t> pos(th.size(), 0); std::set<std::vector<u64>> seen;
		if (!searchSC(th, cells, pos, val, seen)) sim::fail("not-sequentially-consistent", "no single order agrees with every thread's own order and these results:%s", text.c_str());
	}
	sim::Register r2({"atomic_sc", "P02", genSC, runSC, 3, show});

	// ---- P02b: plain data published through an atomic ----------------------------------------
	void genPub(Rng & r, Plan & p)
	{
		sim::genEnvironment(r, p, true);
		static const int ty[] = {0, 1, 2, 3, 4, 5, 6, 7, 12, 13, 8, 9, 10, 11};
		p.cfg["type0"] = ty[r.below(14)];
		p.cfg["words"] = 1 + r.below(4);
		p.cfg["chain"] = r.below(2);
		static const int writes[] = {STORE, ASSIGN, PREINC, POSTINC, ADD};
		static const int reads[] = {LOAD, CONV};
		int w = r.pick(writes);
		p.cfg["publish"] = w; p.cfg["observe"] = reads[r.below(2)];
		int readers = 1 + r.below(3);
		for (int i = 0; i < readers; ++i) for (int k = 0; k < 3; ++k) { Op o; o.task = 2 + i; o.code = (int)p.cfg["observe"]; p.ops.push_back(o); }
		Op o; o.task = 1; o.code = w; o.a = 1; p.ops.push_back(o);
	}
	void runPub(const Plan & p)
	{
		// one flag per hop: the writer publishes data through flag 0, the first reader that
		// saw it passes it on through flag 1
		std::unique_ptr<Cell> flag(makeCell((int)p.get("type0"), 0)), flag2(makeCell((int)p.get("type0"), 0));
		size_t words = (size_t)p.get("words", 1);
		u64 * data = (u64*)sim::heapAlloc(8 * words, 8, 99, false);
		for (size_t i = 0; i < words; ++i) data[i] = 0;
		std::vector<std::function<void()>> bodies;
		for (int t = 1; t < sim::MAX_TASKS; ++t)
		{
			std::vector<Op> mine; for (auto & o : p.ops) if (o.task == t) mine.push_back(o);
			if (mine.empty()) continue;
			if (t == 1) bodies.push_back([&, mine] {
				sim::call([&] { for (size_t i = 0; i < words; ++i) data[i] = 1000 + i; });
				for (auto & o : mine) { flag->apply(o.code, 1); break; }
			});
			else bodies.push_back([&, mine, t] {
				Cell * f = p.get("chain") && t > 2 ? flag2.get() : flag.get();
				for (auto & o : mine)
				{
					sim::point();
					u64 v = f->apply(o.code, 0);
					sim::noteState(v);
					if (!v) continue;
					u64 got[8];
					sim::call([&] { for (size_t i = 0; i < words; ++i) got[i] = data[i]; });
					for (size_t i = 0; i < words; ++i) SIM_CHECK(got[i] == 1000 + i, "stale-publication", "task %d saw the flag set through %s but read %llu instead of %zu", t, codeName[o.code], (unsigned long long)got[i], 1000 + i);
					if (p.get("chain") && t == 2) { flag2->apply((int)p.get("publish", STORE), 1); break; }
				}
			});
		}
		sim::runTasks(bodies);
		sim::heapFree(data, 99);
	}
	sim::Register r3({"atomic_publish", "P02", genPub, runPub, 1, show});

	// ---- P02c: a single variable stays coherent under the relaxed order ----------------------------
	void genCoh(Rng & r, Plan & p)
	{
		sim::genEnvironment(r, p, true);
		p.cfg["type0"] = r.below(12);
		int n = 2 + r.below(3), total = 0, val = 1;
		for (int t = 1; t <= n; ++t)
		{
			int k = 2 + r.below(4);
			for (int i = 0; i < k && total < 14; ++i, ++total)
			{
				Op o; o.task = t; static const int c[] = {LOAD_RLX, LOAD_RLX, LOAD_RLX, STORE_RLX, STORE_RLX, LOAD, STORE};
				o.code = r.pick(c); if (o.code == STORE || o.code == STORE_RLX) o.a = val++ * 0x0101010101010101ll;
				p.ops.push_back(o);
			}
		}
	}
	void runCoh(const Plan & p)
	{
		std::unique_ptr<Cell> c(makeCell((int)p.get("type0"), 0));
		std::vector<std::vector<Ev>> th; th.reserve(sim::MAX_TASKS);
		std::vector<std::function<void()>> bodies;
		std::set<u64> written{0};
		for (auto & o : p.ops) if (o.code == STORE || o.code == STORE_RLX) written.insert(c->norm((u64)o.a));
		for (int t = 1; t < sim::MAX_TASKS; ++t)
		{
			std::vector<Op> mine; for (auto & o : p.ops) if (o.task == t) mine.push_back(o);
			if (mine.empty()) continue;
			th.emplace_back(); size_t me = th.size() - 1;
			bodies.push_back([&, mine, me, t] { for (auto & o : mine) { sim::point(); Ev e{t, o.code, 0, (u64)o.a, 0}; e.ret = c->apply(e.code, e.arg); if (o.code == STORE || o.code == STORE_RLX) e.ret = c->norm(e.arg); th[me].push_back(e); } });
		}
		sim::runTasks(bodies);
		// every thread's successive values must follow one common order of the values
		std::map<u64, std::set<u64>> after; std::string text; char b[160];
		for (auto & q : th)
		{
			u64 prev = 0;
			for (auto & e : q)
			{
				sim::noteState(e.ret);
				snprintf(b, sizeof b, "\n    task %d: %s -> 0x%llx", e.task, codeName[e.code], (unsigned long long)e.ret); text += b;
				SIM_CHECK(written.count(e.ret), "invented-value", "a load returned 0x%llx, which nobody wrote:%s", (unsigned long long)e.ret, text.c_str());
				if (e.ret != prev) after[prev].insert(e.ret);
				prev = e.ret;
			}
		}
		u64 fin = c->apply(LOAD, 0);
		SIM_CHECK(written.count(fin), "invented-value", "the final value 0x%llx was never written:%s", (unsigned long long)fin, text.c_str());
		std::map<u64, int> col;
		std::function<bool(u64)> cyc = [&](u64 v) { col[v] = 1; for (u64 w : after[v]) { if (col[w] == 1) return true; if (!col[w] && cyc(w)) return true; } col[v] = 2; return false; };
		for (u64 v : written) if (!col[v] && cyc(v)) sim::fail("incoherent", "the threads disagree about the order of values of one variable:%s", text.c_str());
	}
	sim::Register r4({"atomic_coherence", "P02", genCoh, runCoh, 1, show});
}
