// Shared by the container scenarios: element types, allocators, run skeleton.
#pragma once
#include "../sim/sim.h"
#include <algorithm>
#include <cstdio>
#include <cstring>
#include <memory>
#include <new>
#include <string>
#include <unordered_map>
#include <vector>
#include "core_types.h"
#include "hal/platform_memory.h"
#include "hal/malloc_ansi.h"
#include "hal/malloc_pool.h"
#include "hal/malloc_binned.h"
#include "hal/malloc_object.h"
#include "templates/array.h"
#include "templates/functional.h"
#include "templates/optional.h"
#include "templates/function.h"
#include "containers/array.h"
#include "containers/string.h"
#include "containers/list.h"
#include "containers/pair.h"
#include "containers/tuple.h"
#include "containers/tree.h"
#include "containers/map.h"
#include "containers/set.h"

using sim::u64; using sim::i64; using sim::u8; using sim::Op; using sim::Plan; using sim::Rng;

namespace cont
{
	enum { HARNESS = 1000000, OWNER_GLOBAL = 1, OWNER_GIVEN_A = 2, OWNER_GIVEN_B = 3, OWNER_OWNED = 10 };
	struct OutOfMemory {};

	/** What this run judges. A run is made for one property; the others' verdicts are left to their own runs. */
	struct Judge { bool content, elements, memory, atomicity; };
	extern Judge judge;
	/** Requests and copies fail in this run, and what a container holds after that is not its concern. */
	extern bool loose;
	/** Copying an element may be refused in this run. */
	extern bool copiesFail;
	extern u64 failedCopies;

	// ---- element type that knows whether it exists ------------------------------
	struct Registry
	{
		std::unordered_map<const void*, int> live; u64 born = 0, died = 0, compares[sim::MAX_TASKS] = {};
	};
	extern Registry reg;
	enum { MOVED = -7777 };
	/** Book-keeping of elements. */
	inline void entered(const void * p, i64 v)
	{
		sim::HarnessScope h;
		int & n = reg.live[p];
		if (n && judge.elements) sim::fail("element-overwritten", "an element (value %lld) is constructed over one that was not destroyed", (long long)v);
		n = 1; ++reg.born;
	}
	inline void left(const void * p)
	{
		sim::HarnessScope h;
		auto it = reg.live.find(p);
		if (it == reg.live.end()) { if (judge.elements) sim::fail("element-destroyed-twice", "an element that does not exist (any more) is destroyed"); return; }
		reg.live.erase(it); ++reg.died;
	}
	inline void alive(const void * p, const char * how)
	{
		sim::HarnessScope h;
		if (judge.elements && !reg.live.count(p)) sim::fail("element-not-alive", "an element that does not exist (any more) is %s", how);
	}
	struct Tracked
	{
		i64 v;
		Tracked() : v{0} { mayFail(); enter(); }
		explicit Tracked(i64 x) : v{x} { enter(); }
		Tracked(const Tracked & o) : v{o.v} { o.check("copied"); mayFail(); enter(); }
		Tracked(Tracked && o) : v{o.v} { o.check("moved"); o.v = MOVED; enter(); }
		Tracked & operator=(const Tracked & o) { check("assigned to"); o.check("copied"); mayFail(); v = o.v; return *this; }
		Tracked & operator=(Tracked && o) { check("assigned to"); o.check("moved"); i64 x = o.v; o.v = MOVED; v = x; return *this; }
		~Tracked() { leave(); v = -9999; }
		bool operator<(const Tracked & o) const { compare(o); return v < o.v; }
		bool operator>(const Tracked & o) const { compare(o); return v > o.v; }
		bool operator==(const Tracked & o) const { compare(o); return v == o.v; }
		i64 get() const { check("read"); return v; }
	private:
		/** A copy needs something that may be refused; a move never does. */
		static void mayFail()
		{
			if (!copiesFail || !sim::inSim) return;
			{ sim::HarnessScope h; if (!sim::fault("copy")) return; ++failedCopies; }
			throw OutOfMemory{};
		}
		void enter() { entered(this, v); }
		void leave() { left(this); }
		void compare(const Tracked & o) const { check("compared"); o.check("compared"); sim::HarnessScope h; ++reg.compares[sim::taskId()]; }
		void check(const char * how) const { alive(this, how); }
	};

	// ---- element values <-> elements ------------------------------------------------
	template<typename E> struct Elem;
	template<> struct Elem<int64>
	{
		static int64 mk(i64 v) { return v; }
		static i64 get(const int64 & e) { return e; }
		static const char * name() { return "int64"; }
	};
	template<> struct Elem<Tracked>
	{
		static Tracked mk(i64 v) { return Tracked{v}; }
		static i64 get(const Tracked & e) { return e.get(); }
		static const char * name() { return "an object that owns something"; }
	};
	template<> struct Elem<String>
	{
		// digits first, so that the order of the strings is the order of the numbers
		static String mk(i64 v)
		{
			char b[64]; int n = 0;
			for (i64 d = 100000; d; d /= 10) b[n++] = (char)('0' + v / d % 10);
			for (int i = 0; i < v % 5 * 9; ++i) b[n++] = (char)('a' + (v + i) % 26);
			b[n] = 0;
			return String{b};
		}
		static i64 get(const String & e)
		{
			i64 v = 0;
			if (e.getLength() < 6) return -1;
			for (int i = 0; i < 6; ++i) v = v * 10 + (e[i] - '0');
			if (e.getLength() != (u64)(6 + v % 5 * 9) || (*e)[e.getLength()] != 0) return -2;
			for (int i = 0; i < v % 5 * 9; ++i) if (e[6 + i] != (char)('a' + (v + i) % 26)) return -3;
			return v;
		}
		static const char * name() { return "String"; }
	};
	// ---- elements that hold something themselves ------------------------------------
	template<> struct Elem<Optional<Tracked>>
	{
		using E = Optional<Tracked>;
		static E mk(i64 v) { if (v == 0) return E{}; return E{Tracked{v}}; }
		static i64 get(const E & e) { return e ? e->get() : 0; }
	};
	template<> struct Elem<Optional<String>>
	{
		using E = Optional<String>;
		static E mk(i64 v) { if (v == 0) return E{}; return E{Elem<String>::mk(v)}; }
		static i64 get(const E & e) { return e.hasValue() ? Elem<String>::get(*e) : 0; }
	};
	template<> struct Elem<Array<Tracked>>
	{
		using E = Array<Tracked>;
		static E mk(i64 v) { E a; for (i64 i = 0; i <= v % 4; ++i) a.add(Tracked{v + i}); return a; }
		static i64 get(const E & e)
		{
			if (!e.getCount()) return -1;
			const i64 v = e[0].get();
			if ((i64)e.getCount() != v % 4 + 1) return -2;
			for (i64 i = 0; i <= v % 4; ++i) if (e[i].get() != v + i) return -3;
			return v;
		}
	};
	template<> struct Elem<List<String>>
	{
		using E = List<String>;
		static E mk(i64 v) { E a; for (i64 i = 0; i <= v % 3; ++i) a.pushBack(Elem<String>::mk(v + i)); return a; }
		static i64 get(const E & e)
		{
			if (!e.getLength()) return -1;
			const i64 v = Elem<String>::get(e.getHead()->data); i64 i = 0;
			if ((i64)e.getLength() != v % 3 + 1) return -2;
			for (const String & t : e) if (Elem<String>::get(t) != v + i++) return -3;
			return v;
		}
	};
	/** An element that asks for more room than usual, in the right place. */
	struct alignas(64) Wide
	{
		Tracked a; i64 pad[9]; Tracked b;
		Wide() : Wide{0} {}
		explicit Wide(i64 v) : a{v}, b{v + 1} { for (i64 & p : pad) p = v; }
		bool operator<(const Wide & o) const { return a < o.a; }
		bool operator>(const Wide & o) const { return a > o.a; }
		bool operator==(const Wide & o) const { return a == o.a; }
		i64 get() const
		{
			if ((u64)this % 64 && (judge.content || judge.memory)) sim::fail("misaligned-element", "an element that needs an address divisible by 64 lives at one that leaves %llu", (unsigned long long)((u64)this % 64));
			const i64 v = a.get();
			for (i64 p : pad) if (p != v) return -5;
			return b.get() == v + 1 ? v : -6;
		}
	};
	/** Has no move of its own: moving is copying, and may fail as that does. */
	struct Stiff
	{
		Tracked t;
		Stiff() {}
		explicit Stiff(i64 v) : t{v} {}
		Stiff(const Stiff & o) : t{o.t} {}
		Stiff & operator=(const Stiff & o) { t = o.t; return *this; }
		~Stiff() {}
	};
	template<> struct Elem<Stiff>
	{
		static Stiff mk(i64 v) { return Stiff{v}; }
		static i64 get(const Stiff & e) { return e.t.get(); }
	};
	template<> struct Elem<Wide>
	{
		static Wide mk(i64 v) { return Wide{v}; }
		static i64 get(const Wide & e) { return e.get(); }
	};
	template<> struct Elem<Pair<Tracked, String>>
	{
		using E = Pair<Tracked, String>;
		static E mk(i64 v) { return E{Tracked{v}, Elem<String>::mk(v)}; }
		static i64 get(const E & e) { const i64 v = e.getKey().get(); return Elem<String>::get(e.getVal()) == v && &e.getVal() == &e.second ? v : -2; }
	};
	template<> struct Elem<Tuple<int64, Tracked, String, Tracked>>
	{
		using E = Tuple<int64, Tracked, String, Tracked>;
		static E mk(i64 v) { return E{(int64)v, Tracked{v}, Elem<String>::mk(v), Tracked{v + 1}}; }
		static i64 get(const E & e)
		{
			const i64 v = e.get<0>();
			if (e.getCount() != 4 || e.get<1>().get() != v || e.get<Tracked>().get() != v || e.get<3>().get() != v + 1) return -2;
			return Elem<String>::get(e.get<2>()) == v && &e.get<String>() == &e.get<2>() ? v : -3;
		}
	};
	/** Three of a kind, in place. */
	struct Trio
	{
		StaticArray<Tracked, 3> a;
		explicit Trio(i64 v = 0) : a{Tracked{v}, Tracked{v + 1}, Tracked{v + 2}} {}
		i64 get() const { const i64 v = a[0].get(); return a.getCount() == 3 && a[1].get() == v + 1 && (*a)[2].get() == v + 2 ? v : -2; }
	};
	template<> struct Elem<Trio>
	{
		static Trio mk(i64 v) { return Trio{v}; }
		static i64 get(const Trio & e) { return e.get(); }
	};
	/** Trivially made, but neither copied nor destroyed so. */
	struct Lazy
	{
		i64 v;
		Lazy() = default;
		explicit Lazy(i64 x) : v{x} { entered(this, v); }
		Lazy(const Lazy & o) : v{o.v} { alive(&o, "copied"); entered(this, v); }
		Lazy(Lazy && o) : v{o.v} { alive(&o, "moved"); o.v = MOVED; entered(this, v); }
		Lazy & operator=(const Lazy & o) { alive(this, "assigned to"); alive(&o, "copied"); v = o.v; return *this; }
		Lazy & operator=(Lazy && o) { alive(this, "assigned to"); alive(&o, "moved"); i64 x = o.v; o.v = MOVED; v = x; return *this; }
		~Lazy() { left(this); v = -9999; }
		i64 get() const { alive(this, "read"); return v; }
	};
	template<> struct Elem<Lazy>
	{
		static Lazy mk(i64 v) { return Lazy{v}; }
		static i64 get(const Lazy & e) { return e.get(); }
	};
	/** Knows where it lives, but there is nothing to destroy. */
	struct Settled
	{
		i64 v; const Settled * home;
		Settled(i64 x = 0) : v{x}, home{this} {}
		Settled(const Settled & o) : v{o.get()}, home{this} {}
		Settled & operator=(const Settled & o) { v = home == this ? o.get() : -3; return *this; }
		i64 get() const { return home == this ? v : -2; }
	};
	template<> struct Elem<Settled>
	{
		static Settled mk(i64 v) { return Settled{v}; }
		static i64 get(const Settled & e) { return e.get(); }
	};
	/** Plain ones of sizes that are no multiple of eight. */
	struct TwoBytes
	{
		uint16 v;
		bool operator<(TwoBytes o) const { return v < o.v; }
		bool operator>(TwoBytes o) const { return v > o.v; }
		bool operator==(TwoBytes o) const { return v == o.v; }
	};
	struct OddSize
	{
		int32 a, b, c;
		bool operator<(const OddSize & o) const { return b < o.b; }
		bool operator>(const OddSize & o) const { return b > o.b; }
		bool operator==(const OddSize & o) const { return b == o.b; }
	};
	template<> struct Elem<TwoBytes>
	{
		static TwoBytes mk(i64 v) { return TwoBytes{(uint16)v}; }
		static i64 get(const TwoBytes & e) { return e.v; }
	};
	template<> struct Elem<OddSize>
	{
		static OddSize mk(i64 v) { return OddSize{(int32)(v + 1), (int32)v, (int32)(v ^ 5)}; }
		static i64 get(const OddSize & e) { return e.a == e.b + 1 && e.c == (e.b ^ 5) ? e.b : -2; }
	};
	/** Made without asking for memory. */
	template<typename E> constexpr bool simple = std::is_same<E, int64>::value || std::is_same<E, Tracked>::value || std::is_same<E, Lazy>::value || std::is_same<E, Settled>::value || std::is_same<E, TwoBytes>::value || std::is_same<E, OddSize>::value;
	using Callable = Function<i64(i64)>;
	template<> struct Elem<Callable>
	{
		static Callable mk(i64 v) { return Callable{[t = Tracked{v}](i64 x) { return t.get() + x; }}; }
		static i64 get(const Callable & f) { return f ? f(3) - 3 : -1; }
	};
	/** Orders by key only: the two low bits of a value are its payload. */
	struct ByKey
	{
		static i64 key(const int64 & v) { return v >> 2; }
		static i64 key(const Tracked & t) { return t.get() >> 2; }
		template<typename A, typename B> int32 operator()(const A & a, const B & b) const
		{
			{ sim::HarnessScope h; ++reg.compares[sim::taskId()]; }
			i64 x = key(a), y = key(b);
			return (int32)(x > y) - (int32)(x < y);
		}
	};

	// ---- allocators -------------------------------------------------------------------
	/** Hands out blocks of its own; throws when told to fail. */
	struct SimMalloc : public MallocBase
	{
		int owner; bool alive = true; u64 * book = nullptr;
		explicit SimMalloc(int o) : owner{o} {}
		/** Made for one thread, unless it is everyone's: in here several would get into each other's way. */
		void enter() { if (book) ++*book; }
		void * alloc(sizet size, sizet alignment = DEFAULT_ALIGNMENT) override
		{
			void * p = get(size, alignment);
			if (!p) throw OutOfMemory{};
			return p;
		}
		void * realloc(void * orig, sizet size, sizet alignment = DEFAULT_ALIGNMENT) override
		{
			void * p = get(size, alignment);
			if (!p) throw OutOfMemory{};
			if (orig) { u64 n = sim::heapBlockSize(orig); memcpy(p, orig, n < size ? n : size); free(orig); }
			return p;
		}
		void free(void * p) override
		{
			enter();
			sim::HarnessScope h;
			if (!alive && judge.memory) sim::fail("allocator-used-after-destruction", "a block is given back to an allocator that was destroyed before");
			if (p) sim::heapFree(p, owner);
		}
	private:
		void * get(sizet size, sizet alignment)
		{
			enter();
			sim::HarnessScope h;
			if (!alive && judge.memory) sim::fail("allocator-used-after-destruction", "memory is asked from an allocator that was destroyed before");
			return sim::heapAlloc(size ? size : 1, alignment < 8 ? 8 : alignment, owner, true);
		}
	};
	extern int nextOwned, nextBook;
	extern u64 books[32]; // where races are seen
	/** To be owned by a container: every instance has blocks of its own. */
	struct OwnedMalloc : public SimMalloc
	{
		OwnedMalloc() : SimMalloc{another()} {}
		static int another() { sim::HarnessScope h; return nextOwned++; }
		~OwnedMalloc()
		{
			sim::HarnessScope h;
			alive = false;
			if (judge.memory && sim::heapLive(owner)) sim::fail("leak", "%llu block(s) still held when the allocator a container owns is destroyed", (unsigned long long)sim::heapLive(owner));
		}
	};
	struct OwnedPooled : public MallocPooled { OwnedPooled() : MallocPooled{4, 160, 16, 0} {} };
	struct OwnedBinned : public MallocBinned { OwnedBinned() : MallocBinned{MallocBinned::BucketInfo{1024, 8, 512, 8}, 16} {} };

	template<typename T, typename ...A> T * makeIn(A && ...a)
	{
		void * p = sim::heapAlloc(sizeof(T), alignof(T) < 8 ? 8 : alignof(T), HARNESS, false);
		try { return sim::call([&] { return new (p) T(std::forward<A>(a)...); }); }
		catch (...) { sim::heapFree(p, HARNESS); throw; }
	}
	/** The same from what a function returns, made inside the run as well. */
	template<typename T, typename F> T * makeBy(F && f)
	{
		void * p = sim::heapAlloc(sizeof(T), alignof(T) < 8 ? 8 : alignof(T), HARNESS, false);
		try { return sim::call([&] { return new (p) T(f()); }); }
		catch (...) { sim::heapFree(p, HARNESS); throw; }
	}
	template<typename T> void endIn(T * p)
	{
		sim::call([&] { p->~T(); });
		sim::heapFree(p, HARNESS);
	}

	/** The allocators around a run and the accounting at its end. */
	struct World
	{
		static bool outer; // a run of several tasks keeps the books itself
		bool inner = outer;
		SimMalloc global{OWNER_GLOBAL}, givenA{OWNER_GIVEN_A}, givenB{OWNER_GIVEN_B};
		u64 systemBefore;
		explicit World(const Plan & p);
		MallocBase * given(i64 n) { return n & 1 ? (MallocBase*)&givenA : (MallocBase*)&givenB; }
		void settle();
	};

	enum : u64 { SEEN = 80000 };
	/** Result of reading a container: at most SEEN values. */
	struct Seen { u64 n = 0; i64 v[SEEN]; void add(i64 x) { if (n < SEEN) v[n] = x; ++n; } };
	extern Seen seenBy[sim::MAX_TASKS], seenBackBy[sim::MAX_TASKS]; // one per task
	#define seen (::cont::seenBy[::sim::taskId()])
	#define seenBack (::cont::seenBackBy[::sim::taskId()])
	std::string text(const std::vector<i64> & v);
	inline std::string text(const Seen & s) { return text(std::vector<i64>(s.v, s.v + std::min<u64>(s.n, SEEN))); }
	inline bool same(const Seen & s, const std::vector<i64> & m) { return s.n == m.size() && std::equal(m.begin(), m.end(), s.v); }
	#define WANT(cond, ...) do { if (::cont::judge.content && !(cond)) ::sim::fail("wrong-content", __VA_ARGS__); } while (0)

	/** Runs an operation; false if it ran out of memory. */
	template<typename F> bool attempt(F && f)
	{
		try { sim::call(f); return true; }
		catch (OutOfMemory &) { sim::count("op.out_of_memory"); return false; }
	}
	/** Several steps, of which a part may have been done when memory runs out; doing all again comes to the same. Faults are finite. */
	template<typename F> void untilDone(F && f) { while (!attempt(f)) ; }
	/** A scenario that can also be run inside a task, among others. */
	struct Part
	{
		void (*gen)(Rng &, Plan &); void (*run)(const Plan &); std::string (*show)(const Op &);
		std::vector<int> (*reads)(const Plan &); // operations that only look; none: not for sharing
	};
	std::map<std::string, Part> & parts();
	struct RegisterPart { RegisterPart(const char * name, Part p) { parts()[name] = p; } };
	extern std::function<void(int)> * opened[sim::MAX_TASKS]; // a program is to be opened, not run
	void judgeFor(const Plan & p);
	void genFaults(Rng & r, Plan & p, int span);
	/** Refused memory, or elements that cannot be copied, or both. */
	void genLoose(Rng & r, Plan & p, int n);
	void genStrict(Rng & r, Plan & p, int n);
	inline u64 failures() { return sim::heapStats().failed + failedCopies; }
	/** An object of the harness's own, gone when left in whatever way. */
	template<typename T> struct Held { T * p; explicit Held(T * q) : p{q} {} Held(const Held &) = delete; ~Held() { if (p) endIn(p); } T & operator*() const { return *p; } T * operator->() const { return p; } };
}
