// P06, P07, P08, P09: the real allocators over the simulated system memory.
#include "../sim/sim.h"
#include <memory>
#include <cstdio>
#include <cstring>
#include <new>
#include <string>
#include <vector>
#include <map>
#include "core_types.h"
#include "hal/platform_memory.h"
#include "hal/malloc_ansi.h"
#include "hal/malloc_pool.h"
#include "hal/malloc_binned.h"
#include "hal/malloc_object.h"

using sim::u64; using sim::i64; using sim::u8; using sim::Op; using sim::Plan; using sim::Rng;

namespace
{
	enum { HARNESS = 99 };
	enum Kind { POOL, POOL_LENT, MPOOL, MPOOL_LENT, MPOOL_INLINE, MPOOL_INLINE_LENT, POOLED, BINNED, ANSI, OBJ_POOLED, OBJ_OWN_POOLED, OBJ_OWN_POOL, OBJ_OWN_BINNED, NKINDS };
	const char * kindName[] = {"MemoryPool", "MemoryPool(lent buffer)", "MallocPool", "MallocPool(lent buffer)", "MallocPoolInline", "MallocPoolInline(lent buffer)", "MallocPooled", "MallocBinned", "MallocAnsi",
		"MallocObject over MallocPooled", "MallocObject owning a MallocPooled", "MallocObject owning a MallocPoolInline", "MallocObject owning a MallocBinned"};
	struct Obj24 { u64 w[3]; };

	enum Code { ALLOC, FREE, REALLOC, QUERY, VERIFY, TEARDOWN, FREE_ALL, QUIET, MOVE, MANY, FEW, NCODES };

	struct Config
	{
		int kind; u64 numBlocks, blockSize, align, pools;
		u64 bPool, bMin, bMax, bInc;
	};
	bool isFixed(int k) { return k <= MPOOL_INLINE_LENT || k == OBJ_OWN_POOL; }
	bool isLent(int k) { return k == POOL_LENT || k == MPOOL_LENT || k == MPOOL_INLINE_LENT; }
	bool isPooled(int k) { return k == POOLED || k == OBJ_POOLED || k == OBJ_OWN_POOLED; }
	bool isBinned(int k) { return k == BINNED || k == OBJ_OWN_BINNED; }
	bool isObj(int k) { return k >= OBJ_POOLED; }

	template<typename T, typename ...A> T * makeIn(A && ...a)
	{
		void * p = sim::heapAlloc(sizeof(T), alignof(T), HARNESS, false);
		return sim::call([&] { return new (p) T(std::forward<A>(a)...); });
	}
	template<typename T> void endIn(T * p)
	{
		sim::call([&] { p->~T(); });
		sim::heapFree(p, HARNESS);
	}

	/** One allocator under test, whatever its interface. */
	struct Subject
	{
		virtual ~Subject() {}
		virtual void * alloc(u64 size, u64 align) = 0;
		virtual bool canRealloc() { return true; }
		virtual void * realloc(void * p, u64 size, u64 align) = 0;
		virtual void free(void * p) = 0;
		virtual int owns(void *) { return -1; }                       // -1: no such query
		virtual i64 freeBlocks() { return -1; }
		virtual int exhausted() { return -1; }
		virtual i64 numPools() { return -1; }
		virtual bool move(bool) { return false; }                     // into a wrapper of its own kind
	};
	struct PoolSubject : Subject
	{
		MemoryPool * p;
		PoolSubject(const Config & c, void * lent) { p = makeIn<MemoryPool>((uint32)c.numBlocks, (sizet)c.blockSize, (sizet)c.align, lent); }
		~PoolSubject() { endIn(p); }
		void * alloc(u64, u64) override { return sim::call([&] { return p->acquireBlock(); }); }
		bool canRealloc() override { return false; }
		void * realloc(void *, u64, u64) override { return nullptr; }
		void free(void * b) override { sim::call([&] { p->releaseBlock(b); }); }
		int owns(void * b) override { return sim::call([&] { return p->hasBlock(b); }); }
		i64 freeBlocks() override { return sim::call([&] { return p->getNumFreeBlocks(); }); }
		int exhausted() override { return sim::call([&] { return p->isExhausted(); }); }
	};
	template<typename M> struct MallocSubject : Subject
	{
		M * m;
		~MallocSubject() { endIn(m); }
		void * alloc(u64 s, u64 a) override { MallocBase * b = m; return sim::call([&] { return a == 8 ? b->alloc(s) : b->alloc(s, a); }); }
		void * realloc(void * p, u64 s, u64 a) override { MallocBase * b = m; return sim::call([&] { return a == 8 ? b->realloc(p, s) : b->realloc(p, s, a); }); }
		void free(void * p) override { MallocBase * b = m; sim::call([&] { b->free(p); }); }
	};
	struct MPoolSubject : MallocSubject<MallocPool> { MPoolSubject(const Config & c, void * lent) { m = makeIn<MallocPool>((uint32)c.numBlocks, (sizet)c.blockSize, (sizet)c.align, lent); } };
	template<uint32 N, uint32 S, sizet A> struct InlineSubject : MallocSubject<MallocPoolInline<N, S, A>> { InlineSubject(void * lent) { this->m = makeIn<MallocPoolInline<N, S, A>>(lent); } };
	struct PooledSubject : MallocSubject<MallocPooled>
	{
		PooledSubject(const Config & c) { m = makeIn<MallocPooled>((uint32)c.numBlocks, (sizet)c.blockSize, (sizet)c.align, (uint32)c.pools); }
		int owns(void * b) override { return sim::call([&] { return m->hasBlock(b); }); }
		i64 numPools() override { return sim::call([&] { return m->getNumPools(); }); }
	};
	struct BinnedSubject : MallocSubject<MallocBinned>
	{
		BinnedSubject(const Config & c) { m = makeIn<MallocBinned>(MallocBinned::BucketInfo{c.bPool, c.bMin, c.bMax, c.bInc}, (sizet)c.align); }
	};
	struct AnsiSubject : MallocSubject<MallocAnsi> { AnsiSubject() { m = makeIn<MallocAnsi>(); } };
	struct ObjPooledSubject : Subject
	{
		MallocPooled * m; MallocObject<Obj24> * o;
		ObjPooledSubject(const Config & c) { m = makeIn<MallocPooled>((uint32)c.numBlocks, (sizet)c.blockSize, (sizet)c.align, (uint32)c.pools); o = makeIn<MallocObject<Obj24>>(m); }
		~ObjPooledSubject() { endIn(o); endIn(m); }
		void * alloc(u64 s, u64) override { u64 n = s / 24; return sim::call([&] { return n == 1 ? o->alloc() : o->alloc(n); }); }
		void * realloc(void * p, u64 s, u64) override { return sim::call([&] { return o->realloc((Obj24*)p, s / 24); }); }
		void free(void * p) override { sim::call([&] { o->free((Obj24*)p); }); }
		int owns(void * b) override { return sim::call([&] { return m->hasBlock(b); }); }
		i64 numPools() override { return sim::call([&] { return m->getNumPools(); }); }
		bool move(bool assign) override
		{
			using O = MallocObject<Obj24>;
			O * n = assign ? makeIn<O>() : makeIn<O>(std::move(*o));
			if (assign) sim::call([&] { *n = std::move(*o); });
			SIM_CHECK(sim::call([&] { return n->getMalloc(); }) == (MallocBase*)m, "ownership", "an object allocator moved %s uses another allocator", assign ? "by assignment" : "at construction");
			endIn(o); o = n;
			return true;
		}
	};
	template<typename M> struct ObjOwnSubject : Subject
	{
		using O = MallocObject<Obj24, M>;
		O * o;
		template<typename ...A> ObjOwnSubject(A && ...a) { o = makeIn<O>(std::forward<A>(a)...); }
		~ObjOwnSubject() { endIn(o); }
		void * alloc(u64 s, u64) override { u64 n = s / 24; return sim::call([&] { return n == 1 ? o->alloc() : o->alloc(n); }); }
		void * realloc(void * p, u64 s, u64) override { return sim::call([&] { return o->realloc((Obj24*)p, s / 24); }); }
		void free(void * p) override { sim::call([&] { o->free((Obj24*)p); }); }
	};

	struct Live { u64 size, align, seed; int cls; u64 order; };

	struct Run
	{
		const Plan & plan;
		Config c;
		bool growth, exact, leak;       // which model checks belong to the property at hand
		std::unique_ptr<Subject> s;
		void * lent = nullptr; u64 lentSize = 0;
		std::map<uintptr_t, Live> live;
		std::vector<void*> foreign;
		u64 seq = 0; u64 mark = 0; i64 held = 0; // pieces of system memory taken and not returned
		Run * other = nullptr;          // another allocator living beside this one
		u64 capacity = 0;               // fixed pools
		bool faultAtBirth = false;
		std::vector<u64> clsLive, clsPeak, clsBlocks, clsPools;

		Run(const Plan & p, const std::string & pre = "") : plan(p)
		{
			auto get = [&](const char * k) { return p.get(pre + k); };
			c.kind = (int)get("kind"); c.numBlocks = get("numBlocks"); c.blockSize = get("blockSize"); c.align = get("align"); c.pools = get("pools");
			c.bPool = get("bPool"); c.bMin = get("bMin"); c.bMax = get("bMax"); c.bInc = get("bInc");
			seq = pre.empty() ? 0 : 1000000;
			growth = p.property == "P09"; leak = p.property == "P08" || p.property == "P07"; exact = p.property == "P06" || p.property == "P07";
		}
		u64 logical() const { u64 a = c.align < 8 ? 8 : c.align; return ((c.blockSize + 8 - 1) | (a - 1)) + 1; }
		static u64 log2(u64 n) { u64 r = 0; while (n >>= 1) ++r; return r; }
		int classOf(u64 size) const
		{
			u64 b = c.bMin;
			for (size_t i = 0; i < clsLive.size(); ++i, b *= c.bInc) if (size <= b) return (int)i;
			return -1;
		}

		void birth()
		{
			held = 0; mark = sim::heapLive(sim::OWNER_SYSTEM);
			u64 failed = sim::heapStats().failed;
			if (isLent(c.kind))
			{
				lentSize = logical() * c.numBlocks;
				lent = sim::heapAlloc(lentSize, c.align < 8 ? 8 : c.align, HARNESS, false);
			}
			clsLive.clear();
			if (isBinned(c.kind))
			{
				u64 n = (log2(c.bMax) - log2(c.bMin)) / log2(c.bInc);
				clsLive.assign(n, 0); clsPeak.assign(n, 0); clsPools.assign(n, 1); clsBlocks.clear();
				u64 b = c.bMin; for (u64 i = 0; i < n; ++i, b *= c.bInc) clsBlocks.push_back(c.bPool / b);
			}
			if (c.kind == OBJ_OWN_POOLED) clsPools.assign(1, c.pools);
			switch (c.kind)
			{
			case POOL: case POOL_LENT: s.reset(new PoolSubject(c, lent)); break;
			case MPOOL: case MPOOL_LENT: s.reset(new MPoolSubject(c, lent)); break;
			case MPOOL_INLINE: case MPOOL_INLINE_LENT:
				if (c.numBlocks == 3) s.reset(new InlineSubject<3, 40, 16>(lent)); else s.reset(new InlineSubject<5, 24, 8>(lent));
				break;
			case POOLED: s.reset(new PooledSubject(c)); break;
			case BINNED: s.reset(new BinnedSubject(c)); break;
			case ANSI: s.reset(new AnsiSubject); break;
			case OBJ_POOLED: s.reset(new ObjPooledSubject(c)); break;
			case OBJ_OWN_POOLED: s.reset(new ObjOwnSubject<MallocPooled>((uint32)c.numBlocks, (sizet)c.blockSize, (sizet)c.align, (uint32)c.pools)); break;
			case OBJ_OWN_POOL: s.reset(new ObjOwnSubject<MallocPoolInline<5, 24>>()); break;
			case OBJ_OWN_BINNED: s.reset(new ObjOwnSubject<MallocBinned>(MallocBinned::BucketInfo{c.bPool, c.bMin, c.bMax, c.bInc}, (sizet)c.align)); break;
			}
			faultAtBirth = sim::heapStats().failed != failed;
			capacity = c.numBlocks;
			if (isFixed(c.kind) && faultAtBirth) capacity = 0;
			checkCounts("construction");
			if (growth && s->numPools() >= 0) SIM_CHECK((u64)s->numPools() <= c.pools, "growth", "%s holds %lld pools right after construction with %llu asked for", kindName[c.kind], (long long)s->numPools(), (unsigned long long)c.pools);
		}
		void death()
		{
			for (auto & kv : live) verify(kv.first, kv.second);
			if (c.kind == ANSI) while (!live.empty()) release(live.begin()); // it is the system: nothing to return but the blocks
			std::vector<u8> before;
			if (lent) before.assign((u8*)lent, (u8*)lent + lentSize);
			u64 n = live.size();
			live.clear();
			s.reset();
			if (leak)
			{
				i64 left = held + (i64)(sim::heapLive(sim::OWNER_SYSTEM) - mark);
				SIM_CHECK(left == 0, "leak", "%s destroyed with %llu blocks in use: %lld pieces of system memory were not returned", kindName[c.kind], (unsigned long long)n, (long long)left);
			}
			if (lent)
			{
				SIM_CHECK(sim::heapAccessible(lent, lentSize), "lent-released", "%s released the buffer it had been lent", kindName[c.kind]);
				if (leak) SIM_CHECK(!memcmp(before.data(), lent, lentSize), "lent-touched", "destroying %s changed the buffer it had been lent", kindName[c.kind]);
				sim::heapFree(lent, HARNESS); lent = nullptr;
			}
		}

		static u8 pat(u64 seed, u64 i) { return (u8)(sim::mix(seed, i >> 3) >> ((i & 7) * 8)); }
		void fill(uintptr_t p, u64 size, u64 seed)
		{
			for (u64 i = 0; i < size; ++i) ((u8*)p)[i] = pat(seed, i);
		}
		void verify(uintptr_t p, const Live & l) { verifyBytes(p, l.size, l.seed, "a live block"); }
		void verifyBytes(uintptr_t p, u64 n, u64 seed, const char * what)
		{
			for (u64 i = 0; i < n; ++i)
				SIM_CHECK(((u8*)p)[i] == pat(seed, i), "contents", "%s: byte %llu of %s (%llu bytes at %s) changed under its holder", kindName[c.kind], (unsigned long long)i, what, (unsigned long long)n, sim::heapDescribe((void*)p).c_str());
		}
		void checkCounts(const char * when)
		{
			i64 f = s->freeBlocks();
			if (f >= 0 && exact)
			{
				SIM_CHECK((u64)f == capacity - live.size(), "count", "%s reports %lld free blocks after %s, %llu of %llu are in use", kindName[c.kind], (long long)f, when, (unsigned long long)live.size(), (unsigned long long)capacity);
				SIM_CHECK(s->exhausted() == (f == 0), "count", "%s says %s after %s with %lld free blocks", kindName[c.kind], s->exhausted() ? "exhausted" : "not exhausted", when, (long long)f);
			}
		}
		/** A block was handed out: it must be usable and nobody else's. */
		void received(void * p, u64 size, u64 align, const char * how)
		{
			uintptr_t a = (uintptr_t)p;
			SIM_CHECK(sim::heapAccessible(p, size), "not-owned", "%s: %s of %llu bytes gave %s, not all of it memory of the allocator", kindName[c.kind], how, (unsigned long long)size, sim::heapDescribe(p).c_str());
			if (lent) SIM_CHECK(a >= (uintptr_t)lent && a + size <= (uintptr_t)lent + lentSize, "not-owned", "%s handed out a block outside the buffer it was lent", kindName[c.kind]);
			SIM_CHECK(!(a & (align - 1)), "misaligned", "%s: %s aligned to %llu gave %s", kindName[c.kind], how, (unsigned long long)align, sim::heapDescribe(p).c_str());
			auto it = live.lower_bound(a);
			u64 room = size ? size : 1;
			if (it != live.end()) SIM_CHECK(a + room <= it->first, "overlap", "%s: %s of %llu bytes overlaps a live block of %llu bytes", kindName[c.kind], how, (unsigned long long)size, (unsigned long long)it->second.size);
			if (it != live.begin()) { --it; u64 r = it->second.size ? it->second.size : 1; SIM_CHECK(it->first + r <= a, "overlap", "%s: %s of %llu bytes overlaps a live block of %llu bytes", kindName[c.kind], how, (unsigned long long)size, (unsigned long long)it->second.size); }
			sim::checkAccess(p, size, true, "the holder of a fresh block");
			int o = s->owns(p);
			if (exact && o >= 0) SIM_CHECK(o == 1, "ownership", "%s denies the block it just handed out", kindName[c.kind]);
		}
		u64 sizeFor(i64 sel)
		{
			if (isObj(c.kind)) return 24 * (1 + sel % 2);
			if (isFixed(c.kind) || isPooled(c.kind)) { u64 m = c.blockSize; return sel % 8 == 0 ? m + 1 + sel % 5 : sel % 8 < 5 ? m : 1 + (u64)sel % m; }
			if (isBinned(c.kind)) { u64 top = c.bMin; for (size_t i = 1; i < clsLive.size(); ++i) top *= c.bInc; if (sel % 16 == 0) return top + 1; u64 b = c.bMin; for (u64 i = 0; i < (u64)(sel / 16) % clsLive.size(); ++i) b *= c.bInc; return sel % 16 < 8 ? b : 1 + (u64)(sel / 64) % b; }
			return 1 + sel % 300;
		}
		u64 alignFor(i64 sel)
		{
			if (isObj(c.kind)) return 8;
			if (sel % 4 < 2 && c.kind != ANSI) return c.align < 8 ? 8 : c.align;
			static const u64 al[] = {1, 2, 4, 8, 8, 16, 32, 64};
			u64 a = al[(sel / 4) % 8];
			if (sel % 4 == 2 && !isFixed(c.kind) && !isPooled(c.kind)) a = 8;
			return a;
		}
		bool fits(u64 size, u64 align)
		{
			if (isFixed(c.kind) || isPooled(c.kind)) return size <= c.blockSize && align <= (c.align < 8 ? 8 : c.align);
			if (isBinned(c.kind)) return classOf(size) >= 0 && align <= (c.align < 8 ? 8 : c.align);
			return true;
		}
		std::map<uintptr_t, Live>::iterator victim(const Op & o)
		{
			if (live.empty()) return live.end();
			if (o.d == 0) { auto it = live.begin(); std::advance(it, (u64)o.c % live.size()); return it; }
			auto best = live.begin();
			for (auto it = live.begin(); it != live.end(); ++it)
				if (o.d == 1 ? it->second.order < best->second.order : it->second.order > best->second.order) best = it;
			return best;
		}
		void doAlloc(const Op & o)
		{
			u64 size = sizeFor(o.a), align = alignFor(o.b);
			if (c.kind == POOL || c.kind == POOL_LENT) { size = c.blockSize; align = c.align; }
			sim::HeapStats h0 = sim::heapStats();
			i64 pools0 = s->numPools();
			bool fit = fits(size, align);
			int cls = isBinned(c.kind) ? classOf(size) : -1;
			// reallocating nothing is a request too, for the allocator that says so
			void * p = c.kind == ANSI && o.d == 1 ? s->realloc(nullptr, size, align) : s->alloc(size, align);
			sim::HeapStats h1 = sim::heapStats();
			bool refused = h1.failed != h0.failed;
			if (refused) sim::count("op.alloc-under-refusal");
			// -- growth
			if (growth)
			{
				if (pools0 >= 0)
				{
					i64 pools1 = s->numPools();
					SIM_CHECK(pools1 == pools0 || live.size() >= (u64)pools0 * c.numBlocks, "growth", "%s took another pool (%lld now) while %llu of its %llu blocks were free", kindName[c.kind], (long long)pools1, (unsigned long long)(pools0 * c.numBlocks - live.size()), (unsigned long long)(pools0 * c.numBlocks));
					SIM_CHECK(h1.allocs == h0.allocs || live.size() >= (u64)pools0 * c.numBlocks, "growth", "%s took memory from the system while %llu of its blocks were free", kindName[c.kind], (unsigned long long)(pools0 * c.numBlocks - live.size()));
					SIM_CHECK(live.size() + (p != nullptr) <= (u64)pools1 * c.numBlocks, "growth", "%s says it holds %lld pools, but %llu blocks are in use", kindName[c.kind], (long long)pools1, (unsigned long long)(live.size() + (p != nullptr)));
					SIM_CHECK(pools1 <= pools0 + 1, "growth", "%s took %lld pools for one block", kindName[c.kind], (long long)(pools1 - pools0));
				}
				else if (c.kind == OBJ_OWN_POOLED)
				{
					SIM_CHECK(h1.allocs == h0.allocs || live.size() >= clsPools[0] * c.numBlocks, "growth", "%s took memory from the system while %llu of its blocks were free", kindName[c.kind], (unsigned long long)(clsPools[0] * c.numBlocks - live.size()));
					clsPools[0] += h1.allocs - h0.allocs;
				}
				else if (cls >= 0)
				{
					SIM_CHECK(h1.allocs == h0.allocs || clsLive[cls] >= clsPools[cls] * clsBlocks[cls], "growth", "%s took memory from the system for %llu bytes while %llu blocks of that size class were free", kindName[c.kind], (unsigned long long)size, (unsigned long long)(clsPools[cls] * clsBlocks[cls] - clsLive[cls]));
					SIM_CHECK(h1.allocs <= h0.allocs + 1, "growth", "%s took %llu pieces of memory for one block", kindName[c.kind], (unsigned long long)(h1.allocs - h0.allocs));
					clsPools[cls] += h1.allocs - h0.allocs;
				}
				else if (h1.allocs != h0.allocs) sim::fail("growth", "%s took memory from the system for a request it does not serve", kindName[c.kind]);
			}
			if (!p)
			{
				if (exact && fit && !refused)
				{
					bool must = true;
					if (isFixed(c.kind)) must = live.size() < capacity;
					if (isBinned(c.kind) && faultAtBirth) must = false; // it may lack buckets for good
					if (must) sim::fail("refused", "%s answered null to a request of %llu bytes aligned to %llu that it can serve (%llu live blocks, no memory was refused)", kindName[c.kind], (unsigned long long)size, (unsigned long long)align, (unsigned long long)live.size());
				}
				if (exact && fit && refused && isPooled(c.kind) && pools0 >= 0)
					SIM_CHECK(live.size() >= (u64)pools0 * c.numBlocks, "refused", "%s answered null although %llu of its own blocks were free", kindName[c.kind], (unsigned long long)(pools0 * c.numBlocks - live.size()));
				if (exact && fit && refused && cls >= 0)
					SIM_CHECK(clsLive[cls] >= clsPeak[cls], "refused", "%s answered null although blocks of that size class had been released", kindName[c.kind]);
				sim::count("op.alloc-null");
				checkCounts("a refused request");
				return;
			}
			received(p, size, align, "a request");
			Live l{size, align, sim::mix((u64)plan.get("heap.seed"), ++seq), cls, seq};
			live[(uintptr_t)p] = l;
			fill((uintptr_t)p, size, l.seed);
			if (cls >= 0) { if (++clsLive[cls] > clsPeak[cls]) clsPeak[cls] = clsLive[cls]; }
			sim::count("op.alloc");
			checkCounts("a request");
		}
		void release(std::map<uintptr_t, Live>::iterator it)
		{
			verify(it->first, it->second);
			void * p = (void*)it->first;
			int cls = it->second.cls;
			// the holder gives the block up: the bytes are the allocator's from here on
			live.erase(it);
			s->free(p);
			if (cls >= 0) --clsLive[cls];
			sim::count("op.free");
			checkCounts("a release");
		}
		void doRealloc(const Op & o)
		{
			if (!s->canRealloc()) return;
			auto it = victim(o);
			if (it == live.end()) return;
			uintptr_t old = it->first; Live l = it->second;
			u64 size = sizeFor(o.a), align = alignFor(o.b);
			if (c.kind == ANSI && o.a % 23 == 0) size = 0;
			verify(old, l);
			u64 failed0 = sim::heapStats().failed;
			void * p = s->realloc((void*)old, size, align);
			bool refused = sim::heapStats().failed != failed0;
			sim::count("op.realloc");
			if (c.kind == ANSI && size == 0)
			{
				SIM_CHECK(!p, "realloc", "reallocation to zero bytes answered a block");
				live.erase(it);
				return;
			}
			if (!p)
			{
				// refused: the old block must still be there
				SIM_CHECK(sim::heapAccessible((void*)old, l.size), "realloc-lost", "%s refused a reallocation to %llu bytes and released the block", kindName[c.kind], (unsigned long long)size);
				verifyBytes(old, l.size, l.seed, "the block of a refused reallocation");
				checkCounts("a refused reallocation");
				if (exact && c.kind == ANSI && !refused) sim::fail("refused", "MallocAnsi refused a reallocation to %llu bytes although memory was available", (unsigned long long)size);
				if (exact && (isFixed(c.kind) || isPooled(c.kind)) && fits(size, align)) sim::fail("refused", "%s refused to reallocate a block of its own to %llu bytes aligned to %llu, which the block is good for", kindName[c.kind], (unsigned long long)size, (unsigned long long)align);
				sim::count("op.realloc-null");
				return;
			}
			live.erase(it);
			received(p, size, align, "a reallocation");
			u64 keep = size < l.size ? size : l.size;
			verifyBytes((uintptr_t)p, keep, l.seed, "a reallocated block");
			l.size = size; l.align = align;
			l.seed = sim::mix((u64)plan.get("heap.seed"), ++seq); l.order = seq;
			live[(uintptr_t)p] = l;
			fill((uintptr_t)p, size, l.seed);
			checkCounts("a reallocation");
		}
		void doQuery(const Op & o)
		{
			auto it = victim(o);
			if (it != live.end()) { int r = s->owns((void*)it->first); if (r >= 0 && exact) SIM_CHECK(r == 1, "ownership", "%s denies a live block of its own", kindName[c.kind]);
				// the memory right behind and right before what the allocator owns
				uintptr_t base; size_t size;
				if (r >= 0 && exact && sim::heapExtent((void*)it->first, &base, &size))
				{
					uintptr_t edge[] = {base + size, base - 1, base + size + 7, base - 8};
					for (uintptr_t e : edge) SIM_CHECK(!s->owns((void*)e), "ownership", "%s claims an address beside its memory (%lld bytes past the end)", kindName[c.kind], (long long)(e - base - size));
				}
			}
			if (other && !other->live.empty() && o.c & 1)
			{
				auto at = other->live.begin(); std::advance(at, (u64)o.b % other->live.size());
				int r = s->owns((void*)at->first);
				if (r >= 0 && exact) SIM_CHECK(r == 0, "ownership", "%s claims a block of another allocator", kindName[c.kind]);
			}
			if (foreign.empty()) return;
			void * f = foreign[(u64)o.b % foreign.size()];
			int r = s->owns((u8*)f + (o.a % 3 == 0 ? 0 : o.a % 3 == 1 ? 8 : 31));
			if (r >= 0 && exact) SIM_CHECK(r == 0, "ownership", "%s claims an address it never handed out", kindName[c.kind]);
			sim::count("op.query");
		}
		/** Some block, found quickly. */
		std::map<uintptr_t, Live>::iterator anywhere(u64 n)
		{
			const uintptr_t lo = live.begin()->first, hi = live.rbegin()->first;
			return live.lower_bound(lo + sim::mix(n, 77) % (hi - lo + 1));
		}
		void freeAll(const Op & o)
		{
			for (u64 i = 0; live.size() > 1000; ++i) release(anywhere(i));
			while (!live.empty()) release(victim(o));
		}
		void step(Op o)
		{
			o.code %= NCODES;
			mark = sim::heapLive(sim::OWNER_SYSTEM);
			switch (o.code)
			{
			case ALLOC: doAlloc(o); break;
			case FREE: { auto it = victim(o); if (it != live.end()) release(it); break; }
			case REALLOC: doRealloc(o); break;
			case QUERY: doQuery(o); break;
			case VERIFY: for (auto & kv : live) verify(kv.first, kv.second); break;
			case TEARDOWN: death(); birth(); sim::count("op.teardown"); break;
			case FREE_ALL: freeAll(o); break;
			case QUIET: sim::setFaultsEnabled(o.a); break;
			case MANY:
				for (i64 i = 0; i < o.c; ++i) { const size_t n = live.size(); doAlloc(o); if (live.size() == n) break; }
				sim::count("op.many");
				break;
			case FEW:
				for (i64 i = 0; i < o.c && !live.empty(); ++i) release(anywhere((u64)o.b + (u64)i));
				sim::count("op.many");
				break;
			case MOVE: if (s->move(o.a & 1)) sim::count("op.move"); break;
			}
			held += (i64)(sim::heapLive(sim::OWNER_SYSTEM) - mark);
			mark = sim::heapLive(sim::OWNER_SYSTEM);
			sim::noteState(live.size() * 64 + (u64)(s->numPools() + 1));
			if (foreign.size() < 6 && o.c % 11 == 0) foreign.push_back(sim::heapAlloc(32, 8, HARNESS, false));
		}
		void start()
		{
			foreign.push_back(sim::heapAlloc(32, 8, HARNESS, false));
			birth();
			held += (i64)(sim::heapLive(sim::OWNER_SYSTEM) - mark);
			foreign.push_back(sim::heapAlloc(32, 8, HARNESS, false));
		}
		void finish()
		{
			mark = sim::heapLive(sim::OWNER_SYSTEM);
			if (plan.property == "P07")
			{
				// the system has memory again: allocation must work again
				sim::setFaultsEnabled(false);
				for (auto & kv : live) verify(kv.first, kv.second);
				const bool incomplete = isBinned(c.kind) && faultAtBirth; // it may lack buckets for good
				if (!(isFixed(c.kind) && live.size() >= capacity) && !incomplete)
				{
					size_t before = live.size();
					Op o; o.a = isBinned(c.kind) ? 17 : isObj(c.kind) ? 0 : 7; o.b = 4 * 3 + 3; // a request of exactly the block size, default alignment
					if (isFixed(c.kind) || isPooled(c.kind) ? c.blockSize >= sizeFor(o.a) && c.align >= 8 : true)
					{
						doAlloc(o);
						SIM_CHECK(live.size() == before + 1 || !fits(sizeFor(o.a), alignFor(o.b)), "no-recovery", "%s still refuses after memory became available again", kindName[c.kind]);
						sim::count("op.recovery");
					}
				}
				if (plan.get("freeAtEnd")) { Op o; freeAll(o); }
			}
			else if (plan.get("freeAtEnd")) { Op o; o.d = 1; freeAll(o); }
			death();
			for (void * f : foreign) sim::heapFree(f, HARNESS);
		}
	};
	void runAlloc(const Plan & p)
	{
		Run a(p);
		if (!p.get("second")) { a.start(); for (const Op & o : p.ops) a.step(o); a.finish(); return; }
		// two allocators side by side: neither is anything to the other
		Run b(p, "b.");
		a.other = &b; b.other = &a;
		a.start(); b.start();
		for (const Op & o : p.ops) (o.code < NCODES ? a : b).step(o);
		if (p.get("second") == 2) { b.finish(); a.other = nullptr; a.finish(); }
		else { a.finish(); b.other = nullptr; b.finish(); }
		sim::count("op.two-allocators");
	}

	int genConfig(Rng & r, Plan & p, const std::string & pre, int like)
	{
		const std::string prop = p.property;
		int kind;
		if (prop == "P09") { static const int ks[] = {POOLED, POOLED, POOLED, POOLED, BINNED, BINNED, OBJ_POOLED, OBJ_OWN_POOLED, OBJ_OWN_BINNED}; kind = r.pick(ks); }
		else if (prop == "P07") { static const int ks[] = {POOL, MPOOL, MPOOL_INLINE, POOLED, POOLED, POOLED, POOLED, BINNED, BINNED, BINNED, ANSI, OBJ_POOLED, OBJ_OWN_POOLED, OBJ_OWN_POOL, OBJ_OWN_BINNED}; kind = r.pick(ks); }
		else { static const int ks[] = {POOL, POOL_LENT, MPOOL, MPOOL, MPOOL_LENT, MPOOL_INLINE, MPOOL_INLINE_LENT, POOLED, POOLED, POOLED, BINNED, BINNED, ANSI, OBJ_POOLED, OBJ_OWN_POOLED, OBJ_OWN_POOL, OBJ_OWN_BINNED}; kind = r.pick(ks); }
		if (like >= 0) kind = like;
		auto set = [&](const char * k, i64 v) { p.cfg[pre + k] = v; };
		set("kind", kind);
		static const i64 sizes[] = {1, 3, 7, 8, 9, 16, 17, 24, 32, 33, 40, 64, 100, 128, 200};
		static const i64 aligns[] = {1, 2, 4, 8, 8, 8, 16, 16, 32, 64, 128};
		u64 numBlocks = r.chance(1, 12) ? 10 + r.below(40) : 1 + r.below(r.chance(1, 3) ? 2 : 6), blockSize = r.pick(sizes), align = r.pick(aligns);
		if (isObj(kind) && isPooled(kind)) { blockSize = r.chance(1, 2) ? 24 : 48; align = r.chance(1, 2) ? 8 : 16; }
		if (kind == MPOOL_INLINE || kind == MPOOL_INLINE_LENT) { if (r.chance(1, 2)) { numBlocks = 3; blockSize = 40; align = 16; } else { numBlocks = 5; blockSize = 24; align = 8; } }
		if (kind == OBJ_OWN_POOL) { numBlocks = 5; blockSize = 24; align = 8; }
		set("numBlocks", numBlocks); set("blockSize", blockSize); 
		set("pools", r.chance(1, 4) ? 0 : 1 + r.below(r.chance(1, 3) ? 8 : 3));
		if (isBinned(kind))
		{
			static const i64 cfgs[][4] = {{4096, 8, 4096, 8}, {512, 8, 4096, 8}, {64, 2, 64, 2}, {128, 2, 64, 2}, {256, 4, 256, 4}, {64, 4, 64, 4}, {256, 16, 4096, 16}, {64, 2, 16, 2}};
			const i64 * c = cfgs[r.below(8)];
			set("bPool", c[0]); set("bMin", c[1]); set("bMax", c[2]); set("bInc", c[3]);
			static const i64 al[] = {1, 8, 8, 8, 16, 64};
			align = r.pick(al);
		}
		set("align", align);
		return kind;
	}
	void gen(Rng & r, Plan & p)
	{
		sim::genEnvironment(r, p, false);
		const std::string prop = p.property;
		const int kind = genConfig(r, p, "", -1);
		p.cfg["freeAtEnd"] = r.chance(1, 2);
		const bool crowd = r.chance(1, 60);
		if (crowd)
		{
			p.cfg["budget"] = 400000000;
			// enough blocks, or pools, to overflow a narrow counter
			if (isFixed(kind) && kind <= MPOOL_LENT) { p.cfg["numBlocks"] = r.chance(1, 20) ? 65536 + r.below(20) : 250 + r.below(60); p.cfg["blockSize"] = 1 + r.below(16); }
			else if (isPooled(kind)) p.cfg["numBlocks"] = r.chance(1, 2) ? 1 + r.below(3) : 250 + r.below(30);
		}
		const int second = r.chance(1, 5) ? 1 + (int)r.below(2) : 0;
		p.cfg["second"] = second;
		int kind2 = -1;
		if (second) kind2 = genConfig(r, p, "b.", r.chance(3, 4) ? kind : -1);
		if (second && kind2 == kind && r.chance(1, 2)) for (const char * k : {"numBlocks", "blockSize", "align", "pools", "bPool", "bMin", "bMax", "bInc"}) if (p.cfg.count(k)) p.cfg[std::string("b.") + k] = p.cfg[k];
		u64 swing = 50; // which of the two is busy
		// workload: phases with a bias towards filling or draining and a victim policy
		int n = (int)(r.chance(1, 25) ? r.below(500) : r.chance(1, 8) ? r.below(120) : 2 + r.below(r.chance(1, 2) ? 14 : 40));
		int bias = 70, vmode = (int)r.below(3);
		u64 sizeSel = r.next() >> 8, focus = r.below(3); // a client that keeps asking for the same size
		for (int i = 0; i < n; ++i)
		{
			if (r.chance(1, 9)) { static const int bs[] = {15, 40, 50, 60, 90, 100}; bias = r.pick(bs); vmode = (int)r.below(3); sizeSel = r.next() >> 8; }
			if (crowd && i >= 12) break;
			Op o;
			o.a = focus ? sizeSel : (i64)(r.next() >> 8); o.b = focus == 2 ? 1 : (i64)r.below(1 << 20); o.c = r.below(1 << 20); o.d = r.chance(1, 5) ? (i64)r.below(3) : vmode;
			int k = (int)r.below(100);
			o.code = k < 78 ? ((int)r.below(100) < bias ? ALLOC : FREE) : k < 84 ? REALLOC : k < 90 ? QUERY : k < 94 ? VERIFY : k < 96 ? FREE_ALL : k < 98 && prop != "P09" ? TEARDOWN : k < 99 ? MOVE : ALLOC;
			if (second && r.chance(1, 6)) { static const u64 sw[] = {50, 50, 10, 90, 0, 100}; swing = r.pick(sw); }
			if (crowd && r.chance(1, 2)) { const u64 most = isFixed(kind) ? (u64)p.get("numBlocks") : 700; o.code = r.chance(2, 3) ? MANY : FEW; o.c = (i64)(r.chance(1, 2) ? most + 2 : r.below(most) + 1); }
			if (second && r.below(100) < swing) { if (o.code == MANY && o.c > 700) o.c = 700; o.code += NCODES; }
			p.ops.push_back(o);
		}
		if (prop == "P07" || (prop != "P09" && r.chance(1, 3)))
		{
			// windows during which the system refuses memory
			int windows = 1 + (int)r.below(3);
			std::map<u64, bool> ns;
			for (int w = 0; w < windows; ++w)
			{
				u64 st = r.below(r.chance(1, 2) ? 4 : 14), len = 1 + r.below(r.chance(1, 3) ? 30 : 4);
				for (u64 i = st; i < st + len; ++i) ns[i] = true;
			}
			for (auto & kv : ns) { sim::Fault f; f.kind = "sysalloc"; f.n = kv.first; p.faults.push_back(f); }
			if ((isBinned(kind) || (kind2 >= 0 && isBinned(kind2))) && r.chance(1, 3)) { sim::Fault f; f.kind = "sysnew"; f.n = r.below(6); p.faults.push_back(f); }
			if (r.chance(1, 3)) { Op o; o.code = QUIET; o.a = 0; p.ops.insert(p.ops.begin() + r.below(p.ops.size() + 1), o); if (r.chance(1, 2)) { o.a = 1; p.ops.push_back(o); } }
		}
	}
	std::string show(const Op & o)
	{
		static const char * names[] = {"alloc", "free", "realloc", "ownership query", "verify contents", "destroy and construct again", "free all", "memory refusals", "move the wrapper", "many requests", "many releases"};
		char b[120];
		if (o.code >= NCODES) { Op x = o; x.code -= NCODES; return "second allocator: " + show(x); }
		switch (o.code)
		{
		case ALLOC: snprintf(b, sizeof b, "alloc size#%lld align#%lld", (long long)o.a, (long long)o.b); break;
		case FREE: snprintf(b, sizeof b, "free %s (#%lld)", o.d == 0 ? "some block" : o.d == 1 ? "the oldest block" : "the newest block", (long long)o.c); break;
		case REALLOC: snprintf(b, sizeof b, "realloc a block (#%lld) to size#%lld", (long long)o.c, (long long)o.a); break;
		case MANY: case FEW: snprintf(b, sizeof b, "%s: %lld", names[o.code], (long long)o.c); break;
		case QUIET: snprintf(b, sizeof b, "memory refusals %s", o.a ? "on" : "off"); break;
		default: snprintf(b, sizeof b, "%s", o.code < NCODES ? names[o.code] : "?");
		}
		return b;
	}
	sim::Register reg({"alloc", "P06,P07,P08,P09", gen, runAlloc, 1, show});
}
