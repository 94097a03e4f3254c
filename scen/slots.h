// The part every container scenario shares: slots, copies, moves, assignments, teardown.
#pragma once
#include "cont.h"

namespace cont
{
	enum Common { CREATE = 100, DESTROY, COPY, MOVE, COPY_ASSIGN, MOVE_ASSIGN, BASE_ASSIGN };
	static const char * const commonName[] = {"create", "destroy", "copy-construct", "move-construct", "copy-assign", "move-assign", "copy-assign through the base"};

	static const u64 many[] = {17, 40, 100, 270, 700, 1100};
	/** Beyond what sixteen bits count. */
	enum { HUGE = 65530 };
	inline u64 hugely(i64 x) { return HUGE + (u64)x % 13; }
	/** Cheap enough to hold by the thousand. */
	template<typename E> constexpr u64 crowd = std::is_same<E, int64>::value ? 3000 : std::is_same<E, Tracked>::value ? 1500 : 350;
	/** Slots of one container type; D supplies the container's own operations. */
	template<typename D, typename C, typename Owned> struct Slots
	{
		using Model = std::vector<i64>;
		static constexpr bool OWNS = !std::is_same<Owned, void>::value;
		struct Slot { C * c = nullptr; Model m; };
		World world; Slot s[3]; bool shared[3] = {}; i64 mode; bool adoptAlloc;
		const Plan & plan;
		Slots(const Plan & p) : world{p}, mode{p.get("mode")}, plan{p} {}
		D & self() { return static_cast<D&>(*this); }

		static constexpr bool TAKES = true; // an allocator
		static bool assignsInParts() { return false; } // a failed assignment may have done a part
		template<typename F> static bool assign(F && f)
		{
			if (attempt(f)) return true;
			if (!D::assignsInParts()) return false;
			while (!attempt(f)) ; // faults are finite
			return true;
		}
		static void clearOut(C & c) { c.empty(); }
		void look(Slot & x, const char * when)
		{
			if (!x.c) return;
			seen.n = seenBack.n = 0;
			i64 size = -1; bool back = false;
			sim::call([&] { self().read(*x.c, size, back); });
			WANT(size == (i64)x.m.size(), "%s: the container reports %lld elements, %zu were put in", when, (long long)size, x.m.size());
			WANT(same(seen, x.m), "%s: the container holds %s, expected %s", when, text(seen).c_str(), text(x.m).c_str());
			if (back)
			{
				Model r(x.m.rbegin(), x.m.rend());
				WANT(same(seenBack, r), "%s: walked backwards the container holds %s, expected %s", when, text(seenBack).c_str(), text(r).c_str());
			}
			for (u64 i = 0; i < seen.n && i < SEEN; ++i) sim::noteState((u64)seen.v[i]);
		}
		bool isShared(const Slot & x) const { return shared[&x - s]; }
		void kill(Slot & x) { if (x.c && !isShared(x)) { C * c = x.c; x.c = nullptr; x.m.clear(); endIn(c); } }
		void create(Slot & x, i64 arg)
		{
			if (x.c) return;
			try
			{
				if constexpr (OWNS) x.c = makeIn<C>();
				else if constexpr (D::TAKES && std::is_constructible<C, MallocBase*>::value) x.c = mode == 0 || (mode == 2 && (arg & 2)) ? makeIn<C>() : makeIn<C>(world.given(arg));
				else x.c = makeIn<C>();
				x.m.clear();
			}
			catch (OutOfMemory &) { sim::count("op.out_of_memory"); }
		}
		void common(const Op & o)
		{
			Slot & x = s[o.a % 3], & y = s[o.b % 3];
			if (isShared(x) || (isShared(y) && (o.code == MOVE || o.code == MOVE_ASSIGN))) return;
			switch (o.code)
			{
			case CREATE: create(x, o.c); break;
			case DESTROY: kill(x); break;
			case COPY:
				if constexpr (!OWNS) if (y.c && &x != &y)
				{
					kill(x);
					try { x.c = makeIn<C>((const C&)*y.c); x.m = y.m; }
					catch (OutOfMemory &) { sim::count("op.out_of_memory"); }
					look(x, "the copy"); look(y, "the original");
				}
				break;
			case MOVE:
				if constexpr (!OWNS) if (y.c && &x != &y)
				{
					kill(x);
					try { x.c = makeIn<C>(std::move(*y.c)); x.m = y.m; } // a move may be a copy
					catch (OutOfMemory &) { sim::count("op.out_of_memory"); look(y, "after a move construction that failed"); break; }
					look(x, "after a move construction");
					movedFrom(y);
				}
				break;
			case COPY_ASSIGN:
				if constexpr (!OWNS) if (x.c && y.c)
				{
					if (assign([&] { *x.c = (const C&)*y.c; })) x.m = y.m;
					look(x, "after a copy assignment"); look(y, "the source of a copy assignment");
				}
				break;
			case MOVE_ASSIGN:
				if constexpr (!OWNS) if (x.c && y.c && &x != &y)
				{
					const bool done = attempt([&] { *x.c = std::move(*y.c); });
					if (done) x.m = y.m;
					look(x, "after a move assignment");
					if (done) movedFrom(y); else look(y, "after a move assignment that failed");
				}
				break;
			case BASE_ASSIGN:
				if constexpr (OWNS && !std::is_same<typename D::BaseC, void>::value) if (x.c && y.c && &x != &y)
				{
					using B = typename D::BaseC;
					if (assign([&] { static_cast<B&>(*x.c) = static_cast<const B&>(*y.c); })) x.m = y.m;
					look(x, "after a copy assignment");
				}
				break;
			}
		}
		/** What is left is unspecified, but it is still a container. */
		void movedFrom(Slot & y)
		{
			while (!attempt([&] { self().clearOut(*y.c); })) ; // faults are finite
			y.m.clear();
			look(y, "a container emptied after it was moved from");
		}
		/** After a failure: what the container holds now is what it is taken to hold. */
		void takeOver(Slot & x)
		{
			if (!x.c) { x.m.clear(); return; }
			seen.n = seenBack.n = 0; i64 size; bool back;
			sim::call([&] { self().read(*x.c, size, back); });
			x.m.assign(seen.v, seen.v + std::min<u64>(seen.n, SEEN));
		}
		void step(const Op & o)
		{
			if (plan.faults.empty()) { doStep(o); return; }
			bool refused = false;
			try { doStep(o); }
			catch (OutOfMemory &) { sim::count("op.out_of_memory"); refused = true; }
			if (loose) { if (failures()) for (Slot & x : s) takeOver(x); } // from the first failure on
			else if (refused) for (Slot & x : s) look(x, "after an operation that was refused");
		}
		void doStep(const Op & o)
		{
			if (o.code >= CREATE) { common(o); return; }
			Slot & x = s[o.a % 3];
			if (!x.c) create(x, o.d);
			if (!x.c) return;
			self().own(x, o);
			look(x, D::opName(o.code));
		}
		void run()
		{
			for (int i = 0; i < 2; ++i) create(s[i], plan.get("first") + i);
			int n = 0;
			for (const Op & o : plan.ops)
			{
				step(o);
				if (++n % 8 == 0) for (Slot & x : s) look(x, "a container not being worked on");
			}
			for (Slot & x : s) look(x, "at the end");
			int order = (int)plan.get("last");
			for (int i = 0; i < 3; ++i) kill(s[(order + i) % 3]);
			world.settle();
		}
		/** Several tasks work on the same containers, one at a time: who holds the lock. */
		void runTurns()
		{
			static pthread_mutex_t lock; lock = PTHREAD_MUTEX_INITIALIZER;
			for (int i = 0; i < 2; ++i) create(s[i], plan.get("first") + i);
			for (const Op & o : plan.ops) if (!o.task) step(o);
			World::outer = true;
			std::vector<std::function<void()>> bodies;
			for (int t = 1; t <= plan.get("tasks", 2); ++t)
				bodies.push_back([this, t] {
					for (const Op & o : plan.ops)
						if (o.task == t)
						{
							sim::call([&] { pthread_mutex_lock(&lock); });
							step(o);
							for (Slot & x : s) look(x, "after one of several threads taking turns");
							sim::call([&] { pthread_mutex_unlock(&lock); });
						}
				});
			sim::runTasks(bodies);
			World::outer = false;
			for (Slot & x : s) look(x, "at the end");
			for (int i = 0; i < 3; ++i) kill(s[(plan.get("last") + i) % 3]);
			world.settle();
		}
		/** A part of its life at a time: while the program's files are initialised, in between, and at exit. */
		void phase(int ph)
		{
			if (ph == 0) for (int i = 0; i < 2; ++i) create(s[i], plan.get("first") + i);
			for (const Op & o : plan.ops) if (o.task == ph) step(o);
			for (Slot & x : s) look(x, ph == 0 ? "during initialisation" : ph == 1 ? "in between" : "at exit");
			if (ph == 2) for (int i = 0; i < 3; ++i) kill(s[(plan.get("last") + i) % 3]);
		}
		/** One task fills two containers, then several only look at them. */
		void runShared()
		{
			for (int i = 0; i < 2; ++i) create(s[i], plan.get("first") + i);
			for (const Op & o : plan.ops) if (!o.task) step(o);
			for (int i = 0; i < 2; ++i) if (!s[i].c) create(s[i], plan.get("first") + i);
			kill(s[2]);
			for (Slot & x : s) look(x, "before it is shared");
			World::outer = true;
			std::vector<std::function<void()>> bodies;
			for (int t = 1; t <= plan.get("tasks", 2); ++t)
				bodies.push_back([this, t] {
					D d(plan);
					for (int i = 0; i < 2; ++i) { d.s[i] = s[i]; d.shared[i] = true; }
					for (const Op & o : plan.ops) if (o.task == t) d.step(o);
					for (int i = 0; i < 2; ++i) d.look(d.s[i], "among several readers");
					d.kill(d.s[2]);
				});
			sim::freeze(true);
			sim::runTasks(bodies);
			sim::freeze(false);
			World::outer = false;
			for (Slot & x : s) look(x, "after it was shared");
			for (Slot & x : s) kill(x);
			world.settle();
		}
	};
	/** Alone, with several readers, or with several taking turns. */
	template<typename D> void go(const Plan & p)
	{
		if (auto * to = opened[sim::taskId()]) { auto d = std::make_shared<D>(p); *to = [d](int ph) { d->phase(ph); }; return; }
		D d(p); if (p.property == "P04") d.runShared(); else if (p.get("turns")) d.runTurns(); else d.run();
	}
}
