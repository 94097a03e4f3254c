// P11, P12, P14: optionals and callable wrappers.
#include "slots.h"
using namespace cont;

namespace
{
	using Model = std::vector<i64>;
	// ---- optionals -------------------------------------------------------------------
	const char * optOps[] = {"emplace", "assign a value", "assign a temporary", "reset", "write through it", "build from a value", "move the value out", "emplace from itself", "look"};
	enum { O_EMPLACE, O_ASSIGN, O_ASSIGN_TMP, O_RESET, O_WRITE, O_BUILD, O_TAKE, O_AGAIN, O_COUNT, LOOK = O_COUNT };
	template<typename E> struct Optionals : Slots<Optionals<E>, Optional<E>, void>
	{
		using C = Optional<E>; using BaseC = void; using S = Slots<Optionals<E>, C, void>; using Slot = typename S::Slot; using S::S; using X = Elem<E>;
		static const char * opName(int c) { return optOps[c]; }
		static constexpr bool TAKES = false;
		static void clearOut(C & c) { c.reset(); }
		static void read(const C & c, i64 & size, bool &)
		{
			size = c.hasValue() ? 1 : 0;
			if ((bool)c != c.hasValue()) size = -2;
			if (size == 1) { seen.add(X::get(*c)); if (&*c != c.operator->()) size = -3; if (size == 1 && X::get(*c.operator->()) != seen.v[0]) size = -4; }
		}
		void own(Slot & x, const Op & o)
		{
			C & c = *x.c; auto & m = x.m; const bool has = !m.empty();
			const i64 v = 1 + o.b % 998; i64 got = -1;
			switch (o.code)
			{
			case O_EMPLACE: sim::call([&] { if (o.d & 1) c.emplace(X::mk(v)); else { const E e(X::mk(v)); c.emplace(e); } }); m = {v}; break;
			case O_ASSIGN: sim::call([&] { const E e(X::mk(v)); c = e; }); m = {v}; break;
			case O_ASSIGN_TMP: sim::call([&] { c = X::mk(v); }); m = {v}; break;
			case O_RESET: sim::call([&] { c.reset(); }); m.clear(); break;
			case O_WRITE: if (has) { sim::call([&] { if (o.d & 1) *c = X::mk(v); else { E e(X::mk(v)); *c.operator->() = e; } }); m = {v}; } break;
			case O_BUILD:
				this->kill(x);
				switch (o.d % 4)
				{
				case 0: { Held<E> e{makeBy<E>([&] { return X::mk(v); })}; x.c = makeIn<C>((const E&)*e); break; }
				case 1: { Held<E> e{makeBy<E>([&] { return X::mk(v); })}; x.c = makeIn<C>(std::move(*e)); break; }
				case 2: { Held<C> y{makeIn<C>()}; sim::call([&] { y->emplace(X::mk(v)); }); x.c = makeIn<C>((C&)*y); break; } // copy of a non-constant one
				case 3: { const C * y = makeIn<C>(); x.c = makeIn<C>(*y); endIn((C*)y); break; }
				}
				if (o.d % 4 != 3) m = {v};
				break;
			case O_TAKE: if (has) { sim::call([&] { E e(*std::move(c)); got = X::get(e); c.reset(); }); WANT(got == m[0], "the value moved out is %lld", (long long)got); m.clear(); } break;
			case O_AGAIN: sim::call([&] { c.reset(); c.reset(); c.emplace(X::mk(v)); c.emplace(X::mk(v + 1)); }); m = {v + 1}; break;
			}
		}
	};

	// ---- callables ---------------------------------------------------------------------
	enum { PEEK = -1000000 };
	/** Counts its calls; a copy goes on counting from where the original was. */
	struct Counter
	{
		Tracked base; i64 calls = 0;
		explicit Counter(i64 b) : base{b} {}
		i64 operator()(i64 x) { if (x != PEEK) ++calls; return base.get() + calls * 1000 + (x == PEEK ? 0 : x * 1000000); }
	};
	struct alignas(32) Large
	{
		Tracked base; i64 calls = 0; u8 pad[150]; Tracked second;
		explicit Large(i64 b) : base{b}, second{b} { for (u8 & p : pad) p = (u8)b; }
		i64 operator()(i64 x)
		{
			if (x != PEEK) ++calls;
			for (u8 p : pad) if (p != (u8)base.get()) return -5;
			if ((u64)this % 32 || second.get() != base.get()) return -6;
			return base.get() + calls * 1000 + (x == PEEK ? 0 : x * 1000000);
		}
	};
	/** Small ones without anything to destroy, of several sizes. */
	template<int N> struct Small { u8 bytes[N]; explicit Small(i64 b) { for (u8 & x : bytes) x = (u8)b; } i64 operator()(i64 x) const { for (u8 y : bytes) if (y != bytes[0]) return -7; return 800 + bytes[0] + (x == PEEK ? 0 : x * 1000000); } };
	/** Can be moved, but not copied. */
	struct Unique
	{
		Tracked base;
		explicit Unique(i64 b) : base{b} {}
		Unique(Unique &&) = default; Unique(const Unique &) = delete;
		i64 operator()(i64 x) const { return base.get() + (x == PEEK ? 0 : x * 1000000); }
	};
	struct Refused {};
	i64 plain(i64 x) { return x == PEEK ? 777 : 777 + x * 1000000; }
	const char * funOps[] = {"bind a temporary", "bind an object", "bind a lambda", "bind a function", "bind a large object", "call", "call through a constant one", "empty", "bind another wrapper", "assign itself", "pass objects through", "bind a small object", "call one that fails", "bind what cannot be copied", "answer with nothing or a reference"};
	enum { F_TMP, F_OBJ, F_LAMBDA, F_PLAIN, F_LARGE, F_CALL, F_CCALL, F_EMPTY, F_WRAP, F_SELF, F_PASS, F_SMALL, F_FAIL, F_UNIQUE, F_SHAPES, F_COUNT };
	struct Functions : Slots<Functions, Callable, void>
	{
		using C = Callable; using BaseC = void; using S = Slots<Functions, C, void>; using S::S;
		bool counts[3] = {};
		static const char * opName(int c) { return funOps[c]; }
		static constexpr bool TAKES = false;
		static void clearOut(C & c) { c = Callable{}; }
		static void read(const C & c, i64 & size, bool &)
		{
			size = c ? 1 : 0;
			if (size) seen.add(c(PEEK));
		}
		void own(Slot & x, const Op & o)
		{
			const i64 v = 1 + o.b % 700, arg = o.c % 50; i64 got = 0;
			const u64 failed = sim::heapStats().failed;
			C & c = *x.c; Model & m = x.m;
			if (!this->plan.faults.empty()) settleFor(x);
			auto set = [&](auto && make, i64 value)
			{
				// built anew, or assigned to what is there
				if (o.d & 2) { this->kill(x); x.c = make(); }
				else { Held<C> t{make()}; sim::call([&] { if (o.d & 4) *x.c = std::move(*t); else *x.c = (const C&)*t; }); }
				m = {value};
			};
			switch (o.code)
			{
			case F_TMP: set([&] { return makeBy<C>([&] { return Counter{v}; }); }, v); break;
			case F_OBJ: { Held<Counter> f{makeIn<Counter>(v)}; set([&] { return o.d & 1 ? makeIn<C>(*f) : makeIn<C>((const Counter&)*f); }, v); break; }
			case F_LAMBDA: set([&] { return makeBy<C>([&] { return [t = Counter{v}](i64 x) mutable { return t(x); }; }); }, v); break;
			case F_PLAIN: set([&] { return o.d & 1 ? makeIn<C>(&plain) : makeIn<C>(plain); }, 777); break;
			case F_SMALL:
				set([&] {
					const i64 b = v % 100;
					switch (o.c / 50 % 6)
					{
					case 0: return makeIn<C>([](i64 x) { return 800 + (x == PEEK ? 0 : x * 1000000); });
					case 1: return makeIn<C>(Small<1>{b});
					case 2: return makeIn<C>(Small<8>{b});
					case 3: return makeIn<C>(Small<16>{b});
					case 4: return makeIn<C>(Small<33>{b});
					default: return makeIn<C>(Small<64>{b});
					}
				}, 800 + (o.c / 50 % 6 ? v % 100 : 0));
				break;
			case F_LARGE: set([&] { return makeBy<C>([&] { return Large{v}; }); }, v); break;
			case F_WRAP: set([&] { return makeBy<C>([&] { return [f = Callable{Counter{v}}](i64 x) { return f ? f(x) : -9; }; }); }, v); break;
			case F_CALL: case F_CCALL:
				if (m.empty()) break;
				sim::call([&] { got = o.code == F_CALL ? c(arg) : ((const C&)c)(arg); });
				if (m[0] % 1000 <= 700) m[0] += 1000; // it counts
				WANT(got == m[0] + arg * 1000000, "a call with %lld gives %lld, expected %lld", (long long)arg, (long long)got, (long long)(m[0] + arg * 1000000));
				break;
			case F_EMPTY: sim::call([&] { c = Callable{}; }); m.clear(); break;
			case F_PASS:
			{
				i64 out = -1, a = -1, b = -1; bool ran = false;
				attempt([&] {
					using F = Function<Tracked(Tracked, Tracked &, const Tracked &)>;
					F f{[t = Tracked{v}](Tracked p, Tracked & q, const Tracked & r) { q = Tracked{q.get() + 1}; return Tracked{t.get() + p.get() * 2 + q.get() * 3 + r.get() * 5}; }};
					F g{f};
					if (!f || !g) return; // no memory for it
					Tracked p{arg}, q{arg + 1}, r{arg + 2};
					out = (o.d & 1 ? f : g)(p, q, r).get(); a = p.get(); b = q.get(); ran = true;
				});
				WANT(!ran || (a == arg && b == arg + 2 && out == v + arg * 2 + (arg + 2) * 3 + (arg + 2) * 5), "a callable given objects gives %lld; they are %lld %lld afterwards (called with %lld)", (long long)out, (long long)a, (long long)b, (long long)arg);
				break;
			}
			case F_FAIL:
			{
				// what it was given, and what it was about to answer, is gone; the callable is as before
				i64 first = -1, second = -1, calls = -1, refused = 0; bool ran = false;
				attempt([&] {
					using F = Function<Tracked(Tracked, i64)>;
					F f{[t = Tracked{v}, n = (i64)0](Tracked p, i64 how) mutable { ++n; Tracked mine{p.get() + n}; if (how) throw Refused{}; return Tracked{t.get() + mine.get()}; }};
					if (!f) return;
					Tracked p{arg};
					first = f(p, 0).get();
					try { f(p, 1); } catch (Refused &) { refused = 1; }
					F g{f};
					if (!g) return;
					second = (o.d & 1 ? g : f)(Tracked{arg}, 0).get(); calls = p.get(); ran = true;
				});
				WANT(!ran || (refused && first == v + arg + 1 && second == v + arg + 3 && calls == arg), "a callable that failed once gives %lld, then %lld", (long long)first, (long long)second);
				break;
			}
			case F_UNIQUE:
			{
				// it moves along; a copy holds nothing
				i64 one = -1, two = -1; bool ran = false, empty = false, left = true;
				attempt([&] {
					C f{Unique{v}};
					if (!f) return;
					one = f(arg);
					C g{std::move(f)}, h{(const C&)g};
					empty = !h && g; left = f;
					if (o.d & 1) { f = std::move(g); two = f(arg); g = C{plain}; } else { C k{(const C&)C{}}; k = std::move(g); two = ((const C&)k)(arg); }
					ran = true;
				});
				WANT(!ran || (one == v + arg * 1000000 && two == one && empty && !left), "a callable that cannot be copied gives %lld, and %lld moved elsewhere (copies empty: %d)", (long long)one, (long long)two, empty);
				break;
			}
			case F_SHAPES:
			{
				i64 kept = -1, took = -1, through = -1; bool ran = false;
				attempt([&] {
					Tracked store{0};
					Function<void(Tracked &&, Tracked)> f{[&store](Tracked && p, Tracked q) { store = std::move(p); Tracked mine(std::move(q)); store.v += mine.get(); }};
					Function<Tracked &(Tracked &)> g{[](Tracked & p) -> Tracked & { return p; }};
					Function<void()> h{[&store] { ++store.v; }};
					if (!f || !g || !h) return;
					Tracked p{arg}, q{v};
					f(std::move(p), q);
					h(); ((const Function<void()> &)h)();
					through = &g(store) == &store;
					took = p.get(); kept = store.get(); ran = q.get() == v;
				});
				WANT(kept == -1 || (ran && through == 1 && took == MOVED && kept == arg + v + 2), "callables of several shapes leave %lld (%lld, %lld)", (long long)kept, (long long)took, (long long)through);
				break;
			}
			case F_SELF: sim::call([&] { c = (const C&)c; }); break;
			}
			if (sim::heapStats().failed != failed) { sim::count("op.out_of_memory"); settleFor(x); }
		}
		/** No memory for the object: the wrapper is empty, or still holds what it held. */
		void settleFor(Slot & x)
		{
			seen.n = 0; i64 size; bool back;
			sim::call([&] { read(*x.c, size, back); });
			x.m.assign(seen.v, seen.v + seen.n);
		}
	};

	const bool isFun(i64 k) { return k == 2; }
	void run(const Plan & p)
	{
		judgeFor(p);
		switch (p.get("kind"))
		{
		case 0: go<Optionals<Tracked>>(p); break;
		case 1: go<Optionals<String>>(p); break;
		case 2: go<Functions>(p); break;
		case 3: go<Optionals<Array<Tracked>>>(p); break;
		case 4: go<Optionals<Callable>>(p); break;
		case 5: go<Optionals<Wide>>(p); break;
		case 6: go<Optionals<Tuple<int64, Tracked, String, Tracked>>>(p); break;
		case 7: go<Optionals<Trio>>(p); break;
		case 8: go<Optionals<int64>>(p); break;
		case 9: go<Optionals<Lazy>>(p); break;
		case 10: go<Optionals<Settled>>(p); break;
		case 11: go<Optionals<OddSize>>(p); break;
		case 12: go<Optionals<TwoBytes>>(p); break;
		case 13: go<Optionals<Stiff>>(p); break;
		}
	}
	void gen(Rng & r, Plan & p)
	{
		sim::genEnvironment(r, p, false);
		const std::string q = p.property;
		static const i64 all[] = {0, 0, 1, 2, 2, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13};
		const i64 k = q == "P12" && r.chance(1, 2) ? (r.chance(1, 2) ? r.chance(1, 3) ? 9 : 0 : 2) : r.pick(all);
		p.cfg["kind"] = k; p.cfg["global"] = r.chance(1, 2); p.cfg["first"] = 0; p.cfg["last"] = r.below(3);
		int n = 2 + (int)r.below(r.chance(1, 10) ? 80 : 14), bias = 0;
		for (int i = 0; i < n; ++i)
		{
			if (r.chance(1, 6)) bias = (int)r.below(3);
			Op o; o.a = r.chance(1, 2) ? bias : (i64)r.below(3); o.b = (i64)(r.next() % 1000000000); o.c = (i64)(r.next() >> 40); o.d = (i64)(r.next() >> 44);
			if (r.chance(2, 5)) { o.code = CREATE + (int)r.below(6); o.b = r.below(3); }
			else o.code = (int)r.below(isFun(k) ? F_COUNT : O_COUNT);
			p.ops.push_back(o);
		}
		if (r.chance(1, 2) && (q == "P12" || q == "P14")) genLoose(r, p, n);
		else if (q == "P12" && isFun(k) && r.chance(1, 2))
			for (int i = 1 + (int)r.below(3); i--; ) { sim::Fault f; f.kind = "sysalloc"; f.n = r.below(n); p.faults.push_back(f); }
	}
	std::string show(const Op & o)
	{
		char b[200];
		if (o.code >= CREATE) snprintf(b, sizeof b, "%s slot %lld from/by %lld", commonName[(o.code - CREATE) % 7], (long long)(o.a % 3), (long long)(o.b % 3));
		else snprintf(b, sizeof b, "slot %lld: optional: %s / callable: %s (value#%lld, variant#%lld)", (long long)(o.a % 3), o.code < O_COUNT ? optOps[o.code] : "-", o.code < F_COUNT ? funOps[o.code] : "-", (long long)o.b, (long long)o.d);
		return b;
	}
	std::vector<int> reads(const Plan & p) { if (isFun(p.get("kind"))) return {}; return {LOOK}; }
	RegisterPart part("wrapper", {gen, run, show, reads});
	sim::Register reg1({"wrapper", "P11,P12,P14", gen, run, 2, show});
}
