// P10, P11, P12, P14: arrays and lists against a plain sequence.
#include "slots.h"
using namespace cont;

namespace
{
	// ---- arrays -----------------------------------------------------------------------
	const char * arrayOps[] = {"add", "add one of its own elements", "add several", "insert", "insert several", "insert first", "insert several first", "remove", "remove first", "remove last", "pop", "access or append", "write an element", "empty", "reset", "iterate", "build anew", "print", "insert one of its own elements", "add several of its own elements", "add many", "remove many"};
	enum { A_ADD, A_ADD_OWN, A_ADD_N, A_INS, A_INS_N, A_FIRST, A_FIRST_N, A_REM, A_REM_FIRST, A_REM_LAST, A_POP, A_CALL, A_WRITE, A_EMPTY, A_RESET, A_ITER, A_BUILD, A_PRINT, A_INS_OWN, A_ADD_N_OWN, A_COUNT, A_MANY = A_COUNT, A_FEW, A_ALL };

	template<typename E, typename Owned> struct Arrays : Slots<Arrays<E, Owned>, Array<E, Owned>, Owned>
	{
		using C = Array<E, Owned>; using BaseC = Array<E>;
		using S = Slots<Arrays<E, Owned>, C, Owned>; using Slot = typename S::Slot; using S::S;
		using X = Elem<E>;
		static const char * opName(int c) { return arrayOps[c]; }
		static bool assignsInParts() { return !simple<E> || (copiesFail && !std::is_same<E, int64>::value); }
		static void read(const C & c, i64 & size, bool & back)
		{
			size = (i64)c.getCount();
			if (c.isEmpty() != (size == 0)) size = -1;
			auto e = c.end();
			u64 left = SEEN;
			if (size) for (auto it = c.begin(); it != e && left--; ++it) seen.add(X::get(*it));
			for (i64 i = size - 1; i >= 0 && i < SEEN; --i) seenBack.add(X::get(c[i]));
			back = true;
		}
		void own(Slot & x, const Op & o)
		{
			C & c = *x.c; auto & m = x.m;
			const u64 n = m.size(), at = n ? o.c % (n + 1) : 0, one = n ? o.c % n : 0;
			const i64 v = o.b % 1000, w = (o.b / 1000) % 1000, u = (o.b / 1000000) % 1000;
			i64 got = -1;
			switch (o.code)
			{
			case A_ADD:
				if (n > 3000) break;
				if (attempt([&] {
					if (o.d % 4 == 0) { const E e(X::mk(v)); got = X::get(c.add(e)); }
					else if (o.d % 4 == 1) { E e(X::mk(v)); got = X::get(c.push(e)); }
					else got = X::get(o.d & 1 ? c.add(X::mk(v)) : c.insertLast(X::mk(v)));
				})) { m.push_back(v); WANT(got == v, "add returns %lld, not the element it added (%lld)", (long long)got, (long long)v); }
				break;
			case A_ADD_OWN:
				if (!n || n > 3000) break;
				if (attempt([&] { got = X::get(c.add(o.d & 1 ? c[one] : ((const C&)c)[one])); })) { i64 t = m[one]; m.push_back(t); WANT(got == t, "add returns %lld, not the element it added (%lld)", (long long)got, (long long)t); }
				break;
			case A_ADD_N:
				if (attempt([&] { if (o.d & 1) c.add(X::mk(v), X::mk(w)); else { E e(X::mk(w)); c.insertLast(X::mk(v), e, X::mk(u)); } })) { m.push_back(v); m.push_back(w); if (!(o.d & 1)) m.push_back(u); }
				break;
			case A_ADD_N_OWN:
				if (!n) break;
				if (attempt([&] { c.add(c[one], X::mk(w), c[n - 1 - one]); })) { i64 p = m[one], q = m[n - 1 - one]; m.push_back(p); m.push_back(w); m.push_back(q); }
				break;
			case A_INS:
				if (attempt([&] { if (o.d & 1) got = X::get(c.insertAt(at, X::mk(v))); else { const E e(X::mk(v)); got = X::get(c.insertAt(at, e)); } }))
				{ m.insert(m.begin() + at, v); WANT(got == v, "insertAt returns %lld, not the element it inserted (%lld)", (long long)got, (long long)v); }
				break;
			case A_INS_OWN:
				if (!n) break;
				if (attempt([&] { got = X::get(c.insertAt(at, c[(one + o.d) % n])); }))
				{ i64 t = m[(one + o.d) % n]; m.insert(m.begin() + at, t); WANT(got == t, "insertAt returns %lld, not the element it inserted (%lld)", (long long)got, (long long)t); }
				break;
			case A_INS_N:
				if (attempt([&] { if (o.d & 1) c.insertAt(at, X::mk(v), X::mk(w)); else { const E e(X::mk(w)); c.insertAt(at, X::mk(v), e, X::mk(u)); } }))
				{ i64 t[] = {v, w, u}; m.insert(m.begin() + at, t, t + (o.d & 1 ? 2 : 3)); }
				break;
			case A_FIRST:
				if (attempt([&] { if (o.d & 1) got = X::get(c.insertFirst(X::mk(v))); else { const E e(X::mk(v)); got = X::get(c.insertFirst(e)); } }))
				{ m.insert(m.begin(), v); WANT(got == v, "insertFirst returns %lld, not the element it inserted (%lld)", (long long)got, (long long)v); }
				break;
			case A_FIRST_N:
				if (attempt([&] { c.insertFirst(X::mk(v), X::mk(w)); })) { m.insert(m.begin(), w); m.insert(m.begin(), v); }
				break;
			case A_REM:
			{
				if (!n) break;
				const u64 k = o.d % 3 == 0 ? 1 : std::min<u64>(n - one, o.d % 5);
				sim::call([&] { if (o.d % 3 == 0) c.removeAt(one); else c.removeAt(one, k); });
				m.erase(m.begin() + one, m.begin() + one + k);
				break;
			}
			case A_REM_FIRST: if (n) { sim::call([&] { c.removeFirst(); }); m.erase(m.begin()); } break;
			case A_REM_LAST: if (n) { sim::call([&] { c.removeLast(); }); m.pop_back(); } break;
			case A_POP:
			{
				if (!n) break;
				const u64 p = o.d % 3 == 0 ? one : o.d % 3 == 1 ? 0 : n - 1;
				sim::call([&] { E e(X::mk(1)); if (o.d % 3 == 0) c.popAt(one, e); else if (o.d % 3 == 1) c.popFirst(e); else c.popLast(e); got = X::get(e); });
				WANT(got == m[p], "pop gives %lld, the element was %lld", (long long)got, (long long)m[p]);
				m.erase(m.begin() + p);
				break;
			}
			case A_CALL:
				if (n > 3000) break;
				if (attempt([&] { got = X::get(c(at, X::mk(v))); }))
				{ if (at == n) m.push_back(v); WANT(got == m[at], "operator()(%llu) gives %lld, expected %lld", (unsigned long long)at, (long long)got, (long long)m[at]); }
				if constexpr (std::is_same<E, int64>::value)
				{
					const u64 k = o.d % (m.size() + 1);
					if (attempt([&] { c(k) = u; })) { if (k == m.size()) m.push_back(u); else m[k] = u; }
				}
				break;
			case A_WRITE:
				if (n) { sim::call([&] { if (o.d & 1) c[one] = X::mk(v); else (*c)[one] = X::mk(v); }); m[one] = v; }
				break;
			case A_EMPTY: sim::call([&] { if (o.d & 1) c.empty(); else c.clear(); }); m.clear(); break;
			case A_RESET: sim::call([&] { c.reset(); }); m.clear(); break;
			case A_ITER:
			{
				if (!n) break;
				i64 sum = 0, wantSum = 0; i64 bad = 0;
				sim::call([&] {
					for (E & e : c) { X::get(e); sum += X::get(e); }
					auto b = c.begin(), e = c.end();
					auto it = b + one;
					if (X::get(*it) != X::get(c[one]) || X::get(b[one]) != X::get(*it)) bad = 1;
					if (it < b || !(it >= b) || !(it <= e) || it > e || !(it != e)) bad = 2;
					auto jt = it; ++jt; --jt; if (!(jt == it)) bad = 3;
					jt += 1; jt -= 1; if (jt != it) bad = 4;
					auto kt = jt++; if (kt != it || jt == it) bad = 5;
					auto lt = jt--; if (lt == it || jt != it) bad = 6;
					if (e - n != b || !(b + n == e) || it.operator->() != &c[one]) bad = 7;
					const C & cc = c; if (cc.getBytes() != n * sizeof(E) || *cc != *c || cc.getData() != c.getData() || cc.getNum() != n || cc.getSize() != n) bad = 8;
					auto ct = cc.begin() + one; if (ct.operator->() != it.operator->() || !(ct < cc.end()) || cc.end() - (n - one) != ct) bad = 9;
				});
				for (i64 t : m) wantSum += t;
				WANT(sum == wantSum && !bad, "iteration: sum %lld, expected %lld; check %lld", (long long)sum, (long long)wantSum, (long long)bad);
				break;
			}
			case A_BUILD:
				if constexpr (!S::OWNS)
				{
					const int k = (int)(o.c % 7);
					this->kill(x);
					try
					{
						switch (o.d % 5)
						{
						case 0: x.c = makeIn<C>((uint64)k); break;                       // capacity
						case 1:
							if constexpr (std::is_same<E, Tracked>::value || std::is_same<E, Settled>::value) { x.c = makeIn<C>((uint64)k + 2, (uint64)k); m.assign(k, 0); } // default constructed
							else x.c = makeIn<C>();
							break;
						case 2: case 3:
						{
							if constexpr (!simple<E>) { x.c = makeIn<C>(); break; }
							else
							{
								E b[7] = {X::mk(v), X::mk(w), X::mk(u), X::mk(w + 1), X::mk(5), X::mk(v), X::mk(w)};
								x.c = o.d % 5 == 2 ? makeIn<C>((const E*)b, (uint64)k) : makeIn<C>((const E*)b, (uint64)k, (uint64)3);
								i64 t[] = {v, w, u, w + 1, 5, v, w}; m.assign(t, t + k);
								break;
							}
						}
						default:
							if constexpr (std::is_same<E, int64>::value) { StaticArray<int64, 3> a{v, w, u}; x.c = makeIn<C>((const StaticArray<int64, 3>&)a); m = {v, w, u}; }
							else x.c = makeIn<C>();
						}
					}
					catch (OutOfMemory &) { m.clear(); sim::count("op.out_of_memory"); }
				}
				break;
			case A_MANY: case A_FEW:
			{
				const bool huge = this->plan.get("huge") && simple<E> && sizeof(E) <= 8 && o.d % 3 == 0;
				const u64 k = huge ? hugely(o.c) : many[o.c % 6];
				u64 done = 0;
				if (o.code == A_MANY)
				{
					if (n + k > (huge ? SEEN - 1000 : crowd<E>)) break;
					attempt([&] { for (; done < k; ++done) if (o.d & 1) c.add(X::mk((v + (i64)done) % 1000)); else { const E e(X::mk((v + (i64)done) % 1000)); c.add(e); } });
					for (u64 i = 0; i < done; ++i) m.push_back((v + (i64)i) % 1000);
				}
				else
				{
					const u64 r = std::min(k, n);
					const bool last = (o.d & 1) || huge;
					sim::call([&] { for (; done < r; ++done) if (last) c.removeLast(); else c.removeAt(one % (n - done)); });
					for (u64 i = 0; i < r; ++i) if (last) m.pop_back(); else m.erase(m.begin() + one % (n - i));
				}
				sim::count("op.many");
				break;
			}
			case A_PRINT:
				if constexpr (std::is_same<E, int64>::value)
				{
					std::string want = "[", have;
					if (judge.atomicity) break; // allocates on its own account
					for (u64 i = 0; i < n; ++i) want += (i ? ", " : "") + std::to_string(m[i]);
					want += "]";
					sim::call([&] { String t = c.toString(); sim::HarnessScope h; have.assign(*t, t.getLength()); });
					WANT(have == want, "prints as %s, expected %s", have.c_str(), want.c_str());
				}
				break;
			}
		}
	};

	// ---- lists ------------------------------------------------------------------------
	const char * listOps[] = {"push back", "push front", "push back several", "push front several", "push one of its own", "remove a link", "remove at an iterator", "remove back", "remove front", "pop back", "pop front", "empty", "write an element", "build from iterators", "print", "push many", "remove many"};
	enum { L_BACK, L_FRONT, L_BACK_N, L_FRONT_N, L_OWN, L_REM, L_REM_IT, L_REM_BACK, L_REM_FRONT, L_POP_BACK, L_POP_FRONT, L_EMPTY, L_WRITE, L_BUILD, L_PRINT, L_COUNT, L_MANY = L_COUNT, L_FEW, L_ALL };

	template<typename E, typename Owned> struct Lists : Slots<Lists<E, Owned>, List<E, Owned>, Owned>
	{
		using C = List<E, Owned>; using BaseC = List<E>;
		using S = Slots<Lists<E, Owned>, C, Owned>; using Slot = typename S::Slot; using S::S;
		using X = Elem<E>;
		static const char * opName(int c) { return listOps[c]; }
		static void read(const C & c, i64 & size, bool & back)
		{
			size = (i64)c.getLength();
			for (const E & e : c) { seen.add(X::get(e)); if (seen.n > SEEN) break; }
			for (auto * l = c.getTail(); l; l = l->prev) { seenBack.add(X::get(l->data)); if (seenBack.n > SEEN) break; }
			back = true;
			if (c.getHead() && c.getHead()->prev) size = -2;
			if (c.getTail() && c.getTail()->next) size = -3;
			if (!c.getHead() != !c.getTail()) size = -4;
		}
		void own(Slot & x, const Op & o)
		{
			C & c = *x.c; auto & m = x.m;
			const u64 n = m.size(), one = n ? o.c % n : 0;
			const i64 v = o.b % 1000, w = (o.b / 1000) % 1000, u = (o.b / 1000000) % 1000;
			i64 got = -1; bool ok = false;
			switch (o.code)
			{
			case L_BACK:
				if (attempt([&] { if (o.d & 1) got = X::get(c.pushBack(X::mk(v))); else { const E e(X::mk(v)); got = X::get(c.pushBack(e)); } }))
				{ m.push_back(v); WANT(got == v, "pushBack returns %lld, not the element it added (%lld)", (long long)got, (long long)v); }
				break;
			case L_FRONT:
				if (attempt([&] { if (o.d & 1) got = X::get(c.pushFront(X::mk(v))); else { E e(X::mk(v)); got = X::get(c.pushFront(e)); } }))
				{ m.insert(m.begin(), v); WANT(got == v, "pushFront returns %lld, not the element it added (%lld)", (long long)got, (long long)v); }
				break;
			case L_BACK_N: case L_FRONT_N:
			{
				if (judge.atomicity) break; // several operations in one
				i64 kept = -1;
				u64 before = n, done = 0;
				if (attempt([&] { E e(X::mk(w)); if (o.code == L_BACK_N) c.pushBack(X::mk(v), e, X::mk(u)); else c.pushFront(X::mk(v), e, X::mk(u)); kept = X::get(e); })) done = 3, ok = true;
				else sim::call([&] { done = c.getLength() - before; });
				i64 t[] = {v, w, u};
				for (u64 i = 0; i < done && i < 3; ++i) if (o.code == L_BACK_N) m.push_back(t[i]); else m.insert(m.begin(), t[i]);
				if (ok) WANT(kept == w, "an item pushed by reference is changed to %lld", (long long)kept);
				break;
			}
			case L_OWN:
				if (!n) break;
				if (attempt([&] { if (o.d & 1) c.pushBack(c.getHead()->data); else c.pushFront(c.getTail()->data); })) { if (o.d & 1) { i64 t = m[0]; m.push_back(t); } else { i64 t = m.back(); m.insert(m.begin(), t); } }
				break;
			case L_REM:
				if (!n) break;
				sim::call([&] { auto * l = c.getHead(); for (u64 i = 0; i < one; ++i) l = l->next; c.remove(l); });
				m.erase(m.begin() + one);
				break;
			case L_REM_IT:
				if (!n) break;
				sim::call([&] { auto it = c.begin(); for (u64 i = 0; i < one; ++i) if (o.d & 1) ++it; else it++; c.remove(it); });
				m.erase(m.begin() + one);
				break;
			case L_REM_BACK: case L_REM_FRONT: case L_POP_BACK: case L_POP_FRONT:
			{
				const bool atBack = o.code == L_REM_BACK || o.code == L_POP_BACK, pop = o.code >= L_POP_BACK;
				sim::call([&] {
					if (!pop) ok = atBack ? c.removeBack() : c.removeFront();
					else { E e(X::mk(1)); ok = atBack ? c.popBack(e) : c.popFront(e); got = X::get(e); }
				});
				WANT(ok == (n > 0), "removing from a list of %llu answers %d", (unsigned long long)n, ok);
				if (n)
				{
					const i64 t = atBack ? m.back() : m.front();
					WANT(!pop || got == t, "pop gives %lld, the element was %lld", (long long)got, (long long)t);
					if (atBack) m.pop_back(); else m.erase(m.begin());
				}
				break;
			}
			case L_EMPTY: sim::call([&] { c.empty(); }); m.clear(); break;
			case L_WRITE:
				if (!n) break;
				sim::call([&] { auto it = c.begin(); for (u64 i = 0; i < one; ++i) ++it; *it = X::mk(v); if (one && (o.d & 1)) { --it; it++; auto jt = it--; it++; if (it != jt && judge.content) sim::fail("wrong-content", "a step back and forth in a list leads elsewhere"); X::get(*it.operator->()); } });
				m[one] = v;
				break;
			case L_BUILD:
				if constexpr (!S::OWNS)
				{
					Slot & y = this->s[(o.a + 1) % 3];
					if (!y.c) break;
					this->kill(x);
					try { const C & src = *y.c; auto b = sim::call([&] { return src.begin(); }); auto e = sim::call([&] { return src.end(); }); x.c = makeIn<C>(b, e); m = y.m; }
					catch (OutOfMemory &) { sim::count("op.out_of_memory"); }
				}
				break;
			case L_MANY: case L_FEW:
			{
				const bool huge = this->plan.get("huge") && std::is_same<E, int64>::value && o.d % 3 == 0;
				const u64 k = huge ? hugely(o.c) : many[o.c % 6];
				u64 done = 0;
				if (o.code == L_MANY)
				{
					if (n + k > (huge ? SEEN - 1000 : crowd<E>)) break;
					attempt([&] { for (; done < k; ++done) if ((o.d & 1) || huge) c.pushBack(X::mk((v + (i64)done) % 1000)); else c.pushFront(X::mk((v + (i64)done) % 1000)); });
					for (u64 i = 0; i < done; ++i) if ((o.d & 1) || huge) m.push_back((v + (i64)i) % 1000); else m.insert(m.begin(), (v + (i64)i) % 1000);
				}
				else
				{
					const u64 r = std::min(k, n);
					sim::call([&] { for (; done < r; ++done) if (o.d & 1) c.removeBack(); else c.removeFront(); });
					if (o.d & 1) m.resize(n - r); else m.erase(m.begin(), m.begin() + r);
				}
				sim::count("op.many");
				break;
			}
			case L_PRINT:
				if constexpr (std::is_same<E, int64>::value)
				{
					if (judge.atomicity) break;
					std::string want = n ? "[ " : "[]", have;
					for (u64 i = 0; i < n; ++i) want += (i ? "-> " : "") + std::to_string(m[i]);
					if (n) want += " ]";
					sim::call([&] { String t = c.toString(); sim::HarnessScope h; have.assign(*t, t.getLength()); });
					WANT(have == want, "prints as %s, expected %s", have.c_str(), want.c_str());
				}
				break;
			}
		}
	};

	// ---- runs --------------------------------------------------------------------------
	bool isList(i64 k) { return (k >= 6 && k <= 10) || (k >= 14 && k < 20) || k == 25 || k == 26 || k >= 31; }
	void run(const Plan & p)
	{
		judgeFor(p);
		switch (p.get("kind"))
		{
		case 0: go<Arrays<int64, void>>(p); break;
		case 1: go<Arrays<Tracked, void>>(p); break;
		case 2: go<Arrays<String, void>>(p); break;
		case 3: go<Arrays<int64, OwnedMalloc>>(p); break;
		case 4: go<Arrays<Tracked, OwnedMalloc>>(p); break;
		case 5: go<Arrays<Tracked, MallocAnsi>>(p); break;
		case 6: go<Lists<int64, void>>(p); break;
		case 7: go<Lists<Tracked, void>>(p); break;
		case 8: go<Lists<String, void>>(p); break;
		case 9: go<Lists<Tracked, OwnedMalloc>>(p); break;
		case 10: go<Lists<int64, OwnedPooled>>(p); break;
		case 11: go<Arrays<Optional<Tracked>, void>>(p); break;
		case 12: go<Arrays<Callable, void>>(p); break;
		case 13: go<Arrays<Array<Tracked>, void>>(p); break;
		case 14: go<Lists<Optional<Tracked>, void>>(p); break;
		case 15: go<Lists<Callable, void>>(p); break;
		case 16: go<Lists<Array<Tracked>, OwnedMalloc>>(p); break;
		case 17: go<Lists<Optional<String>, void>>(p); break;
		case 18: go<Lists<Wide, void>>(p); break;
		case 19: go<Lists<Wide, OwnedMalloc>>(p); break;
		case 20: go<Arrays<Wide, void>>(p); break;
		case 21: go<Arrays<Wide, OwnedMalloc>>(p); break;
		case 22: go<Arrays<Stiff, void>>(p); break;
		case 23: go<Arrays<Tuple<int64, Tracked, String, Tracked>, void>>(p); break;
		case 24: go<Arrays<Trio, OwnedMalloc>>(p); break;
		case 25: go<Lists<Pair<Tracked, String>, void>>(p); break;
		case 26: go<Lists<Trio, void>>(p); break;
		case 27: go<Arrays<Lazy, void>>(p); break;
		case 28: go<Arrays<Settled, void>>(p); break;
		case 29: go<Arrays<OddSize, void>>(p); break;
		case 30: go<Arrays<TwoBytes, OwnedMalloc>>(p); break;
		case 31: go<Lists<OddSize, OwnedPooled>>(p); break;
		case 32: go<Lists<Settled, void>>(p); break;
		case 33: go<Lists<Stiff, void>>(p); break;
		}
	}
	void gen(Rng & r, Plan & p)
	{
		sim::genEnvironment(r, p, false);
		const std::string q = p.property;
		static const i64 all[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 20, 21, 22, 23, 24, 25, 26, 27, 28, 28, 29, 29, 30, 31, 32, 33}, tracked[] = {1, 1, 1, 4, 4, 5, 5, 7, 7, 7, 9, 9, 11, 12, 13, 14, 15, 16, 18, 20, 22, 23, 24, 25, 26, 27, 27, 33, 33}, failing[] = {0, 1, 1, 2, 2, 3, 4, 6, 7, 7, 8, 9, 13, 16, 17, 22, 23, 25, 27, 28, 29, 33, 33};
		const i64 k = q == "P12" ? r.pick(tracked) : q == "P10" ? r.pick(failing) : r.pick(all);
		p.cfg["kind"] = k;
		p.cfg["mode"] = r.below(3);
		p.cfg["global"] = q == "P10" || q == "P12" || r.chance(1, 2);
		p.cfg["first"] = r.below(4); p.cfg["last"] = r.below(3);
		int n = (int)(r.chance(1, 20) ? r.below(250) : r.chance(1, 5) ? r.below(80) : 2 + r.below(25));
		const bool crowded = (q == "P10" || q == "P11" || q == "P12" || q == "P14") && r.chance(1, 60);
		if (crowded) { n = 3 + (int)r.below(12); p.cfg["budget"] = 100000000; if (r.chance(1, 8)) { p.cfg["huge"] = 1; p.cfg["budget"] = 1000000000; } }
		int grow = 50, slotBias = 0;
		for (int i = 0; i < n; ++i)
		{
			if (r.chance(1, 8)) { static const int g[] = {20, 50, 70, 90}; grow = r.pick(g); slotBias = (int)r.below(3); }
			Op o; o.a = r.chance(2, 3) ? slotBias : (i64)r.below(3); o.b = (i64)(r.next() % 1000000000); o.c = (i64)(r.next() >> 40); o.d = (i64)(r.next() >> 44);
			if (r.chance(1, 7)) { o.code = CREATE + (int)r.below(7); o.b = r.below(3); }
			else if ((int)r.below(100) < grow)
			{
				static const int a[] = {A_ADD, A_ADD, A_ADD_OWN, A_ADD_N, A_ADD_N_OWN, A_INS, A_INS, A_INS_OWN, A_INS_N, A_FIRST, A_FIRST_N, A_CALL}, l[] = {L_BACK, L_BACK, L_FRONT, L_BACK_N, L_FRONT_N, L_OWN};
				o.code = isList(k) ? r.pick(l) : r.pick(a);
			}
			else o.code = (int)r.below(isList(k) ? L_COUNT : A_COUNT);
			if ((o.code == A_EMPTY || o.code == A_RESET || o.code == A_BUILD) && !isList(k) && r.chance(2, 3)) o.code = A_REM;
			if (crowded && r.chance(1, 4)) { o.code = r.chance(2, 3) ? (isList(k) ? (int)L_MANY : (int)A_MANY) : isList(k) ? (int)L_FEW : (int)A_FEW; o.a = slotBias; }
			if ((o.code == L_EMPTY || o.code == L_BUILD) && isList(k) && r.chance(2, 3)) o.code = L_REM;
			p.ops.push_back(o);
		}
		if (k == 22) for (Op & o : p.ops) if (o.code < CREATE && o.code != A_EMPTY && o.code != A_ITER) // room is made by moves, which may fail: only at the end
		{
			static const int tail[] = {A_ADD, A_ADD, A_ADD_OWN, A_ADD_N, A_ADD_N_OWN, A_CALL, A_REM_LAST, A_MANY};
			o.code = r.pick(tail);
			if (o.code == A_MANY && r.chance(2, 3)) o.code = A_ADD;
		}
		if (q == "P10") genStrict(r, p, n);
		else if (q == "P12" || q == "P14") genLoose(r, p, n);
	}
	std::string show(const Op & o)
	{
		char b[200];
		if (o.code >= CREATE) snprintf(b, sizeof b, "%s slot %lld from/by %lld", commonName[(o.code - CREATE) % 7], (long long)(o.a % 3), (long long)(o.b % 3));
		else snprintf(b, sizeof b, "slot %lld: array: %s / list: %s (values %lld %lld %lld, position %lld, variant %lld)", (long long)(o.a % 3), o.code < A_ALL ? arrayOps[o.code] : "-", o.code < L_ALL ? listOps[o.code] : "-",
			(long long)(o.b % 1000), (long long)(o.b / 1000 % 1000), (long long)(o.b / 1000000 % 1000), (long long)o.c, (long long)o.d);
		return b;
	}
	std::vector<int> reads(const Plan & p)
	{
		if (isList(p.get("kind"))) return {L_PRINT};
		return {A_ITER, A_ITER, A_PRINT};
	}
	RegisterPart part("sequence", {gen, run, show, reads});
	sim::Register reg1({"sequence", "P10,P11,P12,P14", gen, run, 4, show});
}
