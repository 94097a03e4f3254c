// P10, P11, P12, P14: search trees, sets and maps against sorted sequences.
#include "slots.h"
using namespace cont;

namespace
{
	/** Key of a stored value under a comparison. */
	template<typename Cmp> struct KeyOf { static i64 key(i64 v) { return v; } };
	template<> struct KeyOf<ByKey> { static i64 key(i64 v) { return v >> 2; } };
	using Model = std::vector<i64>;

	/** Comparisons a lookup may take in a balanced tree of n elements (two per step, generously). */
	u64 lookupBound(u64 n) { u64 l = 0; while (n >> l) ++l; return 4 * (2 * l + 2); }
	struct Count { static u64 all() { sim::HarnessScope h; return reg.compares[sim::taskId()]; } u64 before = all(); u64 used() const { return all() - before; } };

	/** Shape of a red-black tree through its public links. */
	template<typename N> i64 blackHeight(const N * n, const N * parent, u64 & count, i64 & height)
	{
		height = 0;
		if (!n) return 0;
		if (n->parent != parent || ++count > SEEN) return -1;
		if (N::isRed(n) && (N::isRed(n->left) || N::isRed(n->right))) return -2;
		i64 hl, hr, l = blackHeight(n->left, n, count, hl), r = blackHeight(n->right, n, count, hr);
		height = 1 + (hl > hr ? hl : hr);
		if (l < 0) return l;
		if (r < 0) return r;
		if (l != r) return -3;
		return l + N::isBlack(n);
	}
	template<typename T> i64 shape(const T & t)
	{
		u64 count = 0; i64 h = 0;
		const auto * root = t.getRoot();
		if (!root) return t.getNumNodes() || t.getMin() || t.getMax() ? -10 : 0;
		i64 b = blackHeight(root, (decltype(root))nullptr, count, h);
		if (b < 0) return b;
		if (count != t.getNumNodes()) return -4;
		u64 l = 0; while ((count + 1) >> l) ++l; // > log2(n+1)
		if (h > (i64)(2 * l)) return -5;
		// the thread through the nodes is the order of the tree, both ways
		const auto * n = t.getMin();
		if (n->prev) return -6;
		u64 steps = 1;
		while (n->next) { if (n->next->prev != n) return -7; n = n->next; if (++steps > SEEN) return -8; }
		if (n != t.getMax() || steps != count) return -9;
		return b;
	}
	const char * const shapeName[] = {"", "a node has the wrong parent", "a red node has a red child", "paths cross different numbers of black nodes", "the number of nodes is not the number of reachable nodes", "the tree is too high", "the first node has a predecessor", "next and previous disagree", "the chain of nodes never ends", "the chain of nodes misses some", "an empty tree has nodes"};
	void judgeShape(i64 b) { if (judge.content && b < 0) sim::fail("broken-tree", "%s", shapeName[-b]); }

	// ---- trees with duplicates, and sets ------------------------------------------------
	const char * treeOps[] = {"insert", "insert several", "insert unique", "replace", "find", "find range", "remove value", "remove at an iterator", "sweep", "empty", "bounds", "insert many", "remove many"};
	enum { T_INSERT, T_INSERT_N, T_UNIQUE, T_REPLACE, T_FIND, T_RANGE, T_REMOVE, T_REMOVE_IT, T_SWEEP, T_EMPTY, T_BOUNDS, T_COUNT, T_MANY = T_COUNT, T_FEW, T_TOP };

	template<typename E, typename Cmp, typename Owned> struct Trees : Slots<Trees<E, Cmp, Owned>, BinaryTree<E, Cmp, Owned>, Owned>
	{
		using C = BinaryTree<E, Cmp, Owned>; using BaseC = BinaryTree<E, Cmp>;
		using S = Slots<Trees<E, Cmp, Owned>, C, Owned>; using Slot = typename S::Slot; using S::S;
		using X = Elem<E>;
		static const char * opName(int c) { return treeOps[c]; }
		static i64 key(i64 v) { return KeyOf<Cmp>::key(v); }
		void read(const C & c, i64 & size, bool & back)
		{
			size = (i64)c.getCount();
			auto e = c.end();
			for (auto it = c.begin(); it != e; ++it) { seen.add(X::get(*it)); if (seen.n > SEEN) break; }
			for (auto * n = c.getMax(); n; n = n->prev) { seenBack.add(X::get(n->data)); if (seenBack.n > SEEN) break; }
			back = true;
			judgeShape(shape(c));
		}
		/** Positions of the elements equal to a value. */
		static std::pair<u64, u64> group(const Model & m, i64 v)
		{
			u64 a = 0, b;
			while (a < m.size() && key(m[a]) < key(v)) ++a;
			b = a;
			while (b < m.size() && key(m[b]) == key(v)) ++b;
			return {a, b};
		}
		/** The order among equal elements is the container's choice: take it over if it is a permutation of ours. */
		void adopt(C & c, Model & m, i64 v)
		{
			if (!judge.content) return;
			auto g = group(m, v);
			seen.n = seenBack.n = 0;
			i64 size; bool back;
			sim::call([&] { read(c, size, back); });
			if (seen.n != m.size()) return;
			Model have(seen.v + g.first, seen.v + g.second), want(m.begin() + g.first, m.begin() + g.second), h2 = have;
			std::sort(have.begin(), have.end()); std::sort(want.begin(), want.end());
			if (have == want) std::copy(h2.begin(), h2.end(), m.begin() + g.first);
		}
		/** One of several equal elements disappeared or was replaced: which one is the container's choice. */
		void adoptMissing(C & c, Model & m, i64 v, bool replaced, i64 by)
		{
			auto g = group(m, v);
			seen.n = seenBack.n = 0;
			i64 size; bool back;
			sim::call([&] { read(c, size, back); });
			for (u64 i = g.first; i < g.second; ++i)
			{
				Model t = m;
				if (replaced) t[i] = by; else t.erase(t.begin() + i);
				if (same(seen, t)) { m = t; return; }
			}
			Model t = m; // let the comparison report it
			if (replaced) m[g.first] = by; else m.erase(m.begin() + g.first);
		}
		void insertUniqueModel(Model & m, i64 v) { auto g = group(m, v); m.insert(m.begin() + g.second, v); }
		void insertModel(C & c, Model & m, i64 v) { auto g = group(m, v); m.insert(m.begin() + g.second, v); adopt(c, m, v); }
		void own(Slot & x, const Op & o)
		{
			C & c = *x.c; auto & m = x.m;
			const u64 n = m.size(), one = n ? o.c % n : 0;
			const i64 span = this->plan.get("span", 200), v = o.b % span, w = (o.b / 1000) % span;
			i64 got = -1; bool ok = false;
			const auto g = group(m, v);
			const bool has = g.first != g.second;
			switch (o.code)
			{
			case T_INSERT:
				if (attempt([&] { if (o.d & 1) got = X::get(c.insert(X::mk(v))); else { const E e(X::mk(v)); got = X::get(c.insert(e)); } }))
				{ WANT(got == v, "insert returns %lld, not the element it inserted (%lld)", (long long)got, (long long)v); insertModel(c, m, v); }
				break;
			case T_INSERT_N:
				if (judge.atomicity) break;
				sim::call([&] { E e(X::mk(w)); c.insert(X::mk(v), e); got = X::get(e); });
				WANT(got == w, "an item inserted by reference is changed to %lld", (long long)got);
				{ auto g1 = group(m, v); m.insert(m.begin() + g1.second, v); auto g2 = group(m, w); m.insert(m.begin() + g2.second, w); }
				adopt(c, m, v); adopt(c, m, w);
				break;
			case T_UNIQUE:
				if (o.d % 5 == 4)
				{
					untilDone([&] { E e(X::mk(w)); c.insertUnique(X::mk(v), e); got = X::get(e); });
					WANT(got == w, "an item inserted by reference is changed to %lld", (long long)got);
					if (!has) insertUniqueModel(m, v);
					auto g2 = group(m, w); if (g2.first == g2.second) insertUniqueModel(m, w);
					break;
				}
				if (attempt([&] { if (o.d & 1) got = X::get(c.insertUnique(X::mk(v))); else { const E e(X::mk(v)); got = X::get(c.insertUnique(e)); } }))
				{
					if (!has) { insertModel(c, m, v); WANT(got == v, "insertUnique returns %lld, not the element it inserted (%lld)", (long long)got, (long long)v); }
					else WANT(std::find(m.begin() + g.first, m.begin() + g.second, got) != m.begin() + g.second, "insertUnique returns %lld, not the existing element", (long long)got);
				}
				break;
			case T_REPLACE:
				if (o.d % 5 == 4)
				{
					const auto h = group(m, w);
					if (key(v) == key(w) || g.second - g.first > 1 || h.second - h.first > 1) break;
					untilDone([&] { E e(X::mk(w)); c.replace(X::mk(v), e); got = X::get(e); });
					WANT(got == w, "an item stored by reference is changed to %lld", (long long)got);
					for (i64 t : {v, w}) { auto gt = group(m, t); if (gt.first != gt.second) m[gt.first] = t; else insertUniqueModel(m, t); }
					break;
				}
				if (o.d & 8 && n) // often one that is there
				{
					const i64 k = m[one]; const auto gk = group(m, k);
					if (gk.second - gk.first > 1) break;
					const i64 by = std::is_same<Cmp, ByKey>::value ? (k & ~(i64)3) | (v & 3) : k; // equal to it all the same
					if (attempt([&] {
						if (o.d & 4) { const E e(X::mk(by)); got = X::get(c.replace(e)); }
						else { auto it = c.begin(); for (u64 i = 0; i < one; ++i) ++it; got = X::get(c.replace((const E&)*it)); } // with itself
					}))
					{
						const i64 now = o.d & 4 ? by : k;
						WANT(got == now, "replace returns %lld, not the element it stored (%lld)", (long long)got, (long long)now);
						m[one] = now;
					}
					break;
				}
				if (attempt([&] { if (o.d & 1) got = X::get(c.replace(X::mk(v))); else { const E e(X::mk(v)); got = X::get(c.replace(e)); } }))
				{
					WANT(got == v, "replace returns %lld, not the element it stored (%lld)", (long long)got, (long long)v);
					if (!has) insertModel(c, m, v); else adoptMissing(c, m, v, true, v);
				}
				break;
			case T_FIND:
			{
				const bool probe = n && (o.d & 1);
				const i64 k = probe ? m[one] : v;
				i64 a = -1, b = -1, used = 0;
				sim::call([&] {
					E e(X::mk(k)); const C & cc = c;
					{ Count cnt; auto * nd = cc.findNode(e); used = (i64)cnt.used(); if (nd) { a = X::get(nd->data); } }
					auto it = c.find(e); if (it != c.end()) { b = X::get(*it); }
					auto jt = cc.find(e); ok = (jt != cc.end()) == (it != c.end());
				});
				const auto gk = group(m, k);
				const bool hk = gk.first != gk.second;
				WANT(ok && (a >= 0) == hk && (b >= 0) == hk, "find(%lld) says %lld and %lld, the element is %s", (long long)k, (long long)a, (long long)b, hk ? "there" : "not there");
				WANT(!hk || (key(a) == key(k) && key(b) == key(k)), "find(%lld) gives %lld and %lld", (long long)k, (long long)a, (long long)b);
				WANT((u64)used <= lookupBound(n + 1), "a lookup among %llu elements takes %lld comparisons", (unsigned long long)n, (long long)used);
				break;
			}
			case T_RANGE:
			{
				const i64 k = n && (o.d & 1) ? m[one] : v;
				seenBack.n = 0;
				sim::call([&] {
					E e(X::mk(k)); const C & cc = c;
					seen.n = 0;
					auto end = c.end(e);
					for (auto it = c.begin(e); it != end && seen.n < SEEN; ++it) seen.add(X::get(*it));
					auto cend = cc.end(e);
					for (auto it = cc.begin(e); it != cend && seenBack.n < SEEN; it++) seenBack.add(X::get(*it));
				});
				const auto gk = group(m, k);
				Model want(m.begin() + gk.first, m.begin() + gk.second);
				WANT(same(seen, want), "the elements equal to %lld are %s, expected %s", (long long)k, text(seen).c_str(), text(want).c_str());
				WANT(same(seenBack, want), "the elements equal to %lld (constant tree) are %s, expected %s", (long long)k, text(seenBack).c_str(), text(want).c_str());
				break;
			}
			case T_REMOVE:
			{
				const i64 k = n && (o.d & 3) ? m[one] : v;
				const auto gk = group(m, k);
				const bool hk = gk.first != gk.second;
				sim::call([&] { E e(X::mk(k)); ok = c.remove(e); });
				WANT(ok == hk, "remove(%lld) answers %d, the element was %s", (long long)k, ok, hk ? "there" : "not there");
				if (hk) adoptMissing(c, m, k, false, 0);
				break;
			}
			case T_REMOVE_IT:
			{
				if (!n) break;
				i64 next = -1; bool more = false;
				sim::call([&] { auto it = c.begin(); for (u64 i = 0; i < one; ++i) ++it; auto nx = c.remove(it); more = nx != c.end(); if (more) next = X::get(*nx); });
				m.erase(m.begin() + one);
				WANT(more == (one < m.size()) && (!more || next == m[one]), "remove of element %llu of %llu gives %lld as the next one, expected %lld", (unsigned long long)one, (unsigned long long)n, (long long)next, one < m.size() ? (long long)m[one] : -1ll);
				break;
			}
			case T_SWEEP: // remove while iterating
			{
				const i64 mod = 2 + o.d % 3;
				sim::call([&] { u64 left = SEEN; for (auto it = c.begin(); it != c.end() && left--; ) { if (X::get(*it) % mod == 0) it = c.remove(it); else ++it; } });
				m.erase(std::remove_if(m.begin(), m.end(), [&](i64 t) { return t % mod == 0; }), m.end());
				break;
			}
			case T_MANY: case T_FEW:
			{
				// rising, falling or scattered
				const i64 k = (i64)many[o.c % 6], step = o.d % 3 == 0 ? 1 : o.d % 3 == 1 ? -1 : 7919, wide = std::max<i64>(span, 3000);
				auto nth = [&](i64 i) { i64 t = (v + i * step) % wide; return t < 0 ? t + wide : t; };
				i64 done = 0; bool vague = false; // which of several equal ones goes is the container's choice
				if (o.code == T_MANY)
				{
					if (n + (u64)k > crowd<E>) break;
					attempt([&] { for (; done < k; ++done) c.insertUnique(X::mk(nth(done))); });
					for (i64 i = 0; i < done; ++i) { const auto gi = group(m, nth(i)); if (gi.first == gi.second) insertUniqueModel(m, nth(i)); }
				}
				else
				{
					attempt([&] { for (; done < k; ++done) { const E e(X::mk(nth(done))); c.remove(e); } });
					for (i64 i = 0; i < done; ++i) { const auto gi = group(m, nth(i)); if (gi.second - gi.first > 1) vague = true; if (gi.first != gi.second) m.erase(m.begin() + gi.first); }
					if (vague && judge.content)
					{
						seen.n = seenBack.n = 0; i64 size; bool back;
						sim::call([&] { read(c, size, back); });
						bool like = seen.n == m.size();
						for (u64 i = 0; like && i < seen.n; ++i) like = key(seen.v[i]) == key(m[i]);
						if (like) m.assign(seen.v, seen.v + seen.n);
					}
				}
				sim::count("op.many");
				break;
			}
			case T_EMPTY: sim::call([&] { c.empty(); }); m.clear(); break;
			case T_BOUNDS:
			{
				i64 lo = -1, hi = -1;
				sim::call([&] { const C & cc = c; if (auto * a = c.getMin()) lo = X::get(a->data); if (auto * a = cc.getMax()) hi = X::get(a->data); ok = (c.getRoot() != nullptr) == (n > 0); });
				if (n)
				{
					i64 bad = 0;
					sim::call([&] {
						const C & cc = c;
						auto it = c.begin(); for (u64 i = 0; i + 1 < n; ++i) ++it;
						auto last = it, prev = it--; // steps back, tells where it was
						if (!(prev == last)) bad = 1;
						if (n > 1) { if (it == last || X::get(*it) != m[n - 2]) bad = 2; ++it; if (it != last) bad = 3; }
						auto jt = cc.begin(); for (u64 i = 0; i < one; ++i) jt++;
						for (u64 i = one; i > 0; --i) { --jt; if (X::get(*jt.operator->()) != m[i - 1]) bad = 4; }
						const auto * r = cc.getRoot(); auto * nd = c.getMin();
						if (cc.getMin()->getRoot() != r || nd->getRoot() != r || (u64)C::NodeT::getTreeSize(c.getRoot()) != n) bad = 5;
						if (cc.getMin() != nd || c.getMax() != cc.getMax()) bad = 6;
					});
					WANT(!bad, "walking the tree backwards and upwards goes wrong (check %lld)", (long long)bad);
				}
				WANT(ok && lo == (n ? m.front() : -1) && hi == (n ? m.back() : -1), "the bounds are %lld and %lld, expected %lld and %lld", (long long)lo, (long long)hi, n ? (long long)m.front() : -1, n ? (long long)m.back() : -1);
				break;
			}
			}
		}
	};

	const char * setOps[] = {"set", "set several", "get", "get with value", "any", "all", "remove", "remove with value", "union", "intersection", "difference", "compare", "range", "empty", "set many", "remove many"};
	enum { S_SET, S_SET_N, S_GET, S_GETV, S_ANY, S_ALL, S_REM, S_REMV, S_UNION, S_INTER, S_DIFF, S_CMP, S_RANGE, S_EMPTY, S_COUNT, S_MANY = S_COUNT, S_FEW, S_TOP };

	template<typename E, typename Cmp, typename Owned> struct SetCopy : public Set<E, Cmp, Owned>
	{
		void empty() { this->getTree().empty(); }
	};
	template<typename E, typename Cmp, typename Owned> struct Sets : Slots<Sets<E, Cmp, Owned>, SetCopy<E, Cmp, Owned>, Owned>
	{
		using C = SetCopy<E, Cmp, Owned>; using BaseC = void; using Z = Set<E, Cmp, Owned>;
		using S = Slots<Sets<E, Cmp, Owned>, C, Owned>; using Slot = typename S::Slot; using S::S;
		using X = Elem<E>;
		static const char * opName(int c) { return setOps[c]; }
		static i64 key(i64 v) { return KeyOf<Cmp>::key(v); }
		void read(const C & c, i64 & size, bool & back)
		{
			size = (i64)c.getSize();
			if ((i64)c.getNumItems() != size || (i64)c.getCount() != size) size = -2;
			auto e = c.end();
			for (auto it = c.begin(); it != e; ++it) { seen.add(X::get(*it)); if (seen.n > SEEN) break; }
			for (auto * n = c.getTree().getMax(); n; n = n->prev) { seenBack.add(X::get(n->data)); if (seenBack.n > SEEN) break; }
			back = true;
			judgeShape(shape(c.getTree()));
		}
		static u64 at(const Model & m, i64 v) { u64 a = 0; while (a < m.size() && key(m[a]) < key(v)) ++a; return a; }
		static bool in(const Model & m, i64 v) { u64 a = at(m, v); return a < m.size() && key(m[a]) == key(v); }
		static void put(Model & m, i64 v) { if (!in(m, v)) m.insert(m.begin() + at(m, v), v); }
		void own(Slot & x, const Op & o)
		{
			C & c = *x.c; auto & m = x.m;
			const u64 n = m.size(), one = n ? o.c % n : 0;
			const i64 span = this->plan.get("span", 200), v = o.b % span, w = (o.b / 1000) % span, u = (o.b / 1000000) % span;
			const i64 k = n && (o.d & 1) ? m[one] : v;
			Slot & y = this->s[(o.a + o.d / 16) % 3]; // maybe itself
			i64 got = -1; bool ok = false;
			switch (o.code)
			{
			case S_SET:
				if (attempt([&] { if (o.d & 1) got = X::get(c.set(X::mk(v))); else { const E e(X::mk(v)); got = X::get(c.set(e)); } }))
				{ put(m, v); WANT(got == m[at(m, v)], "set(%lld) returns %lld, the element is %lld", (long long)v, (long long)got, (long long)m[at(m, v)]); }
				break;
			case S_SET_N:
				untilDone([&] { E e(X::mk(w)); c.set(X::mk(v), e, X::mk(u)); got = X::get(e); });
				put(m, v); put(m, w); put(m, u);
				WANT(got == w, "an item set by reference is changed to %lld", (long long)got);
				break;
			case S_GET:
			{
				u64 used = 0;
				sim::call([&] { const E e(X::mk(k)); const C & cc = c; Count cnt; ok = cc.get(e); used = cnt.used(); });
				WANT(ok == in(m, k), "get(%lld) says %d", (long long)k, ok);
				WANT(used <= lookupBound(n + 1), "a lookup among %llu elements takes %llu comparisons", (unsigned long long)n, (unsigned long long)used);
				break;
			}
			case S_GETV:
				sim::call([&] { const E e(X::mk(k)); E out(X::mk(1)); const C & cc = c; ok = o.d & 2 ? c.get(e, out) : cc.get(e, out); got = X::get(out); });
				WANT(ok == in(m, k) && (!ok || got == m[at(m, k)]), "get(%lld) says %d with value %lld", (long long)k, ok, (long long)got);
				break;
			case S_ANY: case S_ALL:
			{
				bool all = false, any1 = false, any3 = false, all1 = false, none = false;
				sim::call([&] { const E a(X::mk(k)), b(X::mk(w)), d(X::mk(u)); const C & cc = c; any1 = cc.any(a); any3 = cc.any(a, b, d); all1 = cc.all(a); all = cc.all(a, b, d); none = cc.all(); });
				const bool a = in(m, k), b = in(m, w), d = in(m, u);
				WANT(any1 == a && any3 == (a || b || d) && all1 == a && all == (a && b && d) && none, "any/all of %lld %lld %lld (there: %d %d %d) say %d %d / %d %d", (long long)k, (long long)w, (long long)u, a, b, d, any1, any3, all1, all);
				break;
			}
			case S_REM: case S_REMV:
				sim::call([&] { const E e(X::mk(k)); if (o.code == S_REM) ok = c.remove(e); else { E out(X::mk(1)); ok = c.remove(e, out); got = X::get(out); } });
				WANT(ok == in(m, k), "remove(%lld) says %d", (long long)k, ok);
				if (in(m, k)) { WANT(o.code == S_REM || got == m[at(m, k)], "remove(%lld) gives %lld", (long long)k, (long long)got); m.erase(m.begin() + at(m, k)); }
				break;
			case S_UNION: case S_INTER: case S_DIFF:
			{
				if (!y.c) break;
				Model want;
				if (o.code == S_UNION) { want = m; for (i64 t : y.m) put(want, t); }
				else for (i64 t : m) if (in(y.m, t) == (o.code == S_INTER)) want.push_back(t);
				const C & other = *y.c;
				if constexpr (!S::OWNS) if (o.d & 2)
				{
					u64 size = 0;
					untilDone([&] { seen.n = 0; const Z & a = c; Z z = o.code == S_UNION ? a + other : o.code == S_INTER ? a * other : a - other; size = z.getSize(); for (const E & e : z) { seen.add(X::get(e)); if (seen.n > SEEN) break; } });
					WANT(same(seen, want) && size == want.size(), "%s of %s and %s gives %s (size %llu)", setOps[o.code], text(m).c_str(), text(y.m).c_str(), text(seen).c_str(), (unsigned long long)size);
					break;
				}
				untilDone([&] { Z & a = c; if (o.code == S_UNION) a += other; else if (o.code == S_INTER) a *= other; else a -= other; });
				m = want;
				break;
			}
			case S_CMP:
			{
				if (!y.c) break;
				bool eq, ne, le, ge, lt, gt;
				sim::call([&] { const Z & a = c; const Z & b = *y.c; eq = a == b; ne = a != b; le = a <= b; ge = a >= b; lt = a < b; gt = a > b; });
				bool sub = true, sup = true;
				for (i64 t : m) sub &= in(y.m, t);
				for (i64 t : y.m) sup &= in(m, t);
				WANT(eq == (sub && sup) && ne == !eq && le == sub && ge == sup && lt == (sub && !sup) && gt == (sup && !sub), "comparing %s with %s: == %d != %d <= %d >= %d < %d > %d", text(m).c_str(), text(y.m).c_str(), eq, ne, le, ge, lt, gt);
				break;
			}
			case S_RANGE:
			{
				seen.n = seenBack.n = 0;
				sim::call([&] {
					const E e(X::mk(k)); const C & cc = c;
					auto end = c.end(e); for (auto it = c.begin(e); it != end && seen.n < SEEN; ++it) seen.add(X::get(*it));
					auto cend = cc.end(e); for (auto it = cc.begin(e); it != cend && seenBack.n < SEEN; ++it) seenBack.add(X::get(*it));
				});
				Model want; if (in(m, k)) want.push_back(m[at(m, k)]);
				WANT(same(seen, want) && same(seenBack, want), "the range of %lld is %s", (long long)k, text(seen).c_str());
				break;
			}
			case S_MANY: case S_FEW:
			{
				// rising, falling or scattered
				const i64 k = (i64)many[o.c % 6], step = o.d % 3 == 0 ? 1 : o.d % 3 == 1 ? -1 : 7919, wide = std::max<i64>(span, 3000);
				auto nth = [&](i64 i) { i64 t = (v + i * step) % wide; return t < 0 ? t + wide : t; };
				i64 done = 0;
				if (o.code == S_MANY)
				{
					if (n + (u64)k > crowd<E>) break;
					attempt([&] { for (; done < k; ++done) c.set(X::mk(nth(done))); });
					for (i64 i = 0; i < done; ++i) put(m, nth(i));
				}
				else
				{
					attempt([&] { for (; done < k; ++done) { const E e(X::mk(nth(done))); c.remove(e); } });
					for (i64 i = 0; i < done; ++i) if (in(m, nth(i))) m.erase(m.begin() + at(m, nth(i)));
				}
				sim::count("op.many");
				break;
			}
			case S_EMPTY: sim::call([&] { c.empty(); }); m.clear(); break;
			}
		}
	};

	// ---- maps ------------------------------------------------------------------------------
	const char * mapOps[] = {"subscript", "insert", "find", "find with value", "has", "remove key", "remove at an iterator", "pop", "range", "write values", "sweep", "set many", "remove many"};
	enum { M_SUB, M_INSERT, M_FIND, M_FINDV, M_HAS, M_REM, M_REM_IT, M_POP, M_RANGE, M_WRITE, M_SWEEP, M_COUNT, M_MANY = M_COUNT, M_FEW, M_TOP };

	template<typename K, typename V, typename Cmp, typename Owned> struct MapX : public Map<K, V, Cmp, Owned>
	{
		using Map<K, V, Cmp, Owned>::Map;
		MapX() = default; MapX(const MapX &) = default; MapX(MapX &&) = default; MapX & operator=(const MapX &) = default; MapX & operator=(MapX &&) = default;
		void empty() { while (this->getCount()) this->remove(this->begin()); }
	};
	template<typename K, typename V, typename Cmp, typename Owned> struct Maps : Slots<Maps<K, V, Cmp, Owned>, MapX<K, V, Cmp, Owned>, Owned>
	{
		using C = MapX<K, V, Cmp, Owned>; using BaseC = void;
		using S = Slots<Maps<K, V, Cmp, Owned>, C, Owned>; using Slot = typename S::Slot; using S::S;
		using XK = Elem<K>; using XV = Elem<V>;
		static constexpr i64 W = 1000000; // a pair as one number
		static const char * opName(int c) { return mapOps[c]; }
		static i64 pk(i64 k, i64 v) { return k * W + v; }
		static u64 at(const Model & m, i64 k) { u64 a = 0; while (a < m.size() && m[a] / W < k) ++a; return a; }
		static bool in(const Model & m, i64 k) { u64 a = at(m, k); return a < m.size() && m[a] / W == k; }
		static void put(Model & m, i64 k, i64 v) { u64 a = at(m, k); if (in(m, k)) m[a] = pk(k, v); else m.insert(m.begin() + a, pk(k, v)); }
		void read(const C & c, i64 & size, bool &)
		{
			size = (i64)c.getCount();
			auto e = c.end();
			for (auto it = c.begin(); it != e; ++it) { seen.add(pk(XK::get(it->getKey()), XV::get((*it).getVal()))); if (seen.n > SEEN) break; }
		}
		void own(Slot & x, const Op & o)
		{
			C & c = *x.c; auto & m = x.m;
			const u64 n = m.size(), one = n ? o.c % n : 0;
			const i64 span = this->plan.get("span", 200), v = (o.b / 1000) % 1000;
			const i64 k = n && (o.d & 1) ? m[one] / W : o.b % span;
			const bool there = in(m, k);
			const i64 old = there ? m[at(m, k)] % W : -1;
			i64 got = -1; bool ok = false; u64 used = 0;
			switch (o.code)
			{
			case M_SUB:
			{
				i64 before = -1;
				if (attempt([&] { if (o.d & 2) { V & r = c[XK::mk(k)]; if (there) before = XV::get(r); r = XV::mk(v); got = XV::get(r); } else { const K key(XK::mk(k)); V & r = c[key]; if (there) before = XV::get(r); r = XV::mk(v); got = XV::get(r); } }))
				{
					WANT(!there || before == old, "operator[] gives %lld for key %lld, expected %lld", (long long)before, (long long)k, (long long)old); put(m, k, v);
				}
				else if (!simple<V> && !loose) { untilDone([&] { c[XK::mk(k)] = XV::mk(v); }); put(m, k, v); } // two operations in one
				break;
			}
			case M_INSERT:
				if (attempt([&] { if (o.d & 2) got = XV::get(c.insert(XK::mk(k), XV::mk(v))); else { const K key(XK::mk(k)); const V val(XV::mk(v)); got = XV::get(c.insert(key, val)); } }))
				{ put(m, k, v); WANT(got == v, "insert returns %lld, not the value it stored (%lld)", (long long)got, (long long)v); }
				break;
			case M_FIND:
			{
				i64 fk = -1;
				sim::call([&] { const K key(XK::mk(k)); const C & cc = c; auto it = cc.find(key); if (it != cc.end()) { fk = XK::get((*it).first); got = XV::get(it->second); } auto jt = c.find(key); ok = (jt != c.end()) == (fk >= 0); });
				WANT(ok && (fk >= 0) == there && (!there || (fk == k && got == old)), "find(%lld) gives key %lld value %lld", (long long)k, (long long)fk, (long long)got);
				break;
			}
			case M_FINDV:
				sim::call([&] { const K key(XK::mk(k)); V out(XV::mk(1)); const C & cc = c; ok = cc.find(key, out); got = XV::get(out); });
				WANT(ok == there && (!there || got == old), "find(%lld) says %d with value %lld", (long long)k, ok, (long long)got);
				break;
			case M_HAS:
				sim::call([&] { const K key(XK::mk(k)); const C & cc = c; Count cnt; ok = cc.has(key); used = cnt.used(); });
				WANT(ok == there, "has(%lld) says %d", (long long)k, ok);
				WANT(used <= lookupBound(n + 1), "a lookup among %llu pairs takes %llu comparisons", (unsigned long long)n, (unsigned long long)used);
				break;
			case M_REM: case M_POP:
				sim::call([&] { const K key(XK::mk(k)); if (o.code == M_REM) ok = c.remove(key); else { V out(XV::mk(1)); ok = c.pop(key, out); got = XV::get(out); } });
				WANT(ok == there && (o.code == M_REM || !there || got == old), "%s of %lld says %d with value %lld", mapOps[o.code], (long long)k, ok, (long long)got);
				if (there) m.erase(m.begin() + at(m, k));
				break;
			case M_REM_IT:
			{
				if (!n) break;
				i64 next = -1; bool more = false;
				sim::call([&] { auto it = c.begin(); for (u64 i = 0; i < one; ++i) ++it; auto nx = c.remove(it); more = nx != c.end(); if (more) next = pk(XK::get(nx->first), XV::get(nx->second)); });
				m.erase(m.begin() + one);
				WANT(more == (one < m.size()) && (!more || next == m[one]), "remove of pair %llu of %llu gives %lld as the next one", (unsigned long long)one, (unsigned long long)n, (long long)next);
				break;
			}
			case M_RANGE:
			{
				seen.n = seenBack.n = 0;
				sim::call([&] {
					const K key(XK::mk(k)); const C & cc = c;
					auto end = c.end(key); for (auto it = c.begin(key); it != end && seen.n < SEEN; ++it) seen.add(pk(XK::get(it->first), XV::get(it->second)));
					auto cend = cc.end(key); for (auto it = cc.begin(key); it != cend && seenBack.n < SEEN; ++it) seenBack.add(pk(XK::get(it->first), XV::get(it->second)));
				});
				Model want; if (there) want.push_back(pk(k, old));
				WANT(same(seen, want) && same(seenBack, want), "the pairs of key %lld are %s", (long long)k, text(seen).c_str());
				break;
			}
			case M_WRITE:
				untilDone([&] { u64 i = 0; for (auto it = c.begin(); it != c.end() && i < SEEN; ++it, ++i) if (i % 3 == one % 3) it->second = XV::mk((v + (i64)i) % 1000); });
				for (u64 i = 0; i < n; ++i) if (i % 3 == one % 3) m[i] = pk(m[i] / W, (v + (i64)i) % 1000);
				break;
			case M_MANY: case M_FEW:
			{
				// rising, falling or scattered
				const i64 k = (i64)many[o.c % 6], step = o.d % 3 == 0 ? 1 : o.d % 3 == 1 ? -1 : 7919, wide = std::max<i64>(span, 3000);
				auto nth = [&](i64 i) { i64 t = (o.b + i * step) % wide; return t < 0 ? t + wide : t; };
				i64 done = 0;
				if (o.code == M_MANY)
				{
					if (n + (u64)k > std::min(crowd<K>, crowd<V>)) break;
					attempt([&] { for (; done < k; ++done) c.insert(XK::mk(nth(done)), XV::mk((v + done) % 1000)); });
					for (i64 i = 0; i < done; ++i) put(m, nth(i), (v + i) % 1000);
				}
				else
				{
					attempt([&] { for (; done < k; ++done) { const K key(XK::mk(nth(done))); c.remove(key); } });
					for (i64 i = 0; i < done; ++i) if (in(m, nth(i))) m.erase(m.begin() + at(m, nth(i)));
				}
				sim::count("op.many");
				break;
			}
			case M_SWEEP:
			{
				const i64 mod = 2 + o.d % 3;
				sim::call([&] { u64 left = SEEN; for (auto it = c.begin(); it != c.end() && left--; ) { if (XK::get(it->first) % mod == 0) it = c.remove(it); else ++it; } });
				m.erase(std::remove_if(m.begin(), m.end(), [&](i64 t) { return t / W % mod == 0; }), m.end());
				break;
			}
			}
		}
	};

	// ---- runs --------------------------------------------------------------------------------
	enum Family { TREE, SET, MAP };
	Family family(i64 k) { return k < 6 || k == 26 ? TREE : k < 12 || k == 27 ? SET : MAP; }
	void run(const Plan & p)
	{
		judgeFor(p);
		using T3 = ThreeWayCompare;
		switch (p.get("kind"))
		{
		case 0: go<Trees<int64, T3, void>>(p); break;
		case 1: go<Trees<int64, ByKey, void>>(p); break;
		case 2: go<Trees<Tracked, ByKey, void>>(p); break;
		case 3: go<Trees<String, T3, void>>(p); break;
		case 4: go<Trees<Tracked, T3, OwnedMalloc>>(p); break;
		case 5: go<Trees<int64, ByKey, OwnedPooled>>(p); break;
		case 6: go<Sets<int64, T3, void>>(p); break;
		case 7: go<Sets<int64, ByKey, void>>(p); break;
		case 8: go<Sets<Tracked, T3, void>>(p); break;
		case 9: go<Sets<String, T3, void>>(p); break;
		case 10: go<Sets<Tracked, ByKey, OwnedMalloc>>(p); break;
		case 11: go<Sets<int64, T3, OwnedBinned>>(p); break;
		case 12: go<Maps<int64, int64, T3, void>>(p); break;
		case 13: go<Maps<Tracked, Tracked, T3, void>>(p); break;
		case 14: go<Maps<String, int64, T3, void>>(p); break;
		case 15: go<Maps<int64, String, T3, void>>(p); break;
		case 16: go<Maps<Tracked, Tracked, T3, OwnedMalloc>>(p); break;
		case 17: go<Maps<int64, int64, T3, OwnedPooled>>(p); break;
		case 18: go<Maps<int64, Array<Tracked>, T3, void>>(p); break;
		case 19: go<Maps<Tracked, Callable, T3, void>>(p); break;
		case 20: go<Maps<String, Optional<Tracked>, T3, void>>(p); break;
		case 21: go<Maps<int64, List<String>, T3, void>>(p); break;
		case 22: go<Maps<int64, Wide, T3, void>>(p); break;
		case 23: go<Maps<Wide, int64, T3, OwnedMalloc>>(p); break;
		case 24: go<Maps<TwoBytes, OddSize, T3, void>>(p); break;
		case 25: go<Maps<int64, Settled, T3, void>>(p); break;
		case 26: go<Trees<OddSize, T3, void>>(p); break;
		case 27: go<Sets<TwoBytes, T3, void>>(p); break;
		case 28: go<Maps<int64, Stiff, T3, void>>(p); break;
		}
	}
	void gen(Rng & r, Plan & p)
	{
		sim::genEnvironment(r, p, false);
		const std::string q = p.property;
		static const i64 tracked[] = {2, 4, 8, 10, 13, 13, 16, 18, 19, 20, 22, 23, 28}, failing[] = {0, 1, 2, 2, 3, 4, 6, 7, 8, 8, 9, 10, 12, 13, 13, 14, 15, 16, 18, 20, 21};
		const i64 k = q == "P12" ? r.pick(tracked) : q == "P10" ? r.pick(failing) : (i64)r.below(29);
		p.cfg["kind"] = k;
		p.cfg["mode"] = family(k) == SET ? 0 : r.below(3); // sets take no allocator
		p.cfg["global"] = q == "P10" || q == "P12" || r.chance(1, 2);
		p.cfg["first"] = r.below(4); p.cfg["last"] = r.below(3);
		static const i64 spans[] = {8, 20, 60, 200, 900};
		p.cfg["span"] = r.pick(spans);
		const bool big = r.chance(1, 15);
		int n = (int)(big ? 40 + r.below(300) : r.chance(1, 5) ? r.below(100) : 2 + r.below(30));
		const bool crowded = (q == "P10" || q == "P11" || q == "P12" || q == "P14") && r.chance(1, 60);
		if (crowded) { n = 3 + (int)r.below(12); p.cfg["budget"] = 100000000; }
		int grow = 60, slotBias = 0, pat = 0; i64 next = (i64)r.below(900);
		for (int i = 0; i < n; ++i)
		{
			if (r.chance(1, big ? 30 : 9)) { static const int g[] = {10, 40, 60, 80, 95}; grow = r.pick(g); if (!big || r.chance(1, 4)) slotBias = (int)r.below(3); pat = (int)r.below(4); }
			Op o; o.a = r.chance(big ? 9 : 2, big ? 10 : 3) ? slotBias : (i64)r.below(3); o.b = (i64)(r.next() % 1000000000); o.c = (i64)(r.next() >> 40); o.d = (i64)(r.next() >> 44);
			next += pat == 1 ? 1 : pat == 2 ? 899 : 0;
			if (pat == 1 || pat == 2) o.b = o.b / 1000 * 1000 + next % 900;      // rising or falling keys
			if (pat == 3) o.c = o.d & 1 ? 0 : 1 << 20;                            // work near one end
			if (r.chance(1, big ? 30 : 8)) { o.code = CREATE + (int)r.below(6); o.b = r.below(3); }
			else if ((int)r.below(100) < grow)
			{
				static const int t[] = {T_INSERT, T_INSERT, T_INSERT, T_INSERT_N, T_UNIQUE, T_REPLACE}, s[] = {S_SET, S_SET, S_SET, S_SET_N, S_UNION}, m[] = {M_SUB, M_SUB, M_INSERT};
				o.code = family(k) == TREE ? r.pick(t) : family(k) == SET ? r.pick(s) : r.pick(m);
			}
			else if (r.chance(1, 2))
			{
				static const int t[] = {T_REMOVE, T_REMOVE_IT}, s[] = {S_REM, S_REMV}, m[] = {M_REM, M_REM_IT, M_POP};
				o.code = family(k) == TREE ? r.pick(t) : family(k) == SET ? r.pick(s) : r.pick(m);
			}
			else o.code = (int)r.below(family(k) == TREE ? T_COUNT : family(k) == SET ? S_COUNT : M_COUNT);
			if (crowded && r.chance(1, 4))
			{
				const bool more = r.chance(2, 3);
				o.code = family(k) == TREE ? more ? (int)T_MANY : (int)T_FEW : family(k) == SET ? more ? (int)S_MANY : (int)S_FEW : more ? (int)M_MANY : (int)M_FEW;
				o.a = slotBias;
			}
			if (family(k) == TREE && (o.code == T_EMPTY || o.code == T_SWEEP) && r.chance(2, 3)) o.code = T_FIND;
			if (family(k) == SET && (o.code == S_EMPTY || o.code == S_INTER || o.code == S_DIFF) && r.chance(1, 2)) o.code = S_CMP;
			p.ops.push_back(o);
		}
		if (q == "P10") genStrict(r, p, n);
		else if (q == "P12" || q == "P14") genLoose(r, p, n);
	}
	std::string show(const Op & o)
	{
		char b[220];
		if (o.code >= CREATE) snprintf(b, sizeof b, "%s slot %lld from/by %lld", commonName[(o.code - CREATE) % 7], (long long)(o.a % 3), (long long)(o.b % 3));
		else snprintf(b, sizeof b, "slot %lld: tree: %s / set: %s / map: %s (values#%lld, position#%lld, variant#%lld)", (long long)(o.a % 3), o.code < T_TOP ? treeOps[o.code] : "-", o.code < S_TOP ? setOps[o.code] : "-", o.code < M_TOP ? mapOps[o.code] : "-", (long long)o.b, (long long)o.c, (long long)o.d);
		return b;
	}
	std::vector<int> reads(const Plan & p)
	{
		switch (family(p.get("kind")))
		{
		case TREE: return {T_FIND, T_FIND, T_RANGE, T_BOUNDS};
		case SET: return {S_GET, S_GETV, S_ANY, S_ALL, S_CMP, S_RANGE};
		default: return {M_FIND, M_FINDV, M_HAS, M_RANGE};
		}
	}
	RegisterPart part("associative", {gen, run, show, reads});
	sim::Register reg1({"associative", "P10,P11,P12,P14", gen, run, 5, show});
}
