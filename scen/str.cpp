// P10, P11, P14: strings against a plain sequence of characters.
#include "slots.h"
using namespace cont;

namespace
{
	using Model = std::vector<i64>;
	struct StringX : public String
	{
		using String::String;
		StringX() = default; StringX(const StringX &) = default; StringX & operator=(const StringX &) = default;
		StringX(StringX && s) : String{static_cast<String&&>(s)} {}
		StringX & operator=(StringX && s) { static_cast<String&>(*this) = static_cast<String&&>(s); return *this; }
		StringX(const String & s) : String{s} {}
		void empty() { static_cast<String&>(*this) = ""; }
	};
	const char * ops[] = {"append character", "append C string", "append string", "append itself", "append its own tail", "append number", "print number", "print array", "append array", "concatenate", "format", "format long", "substring", "splice", "find text", "find character", "find all", "replace all", "change case", "compare", "write character", "assign C string", "filled", "from buffer", "append many"};
	enum { C_CHAR, C_CSTR, C_STR, C_SELF, C_TAIL, C_NUM, P_NUM, P_ARR, C_ARR, CONCAT, FORMAT, FORMAT_LONG, SUBSTR, SPLICE, FIND, FIND_CH, FIND_ALL, REPL_ALL, CASE, CMP, WRITE, ASSIGN, FILL, FROM_BUF, COUNT, MANY = COUNT, ALL };

	/** A text from a seed: a small alphabet, so that patterns repeat. */
	std::string word(i64 s, u64 maxLen)
	{
		static const char alpha[] = "aabbabAZz09 ~\x80";
		u64 x = (u64)s * 0x9E3779B97F4A7C15ull + 77; x ^= x >> 29;
		u64 n = x % 7 == 0 ? 0 : (x >> 8) % (maxLen + 1);
		u64 k = (x >> 40) % 3 == 0 ? 3 : 14;
		std::string t;
		for (u64 i = 0; i < n; ++i) { x = x * 6364136223846793005ull + 1442695040888963407ull; t += alpha[(x >> 33) % k]; }
		return t;
	}
	/** A size near a power of two from 2^lo to 2^hi. */
	u64 around(i64 s, int lo, int hi) { const u64 x = (u64)s; return (1ull << (lo + x % (hi - lo + 1))) + x / 16 % 6 - 3; }
	std::string str(const Model & m) { return std::string(m.begin(), m.end()); }
	Model chars(const std::string & s) { return Model(s.begin(), s.end()); }
	std::string lower(std::string s) { for (char & c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
	std::string upper(std::string s) { for (char & c : s) if (c >= 'a' && c <= 'z') c -= 32; return s; }
	int sign(int x) { return (x > 0) - (x < 0); }
	int signOf(const std::string & a, const std::string & b) // plain char comparison, as the system has it
	{
		for (u64 i = 0; ; ++i) { char x = i < a.size() ? a[i] : 0, y = i < b.size() ? b[i] : 0; if (x != y) return x < y ? -1 : 1; if (!x) return 0; }
	}

	struct Strings : Slots<Strings, StringX, void>
	{
		using C = StringX; using BaseC = void; using S = Slots<Strings, StringX, void>; using S::S;
		static const char * opName(int c) { return ops[c]; }
		void read(const C & c, i64 & size, bool &)
		{
			size = (i64)c.getLength();
			const char * p = *c;
			for (i64 i = 0; i < size && i < SEEN; ++i) seen.add(i & 1 ? c[i] : p[i]);
			if (judge.content && size >= 0 && size < SEEN && p[size] != 0) sim::fail("wrong-content", "a string of %lld characters does not end there", (long long)size);
		}
		/** What a string that just came out of an operation holds. */
		static std::string take(const String & s)
		{
			u64 n = s.getLength(); std::string t;
			for (u64 i = 0; i < n && i < SEEN; ++i) { char c = (*s)[i]; sim::HarnessScope h; t += c; }
			bool ends = (*s)[n] == 0;
			if (!ends && judge.content) sim::fail("wrong-content", "a string of %llu characters does not end there", (unsigned long long)n);
			return t;
		}
		void own(Slot & x, const Op & o)
		{
			C & c = *x.c; auto & m = x.m;
			String & base = c; const String & cc = c;
			Slot & y = this->s[(o.a + o.d / 16) % 3]; // maybe itself
			const std::string t = word(o.b, 20), u = word(o.b / 1000, 4), now = str(m);
			const u64 n = m.size(), pos = n ? (u64)o.c % (n + 1) : 0, len = n ? (u64)(o.c / 5000) % (n - pos + 1) : 0;
			const char ch = t.empty() ? 'b' : t[0];
			std::string got, want; i64 idx = -2;
			if (n + y.m.size() > 1500 && (o.code == C_SELF || o.code == C_TAIL || o.code == C_STR || o.code == CONCAT)) return;
			if (n > SEEN - 8000) { this->kill(x); return; }
			const bool compound = judge.atomicity;
			switch (o.code)
			{
			case C_CHAR: if (attempt([&] { base += ch; })) m.push_back(ch); break;
			case C_CSTR:
			{
				std::string z = t;
				if (o.d % 8 == 0) { const u64 to = around(o.c / 7, 3, 9); if (to > n) z.append(to - n, t.empty() ? 'b' : t[0]); } // grows to a size buffers have
				if (attempt([&] { base += z.c_str(); })) for (char k : z) m.push_back(k);
				break;
			}
			case C_STR:
				if (!y.c) break;
				{ Model add = y.m; if (attempt([&] { const String & other = *y.c; base += other; })) m.insert(m.end(), add.begin(), add.end()); }
				break;
			case C_SELF: { Model add = m; if (attempt([&] { base += cc; })) m.insert(m.end(), add.begin(), add.end()); break; }
			case C_TAIL: { Model add(m.begin() + pos, m.end()); if (attempt([&] { base += *cc + pos; })) m.insert(m.end(), add.begin(), add.end()); break; }
			case C_NUM: case P_NUM:
			{
				char b[400]; i64 v = (i64)(o.b * 7919) * (o.d & 1 ? -1 : 1) * (o.d & 2 ? 3000000007ll : 1); double f = (double)v / 1024; const bool add = o.code == C_NUM;
				switch (o.d % 6)
				{
				case 0: snprintf(b, sizeof b, "%d", (int)v); break;
				case 1: snprintf(b, sizeof b, "%lld", (long long)v); break;
				case 2: snprintf(b, sizeof b, "%u", (unsigned)v); break;
				case 3: snprintf(b, sizeof b, "%llu", (unsigned long long)v); break;
				case 4: snprintf(b, sizeof b, "%f", f); break;
				case 5: snprintf(b, sizeof b, "%f", (float)f); break;
				}
				if (attempt([&] {
					switch (o.d % 6)
					{
					case 0: if (add) base += (int32)v; else base <<= (int32)v; break;
					case 1: if (add) base += (int64)v; else base <<= (int64)v; break;
					case 2: if (add) base += (uint32)v; else base <<= (uint32)v; break;
					case 3: if (add) base += (uint64)v; else base <<= (uint64)v; break;
					case 4: if (add) base += (float64)f; else base <<= (float64)f; break;
					case 5: if (add) base += (float32)f; else base <<= (float32)f; break;
					}
				})) { if (!add) m.clear(); for (char * q = b; *q; ++q) m.push_back(*q); }
				break;
			}
			case P_ARR: case C_ARR:
			{
				if (compound) break;
				u64 k = o.d % 5; want = k ? "[" : "[]";
				for (u64 i = 0; i < k; ++i) want += std::to_string((int)(o.b % 100 + i)) + (i + 1 < k ? ", " : "]");
				if (attempt([&] { Array<int32> a; for (u64 i = 0; i < k; ++i) a.add((int32)(o.b % 100 + i)); if (o.code == C_ARR) base += a; else base <<= a; }))
				{ if (o.code == P_ARR) m.clear(); for (char q : want) m.push_back(q); }
				break;
			}
			case CONCAT:
				if (!y.c) break;
				if (attempt([&] {
					switch (o.d % 4)
					{
					case 0: got = take(cc + t.c_str()); break;
					case 1: got = take(cc + (const String&)*y.c); break;
					case 2: got = take(cc + ch + t.c_str()); break;
					case 3: got = take(cc + (int32)-12 + ch); break;
					}
				}))
				{
					want = now;
					switch (o.d % 4) { case 0: want += t; break; case 1: want += str(y.m); break; case 2: want += ch; want += t; break; case 3: want += "-12"; want += ch; break; }
					WANT(got == want, "a concatenation gives \"%s\", expected \"%s\"", got.c_str(), want.c_str());
				}
				break;
			case FORMAT: case FORMAT_LONG:
			{
				// around the sizes buffers have
				const std::string tail = "|" + std::to_string((int)(o.b % 1000)) + "%";
				const u64 size = o.code == FORMAT && o.d & 1 ? t.size() + tail.size() : around(o.c / 7, o.code == FORMAT ? 3 : 7, o.code == FORMAT ? 7 : 12);
				std::string body = t.substr(0, size - std::min<u64>(size, tail.size()));
				body.append(size > body.size() + tail.size() ? size - body.size() - tail.size() : 0, 'q');
				want = body + tail;
				if (attempt([&] { got = take(String::format("%s|%d%%", body.c_str(), (int)(o.b % 1000))); }))
					WANT(got == want, "format gives %zu characters \"%s\", expected %zu", got.size(), got.substr(0, 60).c_str(), want.size());
				break;
			}
			case SUBSTR:
				if (attempt([&] { got = take(cc.substr(len, pos)); })) { want = now.substr(pos, len); WANT(got == want, "substr(%llu, %llu) of \"%s\" gives \"%s\"", (unsigned long long)len, (unsigned long long)pos, now.c_str(), got.c_str()); }
				break;
			case SPLICE:
				if (attempt([&] { if (o.d & 1) base.splice(pos, len, t.c_str()); else { const String r(t.c_str()); base.splice(pos, len, r); } }))
				{ std::string z = now; z.replace(pos, len, t); m = chars(z); }
				break;
			case FIND: case FIND_CH:
			{
				const std::string pat = o.d & 1 ? now.substr(pos, std::min<u64>(len, 5)) : u;
				const u64 start = o.d & 2 ? 0 : (u64)(o.b % (n + 4)); // may lie past the end
				size_t w;
				if (o.code == FIND_CH) { sim::call([&] { idx = cc.findIndex(ch, start); }); w = now.find(ch, start); }
				else
				{
					if (!attempt([&] { if (o.d & 4) idx = cc.findIndex(pat.c_str(), start); else { String p(pat.c_str()); idx = cc.findIndex(p, start); } })) break;
					w = now.find(pat, start);
				}
				WANT(idx == (w == std::string::npos ? -1 : (i64)w), "findIndex(\"%s\", %llu) in \"%s\" gives %lld, expected %lld", o.code == FIND_CH ? std::string(1, ch).c_str() : pat.c_str(), (unsigned long long)start, now.c_str(), (long long)idx, w == std::string::npos ? -1ll : (long long)w);
				break;
			}
			case FIND_ALL:
			{
				if (compound) break;
				const std::string pat = o.d & 1 && n ? now.substr(pos < n ? pos : 0, 1 + std::min<u64>(len, 3)) : u.empty() ? "a" : u;
				const bool single = o.d & 2;
				std::vector<i64> have, exp;
				if (attempt([&] { Array<sizet> a = single ? cc.findAll(pat[0]) : cc.findAll(pat.c_str()); for (u64 i = 0; i < a.getCount(); ++i) { i64 v = (i64)a[i]; sim::HarnessScope h; have.push_back(v); } }))
				{
					const std::string p = single ? pat.substr(0, 1) : pat;
					for (size_t i = now.find(p); i != std::string::npos; i = now.find(p, i + 1)) exp.push_back((i64)i);
					WANT(have == exp, "findAll(\"%s\") in \"%s\" gives %s, expected %s", p.c_str(), now.c_str(), text(have).c_str(), text(exp).c_str());
				}
				break;
			}
			case REPL_ALL:
			{
				if (compound || n > 1500) break;
				const std::string pat = o.d & 1 && n ? now.substr(pos < n ? pos : 0, 1 + std::min<u64>(len, 3)) : u.empty() ? "ab" : u, r = o.d & 2 ? t.substr(0, 6) : word(o.b / 7, 3);
				if (attempt([&] { const String p(pat.c_str()), q(r.c_str()); base.replaceAll(p, q); }))
				{
					std::string z = now;
					for (size_t i = z.find(pat); i != std::string::npos; i = z.find(pat, i + r.size())) z.replace(i, pat.size(), r);
					m = chars(z);
				}
				break;
			}
			case CASE:
				if (attempt([&] { got = take(o.d & 1 ? cc.toLower() : cc.toUpper()); })) { want = o.d & 1 ? lower(now) : upper(now); WANT(got == want, "%s of \"%s\" gives \"%s\"", o.d & 1 ? "toLower" : "toUpper", now.c_str(), got.c_str()); }
				break;
			case CMP:
			{
				std::string other = y.c && (o.d & 1) ? str(y.m) : o.d & 2 ? now : t;
				if (o.d & 4 && !other.empty()) { char & q = other[pos % other.size()]; q = o.d & 8 ? (char)(q ^ 32) : 'm'; if (!q) q = 'x'; }
				int a = 0, b = 0, i1 = 0, i2 = 0; bool lt, gt, le, ge, eq, ne, eq2, ne2;
				if (!attempt([&] {
					const String z(other.c_str()); const char * q = other.c_str();
					a = cc.cmp(z); b = cc.cmp(q); i1 = cc.icmp(z); i2 = cc.icmp(q);
					lt = cc < z; gt = cc > z; le = cc <= q; ge = cc >= q; eq = cc == z; ne = cc != z; eq2 = cc == q; ne2 = cc != q;
				})) break;
				const int w = signOf(now, other); const bool iw = lower(now) == lower(other);
				WANT(sign(a) == w && sign(b) == w && lt == (w < 0) && gt == (w > 0) && le == (w <= 0) && ge == (w >= 0) && eq == !w && ne == !!w && eq2 == !w && ne2 == !!w, "comparing \"%s\" with \"%s\" gives %d %d, < %d > %d <= %d >= %d == %d != %d, the order is %d", now.c_str(), other.c_str(), a, b, lt, gt, le, ge, eq, ne, w);
				int io = 0; for (u64 i = 0; !io && i <= std::min(now.size(), other.size()); ++i) { const std::string x = i < now.size() ? now.substr(i, 1) : "", z = i < other.size() ? other.substr(i, 1) : ""; if (lower(x) != lower(z)) io = signOf(x, z); }
				WANT((i1 == 0) == iw && (i2 == 0) == iw && sign(i1) == io && sign(i2) == io, "comparing \"%s\" with \"%s\" ignoring case gives %d %d", now.c_str(), other.c_str(), i1, i2);
				break;
			}
			case WRITE:
				if (!n) break;
				sim::call([&] { if (o.d & 1) base[pos % n] = ch; else (*base)[pos % n] = ch; });
				m[pos % n] = ch;
				break;
			case MANY:
			{
				u64 done = 0; const bool huge = this->plan.get("huge") && o.d % 3 == 0 && n < 8000; const u64 k = huge ? hugely(o.c) : many[o.c % 6] * (o.d % 4 == 3 ? 5 : 1);
				if ((o.d & 1) || huge) { const std::string big(k, ch); if (attempt([&] { base += big.c_str(); })) done = k; }
				else attempt([&] { for (; done < k; ++done) base += ch; });
				m.insert(m.end(), done, (i64)ch);
				sim::count("op.many");
				break;
			}
			case ASSIGN:
				if (attempt([&] { base = t.c_str(); })) m = chars(t);
				break;
			case FILL: case FROM_BUF:
				this->kill(x);
				try
				{
					if (o.code == FILL) { const u64 k = o.d & 2 ? o.b % 40 : around(o.c / 7, 2, 11); x.c = makeIn<C>((sizet)k, ch); m.assign(k, ch); }
					else if (o.d & 1) { x.c = makeIn<C>(t.c_str()); m = chars(t); }
					else if (o.d & 2) { const Name nm{t.c_str(), t.size() / 2}; x.c = makeBy<C>([&] { return String{nm}; }); m = chars(t.substr(0, t.size() / 2)); }
					else { x.c = makeIn<C>(t.c_str(), (sizet)(t.size() / 2)); m = chars(t.substr(0, t.size() / 2)); }
				}
				catch (OutOfMemory &) { sim::count("op.out_of_memory"); }
				break;
			}
		}
	};
	void run(const Plan & p) { judgeFor(p); go<Strings>(p); }
	void gen(Rng & r, Plan & p)
	{
		sim::genEnvironment(r, p, false);
		const std::string q = p.property;
		p.cfg["global"] = q == "P10" || r.chance(2, 3);
		p.cfg["first"] = 0; p.cfg["last"] = r.below(3);
		int n = (int)(r.chance(1, 20) ? r.below(200) : r.chance(1, 5) ? r.below(60) : 2 + r.below(20));
		const bool large = (q == "P10" || q == "P11" || q == "P14") && r.chance(1, 60);
		if (large) { n = 3 + (int)r.below(12); p.cfg["budget"] = 100000000; if (r.chance(1, 4)) { p.cfg["huge"] = 1; p.cfg["budget"] = 1000000000; } }
		int slotBias = 0, grow = 40;
		for (int i = 0; i < n; ++i)
		{
			if (r.chance(1, 8)) { slotBias = (int)r.below(3); static const int g[] = {10, 30, 60}; grow = r.pick(g); }
			Op o; o.a = r.chance(2, 3) ? slotBias : (i64)r.below(3); o.b = (i64)(r.next() % 1000000000); o.c = (i64)(r.next() >> 40); o.d = (i64)(r.next() >> 44);
			if (r.chance(1, 9)) { o.code = CREATE + (int)r.below(6); o.b = r.below(3); }
			else if ((int)r.below(100) < grow) { static const int g[] = {C_CHAR, C_CSTR, C_CSTR, C_STR, C_NUM, SPLICE}; o.code = r.pick(g); }
			else o.code = (int)r.below(COUNT);
			if ((o.code == FORMAT_LONG || o.code == FILL || o.code == FROM_BUF || o.code == P_NUM || o.code == P_ARR) && r.chance(2, 3)) o.code = SPLICE;
			if (large && r.chance(1, 4)) { o.code = MANY; o.a = slotBias; }
			p.ops.push_back(o);
		}
		if (q == "P10") genFaults(r, p, n * 2 + 4);
		else if (q == "P14") genLoose(r, p, n);
	}
	std::string show(const Op & o)
	{
		char b[200];
		if (o.code >= CREATE) snprintf(b, sizeof b, "%s slot %lld from/by %lld", commonName[(o.code - CREATE) % 7], (long long)(o.a % 3), (long long)(o.b % 3));
		else snprintf(b, sizeof b, "slot %lld: %s (text#%lld, position#%lld, variant#%lld)", (long long)(o.a % 3), ops[o.code % ALL], (long long)o.b, (long long)o.c, (long long)o.d);
		return b;
	}
	std::vector<int> reads(const Plan &) { return {CONCAT, SUBSTR, FIND, FIND_CH, FIND_ALL, CASE, CMP}; }
	RegisterPart part("string", {gen, run, show, reads});
	sim::Register reg1({"string", "P10,P11,P14", gen, run, 3, show});
}
