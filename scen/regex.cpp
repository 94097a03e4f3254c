// P05, P13: compiling and matching regular expressions, alone and from several tasks at once.
#include "cont.h"
#include "regex/regex.h"
using namespace cont;

namespace
{
	using Re::Regex;
	// ---- patterns and texts, both drawn from one number -------------------------------------
	struct Node { int kind; std::string s; std::vector<Node> kids; int lo = 1, hi = 1; bool star = false; }; // 0 chars, 1 sequence, 2 alternatives, 3 repeat
	const char letters[] = "aab01 _-xZ.";
	struct Maker
	{
		Rng r; int budget;
		Maker(u64 seed, int size) : r{seed}, budget{size} {}
		char letter() { return letters[r.below(sizeof letters - 1)]; }
		Node atom()
		{
			Node n; n.kind = 0;
			switch (r.below(16))
			{
			case 0: n.s = "."; break;
			case 1: n.s = "\\d"; break;
			case 2: n.s = "\\w"; break;
			case 3: n.s = "\\s"; break;
			case 4: { static const char * e[] = {"\\D", "\\W", "\\S", "\\.", "\\\\", "\\(", "\\n", "\\]"}; n.s = r.pick(e); break; }
			case 5: { static const char * e[] = {"[a-c]", "[ab0]", "[0-9_]", "[\\d\\s]", "[a-cx-z0-4]", "[-a]", "[a-]", "[]", "[\\]a]", "[A-Z]"}; n.s = r.pick(e); break; }
			case 6: { static const char * e[] = {"[^a]", "[^ab]", "[^0-9]", "[^\\w]", "[^]", "[^a-cx]", "[^\\D]", "[^^]", "[^.]"}; n.s = r.pick(e); break; }
			case 7: { static const char * e[] = {"^", "$", "\\b", "\\B", "\\b", "$"}; n.s = r.pick(e); break; }
			default: { char c = letter(); n.s = c == '.' ? "\\." : std::string(1, c); break; }
			}
			return n;
		}
		Node make(int depth, int copies = 1)
		{
			--budget;
			if (depth <= 0 || budget <= 0) return atom();
			Node n;
			switch (r.below(6))
			{
			case 0: case 1: n.kind = 1; for (u64 k = 1 + r.below(4); k-- && budget > 0; ) n.kids.push_back(make(depth - 1, copies)); break;
			case 2: n.kind = 2; for (u64 k = 2 + r.below(2); k-- && budget > 0; ) n.kids.push_back(make(depth - 1, copies)); break;
			case 3: case 4:
			{
				n.kind = 3;
				static const char * q[] = {"*", "+", "?", "{1}", "{2}", "{3}", "{1,}", "{2,}", "{0,}", "{1,3}", "{2,4}", "{0,2}", "{3}+"};
				n.s = copies < 12 ? r.pick(q) : q[r.below(4)];
				n.lo = n.s == "*" || n.s == "?" ? 0 : n.s == "+" ? 1 : n.s[1] - '0';
				n.hi = n.s == "?" ? 1 : n.s == "*" || n.s == "+" || n.s.find(",}") != std::string::npos ? n.lo + 2 : n.s.find(',') != std::string::npos ? n.s[3] - '0' : n.lo;
				n.kids.push_back(make(depth - 1, copies * (n.s[0] == '{' ? n.hi : 1)));
				break;
			}
			default: n = atom();
			}
			if (n.kind && n.kids.empty()) n = atom();
			return n;
		}
		static std::string text(const Node & n)
		{
			switch (n.kind)
			{
			case 0: return n.s;
			case 1: { std::string s; for (auto & k : n.kids) s += k.kind == 2 ? "(" + text(k) + ")" : text(k); return s; }
			case 2: { std::string s; for (size_t i = 0; i < n.kids.size(); ++i) s += (i ? "|" : "") + text(n.kids[i]); return s; }
			default: { const Node & k = n.kids[0]; return (k.kind == 0 ? text(k) : "(" + text(k) + ")") + n.s; }
			}
		}
		/** Something the pattern is about, not necessarily accepted. */
		static void sample(const Node & n, Rng & r, std::string & out, size_t most)
		{
			if (out.size() > most) return;
			switch (n.kind)
			{
			case 0:
				if (n.s == "\\d") out += (char)('0' + r.below(10));
				else if (n.s == "\\s") out += " \t\n"[r.below(3)];
				else if (n.s == "^" || n.s == "$" || n.s == "\\b" || n.s == "\\B" || n.s == "[]") ;
				else if (n.s[0] == '\\') out += n.s[1] == 'D' || n.s[1] == 'S' || n.s[1] == 'w' ? 'a' : n.s[1] == 'W' ? '-' : n.s[1];
				else if (n.s.size() > 1) out += "ab0c9x Z-"[r.below(9)];
				else if (n.s == ".") out += (char)(1 + r.below(255));
				else out += n.s;
				break;
			case 1: for (auto & k : n.kids) sample(k, r, out, most); break;
			case 2: sample(n.kids[r.below(n.kids.size())], r, out, most); break;
			default: for (u64 k = n.lo + r.below(n.hi - n.lo + 1) + (most > 100 && n.hi == n.lo + 2 && r.chance(1, 4) ? r.below(400) : 0); k--; ) sample(n.kids[0], r, out, most);
			}
		}
	};
	enum { MAXTEXT = 28, LONGTEXT = 1200, SIZES = 14, LONG_SIZES = 28 };
	/** Sizes from 14 on: a long sequence of small ones. */
	Node nodeOf(Maker & m, i64 size)
	{
		if (size < SIZES) return m.make(size % SIZES < 3 ? 1 : 4);
		Node all; all.kind = 1;
		for (i64 k = 2 + (size - SIZES) * (1 + (i64)m.r.below(8)); k--; ) { m.budget = 1 + (int)m.r.below(4); all.kids.push_back(m.r.chance(1, 2) ? m.atom() : m.make(2)); }
		return all;
	}
	/** wild: as people mistype them. */
	std::string patternOf(i64 seed, i64 size, i64 wild)
	{
		Maker m{(u64)seed, (int)(size % 14) + 1};
		Node n = nodeOf(m, size);
		std::string s = Maker::text(n);
		if (wild % 16 == 15)
		{
			// as deep as the builder goes, and deeper
			const u64 d = 118 + m.r.below(14);
			s = std::string(d, '(') + (m.r.chance(1, 2) ? "[^a]" : "b") + std::string(m.r.chance(1, 3) ? d + m.r.below(4) - 2 : d, ')') + (m.r.chance(1, 2) ? "c|d" : "");
		}
		else if (wild % 4 == 3)
		{
			static const char meta[] = "()[]{}|?*+.^$\\,-01a\x80";
			for (u64 k = 1 + m.r.below(4); k--; )
			{
				const u64 at = m.r.below(s.size() + 1); const char c = meta[m.r.below(sizeof meta - 1)];
				switch (m.r.below(4))
				{
				case 0: if (at < s.size()) s.erase(at, 1); break;
				case 1: if (at < s.size()) s[at] = c; break;
				default: s.insert(at, 1, c);
				}
			}
			for (size_t i = 0; i < s.size(); ++i) if (s[i] >= '0' && s[i] <= '9') s[i] = i && s[i - 1] >= '0' && s[i - 1] <= '9' ? 'b' : (char)('0' + (s[i] - '0') % 5);
		}
		if (s.size() > (size < SIZES ? 300 : 3000)) s.resize(size < SIZES ? 300 : 3000);
		return s;
	}
	std::string textOf(i64 pattern, i64 size, i64 seed)
	{
		Maker m{(u64)pattern, (int)(size % 14) + 1};
		Node n = nodeOf(m, size);
		Rng r{(u64)seed}; std::string t;
		const size_t most = size < SIZES ? (size_t)MAXTEXT : (size_t)LONGTEXT;
		Maker::sample(n, r, t, most - 4);
		if (r.chance(1, 2))
			for (u64 k = r.below(3); k--; )
			{
				const u64 at = r.below(t.size() + 1); const char c = r.chance(1, 12) ? (char)(1 + r.below(255)) : letters[r.below(sizeof letters - 1)];
				if (r.chance(1, 2)) { if (at < t.size()) t.erase(at, 1); } else t.insert(at, 1, c);
			}
		if (t.size() > most) t.resize(most);
		return t;
	}
	std::string plainly(const std::string & s)
	{
		std::string o;
		for (unsigned char c : s) { char b[8]; if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\x%02x", c); o += b; } else o += (char)c; }
		return o;
	}

	/** A text in memory that ends where the text ends. */
	struct Exact
	{
		char * p;
		explicit Exact(const std::string & s) { p = (char*)sim::heapAlloc(s.size() + 1, 8, HARNESS, false); for (size_t i = 0; i <= s.size(); ++i) p[i] = s.c_str()[i]; }
		~Exact() { sim::heapFree(p, HARNESS); }
		Exact(const Exact &) = delete;
	};
	Regex * compile(const std::string & s) { Exact e{s}; return makeBy<Regex>([&] { return Regex{String{e.p}}; }); }
	/** One buffer all texts of a run are put into, one after another. */
	char * sameBuffer;
	int match(const Regex * x, const std::string & text, i64 how)
	{
		if (sameBuffer)
		{
			for (size_t i = 0; i <= text.size(); ++i) sameBuffer[i] = text.c_str()[i];
			bool yes = false;
			sim::call([&] { yes = x->accept(sameBuffer); });
			return yes;
		}
		Exact e{text};
		bool yes = false;
		if (how & 1) sim::call([&] { yes = x->accept(e.p); });
		else sim::call([&] { yes = x->accept(String{e.p}); });
		return yes;
	}
	int oneShot(const std::string & pattern, const std::string & text)
	{
		Exact p{pattern}, t{text}; bool yes = false;
		sim::call([&] { yes = Re::accept(String{p.p}, String{t.p}); });
		return yes;
	}
	int alone(const std::string & pattern, const std::string & text)
	{
		Regex * x = compile(pattern);
		int v;
		try { v = match(x, text, 1); }
		catch (OutOfMemory &) { endIn(x); throw; }
		endIn(x);
		return v;
	}

	enum { COMPILE, MATCH, DESTROY, ONCE, PRINT, SHARED, STEPS, R_COUNT };
	const char * opName[] = {"compile", "match", "destroy", "compile and match", "print", "match the shared one", "match step by step, over and over"};
	using Executor = std::decay_t<decltype(std::declval<const Regex &>().getAutomaton().createExecutor((const ansichar*)nullptr))>;
	/** One executor for several texts, given up on in between and started again. */
	void bySteps(const Regex * x, const std::vector<std::string> & texts, Rng r, const std::function<void(const std::string &, int)> & verdict)
	{
		std::vector<std::unique_ptr<Exact>> mem;
		for (const std::string & t : texts) mem.emplace_back(new Exact(t));
		Held<Executor> e{makeBy<Executor>([&] { return x->getAutomaton().createExecutor(mem[0]->p); })};
		for (size_t i = 0; i < texts.size(); ++i)
		{
			if (i) sim::call([&] { e->reset(mem[i]->p); });
			for (;;)
			{
				const u64 give = r.chance(1, 2) ? 1000000 : r.below(12); // steps before it starts again
				bool yes = false, over = false; i64 read = 0;
				sim::call([&] { for (u64 n = 0; !over && n < give; ++n) over = e->step(yes); read = e->getNumRead(); });
				if (read < 0 || read > (i64)texts[i].size()) sim::fail("read-count", "%lld characters of \"%s\" are said to be read", (long long)read, plainly(texts[i]).c_str());
				if (over) { verdict(texts[i], yes); break; }
				if (r.chance(1, 4)) break; // never mind
				if (give < 1000000) { if (r.chance(1, 2)) sim::call([&] { e->reset(); }); else sim::call([&] { e->reset(mem[i]->p); }); }
			}
		}
	}
	enum { SLOTS = 2 };
	struct Compiled { Regex * x = nullptr; std::string pattern; i64 seed = 0, size = 0; };

	// ---- P13: one pattern after another ------------------------------------------------------
	struct Verdicts { std::map<std::pair<std::string, std::string>, int> known; };
	void judgeVerdict(Verdicts & v, const std::string & p, const std::string & t, int got)
	{
		auto it = v.known.emplace(std::make_pair(p, t), got).first;
		if (it->second != got) sim::fail("verdict", "/%s/ %s \"%s\" now, but %s it before", plainly(p).c_str(), got ? "accepts" : "rejects", plainly(t).c_str(), it->second ? "accepted" : "rejected");
		sim::noteState((u64)got); sim::count(got ? "regex.accepted" : "regex.rejected");
	}
	void doStep(const Op & o, Compiled * slots, const Compiled * shared, const std::function<void(const std::string &, const std::string &, int)> & verdict)
	{
		Compiled & s = slots[o.a % SLOTS];
		switch (o.code)
		{
		case COMPILE:
			if (s.x) { endIn(s.x); s.x = nullptr; }
			s.pattern = patternOf(o.b, o.c, o.d); s.seed = o.b; s.size = o.c;
			s.x = compile(s.pattern);
			break;
		case MATCH:
			if (s.x) { const std::string t = textOf(s.seed, s.size, o.b); verdict(s.pattern, t, match(s.x, t, o.c)); }
			break;
		case SHARED:
			if (shared && shared[o.a % SLOTS].x) { const Compiled & h = shared[o.a % SLOTS]; const std::string t = textOf(h.seed, h.size, o.b); verdict(h.pattern, t, match(h.x, t, o.c)); }
			break;
		case STEPS:
		{
			const Compiled & h = shared && (o.d & 16) ? shared[o.a % SLOTS] : s;
			if (!h.x) break;
			std::vector<std::string> ts; for (i64 i = 0; i <= o.c % 3; ++i) ts.push_back(textOf(h.seed, h.size, o.b + i));
			bySteps(h.x, ts, Rng{(u64)o.b}, [&](const std::string & t, int got) { verdict(h.pattern, t, got); });
			sim::count("op.steps");
			break;
		}
		case DESTROY: if (s.x) { endIn(s.x); s.x = nullptr; } break;
		case ONCE: { const std::string p = patternOf(o.b, o.c, o.d), t = textOf(o.b, o.c, o.d >> 8); verdict(p, t, oneShot(p, t)); break; }
		case PRINT: { const Compiled & h = shared && (o.d & 16) ? shared[o.a % SLOTS] : s; if (!h.x) break; u64 n = 0; sim::call([&] { n = h.x->getAutomaton().toString().getLength(); }); sim::noteState(n != 0); } break;
		}
	}
	/** Running out of memory is an outcome: nothing is compiled, or there is no verdict. */
	void step(const Op & o, Compiled * slots, const Compiled * shared, const std::function<void(const std::string &, const std::string &, int)> & verdict)
	{
		try { doStep(o, slots, shared, verdict); }
		catch (OutOfMemory &) { sim::count("op.out_of_memory"); }
	}
	void run13(const Plan & p)
	{
		judge = {false, false, true, false};
		World w(p);
		sameBuffer = p.get("samebuffer") ? (char*)sim::heapAlloc(LONGTEXT + 1, 8, HARNESS, false) : nullptr;
		{
			Verdicts v; Compiled slots[SLOTS];
			for (const Op & o : p.ops) step(o, slots, nullptr, [&](const std::string & a, const std::string & b, int got) { judgeVerdict(v, a, b, got); });
			// the same questions again, put to patterns compiled anew
			int n = 0;
			for (auto & k : v.known)
				if (n++ < 3)
					try { judgeVerdict(v, k.first.first, k.first.second, alone(k.first.first, k.first.second)); }
					catch (OutOfMemory &) { sim::count("op.out_of_memory"); }
			for (Compiled & s : slots) if (s.x) endIn(s.x);
		}
		if (sameBuffer) { sim::heapFree(sameBuffer, HARNESS); sameBuffer = nullptr; }
		w.settle();
	}
	void gen13(Rng & r, Plan & p)
	{
		sim::genEnvironment(r, p, false);
		p.cfg["global"] = r.chance(1, 2);
		const bool wild = r.chance(1, 2);
		// several texts for few patterns, all in one buffer
		const bool same = r.chance(1, 3);
		p.cfg["samebuffer"] = same;
		for (int i = 0, n = 1 + (int)r.below(same ? 14 : 8); i < n; ++i)
		{
			Op o; o.a = (i64)r.below(SLOTS);
			static const int codes[] = {COMPILE, COMPILE, MATCH, MATCH, MATCH, DESTROY, ONCE, PRINT, STEPS};
			o.code = i == 0 ? (r.chance(1, 4) ? ONCE : COMPILE) : r.pick(codes);
			if (same && i && !r.chance(1, 6)) o.code = MATCH; // (steps need the texts to stay)
			if (i == 0) o.a = 0;
			o.b = (i64)r.below(1000000); o.c = (i64)r.below(SIZES); o.d = (i64)r.below(1 << 20);
			if (r.chance(1, 40)) { o.c = SIZES + (i64)r.below(LONG_SIZES - SIZES); p.cfg["budget"] = 1000000000; }
			if (!wild || (o.d % 16 == 15 && !r.chance(1, 6))) o.d &= ~3ll;
			p.ops.push_back(o);
		}
		// the allocator under everything gives up, by throwing
		if (p.cfg["global"] && r.chance(1, 2))
		{
			static const int spans[] = {12, 60, 300, 2000, 20000};
			genFaults(r, p, spans[r.below(p.get("budget") ? 5 : 4)]);
		}
	}

	// ---- P05: several tasks ------------------------------------------------------------------
	void run05(const Plan & p)
	{
		judge = {false, false, false, false};
		World w(p);
		const int tasks = (int)p.get("tasks", 2);
		Compiled shared[SLOTS];
		for (int i = 0; i < SLOTS; ++i)
		{
			Op o; o.code = COMPILE; o.a = i; o.b = p.get("shared" + std::to_string(i)); o.c = p.get("size" + std::to_string(i));
			step(o, shared, nullptr, nullptr);
		}
		struct Answer { std::string pattern, text; int got; int task; };
		std::vector<Answer> answers[sim::MAX_TASKS];
		std::vector<std::function<void()>> bodies;
		for (int t = 1; t <= tasks; ++t)
			bodies.push_back([&, t] {
				Compiled slots[SLOTS];
				for (const Op & o : p.ops)
					if (o.task == t)
						step(o, slots, shared, [&](const std::string & a, const std::string & b, int got) { answers[t].push_back({a, b, got, t}); });
				for (Compiled & s : slots) if (s.x) endIn(s.x);
			});
		sim::runTasks(bodies);
		for (int t = 1; t <= tasks; ++t)
			for (const Answer & a : answers[t])
			{
				const int want = alone(a.pattern, a.text);
				if (want != a.got) sim::fail("verdict", "task %d: /%s/ %s \"%s\" among other tasks, alone it %s it", t, plainly(a.pattern).c_str(), a.got ? "accepted" : "rejected", plainly(a.text).c_str(), want ? "accepts" : "rejects");
				sim::noteState((u64)a.got * 8 + t); sim::count(a.got ? "regex.accepted" : "regex.rejected");
			}
		for (Compiled & s : shared) if (s.x) endIn(s.x);
		w.settle();
	}
	void gen05(Rng & r, Plan & p)
	{
		sim::genEnvironment(r, p, true);
		static const i64 ests[] = {300, 1000, 4000, 20000, 60000};
		p.cfg["sched.est"] = ests[r.below(5)];
		static const i64 dens[] = {3, 10, 50, 300, 1000, 5000};
		p.cfg["sched.den"] = dens[r.below(6)];
		p.cfg["global"] = r.chance(1, 2);
		const int tasks = 2 + (int)r.below(3); p.cfg["tasks"] = tasks;
		const int big = r.chance(1, 3) ? 14 : 5;
		for (int i = 0; i < SLOTS; ++i) { p.cfg["shared" + std::to_string(i)] = (i64)r.below(1000000); p.cfg["size" + std::to_string(i)] = (i64)r.below(big); }
		// sometimes everybody works on the same few patterns
		const i64 few = r.chance(1, 3) ? 1 + (i64)r.below(3) : 1000000;
		for (int t = 1; t <= tasks; ++t)
			for (int i = 0, n = 1 + (int)r.below(3); i < n; ++i)
			{
				Op o; o.task = t; o.a = (i64)r.below(SLOTS);
				static const int codes[] = {COMPILE, ONCE, ONCE, MATCH, MATCH, SHARED, SHARED, DESTROY, COMPILE, STEPS, PRINT};
				o.code = r.pick(codes);
				o.b = (i64)r.below(few); o.c = (i64)r.below(big); o.d = (i64)r.below(1 << 20) & ~3ll;
				if (r.chance(1, 60)) { p.cfg["cpu"] = 60; o.c = SIZES + (i64)r.below((LONG_SIZES - SIZES) / 2); p.cfg["budget"] = 1000000000; if (p.cfg["sched.den"] < 300) p.cfg["sched.den"] = 300; }
				p.ops.push_back(o);
				if (o.code == COMPILE) { Op m = o; m.code = MATCH; m.b = (i64)r.below(1000000); p.ops.push_back(m); }
			}
	}
	std::string show(const Op & o)
	{
		const std::string p = patternOf(o.b, o.c, o.d);
		std::string s = opName[o.code % R_COUNT];
		if (o.code == COMPILE || o.code == ONCE) s += " /" + plainly(p) + "/";
		if (o.code == ONCE) s += " \"" + plainly(textOf(o.b, o.c, o.d >> 8)) + "\"";
		if (o.code != ONCE) s += " (slot " + std::to_string(o.a % SLOTS) + ", text#" + std::to_string(o.b) + ")";
		return s;
	}
	sim::Register reg13({"regex", "P13", gen13, run13, 1, show});
	sim::Register reg05({"regex-concurrent", "P05", gen05, run05, 1, show});
}
