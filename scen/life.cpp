// P19: the whole life of a program: its files and the library's are initialised in any order,
// main() runs among other threads, and static objects are destroyed while those still work.
#include "slots.h"
#include "life.h"
using namespace cont;

typedef void (*Init)(int, char **, char **);
extern "C" Init __start_korin_init[], __stop_korin_init[];

namespace
{
	void (* const uses[])(int) = {unitUse0, unitUse1, unitUse2};
	void (* const threads[])(int) = {unitThread0, unitThread1, unitThread2};
	const char * const partNames[] = {"sequence", "associative", "string", "wrapper", "blocks", "misc"};
	Part & part(i64 k) { return parts()[partNames[k % 6]]; }
	const char * const keys[] = {"kind", "mode", "first", "last", "span"};
	std::string name(char who, int t, const char * what) { return std::string(1, who) + std::to_string(t) + "." + what; }
	enum { UNIT_OPS = 1, WORKER_OPS = 20 }; // Op::task: unit and phase, or worker

	const Plan * plan;
	std::vector<Plan> * programs;
	std::function<void(int)> * opened3;
	bool made[life::UNITS];
	std::map<int, bool> * verdicts;

	void program(int u, int phase)
	{
		Plan & q = (*programs)[u];
		const i64 k = plan->get(name('u', u, "part"));
		if (k >= 4) { if (plan->get(name('u', u, "when")) == phase) part(k).run(q); return; }
		if (phase == life::INIT)
		{
			opened[sim::taskId()] = &opened3[u];
			part(k).run(q);
			opened[sim::taskId()] = nullptr;
		}
		if (opened3[u]) opened3[u](phase);
	}
	void use(int u, int phase) { const int n = (int)plan->get(name('u', u, phase == life::INIT ? "init" : phase == life::MAIN ? "main" : "exit")); sim::call([&] { uses[u](n); }); }
	void run(const Plan & p)
	{
		judgeFor(p);
		World w(p);
		World::outer = true;
		plan = &p; verdicts = new std::map<int, bool>;
		programs = new std::vector<Plan>; opened3 = new std::function<void(int)>[life::UNITS];
		for (int u = 0; u < life::UNITS; ++u)
		{
			Plan q; q.property = "P19";
			for (const char * k : keys) if (p.cfg.count(name('u', u, k))) q.cfg[k] = p.get(name('u', u, k));
			for (const Op & o : p.ops) if (o.task >= UNIT_OPS + 3 * u && o.task < UNIT_OPS + 3 * u + 3) { q.ops.push_back(o); q.ops.back().task = o.task - UNIT_OPS - 3 * u; }
			programs->push_back(q);
		}
		const int tasks = (int)p.get("workers");
		std::vector<Plan> work(tasks);
		for (int t = 0; t < tasks; ++t)
		{
			work[t].property = "P19";
			for (const char * k : keys) if (p.cfg.count(name('w', t, k))) work[t].cfg[k] = p.get(name('w', t, k));
			for (const Op & o : p.ops) if (o.task == WORKER_OPS + t) work[t].ops.push_back(o);
		}
		// before main(): every file of program and library, in any order
		std::vector<Init> order(__start_korin_init, __stop_korin_init);
		Rng r{(u64)p.get("order")};
		for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[r.below(i)]);
		for (Init f : order) { sim::count("life.files_initialised"); sim::call([&] { f(0, nullptr, nullptr); }); }
		for (int u = 0; u < life::UNITS; ++u) SIM_CHECK(made[u], "lost", "file %d of the program was not initialised", u);

		std::vector<std::function<void()>> bodies;
		bodies.push_back([&] {
			for (int u = 0; u < life::UNITS; ++u)
			{
				if (p.get(name('u', u, "thread"))) sim::call([&] { threads[u](1); });
				program(u, life::MAIN); use(u, life::MAIN);
			}
			sim::exitProgram();
			for (int u = 0; u < life::UNITS; ++u) SIM_CHECK(!made[u], "lost", "the static objects of file %d were not destroyed", u);
			sim::endRun(); // whatever others are doing
		});
		for (int t = 0; t < tasks; ++t)
			bodies.push_back([&, t] {
				for (int u = 0; u < life::UNITS; ++u) if (p.get(name('w', t, "thread")) >> u & 1) sim::call([&] { threads[u](2); });
				part(p.get(name('w', t, "part"))).run(work[t]);
			});
		sim::runTasks(bodies);
	}
	void gen(Rng & r, Plan & p)
	{
		sim::genEnvironment(r, p, true);
		static const i64 ests[] = {300, 1000, 4000, 20000, 60000}, dens[] = {5, 20, 100, 500, 3000};
		p.cfg["sched.est"] = r.pick(ests); p.cfg["sched.den"] = r.pick(dens);
		p.cfg["ask"] = r.chance(1, 3);
		p.cfg["order"] = (i64)(r.next() >> 1);
		const auto one = [&](char who, int t, int most, int firstTask, int phases) {
			const i64 k = (i64)r.below(6);
			Plan q; q.property = "P19";
			part(k).gen(r, q);
			q.cfg["mode"] = r.chance(2, 3) ? 0 : q.cfg["mode"]; // the default allocator, mostly
			p.cfg[name(who, t, "part")] = k;
			for (const char * c : keys) if (q.cfg.count(c)) p.cfg[name(who, t, c)] = q.cfg[c];
			if (k == 5) most = std::min(most, 2);
			for (int i = 0; i < most && i < (int)q.ops.size(); ++i) { q.ops[i].task = firstTask + (phases > 1 ? (int)r.below(phases) : 0); p.ops.push_back(q.ops[i]); }
		};
		for (int u = 0; u < life::UNITS; ++u)
		{
			p.cfg[name('u', u, "when")] = r.below(3); p.cfg[name('u', u, "thread")] = r.below(2);
			for (const char * w : {"init", "main", "exit"}) p.cfg[name('u', u, w)] = r.below(4);
			one('u', u, 1 + (int)r.below(9), UNIT_OPS + 3 * u, 3);
		}
		const int workers = (int)r.below(3); p.cfg["workers"] = workers;
		for (int t = 0; t < workers; ++t) { p.cfg[name('w', t, "thread")] = r.below(8); one('w', t, 4 + (int)r.below(16), WORKER_OPS + t, 1); }
	}
	std::string show(const Plan & p, const Op & o)
	{
		static const char * const when[] = {"initialisation: ", "main: ", "exit: "};
		if (o.task >= WORKER_OPS) return "another thread: " + part(p.get(name('w', o.task - WORKER_OPS, "part"))).show(o);
		const int u = (o.task - UNIT_OPS) / 3;
		return "file " + std::to_string(u) + ", " + when[(o.task - UNIT_OPS) % 3] + part(p.get(name('u', u, "part"))).show(o);
	}
	sim::Register reg19({"life-of-a-program", "P19", gen, run, 1, nullptr, show});
}
namespace life
{
	bool asks() { return plan->get("ask"); }
	void entered(int u) { made[u] = true; program(u, INIT); use(u, INIT); }
	void leaving(int u) { use(u, EXIT); program(u, EXIT); made[u] = false; }
	void verdict(int question, bool answer)
	{
		sim::noteState(question * 2 + answer);
		auto it = verdicts->emplace(question, answer).first;
		if (it->second != answer) sim::fail("verdict-changed", "the same pattern and text are %s now, and were %s at another time of the program's life", answer ? "accepted" : "refused", it->second ? "accepted" : "refused");
	}
	void want(bool ok, int unit, const char * what) { if (!ok) sim::fail("wrong-content", "%s of file %d is not what it should be", what, unit); }
}
