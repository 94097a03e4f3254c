// Seeded search over plans, minimisation, replay, measurement. Uninstrumented.
#include "internal.h"
#include <algorithm>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <sched.h>
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>

using namespace sim;

static double wall() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static const Scenario * findScenario(const std::string & n) { for (auto & s : scenarios()) if (n == s.name) return &s; return nullptr; }
static bool serves(const Scenario & s, const std::string & prop)
{
	std::stringstream ss(s.property); std::string x;
	while (std::getline(ss, x, ',')) if (x == prop) return true;
	return false;
}

// ---- plans as text ------------------------------------------------------------------------
static std::string planText(const Plan & p, bool readable)
{
	std::ostringstream o;
	const Scenario * s = findScenario(p.scenario);
	o << "scenario " << p.scenario << "\nproperty " << p.property << "\n";
	for (auto & kv : p.cfg) o << "cfg " << kv.first << " " << kv.second << "\n";
	for (auto & x : p.ops)
	{
		o << "op " << x.task << " " << x.code << " " << x.a << " " << x.b << " " << x.c << " " << x.d;
		if (readable && s && s->showIn) o << " # " << s->showIn(p, x); else if (readable && s && s->show) o << " # " << s->show(x);
		o << "\n";
	}
	for (auto & f : p.faults) o << "fault " << f.kind << " " << f.n << "\n";
	o << "explicit " << (p.explicitSchedule ? 1 : 0) << "\n";
	for (auto & x : p.pres) o << "pre " << x.task << " " << x.step << " " << x.target << "\n";
	for (auto & x : p.stales) o << "stale " << x.task << " " << x.step << " " << x.back << "\n";
	return o.str();
}
static bool parsePlan(const std::string & file, Plan & p, std::string & cls, u64 & hash)
{
	std::ifstream f(file);
	if (!f) return false;
	std::string line; bool ok = false;
	while (std::getline(f, line))
	{
		size_t c = line.find(" # "); if (c != std::string::npos) line.resize(c);
		std::istringstream i(line); std::string k; i >> k;
		if (k == "scenario") { i >> p.scenario; ok = true; }
		else if (k == "property") i >> p.property;
		else if (k == "cfg") { std::string n; i64 v; i >> n >> v; p.cfg[n] = v; }
		else if (k == "op") { Op x; i >> x.task >> x.code >> x.a >> x.b >> x.c >> x.d; p.ops.push_back(x); }
		else if (k == "fault") { Fault x; i >> x.kind >> x.n; p.faults.push_back(x); }
		else if (k == "explicit") { int e; i >> e; p.explicitSchedule = e; }
		else if (k == "pre") { Pre x; i >> x.task >> x.step >> x.target; p.pres.push_back(x); }
		else if (k == "stale") { Stale x; i >> x.task >> x.step >> x.back; p.stales.push_back(x); }
		else if (k == "class") i >> cls;
		else if (k == "hash") i >> std::hex >> hash >> std::dec;
	}
	return ok;
}

// ---- one run --------------------------------------------------------------------------------
static void execute(const Plan & p)
{
	const Scenario * s = findScenario(p.scenario);
	res->status = RunResult::RUNNING;
	if (!s) { res->status = RunResult::ERROR; snprintf(res->msg, sizeof res->msg, "unknown scenario %s", p.scenario.c_str()); return; }
	fflush(nullptr);
	pid_t pid = fork();
	if (pid < 0) { res->status = RunResult::ERROR; snprintf(res->msg, sizeof res->msg, "fork failed"); return; }
	if (pid == 0) runInThisProcess(*s, p);
	int st = 0;
	while (waitpid(pid, &st, 0) < 0) {}
	if (res->status == RunResult::RUNNING)
	{
		if (WIFSIGNALED(st) && WTERMSIG(st) != SIGKILL)
		{
			res->status = RunResult::VIOLATION; strcpy(res->cls, "crash");
			snprintf(res->msg, sizeof res->msg, "the run died of signal %d", WTERMSIG(st));
		}
		else { res->status = RunResult::ERROR; strcpy(res->cls, "sim-error"); snprintf(res->msg, sizeof res->msg, "the run ended without a verdict (wait status %x)", st); }
	}
}
static Plan withRecordedSchedule(const Plan & p)
{
	Plan q = p;
	q.explicitSchedule = true;
	q.pres.assign(res->pres, res->pres + res->nPres);
	q.stales.assign(res->stales, res->stales + res->nStales);
	return q;
}
static Plan makePlan(const std::string & prop, u64 seed, u64 index)
{
	std::vector<const Scenario*> c; int total = 0;
	for (auto & s : scenarios()) if (serves(s, prop)) { c.push_back(&s); total += s.weight; }
	u64 hsh = mix(mix(0x6b6f72696e, seed), index);
	for (char ch : prop) hsh = mix(hsh, (u64)ch);
	Rng r(hsh);
	int k = (int)r.below(total);
	const Scenario * s = c[0];
	for (auto x : c) { if (k < x->weight) { s = x; break; } k -= x->weight; }
	Plan p; p.scenario = s->name; p.property = prop;
	s->gen(r, p);
	return p;
}

// ---- minimisation ---------------------------------------------------------------------------
static int minExecs; static double minDeadline;
static bool stillFails(const Plan & p, const std::string & cls)
{
	if (minExecs <= 0 || wall() > minDeadline) return false;
	--minExecs;
	execute(p);
	return res->status == RunResult::VIOLATION && cls == res->cls;
}
template<typename T, typename Set> static void ddmin(std::vector<T> v, Set test)
{
	// test(w) is true (and keeps w) if w still fails
	size_t n = 2;
	if (!v.empty() && test(std::vector<T>{})) return;
	while (v.size() >= 2)
	{
		size_t chunk = (v.size() + n - 1) / n; bool reduced = false;
		for (size_t i = 0; i < v.size(); i += chunk)
		{
			std::vector<T> w(v.begin(), v.begin() + i);
			w.insert(w.end(), v.begin() + std::min(i + chunk, v.size()), v.end());
			if (test(w)) { v = w; n = std::max<size_t>(n - 1, 2); reduced = true; break; }
		}
		if (!reduced) { if (n >= v.size()) break; n = std::min(n * 2, v.size()); }
	}
}
static Plan minimise(Plan p, const std::string & cls, double seconds)
{
	minExecs = 6000; minDeadline = wall() + seconds;
	for (int round = 0; round < 3; ++round)
	{
		std::string before = planText(p, false);
		ddmin<Op>(p.ops, [&](const std::vector<Op> & w) { Plan q = p; q.ops = w; if (stillFails(q, cls)) { p = q; return true; } return false; });
		// the same with fresh default scheduling decisions dropped in bulk
		ddmin<Pre>(p.pres, [&](const std::vector<Pre> & w) { Plan q = p; q.pres = w; if (stillFails(q, cls)) { p = q; return true; } return false; });
		ddmin<Stale>(p.stales, [&](const std::vector<Stale> & w) { Plan q = p; q.stales = w; if (stillFails(q, cls)) { p = q; return true; } return false; });
		ddmin<Fault>(p.faults, [&](const std::vector<Fault> & w) { Plan q = p; q.faults = w; if (stillFails(q, cls)) { p = q; return true; } return false; });
		for (const char * k : {"heap.policy", "heap.fill", "heap.freefill"})
			if (p.get(k)) { Plan q = p; q.cfg[k] = 0; if (stillFails(q, cls)) p = q; }
		if (planText(p, false) == before) break;
	}
	return p;
}

// ---- measurement ------------------------------------------------------------------------------
struct Totals
{
	u64 runs = 0, steps = 0, switches = 0, rechecked = 0, faultRuns = 0, faultInstances = 0, overflow = 0;
	std::map<std::string, u64> counters, perScenario, runsWith;
	std::vector<u64> execs, scheds, states;
};
static void writeVec(FILE * f, const std::vector<u64> & v) { u64 n = v.size(); fwrite(&n, 8, 1, f); fwrite(v.data(), 8, n, f); }
static void readVec(FILE * f, std::unordered_set<u64> & s) { u64 n = 0; if (fread(&n, 8, 1, f) != 1) return; std::vector<u64> v(n); if (n && fread(v.data(), 8, n, f) != n) return; s.insert(v.begin(), v.end()); }
static void writeMap(FILE * f, const std::map<std::string, u64> & m) { fprintf(f, "%zu\n", m.size()); for (auto & kv : m) fprintf(f, "%s %llu\n", kv.first.c_str(), (unsigned long long)kv.second); }
static void readMap(FILE * f, std::map<std::string, u64> & m) { size_t n = 0; if (fscanf(f, "%zu\n", &n) != 1) return; for (size_t i = 0; i < n; ++i) { char k[128]; unsigned long long v; if (fscanf(f, "%127s %llu\n", k, &v) == 2) m[k] += v; } }

static std::string jstr(const std::string & s)
{
	std::string o = "\"";
	for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += c; }
	return o + "\"";
}

static RunResult * newResult()
{
	void * p = mmap(nullptr, sizeof(RunResult), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (p == MAP_FAILED) { perror("mmap"); exit(3); }
	return (RunResult*)p;
}

static void printResult(const Plan & p)
{
	printf("status %s\nclass %s\n", res->status == RunResult::VIOLATION ? "violation" : res->status == RunResult::OK ? "ok" : "error", res->cls);
	printf("message %s\nhash %llx\nstate %llx\nsteps %llu\nswitches %llu\n", res->msg, (unsigned long long)res->execHash, (unsigned long long)res->stateHash, (unsigned long long)res->steps, (unsigned long long)res->switches);
	if (res->status == RunResult::VIOLATION) for (u32 i = 0; i < res->npcs; ++i) printf("pc 0x%llx\n", (unsigned long long)res->pcs[i]);
	for (u32 i = 0; i < res->nCounters; ++i) printf("counter %s %llu\n", res->counters[i].name, (unsigned long long)res->counters[i].n);
	(void)p;
}

int main(int argc, char ** argv)
{
	std::map<std::string, std::string> a;
	for (int i = 1; i < argc; ++i) { std::string k = argv[i]; if (k.compare(0, 2, "--") == 0) { if (i + 1 < argc && strncmp(argv[i + 1], "--", 2)) { a[k.substr(2)] = argv[i + 1]; ++i; } else a[k.substr(2)] = "1"; } }
	thorough = a.count("thorough");
	initRegions();
	res = newResult();

	if (a.count("replay"))
	{
		Plan p; std::string cls; u64 hash = 0;
		if (!parsePlan(a["replay"], p, cls, hash)) { fprintf(stderr, "cannot read %s\n", a["replay"].c_str()); return 3; }
		execute(p);
		printResult(p);
		return res->status == RunResult::VIOLATION ? 1 : res->status == RunResult::OK ? 0 : 3;
	}
	std::string prop = a["property"]; u64 seed = strtoull(a["seed"].c_str(), nullptr, 10);
	bool any = false; for (auto & s : scenarios()) any |= serves(s, prop);
	if (!any) { fprintf(stderr, "no scenario for property %s\n", prop.c_str()); return 3; }
	if (a.count("one"))
	{
		Plan p = makePlan(prop, seed, strtoull(a["one"].c_str(), nullptr, 10));
		printf("%s", planText(p, true).c_str());
		execute(p); printResult(p);
		if (a.count("min") && res->status == RunResult::VIOLATION) { std::string cls = res->cls; Plan q = minimise(withRecordedSchedule(p), cls, 30); printf("---- minimised\n%s", planText(q, true).c_str()); execute(q); printResult(q); }
		return res->status;
	}
	u64 runs = strtoull(a.count("runs") ? a["runs"].c_str() : "1000", nullptr, 10), from = strtoull(a["from"].c_str(), nullptr, 10);
	int workers = a.count("workers") ? atoi(a["workers"].c_str()) : 1;
	double seconds = a.count("seconds") ? atof(a["seconds"].c_str()) : 1e9;
	int recheckEvery = a.count("recheck") ? atoi(a["recheck"].c_str()) : 64;
	std::string out = a.count("out") ? a["out"] : ".";
	mkdir(out.c_str(), 0777);
	double t0 = wall();

	struct Common { u64 firstBad; u64 badWorker; u64 errors; char error[1024]; u64 stop; };
	Common * com = (Common*)mmap(nullptr, sizeof(Common), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	com->firstBad = ~0ull;
	cpu_set_t avail; sched_getaffinity(0, sizeof avail, &avail);
	std::vector<int> cpus; for (int i = 0; i < CPU_SETSIZE; ++i) if (CPU_ISSET(i, &avail)) cpus.push_back(i);
	std::vector<pid_t> pids;
	bool keepGoing = a.count("all");
	fflush(nullptr);
	for (int w = 0; w < workers; ++w)
	{
		pid_t pid = fork();
		if (pid) { pids.push_back(pid); continue; }
		if (!cpus.empty()) { cpu_set_t cs; CPU_ZERO(&cs); CPU_SET(cpus[w % cpus.size()], &cs); sched_setaffinity(0, sizeof cs, &cs); }
		res = newResult();
		Totals T; std::unordered_set<u64> seenE, seenS, seenT;
		for (u64 i = from + w; i < from + runs; i += workers)
		{
			if (com->stop || wall() - t0 > seconds) break;
			if (!keepGoing && i > __atomic_load_n(&com->firstBad, __ATOMIC_SEQ_CST)) break;
			Plan p = makePlan(prop, seed, i);
			execute(p);
			++T.runs; ++T.perScenario[p.scenario]; T.steps += res->steps; T.switches += res->switches; T.overflow += res->overflow;
			bool faulted = false;
			for (u32 k = 0; k < res->nCounters; ++k) { T.counters[res->counters[k].name] += res->counters[k].n; ++T.runsWith[res->counters[k].name]; if (!strncmp(res->counters[k].name, "fault.", 6)) faulted = true; }
			T.faultRuns += faulted;
			if (seenE.size() < 3000000) { seenE.insert(res->execHash); seenT.insert(res->stateHash); if (res->switches) seenS.insert(mix(res->schedHash, res->stateHash)); }
			if (res->status == RunResult::ERROR)
			{
				__atomic_fetch_add(&com->errors, 1, __ATOMIC_SEQ_CST); snprintf(com->error, sizeof com->error, "run %llu: %.900s", (unsigned long long)i, res->msg);
				if (com->errors > 20) com->stop = 1;
				continue;
			}
			if (res->status == RunResult::VIOLATION)
			{
				if (keepGoing) { printf("run %llu %s: %s: %s\n", (unsigned long long)i, p.scenario.c_str(), res->cls, res->msg); fflush(stdout); continue; }
				u64 cur = __atomic_load_n(&com->firstBad, __ATOMIC_SEQ_CST);
				while (i < cur && !__atomic_compare_exchange_n(&com->firstBad, &cur, i, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) {}
				break;
			}
			if (recheckEvery && (i % recheckEvery) == 0)
			{
				// the same plan with the recorded schedule must be the very same execution
				u64 eh = res->execHash, sh = res->stateHash, st = res->steps; bool ov = res->overflow;
				Plan q = withRecordedSchedule(p);
				execute(q); ++T.rechecked;
				if (!ov && (res->execHash != eh || res->stateHash != sh || res->steps != st || res->status != RunResult::OK))
				{
					__atomic_fetch_add(&com->errors, 1, __ATOMIC_SEQ_CST);
					snprintf(com->error, sizeof com->error, "run %llu (%s) is not repeatable", (unsigned long long)i, p.scenario.c_str());
				}
			}
		}
		T.execs.assign(seenE.begin(), seenE.end()); T.scheds.assign(seenS.begin(), seenS.end()); T.states.assign(seenT.begin(), seenT.end());
		FILE * f = fopen((out + "/worker" + std::to_string(w) + ".dat").c_str(), "wb");
		if (!f) _exit(3);
		fprintf(f, "%llu %llu %llu %llu %llu %llu\n", (unsigned long long)T.runs, (unsigned long long)T.steps, (unsigned long long)T.switches, (unsigned long long)T.rechecked, (unsigned long long)T.faultRuns, (unsigned long long)T.overflow);
		writeMap(f, T.counters); writeMap(f, T.perScenario); writeMap(f, T.runsWith);
		fputc('\n', f);
		writeVec(f, T.execs); writeVec(f, T.scheds); writeVec(f, T.states);
		fclose(f);
		_exit(0);
	}
	for (pid_t p : pids) { int st; while (waitpid(p, &st, 0) < 0) {} if (!WIFEXITED(st) || WEXITSTATUS(st)) { ++com->errors; snprintf(com->error, sizeof com->error, "a worker died (wait status %x)", st); } }
	Totals T; std::unordered_set<u64> E, S, St;
	for (int w = 0; w < workers; ++w)
	{
		std::string fn = out + "/worker" + std::to_string(w) + ".dat";
		FILE * f = fopen(fn.c_str(), "rb"); if (!f) continue;
		unsigned long long x[6];
		if (fscanf(f, "%llu %llu %llu %llu %llu %llu\n", x, x + 1, x + 2, x + 3, x + 4, x + 5) == 6)
		{
			T.runs += x[0]; T.steps += x[1]; T.switches += x[2]; T.rechecked += x[3]; T.faultRuns += x[4]; T.overflow += x[5];
			readMap(f, T.counters); readMap(f, T.perScenario); readMap(f, T.runsWith);
			// readMap's trailing \n in the format eats white space; binary data follows one marker
			fseek(f, 0, SEEK_SET);
			// find the marker: an empty line after the text part
			std::string text; int c, prev = 0; while ((c = fgetc(f)) != EOF) { if (c == '\n' && prev == '\n') break; prev = c; }
			readVec(f, E); readVec(f, S); readVec(f, St);
		}
		fclose(f); unlink(fn.c_str());
	}
	double searchWall = wall() - t0;
	bool bad = com->firstBad != ~0ull;
	std::string traceFile, cls, msg; std::vector<u64> pcs; bool repeatable = true;
	if (bad)
	{
		Plan p = makePlan(prop, seed, com->firstBad);
		execute(p);
		u64 h1 = res->execHash; cls = res->cls; msg = res->msg;
		repeatable = res->status == RunResult::VIOLATION;
		Plan q = withRecordedSchedule(p);
		bool ov = res->overflow;
		execute(p); repeatable = repeatable && res->status == RunResult::VIOLATION && cls == res->cls && res->execHash == h1;
		Plan best = p;
		if (repeatable && !ov)
		{
			execute(q);
			if (res->status == RunResult::VIOLATION && cls == res->cls) best = minimise(q, cls, a.count("minseconds") ? atof(a["minseconds"].c_str()) : 30);
		}
		execute(best);
		if (res->status != RunResult::VIOLATION || cls != res->cls) repeatable = false;
		msg = res->msg; pcs.assign(res->pcs, res->pcs + res->npcs);
		char hx[32]; snprintf(hx, sizeof hx, "%llx", (unsigned long long)res->execHash);
		traceFile = out + "/" + prop + "-seed" + std::to_string(seed) + "-run" + std::to_string(com->firstBad) + ".trace";
		std::ofstream o(traceFile);
		o << "korin-sim-replay 1\nclass " << cls << "\nhash " << hx << "\nseed " << seed << " run " << com->firstBad << "\n" << planText(best, true);
		std::istringstream mm(msg); std::string l; while (std::getline(mm, l)) o << "message " << l << "\n";
	}
	std::ofstream j(out + "/summary.json");
	j << "{\n\"property\": " << jstr(prop) << ", \"seed\": " << seed << ",\n\"runs\": " << T.runs << ", \"steps\": " << T.steps << ", \"switches\": " << T.switches << ", \"rechecked\": " << T.rechecked << ", \"fault_runs\": " << T.faultRuns << ", \"overflow\": " << T.overflow << ",\n";
	j << "\"distinct_executions\": " << E.size() << ", \"distinct_interleavings\": " << S.size() << ", \"distinct_results\": " << St.size() << ",\n";
	auto dump = [&](const char * n, std::map<std::string, u64> & m) { j << "\"" << n << "\": {"; bool first = true; for (auto & kv : m) { j << (first ? "" : ", ") << jstr(kv.first) << ": " << kv.second; first = false; } j << "},\n"; };
	dump("counters", T.counters); dump("runs_with", T.runsWith); dump("scenarios", T.perScenario);
	j << "\"search_wall\": " << searchWall << ", \"wall\": " << wall() - t0 << ", \"errors\": " << com->errors << ", \"error\": " << jstr(com->error) << ",\n";
	j << "\"samples\": [";
	for (u64 i = 0; i < 3; ++i) { Plan p = makePlan(prop, seed, from + i); execute(p); j << (i ? ", " : "") << jstr(planText(withRecordedSchedule(p), true).substr(0, 1500)); }
	j << "],\n\"violation\": ";
	if (bad)
	{
		j << "{\"run\": " << com->firstBad << ", \"class\": " << jstr(cls) << ", \"message\": " << jstr(msg) << ", \"trace\": " << jstr(traceFile) << ", \"repeatable\": " << (repeatable ? "true" : "false") << ", \"pcs\": [";
		for (size_t i = 0; i < pcs.size(); ++i) j << (i ? ", " : "") << "\"" << std::hex << "0x" << pcs[i] << std::dec << "\"";
		j << "]}";
	}
	else j << "null";
	j << "\n}\n";
	j.close();
	if (com->errors) { fprintf(stderr, "sim: %llu error(s): %s\n", (unsigned long long)com->errors, com->error); return 3; }
	return bad ? 1 : 0;
}
