#include "sc.h"
#include <cerrno>
#include <cfenv>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <set>
#include <signal.h>
#include <sys/personality.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

static Scenario const * const all[] = {&sc_C01, &sc_C02, &sc_C03, &sc_C04, &sc_C05, &sc_C06, &sc_C07, &sc_C08, &sc_C09, &sc_C10, &sc_C11, &sc_C12, &sc_C13, &sc_C14, &sc_C15, &sc_C16, &sc_C17, &sc_C18, &sc_C19};
Scenario const * findScenario(std::string const & id) { for (auto s : all) if (id == s->id) return s; return nullptr; }

namespace rt { void finishRun(); }
int c11Child(int argc, char ** argv);

static double now() { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts); return (double)ts.tv_sec + 1e-9 * (double)ts.tv_nsec; }
__attribute__((noinline)) static void scrubStack() { volatile char b[200000]; for (size_t i = 0; i < sizeof b; ++i) b[i] = (char)0xA5; }

static rt::Report * shm;
struct Result { std::string cls, msg, err; uint64_t hash, steps; };
static Result execute(Plan const & p, Scenario const & s) {
	memset(shm, 0, sizeof *shm);
	int st = rt::inFork([&] {
		rt::rep = shm; rt::rep->hash = 1469598103934665603ull;
		if (!getenv("SIM_LOG")) { int n = open("/dev/null", O_WRONLY); if (n >= 0) { dup2(n, 2); close(n); } }
		scrubStack();
		rt::enterSim();
		// what earlier work of the process left behind: nothing, or the traces of some failure
		errno = (int)p.num("errno"); feclearexcept(FE_ALL_EXCEPT); if (p.num("errno") & 1) feraiseexcept(FE_ALL_EXCEPT);
		if (p.num("errno")) rt::fired(rt::F_DIRTY_ERRNO);
		try { s.run(p); } catch (...) { std::string n = current_exception_name(); rt::harnessError("exception escaped the scenario: %s", n.c_str()); }
		rt::finishRun();
	});
	Result r; r.hash = shm->hash; r.steps = shm->steps;
	if (WIFSIGNALED(st)) {
		int g = WTERMSIG(st); char b[64];
		if (g == SIGALRM || g == SIGXCPU || g == SIGKILL) { r.cls = "hang"; r.msg = "the run did not finish: a library call blocks or loops outside the simulator's control"; }
		else { snprintf(b, sizeof b, "crash-signal-%d", g); r.cls = b; r.msg = "the process died inside the run (signal " + std::to_string(g) + "): memory error, uncaught exception or std::terminate"; }
		if (shm->violated) { r.cls = shm->vclass; r.msg = shm->vmsg; }
	} else if (WEXITSTATUS(st) == 99) { r.err = shm->error; }
	else if (!shm->done) { r.cls = "unexpected-exit"; r.msg = "the process ended inside a library call"; }
	else if (shm->violated) { r.cls = shm->vclass; r.msg = shm->vmsg; }
	return r;
}
static uint64_t runSeed(uint64_t base, std::string const & prop, uint64_t idx) {
	uint64_t h = rt::mix64(base); for (char c : prop) h = rt::mix64(h ^ (unsigned char)c); return rt::mix64(h ^ (idx * 0x9e3779b97f4a7c15ull + 1));
}
static Plan makePlan(Scenario const & s, uint64_t base, uint64_t idx, int tier) {
	uint64_t sd = runSeed(base, s.id, idx);
	rt::Rng r(sd); Plan p = s.gen(r, tier, idx); p.prop = s.id; char b[32]; snprintf(b, sizeof b, "%llu", (unsigned long long)sd); p.cfg["seed"] = b;
	if (strcmp(s.id, "C12") && r.chance(.25)) p.set("errno", r.chance(.5) ? r.range(33, 34) : r.range(1, 40));
	return p;
}
static std::string slurp(char const * f) { std::ifstream i(f); std::stringstream o; o << i.rdbuf(); return o.str(); }

int main(int argc, char ** argv) {
	if (argc > 1 && !strcmp(argv[1], "c11child")) { rt::initProcess(); return c11Child(argc - 2, argv + 2); }
	// fixed address layout and a fixed environment where the kernel allows it
	if (!getenv("SIM_STABLE")) {
		int pers = personality(0xffffffff);
		if (pers != -1) personality((unsigned long)pers | ADDR_NO_RANDOMIZE);
		std::vector<char const *> env{"SIM_STABLE=1"}; std::string lg; if (getenv("SIM_LOG")) env.push_back("SIM_LOG=1"); env.push_back(nullptr);
		execve("/proc/self/exe", argv, (char **)env.data());
		setenv("SIM_STABLE", "1", 1);
	}
	signal(SIGPIPE, SIG_IGN);
	rt::initProcess();
	shm = (rt::Report *)rt::sharedAlloc(sizeof(rt::Report));
	rt::rep = shm;
	std::string mode = argc > 1 ? argv[1] : "";
	if (mode == "ops") { for (auto o : allOps()) printf("%s -> %s\n", opName(*o).c_str(), kindNames[o->r]); printf("static bytes %zu\n", rt::staticBytes()); return 0; }
	if (mode == "plan" && argc >= 5) { // plan PROP BASE IDX [TIER]
		auto s = findScenario(argv[2]); if (!s) return 2;
		fputs(makePlan(*s, strtoull(argv[3], 0, 0), strtoull(argv[4], 0, 0), argc > 5 ? atoi(argv[5]) : 0).text().c_str(), stdout); return 0;
	}
	if (mode == "replay" && argc >= 3) {
		Plan p = Plan::parse(slurp(argv[2])); auto s = findScenario(p.prop); if (!s) { printf("RESULT error unknown property\n"); return 2; }
		Result r = execute(p, *s);
		if (!r.err.empty()) { printf("RESULT error %s\n", r.err.c_str()); return 2; }
		printf("RESULT class=%s hash=%016llx steps=%llu msg=%s\n", r.cls.empty() ? "none" : r.cls.c_str(), (unsigned long long)r.hash, (unsigned long long)r.steps, r.msg.c_str());
		return r.cls.empty() ? 0 : 1;
	}
	if (mode == "batch" && argc >= 9) { // batch PROP BASE FROM COUNT STRIDE TIER OUT WALLCAP RERUN
		auto s = findScenario(argv[2]); if (!s) return 2;
		uint64_t base = strtoull(argv[3], 0, 0), from = strtoull(argv[4], 0, 0), count = strtoull(argv[5], 0, 0), stride = strtoull(argv[6], 0, 0);
		int tier = atoi(argv[7]); std::string out = argv[8]; double cap = argc > 9 ? atof(argv[9]) : 1e9; uint64_t rerun = argc > 10 ? strtoull(argv[10], 0, 0) : 0;
		double t0 = now();
		std::set<uint64_t> sigs; uint64_t runs = 0, steps = 0, calls = 0, switches = 0, nontriv = 0, reruns = 0; uint64_t faults[rt::F_COUNT] = {}, runsWith[rt::F_COUNT] = {};
		std::map<std::string, uint64_t> probes; std::vector<std::string> samples; int nviol = 0; std::set<std::string> classes; bool capped = false;
		FILE * f = fopen(out.c_str(), "w"); if (!f) return 2;
		uint64_t chain = 0;
		for (uint64_t i = 0; i < count; ++i) {
			if (now() - t0 > cap) { capped = true; break; }
			uint64_t idx = from + i * stride;
			Plan p = makePlan(*s, base, idx, tier);
			Result r = execute(p, *s);
			++runs;
			if (!r.err.empty()) { fprintf(f, "E %llu %s\n", (unsigned long long)idx, r.err.c_str()); break; }
			steps += shm->steps; calls += shm->calls; switches += shm->switches;
			if (shm->nontrivial) { ++nontriv; sigs.insert(shm->sig); }
			for (int k = 0; k < rt::F_COUNT; ++k) { faults[k] += shm->faults[k]; if (shm->faults[k]) ++runsWith[k]; }
			for (auto & pr : shm->probes) if (pr.name[0]) probes[pr.name] += pr.n;
			if (samples.size() < 2 && shm->nontrivial && shm->sample[0] && (i % 7 == 3)) samples.push_back("idx " + std::to_string(idx) + ": " + shm->sample);
			chain = rt::mix64(chain ^ r.hash ^ idx);
			if (rerun && idx % rerun == 0 && r.cls.empty()) {
				++reruns; Result q = execute(p, *s);
				if (q.hash != r.hash || q.steps != r.steps || q.cls != r.cls) fprintf(f, "D %llu\n", (unsigned long long)idx);
			}
			fprintf(f, "H %llu %016llx %d\n", (unsigned long long)idx, (unsigned long long)r.hash, r.cls.empty() ? 0 : 1);
			if (!r.cls.empty()) {
				// a violation: saved with its plan; the driver confirms and minimises it
				if (classes.insert(r.cls).second || nviol < 3) {
					std::string pf = out + ".v" + std::to_string(nviol); std::ofstream o(pf); o << p.text(); o.close();
					fprintf(f, "V %llu\t%s\t%016llx\t%s\t%s\n", (unsigned long long)idx, r.cls.c_str(), (unsigned long long)r.hash, pf.c_str(), r.msg.c_str());
				}
				if (++nviol >= 6) break;
			}
		}
		double dt = now() - t0;
		fprintf(f, "S runs %llu\nS steps %llu\nS calls %llu\nS switches %llu\nS nontrivial %llu\nS reruns %llu\nS capped %d\n", (unsigned long long)runs, (unsigned long long)steps, (unsigned long long)calls, (unsigned long long)switches, (unsigned long long)nontriv, (unsigned long long)reruns, capped);
		fprintf(f, "T %.3f\n", dt);
		for (int k = 0; k < rt::F_COUNT; ++k) if (faults[k]) fprintf(f, "F %llu %llu %s\n", (unsigned long long)faults[k], (unsigned long long)runsWith[k], rt::faultNames[k]);
		for (auto & kv : probes) fprintf(f, "P %llu %s\n", (unsigned long long)kv.second, kv.first.c_str());
		for (auto & sm : samples) fprintf(f, "X %s\n", esc(sm).c_str());
		for (uint32_t b : rt::blocksReached()) fprintf(f, "B %x\n", b);
		for (uint64_t v : sigs) fprintf(f, "G %016llx\n", (unsigned long long)v);
		fclose(f);
		return 0;
	}
	fprintf(stderr, "usage: sim ops | plan P BASE IDX [TIER] | replay FILE | batch ...\n");
	return 2;
}
