// Deterministic simulation runtime: scheduler, step clock, race detector,
// allocator with fault injection, interposed sources of nondeterminism.
#pragma once
#include <array>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <string>
#include <vector>

namespace rt {

// ---------------------------------------------------------------- randomness
inline uint64_t mix64(uint64_t z) {
	z += 0x9e3779b97f4a7c15ull;
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}
struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed = 0) : s(mix64(seed ^ 0x5157ull)) {}
	uint64_t next() { s += 0x9e3779b97f4a7c15ull; uint64_t z = s;
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
		z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
	uint64_t below(uint64_t n) { return n ? next() % n : 0; }
	int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo + 1)); }
	double unit() { return (double)(next() >> 11) * 0x1p-53; }
	bool chance(double p) { return unit() < p; }
	template <class C> auto const & pick(C const & c) { return c[below(c.size())]; }
};

// ---------------------------------------------------------------- report (shared memory)
enum Fault {
	F_EOF_TRUNC, F_EOF_TRANSIENT, F_READ_ERR_ONCE, F_READ_ERR_DEAD, F_SHORT_READ, F_UNBUFFERED, F_PRESET_STATE,
	F_WRITE_SHORT, F_WRITE_ERR, F_WRITE_THROW, F_FLUSH_ERR, F_DEVICE_RECOVER,
	F_ALLOC_FAIL, F_PREEMPT, F_LOCK_BLOCK, F_LOCALE_FLIP, F_LOCALE_IMBUE, F_CRASH, F_TORN_TAIL, F_LOST_TAIL,
	F_CLOCK_JUMP, F_DIRTY_ERRNO, F_GARBAGE, F_POISON, F_FILL_PATTERN, F_EXC_MASK, F_SPURIOUS_WAKE, F_PROC_EXIT, F_PREMAIN, F_FENV,
	F_BITFLIP, F_STALL, F_INTERRUPT, F_REENTER, F_THREAD_END, F_COUNT
};
extern char const * const faultNames[F_COUNT];

enum { MAXPROBE = 48 };
struct Report {
	uint32_t done;          // child reached the end of the run
	uint32_t violated;
	char vclass[64];
	char vmsg[1500];
	uint64_t hash;          // event hash
	uint64_t steps;         // simulated time: library call-outs + device requests
	uint64_t sig;           // signature for distinctness
	uint32_t nontrivial;
	uint32_t calls;         // library calls made
	uint32_t switches;
	uint32_t faults[F_COUNT];
	struct { char name[40]; uint32_t n; } probes[MAXPROBE];
	char sample[3000];
	char error[300];        // harness error
};
extern Report * rep;            // current run's report (never null)
void violation(char const * cls, char const * fmt, ...) __attribute__((format(printf, 2, 3)));
inline bool violated() { return rep->violated; }
void harnessError(char const * fmt, ...) __attribute__((format(printf, 1, 2), noreturn));
void fired(Fault f, uint32_t n = 1);
void probe(char const * name, uint32_t n = 1);
void log(char const * fmt, ...) __attribute__((format(printf, 1, 2)));   // mixed into hash, echoed with SIM_LOG
void mixHash(void const * p, size_t n);
void sampleAdd(char const * fmt, ...) __attribute__((format(printf, 1, 2)));
void sig(uint64_t v);
inline void sig(std::string const & s) { for (char c : s) sig((uint64_t)(unsigned char)c + 0x100); }

// ---------------------------------------------------------------- library calls
struct Action { uint64_t event; std::function<void()> fn; };    // inline action at event k of the call

struct AllocPlan {
	std::vector<uint32_t> at;   // indices (from 0) of in-library allocations that fail
	int64_t from = -1;          // every allocation from this index fails
	bool active() const { return from >= 0 || !at.empty(); }
};

// Begins/ends a library call on the calling thread (counts steps, applies faults).
[[noreturn]] void endThread(bool cancel);         // the calling thread (one of runThreads) ends here; the stack is unwound
struct LibCall {
	LibCall();
	~LibCall();
	LibCall(LibCall const &) = delete;
	int prev;
};
// Harness code running inside a library call (device callbacks, facets).
struct Harness {
	Harness();
	~Harness();
	Harness(Harness const &) = delete;
	int prev;
};
void setAllocPlan(AllocPlan const & plan);      // for the calling thread; resets its allocation index
void clearAllocPlan();
uint32_t allocCount();                          // in-library allocations since setAllocPlan/resetAllocCount
void resetAllocCount();
uint32_t allocFailed();                         // injected failures since setAllocPlan
int64_t liveBytes();                            // their sizes together
int64_t liveBlocks();                           // operator-new blocks + lib.so malloc blocks allocated inside library calls, still live
void setFill(int freshByte, int freedByte);
void setStackFill(int byte);                    // what a library call finds in stack memory it has not written
void setStepBudget(uint64_t perCall);
uint64_t callEvents();                          // events of the current/last call
void setActions(std::vector<Action> actions);   // for the next call(s) on this thread, sorted by event
// Runs a nested library call from inside another one (signal handler, device callback): the outer call's
// bookkeeping, errno and fault plans are set aside and taken up again afterwards.
void nested(std::function<void()> const & fn);
void setDevHook(std::function<void()> fn);      // runs at every device request of the calls made next (not nested ones)
void devRequest();                              // one device request (simulated time)
void setDevBudget(int64_t n);                   // device requests left before "nonterminating"; <0 unlimited
extern uint64_t simSteps;

// clock
void setClock(uint64_t ns);
extern bool clockRead, envRead; extern int envMode; enum { ENV_MODES = 11 };
extern uint32_t randomReads, prandCalls, fileOpens, localeSets;  // in-library: any randomness, process-wide generators, files opened, process-wide locale replaced

// ---------------------------------------------------------------- threads
struct Preempt { int thread; uint64_t event; int target; };     // thread's cumulative event -> switch to target
struct SchedResult { bool deadlock = false; std::vector<uint64_t> events; };
// Runs bodies as simulated threads 1..n to completion.  first: index (0-based) of the thread that starts.
void setTouch(uint32_t permille, uint64_t seed);     // of that many touches of shared storage, atomics and locks, so many lead to another thread
SchedResult runThreads(std::vector<std::function<void()>> const & bodies, std::vector<Preempt> const & pre, int first, bool detectRaces);
// for simulated channels between threads (outside library code)
bool waitOn(void const * what);                 // parks the calling simulated thread until wakeOn(what); all parked = deadlock
void wakeOn(void const * what);
void yieldNow();
void addSharedRegion(void const * p, size_t n); // operand pool watched by the race detector (call before runThreads)

// Dry run: records the events at which the library's static storage (or watched region) changed.
void recordBegin();
std::vector<uint64_t> recordEnd(uint64_t * total);

// lib.so static storage
uint64_t staticHash();
size_t staticBytes();

void enterSim();                // call once in the run's process before library use
void initProcess();             // early process set-up
bool inLibText(void const * p);

// Runs fn in a forked process; returns what it put into buf (n bytes, shared).  status: waitpid status.
uint64_t libState();
std::vector<uint32_t> blocksReached();     // offsets of the library code blocks executed so far
void finishRun();
int inFork(std::function<void()> const & fn, int wallSeconds = 25);
void * sharedAlloc(size_t n);   // MAP_SHARED memory that survives into forks

} // rt
