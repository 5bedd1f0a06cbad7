#include <cxxabi.h>
#include <climits>
#include "rt.h"
#include <algorithm>
#include <atomic>
#include <malloc.h>
#include <cerrno>
#include <cstdarg>
#include <cstdlib>
#include <new>
#include <ctime>
#include <locale>
#include <dlfcn.h>
#include <fcntl.h>
#include <link.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace rt {

char const * const faultNames[F_COUNT] = {
	"input truncated (EOF for good)", "transient EOF", "read error once (device throws)", "read error for good (device throws)", "short reads", "unbuffered delivery", "stream state preset",
	"short write", "write error", "write throws", "flush error", "device recovers",
	"allocation failure", "preemption", "blocked on lock", "global locale replaced mid-call", "stream locale imbued", "crash and restart", "torn tail", "lost unsynced tail",
	"clock jump", "dirty errno", "garbage bytes", "operand overwritten by null", "fresh/freed memory pattern", "stream exception mask", "spurious wakeup", "process exit", "pre-main call", "floating-point mode changed",
	"bit flip", "stalled device", "call interrupted by another call", "call re-entered from its device", "thread ended in the middle of a call"
};

static Report dummyRep;
Report * rep = &dummyRep;
static bool echo = false; static int echoFd = 2;
uint64_t simSteps = 0;
bool clockRead = false, envRead = false; int envMode = 0;
uint32_t randomReads = 0, prandCalls = 0, fileOpens = 0, localeSets = 0;

enum { MAXT = 6 };
enum State { RUNNABLE, BLOCKED, DONE };
struct Th {
	int id = 0;
	int lib = 0;
	bool noAction = false;
	uint64_t ev = 0, callStart = 0, nextStop = ~0ull, budgetEnd = ~0ull, sliceEnd = ~0ull;
	State state = RUNNABLE;
	void const * blockedOn = nullptr;
	bool timedWait = false, timedOut = false;
	std::atomic<int> go{0};
	uint32_t vc[MAXT] = {};
	AllocPlan plan; bool planOn = false;
	uint32_t allocIdx = 0, allocFails = 0;
	std::vector<Action> actions; size_t actionPos = 0;
	std::vector<Preempt> pre; size_t prePos = 0;
	std::function<void()> body;
	pthread_t pt{};
};
static Th mainTh;
static __thread Th * self __attribute__((tls_model("initial-exec"))) = nullptr;
static Th * ths[MAXT];
static int nths = 0;           // including main (index 0)
static bool schedOn = false;
static bool detect = false;
static uint64_t stepBudget = 3000000;
static uint64_t sliceLen = 100000;
static uint64_t lastCallEvents = 0;
static int64_t devBudget = -1;
static uint64_t devReqs = 0;
static uint64_t clockNs = 1700000000ull * 1000000000ull;
static Rng simRandom(42);

// ------------------------------------------------------------ report helpers
static void hmix(uint64_t v) { rep->hash = (rep->hash ^ v) * 0x100000001b3ull; rep->hash ^= rep->hash >> 29; }
void mixHash(void const * p, size_t n) { auto c = (unsigned char const *)p; for (size_t i = 0; i < n; ++i) hmix(c[i] + 1); }
void log(char const * fmt, ...) {
	char b[600]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	n = n < 0 ? 0 : std::min<int>(n, sizeof b - 1);
	mixHash(b, (size_t)n);
	if (echo) { b[n] = '\n'; (void)!syscall(SYS_write, echoFd, b, (size_t)n + 1); }
}
void violation(char const * cls, char const * fmt, ...) {
	if (rep->violated) return;
	rep->violated = 1;
	snprintf(rep->vclass, sizeof rep->vclass, "%s", cls);
	va_list ap; va_start(ap, fmt); vsnprintf(rep->vmsg, sizeof rep->vmsg, fmt, ap); va_end(ap);
	for (char * c = rep->vmsg; *c; ++c) if (*c == '\n') *c = '|';
	mixHash(cls, strlen(cls));
	if (echo) { dprintf(echoFd, "VIOLATED %s: %s\n", rep->vclass, rep->vmsg); }
}
void harnessError(char const * fmt, ...) {
	va_list ap; va_start(ap, fmt); vsnprintf(rep->error, sizeof rep->error, fmt, ap); va_end(ap);
	if (echo) dprintf(echoFd, "HARNESS ERROR %s\n", rep->error);
	_exit(99);
}
void fired(Fault f, uint32_t n) { rep->faults[f] += n; }
void probe(char const * name, uint32_t n) {
	for (auto & p : rep->probes) {
		if (!p.name[0]) { snprintf(p.name, sizeof p.name, "%s", name); p.n += n; return; }
		if (!strncmp(p.name, name, sizeof p.name - 1)) { p.n += n; return; }
	}
}
void sampleAdd(char const * fmt, ...) {
	size_t l = strlen(rep->sample); if (l + 2 >= sizeof rep->sample) return;
	va_list ap; va_start(ap, fmt); vsnprintf(rep->sample + l, sizeof rep->sample - l, fmt, ap); va_end(ap);
}
void sig(uint64_t v) { rep->sig = mix64(rep->sig ^ (v + 0x1234567)); }

static uint64_t totalSteps() {
	uint64_t s = devReqs + simSteps + mainTh.ev;
	for (int i = 1; i < nths; ++i) s += ths[i]->ev;
	return s;
}
static void finishNow(int code = 0) { rep->steps = totalSteps(); rep->done = 1; _exit(code); }

// ------------------------------------------------------------ regions & race detector
struct Cell { uint32_t wClk; uint8_t wTid, wMask; uint16_t pad; uint32_t rClk[MAXT]; uint8_t rMask[MAXT]; uint16_t pad2; };
struct Region { uintptr_t lo = 0, hi = 0; Cell * cells = nullptr; char const * name = ""; };
static Region regs[10]; static int nregs = 0;
static Region staticReg;
static uintptr_t libLo = 0, libHi = 0, libTextLo = 0, libTextHi = 0;

static void * bigMap(size_t n) {
	void * p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (p == MAP_FAILED) { perror("mmap"); abort(); }
	return p;
}

// ------------------------------------------------------------ arena allocator
static constexpr size_t ARENA = 128ull << 20;
static char * arena = nullptr; static size_t arenaTop = 0;
static unsigned char * arenaState = nullptr;    // per 16 bytes: 0 free/never, 1 allocated
struct Head { uint32_t size; uint32_t magic; uint64_t flags; };
struct FreeNode { FreeNode * next; };
static FreeNode * freeList[80];
static int64_t live = 0, liveB = 0;
static int fillFresh = 0xCB, fillFreed = 0xDD;
static Region arenaReg;

static int sizeClass(size_t n, size_t & cap) {
	if (n <= 1024) { size_t c = (n + 15) / 16; if (!c) c = 1; cap = c * 16; return (int)c; }
	int c = 65; size_t s = 2048; while (s < n) { s <<= 1; ++c; } cap = s; return c;
}
static void arenaInit() {
	if (arena) return;
	void * want = (void *)0x210000000000ull;
	void * p = mmap(want, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
	if (p == MAP_FAILED) p = bigMap(ARENA);
	arenaState = (unsigned char *)bigMap(ARENA / 16);
	arena = (char *)p;
}
static inline void tick(Th * t);
static void setCells(Region & r, uintptr_t lo, uintptr_t hi) {
	if (!r.cells) return;
	size_t a = (lo - r.lo) >> 3, b = (hi - r.lo + 7) >> 3;
	memset(r.cells + a, 0, (b - a) * sizeof(Cell));
}
static std::atomic_flag arenaBusy = ATOMIC_FLAG_INIT;   // threads outside the scheduler (a run that lets real threads exit) stay memory-safe
struct ArenaLock { ArenaLock() { while (arenaBusy.test_and_set(std::memory_order_acquire)) syscall(SYS_sched_yield); } ~ArenaLock() { arenaBusy.clear(std::memory_order_release); } };
static void * arenaAlloc(size_t n, bool fromLib) {
	ArenaLock lock;
	arenaInit();
	size_t cap; int c = sizeClass(n, cap);
	if (c >= 80 || n > ARENA / 2) return nullptr;
	char * p;
	if (freeList[c]) { p = (char *)freeList[c]; freeList[c] = freeList[c]->next; }
	else {
		size_t tot = cap + sizeof(Head) + 16;
		if (arenaTop + tot > ARENA) return nullptr;
		p = arena + arenaTop + sizeof(Head); arenaTop += tot;
	}
	Head * h = (Head *)(p - sizeof(Head));
	h->size = (uint32_t)n; h->magic = 0xA110C8ED; h->flags = fromLib ? 1 : 0;
	memset(p, fillFresh, cap);
	uint64_t canary = 0x51C0FFEE51C0FFEEull; memcpy(p + n, &canary, 8);
	memset(arenaState + (p - arena) / 16, 1, cap / 16);
	if (fromLib) { ++live; liveB += (int64_t)n; }
	if (detect) setCells(arenaReg, (uintptr_t)p, (uintptr_t)p + cap);
	return p;
}
static void arenaFree(void * v) {
	if (!v) return;
	ArenaLock lock;
	char * p = (char *)v;
	if (!arena || p < arena || p >= arena + ARENA) { violation("bad-free", "operator delete on a pointer not from operator new"); return; }
	Head * h = (Head *)(p - sizeof(Head));
	if (h->magic != 0xA110C8ED) { violation("bad-free", "operator delete twice or on an interior pointer"); return; }
	uint64_t canary; memcpy(&canary, p + h->size, 8);
	if (canary != 0x51C0FFEE51C0FFEEull) violation("heap-overflow", "bytes past the end of a %u-byte block overwritten", h->size);
	size_t cap; int c = sizeClass(h->size, cap);
	h->magic = 0xF4EEF4EE;
	if (h->flags & 1) { --live; liveB -= h->size; }
	memset(arenaState + (p - arena) / 16, 0, cap / 16);
	memset(p, fillFreed, cap);
	if (detect) setCells(arenaReg, (uintptr_t)p, (uintptr_t)p + cap);
	FreeNode * f = (FreeNode *)p; f->next = freeList[c]; freeList[c] = f;
}
static bool shouldFail(Th * t) {
	if (!t || t->lib <= 0) return false;
	uint32_t i = t->allocIdx++;
	if (!t->planOn) return false;
	bool f = t->plan.from >= 0 && i >= (uint64_t)t->plan.from;
	if (!f) for (uint32_t k : t->plan.at) if (k == i) { f = true; break; }
	if (f) { ++t->allocFails; fired(F_ALLOC_FAIL); log("alloc %u fails", i); }
	return f;
}
void * simNew(size_t n, size_t align, bool nothrow) {
	Th * t = self; bool in = t && t->lib > 0;
	if (in) { t->noAction = true; tick(t); t->noAction = false; }
	void * p = nullptr;
	if (!shouldFail(t)) {
		if (align > 16) { // keep it simple: arena blocks are 16-aligned; over-align by hand is not needed by this library
			p = nullptr; 
			char * q = (char *)arenaAlloc(n + align, in);
			if (q) { p = q; if ((uintptr_t)q % align) p = nullptr; }
			if (!p) { if (q) arenaFree(q); }
		} else p = arenaAlloc(n, in);
	}
	if (!p && !nothrow) throw std::bad_alloc();
	return p;
}
void simDelete(void * p) { Th * t = self; if (t && t->lib > 0) { t->noAction = true; tick(t); t->noAction = false; } arenaFree(p); }

// ------------------------------------------------------------ scheduler
static long futex(std::atomic<int> * a, int op, int v) { return syscall(SYS_futex, (int *)a, op, v, nullptr, nullptr, 0); }
static void waitGo(Th * t) {
	while (!t->go.load(std::memory_order_acquire)) futex(&t->go, FUTEX_WAIT_PRIVATE, 0);
	t->go.store(0, std::memory_order_relaxed);
}
static void release(Th * t) { t->go.store(1, std::memory_order_release); futex(&t->go, FUTEX_WAKE_PRIVATE, 1); }
static void recompute(Th * t) {
	uint64_t s = t->budgetEnd;
	if (t->actionPos < t->actions.size()) s = std::min(s, t->callStart + t->actions[t->actionPos].event);
	if (schedOn && t->id > 0) {
		if (t->prePos < t->pre.size()) s = std::min(s, t->pre[t->prePos].event);
		s = std::min(s, t->sliceEnd);
	}
	t->nextStop = s;
}
static void scanStatic(Th * t);
static void syncStatic();
static Th * nextRunnable(Th * from) {
	for (int k = 1; k < nths; ++k) {
		int i = 1 + (from->id - 1 + k) % (nths - 1); if (from->id == 0) i = k;
		if (ths[i]->state == RUNNABLE) return ths[i];
	}
	if (from->id > 0 && from->state == RUNNABLE) return from;
	for (int i = 1; i < nths; ++i) if (ths[i]->state == BLOCKED && ths[i]->timedWait) { ths[i]->state = RUNNABLE; ths[i]->timedOut = true; return ths[i]; }
	return nullptr;
}
static void switchTo(Th * to) {
	Th * me = self;
	if (to == me) return;
	++rep->switches;
	if (detect) scanStatic(me);
	log("switch %d@%llu>%d", me->id, (unsigned long long)me->ev, to->id);
	to->sliceEnd = to->ev + sliceLen; recompute(to);
	release(to);
	waitGo(me);
	me->sliceEnd = me->ev + sliceLen; recompute(me);
}
static void blockOn(void const * addr, bool timed = false) {
	Th * me = self;
	me->state = BLOCKED; me->blockedOn = addr; me->timedWait = timed; me->timedOut = false;
	fired(F_LOCK_BLOCK);
	Th * to = nextRunnable(me);
	if (!to) { violation("deadlock", "every thread is blocked (thread %d waits for a lock or initialisation that is never released)", me->id); finishNow(); }
	if (to == me) { me->blockedOn = nullptr; return; }
	switchTo(to);
	me->blockedOn = nullptr;
}
static void wakeAll(void const * addr) {
	for (int i = 1; i < nths; ++i) if (ths[i]->state == BLOCKED && ths[i]->blockedOn == addr) ths[i]->state = RUNNABLE;
}
static bool scheduled() { return schedOn && self && self->id > 0; }

static void yieldPoint() {
	if (!scheduled()) return;
	Th * to = nextRunnable(self);
	if (to && to != self) switchTo(to);
}

static bool recording = false;
static void stop(Th * t) __attribute__((noinline));
static void stop(Th * t) {
	int const lib = t->lib; t->lib = 0;      // what the simulator does here is no step of the library
	for (;;) {
		if (t->ev >= t->budgetEnd) {
			violation("nonterminating", "a library call did not return within %llu steps", (unsigned long long)stepBudget);
			finishNow();
		}
		if (!t->noAction && t->actionPos < t->actions.size() && t->ev >= t->callStart + t->actions[t->actionPos].event) {
			Action a = t->actions[t->actionPos++];
			log("action@%llu", (unsigned long long)a.event);
			a.fn();
			continue;
		}
		if (schedOn && t->id > 0) {
			if (t->prePos < t->pre.size() && t->ev >= t->pre[t->prePos].event) {
				int target = t->pre[t->prePos++].target;
				Th * to = (target >= 1 && target < nths && ths[target]->state == RUNNABLE) ? ths[target] : nextRunnable(t);
				if (to && to != t) { fired(F_PREEMPT); switchTo(to); }
				continue;
			}
			if (t->ev >= t->sliceEnd) {
				t->sliceEnd = t->ev + sliceLen;
				Th * to = nextRunnable(t);
				if (to && to != t) switchTo(to);
				continue;
			}
		}
		break;
	}
	t->lib = lib; recompute(t);
}
static std::vector<uint64_t> recDirty; static uint64_t recHash = 0;
static void recordSample(Th * t) {
	uint64_t h = staticHash();
	if (h != recHash) { recHash = h; recDirty.push_back(t->ev); }
}
static inline void tick(Th * t) {
	++t->ev;
	if (__builtin_expect(t->ev >= t->nextStop, 0)) stop(t);
}

// switches at random where the library touches what all threads share: its static storage, atomics, locks
static uint32_t touchPermille = 0; static Rng touchRng;
void setTouch(uint32_t permille, uint64_t seed) { touchPermille = permille; touchRng = Rng(seed); }
static void touchSwitch(Th * t) __attribute__((noinline));
static void touchSwitch(Th * t) {
	if (!schedOn || t->id <= 0 || t->noAction || touchRng.below(1000) >= touchPermille) return;
	Th * can[MAXT]; int n = 0; for (int i = 1; i < nths; ++i) if (ths[i] != t && ths[i]->state == RUNNABLE) can[n++] = ths[i];
	if (!n) return;
	int const lib = t->lib; t->lib = 0; fired(F_PREEMPT); switchTo(can[touchRng.below((uint64_t)n)]); t->lib = lib; recompute(t);
}
static inline void touched(Th * t) { if (__builtin_expect(touchPermille != 0, 0)) touchSwitch(t); }
static inline Region * regionOf(uintptr_t a) {
	if (a >= arenaReg.lo && a < arenaReg.hi) return &arenaReg;
	if (a >= staticReg.lo && a < staticReg.hi) return &staticReg;
	for (int i = 0; i < nregs; ++i) if (a >= regs[i].lo && a < regs[i].hi) return &regs[i];
	return nullptr;
}
static void describe(uintptr_t a, Region * r, char * b, size_t n) {
	Dl_info di;
	if (r == &staticReg && dladdr((void *)a, &di) && di.dli_sname && (uintptr_t)di.dli_saddr >= staticReg.lo) snprintf(b, n, "static storage %s+%zu", di.dli_sname, (size_t)(a - (uintptr_t)di.dli_saddr));
	else if (r == &arenaReg) snprintf(b, n, "heap memory");
	else snprintf(b, n, "%s", r->name);
}
static void raceReport(uintptr_t a, Region * r, int t1, int t2, char const * what) {
	char b[300]; describe(a, r, b, sizeof b);
	violation("race", "unsynchronised %s of %s by threads %d and %d", what, b, t2, t1);
}
static void checkRange(Th * t, uintptr_t a, size_t n, bool w) {
	Region * r = regionOf(a);
	if (!r || !r->cells) return;
	uintptr_t end = std::min(a + n, r->hi);
	int me = t->id;
	for (uintptr_t x = a & ~7ull; x < end; x += 8) {
		unsigned lo = x < a ? (unsigned)(a - x) : 0, hi = end - x >= 8 ? 8 : (unsigned)(end - x);
		uint8_t mask = (uint8_t)(((1u << hi) - 1) & ~((1u << lo) - 1));
		Cell & c = r->cells[(x - r->lo) >> 3];
		if (c.wMask & mask && c.wTid != me && c.wClk > t->vc[c.wTid]) raceReport(x, r, me, c.wTid, w ? "writes" : "write and read");
		if (w) {
			for (int i = 0; i < nths; ++i) if (i != me && (c.rMask[i] & mask) && c.rClk[i] > t->vc[i]) raceReport(x, r, me, i, "read and write");
			if (c.wTid == me && c.wClk == t->vc[me]) c.wMask |= mask; else { c.wTid = (uint8_t)me; c.wClk = t->vc[me]; c.wMask = mask; }
		} else {
			if (c.rClk[me] == t->vc[me]) c.rMask[me] |= mask; else { c.rClk[me] = t->vc[me]; c.rMask[me] = mask; }
		}
	}
}
static inline void acc(void const * p, size_t n, bool w) {
	Th * t = self;
	if (!t || t->lib <= 0) return;
	uintptr_t a = (uintptr_t)p;
	if (__builtin_expect(arena && a >= (uintptr_t)arena && a < (uintptr_t)arena + ARENA, 0)) {
		if (arenaState[(a - (uintptr_t)arena) / 16] == 0) {
			violation("use-after-free", "library code %s heap memory that is not allocated", w ? "writes" : "reads");
		}
	}
	if (detect) checkRange(t, a, n, w);
	tick(t);
	if (a >= staticReg.lo && a < staticReg.hi) touched(t);
	if (recording && w && a >= staticReg.lo && a < staticReg.hi) recDirty.push_back(t->ev + 1);
}
static inline void fn() {
	Th * t = self;
	if (!t || t->lib <= 0) return;
	if (recording) recordSample(t);
	tick(t);
}

// Static storage is also written by code without call-outs (snprintf into a static buffer, members of a
// static std::string ...).  What changed since the last scan was written by the thread that ran since: a scan
// happens at every switch and before every synchronisation, so the thread's clock is still that of the write.
static unsigned char * shadow = nullptr, * ignored = nullptr;
static void ignoreBytes(void const * p, size_t n) {    // locks, guards and atomics change without being a race
	uintptr_t a = (uintptr_t)p; if (a < staticReg.lo || a >= staticReg.hi || !ignored) return;
	memset(ignored + (a - staticReg.lo), 1, std::min<size_t>(n, staticReg.hi - a));
}
static void syncStatic() {
	size_t n = staticReg.hi - staticReg.lo;
	if (!shadow) { shadow = (unsigned char *)bigMap(n); ignored = (unsigned char *)bigMap(n); }
	memcpy(shadow, (void *)staticReg.lo, n);
}
static void scanStatic(Th * t) {
	if (!shadow || t->id == 0) return;
	size_t n = staticReg.hi - staticReg.lo; auto now = (unsigned char const *)staticReg.lo;
	if (!memcmp(now, shadow, n)) return;
	for (size_t i = 0; i < n; ++i) if (now[i] != shadow[i]) { shadow[i] = now[i]; if (!ignored[i]) checkRange(t, staticReg.lo + i, 1, true); }
}

// sync objects
struct SyncObj { void const * addr; uint32_t vc[MAXT]; };
static SyncObj * syncTab = nullptr; enum { NSYNC = 4096 };
static SyncObj * syncOf(void const * a) {
	if (!syncTab) syncTab = (SyncObj *)bigMap(sizeof(SyncObj) * NSYNC);
	uint64_t h = mix64((uint64_t)a) % NSYNC;
	for (int i = 0; i < NSYNC; ++i) { SyncObj * s = &syncTab[(h + i) % NSYNC]; if (s->addr == a) return s; if (!s->addr) { s->addr = a; return s; } }
	return &syncTab[0];
}
static void acquireVC(void const * a) { if (!detect || !self) return; scanStatic(self); SyncObj * s = syncOf(a); for (int i = 0; i < MAXT; ++i) self->vc[i] = std::max(self->vc[i], s->vc[i]); }
static void releaseVC(void const * a) { if (!detect || !self) return; scanStatic(self); SyncObj * s = syncOf(a); for (int i = 0; i < MAXT; ++i) s->vc[i] = std::max(self->vc[i], s->vc[i]); self->vc[self->id]++; }

void endThread(bool cancel) { if (cancel) { pthread_cancel(pthread_self()); pthread_testcancel(); } pthread_exit(nullptr); }
static void * threadMain(void * v) {
	Th * t = (Th *)v; self = t;
	struct Done { Th * t; ~Done() {      // also when the thread is ended in its body
		if (detect) scanStatic(t);
		t->state = DONE;
		release(&mainTh);       // main joins this thread (its thread_local destructors run with everybody parked) and goes on
	} } done{t};
	waitGo(t);
	try { t->body(); } catch (__cxxabiv1::__forced_unwind &) { throw; } catch (...) { violation("unexpected-exception", "a library call threw out of a thread"); }
	return nullptr;
}
alignas(8) static uint64_t libcCell[8];     // stand for the static buffers of C library functions
static Region extraRegs[8]; static int nextra = 0;
void addSharedRegion(void const * p, size_t n) {
	if (nextra < 8) { extraRegs[nextra].lo = (uintptr_t)p & ~7ull; extraRegs[nextra].hi = (uintptr_t)p + n; extraRegs[nextra].name = "a shared constant operand"; ++nextra; }
}
static void prepareCells(Region & r) { r.cells = (Cell *)bigMap(((r.hi - r.lo) / 8 + 2) * sizeof(Cell)); }
SchedResult runThreads(std::vector<std::function<void()>> const & bodies, std::vector<Preempt> const & pre, int first, bool detectRaces) {
	SchedResult res;
	if (bodies.empty()) return res;
	if (bodies.size() + 1 > MAXT) harnessError("too many threads");
	ths[0] = &mainTh; nths = 1; mainTh.go = 0; mainTh.vc[0] = 1;
	for (size_t i = 0; i < bodies.size(); ++i) {
		Th * t = new Th; t->id = (int)i + 1; t->body = bodies[i];
		for (auto & p : pre) if (p.thread == t->id) t->pre.push_back(p);
		std::stable_sort(t->pre.begin(), t->pre.end(), [](Preempt const & a, Preempt const & b) { return a.event < b.event; });
		memcpy(t->vc, mainTh.vc, sizeof t->vc); t->vc[t->id] = 1;
		ths[nths++] = t;
	}
	mainTh.vc[0]++;
	if (detectRaces) {
		arenaInit();
		arenaReg.lo = (uintptr_t)arena; arenaReg.hi = (uintptr_t)arena + ARENA; prepareCells(arenaReg);
		if (!staticReg.cells) prepareCells(staticReg);
		nregs = 0; regs[nregs].lo = (uintptr_t)libcCell; regs[nregs].hi = (uintptr_t)(libcCell + 8); regs[nregs].name = "the static buffer of a C library function (strtok, ecvt, localtime ...)"; prepareCells(regs[nregs]); ++nregs;
		for (int i = 0; i < nextra; ++i) { regs[nregs] = extraRegs[i]; prepareCells(regs[nregs]); ++nregs; }
	}
	if (detectRaces) syncStatic();
	schedOn = true; detect = detectRaces;
	for (int i = 1; i < nths; ++i) if (pthread_create(&ths[i]->pt, nullptr, threadMain, ths[i])) harnessError("pthread_create failed");
	bool joined[MAXT] = {};
	int f = first < 0 ? 0 : first % (int)bodies.size();
	ths[1 + f]->sliceEnd = sliceLen; recompute(ths[1 + f]);
	release(ths[1 + f]);    // from here on main runs only while every other thread is parked or done: no allocation before waitGo
	for (;;) {
		waitGo(&mainTh);
		for (int i = 1; i < nths; ++i) if (ths[i]->state == DONE && !joined[i]) { pthread_join(ths[i]->pt, nullptr); joined[i] = true; }
		Th * to = nullptr; bool blocked = false;
		for (int i = 1; i < nths; ++i) if (ths[i]->state == BLOCKED) blocked = true;
		for (int i = 1; i < nths && !to; ++i) if (ths[i]->state == RUNNABLE) to = ths[i];
		if (!to && blocked) { to = nextRunnable(&mainTh); if (!to) { violation("deadlock", "threads wait for a lock or initialisation that is never released"); finishNow(); } }
		if (!to) break;
		if (detect) syncStatic();
		log("next %d", to->id);
		to->sliceEnd = to->ev + sliceLen; recompute(to);
		release(to);
	}
	schedOn = false; detect = false;
	if (arenaReg.cells) { munmap(arenaReg.cells, ((arenaReg.hi - arenaReg.lo) / 8 + 2) * sizeof(Cell)); arenaReg = Region(); }
	for (int i = 1; i < nths; ++i) { res.events.push_back(ths[i]->ev); simSteps += ths[i]->ev; delete ths[i]; }
	nths = 1;
	return res;
}

bool waitOn(void const * what) { if (!scheduled()) return false; blockOn(what); return true; }
void wakeOn(void const * what) { wakeAll(what); }
void yieldNow() { yieldPoint(); }
void recordBegin() { recDirty.clear(); recHash = staticHash(); recording = true; }
std::vector<uint64_t> recordEnd(uint64_t * total) {
	recording = false; if (total) *total = self ? self->ev : 0;
	std::sort(recDirty.begin(), recDirty.end()); recDirty.erase(std::unique(recDirty.begin(), recDirty.end()), recDirty.end());
	return recDirty;
}
size_t staticBytes() { return staticReg.hi - staticReg.lo; }
uint64_t staticHash() {
	uint64_t h = 1469598103934665603ull;
	for (uintptr_t a = staticReg.lo & ~7ull; a + 8 <= staticReg.hi; a += 8) { uint64_t v = *(uint64_t const volatile *)a; h = (h ^ v) * 0x100000001b3ull; h ^= h >> 31; }
	return h;
}

// ------------------------------------------------------------ library calls
static int stackFill = 0xA5;
void setStackFill(int b) { stackFill = b; }
// Fills the stack the call is about to use, so that nothing left there by earlier calls reaches it.
__attribute__((noinline)) static void scrub() { char b[12288]; memset(b, stackFill, sizeof b); asm volatile("" : : "r"(b) : "memory"); }
LibCall::LibCall() {
	Th * t = self; prev = 0; if (!t) return;
	if (t->lib == 0) scrub();
	prev = t->lib;
	if (t->lib == 0) { t->callStart = t->ev; t->budgetEnd = t->ev + stepBudget; ++rep->calls; recompute(t); }
	t->lib = 1;
}
LibCall::~LibCall() {
	Th * t = self; if (!t) return;
	t->lib = prev;
	if (prev == 0) { lastCallEvents = t->ev - t->callStart; t->budgetEnd = ~0ull; if (recording) recordSample(t); hmix(lastCallEvents); recompute(t); }
}
Harness::Harness() { Th * t = self; prev = t ? t->lib : 0; if (prev > 0) { t->noAction = true; tick(t); t->noAction = false; } if (t) t->lib = 0; }
Harness::~Harness() { if (self) self->lib = prev; }
void setAllocPlan(AllocPlan const & p) { Harness h; Th * t = self; if (!t) return; t->plan = p; t->planOn = p.active(); t->allocIdx = 0; t->allocFails = 0; }
void clearAllocPlan() { if (self) self->planOn = false; }
uint32_t allocCount() { return self ? self->allocIdx : 0; }
void resetAllocCount() { if (self) { self->allocIdx = 0; self->allocFails = 0; } }
uint32_t allocFailed() { return self ? self->allocFails : 0; }
void setFill(int a, int b) { fillFresh = a; fillFreed = b; }
void setStepBudget(uint64_t n) { stepBudget = n; }
uint64_t callEvents() { return lastCallEvents; }
void setActions(std::vector<Action> a) { Th * t = self; if (!t) return; t->actions = std::move(a); t->actionPos = 0; recompute(t); }
void setDevBudget(int64_t n) { devBudget = n; }
static std::function<void()> devHook;
void setDevHook(std::function<void()> fn) { devHook = std::move(fn); }
void nested(std::function<void()> const & fn) {
	Th * t = self; if (!t) { fn(); return; }
	int e = errno; uint64_t ev = t->ev, start = t->callStart, end = t->budgetEnd, last = lastCallEvents; int lib = t->lib;
	auto acts = std::move(t->actions); size_t pos = t->actionPos; auto hook = std::move(devHook);
	AllocPlan plan = t->plan; bool on = t->planOn; uint32_t idx = t->allocIdx, fails = t->allocFails; int64_t dev = devBudget;
	t->actions.clear(); t->actionPos = 0; devHook = nullptr; t->planOn = false; t->lib = 0; devBudget = -1;
	fn();
	uint64_t shift = t->ev - ev;
	t->callStart = start + shift; t->budgetEnd = end == ~0ull ? end : end + shift; lastCallEvents = last;
	t->actions = std::move(acts); t->actionPos = pos; devHook = std::move(hook);
	t->plan = plan; t->planOn = on; t->allocIdx = idx; t->allocFails = fails; t->lib = lib; devBudget = dev;
	recompute(t); errno = e;
}
void devRequest() {
	++devReqs;
	if (devHook) devHook();
	if (devBudget >= 0 && devBudget-- == 0) { violation("nonterminating", "a library call kept issuing device requests to a device that has stopped working"); finishNow(); }
}
void setClock(uint64_t ns) { clockNs = ns; }

// ------------------------------------------------------------ process
bool inLibText(void const * p) { uintptr_t a = (uintptr_t)p; return a >= libTextLo && a < libTextHi; }
static int phdrCb(struct dl_phdr_info * info, size_t, void *) {
	if (!info->dlpi_name || !strstr(info->dlpi_name, "liblib.so")) return 0;
	for (int i = 0; i < info->dlpi_phnum; ++i) {
		auto & ph = info->dlpi_phdr[i]; uintptr_t lo = info->dlpi_addr + ph.p_vaddr, hi = lo + ph.p_memsz;
		if (ph.p_type == PT_LOAD && (ph.p_flags & PF_W)) { staticReg.lo = lo; staticReg.hi = hi; }
		if (ph.p_type == PT_LOAD && (ph.p_flags & PF_X)) { libTextLo = lo; libTextHi = hi; }
		if (ph.p_type == PT_LOAD) { if (!libLo || lo < libLo) libLo = lo; libHi = std::max(libHi, hi); }
	}
	for (int i = 0; i < info->dlpi_phnum; ++i) {
		auto & ph = info->dlpi_phdr[i]; uintptr_t lo = info->dlpi_addr + ph.p_vaddr, hi = lo + ph.p_memsz;
		if (ph.p_type == PT_GNU_RELRO && lo <= staticReg.lo) staticReg.lo = std::max<uintptr_t>(staticReg.lo, (hi + 15) & ~15ull);
	}
	staticReg.name = "static storage";
	return 1;
}
// what the library keeps between calls in static storage and in storage of the calling thread, as one number
static int tlsCb(struct dl_phdr_info * info, size_t sz, void * out) {
	if (!info->dlpi_name || !strstr(info->dlpi_name, "liblib.so")) return 0;
	if (sz > offsetof(struct dl_phdr_info, dlpi_tls_data) && info->dlpi_tls_data) for (int i = 0; i < info->dlpi_phnum; ++i) if (info->dlpi_phdr[i].p_type == PT_TLS) { auto r = (Region *)out; r->lo = (uintptr_t)info->dlpi_tls_data; r->hi = r->lo + info->dlpi_phdr[i].p_memsz; }
	return 1;
}
uint64_t libState() {
	Region tls{}; dl_iterate_phdr(tlsCb, &tls); uint64_t h = 1;
	for (Region const & g : {staticReg, tls}) for (uintptr_t a = g.lo; a < g.hi; a += 8) { uint64_t w = 0; memcpy(&w, (void *)a, std::min<size_t>(8, g.hi - a)); if (w) h = mix64(h ^ w ^ (uint64_t)(a - g.lo) << 40); }
	return h;
}
// which blocks of library code were reached (shared by all runs of this worker)
static uint8_t * blocks = nullptr;
std::vector<uint32_t> blocksReached() { std::vector<uint32_t> v; if (blocks) for (uintptr_t a = libTextLo; a < libTextHi; ++a) if (blocks[a - libTextLo]) v.push_back((uint32_t)(a - libLo)); return v; }
extern "C" void __sanitizer_cov_trace_pc() { uintptr_t a = (uintptr_t)__builtin_return_address(0); if (blocks && a - libTextLo < libTextHi - libTextLo) blocks[a - libTextLo] = 1; Th * t = self; if (t && t->lib > 0) tick(t); }
void initProcess() {
	arenaInit();
	dl_iterate_phdr(phdrCb, nullptr);
	blocks = (uint8_t *)sharedAlloc(libTextHi - libTextLo + 1);
	echo = getenv("SIM_LOG") != nullptr; if (echo) { echoFd = fcntl(2, F_DUPFD, 100); if (echoFd < 0) echoFd = 2; }
}
void enterSim() {
	self = &mainTh; ths[0] = &mainTh; nths = 1;
	mainTh.vc[0] = 1;
}
void * sharedAlloc(size_t n) {
	void * p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (p == MAP_FAILED) { perror("mmap"); abort(); }
	return p;
}
int inFork(std::function<void()> const & fn, int wall) {
	fflush(nullptr);    // a child that exits must not write the parent's buffers again
	pid_t p = fork();
	if (p < 0) harnessError("fork failed");
	if (p == 0) {
		struct rlimit rl = {(rlim_t)wall / 2 + 5, (rlim_t)wall / 2 + 6}; setrlimit(RLIMIT_CPU, &rl);
		rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
		signal(SIGALRM, SIG_DFL); alarm((unsigned)wall);
		fn();
		_exit(0);
	}
	int st = 0;
	while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
	return st;
}
void finishRun() { rep->steps = totalSteps(); rep->done = 1; }

template <class F> static F realFn(char const * name) { return (F)dlsym(RTLD_NEXT, name); }
} // rt

using namespace rt;

// ============================================================ allocation
void * operator new(size_t n) { return simNew(n, 16, false); }
void * operator new[](size_t n) { return simNew(n, 16, false); }
void * operator new(size_t n, std::nothrow_t const &) noexcept { return simNew(n, 16, true); }
void * operator new[](size_t n, std::nothrow_t const &) noexcept { return simNew(n, 16, true); }
void * operator new(size_t n, std::align_val_t a) { return simNew(n, (size_t)a, false); }
void * operator new[](size_t n, std::align_val_t a) { return simNew(n, (size_t)a, false); }
void operator delete(void * p) noexcept { simDelete(p); }
void operator delete[](void * p) noexcept { simDelete(p); }
void operator delete(void * p, size_t) noexcept { simDelete(p); }
void operator delete[](void * p, size_t) noexcept { simDelete(p); }
void operator delete(void * p, std::nothrow_t const &) noexcept { simDelete(p); }
void operator delete[](void * p, std::nothrow_t const &) noexcept { simDelete(p); }
void operator delete(void * p, std::align_val_t) noexcept { simDelete(p); }
void operator delete[](void * p, std::align_val_t) noexcept { simDelete(p); }
void operator delete(void * p, size_t, std::align_val_t) noexcept { simDelete(p); }
void operator delete[](void * p, size_t, std::align_val_t) noexcept { simDelete(p); }

extern "C" {
void * __libc_malloc(size_t); void * __libc_calloc(size_t, size_t); void * __libc_realloc(void *, size_t);
// malloc family: failures are injected only into calls made by library code itself
#define FROM_LIB (self && self->lib > 0 && inLibText(__builtin_return_address(0)))
// what is obtained from malloc during library calls, by the library or on its behalf, and not given back counts as memory the library keeps
}
static std::atomic_flag keptBusy = ATOMIC_FLAG_INIT; static uintptr_t * keptPtr; static size_t keptN, keptSum; enum { KEPT = 1 << 14 };
struct KeptLock { KeptLock() { while (keptBusy.test_and_set(std::memory_order_acquire)) syscall(SYS_sched_yield); } ~KeptLock() { keptBusy.clear(std::memory_order_release); } };
static void * keep(void * p) {
	if (!p || !self || self->lib <= 0) return p;
	KeptLock l; if (!keptPtr) keptPtr = (uintptr_t *)bigMap(sizeof(uintptr_t) * KEPT); if (keptN > KEPT / 2) return p;
	for (size_t h = mix64((uint64_t)p) % KEPT;; h = (h + 1) % KEPT) if (keptPtr[h] <= 1) { keptPtr[h] = (uintptr_t)p; ++keptN; keptSum += malloc_usable_size(p); return p; }
}
static void unkeep(void * p) {
	if (!keptN || !p) return;
	KeptLock l; size_t n = 0;
	for (size_t h = mix64((uint64_t)p) % KEPT; keptPtr[h] && n < KEPT; h = (h + 1) % KEPT, ++n) if (keptPtr[h] == (uintptr_t)p) { keptPtr[h] = 1; --keptN; keptSum -= malloc_usable_size(p); return; }
}
namespace rt {
int64_t liveBlocks() { return live + (int64_t)keptN; }
int64_t liveBytes() { return liveB + (int64_t)keptSum; }
}
extern "C" {
void __libc_free(void *);
void * malloc(size_t n) { if (FROM_LIB && shouldFail(self)) { errno = ENOMEM; return nullptr; } return keep(__libc_malloc(n)); }
void * calloc(size_t a, size_t b) { if (FROM_LIB && shouldFail(self)) { errno = ENOMEM; return nullptr; } return keep(__libc_calloc(a, b)); }
void * realloc(void * p, size_t n) { if (FROM_LIB && shouldFail(self)) { errno = ENOMEM; return nullptr; } if (keptN) unkeep(p); return keep(__libc_realloc(p, n)); }
void free(void * p) { unkeep(p); __libc_free(p); }

// ============================================================ compiler call-outs
void __tsan_init(void) {}
void __tsan_func_entry(void *) { fn(); }
void __tsan_func_exit(void) { fn(); }
#define RW(n) \
void __tsan_read##n(void * p) { acc(p, n, false); } \
void __tsan_write##n(void * p) { acc(p, n, true); } \
void __tsan_volatile_read##n(void * p) { acc(p, n, false); } \
void __tsan_volatile_write##n(void * p) { acc(p, n, true); } \
void __tsan_unaligned_read##n(void * p) { acc(p, n, false); } \
void __tsan_unaligned_write##n(void * p) { acc(p, n, true); } \
void __tsan_unaligned_volatile_read##n(void * p) { acc(p, n, false); } \
void __tsan_unaligned_volatile_write##n(void * p) { acc(p, n, true); } \
void __tsan_read_write##n(void * p) { acc(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void * p, size_t n) { if (n) acc(p, n, false); }
void __tsan_write_range(void * p, size_t n) { if (n) acc(p, n, true); }
void __tsan_vptr_update(void ** p, void *) { acc(p, 8, true); }
void __tsan_vptr_read(void ** p) { acc(p, 8, false); }
// Copies made by the standard library on behalf of library code into or out of the library's own static objects (the
// text of a short string, say) count as accesses too.
typedef void * (*CopyF)(void *, void const *, size_t); typedef void * (*SetF)(void *, int, size_t);
static CopyF realCpy, realMove; static SetF realSet;
__attribute__((constructor(101))) static void findCopies() { realMove = (CopyF)dlsym(RTLD_NEXT, "memmove"); realCpy = (CopyF)dlsym(RTLD_NEXT, "memcpy"); realSet = (SetF)dlsym(RTLD_NEXT, "memset"); }
static void * slowCopy(void * d, void const * s, size_t n) {    // before the real one is known
	auto a = (unsigned char volatile *)d; auto b = (unsigned char const volatile *)s;
	if (a < b) for (size_t i = 0; i < n; ++i) a[i] = b[i]; else while (n--) a[n] = b[n];
	return d;
}
extern char __executable_start, etext;
static inline void copied(void * d, void const * s, size_t n, void * from = __builtin_return_address(0)) {
	Th * t = self; if (__builtin_expect(!t, 1) || t->lib <= 0 || !n || (from >= &__executable_start && from < &etext)) return;   // not the simulator's own
	if (s && regionOf((uintptr_t)s) == &staticReg) acc(s, n, false);
	if (d && regionOf((uintptr_t)d) == &staticReg) acc(d, n, true);
}
void * memcpy(void * __restrict d, void const * __restrict s, size_t n) { copied(d, s, n); return realCpy ? realCpy(d, s, n) : slowCopy(d, s, n); }
void * memmove(void * d, void const * s, size_t n) { copied(d, s, n); return realMove ? realMove(d, s, n) : slowCopy(d, s, n); }
static void * set(void * d, int c, size_t n) { if (realSet) return realSet(d, c, n); for (size_t i = 0; i < n; ++i) ((unsigned char volatile *)d)[i] = (unsigned char)c; return d; }
void * memset(void * d, int c, size_t n) { copied(d, nullptr, n); return set(d, c, n); }
void * __wrap_memcpy(void * d, void const * s, size_t n) { if (n) { acc(s, n, false); acc(d, n, true); } return realCpy ? realCpy(d, s, n) : slowCopy(d, s, n); }
void * __wrap_memmove(void * d, void const * s, size_t n) { if (n) { acc(s, n, false); acc(d, n, true); } return realMove ? realMove(d, s, n) : slowCopy(d, s, n); }
void * __wrap_memset(void * d, int c, size_t n) { if (n) acc(d, n, true); return set(d, c, n); }
// text written into a buffer of the caller
static void before(void const * from) { if (!(from >= &__executable_start && from < &etext)) fn(); }
int vsnprintf(char * b, size_t n, char const * f, va_list ap) noexcept { before(__builtin_return_address(0)); typedef int (*F)(char *, size_t, char const *, va_list); static F rl = nullptr; if (!rl) rl = (F)dlsym(RTLD_NEXT, "vsnprintf"); int r = rl(b, n, f, ap); if (r >= 0 && n) copied(b, nullptr, std::min<size_t>(n, (size_t)r + 1)); return r; }
int snprintf(char * b, size_t n, char const * f, ...) noexcept { va_list ap; va_start(ap, f); int r = vsnprintf(b, n, f, ap); va_end(ap); return r; }
int vsprintf(char * b, char const * f, va_list ap) noexcept { return vsnprintf(b, (size_t)INT_MAX, f, ap); }
int sprintf(char * b, char const * f, ...) noexcept { va_list ap; va_start(ap, f); int r = vsnprintf(b, (size_t)INT_MAX, f, ap); va_end(ap); return r; }
#define STRFN(name, params, args) char * name params noexcept { before(__builtin_return_address(0)); typedef char * (*F) params; static F rl = nullptr; if (!rl) rl = (F)dlsym(RTLD_NEXT, #name); char * r = rl args; copied(d, nullptr, strlen(d) + 1); return r; }
STRFN(strcpy, (char * d, char const * s), (d, s))
STRFN(strcat, (char * d, char const * s), (d, s))
STRFN(strncat, (char * d, char const * s, size_t n), (d, s, n))
STRFN(gcvt, (double v, int n, char * d), (v, n, d))
char * strncpy(char * d, char const * s, size_t n) noexcept { before(__builtin_return_address(0)); typedef char * (*F)(char *, char const *, size_t); static F rl = nullptr; if (!rl) rl = (F)dlsym(RTLD_NEXT, "strncpy"); char * r = rl(d, s, n); copied(d, nullptr, n); return r; }

static inline void sharedStep() { fn(); Th * t = self; if (t && t->lib > 0) touched(t); }
static inline void atomicPre(void const * a) { if (detect) ignoreBytes(a, 8); sharedStep(); }
static inline void atomicSync(void const volatile * a, int mo, bool ld, bool st) {
	if (!detect) return;
	if (ld && (mo == 1 || mo == 2 || mo == 4 || mo == 5)) acquireVC((void const *)a);
	if (st && (mo == 3 || mo == 4 || mo == 5)) releaseVC((void const *)a);
}
struct After { ~After() { sharedStep(); } };     // another thread may come between an atomic operation and what follows it
#define AT(bits, T) \
T __tsan_atomic##bits##_load(T const volatile * a, int mo) { After after; atomicPre((void const *)a); T v = __atomic_load_n(a, __ATOMIC_SEQ_CST); atomicSync(a, mo, true, false); return v; } \
void __tsan_atomic##bits##_store(T volatile * a, T v, int mo) { After after; atomicPre((void const *)a); atomicSync(a, mo, false, true); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_exchange(T volatile * a, T v, int mo) { After after; atomicPre((void const *)a); atomicSync(a, mo, true, true); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_add(T volatile * a, T v, int mo) { After after; atomicPre((void const *)a); atomicSync(a, mo, true, true); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_sub(T volatile * a, T v, int mo) { After after; atomicPre((void const *)a); atomicSync(a, mo, true, true); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_and(T volatile * a, T v, int mo) { After after; atomicPre((void const *)a); atomicSync(a, mo, true, true); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_or(T volatile * a, T v, int mo) { After after; atomicPre((void const *)a); atomicSync(a, mo, true, true); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_xor(T volatile * a, T v, int mo) { After after; atomicPre((void const *)a); atomicSync(a, mo, true, true); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_nand(T volatile * a, T v, int mo) { After after; atomicPre((void const *)a); atomicSync(a, mo, true, true); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
int __tsan_atomic##bits##_compare_exchange_strong(T volatile * a, T * c, T v, int mo, int fmo) { After after; atomicPre((void const *)a); \
	bool ok = __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); atomicSync(a, ok ? mo : fmo, true, ok); return ok; } \
int __tsan_atomic##bits##_compare_exchange_weak(T volatile * a, T * c, T v, int mo, int fmo) { return __tsan_atomic##bits##_compare_exchange_strong(a, c, v, mo, fmo); } \
T __tsan_atomic##bits##_compare_exchange_val(T volatile * a, T c, T v, int mo, int fmo) { __tsan_atomic##bits##_compare_exchange_strong(a, &c, v, mo, fmo); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) { static char f; fn(); if (detect) { acquireVC(&f); releaseVC(&f); } }
void __tsan_atomic_signal_fence(int) {}

// ============================================================ synchronisation
int __cxa_guard_acquire(uint64_t * g) {
	unsigned char * b = (unsigned char *)g;
	if (detect) ignoreBytes(g, 8);
	fn();
	for (;;) {
		if (__atomic_load_n(b, __ATOMIC_ACQUIRE)) { acquireVC(g); return 0; }
		if (!b[1]) { b[1] = 1; b[2] = (unsigned char)(self ? self->id : 0); return 1; }
		if (!scheduled() || b[2] == self->id) { violation("deadlock", "recursive initialisation of a function-local static"); finishNow(); }
		blockOn(g);
	}
}
void __cxa_guard_release(uint64_t * g) { unsigned char * b = (unsigned char *)g; releaseVC(g); b[1] = 0; __atomic_store_n(b, 1, __ATOMIC_RELEASE); if (schedOn) wakeAll(g); fn(); }
void __cxa_guard_abort(uint64_t * g) { unsigned char * b = (unsigned char *)g; releaseVC(g); b[1] = 0; if (schedOn) wakeAll(g); }

#define REAL(name, type) static type real_##name = nullptr; if (!real_##name) real_##name = (type)dlsym(RTLD_NEXT, #name)
typedef int (*MF)(pthread_mutex_t *);
int pthread_mutex_trylock(pthread_mutex_t * m) { if (detect) ignoreBytes(m, sizeof *m); REAL(pthread_mutex_trylock, MF); int r = real_pthread_mutex_trylock(m); if (!r && scheduled()) acquireVC(m); return r; }
int pthread_mutex_lock(pthread_mutex_t * m) {
	REAL(pthread_mutex_lock, MF); REAL(pthread_mutex_trylock, MF);
	if (detect) ignoreBytes(m, sizeof *m);
	if (!scheduled()) {
		if (self && self->lib > 0) {    // alone in the simulation: a lock that is held now is held by this very thread
			int r = real_pthread_mutex_trylock(m);
			if (r == EBUSY) { violation("deadlock", "a library call waits for a lock that the call it interrupts holds"); finishNow(); }
			return r;
		}
		return real_pthread_mutex_lock(m);
	}
	fn();
	for (;;) {
		int r = real_pthread_mutex_trylock(m);
		if (r != EBUSY) { if (!r) acquireVC(m); return r; }
		blockOn(m);
	}
}
int pthread_mutex_unlock(pthread_mutex_t * m) {
	REAL(pthread_mutex_unlock, MF);
	if (!scheduled()) return real_pthread_mutex_unlock(m);
	releaseVC(m); int r = real_pthread_mutex_unlock(m); wakeAll(m); fn(); return r;
}
typedef int (*RF)(pthread_rwlock_t *);
#define RW_LOCK(kind) \
int pthread_rwlock_##kind##lock(pthread_rwlock_t * m) { \
	static RF rl = nullptr, rt_ = nullptr; if (!rl) { rl = (RF)dlsym(RTLD_NEXT, "pthread_rwlock_" #kind "lock"); rt_ = (RF)dlsym(RTLD_NEXT, "pthread_rwlock_try" #kind "lock"); } \
	if (detect) ignoreBytes(m, sizeof *m); \
	if (!scheduled()) { if (self && self->lib > 0) { int r = rt_(m); if (r == EBUSY) { violation("deadlock", "a library call waits for a lock that the call it interrupts holds"); finishNow(); } return r; } return rl(m); } \
	fn(); \
	for (;;) { int r = rt_(m); if (r != EBUSY && r != EAGAIN) { if (!r) acquireVC(m); return r; } blockOn(m); } }
RW_LOCK(rd) RW_LOCK(wr)
int pthread_rwlock_unlock(pthread_rwlock_t * m) { static RF rl = nullptr; if (!rl) rl = (RF)dlsym(RTLD_NEXT, "pthread_rwlock_unlock"); if (!scheduled()) return rl(m); releaseVC(m); int r = rl(m); wakeAll(m); fn(); return r; }

static pthread_once_t * onceBusy[16]; static int onceOwner[16];
int pthread_once(pthread_once_t * o, void (*init)(void)) {
	typedef int (*OF)(pthread_once_t *, void (*)(void)); REAL(pthread_once, OF);
	if (detect) ignoreBytes(o, sizeof *o);
	if (!scheduled()) return real_pthread_once(o, init);
	fn();
	for (;;) {
		int slot = -1, busy = -1;
		for (int i = 0; i < 16; ++i) { if (onceBusy[i] == o) busy = i; if (!onceBusy[i] && slot < 0) slot = i; }
		if (busy >= 0) { if (onceOwner[busy] == self->id) { violation("deadlock", "recursive once-initialisation"); finishNow(); } blockOn(o); continue; }
		if (slot < 0) return real_pthread_once(o, init);
		onceBusy[slot] = o; onceOwner[slot] = self->id;
		acquireVC(o);
		int r;
		try { r = real_pthread_once(o, init); } catch (...) { onceBusy[slot] = nullptr; wakeAll(o); throw; }
		releaseVC(o); onceBusy[slot] = nullptr; wakeAll(o);
		return r;
	}
}
int pthread_cond_wait(pthread_cond_t * c, pthread_mutex_t * m) {
	typedef int (*CF)(pthread_cond_t *, pthread_mutex_t *);
	static CF rl = nullptr; if (!rl) rl = (CF)dlsym(RTLD_NEXT, "pthread_cond_wait");
	if (detect) ignoreBytes(c, sizeof *c);
	if (!scheduled()) return rl(c, m);
	pthread_mutex_unlock(m); blockOn(c); pthread_mutex_lock(m); return 0;
}
int pthread_cond_timedwait(pthread_cond_t * c, pthread_mutex_t * m, struct timespec const * ts) {
	typedef int (*CF)(pthread_cond_t *, pthread_mutex_t *, struct timespec const *);
	static CF rl = nullptr; if (!rl) rl = (CF)dlsym(RTLD_NEXT, "pthread_cond_timedwait");
	if (detect) ignoreBytes(c, sizeof *c);
	if (!scheduled()) return rl(c, m, ts);
	pthread_mutex_unlock(m); blockOn(c, true); bool to = self->timedOut; pthread_mutex_lock(m); return to ? ETIMEDOUT : 0;
}
int pthread_cond_signal(pthread_cond_t * c) {
	typedef int (*CF)(pthread_cond_t *); static CF rl = nullptr; if (!rl) rl = (CF)dlsym(RTLD_NEXT, "pthread_cond_signal");
	if (!scheduled()) return rl(c);
	wakeAll(c); fired(F_SPURIOUS_WAKE); return 0;
}
int pthread_cond_broadcast(pthread_cond_t * c) {
	typedef int (*CF)(pthread_cond_t *); static CF rl = nullptr; if (!rl) rl = (CF)dlsym(RTLD_NEXT, "pthread_cond_broadcast");
	if (!scheduled()) return rl(c);
	wakeAll(c); return 0;
}
// timed locks: with no holder they succeed; with one, the waiter is parked and its timeout may fire
static int timedLock(pthread_mutex_t * m) {
	fn(); if (detect) ignoreBytes(m, sizeof *m);
	for (;;) { int r = pthread_mutex_trylock(m); if (r != EBUSY) return r; blockOn(m, true); if (self->timedOut) return ETIMEDOUT; }
}
int pthread_mutex_timedlock(pthread_mutex_t * m, struct timespec const * ts) { typedef int (*TF)(pthread_mutex_t *, struct timespec const *); static TF rl = nullptr; if (!rl) rl = (TF)dlsym(RTLD_NEXT, "pthread_mutex_timedlock"); return scheduled() ? timedLock(m) : rl(m, ts); }
int pthread_mutex_clocklock(pthread_mutex_t * m, clockid_t c, struct timespec const * ts) { typedef int (*TF)(pthread_mutex_t *, clockid_t, struct timespec const *); static TF rl = nullptr; if (!rl) rl = (TF)dlsym(RTLD_NEXT, "pthread_mutex_clocklock"); return scheduled() ? timedLock(m) : rl(m, c, ts); }
int pthread_cond_clockwait(pthread_cond_t * c, pthread_mutex_t * m, clockid_t k, struct timespec const * ts) { typedef int (*TF)(pthread_cond_t *, pthread_mutex_t *, clockid_t, struct timespec const *); static TF rl = nullptr; if (!rl) rl = (TF)dlsym(RTLD_NEXT, "pthread_cond_clockwait"); return scheduled() ? pthread_cond_timedwait(c, m, ts) : rl(c, m, k, ts); }
int sched_yield(void) { if (scheduled()) { fn(); yieldPoint(); return 0; } return (int)syscall(SYS_sched_yield); }

// ============================================================ clock and randomness
static bool inLib() { return self && self->lib > 0; }
int clock_gettime(clockid_t id, struct timespec * ts) {
	if (!inLib()) return (int)syscall(SYS_clock_gettime, id, ts);
	clockRead = true; fn(); uint64_t t = clockNs + self->ev; ts->tv_sec = (time_t)(t / 1000000000ull); ts->tv_nsec = (long)(t % 1000000000ull); return 0;
}
int gettimeofday(struct timeval * tv, void *) {
	struct timespec ts; int r = clock_gettime(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return r;
}
time_t time(time_t * t) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (t) *t = ts.tv_sec; return ts.tv_sec; }
clock_t clock(void) { struct timespec ts; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &ts); return (clock_t)(ts.tv_sec * 1000000 + ts.tv_nsec / 1000); }
static void advance(struct timespec const * ts) { clockNs += (uint64_t)ts->tv_sec * 1000000000ull + (uint64_t)ts->tv_nsec; fn(); yieldPoint(); }
int nanosleep(struct timespec const * a, struct timespec * b) { if (inLib()) { advance(a); return 0; } return (int)syscall(SYS_nanosleep, a, b); }
int clock_nanosleep(clockid_t c, int f, struct timespec const * a, struct timespec * b) { if (inLib()) { if (!f) advance(a); return 0; } return (int)-syscall(SYS_clock_nanosleep, c, f, a, b); }
int rand(void) { typedef int (*F)(void); REAL(rand, F); if (!inLib()) return real_rand(); ++prandCalls; ++randomReads; return (int)(simRandom.next() & 0x7fffffff); }
long random(void) { typedef long (*F)(void); REAL(random, F); if (!inLib()) return real_random(); ++prandCalls; ++randomReads; return (long)(simRandom.next() & 0x7fffffff); }
double drand48(void) { typedef double (*F)(void); REAL(drand48, F); if (!inLib()) return real_drand48(); ++prandCalls; ++randomReads; return simRandom.unit(); }
#define PRAND(name, ret, params, args) ret name params noexcept { typedef ret (*F) params; REAL(name, F); if (inLib()) { ++prandCalls; ++randomReads; } return real_##name args; }
PRAND(srandom, void, (unsigned s), (s))
PRAND(srand48, void, (long s), (s))
PRAND(lrand48, long, (void), ())
PRAND(mrand48, long, (void), ())
PRAND(seed48, unsigned short *, (unsigned short * s), (s))
PRAND(lcong48, void, (unsigned short * s), (s))
PRAND(initstate, char *, (unsigned s, char * b, size_t n), (s, b, n))
PRAND(setstate, char *, (char * b), (b))
#undef PRAND
// the environment as library code sees it: the simulator may answer any question
static char const * const envAnswers[] = {nullptr, "", "0", "1", "3", "17", "-1", "C", "de_DE.UTF-8", "yes", "off"};
char * getenv(char const * n) noexcept { typedef char * (*F)(char const *); REAL(getenv, F); if (!inLib()) return real_getenv(n); envRead = true; fn(); return (char *)envAnswers[envMode % ENV_MODES]; }
char * secure_getenv(char const * n) noexcept { typedef char * (*F)(char const *); REAL(secure_getenv, F); if (!inLib()) return real_secure_getenv(n); return getenv(n); }
void srand(unsigned s) { typedef void (*F)(unsigned); REAL(srand, F); if (inLib()) { ++prandCalls; ++randomReads; return; } real_srand(s); }
ssize_t getrandom(void * b, size_t n, unsigned f) { if (!inLib()) return syscall(SYS_getrandom, b, n, f); ++randomReads; for (size_t i = 0; i < n; ++i) ((unsigned char *)b)[i] = (unsigned char)simRandom.next(); return (ssize_t)n; }
int getentropy(void * b, size_t n) { return getrandom(b, n, 0) < 0 ? -1 : 0; }
unsigned _ZNSt13random_device9_M_getvalEv(void *) { ++randomReads; return (unsigned)simRandom.next(); }

// ============================================================ process-wide locale (an event before and after each change)
char * setlocale(int c, char const * l) {
	typedef char * (*F)(int, char const *); REAL(setlocale, F);
	if (!inLib() || !l) return real_setlocale(c, l);
	fn(); ++localeSets; if (detect) checkRange(self, (uintptr_t)&libcCell[6], 8, true); if (recording) recDirty.push_back(self->ev + 1); char * r = real_setlocale(c, l); fn(); return r;
}
// ============================================================ C library functions that keep their result in static storage
#define LIBC_STATIC(ix, name, ret, params, args) \
ret name params noexcept { typedef ret (*F) params; REAL(name, F); if (!inLib()) return real_##name args; \
	fn(); if (detect) checkRange(self, (uintptr_t)&libcCell[ix], 8, true); if (recording) recDirty.push_back(self->ev + 1); ret r = real_##name args; fn(); return r; }
LIBC_STATIC(0, ecvt, char *, (double d, int n, int * p, int * s), (d, n, p, s))
LIBC_STATIC(1, fcvt, char *, (double d, int n, int * p, int * s), (d, n, p, s))
LIBC_STATIC(2, strtok, char *, (char * s, char const * d), (s, d))
LIBC_STATIC(3, localtime, struct tm *, (time_t const * t), (t))
LIBC_STATIC(3, gmtime, struct tm *, (time_t const * t), (t))
LIBC_STATIC(4, asctime, char *, (struct tm const * t), (t))
LIBC_STATIC(4, ctime, char *, (time_t const * t), (t))
LIBC_STATIC(5, strerror, char *, (int e), (e))
// ============================================================ files (only counted)
int open(char const * f, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); if (inLib()) ++fileOpens; return (int)syscall(SYS_openat, AT_FDCWD, f, fl, m); }
int open64(char const * f, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); if (inLib()) ++fileOpens; return (int)syscall(SYS_openat, AT_FDCWD, f, fl, m); }
FILE * fopen(char const * f, char const * m) { typedef FILE * (*F)(char const *, char const *); REAL(fopen, F); if (inLib()) ++fileOpens; return real_fopen(f, m); }
FILE * fopen64(char const * f, char const * m) { typedef FILE * (*F)(char const *, char const *); REAL(fopen64, F); if (inLib()) ++fileOpens; return real_fopen64(f, m); }
} // extern "C"
std::locale simLocaleGlobal(std::locale const & l) asm("_ZNSt6locale6globalERKS_");
std::locale simLocaleGlobal(std::locale const & l) {
	typedef std::locale (*F)(std::locale const &);
	static F real = (F)dlsym(RTLD_NEXT, "_ZNSt6locale6globalERKS_");
	if (!inLib()) return real(l);
	fn(); if (!(l == std::locale())) { ++localeSets; if (recording) recDirty.push_back(self->ev + 1); }
	std::locale r = [&] { Harness h; return real(l); }();     // it holds the standard library's lock: nothing else happens meanwhile
	fn(); return r;
}
