// C11 C12 C16: process life, call history, side effects.
#include "calls.h"
#include <cfenv>
#include <clocale>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <iostream>
#include <signal.h>
#include <stdio_ext.h>
#include <wchar.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
#include <xmmintrin.h>
#include <linux/memfd.h>

void genPreempts(rt::Rng & r, Plan & p, int nth, std::function<void(Plan const &, int)> const & runThread);

// ================================================================ C11
// The documented values of the constants, in lib_constants() order.  A null has some component that is not a number.
static std::string checkConstants(double const * c, unsigned n) {
	double pi = 3.14159265358979323846; unsigned at = 0; char b[200];
	auto bad = [&](char const * nm) { snprintf(b, sizeof b, "constant %s reads %.17g ...", nm, at < n ? c[at] : 0.); return std::string(b); };
	auto want = [&](std::vector<double> const & w) { for (size_t i = 0; i < w.size(); ++i) if (at + i >= n || !(std::fabs(c[at + i] - w[i]) <= 2.3e-16 * std::fabs(w[i]))) return false; return true; };
	for (int k = 0; k < 10; ++k) {
		bool null = false; for (unsigned i = 0; i < kindDim[k]; ++i) null |= at + i < n && c[at + i] != c[at + i];
		if (!null) return bad((std::string("null<") + kindNames[k] + ">").c_str());
		at += kindDim[k];
		if (!want(std::vector<double>(kindDim[k], 0.))) return bad((std::string("zero<") + kindNames[k] + ">").c_str());
		at += kindDim[k];
	}
	struct W { char const * nm; std::vector<double> w; };
	std::vector<W> ws{{"one<Scalar>", {1}}, {"one<Spinor>", {1, 0, 0, 0}}, {"one<MultiVector>", {1, 0, 0, 0, 0, 0, 0, 0}}, {"e0", {1}}, {"e1", {1, 0, 0}}, {"e2", {0, 1, 0}}, {"e3", {0, 0, 1}}, {"e23", {1, 0, 0}}, {"e31", {0, 1, 0}}, {"e12", {0, 0, 1}}, {"e123", {1}},
		{"pi", {pi}}, {"piHalf", {pi / 2}}, {"piQtr", {pi / 4}}, {"turnFull", {2 * pi}}, {"turnHalf", {pi}}, {"turnQtr", {pi / 2}}};
	for (auto & w : ws) { if (!want(w.w)) return bad(w.nm); at += (unsigned)w.w.size(); }
	if (at != n) { snprintf(b, sizeof b, "%u constant components, %u documented", n, at); return b; }
	return "";
}
// v version, s identity, c constants: runs the calls and returns "" or what is wrong ("!" prefix: threw)
struct Outcome { bool threw; char text[400]; };
static void probeNow(char what, Outcome & o) {
	o.threw = false; o.text[0] = 0;
	if (what == 'c') {
		double c[256]; unsigned n = 0;
		try { rt::LibCall k; n = lib_constants(c); } catch (...) { o.threw = true; return; }
		rt::Harness h;
		snprintf(o.text, sizeof o.text, "%s", checkConstants(c, n).c_str());
		return;
	}
	char const * want = what == 'v' ? lib_versionText : lib_identityText; size_t n = strlen(want);
	try {
		std::string s; { rt::LibCall k; if (what == 'v') lib_version(s); else lib_identity(s); }
		rt::Harness h;
		if (s.size() != n || memcmp(s.data(), want, n)) { char b[200]; size_t m = std::min<size_t>(s.size(), 80); for (size_t i = 0; i < m; ++i) b[i] = s.data()[i] >= 32 && s.data()[i] < 127 ? s.data()[i] : '?'; b[m] = 0; snprintf(o.text, sizeof o.text, "%s returned [%s] (%zu characters) instead of [%s]", what == 'v' ? "projectVersion()" : "sourceIdentity()", b, s.size(), want); }
	} catch (...) { o.threw = true; }
}
static char pickWhat(rt::Rng & r) { return "vvsscv"[r.below(6)]; }
static void dry11(Plan const & p, int t) { for (auto & l : p.items) if (l.at(0) == "th" && l.num(1) == t) { Outcome o; probeNow(l.at(2)[0], o); } }
static Plan gen11(rt::Rng & r, int, uint64_t) {
	Plan p; int m = (int)r.below(20);
	if (m < 10) {
		p.set("mode", "threads"); int nth = (int)r.range(1, 4);
		char common = pickWhat(r); bool same = r.chance(.6);
		int calls = 0;
		for (int t = 1; t <= nth; ++t) { int n = (int)r.range(1, 3); for (int j = 0; j < n; ++j, ++calls) { p.add({"th", S(t), std::string(1, j == 0 && same ? common : pickWhat(r))}); } }
		genPreempts(r, p, nth, dry11);
		if (r.chance(.5)) { int k = (int)r.range(1, 3); for (int i = 0; i < k; ++i) p.add({"alloc", S((int64_t)r.below(calls)), (r.chance(.3) ? "f" : "a") + S((int64_t)r.below(3))}); }
	} else if (m < 18) {
		p.set("mode", "exit"); int n = (int)r.range(1, 6); std::vector<std::string> again;
		for (int i = 0; i < n; ++i) {
			char const * k = r.chance(.45) ? "reg" : r.chance(.6) ? "call" : r.chance(.5) ? "thr" : "tls";
			if (r.chance(.4)) { std::vector<std::string> w{k, "o"}; for (auto & x : again.empty() || r.chance(.5) ? again = genCall(r, (int)r.below(3), .6) : again) w.push_back(x); p.add(w); continue; }
			p.add({k, std::string(1, pickWhat(r))});
			if (!strcmp(k, "call") && r.chance(.25)) p.add({"alloc", S((int64_t)p.items.size() - 1), (r.chance(.3) ? "f" : "a") + S((int64_t)r.below(3))});
		}
		if (r.chance(.15)) p.set("quick", 1);
	} else {
		p.set("mode", "exec"); static char const * combos[] = {"c", "v", "s", "cv", "vs", "cs", "cvs", "o", "co", "ov"};
		p.set("pre", combos[r.below(10)]); p.set("exitcheck", (int64_t)r.below(2));
	}
	if (r.chance(.6)) { p.set("fresh", (int64_t)r.below(256)); p.set("freed", (int64_t)r.below(256)); }
	return p;
}
struct ExitRec { int registered, ran; char what; Outcome o; GCall const * call; char name[80]; int n; char want[1500]; };
static ExitRec * exitRec;
static void probeCall(ExitRec & e) {
	std::string s = perform(*e.call, Env()); e.o.threw = false; e.o.text[0] = 0; rt::Harness h;
	if (s.compare(0, sizeof e.want, e.want, (size_t)e.n)) snprintf(e.o.text, sizeof e.o.text, "%s gives [%.120s] instead of [%.*s]", e.name, s.c_str(), std::min(e.n, 120), e.want);
}
static void exitProbe(ExitRec & e) { if (e.what == 'o') probeCall(e); else probeNow(e.what, e.o); }
static void exitHandler(void * v) { auto e = (ExitRec *)v; exitProbe(*e); e->ran = 1; }
extern "C" int __cxa_atexit(void (*)(void *), void *, void *) noexcept;
static ExitRec * quickRec[32]; static int nquick;
static void quickAll() { while (nquick > 0) exitHandler(quickRec[--nquick]); }
struct TlsGuard { ExitRec * e = nullptr; ~TlsGuard() { if (e) exitHandler(e); } };
static thread_local TlsGuard tlsGuard[4];
int c11Child(int argc, char ** argv) {
	rt::enterSim();
	auto say = [](char const * s) { (void)!syscall(SYS_write, 1, s, strlen(s)); };
	char const * pre = getenv("SIM_PREMAIN"); if (!pre) pre = "";
	if (!lib_premain.ran) { say("HARNESS the pre-main probe did not run"); return 0; }
	if (lib_premain.threw) { say("a call before main threw"); return 0; }
	if (strchr(pre, 'v') && strcmp(lib_premain.version, lib_versionText)) { say("projectVersion() called before main returned ["); say(lib_premain.version); say("]"); return 0; }
	if (strchr(pre, 's') && strcmp(lib_premain.identity, lib_identityText)) { say("sourceIdentity() called before main returned ["); say(lib_premain.identity); say("]"); return 0; }
	if (strchr(pre, 'c')) {
		std::string w = checkConstants(lib_premain.consts, lib_premain.nconsts); if (!w.empty()) { say("before main: "); say(w.c_str()); return 0; }
	}
	if (strchr(pre, 'o')) {
		static LibDigest now; lib_digest(now);
		if (now.n != lib_preDigest.n) { say("HARNESS the operations before main were not called"); return 0; }
		for (unsigned i = 0; i < now.n; ++i) if (now.h[i] != lib_preDigest.h[i]) { say(now.name[i]); say(" of "); say(kindNames[now.kind[i]]); say(" gives another result when called before main"); return 0; }
	}
	for (char w : std::string("vsc")) { Outcome o; probeNow(w, o); if (o.threw) { say("call in main threw"); return 0; } if (o.text[0]) { say(o.text); return 0; } }
	say("OK"); (void)argc; (void)argv;
	return 0;
}
static void run11(Plan const & p) {
	fillFrom(p);
	std::string mode = p.str("mode"); rt::sig(mode);
	std::map<int64_t, rt::AllocPlan> allocs; for (auto & l : p.items) if (l.at(0) == "alloc") allocs[l.num(1)] = allocFrom(l, 2);
	if (mode == "threads") {
		struct C { int t; char what; Outcome o, again; bool hit; }; std::vector<C> calls; int nth = 0;
		for (auto & l : p.items) if (l.at(0) == "th") { C c{}; c.t = (int)l.num(1); c.what = l.at(2)[0]; if (c.t >= 1 && c.t <= 5) { calls.push_back(c); nth = std::max(nth, c.t); } }
		rt::setTouch((uint32_t)p.num("touch"), (uint64_t)p.num("tseed"));
		std::vector<rt::Preempt> pre; for (auto & l : p.items) if (l.at(0) == "pre") pre.push_back({(int)l.num(1), l.u64(2), (int)l.num(3)});
		std::vector<std::function<void()>> bodies;
		for (int t = 1; t <= nth; ++t) bodies.push_back([&, t] { for (size_t i = 0; i < calls.size(); ++i) if (calls[i].t == t) {
			auto & c = calls[i]; auto a = allocs.find((int64_t)i);
			rt::setAllocPlan(a == allocs.end() ? rt::AllocPlan{} : a->second);
			probeNow(c.what, c.o); c.hit = rt::allocFailed() > 0; rt::clearAllocPlan();
			probeNow(c.what, c.again);
		} });
		if (bodies.empty()) return;
		rt::runThreads(bodies, pre, (int)p.num("first"), true);
		if (rt::violated()) return;
		for (auto & c : calls) {
			rt::sig((uint64_t)c.what); rt::sig((uint64_t)c.t); rt::log("T%d %c hit=%d threw=%d", c.t, c.what, c.hit, c.o.threw);
			rt::sampleAdd("T%d calls %c%s; ", c.t, c.what, c.hit ? " with failing allocation" : "");
			if (c.o.threw && !c.hit) return rt::violation("throws", "call %c by thread %d threw though memory was available", c.what, c.t);
			if (!c.o.threw && c.o.text[0]) return rt::violation("wrong-value", "thread %d: %s%s", c.t, c.o.text, c.hit ? " (an allocation failed in this call)" : "");
			if (c.again.threw || c.again.text[0]) return rt::violation("wrong-value", "thread %d, second call: %s", c.t, c.again.threw ? "threw" : c.again.text);
			if (c.hit) { rt::rep->nontrivial = 1; rt::probe(c.o.threw ? "allocation failure in a call reported by exception" : "allocation failure in a call tolerated"); }
		}
		rt::sig(rt::rep->hash);
		if (rt::rep->switches) { rt::rep->nontrivial = 1; rt::probe("concurrent first calls interleaved"); }
	} else if (mode == "exit") {
		exitRec = (ExitRec *)rt::sharedAlloc(sizeof(ExitRec) * 40); memset(exitRec, 0, sizeof(ExitRec) * 40);
		bool quick = p.num("quick");
		struct First { int n; char b[1500]; } * first = (First *)rt::sharedAlloc(sizeof(First) * 40); std::vector<GCall> pc;
		for (auto & l : p.items) {
			GCall c; if (l.at(1) == "o") c = parseCall(l, 2);
			if (c.use && pc.size() < 40) { First & f = first[pc.size()]; rt::inFork([&] { static rt::Report own; rt::rep = &own; std::string s = perform(c, Env()); f.n = (int)std::min(s.size(), sizeof f.b); memcpy(f.b, s.data(), (size_t)f.n); }); } else c.use = false;
			pc.push_back(c);
		}
		int st = rt::inFork([&] {
			int ntls = 0, n = 0; int64_t li = -1;
			for (auto & l : p.items) {
				++li;
				if (n >= 40 || l.at(1).empty()) continue;
				std::string k = l.at(0); char w = l.at(1)[0]; if (w != 'v' && w != 's' && w != 'c' && w != 'o') continue;
				if (w == 'o' && !((size_t)li < pc.size() && pc[(size_t)li].use)) continue;
				ExitRec & e = exitRec[n]; e.what = w;
				if (w == 'o') { e.call = new GCall(pc[(size_t)li]); snprintf(e.name, sizeof e.name, "%s", e.call->name().c_str()); e.n = first[li].n; memcpy(e.want, first[li].b, (size_t)e.n); }
				if (k == "reg") { ++n; e.registered = 1; if (quick) { if (!nquick) at_quick_exit(quickAll); if (nquick < 32) quickRec[nquick++] = &e; } else __cxa_atexit(exitHandler, &e, nullptr); }
				else if (k == "call") { ++n; e.registered = 2; auto a = allocs.find(li); rt::setAllocPlan(a == allocs.end() ? rt::AllocPlan{} : a->second); exitProbe(e); bool hit = rt::allocFailed() > 0; rt::clearAllocPlan(); if (e.o.threw && hit) e.o.threw = false; e.ran = 1; }
				else if (k == "tls" && ntls < 4 && !quick) { ++n; e.registered = 1; tlsGuard[ntls++].e = &e; }
				else if (k == "thr") { ++n; e.registered = 1; std::thread([&e] { tlsGuard[0].e = &e; }).join(); }
			}
			rt::finishRun(); rt::rep->done = 0;
			rt::fired(rt::F_PROC_EXIT);
			if (quick) quick_exit(0); else exit(0);
		});
		rt::log("exit status %d", st);
		if (rt::violated()) return;
		if (st) return rt::violation("dies-at-exit", "a call made while the process shuts down ended it abnormally (wait status %d)", st);
		for (int i = 0; i < 40; ++i) if (exitRec[i].registered) {
			auto & e = exitRec[i]; rt::sig((uint64_t)e.what); rt::sig((uint64_t)e.registered); rt::sig(quick);
			rt::sampleAdd("%s %s; ", e.registered == 1 ? "exit-time call" : "call", e.what == 'o' ? e.name : std::string(1, e.what).c_str()); if (e.what == 'o') { rt::sig(e.name); if (e.registered == 1) rt::probe("operations called during process shutdown"); }
			if (!e.ran) return rt::violation("dies-at-exit", "an exit handler did not complete");
			if (e.registered == 1) { rt::rep->nontrivial = 1; rt::probe("calls made during process shutdown"); }
			if (e.o.threw) return rt::violation("throws", "call %s %s threw", e.what == 'o' ? e.name : std::string(1, e.what).c_str(), e.registered == 1 ? "during shutdown" : "in main");
			if (e.o.text[0]) return rt::violation("wrong-value", "%s: %s", e.registered == 1 ? "during process shutdown" : "in main", e.o.text);
		}
	} else {
		int fd[2]; if (pipe(fd)) rt::harnessError("pipe");
		std::string pre = "SIM_PREMAIN=" + p.str("pre"); rt::sig(p.str("pre")); rt::sampleAdd("library used before main: %s; ", p.str("pre").c_str());
		char const * argv[] = {"sim", "c11child", nullptr}; char const * envp[] = {pre.c_str(), nullptr};
		int st = rt::inFork([&] { dup2(fd[1], 1); execve("/proc/self/exe", (char **)argv, (char **)envp); _exit(98); });
		close(fd[1]); char b[600]; ssize_t n = 0, k; while (n < (ssize_t)sizeof b - 1 && (k = read(fd[0], b + n, sizeof b - 1 - (size_t)n)) > 0) n += k; b[n] = 0;
		rt::fired(rt::F_PREMAIN); rt::rep->nontrivial = 1; rt::log("child %d %s", st, b);
		if (WIFEXITED(st) && WEXITSTATUS(st) == 98) rt::harnessError("exec failed");
		if (!strncmp(b, "HARNESS", 7)) rt::harnessError("%s", b);
		if (st) return rt::violation("dies-before-main", "a process that uses the library before main dies (wait status %d) %s", st, b);
		if (strcmp(b, "OK")) return rt::violation("wrong-value", "%s", b);
		rt::probe("processes that used the library before main");
	}
}
Scenario const sc_C11 = {"C11", gen11, run11};

// ================================================================ generic calls (C12, C16)
GCall parseCall(Line const & l, size_t at) {
	GCall c; c.what = l.at(at);
	if (c.what == "op") {
		c.op = opByName(l.at(at + 1)); if (!c.op) return c; size_t i = at + 2;
		for (int k = 0; k < c.op->n; ++k) { if (i >= l.w.size()) return c; c.v[k] = parseVal(l, i); if (c.v[k].k != c.op->a[k]) return c; i += 1 + kindDim[c.v[k].k]; }
		c.use = true;
	}
	else if (c.what == "ins") { c.loc = l.at(at + 1); c.v[0] = parseVal(l, at + 2); c.use = true; }
	else if (c.what == "fixed") { c.a = (int)l.num(at + 1); c.b = (int)l.num(at + 2); c.v[0] = parseVal(l, at + 3); c.use = lib_hasEncoder(c.v[0].k); }
	else if (c.what == "enote") { c.a = (int)l.num(at + 1); c.v[0] = parseVal(l, at + 2); c.use = lib_hasEncoder(c.v[0].k); }
	else if (c.what == "ext") { c.v[0].k = kindByName(l.at(at + 1)); c.loc = l.at(at + 2); c.text = unesc(l.at(at + 3)); c.chunks = parseList(l.at(at + 4)); c.use = true; }
	else if (c.what == "ver" || c.what == "idn") c.use = true;
	return c;
}
Val lastVal; std::string lastText;     // what the last call at depth 0 returned, to be used by a later one
static Obj slots[16][5];     // arguments always live at the same addresses
std::string perform(GCall const & c, Env const & e, int depth) {
	Obj * slot = (Obj *)((char *)slots[depth & 15] + (e.shift & 7) * 8);     // a value may live at any address a double may
	std::string out, ex; char b[200];
	try {
		if (c.what == "op") {
			void const * args[3]; for (int i = 0; i < 3; ++i) { args[i] = &slot[i]; if (i < c.op->n) c.v[i].make(slot[i]); }
			if (e.alias && c.op->n >= 2 && c.v[0].k == c.v[1].k && !memcmp(c.v[0].c, c.v[1].c, kindDim[c.v[0].k] * sizeof(double))) args[1] = &slot[0];     // one object as both operands
			memset(&slot[3], 0, sizeof(Obj));
			{ rt::LibCall k; c.op->fn(args, &slot[3]); }
			Val res = Val::from(c.op->r, slot[3]); out = res.text(); if (!depth) lastVal = res;
			for (int i = 0; i < c.op->n; ++i) if (!Val::from(c.v[i].k, slot[i]).same(c.v[i])) out += " and modified operand " + S(i);
		} else if (c.what == "ins") {
			SimSink s(0); s.faults = e.faults; std::ostream os(&s); os.exceptions(maskOf(e.mask)); if (!c.loc.empty() && c.loc != "C") os.imbue(simLocale(c.loc)); c.v[0].make(slot[0]);
			try { rt::LibCall k; lib_insert(os, c.v[0].k, &slot[0]); } catch (...) { ex = current_exception_name(); }
			snprintf(b, sizeof b, " state %d flags %x prec %d width %d", stateBits(os.rdstate()), (unsigned)os.flags(), (int)os.precision(), (int)os.width()); out = esc(s.out) + b; if (!depth) { rt::Harness h; lastText = s.out; }
		} else if (c.what == "ext") {
			SimSource s(c.text); s.faults = e.faults; if (!c.chunks.empty()) s.chunks = c.chunks; std::istream is(&s); is.exceptions(maskOf(e.mask)); if (!c.loc.empty() && c.loc != "C") is.imbue(simLocale(c.loc));
			Val z; z.k = c.v[0].k; for (auto & d : z.c) d = 77.; z.make(slot[0]);
			try { rt::LibCall k; lib_extract(is, z.k, &slot[0]); } catch (...) { ex = current_exception_name(); }
			snprintf(b, sizeof b, " state %d flags %x rest %zu valid %d", stateBits(is.rdstate()), (unsigned)is.flags(), s.rest().size(), lib_valid(z.k, &slot[0])); Val res = Val::from(z.k, slot[0]); out = res.text() + b; if (!depth) lastVal = res;
		} else if (c.what == "ver" || c.what == "idn") { std::string s; { rt::LibCall k; if (c.what == "ver") lib_version(s); else lib_identity(s); } out.assign(s.data(), s.size()); }
		else { c.v[0].make(slot[0]); std::string s; { rt::LibCall k; if (c.what == "fixed") lib_fixed(c.v[0].k, &slot[0], c.a, c.b, s); else lib_enote(c.v[0].k, &slot[0], c.a, s); } out = esc(std::string(s.data(), s.size())); if (!depth) { rt::Harness h; lastText = s; } }
	} catch (...) { ex = current_exception_name(); }
	return ex.empty() ? out : out + " threw " + ex;
}
std::vector<std::string> opWords(Op const & o, std::vector<Val> const & v) { std::vector<std::string> w{"op", opName(o)}; for (auto & x : v) for (auto & s : valWords(x)) w.push_back(s); return w; }
std::vector<std::string> genCall(rt::Rng & r, int fl, double pOp) {
	if (!r.chance(pOp)) return genIoWords(r, fl);
	// functions are few, operator overloads many, constants cannot depend on much: give each its share
	static std::map<std::string, std::vector<Op const *>> by; static std::vector<std::string> names; static std::vector<Op const *> fun, plain;
	if (by.empty()) { for (auto x : allOps()) { if (x->g == G_FUN || x->g == G_MAG) fun.push_back(x); if (x->g == G_CONST || x->g == G_IDX) { plain.push_back(x); continue; } by[x->name].push_back(x); } for (auto & b : by) names.push_back(b.first); }
	double u = r.unit(); std::vector<Val> v;
	Op const * o = u < .35 ? r.pick(by[r.pick(names)]) : u < .65 ? r.pick(fun) : u < .95 ? r.pick(allOps()) : r.pick(plain);
 for (int i = 0; i < o->n; ++i) v.push_back(genVal(r, o->a[i], fl));
	if (o->n == 2 && v[0].k == v[1].k && r.chance(.3)) v[1] = v[0];
	return opWords(*o, v);
}
// an argument changed as little as possible
static double nudge(rt::Rng & r, double d) { switch (r.below(6)) { case 0: return -d; case 1: return std::nextafter(d, INFINITY); case 2: return d == 0. ? (std::signbit(d) ? 0. : -0.) : d * (1 + 1e-12); case 3: return NAN; case 4: return d + 1; default: return genDouble(r, 1); } }
std::vector<std::string> perturb(rt::Rng & r, std::vector<std::string> w) {
	std::vector<size_t> num; for (size_t i = 0; i < w.size(); ++i) for (int k = 0; k <= K_DBL; ++k) if (w[i] == kindNames[k] && w[0] != "ext") for (unsigned j = 1; j <= kindDim[k] && i + j < w.size(); ++j) num.push_back(i + j);
	if ((w[0] == "fixed" || w[0] == "enote") && r.chance(.5)) { w[r.chance(.5) && w[0] == "fixed" ? 2 : 1] = S(r.chance(.4) ? -1 : r.chance(.1) ? dictInt(r, 0, 2000) : r.chance(.6) ? r.range(0, 20) : r.range(20, 80)); return w; }
	if (w[0] == "ext") {    // the same type from another text
		if (r.chance(.3)) { w[2] = w[2] == "C" ? r.pick(simLocaleNames()) : "C"; return w; }
		for (int tries = 0; tries < 300; ++tries) { auto q = genIoWords(r, 0); if (q[0] == "ext" && q[1] == w[1]) return q; }
	}
	if (w[0] == "ins" && r.chance(.3)) { w[1] = w[1] == "C" ? r.pick(simLocaleNames()) : "C"; return w; }
	if (num.empty()) return w;
	size_t i = r.chance(.4) ? num.back() : r.pick(num);
	w[i] = hexd(nudge(r, unhexd(w[i]))); return w;
}
// the same call with one whole operand replaced (its first use keeps the others)
std::vector<std::string> otherOperand(rt::Rng & r, std::vector<std::string> const & w, int fl) {
	if (w[0] != "op") return perturb(r, w);
	Op const * o = opByName(w[1]); Line l; l.w = w; std::vector<Val> v; size_t i = 2; for (int k = 0; k < o->n; ++k) { v.push_back(parseVal(l, i)); i += 1 + kindDim[v.back().k]; }
	if (v.empty()) return w;
	size_t k = r.chance(.6) ? v.size() - 1 : r.below(v.size()); v[k] = genVal(r, o->a[k], fl); return opWords(*o, v);
}
std::vector<std::string> related(rt::Rng & r, std::vector<std::string> const & h, int fl) {
	if (h[0] == "op") { Op const * o = opByName(h[1]); auto same = opsWhere([&](Op const & x) { return !strcmp(x.name, o->name); }); Op const * q = r.pick(same); std::vector<Val> v; for (int k = 0; k < q->n; ++k) v.push_back(genVal(r, q->a[k], fl)); return opWords(*q, v); }
	std::vector<std::string> w; do w = genIoWords(r, fl); while (w[0] != h[0]); return w;
}
static void genEnvLines(rt::Rng & r, Plan & p, int64_t i, std::string const & what, double pf) {
	if (r.chance(pf)) p.add({"alloc", S(i), (r.chance(.35) ? "f" : "a") + S((int64_t)r.below(r.chance(.7) ? 4 : 16))});
	if ((what == "ins" || what == "ext") && r.chance(pf)) p.add({"dev", S(i), S((int64_t)r.below(60)), S(r.chance(.5) ? 0 : r.range(1, 4)), S(r.chance(.5) ? -1 : 1)});
	if ((what == "ins" || what == "ext") && r.chance(.3)) p.add({"mask", S(i), S(r.range(1, 7))});
	if (what == "op" && r.chance(.4)) p.add({"alias", S(i)});
	if (r.chance(.4)) p.add({"shift", S(i), S(r.range(1, 7))});
	if (r.chance(.15)) p.add({"errno", S(i), S(r.range(1, 40))});
	if (r.chance(.02)) p.add({"reps", S(i), S(r.chance(.15) ? dictInt(r, 8, 70000) : r.chance(.85) ? r.range(8, 300) : r.chance(.95) ? r.range(300, 5000) : r.range(60000, 70000))});
	if (r.chance(.15)) p.add({"clock", S(i), std::to_string(r.next() >> 2)});
}
struct Faults { std::map<int64_t, rt::AllocPlan> alloc; std::map<int64_t, Env> env; std::map<int64_t, int> err; std::map<int64_t, uint64_t> clock; std::map<int64_t, int> reps; };
static Faults faultsOf(Plan const & p) {
	Faults f;
	for (auto & l : p.items) { int64_t i = l.num(1); 
		if (l.at(0) == "alias") f.env[i].alias = true; else if (l.at(0) == "shift") f.env[i].shift = (int)l.num(2); else if (l.at(0) == "alloc") f.alloc[i] = allocFrom(l, 2); else if (l.at(0) == "dev") f.env[i].faults.push_back({l.u64(2), (int)l.num(3), (int)l.num(4)});
		else if (l.at(0) == "mask") f.env[i].mask = (int)l.num(2); else if (l.at(0) == "errno") f.err[i] = (int)l.num(2); else if (l.at(0) == "clock") f.clock[i] = l.u64(2); else if (l.at(0) == "reps") f.reps[i] = (int)std::min<int64_t>(70000, l.num(2)); }
	return f;
}

// ================================================================ C12
static Kind resultKind(std::vector<std::string> const & w) { if (w[0] == "op") return opByName(w[1])->r; if (w[0] == "ext") return kindByName(w[1]); return K_NONE; }
// a call that takes what an earlier call returned: words and the operand's position
static bool genFollow(rt::Rng & r, int fl, std::vector<std::string> const & h, std::vector<std::string> & w, int & at) {
	Kind k = resultKind(h);
	if (k == K_NONE) { if (h[0] != "ins" && h[0] != "fixed" && h[0] != "enote") return false; for (int t = 0; t < 60; ++t) { w = genIoWords(r, fl); if (w[0] == "ext") { at = 0; w[2] = "C"; return true; } } return false; }
	if (k == K_BOOL) return false;
	if (k != K_DBL && r.chance(.25)) for (int t = 0; t < 60; ++t) { w = genIoWords(r, fl); if (w[0] == "ins" || w[0] == "fixed" || w[0] == "enote") { for (size_t i = 1; i < w.size(); ++i) if (w[i] == kindNames[k]) { at = 0; return true; } } }
	auto can = opsWhere([&](Op const & x) { for (int i = 0; i < x.n; ++i) if (x.a[i] == k && x.g != G_CONST && x.g != G_IDX) return true; return false; });
	auto fun = opsWhere([&](Op const & x) { for (int i = 0; i < x.n; ++i) if (x.a[i] == k && x.g == G_FUN) return true; return false; });
	if (can.empty()) return false;
	Op const * o = !fun.empty() && r.chance(.5) ? r.pick(fun) : r.pick(can); std::vector<Val> v; std::vector<int> pos;
	for (int i = 0; i < o->n; ++i) { v.push_back(genVal(r, o->a[i], fl)); if (o->a[i] == k) pos.push_back(i); }
	at = r.pick(pos); w = opWords(*o, v); return true;
}
// a call with its operands scaled to another magnitude
static std::vector<std::string> rescale(rt::Rng & r, std::vector<std::string> const & w) {
	if (w[0] != "op") return perturb(r, w);
	Op const * o = opByName(w[1]); Line l; l.w = w; std::vector<Val> v; size_t i = 2; for (int k = 0; k < o->n; ++k) { v.push_back(parseVal(l, i)); i += 1 + kindDim[v.back().k]; }
	if (v.empty()) return w;
	for (auto & x : v) if (x.k < K_BOOL) {
		double m = 0; for (unsigned j = 0; j < kindDim[x.k]; ++j) if (std::isfinite(x.c[j])) m = std::max(m, std::fabs(x.c[j]));
		double z = edgeScale(r); if (m == 0.) { x.c[r.below(kindDim[x.k])] = z; continue; }
		for (unsigned j = 0; j < kindDim[x.k]; ++j) x.c[j] = x.c[j] / m * z;
	}
	return opWords(*o, v);
}
// all operands a little longer or shorter, or one component a little other
static std::vector<std::string> nearby(rt::Rng & r, std::vector<std::string> const & w) {
	if (w[0] != "op") return perturb(r, w);
	Op const * o = opByName(w[1]); Line l; l.w = w; std::vector<Val> v; size_t i = 2; for (int k = 0; k < o->n; ++k) { v.push_back(parseVal(l, i)); i += 1 + kindDim[v.back().k]; }
	if (v.empty()) return w;
	double f = 1. + (r.chance(.5) ? 1 : -1) * std::pow(10., -(double)r.range(2, 15)); auto & x = v[r.below(v.size())]; bool one = r.chance(.4); size_t at = r.below(kindDim[x.k]);
	if (r.chance(.25)) {    // what sums, sorted or folded keys can not tell apart
		size_t b = r.below(kindDim[x.k]); double d = (double)r.range(1, 8) * .25;
		switch (r.below(5)) { case 0: std::swap(x.c[at], x.c[b]); break; case 1: x.c[at] += d; x.c[b] -= d; break; case 2: x.c[at] = -x.c[at]; x.c[b] = -x.c[b]; break; case 3: for (auto & c : x.c) c = 0.; break; default: std::rotate(x.c, x.c + at, x.c + kindDim[x.k]); }
		return opWords(*o, v);
	}
	for (unsigned j = 0; j < kindDim[x.k]; ++j) if (!one || j == at) x.c[j] *= f;
	return opWords(*o, v);
}
// many calls, to be made in two orders
static Plan gen12sweep(rt::Rng & r, int tier) {
	Plan p; int n = (int)r.range(10, r.chance(.3) ? tier ? 400 : 160 : 50); int fl = r.chance(.3) ? 0 : r.chance(.8) ? 1 : 2; double pOp = r.chance(.75) ? 1. : .3; bool one = r.chance(.6);
	std::vector<std::vector<std::string>> h;
	for (int i = 0; i < n; ++i) {
		std::vector<std::string> w;
		if (h.empty()) do w = genCall(r, fl, pOp); while (w[0] == "op" && w.size() < 3);
		else {
			auto const & b = r.chance(.5) ? h.back() : r.pick(h); double u = r.unit();
			w = u < .25 ? nearby(r, b) : u < .45 ? rescale(r, b) : u < .6 ? perturb(r, b) : u < .7 ? otherOperand(r, b, fl) : u < .9 ? one ? related(r, b, fl) : genCall(r, fl, pOp) : b;
		}
		h.push_back(w); std::vector<std::string> l{"sw"}; l.insert(l.end(), w.begin(), w.end()); p.add(l);
	}
	p.set("order", r.chance(.5) ? 0 : (int64_t)(r.next() >> 40));
	p.set("fresh", (int64_t)r.below(256)); p.set("freed", (int64_t)r.below(256));
	genGlobal(r, p, .25);
	return p;
}
struct Sweep { uint64_t hash[512]; char text[512][400]; };
static void runSweep(Plan const & p) {
	globalFrom(p); rt::setFill(0xCB, 0xDD); rt::setStackFill(0xA5);
	std::vector<GCall> c; for (auto & l : p.items) if (l.at(0) == "sw" && c.size() < 512) { GCall k = parseCall(l, 1); if (k.use) c.push_back(k); }
	static Sweep * a = (Sweep *)rt::sharedAlloc(sizeof(Sweep)), * b = (Sweep *)rt::sharedAlloc(sizeof(Sweep));
	std::vector<size_t> order(c.size()); for (size_t i = 0; i < c.size(); ++i) order[i] = i;
	auto pass = [&](Sweep * s, bool own) {
		int st = rt::inFork([&] { static rt::Report rep; if (own) rt::rep = &rep; for (size_t i : order) { std::string t = perform(c[i], Env()); uint64_t h = 7; for (char k : t) h = rt::mix64(h ^ (unsigned char)k); s->hash[i] = h; size_t n = std::min(t.size(), sizeof s->text[i] - 1); memcpy(s->text[i], t.data(), n); s->text[i][n] = 0; } });
		if (st) rt::violation("dies", "a history of %zu ordinary calls ends the process (status %d)", c.size(), st);
		return !st;
	};
	if (!pass(a, true)) return;
	int64_t how = p.num("order"); rt::Rng r((uint64_t)how);
	std::reverse(order.begin(), order.end());
	if (how) for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[r.below(i)]);
	fillFrom(p);
	if (!pass(b, true)) return;
	for (size_t i = 0; i < c.size(); ++i) {
		std::string name = c[i].op ? opName(*c[i].op) : c[i].what; rt::sig(name); rt::mixHash(&a->hash[i], 8);
		if (a->hash[i] != b->hash[i]) return rt::violation("depends-on-history", "call %zu of %zu, %s: [%s] when the calls are made in this order, [%s] when they are made in %s order", i + 1, c.size(), name.c_str(), a->text[i], b->text[i], how ? "another" : "the reverse");
	}
	rt::probe("histories made in two orders"); rt::probe("calls compared between two orders", c.size()); if (c.size() > 1) rt::rep->nontrivial = 1;
	rt::sampleAdd("%zu calls in two orders; ", c.size());
}
static Plan gen12(rt::Rng & r, int tier, uint64_t) {
	if (r.chance(.25)) return gen12sweep(r, tier);
	Plan p; int n = (int)r.range(2, tier ? 16 : 10); bool focus = r.chance(.15); int fl = r.chance(.5) ? 0 : r.chance(.6) ? 1 : 2; double pop = r.chance(.3) ? .9 : r.chance(.5) ? .5 : .1;
	std::vector<std::vector<std::string>> hist; int64_t id = 0;
	for (int i = 0; i < n; ++i) {
		std::vector<std::string> w; double pf = r.chance(.5) ? 0 : .4;
		if (focus) {     // one operation with operands of all magnitudes
			if (hist.empty()) do w = genCall(r, 1, 1.); while (w[0] == "op" && w.size() < 3);
			else { auto & h = r.pick(hist); w = r.chance(.3) ? related(r, h, 1) : r.chance(.3) ? perturb(r, h) : r.chance(.2) ? h : rescale(r, r.chance(.5) ? h : related(r, h, 1)); }
		}
		else if (hist.empty() || r.chance(.4)) w = genCall(r, fl, pop);
		else if (r.chance(.35)) { size_t j = r.chance(.6) ? hist.size() - 1 : r.below(hist.size()); int at; if (genFollow(r, fl, hist[j], w, at)) p.add({"chain", S(id), S(at), S((int64_t)j)}); else w = genCall(r, fl, pop); }
		else if (r.chance(.45)) { auto & h = r.chance(.5) ? hist.back() : hist[r.below(hist.size())]; w = r.chance(.35) ? otherOperand(r, h, fl) : perturb(r, h); }
		else if (r.chance(.5)) { w = hist[r.below(hist.size())]; if (r.chance(.5)) pf = 0; }
		else w = related(r, hist.back(), fl);
		hist.push_back(w);
		std::vector<std::string> l{"call", S(id)}; l.insert(l.end(), w.begin(), w.end()); p.add(l);
		genEnvLines(r, p, id, w[0], pf); ++id;
	}
	p.set("around", (int64_t)(r.next() >> 8));
	p.set("deep", r.chance(.6) ? r.range(8, 300) : r.chance(.7) ? r.range(300, 5000) : r.range(60000, 70000));
	p.set("fresh", (int64_t)r.below(256)); p.set("freed", (int64_t)r.below(256));
	genGlobal(r, p, .25);
	return p;
}
struct Flat { bool keeps; int n; char b[8000]; Val v; int tn; char t[2000]; };
static void run12(Plan const & p) {
	for (auto & l : p.items) if (l.at(0) == "sw") return runSweep(p);
	globalFrom(p);
	Faults f = faultsOf(p); Flat * flat = (Flat *)rt::sharedAlloc(sizeof(Flat));
	struct C { int64_t id; GCall c; std::string first; Val v; std::string text; std::vector<std::string> words; bool keeps; std::vector<std::pair<GCall, std::string>> around; }; std::vector<C> calls; int swept = 0;
	for (auto & l : p.items) if (l.at(0) == "call") { GCall c = parseCall(l, 2); if (c.use) calls.push_back({l.num(1), c, "", {}, "", {l.w.begin() + 2, l.w.end()}, false, {}}); }
	rt::setFill(0xCB, 0xDD); rt::setStackFill(0xA5);
	for (auto & c : calls) {
		Env plain; if (f.env.count(c.id)) plain.mask = f.env[c.id].mask;
		for (auto & l : p.items) if (l.at(0) == "chain" && l.num(1) == c.id) for (auto & q : calls) {
			if (&q == &c) break;
			if (q.id != l.num(3)) continue;
			int k = (int)l.num(2) & 1; Kind rk = q.c.op ? q.c.op->r : q.c.what == "ext" ? q.c.v[0].k : K_NONE;
			if (c.c.what == "ext") { if (!q.text.empty()) { c.c.text = q.text; rt::probe("text of one call read by another"); } }
			else if (rk != K_NONE && rk != K_BOOL && c.c.v[k].k == rk) { c.c.v[k] = q.v; rt::probe("result of one call taken by another"); }
			break;
		}
		int st = rt::inFork([&] { static rt::Report own; rt::rep = &own; uint64_t s0 = rt::libState(); std::string s = perform(c.c, plain); flat->keeps = rt::libState() != s0; flat->n = (int)std::min(s.size(), sizeof flat->b); memcpy(flat->b, s.data(), (size_t)flat->n); flat->v = lastVal; flat->tn = (int)std::min(lastText.size(), sizeof flat->t); memcpy(flat->t, lastText.data(), (size_t)flat->tn); });
		if (st) return rt::violation("dies-alone", "%s as the first call ends the process (status %d)", c.c.what.c_str(), st);
		c.first.assign(flat->b, (size_t)flat->n); c.v = flat->v; c.text.assign(flat->t, (size_t)flat->tn);
		// a call that leaves something behind in the library is followed by many like it
		if ((c.keeps = flat->keeps) && p.cfg.count("around") && swept++ < 3) {
			rt::Rng r((uint64_t)p.num("around") ^ (uint64_t)c.id); std::vector<std::vector<std::string>> h{c.words};
			for (int k = 0; k < 60; ++k) {
				auto const & b = r.chance(.5) ? h.back() : r.chance(.5) ? h[0] : r.pick(h); double u = r.unit(); int fl = (int)r.below(3);
				h.push_back(u < .25 ? nearby(r, b) : u < .45 ? rescale(r, b) : u < .65 ? perturb(r, b) : u < .75 ? otherOperand(r, b, fl) : u < .9 ? related(r, b, fl) : b);
				Line l; l.w = h.back(); GCall g = parseCall(l, 0); if (!g.use) continue;
				if (rt::inFork([&] { static rt::Report own; rt::rep = &own; std::string s = perform(g, Env()); flat->n = (int)std::min(s.size(), sizeof flat->b); memcpy(flat->b, s.data(), (size_t)flat->n); })) continue;
				c.around.push_back({g, std::string(flat->b, (size_t)flat->n)});
			}
		}
	}
	fillFrom(p);
	int faulted = 0, n = 0; std::string story;
	for (auto & c : calls) {
		auto a = f.alloc.find(c.id); Env e = f.env.count(c.id) ? f.env[c.id] : Env();
		if (e.mask) rt::fired(rt::F_EXC_MASK);
		if (f.clock.count(c.id)) { rt::setClock(f.clock[c.id]); rt::fired(rt::F_CLOCK_JUMP); }
		rt::setAllocPlan(a == f.alloc.end() ? rt::AllocPlan{} : a->second);
		uint32_t fired0 = 0; for (auto x : rt::rep->faults) fired0 += x;
		if (f.err.count(c.id)) { rt::fired(rt::F_DIRTY_ERRNO); ++fired0; errno = f.err[c.id]; if (errno & 1) feraiseexcept(FE_ALL_EXCEPT); errno = f.err[c.id]; }
		rt::clockRead = rt::envRead = false; uint32_t rnd0 = rt::randomReads; uint64_t state = rt::libState();
		std::string got = perform(c.c, e); got = got.substr(0, sizeof flat->b);
		bool asksTime = rt::clockRead, asksChance = rt::randomReads != rnd0;
		uint32_t dev = 0; { for (int k = rt::F_EOF_TRUNC; k <= rt::F_READ_ERR_DEAD; ++k) dev += rt::rep->faults[k]; for (int k = rt::F_WRITE_SHORT; k <= rt::F_FLUSH_ERR; ++k) dev += rt::rep->faults[k]; }
		static uint32_t devSeen; bool hit = rt::allocFailed() > 0 || dev != devSeen; devSeen = dev; rt::clearAllocPlan();
		rt::log("%s %s", c.c.op ? opName(*c.c.op).c_str() : c.c.what.c_str(), got.c_str());
		rt::sig(c.c.op ? opName(*c.c.op) : c.c.what); rt::sig(c.c.v[0].k); rt::sig(hit);
		rt::sampleAdd("%s%s; ", c.c.op ? opName(*c.c.op).c_str() : c.c.what.c_str(), hit ? " (fault)" : "");
		if (hit) { ++faulted; rt::probe("failed or disturbed calls in the history"); }
		else {
			if (got != c.first) return rt::violation("depends-on-history", "call %d, %s: [%s] after %d earlier calls (%d of them disturbed), [%s] as the first call of a process", n, c.c.op ? opName(*c.c.op).c_str() : c.c.what.c_str(), got.c_str(), n, faulted, c.first.c_str());
			if (faulted) rt::probe("calls compared after a failed call"); else rt::probe("calls compared");
			// a call that looks at the clock or asks for randomness is repeated at many times and with many random numbers
			if (asksTime) { rt::probe("library read the clock"); rt::fired(rt::F_CLOCK_JUMP); }
			if (asksChance) rt::probe("library read randomness");
			for (int k = 1; rt::envRead && k < rt::ENV_MODES; ++k) {
				rt::envMode = k; std::string again = perform(c.c, e).substr(0, sizeof flat->b); rt::envMode = 0;
				if (again != c.first) return rt::violation("depends-on-environment", "%s: [%s] when an environment variable is set, [%s] without", c.c.op ? opName(*c.c.op).c_str() : c.c.what.c_str(), again.c_str(), c.first.c_str());
			}
			if (f.reps.count(c.id)) {
				rt::probe("calls made many times in a row");
				for (int k = 0; k < f.reps[c.id]; ++k) { Env e2 = e; std::string again = perform(c.c, e2).substr(0, sizeof flat->b); if (again != c.first) return rt::violation("depends-on-history", "%s: [%s] when called %d times in a row, [%s] as the first call of a process", c.c.op ? opName(*c.c.op).c_str() : c.c.what.c_str(), again.c_str(), k + 2, c.first.c_str()); }
			}
			for (size_t k = 0; k < c.around.size(); ++k) {
				GCall const & g = c.around[k].first; std::string now = perform(g, Env()).substr(0, sizeof flat->b); rt::probe("calls compared around one that left something behind");
				if (now != c.around[k].second) return rt::violation("depends-on-history", "%s: [%s] after %s and %zu calls like it, [%s] as the first call of a process", g.op ? opName(*g.op).c_str() : g.what.c_str(), now.c_str(), c.c.op ? opName(*c.c.op).c_str() : c.c.what.c_str(), k, c.around[k].second.c_str());
			}
			// a call that leaves something behind in the library, every time it is made, is made many times
			if (rt::libState() != state) {
				rt::probe("calls that left something behind in the library"); bool goes = true; int left = (int)std::min<int64_t>(70000, p.num("deep"));
				for (int k = 0; k < left && goes; ++k) {
					uint64_t s0 = k < 8 || k % 64 == 0 ? rt::libState() : 0; std::string again = perform(c.c, e).substr(0, sizeof flat->b); if (s0) goes = rt::libState() != s0;
					if (again != c.first) return rt::violation("depends-on-history", "%s: [%s] when called %d times in a row, [%s] as the first call of a process", c.c.op ? opName(*c.c.op).c_str() : c.c.what.c_str(), again.c_str(), k + 2, c.first.c_str());
				}
			}
			for (uint64_t k = 0, n = asksTime ? 12000 : asksChance ? 400 : 0; k < n && (asksTime || asksChance); ++k) {
				static uint64_t const edge[] = {0, 1, 1000000000ull, 2147483647ull * 1000000000ull, 2147483648ull * 1000000000ull, 4294967296ull * 1000000000ull};
				uint64_t at = k < 6 ? edge[k] : k < 10000 ? 1700000000000000000ull + k * 1000000000ull : 1700000000000000000ull + k * 86400000000000ull * 37 + k * 1234567;
				rt::setClock(at); std::string again = perform(c.c, e).substr(0, sizeof flat->b);
				if (again != c.first) return rt::violation(asksTime ? "depends-on-time" : "depends-on-chance", "%s: [%s] when the clock shows %llu ns, [%s] as the first call of a process", c.c.op ? opName(*c.c.op).c_str() : c.c.what.c_str(), again.c_str(), (unsigned long long)at, c.first.c_str());
			}
		}
		++n;
	}
	if (n > 1) rt::rep->nontrivial = 1;
}
Scenario const sc_C12 = {"C12", gen12, run12};

// ================================================================ C16
static Plan gen16(rt::Rng & r, int, uint64_t) {
	Plan p; int n = (int)r.range(1, 6); int fl = r.chance(.5) ? 0 : r.chance(.6) ? 1 : 2; double pop = r.chance(.5) ? .85 : .3;
	for (int64_t i = 0; i < n; ++i) {
		auto w = genCall(r, fl, pop); if (w[0] == "ins") w[1] = "C"; if (w[0] == "ext") w[2] = "C";
		std::vector<std::string> l{"call", S(i)}; l.insert(l.end(), w.begin(), w.end()); p.add(l); genEnvLines(r, p, i, w[0], r.chance(.4) ? 0 : .5);
	}
	if (r.chance(.4)) p.set("round", r.range(1, 3));
	if (r.chance(.3)) p.set("coutfmt", r.range(1, 3)); else if (r.chance(.6)) p.set("stdmix", (int64_t)(r.next() >> 20));
	if (r.chance(.4)) p.set("traps", 1);
	if (r.chance(.15)) p.set("ftz", 1);
	if (r.chance(.3)) p.set("gloc", r.pick(simLocaleNames()));
	if (r.chance(.3)) p.set("hnd", 1);
	if (r.chance(.3)) p.set("pend", 1);
	return p;
}
// handlers another part of the program has installed
static void ownNewHandler() { rt::Harness h; throw std::bad_alloc(); }
static void ownTerminate() { _exit(97); }
static void ownSignal(int) {}
static void ownHandlers() {
	std::set_new_handler(ownNewHandler); std::set_terminate(ownTerminate);
	for (int k : {SIGINT, SIGHUP, SIGPIPE, SIGUSR1, SIGUSR2, SIGCHLD, SIGWINCH}) { struct sigaction a; memset(&a, 0, sizeof a); a.sa_handler = k == SIGPIPE ? SIG_IGN : ownSignal; sigaction(k, &a, nullptr); }
	sigset_t set; sigemptyset(&set); sigaddset(&set, SIGUSR2); sigprocmask(SIG_BLOCK, &set, nullptr);
	setlocale(LC_ALL, "C.UTF-8"); umask(027); setenv("ENGABRA", "other", 1); setenv("LC_NUMERIC", "C", 1);
}
struct StdState { std::ios_base::fmtflags fl[4]; std::streamsize pr[4], wi[4]; char fi[4]; int st[4], ex[4]; void * tie[4]; void * buf[4]; std::string loc[4], gname; std::locale gl; std::string cl; std::string rest; int round; unsigned csr; unsigned short x87; int trap;
	std::new_handler nh; std::terminate_handler th; void * sigs[32]; uint64_t env; uint64_t fds; std::string cwd; uint32_t prand, opens, locs; };
static unsigned short x87cw() { unsigned short w; asm volatile("fnstcw %0" : "=m"(w)); return w; }
static void snap(StdState & s) {
	std::ios * i[4] = {&std::cin, &std::cout, &std::cerr, &std::clog};
	for (int k = 0; k < 4; ++k) { s.fl[k] = i[k]->flags(); s.pr[k] = i[k]->precision(); s.wi[k] = i[k]->width(); s.fi[k] = i[k]->fill(); s.st[k] = stateBits(i[k]->rdstate()); s.ex[k] = stateBits(i[k]->exceptions()); s.tie[k] = i[k]->tie(); s.buf[k] = i[k]->rdbuf(); s.loc[k] = i[k]->getloc().name(); }
	s.rest.clear();
	auto wide = [&](auto & w) { char b[160]; snprintf(b, sizeof b, "%x %d %d %d %d %d %p %p;", (unsigned)w.flags(), (int)w.precision(), (int)w.width(), (int)w.fill(), stateBits(w.rdstate()), stateBits(w.exceptions()), (void *)w.tie(), (void *)w.rdbuf()); s.rest += b; };
	wide(std::wcin); wide(std::wcout); wide(std::wcerr); wide(std::wclog);
	for (FILE * f : {stdin, stdout, stderr}) { char b[80]; snprintf(b, sizeof b, "file %zu %d %d %d %d;", __fbufsize(f), __flbf(f), fwide(f, 0), ferror(f), feof(f)); s.rest += b; }
	{ sigset_t set; sigemptyset(&set); sigprocmask(SIG_BLOCK, nullptr, &set); mode_t m = umask(0); umask(m); s.rest += "mask " + std::to_string(m) + " signals "; for (int k = 1; k < 64; ++k) if (sigismember(&set, k) == 1) s.rest += std::to_string(k) + ","; }
	s.gl = std::locale(); s.cl = setlocale(LC_ALL, nullptr); s.round = fegetround(); s.csr = _mm_getcsr() & ~0x3fu; s.x87 = x87cw(); s.trap = fegetexcept();
	s.nh = std::get_new_handler(); s.th = std::get_terminate();
	for (int k = 1; k < 32; ++k) { struct sigaction a; memset(&a, 0, sizeof a); sigaction(k, nullptr, &a); s.sigs[k] = (void *)a.sa_handler; }
	uint64_t h = 7; extern char ** environ; for (char ** e = environ; e && *e; ++e) for (char * c = *e; *c; ++c) h = rt::mix64(h ^ (unsigned char)*c); s.env = h;
	h = 0; for (int k = 0; k < 256; ++k) if (fcntl(k, F_GETFD) >= 0) h = rt::mix64(h ^ (uint64_t)k); s.fds = h;
	char b[4096]; s.cwd = getcwd(b, sizeof b) ? b : ""; s.prand = rt::prandCalls; s.opens = rt::fileOpens; s.locs = rt::localeSets;
}
static std::string differ(StdState const & a, StdState const & b) {
	static char const * nm[] = {"cin", "cout", "cerr", "clog"};
	for (int k = 0; k < 4; ++k) {
		std::string n = std::string("std::") + nm[k];
		if (a.fl[k] != b.fl[k]) return n + " format flags"; if (a.pr[k] != b.pr[k]) return n + " precision"; if (a.wi[k] != b.wi[k]) return n + " width"; if (a.fi[k] != b.fi[k]) return n + " fill";
		if (a.st[k] != b.st[k]) return n + " state"; if (a.ex[k] != b.ex[k]) return n + " exception mask"; if (a.tie[k] != b.tie[k]) return n + " tie"; if (a.buf[k] != b.buf[k]) return n + " buffer"; if (a.loc[k] != b.loc[k]) return n + " locale";
	}
	if (a.rest != b.rest) return "wide standard streams, C standard files or process masks (" + a.rest + " -> " + b.rest + ")";
	if (!(a.gl == b.gl)) return "process-wide C++ locale"; if (a.cl != b.cl) return "process-wide C locale"; if (a.round != b.round || a.csr != b.csr || a.x87 != b.x87) return "floating-point mode"; if (a.trap != b.trap) return "floating-point traps";
	if (a.nh != b.nh) return "new handler"; if (a.th != b.th) return "terminate handler"; for (int k = 1; k < 32; ++k) if (a.sigs[k] != b.sigs[k]) return "signal handler " + S(k);
	if (a.env != b.env) return "environment variables"; if (a.fds != b.fds) return "set of open files"; if (a.cwd != b.cwd) return "working directory"; if (a.prand != b.prand) return "pseudo-random generator of the process"; if (a.opens != b.opens) return "a file was opened"; if (a.locs != b.locs) return "process-wide locale (replaced for the time of the call)";
	return "";
}
// the standard streams as the rest of the program may have set them up
static void stdMix(uint64_t seed) {
	rt::Rng r(seed);
	auto mix = [&](auto & s) {
		if (r.chance(.5)) s.flags((std::ios_base::fmtflags)(r.next() & (std::ios_base::boolalpha | std::ios_base::dec | std::ios_base::fixed | std::ios_base::hex | std::ios_base::left | std::ios_base::scientific | std::ios_base::showbase | std::ios_base::showpoint | std::ios_base::showpos | std::ios_base::skipws | std::ios_base::unitbuf | std::ios_base::uppercase)));
		if (r.chance(.5)) s.precision(r.range(0, 20));
		if (r.chance(.3)) s.width(r.range(1, 9));
		if (r.chance(.3)) s.fill('#');
		if (r.chance(.5)) s.exceptions(maskOf(r.range(1, 7))); else if (r.chance(.5)) s.setstate(maskOf(r.range(1, 7)));
		if (r.chance(.3)) s.tie(nullptr);
	};
	mix(std::cin); mix(std::cout); mix(std::cerr); mix(std::clog); mix(std::wcin); mix(std::wcout); mix(std::wcerr); mix(std::wclog);
}
static int memFd(char const * content) { int f = (int)syscall(SYS_memfd_create, "std", 0u); if (f < 0) rt::harnessError("memfd"); if (*content) { (void)!syscall(SYS_write, f, content, strlen(content)); lseek(f, 0, SEEK_SET); } return f; }
static void run16(Plan const & p) {
	Faults f = faultsOf(p);
	// the standard streams are redirected into memory
	for (int k = 0; k < 3; ++k) { int m = memFd(k ? "" : "standard input 1 2 3\n"); dup2(m, k); close(m); }
	if (p.cfg.count("gloc")) { std::locale::global(simLocale(p.str("gloc"))); }
	if (p.num("coutfmt") == 1) { std::cout << std::hex << std::showpos; std::cout.precision(3); std::cerr.fill('*'); }
	if (p.num("coutfmt") == 2) { std::cout << std::unitbuf << std::scientific; std::clog << std::oct; std::cin >> std::noskipws; }
	if (p.num("coutfmt") == 3) { std::cout.setstate(std::ios_base::failbit); std::cerr.setstate(std::ios_base::badbit); std::cout.width(7); }
	if (p.cfg.count("stdmix")) stdMix((uint64_t)p.num("stdmix"));
	{ std::ostringstream warm; warm << 1.5 << " " << 3; std::istringstream wi("1.5 2"); double d; wi >> d >> d; }
	static int const rounds[] = {FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO};
	if (p.num("round")) { fesetround(rounds[p.num("round") & 3]); rt::fired(rt::F_FENV); }
	struct C { int64_t id; GCall c; }; std::vector<C> calls;
	for (auto & l : p.items) if (l.at(0) == "call") { GCall c = parseCall(l, 2); if (c.use) calls.push_back({l.num(1), c}); }
	if (p.num("ftz")) { _mm_setcsr(_mm_getcsr() | 0x8040u); rt::fired(rt::F_FENV); }     // flush-to-zero, denormals-are-zero
	if (p.num("hnd")) ownHandlers();
	if (p.num("pend")) { fputs(" ", stdout); fflush(stdout); (void)!ftruncate(1, 0); lseek(1, 0, SEEK_SET); }     // its buffer exists
	StdState before; snap(before);
	for (auto & c : calls) {
		std::string name = c.c.op ? opName(*c.c.op) : c.c.what + " " + (c.c.v[0].k == K_NONE ? "" : kindNames[c.c.v[0].k]);
		Env e = f.env.count(c.id) ? f.env[c.id] : Env(); auto a = f.alloc.find(c.id); bool hit = false;
		int64_t live[4], bytes0 = rt::liveBytes(); int raised = 0;
		static char const half[] = "half a line"; size_t pend = 0;     // the program is in the middle of a line of its own
		if (p.num("pend")) { fputs(half, stdout); pend = sizeof half - 1; rt::probe("calls made while standard output holds unwritten text"); }
		for (int round = 0; round < 4; ++round) {     // clean once, then disturbed twice and clean again: memory must not grow
			bool disturbed = round == 1 || round == 2;
			// traps: the caller may have enabled traps for exceptions this call does not raise (not underflow: exact tiny results trap without raising the flag)
			if (p.num("traps") && round == 0) feclearexcept(FE_ALL_EXCEPT);
			int enabled = p.num("traps") && round == 3 ? (FE_DIVBYZERO | FE_OVERFLOW | FE_INVALID) & ~raised : 0;
			unsigned csr0 = 0; unsigned short cw0 = 0;
			if (enabled) { feclearexcept(FE_ALL_EXCEPT); feenableexcept(enabled); csr0 = _mm_getcsr() & ~0x3fu; cw0 = x87cw(); rt::fired(rt::F_FENV); }
			if (f.clock.count(c.id)) rt::setClock(f.clock[c.id]);
			rt::setAllocPlan(disturbed && a != f.alloc.end() ? a->second : rt::AllocPlan{});
			if (f.err.count(c.id)) errno = f.err[c.id];
			{ std::string s = perform(c.c, disturbed ? e : Env()); rt::log("%s %s", name.c_str(), s.c_str()); }
			hit |= rt::allocFailed() > 0; rt::clearAllocPlan(); live[round] = rt::liveBlocks();
			if (round == 0 && f.reps.count(c.id)) for (int k = 0; k < f.reps[c.id] / 4; ++k) perform(c.c, Env());
			if (p.num("traps") && round == 0) raised = fetestexcept(FE_ALL_EXCEPT);
			if (enabled) { bool kept = (_mm_getcsr() & ~0x3fu) == csr0 && x87cw() == cw0 && fegetexcept() == enabled; fedisableexcept(FE_ALL_EXCEPT); feclearexcept(FE_ALL_EXCEPT); rt::probe("calls with floating-point traps enabled"); if (!kept) return rt::violation("side-effect", "%s changed: floating-point traps the caller had enabled", name.c_str()); }
		}
		rt::sig(name); rt::sig(hit); rt::sig(!e.faults.empty()); rt::sig((uint64_t)p.num("round")); rt::sig((uint64_t)p.num("coutfmt"));
		rt::sampleAdd("%s%s; ", name.c_str(), hit ? " (allocation failed)" : e.faults.empty() ? "" : " (device fault)");
		if (hit) rt::probe("calls with failing allocation"); if (!e.faults.empty()) rt::probe("calls on failing devices"); rt::probe("calls checked", 4);
		if (live[2] > live[1]) return rt::violation("keeps-memory", "%s keeps %lld more heap block(s) at each call that meets a fault", name.c_str(), (long long)(live[2] - live[1]));
		if (live[3] > live[2] && live[2] >= live[0]) {
			std::string s = perform(c.c, Env()); s.clear(); s.shrink_to_fit(); if (rt::liveBlocks() > live[3]) return rt::violation("keeps-memory", "%s keeps %lld more heap block(s) at each call", name.c_str(), (long long)(rt::liveBlocks() - live[3]));
		}
		if (rt::liveBytes() > bytes0) {     // it keeps something: does that grow without end?
			int64_t b[3]; b[0] = rt::liveBytes(); int n = 64; for (int i = 1; i < 3; ++i, n *= 4) { for (int k = 0; k < n; ++k) perform(c.c, Env()); b[i] = rt::liveBytes(); }
			rt::probe("calls that keep memory, repeated");
			if (b[1] > b[0] && b[2] > b[1]) return rt::violation("keeps-memory", "%s repeated: the memory kept grows from %lld to %lld and %lld bytes after 64 and 320 more calls", name.c_str(), (long long)b[0], (long long)b[1], (long long)b[2]);
		}
		StdState now; snap(now); std::string d = differ(before, now);
		if (!d.empty()) return rt::violation("side-effect", "%s changed: %s", name.c_str(), d.c_str());
		if (lseek(0, 0, SEEK_CUR) != 0 || std::cin.rdbuf()->in_avail() > 21) return rt::violation("side-effect", "%s consumed standard input", name.c_str());
		if (pend && (__fpending(stdout) != pend || lseek(1, 0, SEEK_END) != 0)) return rt::violation("side-effect", "%s changed: the text standard output was holding back", name.c_str());
		// what standard output and error hold now, with whatever was still buffered
		auto st0 = std::cout.rdstate(), st1 = std::cerr.rdstate(), st2 = std::clog.rdstate();
		std::cout.clear(); std::cerr.clear(); std::clog.clear(); std::cout.flush(); std::cerr.flush(); std::clog.flush(); fflush(stdout); fflush(stderr);
		std::cout.setstate(st0); std::cerr.setstate(st1); std::clog.setstate(st2);
		for (int k = 1; k < 3; ++k) { off_t n = lseek(k, 0, SEEK_END); if (k == 1 && pend && n == (off_t)pend) { (void)!ftruncate(1, 0); lseek(1, 0, SEEK_SET); n = 0; } if (n > 0) { char b[80]; ssize_t m = pread(k, b, sizeof b - 1, 0); b[m > 0 ? m : 0] = 0; return rt::violation("prints", "%s wrote %lld bytes to standard %s: [%s]", name.c_str(), (long long)n, k == 1 ? "output" : "error", esc(b).c_str()); } }
		rt::rep->nontrivial = 1;
	}
	fesetround(FE_TONEAREST); _mm_setcsr(_mm_getcsr() & ~0x8040u);
	if (p.cfg.count("gloc")) std::locale::global(std::locale::classic());
}
Scenario const sc_C16 = {"C16", gen16, run16};
