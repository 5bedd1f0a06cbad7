// C09 C10: concurrent callers under a seeded scheduler with race detection.
#include "sc.h"
#include <sys/mman.h>

static std::vector<rt::Preempt> preempts(Plan const & p) {
	std::vector<rt::Preempt> v; rt::setTouch((uint32_t)p.num("touch"), (uint64_t)p.num("tseed"));
	for (auto & l : p.items) if (l.at(0) == "pre") v.push_back({(int)l.num(1), l.u64(2), (int)l.num(3)});
	return v;
}
// Dry run of one thread's calls in a pristine process: how many events, and at which of them static storage changes.
struct Dry { uint64_t total; uint32_t n; uint64_t at[256]; };
void genPreempts(rt::Rng & r, Plan & p, int nth, std::function<void(Plan const &, int)> const & runThread) {
	static Dry * dry = (Dry *)rt::sharedAlloc(sizeof(Dry) * 8);
	memset(dry, 0, sizeof(Dry) * 8);
	static rt::Report * scratch = (rt::Report *)rt::sharedAlloc(sizeof(rt::Report));
	for (int t = 1; t <= nth; ++t) rt::inFork([&] {
		rt::rep = scratch; rt::enterSim(); rt::recordBegin();
		try { runThread(p, t); } catch (...) {}
		uint64_t tot = 0; auto d = rt::recordEnd(&tot); dry[t].total = tot;
		for (uint64_t e : d) if (dry[t].n < 256) dry[t].at[dry[t].n++] = e;
	});
	int k = r.chance(.1) ? 0 : (int)r.range(1, r.chance(.7) ? 4 : 12);
	for (int i = 0; i < k; ++i) {
		int t = (int)r.range(1, nth); uint64_t e;
		for (int tries = 0; tries < 4 && !dry[t].n; ++tries) t = (int)r.range(1, nth);      // rather where process-wide state changes
		if (dry[t].n && r.chance(.75)) { e = dry[t].at[r.below(dry[t].n)]; e += r.below(4); if (e > 2 && r.chance(.3)) e -= 2; }
		else e = 1 + r.below(dry[t].total + 1);
		p.add({"pre", S(t), std::to_string(e), S(r.range(1, nth))});
	}
	p.set("first", (int64_t)r.below(nth));
	if (r.chance(.5)) { p.set("touch", (int64_t)(r.chance(.4) ? r.range(5, 40) : r.chance(.5) ? r.range(40, 200) : r.range(200, 600))); p.set("tseed", (int64_t)(r.next() >> 8)); }
}
static std::vector<std::string> cat(std::vector<std::string> a, std::vector<std::string> const & b) { a.insert(a.end(), b.begin(), b.end()); return a; }

// ---------------------------------------------------------------- C09
static std::vector<Op const *> const & algebra() { static auto v = opsWhere([](Op const & o) { return o.g != G_CONST; }); return v; }
struct Pool { Obj * o = nullptr; std::vector<Val> v; size_t bytes = 0; };
static Pool makePool(Plan const & p) {
	Pool q; for (auto & l : p.items) if (l.at(0) == "val" && q.v.size() < 160) q.v.push_back(parseVal(l, 1));
	q.bytes = (160 * sizeof(Obj) + 4095) & ~4095ull;
	q.o = (Obj *)mmap(nullptr, q.bytes, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	memset(q.o, 0, q.bytes);
	for (size_t i = 0; i < q.v.size(); ++i) q.v[i].make(q.o[i]);
	return q;
}
// "times T K": thread T makes its calls K times over
template <class C> static void repeat(std::vector<C> & c, Plan const & p) {
	for (auto & l : p.items) if (l.at(0) == "times") {
		std::vector<C> own; for (auto & x : c) if (x.t == (int)l.num(1)) own.push_back(x);
		for (int64_t k = 1; k < l.num(2) && k < 140 && c.size() < 400 && !own.empty(); ++k) c.insert(c.end(), own.begin(), own.end());
	}
}
static int64_t burst(rt::Rng & r) { return r.chance(.5) ? r.range(3, 10) : r.chance(.7) ? r.range(10, 35) : r.chance(.8) ? r.range(60, 70) : r.range(125, 135); }
struct Call { int t; Op const * op; void const * args[3]; std::string text; };
static std::vector<Call> callsOf(Plan const & p, Pool const & q) {
	std::vector<Call> c;
	for (auto & l : p.items) if (l.at(0) == "th") {
		Op const * op = opByName(l.at(2)); int t = (int)l.num(1); if (!op || t < 1 || t > 5) continue;
		Call k{t, op, {}, l.at(2)}; bool ok = true;
		for (int i = 0; i < op->n; ++i) { size_t ix = (size_t)l.num(3 + i, -1); if (ix >= q.v.size() || q.v[ix].k != op->a[i]) { ok = false; break; } k.args[i] = &q.o[ix]; }
		if (ok) c.push_back(k);
	}
	repeat(c, p);
	return c;
}
static void dry09(Plan const & p, int t) { Pool q = makePool(p); for (auto & c : callsOf(p, q)) if (c.t == t) { Obj r; std::string w; callOp(*c.op, c.args, r, w); } }
// Twins: two threads make the same calls, so that whatever any of them writes is written by both.
static Plan gen09twins(rt::Rng & r, uint64_t index) {
	Plan p; std::vector<Val> vals; std::vector<std::vector<std::string>> calls; auto const & ops = algebra();
	static auto const & intricate = *new std::vector<Op const *>(opsWhere([](Op const & o) { return o.g == G_FUN || o.g == G_MAG || o.g == G_CMP; }));
	int n = (int)r.range(20, 45); double narrow = r.unit();
	for (int i = 0; i < n && vals.size() < 140; ++i) {
		Op const * o = i == 0 ? ops[index % ops.size()] : r.chance(narrow) ? r.pick(intricate) : r.pick(ops);
		int fl = r.chance(.25) ? 0 : r.chance(.75) ? 1 : 2; std::vector<std::string> w{opName(*o)};
		for (int k = 0; k < o->n; ++k) {
			int x = -1;
			if (k && r.chance(.3)) { for (size_t j = 0; j < vals.size(); ++j) if (vals[j].k == o->a[k]) x = (int)j; if (x >= 0 && r.chance(.5)) { Val v = vals[x]; v.c[r.below(kindDim[v.k])] = genDouble(r, fl); vals.push_back(v); x = (int)vals.size() - 1; } }
			if (x < 0) { vals.push_back(genVal(r, o->a[k], fl)); x = (int)vals.size() - 1; }
			w.push_back(S(x));
		}
		calls.push_back(w);
	}
	for (auto & v : vals) p.add(cat({"val"}, valWords(v)));
	for (int t = 1; t <= 2; ++t) for (auto & w : calls) p.add(cat({"th", S(t)}, w));
	genPreempts(r, p, 2, dry09);
	return p;
}
// One thread stops in the middle of a call while another makes the same call many times.
static Plan gen09burst(rt::Rng & r, uint64_t index) {
	Plan p; std::vector<Val> vals; auto const & ops = algebra(); static auto const & intricate = *new std::vector<Op const *>(opsWhere([](Op const & o) { return o.g == G_FUN || o.g == G_MAG || o.g == G_CMP; }));
	Op const * o = r.chance(.5) ? ops[(index * 3 + r.below(3)) % ops.size()] : r.pick(intricate); int fl = r.chance(.6) ? 0 : r.chance(.6) ? 1 : 2, nth = r.chance(.8) ? 2 : 3;
	for (int t = 1; t <= nth; ++t) for (int j = (int)r.range(1, 2); j > 0; --j) {
		std::vector<std::string> w{"th", S(t), opName(*o)};
		for (int k = 0; k < o->n; ++k) { vals.push_back(genVal(r, o->a[k], fl)); w.push_back(S((int64_t)vals.size() - 1)); }
		p.add(w);
	}
	for (auto & v : vals) p.add(cat({"val"}, valWords(v)));
	for (int t = 2; t <= nth; ++t) p.add({"times", S(t), S(burst(r))});
	genPreempts(r, p, nth, dry09);
	if (r.chance(.7)) p.set("first", 0);
	return p;
}
// A few operands, taken again and again by one operation in all threads (what one call remembers, another may find).
static Plan gen09few(rt::Rng & r, uint64_t index) {
	Plan p; std::vector<Val> vals; auto const & ops = algebra(); static auto const & intricate = *new std::vector<Op const *>(opsWhere([](Op const & o) { return o.g == G_FUN || o.g == G_MAG || o.g == G_CMP; }));
	Op const * o = r.chance(.3) ? ops[(index * 5 + r.below(5)) % ops.size()] : r.pick(intricate); int fl = r.chance(.6) ? 0 : r.chance(.6) ? 1 : 2, nth = (int)r.range(2, 3), pop = (int)r.range(2, 3);
	std::vector<std::vector<std::string>> calls;
	for (int i = 0; i < pop; ++i) {
		std::vector<std::string> w{opName(*o)};
		for (int k = 0; k < o->n; ++k) { if (i && r.chance(.3)) { w.push_back(calls[0][(size_t)k + 1]); continue; } vals.push_back(genVal(r, o->a[k], fl)); w.push_back(S((int64_t)vals.size() - 1)); }
		calls.push_back(w);
	}
	for (auto & v : vals) p.add(cat({"val"}, valWords(v)));
	for (int t = 1; t <= nth; ++t) for (int j = (int)r.range(5, 12); j > 0; --j) p.add(cat({"th", S(t)}, r.pick(calls)));
	genPreempts(r, p, nth, dry09);
	if (!p.num("touch")) { p.set("touch", (int64_t)r.range(20, 400)); p.set("tseed", (int64_t)(r.next() >> 8)); }
	return p;
}
static Plan gen09(rt::Rng & r, int, uint64_t index) {
	double mode = r.unit();
	if (mode > .85) return gen09few(r, index);
	if (mode < .4) return gen09twins(r, index);
	if (mode < .55) return gen09burst(r, index);
	Plan p; int nth = (int)r.range(2, 4); std::vector<Val> vals; std::vector<std::vector<std::string>> th;
	auto const & ops = algebra();
	int per = (int)r.range(1, 4);
	// half of the runs make every thread start with the same operation (first-use races)
	Op const * common = r.chance(.5) ? ops[(index * 7 + r.below(7)) % ops.size()] : nullptr;
	int fl = r.chance(.6) ? 0 : r.chance(.6) ? 1 : 2;
	auto operand = [&](Kind k) -> int {
		std::vector<int> have; for (size_t i = 0; i < vals.size(); ++i) if (vals[i].k == k) have.push_back((int)i);
		if (!have.empty() && (r.chance(.6) || vals.size() > 40)) return have[r.below(have.size())];
		if (vals.size() >= 60) return -1;
		vals.push_back(genVal(r, k, fl)); return (int)vals.size() - 1;
	};
	for (int t = 1; t <= nth; ++t) for (int j = 0; j < per; ++j) {
		Op const * o = j == 0 && common ? common : r.pick(ops);
		std::vector<std::string> w{"th", S(t), opName(*o)}; bool ok = true;
		for (int i = 0; i < o->n; ++i) { int x = operand(o->a[i]); if (x < 0) ok = false; w.push_back(S(x)); }
		if (ok) th.push_back(w);
	}
	for (auto & v : vals) p.add(cat({"val"}, valWords(v)));
	for (auto & w : th) p.add(w);
	genPreempts(r, p, nth, dry09);
	if (r.chance(.3)) { p.set("fresh", (int64_t)r.below(256)); p.set("freed", (int64_t)r.below(256)); }
	return p;
}
struct OpRes { int ok; Obj o; };
static void run09(Plan const & p) {
	fillFrom(p);
	Pool q = makePool(p); auto calls = callsOf(p, q);
	if (calls.empty()) return;
	OpRes * alone = (OpRes *)rt::sharedAlloc(sizeof(OpRes) * calls.size());
	// each distinct call alone in a pristine process, or, when there are many, the distinct calls one after the other in one
	bool many = calls.size() > 24;
	if (many) {
		int st = rt::inFork([&] { static rt::Report own; rt::rep = &own; for (size_t i = 0; i < calls.size(); ++i) { Obj r; std::string w; alone[i].ok = callOp(*calls[i].op, calls[i].args, r, w); alone[i].o = r; } });
		if (st) return rt::violation("dies-alone", "the calls one after the other end the process (status %d)", st);
	}
	for (size_t i = 0; i < calls.size() && !many; ++i) {
		size_t same = i; for (size_t j = 0; j < i; ++j) if (calls[j].op == calls[i].op && !memcmp(calls[j].args, calls[i].args, sizeof calls[i].args)) { same = j; break; }
		if (same != i) { alone[i] = alone[same]; continue; }
		int st = rt::inFork([&] { static rt::Report own; rt::rep = &own; Obj r; std::string w; alone[i].ok = callOp(*calls[i].op, calls[i].args, r, w); alone[i].o = r; });
		if (st) return rt::violation("dies-alone", "%s alone ends the process (status %d)", calls[i].text.c_str(), st);
	}
	std::vector<unsigned char> before((unsigned char *)q.o, (unsigned char *)q.o + q.bytes);
	rt::addSharedRegion(q.o, q.bytes);
	int nth = 0; for (auto & c : calls) nth = std::max(nth, c.t);
	if (many) rt::probe("runs with twin threads");
	std::vector<OpRes> got(calls.size()); std::vector<int> done(calls.size());
	std::vector<std::function<void()>> bodies;
	for (int t = 1; t <= nth; ++t) bodies.push_back([&, t] {
		for (size_t i = 0; i < calls.size(); ++i) if (calls[i].t == t) { std::string w; got[i].ok = callOp(*calls[i].op, calls[i].args, got[i].o, w); done[i] = 1; }
	});
	rt::runThreads(bodies, preempts(p), (int)p.num("first"), true);
	if (rt::violated()) return;
	for (size_t i = 0; i < calls.size(); ++i) {
		auto & c = calls[i]; if (!done[i]) continue;
		rt::sig(c.text); rt::sig((uint64_t)c.t);
		rt::sampleAdd("T%d %s; ", c.t, c.text.c_str());
		Val a = Val::from(c.op->r, alone[i].o), b = Val::from(c.op->r, got[i].o);
		rt::mixHash(b.c, sizeof(double) * kindDim[b.k]);
		if (alone[i].ok != got[i].ok) return rt::violation("result-differs", "%s %s under this interleaving and %s alone", c.text.c_str(), got[i].ok ? "returns" : "throws", alone[i].ok ? "returns" : "throws");
		if (got[i].ok && !a.same(b)) return rt::violation("result-differs", "%s by thread %d returns %s under this interleaving, %s alone", c.text.c_str(), c.t, b.text().c_str(), a.text().c_str());
	}
	if (memcmp(before.data(), q.o, q.bytes)) return rt::violation("operand-modified", "a shared constant operand was modified");
	rt::sig(rt::rep->hash);
	if (rt::rep->switches > 0 && nth > 1) { rt::rep->nontrivial = 1; rt::probe("runs with interleaved calls"); }
	rt::probe("calls compared with the call run alone", (uint32_t)calls.size());
}
Scenario const sc_C09 = {"C09", gen09, run09};

// ---------------------------------------------------------------- C10
struct IoCall { int t = 0; std::string what; Val v; int a = -1, b = -1; std::string text, loc; std::vector<unsigned> chunks; std::vector<DevFault> faults; int mask = 0; bool use = false; };
struct IoRes { std::string text; Val v; int state = 0; std::string ex; size_t rest = 0; bool valid = false;
	std::string str() const { return esc(text) + (v.k != K_NONE ? " " + v.text() + (valid ? " valid" : " null") : "") + " state " + S(state) + (ex.empty() ? "" : " threw " + ex) + (rest ? " rest " + S((int64_t)rest) : ""); } };
// th t ins loc val.. | th t fixed a b val.. | th t enote a val.. | th t ext kind loc text chunks | th t ver | th t idn
// after ins and ext: optional words !pos,kind,count (device fault) and %mask (exception mask)
static void trailing(IoCall & c, Line const & l, size_t from) {
	for (size_t i = from; i < l.w.size(); ++i) {
		if (l.w[i][0] == '%') c.mask = atoi(l.w[i].c_str() + 1) & 7;
		else if (l.w[i][0] == '!') { DevFault f{}; unsigned long long pos = 0; if (sscanf(l.w[i].c_str(), "!%llu,%d,%d", &pos, &f.kind, &f.count) == 3) { f.pos = pos; c.faults.push_back(f); } }
	}
}
static IoCall parseIo(Line const & l) {
	IoCall c; c.t = (int)l.num(1); c.what = l.at(2); if (c.t < 1 || c.t > 5) return c;
	if (c.what == "ins") { c.loc = l.at(3); c.v = parseVal(l, 4); c.use = true; trailing(c, l, 5 + kindDim[c.v.k]); }
	else if (c.what == "fixed") { c.a = (int)l.num(3); c.b = (int)l.num(4); c.v = parseVal(l, 5); c.use = lib_hasEncoder(c.v.k); }
	else if (c.what == "enote") { c.a = (int)l.num(3); c.v = parseVal(l, 4); c.use = lib_hasEncoder(c.v.k); }
	else if (c.what == "ext") { c.v.k = kindByName(l.at(3)); c.loc = l.at(4); c.text = unesc(l.at(5)); c.chunks = parseList(l.at(6)); c.use = true; trailing(c, l, 7); }
	else if (c.what == "ver" || c.what == "idn") c.use = true;
	return c;
}
static IoRes doIo(IoCall const & c) {
	IoRes r;
	try {
		if (c.what == "ins") {
			SimSink s(0); s.faults = c.faults; std::ostream os(&s); if (!c.loc.empty() && c.loc != "C") os.imbue(simLocale(c.loc)); Obj o; c.v.make(o); os.exceptions(maskOf(c.mask));
			try { rt::LibCall k; lib_insert(os, c.v.k, &o); } catch (...) { r.ex = current_exception_name(); }
			r.state = stateBits(os.rdstate()); r.text = s.out;
		} else if (c.what == "ext") {
			SimSource s(c.text); s.faults = c.faults; if (!c.chunks.empty()) s.chunks = c.chunks; std::istream is(&s); if (!c.loc.empty() && c.loc != "C") is.imbue(simLocale(c.loc));
			Val z; z.k = c.v.k; for (auto & d : z.c) d = 77.; Obj o; z.make(o); is.exceptions(maskOf(c.mask));
			try { rt::LibCall k; lib_extract(is, c.v.k, &o); } catch (...) { r.ex = current_exception_name(); }
			r.state = stateBits(is.rdstate()); r.v = Val::from(c.v.k, o); r.rest = s.rest().size(); r.valid = lib_valid(c.v.k, &o);
		} else if (c.what == "ver" || c.what == "idn") { std::string s; { rt::LibCall k; if (c.what == "ver") lib_version(s); else lib_identity(s); } r.text.assign(s.data(), s.size()); }
		else { Obj o; c.v.make(o); std::string s; { rt::LibCall k; if (c.what == "fixed") lib_fixed(c.v.k, &o, c.a, c.b, s); else lib_enote(c.v.k, &o, c.a, s); } r.text.assign(s.data(), s.size()); }
	} catch (...) { r.ex = current_exception_name(); }
	return r;
}
struct FlatRes { int n; char b[4096]; };
static void dry10(Plan const & p, int t) { globalFrom(p); std::vector<IoCall> own; for (auto & l : p.items) if (l.at(0) == "th") { auto c = parseIo(l); if (c.use) own.push_back(c); } repeat(own, p); for (auto & c : own) if (c.t == t) doIo(c); }
static std::string numbers(rt::Rng & r, unsigned n) {
	std::string s; for (unsigned i = 0; i < n; ++i) { if (i) s += r.chance(.8) ? " " : "\n"; s += r.chance(.06) ? (r.chance(.5) ? "x1" : "nan") : dtext(genDouble(r, r.chance(.7) ? 0 : 1)); }
	if (r.chance(.5)) s += "\n"; return s;
}
static std::vector<std::string> genIo(rt::Rng & r, int fl) {
	static Kind const e[] = {K_SCA, K_VEC, K_BIV, K_TRI, K_SPI, K_IMS, K_MV, K_DBL};
	auto digits = [&](int64_t top) { return r.chance(.45) ? -1 : r.chance(.85) ? r.range(0, top) : r.range(top, 80); };
	switch (r.below(10)) {
	case 0: case 1: { auto a = digits(12), b = digits(18); return cat({"fixed", S(a), S(b)}, valWords(genVal(r, e[r.below(8)], fl))); }
	case 2: case 3: { auto a = digits(20); return cat({"enote", S(a)}, valWords(genVal(r, e[r.below(8)], fl))); }
	case 4: case 5: case 6: { Kind k = (Kind)r.below(NG3); std::string ch; if (r.chance(.5)) ch = r.chance(.5) ? "1" : "3,7"; return {"ext", kindNames[k], r.chance(.15) ? r.pick(simLocaleNames()) : "C", esc(numbers(r, (unsigned)std::max<int64_t>(1, (int64_t)kindDim[k] + (r.chance(.2) ? -1 : r.chance(.3) ? 1 : 0)))), ch}; }
	case 7: if (r.chance(.4)) return {r.chance(.5) ? "ver" : "idn"}; // fallthrough
	default: return cat({"ins", r.chance(.2) ? r.pick(simLocaleNames()) : "C"}, valWords(genVal(r, (Kind)r.below(NG3), fl)));
	}
}
std::vector<std::string> genIoWords(rt::Rng & r, int fl) { return genIo(r, fl); }
static std::string kindOf(std::vector<std::string> const & w) { for (auto & s : w) for (int k = 0; k < K_NONE; ++k) if (s == kindNames[k]) return s; return ""; }
static void addFaults(rt::Rng & r, std::vector<std::string> & w, double chance) {
	if ((w[0] != "ins" && w[0] != "ext") || !r.chance(chance)) return;
	size_t n = w[0] == "ext" ? unesc(w[3]).size() : 40;
	w.push_back("!" + S((int64_t)r.below(n + 1)) + "," + S((int64_t)r.below(5)) + "," + S(r.chance(.5) ? -1 : 1));
	if (r.chance(.4)) w.push_back("%" + S((int64_t)r.range(1, 7)));
}
// Twins: two threads make the same calls, so that whatever any of them writes is written by both.
static Plan gen10twins(rt::Rng & r) {
	Plan p; int n = (int)r.range(13, 20); std::vector<std::vector<std::string>> calls;
	for (int i = 0; i < n; ++i) { auto w = genIo(r, r.chance(.35) ? 0 : r.chance(.5) ? 1 : 2); addFaults(r, w, .35); calls.push_back(w); }
	for (int t = 1; t <= 2; ++t) for (auto & w : calls) p.add(cat({"th", S(t)}, w));
	genGlobal(r, p, .3);
	genPreempts(r, p, 2, dry10);
	return p;
}
// One thread stops in the middle of a call while another makes calls of the same kind many times.
static Plan gen10burst(rt::Rng & r) {
	Plan p; int fl = r.chance(.6) ? 0 : r.chance(.6) ? 1 : 2; auto common = genIo(r, fl); int nth = r.chance(.8) ? 2 : 3;
	for (int t = 1; t <= nth; ++t) for (int j = (int)r.range(1, 2); j > 0; --j) {
		auto w = genIo(r, fl); for (int tries = 0; tries < 60 && (w[0] != common[0] || (r.chance(.8) && kindOf(w) != kindOf(common))); ++tries) w = genIo(r, fl);
		addFaults(r, w, .05); p.add(cat({"th", S(t)}, w));
	}
	for (int t = 2; t <= nth; ++t) p.add({"times", S(t), S(burst(r))});
	genGlobal(r, p, .2);
	genPreempts(r, p, nth, dry10);
	if (r.chance(.7)) p.set("first", 0);
	return p;
}
// A few calls, made again and again by all threads (what one call remembers, another may find).
static Plan gen10few(rt::Rng & r) {
	Plan p; int fl = r.chance(.6) ? 0 : r.chance(.6) ? 1 : 2, nth = (int)r.range(2, 3), pop = (int)r.range(2, 3); std::vector<std::vector<std::string>> calls;
	for (int i = 0; i < pop; ++i) {
		auto w = genIo(r, fl); for (int tries = 0; i && tries < 80 && (w[0] != calls[0][0] || kindOf(w) != kindOf(calls[0])); ++tries) w = genIo(r, fl);
		addFaults(r, w, .05); calls.push_back(w);
	}
	for (int t = 1; t <= nth; ++t) for (int j = (int)r.range(3, 8); j > 0; --j) p.add(cat({"th", S(t)}, r.pick(calls)));
	genGlobal(r, p, .2);
	genPreempts(r, p, nth, dry10);
	if (!p.num("touch")) { p.set("touch", (int64_t)r.range(20, 400)); p.set("tseed", (int64_t)(r.next() >> 8)); }
	return p;
}
static Plan gen10(rt::Rng & r, int, uint64_t) {
	double mode = r.unit();
	if (mode > .85) return gen10few(r);
	if (mode < .3) return gen10twins(r);
	if (mode < .4) return gen10burst(r);
	Plan p; int nth = (int)r.range(2, 4), per = (int)r.range(1, 3); int fl = r.chance(.6) ? 0 : r.chance(.6) ? 1 : 2;
	auto common = genIo(r, fl); bool same = r.chance(.6);
	for (int t = 1; t <= nth; ++t) for (int j = 0; j < per; ++j) {
		auto w = genIo(r, fl);
		if (j == 0 && same) {   // first calls of all threads: the same call, the same encoder on the same type, or the same encoder
			int how = (int)r.below(3);
			if (how == 0) w = common; else for (int tries = 0; tries < 200 && (w[0] != common[0] || (how == 1 && kindOf(w) != kindOf(common))); ++tries) w = genIo(r, fl);
		}
		addFaults(r, w, .1);
		p.add(cat({"th", S(t)}, w));
	}
	genGlobal(r, p, .4);
	genPreempts(r, p, nth, dry10);
	if (r.chance(.3)) { p.set("fresh", (int64_t)r.below(256)); p.set("freed", (int64_t)r.below(256)); }
	return p;
}
static void run10(Plan const & p) {
	globalFrom(p);
	fillFrom(p);
	std::vector<IoCall> calls; std::vector<std::string> alone;
	for (auto & l : p.items) if (l.at(0) == "th") { auto c = parseIo(l); if (c.use) calls.push_back(c); }
	repeat(calls, p);
	if (calls.empty()) return;
	bool many = calls.size() > 24;
	FlatRes * f = (FlatRes *)rt::sharedAlloc(sizeof(FlatRes) * (many ? calls.size() : 1));
	if (many) {     // the calls one after the other in one process
		int st = rt::inFork([&] { static rt::Report own; rt::rep = &own; for (size_t i = 0; i < calls.size(); ++i) { std::string s = doIo(calls[i]).str(); f[i].n = (int)std::min(s.size(), sizeof f->b); memcpy(f[i].b, s.data(), (size_t)f[i].n); } });
		if (st) return rt::violation("dies-alone", "the calls one after the other end the process (status %d)", st);
		for (size_t i = 0; i < calls.size(); ++i) alone.emplace_back(f[i].b, (size_t)f[i].n);
		rt::probe("runs with twin threads");
	}
	else for (auto & c : calls) {
		int st = rt::inFork([&] { static rt::Report own; rt::rep = &own; std::string s = doIo(c).str(); f->n = (int)std::min(s.size(), sizeof f->b); memcpy(f->b, s.data(), (size_t)f->n); });
		if (st) return rt::violation("dies-alone", "%s alone ends the process (status %d)", c.what.c_str(), st);
		alone.emplace_back(f->b, (size_t)f->n);
	}
	int nth = 0; for (auto & c : calls) nth = std::max(nth, c.t);
	std::vector<IoRes> got(calls.size()); std::vector<int> done(calls.size());
	std::vector<std::function<void()>> bodies;
	for (int t = 1; t <= nth; ++t) bodies.push_back([&, t] { for (size_t i = 0; i < calls.size(); ++i) if (calls[i].t == t) { got[i] = doIo(calls[i]); done[i] = 1; } });
	rt::runThreads(bodies, preempts(p), (int)p.num("first"), true);
	if (rt::violated()) return;
	for (size_t i = 0; i < calls.size(); ++i) {
		auto & c = calls[i]; std::string s = got[i].str(); s = s.substr(0, sizeof f->b);
		rt::log("T%d %s %s", c.t, c.what.c_str(), s.c_str()); rt::sig(c.what); rt::sig(c.v.k);
		rt::sampleAdd("T%d %s %s; ", c.t, c.what.c_str(), c.v.k == K_NONE ? "" : kindNames[c.v.k]);
		if (done[i] && s != alone[i]) return rt::violation("result-differs", "%s by thread %d gives [%s] under this interleaving, [%s] alone", c.what.c_str(), c.t, s.c_str(), alone[i].c_str());
	}
	rt::sig(rt::rep->hash);
	if (rt::rep->switches > 0 && nth > 1) { rt::rep->nontrivial = 1; rt::probe("runs with interleaved calls"); }
	rt::probe("calls compared with the call run alone", (uint32_t)calls.size());
}
Scenario const sc_C10 = {"C10", gen10, run10};
