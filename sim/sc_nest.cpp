// C17: calls nested inside calls (signal handlers, device callbacks).
#include "calls.h"
#include <algorithm>
#include <cerrno>

// call ID words.. | nest ID PARENT e<event>|d<request> words.. | alloc ID a<n>..
// e<event>: the call is made when the parent has made that many steps (a signal handler; algebra only)
// d<request>: the call is made by the parent's device at that request (any call)
struct NNode { int64_t id = 0, parent = -1; char at = 0; uint64_t pos = 0; GCall c; std::vector<size_t> kids; std::string alone, got; bool ran = false, hit = false; rt::AllocPlan plan; int depth = 0, times = 1; std::string bad; };
static std::vector<NNode> nodesOf(Plan const & p) {
	std::vector<NNode> n; std::map<int64_t, size_t> byId;
	for (auto & l : p.items) {
		bool top = l.at(0) == "call"; if ((!top && l.at(0) != "nest") || n.size() >= 24) continue;
		NNode x; x.id = l.num(1); if (byId.count(x.id)) continue;
		x.c = parseCall(l, top ? 2 : 4); if (!x.c.use) continue;
		if (!top) {
			auto q = byId.find(l.num(2)); if (q == byId.end() || l.at(3).size() < 2) continue;
			NNode & par = n[q->second]; x.parent = (int64_t)q->second; x.depth = par.depth + 1; if (x.depth > 14) continue;
			x.at = l.at(3)[0]; x.pos = strtoull(l.at(3).c_str() + 1, nullptr, 10);
			if (x.at == 'd' ? par.c.what != "ins" && par.c.what != "ext" : x.at != 'e' || x.c.what != "op") continue;
			par.kids.push_back(n.size());
		}
		byId[x.id] = n.size(); n.push_back(x);
	}
	for (auto & l : p.items) if (l.at(0) == "alloc" && byId.count(l.num(1))) n[byId[l.num(1)]].plan = allocFrom(l, 2);
	for (auto & l : p.items) if (l.at(0) == "times" && byId.count(l.num(1))) { NNode & x = n[byId[l.num(1)]]; if (x.kids.empty() && x.parent >= 0) x.times = (int)std::max<int64_t>(1, std::min<int64_t>(80, l.num(2))); }
	return n;
}
static void runNode(std::vector<NNode> & n, size_t i);
// the same call may come several times at one point
static void runTimes(std::vector<NNode> & n, size_t i) {
	NNode & x = n[i];
	for (int k = 0; k < x.times; ++k) { runNode(n, i); if (!x.hit && x.bad.empty() && x.got.substr(0, 8000) != x.alone) x.bad = x.got.substr(0, 8000); }
	if (x.times > 1) rt::probe("interruptions by a run of calls");
}
static void runNode(std::vector<NNode> & n, size_t i) {
	NNode & x = n[i]; std::vector<size_t> ev;
	for (size_t k : x.kids) if (n[k].at == 'e') ev.push_back(k);
	std::stable_sort(ev.begin(), ev.end(), [&](size_t a, size_t b) { return n[a].pos < n[b].pos; });
	std::vector<rt::Action> acts;
	for (size_t k : ev) acts.push_back({n[k].pos, [&n, k] { rt::fired(rt::F_INTERRUPT); rt::nested([&] { runTimes(n, k); }); }});
	uint64_t req = 0;
	rt::setAllocPlan(x.plan); rt::setActions(acts);
	bool dev = false; for (size_t k : x.kids) dev |= n[k].at == 'd';
	if (dev) rt::setDevHook([&] { uint64_t at = req++; for (size_t k : n[i].kids) if (n[k].at == 'd' && n[k].pos == at) { rt::fired(rt::F_REENTER); rt::nested([&] { runTimes(n, k); }); } });
	std::string s = perform(x.c, Env(), x.depth);
	rt::setActions({}); rt::setDevHook(nullptr);
	x.hit = rt::allocFailed() > 0; rt::clearAllocPlan();
	x.got = s; x.ran = true;
	rt::log("node %lld %s %s", (long long)x.id, x.c.name().c_str(), s.c_str());
}
static std::vector<std::string> cat(std::vector<std::string> a, std::vector<std::string> const & b) { a.insert(a.end(), b.begin(), b.end()); return a; }
static Plan gen17(rt::Rng & r, int tier, uint64_t) {
	static struct Shared { uint64_t total; uint32_t n; uint64_t at[256]; uint64_t req; } * dry = (Shared *)rt::sharedAlloc(sizeof(Shared));
	static rt::Report * scratch = (rt::Report *)rt::sharedAlloc(sizeof(rt::Report));
	Plan p; int fl = r.chance(.6) ? 0 : r.chance(.6) ? 1 : 2; int64_t id = 0; double pop = r.chance(.5) ? .95 : .3;
	int tops = (int)r.range(1, 2); genGlobal(r, p, .25);
	bool chain = r.chance(.06);      // one inside the other, many deep
	std::function<void(std::vector<std::string> const &, int64_t, int)> kids = [&](std::vector<std::string> const & w, int64_t me, int depth) {
		Line l; l.w = w; GCall c = parseCall(l, 0); if (!c.use) return;
		memset(dry, 0, sizeof *dry);
		rt::inFork([&] { rt::rep = scratch; rt::enterSim(); globalFrom(p); rt::setDevHook([] { ++dry->req; }); rt::recordBegin(); perform(c, Env()); uint64_t tot = 0; auto d = rt::recordEnd(&tot); dry->total = tot; for (uint64_t e : d) if (dry->n < 256) dry->at[dry->n++] = e; });
		uint64_t total = dry->total, req = dry->req; std::vector<uint64_t> at(dry->at, dry->at + dry->n);
		bool io = w[0] == "ins" || w[0] == "ext";
		int n = chain ? 1 : depth ? (r.chance(.25) ? 1 : 0) : (int)r.range(1, tier ? 4 : 3);
		for (int k = 0; k < n; ++k) {
			bool dev = io && req && r.chance(.75); std::vector<std::string> x; std::string where;
			int how = chain && r.chance(.7) ? (int)r.below(2) : (int)r.below(4);
			if (how == 0) x = w; else if (how == 1) x = r.chance(.5) ? perturb(r, w) : otherOperand(r, w, fl); else if (how == 2) x = related(r, w, fl); else x = genCall(r, fl, dev ? .3 : 1.);
			if (!dev && x[0] != "op") x = genCall(r, fl, 1.);
			if (dev) where = "d" + S((int64_t)r.below(req + 1));
			else if (!at.empty() && r.chance(.6)) { uint64_t e = at[r.below(at.size())] + r.below(4); where = "e" + S((int64_t)e); }
			else where = "e" + S((int64_t)r.below(total + 1));
			int64_t me2 = id++; p.add(cat({"nest", S(me2), S(me), where}, x));
			if (dev && r.chance(.15)) p.add({"alloc", S(me2), (r.chance(.3) ? "f" : "a") + S((int64_t)r.below(4))});
			if (!chain && r.chance(.15)) p.add({"times", S(me2), S(r.chance(.7) ? r.range(2, 9) : r.chance(.9) ? r.range(9, 34) : r.range(60, 70))});
			if (depth < (chain ? 13 : 3)) kids(x, me2, depth + 1);
		}
	};
	if (chain) tops = 1;
	for (int t = 0; t < tops; ++t) { auto w = genCall(r, fl, pop); int64_t me = id++; p.add(cat({"call", S(me)}, w)); kids(w, me, 0); }
	if (r.chance(.3)) { p.set("fresh", (int64_t)r.below(256)); p.set("freed", (int64_t)r.below(256)); }
	return p;
}
struct FlatN { int n; char b[8000]; };
static void run17(Plan const & p) {
	globalFrom(p);
	auto n = nodesOf(p); FlatN * flat = (FlatN *)rt::sharedAlloc(sizeof(FlatN));
	for (auto & x : n) {
		int st = rt::inFork([&] { static rt::Report own; rt::rep = &own; std::string s = perform(x.c, Env()); flat->n = (int)std::min(s.size(), sizeof flat->b); memcpy(flat->b, s.data(), (size_t)flat->n); });
		if (st) return rt::violation("dies-alone", "%s alone ends the process (status %d)", x.c.name().c_str(), st);
		x.alone.assign(flat->b, (size_t)flat->n);
	}
	fillFrom(p);
	for (size_t i = 0; i < n.size(); ++i) if (n[i].parent < 0) runNode(n, i);
	if (rt::violated()) return;
	for (auto & x : n) {
		if (!x.ran) continue;
		rt::sig(x.c.name()); rt::sig((uint64_t)x.at); rt::sig(x.pos); rt::sig((uint64_t)x.depth);
		std::string where = x.parent < 0 ? "" : std::string(x.at == 'd' ? " made by the device of " : " interrupting ") + n[x.parent].c.name();
		rt::sampleAdd("%s%s; ", x.c.name().c_str(), where.c_str());
		int inside = 0; for (size_t k : x.kids) inside += n[k].ran;
		if (x.parent >= 0) { rt::rep->nontrivial = 1; rt::probe(x.at == 'd' ? "calls made from inside a device" : "calls made inside an interrupted call"); if (x.depth > 1) rt::probe("calls nested more than one deep"); }
		if (inside) rt::probe("calls that had others inside");
		if (x.hit) { rt::probe("nested calls with failing allocation"); continue; }
		std::string g = x.bad.empty() ? x.got.substr(0, sizeof flat->b) : x.bad;
		if (g != x.alone) return rt::violation(x.parent < 0 ? "outer-differs" : "nested-differs", "%s%s, with %d call(s) inside it: [%s], alone: [%s]", x.c.name().c_str(), where.c_str(), inside, g.c_str(), x.alone.c_str());
	}
}
Scenario const sc_C17 = {"C17", gen17, run17};
