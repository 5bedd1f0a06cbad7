// C19: threads that end (pthread_exit, cancellation) in the middle of a call.
#include "calls.h"
#include <algorithm>
#include <cxxabi.h>
#include <memory>

void genPreempts(rt::Rng & r, Plan & p, int nth, std::function<void(Plan const &, int)> const & runThread);
// v TH ins|ext loc mask way pos size|chunks val.. | next val..: the call that is cut short, and the value that follows on its stream
// c TH words..: a call by another thread at the same time (TH > 0) or by the main thread afterwards (TH 0)
enum { MAXV = 3 };
struct Victim {
	int th = 0; bool in = false; std::string loc; int mask = 0, way = 5; uint64_t pos = 0; std::string size; Val v, next;
	// made for the run
	std::unique_ptr<SimSink> sink; std::unique_ptr<std::ostream> os; std::unique_ptr<SimSource> src; std::unique_ptr<std::istream> is; Obj o; std::locale used = std::locale::classic(); bool dressed = false, returned = false, began = false; std::string full, nextText;
};
static std::string numbersOf(std::string const & loc, Val const & v) { std::ostringstream os; os.imbue(simLocale(loc)); os.precision(17); for (unsigned i = 0; i < kindDim[v.k]; ++i) os << (i ? " " : "") << v.c[i]; return os.str(); }
static std::vector<std::unique_ptr<Victim>> victimsOf(Plan const & p) {
	std::vector<std::unique_ptr<Victim>> out;
	for (auto & l : p.items) if (l.at(0) == "v" && out.size() < MAXV) {
		auto x = std::make_unique<Victim>(); x->th = (int)l.num(1); x->in = l.at(2) == "ext"; x->loc = l.at(3); x->mask = (int)l.num(4); x->way = (int)l.num(5); x->pos = l.u64(6); x->size = l.at(7); x->v = parseVal(l, 8); x->next = parseVal(l, 9 + kindDim[x->v.k]);
		x->dressed = p.num("dressed"); if (x->th < 1 || x->th > 5 || (x->way != 5 && x->way != 6) || x->v.k >= NG3 || x->next.k >= NG3) continue;
		bool twice = false; for (auto & y : out) twice |= y->th == x->th; if (twice) continue;
		out.push_back(std::move(x));
	}
	return out;
}
static void dress(std::ios & s) { s.precision(9); s.setf(std::ios::left, std::ios::adjustfield); s.setf(std::ios::showpos); s.fill('*'); }
static void open(Victim & x, bool faults) {
	x.used = simLocale(x.loc);
	if (x.in) {
		x.src = std::make_unique<SimSource>(numbersOf(x.loc, x.v) + "\n" + numbersOf(x.loc, x.next) + "\n"); x.src->chunks = parseList(x.size); if (faults) x.src->faults.push_back({x.pos, x.way, 1});
		x.is = std::make_unique<std::istream>(x.src.get()); x.is->imbue(x.used); x.is->exceptions(maskOf(x.mask)); Val old; old.k = x.v.k; for (auto & d : old.c) d = 77.; old.make(x.o); if (x.dressed) dress(*x.is);
	} else {
		x.sink = std::make_unique<SimSink>((size_t)strtoull(x.size.c_str(), nullptr, 10)); if (faults) x.sink->faults.push_back({x.pos, x.way, 1});
		x.os = std::make_unique<std::ostream>(x.sink.get()); x.os->imbue(x.used); x.os->exceptions(maskOf(x.mask)); x.v.make(x.o); if (x.dressed) dress(*x.os);
	}
}
static void call(Victim & x) {
	x.began = true;
	try { rt::LibCall k; if (x.in) lib_extract(*x.is, x.v.k, &x.o); else lib_insert(*x.os, x.v.k, &x.o); }
	catch (__cxxabiv1::__forced_unwind &) { throw; }
	catch (...) {}
	x.returned = true;
}
static void close(Victim & x) { x.os.reset(); x.is.reset(); x.sink.reset(); x.src.reset(); }
static std::string textOf(Victim const & x, Val const & v) { std::ostringstream os; os.imbue(simLocale(x.loc)); if (x.dressed) dress(os); Obj o; v.make(o); { rt::LibCall k; lib_insert(os, v.k, &o); } return os.str(); }
static void dry19(Plan const & p, int t) {
	for (auto & x : victimsOf(p)) if (x->th == t) { open(*x, false); call(*x); }
	for (auto & l : p.items) if (l.at(0) == "c" && l.num(1) == t) { GCall c = parseCall(l, 2); if (c.use) perform(c, Env(), t); }
}
static Plan gen19(rt::Rng & r, int, uint64_t) {
	Plan p; int nv = r.chance(.75) ? 1 : 2, no = (int)r.below(3); Kind last = K_NONE;
	for (int t = 1; t <= nv; ++t) {
		Kind k = (Kind)r.below(NG3), k2 = r.chance(.5) ? k : (Kind)r.below(NG3); if (t > 1 && r.chance(.5)) k = last; last = k;
		Val v = genVal(r, k, r.chance(.7) ? 0 : 1), n = genVal(r, k2, 0); bool in = r.chance(.5); std::string loc = r.chance(.7) ? "C" : r.pick(simLocaleNames());
		size_t len = in ? numbersOf("C", v).size() + 1 : 12 * kindDim[k]; std::string size;
		if (in) { int m = (int)r.range(1, 3); for (int i = 0; i < m; ++i) size += (i ? "," : "") + std::to_string(r.chance(.4) ? 1 : r.range(1, 60)); } else size = std::to_string(r.chance(.7) ? 0 : r.range(1, 40));
		std::vector<std::string> w{"v", std::to_string(t), in ? "ext" : "ins", loc, std::to_string(r.chance(.5) ? 0 : r.below(8)), std::to_string(r.range(5, 6)), std::to_string(r.below(len)), size};
		for (auto & s : valWords(v)) w.push_back(s);
		for (auto & s : valWords(n)) w.push_back(s);
		p.add(w);
	}
	int fl = r.chance(.7) ? 0 : 1;
	auto words = [&] { return r.chance(.6) ? genIoWords(r, fl) : genCall(r, fl, .7); };
	for (int t = nv + 1; t <= nv + no; ++t) { int m = (int)r.range(1, 3); for (int i = 0; i < m; ++i) { std::vector<std::string> w{"c", std::to_string(t)}; for (auto & s : words()) w.push_back(s); p.add(w); } }
	int m = (int)r.range(1, 4); for (int i = 0; i < m; ++i) { std::vector<std::string> w{"c", "0"}; for (auto & s : words()) w.push_back(s); p.add(w); }
	if (r.chance(.5)) p.set("warm", 1);
	if (r.chance(.3)) p.set("dressed", 1);
	genGlobal(r, p, .15);
	if (nv + no > 1) genPreempts(r, p, nv + no, dry19);
	if (r.chance(.3)) { p.set("fresh", (int64_t)r.below(256)); p.set("freed", (int64_t)r.below(256)); }
	return p;
}
struct First19 { int n; char b[4000]; };
static void run19(Plan const & p) {
	globalFrom(p);
	struct Other { int th; GCall c; std::string alone, got; bool ran = false; }; std::vector<Other> others; int nth = 0;
	First19 * flat = (First19 *)rt::sharedAlloc(sizeof(First19));
	auto alone = [&](std::function<std::string()> const & f) { flat->n = 0; int st = rt::inFork([&] { static rt::Report own; rt::rep = &own; std::string s = f(); flat->n = (int)std::min(s.size(), sizeof flat->b); memcpy(flat->b, s.data(), (size_t)flat->n); }); return st ? std::string("<dies>") : std::string(flat->b, (size_t)flat->n); };
	for (auto & l : p.items) if (l.at(0) == "c" && others.size() < 16) { Other x; x.th = (int)l.num(1); x.c = parseCall(l, 2); if (!x.c.use || x.th < 0 || x.th > 5) continue; x.alone = alone([&] { return perform(x.c, Env()); }); others.push_back(x); nth = std::max(nth, x.th); }
	auto vs = victimsOf(p); if (vs.empty()) return;
	for (auto & x : vs) { nth = std::max(nth, x->th); x->full = alone([&] { return x->in ? std::string() : textOf(*x, x->v); }); x->nextText = alone([&] { return x->in ? std::string() : textOf(*x, x->next); }); }
	fillFrom(p);
	int st = rt::inFork([&] {
		bool warm = p.num("warm"); int64_t live0 = 0;
		if (warm) { for (int k = 0; k < 2; ++k) for (auto & x : vs) { open(*x, false); call(*x); close(*x); } for (auto & x : vs) textOf(*x, x->next); for (auto & x : others) perform(x.c, Env()); for (auto & x : vs) x->returned = x->began = false; live0 = rt::liveBlocks(); }
		for (auto & x : vs) open(*x, true);
		rt::setTouch((uint32_t)p.num("touch"), (uint64_t)p.num("tseed"));
		std::vector<rt::Preempt> pre; for (auto & l : p.items) if (l.at(0) == "pre") pre.push_back({(int)l.num(1), l.u64(2), (int)l.num(3)});
		std::vector<std::function<void()>> bodies;
		for (int t = 1; t <= nth; ++t) bodies.push_back([&, t] {
			for (auto & x : vs) if (x->th == t) call(*x);
			for (auto & x : others) if (x.th == t) { x.got = perform(x.c, Env(), t); x.ran = true; }
		});
		rt::runThreads(bodies, pre, (int)p.num("first"), true);
		if (rt::violated()) return;
		for (auto & x : others) if (x.th == 0) { x.got = perform(x.c, Env()); x.ran = true; }
		for (auto & x : vs) {
			std::string what = std::string(x->in ? "extraction of " : "insertion of ") + x->v.text(); bool cut = x->began && !x->returned;
			rt::sig(x->in); rt::sig(x->v.k); rt::sig(x->pos); rt::sig(cut); rt::sig((uint64_t)x->way);
			if (cut) { rt::rep->nontrivial = 1; rt::fired(rt::F_THREAD_END); rt::probe(x->in ? "extractions cut short by the end of their thread" : "insertions cut short by the end of their thread"); rt::sampleAdd("%s cut short at byte %llu by %s; ", what.c_str(), (unsigned long long)x->pos, x->way == 5 ? "pthread_exit" : "cancellation"); }
			if (!cut) continue;
			std::ios & ios = x->in ? (std::ios &)*x->is : (std::ios &)*x->os; std::ios plain(nullptr); if (x->dressed) dress(plain);
			auto kept = [&] { return ios.flags() == plain.flags() && ios.precision() == plain.precision() && ios.fill() == plain.fill() && !ios.width(); };
			char const * other = ios.rdbuf() != (x->in ? (std::streambuf *)x->src.get() : (std::streambuf *)x->sink.get()) ? "buffer" : ios.exceptions() != maskOf(x->mask) ? "exception mask" : !(ios.getloc() == x->used) ? "locale" : ios.tie() ? "tied stream" : nullptr;
			if (other) return rt::violation("leaves-stream", "%s, cut short, leaves the stream with another %s", what.c_str(), other);
			if (!kept()) return rt::violation("leaves-format", "%s, cut short, leaves the stream with other formatting", what.c_str());
			if (x->in) {
				Val old; old.k = x->v.k; for (auto & d : old.c) d = 77.;      // the target may be null or be left alone
				if (lib_valid(x->v.k, &x->o) && !Val::from(x->v.k, x->o).same(old)) return rt::violation("valid-after-end", "%s was cut short at byte %llu, yet the target tests valid: %s", what.c_str(), (unsigned long long)x->pos, Val::from(x->v.k, x->o).text().c_str());
				x->is->exceptions(std::ios_base::goodbit); x->is->clear(); x->is->ignore(100000, '\n'); Obj o; Val z; z.k = x->next.k; z.make(o);
				{ rt::LibCall k; lib_extract(*x->is, z.k, &o); }
				Val got = Val::from(z.k, o); if (!lib_valid(z.k, &o) || !got.same(x->next)) return rt::violation("later-differs", "after %s was cut short, the next record of the stream, %s, reads as %s", what.c_str(), x->next.text().c_str(), got.text().c_str());
			} else {
				std::string had = x->sink->out + x->sink->pending();
				if (had.size() > x->full.size() || x->full.compare(0, had.size(), had)) return rt::violation("not-a-prefix", "%s, cut short, gave the device [%s], which is not the beginning of [%s]", what.c_str(), esc(had).c_str(), esc(x->full).c_str());
				x->os->exceptions(std::ios_base::goodbit); x->os->clear(); x->next.make(x->o); { rt::LibCall k; lib_insert(*x->os, x->next.k, &x->o); } x->os->flush();
				if (x->sink->out != had + x->nextText) return rt::violation("later-differs", "after %s was cut short, inserting %s in the same stream gives [%s] instead of [%s]", what.c_str(), x->next.text().c_str(), esc(x->sink->out.substr(std::min(had.size(), x->sink->out.size()))).c_str(), esc(x->nextText).c_str());
			}
			if (!kept()) return rt::violation("leaves-format", "after %s was cut short, a later call leaves the stream with other formatting", what.c_str());
		}
		for (auto & x : others) if (x.ran) {
			rt::sig(x.c.name()); rt::log("T%d %s", x.th, x.got.c_str());
			std::string g = x.got.substr(0, sizeof flat->b);
			if (g != x.alone) return rt::violation("later-differs", "%s %s gives [%s], alone [%s]", x.c.name().c_str(), x.th ? "by a thread at work while another ends" : "after a thread ended in a call", g.c_str(), x.alone.c_str());
		}
		for (auto & x : vs) close(*x);
		if (warm && rt::liveBlocks() > live0) return rt::violation("leak", "a call cut short by the end of its thread leaves %lld more heap block(s) behind", (long long)(rt::liveBlocks() - live0));
	});
	if (rt::violated()) return;
	if (st) rt::violation("dies", "the process does not survive the end of a thread in the middle of a call (wait status %d)", st);
}
Scenario const sc_C19 = {"C19", gen19, run19};
