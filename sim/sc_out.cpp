// C04 C05 C06 C15: insertion, formatting state, encoders under memory exhaustion, dead devices.
#include "sc.h"
#include <iomanip>
#include <locale>

// With unitbuf the standard library flushes in a destructor: a throw there (from the device, or asked for by
// the exception mask) ends the process inside the standard library.  Such plans are made harmless.
static std::ios_base::iostate tameUnitbuf(bool unitbuf, std::ios_base::iostate mask, SimSink & sink) {
	if (!unitbuf) return mask;
	for (auto & f : sink.faults) f.kind = 0;
	for (auto & f : sink.flushFaults) f.kind = 0;
	return mask & ~std::ios_base::badbit;
}
static Kind genKind(rt::Rng & r) { return (Kind)r.below(NG3); }
static Kind genEnc(rt::Rng & r) { static Kind const e[] = {K_SCA, K_VEC, K_BIV, K_TRI, K_SPI, K_IMS, K_MV, K_DBL}; return e[r.below(8)]; }
static std::vector<std::string> itemWords(char const * head, std::vector<std::string> extra, Val const & v) { std::vector<std::string> w{head}; for (auto & e : extra) w.push_back(e); for (auto & x : valWords(v)) w.push_back(x); return w; }
static int genDigits(rt::Rng & r) { return r.chance(.05) ? (int)dictInt(r, 0, 2000) : r.chance(.3) ? -1 : r.chance(.8) ? (int)r.range(0, 20) : r.chance(.8) ? (int)r.range(20, 60) : (int)r.range(60, 400); }
static Val encVal(rt::Rng & r) { return genVal(r, genEnc(r), r.chance(.6) ? 0 : r.chance(.6) ? 1 : 2); }

static uint32_t deviceFaults() { uint32_t n = 0; for (int f : {rt::F_WRITE_SHORT, rt::F_WRITE_ERR, rt::F_WRITE_THROW, rt::F_FLUSH_ERR}) n += rt::rep->faults[f]; return n; }
// ---------------------------------------------------------------- C04
struct OutItem { std::string what; Val v; int a = -1, b = -1; std::string text; };
static bool parseItem(Line const & l, OutItem & o) {
	o.what = l.at(0);
	if (o.what == "ins") { o.v = parseVal(l, 1); return true; }
	if (o.what == "fixed") { o.a = (int)l.num(1); o.b = (int)l.num(2); o.v = parseVal(l, 3); return lib_hasEncoder(o.v.k); }
	if (o.what == "enote") { o.a = (int)l.num(1); o.v = parseVal(l, 2); return lib_hasEncoder(o.v.k); }
	if (o.what == "sep") { o.text = unesc(l.at(1)); return true; }
	if (o.what == "flush") return true;
	return false;
}
static void writeItem(std::ostream & os, OutItem const & it) {
	if (it.what == "sep") { os << it.text; return; }
	if (it.what == "flush") { os.flush(); return; }
	Obj o; it.v.make(o);
	if (it.what == "ins") { rt::LibCall c; lib_insert(os, it.v.k, &o); return; }
	std::string s;
	{ rt::LibCall c; if (it.what == "fixed") lib_fixed(it.v.k, &o, it.a, it.b, s); else lib_enote(it.v.k, &o, it.a, s); }
	os << s;
}
static Plan gen04(rt::Rng & r, int, uint64_t) {
	Plan p; int n = (int)r.range(1, 5); 
	for (int i = 0; i < n; ++i) {
		switch (r.below(6)) {
		case 0: { Val v = encVal(r); p.add(itemWords("fixed", {S(r.chance(.5) ? -1 : r.range(0, 12)), S(r.chance(.5) ? -1 : r.chance(.1) ? dictInt(r, 0, 2000) : r.range(0, 20))}, v)); break; }
		case 1: { Val v = encVal(r); p.add(itemWords("enote", {S(genDigits(r))}, v)); break; }
		default: p.add(itemWords("ins", {}, genVal(r, genKind(r), r.chance(.7) ? 0 : 2)));
		}
		if (r.chance(.5)) p.add({"sep", esc(r.chance(.6) ? "\n" : r.chance(.5) ? " " : ", ")});
		if (r.chance(.15)) p.add({"flush"});
	}
	size_t approx = 30 * p.items.size() + 20;
	if (r.chance(.75)) {
		int m = r.chance(.8) ? 1 : 2;
		for (int i = 0; i < m; ++i) p.add({"sink", S((int64_t)r.below(approx)), S(r.chance(.5) ? 0 : r.range(1, 4)), S(r.chance(.4) ? -1 : r.range(1, 2))});
	}
	if (r.chance(.15)) p.add({"flushf", S((int64_t)r.below(4)), S(r.chance(.5) ? 0 : 1), S(r.range(1, 2))});
	if (r.chance(.4)) { int m = (int)r.range(1, 2); for (int i = 0; i < m; ++i) p.add({"alloc", S((int64_t)r.below(n * 2)), (r.chance(.3) ? "f" : "a") + S(r.chance(.7) ? (int64_t)r.below(12) : (int64_t)r.below(60))}); }
	if (r.chance(.4)) p.set("mask", (int64_t)r.range(1, 7));
	if (r.chance(.5)) p.set("buf", r.chance(.5) ? (int64_t)r.range(1, 16) : (int64_t)r.range(16, 300));
	if (r.chance(.25)) p.set("shortmax", (int64_t)r.range(1, 9));
	if (r.chance(.2)) p.set("unitbuf", 1);
	if (r.chance(.3)) p.set("norecover", 1);
	if (r.chance(.3)) p.set("discard", 1);
	if (r.chance(.1)) p.set("loc", r.pick(simLocaleNames()));
	if (r.chance(.5)) { p.set("fresh", (int64_t)r.below(256)); p.set("freed", (int64_t)r.below(256)); }
	return p;
}
static void run04(Plan const & p) {
	fillFrom(p);
	std::vector<OutItem> items; std::vector<std::string> texts;
	for (auto & l : p.items) { OutItem o; if (parseItem(l, o)) items.push_back(o); }
	// fault-free texts, each from a fresh stream
	for (auto & it : items) { std::ostringstream os; if (p.cfg.count("loc")) os.imbue(simLocale(p.str("loc"))); try { writeItem(os, it); } catch (...) { return rt::violation("throws-without-fault", "writing %s %s throws with a healthy device and plentiful memory", it.what.c_str(), it.v.text().c_str()); }
		if (!os.good()) return rt::violation("fails-without-fault", "writing %s %s fails with a healthy device", it.what.c_str(), it.v.text().c_str());
		texts.push_back(os.str()); }
	std::map<int64_t, rt::AllocPlan> allocs; for (auto & l : p.items) if (l.at(0) == "alloc") allocs[l.num(1)] = allocFrom(l, 2);
	SimSink sink((size_t)p.num("buf")); sink.shortMax = (size_t)p.num("shortmax"); sink.faults = faultsFrom(p, "sink"); sink.flushFaults = faultsFrom(p, "flushf");
	std::ostream os(&sink);
	if (p.cfg.count("loc")) os.imbue(simLocale(p.str("loc")));
	if (p.num("unitbuf")) os << std::unitbuf;
	auto mask = tameUnitbuf(p.num("unitbuf"), maskOf(p.num("mask")), sink); if (mask) rt::fired(rt::F_EXC_MASK);
	os.exceptions(mask);
	std::string want; bool failed = false;
	rt::sig(stateBits(mask)); rt::sig(p.num("buf") > 0); rt::sig(p.num("unitbuf"));
	for (size_t i = 0; i < items.size(); ++i) {
		auto & it = items[i];
		bool threw = false; std::string ex; uint32_t devBefore = deviceFaults();
		if (allocs.count((int64_t)i)) rt::setAllocPlan(allocs[(int64_t)i]); else rt::setAllocPlan({});
		try { writeItem(os, it); } catch (...) { threw = true; ex = current_exception_name(); }
		bool allocHit = rt::allocFailed() > 0; rt::clearAllocPlan();
		bool devHit = deviceFaults() != devBefore;
		std::string emitted = sink.out + sink.pending(), full = want + texts[i];
		bool visible = threw || os.fail();
		rt::log("%s emitted=%zu state=%d threw=%s", it.what.c_str(), emitted.size(), stateBits(os.rdstate()), threw ? ex.c_str() : "-");
		rt::sig(it.v.k); rt::sig(it.what); rt::sig(threw); rt::sig(stateBits(os.rdstate())); rt::sig(allocHit); rt::sig(emitted.size() - std::min(emitted.size(), want.size()));
		rt::sampleAdd("%s %s%s; ", it.what.c_str(), it.v.k == K_NONE ? esc(it.text).c_str() : kindNames[it.v.k], threw ? (" threw " + ex).c_str() : os.fail() ? " failed" : "");
		std::string ctx = "item " + std::to_string(i) + " (" + it.what + " " + (it.v.k == K_NONE ? "" : it.v.text()) + "): device got [" + esc(emitted.substr(std::min(want.size(), emitted.size()))) + "], fault-free text [" + esc(texts[i]) + "]" + (allocHit ? ", allocation failed" : "") + (threw ? ", threw " + ex : "");
		if (failed) {   // stream left failed by the caller: nothing may be written
			if (emitted != want) return rt::violation("writes-to-failed-stream", "text appended though the stream has failed: %s", ctx.c_str());
			if (it.what == "flush" && sink.pending().size() + sink.out.size() == want.size()) {}
			rt::probe("insertion into a failed stream");
			continue;
		}
		if (emitted.size() > full.size() || full.compare(0, emitted.size(), emitted) != 0) return rt::violation("not-a-prefix", "the device's bytes are not a prefix of the fault-free text: %s", ctx.c_str());
		if (!visible && emitted.size() != full.size()) return rt::violation("silent-loss", "text is missing but the stream is good and nothing was thrown: %s", ctx.c_str());
		if (visible && !allocHit && !devHit) return rt::violation("fails-without-fault", "the device is healthy and memory plentiful, yet the insertion fails: %s", ctx.c_str());
		if (visible) {
			rt::rep->nontrivial = 1;
			if (emitted.size() > want.size() && emitted.size() < full.size()) rt::probe("failure in the middle of a value's text");
			if (allocHit) rt::probe("allocation failure made visible"); else rt::probe("device failure made visible");
			want = emitted;
			if (p.num("norecover") && os.fail()) { failed = true; continue; }
			if (p.num("discard")) { sink.discardPending(); want = sink.out; }
			sink.healthy(); rt::fired(rt::F_DEVICE_RECOVER);
			os.clear();
			rt::probe("cleared and continued");
		} else want = full;
	}
	if (!failed) {
		bool threw = false; sink.healthy();
		try { os.flush(); } catch (...) { threw = true; }
		if (!threw && os.good() && sink.out != want) return rt::violation("silent-loss", "after the final flush the device holds %zu of %zu bytes though the stream is good", sink.out.size(), want.size());
	}
	if (sink.requests > 1) rt::rep->nontrivial |= rt::rep->faults[rt::F_WRITE_SHORT] > 0;
}
Scenario const sc_C04 = {"C04", gen04, run04};

// ---------------------------------------------------------------- C05
static char const * const manips[] = {"hex", "oct", "dec", "fixed", "scientific", "hexfloat", "defaultfloat", "showpos", "noshowpos", "showpoint", "noshowpoint", "uppercase", "nouppercase", "showbase", "left", "right", "internal", "boolalpha", "unitbuf", "nounitbuf"};
static void applyManip(std::ostream & o, std::string const & m, int64_t arg) {
	if (m == "hex") o << std::hex; else if (m == "oct") o << std::oct; else if (m == "dec") o << std::dec;
	else if (m == "fixed") o << std::fixed; else if (m == "scientific") o << std::scientific; else if (m == "hexfloat") o << std::hexfloat; else if (m == "defaultfloat") o << std::defaultfloat;
	else if (m == "showpos") o << std::showpos; else if (m == "noshowpos") o << std::noshowpos; else if (m == "showpoint") o << std::showpoint; else if (m == "noshowpoint") o << std::noshowpoint;
	else if (m == "uppercase") o << std::uppercase; else if (m == "nouppercase") o << std::nouppercase; else if (m == "showbase") o << std::showbase;
	else if (m == "left") o << std::left; else if (m == "right") o << std::right; else if (m == "internal") o << std::internal; else if (m == "boolalpha") o << std::boolalpha;
	else if (m == "unitbuf") o << std::unitbuf; else if (m == "nounitbuf") o << std::nounitbuf;
	else if (m == "precision") o << std::setprecision((int)arg); else if (m == "fill") o << std::setfill((char)arg);
}
static void plainItem(std::ostream & o, Line const & l) {
	if (l.num(1) > 0) o << std::setw((int)l.num(1));
	if (l.at(2) == "d") o << unhexd(l.at(3)); else if (l.at(2) == "i") o << (int)l.num(3); else if (l.at(2) == "b") o << (l.num(3) != 0); else o << unesc(l.at(3));
}
static Plan gen05(rt::Rng & r, int, uint64_t) {
	Plan p; int n = (int)r.range(2, 10);
	for (int i = 0; i < n; ++i) {
		switch (r.below(5)) {
		case 0: case 1: if (r.chance(.3)) p.add({"man", "precision", S((int64_t)r.range(0, 20))}); else if (r.chance(.2)) p.add({"man", "fill", S(r.chance(.5) ? '*' : '0')}); else p.add({"man", manips[r.below(sizeof manips / sizeof *manips)]}); break;
		case 2: { char const * k = r.chance(.4) ? "d" : r.chance(.5) ? "i" : r.chance(.5) ? "b" : "s"; p.add({"plain", S(r.chance(.4) ? (int64_t)r.range(1, 20) : 0), k, *k == 'd' ? hexd(genDouble(r, 1)) : *k == 's' ? "txt" : S((int64_t)r.range(-500, 500))}); break; }
		default: { Val v = genVal(r, genKind(r), r.chance(.7) ? 0 : 2); if (r.chance(.1)) v.c[r.below(kindDim[v.k])] = r.chance(.5) ? NAN : r.chance(.5) ? INFINITY : -INFINITY; p.add(itemWords("ins", {}, v)); }
		}
	}
	if (r.chance(.7)) p.add({"plain", S(r.chance(.5) ? (int64_t)r.range(1, 20) : 0), "d", hexd(genDouble(r, 1))});
	if (r.chance(.35)) p.add({"sink", S((int64_t)r.below(150)), S(r.chance(.5) ? 0 : r.range(1, 4)), S((int64_t)1)});
	if (r.chance(.3)) p.add({"alloc", S((int64_t)r.below(n)), (r.chance(.3) ? "f" : "a") + S((int64_t)r.below(10))});
	if (r.chance(.3)) p.set("mask", (int64_t)r.range(1, 7));
	if (r.chance(.4)) p.set("buf", (int64_t)r.range(1, 64));
	if (r.chance(.15)) p.set("loc", r.pick(simLocaleNames()));
	return p;
}
static void run05(Plan const & p) {
	auto faults = faultsFrom(p, "sink");
	SimSink sink((size_t)p.num("buf")); sink.faults = faults;
	std::ostream os(&sink); if (p.cfg.count("loc")) os.imbue(simLocale(p.str("loc")));
	bool ub = false; for (auto & l : p.items) if (l.at(0) == "man" && l.at(1) == "unitbuf") ub = true;
	auto mask = tameUnitbuf(ub, maskOf(p.num("mask")), sink); os.exceptions(mask);
	if (mask) rt::fired(rt::F_EXC_MASK);
	std::locale const loc0 = os.getloc(); static int const myWord = std::ios_base::xalloc(); os.iword(myWord) = 41;   // as manipulators of the user's own do
	std::ostringstream shadow; shadow.imbue(os.getloc()); // sees the same manipulators and plain values, never a G3 value
	std::map<int64_t, rt::AllocPlan> allocs; for (auto & l : p.items) if (l.at(0) == "alloc") allocs[l.num(1)] = allocFrom(l, 2);
	int64_t idx = 0; int nman = 0;
	for (auto & l : p.items) {
		size_t at = sink.out.size() + sink.pending().size();
		if (l.at(0) == "man") { applyManip(os, l.at(1), l.num(2)); applyManip(shadow, l.at(1), l.num(2)); ++nman; rt::sig(l.at(1)); }
		else if (l.at(0) == "plain") {
			shadow.str(""); plainItem(shadow, l); bool threw = false;
			try { plainItem(os, l); } catch (...) { threw = true; }
			std::string got = (sink.out + sink.pending()).substr(at);
			if (!threw && os.good()) { if (got != shadow.str()) return rt::violation("disturbs-formatting", "plain value after G3 values prints [%s], without them [%s]", esc(got).c_str(), esc(shadow.str()).c_str()); rt::probe("plain value compared"); }
			os.width(0); shadow.width(0);
		} else if (l.at(0) == "ins") {
			Val v = parseVal(l, 1); Obj o; v.make(o);
			std::ostringstream pristine; pristine.imbue(os.getloc());
			try { rt::LibCall c; lib_insert(pristine, v.k, &o); } catch (...) { return rt::violation("throws-without-fault", "inserting %s throws", v.text().c_str()); }
			auto fl = os.flags(); auto pr = os.precision(); auto fi = os.fill(); auto ex = os.exceptions();
			if (allocs.count(idx)) rt::setAllocPlan(allocs[idx]); else rt::setAllocPlan({});
			bool threw = false; uint32_t devBefore = deviceFaults();
			try { rt::LibCall c; lib_insert(os, v.k, &o); } catch (...) { threw = true; }
			bool allocHit = rt::allocFailed() > 0; rt::clearAllocPlan(); ++idx;
			std::string got = (sink.out + sink.pending()).substr(at);
			rt::log("ins %s [%s] threw=%d", v.text().c_str(), got.c_str(), threw);
			rt::sampleAdd("%s printed after %d manipulators%s; ", kindNames[v.k], nman, threw || os.fail() ? " (failed part way)" : "");
			rt::sig(v.k); rt::sig((uint64_t)fl); rt::sig((uint64_t)pr); rt::sig(threw);
			bool ok = !threw && os.good();
			if (!ok && !allocHit && deviceFaults() == devBefore) return rt::violation("fails-without-fault", "inserting %s fails though the device is healthy (exception mask %d)", v.text().c_str(), stateBits(ex));
			if (ok && got != pristine.str()) return rt::violation("obeys-formatting", "%s prints [%s] on this stream and [%s] on a fresh one", v.text().c_str(), esc(got).c_str(), esc(pristine.str()).c_str());
			if (!ok && pristine.str().compare(0, got.size(), got) != 0) return rt::violation("obeys-formatting", "%s printed [%s] before failing, a fresh stream gives [%s]", v.text().c_str(), esc(got).c_str(), esc(pristine.str()).c_str());
			if (os.flags() != fl) return rt::violation("disturbs-flags", "inserting %s changed the format flags %#x -> %#x%s", v.text().c_str(), (unsigned)fl, (unsigned)os.flags(), ok ? "" : " (insertion failed part way)");
			if (os.precision() != pr) return rt::violation("disturbs-precision", "inserting %s changed the precision %d -> %d%s", v.text().c_str(), (int)pr, (int)os.precision(), ok ? "" : " (insertion failed part way)");
			if (os.fill() != fi) return rt::violation("disturbs-fill", "inserting %s changed the fill character%s", v.text().c_str(), ok ? "" : " (insertion failed part way)");
			if (!(os.getloc() == loc0)) return rt::violation("disturbs-locale", "inserting %s changed the stream's locale%s", v.text().c_str(), ok ? "" : " (insertion failed part way)");
			if (os.iword(myWord) != 41) return rt::violation("disturbs-formatting", "inserting %s changed what a manipulator had stored in the stream%s", v.text().c_str(), ok ? "" : " (insertion failed part way)");
			if (os.exceptions() != ex) return rt::violation("disturbs-mask", "inserting %s changed the exception mask%s", v.text().c_str(), ok ? "" : " (insertion failed part way)");
			if (nman) { rt::rep->nontrivial = 1; rt::probe("inserted after manipulators"); }
			if (!ok) { rt::probe(allocHit ? "insertion failed: allocation" : "insertion failed: device"); rt::rep->nontrivial = 1; }
		}
		if (os.fail()) { auto m = os.exceptions(); os.exceptions(std::ios_base::goodbit); os.clear(); os.exceptions(m); }
	}
}
Scenario const sc_C05 = {"C05", gen05, run05};

// ---------------------------------------------------------------- C06
static Plan gen06(rt::Rng & r, int, uint64_t) {
	Plan p; int n = (int)r.range(1, 4);
	for (int i = 0; i < n; ++i) {
		Val v = encVal(r);
		if (r.chance(.5)) p.add(itemWords("fixed", {S(genDigits(r)), S(genDigits(r))}, v)); else p.add(itemWords("enote", {S(genDigits(r))}, v));
		int m = (int)r.range(1, 6);
		for (int j = 0; j < m; ++j) {
			std::vector<std::string> w{"fail"};
			if (r.chance(.65)) w.push_back("q" + S((int64_t)r.below(1000))); else if (r.chance(.6)) w.push_back("Q" + S((int64_t)r.below(1000)));
			else { int c = (int)r.range(2, 4); for (int k = 0; k < c; ++k) w.push_back("q" + S((int64_t)r.below(1000))); }
			p.add(w);
		}
	}
	if (r.chance(.7)) { p.set("fresh", (int64_t)r.below(256)); p.set("freed", (int64_t)r.below(256)); }
	return p;
}
static void encode(OutItem const & it, Obj const & o, std::string & s) { rt::LibCall c; if (it.what == "fixed") lib_fixed(it.v.k, &o, it.a, it.b, s); else lib_enote(it.v.k, &o, it.a, s); }
// Is this the whole text: every component, as a number with all the digits asked for?
static std::string incomplete(OutItem const & it, std::string const & s) {
	std::vector<std::string> tok; { std::istringstream is(s); for (std::string w; is >> w; ) tok.push_back(w); }
	char b[300];
	if (tok.size() != kindDim[it.v.k]) { snprintf(b, sizeof b, "%zu numbers for %u components", tok.size(), kindDim[it.v.k]); return b; }
	int dig = it.what == "fixed" ? (it.a < 0 || it.b < 0 ? 6 : it.b) : (it.a < 0 ? 15 : it.a);
	for (size_t i = 0; i < tok.size(); ++i) {
		double v = it.v.c[i]; if (!std::isfinite(v)) continue;
		char * end; long double d = strtold(tok[i].c_str(), &end), big = v; size_t pt = tok[i].find('.'), e = tok[i].find('e');
		size_t after = pt == std::string::npos ? 0 : (e == std::string::npos ? tok[i].size() : e) - pt - 1;
		long double unit = .5L * std::pow(10.L, -dig); if (it.what != "fixed" && v != 0.) unit *= std::pow(10.L, std::floor(std::log10(std::fabs(big)) + 1e-12L));
		if (*end || after != (size_t)dig || !(std::fabs(d - big) <= unit * 1.01L + 1e-18L * std::fabs(big))) { snprintf(b, sizeof b, "component %zu, %.17g, is written as [%.120s] with %d digits asked for", i, v, tok[i].c_str(), dig); return b; }
	}
	return "";
}
static void run06(Plan const & p) {
	fillFrom(p);
	OutItem it; bool have = false; std::string base; uint32_t n = 0; int64_t live0 = 0;
	for (auto & l : p.items) {
		if (l.at(0) == "fixed" || l.at(0) == "enote") {
			have = parseItem(l, it); if (!have) continue;
			if (it.a > 2000 || it.b > 2000) { have = false; continue; }
			Obj o; it.v.make(o); rt::setAllocPlan({});
			try { std::string s; encode(it, o, s); std::string t(s.data(), s.size()); base.swap(t); } catch (...) { return rt::violation("throws-without-fault", "%s(%s) throws with plentiful memory", it.what.c_str(), it.v.text().c_str()); }
			{ std::string w = incomplete(it, base); if (!w.empty()) return rt::violation("incomplete-text", "%s(%s) is not the whole text: %s", it.what.c_str(), it.v.text().c_str(), w.c_str()); }
			n = rt::allocCount(); live0 = rt::liveBlocks();
			rt::probe("encoder calls", 1); rt::sig(it.what); rt::sig(it.v.k); rt::sig((uint64_t)it.a); rt::sig((uint64_t)it.b);
			rt::sampleAdd("%s %s needs %u allocations; ", it.what.c_str(), kindNames[it.v.k], n);
		} else if (l.at(0) == "fail" && have) {
			rt::AllocPlan ap;
			for (size_t i = 1; i < l.w.size(); ++i) { uint32_t k = (uint32_t)((uint64_t)atoi(l.w[i].c_str() + 1) * n / 1000); if (l.w[i][0] == 'Q') ap.from = k; else ap.at.push_back(k); }
			Obj o; it.v.make(o); bool threw = false; std::string ex, got; bool hit;
			{
				std::string s; rt::setAllocPlan(ap);
				try { encode(it, o, s); } catch (...) { threw = true; ex = current_exception_name(); }
				hit = rt::allocFailed() > 0; rt::clearAllocPlan(); got.assign(s.data(), s.size());
			}
			rt::log("%s fails hit=%d threw=%s len=%zu", it.what.c_str(), hit, threw ? ex.c_str() : "-", got.size());
			for (size_t i = 1; i < l.w.size(); ++i) rt::sig(l.w[i]);
			rt::sig(threw);
			if (hit) { rt::rep->nontrivial = 1; rt::probe(threw ? "allocation failure reported by exception" : "allocation failure tolerated"); }
			if (threw && !hit) return rt::violation("throws-without-fault", "%s(%s) threw %s though no allocation failed", it.what.c_str(), it.v.text().c_str(), ex.c_str());
			if (!threw && got != base) return rt::violation("shortened-text", "%s(%s) returned [%s] instead of [%s] when an allocation failed", it.what.c_str(), it.v.text().c_str(), esc(got).c_str(), esc(base).c_str());
			if (rt::liveBlocks() != live0) return rt::violation("leak", "%s(%s): %lld block(s) leaked by a call %s", it.what.c_str(), it.v.text().c_str(), (long long)(rt::liveBlocks() - live0), threw ? "that threw" : "under allocation failure");
			std::string again;
			try { std::string s; rt::setAllocPlan({}); encode(it, o, s); again.assign(s.data(), s.size()); } catch (...) { return rt::violation("poisoned", "%s(%s) throws in the call after a failed one", it.what.c_str(), it.v.text().c_str()); }
			if (again != base) return rt::violation("poisoned", "%s(%s) returns [%s] in the call after a failed one, [%s] before", it.what.c_str(), it.v.text().c_str(), esc(again).c_str(), esc(base).c_str());
			if (rt::liveBlocks() != live0) return rt::violation("leak", "%s(%s): a call with plentiful memory keeps memory", it.what.c_str(), it.v.text().c_str());
		}
	}
}
Scenario const sc_C06 = {"C06", gen06, run06};

// ---------------------------------------------------------------- C15
static Plan gen15(rt::Rng & r, int, uint64_t) {
	Plan p; bool in = r.chance(.5); p.set("dir", in ? "in" : "out");
	int n = (int)r.range(1, 4);
	for (int i = 0; i < n; ++i) {
		Kind k = genKind(r);
		if (in && r.chance(.15)) { static char const * const j[] = {"x", "-", "1e", "nan", "1e999", "+.", "abc"}; p.add({"junk", j[r.below(7)]}); }
		p.add(itemWords("ins", {}, genVal(r, k, 0)));
		if (r.chance(.25)) p.add({"clear"});
		if (r.chance(.15)) p.add({"flush"});
	}
	p.add({in ? "src" : "sink", S((int64_t)r.below(60 * n)), S(r.chance(.4) ? 0 : r.range(1, 4)), S((int64_t)-1)});
	if (!in && r.chance(.2)) p.add({"flushf", "0", S(r.chance(.5) ? 0 : 1), "-1"});
	if (r.chance(.4)) p.set("mask", (int64_t)r.range(1, 7));
	if (in) genChunks(r, p); else { if (r.chance(.5)) p.set("buf", (int64_t)r.range(1, 64)); if (r.chance(.3)) p.set("shortmax", (int64_t)r.range(1, 5)); if (r.chance(.2)) p.set("unitbuf", 1); }
	return p;
}
static void run15(Plan const & p) {
	bool in = p.str("dir") == "in"; auto mask = maskOf(p.num("mask"));
	std::string bytes;
	for (auto & l : p.items) if (l.at(0) == "ins") { Val v = parseVal(l, 1); for (unsigned i = 0; i < kindDim[v.k]; ++i) bytes += dtext(v.c[i]) + " "; } else if (l.at(0) == "junk") bytes += unesc(l.at(1)) + " ";
	// the same numbers read one by one from an identical device: how far may an extraction that fails have read?
	SimSource ref(bytes); ref.faults = faultsFrom(p, "src"); applyChunks(p, ref); std::istream rs(&ref); rs.exceptions(mask); bool inStep = true;
	bytes += "1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16";
	SimSource src(bytes); src.faults = faultsFrom(p, "src"); applyChunks(p, src);
	SimSink sink((size_t)p.num("buf")); sink.faults = faultsFrom(p, "sink"); sink.flushFaults = faultsFrom(p, "flushf"); sink.shortMax = (size_t)p.num("shortmax");
	mask = tameUnitbuf(p.num("unitbuf"), mask, sink);
	std::istream is(&src); std::ostream os(&sink); is.exceptions(mask); os.exceptions(mask); if (p.num("unitbuf")) os << std::unitbuf;
	std::ios & ios = in ? static_cast<std::ios &>(is) : static_cast<std::ios &>(os);
	for (auto & l : p.items) {
		if (l.at(0) == "clear") { rs.exceptions(std::ios_base::goodbit); rs.clear(); rs.exceptions(mask); ios.exceptions(std::ios_base::goodbit); ios.clear(); ios.exceptions(mask); rt::probe("caller cleared a dead stream"); continue; }
		if (l.at(0) == "flush" && !in) { try { os.flush(); } catch (...) {} continue; }
		if (l.at(0) != "ins") continue;
		Val v = parseVal(l, 1); Obj o; v.make(o); unsigned bound = 6 * kindDim[v.k] + 24;
		uint64_t dead0 = in ? src.requestsAfterDead : sink.requestsAfterDead; size_t cons = src.consumed(); bool wasFail = ios.fail(); uint64_t req0 = in ? src.requests : sink.requests; size_t out0 = sink.out.size() + sink.pending().size();
		rt::setDevBudget(200000);
		bool threw = false; try { rt::LibCall c; if (in) lib_extract(is, v.k, &o); else lib_insert(os, v.k, &o); } catch (...) { threw = true; }
		rt::setDevBudget(-1);
		uint64_t dead = (in ? src.requestsAfterDead : sink.requestsAfterDead) - dead0, req = (in ? src.requests : sink.requests) - req0;
		rt::log("%s %s dead=%llu req=%llu state=%d", in ? "extract" : "insert", kindNames[v.k], (unsigned long long)dead, (unsigned long long)req, stateBits(ios.rdstate()));
		rt::sampleAdd("%s %s: %llu requests to the dead device%s; ", in ? "extract" : "insert", kindNames[v.k], (unsigned long long)dead, threw ? ", threw" : "");
		rt::sig(in); rt::sig(v.k); rt::sig(dead); rt::sig(threw); rt::sig(stateBits(ios.rdstate())); rt::sig(wasFail);
		if (dead) { rt::rep->nontrivial = 1; rt::fired(rt::F_STALL, 0); rt::probe("device died inside or before this call"); }
		if (dead > bound) return rt::violation("unbounded-retries", "%s %s issued %llu requests to a device that had stopped working (bound %u)", in ? "extracting" : "inserting", kindNames[v.k], (unsigned long long)dead, bound);
		if (in && inStep && !wasFail) {
			uint32_t save[rt::F_COUNT]; memcpy(save, rt::rep->faults, sizeof save);
			bool refThrew = false; unsigned k = 0;
			try { for (; k < kindDim[v.k]; ++k) { double d; rs >> d; if (rs.fail() || !validD(d)) break; } } catch (...) { refThrew = true; }
			memcpy(rt::rep->faults, save, sizeof save);
			bool refFailed = rs.fail() || refThrew;
			if (refFailed) { rt::probe("extractions whose stream failed part way"); rt::rep->nontrivial = 1; if (src.consumed() > ref.consumed()) return rt::violation("consumed-from-failed-stream", "extracting %s went on reading to byte %zu though the stream had failed at byte %zu", kindNames[v.k], src.consumed(), ref.consumed()); }
			if (src.consumed() != ref.consumed() || (k < kindDim[v.k] && !refFailed)) inStep = false;     // after an invalid number positions may differ
		}
		if (in && wasFail && src.consumed() != cons) return rt::violation("consumed-from-failed-stream", "extracting %s from a failed stream consumed %zu bytes", kindNames[v.k], src.consumed() - cons);
		if (!in && wasFail && sink.out.size() + sink.pending().size() != out0) return rt::violation("writes-to-failed-stream", "inserting %s into a failed stream wrote", kindNames[v.k]);
		if (wasFail && req > bound) return rt::violation("unbounded-retries", "%s on a failed stream issued %llu device requests", in ? "extraction" : "insertion", (unsigned long long)req);
		if (wasFail) rt::probe("call on a failed stream");
	}
}
Scenario const sc_C15 = {"C15", gen15, run15};
