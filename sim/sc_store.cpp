// C07 (crash-prone store) and C08 (locales).
#include "sc.h"
#include <iomanip>
#include <locale>

// ---------------------------------------------------------------- C07
// Simulated append-only file: bytes reach a volatile cache, fsync makes them durable, a crash keeps the
// durable prefix plus some of the unsynced tail, possibly with sectors of it torn (never written: zeros).
struct DiskFile { std::string durable, cache; };
class DiskSink : public SimSink {
public:
	DiskFile & f; int64_t crashAfter; bool crashed = false;
	DiskSink(DiskFile & file, size_t buf, int64_t crash) : SimSink(buf), f(file), crashAfter(crash) {}
	void accepted(char const * p, size_t n) override {
		for (size_t i = 0; i < n; ++i) {
			if (crashed) return;
			if (crashAfter >= 0 && crashAfter-- == 0) { crashed = true; return; }
			f.cache += p[i];
		}
	}
};
static bool isEnc(Kind k) { return lib_hasEncoder(k); }
// reads one value of kind k; a plain double as such
static bool take07(std::istream & is, Kind k, Val & got) {
	got = Val(); got.k = k;
	if (k == K_DBL) { double d = NAN; is >> d; got.c[0] = d; return !is.fail() && validD(d); }
	Obj o; got.make(o); { rt::LibCall c; lib_extract(is, k, &o); }
	bool valid = lib_valid(k, &o); got = Val::from(k, o); return valid;
}
static Plan gen07(rt::Rng & r, int, uint64_t) {
	Plan p; int n = (int)r.range(2, 10);
	for (int i = 0; i < n; ++i) {
		std::string enc = r.chance(.45) ? "d" : r.chance(.5) ? "e" + S((int64_t)r.range(16, 20)) : "o";
		Kind k; do k = (Kind)r.below(NG3); while (enc != "o" && !isEnc(k));
		if (enc != "o" && r.chance(.12)) k = K_DBL;
		Val v = genVal(r, k, r.chance(.5) ? 0 : 1);
		for (auto & c : v.c) { if (std::fabs(c) > 1e300 || (c != 0 && std::fabs(c) < 1e-300)) c = 1.5; }
		if (r.chance(.08)) v.c[r.below(kindDim[k])] = r.chance(.7) ? std::nan("") : HUGE_VAL;
		std::vector<std::string> w{"rec", enc}; for (auto & x : valWords(v)) w.push_back(x); p.add(w);
		if (r.chance(.3)) p.add({"commit"});
		if (r.chance(.25)) p.add({"crash", S((int64_t)r.below(1001)), S(r.chance(.5) ? (int64_t)0 : (int64_t)r.next() & 0xffff)});
	}
	if (r.chance(.5)) p.add({"commit"});
	int m = (int)r.below(3); for (int i = 0; i < m; ++i) p.add({"crashat", S((int64_t)r.below(4)), S((int64_t)r.below(400)), S((int64_t)r.below(1001)), S(r.chance(.5) ? (int64_t)0 : (int64_t)r.next() & 0xffff)});
	if (r.chance(.4)) p.add({"sink", S((int64_t)r.below(500)), S(r.chance(.6) ? 0 : r.range(1, 4)), S(r.range(1, 2))});
	if (r.chance(.2)) p.add({"flushf", S((int64_t)r.below(4)), "0", "1"});
	if (r.chance(.3)) p.add({"alloc", S((int64_t)r.below(n)), (r.chance(.3) ? "f" : "a") + S(r.chance(.7) ? (int64_t)r.below(12) : (int64_t)r.below(40))});
	if (r.chance(.6)) p.set("buf", r.chance(.5) ? (int64_t)r.range(1, 32) : (int64_t)r.range(32, 512));
	if (r.chance(.3)) p.set("shortmax", (int64_t)r.range(1, 9));
	if (r.chance(.3)) p.set("mask", (int64_t)r.range(1, 3));
	if (r.chance(.5)) p.set("direct", 1);
	if (r.chance(.3)) p.set("tight", 1);
	genChunks(r, p);
	return p;
}
struct Rec { Val v; std::string enc; bool acked = false; bool written = false; };
static bool near07(Rec const & r, Val const & got, std::string & why) {
	for (unsigned i = 0; i < kindDim[r.v.k]; ++i) {
		double a = r.v.c[i], b = got.c[i]; bool ok;
		if (r.enc[0] == 'e') ok = sameBits(a, b);
		else if (r.enc[0] == 'd') ok = std::fabs(a - b) <= 1e-15 * std::fabs(a);
		else ok = std::fabs(a - b) <= .5e-6 * (1 + 1e-9) + 4 * 2.3e-16 * std::fabs(a);
		if (!ok) { why = "component " + std::to_string(i) + " is " + dtext(b) + ", written " + dtext(a); return false; }
	}
	return true;
}
static void check07(Plan const & p, DiskFile const & f, std::vector<Rec> const & recs, char const * when) {
	SimSource src(f.cache); applyChunks(p, src); std::istream is(&src);
	std::vector<int> seen(recs.size(), 0); long last = -1;
	auto judge = [&](size_t id, bool complete, bool valid, Val const & got) {
		if (id >= recs.size()) { if (complete && valid) rt::violation("garbage-record", "%s: a complete record with an identity never written (%zu)", when, id); return; }
		Rec const & r = recs[id]; bool want = r.v.allValid();
		if (!complete) { rt::probe("incomplete record recognised"); return; }
		if (!r.written) { rt::violation("garbage-record", "%s: record %zu read back but never written", when, id); return; }
		if ((long)id <= last) { rt::violation("order", "%s: record %zu read after record %ld", when, id, last); return; }
		last = (long)id; seen[id] = 1;
		if (!want) { if (valid) rt::violation("null-became-valid", "%s: record %zu was written from %s and reads back valid as %s", when, id, r.v.text().c_str(), got.text().c_str()); else rt::probe("null record stays null"); return; }
		std::string why;
		if (!valid) { rt::violation("record-lost", "%s: record %zu (%s, encoding %s, %s) reads back not valid", when, id, r.v.text().c_str(), r.enc.c_str(), r.acked ? "acknowledged" : "unacknowledged"); return; }
		if (!near07(r, got, why)) rt::violation("record-altered", "%s: record %zu (%s, encoding %s): %s", when, id, r.v.text().c_str(), r.enc.c_str(), why.c_str());
	};
	// records are "id value ;" lines, or "id value;" lines
	std::string const mark = p.num("tight") ? ";" : " ;";
	auto endsIn = [&](std::string const & t) { return t.size() >= mark.size() && t.substr(t.size() - mark.size()) == mark; };
	while (is.good() && !rt::violated()) {
		size_t id = ~0ull; bool complete = false, valid = false; Val got;
		if (p.num("direct")) {
			is >> id;
			if (!is.fail() && id < recs.size()) {
				valid = take07(is, recs[id].v.k, got);
				if (is.fail() && !recs[id].v.allValid()) { complete = false; }
				char ch = 0; if (!is.fail()) is >> ch; complete = !is.fail() && ch == ';';
				if (is.fail()) complete = false;
			}
			// a null written as text ("nan") fails extraction: look at the rest of the line for the terminator
			is.clear(is.rdstate() & std::ios_base::badbit);
			std::string rest; std::getline(is, rest);
			if (!complete && endsIn(rest) && rest.find('\0') == std::string::npos && rest.find('#') == std::string::npos) complete = true;
			if (id == ~0ull && !complete) continue;
		} else {
			std::string line; std::getline(is, line); if (line.empty()) continue;
			bool term = endsIn(line) && line.find('\0') == std::string::npos && line.find('#') == std::string::npos && (!is.eof());
			std::istringstream ls(line); ls >> id; if (ls.fail()) continue;
			if (id < recs.size()) { valid = take07(ls, recs[id].v.k, got);
				char ch = 0; if (valid) { ls >> ch; if (ch != ';') term = false; } }
			complete = term;
			if (!complete && valid && false) {}
		}
		judge(id, complete, valid, got);
	}
	if (rt::violated()) return;
	for (size_t i = 0; i < recs.size(); ++i) if (recs[i].acked && !seen[i]) return rt::violation("record-lost", "%s: acknowledged record %zu (%s, encoding %s) is not in the file", when, i, recs[i].v.text().c_str(), recs[i].enc.c_str());
}
static void run07(Plan const & p) {
	DiskFile f; std::vector<Rec> recs; size_t pos = 0; int incarnation = 0;
	std::vector<Line> script; for (auto & l : p.items) if (l.at(0) == "rec" || l.at(0) == "commit" || l.at(0) == "crash") script.push_back(l);
	std::map<int64_t, rt::AllocPlan> allocs; for (auto & l : p.items) if (l.at(0) == "alloc") allocs[l.num(1)] = allocFrom(l, 2);
	auto faults = faultsFrom(p, "sink"); auto flushFaults = faultsFrom(p, "flushf");
	int64_t recIdx = 0;
	rt::sig(script.size()); rt::sig(p.num("buf"));
	while (incarnation < 40) {
		int64_t crashAfter = -1, keep = 1000, torn = 0;
		for (auto & l : p.items) if (l.at(0) == "crashat" && l.num(1) == incarnation) { crashAfter = l.num(2); keep = l.num(3); torn = l.num(4); }
		DiskSink sink(f, (size_t)p.num("buf"), crashAfter); sink.shortMax = (size_t)p.num("shortmax");
		if (incarnation == 0) { sink.faults = faults; sink.flushFaults = flushFaults; }
		std::ostream os(&sink); os.exceptions(maskOf(p.num("mask")));
		bool crash = false; std::vector<size_t> uncommitted;
		// recovery: close a torn last line
		if (!f.cache.empty() && f.cache.back() != '\n') { try { os << "#\n"; os.flush(); } catch (...) {} if (!os.good()) { sink.healthy(); os.clear(); try { os << "#\n"; os.flush(); } catch (...) {} } }
		auto fail = [&] { // the write failed visibly: abandon the line, start afresh
			rt::probe("write failed visibly"); sink.healthy(); sink.discardPending(); os.clear();
			uncommitted.clear();        // buffered records may be gone
			try { os << "#\n"; } catch (...) { os.clear(); }
			os.clear();
		};
		for (; pos < script.size() && !crash; ++pos) {
			Line const & l = script[pos];
			if (l.at(0) == "rec") {
				Rec r; r.enc = l.at(1).empty() ? "d" : l.at(1); r.v = parseVal(l, 2);
				if (r.v.k > K_DBL || (r.enc[0] == 'o' && r.v.k == K_DBL) || (r.enc[0] != 'o' && !isEnc(r.v.k))) continue;
				if (r.enc[0] == 'e' && atoi(r.enc.c_str() + 1) < 16) r.enc = "d";
				r.written = true; size_t id = recs.size(); recs.push_back(r);
				Obj o; r.v.make(o); bool ok = true;
				rt::setAllocPlan(allocs.count(recIdx) ? allocs[recIdx] : rt::AllocPlan{}); ++recIdx;
				try {
					os << id << ' ';
					if (r.enc[0] == 'o') { rt::LibCall c; lib_insert(os, r.v.k, &o); }
					else { std::string s; { rt::LibCall c; lib_enote(r.v.k, &o, r.enc[0] == 'e' ? atoi(r.enc.c_str() + 1) : -1, s); } os << s; }
					os << (p.num("tight") ? ";\n" : " ;\n");
				} catch (...) { ok = false; }
				rt::clearAllocPlan();
				if (!os.good()) ok = false;
				rt::sig(r.v.k); rt::sig(r.enc); rt::sig(ok);
				rt::sampleAdd("rec%zu %s/%s%s; ", id, kindNames[r.v.k], r.enc.c_str(), ok ? "" : " failed");
				if (ok) uncommitted.push_back(id); else if (!sink.crashed) fail();
			} else if (l.at(0) == "commit") {
				bool ok = true; try { os.flush(); } catch (...) { ok = false; }
				if (!os.good()) ok = false;
				if (sink.crashed) ok = false;
				if (ok) { f.durable = f.cache; for (size_t id : uncommitted) { recs[id].acked = true; rt::probe("record acknowledged"); } uncommitted.clear(); }
				else if (!sink.crashed) fail();
				rt::log("commit ok=%d bytes=%zu", ok, f.durable.size());
			} else { crash = true; keep = l.num(1); torn = l.num(2); }
			if (sink.crashed) { crash = true; }
		}
		if (sink.crashed) rt::probe("crash in the middle of a record");
		if (!crash) { // orderly end: everything flushed
			bool ok = true; try { os.flush(); } catch (...) { ok = false; }
			if (ok && os.good() && !sink.crashed) { f.durable = f.cache; for (size_t id : uncommitted) recs[id].acked = true; }
			check07(p, f, recs, "at the end"); return;
		}
		// crash: volatile cache is lost except for a prefix, some sectors of which may be torn
		rt::fired(rt::F_CRASH); rt::rep->nontrivial = 1;
		std::string tail = f.cache.substr(f.durable.size()); size_t k = tail.size() * (size_t)keep / 1000;
		if (k < tail.size()) rt::fired(rt::F_LOST_TAIL);
		tail.resize(std::min(k, tail.size()));
		if (torn && !tail.empty()) { bool any = false; for (size_t s = 0; s * 16 < tail.size(); ++s) if (torn >> (s % 16) & 1) { for (size_t i = s * 16; i < std::min(tail.size(), s * 16 + 16); ++i) tail[i] = '\0'; any = true; } if (any) rt::fired(rt::F_TORN_TAIL); }
		f.cache = f.durable + tail; f.durable = f.cache;
		rt::log("crash keep=%zu", f.cache.size()); rt::sig((uint64_t)keep); rt::sig((uint64_t)torn);
		check07(p, f, recs, "after restart"); if (rt::violated()) return;
		++incarnation;
	}
}
Scenario const sc_C07 = {"C07", gen07, run07};

// ---------------------------------------------------------------- C08
static Plan gen08(rt::Rng & r, int, uint64_t) {
	Plan p; int n = (int)r.range(1, 4);
	p.set("global", r.pick(simLocaleNames()));
	for (int i = 0; i < n; ++i) {
		int what = (int)r.below(3); Kind k;
		do k = (Kind)r.below(NG3 + 1); while (what == 1 ? !lib_hasEncoder(k) : k >= NG3);
		Val v = genVal(r, k, r.chance(.6) ? 0 : r.chance(.8) ? 1 : 2);
		std::vector<std::string> w{what == 0 ? "ins" : what == 1 ? "enote" : "ext", what == 1 ? S(r.chance(.5) ? -1 : (int64_t)r.range(0, 20)) : r.chance(.2) ? std::string(r.chance(.5) ? "csv" : "tilde") : r.pick(simLocaleNames())};
		for (auto & x : valWords(v)) w.push_back(x);
		if (what != 1 && r.chance(.4)) for (int j = (int)r.range(1, 3); j-- > 0;) p.add({"warm", r.pick(simLocaleNames()), S((int64_t)r.chance(.5))});
		p.add(w);
		int m = (int)r.below(4);
		for (int j = 0; j < m; ++j) p.add({"flip", S((int64_t)r.below(1000)), r.pick(simLocaleNames())});
		if (r.chance(.2)) p.add({"setglobal", r.pick(simLocaleNames())});
	}
	return p;
}
static std::string plainText(std::string const & loc, Val const & v) {
	std::ostringstream os; os.imbue(simLocale(loc)); os << std::scientific << std::setprecision(17);
	for (unsigned i = 0; i < kindDim[v.k]; ++i) os << (i ? loc == "csv" ? "," : " " : "") << v.c[i];
	return os.str();
}
// the text a classic stream shows, with its numbers as the locale writes them
static std::string localised(std::string const & t, std::string const & loc) {
	std::locale lc = simLocale(loc); auto & np = std::use_facet<std::numpunct<char>>(lc); std::string g = np.grouping(), o; size_t i = 0;
	while (i < t.size()) {
		if (!isdigit((unsigned char)t[i])) { o += t[i++]; continue; }
		size_t e = i; while (e < t.size() && isdigit((unsigned char)t[e])) ++e;
		std::string in = t.substr(i, e - i), r; size_t gi = 0, run = 0;
		for (size_t k = in.size(); k-- > 0;) { if (!g.empty() && run == (size_t)g[gi]) { r += np.thousands_sep(); run = 0; if (gi + 1 < g.size()) ++gi; } r += in[k]; ++run; }
		std::reverse(r.begin(), r.end()); o += r; i = e;
		if (i < t.size() && t[i] == '.') { o += np.decimal_point(); ++i; while (i < t.size() && isdigit((unsigned char)t[i])) o += t[i++]; }
		if (loc == "tilde") o += '~';
	}
	return o;
}
static std::string squeeze(std::string const & t) { std::string o; for (char c : t) if (c != ' ') o += c; else if (!o.empty() && o.back() != ' ') o += c; return o; }
static void run08(Plan const & p) {
	std::locale::global(simLocale(p.str("global", "C"))); rt::fired(rt::F_LOCALE_IMBUE);
	rt::sig(p.str("global"));
	for (size_t i = 0; i < p.items.size(); ++i) {
		Line const & l = p.items[i]; std::string what = l.at(0);
		if (what == "setglobal") { std::locale::global(simLocale(l.at(1))); continue; }
		if (what != "ins" && what != "enote" && what != "ext") continue;
		Val v = parseVal(l, 2); Obj o; v.make(o);
		if (what == "enote" ? !lib_hasEncoder(v.k) : v.k >= NG3) continue;
		std::string loc = what == "enote" ? "C" : l.at(1);
		std::vector<std::pair<int64_t, std::string>> flips;
		for (size_t j = i + 1; j < p.items.size() && p.items[j].at(0) == "flip"; ++j) flips.push_back({p.items[j].num(1), p.items[j].at(2)});
		std::locale cur = std::locale();
		// expectation: computed with the classic locale everywhere else and nobody interfering
		std::vector<std::pair<std::string, bool>> warm; // calls just before, with another locale, on this or another stream
		auto doit = [&](std::string & text, Val & got, bool & valid) {
			try {
				if (what == "enote") { rt::LibCall c; lib_enote(v.k, &o, (int)l.num(1, -1), text); }
				else if (what == "ins") { std::ostringstream os; for (auto & w : warm) { std::ostringstream other; std::ostream & ws = w.second ? os : other; ws.imbue(simLocale(w.first)); rt::LibCall c; lib_insert(ws, v.k, &o); } os.str(""); os.imbue(simLocale(loc)); { rt::LibCall c; lib_insert(os, v.k, &o); } text = os.str(); if (!os.good()) text += "<failed>"; }
				else { std::istringstream is(plainText(loc, v)); for (auto & w : warm) { std::istringstream other; std::istream & ws = w.second ? is : other; std::istringstream src(plainText(w.first, v)); std::streambuf * was = ws.rdbuf(src.rdbuf()); ws.imbue(simLocale(w.first)); Val z; z.k = v.k; Obj ob; z.make(ob); { rt::LibCall c; lib_extract(ws, v.k, &ob); } ws.rdbuf(was); } is.imbue(simLocale(loc)); Val z; z.k = v.k; Obj ob; z.make(ob); { rt::LibCall c; lib_extract(is, v.k, &ob); } valid = lib_valid(v.k, &ob); got = Val::from(v.k, ob); }
			} catch (...) { text = "<threw " + current_exception_name() + ">"; }
		};
		std::string want, text; Val wantV, got; bool wantOk = false, ok = false; wantV.k = got.k = v.k;
		std::locale::global(std::locale::classic()); doit(want, wantV, wantOk); uint64_t n = rt::callEvents();
		std::locale::global(cur);
		std::vector<rt::Action> acts; std::locale last = cur; bool flipped = false;
		for (auto & f : flips) { std::string ln = f.second; acts.push_back({1 + (uint64_t)f.first * n / 1000, [ln, &last, &flipped] { last = simLocale(ln); flipped = true; std::locale::global(last); rt::fired(rt::F_LOCALE_FLIP); rt::rep->nontrivial = 1; rt::probe("global locale replaced inside a call"); }}); }
		std::stable_sort(acts.begin(), acts.end(), [](auto & a, auto & b) { return a.event < b.event; });
		if (acts.empty() || what == "ins") for (size_t j = i; j-- > 0 && p.items[j].at(0) == "warm"; ) warm.insert(warm.begin(), {p.items[j].at(1), p.items[j].num(2) != 0});
		if (!warm.empty()) rt::probe("streams of different locales one after another");
		rt::setActions(acts); doit(text, got, ok); rt::setActions({});
		if (std::locale() != last) return rt::violation("locale-overwritten", "after %s %s the process-wide locale is not the one other code set last (%s)", what == "ins" ? "inserting" : what == "ext" ? "extracting" : "encoding", kindNames[v.k], !flipped ? "before the call" : "during the call");
		rt::log("%s %s [%s] valid=%d", what.c_str(), v.text().c_str(), text.c_str(), ok);
		rt::sampleAdd("%s %s on locale %s with %zu flips; ", what.c_str(), kindNames[v.k], loc.c_str(), flips.size());
		rt::sig(what); rt::sig(v.k); rt::sig(loc); for (auto & f : flips) { rt::sig((uint64_t)f.first); rt::sig(f.second); }
		std::string env = "global locale " + p.str("global", "C") + (flips.empty() ? "" : ", replaced during the call");
		if (what == "enote") {
			if (text != want) return rt::violation("enote-follows-global", "enote(%s) gives [%s] with %s, [%s] with the classic one", v.text().c_str(), esc(text).c_str(), env.c_str(), esc(want).c_str());
			for (char c : text) if (!strchr("0123456789+-.e nanif", c)) return rt::violation("enote-not-neutral", "enote(%s) contains character %d", v.text().c_str(), (int)c);
			if (p.str("global", "C") != "C") { rt::rep->nontrivial = 1; rt::probe("enote under a foreign global locale"); }
			if (v.allValid() && (l.num(1) < 0 || l.num(1) > 14) && v.k < NG3) { // any classic reader reads it back
				bool tame = true; for (unsigned c = 0; c < kindDim[v.k]; ++c) if (std::fabs(v.c[c]) > 1e300 || (v.c[c] != 0 && std::fabs(v.c[c]) < 1e-300)) tame = false;
				if (tame) { std::istringstream is(text); is.imbue(std::locale::classic()); Val z; z.k = v.k; Obj ob; z.make(ob); { rt::LibCall c; lib_extract(is, v.k, &ob); } if (!lib_valid(v.k, &ob)) return rt::violation("roundtrip", "enote(%s) = [%s] does not read back with the classic locale", v.text().c_str(), esc(text).c_str()); }
			}
		} else if (what == "ins") {
			if (text != want) return rt::violation("insert-follows-global", "inserting %s into a stream with locale %s gives [%s] with %s, [%s] with the classic global locale", v.text().c_str(), loc.c_str(), esc(text).c_str(), env.c_str(), esc(want).c_str());
			unsigned dps = 0, fin = 0;
			for (unsigned c = 0; c < kindDim[v.k]; ++c) if (std::isfinite(v.c[c])) ++fin;
			std::locale lc = simLocale(loc); char dp = std::use_facet<std::numpunct<char>>(lc).decimal_point(), ts = std::use_facet<std::numpunct<char>>(lc).thousands_sep(); bool grp = !std::use_facet<std::numpunct<char>>(lc).grouping().empty();
			for (char c : text) { if (c == dp) ++dps; else if (grp && c == ts) rt::probe("grouping used"); else if (!strchr("0123456789+- naif", c) && !(loc == "tilde" && c == '~')) return rt::violation("insert-ignores-stream-locale", "inserting %s into a stream with locale %s gives [%s]", v.text().c_str(), loc.c_str(), esc(text).c_str()); }
			if (dps != fin) return rt::violation("insert-ignores-stream-locale", "inserting %s into a stream with locale %s gives [%s]: %u decimal points '%c' instead of %u", v.text().c_str(), loc.c_str(), esc(text).c_str(), dps, dp, fin);
			{ std::ostringstream os; os.imbue(std::locale::classic()); { rt::LibCall c; lib_insert(os, v.k, &o); } std::string plain = squeeze(os.str()), exp = localised(plain, loc);
			  if (std::all_of(v.c, v.c + kindDim[v.k], [](double d) { return std::isfinite(d); }) && squeeze(text) != exp) return rt::violation("insert-ignores-stream-locale", "inserting %s into a stream with locale %s gives [%s], its numbers are written [%s] there", v.text().c_str(), loc.c_str(), esc(text).c_str(), esc(exp).c_str()); }
			if (loc != "C") { rt::rep->nontrivial = 1; rt::probe("inserted into a stream with a foreign locale"); }
			bool tame = v.allValid(); for (unsigned c = 0; c < kindDim[v.k]; ++c) if (std::fabs(v.c[c]) > 1e300) tame = false;
			if (tame) {
				std::istringstream is(text); is.imbue(simLocale(loc)); Val z; z.k = v.k; Obj ob; z.make(ob); { rt::LibCall c; lib_extract(is, v.k, &ob); } Val b = Val::from(v.k, ob); bool okk = lib_valid(v.k, &ob);
				for (unsigned c = 0; okk && c < kindDim[v.k]; ++c) if (std::fabs(b.c[c] - v.c[c]) > .5e-6 * (1 + 1e-9) + 1e-15 * std::fabs(v.c[c])) okk = false;
				if (!okk) return rt::violation("roundtrip", "%s written to a stream with locale %s as [%s] reads back as %s", v.text().c_str(), loc.c_str(), esc(text).c_str(), b.text().c_str());
				rt::probe("round trip in the stream's locale");
			}
		} else {
			std::istringstream is(plainText(loc, v)); is.imbue(simLocale(loc)); bool refOk = true; Val ref; ref.k = v.k;
			for (unsigned c = 0; c < kindDim[v.k] && refOk; ++c) { is >> ref.c[c]; refOk = !is.fail() && validD(ref.c[c]); }
			if (ok != refOk || (ok && !got.same(ref))) return rt::violation("extract-ignores-stream-locale", "extracting %s from [%s] in locale %s gives %s (%s)", kindNames[v.k], esc(plainText(loc, v)).c_str(), loc.c_str(), ok ? got.text().c_str() : "not valid", env.c_str());
			if (loc != "C") { rt::rep->nontrivial = 1; rt::probe("extracted from a stream with a foreign locale"); }
		}
	}
	std::locale::global(std::locale::classic());
}
Scenario const sc_C08 = {"C08", gen08, run08};
