// C01 C02 C03 C15(in): extraction from simulated devices.
#include "sc.h"
#include <locale>

// ---------------------------------------------------------------- generators
static std::string genNumber(rt::Rng & r) {
	char b[80];
	if (r.chance(.12)) {    // unusual but valid spellings
		std::string t = r.chance(.3) ? "-" : r.chance(.3) ? "+" : "";
		switch (r.below(9)) {
		case 7: { int n = (int)dictInt(r, 2, 700); std::string z; for (int i = 0; i < n; ++i) z += (char)('0' + r.below(10)); t += r.chance(.5) ? z : r.chance(.5) ? "0." + z : std::string((size_t)n, '0') + "7"; if (r.chance(.5)) t += "e-" + S(r.chance(.5) ? dictInt(r, 0, 300) : r.range(0, 300)); break; }
		case 8: { double d = genDouble(r, 1); snprintf(b, sizeof b, "%.17g", std::fabs(d)); t += b; break; }
		case 0: t += std::string((size_t)r.range(1, 40), '0') + S((int64_t)r.below(1000)); break;
		case 1: { t += S((int64_t)r.below(10)) + "."; int n = (int)r.range(18, r.chance(.1) ? 400 : 60); for (int i = 0; i < n; ++i) t += (char)('0' + r.below(10)); break; }
		case 2: snprintf(b, sizeof b, "%d.%dE%+03d", (int)r.below(10), (int)r.below(1000), (int)r.range(-99, 99)); t += b; break;
		case 3: snprintf(b, sizeof b, "%de%d", (int)r.below(1000), (int)r.range(-30, 30)); t += b; break;
		case 4: { int n = (int)r.range(16, r.chance(.1) ? 300 : 40); t += (char)('1' + r.below(9)); for (int i = 0; i < n; ++i) t += (char)('0' + r.below(10)); break; }
		case 5: t += "." + std::string((size_t)r.range(1, r.chance(.1) ? 290 : 30), '0') + S(1 + (int64_t)r.below(1000)); break;
		default: t += r.chance(.5) ? "0" : r.chance(.5) ? "0.0" : "0e5"; break;
		}
		return t;
	}
	switch (r.below(9)) {
	case 0: snprintf(b, sizeof b, "%d", (int)r.range(-20, 20)); break;
	case 1: snprintf(b, sizeof b, "%.3f", (r.unit() * 2 - 1) * 1000); break;
	case 2: snprintf(b, sizeof b, "%.15e", genDouble(r, 1)); break;
	case 3: snprintf(b, sizeof b, "%+.2g", genDouble(r, 0)); break;
	case 4: snprintf(b, sizeof b, "%.17g", genDouble(r, 1)); break;
	case 5: snprintf(b, sizeof b, "%03d.%02d", (int)r.below(100), (int)r.below(100)); break;
	case 6: snprintf(b, sizeof b, "-0"); break;
	case 7: snprintf(b, sizeof b, "%d.", (int)r.below(9)); break;
	default: snprintf(b, sizeof b, ".%d", (int)r.below(1000)); break;
	}
	return b;
}
static std::string genBad(rt::Rng & r) {
	static char const * const bad[] = {"x", "nan", "inf", "-inf", "1e999", "-1e999", "4e-310", "1e-320", "-", "+", ".", "e5", "1e", "1e+", "--5", "1.2.3", "0x10", "1,5", "null", "1-2", "(", "1e400 ", ",", "NaN", "\x01", "5;"};
	return bad[r.below(sizeof bad / sizeof *bad)];
}
static std::string genSep(rt::Rng & r) { if (r.chance(.01)) return std::string((size_t)dictInt(r, 2, 3000), r.chance(.7) ? ' ' : '\n'); static char const * const s[] = {" ", " ", " ", "  ", "\n", "\t", "\r\n", " \n ", "\v", "   "}; return s[r.below(10)]; }
static Kind genKind(rt::Rng & r) { return (Kind)r.below(NG3); }

static void addFaults(rt::Rng & r, Plan & p, size_t len, bool allowThrow) {
	int n = r.chance(.75) ? 1 : 2;
	for (int i = 0; i < n; ++i) {
		int kind = allowThrow ? (r.chance(.4) ? 0 : (int)r.range(1, 4)) : 0;
		int count = r.chance(.5) ? -1 : (int)r.range(1, 2);
		p.add({"src", S((int64_t)r.below(len + 1)), S(kind), S(count)});
	}
}
static std::string bytesOf(Plan const & p) { std::string s; for (auto & l : p.items) if (l.at(0) == "tok") s += unesc(l.at(1)); return s; }

// One reference read of k's components as plain numbers.  Returns index of the first component that is not okay (dim if none).
struct RefRead { unsigned bad = 0; bool streamFailed = false; double v[8] = {}; };
static RefRead refRead(std::istream & is, Kind k) {
	RefRead r; unsigned n = kindDim[k];
	for (r.bad = 0; r.bad < n; ++r.bad) {
		double d = 0.; is >> d; r.v[r.bad] = d;
		if (is.fail()) { r.streamFailed = true; break; }
		if (!validD(d)) break;
	}
	return r;
}

// ---------------------------------------------------------------- C01
static Plan gen01(rt::Rng & r, int, uint64_t) {
	Plan p; int reads = (int)r.range(1, r.chance(.3) ? 6 : 3);
	size_t len = 0; bool wantBad = r.chance(.35);
	for (int i = 0; i < reads; ++i) {
		Kind k = genKind(r); Val prior = genVal(r, k, r.chance(.7) ? 0 : 2);
		if (r.chance(.2)) for (auto & c : prior.c) c = std::nan("");
		auto w = valWords(prior); w.insert(w.begin(), "read"); p.add(w);
		unsigned n = kindDim[k]; if (r.chance(.06)) n = (unsigned)r.below(n);      // truncated record
		for (unsigned j = 0; j < n; ++j) {
			std::string t = (wantBad && r.chance(.12)) ? genBad(r) : genNumber(r);
			t = (j || i || r.chance(.2) ? genSep(r) : "") + t; len += t.size();
			p.add({"tok", esc(t)});
		}
	}
	if (r.chance(.4)) { std::string t = genSep(r); len += t.size(); p.add({"tok", esc(t)}); }
	if (r.chance(.6)) addFaults(r, p, len, true);
	if (r.chance(.25)) {
		std::vector<std::string> w{"alloc", S((int64_t)r.below(reads))};
		if (r.chance(.4)) w.push_back("f" + S((int64_t)r.below(8))); else w.push_back("a" + S((int64_t)r.below(8)));
		p.add(w);
	}
	if (r.chance(.5)) p.set("mask", (int64_t)r.range(1, 7));
	if (r.chance(.1)) p.set("preset", (int64_t)r.range(1, 7));
	if (r.chance(.08)) p.set("noskipws", 1);
	if (r.chance(.15)) p.set("loc", r.pick(simLocaleNames()));
	if (r.chance(.15)) p.set("hex", 1);
	genChunks(r, p);
	if (r.chance(.5)) { p.set("fresh", (int64_t)r.below(256)); p.set("freed", (int64_t)r.below(256)); }
	return p;
}
static void setupStream(std::istream & is, Plan const & p) {
	if (p.num("noskipws")) is >> std::noskipws;
	if (p.num("hex")) is >> std::hex;
	if (p.cfg.count("loc")) is.imbue(simLocale(p.str("loc")));
}
static void run01(Plan const & p) {
	fillFrom(p);
	std::string bytes = bytesOf(p); auto faults = faultsFrom(p, "src");
	SimSource sl(bytes), sr(bytes); sl.faults = faults; sr.faults = faults; applyChunks(p, sl); applyChunks(p, sr);
	std::istream il(&sl), ir(&sr);
	setupStream(il, p); setupStream(ir, p);
	if (p.cfg.count("loc")) rt::fired(rt::F_LOCALE_IMBUE);
	auto mask = maskOf(p.num("mask"));
	if (mask) rt::fired(rt::F_EXC_MASK);
	il.exceptions(mask);
	if (int64_t ps = p.num("preset")) { rt::fired(rt::F_PRESET_STATE); try { il.setstate(maskOf(ps)); } catch (...) {} ir.setstate(maskOf(ps)); }
	std::map<int64_t, rt::AllocPlan> allocs;
	for (auto & l : p.items) if (l.at(0) == "alloc") allocs[l.num(1)] = allocFrom(l, 2);
	int64_t idx = 0; rt::sig(stateBits(mask)); rt::sig(p.num("unbuf"));
	for (auto & l : p.items) {
		if (l.at(0) != "read") continue;
		Val prior = parseVal(l, 1); Kind k = prior.k; Obj o; prior.make(o);
		uint32_t faultsBefore = 0; for (int f : {rt::F_EOF_TRUNC, rt::F_EOF_TRANSIENT, rt::F_READ_ERR_ONCE, rt::F_READ_ERR_DEAD}) faultsBefore += rt::rep->faults[f];
		// the reference reads the same bytes from an identical device (its faults are not counted)
		uint32_t save[rt::F_COUNT]; memcpy(save, rt::rep->faults, sizeof save);
		bool wasFailed = ir.fail();
		RefRead ref = refRead(ir, k);
		memcpy(rt::rep->faults, save, sizeof save);
		bool refOk = ref.bad == kindDim[k];
		bool threw = false; std::string ex;
		if (allocs.count(idx)) rt::setAllocPlan(allocs[idx]); else rt::setAllocPlan({});
		try { rt::LibCall c; lib_extract(il, k, &o); } catch (...) { threw = true; ex = current_exception_name(); }
		bool allocHit = rt::allocFailed() > 0; rt::clearAllocPlan();
		Val got = Val::from(k, o); bool valid = lib_valid(k, &o);
		auto st = il.rdstate();
		rt::log("read %s -> %s valid=%d threw=%s state=%d refbad=%u", kindNames[k], got.text().c_str(), valid, threw ? ex.c_str() : "-", stateBits(st), ref.bad);
		rt::sampleAdd("%s>>%s%s; ", kindNames[k], valid ? got.text().c_str() : "not valid", threw ? (" threw " + ex).c_str() : "");
		rt::sig(k); rt::sig(valid); rt::sig(threw); rt::sig(stateBits(st)); rt::sig(ref.bad); rt::sig(allocHit);
		bool equal = true; for (unsigned i = 0; i < kindDim[k]; ++i) if (!sameBits(got.c[i], ref.v[i])) equal = false;
		std::string ctx = std::string(kindNames[k]) + " (read " + std::to_string(idx) + "): got " + got.text() + ", prior " + prior.text() + ", mask " + std::to_string(stateBits(mask)) + ", state " + std::to_string(stateBits(st)) + (threw ? ", threw " + ex : "") + (allocHit ? ", allocation failed" : "");
		if (valid && !(refOk && equal)) {
			if (threw) return rt::violation("mix-after-exception", "target tests valid after an exception without being the numbers read: %s", ctx.c_str());
			if (!refOk) return rt::violation("valid-after-failure", "target tests valid though component %u was not read as a valid number: %s", ref.bad, ctx.c_str());
			return rt::violation("wrong-value", "target tests valid with components that are not the numbers read: %s", ctx.c_str());
		}
		if (!valid && refOk && !threw && !allocHit) return rt::violation("null-after-success", "every component was read but the target is not valid: %s", ctx.c_str());
		if (threw && !(st & mask)) return rt::violation("unasked-exception", "an exception left the extraction though the stream's mask does not ask for it: %s", ctx.c_str());
		if (!threw) {
			if (!refOk && ref.streamFailed && !il.fail()) return rt::violation("hidden-failure", "the stream failed while reading but its state does not show it: %s", ctx.c_str());
			if (refOk && !allocHit && il.fail()) return rt::violation("spurious-failure", "all numbers were read but the stream state shows failure: %s", ctx.c_str());
			if (!refOk && ref.streamFailed && ir.bad() && !il.bad()) return rt::violation("hidden-failure", "the device failed (badbit) but the stream state does not show it: %s", ctx.c_str());
		}
		if (!wasFailed && !refOk) { rt::rep->nontrivial = 1; rt::probe(ref.streamFailed ? "stream failed inside an item" : "invalid number inside an item"); if (ref.bad > 0) rt::probe("failure after at least one component"); }
		if (wasFailed) rt::probe("read from a failed stream");
		if (threw) { rt::rep->nontrivial = 1; rt::probe("exception left the extraction"); }
		if (allocHit) { rt::rep->nontrivial = 1; rt::probe("allocation failed inside extraction"); }
		uint32_t fa = 0; for (int f : {rt::F_EOF_TRUNC, rt::F_EOF_TRANSIENT, rt::F_READ_ERR_ONCE, rt::F_READ_ERR_DEAD}) fa += rt::rep->faults[f];
		if (fa != faultsBefore) rt::rep->nontrivial = 1;
		if (threw || allocHit || (!refOk && !ref.streamFailed)) break;      // from here on library and reference positions may legitimately differ
		++idx;
	}
}
Scenario const sc_C01 = {"C01", gen01, run01};

// ---------------------------------------------------------------- C02
static Plan gen02(rt::Rng & r, int, uint64_t) {
	Plan p; int reads = (int)r.range(1, 6); size_t len = 0; bool wantBad = r.chance(.4);
	for (int i = 0; i < reads; ++i) {
		Kind k = genKind(r); p.add({"read", kindNames[k]});
		for (unsigned j = 0; j < kindDim[k]; ++j) {
			std::string t = (wantBad && r.chance(.1)) ? genBad(r) : genNumber(r);
			t = (j || i || r.chance(.2) ? genSep(r) : "") + t; len += t.size(); p.add({"tok", esc(t)});
		}
		if (r.chance(.2)) { p.add({"read", "double"}); p.add({"tok", esc(" " + genNumber(r))}); }
		if (r.chance(.15)) p.add({"read", "char"});
		if (r.chance(.2)) p.add({"read", "clear"});
		if (r.chance(.1)) p.add({"read", "line"});
	}
	if (r.chance(.5)) p.add({"tok", esc(genSep(r) + "tail")});
	if (r.chance(.2)) p.add({"src", S((int64_t)r.below(len + 1)), S(r.chance(.5) ? 0 : 1), S(-1)});
	if (r.chance(.2)) p.set("mask", (int64_t)r.range(1, 7));
	if (r.chance(.1)) p.set("noskipws", 1);
	if (r.chance(.2)) p.set("loc", r.pick(simLocaleNames()));
	int variants = (int)r.range(1, 4);
	for (int i = 0; i < variants; ++i) {
		std::string s; int n = (int)r.range(1, 6);
		for (int j = 0; j < n; ++j) { if (j) s += ','; s += std::to_string(r.chance(.6) ? r.range(1, 3) : r.range(1, 30)); }
		p.add({"deliver", r.chance(.25) ? "unbuf" : s, S((int64_t)r.below(3)), S((int64_t)r.below(2)), S((int64_t)r.below(2)), S(r.chance(.6) ? 0 : r.range(1, 2))});
	}
	return p;
}
struct Obs { std::vector<std::string> steps; };
static Obs observe02(Plan const & p, std::string const & bytes, Line const * d) {
	SimSource s(bytes); s.faults = faultsFrom(p, "src");
	if (!d) s.chunks = {1u << 30};
	else if (d->at(1) == "unbuf") s.unbuffered = true;
	else { auto c = parseList(d->at(1)); if (!c.empty()) s.chunks = c; }
	if (d) { s.availMode = (int)d->num(2); s.putback = d->num(3); s.seekable = d->num(4); s.syncMode = (int)d->num(5); }
	std::istream is(&s); setupStream(is, p); is.exceptions(maskOf(p.num("mask")));
	Obs o;
	for (auto & l : p.items) {
		if (l.at(0) != "read") continue;
		std::string what = l.at(1), res;
		try {
			if (what == "double") { double v = -77; is >> v; res = dtext(v); }
			else if (what == "char") { char c = '?'; is >> c; res = std::string("'") + c; }
			else if (what == "clear") { is.clear(); res = "clear"; }
			else if (what == "line") { std::string t; std::getline(is, t); res = esc(t); }
			else { Kind k = kindByName(what); Val v; v.k = k; for (auto & c : v.c) c = 77; Obj ob; v.make(ob);
				try { rt::LibCall c; lib_extract(is, k, &ob); } catch (...) { res = "threw " + current_exception_name() + " "; }
				bool ok = lib_valid(k, &ob); res += ok ? Val::from(k, ob).text() : "not valid"; }
		} catch (...) { res = "threw " + current_exception_name(); }
		char b[64]; snprintf(b, sizeof b, " state=%d consumed=%zu", stateBits(is.rdstate()), s.consumed());
		o.steps.push_back(what + ":" + res + b);
	}
	return o;
}
static void run02(Plan const & p) {
	std::string bytes = bytesOf(p);
	Obs a = observe02(p, bytes, nullptr);
	for (auto & s : a.steps) rt::sampleAdd("%s; ", s.c_str());
	for (auto & l : p.items) {
		if (l.at(0) != "deliver") continue;
		Obs b = observe02(p, bytes, &l);
		for (size_t i = 0; i < a.steps.size() && i < b.steps.size(); ++i) {
			rt::log("%s", b.steps[i].c_str());
			if (a.steps[i] != b.steps[i]) return rt::violation("delivery-dependence", "step %zu: whole-buffer delivery gives [%s], delivery %s gives [%s]", i, a.steps[i].c_str(), l.at(1).c_str(), b.steps[i].c_str());
		}
		rt::rep->nontrivial = 1; rt::sig(l.at(1)); rt::probe(l.at(1) == "unbuf" ? "unbuffered delivery compared" : "chunked delivery compared");
	}
	for (auto & s : a.steps) { rt::sig(s.substr(0, s.find(':'))); if (s.find("not valid") != std::string::npos) rt::probe("null read under varied delivery"); }
	if (p.cfg.count("mask")) rt::fired(rt::F_EXC_MASK);
	rt::sig(bytes.size());
}
Scenario const sc_C02 = {"C02", gen02, run02};

// ---------------------------------------------------------------- C03
// Records: lines of items; every line holds all components of its items unless a token is damaged.
static Plan gen03(rt::Rng & r, int, uint64_t) {
	Plan p; int lines = (int)r.range(1, 6); double pbad = r.chance(.7) ? .2 : 0;
	size_t len = 0;
	for (int i = 0; i < lines; ++i) {
		p.add({"line"}); int items = (int)r.range(1, 4); bool glued = r.chance(.3);
		bool bad = r.chance(pbad); bool done = false;
		for (int j = 0; j < items; ++j) {
			bool plain = r.chance(.25); Kind k = genKind(r);
			p.add({"item", plain ? "double" : kindNames[k]});
			unsigned n = plain ? 1 : kindDim[k];
			for (unsigned c = 0; c < n; ++c) {
				std::string t = genNumber(r);
				if (bad && !done && r.chance(.3)) { static char const * const g[] = {"x", "nan", "1e999", "4e-310", "-", "1e", "*", "inf"}; t = g[r.below(8)]; done = true; }
				std::string sep = (j || c) ? (r.chance(.8) ? " " : r.chance(.5) ? "\t" : "   ") : (r.chance(.2) ? "  " : "");
				len += sep.size() + t.size(); p.add({"tok", esc(sep + t)});
			}
			if (glued && r.chance(.5)) { static char const * const g[] = {";", ",", ")", "]", "}", ":", "/", "|", "\r", "#", "\"", "x", ";,", "<", "_", "\v"}; std::string t = g[r.below(16)]; if (r.chance(.1)) { char c = (char)dictInt(r, 33, 126); if (!isalnum(c) && !strchr("+-.", c)) t = std::string(1, c); } len += t.size(); p.add({"glue", esc(t)}); }
		}
		if (r.chance(.2)) { p.add({"tok", esc(r.chance(.5) ? " extra" : " 9 9 9")}); }
		len += 1;
	}
	if (r.chance(.2)) addFaults(r, p, len, r.chance(.5));
	genChunks(r, p);
	if (r.chance(.2)) p.set("mask", (int64_t)r.range(1, 3));
	if (r.chance(.1)) p.set("loc", "C");
	if (r.chance(.3)) p.set("nolast", 1);
	return p;
}
static void run03(Plan const & p) {
	// text of the whole stream: tokens grouped by line
	struct Item { Kind k; bool plain; std::string glue; };
	struct Ln { std::string text; std::vector<Item> items; };
	std::vector<Ln> lines;
	for (auto & l : p.items) {
		if (l.at(0) == "line") lines.push_back({});
		else if (lines.empty()) continue;
		else if (l.at(0) == "item") lines.back().items.push_back({kindByName(l.at(1)), l.at(1) == "double", ""});
		else if (l.at(0) == "glue") { std::string g = unesc(l.at(1)); if (!lines.back().items.empty() && lines.back().items.back().glue.empty() && g.find_first_of("0123456789+-.eE \t\n") == std::string::npos) { lines.back().items.back().glue = g; lines.back().text += g; } }
		else if (l.at(0) == "tok") lines.back().text += unesc(l.at(1));
	}
	for (auto & ln : lines) { // a (minimised) record must still hold a token for every number of its items
		size_t need = 0, have = 0; bool in = false;
		for (auto & it : ln.items) need += it.plain ? 1 : kindDim[it.k];
		for (char c : ln.text) { bool sp = c == ' ' || c == '\t'; if (!sp && !in) ++have; in = !sp; }
		if (have < need) return;
	}
	std::string bytes; for (size_t i = 0; i < lines.size(); ++i) { bytes += lines[i].text; if (i + 1 < lines.size() || !p.num("nolast")) bytes += '\n'; }
	auto faults = faultsFrom(p, "src");
	SimSource sl(bytes), sr(bytes); sl.faults = faults; sr.faults = faults; applyChunks(p, sl); applyChunks(p, sr);
	std::istream il(&sl), ir(&sr); il.exceptions(maskOf(p.num("mask")));
	size_t nItems = 0;
	for (size_t li = 0; li < lines.size(); ++li) {
		bool lineBroken = false, stopAll = false;
		auto faultsDiffer = [&] { for (size_t i = 0; i < sl.faults.size(); ++i) if (sl.faults[i].count != sr.faults[i].count) return true; return false; };
		for (size_t ii = 0; ii < lines[li].items.size(); ++ii) {
			Item it = lines[li].items[ii]; ++nItems;
			char where[64]; snprintf(where, sizeof where, "record %zu item %zu (%s)", li, ii, it.plain ? "double" : kindNames[it.k]);
			uint32_t save[rt::F_COUNT]; memcpy(save, rt::rep->faults, sizeof save);
			if (faultsDiffer()) return;      // a passing fault struck the two at different requests; they are no longer alike
			bool wasFailed = ir.fail(); size_t before = sl.consumed();
			RefRead ref = refRead(ir, it.plain ? K_DBL : it.k); bool refOk = ref.bad == kindDim[it.plain ? K_DBL : it.k];
			memcpy(rt::rep->faults, save, sizeof save);
			bool threw = false;
			if (it.plain) {
				double d = 0; try { il >> d; } catch (...) { threw = true; }
				if (refOk && (!sameBits(d, ref.v[0]) || threw || il.fail())) return rt::violation("framing", "%s: plain value after G3 items reads %s instead of %s", where, dtext(d).c_str(), dtext(ref.v[0]).c_str());
				rt::probe("plain value between items");
			} else {
				Val v; v.k = it.k; for (auto & c : v.c) c = 55; Obj o; v.make(o);
				try { rt::LibCall c; lib_extract(il, it.k, &o); } catch (...) { threw = true; }
				bool valid = lib_valid(it.k, &o); Val got = Val::from(it.k, o);
				rt::log("%s %s valid=%d state=%d", where, got.text().c_str(), valid, stateBits(il.rdstate()));
				rt::sampleAdd("%s=%s; ", where, valid ? got.text().c_str() : "not valid");
				bool eq = true; for (unsigned c = 0; c < kindDim[it.k]; ++c) if (!sameBits(got.c[c], ref.v[c])) eq = false;
				if (wasFailed) {
					rt::probe("extraction from a failed stream");
					if (valid) return rt::violation("valid-from-failed-stream", "%s: extraction from a failed stream gives a valid value %s", where, got.text().c_str());
					if (sl.consumed() != before) return rt::violation("consumed-from-failed-stream", "%s: extraction from a failed stream consumed %zu bytes", where, sl.consumed() - before);
				} else if (refOk) {
					if (!valid || !eq) return rt::violation("framing", "%s: reads %s, the stream holds %s", where, valid ? got.text().c_str() : "not valid", [&] { Val w; w.k = it.k; memcpy(w.c, ref.v, sizeof w.c); return w.text(); }().c_str());
				} else if (valid) return rt::violation("valid-after-failure", "%s: valid though component %u cannot be read", where, ref.bad);
			}
			if (refOk && !threw) {
				if (sl.consumed() != sr.consumed()) return rt::violation("overread", "%s: consumed up to byte %zu, its numbers end at byte %zu", where, sl.consumed(), sr.consumed());
				if (il.eof() != ir.eof()) return rt::violation("framing", "%s: eof state differs from reading the numbers one by one", where);
				for (char g : it.glue) {    // what directly follows the last number belongs to the caller
					if (faultsDiffer()) return;
					auto m = il.exceptions(); il.exceptions(std::ios_base::goodbit);
					memcpy(save, rt::rep->faults, sizeof save); int want = ir.get(); memcpy(rt::rep->faults, save, sizeof save);
					int have = il.get();
					if (have != want) return rt::violation("overread", "%s: character %d follows its last number, the stream now gives %d", where, want, have);
					try { il.exceptions(m); } catch (...) {}
					if (want != (unsigned char)g) { stopAll = true; break; }
					rt::probe("character right after an item left unread");
				}
			}
			if (!refOk) { rt::rep->nontrivial = 1; lineBroken = true; rt::probe(ref.streamFailed ? "record broken: stream failed" : "record broken: invalid number");
				if (!ref.streamFailed) break; }     // null without stream failure: caller resynchronises at the next record
			rt::sig(it.k); rt::sig(refOk); rt::sig(wasFailed);
			if (stopAll) break;
		}
		// caller protocol: clear and skip to the next record
		auto recover = [&](std::istream & is, SimSource & s, bool lib) {
			(void)lib; (void)s;
			auto m = is.exceptions(); is.exceptions(std::ios_base::goodbit);
			is.clear(); std::string rest; std::getline(is, rest);
			bool ok = !is.fail() || !is.bad(); if (is.eof()) ok = ok && true;
			if (is.fail()) is.clear(is.rdstate() & std::ios_base::eofbit);
			try { is.exceptions(m); } catch (...) {}
			return ok;
		};
		if (lineBroken) rt::probe("recovered to next record");
		uint32_t save[rt::F_COUNT]; memcpy(save, rt::rep->faults, sizeof save);
		recover(ir, sr, false);
		memcpy(rt::rep->faults, save, sizeof save);
		recover(il, sl, true);
		// after a null without stream failure library and reference may stop at different places inside the record, never past its end
		if (sl.consumed() != sr.consumed() && faults.empty()) {
			return rt::violation("resync", "after skipping the rest of record %zu the library's stream is at byte %zu, the record ends at byte %zu", li, sl.consumed(), sr.consumed());
		}
		if (sl.consumed() != sr.consumed()) return;     // device faults struck at different requests; nothing more to compare
	}
	if (nItems > 1) rt::rep->nontrivial = 1;
	rt::sig(faults.size());
}
Scenario const sc_C03 = {"C03", gen03, run03};
