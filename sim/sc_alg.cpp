// C13 C14: null propagation, algebra without memory.
#include "sc.h"

static std::vector<Op const *> const & flowOps() {  // operations through which a null must flow
	static auto v = opsWhere([](Op const & o) {
		if (o.g == G_CMP || o.g == G_VAL || o.g == G_IDX || o.g == G_CONST || o.r == K_BOOL) return false;
		return !(o.n == 2 && (!strcmp(o.name, "logG2") || !strcmp(o.name, "sqrtG2")));     // their second argument is only a fallback direction
	});
	return v;
}
static std::vector<Op const *> const & rootOps() { static auto v = opsWhere([](Op const & o) { return o.n == 2 && (!strcmp(o.name, "logG2") || !strcmp(o.name, "sqrtG2")); }); return v; }
static std::vector<std::string> cat(std::vector<std::string> a, std::vector<std::string> const & b) { a.insert(a.end(), b.begin(), b.end()); return a; }

// ---------------------------------------------------------------- C13
// val kind comps | poison idx comp | op name idx..  (idx counts val and op lines)
static Plan gen13(rt::Rng & r, int tier, uint64_t index) {
	Plan p; std::vector<Kind> kinds; int nv = (int)r.range(1, 4); int fl = r.chance(.75) ? 0 : 1;
	std::vector<Val> vals; auto const & ops = flowOps();
	Op const * lead = ops[index % ops.size()];          // every operation leads some run
	for (int i = 0; i < lead->n; ++i) vals.push_back(genVal(r, lead->a[i], fl));
	for (int i = 0; i < nv; ++i) vals.push_back(genVal(r, (Kind)r.below(NG3), fl));
	for (auto & v : vals) { p.add(cat({"val"}, valWords(v))); kinds.push_back(v.k); }
	if (r.chance(.6)) { int x = (int)r.below(std::max<size_t>(1, (size_t)lead->n)); p.add({"poison", S(x), S(r.chance(.15) ? -1 : (int64_t)r.below(kindDim[kinds[x]]))}); }
	{ std::vector<std::string> w{"op", opName(*lead)}; for (int i = 0; i < lead->n; ++i) w.push_back(S(i)); p.add(w); kinds.push_back(lead->r); }
	if (!rootOps().empty() && r.chance(.12)) {   // a logarithm or root that needs the direction given as second operand - or does not
		Val s; s.k = K_SPI; s.c[0] = -std::fabs(genDouble(r, fl)); if (r.chance(.3)) for (int i = 0; i < 4; ++i) s.c[i] = genDouble(r, 0);
		Val b = genVal(r, K_BIV, fl); size_t at = kinds.size();
		p.add(cat({"val"}, valWords(s))); p.add(cat({"val"}, valWords(b))); kinds.push_back(K_SPI); kinds.push_back(K_BIV);
		p.add({"poison", S((int64_t)at + (r.chance(.85) ? 1 : 0)), S(r.chance(.3) ? -1 : r.range(0, 2))});
		Op const * o = r.pick(rootOps()); p.add({"op", opName(*o), S((int64_t)at), S((int64_t)at + 1)}); kinds.push_back(o->r);
	}
	int n = (int)r.range(0, tier ? 14 : 7);
	for (int i = 0; i < n; ++i) {
		if (r.chance(.15)) { size_t x = r.below(kinds.size()); if (kinds[x] != K_BOOL) p.add({"poison", S((int64_t)x), S((int64_t)r.below(kindDim[kinds[x]]))}); continue; }
		for (int tries = 0; tries < 30; ++tries) {
			Op const * o = r.pick(ops); std::vector<std::string> w{"op", opName(*o)}; bool ok = true;
			for (int k = 0; k < o->n; ++k) { std::vector<int> have; for (size_t j = 0; j < kinds.size(); ++j) if (kinds[j] == o->a[k]) have.push_back((int)j); if (have.empty()) { ok = false; break; } w.push_back(S(r.chance(.5) ? have.back() : r.pick(have))); }
			if (ok) { p.add(w); kinds.push_back(o->r); break; }
		}
	}
	if (r.chance(.6)) {
		int m = r.chance(.8) ? 1 : 2; size_t bytes = 8; for (auto & v : vals) bytes += kindDim[v.k] * 12;
		for (int i = 0; i < m; ++i) p.add({"src", S((int64_t)r.below(bytes)), S(r.chance(.5) ? 0 : r.range(1, 4)), S(r.chance(.5) ? -1 : 1)});
	}
	if (r.chance(.2)) p.set("mask", r.range(1, 7));
	genChunks(r, p);
	return p;
}
struct Node { Val v; Obj o; bool tainted = false, altered = false, dead = false; std::string name; };
static std::vector<Node> evaluate(Plan const & p, bool faults, bool & bad) {
	std::vector<Node> nodes; std::string text; int nvals = 0;
	for (auto & l : p.items) if (l.at(0) == "val") { Val v = parseVal(l, 1); for (unsigned i = 0; i < kindDim[v.k]; ++i) text += (i ? " " : "") + dtext(v.c[i]); text += "\n"; ++nvals; }
	SimSource src(text); applyChunks(p, src); if (faults) src.faults = faultsFrom(p, "src");
	std::istream is(&src); is.exceptions(maskOf(p.num("mask")));
	int row = 0;
	for (auto & l : p.items) {
		if (nodes.size() > 60) break;
		if (l.at(0) == "val") {
			Node n; n.v.k = parseVal(l, 1).k; n.name = "operand"; Val z; z.k = n.v.k; for (auto & d : z.c) d = 0; z.make(n.o);
			++row;
			try { rt::LibCall c; lib_extract(is, n.v.k, &n.o); } catch (...) {}
			n.v = Val::from(n.v.k, n.o); n.tainted = n.v.anyNan(); n.altered = !n.v.same(parseVal(l, 1));    // cut off inside a number: another valid number
			if (n.tainted) rt::probe("operands null because reading failed");
			auto m = is.exceptions(); is.exceptions(std::ios_base::goodbit); is.clear();     // on to the next record, also after a failure
			is.ignore(1 << 20, '\n'); is.clear(); is.exceptions(m);
			nodes.push_back(n);
		} else if (l.at(0) == "poison") {
			size_t x = (size_t)l.num(1); if (!faults || x >= nodes.size() || nodes[x].v.k == K_BOOL) continue;
			int c = (int)l.num(2); Node & n = nodes[x];
			for (int i = 0; i < (int)kindDim[n.v.k]; ++i) if (c < 0 || i == c) n.v.c[i] = NAN;
			n.v.make(n.o); n.tainted = n.v.anyNan(); n.name += " (overwritten)"; rt::fired(rt::F_POISON);
		} else if (l.at(0) == "op") {
			Op const * o = opByName(l.at(1)); Node n; n.name = l.at(1);
			void const * args[3] = {}; bool ok = o != nullptr; 
			for (int i = 0; ok && i < o->n; ++i) { size_t x = (size_t)l.num(2 + i, -1); if (x >= nodes.size() || nodes[x].v.k != o->a[i] || nodes[x].dead) ok = false; else { args[i] = &nodes[x].o; n.tainted |= nodes[x].tainted; n.altered |= nodes[x].altered; } }
			if (ok && o->n == 2 && (!strcmp(o->name, "logG2") || !strcmp(o->name, "sqrtG2"))) {
				// the second operand is a direction used for negative scalars only
				Node & s = nodes[(size_t)l.num(2)], & d = nodes[(size_t)l.num(3)]; double const * c = s.v.c;
				bool neg = c[0] < -1e-9 && c[0] > -1e150 && c[1] == 0. && c[2] == 0. && c[3] == 0., far = c[0] > -1e150 && c[0] >= -.5 * (std::fabs(c[1]) + std::fabs(c[2]) + std::fabs(c[3]));
				n.tainted = s.tainted || (d.tainted && neg); n.altered = s.altered || (d.altered && !far) || (d.tainted && !neg && !far);
				if (d.tainted && neg) rt::probe("null directions of logarithms and roots");
			}
			if (!ok) { n.dead = true; nodes.push_back(n); continue; }
			std::string what; if (!callOp(*o, args, n.o, what)) { rt::violation("throws", "%s throws %s", n.name.c_str(), what.c_str()); bad = true; return nodes; }
			n.v = Val::from(o->r, n.o);
			nodes.push_back(n);
		}
	}
	return nodes;
}
// every comparison the library offers with a null (x) on either side says no
static std::vector<Op const *> const & cmpOps(Kind k) {
	static std::vector<Op const *> by[K_NONE];
	if (by[k].empty()) by[k] = opsWhere([k](Op const & o) { return o.g == G_CMP && o.r == K_BOOL && o.n >= 2 && o.a[0] == k && o.a[1] == k && (o.n == 2 || o.a[2] == K_DBL); });
	return by[k];
}
static Op const * saysSame(Kind k, Obj const & x, Obj const & y, Obj & tolUsed) {
	static double const tols[] = {1e-15, 1., 1e300, INFINITY, 0., -1., NAN};
	for (Op const * o : cmpOps(k)) for (int side = 0; side < 2; ++side) for (size_t t = 0; t < (o->n == 3 ? sizeof tols / sizeof *tols : 1); ++t) {
		Obj tol, res; Val tv; tv.k = K_DBL; tv.c[0] = tols[t]; tv.make(tol); std::string w;
		void const * args[3] = {side ? &y : &x, side ? &x : &y, &tol};
		if (!callOp(*o, args, res, w)) continue;
		if (Val::from(K_BOOL, res).c[0] != 0.) { tolUsed = tol; return o; }
	}
	return nullptr;
}
static void run13(Plan const & p) {
	bool bad = false;
	std::vector<Node> clean = evaluate(p, false, bad); if (bad) return;
	uint32_t before[rt::F_COUNT]; memcpy(before, rt::rep->faults, sizeof before);
	std::vector<Node> n = evaluate(p, true, bad); if (bad) return;
	// nodes also become tainted when an overwritten node is used later: evaluate() has tracked that in execution order
	for (size_t i = 0; i < n.size(); ++i) {
		Node & x = n[i]; if (x.dead) continue;
		rt::log("%s %s %d", x.name.c_str(), x.v.text().c_str(), x.tainted); rt::sig(x.name); rt::sig(x.tainted);
		std::string what = x.name + " = " + x.v.text();
		bool overwritten = x.name.find("(overwritten)") != std::string::npos;
		if (!x.tainted) {
			if (x.altered) continue;
			if (!x.v.same(clean[i].v)) return rt::violation("undisturbed-result-differs", "%s does not depend on a null operand but the undisturbed run gives %s", what.c_str(), clean[i].v.text().c_str());
			rt::probe("results without a null compared");
			continue;
		}
		rt::rep->nontrivial = 1; rt::probe(x.name == "operand" || overwritten ? "null operands checked" : "results of null operands checked");
		rt::sampleAdd("%s%s; ", x.name.c_str(), " <- null");
		Kind k = x.v.k; bool v, eq = false, ne = false; Node const * with = nullptr;
		{ rt::LibCall c; v = lib_valid(k, &x.o); }
		if (v) return rt::violation("valid-from-null", "%s tests valid though it %s", what.c_str(), x.name == "operand" || overwritten ? "has a component that is not a number" : "was computed from an operand with a component that is not a number");
		for (auto & y : n) if (!y.dead && y.v.k == k) { with = &y; { rt::LibCall c; eq = lib_equal(k, &x.o, &y.o) || lib_equal(k, &y.o, &x.o); ne = lib_nearly(k, &x.o, &y.o) || lib_nearly(k, &y.o, &x.o); } if (eq || ne) break; }
		if (!eq && !ne && clean[i].v.k == k && !clean[i].dead) { with = &clean[i]; rt::LibCall c; eq = lib_equal(k, &x.o, &with->o) || lib_equal(k, &with->o, &x.o); ne = lib_nearly(k, &x.o, &with->o) || lib_nearly(k, &with->o, &x.o); }
		if (eq || ne) return rt::violation("null-compares-equal", "%s (from a null operand) %s %s", what.c_str(), eq ? "compares equal to" : "compares nearly equal to", with->v.text().c_str());
		for (auto & y : n) if (!y.dead && y.v.k == k) { Obj t; if (Op const * o = saysSame(k, x.o, y.o, t)) return rt::violation("null-compares-equal", "%s (from a null operand) compares %s with %s by %s%s%s", what.c_str(), "the same", y.v.text().c_str(), opName(*o).c_str(), o->n == 3 ? " tolerance " : "", o->n == 3 ? Val::from(K_DBL, t).text().c_str() : ""); }
		for (unsigned j = 0; j < kindDim[k]; ++j) if (x.v.c[j] != x.v.c[j]) {     // single components, as numbers
			Obj a, b, t; Val va, vb; va.k = vb.k = K_DBL; va.c[0] = x.v.c[j]; va.make(a);
			for (double other : {clean[i].v.c[j], 0., (double)NAN, (double)INFINITY}) { vb.c[0] = other; vb.make(b); if (Op const * o = saysSame(K_DBL, a, b, t)) return rt::violation("null-compares-equal", "component %u of %s compares the same as %s by %s%s%s", j, what.c_str(), dtext(other).c_str(), opName(*o).c_str(), o->n == 3 ? " tolerance " : "", o->n == 3 ? Val::from(K_DBL, t).text().c_str() : ""); }
			break;
		}
		if (k < NG3) {
			static char const * const next[] = {"", "\n", " 1 -2 3 0 5 6 7 8 9\n", "\n1\n2\n3\n4\n5\n6\n7\n8\n"};     // what was written after it
			std::string after = next[(i + p.items.size()) % 4];
			SimSink sink; std::ostream os(&sink); { rt::LibCall c; lib_insert(os, k, &x.o); }
			sink.out += after;
			SimSource back(sink.out); applyChunks(p, back); std::istream bi(&back); Obj o; Val z; z.k = k; for (auto & d : z.c) d = 1; z.make(o);
			{ rt::LibCall c; lib_extract(bi, k, &o); v = lib_valid(k, &o); }
			if (v) return rt::violation("valid-after-rereading", "%s written as [%s] reads back as valid %s", what.c_str(), esc(sink.out).c_str(), Val::from(k, o).text().c_str());
			if (lib_hasEncoder(k)) for (int e = 0; e < 2; ++e) {
				std::string s; { rt::LibCall c; if (e) lib_fixed(k, &x.o, -1, -1, s); else lib_enote(k, &x.o, -1, s); }
				s += after; SimSource sb(s); applyChunks(p, sb); std::istream si(&sb); z.make(o);
				{ rt::LibCall c; lib_extract(si, k, &o); v = lib_valid(k, &o); }
				if (v) return rt::violation("valid-after-rereading", "%s written by io::%s as [%s] reads back as valid %s", what.c_str(), e ? "fixed" : "enote", esc(s).c_str(), Val::from(k, o).text().c_str());
			}
		}
	}
}
Scenario const sc_C13 = {"C13", gen13, run13};

// ---------------------------------------------------------------- C14
static std::vector<Op const *> const & algOps() { static auto v = opsWhere([](Op const & o) { return o.g != G_CONST; }); return v; }
static Plan gen14(rt::Rng & r, int, uint64_t index) {
	Plan p; auto const & ops = algOps(); int n = r.chance(.5) ? 1 : (int)r.range(2, 8); int fl = r.chance(.4) ? 0 : r.chance(.5) ? 1 : 2;
	for (int i = 0; i < n; ++i) {
		Op const * o = i == 0 ? ops[index % ops.size()] : r.pick(ops);
		std::vector<std::string> w{"op", opName(*o)}; Val last; for (int k = 0; k < o->n; ++k) { Val v = genVal(r, o->a[k], fl); if (k && v.k == last.k && r.chance(.3)) v = last; last = v; w = cat(w, valWords(v)); }
		p.add(w);
	}
	if (r.chance(.6)) p.set("from", 0); else { std::string s; for (int i = 0; i < 6; ++i) if (r.chance(.5)) s += (s.empty() ? "" : ",") + S(i); if (s.empty()) s = "0"; p.set("fail", s); }
	p.set("fresh", (int64_t)r.below(256)); p.set("freed", (int64_t)r.below(256));
	return p;
}
static void run14(Plan const & p) {
	struct C { Op const * op; Val v[3]; }; std::vector<C> calls; struct R { int ok; Obj o; };
	for (auto & l : p.items) if (l.at(0) == "op") { C c{opByName(l.at(1)), {}}; if (!c.op) continue; size_t i = 2; bool ok = true; for (int k = 0; k < c.op->n; ++k) { if (i >= l.w.size()) { ok = false; break; } c.v[k] = parseVal(l, i); if (c.v[k].k != c.op->a[k]) { ok = false; break; } i += 1 + kindDim[c.v[k].k]; } if (ok) calls.push_back(c); }
	R * norm = (R *)rt::sharedAlloc(sizeof(R) * (calls.size() + 1));
	auto doit = [](C const & c, Obj & res, std::string & w) { Obj a[3]; void const * args[3]; for (int i = 0; i < 3; ++i) { args[i] = &a[i]; if (i < c.op->n) c.v[i].make(a[i]); } return callOp(*c.op, args, res, w); };
	int st = rt::inFork([&] { static rt::Report own; rt::rep = &own; for (size_t i = 0; i < calls.size(); ++i) { std::string w; norm[i].ok = doit(calls[i], norm[i].o, w); } });
	if (st) return rt::violation("dies", "operations end the process with plentiful memory (status %d)", st);
	fillFrom(p);
	rt::AllocPlan ap; if (p.cfg.count("from")) ap.from = p.num("from"); for (unsigned k : parseList(p.str("fail"))) ap.at.push_back(k);
	for (size_t i = 0; i < calls.size(); ++i) {
		auto & c = calls[i]; std::string name = opName(*c.op), w, in; Obj res;
		for (int k = 0; k < c.op->n; ++k) in += (k ? ", " : "") + c.v[k].text();
		rt::setAllocPlan(ap); bool ok = doit(c, res, w); uint32_t asked = rt::allocCount(); rt::clearAllocPlan();
		Val a = Val::from(c.op->r, norm[i].o), b = Val::from(c.op->r, res);
		rt::log("%s %s", name.c_str(), b.text().c_str()); rt::sig(name); for (int k = 0; k < c.op->n; ++k) for (unsigned j = 0; j < kindDim[c.v[k].k]; ++j) { uint64_t u; memcpy(&u, &c.v[k].c[j], 8); rt::sig(u); }
		rt::sampleAdd("%s; ", name.c_str());
		rt::rep->nontrivial = 1; rt::probe("operations run while allocation fails"); if (asked) rt::probe("allocation requests made by operations", asked);
		if (!norm[i].ok) return rt::violation("throws", "%s(%s) throws with plentiful memory", name.c_str(), in.c_str());
		if (!ok) return rt::violation("throws", "%s(%s) throws %s while memory allocation fails", name.c_str(), in.c_str(), w.c_str());
		if (!a.same(b)) return rt::violation("result-differs", "%s(%s) is %s while memory allocation fails, %s otherwise", name.c_str(), in.c_str(), b.text().c_str(), a.text().c_str());
	}
}
Scenario const sc_C14 = {"C14", gen14, run14};
