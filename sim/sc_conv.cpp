// C18: two parties converse over byte channels (pipes, sockets).
#include "sc.h"
#include <memory>

// msg DIR ENC TERM val..   DIR 0: A to B, 1: B to A; ENC o (inserted), d (enote), e<n> (enote with digits); TERM n newline, s " ;\n", t ";\n"
// crash PARTY BYTE | alloc MSG a<n>.. | pre THREAD EVENT TARGET
struct Chan {
	std::string sent; size_t taken = 0; bool closed = false; size_t cap = 64;
	std::vector<unsigned> chunks{4096}; size_t ci = 0; std::vector<unsigned> stalls; size_t si = 0;
};
struct ChanSource : std::streambuf {
	Chan & c; std::string buf; uint64_t waits = 0;
	explicit ChanSource(Chan & ch) : c(ch) {}
	size_t consumed() const { return c.taken - (size_t)(egptr() - gptr()); }
	int_type underflow() override {
		rt::Harness h; rt::devRequest();
		if (gptr() && gptr() < egptr()) return traits_type::to_int_type(*gptr());
		if (!c.stalls.empty()) for (unsigned k = c.stalls[c.si++ % c.stalls.size()]; k; --k) { rt::fired(rt::F_STALL); rt::yieldNow(); }
		while (c.taken >= c.sent.size()) { if (c.closed) return traits_type::eof(); ++waits; rt::waitOn(&c); }
		size_t n = std::min<size_t>(std::max(1u, c.chunks[c.ci++ % c.chunks.size()]), c.sent.size() - c.taken);
		if (n < c.sent.size() - c.taken) rt::fired(rt::F_SHORT_READ);
		buf = c.sent.substr(c.taken, n); c.taken += n; rt::wakeOn(&c);
		setg(&buf[0], &buf[0], &buf[0] + n);
		return traits_type::to_int_type(*gptr());
	}
};
struct Party { int64_t killAt = -1; bool dead = false; };
struct ChanSink : SimSink {
	Chan & c; Party & p; Chan & other;
	ChanSink(Chan & ch, Party & pa, Chan & in, size_t b) : SimSink(b), c(ch), p(pa), other(in) {}
	void accepted(char const * s, size_t n) override {
		for (size_t i = 0; i < n; ++i) {
			if (p.dead) return;
			if (p.killAt >= 0 && p.killAt-- == 0) { p.dead = true; rt::fired(rt::F_CRASH); c.closed = other.closed = true; rt::wakeOn(&c); rt::wakeOn(&other); faults.push_back({out.size(), 0, -1}); return; }
			while (c.sent.size() - c.taken >= c.cap && !c.closed) rt::waitOn(&c);
			if (c.closed) return;
			c.sent += s[i]; rt::wakeOn(&c);
		}
	}
	std::streamsize xsputn(char const * s, std::streamsize n) override { if (c.closed) { rt::fired(rt::F_WRITE_ERR); return 0; } return SimSink::xsputn(s, n); }
	int_type overflow(int_type ch) override { if (c.closed) return traits_type::eof(); return SimSink::overflow(ch); }
	int sync() override { if (c.closed) return -1; return SimSink::sync(); }
};
struct Msg { int dir; std::string enc; bool semi, tight; Val v; rt::AllocPlan plan; bool sentOk = false, tried = false, received = false; size_t from = 0, to = 0; };
static std::vector<Msg> msgsOf(Plan const & p) {
	std::vector<Msg> m;
	for (auto & l : p.items) if (l.at(0) == "msg" && m.size() < 30) {
		Msg x; x.dir = (int)l.num(1) & 1; x.enc = l.at(2).empty() ? "o" : l.at(2); x.tight = l.at(3) == "t"; x.semi = x.tight || l.at(3) == "s"; x.v = parseVal(l, 4);
		if (x.v.k >= K_DBL || (x.enc[0] != 'o' && !lib_hasEncoder(x.v.k))) continue;
		if (x.enc[0] == 'e' && atoi(x.enc.c_str() + 1) < 16) x.enc = "d";
		m.push_back(x);
	}
	for (auto & l : p.items) if (l.at(0) == "alloc" && (size_t)l.num(1) < m.size()) m[(size_t)l.num(1)].plan = allocFrom(l, 2);
	return m;
}
static bool closeTo(Msg const & m, Val const & got, std::string & why) {
	for (unsigned i = 0; i < kindDim[m.v.k]; ++i) {
		double a = m.v.c[i], b = got.c[i]; bool ok = m.enc[0] == 'e' ? sameBits(a, b) : m.enc[0] == 'd' ? std::fabs(a - b) <= 1e-15 * std::fabs(a) : std::fabs(a - b) <= .5e-6 * (1 + 1e-9) + 4 * 2.3e-16 * std::fabs(a);
		if (!ok) { why = "component " + S(i) + " is " + dtext(b) + ", sent " + dtext(a); return false; }
	}
	return true;
}
static std::vector<uint64_t> converse(Plan const & p, std::vector<rt::Preempt> const & pre, bool judge) {
	auto msgs = std::make_unique<std::vector<Msg>>(msgsOf(p)); auto & m = *msgs;
	if (m.empty()) return {};
	Chan ch[2]; Party party[2];     // ch[0]: A to B
	for (int d = 0; d < 2; ++d) {
		std::string n = S(d); ch[d].cap = (size_t)std::max<int64_t>(8, p.num(("cap" + n).c_str(), 64));
		auto c = parseList(p.str(("chunks" + n).c_str())); if (!c.empty()) ch[d].chunks = c; ch[d].stalls = parseList(p.str(("stalls" + n).c_str()));
	}
	for (auto & l : p.items) if (l.at(0) == "crash") party[l.num(1) & 1].killAt = std::max<int64_t>(0, l.num(2));
	auto body = [&](int me) {
		Chan & in = ch[1 - me], & out = ch[me]; Party & my = party[me];
		ChanSource src(in); std::istream is(&src); ChanSink sink(out, my, in, (size_t)p.num("buf")); std::ostream os(&sink);
		is.exceptions(maskOf(p.num("rmask"))); os.exceptions(maskOf(p.num("wmask")));
		bool stop = false;
		for (size_t i = 0; i < m.size() && !stop && !my.dead && !rt::violated(); ++i) {
			Msg & x = m[i]; Obj o;
			if (x.dir == me) {
				x.v.make(o); bool ok = true; x.tried = true; x.from = out.sent.size();
				rt::setAllocPlan(x.plan);
				try {
					if (x.enc[0] == 'o') { rt::LibCall c; lib_insert(os, x.v.k, &o); }
					else { std::string s; { rt::LibCall c; lib_enote(x.v.k, &o, x.enc[0] == 'e' ? atoi(x.enc.c_str() + 1) : -1, s); } os << s; }
					rt::clearAllocPlan();
					os << (x.tight ? ";\n" : x.semi ? " ;\n" : "\n"); os.flush();
				} catch (...) { ok = false; }
				rt::clearAllocPlan();
				ok = ok && os.good() && !my.dead; x.sentOk = ok; x.to = out.sent.size();
				if (!ok) stop = true;       // a failed send ends the conversation (the peer sees the channel close)
			} else {
				Val z; z.k = x.v.k; for (auto & d : z.c) d = 77.; z.make(o); bool threw = false;
				try { rt::LibCall c; lib_extract(is, x.v.k, &o); } catch (...) { threw = true; }
				bool valid; { rt::LibCall c; valid = lib_valid(x.v.k, &o); }
				Val got = Val::from(x.v.k, o); std::string why; auto st = is.rdstate();
				rt::log("%d got %zu %s valid %d state %d threw %d", me, i, got.text().c_str(), valid, stateBits(st), threw);
				if (threw && !(st & is.exceptions())) { rt::violation("throws", "extraction of message %zu threw though the exception mask does not ask for it", i); return; }
				if (is.eof() || in.closed) {
					// the peer is gone, or went meanwhile: what arrived decides
					is.exceptions(std::ios_base::goodbit);
					if (is.eof()) {
						if (!valid && !threw && x.v.allValid() && !is.fail()) { rt::violation("hidden-failure", "message %zu: not valid, but the stream state shows only end of input", i); return; }
						// how many numbers of this message arrived at all
						std::istringstream t(in.sent.substr(std::min(x.from, in.sent.size()))); double d; unsigned n = 0; while (n < kindDim[x.v.k] && t >> d) ++n;
						if (valid && n < kindDim[x.v.k]) { rt::violation("valid-from-part", "message %zu: only %u of %u components arrived before the peer died, yet the target tests valid: %s", i, n, kindDim[x.v.k], got.text().c_str()); return; }
						rt::probe("peer death met while reading");
						stop = true; continue;
					}
				}
				if (!x.v.allValid()) {
					if (valid) { rt::violation("null-became-valid", "message %zu was sent from %s and is received as valid %s", i, x.v.text().c_str(), got.text().c_str()); return; }
					auto mk = is.exceptions(); is.exceptions(std::ios_base::goodbit); is.clear(); is.ignore(1 << 20, '\n'); if (is.eof()) stop = true; else is.exceptions(mk);
					rt::probe("null messages skipped");
					continue;
				}
				if (!valid) { rt::violation("message-lost", "message %zu (%s, encoding %s) arrived and is received as not valid, stream state %d", i, x.v.text().c_str(), x.enc.c_str(), stateBits(st)); return; }
				if (!closeTo(x, got, why)) { rt::violation("message-altered", "message %zu (%s, encoding %s): %s", i, x.v.text().c_str(), x.enc.c_str(), why.c_str()); return; }
				x.received = true; rt::probe("messages received as sent");
				if (x.semi) { auto mk = is.exceptions(); is.exceptions(std::ios_base::goodbit); char c = 0; is >> c; if (is.eof()) { stop = true; continue; } if (c != ';') { rt::violation("misframed", "message %zu: '%c' follows the value instead of its terminator", i, c); return; } is.exceptions(mk); }
			}
		}
		out.closed = true; if (stop || my.dead) in.closed = true;
		rt::wakeOn(&out); rt::wakeOn(&in);
	};
	auto res = rt::runThreads({[&] { body(0); }, [&] { body(1); }}, pre, (int)p.num("first"), true);
	if (judge && !rt::violated()) {
		bool faulty = party[0].dead || party[1].dead; for (auto & x : m) faulty |= x.tried && !x.sentOk;
		for (size_t i = 0; i < m.size(); ++i) {
			rt::sig(m[i].v.k); rt::sig((uint64_t)m[i].dir); rt::sig(m[i].enc);
			rt::sampleAdd("%s %s %s%s; ", m[i].dir ? "B>A" : "A>B", kindNames[m[i].v.k], m[i].enc.c_str(), m[i].received ? "" : m[i].v.allValid() ? " not received" : " null");
			if (!faulty && m[i].v.allValid() && !m[i].received) { rt::violation("message-lost", "message %zu was never received though nothing failed", i); break; }
		}
		rt::sig(rt::rep->hash);
	}
	return res.events;
}
static Plan gen18(rt::Rng & r, int tier, uint64_t) {
	Plan p; int n = (int)r.range(1, tier ? 12 : 6); int turns = (int)r.below(3);
	for (int i = 0, d = (int)r.below(2); i < n; ++i) {
		if (turns == 0) d = 1 - d; else if (turns == 1 ? r.chance(.5) : r.chance(.2)) d = 1 - d;
		std::string enc = r.chance(.5) ? "o" : r.chance(.5) ? "d" : "e" + S(r.range(16, 20));
		Kind k; do k = (Kind)r.below(NG3); while (enc != "o" && !lib_hasEncoder(k));
		Val v = genVal(r, k, r.chance(.6) ? 0 : 1);
		for (auto & c : v.c) if (std::fabs(c) > 1e300 || (c != 0 && std::fabs(c) < 1e-300)) c = 1.5;
		if (r.chance(.06)) v.c[r.below(kindDim[k])] = NAN;
		std::vector<std::string> w{"msg", S(d), enc, r.chance(.25) ? "s" : r.chance(.25) ? "t" : "n"}; for (auto & s : valWords(v)) w.push_back(s); p.add(w);
	}
	for (int d = 0; d < 2; ++d) {
		auto list = [&](int64_t a, int64_t b) { std::string s; int k = (int)r.range(1, 4); for (int i = 0; i < k; ++i) s += (i ? "," : "") + S(r.range(a, b)); return s; };
		if (r.chance(.6)) p.set(("chunks" + S(d)).c_str(), r.chance(.4) ? list(1, 3) : list(1, 40));
		if (r.chance(.4)) p.set(("stalls" + S(d)).c_str(), list(0, 3));
		if (r.chance(.4)) p.set(("cap" + S(d)).c_str(), r.range(8, 40));
	}
	if (r.chance(.5)) p.set("buf", r.range(1, 128));
	if (r.chance(.25)) p.set("rmask", r.range(1, 7));
	if (r.chance(.2)) p.set("wmask", r.range(1, 3));
	if (r.chance(.4)) p.add({"crash", S((int64_t)r.below(2)), S((int64_t)r.below(r.chance(.7) ? 120 : 400))});
	if (r.chance(.2)) p.add({"alloc", S((int64_t)r.below(n)), (r.chance(.3) ? "f" : "a") + S((int64_t)r.below(12))});
	static uint64_t * tot = (uint64_t *)rt::sharedAlloc(64); static rt::Report * scratch = (rt::Report *)rt::sharedAlloc(sizeof(rt::Report));
	tot[0] = tot[1] = 1000; memset(scratch, 0, sizeof *scratch);
	rt::inFork([&] { rt::rep = scratch; rt::enterSim(); auto e = converse(p, {}, false); for (size_t i = 0; i < e.size() && i < 2; ++i) tot[i] = e[i]; });
	int k = r.chance(.2) ? 0 : (int)r.range(1, 8);
	for (int i = 0; i < k; ++i) { int t = (int)r.below(2); p.add({"pre", S(t + 1), S(1 + (int64_t)r.below(tot[t] + 1)), S(2 - t)}); }
	p.set("first", (int64_t)r.below(2));
	return p;
}
static void run18(Plan const & p) {
	fillFrom(p);
	std::vector<rt::Preempt> pre; for (auto & l : p.items) if (l.at(0) == "pre") pre.push_back({(int)l.num(1), l.u64(2), (int)l.num(3)});
	converse(p, pre, true);
	if (rt::rep->switches > 1) rt::rep->nontrivial = 1;
	rt::probe("conversations");
}
Scenario const sc_C18 = {"C18", gen18, run18};
