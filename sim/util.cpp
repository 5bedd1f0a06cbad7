#include "sc.h"
#include <algorithm>
#include <cfloat>
#include <cxxabi.h>
#include <limits>
#include <locale>
#include <unistd.h>

// literals of the library's own code (written next to the program when it was built)
struct Dict { std::vector<int64_t> i; std::vector<double> d; };
static Dict const & dict() {
	static Dict const x = [] { Dict x; char b[4096]; ssize_t n = readlink("/proc/self/exe", b, sizeof b - 8); if (n <= 0) return x; b[n] = 0; std::string f(b); f.replace(f.rfind('/') + 1, std::string::npos, "dict");
		if (FILE * h = fopen(f.c_str(), "r")) { char k; unsigned long long v; while (fscanf(h, " %c", &k) == 1) { if (k == 'i' ? fscanf(h, "%llu", &v) != 1 : fscanf(h, "%llx", &v) != 1) break; double d; if (k == 'i') x.i.push_back((int64_t)v); else { memcpy(&d, &v, 8); x.d.push_back(d); } } fclose(h); }
		return x; }();
	return x;
}
static double dictDouble(rt::Rng & r) {
	auto const & x = dict(); double d = x.d.size() && (x.i.empty() || r.chance(.8)) ? r.pick(x.d) : x.i.size() ? (double)r.pick(x.i) : 1.;
	switch (r.below(12)) { case 10: case 11: d = std::sqrt(std::fabs(d)); if (r.chance(.5)) d = std::sqrt(d); d *= std::pow(2., -6. + 10. * r.unit()); break; case 0: d = std::sqrt(d); break; case 1: d *= d; break; case 2: d = 1. / d; break; case 3: d = std::nextafter(d, 0.); break; case 4: d = std::nextafter(d, INFINITY); break; case 5: d *= .999; break; case 6: d *= 1.001; break; default: break; }
	return d != 0. && std::isfinite(d) ? d : 1.;
}
int64_t dictInt(rt::Rng & r, int64_t lo, int64_t hi) {
	auto const & x = dict(); if (x.i.empty()) return r.range(lo, hi);
	int64_t v = r.pick(x.i) + (int64_t)r.range(-1, 1); return v < lo || v > hi ? r.range(lo, hi) : v;
}
// magnitudes around which numerical code tends to change its ways
double edgeScale(rt::Rng & r) {
	static double const e[] = {1.1e-16, 2.2204460492503131e-16, 8.8e-16, 1e-15, 1e-12, 1e-9, 1.5e-8, 1e-6, 1e-4, 1e-3, 999999., 1e6, 1e9, 1e15, 9007199254740992., 1e16, 1e18, 1e100, 1.3e154, 1e155,
		1e-99, 1e-100, 1e-150, 1.5e-154, 2e-154, 1e-155, 1e-161, 2.3e-162, 4.9e-162, 1e-290, 1e-291, 1e-307, 1.1e-307, 2.2250738585072014e-308, 4.5e-308, 1e307, 8.9e307, DBL_MAX};
	if (r.chance(.3)) return dictDouble(r);
	return r.chance(.5) ? e[r.below(sizeof e / sizeof *e)] : std::pow(10., (double)r.range(-20, 20));
}
double genDouble(rt::Rng & r, int fl) {
	static double const nice[] = {0., 1., -1., 2., .5, -3., 10., 0.25, 100., -7.5, 3.141592653589793, 1e-3};
	uint64_t w = r.below(108);
	if (r.chance(.04)) { double d = dictDouble(r); if (fl != 0 ? validD(d) : d > 1e-4 && d < 1e4) return r.chance(.6) ? d : -d; }
	if (w >= 100) { if (fl == 0) w -= 100; else { double d = edgeScale(r) * (r.chance(.4) ? 1. : .5 + 1.5 * r.unit()); if (fl == 1) d = std::min(DBL_MAX, std::max(DBL_MIN, d)); return r.chance(.5) ? d : -d; } }
	if (w < 30) return nice[r.below(sizeof nice / sizeof *nice)];
	if (w < 60 || fl == 0) return (r.unit() * 2 - 1) * std::pow(10., (double)r.range(-3, 3));
	if (w < 90 || fl == 1) {
		if (r.chance(.05)) return r.chance(.5) ? DBL_MAX : DBL_MIN;
		if (r.chance(.05)) return -0.;
		return (r.chance(.5) ? 1 : -1) * (1 + 9 * r.unit()) * std::pow(10., (double)r.range(-300, 300));
	}
	switch (r.below(6)) {
	case 0: return std::numeric_limits<double>::quiet_NaN();
	case 1: return std::numeric_limits<double>::infinity();
	case 2: return -std::numeric_limits<double>::infinity();
	case 3: return 4e-310;
	case 4: return -0.;
	default: return DBL_MAX;
	}
}
std::string dtext(double d) { if (d != d) return "nan"; char b[40]; snprintf(b, sizeof b, "%.17g", d); char s[40]; snprintf(s, sizeof s, "%.9g", d); return strtod(s, nullptr) == d ? s : b; }
Val genVal(rt::Rng & r, Kind k, int fl) {
	Val v; v.k = k; unsigned n = kindDim[k];
	for (unsigned i = 0; i < n; ++i) v.c[i] = genDouble(r, fl);
	if (n > 1 && fl && r.chance(.15)) {     // all components near one and the same edge
		double z = edgeScale(r); int how = (int)r.below(3);
		for (unsigned i = 0; i < n; ++i) v.c[i] = how == 0 && r.chance(.6) ? 0. : (r.chance(.5) ? 1 : -1) * z * (how == 1 ? 1. : r.unit() + .1);
		if (r.chance(.2)) v.c[0] = r.chance(.5) ? 1. : -1.;     // e.g. spinors next to plus or minus one
		if (fl == 1) for (unsigned i = 0; i < n; ++i) if (!validD(v.c[i])) v.c[i] = v.c[i] < 0 ? -DBL_MIN : std::fabs(v.c[i]) > 1 ? DBL_MAX : DBL_MIN;
		return v;
	}
	if (n > 1 && r.chance(.2)) switch (r.below(5)) {    // values with a structure: few components, one grade only, units, repeated components
	case 0: { unsigned keep = (unsigned)r.below(n); for (unsigned i = 0; i < n; ++i) if (i != keep) v.c[i] = 0.; if (r.chance(.6)) v.c[keep] = r.chance(.5) ? 1. : -1.; break; }
	case 1: for (unsigned i = 1; i < n; ++i) v.c[i] = 0.; if (r.chance(.5)) v.c[0] = -std::fabs(v.c[0]); break;
	case 2: v.c[0] = 0.; break;
	case 3: for (unsigned i = 0; i < n; ++i) if (r.chance(.5)) v.c[i] = 0.; break;
	default: for (unsigned i = 1; i < n; ++i) v.c[i] = r.chance(.5) ? v.c[0] : -v.c[0]; break;
	}
	return v;
}
std::vector<std::string> valWords(Val const & v) { std::vector<std::string> w{kindNames[v.k]}; for (unsigned i = 0; i < kindDim[v.k]; ++i) w.push_back(hexd(v.c[i])); return w; }
Kind kindByName(std::string const & s) { for (int i = 0; i < K_NONE; ++i) if (s == kindNames[i]) return (Kind)i; return K_SCA; }
Val parseVal(Line const & l, size_t from) { Val v; v.k = kindByName(l.at(from)); for (unsigned i = 0; i < kindDim[v.k]; ++i) v.c[i] = unhexd(l.at(from + 1 + i)); return v; }

std::vector<Op const *> const & allOps() {
	static std::vector<Op const *> v;
	if (v.empty()) for (OpTable t : {lib_ops_un(), lib_ops_fun(), lib_ops_cmp(), lib_ops_mul1(), lib_ops_mul2(), lib_ops_add(), lib_ops_sub(), lib_ops_const()})
		for (size_t i = 0; i < t.n; ++i) if (t.ops[i].fn) v.push_back(&t.ops[i]);
	return v;
}
std::vector<Op const *> opsWhere(std::function<bool(Op const &)> f) { std::vector<Op const *> v; for (auto o : allOps()) if (f(*o)) v.push_back(o); return v; }
std::string opName(Op const & o) { std::string s = o.name; for (int i = 0; i < o.n; ++i) { s += i ? ',' : ':'; s += kindNames[o.a[i]]; } return s; }
Op const * opByName(std::string const & s) { static std::map<std::string, Op const *> m; if (m.empty()) for (auto o : allOps()) m[opName(*o)] = o; auto i = m.find(s); return i == m.end() ? nullptr : i->second; }
std::string current_exception_name() {
	auto t = abi::__cxa_current_exception_type(); if (!t) return "none";
	int st; char * n = abi::__cxa_demangle(t->name(), nullptr, nullptr, &st); std::string s = n ? n : t->name(); free(n);
	auto b = s.find("[abi:"); if (b != std::string::npos) { auto e = s.find(']', b); s.erase(b, e - b + 1); }
	return s;
}
bool callOp(Op const & o, void const * const * args, Obj & res, std::string & what) {
	memset(&res, 0, sizeof res);
	try { rt::LibCall c; o.fn(args, &res); return true; }
	catch (...) { rt::Harness h; what = current_exception_name(); return false; }
}
std::vector<DevFault> faultsFrom(Plan const & p, char const * word) {
	std::vector<DevFault> f;
	for (auto & l : p.items) if (l.at(0) == word) f.push_back({l.u64(1), (int)l.num(2), (int)l.num(3, -1)});
	return f;
}
rt::AllocPlan allocFrom(Line const & l, size_t from) {
	rt::AllocPlan a;
	for (size_t i = from; i < l.w.size(); ++i) {
		if (l.w[i][0] == 'a') a.at.push_back((uint32_t)atoi(l.w[i].c_str() + 1));
		else if (l.w[i][0] == 'f') a.from = atoi(l.w[i].c_str() + 1);
	}
	return a;
}
void genChunks(rt::Rng & r, Plan & p) {
	if (r.chance(.2)) { p.set("unbuf", 1); }
	else if (r.chance(.8)) {
		std::string s; int n = (int)r.range(1, 5);
		for (int i = 0; i < n; ++i) { if (i) s += ','; s += std::to_string(r.chance(.5) ? r.range(1, 4) : r.range(1, 40)); }
		p.set("chunks", s);
	}
	if (r.chance(.3)) p.set("avail", (int64_t)r.range(1, 2));
	if (r.chance(.3)) p.set("putback", 1);
	if (r.chance(.3)) p.set("seek", 1);
	if (r.chance(.2)) p.set("syncm", r.range(1, 2));
}
std::vector<unsigned> parseList(std::string const & s) { std::vector<unsigned> v; size_t i = 0; while (i < s.size()) { v.push_back((unsigned)atoi(s.c_str() + i)); i = s.find(',', i); if (i == std::string::npos) break; ++i; } return v; }
void applyChunks(Plan const & p, SimSource & s) {
	s.unbuffered = p.num("unbuf"); s.availMode = (int)p.num("avail"); s.putback = p.num("putback"); s.seekable = p.num("seek"); s.syncMode = (int)p.num("syncm");
	auto c = parseList(p.str("chunks")); if (!c.empty()) s.chunks = c;
}
// ---- locales
namespace {
struct Punct : std::numpunct<char> {
	char dp, ts; std::string gr;
	Punct(char d, char t, std::string g) : std::numpunct<char>((size_t)0), dp(d), ts(t), gr(std::move(g)) {}
	char do_decimal_point() const override { return dp; }
	char do_thousands_sep() const override { return ts; }
	std::string do_grouping() const override { return gr; }
};
// a comma is white space
struct Csv : std::ctype<char> {
	static mask const * table() { static mask t[table_size]; static bool done = (memcpy(t, classic_table(), sizeof t), t[(int)','] |= space, true); (void)done; return t; }
	Csv() : std::ctype<char>(table()) {}
};
// numbers end with a tilde
struct TildePut : std::num_put<char> { iter_type do_put(iter_type o, std::ios_base & b, char f, double d) const override { o = std::num_put<char>::do_put(o, b, f, d); if (std::isfinite(d)) *o++ = '~'; return o; } };
struct TildeGet : std::num_get<char> { iter_type do_get(iter_type i, iter_type e, std::ios_base & b, std::ios_base::iostate & err, double & d) const override { i = std::num_get<char>::do_get(i, e, b, err, d); if (!(err & std::ios_base::failbit) && i != e && *i == '~') ++i; return i; } };
}
std::vector<std::string> const & simLocaleNames() { static std::vector<std::string> v{"C", "comma", "german", "swiss", "indian", "group1"}; return v; }
std::locale simLocale(std::string const & n) {
	std::locale c = std::locale::classic();
	if (n == "comma") return std::locale(c, new Punct(',', '.', ""));
	if (n == "german") return std::locale(c, new Punct(',', '.', "\3"));
	if (n == "swiss") return std::locale(c, new Punct('.', '\'', "\3"));
	if (n == "indian") return std::locale(c, new Punct('.', ',', "\3\2"));
	if (n == "csv") return std::locale(c, new Csv);
	if (n == "tilde") return std::locale(std::locale(c, new TildePut), new TildeGet);
	if (n == "group1") return std::locale(c, new Punct(';', '_', "\1"));
	return c;
}
void fillFrom(Plan const & p) {
	if (p.cfg.count("fresh") || p.cfg.count("freed")) { rt::setFill((int)p.num("fresh", 0xCB), (int)p.num("freed", 0xDD)); rt::setStackFill((int)(p.num("fresh", 0xCB) ^ 0x5A) & 255); rt::fired(rt::F_FILL_PATTERN); }
}
void genGlobal(rt::Rng & r, Plan & p, double chance) { if (r.chance(chance)) p.set("gloc", r.pick(simLocaleNames())); }
void globalFrom(Plan const & p) { if (p.cfg.count("gloc")) { std::locale::global(simLocale(p.str("gloc"))); rt::fired(rt::F_LOCALE_IMBUE); } }
