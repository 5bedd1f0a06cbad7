// Scenario interface and shared helpers.
#pragma once
#include "dev.h"
#include "libapi.h"
#include "plan.h"
#include <cmath>

struct Scenario { char const * id; Plan (*gen)(rt::Rng & r, int tier, uint64_t index); void (*run)(Plan const & p); };
Scenario const * findScenario(std::string const & id);

// ---- values
inline bool validD(double d) { return std::isnormal(d) || d == 0.; }
inline bool sameBits(double a, double b) { uint64_t x, y; memcpy(&x, &a, 8); memcpy(&y, &b, 8); return x == y || (a != a && b != b); }
int64_t dictInt(rt::Rng & r, int64_t lo, int64_t hi);   // an integer literal of the library's code or one next to it, within the range
double genDouble(rt::Rng & r, int flavour);         // 0 tame, 1 wide finite, 2 anything (incl. nan, inf, subnormal)
std::string dtext(double d);
struct Val { Kind k = K_NONE; double c[8] = {};
	std::string text() const { std::string s = kindNames[k]; s += '{'; for (unsigned i = 0; i < kindDim[k]; ++i) { if (i) s += ','; s += dtext(c[i]); } return s + '}'; }
	bool allValid() const { for (unsigned i = 0; i < kindDim[k]; ++i) if (!validD(c[i])) return false; return true; }
	bool anyNan() const { for (unsigned i = 0; i < kindDim[k]; ++i) if (c[i] != c[i]) return true; return false; }
	bool same(Val const & o) const { if (k != o.k) return false; for (unsigned i = 0; i < kindDim[k]; ++i) if (!sameBits(c[i], o.c[i])) return false; return true; }
	void make(Obj & o) const { lib_make(k, c, &o); }
	static Val from(Kind k, Obj const & o) { Val v; v.k = k; lib_comps(k, &o, v.c); return v; }
};
Val genVal(rt::Rng & r, Kind k, int flavour);
// value as plan words: kind comp...
std::vector<std::string> valWords(Val const & v);
Val parseVal(Line const & l, size_t from);
Kind kindByName(std::string const & s);

// ---- operations
std::vector<Op const *> const & allOps();                   // all existing operations
std::vector<Op const *> opsWhere(std::function<bool(Op const &)> f);
std::string opName(Op const & o);                           // unique name with types
Op const * opByName(std::string const & s);
// calls op on objects; catches exceptions: returns false and sets what
bool callOp(Op const & o, void const * const * args, Obj & res, std::string & what);

// ---- exception masks and states
inline std::ios_base::iostate maskOf(int64_t m) { std::ios_base::iostate s = std::ios_base::goodbit; if (m & 1) s |= std::ios_base::badbit; if (m & 2) s |= std::ios_base::failbit; if (m & 4) s |= std::ios_base::eofbit; return s; }
inline int stateBits(std::ios_base::iostate s) { return (s & std::ios_base::badbit ? 1 : 0) | (s & std::ios_base::failbit ? 2 : 0) | (s & std::ios_base::eofbit ? 4 : 0); }
std::string current_exception_name();

// ---- plan pieces
std::vector<DevFault> faultsFrom(Plan const & p, char const * word);    // lines "<word> pos kind count"
rt::AllocPlan allocFrom(Line const & l, size_t from);                   // words: "f<idx>" or "a<idx>"
void genChunks(rt::Rng & r, Plan & p);
void applyChunks(Plan const & p, SimSource & s);
std::vector<unsigned> parseList(std::string const & s);
double edgeScale(rt::Rng & r);     // a magnitude around which numerical code tends to change its ways
std::locale simLocale(std::string const & name);                        // C, comma, euro, swiss, long, upper
std::vector<std::string> const & simLocaleNames();
void fillFrom(Plan const & p);
void genGlobal(rt::Rng & r, Plan & p, double chance);        // a process-wide locale other than the classic one
void globalFrom(Plan const & p);
#define SC(id) extern Scenario const sc_##id;
SC(C01) SC(C02) SC(C03) SC(C04) SC(C05) SC(C06) SC(C07) SC(C08) SC(C09) SC(C10) SC(C11) SC(C12) SC(C13) SC(C14) SC(C15) SC(C16) SC(C17) SC(C18) SC(C19)
#undef SC
