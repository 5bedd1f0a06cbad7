#include "lib_ops.hpp"
#include <cstdlib>
#include <cstring>
// Constants are read in a function with no static state so that it can run at any moment of process life.
#define NUL(T) struct Null##T { T operator()(double const &) const { return g3::null<T>(); } }; struct Zero##T { T operator()(double const &) const { return g3::zero<T>(); } };
NUL(Scalar) NUL(Vector) NUL(BiVector) NUL(TriVector) NUL(Spinor) NUL(ImSpin) NUL(ComPlex) NUL(DirPlex) NUL(MultiVector) NUL(double)
struct OneSca { Scalar operator()(double const &) const { return g3::one<Scalar>(); } };
struct OneSpi { Spinor operator()(double const &) const { return g3::one<Spinor>(); } };
struct OneMv { MultiVector operator()(double const &) const { return g3::one<MultiVector>(); } };
#define CST(n, T) struct C_##n { T operator()(double const &) const { return g3::n; } };
CST(e0, Scalar) CST(e1, Vector) CST(e2, Vector) CST(e3, Vector) CST(e23, BiVector) CST(e31, BiVector) CST(e12, BiVector) CST(e123, TriVector)
CST(pi, double) CST(piHalf, double) CST(piQtr, double) CST(turnFull, double) CST(turnHalf, double) CST(turnQtr, double)
#define N(T) op1<Null##T, double>("null<" #T ">", G_CONST), op1<Zero##T, double>("zero<" #T ">", G_CONST)
#define C(n) op1<C_##n, double>(#n, G_CONST)
static constexpr Op ops[] = { N(Scalar), N(Vector), N(BiVector), N(TriVector), N(Spinor), N(ImSpin), N(ComPlex), N(DirPlex), N(MultiVector), N(double),
	op1<OneSca, double>("one<Scalar>", G_CONST), op1<OneSpi, double>("one<Spinor>", G_CONST), op1<OneMv, double>("one<MultiVector>", G_CONST),
	C(e0), C(e1), C(e2), C(e3), C(e23), C(e31), C(e12), C(e123), C(pi), C(piHalf), C(piQtr), C(turnFull), C(turnHalf), C(turnQtr) };
TABLE(lib_ops_const, ops)
unsigned lib_constants(double * out) {
	unsigned n = 0; double one = 1.; void const * args[3] = {&one, nullptr, nullptr};
	for (auto const & o : ops) { if (!o.fn) continue; Obj r; o.fn(args, &r); lib_comps(o.r, &r, out + n); n += kindDim[o.r]; }
	return n;
}
PreMain lib_premain;
static void text(char * to, size_t n, std::string const & s) { size_t k = s.size() < n - 1 ? s.size() : n - 1; memcpy(to, s.data(), k); to[k] = 0; }
// Runs before every ordinary initialiser of this library's translation units.
__attribute__((constructor(101))) static void premain() {
	char const * e = getenv("SIM_PREMAIN"); if (!e) return;
	try {
		if (strchr(e, 'c')) lib_premain.nconsts = lib_constants(lib_premain.consts);
		if (strchr(e, 'v')) text(lib_premain.version, sizeof lib_premain.version, engabra::projectVersion());
		if (strchr(e, 's')) text(lib_premain.identity, sizeof lib_premain.identity, engabra::sourceIdentity());
	} catch (...) { lib_premain.threw = 1; }
	lib_premain.ran = 1;
}
