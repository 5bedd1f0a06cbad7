#include "lib_ops.hpp"
#include <complex>
struct Eq { template <class T> auto operator()(T const & a, T const & b) const -> decltype(a == b) { return a == b; } };
struct Near { template <class T> bool operator()(T const & a, T const & b) const { return g3::nearlyEquals(a, b); } };
struct NearT { template <class T> bool operator()(T const & a, T const & b, double const & tol) const { return g3::nearlyEquals(a, b, tol); } };
struct NearAbs { bool operator()(double const & a, double const & b) const { return g3::nearlyEqualsAbs(a, b); } };
struct NearRel { bool operator()(double const & a, double const & b) const { return g3::nearlyEqualsRel(a, b); } };
struct NearAbsT { bool operator()(double const & a, double const & b, double const & t) const { return g3::nearlyEqualsAbs(a, b, t); } };
struct NearRelT { bool operator()(double const & a, double const & b, double const & t) const { return g3::nearlyEqualsRel(a, b, t); } };
struct Valid { template <class T> bool operator()(T const & a) const { return g3::isValid(a); } };
template <unsigned N> struct Idx { template <class T> auto operator()(T const & a) const -> std::decay_t<decltype(a[N])> { return a[N]; } };
template <unsigned N> struct IdxVar { MultiVector operator()(MultiVector const & a) const { MultiVector m(a); m[N] = m[N] + 1.; return m; } };
struct ToMv { template <class T> MultiVector operator()(T const & a) const { return MultiVector(a); } };
struct ToMv2 { MultiVector operator()(ComPlex const & a, DirPlex const & b) const { return MultiVector(a, b); } };
struct ViaStd { ComPlex operator()(ComPlex const & a) const { std::complex<double> z = a; return ComPlex::from(z); } };
struct FromStd { ComPlex operator()(double const & a, double const & b) const { return ComPlex::from(std::complex<double>(a, b)); } };
struct NearArr { template <class T> bool operator()(T const & a, T const & b) const { return g3::nearlyEquals(a.theData, b.theData); } };
struct ValidArr { template <class T> bool operator()(T const & a) const { return g3::isValid(a.theData); } };
struct MagSqD { double operator()(double const & a) const { return g3::magSq(a); } };
static constexpr Op ops[] = {
	SAME9(Eq, "==", G_CMP), SAME9(Near, "nearlyEquals", G_CMP), SAME9T(NearT, "nearlyEquals", G_CMP),
	op2d<Near, double, double>("nearlyEquals", G_CMP), op2d<NearAbs, double, double>("nearlyEqualsAbs", G_CMP), op2d<NearRel, double, double>("nearlyEqualsRel", G_CMP),
	op3<NearT, double, double, double>("nearlyEquals", G_CMP), op3<NearAbsT, double, double, double>("nearlyEqualsAbs", G_CMP), op3<NearRelT, double, double, double>("nearlyEqualsRel", G_CMP),
	ROW10(Valid, "isValid", G_VAL),
	ROW10(ToMv, "MultiVector", G_UN), op2<ToMv2, ComPlex, DirPlex>("MultiVector", G_ADD), op1<ViaStd, ComPlex>("std::complex", G_UN), op2d<FromStd, double, double>("ComPlex::from", G_ADD), op1<MagSqD, double>("magSq", G_MAG),
	op2<NearArr, Vector, Vector>("nearlyEquals(array)", G_CMP), op2<NearArr, BiVector, BiVector>("nearlyEquals(array)", G_CMP), op2<NearArr, Scalar, Scalar>("nearlyEquals(array)", G_CMP),
	op1<ValidArr, Vector>("isValid(array)", G_VAL), op1<ValidArr, Scalar>("isValid(array)", G_VAL),
	ROW9(Idx<0>, "[0]", G_IDX), ROW9(Idx<1>, "[1]", G_IDX), ROW9(Idx<2>, "[2]", G_IDX), ROW9(Idx<3>, "[3]", G_IDX), ROW9(Idx<4>, "[4]", G_IDX), ROW9(Idx<5>, "[5]", G_IDX), ROW9(Idx<6>, "[6]", G_IDX), ROW9(Idx<7>, "[7]", G_IDX), ROW9(Idx<8>, "[8]", G_IDX), ROW9(Idx<9>, "[9]", G_IDX),
	op1<IdxVar<0>, MultiVector>("[0]variable", G_IDX), op1<IdxVar<2>, MultiVector>("[2]variable", G_IDX), op1<IdxVar<5>, MultiVector>("[5]variable", G_IDX), op1<IdxVar<7>, MultiVector>("[7]variable", G_IDX), op1<IdxVar<9>, MultiVector>("[9]variable", G_IDX),
};
TABLE(lib_ops_cmp, ops)
