#include "lib_ops.hpp"
struct MagSq { template <class T> auto operator()(T const & a) const -> decltype(g3::magSq(a)) { return g3::magSq(a); } };
struct Mag { template <class T> auto operator()(T const & a) const -> decltype(g3::magnitude(a)) { return g3::magnitude(a); } };
struct AmpSq { template <class T> auto operator()(T const & a) const -> decltype(g3::ampSq(a)) { return g3::ampSq(a); } };
struct Amp { template <class T> auto operator()(T const & a) const -> decltype(g3::amplitude(a)) { return g3::amplitude(a); } };
struct Dirn { template <class T> T operator()(T const & a) const { return g3::direction(a); } };
struct PairMag { template <class T> double operator()(T const & a) const { return g3::pairMagDirFrom(a).first; } };
struct PairDir { template <class T> T operator()(T const & a) const { return g3::pairMagDirFrom(a).second; } };
struct Inv { template <class T> T operator()(T const & a) const { return g3::inverse<T>(a); } };
struct Exp { template <class T> auto operator()(T const & a) const -> decltype(g3::exp(a)) { return g3::exp(a); } };
struct Log { auto operator()(Spinor const & a) const { return g3::logG2(a); } };
struct Log2 { auto operator()(Spinor const & a, BiVector const & b) const { return g3::logG2(a, b); } };
struct Sqrt { auto operator()(Spinor const & a) const { return g3::sqrtG2(a); } };
struct Sqrt2 { auto operator()(Spinor const & a, BiVector const & b) const { return g3::sqrtG2(a, b); } };
struct Sq { template <class T> T operator()(T const & a) const { return g3::sq(a); } };
struct Cube { template <class T> T operator()(T const & a) const { return g3::cube(a); } };
static constexpr Op ops[] = {
	ROW9(MagSq, "magSq", G_MAG), ROW9(Mag, "magnitude", G_MAG), ROW9(AmpSq, "ampSq", G_MAG), ROW9(Amp, "amplitude", G_MAG),
	ROW9(Dirn, "direction", G_MAG), ROW9(PairMag, "pairMagDirFrom.first", G_MAG), ROW9(PairDir, "pairMagDirFrom.second", G_MAG),
	op1<Inv, Scalar>("inverse", G_FUN), op1<Inv, Vector>("inverse", G_FUN), op1<Inv, BiVector>("inverse", G_FUN), op1<Inv, TriVector>("inverse", G_FUN), op1<Inv, ComPlex>("inverse", G_FUN), op1<Inv, MultiVector>("inverse", G_FUN),
	op1<Exp, BiVector>("exp", G_FUN), op1<Exp, Spinor>("exp", G_FUN), op1<Exp, MultiVector>("exp", G_FUN),
	op1<Log, Spinor>("logG2", G_FUN), op2<Log2, Spinor, BiVector>("logG2", G_FUN), op1<Sqrt, Spinor>("sqrtG2", G_FUN), op2<Sqrt2, Spinor, BiVector>("sqrtG2", G_FUN),
	op1<Sq, double>("sq", G_FUN), op1<Sq, Scalar>("sq", G_FUN), op1<Sq, Spinor>("sq", G_FUN), op1<Sq, ComPlex>("sq", G_FUN), op1<Sq, MultiVector>("sq", G_FUN),
	op1<Cube, double>("cube", G_FUN), op1<Cube, Scalar>("cube", G_FUN), op1<Cube, Spinor>("cube", G_FUN), op1<Cube, ComPlex>("cube", G_FUN), op1<Cube, MultiVector>("cube", G_FUN),
};
TABLE(lib_ops_fun, ops)
