#include "lib_ops.hpp"
struct Sub { template <class A, class B> auto operator()(A const & a, B const & b) const -> decltype(a - b) { return a - b; } };
static constexpr Op ops[] = { BROW(Sub, Scalar, "-", G_SUB), BROW(Sub, Vector, "-", G_SUB), BROW(Sub, BiVector, "-", G_SUB), BROW(Sub, TriVector, "-", G_SUB), BROW(Sub, Spinor, "-", G_SUB), BROW(Sub, ImSpin, "-", G_SUB), BROW(Sub, ComPlex, "-", G_SUB), BROW(Sub, DirPlex, "-", G_SUB), BROW(Sub, MultiVector, "-", G_SUB), BROW(Sub, double, "-", G_SUB) };
TABLE(lib_ops_sub, ops)
