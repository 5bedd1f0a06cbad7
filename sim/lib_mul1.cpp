#include "lib_ops.hpp"
struct Mul1 { template <class A, class B> auto operator()(A const & a, B const & b) const -> decltype(a * b) { return a * b; } };
static constexpr Op ops[] = { BROW(Mul1, Scalar, "*", G_MUL), BROW(Mul1, Vector, "*", G_MUL), BROW(Mul1, BiVector, "*", G_MUL), BROW(Mul1, TriVector, "*", G_MUL), BROW(Mul1, double, "*", G_MUL) };
TABLE(lib_ops_mul1, ops)
