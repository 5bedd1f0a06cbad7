#include "lib_ops.hpp"
struct Mul2 { template <class A, class B> auto operator()(A const & a, B const & b) const -> decltype(a * b) { return a * b; } };
static constexpr Op ops[] = { BROW(Mul2, Spinor, "*", G_MUL), BROW(Mul2, ImSpin, "*", G_MUL), BROW(Mul2, ComPlex, "*", G_MUL), BROW(Mul2, DirPlex, "*", G_MUL), BROW(Mul2, MultiVector, "*", G_MUL) };
TABLE(lib_ops_mul2, ops)
