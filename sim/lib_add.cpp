#include "lib_ops.hpp"
struct Add { template <class A, class B> auto operator()(A const & a, B const & b) const -> decltype(a + b) { return a + b; } };
static constexpr Op ops[] = { BROW(Add, Scalar, "+", G_ADD), BROW(Add, Vector, "+", G_ADD), BROW(Add, BiVector, "+", G_ADD), BROW(Add, TriVector, "+", G_ADD), BROW(Add, Spinor, "+", G_ADD), BROW(Add, ImSpin, "+", G_ADD), BROW(Add, ComPlex, "+", G_ADD), BROW(Add, DirPlex, "+", G_ADD), BROW(Add, MultiVector, "+", G_ADD), BROW(Add, double, "+", G_ADD) };
TABLE(lib_ops_add, ops)
