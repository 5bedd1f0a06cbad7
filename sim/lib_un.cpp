#include "lib_ops.hpp"
struct Neg { template <class T> auto operator()(T const & a) const -> decltype(-a) { return -a; } };
struct Rev { template <class T> auto operator()(T const & a) const -> decltype(g3::reverse(a)) { return g3::reverse(a); } };
struct Odd { template <class T> auto operator()(T const & a) const -> decltype(g3::oddverse(a)) { return g3::oddverse(a); } };
struct Dir { template <class T> auto operator()(T const & a) const -> decltype(g3::dirverse(a)) { return g3::dirverse(a); } };
struct Dual { template <class T> auto operator()(T const & a) const -> decltype(g3::dual(a)) { return g3::dual(a); } };
static constexpr Op ops[] = {
	ROW9(Neg, "neg", G_UN), ROW9(Rev, "reverse", G_UN), ROW9(Odd, "oddverse", G_UN), ROW9(Dir, "dirverse", G_UN), ROW9(Dual, "dual", G_UN)
};
TABLE(lib_ops_un, ops)
