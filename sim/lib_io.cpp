// Stream and string entry points, values, identity, constants - all through the public interface.
#include "lib_ops.hpp"
#include <cstdlib>
#include <cstring>
#include <istream>
#include <ostream>
char const * const kindNames[] = {"Scalar", "Vector", "BiVector", "TriVector", "Spinor", "ImSpin", "ComPlex", "DirPlex", "MultiVector", "double", "bool", "none"};
unsigned const kindDim[] = {1, 3, 3, 1, 4, 4, 2, 6, 8, 1, 1, 0};
template <class T> T const & as(void const * v) { return *static_cast<T const *>(v); }
template <class T> T & asm_(void * v) { return *static_cast<T *>(v); }
void lib_make(Kind k, double const * c, void * o) {
	switch (k) {
	case K_SCA: ::new (o) Scalar{c[0]}; break;
	case K_VEC: ::new (o) Vector{c[0], c[1], c[2]}; break;
	case K_BIV: ::new (o) BiVector{c[0], c[1], c[2]}; break;
	case K_TRI: ::new (o) TriVector{c[0]}; break;
	case K_SPI: ::new (o) Spinor{Scalar{c[0]}, BiVector{c[1], c[2], c[3]}}; break;
	case K_IMS: ::new (o) ImSpin{Vector{c[0], c[1], c[2]}, TriVector{c[3]}}; break;
	case K_CPX: ::new (o) ComPlex{Scalar{c[0]}, TriVector{c[1]}}; break;
	case K_DPX: ::new (o) DirPlex{Vector{c[0], c[1], c[2]}, BiVector{c[3], c[4], c[5]}}; break;
	case K_MV: ::new (o) MultiVector{Scalar{c[0]}, Vector{c[1], c[2], c[3]}, BiVector{c[4], c[5], c[6]}, TriVector{c[7]}}; break;
	case K_DBL: ::new (o) double(c[0]); break;
	case K_BOOL: ::new (o) bool(c[0] != 0); break;
	default: break;
	}
}
template <class B> static double * put(B const & b, unsigned n, double * c) { for (unsigned i = 0; i < n; ++i) *c++ = b.theData[i]; return c; }
void lib_comps(Kind k, void const * v, double * c) {
	switch (k) {
	case K_SCA: put(as<Scalar>(v), 1, c); break;
	case K_VEC: put(as<Vector>(v), 3, c); break;
	case K_BIV: put(as<BiVector>(v), 3, c); break;
	case K_TRI: put(as<TriVector>(v), 1, c); break;
	case K_SPI: c = put(as<Spinor>(v).theSca, 1, c); put(as<Spinor>(v).theBiv, 3, c); break;
	case K_IMS: c = put(as<ImSpin>(v).theVec, 3, c); put(as<ImSpin>(v).theTri, 1, c); break;
	case K_CPX: c = put(as<ComPlex>(v).theSca, 1, c); put(as<ComPlex>(v).theTri, 1, c); break;
	case K_DPX: c = put(as<DirPlex>(v).theVec, 3, c); put(as<DirPlex>(v).theBiv, 3, c); break;
	case K_MV: c = put(as<MultiVector>(v).theSca, 1, c); c = put(as<MultiVector>(v).theVec, 3, c); c = put(as<MultiVector>(v).theBiv, 3, c); put(as<MultiVector>(v).theTri, 1, c); break;
	case K_DBL: c[0] = as<double>(v); break;
	case K_BOOL: c[0] = as<bool>(v) ? 1 : 0; break;
	default: break;
	}
}
#define EACH9(M) case K_SCA: M(Scalar) break; case K_VEC: M(Vector) break; case K_BIV: M(BiVector) break; case K_TRI: M(TriVector) break; case K_SPI: M(Spinor) break; case K_IMS: M(ImSpin) break; case K_CPX: M(ComPlex) break; case K_DPX: M(DirPlex) break; case K_MV: M(MultiVector) break;
#define EACHENC(M) case K_SCA: M(Scalar) break; case K_VEC: M(Vector) break; case K_BIV: M(BiVector) break; case K_TRI: M(TriVector) break; case K_SPI: M(Spinor) break; case K_IMS: M(ImSpin) break; case K_MV: M(MultiVector) break; case K_DBL: M(double) break;
bool lib_valid(Kind k, void const * v) { bool r = false;
#define M(T) r = g3::isValid(as<T>(v));
	switch (k) { EACH9(M) case K_DBL: M(double) break; default: r = true; }
#undef M
	return r; }
template <class T, class = void> struct HasEq : std::false_type {};
template <class T> struct HasEq<T, std::void_t<decltype(std::declval<T const &>() == std::declval<T const &>())>> : std::true_type {};
template <class T> static bool eq(T const & a, T const & b) { if constexpr (HasEq<T>::value) return a == b; else return g3::nearlyEquals(a, b); }
bool lib_equal(Kind k, void const * a, void const * b) { bool r = false;
#define M(T) r = eq(as<T>(a), as<T>(b));
	switch (k) { EACH9(M) case K_DBL: r = as<double>(a) == as<double>(b); break; default: break; }
#undef M
	return r; }
bool lib_nearly(Kind k, void const * a, void const * b) { bool r = false;
#define M(T) r = g3::nearlyEquals(as<T>(a), as<T>(b));
	switch (k) { EACH9(M) case K_DBL: M(double) break; default: break; }
#undef M
	return r; }
void lib_insert(std::ostream & os, Kind k, void const * v) {
#define M(T) os << as<T>(v);
	switch (k) { EACH9(M) default: break; }
#undef M
}
void lib_extract(std::istream & is, Kind k, void * v) {
#define M(T) is >> asm_<T>(v);
	switch (k) { EACH9(M) default: break; }
#undef M
}
bool lib_hasEncoder(Kind k) { return k == K_SCA || k == K_VEC || k == K_BIV || k == K_TRI || k == K_SPI || k == K_IMS || k == K_MV || k == K_DBL; }
void lib_fixed(Kind k, void const * v, int before, int after, std::string & out) {
#define M(T) if (before < 0) out = g3::io::fixed(as<T>(v)); else if (after < 0) out = g3::io::fixed(as<T>(v), (std::size_t)before); else out = g3::io::fixed(as<T>(v), (std::size_t)before, (std::size_t)after);
	switch (k) { EACHENC(M) default: break; }
#undef M
}
void lib_enote(Kind k, void const * v, int after, std::string & out) {
#define M(T) if (after < 0) out = g3::io::enote(as<T>(v)); else out = g3::io::enote(as<T>(v), (std::size_t)after);
	switch (k) { EACHENC(M) default: break; }
#undef M
}
char const lib_versionText[] = Engabra_Project_Version;
char const lib_identityText[] = Engabra_Source_Identity;
void lib_version(std::string & out) { out = engabra::projectVersion(); }
void lib_identity(std::string & out) { out = engabra::sourceIdentity(); }
