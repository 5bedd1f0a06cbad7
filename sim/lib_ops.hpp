// Typed operation tables, compiled from the real headers.
#pragma once
#include "libapi.h"
#include "Engabra"
#include <new>
#include <type_traits>
#include <utility>
namespace g3 = engabra::g3;
using g3::Scalar; using g3::Vector; using g3::BiVector; using g3::TriVector; using g3::Spinor; using g3::ImSpin; using g3::ComPlex; using g3::DirPlex; using g3::MultiVector;

template <class T> struct KindOf { static constexpr Kind k = K_NONE; };
template <> struct KindOf<Scalar> { static constexpr Kind k = K_SCA; };
template <> struct KindOf<Vector> { static constexpr Kind k = K_VEC; };
template <> struct KindOf<BiVector> { static constexpr Kind k = K_BIV; };
template <> struct KindOf<TriVector> { static constexpr Kind k = K_TRI; };
template <> struct KindOf<Spinor> { static constexpr Kind k = K_SPI; };
template <> struct KindOf<ImSpin> { static constexpr Kind k = K_IMS; };
template <> struct KindOf<ComPlex> { static constexpr Kind k = K_CPX; };
template <> struct KindOf<DirPlex> { static constexpr Kind k = K_DPX; };
template <> struct KindOf<MultiVector> { static constexpr Kind k = K_MV; };
template <> struct KindOf<double> { static constexpr Kind k = K_DBL; };
template <> struct KindOf<bool> { static constexpr Kind k = K_BOOL; };

template <class F, class A> void call1(void const * const * p, void * r) {
	using R = std::decay_t<decltype(F{}(std::declval<A const &>()))>;
	::new (r) R(F{}(*static_cast<A const *>(p[0])));
}
template <class F, class A, class B> void call2(void const * const * p, void * r) {
	using R = std::decay_t<decltype(F{}(std::declval<A const &>(), std::declval<B const &>()))>;
	::new (r) R(F{}(*static_cast<A const *>(p[0]), *static_cast<B const *>(p[1])));
}
template <class F, class A, class B, class C> void call3(void const * const * p, void * r) {
	using R = std::decay_t<decltype(F{}(std::declval<A const &>(), std::declval<B const &>(), std::declval<C const &>()))>;
	::new (r) R(F{}(*static_cast<A const *>(p[0]), *static_cast<B const *>(p[1]), *static_cast<C const *>(p[2])));
}
template <class F, class A> constexpr Op op1(char const * name, Group g) {
	if constexpr (std::is_invocable_v<F, A const &>) {
		using R = std::decay_t<std::invoke_result_t<F, A const &>>;
		if constexpr (KindOf<R>::k != K_NONE) return Op{name, KindOf<R>::k, {KindOf<A>::k, K_NONE, K_NONE}, 1, g, &call1<F, A>};
		else return Op{name, K_NONE, {KindOf<A>::k, K_NONE, K_NONE}, 1, g, nullptr};
	} else return Op{name, K_NONE, {KindOf<A>::k, K_NONE, K_NONE}, 1, g, nullptr};
}
template <class F, class A, class B> constexpr Op op2(char const * name, Group g) {
	if constexpr (std::is_same_v<A, double> && std::is_same_v<B, double> ) return Op{name, K_NONE, {K_DBL, K_DBL, K_NONE}, 2, g, nullptr};
	else if constexpr (std::is_invocable_v<F, A const &, B const &>) {
		using R = std::decay_t<std::invoke_result_t<F, A const &, B const &>>;
		if constexpr (KindOf<R>::k != K_NONE) return Op{name, KindOf<R>::k, {KindOf<A>::k, KindOf<B>::k, K_NONE}, 2, g, &call2<F, A, B>};
		else return Op{name, K_NONE, {KindOf<A>::k, KindOf<B>::k, K_NONE}, 2, g, nullptr};
	} else return Op{name, K_NONE, {KindOf<A>::k, KindOf<B>::k, K_NONE}, 2, g, nullptr};
}
template <class F, class A, class B> constexpr Op op2d(char const * name, Group g) { // also for double,double
	using R = std::decay_t<std::invoke_result_t<F, A const &, B const &>>;
	return Op{name, KindOf<R>::k, {KindOf<A>::k, KindOf<B>::k, K_NONE}, 2, g, &call2<F, A, B>};
}
template <class F, class A, class B, class C> constexpr Op op3(char const * name, Group g) {
	using R = std::decay_t<std::invoke_result_t<F, A const &, B const &, C const &>>;
	return Op{name, KindOf<R>::k, {KindOf<A>::k, KindOf<B>::k, KindOf<C>::k}, 3, g, &call3<F, A, B, C>};
}
#define ROW9(F, nm, g) op1<F, Scalar>(nm, g), op1<F, Vector>(nm, g), op1<F, BiVector>(nm, g), op1<F, TriVector>(nm, g), op1<F, Spinor>(nm, g), op1<F, ImSpin>(nm, g), op1<F, ComPlex>(nm, g), op1<F, DirPlex>(nm, g), op1<F, MultiVector>(nm, g)
#define ROW10(F, nm, g) ROW9(F, nm, g), op1<F, double>(nm, g)
#define BROW(F, A, nm, g) op2<F, A, Scalar>(nm, g), op2<F, A, Vector>(nm, g), op2<F, A, BiVector>(nm, g), op2<F, A, TriVector>(nm, g), op2<F, A, Spinor>(nm, g), op2<F, A, ImSpin>(nm, g), op2<F, A, ComPlex>(nm, g), op2<F, A, DirPlex>(nm, g), op2<F, A, MultiVector>(nm, g), op2<F, A, double>(nm, g)
#define SAME9(F, nm, g) op2<F, Scalar, Scalar>(nm, g), op2<F, Vector, Vector>(nm, g), op2<F, BiVector, BiVector>(nm, g), op2<F, TriVector, TriVector>(nm, g), op2<F, Spinor, Spinor>(nm, g), op2<F, ImSpin, ImSpin>(nm, g), op2<F, ComPlex, ComPlex>(nm, g), op2<F, DirPlex, DirPlex>(nm, g), op2<F, MultiVector, MultiVector>(nm, g)
#define SAME9T(F, nm, g) op3<F, Scalar, Scalar, double>(nm, g), op3<F, Vector, Vector, double>(nm, g), op3<F, BiVector, BiVector, double>(nm, g), op3<F, TriVector, TriVector, double>(nm, g), op3<F, Spinor, Spinor, double>(nm, g), op3<F, ImSpin, ImSpin, double>(nm, g), op3<F, ComPlex, ComPlex, double>(nm, g), op3<F, DirPlex, DirPlex, double>(nm, g), op3<F, MultiVector, MultiVector, double>(nm, g)
#define TABLE(fn, arr) OpTable fn() { return {arr, sizeof arr / sizeof *arr}; }
