// Every operation called from an ordinary initialiser before main (when SIM_PREMAIN has an 'o').
#include "lib_ops.hpp"
#include <cstdlib>
#include <cstring>
#include <locale>
#include <sstream>
LibDigest lib_preDigest;
static uint64_t hash(uint64_t h, void const * p, size_t n) { for (size_t i = 0; i < n; ++i) h = (h ^ ((unsigned char const *)p)[i]) * 1099511628211ull; return h; }
void lib_digest(LibDigest & d) {
	static double const num[2][10] = {{.75, -.5, .25, 1.5, -1.25, .625, 2., -3.5, .125, 7.}, {1.e-3, 2.5, -.0625, .5, 3.25, -.875, 1.75, .3, -2., .9}};
	OpTable const t[] = {lib_ops_un(), lib_ops_fun(), lib_ops_cmp(), lib_ops_mul1(), lib_ops_mul2(), lib_ops_add(), lib_ops_sub(), lib_ops_const()};
	d.n = 0;
	for (auto const & x : t) for (size_t i = 0; i < x.n; ++i) {
		Op const & o = x.ops[i]; if (!o.fn || d.n >= LibDigest::MAX) continue;
		uint64_t h = 7;
		try {
			for (int s = 0; s < 2; ++s) {
				Obj a[3], r; void const * args[3] = {&a[0], &a[1], &a[2]}; memset(&r, 0, sizeof r);
				for (int k = 0; k < o.n; ++k) { double c[8]; for (int j = 0; j < 8; ++j) c[j] = num[s][(j + 3 * k) % 10]; lib_make(o.a[k], c, &a[k]); }
				o.fn(args, &r); double c[8] = {}; if (o.r == K_BOOL) c[0] = *(bool *)&r; else lib_comps(o.r, &r, c); h = hash(h, c, sizeof c);
			}
		} catch (...) { h = 1; }
		d.name[d.n] = o.name; d.kind[d.n] = o.a[0]; d.h[d.n++] = h;
	}
	for (int k = 0; k < NG3; ++k) for (int w = 0; w < 4; ++w) {
		if ((w == 1 || w == 2) && !lib_hasEncoder((Kind)k)) continue;
		if (d.n >= LibDigest::MAX) continue;
		static char const * const nm[] = {"insert", "fixed", "enote", "extract"}; uint64_t h = 7;
		try {
			Obj a; lib_make((Kind)k, num[0], &a); std::string s;
			if (w == 0) { std::ostringstream os; os.imbue(std::locale::classic()); lib_insert(os, (Kind)k, &a); s = os.str(); }
			else if (w == 1) lib_fixed((Kind)k, &a, 4, 9, s);
			else if (w == 2) lib_enote((Kind)k, &a, 12, s);
			else { std::istringstream is("1 2 3 4 5 6 7 8 9"); is.imbue(std::locale::classic()); lib_extract(is, (Kind)k, &a); double c[8] = {}; lib_comps((Kind)k, &a, c); s.assign((char *)c, sizeof c); }
			h = hash(h, s.data(), s.size());
		} catch (...) { h = 1; }
		d.name[d.n] = nm[w]; d.kind[d.n] = k; d.h[d.n++] = h;
	}
}
static struct Early { Early() { char const * e = getenv("SIM_PREMAIN"); if (e && strchr(e, 'o')) lib_digest(lib_preDigest); } } early;
