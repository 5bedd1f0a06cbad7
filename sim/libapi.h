// Interface between the harness and liblib.so (the real code).  No Engabra header is needed here.
#pragma once
#include <cstddef>
#include <cstdint>
#include <iosfwd>
#include <string>

enum Kind : uint8_t { K_SCA, K_VEC, K_BIV, K_TRI, K_SPI, K_IMS, K_CPX, K_DPX, K_MV, K_DBL, K_BOOL, K_NONE };
enum { NG3 = 9 };                                   // K_SCA..K_MV are the G3 types
extern char const * const kindNames[];
extern unsigned const kindDim[];                    // number of doubles
enum Group : uint8_t { G_UN, G_MAG, G_FUN, G_MUL, G_ADD, G_SUB, G_CMP, G_VAL, G_IDX, G_CONST };
struct Op { char const * name; Kind r; Kind a[3]; uint8_t n; Group g; void (*fn)(void const * const * args, void * res); };
// tables (entries with fn == nullptr do not exist in the library)
struct OpTable { Op const * ops; size_t n; };
OpTable lib_ops_un(); OpTable lib_ops_fun(); OpTable lib_ops_cmp(); OpTable lib_ops_mul1(); OpTable lib_ops_mul2(); OpTable lib_ops_add(); OpTable lib_ops_sub(); OpTable lib_ops_const();

struct alignas(16) Obj { unsigned char b[128]; };   // holds any value
void lib_make(Kind k, double const * c, void * out);        // construct from components
void lib_comps(Kind k, void const * v, double * c);         // read components
bool lib_valid(Kind k, void const * v);
bool lib_equal(Kind k, void const * a, void const * b);     // operator==
bool lib_nearly(Kind k, void const * a, void const * b);
void lib_insert(std::ostream & os, Kind k, void const * v);
void lib_extract(std::istream & is, Kind k, void * v);
bool lib_hasEncoder(Kind k);
// digits < 0: library default
void lib_fixed(Kind k, void const * v, int before, int after, std::string & out);
void lib_enote(Kind k, void const * v, int after, std::string & out);
void lib_version(std::string & out);
void lib_identity(std::string & out);
extern char const lib_versionText[]; extern char const lib_identityText[];   // what the build configured

// pre-main probe (filled by a constructor when SIM_PREMAIN is set)
struct PreMain { int ran; char version[256]; char identity[256]; double consts[256]; unsigned nconsts; int threw; };
extern PreMain lib_premain;
struct LibDigest { enum { MAX = 2048 }; unsigned n; char const * name[MAX]; int kind[MAX]; uint64_t h[MAX]; };
extern LibDigest lib_preDigest;                                              // made by an ordinary initialiser when SIM_PREMAIN has an 'o'
void lib_digest(LibDigest & d);                                              // every operation on fixed operands
unsigned lib_constants(double * out);        // all named constants as one list of doubles
