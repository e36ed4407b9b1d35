// P33: pow and round (and the floating-point forms of abs, min and max). The power functions of the C library are replaced by arbitrary
// functions of the bits of their arguments that satisfy C's Annex F at 0 and 1: what is checked is which function is called, on what, and what is
// done with its result. Rounding is computed in IEEE arithmetic.
#include "psx.h"
#include <cstring>
#include <cmath>
template<class T> struct Bits { uint64_t lo; uint64_t hi; bool operator==(const Bits& o) const { return (lo == o.lo) & (hi == o.hi); } };
template<class T> static Bits<T> bits(T v) { Bits<T> b{0, 0}; if (sizeof(T) == 4) { uint32_t x; memcpy(&x, &v, 4); b.lo = x; } else { memcpy(&b.lo, &v, 8); if (sizeof(T) > 8) { uint16_t h; memcpy(&h, (char*)&v + 8, 2); b.hi = h; } } return b; }
template<class T> static T fsym(const char* n) {   // every value of the type (an x87 value is one the hardware produces: its leading bit follows from its exponent)
  T v; memset(&v, 0, sizeof v);
  if (sizeof(T) == 4) { uint32_t x = psx_u32(n); memcpy(&v, &x, 4); }
  else if (sizeof(T) == 8) { uint64_t x = psx_u64(n); memcpy(&v, &x, 8); }
  else { uint64_t m = psx_u64(n); uint16_t e = psx_u16(n); psx_assume((m >> 63) == (uint64_t)((e & 0x7fff) != 0)); memcpy(&v, &m, 8); memcpy((char*)&v + 8, &e, 2); }
  return v;
}
template<class T> static bool sameF(T a, T b) { return (bits(a) == bits(b)) | ((a != a) & (b != b)); }
template<class T> struct Fun { static const int M = 8; T a[M], b[M], r[M]; int op[M]; int n = 0;
  T at(int o, T x, T y) { for (int i = 0; i < n; i++) if (op[i] == o && sameF(a[i], x) && sameF(b[i], y)) return r[i];
    if (n == M) psx_error("values"); T v = fsym<T>("result"); if (o == 0) { if (y == 0 || x == 1) v = 1; } a[n] = x; b[n] = y; op[n] = o; r[n] = v; n++; return v; } };
static Fun<float> ff; static Fun<double> fd; static Fun<long double> fl;
extern "C" {
#define F2(name, o) float name##f(float x, float y) { return ff.at(o, x, y); } double name(double x, double y) { return fd.at(o, x, y); } long double name##l(long double x, long double y) { return fl.at(o, x, y); }
#define F1(name, o) float name##f(float x) { return ff.at(o, x, 0); } double name(double x) { return fd.at(o, x, 0); } long double name##l(long double x) { return fl.at(o, x, 0); }
long lround(double x) { return (long)__builtin_round(x); } long lroundf(float x) { return (long)__builtin_roundf(x); } long lroundl(long double x) { return (long)__builtin_roundl(x); } long long llround(double x) { return (long long)__builtin_round(x); } long long llroundf(float x) { return (long long)__builtin_roundf(x); } long long llroundl(long double x) { return (long long)__builtin_roundl(x); }
double modf(double x, double* p) { *p = __builtin_trunc(x); return __builtin_copysign(__builtin_isinf(x) ? 0 : x - *p, x); } float modff(float x, float* p) { *p = __builtin_truncf(x); return __builtin_copysignf(__builtin_isinf(x) ? 0 : x - *p, x); }
F2(pow, 0) F1(exp, 1) F1(log, 2) F1(exp2, 3) F1(log2, 4)
}
#include <pluto/value.hpp>
#include <type_traits>
#define H(x) extern "C" void x()
#define A(c, m) psx_assert((c), "P33: " m)
template<class T> static T any(const char* n) { if constexpr (std::is_floating_point<T>::value) return fsym<T>(n); else { T v; psx_symbolic(&v, sizeof v, n); return v; } }
template<> bool any<bool>(const char* n) { return psx_u8(n) & 1; }
template<class T> static T lib(T x, T y) { if constexpr (sizeof(T) == 4) return powf(x, y); else if constexpr (sizeof(T) == 8) return ::pow(x, y); else return powl(x, y); }
template<class T> static void obs(T v) { auto b = bits(v); psx_observe(v != v ? 1 : b.lo); psx_observe(v != v ? 1 : b.hi); }
template<class T> static void power(unsigned n) {
  using F = typename std::conditional<std::is_floating_point<T>::value, T, double>::type; static_assert(std::is_same<decltype(pluto::pow(T{}, T{})), F>::value, "type of the result");
  T x[4], y[4]; F r[4]; for (unsigned i = 0; i < n; i++) { x[i] = any<T>("value"); y[i] = any<T>("power"); } for (unsigned i = 0; i < n; i++) r[i] = pluto::pow(x[i], y[i]);
  for (unsigned i = 0; i < n; i++) { A(sameF(r[i], lib<F>((F)x[i], (F)y[i])), "pow is not the library's result for these arguments"); obs(r[i]); } psx_cover("checked");
}
template<class F> static F whole(F v) { F t = sizeof(F) == 4 ? (F)__builtin_truncf((float)v) : sizeof(F) == 8 ? (F)__builtin_trunc((double)v) : (F)__builtin_truncl((long double)v); F d = v - t; F a = v < 0 ? -d : d; return a >= (F)0.5 ? (v < 0 ? t - 1 : t + 1) : t; }   // to nearest, ties away from zero
template<class T> static void rounding() {
  using F = typename std::conditional<std::is_floating_point<T>::value, T, double>::type; static_assert(std::is_same<decltype(pluto::round(T{})), F>::value, "type of the result");
  T v = any<T>("value"); F r = pluto::round(v), f = (F)v; A(sameF(r, (F)std::round(f)), "round is not the library's result");
  if (f == f && f - f == 0) { A(r == whole(f), "round is not the nearest integer, ties away from zero"); A((bits(r).lo >> 63 & 1) == (bits(f).lo >> 63 & 1) || sizeof(F) != 8, "round loses the sign"); }
  obs(r); psx_cover("checked");
}
template<class T> static void order() {
  T a = any<T>("a"), b = any<T>("b"); psx_assume(a == a && b == b); A(&(pluto::min)(a, b) == (b < a ? &b : &a), "min"); A(&(pluto::max)(a, b) == (a < b ? &b : &a), "max"); T m = pluto::abs(a); A(m >= 0 && (m == a || m == -a), "abs"); T q = fsym<T>("any"); T c = pluto::copy(q); A(sameF(c, q), "copy"); obs(m); psx_cover("checked");
}
#define E(name, T) H(p33_pow_##name) { power<T>((unsigned)psx_param("N", 2)); } H(p33_round_##name) { rounding<T>(); }
E(float, float) E(double, double) E(ldouble, long double) E(int, int) E(uint, unsigned) E(long, long) E(ulong, unsigned long) E(short, short) E(ushort, unsigned short) E(schar, signed char) E(uchar, unsigned char) E(char, char) E(bool, bool) E(char32, char32_t)
H(p33_order_float) { order<float>(); } H(p33_order_double) { order<double>(); } H(p33_order_ldouble) { order<long double>(); }
