// P16: comparison and overlap laws of pluto::range.
#include "hx.h"
#include <pluto/range.hpp>
struct Wide { int64_t hi; uint8_t lo; };   // a user type with only the comparison operators a range needs
static bool operator<(const Wide& a, const Wide& b) { return (a.hi < b.hi) | ((a.hi == b.hi) & (a.lo < b.lo)); } static bool operator==(const Wide& a, const Wide& b) { return (a.hi == b.hi) & (a.lo == b.lo); }
static bool operator!=(const Wide& a, const Wide& b) { return !(a == b); } static bool operator<=(const Wide& a, const Wide& b) { return !(b < a); } static bool operator>(const Wide& a, const Wide& b) { return b < a; } static bool operator>=(const Wide& a, const Wide& b) { return !(a < b); }
template<class T> static T any() { return sym<T>("end"); }
static char pool[64];
template<> void* any<void*>() { return pool + psx_range(0, 63, "end"); }
template<> Wide any<Wide>() { Wide w; w.hi = sym<int64_t>("hi"); w.lo = psx_u8("lo"); return w; }
#define A(c, m) psx_assert((c), "P16 range: " m)
template<class T> static pluto::range<T> anyRange() { T b = any<T>(), e = any<T>(); psx_assume(b <= e); return pluto::range<T>(b, e); }
template<class T> static T later(T a, T b) { return a < b ? b : a; } template<class T> static T sooner(T a, T b) { return b < a ? b : a; }
template<class T> static void laws() {
  auto a = anyRange<T>(), b = anyRange<T>(); psx_observe(a == b); psx_observe(a < b); psx_observe(a.is_overlapping(b)); psx_observe(a.is_less_no_overlap(b));
  bool eq = a.begin == b.begin && a.end == b.end, lt = a.begin < b.begin || (a.begin == b.begin && a.end < b.end), gt = b.begin < a.begin || (a.begin == b.begin && b.end < a.end);
  A((a == b) == eq && a.is_equal(b) == eq, "equality is not equality of both ends"); A((a != b) == !eq, "!= is not the negation of ==");
  A((a < b) == lt && a.is_less(b) == lt, "< is not (begin, end) order"); A((a > b) == gt, "> is not the converse of <"); A((a <= b) == (lt || eq), "<= is not < or =="); A((a >= b) == (gt || eq), ">= is not > or ==");
  bool ov = a.is_overlapping(b); A(ov == b.is_overlapping(a), "overlap is not symmetric"); if (a.begin == b.begin) A(ov, "ranges with one begin do not overlap");
  if (a.begin < a.end && b.begin < b.end) {
    psx_cover("non-empty"); bool share = later(a.begin, b.begin) < sooner(a.end, b.end); A(ov == share, "overlap is not sharing an element");
    bool ab = a.is_less_no_overlap(b), ba = b.is_less_no_overlap(a); A(ab == (a.end <= b.begin), "a before b is not a lying entirely before b"); A((int)ab + (int)ba + (int)ov == 1, "not exactly one of before, after, overlap");
  }
  psx_cover("checked");
}
template<class T> static void trans() { auto a = anyRange<T>(), b = anyRange<T>(), c = anyRange<T>(); if (a < b && b < c) { psx_cover("chain"); A(a < c, "< is not transitive"); } if (a == b && b == c) A(a == c, "== is not transitive"); psx_cover("checked"); }
template<class T> static void size() { T b = any<T>(), e = any<T>(); psx_assume(b <= e); auto d = (__int128)e - (__int128)b; psx_assume(d <= (__int128)((T(-1) < T(0)) ? (uint64_t)(((unsigned __int128)1 << (sizeof(T) * 8 - 1)) - 1) : ~0ull)); pluto::range<T> r(b, e); psx_observe((uint64_t)r.size()); A((__int128)r.size() == d, "size is not end - begin"); psx_cover("checked"); }
#define RG(N, T) H(p16_laws_##N) { laws<T>(); } H(p16_trans_##N) { trans<T>(); } H(p16_size_##N) { size<T>(); }
RG(int, int) RG(uint, unsigned) RG(long, long) RG(ulong, unsigned long) RG(llong, long long) RG(ullong, unsigned long long) RG(schar, signed char) RG(ushort, unsigned short)
H(p16_laws_ptr) { laws<void*>(); } H(p16_laws_user) { laws<Wide>(); } H(p16_trans_user) { trans<Wide>(); }
