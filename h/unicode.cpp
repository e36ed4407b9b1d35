// P01, P02, P03: the six converters and the str family.
#include "hx.h"
#if __SIZEOF_WCHAR_T__ == 2
#include "../rt/rt_wchar.c"
#endif
#ifdef HX_STRINGS
#include <pluto/string.hpp>
#endif
#include <pluto/unicode.hpp>
typedef uint32_t u32; typedef uint8_t u8; typedef uint16_t u16;
// ---- independent reference: encoders and a decoder per Unicode table 3-7
static void enc8(u32 c, Seq<u8>& o) { if (c <= 0x7F) o.add(c); else if (c <= 0x7FF) { o.add(192 + c / 64); o.add(128 + c % 64); } else if (c <= 0xFFFF) { o.add(224 + c / 4096); o.add(128 + c / 64 % 64); o.add(128 + c % 64); } else { o.add(240 + c / 262144); o.add(128 + c / 4096 % 64); o.add(128 + c / 64 % 64); o.add(128 + c % 64); } }
static void enc16(u32 c, Seq<u16>& o) { if (c <= 0xFFFF) o.add(c); else { o.add(0xD800 + (c - 0x10000) / 1024); o.add(0xDC00 + (c - 0x10000) % 1024); } }
static void enc32(u32 c, Seq<u32>& o) { o.add(c); }
static bool scalar(u32 c) { return c <= 0xD7FF || (c >= 0xE000 && c <= 0x10FFFF); }
static bool in(u32 x, u32 lo, u32 hi) { return (x >= lo) & (x <= hi); }
// length of the well-formed sequence starting at p (0 if none), per table 3-7
static size_t wf8(const u8* p, size_t n, u32& c) {
  u32 a = p[0]; if (a <= 0x7F) { c = a; return 1; }
  if (a >= 0xC2 && a <= 0xDF) { if (n >= 2 && in(p[1], 0x80, 0xBF)) { c = (a - 0xC0) * 64 + (p[1] - 0x80); return 2; } return 0; }
  if (a >= 0xE0 && a <= 0xEF) { if (n < 3) return 0; u32 lo = a == 0xE0 ? 0xA0 : 0x80, hi = a == 0xED ? 0x9F : 0xBF; if (in(p[1], lo, hi) & in(p[2], 0x80, 0xBF)) { c = (a - 0xE0) * 4096 + (p[1] - 0x80) * 64 + (p[2] - 0x80); return 3; } return 0; }
  if (a >= 0xF0 && a <= 0xF4) { if (n < 4) return 0; u32 lo = a == 0xF0 ? 0x90 : 0x80, hi = a == 0xF4 ? 0x8F : 0xBF; if (in(p[1], lo, hi) & in(p[2], 0x80, 0xBF) & in(p[3], 0x80, 0xBF)) { c = (a - 0xF0) * 262144 + (p[1] - 0x80) * 4096 + (p[2] - 0x80) * 64 + (p[3] - 0x80); return 4; } return 0; }
  return 0;
}
static size_t wf16(const u16* p, size_t n, u32& c) { u32 a = p[0]; if (!in(a, 0xD800, 0xDFFF)) { c = a; return 1; } if (a <= 0xDBFF && n >= 2 && in(p[1], 0xDC00, 0xDFFF)) { c = 0x10000 + (a - 0xD800) * 1024 + (p[1] - 0xDC00); return 2; } return 0; }
static size_t wf32(const u32* p, size_t, u32& c) { c = p[0]; return scalar(c) ? 1 : 0; }
template<class U> struct Form; template<> struct Form<u8> { static void enc(u32 c, Seq<u8>& o) { enc8(c, o); } static size_t wf(const u8* p, size_t n, u32& c) { return wf8(p, n, c); } };
template<> struct Form<u16> { static void enc(u32 c, Seq<u16>& o) { enc16(c, o); } static size_t wf(const u16* p, size_t n, u32& c) { return wf16(p, n, c); } };
template<> struct Form<u32> { static void enc(u32 c, Seq<u32>& o) { enc32(c, o); } static size_t wf(const u32* p, size_t n, u32& c) { return wf32(p, n, c); } };
template<class U, class V> static void refConv(const Seq<U>& s, Seq<V>& o) { for (size_t i = 0; i < s.n;) { u32 c = 0; size_t k = Form<U>::wf(s.v + i, s.n - i, c); if (k) { Form<V>::enc(c, o); i += k; } else { psx_cover("ill-formed unit"); Form<V>::enc(0xFFFD, o); i++; } } }
template<class S, class V> static bool sameU(const S& got, const Seq<V>& want) { if (got.size() != want.n) return false; bool ok = true; for (size_t i = 0; i < want.n; i++) ok &= ((V)got[i] == want.v[i]); return ok; }

// Run the real conversion with source character type CU (same size as U) into target CV; both call forms.
template<class CU, class CV, class U, class V, class F, class G> static void check(const Seq<U>& src, const Seq<V>& want, const char* what, F conv, G convS) {
  Exact<CU> e(src.n); for (size_t i = 0; i < src.n; i++) e[i] = (CU)src.v[i];
  std::basic_string<CV> out = conv(e.p, src.n);
  psx_observe(out.size()); for (auto x : out) psx_observe((V)x);
  psx_assert(sameU(out, want), what);
  std::basic_string<CU> in2(e.p, src.n); std::basic_string<CV> out2 = convS(in2);
  psx_assert(sameU(out2, want), what); psx_cover("checked");
}
// source text: pre ASCII units, K symbolic parts, post ASCII units
template<class U> static void ascii(Seq<U>& s, int n, int base) { for (int i = 0; i < n; i++) s.add((U)(base + i % 26)); }
template<class U, class V> static void wellFormed(Seq<U>& src, Seq<V>& want) {
  int K = psx_param("K", 2), pre = psx_param("pre", 0), post = psx_param("post", 0);
  ascii(src, pre, 'A'); ascii(want, pre, 'A');
  for (int i = 0; i < K; i++) { u32 c = psx_u32("cp"); psx_assume(scalar(c)); Form<U>::enc(c, src); Form<V>::enc(c, want); }
  ascii(src, post, 'a'); ascii(want, post, 'a'); psx_cover("well-formed text built");
}
template<class U, class V> static void anyUnits(Seq<U>& src, Seq<V>& want) {
  int K = psx_param("K", 3), pre = psx_param("pre", 0), post = psx_param("post", 0);
  ascii(src, pre, 'A'); for (int i = 0; i < K; i++) src.add(sym<U>("unit")); ascii(src, post, 'a'); refConv(src, want); psx_cover("units built");
}
// Append form: the converters append to the string they are given.
#define CONV(NAME, U, V, CU, CV, FN) \
  struct F_##NAME { std::basic_string<CV> operator()(const CU* p, size_t n) const { std::basic_string<CV> r; FN(p, n, r); return r; } }; \
  struct G_##NAME { std::basic_string<CV> operator()(const std::basic_string<CU>& s) const { std::basic_string<CV> r; FN(s, r); return r; } }; \
  H(p01_##NAME) { Seq<U> s; Seq<V> w; wellFormed(s, w); check<CU, CV>(s, w, "P01 " #FN ": wrong encoding of well-formed text", F_##NAME(), G_##NAME()); } \
  H(p02_##NAME) { Seq<U> s; Seq<V> w; anyUnits(s, w); check<CU, CV>(s, w, "P02 " #FN ": output is not the unit-by-unit replacement decoding", F_##NAME(), G_##NAME()); }
CONV(8to16, u8, u16, char, char16_t, pluto::utf8_to_utf16)
CONV(8to32, u8, u32, char, char32_t, pluto::utf8_to_utf32)
CONV(16to8, u16, u8, char16_t, char, pluto::utf16_to_utf8)
CONV(16to32, u16, u32, char16_t, char32_t, pluto::utf16_to_utf32)
CONV(32to8, u32, u8, char32_t, char, pluto::utf32_to_utf8)
CONV(32to16, u32, u16, char32_t, char16_t, pluto::utf32_to_utf16)
#if __cplusplus >= 202002L
CONV(c8to16, u8, u16, char8_t, char16_t, pluto::utf8_to_utf16)
CONV(c8to32, u8, u32, char8_t, char32_t, pluto::utf8_to_utf32)
CONV(16toc8, u16, u8, char16_t, char8_t, pluto::utf16_to_utf8)
CONV(32toc8, u32, u8, char32_t, char8_t, pluto::utf32_to_utf8)
#endif
#if __SIZEOF_WCHAR_T__ == 4
typedef u32 W; 
CONV(8tow, u8, u32, char, wchar_t, pluto::utf8_to_utf32)
CONV(wto8, u32, u8, wchar_t, char, pluto::utf32_to_utf8)
CONV(16tow, u16, u32, char16_t, wchar_t, pluto::utf16_to_utf32)
CONV(wto16, u32, u16, wchar_t, char16_t, pluto::utf32_to_utf16)
#else
typedef u16 W;
CONV(8tow, u8, u16, char, wchar_t, pluto::utf8_to_utf16)
CONV(wto8, u16, u8, wchar_t, char, pluto::utf16_to_utf8)
CONV(32tow, u32, u16, char32_t, wchar_t, pluto::utf32_to_utf16)
CONV(wto32, u16, u32, wchar_t, char32_t, pluto::utf16_to_utf32)
#endif
// ---- P03: the str family. Oracle: the reference decoder, or a verbatim copy for the same encoding.
template<class U, class V> struct Want { static void of(const Seq<U>& s, Seq<V>& w) { refConv(s, w); } };
template<class U> struct Want<U, U> { static void of(const Seq<U>& s, Seq<U>& w) { for (size_t i = 0; i < s.n; i++) w.add(s.v[i]); } };
#define STRF(NAME, U, V, CU, CV, FN) \
  struct FS_##NAME { std::basic_string<CV> operator()(const CU* p, size_t n) const { return FN(p, n); } }; \
  struct GS_##NAME { std::basic_string<CV> operator()(const std::basic_string<CU>& s) const { return FN(s); } }; \
  H(p03_##NAME) { Seq<U> s; Seq<V> w; int K = psx_param("K", 2), pre = psx_param("pre", 0), post = psx_param("post", 0); ascii(s, pre, 'A'); for (int i = 0; i < K; i++) s.add(sym<U>("unit")); ascii(s, post, 'a'); Want<U, V>::of(s, w); psx_cover("units built"); check<CU, CV>(s, w, "P03 " #NAME ": result differs from the converter's", FS_##NAME(), GS_##NAME()); }
STRF(str_w, W, u8, wchar_t, char, pluto::str)
#ifdef HX_STRINGS   // the same-encoding forms are part of string.hpp
STRF(str_c, u8, u8, char, char, pluto::str)
STRF(wstr_w, W, W, wchar_t, wchar_t, pluto::wstr)
STRF(u16str_16, u16, u16, char16_t, char16_t, pluto::u16str)
STRF(u32str_32, u32, u32, char32_t, char32_t, pluto::u32str)
#if __cplusplus >= 202002L
STRF(u8str_8, u8, u8, char8_t, char8_t, pluto::u8str)
#endif
#endif
STRF(str_16, u16, u8, char16_t, char, pluto::str)
STRF(str_32, u32, u8, char32_t, char, pluto::str)
STRF(wstr_c, u8, W, char, wchar_t, pluto::wstr)
STRF(wstr_16, u16, W, char16_t, wchar_t, pluto::wstr)
STRF(wstr_32, u32, W, char32_t, wchar_t, pluto::wstr)
STRF(u16str_c, u8, u16, char, char16_t, pluto::u16str)
STRF(u16str_w, W, u16, wchar_t, char16_t, pluto::u16str)
STRF(u16str_32, u32, u16, char32_t, char16_t, pluto::u16str)
STRF(u32str_c, u8, u32, char, char32_t, pluto::u32str)
STRF(u32str_w, W, u32, wchar_t, char32_t, pluto::u32str)
STRF(u32str_16, u16, u32, char16_t, char32_t, pluto::u32str)
#if __cplusplus >= 202002L
STRF(str_8, u8, u8, char8_t, char, pluto::str)
STRF(wstr_8, u8, W, char8_t, wchar_t, pluto::wstr)
STRF(u8str_c, u8, u8, char, char8_t, pluto::u8str)
STRF(u8str_w, W, u8, wchar_t, char8_t, pluto::u8str)
STRF(u8str_16, u16, u8, char16_t, char8_t, pluto::u8str)
STRF(u8str_32, u32, u8, char32_t, char8_t, pluto::u8str)
STRF(u16str_8, u8, u16, char8_t, char16_t, pluto::u16str)
STRF(u32str_8, u8, u32, char8_t, char32_t, pluto::u32str)
#endif
