// P31: str/wstr of a value and str_to/wstr_to of a text, through the real stream templates. P32: time conversion. 
#include "hx.h"
#include <pluto/string.hpp>
#include <limits>
#define A(c, m) psx_assert((c), "P31 str: " m)
template<class C> using S = std::basic_string<C>;
template<class T> static std::string show(const T& v, char) { return pluto::str(v); } template<class T> static std::wstring show(const T& v, wchar_t) { return pluto::wstr(v); }
template<class T> static T read(const std::string& s) { if (!psx_param("array", 0)) return pluto::str_to<T>(s); Exact<char> e(s.size()); for (size_t i = 0; i < s.size(); i++) e[i] = s[i]; return pluto::str_to<T>((const char*)e.p, s.size()); } template<class T> static T read(const std::wstring& s) { if (!psx_param("array", 0)) return pluto::wstr_to<T>(s); Exact<wchar_t> e(s.size()); for (size_t i = 0; i < s.size(); i++) e[i] = s[i]; return pluto::wstr_to<T>((const wchar_t*)e.p, s.size()); }
// A value given by its decimal digits: every value of T has exactly one such form, so "every choice of digits" is "every value".
struct Dec { bool neg; unsigned n; uint64_t d[20]; };
template<class T> static T number(Dec& k) {
  typedef std::numeric_limits<T> L; k.neg = L::is_signed && psx_pick(2, "negative"); uint64_t top = k.neg ? 0 - (uint64_t)(L::min)() : (uint64_t)(L::max)(); unsigned m[20], N = 0; for (uint64_t t = top; t; t /= 10) m[N++] = (unsigned)(t % 10);   // m[N - 1] is the leading digit of the bound
  k.n = (unsigned)psx_param("digits", 0); if (!k.n) k.n = 1 + (unsigned)psx_pick(N, "digits"); auto free = [](unsigned from, unsigned count) { return from + (uint64_t)(psx_u8("digit") % count); };
  unsigned i = 0;   // digits from the leading one on; as long as they equal those of the bound the next one may not exceed it
  if (k.n < N) { k.d[i++] = k.n == 1 ? free(k.neg ? 1 : 0, k.neg ? 9 : 10) : free(1, 9); }
  else { unsigned same = (unsigned)psx_pick(N + 1, "digits shared with the bound"); for (; i < same; i++) k.d[i] = m[N - 1 - i]; if (i < N) { unsigned lo = i == 0 ? 1 : 0, hi = m[N - 1 - i]; psx_assume(hi > lo); k.d[i++] = free(lo, hi - lo); } }
  for (; i < k.n; i++) k.d[i] = free(0, 10);
  uint64_t v = 0; for (i = 0; i < k.n; i++) v = v * 10 + k.d[i]; return (T)(k.neg ? 0 - v : v);
}
template<class C> static S<C> text(const Dec& k) { S<C> s; if (k.neg) s += C('-'); for (unsigned i = 0; i < k.n; i++) s += (C)(C('0') + (C)k.d[i]); return s; }
template<class C> static void eq(const S<C>& s, const S<C>& w) { obsAny(s); A(s.size() == w.size(), "the text has another length"); bool ok = true; for (size_t i = 0; i < s.size() && i < w.size(); i++) ok &= s[i] == w[i]; A(ok, "the text is not the decimal one"); }
template<class T, class C> static void out() { Dec k; T v = number<T>(k); eq<C>(show(v, C()), text<C>(k)); psx_cover("checked"); }
template<class T, class C> static void in() { Dec k; T v = number<T>(k); S<C> s = text<C>(k); T r = read<T>(s); psx_observe((uint64_t)r); A(r == v, "the value read is not the one written"); psx_cover("checked"); }
template<class T, class C> static void trip() { Dec k; T v = number<T>(k); T r = read<T>(show(v, C())); psx_observe((uint64_t)r); A(r == v, "reading the text back gives another value"); psx_cover("checked"); }
// Any text: blanks, a sign, decimal digits up to the first other character; a value out of range gives the nearest limit; no number gives T().
template<class T, class C> static void any() {
  typedef std::numeric_limits<T> L; size_t n = (size_t)psx_param("n", 4); S<C> s; const char* f = "0123456789"; unsigned long fill = (unsigned long)psx_param("fill", 0);   // fill: concrete digits after the first symbolic elements
  for (size_t i = 0; i < n; i++) s += sym<C>("c"); for (size_t i = 0; i < fill; i++) s += (C)f[(i * 7 + 9) % 10]; for (size_t i = 0, e = (size_t)psx_param("tail", 0); i < e; i++) s += sym<C>("c");
  size_t i = 0; while (i < s.size() && (s[i] == C(' ') || (s[i] >= C('\t') && s[i] <= C('\r')))) i++; bool neg = false; if (i < s.size() && (s[i] == C('-') || s[i] == C('+'))) neg = s[i++] == C('-');
  unsigned __int128 v = 0; bool digits = false; for (; i < s.size() && s[i] >= C('0') && s[i] <= C('9'); i++) { digits = true; v = v * 10 + (unsigned)(s[i] - C('0')); }
  T want; unsigned __int128 lim = neg && L::is_signed ? (unsigned __int128)(0 - (uint64_t)(L::min)()) : (unsigned __int128)(uint64_t)(L::max)(); if (!digits) want = T(); else if (v > lim) want = neg && L::is_signed ? (L::min)() : (L::max)(); else want = (T)(neg ? 0 - (uint64_t)v : (uint64_t)v);
  T r = read<T>(s); psx_observe((uint64_t)r); A(r == want, "the value is not the one the text starts with"); psx_cover("checked"); if (!digits) psx_cover("no number");
}
// bool, characters, words, a user's type; and the array form of str/wstr.
template<class C> static bool blank(C c) { return c == C(' ') || (c >= C('\t') && c <= C('\r')); }
template<class C> static void other() {
  S<C> src; size_t n = (size_t)psx_param("n", 3); for (size_t i = 0; i < n; i++) { src += sym<C>("c"); if (sizeof(C) > 1) psx_assume(src[i] != (C)-1); }   // WEOF is not a character
  switch (psx_param("what", 0)) {
  case 0: { bool b = psx_u8("bool") & 1; S<C> s = show(b, C()); A(s.size() == 1 && s[0] == (b ? C('1') : C('0')), "a bool's text is not 0 or 1"); A(read<bool>(s) == b, "a bool does not come back"); break; }
  case 1: { C c = sym<C>("character"); if (sizeof(C) > 1) psx_assume(c != (C)-1); S<C> s = show(c, C()); A(s.size() == 1 && s[0] == c, "a character's text is not itself"); if (!blank(c)) A(read<C>(s) == c, "a character does not come back"); break; }
  case 2: { size_t i = 0; while (i < n && blank(src[i])) i++; size_t e = i; while (e < n && !blank(src[e])) e++; S<C> w = read<S<C>>(src); obsAny(w); A(w.size() == e - i, "the word has another length"); bool ok = true; psx_cover("word"); for (size_t k = 0; k < w.size() && k < e - i; k++) ok &= w[k] == src[i + k]; A(ok, "the word is another one"); break; }
  case 3: { eq<C>(show(src, C()), src); break; }
  default: { size_t k = psx_pick(n + 1, "part"); Exact<C> e(k); for (size_t i = 0; i < k; i++) e[i] = src[i]; S<C> s = sizeof(C) == 1 ? S<C>((const C*)pluto::str((const char*)e.p, sizeof(C) == 1 ? k : 0).data(), sizeof(C) == 1 ? k : 0) : S<C>((const C*)pluto::wstr((const wchar_t*)e.p, sizeof(C) == 1 ? 0 : k).data(), sizeof(C) == 1 ? 0 : k); eq<C>(s, src.substr(0, k)); }
  }
  psx_cover("checked");
}
H(p31_other) { if (psx_param("wide", 0)) other<wchar_t>(); else other<char>(); }
struct Pair { int a, b; template<class C> friend std::basic_ostream<C>& operator<<(std::basic_ostream<C>& o, const Pair& p) { return o << p.a << C(' ') << p.b; } template<class C> friend std::basic_istream<C>& operator>>(std::basic_istream<C>& i, Pair& p) { return i >> p.a >> p.b; } };
template<class C> static void user() { int a = (int)psx_u8("a") % 100, b = -(int)(psx_u8("b") % 100); S<C> s = show(Pair{a, b}, C()); obsAny(s); Pair p = read<Pair>(s); A(p.a == a && p.b == b, "a user's type does not come back"); psx_cover("checked"); }
H(p31_user) { if (psx_param("wide", 0)) user<wchar_t>(); else user<char>(); }
// A conversion depends on its own value or text alone, whatever the conversions before it did to their streams.
struct Flags { unsigned f; template<class C> friend std::basic_ostream<C>& operator<<(std::basic_ostream<C>& o, const Flags& x) { if (x.f & 1) o << std::hex; if (x.f & 2) o << std::showpos; if (x.f & 4) o << std::boolalpha; if (x.f & 8) o.fill(C('*')); if (x.f & 16) o.setstate(std::ios::failbit); o << (int)100; if (x.f & 32) o.width(7); return o; } template<class C> friend std::basic_istream<C>& operator>>(std::basic_istream<C>& i, Flags& x) { int v = 0; i >> v; i >> std::noskipws; i >> std::hex; if (v > 4) i.setstate(std::ios::failbit); x.f = (unsigned)v; return i; } };
template<class C> static void history() {
  unsigned n = (unsigned)psx_param("N", 2); for (unsigned k = 0; k < n; k++) switch (psx_pick(4, "before")) { case 0: (void)show(Flags{(unsigned)psx_u8("flags") & 63u}, C()); break; case 1: { S<C> t; t += C('0' + psx_u8("digit") % 10); if (psx_pick(2, "more")) t += C(' '); (void)read<Flags>(t); break; } case 2: (void)read<int>(S<C>(1, C('x'))); break; default: (void)read<S<C>>(S<C>(2, C('y'))); }
  uint64_t a = psx_u8("tens") % 9 + 1, b = psx_u8("units") % 10; S<C> t; t += (C)(C('0') + (C)a); t += (C)(C('0') + (C)b); int v = (int)(a * 10 + b); eq<C>(show(v, C()), t); bool f = psx_u8("bool") & 1; S<C> u = show(f, C()); A(u.size() == 1 && u[0] == (f ? C('1') : C('0')), "a bool's text is not 0 or 1"); t.insert(t.begin(), C(' ')); A(read<int>(t) == v, "the value read is not the one written");
  Flags x{(unsigned)psx_u8("flags") & 15u}, y{0}, z{0}; std::basic_ostringstream<C> o; o << x; eq<C>(show(x, C()), o.str()); S<C> d(1, (C)(C('0') + (C)b)); d += C('5'); std::basic_istringstream<C>{d} >> y; z = read<Flags>(d); A(y.f == z.f, "a user's type is not read as from a fresh stream"); psx_cover("checked");
}
H(p31_history) { if (psx_param("wide", 0)) history<wchar_t>(); else history<char>(); }
#define E(n, T) H(p31_any_##n) { if (psx_param("wide", 0)) any<T, wchar_t>(); else any<T, char>(); } H(p31_out_##n) { if (psx_param("wide", 0)) out<T, wchar_t>(); else out<T, char>(); } H(p31_in_##n) { if (psx_param("wide", 0)) in<T, wchar_t>(); else in<T, char>(); } H(p31_trip_##n) { if (psx_param("wide", 0)) trip<T, wchar_t>(); else trip<T, char>(); }
E(short, short) E(ushort, unsigned short) E(int, int) E(uint, unsigned) E(long, long) E(ulong, unsigned long) E(llong, long long) E(ullong, unsigned long long)

