// P05-P10 and the string overloads of P11/P12: string.hpp on texts with symbolic elements and locales with symbolic classification.
#include "loc.h"
#include <list>
#include <deque>
#include <array>
#include <pluto/string.hpp>
template<class E> using S = std::basic_string<E>;
// ---- texts: a window of symbolic elements inside runs of filler (for long, heap-allocated strings)
template<class E> static S<E> window(const char* tag, unsigned n, unsigned pre, unsigned post) { S<E> s; s.append(pre, (E)'x'); for (unsigned i = 0; i < n; i++) s.push_back(sym<E>(tag)); s.append(post, (E)'x'); return s; }
template<class E> static S<E> text() { return window<E>("elem", psx_param("n", 3), psx_param("pre", 0), psx_param("post", 0)); }
template<class E> static void declareAll(Chain<E>& c, const S<E>& s) { unsigned pre = psx_param("pre", 0), n = psx_param("n", 3); for (unsigned i = 0; i < n; i++) c.declare(s[pre + i], ""); }
template<class E> static bool part(const S<E>& got, const S<E>& of, size_t from, size_t len) { if (got.size() != len) return false; bool ok = true; for (size_t i = 0; i < len; i++) ok &= got[i] == of[from + i]; return ok; }
template<class E> static bool eq(const S<E>& a, const S<E>& b) { return part(a, b, 0, b.size()); }
template<class E> static bool eqSeq(const S<E>& a, const Seq<E>& b) { if (a.size() != b.n) return false; bool ok = true; for (size_t i = 0; i < b.n; i++) ok &= a[i] == b.v[i]; return ok; }
template<class E> static bool matchAt(const S<E>& s, size_t at, const S<E>& w) { if (at + w.size() > s.size()) return false; bool ok = true; for (size_t i = 0; i < w.size(); i++) ok &= s[at + i] == w[i]; return ok; }
template<class E> static bool in(E c, const S<E>& set) { bool r = false; for (size_t i = 0; i < set.size(); i++) r |= set[i] == c; return r; }
struct Pieces { unsigned n = 0; size_t from[40], len[40]; void add(size_t f, size_t l) { if (n >= 40) psx_error("Pieces full"); from[n] = f; len[n++] = l; } };
template<class E> static void pieces(const std::vector<S<E>>& got, const S<E>& of, const Pieces& w, const char* many, const char* what) { psx_observe(got.size()); psx_assert(got.size() == w.n, many); bool ok = true; for (unsigned i = 0; i < w.n; i++) { obsAny(got[i]); ok &= part(got[i], of, w.from[i], w.len[i]); } psx_assert(ok, what); }
// ---------------------------------------------------------------- P05
template<class E> static void p05split() {
  S<E> s = text<E>(), o = s, sep = window<E>("sep", psx_param("m", 1), 0, psx_param("mpost", 0)); Pieces w;
  std::vector<S<E>> got = pluto::split(s, sep);
  psx_assert(eq(s, o), "P05 split: changed its argument");
  if (sep.empty()) for (size_t i = 0; i < o.size(); i++) w.add(i, 1);
  else { size_t start = 0, i = 0; while (i + sep.size() <= o.size()) if (matchAt(o, i, sep)) { w.add(start, i - start); i += sep.size(); start = i; } else i++; w.add(start, o.size() - start); }
  pieces(got, o, w, "P05 split: wrong number of pieces", "P05 split: a piece has the wrong content");
  S<E> back = pluto::join(got, sep); if (!sep.empty()) psx_assert(eq(back, o), "P05 join(split(s, sep), sep) is not s");
  psx_cover("checked");
}
H(p05_split_c) { p05split<char>(); }
H(p05_split_w) { p05split<wchar_t>(); }
H(p05_split_16) { p05split<char16_t>(); }
H(p05_split_32) { p05split<char32_t>(); }
#if __cplusplus >= 202002L
H(p05_split_8) { p05split<char8_t>(); }
#endif
// join/map_join: an arbitrary number of pieces of arbitrary lengths
template<class E, class C> static void p05join() {
  unsigned k = psx_param("k", 2), m = psx_param("m", 1); std::vector<S<E>> p; Seq<E> w; S<E> sep = window<E>("sep", m, 0, psx_param("mpost", 0));
  for (unsigned i = 0; i < k; i++) { unsigned l = psx_pick(3, "length"); p.push_back(window<E>("elem", l, i == 0 ? psx_param("pre", 0) : 0, 0)); }
  for (unsigned i = 0; i < k; i++) { if (i) for (E e : sep) w.add(e); for (E e : p[i]) w.add(e); }
  C c(p.begin(), p.end()); S<E> sep0 = sep;
  S<E> a = pluto::join(c, sep), b = pluto::join(c.begin(), c.end(), sep), d = pluto::join(p.data(), p.data() + p.size(), sep);
  obsAny(a); psx_assert(eqSeq(a, w), "P05 join (container): wrong text"); psx_assert(eqSeq(b, w), "P05 join (iterators): wrong text"); psx_assert(eqSeq(d, w), "P05 join (pointers): wrong text"); psx_assert(eq(sep, sep0), "P05 join: changed its argument");
  bool same = c.size() == p.size(); auto it = c.begin(); for (unsigned i = 0; i < k; i++, ++it) same &= eq(*it, p[i]); psx_assert(same, "P05 join: changed its argument"); psx_cover("checked");
}
template<class E> struct Fn { unsigned* calls; unsigned k; const unsigned* len; const E (*val)[2]; S<E> operator()(const uint32_t& x) const { if (*calls >= k) psx_fail("P05 map_join: function called once too often"); if (x != *calls) psx_fail("P05 map_join: function not called on the elements in order"); S<E> r; for (unsigned i = 0; i < len[x]; i++) r.push_back(val[x][i]); ++*calls; return r; } };
template<class E, class C> static void p05map() {
  unsigned k = psx_param("k", 2), m = psx_param("m", 1), len[8]; E val[8][2]; Seq<E> w; S<E> sep = window<E>("sep", m, psx_param("pre", 0), 0); C c;
  for (unsigned i = 0; i < k; i++) { len[i] = psx_pick(3, "length"); c.insert(c.end(), i); for (unsigned j = 0; j < len[i]; j++) val[i][j] = sym<E>("elem"); if (i) for (E e : sep) w.add(e); for (unsigned j = 0; j < len[i]; j++) w.add(val[i][j]); }
  const C& cc = c; unsigned n1 = 0, n2 = 0; S<E> a = pluto::map_join(cc, sep, Fn<E>{&n1, k, len, val}), b = pluto::map_join(cc.begin(), cc.end(), sep, Fn<E>{&n2, k, len, val});
  obsAny(a); psx_assert(n1 == k && n2 == k, "P05 map_join: function not called once per element"); psx_assert(eqSeq(a, w), "P05 map_join (container): wrong text"); psx_assert(eqSeq(b, w), "P05 map_join (iterators): wrong text"); psx_cover("checked");
}
#define JOIN(N, E) H(p05_join_v##N) { p05join<E, std::vector<S<E>>>(); } H(p05_join_l##N) { p05join<E, std::list<S<E>>>(); } H(p05_map_v##N) { p05map<E, std::vector<uint32_t>>(); } H(p05_map_l##N) { p05map<E, std::list<uint32_t>>(); }
JOIN(c, char)
JOIN(w, wchar_t)
JOIN(16, char16_t)
JOIN(32, char32_t)
#if __cplusplus >= 202002L
JOIN(8, char8_t)
#endif
// ---------------------------------------------------------------- P06
template<class E> static void p06ws() {
  S<E> s = text<E>(), o = s; bool dflt = psx_param("dflt", 0); Chain<E>& ch = dflt ? World<E>::dflt : World<E>::given; declareAll(ch, s);
  std::vector<S<E>> got; if (dflt) got = pluto::split(s); else { std::locale l = hxGivenLocale(); got = pluto::split(s, l); }
  psx_assert(eq(s, o), "P06 split: changed its argument"); Pieces w; size_t n = o.size();
  for (size_t i = 0; i < n;) { if (ch.cls(o[i]) & std::ctype_base::space) { i++; continue; } size_t j = i; while (j < n && !(ch.cls(o[j]) & std::ctype_base::space)) j++; w.add(i, j - i); i = j; }
  pieces(got, o, w, "P06 split by whitespace: wrong number of runs", "P06 split by whitespace: wrong run"); psx_cover("checked");
}
H(p06_ws_c) { p06ws<char>(); }
H(p06_ws_w) { p06ws<wchar_t>(); }
template<class E> static void p06any() {
  S<E> s = text<E>(), o = s, set = window<E>("set", psx_param("m", 1), 0, psx_param("mpost", 0)); std::vector<S<E>> got = pluto::split_any_of(s, set); Pieces w; size_t n = o.size();
  for (size_t i = 0; i < n;) { if (in(o[i], set)) { i++; continue; } size_t j = i; while (j < n && !in(o[j], set)) j++; w.add(i, j - i); i = j; }
  psx_assert(eq(s, o), "P06 split_any_of: changed its argument"); pieces(got, o, w, "P06 split_any_of: wrong number of runs", "P06 split_any_of: wrong run"); psx_cover("checked");
}
H(p06_any_c) { p06any<char>(); }
H(p06_any_w) { p06any<wchar_t>(); }
H(p06_any_16) { p06any<char16_t>(); }
H(p06_any_32) { p06any<char32_t>(); }
#if __cplusplus >= 202002L
H(p06_any_8) { p06any<char8_t>(); }
#endif
// ---------------------------------------------------------------- P07
template<class E> static void p07repl() {
  S<E> s = text<E>(), o = s, f = window<E>("find", psx_param("m", 1), 0, 0), r = window<E>("replacement", psx_param("k", 1), 0, psx_param("kpost", 0)), f0 = f, r0 = r; Seq<E> w;
  pluto::replace(s, f, r); obsAny(s);
  if (f.empty()) { for (size_t i = 0; i <= o.size(); i++) { for (E e : r) w.add(e); if (i < o.size()) w.add(o[i]); } }
  else for (size_t i = 0; i < o.size();) if (matchAt(o, i, f)) { for (E e : r) w.add(e); i += f.size(); } else w.add(o[i++]);
  psx_assert(eqSeq(s, w), "P07 replace: wrong text"); psx_assert(eq(f, f0) && eq(r, r0), "P07 replace: changed its arguments"); psx_cover("checked");
}
template<class E> static void p07any() {
  S<E> s = text<E>(), o = s, set = window<E>("set", psx_param("m", 1), 0, 0), r = window<E>("replacement", psx_param("k", 1), 0, psx_param("kpost", 0)), f0 = set, r0 = r; Seq<E> w;
  pluto::replace_any_of(s, set, r); obsAny(s);
  for (size_t i = 0; i < o.size(); i++) if (in(o[i], set)) { for (E e : r) w.add(e); } else w.add(o[i]);
  psx_assert(eqSeq(s, w), "P07 replace_any_of: wrong text"); psx_assert(eq(set, f0) && eq(r, r0), "P07 replace_any_of: changed its arguments"); psx_cover("checked");
}
#define REPL(N, E) H(p07_repl_##N) { p07repl<E>(); } H(p07_any_##N) { p07any<E>(); }
REPL(c, char)
REPL(w, wchar_t)
REPL(16, char16_t)
REPL(32, char32_t)
#if __cplusplus >= 202002L
REPL(8, char8_t)
#endif
// ---------------------------------------------------------------- P08
template<class E> static void p08() {
  S<E> s = text<E>(), o = s; bool dflt = psx_param("dflt", 0); Chain<E>& ch = dflt ? World<E>::dflt : World<E>::given; declareAll(ch, s); unsigned op = psx_param("op", 0);
  if (dflt) { if (op == 0) pluto::lstrip(s); else if (op == 1) pluto::rstrip(s); else pluto::strip(s); }
  else { std::locale l = hxGivenLocale(); if (op == 0) pluto::lstrip(s, l); else if (op == 1) pluto::rstrip(s, l); else pluto::strip(s, l); }
  obsAny(s); size_t a = 0, b = o.size(); auto sp = [&](size_t i) { return (ch.cls(o[i]) & std::ctype_base::space) != 0; };
  if (op != 1) while (a < b && sp(a)) a++;
  if (op != 0) while (a < b && sp(b - 1)) b--;
  psx_assert(part(s, o, a, b - a), op == 0 ? "P08 lstrip: wrong text" : op == 1 ? "P08 rstrip: wrong text" : "P08 strip: wrong text"); psx_cover("checked");
}
H(p08_c) { p08<char>(); }
H(p08_w) { p08<wchar_t>(); }
// ---------------------------------------------------------------- P10
template<class E> static void p10map() {
  S<E> s = text<E>(), o = s; bool dflt = psx_param("dflt", 0), up = psx_param("up", 0); unsigned form = psx_param("form", 0); Chain<E>& ch = dflt ? World<E>::dflt : World<E>::given; declareAll(ch, s); std::locale* l = dflt ? nullptr : new std::locale(hxGivenLocale());
  size_t n = o.size(), a = 0, b = n; S<E> g = s;
  if (form == 0) { if (dflt) { if (up) pluto::upper(g); else pluto::lower(g); } else { if (up) pluto::upper(g, *l); else pluto::lower(g, *l); } }
  else if (form == 1) { Exact<E> x(n); for (size_t i = 0; i < n; i++) x[i] = o[i]; a = psx_pick(n + 1, "first"); b = a + psx_pick(n - a + 1, "size"); E* p = x.p + a; if (dflt) { if (up) pluto::upper(p, b - a); else pluto::lower(p, b - a); } else { if (up) pluto::upper(p, b - a, *l); else pluto::lower(p, b - a, *l); } for (size_t i = 0; i < n; i++) g[i] = x[i]; }
  else for (size_t i = 0; i < n; i++) g[i] = dflt ? (up ? pluto::upper(o[i]) : pluto::lower(o[i])) : (up ? pluto::upper(o[i], *l) : pluto::lower(o[i], *l));
  obsAny(g); bool ok = g.size() == n; for (size_t i = 0; ok && i < n; i++) psx_assert(g[i] == (i >= a && i < b ? (up ? ch.up(o[i]) : ch.lo(o[i])) : o[i]), up ? "P10 upper: an element is not what the locale says" : "P10 lower: an element is not what the locale says"); psx_assert(ok, "P10: length changed"); psx_assert(eq(s, o), "P10: original changed"); delete l; psx_cover("checked");
}
template<class E> static void p10is() {
  const S<E> o = text<E>(); bool dflt = psx_param("dflt", 0), up = psx_param("up", 0); unsigned form = psx_param("form", 0); Chain<E>& ch = dflt ? World<E>::dflt : World<E>::given; declareAll(ch, o); std::locale* l = dflt ? nullptr : new std::locale(hxGivenLocale());
  size_t n = o.size(), a = 0, b = n; bool g = true;
  if (form == 0) g = dflt ? (up ? pluto::is_upper(o) : pluto::is_lower(o)) : (up ? pluto::is_upper(o, *l) : pluto::is_lower(o, *l));
  else if (form == 1) { Exact<E> x(n); for (size_t i = 0; i < n; i++) x[i] = o[i]; a = psx_pick(n + 1, "first"); b = a + psx_pick(n - a + 1, "size"); const E* p = x.p + a; g = dflt ? (up ? pluto::is_upper(p, b - a) : pluto::is_lower(p, b - a)) : (up ? pluto::is_upper(p, b - a, *l) : pluto::is_lower(p, b - a, *l)); }
  else { psx_assume(n > 0); b = 1; g = dflt ? (up ? pluto::is_upper(o[0]) : pluto::is_lower(o[0])) : (up ? pluto::is_upper(o[0], *l) : pluto::is_lower(o[0], *l)); }
  psx_observe(g); bool w = true; for (size_t i = a; i < b; i++) w &= !(ch.cls(o[i]) & (up ? std::ctype_base::lower : std::ctype_base::upper));
  psx_assert(g == w, up ? "P10 is_upper: wrong answer" : "P10 is_lower: wrong answer"); delete l; psx_cover("checked");
}
H(p10_map_c) { p10map<char>(); }
H(p10_map_w) { p10map<wchar_t>(); }
H(p10_is_c) { p10is<char>(); }
H(p10_is_w) { p10is<wchar_t>(); }
// ---------------------------------------------------------------- P11, P12: string forms
// op 0..5 equals starts_with ends_with contains find rfind; form 0 string, 1 pointer and size; ci 1: case-insensitive
#define PICKL(F, ...) (dflt ? F(__VA_ARGS__) : F(__VA_ARGS__, l))
template<class E> static void p1112(bool p11) {
  unsigned op = psx_param("op", 0), form = psx_param("form", 0); bool ci = psx_param("ci", 0), dflt = psx_param("dflt", 0); unsigned n = psx_param("n", 3), m = psx_param("m", 2), pre = psx_param("pre", 0), post = psx_param("post", 0);
  S<E> a = window<E>("left", n, pre, post), b = window<E>("right", m, psx_param("mpre", 0), 0); n += pre + post; m = (unsigned)b.size(); const S<E>&ca = a, &cb = b; S<E> a0 = a, b0 = b;
  Chain<E>& ch = dflt ? World<E>::dflt : World<E>::given; if (ci) { for (unsigned i = 0; i < psx_param("n", 3); i++) ch.declare(a[pre + i], ""); for (E e : b) if (psx_param("mpre", 0) == 0) ch.declare(e, ""); }
  std::locale l = ci && !dflt ? hxGivenLocale() : std::locale::classic();
  Exact<E> xa(n), xb(m); for (unsigned i = 0; i < n; i++) xa[i] = a[i]; for (unsigned i = 0; i < m; i++) xb[i] = b[i]; const E *pa = xa.p, *pb = xb.p; bool g = false; size_t pos = 0;
#define BOTH(F, IF) (ci ? (form ? PICKL(IF, pa, (size_t)n, pb, (size_t)m) : PICKL(IF, ca, cb)) : (form ? F(pa, (size_t)n, pb, (size_t)m) : F(ca, cb)))
#define POS(F, IF) (ci ? (form ? (size_t)(PICKL(IF, pa, (size_t)n, pb, (size_t)m) - pa) : (size_t)(PICKL(IF, ca, cb) - ca.begin())) : (form ? (size_t)(F(pa, (size_t)n, pb, (size_t)m) - pa) : (size_t)(F(ca, cb) - ca.begin())))
  switch (op) { case 0: g = BOTH(pluto::equals, pluto::iequals); break; case 1: g = BOTH(pluto::starts_with, pluto::istarts_with); break; case 2: g = BOTH(pluto::ends_with, pluto::iends_with); break; case 3: g = BOTH(pluto::contains, pluto::icontains); break; case 4: pos = POS(pluto::find, pluto::ifind); break;
#if __cplusplus >= 201703L
    case 5: pos = POS(pluto::rfind, pluto::irfind); break;
#endif
  }
  psx_assert(eq(a, a0) && eq(b, b0), p11 ? "P11: arguments changed" : "P12: arguments changed");
  auto same = [&](E x, E y) { return ci ? (x == y) | (ch.up(x) == ch.up(y)) : x == y; };
  auto at = [&](unsigned i) { bool r = true; for (unsigned j = 0; j < m; j++) r &= same(a[i + j], b[j]); return r; };
  if (op < 4) { psx_observe(g); bool w = false; if (op == 0) w = n == m && at(0); else if (m <= n) { if (op == 1) w = at(0); else if (op == 2) w = at(n - m); else for (unsigned i = 0; i + m <= n; i++) w |= at(i); }
    static const char* T[] = {"P11 equals (string): wrong answer", "P11 starts_with (string): wrong answer", "P11 ends_with (string): wrong answer", "P11 contains (string): wrong answer"}; psx_assert(g == w, T[op]); }
  else { psx_observe(pos); unsigned w = n; if (m == 0) w = op == 4 ? 0 : n; else if (m <= n) { if (op == 4) { for (unsigned i = n - m + 1; i-- > 0;) w = at(i) ? i : w; } else for (unsigned i = 0; i + m <= n; i++) w = at(i) ? i : w; } psx_assert(pos == w, op == 4 ? "P12 find (string): wrong position" : "P12 rfind (string): wrong position"); }
  psx_cover("checked");
}
#define SEQS(N, E) H(p11_str_##N) { p1112<E>(true); } H(p12_str_##N) { p1112<E>(false); }
SEQS(c, char)
SEQS(w, wchar_t)
#if PLUTO_STRING_OVERLOAD_FOR_UNICODE
template<class E> static void plain(bool p11) {   // the overloads for the other character types: plain comparison only (no ctype facet exists for them)
  unsigned op = psx_param("op", 0), n = psx_param("n", 3), m = psx_param("m", 2); const S<E> a = window<E>("left", n, 0, 0), b = window<E>("right", m, 0, 0); bool g = false; size_t pos = 0;
  switch (op) { case 0: g = pluto::equals(a, b); break; case 1: g = pluto::starts_with(a, b); break; case 2: g = pluto::ends_with(a, b); break; case 3: g = pluto::contains(a, b); break; case 4: pos = pluto::find(a, b) - a.begin(); break;
#if __cplusplus >= 201703L
    case 5: pos = pluto::rfind(a, b) - a.begin(); break;
#endif
  }
  auto at = [&](unsigned i) { bool r = true; for (unsigned j = 0; j < m; j++) r &= a[i + j] == b[j]; return r; };
  if (op < 4) { psx_observe(g); bool w = false; if (op == 0) w = n == m && at(0); else if (m <= n) { if (op == 1) w = at(0); else if (op == 2) w = at(n - m); else for (unsigned i = 0; i + m <= n; i++) w |= at(i); } psx_assert(g == w, "P11 (Unicode string overloads): wrong answer"); }
  else { psx_observe(pos); unsigned w = n; if (m == 0) w = op == 4 ? 0 : n; else if (m <= n) { if (op == 4) { for (unsigned i = n - m + 1; i-- > 0;) w = at(i) ? i : w; } else for (unsigned i = 0; i + m <= n; i++) w = at(i) ? i : w; } psx_assert(pos == w, "P12 (Unicode string overloads): wrong position"); }
  psx_cover("checked");
}
#define PLAIN(N, E) H(p11_str_##N) { plain<E>(true); } H(p12_str_##N) { plain<E>(false); }
PLAIN(16, char16_t)
PLAIN(32, char32_t)
#if __cplusplus >= 202002L
PLAIN(8, char8_t)
#endif
#endif
// ---------------------------------------------------------------- P09
template<class E> static void p09() {
  E v[3] = {sym<E>("a"), sym<E>("b"), sym<E>("c")}; bool dflt = psx_param("dflt", 0); Chain<E>& ch = dflt ? World<E>::dflt : World<E>::given; for (E e : v) ch.declare(e, "");
  // the comparators are built from a locale that is gone when they are used, and are copied
  auto mk = [&](auto tag) { typedef typename decltype(tag)::type C; auto* c = dflt ? new C() : new C(hxGivenLocale()); auto* d = new C(*c); delete c; return d; };
#define ID(T) ([] { struct I { typedef T type; }; return I{}; }())
  auto* ieq = mk(ID(pluto::is_iequal<E>)); auto* ine = mk(ID(pluto::is_not_iequal<E>)); auto* ilt = mk(ID(pluto::is_iless<E>)); auto* igt = mk(ID(pluto::is_igreater<E>)); auto* ile = mk(ID(pluto::is_iless_equal<E>)); auto* ige = mk(ID(pluto::is_igreater_equal<E>));
  bool EQ[3][3], LT[3][3];
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { E a = v[i], b = v[j], x = ch.up(a), y = ch.up(b); bool e = (*ieq)(a, b), l = (*ilt)(a, b), g = (*igt)(a, b); EQ[i][j] = e; LT[i][j] = l;
    psx_observe(e); psx_observe(l); psx_assert(e == (x == y), "P09 is_iequal: not equality of the upper-cased elements"); psx_assert((*ine)(a, b) == (x != y), "P09 is_not_iequal: not the negation of is_iequal"); psx_assert(l == (x < y), "P09 is_iless: not the order of the upper-cased elements"); psx_assert(g == (y < x), "P09 is_igreater: not the order of the upper-cased elements"); psx_assert((*ile)(a, b) == !(y < x), "P09 is_iless_equal: not the negation of is_igreater"); psx_assert((*ige)(a, b) == !(x < y), "P09 is_igreater_equal: not the negation of is_iless"); }
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { psx_assert((int)EQ[i][j] + LT[i][j] + LT[j][i] == 1, "P09: not exactly one of a<b, a==b, b<a"); for (int k = 0; k < 3; k++) { psx_assert(!(EQ[i][j] & EQ[j][k]) | EQ[i][k], "P09 is_iequal is not transitive"); psx_assert(!(LT[i][j] & LT[j][k]) | LT[i][k], "P09 is_iless is not transitive"); } }
  delete ieq; delete ine; delete ilt; delete igt; delete ile; delete ige; psx_cover("checked");
}
H(p09_c) { p09<char>(); }
H(p09_w) { p09<wchar_t>(); }
// plain comparators and truth tests
template<class T> static void plainOne() {
  T a = sym<T>("a"), b = sym<T>("b"); const T &x = a, &y = b;
  psx_assert(pluto::is_equal{}(x, y) == (a == b), "P09 is_equal"); psx_assert(pluto::is_not_equal{}(x, y) == (a != b), "P09 is_not_equal"); psx_assert(pluto::is_less{}(x, y) == (a < b), "P09 is_less"); psx_assert(pluto::is_greater{}(x, y) == (a > b), "P09 is_greater"); psx_assert(pluto::is_less_equal{}(x, y) == (a <= b), "P09 is_less_equal"); psx_assert(pluto::is_greater_equal{}(x, y) == (a >= b), "P09 is_greater_equal");
  psx_assert(pluto::is_true{}(x) == (a != 0), "P09 is_true"); psx_assert(pluto::is_false{}(x) == (a == 0), "P09 is_false"); psx_observe(pluto::is_true{}(x));
}
template<class T, class U> static void plainTwo() {
  T a = sym<T>("a"); U b = sym<U>("b"); const T& x = a; const U& y = b; psx_assert(pluto::is_equal{}(x, y) == (a == b), "P09 is_equal"); psx_assert(pluto::is_not_equal{}(x, y) == (a != b), "P09 is_not_equal"); psx_assert(pluto::is_less{}(x, y) == (a < b), "P09 is_less"); psx_assert(pluto::is_greater{}(x, y) == (a > b), "P09 is_greater"); psx_assert(pluto::is_less_equal{}(x, y) == (a <= b), "P09 is_less_equal"); psx_assert(pluto::is_greater_equal{}(x, y) == (a >= b), "P09 is_greater_equal");
}
H(p09_float) { plainOne<float>(); plainOne<double>(); psx_cover("checked"); }
H(p09_mixed) { plainTwo<int, long>(); plainTwo<unsigned char, int>(); plainTwo<long, short>(); plainTwo<unsigned, unsigned long>(); plainTwo<char16_t, char32_t>(); plainTwo<float, double>(); plainTwo<double, int>(); plainTwo<short, float>(); psx_cover("checked"); }
struct Tru { uint8_t b; explicit operator bool() const { return b & 1; } bool operator!() const { return !(b & 1); } };
H(p09_plain) {
  plainOne<char>(); plainOne<signed char>(); plainOne<unsigned char>(); plainOne<short>(); plainOne<unsigned short>(); plainOne<int>(); plainOne<unsigned>(); plainOne<long>(); plainOne<unsigned long>(); plainOne<long long>(); plainOne<unsigned long long>(); plainOne<wchar_t>(); plainOne<char16_t>(); plainOne<char32_t>();
  { uint8_t r = psx_u8("bool"); bool b = r & 1; psx_assert(pluto::is_true{}(b) == b && pluto::is_false{}(b) == !b, "P09 is_true/is_false on bool"); }
  { Tru t{psx_u8("user type")}; psx_assert(pluto::is_true{}(t) == (bool)(t.b & 1) && pluto::is_false{}(t) == !(t.b & 1), "P09 is_true/is_false on a user-defined type"); }
  { int z; int* ps[2] = {nullptr, &z}; int* p = ps[psx_pick(2, "pointer")]; psx_assert(pluto::is_true{}(p) == (p != nullptr) && pluto::is_false{}(p) == (p == nullptr), "P09 is_true/is_false on a pointer"); }
  psx_cover("checked");
}
