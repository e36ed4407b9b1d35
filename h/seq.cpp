// P11, P12 over iterators and containers: every predicate over every content is one bit matrix over positions.
#include "hx.h"
#include <list>
#include <deque>
#include <array>
#include <forward_list>
#include <pluto/container.hpp>
struct El { uint8_t side, id; };                    // side 0: left, 1: right; id: position
static uint64_t g_m; static unsigned g_n, g_k;      // relation matrix, sizes
static bool g_p11;
static bool rel(unsigned i, unsigned j) { return (g_m >> (i * 5 + j)) & 1; }
struct Rel { bool operator()(const El& a, const El& b) const {
  if (!(a.side == 0 && b.side == 1)) psx_fail("P11 predicate: not called with (left element, right element)");
  if (a.id >= g_n || b.id >= g_k) psx_fail("P11 predicate: called with an element outside the sequences");
  return rel(a.id, b.id); } };
static void relation() { g_m = psx_u64("relation"); }
template<class C> struct Mk { static C make(uint8_t side, unsigned n) { C c; for (unsigned i = 0; i < n; i++) c.insert(c.end(), El{side, (uint8_t)i}); return c; } };
template<> struct Mk<std::forward_list<El>> { static std::forward_list<El> make(uint8_t side, unsigned n) { std::forward_list<El> c; for (unsigned i = n; i-- > 0;) c.push_front(El{side, (uint8_t)i}); return c; } };
struct Buf { El* p; unsigned n; Buf(El* q, unsigned k) : p(q), n(k) {} Buf(const Buf& o) : p(o.p), n(o.n) {} El* begin() const { return p; } El* end() const { return p + n; } };
template<> struct Mk<Buf> { static Buf make(uint8_t side, unsigned n) { El* p = (El*)::operator new(n * sizeof(El)); for (unsigned i = 0; i < n; i++) p[i] = El{side, (uint8_t)i}; return Buf(p, n); } };
#define A11(c, m) psx_assert((c), "P11 " m)
#define A12(c, m) psx_assert((c), "P12 " m)
template<class I> static unsigned dist(I b, I i) { unsigned d = 0; while (b != i) { ++b; ++d; } return d; }
static bool at(unsigned i) { for (unsigned j = 0; j < g_k; j++) if (!rel(i + j, j)) return false; return true; }  // does the right sequence match at i
template<bool BI> struct Bidi { template<class L, class R> static bool ends(const L& l, const R& r, int form) { return form ? pluto::ends_with(l, r, Rel{}) : pluto::ends_with(std::begin(l), std::end(l), std::begin(r), std::end(r), Rel{}); } };
template<> struct Bidi<false> { template<class L, class R> static bool ends(const L&, const R&, int) { return false; } };
template<class CL, class CR, bool BI> static void flags() {
  g_n = psx_param("n", 4); g_k = psx_param("m", 3); CL l = Mk<CL>::make(0, g_n); CR r = Mk<CR>::make(1, g_k); const CL& cl = l; const CR& cr = r; relation(); int form = psx_param("form", 0);
  switch (psx_param("op", 0)) {
    case 0: { bool g = form ? pluto::equals(cl, cr, Rel{}) : pluto::equals(std::begin(cl), std::end(cl), std::begin(cr), std::end(cr), Rel{}); psx_observe(g); A11(g == (g_n == g_k && at(0)), "equals: wrong answer"); break; }
    case 1: { bool g = form ? pluto::starts_with(cl, cr, Rel{}) : pluto::starts_with(std::begin(cl), std::end(cl), std::begin(cr), std::end(cr), Rel{}); psx_observe(g); A11(g == (g_k <= g_n && at(0)), "starts_with: wrong answer"); break; }
    case 2: if (BI) { bool g = Bidi<BI>::ends(cl, cr, form); psx_observe(g); A11(g == (g_k <= g_n && at(g_n - g_k)), "ends_with: wrong answer"); } break;
    case 3: { bool g = form ? pluto::contains_sequence(cl, cr, Rel{}) : pluto::contains(std::begin(cl), std::end(cl), std::begin(cr), std::end(cr), Rel{}); psx_observe(g);
      bool w = false; for (unsigned i = 0; i + g_k <= g_n && !w; i++) w = at(i); A11(g == w, "contains: wrong answer"); break; }
    case 4: if (g_n == g_k) { bool g = pluto::equals_same_size(std::begin(cl), std::end(cl), std::begin(cr), Rel{}); psx_observe(g); A11(g == at(0), "equals_same_size: wrong answer"); } break;
  }
  psx_cover("checked");
}
template<class CL, class CR> static void positions() {
  g_n = psx_param("n", 4); g_k = psx_param("m", 3); CL l = Mk<CL>::make(0, g_n); CR r = Mk<CR>::make(1, g_k); const CL& cl = l; const CR& cr = r; relation(); int form = psx_param("form", 0);
  unsigned first = g_n, last = g_n; 
  switch (psx_param("op", 0)) {
    case 0: { auto it = form ? pluto::find_sequence(cl, cr, Rel{}) : pluto::find(std::begin(cl), std::end(cl), std::begin(cr), std::end(cr), Rel{}); unsigned d = dist(std::begin(cl), it); psx_observe(d);
      for (unsigned i = 0; i + g_k <= g_n; i++) if (at(i)) { first = i; break; } A12(d == first, "find (sequence): not the first match"); break; }
#if __cplusplus >= 201703L
    case 1: { auto it = form ? pluto::rfind_sequence(cl, cr, Rel{}) : pluto::rfind(std::begin(cl), std::end(cl), std::begin(cr), std::end(cr), Rel{}); unsigned d = dist(std::begin(cl), it); psx_observe(d);
      if (g_k) for (unsigned i = 0; i + g_k <= g_n; i++) if (at(i)) last = i; A12(d == last, "rfind (sequence): not the last match"); break; }
#endif
  }
  psx_cover("checked");
}
#define FL(N, L, R, B) H(p11_##N) { flags<L, R, B>(); } H(p12_##N) { positions<L, R>(); }
typedef std::vector<El> V; typedef std::list<El> Ls; typedef std::deque<El> D; typedef std::forward_list<El> F;
FL(vv, V, V, true) FL(ll, Ls, Ls, true) FL(vl, V, Ls, true) FL(lv, Ls, V, true) FL(bb, Buf, Buf, true) FL(dv, D, V, true) FL(ff, F, F, false)
// single elements and unary predicates: position i satisfies bit i / equals the wanted value
template<class C> struct MkI { static C make(unsigned n) { C c; for (unsigned i = 0; i < n; i++) c.insert(c.end(), sym<typename C::value_type>("elem")); return c; } };
struct BufI { typedef uint16_t value_type; uint16_t* p; unsigned n; uint16_t* begin() const { return p; } uint16_t* end() const { return p + n; } };
template<> struct MkI<BufI> { static BufI make(unsigned n) { BufI b{(uint16_t*)::operator new(2 * n), n}; for (unsigned i = 0; i < n; i++) b.p[i] = psx_u16("elem"); return b; } };
struct IdP { uint64_t bits; const void* const* at; unsigned n; bool operator()(const uint16_t& e) const { for (unsigned i = 0; i < n; i++) if (at[i] == &e) return (bits >> i) & 1; psx_fail("P12 predicate: called with something that is not an element of the container"); } };
template<class C> static void single() {
  unsigned n = psx_param("n", 4); C c = MkI<C>::make(n); const C& cc = c; int form = psx_param("form", 0); unsigned d = 0, want = n; auto b = std::begin(cc); auto e = std::end(cc);
  const void* addr[16]; { unsigned i = 0; for (auto it = b; it != e; ++it) addr[i++] = &*it; }
  int op = psx_param("op", 0);
  if (op <= 2) {
    uint16_t x = psx_u16("wanted"); unsigned i = 0; unsigned first = n, last = n; for (auto it = b; it != e; ++it, ++i) { bool m = *it == x; first = (m & (first == n)) ? i : first; last = m ? i : last; }
    if (op == 0) { d = dist(b, form ? pluto::find_elem(cc, x) : pluto::find(b, e, x)); A12(d == first, "find_elem: not the first match"); }
    if (op == 1) { d = dist(b, form ? pluto::rfind_elem(cc, x) : pluto::rfind(b, e, x)); A12(d == last, "rfind_elem: not the last match"); }
    if (op == 2) { bool g = form ? pluto::contains_elem(cc, x) : pluto::contains(b, e, x); d = g; A11(g == (first != n), "contains_elem: wrong answer"); }
  } else {
    IdP p{psx_u64("matches"), addr, n}; bool neg = op >= 5; for (unsigned i = 0; i < n; i++) { bool m = ((p.bits >> i) & 1) != neg; if (op % 2) want = (m & (want == n)) ? i : want; else want = m ? i : want; }
    switch (op) {
      case 3: d = dist(b, form ? pluto::find_if(cc, p) : pluto::find_if(b, e, p)); A12(d == want, "find_if: not the first match"); break;
      case 4: d = dist(b, form ? pluto::rfind_if(cc, p) : pluto::rfind_if(b, e, p)); A12(d == want, "rfind_if: not the last match"); break;
      case 5: d = dist(b, form ? pluto::find_if_not(cc, p) : pluto::find_if_not(b, e, p)); A12(d == want, "find_if_not: not the first match"); break;
      case 6: d = dist(b, form ? pluto::rfind_if_not(cc, p) : pluto::rfind_if_not(b, e, p)); A12(d == want, "rfind_if_not: not the last match"); break;
    }
  }
  psx_observe(d); psx_cover("checked");
}
H(p12_one_v) { single<std::vector<uint16_t>>(); } H(p12_one_l) { single<std::list<uint16_t>>(); } H(p12_one_d) { single<std::deque<uint16_t>>(); } H(p12_one_b) { single<BufI>(); }
// default predicates on values, containers of different types and element widths
template<class CL, class CR> static void values() {
  unsigned n = psx_param("n", 4), m = psx_param("m", 2); CL l = MkI<CL>::make(n); CR r = MkI<CR>::make(m); const CL& cl = l; const CR& cr = r;
  typename CL::value_type a[16]; typename CR::value_type b[16]; { unsigned i = 0; for (auto x : cl) a[i++] = x; i = 0; for (auto x : cr) b[i++] = x; }
  auto occurs = [&](unsigned i) { bool ok = true; for (unsigned j = 0; j < m; j++) ok &= a[i + j] == b[j]; return ok; };
  bool eq = n == m && occurs(0), st = m <= n && occurs(0), en = m <= n && occurs(n - m), co = false; unsigned first = n, last = n;
  for (unsigned i = 0; i + m <= n; i++) { bool o = occurs(i); co |= o; first = (o & (first == n)) ? i : first; last = o ? i : last; } if (m == 0) { first = 0; last = n; }
  switch (psx_param("op", 0)) {
    case 0: { bool g = pluto::equals(cl, cr); psx_observe(g); A11(g == eq, "equals: wrong answer"); break; }
    case 1: { bool g = pluto::starts_with(cl, cr); psx_observe(g); A11(g == st, "starts_with: wrong answer"); break; }
    case 2: { bool g = pluto::ends_with(cl, cr); psx_observe(g); A11(g == en, "ends_with: wrong answer"); break; }
    case 3: { bool g = pluto::contains_sequence(cl, cr); psx_observe(g); A11(g == co, "contains: wrong answer"); break; }
    case 4: { unsigned d = dist(std::begin(cl), pluto::find_sequence(cl, cr)); psx_observe(d); A12(d == first, "find_sequence: not the first match"); break; }
#if __cplusplus >= 201703L
    case 5: { unsigned d = dist(std::begin(cl), pluto::rfind_sequence(cl, cr)); psx_observe(d); A12(d == last, "rfind_sequence: not the last match"); break; }
#endif
  }
  psx_cover("checked");
}
H(p11_val_vv) { values<std::vector<uint16_t>, std::vector<uint16_t>>(); } H(p11_val_vl) { values<std::vector<uint16_t>, std::list<uint16_t>>(); } H(p11_val_wide) { values<std::deque<uint32_t>, std::vector<uint8_t>>(); } H(p11_val_bb) { values<BufI, BufI>(); }
