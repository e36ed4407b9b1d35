// P13 (slice), P14 (reductions), P15 (transformations) over containers.
#include "hx.h"
#include <list>
#include <deque>
#include <map>
#include <set>
#include <forward_list>
#include <iterator>
#include <limits>
#include <type_traits>
#include <pluto/container.hpp>
#include <pluto/value.hpp>
#define A13(c, m) psx_assert((c), "P13 slice: " m)
#define A14(c, m) psx_assert((c), "P14 " m)
#define A15(c, m) psx_assert((c), "P15 " m)
struct Tok { uint32_t v; Tok(uint32_t x = 0) : v(x) {} Tok(const Tok& o) : v(o.v) {} Tok& operator=(const Tok& o) { v = o.v; return *this; } bool operator==(const Tok& o) const { return v == o.v; } };
static inline bool operator<(const Tok& a, const Tok& b) { return a.v < b.v; } static inline bool operator>(const Tok& a, const Tok& b) { return a.v > b.v; } static inline bool operator<=(const Tok& a, const Tok& b) { return a.v <= b.v; } static inline bool operator>=(const Tok& a, const Tok& b) { return a.v >= b.v; } static inline bool operator!=(const Tok& a, const Tok& b) { return a.v != b.v; }
struct Greedy { uint32_t v; Greedy() : v(0) {} template<class T> Greedy(const T&) : v(0xdead) {} Greedy(uint32_t x) : v(x) {} bool operator==(const Greedy& o) const { return v == o.v; } };   // converts from anything, like std::any
template<class T> struct ElemOf { static T any() { return T(psx_u32("elem")); } static uint64_t val(const T& t) { return (uint64_t)t; } };
template<> struct ElemOf<Tok> { static Tok any() { return Tok(psx_u32("elem")); } static uint64_t val(const Tok& t) { return t.v; } };
template<> struct ElemOf<Greedy> { static Greedy any() { return Greedy(psx_u32("elem")); } static uint64_t val(const Greedy& t) { return t.v; } };
template<class C> static C fill(unsigned n) { C c; for (unsigned i = 0; i < n; i++) c.insert(c.end(), ElemOf<typename C::value_type>::any()); return c; }
template<class C, unsigned N> static unsigned values(const C& c, uint64_t (&v)[N]) { unsigned i = 0; for (const auto& e : c) v[i++] = ElemOf<typename C::value_type>::val(e); return i; }
// every 64-bit index, as a case split: each of -n..n, everything below, everything above
struct Index { int64_t v; unsigned at; };   // the value and the element position it stands for
static Index index(unsigned n, const char* name) { uint64_t k = psx_pick(2 * n + 3, name); if (k <= 2 * n) { int64_t v = (int64_t)k - (int64_t)n; return {v, (unsigned)(v < 0 ? v + (int64_t)n : v)}; } int64_t x = sym<int64_t>(name); bool below = k == 2 * n + 1; psx_assume(below ? x < -(int64_t)n : x > (int64_t)n); return {x, below ? 0 : n}; }
template<class C> static void slice() {
  unsigned n = psx_param("n", 5); C c = fill<C>(n); uint64_t v[32], w[32], x[32]; values(c, v); bool two = psx_pick(2, "with start"); Index st{0, 0}; if (two) st = index(n, "start"); Index en = index(n, "stop"); int64_t a = st.v, b = en.v;
  int64_t lo = st.at, hi = en.at;
  const C& cc = c; C r = two ? pluto::slice(cc, (long long)a, (long long)b) : pluto::slice(cc, (long long)b); unsigned m = (unsigned)r.size(); psx_observe(m);
  A13((int64_t)m == (hi > lo ? hi - lo : 0), "wrong number of elements"); values(r, w); bool ok = true; for (unsigned i = 0; i < m; i++) { psx_observe(w[i]); ok &= w[i] == v[(uint64_t)lo + i]; } A13(ok, "not the elements start..stop");
  ok = values(c, x) == n; for (unsigned i = 0; i < n; i++) ok &= x[i] == v[i]; A13(ok, "the source changed"); A13(pluto::len(cc) == n, "len is not the number of elements"); psx_cover("checked");
}
H(p13_vec) { slice<std::vector<uint32_t>>(); } H(p13_list) { slice<std::list<uint32_t>>(); } H(p13_deque) { slice<std::deque<Tok>>(); } H(p13_str) { slice<std::string>(); } H(p13_wstr) { slice<std::u16string>(); } H(p13_greedy) { slice<std::vector<Greedy>>(); } H(p13_vbool) { slice<std::vector<bool>>(); }
H(p13_mset) { slice<std::list<Tok>>(); }
// ---- P14
struct Bits { uint64_t bits; const void* const* at; unsigned n; template<class T> bool operator()(const T& e) const { for (unsigned i = 0; i < n; i++) if (at[i] == &e) return (bits >> i) & 1; psx_fail("P14/P15 predicate: called with something that is not an element"); } };
template<class C> static void addrs(const C& c, const void** at) { unsigned i = 0; for (const auto& e : c) at[i++] = &e; }
template<class C> static void reduce() {
  unsigned n = psx_param("n", 4); C c = fill<C>(n); const C& cc = c; typedef typename C::value_type T; const void* at[32]; addrs(cc, at); uint64_t v[32]; values(cc, v);
  switch (psx_param("op", 0)) {
    case 0: { Bits p{psx_u64("matches"), at, n}; bool g = pluto::any(cc, p); uint64_t mask = (1ull << n) - 1; psx_observe(g); A14(g == ((p.bits & mask) != 0), "any: not the disjunction"); break; }
    case 1: { Bits p{psx_u64("matches"), at, n}; bool g = pluto::all(cc, p); uint64_t mask = (1ull << n) - 1; psx_observe(g); A14(g == ((p.bits & mask) == mask), "all: not the conjunction"); break; }
    case 2: { Bits p{psx_u64("matches"), at, n}; uint64_t g = pluto::count_if(cc, p), w = 0; for (unsigned i = 0; i < n; i++) w += (p.bits >> i) & 1; psx_observe(g); A14(g == w, "count_if: not the number of matches"); break; }
    case 3: { T x = ElemOf<T>::any(); uint64_t g = pluto::count(cc, x), w = 0; for (unsigned i = 0; i < n; i++) w += v[i] == ElemOf<T>::val(x); psx_observe(g); A14(g == w, "count: not the number of equal elements"); break; }
  }
  psx_cover("checked");
}
H(p14_red_vec) { reduce<std::vector<uint32_t>>(); } H(p14_red_list) { reduce<std::list<uint8_t>>(); } H(p14_red_deque) { reduce<std::deque<Tok>>(); }
template<class C> static void truth() { // default predicates: the elements' own truth value
  unsigned n = psx_param("n", 4); C c = fill<C>(n); const C& cc = c; bool o = false, a = true; for (const auto& e : cc) { o |= !!e; a &= !!e; }
  bool g = pluto::any(cc), h = pluto::all(cc); psx_observe(g); psx_observe(h); A14(g == o, "any: not the disjunction"); A14(h == a, "all: not the conjunction");
  bool gf = pluto::any(cc, pluto::is_false{}), hf = pluto::all(cc, pluto::is_false{}); A14(gf == !a, "any is_false: not the disjunction"); A14(hf == !o, "all is_false: not the conjunction"); psx_cover("checked"); }
H(p14_truth) { truth<std::vector<uint32_t>>(); } H(p14_truth_bool) { truth<std::vector<bool>>(); } H(p14_truth_list) { truth<std::list<int64_t>>(); }
// sum: a non-commutative addition shows the order
struct Chain { uint64_t h; Chain(uint64_t x = 17) : h(x) {} Chain& operator+=(const Chain& o) { h = h * 31 + o.h; return *this; } Chain operator+(const Chain& o) const { return Chain(h * 31 + o.h); } };
H(p14_sum) { unsigned n = psx_param("n", 4); std::list<Chain> c; std::vector<uint32_t> d; std::vector<uint8_t> e8; uint64_t init = psx_u64("init"), h = init, d0 = 17; uint32_t s = 0; uint64_t wide = init; 
  for (unsigned i = 0; i < n; i++) { uint64_t x = psx_u64("e"); c.push_back(Chain(x)); h = h * 31 + x; d0 = d0 * 31 + x; d.push_back((uint32_t)x); s += (uint32_t)x; e8.push_back((uint8_t)x); wide += (uint8_t)x; }
  A14(pluto::sum(c, Chain(init)).h == h, "sum: not init + elements in order"); A14(pluto::sum(c).h == d0, "sum: not the default value + elements in order"); uint32_t g = pluto::sum(d); psx_observe(g); A14(g == s, "sum: wrong"); uint64_t gw = pluto::sum(e8, init); psx_observe(gw); A14(gw == wide, "sum: not in the type of the initial value"); psx_cover("checked"); }
template<class S, class T> static void sumF() { unsigned n = psx_param("n", 4); std::vector<T> c; S w; psx_symbolic(&w, sizeof w, "init"); S init = w; bool bad = false; for (unsigned i = 0; i < n; i++) { T x; psx_symbolic(&x, sizeof x, "e"); c.push_back(x); w += x; } S g = pluto::sum(c, init); bad = memcmp(&g, &w, sizeof g) != 0 && !(g != g && w != w); A14(!bad, "sum: not the elements added in order in floating point"); uint64_t o = 0; if (g == g) memcpy(&o, &g, sizeof g); psx_observe(o); psx_cover("checked"); }
H(p14_sum_float) { sumF<float, float>(); } H(p14_sum_double) { sumF<double, double>(); } H(p14_sum_mixed) { sumF<double, float>(); }
// min / max: the reference is to the first extreme element
struct KeyLess { bool operator()(const Tok& a, const Tok& b) const { return (a.v & 0xff) < (b.v & 0xff); } }; struct KeyGreater { bool operator()(const Tok& a, const Tok& b) const { return (a.v & 0xff) > (b.v & 0xff); } };

template<class C> static void extreme() {
  unsigned n = psx_param("n", 4); C c = fill<C>(n); const C& cc = c; const void* at[32]; addrs(cc, at); uint64_t v[32]; values(cc, v); int op = psx_param("op", 0); const void* g = nullptr; 
  switch (op) { case 0: g = &(pluto::min)(cc); break; case 1: g = &(pluto::max)(cc); break; case 2: g = &(pluto::min)(cc, KeyLess{}); break; case 3: g = &(pluto::max)(cc, KeyLess{}); break; case 4: g = &(pluto::min)(cc, KeyGreater{}); break; case 5: g = &(pluto::max)(cc, KeyGreater{}); break; }
  unsigned where = 99; for (unsigned i = 0; i < n; i++) if (at[i] == g) where = i; psx_observe(where); A14(where < n, "min/max: not a reference to an element");
  uint64_t mask = op < 2 ? ~0ull : 0xff; bool greatest = op == 1 || op == 3 || op == 4; bool ok = true;
  for (unsigned i = 0; i < n; i++) { uint64_t a = v[i] & mask, b = v[where] & mask; bool better = greatest ? a > b : a < b; ok &= !better; if (i < where) ok &= a != b; } A14(ok, "min/max: not the first extreme element"); psx_cover("checked");
}
H(p14_ext_vec) { extreme<std::vector<Tok>>(); } H(p14_ext_list) { extreme<std::list<Tok>>(); }
H(p14_two) { // two values: reference identity, ties keep the left one; abs, copy
  Tok a(psx_u32("a")), b(psx_u32("b")); const Tok *mn = &(pluto::min)(a, b), *mx = &(pluto::max)(a, b), *mn2 = &(pluto::min)(a, b, KeyLess{}), *mx2 = &(pluto::max)(a, b, KeyLess{}), *mn3 = &(pluto::min)(a, b, KeyGreater{}), *mx3 = &(pluto::max)(a, b, KeyGreater{});
  uint32_t ka = a.v & 0xff, kb = b.v & 0xff; A14(mn == (b.v < a.v ? &b : &a), "min of two: wrong reference"); A14(mx == (a.v < b.v ? &b : &a), "max of two: wrong reference"); A14(mn2 == (kb < ka ? &b : &a), "min of two: wrong reference"); A14(mx2 == (ka < kb ? &b : &a), "max of two: wrong reference"); A14(mn3 == (kb > ka ? &b : &a), "min of two: wrong reference"); A14(mx3 == (ka > kb ? &b : &a), "max of two: wrong reference");
  Tok d = pluto::copy(a); A14(d.v == a.v, "copy differs"); psx_cover("checked"); }
template<class T> static void absOf() { T x = sym<T>("x"); psx_assume(std::is_unsigned<T>::value || x != (std::numeric_limits<T>::min)()); T g = pluto::abs(x); psx_observe((uint64_t)g); A14(x < 0 ? (g > 0 && (T)(g + x) == 0) : g == x, "abs: wrong magnitude"); psx_cover("checked"); }
H(p14_abs_int) { absOf<int>(); } H(p14_abs_long) { absOf<long>(); } H(p14_abs_short) { absOf<short>(); } H(p14_abs_schar) { absOf<signed char>(); } H(p14_abs_uint) { absOf<unsigned>(); } H(p14_abs_llong) { absOf<long long>(); }
// ---- P15
// sort with up to `sym` symbolic keys among n elements; the low byte is the key, the rest the identity
template<class P> static void sorted(bool form, P pred, bool desc, bool def) {
  unsigned n = psx_param("n", 4), k = psx_param("sym", 4); std::vector<Tok> c; uint32_t v[64]; 
  for (unsigned i = 0; i < n; i++) { uint32_t key = i < k ? psx_u8("key") : (i * 37 + 11) % 101; unsigned at = i < k ? i * (n / (k ? k : 1)) : i; (void)at; c.push_back(Tok((def ? 0 : (i << 8)) | key)); }
  unsigned rot = psx_param("rot", 0); if (n) std::rotate(c.begin(), c.begin() + rot % n, c.end()); for (unsigned i = 0; i < n; i++) v[i] = c[i].v;
  std::vector<Tok>* ret = nullptr; if (def) { if (form) ret = &pluto::sort(c); else pluto::sort(c.begin(), c.end()); } else { if (form) ret = &pluto::sort(c, pred); else pluto::sort(c.begin(), c.end(), pred); }
  if (form) A15(ret == &c, "sort: does not return the container"); A15(c.size() == n, "sort: the size changed"); bool ok = true; for (unsigned i = 0; i + 1 < n; i++) { uint32_t a = c[i].v & 0xff, b = c[i + 1].v & 0xff; ok &= desc ? a >= b : a <= b; } A15(ok, "sort: not in order");
  if (!def) { bool seen[64] = {}; ok = true; for (unsigned i = 0; i < n; i++) { uint32_t id = c[i].v >> 8; ok &= id < n; if (id < n) { ok &= !seen[id]; seen[id] = true; } } A15(ok, "sort: not a permutation"); bool same = true; for (unsigned i = 0; i < n; i++) for (unsigned j = 0; j < n; j++) if ((v[j] >> 8) == (c[i].v >> 8)) same &= v[j] == c[i].v; A15(same, "sort: an element changed"); }
  else { uint32_t x = psx_u8("probe"); unsigned p = 0, q = 0; for (unsigned i = 0; i < n; i++) { p += v[i] == x; q += c[i].v == x; } A15(p == q, "sort: not a permutation"); }
  psx_cover("checked");
}
H(p15_sort) { bool f = psx_param("form", 1); switch (psx_param("op", 0)) { case 0: sorted(f, KeyLess{}, false, true); break; case 1: sorted(f, KeyLess{}, false, false); break; case 2: sorted(f, KeyGreater{}, true, false); break; } }
template<class C> static void transform() {
  unsigned n = psx_param("n", 4); C c = fill<C>(n); typedef typename C::value_type T; const void* at[32]; addrs(c, at); uint64_t v[32], w[64]; values(c, v); bool form = psx_param("form", 1);
  switch (psx_param("op", 0)) {
    case 0: { C* r = &c; if (form) r = &pluto::reverse(c); else pluto::reverse(std::begin(c), std::end(c)); A15(r == &c, "reverse: does not return the container"); A15(values(c, w) == n, "reverse: the size changed"); bool ok = true; for (unsigned i = 0; i < n; i++) { psx_observe(w[i]); ok &= w[i] == v[n - 1 - i]; } A15(ok, "reverse: not the reverse"); break; }
    case 1: { C* r = &c; auto keep = [](const T& e) { return ElemOf<T>::val(e) % 2 == 1; }; if (form) r = &pluto::filter(c, keep); else { auto e = pluto::filter(std::begin(c), std::end(c), keep); c.erase(e, std::end(c)); } A15(r == &c, "filter: does not return the container");
      Seq<uint64_t> want; for (unsigned i = 0; i < n; i++) if (v[i] % 2) want.add(v[i]); unsigned m = values(c, w); psx_observe(m); A15(m == want.n, "filter: wrong number of elements"); bool ok = true; for (unsigned i = 0; i < m; i++) ok &= w[i] == want.v[i]; A15(ok, "filter: not the satisfying elements in order"); break; }
    case 2: { unsigned k = 0; bool ok = true; auto f = [&](T& e) { ok &= k < n && at[k] == (const void*)&e; k++; }; C* r = &c; if (form) r = &pluto::for_each(c, f); else pluto::for_each(std::begin(c), std::end(c), f); A15(r == &c, "for_each: does not return the container"); A15(ok && k == n, "for_each: not every element once in order"); break; }
    case 3: case 4: case 5: { unsigned k = 0; bool ok = true; int op = psx_param("op", 0); auto f = [&](const T& e) -> uint64_t { ok &= k < n && at[k] == (const void*)&e; k++; return ElemOf<T>::val(e) * 3 + 1; }; const C& cc = c; unsigned pre = 0; 
      if (op == 3) { pre = psx_param("pre", 2); std::vector<uint64_t> d; for (unsigned i = 0; i < pre; i++) d.push_back(1000 + i); if (form) { auto& r = pluto::map(cc, d, f); A15(&r == &d, "map: does not return the destination"); } else { d.resize(pre + n); auto it = pluto::map(std::begin(cc), std::end(cc), d.begin() + pre, f); A15(it == d.end(), "map: does not return the end of the output"); } A15(d.size() == pre + n, "map: wrong number of elements"); for (unsigned i = 0; i < pre; i++) A15(d[i] == 1000 + i, "map: the destination's content changed"); for (unsigned i = 0; i < n; i++) w[i] = d[pre + i]; }
      else if (op == 4) { auto d = pluto::map<std::deque<uint64_t>>(cc, f); A15(d.size() == n, "map: wrong number of elements"); unsigned i = 0; for (auto x : d) w[i++] = x; }
      else { auto d = pluto::map(cc, f); A15(d.size() == n, "map: wrong number of elements"); unsigned i = 0; for (auto x : d) w[i++] = x; }
      A15(ok && k == n, "map: the function is not applied to every element once in order"); bool eq = true; for (unsigned i = 0; i < n; i++) { psx_observe(w[i]); eq &= w[i] == v[i] * 3 + 1; } A15(eq, "map: not function(element)"); uint64_t x[32]; eq = values(c, x) == n; for (unsigned i = 0; i < n; i++) eq &= x[i] == v[i]; A15(eq, "map: the source changed"); break; }
    case 6: { std::list<uint64_t> d{7, 8}; auto f = [](const T& e) -> uint64_t { return ElemOf<T>::val(e) + 5; }; pluto::map(c, d, f); unsigned m = 0; for (auto x : d) w[m++] = x; A15(m == n + 2 && w[0] == 7 && w[1] == 8, "map: the destination's content changed"); bool ok = true; for (unsigned i = 0; i < n; i++) ok &= w[2 + i] == v[i] + 5; A15(ok, "map: not function(element)"); break; }
    case 7: { std::set<uint64_t> d; auto f = [](const T& e) -> uint64_t { return ElemOf<T>::val(e) % 4; }; pluto::map(c, d, f); bool has[4] = {}; for (unsigned i = 0; i < n; i++) has[v[i] % 4] = true; unsigned cnt = has[0] + has[1] + has[2] + has[3]; A15(d.size() == cnt, "map into a set: wrong elements"); for (auto x : d) A15(x < 4 && has[x], "map into a set: wrong elements"); break; }
  }
  psx_cover("checked");
}
H(p15_tr_vec) { transform<std::vector<uint32_t>>(); } H(p15_tr_list) { transform<std::list<uint32_t>>(); } H(p15_tr_deque) { transform<std::deque<Tok>>(); }
