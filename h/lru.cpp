// P19: the plain LRU cache against the reference model; also P20's single-thread part on the safe cache.
#include "lru.h"
#include <utility>
#include <pluto/lru_cache.hpp>
#ifdef HX_SAFE
#include <pluto/safe_lru_cache.hpp>
typedef pluto::safe_lru_cache<Key, Val> Cache;
#define PN "P20 safe_lru_cache: "
#else
typedef pluto::lru_cache<Key, Val> Cache;
#define PN "P19 lru_cache: "
#endif
#define A(c, m) psx_assert((c), PN m)
static Key key(const char* n = "key") { return Key{psx_u16(n)}; }
static void look(const Cache& c, const Ref& m) { A(c.size() == m.n, "size is not the number of entries"); A(c.empty() == (m.n == 0), "empty is not size() == 0"); A(c.capacity() == m.cap, "capacity is not the one set"); A(c.size() <= c.capacity(), "more entries than the capacity"); psx_observe(c.size()); }
static unsigned at; static char on[] = "o0";
static void step(Cache& c, Ref& m, unsigned kinds) {
  on[1] = (char)('0' + at++); long fixed = psx_param(on, -1);
  switch (fixed >= 0 ? (unsigned)fixed : psx_pick(kinds, "op")) {
    case 0: { Key k = key(); Val v = psx_u32("value"); bool g = c.insert(k, v), w = m.insert(k.k, v, false); psx_observe(g); A(g == w, "insert returned the wrong answer"); break; }
    case 1: { Key k = key(); Val v = psx_u32("value"); bool g = c.insert_or_assign(k, v), w = m.insert(k.k, v, true); psx_observe(g); A(g == w, "insert_or_assign returned the wrong answer"); break; }
    case 2: { Key k = key(); Val before = psx_u32("output"), v = before, w = before; bool g = c.get(k, v), e = m.get(k.k, w); psx_observe(g); psx_observe(v); A(g == e, "get returned the wrong answer"); A(v == w, "get delivered the wrong value"); break; }
    case 3: { Key k = key(); bool g = c.remove(k), w = m.remove(k.k); psx_observe(g); A(g == w, "remove returned the wrong answer"); break; }
    case 4: { uint64_t n = psx_pick(4, "new capacity"); c.capacity(n); m.capacity(n); break; }
    case 5: { Key k = key(); bool g = c.contains(k), w = m.find(k.k) >= 0; psx_observe(g); A(g == w, "contains returned the wrong answer"); break; }
    case 6: c.clear(); m.n = 0; break;
  }
  look(c, m);
}
// Everything observable afterwards: membership of any key, the value of any entry, the order of eviction.
static void probe(Cache& c, Ref& m) {
  look(c, m); { Key q = key("probe"); bool g = c.contains(q), w = m.find(q.k) >= 0; A(g == w, "contains returned the wrong answer"); }
  if (m.n) { unsigned i = psx_pick(m.n + 1, "entry read at the end"); if (i < m.n) { Val v = 0, w = 0; uint16_t k = m.k[i]; A(c.get(Key{k}, v), "get misses an entry"); m.get(k, w); psx_observe(v); A(v == w, "get delivered the wrong value"); } }
  while (m.n) { m.capacity(m.n - 1); uint16_t gone = m.k[m.n]; c.capacity(m.n); look(c, m); A(!c.contains(Key{gone}), "the wrong entry was evicted"); for (unsigned i = 0; i < m.n; i++) A(c.contains(Key{m.k[i]}), "the wrong entry was evicted"); }
  c.capacity(0); m.cap = 0; { Key k = key("last"); A(c.insert(k, 1), "insert after shrinking to nothing"); m.cap = 0; look(c, m); c.capacity(2); m.cap = 2; look(c, m); A(c.insert(k, 9), "insert after growing"); Val v = 0; A(c.get(k, v) && v == 9, "get after growing"); A(!c.insert(k, 3), "insert of a present key"); }
  psx_cover("checked");
}
// arbitrary operations from an empty cache
H(p19_scratch) { unsigned n = psx_param("N", 4), kinds = psx_param("kinds", 7); uint64_t cap = psx_param("cap", 2); Cache c(cap); Ref m(cap); look(c, m); for (unsigned i = 0; i < n; i++) step(c, m, kinds); probe(c, m); }
// arbitrary operations from every state: any distinct keys in any use order
static void fillAny(Cache& c, Ref& m, unsigned k) { for (unsigned i = 0; i < k; i++) { Key x = key(); Val v = psx_u32("value"); psx_assume(m.find(x.k) < 0); A(c.insert(x, v), "insert of a missing key"); m.insert(x.k, v, false); } look(c, m); }
H(p19_state) { unsigned n = psx_param("N", 2), kinds = psx_param("kinds", 7), fill = psx_param("fill", 3); uint64_t cap = psx_param("cap", 3); Cache c(cap); Ref m(cap); fillAny(c, m, fill); for (unsigned i = 0; i < n; i++) step(c, m, kinds); probe(c, m); }
// capacities over the whole size_t range
H(p19_cap) { uint64_t cap = psx_u64("capacity"); Cache c(cap); A(c.capacity() == cap, "capacity is not the one set"); Ref m(cap); for (unsigned i = 0; i < 2; i++) { Key k = key(); Val v = psx_u32("value"); A(c.insert(k, v) == m.insert(k.k, v, false), "insert returned the wrong answer"); } uint64_t c2 = psx_u64("new capacity"); c.capacity(c2); m.capacity(c2); A(c.capacity() == c2, "capacity is not the one set"); A(c.size() == m.n, "size is not the number of entries"); { Key q = key("probe"); bool g = c.contains(q), w = m.find(q.k) >= 0; A(g == w, "contains returned the wrong answer"); } psx_cover("checked"); }
#ifndef HX_SAFE
// copies and moves are caches of their own with the same content, order and capacity
H(p19_copy) {
  unsigned fill = psx_param("fill", 2), n = psx_param("N", 1); uint64_t cap = psx_param("cap", 2); auto* c = new Cache(cap); Ref m(cap); fillAny(*c, m, fill); Ref o = m; bool keep = psx_pick(2, "keep the original"); Cache* d;
  switch (psx_pick(4, "how")) { case 0: d = new Cache(*c); break; case 1: d = new Cache(1); d->insert(Key{3}, 4); *d = *c; break; case 2: d = new Cache(std::move(*c)); keep = false; break; default: d = new Cache(1); d->insert(Key{3}, 4); *d = std::move(*c); keep = false; }
  if (!keep) { delete c; c = nullptr; } look(*d, m); bool onCopy = !c || psx_pick(2, "operate on the copy"); for (unsigned i = 0; i < n; i++) if (onCopy) step(*d, m, 7); else step(*c, o, 7);
  bool first = c && psx_pick(2, "look at the original"); if (first) { delete d; d = nullptr; probe(*c, o); delete c; } else { if (c) delete c; probe(*d, m); delete d; }
}
#endif
