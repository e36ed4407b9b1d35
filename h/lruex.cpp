// P38: copying a key or a value throws in the middle of an operation: the caches stay what they were.
#ifdef HX_SAFE
#include "thr/psx_pthread.h"
#endif
#include "hx.h"
#include <functional>
#include <utility>
struct Failed {}; static unsigned copies; static uint32_t failAt; static bool armed, thrown;   // the failAt-th copy while armed throws, once
static void copying() { if (armed && copies++ == failAt) { armed = false; thrown = true; throw Failed(); } }
struct Key { uint16_t k; explicit Key(uint16_t x = 0) : k(x) {} Key(const Key& o) : k(o.k) { copying(); } Key(Key&& o) noexcept : k(o.k) { o.k = 0xdead; } Key& operator=(const Key& o) { copying(); k = o.k; return *this; } Key& operator=(Key&& o) noexcept { k = o.k; return *this; } };
inline bool operator<(const Key& a, const Key& b) { return a.k < b.k; } inline bool operator==(const Key& a, const Key& b) { return a.k == b.k; } inline bool operator!=(const Key& a, const Key& b) { return a.k != b.k; }
namespace std { template<> struct hash<Key> { size_t operator()(const Key& k) const { return k.k; } }; }
struct Val { uint32_t v; explicit Val(uint32_t x = 0) : v(x) {} Val(const Val& o) : v(o.v) { copying(); } Val(Val&& o) noexcept : v(o.v) { o.v = 0xdeaddead; } Val& operator=(const Val& o) { copying(); v = o.v; return *this; } Val& operator=(Val&& o) noexcept { v = o.v; return *this; } };
#include <pluto/lru_cache.hpp>
#ifdef HX_SAFE
#include <pluto/safe_lru_cache.hpp>
typedef pluto::safe_lru_cache<Key, Val> Cache;
#else
typedef pluto::lru_cache<Key, Val> Cache;
#endif
#define A(c, m) psx_assert((c), "P38 cache: " m)
struct Ref {   // entries in use order, most recent first
  uint16_t k[16]; uint32_t v[16]; unsigned n = 0; uint64_t cap; explicit Ref(uint64_t c) : cap(c) {}
  int find(uint16_t x) const { for (unsigned i = 0; i < n; i++) if (k[i] == x) return (int)i; return -1; }
  void front(int i, uint32_t val) { uint16_t key = k[i]; for (int j = i; j > 0; j--) { k[j] = k[j - 1]; v[j] = v[j - 1]; } k[0] = key; v[0] = val; }
  void insert(uint16_t x, uint32_t val, bool assign) { int i = find(x); if (i < 0) { if (cap) { if (n >= cap) n = (unsigned)cap - 1; k[n] = x; v[n] = val; n++; front((int)n - 1, val); } } else if (assign) front(i, val); }
  void remove(uint16_t x) { int i = find(x); if (i < 0) return; for (unsigned j = (unsigned)i; j + 1 < n; j++) { k[j] = k[j + 1]; v[j] = v[j + 1]; } n--; }
};
static uint16_t key(const char* n = "key") { return psx_u8(n); } static uint16_t tried[4]; static unsigned nTried;
static void look(const Cache& c, const Ref& m) { A(c.size() == m.n, "size is not the number of entries"); A(c.size() <= c.capacity(), "more entries than the capacity"); A(c.empty() == (m.n == 0) && c.capacity() == m.cap, "empty or capacity is wrong"); }
// One call that may fail. It has happened, or, when it failed, it has not, but an insertion into a full cache may have evicted the least recently used entry.
static char opName[] = "o0";
static void step(Cache& c, Ref& m) {
  long f = psx_param(opName, -1); opName[1]++; unsigned op = f >= 0 ? (unsigned)f : psx_pick(5, "op"); uint16_t k = key(); tried[nTried++] = k; uint32_t v = psx_u32("value"); Key kk(k); Val vv(v), out(77); bool r = false, was = m.find(k) >= 0, full = m.n && m.n >= m.cap; failAt = psx_u8("copy that fails"); copies = 0; thrown = false;
  try { armed = true; switch (op) { case 0: r = c.insert(kk, vv); break; case 1: r = c.insert_or_assign(kk, vv); break; case 2: r = c.get(kk, out); break; case 3: r = c.remove(kk); break; default: c.capacity(2); } armed = false; } catch (const Failed&) {
    armed = false; A(kk.k == k && vv.v == v, "a failed call changed its arguments"); if (op < 2 && !was && full && c.size() + 1 == m.n) m.n--; look(c, m); return; }
  A(!thrown, "an exception is swallowed");
  switch (op) { case 0: case 1: A(r == !was, "insertion returned the wrong answer"); m.insert(k, v, op == 1); break; case 2: A(r == was, "get returned the wrong answer"); if (was) { int i = m.find(k); A(out.v == m.v[i], "get delivered the wrong value"); m.front(i, m.v[i]); } else A(out.v == 77, "get changed the value though there is none"); break; case 3: A(r == was, "remove returned the wrong answer"); m.remove(k); break; default: m.cap = 2; if (m.n > 2) m.n = 2; }
  look(c, m);
}
static void probe(Cache& c, Ref& m) {   // content, values and eviction order
  look(c, m); { uint16_t q = key("probe"); A(c.contains(Key(q)) == (m.find(q) >= 0), "contains returned the wrong answer"); }
  if (m.n) { unsigned i = psx_pick(m.n + 1, "entry read at the end"); if (i < m.n) { Val v; A(c.get(Key(m.k[i]), v), "get misses an entry"); A(v.v == m.v[i], "get delivered the wrong value"); m.front((int)i, m.v[i]); } }
  unsigned n = m.n; for (unsigned i = 0; i < 2; i++) { uint16_t k = (uint16_t)(1000 + i); if (!i && nTried && psx_pick(2, "the same key again")) { k = tried[nTried - 1]; if (m.find(k) >= 0) continue; } uint32_t v = psx_u32("value"); A(c.insert(Key(k), Val(v)), "insert returned the wrong answer"); m.insert(k, v, false); look(c, m); for (unsigned j = 0; j < m.n; j++) A(c.contains(Key(m.k[j])), "the wrong entry was evicted"); }
  while (m.n) { m.cap = --m.n; uint16_t gone = m.k[m.n]; c.capacity(m.n); look(c, m); A(!c.contains(Key(gone)), "the wrong entry was evicted"); for (unsigned i = 0; i < m.n; i++) A(c.contains(Key(m.k[i])), "the wrong entry was evicted"); } psx_observe(n); psx_cover("checked");
}
static void fill(Cache& c, Ref& m, unsigned k) { for (unsigned i = 0; i < k; i++) { uint16_t x = key(); psx_assume(m.find(x) < 0); uint32_t v = psx_u32("value"); A(c.insert(Key(x), Val(v)), "insert of a missing key"); m.insert(x, v, false); } }
H(p38_fail) { unsigned n = (unsigned)psx_param("N", 1); uint64_t cap = (uint64_t)psx_param("cap", 2); Cache c(cap); Ref m(cap); fill(c, m, (unsigned)psx_param("fill", 2)); for (unsigned i = 0; i < n; i++) step(c, m); probe(c, m); }
#ifndef HX_SAFE
H(p38_copy) {   // a copy that fails leaves both caches as they were
  uint64_t cap = (uint64_t)psx_param("cap", 2); Cache c(cap); Ref m(cap); fill(c, m, (unsigned)psx_param("fill", 2)); failAt = psx_u8("copy that fails"); copies = 0; thrown = false; bool assign = psx_pick(2, "assign"); Cache d(1); Ref o(1); fill(d, o, 1);
  try { armed = true; if (assign) { d = c; o = m; } else { Cache e(c); armed = false; Ref x = m; look(e, x); } armed = false; } catch (const Failed&) { armed = false; }
  armed = false; if (psx_pick(2, "look at the copy")) probe(d, o); else probe(c, m);
}
#endif
