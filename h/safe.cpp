// P20: the safe LRU cache under concurrency, against every order of the same calls on the reference model.
#include "thr/psx_pthread.h"
#include "lru.h"
#include <thread>
#include <utility>
#include <pluto/safe_lru_cache.hpp>
typedef pluto::safe_lru_cache<Key, Val> Cache;
#define A(c, m) psx_assert((c), "P20 safe_lru_cache: " m)
struct Op { unsigned kind; uint16_t key; Val val; uint64_t n; bool ret; Val out; uint64_t sz; };
enum { INSERT, ASSIGN, GET, REMOVE, CAPACITY, CONTAINS, CLEAR, SIZE, EMPTY, GETCAP, KINDS };
static void gen(Op& o, int kind) {
  o = Op{}; o.kind = kind >= 0 ? (unsigned)kind : (unsigned)psx_pick(KINDS, "op"); if (o.kind <= REMOVE || o.kind == CONTAINS) o.key = psx_u16("key"); if (o.kind <= ASSIGN) o.val = psx_u32("value"); if (o.kind == CAPACITY) o.n = psx_pick(3, "new capacity"); if (o.kind == GET) o.out = 0xABCD1234;
}
static void run(Cache& c, Op& o) {
  switch (o.kind) {
    case INSERT: o.ret = c.insert(Key{o.key}, o.val); break; case ASSIGN: o.ret = c.insert_or_assign(Key{o.key}, o.val); break; case GET: o.ret = c.get(Key{o.key}, o.out); break; case REMOVE: o.ret = c.remove(Key{o.key}); break;
    case CAPACITY: c.capacity(o.n); break; case CONTAINS: o.ret = c.contains(Key{o.key}); break; case CLEAR: c.clear(); break; case SIZE: o.sz = c.size(); break; case EMPTY: o.ret = c.empty(); break; case GETCAP: o.sz = c.capacity(); break;
  }
}
// Would this call on the model, now, give what the thread got?
static bool sim(Ref& m, const Op& o) {
  switch (o.kind) {
    case INSERT: return m.insert(o.key, o.val, false) == o.ret; case ASSIGN: return m.insert(o.key, o.val, true) == o.ret; case GET: { Val v = 0xABCD1234; bool r = m.get(o.key, v); return r == o.ret && v == o.out; } case REMOVE: return m.remove(o.key) == o.ret;
    case CAPACITY: m.capacity(o.n); return true; case CONTAINS: return (m.find(o.key) >= 0) == o.ret; case CLEAR: m.n = 0; return true; case SIZE: return m.n == o.sz; case EMPTY: return (m.n == 0) == o.ret; default: return m.cap == o.sz;
  }
}
static const unsigned MT = 3, MO = 3; static Op ops[MT][MO]; static unsigned nt, no;
struct Probe { uint64_t size, cap; uint16_t k[8]; Val v[8]; unsigned n; };
// content from least to most recently used, taken from the quiescent cache: what is evicted when the capacity shrinks
static void drainInto(Cache& c, Probe& p, const uint16_t* cand, unsigned nc) {
  p.size = c.size(); p.cap = c.capacity(); p.n = 0; A(p.size <= 8, "more entries than were ever inserted"); A(c.empty() == (p.size == 0), "empty is not size() == 0"); A(p.size <= p.cap, "more entries than the capacity");
  bool in[16]; for (unsigned i = 0; i < nc; i++) { in[i] = c.contains(Key{cand[i]}); }
  for (uint64_t k = p.size; k > 0; k--) { c.capacity(k); // recency is kept by contains(), so shrink and see who left
    A(c.size() == k, "shrinking the capacity evicts a different number of entries");
    if (k == p.size) continue; bool found = false; for (unsigned i = 0; i < nc; i++) if (in[i] && !c.contains(Key{cand[i]})) { if (!found) p.k[p.n] = cand[i]; found = true; in[i] = false; } A(found, "an evicted entry was never inserted"); p.n++; }
  if (p.size) { bool found = false; for (unsigned i = 0; i < nc && !found; i++) if (in[i] && c.contains(Key{cand[i]})) { p.k[p.n] = cand[i]; found = true; } A(found, "an entry was never inserted"); p.n++; }
}
static void thread(Cache* c, unsigned t) { for (unsigned i = 0; i < no; i++) run(*c, ops[t][i]); }
H(p20) {
  nt = psx_param("T", 2); no = psx_param("N", 1); unsigned fill = psx_param("fill", 2); uint64_t cap = psx_param("cap", 2); bool races = psx_param("races", 1); char nm[4] = "o00";
  Cache c(cap); Ref m(cap); uint16_t cand[16]; unsigned nc = 0;
  for (unsigned i = 0; i < fill; i++) { uint16_t k = psx_u16("key"); Val v = psx_u32("value"); psx_assume(m.find(k) < 0); c.insert(Key{k}, v); m.insert(k, v, false); cand[nc++] = k; }
  for (unsigned t = 0; t < nt; t++) for (unsigned i = 0; i < no; i++) { nm[1] = (char)('0' + t); nm[2] = (char)('0' + i); gen(ops[t][i], (int)psx_param(nm, -1)); if (ops[t][i].kind <= ASSIGN) cand[nc++] = ops[t][i].key; }
  psx_sched(-1, 0, 0, races);
  { std::thread th[MT]; for (unsigned t = 1; t < nt; t++) th[t] = std::thread(thread, &c, t); thread(&c, 0); for (unsigned t = 1; t < nt; t++) th[t].join(); }
  psx_sched(-1, 0, 0, 0);
  Probe p; drainInto(c, p, cand, nc);
  // values and recency: the values are read on a second pass, from the entries the model says remain
  for (unsigned t = 0; t < nt; t++) for (unsigned i = 0; i < no; i++) { psx_observe(ops[t][i].ret); psx_observe(ops[t][i].out); psx_observe(ops[t][i].sz); } psx_observe(p.size);
  if (p.size) { Val v = 0; A(c.get(Key{p.k[p.n - 1]}, v), "get misses an entry"); for (unsigned i = 0; i < p.n; i++) p.v[i] = 0; p.v[p.n - 1] = v; }
  // compare everything but the values of evicted entries
  struct L { static bool go(const Ref& m, unsigned* at, const Probe& p) { bool done = true; for (unsigned t = 0; t < nt; t++) if (at[t] < no) { done = false; Ref c = m; if (sim(c, ops[t][at[t]])) { at[t]++; bool r = go(c, at, p); at[t]--; if (r) return true; } } if (!done) return false; if (m.n != p.size || m.cap != p.cap) return false; for (unsigned i = 0; i < m.n; i++) if (m.k[m.n - 1 - i] != p.k[i]) return false; return !m.n || m.v[0] == p.v[p.n - 1]; } };
  unsigned at[MT] = {}; A(L::go(m, at, p), "the results of concurrent calls fit no order of the calls"); psx_cover("checked");
}
