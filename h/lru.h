// Reference model of the LRU cache (P19, P20): entries in use order, most recent first.
#pragma once
#include "hx.h"
#include <functional>
struct Key { uint16_t k; }; inline bool operator<(const Key& a, const Key& b) { return a.k < b.k; } inline bool operator==(const Key& a, const Key& b) { return a.k == b.k; } inline bool operator!=(const Key& a, const Key& b) { return a.k != b.k; } inline bool operator>(const Key& a, const Key& b) { return a.k > b.k; } inline bool operator<=(const Key& a, const Key& b) { return a.k <= b.k; } inline bool operator>=(const Key& a, const Key& b) { return a.k >= b.k; }
namespace std { template<> struct hash<Key> { size_t operator()(const Key& k) const { return k.k; } }; }
typedef uint32_t Val;
struct Ref {
  uint16_t k[16]; Val v[16]; unsigned n = 0; uint64_t cap;
  explicit Ref(uint64_t c) : cap(c) {}
  int find(uint16_t x) const { for (unsigned i = 0; i < n; i++) if (k[i] == x) return (int)i; return -1; }
  void front(int i, Val val) { uint16_t key = k[i]; for (int j = i; j > 0; j--) { k[j] = k[j - 1]; v[j] = v[j - 1]; } k[0] = key; v[0] = val; }
  bool insert(uint16_t x, Val val, bool assign) { int i = find(x); if (i < 0) { if (cap) { if (n >= cap) n = (unsigned)cap - 1; k[n] = x; v[n] = val; n++; front((int)n - 1, val); } return true; } if (assign) front(i, val); return false; }
  bool get(uint16_t x, Val& out) { int i = find(x); if (i < 0) return false; out = v[i]; front(i, out); return true; }
  bool remove(uint16_t x) { int i = find(x); if (i < 0) return false; for (unsigned j = (unsigned)i; j + 1 < n; j++) { k[j] = k[j + 1]; v[j] = v[j + 1]; } n--; return true; }
  void capacity(uint64_t c) { cap = c; if (n > c) n = (unsigned)c; }
};
