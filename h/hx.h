// Shared harness helpers.
#pragma once
#include "psx.h"
#include <cstring>
#include <string>
#include <vector>
// A buffer of exactly n elements on the heap: every access outside it is a violation.
template<class T> struct Exact { T* p; size_t n; explicit Exact(size_t k) : p((T*)::operator new(k * sizeof(T))), n(k) {} ~Exact() { ::operator delete(p); } T& operator[](size_t i) { return p[i]; } Exact(const Exact&) = delete; };
template<class T> inline T sym(const char* n) { T x; psx_symbolic(&x, sizeof(T), n); return x; }
inline void obsStr(const std::string& s) { psx_observe(s.size()); for (char c : s) psx_observe((unsigned char)c); }
template<class S> inline void obsAny(const S& s) { psx_observe(s.size()); for (auto c : s) psx_observe((uint64_t)(int64_t)c); }
// Append-only expected sequence, compared without forking on values.
template<class T, size_t N = 256> struct Seq { T v[N]; size_t n = 0; void add(T x) { if (n >= N) psx_error("Seq full"); v[n++] = x; } };
template<class C, class T, size_t N> inline bool same(const C& got, const Seq<T, N>& want) {
  if (got.size() != want.n) return false; bool ok = true; size_t i = 0;
  for (auto it = got.begin(); it != got.end(); ++it, ++i) ok &= (*it == want.v[i]);
  return ok;
}
