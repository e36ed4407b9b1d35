// P30: file_name over every path text up to a length, alone and embedded in longer text.
#include "hx.h"
#include <ctime>
#include <cstdint>
#include <pluto/platform.hpp>
static void run(size_t pre, size_t K, size_t post) {
  size_t n = pre + K + post; Exact<char> e(n + 1); const char fill[] = "ab/cd\\ef.gh";
  for (size_t i = 0; i < pre; i++) e[i] = fill[i % 11]; for (size_t i = 0; i < K; i++) e[pre + i] = (char)psx_u8("c"); for (size_t i = 0; i < post; i++) e[pre + K + i] = (char)('m' + i % 5); e[n] = 0;
  size_t want = 0, len = n; bool ended = false;  // the text ends at the first NUL
  for (size_t i = 0; i < n; i++) { bool z = e[i] == 0; ended |= z; bool sep = !ended & ((e[i] == '/') | (e[i] == '\\')); want = sep ? i + 1 : want; }
  const char* r = pluto::file_name(e.p); psx_observe((uint64_t)(r - e.p));
  psx_assert(r == e.p + want, "P30 file_name: not the part after the last separator"); psx_cover("checked"); (void)len;
}
H(p30_any) { run(psx_param("pre", 0), psx_param("K", 4), psx_param("post", 0)); }
