// wide-character memory functions (also compiled into -fshort-wchar harnesses)
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
#ifdef __clang__
int psx_is_symbolic(unsigned long);
#endif
void* memcpy(void*, const void*, size_t); void* memmove(void*, const void*, size_t);
size_t wcslen(const wchar_t* s) { size_t n = 0; while (s[n]) n++; return n; }
int wmemcmp(const wchar_t* x, const wchar_t* y, size_t n) { int r = 0; for (size_t i = n; i-- > 0;) { int d = x[i] < y[i] ? -1 : 1; r = x[i] == y[i] ? r : d; } return r; }
#if defined(__cplusplus) && !defined(__clang__)
extern "C++" const wchar_t* wmemchr(const wchar_t* s, wchar_t c, size_t n)
#else
wchar_t* wmemchr(const wchar_t* s, wchar_t c, size_t n)
#endif
{
#ifdef __clang__
  size_t k = 0; if (psx_is_symbolic((unsigned long)c)) { while (k < n && k < 64 && !psx_is_symbolic((unsigned long)s[k]) && (unsigned)s[k] == (unsigned)s[0] + k) k++; if (n > 1 && k == n) { unsigned d = (unsigned)c - (unsigned)s[0]; if (d < n) return (wchar_t*)(s + d); return 0; } }
#endif
  for (size_t i = 0; i < n; i++) if (s[i] == c) return (wchar_t*)(s + i); return 0; }
wchar_t* wmemcpy(wchar_t* d, const wchar_t* s, size_t n) { memcpy(d, s, n * sizeof(wchar_t)); return d; }
wchar_t* wmemmove(wchar_t* d, const wchar_t* s, size_t n) { memmove(d, s, n * sizeof(wchar_t)); return d; }
wchar_t* wmemset(wchar_t* d, wchar_t c, size_t n) { for (size_t i = 0; i < n; i++) d[i] = c; return d; }
int wcscmp(const wchar_t* a, const wchar_t* b) { size_t i = 0; while (a[i] && a[i] == b[i]) i++; return a[i] < b[i] ? -1 : a[i] > b[i]; }
#ifdef __cplusplus
}
#endif
