// libc functions the harness IR calls into (C, no builtins).
#define _GNU_SOURCE
#include <stddef.h>
#include <stdlib.h>
void* memcpy(void*, const void*, size_t); void* memmove(void*, const void*, size_t);
#define isupper my_isupper
#undef isupper
// ------------------------------------------------------------------ libc strings. No forks on element values except where a length depends on them.
size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char* s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
int memcmp(const void* a, const void* b, size_t n) { const unsigned char *x = (const unsigned char*)a, *y = (const unsigned char*)b; int r = 0; for (size_t i = n; i-- > 0;) { int d = x[i] < y[i] ? -1 : 1; r = x[i] == y[i] ? r : d; } return r; }
int bcmp(const void* a, const void* b, size_t n) { const unsigned char *x = (const unsigned char*)a, *y = (const unsigned char*)b; unsigned char r = 0; for (size_t i = 0; i < n; i++) r |= x[i] ^ y[i]; return r; }
int psx_is_symbolic(unsigned long);
void* memchr(const void* s, int c, size_t n) { const unsigned char* q = (const unsigned char*)s; size_t k = 0;
  if (psx_is_symbolic((unsigned char)c)) { while (k < n && k < 64 && !psx_is_symbolic(q[k]) && q[k] == q[0] + k) k++; if (n > 1 && k == n) { unsigned char d = (unsigned char)((unsigned char)c - q[0]); if (d < n) return (void*)(q + d); return 0; } }   // consecutive values: one case instead of n
  const unsigned char* p = (const unsigned char*)s; for (size_t i = 0; i < n; i++) if (p[i] == (unsigned char)c) return (void*)(p + i); return 0; }
void* memrchr(const void* s, int c, size_t n) { const unsigned char* p = (const unsigned char*)s; for (size_t i = n; i-- > 0;) if (p[i] == (unsigned char)c) return (void*)(p + i); return 0; }
void* memmem(const void* h, size_t hn, const void* d, size_t dn) { for (size_t i = 0; i + dn <= hn; i++) if (!bcmp((const char*)h + i, d, dn)) return (char*)h + i; return 0; }
int strcmp(const char* a, const char* b) { size_t i = 0; while (a[i] && a[i] == b[i]) i++; return (unsigned char)a[i] - (unsigned char)b[i]; }
int strncmp(const char* a, const char* b, size_t n) { for (size_t i = 0; i < n; i++) { if (a[i] != b[i]) return (unsigned char)a[i] - (unsigned char)b[i]; if (!a[i]) return 0; } return 0; }
char* strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return 0; } }
char* strrchr(const char* s, int c) { const char* r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
char* strstr(const char* h, const char* d) { size_t n = strlen(d), m = strlen(h); return (char*)memmem(h, m, d, n); }
char* strpbrk(const char* s, const char* a) { for (; *s; s++) for (const char* q = a; *q; q++) if (*q == *s) return (char*)s; return 0; }
size_t strspn(const char* s, const char* a) { size_t n = 0; for (; s[n]; n++) { _Bool in = 0; for (const char* q = a; *q; q++) in |= *q == s[n]; if (!in) break; } return n; }
size_t strcspn(const char* s, const char* a) { size_t n = 0; for (; s[n]; n++) { _Bool in = 0; for (const char* q = a; *q; q++) in |= *q == s[n]; if (in) break; } return n; }
char* strcpy(char* d, const char* s) { size_t i = 0; do d[i] = s[i]; while (s[i++]); return d; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char* stpcpy(char* d, const char* s) { size_t i = 0; do d[i] = s[i]; while (s[i++]); return d + i - 1; }
char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
int abs(int x) { return x < 0 ? -x : x; }
long labs(long x) { return x < 0 ? -x : x; }
long long llabs(long long x) { return x < 0 ? -x : x; }
div_t div(int a, int b) { return (div_t){a / b, a % b}; }
ldiv_t ldiv(long a, long b) { return (ldiv_t){a / b, a % b}; }
int isascii(int c) { return (unsigned)c < 128; }
// "C" locale classification
int isupper(int c) { return c >= 'A' && c <= 'Z'; } int islower(int c) { return c >= 'a' && c <= 'z'; } int isalpha(int c) { return isupper(c) || islower(c); } int isdigit(int c) { return c >= '0' && c <= '9'; } int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); } int isblank(int c) { return c == ' ' || c == 9; } int iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; } int isprint(int c) { return c >= 32 && c < 127; } int isgraph(int c) { return c > 32 && c < 127; } int ispunct(int c) { return isgraph(c) && !isalnum(c); } int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int tolower(int c) { return isupper(c) ? c + 32 : c; } int toupper(int c) { return islower(c) ? c - 32 : c; }
int* __errno_location() { static _Thread_local int e; return &e; }
char* getenv(const char*) { return 0; }
int putchar(int c) { return c; } int puts(const char*) { return 0; }
