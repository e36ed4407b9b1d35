// P36: c_locale, system_locale, default_locale and use_facet. The C++ library's constructor of a named locale is replaced: which names are installed
// and what the empty name means is the environment's, changes as time goes by, and is arbitrary.
#include "thr/psx_pthread.h"
#include "hx.h"
#include <locale>
#include <stdexcept>
#include <thread>
#if CUSTOM == 1
#define PLUTO_LOCALE_DEFAULT_LOCALE "ga_IE"
#elif CUSTOM == 2
#define PLUTO_LOCALE_DEFAULT_LOCALE hxNamed("ga_IE")
#endif
static const unsigned ML = 4; static std::locale* made[ML]; static int envSystem = 1, envDefault = 2;   // what the empty and the default name mean now: a locale, or -1 for a name that is not installed
static const std::locale& nth(int i) { return *made[i]; }
static bool is(const char* s, const char* w) { while (*s && *s == *w) s++, w++; return *s == *w; }
static std::locale named(const char* s) {
  psx_yield(); if (!s) throw std::logic_error("null"); int i = is(s, "C") || is(s, "POSIX") ? 0 : is(s, "") ? envSystem : is(s, CUSTOM ? "ga_IE" : "en_US.UTF-8") ? envDefault : -1;
  if (i < 0) throw std::runtime_error("not installed"); return nth(i);
}
std::locale::locale(const char* s) : locale(named(s)) {}
inline std::locale hxNamed(const char* s) { return std::locale(s); }
#include <pluto/locale.hpp>
#define A(c, m) psx_assert((c), "P36 locale: " m)
static void begin() { made[0] = new std::locale(std::locale::classic()); for (unsigned i = 1; i < ML; i++) { std::locale l(std::locale::classic(), new std::ctype<char>(nullptr, false, 0)); made[i] = new std::locale(l, new std::ctype<wchar_t>((size_t)0)); } }
static int sys(const char* n) { int v = (int)psx_u8(n); psx_assume(v < 4); return v - 1; }
static const std::locale* seen[3]; static int fixed[3] = {-1, -1, -1};
template<class F> static void facets(const F& l) { A(&pluto::use_facet<char>(l) == &std::use_facet<std::ctype<char>>(l) && &pluto::use_facet<wchar_t>(l) == &std::use_facet<std::ctype<wchar_t>>(l), "use_facet does not give the locale's own facet"); }
static int of(const std::locale& l) { for (unsigned i = 0; i < ML; i++) if (l == nth((int)i)) return (int)i; return -2; }
#if PLUTO_LOCALE_NO_STATIC
#define CALL(f) { std::locale l = f; facets(l); return of(l); }
static int call(unsigned k, const std::locale*& p) { try { switch (k) { case 0: CALL(pluto::c_locale()) case 1: CALL(pluto::system_locale()) default: CALL(pluto::default_locale()) } } catch (const std::runtime_error&) { p = nullptr; return -1; } }
#else
#define CALL(f) { const std::locale& l = f; p = &l; facets(l); return of(l); }
static int call(unsigned k, const std::locale*& p) { try { switch (k) { case 0: CALL(pluto::c_locale()) case 1: CALL(pluto::system_locale()) default: CALL(pluto::default_locale()) } } catch (const std::runtime_error&) { p = nullptr; return -1; } }
#endif
static void check(unsigned k) {
  int now = k == 0 ? 0 : k == 1 ? envSystem : envDefault; const std::locale* p = nullptr; int g = call(k, p); psx_observe((uint64_t)(int64_t)g);
#if PLUTO_LOCALE_NO_STATIC
  A(g == now, "not the locale that name has now");
#else
  if (fixed[k] < 0) { A(g == now, "the first use does not give the locale of that name, or does not report that there is none"); if (g >= 0) { fixed[k] = g; seen[k] = p; } }
  else { A(p == seen[k], "another locale object than before"); A(g == fixed[k], "the locale changed after its first use"); }
#endif
}
H(p36_history) {
  begin(); envSystem = sys("system"); envDefault = sys("default"); unsigned n = (unsigned)psx_param("N", 3);
  for (unsigned i = 0; i < n; i++) { if (i) { unsigned e = psx_pick(4, "what changes"); if (e == 1) envSystem = sys("system"); else if (e == 2) envDefault = sys("default"); else if (e == 3) std::locale::global(nth((int)psx_pick(ML, "global"))); } check(psx_pick(3, "accessor")); }
  for (unsigned k = 0; k < 3; k++) check(k); psx_cover("checked");
}
H(p36_threads) {   // the first use by several threads
  begin(); envSystem = sys("system"); envDefault = sys("default"); unsigned c = (unsigned)psx_param("C", 2), n = (unsigned)psx_param("N", 1), k[4][2]; for (unsigned i = 0; i < c; i++) for (unsigned j = 0; j < n; j++) k[i][j] = psx_pick(3, "accessor");
  int g[4][2]; const std::locale* p[4][2]; psx_sched(-1, 0, 0, (int)psx_param("races", 0)); std::thread t[4];
  for (unsigned i = 0; i < c; i++) t[i] = std::thread([&, i] { for (unsigned j = 0; j < n; j++) { p[i][j] = nullptr; g[i][j] = call(k[i][j], p[i][j]); } }); for (unsigned i = 0; i < c; i++) t[i].join(); psx_sched(-1, 0, 0, 0);
  for (unsigned i = 0; i < c; i++) for (unsigned j = 0; j < n; j++) { int w = k[i][j] == 0 ? 0 : k[i][j] == 1 ? envSystem : envDefault; A(g[i][j] == w, "a thread got another locale");
#if !PLUTO_LOCALE_NO_STATIC
    if (w >= 0) { if (!seen[k[i][j]]) { seen[k[i][j]] = p[i][j]; fixed[k[i][j]] = w; } A(p[i][j] == seen[k[i][j]], "two threads got different objects"); }
#endif
  }
  for (unsigned m = 0; m < 3; m++) check(m); psx_cover("checked");
}
