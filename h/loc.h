// Locales with arbitrary (symbolic) classification and case mapping of the elements a harness declares.
#pragma once
#include "hx.h"
#include <locale>
// What a locale says about elements: the first matching declaration counts, everything else is unclassified and maps to itself.
template<class E, unsigned N = 12> struct Chain {
  E e[N]; uint16_t m[N]; E u[N], l[N]; unsigned n = 0;
  void declare(E x, const char* tag) { if (n >= N) psx_error("Chain full"); e[n] = x; m[n] = psx_u16("class"); u[n] = sym<E>("upper"); l[n] = sym<E>("lower"); n++; (void)tag; }
  uint16_t cls(E c) const { uint16_t r = 0; for (unsigned i = n; i-- > 0;) { uint16_t x = m[i]; r = c == e[i] ? x : r; } return r; }
  E up(E c) const { E r = c; for (unsigned i = n; i-- > 0;) { E x = u[i]; r = c == e[i] ? x : r; } return r; }
  E lo(E c) const { E r = c; for (unsigned i = n; i-- > 0;) { E x = l[i]; r = c == e[i] ? x : r; } return r; }
};
template<class E> struct Fac;
template<> struct Fac<char> : std::ctype<char> {
  const Chain<char>* ch;
  static mask* marker() { static mask t[1]; return t; }
  static mask* tab(const Chain<char>* c) { if (!psx_native()) return marker(); mask* t = new mask[256]; for (int i = 0; i < 256; i++) t[i] = c->cls((char)i); return t; }
  explicit Fac(const Chain<char>* c);
  char do_toupper(char c) const override { return ch->up(c); }
  const char* do_toupper(char* b, const char* e) const override { for (; b < e; ++b) *b = ch->up(*b); return e; }
  char do_tolower(char c) const override { return ch->lo(c); }
  const char* do_tolower(char* b, const char* e) const override { for (; b < e; ++b) *b = ch->lo(*b); return e; }
};
#ifndef PSX_NATIVE
static bool facIs(const std::ctype<char>* f, unsigned m, unsigned char c) { return f->table() == Fac<char>::marker() ? (static_cast<const Fac<char>*>(f)->ch->cls((char)c) & m) != 0 : (f->table()[c] & m) != 0; }
inline Fac<char>::Fac(const Chain<char>* c) : std::ctype<char>(tab(c), false), ch(c) { psx_ctype_is = facIs; }
#else
inline Fac<char>::Fac(const Chain<char>* c) : std::ctype<char>(tab(c), true), ch(c) {}
#endif
template<> struct Fac<wchar_t> : std::ctype<wchar_t> {
  const Chain<wchar_t>* ch; explicit Fac(const Chain<wchar_t>* c) : ch(c) {}
  bool do_is(mask m, wchar_t c) const override { return (ch->cls(c) & m) != 0; }
  const wchar_t* do_is(const wchar_t* b, const wchar_t* e, mask* v) const override { for (; b < e; ++b) *v++ = ch->cls(*b); return e; }
  const wchar_t* do_scan_is(mask m, const wchar_t* b, const wchar_t* e) const override { while (b < e && !(ch->cls(*b) & m)) ++b; return b; }
  const wchar_t* do_scan_not(mask m, const wchar_t* b, const wchar_t* e) const override { while (b < e && (ch->cls(*b) & m)) ++b; return b; }
  wchar_t do_toupper(wchar_t c) const override { return ch->up(c); }
  const wchar_t* do_toupper(wchar_t* b, const wchar_t* e) const override { for (; b < e; ++b) *b = ch->up(*b); return e; }
  wchar_t do_tolower(wchar_t c) const override { return ch->lo(c); }
  const wchar_t* do_tolower(wchar_t* b, const wchar_t* e) const override { for (; b < e; ++b) *b = ch->lo(*b); return e; }
};
template<class E> struct World { static Chain<E> given, dflt; };
template<class E> Chain<E> World<E>::given; template<class E> Chain<E> World<E>::dflt;
inline std::locale mkLocale(const Chain<char>& c, const Chain<wchar_t>& w) { return std::locale(std::locale(std::locale::classic(), (std::ctype<char>*)new Fac<char>(&c)), (std::ctype<wchar_t>*)new Fac<wchar_t>(&w)); }
inline std::locale hxDefaultLocale() { return mkLocale(World<char>::dflt, World<wchar_t>::dflt); }
inline std::locale hxGivenLocale() { return mkLocale(World<char>::given, World<wchar_t>::given); }
#define PLUTO_LOCALE_DEFAULT_LOCALE hxDefaultLocale()
