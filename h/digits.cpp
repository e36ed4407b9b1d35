// P04: bin, oct, hex for one value of every built-in integer type.
#include "hx.h"
#include <pluto/string.hpp>
template<size_t N> struct Un; template<> struct Un<1> { typedef uint8_t t; }; template<> struct Un<2> { typedef uint16_t t; }; template<> struct Un<4> { typedef uint32_t t; }; template<> struct Un<8> { typedef uint64_t t; };
// Reads the digits back; every digit of the type that is not a leading zero must be there, in lower case, after the prefix.
template<class U> static void check(const std::string& s, U u, unsigned per, char mark, const char* what) {
  const unsigned bits = sizeof(U) * 8, digits = (bits + per - 1) / per; obsStr(s);
  bool ok = s.size() >= 3 && s.size() <= 2 + digits && s[0] == '0' && s[1] == mark; psx_assert(ok, what);
  ok = s.size() == 3 || s[2] != '0'; unsigned n = (unsigned)s.size() - 2;
  for (unsigned i = 0; i < n; i++) { unsigned lo = (n - 1 - i) * per; unsigned char d = (unsigned char)((u >> lo) & ((1u << per) - 1)); unsigned char c = (unsigned char)s[2 + i]; ok &= c == (unsigned char)(d < 10 ? '0' + d : 'a' + (d - 10)); }
  unsigned top = n * per; if (top < bits) ok &= (u >> top) == 0;
  psx_assert(ok, what); psx_cover("checked");
}
template<class T> static T any() { typename Un<sizeof(T)>::t u; psx_symbolic(&u, sizeof u, "value"); return (T)u; }
template<> bool any<bool>() { uint8_t u = psx_u8("value"); psx_assume(u <= 1); return u != 0; }
template<class T> static void one(int what) {
  T v = any<T>(); typedef typename Un<sizeof(T)>::t U; U u = (U)v;
  if (what == 0) check<U>(pluto::bin(v), u, 1, 'b', "P04 bin: not the exact binary digits"); else if (what == 1) check<U>(pluto::oct(v), u, 3, 'o', "P04 oct: not the exact octal digits"); else check<U>(pluto::hex(v), u, 4, 'x', "P04 hex: not the exact hexadecimal digits");
}
#define DG(N, T) H(p04_##N) { one<T>((int)psx_param("fn", 0)); }
DG(bool, bool) DG(char, char) DG(schar, signed char) DG(uchar, unsigned char) DG(short, short) DG(ushort, unsigned short) DG(int, int) DG(uint, unsigned) DG(long, long) DG(ulong, unsigned long) DG(llong, long long) DG(ullong, unsigned long long) DG(wchar, wchar_t) DG(char16, char16_t) DG(char32, char32_t)
#if __cplusplus >= 202002L
DG(char8, char8_t)
#endif
