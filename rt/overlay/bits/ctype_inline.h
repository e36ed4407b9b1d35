// ctype<char> classifies through a 256-entry table. For the symbolic engine the same question may be answered by a function
// (psx_ctype_is) instead of a table of symbolic entries; native replays use the real table.
#ifdef PSX_NATIVE
#include_next <bits/ctype_inline.h>
#else
extern "C" bool (*psx_ctype_is)(const std::ctype<char>*, unsigned, unsigned char);
namespace std _GLIBCXX_VISIBILITY(default) {
_GLIBCXX_BEGIN_NAMESPACE_VERSION
inline bool ctype<char>::is(mask m, char c) const { return psx_ctype_is ? psx_ctype_is(this, m, (unsigned char)c) : (_M_table[(unsigned char)c] & m) != 0; }
inline const char* ctype<char>::is(const char* b, const char* e, mask* v) const { for (; b < e; ++b) { unsigned r = 0; for (int i = 0; i < 16; i++) r |= (unsigned)is((mask)(1u << i), *b) << i; *v++ = (mask)r; } return e; }
inline const char* ctype<char>::scan_is(mask m, const char* b, const char* e) const { while (b < e && !is(m, *b)) ++b; return b; }
inline const char* ctype<char>::scan_not(mask m, const char* b, const char* e) const { while (b < e && is(m, *b)) ++b; return b; }
_GLIBCXX_END_NAMESPACE_VERSION
}
#endif
