// Model of std::locale and its ctype facets: reference-counted implementations that own their facets, as the standard says
// (a facet lives as long as some locale that holds it). Contains no PlutoUtils code. Built with -fno-access-control.
#include "psx.h"
#include <locale>
#include <stdexcept>
#include <cctype>
#include <cstring>
extern "C" __attribute__((weak)) void psx_locale_more(std::locale::_Impl*) {}   // further facets (rt_io.cpp)
extern "C" { bool (*psx_ctype_is)(const std::ctype<char>*, unsigned, unsigned char) = nullptr; }
namespace std {
static const size_t NF = 16; static unsigned nextId;
const int locale::none; const int locale::ctype; const int locale::all;
size_t locale::id::_M_id() const throw() { if (!_M_index) { if (nextId + 1 >= NF) psx_error("locale model: too many facet kinds"); _M_index = ++nextId; } return _M_index; }
locale::facet::~facet() {}
locale::id ctype<char>::id; locale::id ctype<wchar_t>::id;
locale::_Impl::_Impl(size_t r) throw() : _M_refcount((int)r), _M_facets((const facet**)::operator new(NF * sizeof(void*))), _M_facets_size(NF), _M_caches((const facet**)::operator new(NF * sizeof(void*))), _M_names((char**)::operator new(16 * sizeof(char*))) { for (size_t i = 0; i < NF; i++) _M_facets[i] = _M_caches[i] = nullptr; for (size_t i = 0; i < 16; i++) _M_names[i] = nullptr; }
locale::_Impl::_Impl(const _Impl& o, size_t r) : _Impl(r) { for (size_t i = 0; i < NF; i++) if ((_M_facets[i] = o._M_facets[i])) __atomic_fetch_add(&_M_facets[i]->_M_refcount, 1, __ATOMIC_ACQ_REL); }
static void drop(const locale::facet* f) { if (__atomic_fetch_sub(&f->_M_refcount, 1, __ATOMIC_ACQ_REL) == 1) delete f; }
locale::_Impl::~_Impl() throw() { for (size_t i = 0; i < NF; i++) { if (_M_facets[i]) drop(_M_facets[i]); if (_M_caches[i]) drop(_M_caches[i]); } ::operator delete(_M_facets); ::operator delete(_M_caches); ::operator delete(_M_names); }
void locale::_Impl::_M_install_facet(const locale::id* i, const facet* f) { if (!f) return; size_t n = i->_M_id(); __atomic_fetch_add(&f->_M_refcount, 1, __ATOMIC_ACQ_REL); if (_M_facets[n]) drop(_M_facets[n]); _M_facets[n] = f; }
void locale::_Impl::_M_replace_facet(const _Impl* o, const locale::id* i) { size_t n = i->_M_id(); if (!o->_M_facets[n]) throw runtime_error("locale::_Impl::_M_replace_facet"); _M_install_facet(i, o->_M_facets[n]); }
static void add(locale::_Impl* i) { __atomic_fetch_add(&i->_M_refcount, 1, __ATOMIC_ACQ_REL); }
static void release(locale::_Impl* i) { if (__atomic_fetch_sub(&i->_M_refcount, 1, __ATOMIC_ACQ_REL) == 1) delete i; }
locale::_Impl *locale::_S_classic, *locale::_S_global;
static locale::_Impl* classicImpl() { if (!locale::_S_classic) { auto* i = new locale::_Impl(2); i->_M_install_facet(&ctype<char>::id, new ctype<char>(nullptr, false, 1)); i->_M_install_facet(&ctype<wchar_t>::id, new ctype<wchar_t>(1)); psx_locale_more(i); locale::_S_classic = i; locale::_S_global = i; } return locale::_S_classic; }
static char cbuf[sizeof(locale)];
const locale& locale::classic() { classicImpl(); *(_Impl**)cbuf = _S_classic; return *(locale*)cbuf; }
locale::locale() throw() { classicImpl(); _M_impl = _S_global; add(_M_impl); }
locale::locale(const locale& o) throw() : _M_impl(o._M_impl) { add(_M_impl); }
locale::locale(_Impl* i) throw() : _M_impl(i) {}
__attribute__((weak)) locale::locale(const char* s) { if (!s) throw logic_error("locale::locale null not valid"); if (*s && !((s[0] == 'C' && !s[1]))) throw runtime_error("locale::facet::_S_create_c_locale name not valid"); _M_impl = classicImpl(); add(_M_impl); }
locale::~locale() throw() { release(_M_impl); }
const locale& locale::operator=(const locale& o) throw() { add(o._M_impl); release(_M_impl); _M_impl = o._M_impl; return *this; }
locale locale::global(const locale& l) { classicImpl(); _Impl* o = _S_global; add(l._M_impl); _S_global = l._M_impl; return locale(o); }
bool locale::operator==(const locale& o) const throw() { return _M_impl == o._M_impl; }
// ---- ctype<char>
static const ctype_base::mask* ctab() {
  static ctype_base::mask t[257]; static bool done;
  if (!done) { done = true; for (int c = 0; c < 128; c++) { unsigned m = 0; if (isupper(c)) m |= ctype_base::upper; if (islower(c)) m |= ctype_base::lower; if (isalpha(c)) m |= ctype_base::alpha; if (isdigit(c)) m |= ctype_base::digit; if (isxdigit(c)) m |= ctype_base::xdigit; if (isspace(c)) m |= ctype_base::space; if (isprint(c)) m |= ctype_base::print; if (iscntrl(c)) m |= ctype_base::cntrl; if (ispunct(c)) m |= ctype_base::punct; if (isblank(c)) m |= ctype_base::blank; t[c] = (ctype_base::mask)m; } }
  return t;
}
const ctype<char>::mask* ctype<char>::classic_table() throw() { return ctab(); }
ctype<char>::ctype(const mask* t, bool del, size_t r) : facet(r), _M_c_locale_ctype(nullptr), _M_del(t && del), _M_toupper(nullptr), _M_tolower(nullptr), _M_table(t ? t : ctab()), _M_widen_ok(0), _M_narrow_ok(0) { memset(_M_narrow, 0, sizeof _M_narrow); }
ctype<char>::ctype(__c_locale, const mask* t, bool del, size_t r) : ctype(t, del, r) {}
ctype<char>::~ctype() { if (_M_del) delete[] _M_table; }
char ctype<char>::do_toupper(char c) const { return (char)(c >= 'a' && c <= 'z' ? c - 32 : c); }
char ctype<char>::do_tolower(char c) const { return (char)(c >= 'A' && c <= 'Z' ? c + 32 : c); }
const char* ctype<char>::do_toupper(char* b, const char* e) const { for (; b < e; ++b) *b = do_toupper(*b); return e; }
const char* ctype<char>::do_tolower(char* b, const char* e) const { for (; b < e; ++b) *b = do_tolower(*b); return e; }
void ctype<char>::_M_narrow_init() const { _M_narrow_ok = 1; } void ctype<char>::_M_widen_init() const { _M_widen_ok = 1; for (int i = 0; i < 256; i++) _M_widen[i] = (char)i; }
// ---- ctype<wchar_t>
ctype<wchar_t>::ctype(size_t r) : __ctype_abstract_base<wchar_t>(r), _M_c_locale_ctype(nullptr), _M_narrow_ok(false) {}
ctype<wchar_t>::~ctype() {}
bool ctype<wchar_t>::do_is(mask m, wchar_t c) const { return (unsigned)c < 128 && (ctab()[(unsigned)c & 127] & m); }
const wchar_t* ctype<wchar_t>::do_is(const wchar_t* b, const wchar_t* e, mask* v) const { for (; b < e; ++b) *v++ = (unsigned)*b < 128 ? ctab()[(unsigned)*b & 127] : 0; return e; }
const wchar_t* ctype<wchar_t>::do_scan_is(mask m, const wchar_t* b, const wchar_t* e) const { while (b < e && !do_is(m, *b)) ++b; return b; }
const wchar_t* ctype<wchar_t>::do_scan_not(mask m, const wchar_t* b, const wchar_t* e) const { while (b < e && do_is(m, *b)) ++b; return b; }
wchar_t ctype<wchar_t>::do_toupper(wchar_t c) const { return c >= L'a' && c <= L'z' ? c - 32 : c; }
wchar_t ctype<wchar_t>::do_tolower(wchar_t c) const { return c >= L'A' && c <= L'Z' ? c + 32 : c; }
const wchar_t* ctype<wchar_t>::do_toupper(wchar_t* b, const wchar_t* e) const { for (; b < e; ++b) *b = do_toupper(*b); return e; }
const wchar_t* ctype<wchar_t>::do_tolower(wchar_t* b, const wchar_t* e) const { for (; b < e; ++b) *b = do_tolower(*b); return e; }
wchar_t ctype<wchar_t>::do_widen(char c) const { return (unsigned char)c; }
const char* ctype<wchar_t>::do_widen(const char* b, const char* e, wchar_t* d) const { while (b < e) *d++ = (unsigned char)*b++; return e; }
char ctype<wchar_t>::do_narrow(wchar_t c, char d) const { return (unsigned)c < 128 ? (char)c : d; }
const wchar_t* ctype<wchar_t>::do_narrow(const wchar_t* b, const wchar_t* e, char d, char* o) const { while (b < e) *o++ = do_narrow(*b++, d); return e; }
}
