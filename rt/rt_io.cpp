// In-memory file system (both engines) and, for the symbolic engine, the compiled part of iostreams. Contains no PlutoUtils code.
#include "psx.h"
#include "overlay_io/fsx.h"
#include <locale>
#include <ostream>
#include <iomanip>
#include <ctime>
#include <sstream>
#include <cstring>
namespace fsx {
static std::vector<Node>& nodes() { static std::vector<Node>* v = new std::vector<Node>; return *v; } static std::vector<Inode>& inodes() { static std::vector<Inode>* v = new std::vector<Inode>; return *v; }
static int fo, fx; static const std::string* cw;
const std::string& cwd() { if (!cw) { cw = new std::string("/w"); mkdirs("/w"); } return *cw; }
static std::string norm(const std::string& n) { std::string s = n.empty() || n[0] != '/' ? cwd() + "/" + n : n; std::string r; for (size_t i = 0; i < s.size(); i++) if (s[i] != '/' || r.empty() || r.back() != '/') r += s[i]; if (r.size() > 1 && r.back() == '/') r.pop_back(); return r; }
static int at(const std::string& n) { auto& v = nodes(); for (size_t i = 0; i < v.size(); i++) if (v[i].name == n) return (int)i; return -1; }
static int own(const std::string& n) { int i = at(n); return i; }
int find(const std::string& name) { cwd(); std::string n = norm(name); if (n == "/") { if (at(n) < 0) nodes().push_back({n, true, -1}); } return own(n); }
bool isDir(const std::string& name) { std::string n = norm(name); if (n == "/") return true; int i = at(n); return i >= 0 && nodes()[i].dir; }
static std::string up(const std::string& n) { size_t i = n.rfind('/'); return i == 0 ? "/" : n.substr(0, i); }
bool parentIsDir(const std::string& name) { return isDir(up(norm(name))); }
bool fails(Call c) { int& k = c == OPEN ? fo : fx; if (k > 0 && psx_pick(2, c == OPEN ? "open fails" : "file operation fails")) { k--; return true; } return false; }
void faults(int o, int x) { fo = o; fx = x; }
int open(const std::string& name, bool write, bool trunc, bool create) {
  cwd(); std::string n = norm(name); int i = at(n); if (i >= 0 && nodes()[i].dir) return -1; if (fails(OPEN)) return -1;
  if (i < 0) { if (!create || !isDir(up(n))) return -1; inodes().push_back({}); nodes().push_back({n, false, (int)inodes().size() - 1}); return (int)inodes().size() - 1; }
  if (trunc) inodes()[nodes()[i].inode].data.clear(); return nodes()[i].inode;
}
bool mkdir(const std::string& name) { std::string n = norm(name); if (at(n) >= 0 || !isDir(up(n))) return false; nodes().push_back({n, true, -1}); return true; }
bool mkdirs(const std::string& name) { std::string n = norm(name); if (n == "/" || isDir(n)) return true; if (at(n) >= 0 || !mkdirs(up(n))) return false; nodes().push_back({n, true, -1}); return true; }
bool remove(const std::string& name) { std::string n = norm(name); int i = at(n); if (i < 0) return false; if (nodes()[i].dir) for (auto& k : nodes()) if (k.name.size() > n.size() && k.name.compare(0, n.size(), n) == 0 && k.name[n.size()] == '/') return false; nodes().erase(nodes().begin() + i); return true; }
int rename(const std::string& a, const std::string& b) { std::string x = norm(a), y = norm(b); int i = at(x); if (i < 0 || nodes()[i].dir || !isDir(up(y))) return 1; if (x == y) return 0; int j = at(y); if (j >= 0) { if (nodes()[j].dir) return 1; nodes().erase(nodes().begin() + j); i = at(x); } nodes()[i].name = y; return 0; }
std::string& data(int i) { return inodes()[i].data; } unsigned files() { return (unsigned)nodes().size(); } const Node& node(unsigned i) { return nodes()[i]; }
void put(const std::string& name, const std::string& d) { std::string n = norm(name); cwd(); mkdirs(up(n)); int i = at(n); if (i < 0) { inodes().push_back({}); nodes().push_back({n, false, (int)inodes().size() - 1}); i = (int)nodes().size() - 1; } inodes()[nodes()[i].inode].data = d; }
bool get(const std::string& name, std::string& out) { std::string n = norm(name); int i = at(n); if (i < 0 || nodes()[i].dir) return false; out = inodes()[nodes()[i].inode].data; return true; }
}
#ifndef PSX_NATIVE
namespace std {
// ---- ios_base
ios_base::ios_base() throw() : _M_precision(), _M_width(), _M_flags(), _M_exception(), _M_streambuf_state(), _M_callbacks(nullptr), _M_word_zero(), _M_word_size(_S_local_word_size), _M_word(_M_local_word), _M_ios_locale() {}
ios_base::~ios_base() {}
void ios_base::_M_init() throw() { _M_precision = 6; _M_width = 0; _M_flags = skipws | dec; _M_ios_locale = locale(); }
locale ios_base::imbue(const locale& l) throw() { locale o = _M_ios_locale; _M_ios_locale = l; return o; }
void ios_base::_M_call_callbacks(event) throw() {} void ios_base::_M_dispose_callbacks() throw() {}
void __throw_ios_failure(const char* s) { throw runtime_error(s); } void __throw_ios_failure(const char* s, int) { throw runtime_error(s); }
ios_base::Init::Init() {} ios_base::Init::~Init() {}
// ---- facets used by inserters
template<class C> static void punct(__numpunct_cache<C>*& d, const C* t, const C* f) { if (!d) d = new __numpunct_cache<C>; d->_M_grouping = ""; d->_M_grouping_size = 0; d->_M_use_grouping = false; d->_M_decimal_point = (C)'.'; d->_M_thousands_sep = (C)','; for (size_t i = 0; i < __num_base::_S_oend; ++i) d->_M_atoms_out[i] = (C)__num_base::_S_atoms_out[i]; for (size_t j = 0; j < __num_base::_S_iend; ++j) d->_M_atoms_in[j] = (C)__num_base::_S_atoms_in[j]; d->_M_truename = t; d->_M_truename_size = 4; d->_M_falsename = f; d->_M_falsename_size = 5; }
template<> void numpunct<char>::_M_initialize_numpunct(__c_locale) { punct<char>(_M_data, "true", "false"); } template<> void numpunct<wchar_t>::_M_initialize_numpunct(__c_locale) { punct<wchar_t>(_M_data, L"true", L"false"); }
template<> numpunct<char>::~numpunct() { delete _M_data; } template<> numpunct<wchar_t>::~numpunct() { delete _M_data; }
const char* __num_base::_S_atoms_in = "-+xX0123456789abcdefABCDEF"; const char* __num_base::_S_atoms_out = "-+xX0123456789abcdef0123456789ABCDEF";
void __num_base::_S_format_float(const ios_base&, char*, char) throw() { psx_error("floating-point output is not modelled"); }
template<> basic_istream<char>& operator>>(basic_istream<char>& in, basic_string<char>& str) {   // the general template's algorithm; libstdc++ has a specialisation outside the headers
  size_t n = 0; ios_base::iostate err = ios_base::goodbit; basic_istream<char>::sentry ok(in, false);
  if (ok) { str.erase(); streamsize w = in.width(); size_t max = w > 0 ? (size_t)w : str.max_size(); const auto& ct = use_facet<ctype<char>>(in.getloc()); int c = in.rdbuf()->sgetc(); while (n < max && c != EOF && !ct.is(ctype_base::space, (char)c)) { str += (char)c; n++; c = in.rdbuf()->snextc(); } if (n < max && c == EOF) err |= ios_base::eofbit; in.width(0); }
  if (!n) err |= ios_base::failbit; if (err) in.setstate(err); return in;
}
__c_locale locale::facet::_S_get_c_locale() { return nullptr; } const char* locale::facet::_S_get_c_name() throw() { return "C"; } void locale::facet::_S_destroy_c_locale(__c_locale&) {}
// time_put: the numeric conversions of strftime in the C locale
template<> void __timepunct<char>::_M_initialize_timepunct(__c_locale) {}
template<> void __timepunct<char>::_M_put(char* s, size_t n, const char* f, const tm* t) const throw() {
  size_t k = 0; auto num = [&](int v, int d) { char b[4]; for (int i = d; i-- > 0; v /= 10) b[i] = (char)('0' + v % 10); for (int i = 0; i < d; i++) if (k < n) s[k++] = b[i]; };
  for (; *f; f++) { if (*f != '%') { if (k < n) s[k++] = *f; continue; }
    switch (*++f) { case 'Y': num(t->tm_year + 1900, 4); break; case 'm': num(t->tm_mon + 1, 2); break; case 'd': num(t->tm_mday, 2); break; case 'H': num(t->tm_hour, 2); break; case 'M': num(t->tm_min, 2); break; case 'S': num(t->tm_sec, 2); break; case 'y': num((t->tm_year + 1900) % 100, 2); break; case 'j': num(t->tm_yday + 1, 3); break; case 'I': num(t->tm_hour % 12 ? t->tm_hour % 12 : 12, 2); break; default: psx_error("strftime model: conversion"); } }
  if (k < n) s[k] = 0;
}
void locale::_Impl::_M_install_cache(const facet* c, size_t i) { __atomic_fetch_add(&c->_M_refcount, 1, __ATOMIC_ACQ_REL); _M_caches[i] = c; }
extern "C" void psx_locale_more(locale::_Impl* i) { i->_M_install_facet(&num_put<char>::id, new num_put<char>(1)); i->_M_install_facet(&num_get<char>::id, new num_get<char>(1)); i->_M_install_facet(&numpunct<char>::id, new numpunct<char>(1)); i->_M_install_facet(&num_put<wchar_t>::id, new num_put<wchar_t>(1)); i->_M_install_facet(&num_get<wchar_t>::id, new num_get<wchar_t>(1)); i->_M_install_facet(&numpunct<wchar_t>::id, new numpunct<wchar_t>(1)); i->_M_install_facet(&time_put<char>::id, new time_put<char>(1)); i->_M_install_facet(&__timepunct<char>::id, new __timepunct<char>(1)); }
}
#endif
