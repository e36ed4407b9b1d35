// Model of the compiled part of the C++ runtime (libsupc++, libstdc++.so, libc) that the harnesses' IR calls into.
// Built with -fno-access-control; contains no PlutoUtils code.
#include "psx.h"
#include <cstdlib>
#include <cstring>
#include <cwchar>
#include <exception>
#include <stdexcept>
#include <new>
#include <typeinfo>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <system_error>
#include <unordered_map>
#include <string>
#include <ios>
#include <optional>
#include <variant>
#include <cxxabi.h>

// ------------------------------------------------------------------ exceptions
struct Hdr { const std::type_info* ti; void (*dtor)(void*); long ref; int handlers; int pad; Hdr* next; long dep; void* adj; void* primary; char rest[64]; };
static_assert(sizeof(Hdr) == 128, "exception header");
struct EhG { Hdr* caught; unsigned uncaught; };
static thread_local EhG eh;
static Hdr* hd(void* o) { return (Hdr*)((char*)o - 128); }
static void* ob(Hdr* h) { return (char*)h + 128; }
static void relPrimary(void* o) { Hdr* h = hd(o); if (--h->ref == 0) { if (h->dtor) h->dtor(o); free(h); } }
extern "C" {
void* __cxa_allocate_exception(size_t n) { char* p = (char*)malloc(n + 128); memset(p, 0, 128); return p + 128; }
void __cxa_free_exception(void* o) { free(hd(o)); }
void __cxa_throw(void* o, std::type_info* ti, void (*d)(void*)) { Hdr* h = hd(o); h->ti = ti; h->dtor = d; h->ref = 1; eh.uncaught++; psx_unwind(o, ti); }
void* __cxa_begin_catch(void* o) noexcept {
  Hdr* h = hd(o); int c = h->handlers; c = c < 0 ? -c + 1 : c + 1; h->handlers = c; eh.uncaught--;
  if (eh.caught != h) { h->next = eh.caught; eh.caught = h; }
  return h->adj;
}
void __cxa_end_catch() {
  Hdr* h = eh.caught; if (!h) return; int c = h->handlers;
  if (c < 0) { if (++c == 0) eh.caught = h->next; h->handlers = c; return; }
  --c; h->handlers = c;
  if (c == 0) { eh.caught = h->next; if (h->dep) { void* p = h->primary; free(h); relPrimary(p); } else relPrimary(ob(h)); }
}
void __cxa_rethrow() { Hdr* h = eh.caught; if (!h) std::terminate(); h->handlers = -h->handlers; eh.uncaught++; psx_unwind(ob(h), h->ti); }
void* __cxa_get_exception_ptr(void* o) noexcept { return hd(o)->adj; }
void __cxa_pure_virtual() { psx_fail("pure virtual function called"); }
void __cxa_deleted_virtual() { psx_fail("deleted virtual function called"); }
void __cxa_bad_cast() { throw std::bad_cast(); }
void __cxa_throw_bad_array_new_length() { throw std::bad_array_new_length(); }
int __gxx_personality_v0(...) { return 0; }
[[noreturn]] void __cxa_call_unexpected(void*) { std::terminate(); }
std::type_info* __cxa_current_exception_type() { return eh.caught ? (std::type_info*)eh.caught->ti : nullptr; }
}
extern "C" __cxxabiv1::__cxa_refcounted_exception* __cxxabiv1::__cxa_init_primary_exception(void* o, std::type_info* ti, void (*d)(void*)) noexcept { Hdr* h = hd(o); h->ti = ti; h->dtor = d; h->ref = 0; return (__cxxabiv1::__cxa_refcounted_exception*)h; }
namespace std {
bool uncaught_exception() noexcept { return eh.uncaught != 0; }
int uncaught_exceptions() noexcept { return eh.uncaught; }
namespace __exception_ptr {
exception_ptr::exception_ptr(void* p) noexcept : _M_exception_object(p) { if (p) hd(p)->ref++; }
void exception_ptr::_M_addref() noexcept { if (_M_exception_object) hd(_M_exception_object)->ref++; }
void exception_ptr::_M_release() noexcept { if (_M_exception_object) { void* p = _M_exception_object; _M_exception_object = nullptr; relPrimary(p); } }
void* exception_ptr::_M_get() const noexcept { return _M_exception_object; }
const std::type_info* exception_ptr::__cxa_exception_type() const noexcept { return hd(_M_exception_object)->ti; }
}
exception_ptr current_exception() noexcept { Hdr* h = eh.caught; if (!h) return exception_ptr(); return exception_ptr(h->dep ? h->primary : ob(h)); }
void rethrow_exception(exception_ptr ep) {
  void* p = ep._M_exception_object; char* m = (char*)malloc(128 + 16); memset(m, 0, 128); Hdr* d = (Hdr*)m; d->ti = hd(p)->ti; d->dep = 1; d->primary = p; hd(p)->ref++; d->ref = 1; eh.uncaught++;
  ep._M_release();
  psx_unwind(ob(d), d->ti);
}
#define EXC(T, W) T::~T() noexcept {} const char* T::what() const noexcept { return W; }
EXC(exception, "std::exception") EXC(bad_exception, "std::bad_exception") EXC(bad_alloc, "std::bad_alloc") EXC(bad_array_new_length, "std::bad_array_new_length") EXC(bad_cast, "std::bad_cast") EXC(bad_typeid, "std::bad_typeid") EXC(bad_function_call, "bad_function_call") EXC(bad_weak_ptr, "bad_weak_ptr")
static char* dupS(const char* s, size_t n) { char* p = (char*)malloc(n + 1); for (size_t i = 0; i < n; i++) p[i] = s[i]; p[n] = 0; return p; }
__cow_string::__cow_string() { _M_p = dupS("", 0); }
__cow_string::__cow_string(const std::string& s) { _M_p = dupS(s.data(), s.size()); }
__cow_string::__cow_string(const char* s, size_t n) { _M_p = dupS(s, n); }
__cow_string::__cow_string(const __cow_string& o) noexcept { _M_p = dupS(o._M_p, strlen(o._M_p)); }
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { char* t = dupS(o._M_p, strlen(o._M_p)); free((void*)_M_p); _M_p = t; return *this; }
__cow_string::~__cow_string() { free((void*)_M_p); }
#define EXCM(T, B) T::T(const std::string& s) : B(s) {} T::T(const char* s) : B(s) {} T::~T() noexcept {}
logic_error::logic_error(const std::string& s) : _M_msg(s) {} logic_error::logic_error(const char* s) : _M_msg(s, strlen(s)) {} logic_error::~logic_error() noexcept {} const char* logic_error::what() const noexcept { return _M_msg._M_p; }
logic_error::logic_error(const logic_error& o) noexcept : exception(o), _M_msg(o._M_msg) {} logic_error& logic_error::operator=(const logic_error& o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::runtime_error(const std::string& s) : _M_msg(s) {} runtime_error::runtime_error(const char* s) : _M_msg(s, strlen(s)) {} runtime_error::~runtime_error() noexcept {} const char* runtime_error::what() const noexcept { return _M_msg._M_p; }
runtime_error::runtime_error(const runtime_error& o) noexcept : exception(o), _M_msg(o._M_msg) {} runtime_error& runtime_error::operator=(const runtime_error& o) noexcept { _M_msg = o._M_msg; return *this; }
EXCM(domain_error, logic_error) EXCM(invalid_argument, logic_error) EXCM(length_error, logic_error) EXCM(out_of_range, logic_error) EXCM(range_error, runtime_error) EXCM(overflow_error, runtime_error) EXCM(underflow_error, runtime_error)
void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_domain_error(const char* s) { throw domain_error(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_range_error(const char* s) { throw range_error(s); }
void __throw_overflow_error(const char* s) { throw overflow_error(s); }
void __throw_underflow_error(const char* s) { throw underflow_error(s); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __glibcxx_assert_fail(const char*, int, const char*, const char*) noexcept { psx_fail("libstdc++ assertion"); }
const nothrow_t nothrow{};
new_handler get_new_handler() noexcept { return nullptr; }
// error codes
error_category::~error_category() noexcept {}
error_condition error_category::default_error_condition(int i) const noexcept { return error_condition(i, *this); }
bool error_category::equivalent(int i, const error_condition& c) const noexcept { return default_error_condition(i) == c; }
bool error_category::equivalent(const error_code& c, int i) const noexcept { return &c.category() == this && c.value() == i; }
error_condition error_code::default_error_condition() const noexcept { return category().default_error_condition(value()); }
#if _GLIBCXX_USE_CXX11_ABI
__cow_string error_category::_M_message(int) const { return __cow_string(); }
#endif
namespace { struct GenCat : error_category { const char* name() const noexcept override { return "generic"; } string message(int) const override { return "error"; } };
struct GC { alignas(GenCat) char g[sizeof(GenCat)]; alignas(GenCat) char s[sizeof(GenCat)]; GC() { new (g) GenCat; new (s) GenCat; } }; static GC gc; }
inline namespace _V2 {
const error_category& generic_category() noexcept { return *(error_category*)gc.g; }
const error_category& system_category() noexcept { return *(error_category*)gc.s; }
}
system_error::~system_error() noexcept {}
void __throw_system_error(int e) { throw system_error(error_code(e, generic_category())); }
}
// std::type_info
namespace std { type_info::~type_info() {} bool type_info::__is_pointer_p() const { return false; } bool type_info::__is_function_p() const { return false; } bool type_info::__do_catch(const type_info*, void**, unsigned) const { return false; } bool type_info::__do_upcast(const __cxxabiv1::__class_type_info*, void**) const { return false; }
 }
// type_info vtables: only their addresses matter to the engine (the engine matches handlers itself)
extern "C" { void* _ZTVN10__cxxabiv117__class_type_infoE[11]; void* _ZTVN10__cxxabiv120__si_class_type_infoE[11]; void* _ZTVN10__cxxabiv121__vmi_class_type_infoE[11]; void* _ZTVN10__cxxabiv119__pointer_type_infoE[11]; void* _ZTVN10__cxxabiv120__function_type_infoE[11]; void* _ZTVN10__cxxabiv123__fundamental_type_infoE[11]; void* _ZTVN10__cxxabiv116__enum_type_infoE[11]; void* _ZTVN10__cxxabiv117__array_type_infoE[11]; void* _ZTVN10__cxxabiv129__pointer_to_member_type_infoE[11]; }
// dynamic_cast: single/multiple non-virtual inheritance
struct TI { void** vt; const char* name; }; struct SI { TI t; TI* base; }; struct VM { TI t; unsigned flags, n; struct { TI* b; long off; } b[8]; };
static bool sameTI(const TI* a, const TI* b) { return a == b; }
static char* upTo(char* p, TI* from, TI* to) {
  if (sameTI(from, to)) return p; void** vt = from->vt - 2;
  if (vt == _ZTVN10__cxxabiv120__si_class_type_infoE) return upTo(p, ((SI*)from)->base, to);
  if (vt == _ZTVN10__cxxabiv121__vmi_class_type_infoE) { VM* v = (VM*)from; for (unsigned i = 0; i < v->n; i++) { long f = v->b[i].off; if (!(f & 2)) continue; char* q = p; if (f & 1) q += *(long*)(*(char**)p + (f >> 8)); else q += f >> 8; if (char* r = upTo(q, v->b[i].b, to)) return r; } }
  return nullptr;
}
extern "C" void* __cxxabiv1::__dynamic_cast(const void* p, const __class_type_info*, const __class_type_info* dst, ptrdiff_t) { char* vp = *(char**)p; char* whole = (char*)p + *(long*)(vp - 16); TI* dyn = *(TI**)(vp - 8); return upTo(whole, dyn, (TI*)dst); }

// ------------------------------------------------------------------ one-time initialisation (function statics)
extern "C" {
__attribute__((weak)) int __cxxabiv1::__cxa_guard_acquire(__guard* gg) { char* g = (char*)gg; if (*g) return 0; if (g[1]) psx_fail("recursive or concurrent initialisation of a static"); g[1] = 1; return 1; }
__attribute__((weak)) void __cxxabiv1::__cxa_guard_release(__guard* gg) noexcept { char* g = (char*)gg; *g = 1; g[1] = 0; }
__attribute__((weak)) void __cxxabiv1::__cxa_guard_abort(__guard* gg) noexcept { char* g = (char*)gg; g[1] = 0; }
}
// ------------------------------------------------------------------ lists, trees, hashing
namespace std {
namespace __detail {
// hash policy: same growth rule as libstdc++, over a reduced prime list (bucket layout is not observable in the properties)
static const unsigned long primes[] = {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 103, 109, 113, 127, 137, 139, 149, 157, 167, 179, 193, 199, 211, 227, 241, 257, 277, 293, 313, 337, 359, 383, 409, 439, 467, 503, 541, 577, 619, 661, 709, 761, 823, 887, 953, 1031, 1109, 2053, 4099, 8209, 16411, 32771, 65537, 131101, 262147};
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
  if (n <= 1) { _M_next_resize = n == 0 ? 0 : 1; return n == 0 ? 1 : 1 + 0 * n; }
  size_t r = primes[sizeof(primes) / sizeof(primes[0]) - 1]; for (size_t i = sizeof(primes) / sizeof(primes[0]); i-- > 0;) if (primes[i] >= n) r = primes[i];
  _M_next_resize = (size_t)((double)r * (double)_M_max_load_factor); return r;
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
  if (ne + ni > _M_next_resize) {
    double mb = (double)(ne + ni > (size_t)(_M_next_resize ? 0 : 11) ? ne + ni : 11) / (double)_M_max_load_factor;
    if (mb >= (double)nb) { size_t want = (size_t)mb + 1, gr = nb * 2; return {true, _M_next_bkt(want > gr ? want : gr)}; }
    _M_next_resize = (size_t)((double)nb * (double)_M_max_load_factor); return {false, 0};
  }
  return {false, 0};
}
}
size_t _Hash_bytes(const void* p, size_t n, size_t seed) { size_t h = seed; for (size_t i = 0; i < n; i++) h = (h ^ ((const unsigned char*)p)[i]) * 1099511628211ull; return h; }
size_t _Fnv_hash_bytes(const void* p, size_t n, size_t seed) { return _Hash_bytes(p, n, seed); }
}
