#include <string>
#include <system_error>
#include <ostream>
#include <iomanip>
#include "fsx.h"
#ifndef FSX_NS_END
#define FSX_NS_END
#endif
namespace std { namespace FSX_NS {
class path {
  std::string p; size_t base() const { size_t i = p.rfind('/'); return i == std::string::npos ? 0 : i + 1; }
  size_t dot() const { size_t b = base(); size_t n = p.size() - b; if (n == 0 || (n == 1 && p[b] == '.') || (n == 2 && p[b] == '.' && p[b + 1] == '.')) return p.size(); size_t i = p.rfind('.'); return i == std::string::npos || i <= b ? p.size() : i; }
public:
  typedef char value_type; typedef std::string string_type; static constexpr char preferred_separator = '/';
  path() {} path(const std::string& s) : p(s) {} path(std::string&& s) : p(std::move(s)) {} path(const char* s) : p(s) {} template<class It> path(It a, It b) : p(a, b) {}
  path& assign(const std::string& s) { p = s; return *this; } path& operator=(const std::string& s) { p = s; return *this; } path& operator=(const char* s) { p = s; return *this; } path(const path&) = default; path(path&&) = default; path& operator=(const path&) = default; path& operator=(path&&) = default;
  const std::string& native() const noexcept { return p; } const char* c_str() const noexcept { return p.c_str(); } std::string string() const { return p; } std::string generic_string() const { return p; } operator std::string() const { return p; }
  bool empty() const noexcept { return p.empty(); } void clear() noexcept { p.clear(); } path& make_preferred() { return *this; } void swap(path& o) noexcept { p.swap(o.p); } int compare(const path& o) const noexcept { return p.compare(o.p); }
  bool is_absolute() const { return !p.empty() && p[0] == '/'; } bool is_relative() const { return !is_absolute(); } path root_directory() const { return is_absolute() ? path("/") : path(); } path root_path() const { return root_directory(); } path root_name() const { return path(); }
  path filename() const { return path(p.substr(base())); } path stem() const { size_t d = dot(); return path(p.substr(base(), d - base())); } path extension() const { return path(p.substr(dot())); }
  path parent_path() const { size_t b = base(); if (b == 0) return path(); while (b > 1 && p[b - 1] == '/') b--; if (b == 1 && p[0] == '/') return path("/"); return path(p.substr(0, b)); }
  bool has_filename() const { return base() < p.size(); } bool has_stem() const { return has_filename(); } bool has_extension() const { return dot() < p.size(); } bool has_parent_path() const { return !parent_path().empty(); } bool has_root_directory() const { return is_absolute(); }
  path& operator/=(const path& o) { if (o.is_absolute()) { p = o.p; return *this; } if (!p.empty() && p.back() != '/') p += '/'; p += o.p; return *this; } path& append(const path& o) { return *this /= o; }
  path& operator+=(const path& o) { p += o.p; return *this; } path& operator+=(const std::string& s) { p += s; return *this; } path& operator+=(const char* s) { p += s; return *this; } path& operator+=(char c) { p += c; return *this; } path& concat(const std::string& s) { p += s; return *this; }
  path& remove_filename() { p.erase(base()); return *this; } path& replace_filename(const path& o) { remove_filename(); return *this /= o; }
  path& replace_extension(const path& e = path()) { p.erase(dot()); if (!e.empty()) { if (e.p[0] != '.') p += '.'; p += e.p; } return *this; }
  path lexically_normal() const { return *this; }
  friend path operator/(const path& a, const path& b) { path r(a); r /= b; return r; }
  friend bool operator==(const path& a, const path& b) noexcept { return a.p == b.p; } friend bool operator!=(const path& a, const path& b) noexcept { return a.p != b.p; } friend bool operator<(const path& a, const path& b) noexcept { return a.p < b.p; }
};
inline path u8path(const std::string& s) { return path(s); }
class filesystem_error : public std::system_error { path a, b; public:
  filesystem_error(const std::string& w, std::error_code e) : system_error(e, w) {} filesystem_error(const std::string& w, const path& x, std::error_code e) : system_error(e, w), a(x) {} filesystem_error(const std::string& w, const path& x, const path& y, std::error_code e) : system_error(e, w), a(x), b(y) {}
  const path& path1() const noexcept { return a; } const path& path2() const noexcept { return b; } };
enum class file_type : signed char { none = 0, not_found = -1, regular = 1, directory = 2, unknown = 8 };
class file_status { file_type t; public: explicit file_status(file_type x = file_type::none) noexcept : t(x) {} file_type type() const noexcept { return t; } };
#define FSX_EC std::make_error_code(std::errc::io_error)
// Every call has a throwing form and one that reports through an error_code.
inline file_status status(const path& p, std::error_code& e) noexcept { e.clear(); if (fsx::fails(fsx::STAT)) { e = FSX_EC; return file_status(file_type::none); } int i = fsx::find(p.native()); return file_status(i < 0 ? file_type::not_found : fsx::node((unsigned)i).dir ? file_type::directory : file_type::regular); }
inline file_status symlink_status(const path& p, std::error_code& e) noexcept { return status(p, e); }
#define FSX_THROW(R, NAME, ARGS, CALL) inline R NAME ARGS { std::error_code e; R r = CALL; if (e) throw filesystem_error("filesystem model: " #NAME, e); return r; }
FSX_THROW(file_status, status, (const path& p), status(p, e))
inline bool exists(file_status s) noexcept { return s.type() != file_type::not_found && s.type() != file_type::none; } inline bool exists(const path& p, std::error_code& e) noexcept { return exists(status(p, e)); } inline bool exists(const path& p) { return exists(status(p)); }
inline bool is_regular_file(file_status s) noexcept { return s.type() == file_type::regular; } inline bool is_regular_file(const path& p, std::error_code& e) noexcept { return is_regular_file(status(p, e)); } inline bool is_regular_file(const path& p) { return is_regular_file(status(p)); }
inline bool is_directory(file_status s) noexcept { return s.type() == file_type::directory; } inline bool is_directory(const path& p, std::error_code& e) noexcept { return is_directory(status(p, e)); } inline bool is_directory(const path& p) { return is_directory(status(p)); }
inline uintmax_t file_size(const path& p, std::error_code& e) noexcept { e.clear(); std::string d; if (fsx::fails(fsx::STAT) || !fsx::get(p.native(), d)) { e = FSX_EC; return (uintmax_t)-1; } return d.size(); }
FSX_THROW(uintmax_t, file_size, (const path& p), file_size(p, e))
inline bool remove(const path& p, std::error_code& e) noexcept { e.clear(); if (fsx::find(p.native()) < 0) return false; if (fsx::fails(fsx::REMOVE) || !fsx::remove(p.native())) { e = FSX_EC; return false; } return true; }
FSX_THROW(bool, remove, (const path& p), remove(p, e))
inline void rename(const path& a, const path& b, std::error_code& e) noexcept { e.clear(); if (fsx::fails(fsx::RENAME) || fsx::rename(a.native(), b.native())) e = FSX_EC; }
inline void rename(const path& a, const path& b) { std::error_code e; rename(a, b, e); if (e) throw filesystem_error("filesystem model: rename", a, b, e); }
inline bool create_directory(const path& p, std::error_code& e) noexcept { e.clear(); if (fsx::isDir(p.native())) return false; if (fsx::fails(fsx::MKDIR) || !fsx::mkdir(p.native())) { e = FSX_EC; return false; } return true; }
FSX_THROW(bool, create_directory, (const path& p), create_directory(p, e))
inline bool create_directories(const path& p, std::error_code& e) noexcept { e.clear(); if (fsx::isDir(p.native())) return false; if (p.empty() || fsx::fails(fsx::MKDIR) || !fsx::mkdirs(p.native())) { e = FSX_EC; return false; } return true; }
FSX_THROW(bool, create_directories, (const path& p), create_directories(p, e))
inline path current_path() { return path(fsx::cwd()); } inline path current_path(std::error_code& e) { e.clear(); return path(fsx::cwd()); }
inline path absolute(const path& p) { if (p.empty()) throw filesystem_error("filesystem model: absolute", FSX_EC); return p.is_absolute() ? p : current_path() / p; } inline path absolute(const path& p, std::error_code& e) { e.clear(); if (p.empty()) { e = FSX_EC; return path(); } return p.is_absolute() ? p : current_path() / p; }
inline path temp_directory_path() { return path("/tmp"); }
#undef FSX_THROW
#undef FSX_EC
} FSX_NS_END }
