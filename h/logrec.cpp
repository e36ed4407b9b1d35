// P29: the record handed to the log writer, for every interface; level names. P34: the default line format.
#include "logger.h"
#define A(c, m) psx_assert((c), "P29 logger: " m)
struct Rec { unsigned n; std::string text; Lv level; const char *file, *func; int line; size_t tid; int64_t time; }; static Rec got;
static void capture(std::ostream&, const pluto::log_entry& e) { got.n++; got.text = e.message; got.level = e.level; got.file = e.source.file; got.func = e.source.function; got.line = e.source.line; got.tid = e.thread_id; got.time = (int64_t)e.time.time_since_epoch().count(); }
// The formatter: what the C library may do with a scheme. 0: %s %d %c %%; 1: any text; 2: fails; 3: fails the second time.
static int fmode; static char ftext[128]; static unsigned flen, fcalls;
namespace std { int psx_vsnprintf(char* p, size_t n, const char* f, va_list a) {
  fcalls++; if (fmode == 2 || (fmode == 3 && fcalls == 2)) { for (size_t i = 0; i < n && i < 3; i++) p[i] = '?'; return -1 - (int)psx_pick(2, "error"); }
  char o[128]; size_t k = 0;
  if (fmode == 1 || fmode == 3) { for (unsigned i = 0; i < flen; i++) o[k++] = ftext[i]; }
  else for (; *f; f++) {
    if (*f != '%') { o[k++] = *f; continue; }
    f++; if (*f == '%') o[k++] = '%'; else if (*f == 'c') o[k++] = (char)va_arg(a, int); else if (*f == 's') { for (const char* s = va_arg(a, const char*); *s; s++) o[k++] = *s; } else if (*f == 'd') { int v = va_arg(a, int); if (v < 0) { o[k++] = '-'; v = -v; } char d[12]; int q = 0; do d[q++] = (char)('0' + v % 10); while (v /= 10); while (q) o[k++] = d[--q]; } else psx_error("formatter model: conversion");
  }
  if (p && n) { size_t w = k < n - 1 ? k : n - 1; for (size_t i = 0; i < w; i++) p[i] = o[i]; p[w] = 0; } return (int)k;
} }
static const Lv levels[] = {Lv::verbose, Lv::trace, Lv::debug, Lv::info, Lv::notice, Lv::warning, Lv::error, Lv::critical, Lv::fatal};
static std::string content(const char* nm, unsigned max) { unsigned n = (unsigned)psx_pick(max + 1, "length"); n += (unsigned)psx_param("base", 0); std::string s(n, 'x'); if (n) psx_symbolic(&s[0], n, nm); return s; }
static void check(unsigned n, const std::string& text, Lv l, const char* file, int line, const char* func, size_t tid, int64_t t0, int64_t t1) {
  A(got.n == n, "a call does not give exactly one record"); A(got.text.size() == text.size(), "the message has another length"); bool ok = got.text.size() == text.size(); if (ok) for (size_t i = 0; i < text.size(); i++) ok &= got.text[i] == text[i]; A(ok, "the message is not the one given");
  A(got.level == l, "the level is not the one given"); A(got.line == line && !strcmp(got.file, file) && !strcmp(got.func, func), "the source information is not the one given"); A(got.tid == tid, "the thread is not the calling one"); A(t0 <= got.time && got.time <= t1, "the time is not within the call"); obsAny(got.text); psx_observe((uint64_t)got.tid);
}
#if PLUTO_LOGGER_HIDE_SOURCE_INFO
#define SRC
#define SRC2
#define FILE_ ""
#define LINE_ 0
#define FUNC_ ""
#else
#define SRC {"dir/file.cpp", 42, "function"},
#define SRC2 , {"dir/file.cpp", 42, "function"}
#define FILE_ "dir/file.cpp"
#define LINE_ 42
#define FUNC_ "function"
#endif
// how: 0 write, 1 writef, 2 stream, 3 format, 4-7 the same through the macros
static void go(unsigned how) {
  psx_sched(0, 0, (int)psx_param("ticks", 0), 0); unsigned max = (unsigned)psx_param("len", 4); fmode = (int)psx_param("fmode", 0); Lv l = psx_param("levels", 0) ? levels[psx_pick(9, "level")] : Lv::info; int64_t t0 = 0, t1 = 0; size_t tid = 0; bool other = psx_param("thread", 0); const char *file = FILE_, *func = FUNC_; int line = LINE_; std::string want; Lv set = psx_param("levels", 0) ? (psx_pick(2, "below the level") ? (Lv)((int)l + 1) : l) : Lv::verbose;
  {
    Logger lg; lg.write_header(false).log_writer(capture).level(set); A(lg.level() == set, "the level is not the one set"); A(lg.should_log(l) == (set <= l), "should_log is wrong");
    auto run = [&] {
      tid = 1000 + psx_tid(); t0 = psx_now();
      if (how == 0) { want = content("message", max); lg.write("a", l, SRC want); }
      else if (how == 1) {
        if (fmode == 0) { std::string s = content("argument", max); for (char c : s) psx_assume(c != 0); char ch = (char)psx_u8("character"); want = "<" + s + "|" + std::string(1, ch) + "%-7>"; lg.writef("a", l, SRC "<%s|%c%%%d>", s.c_str(), ch, -7); }
        else { want = content("formatted", max); flen = (unsigned)want.size(); for (unsigned i = 0; i < flen; i++) ftext[i] = want[i]; std::string scheme = content("scheme", max); for (char c : scheme) psx_assume(c != 0); if (fmode != 1) want = scheme; lg.writef("a", l, SRC scheme.c_str(), 1); }
      }
      else if (how == 2) { std::string a = content("piece", max), b = content("piece", 1); int v = (int)psx_pick(3, "number") * 120 - 120; want = a + std::to_string(v) + b; lg.stream("a", l SRC2) << a << v << b; }
#if PLUTO_UTILS_HAS_FORMAT
      else if (how == 3) { std::string a = content("piece", max); want = "<" + a + "|7>"; lg.format("a", l, SRC "<{}|{}>", a, 7); }
#endif
      t1 = psx_now();
    };
    if (other) { std::thread t(run); t.join(); } else run();
  }
  if (set <= l) check(1, want, l, file, line, func, tid, t0, t1); else A(got.n == 0, "a message below the level is logged"); psx_cover("checked");
}
H(p29_write) { go(0); } H(p29_writef) { go(1); } H(p29_stream) { go(2); }
#if PLUTO_UTILS_HAS_FORMAT
H(p29_format) { go(3); }
#endif
// The macros: gate on the level, pass everything on, note the place.
H(p29_macros) {
  psx_sched(0, 0, 0, 0); bool below = psx_pick(2, "below the level"); unsigned how = (unsigned)psx_pick(PLUTO_UTILS_HAS_FORMAT ? 4 : 3, "interface"); std::string a = content("message", (unsigned)psx_param("len", 3)), want = a; int line = 0; unsigned evaluated = 0; auto arg = [&]() -> const std::string& { evaluated++; return a; };
  {
    Logger lg; lg.write_header(false).log_writer(capture).level(below ? Lv::error : Lv::warning);
    if (how == 0) { line = __LINE__; PLUTO_LOG_WRITE_WITH(lg, "a", warning, arg()); }
    else if (how == 1) { for (char c : a) psx_assume(c != 0); want = a + "!3"; line = __LINE__; PLUTO_LOG_WRITEF_WITH(lg, "a", wrn, "%s!%d", arg().c_str(), 3); }
    else if (how == 2) { want = a + "!3"; line = __LINE__; PLUTO_LOG_STREAM_WITH(lg, "a", warn, arg() << '!' << 3); }
#if PLUTO_UTILS_HAS_FORMAT
    else { want = a + "!3"; line = __LINE__; PLUTO_LOG_FORMAT_WITH(lg, "a", warning, "{}!{}", arg(), 3); }
#endif
  }
  A(evaluated == (below ? 0 : 1), "an argument is evaluated although the level is disabled, or more than once");
#if PLUTO_LOGGER_HIDE_SOURCE_INFO
  if (!below) check(1, want, Lv::warning, "", 0, "", 1000 + psx_tid(), psx_now(), psx_now()); else A(got.n == 0, "a message below the level is logged");
#else
  if (!below) check(1, want, Lv::warning, __FILE__, line, __func__, 1000 + psx_tid(), psx_now(), psx_now()); else A(got.n == 0, "a message below the level is logged");
#endif
  psx_cover("checked");
}
H(p29_names) {
  static const struct { int v; const char *name, *title, *shortened; char c; } T[] = {{-1, "level", "Level", "LVL", 'L'}, {0, "verbose", "Verbose", "VRB", 'V'}, {1, "trace", "Trace", "TRC", 'T'}, {2, "debug", "Debug", "DBG", 'D'}, {3, "info", "Info", "INF", 'I'}, {4, "notice", "Notice", "NTC", 'N'}, {5, "warning", "Warning", "WRN", 'W'}, {6, "error", "Error", "ERR", 'E'}, {7, "critical", "Critical", "CRT", 'C'}, {8, "fatal", "Fatal", "FTL", 'F'}};
  signed char v = (signed char)psx_u8("level"); Lv l = (Lv)v; unsigned k = 10; for (unsigned i = 0; i < 10; i++) if (T[i].v == v) { k = i; break; }
  A(!strcmp(pluto::log_level_to_c_str(l), k < 10 ? T[k].name : "unknown"), "a level has the wrong name"); A(!strcmp(pluto::log_level_to_title(l), k < 10 ? T[k].title : "Unknown"), "a level has the wrong title"); A(!strcmp(pluto::log_level_to_shortened(l), k < 10 ? T[k].shortened : "UNK"), "a level has the wrong short form"); A(pluto::log_level_to_char(l) == (k < 10 ? T[k].c : '?'), "a level has the wrong character");
  A(Lv::off > Lv::fatal && Lv::fatal > Lv::critical && Lv::critical > Lv::error && Lv::error > Lv::warning && Lv::warning > Lv::notice && Lv::notice > Lv::info && Lv::info > Lv::debug && Lv::debug > Lv::trace && Lv::trace > Lv::verbose && Lv::verbose > Lv::header, "the levels are out of order");
  A(Lv::crit == Lv::critical && Lv::crt == Lv::critical && Lv::warn == Lv::warning && Lv::wrn == Lv::warning && Lv::note == Lv::notice && Lv::ntc == Lv::notice && Lv::verb == Lv::verbose && Lv::vrb == Lv::verbose && Lv::ftl == Lv::fatal && Lv::err == Lv::error && Lv::inf == Lv::info && Lv::dbg == Lv::debug && Lv::trc == Lv::trace, "an alias names another level"); psx_observe((unsigned char)pluto::log_level_to_char(l)); psx_cover("checked");
}
// ---------------------------------------------------------------- P34
#undef A
#define A(c, m) psx_assert((c), "P34 logger: " m)
static struct tm zone; static time_t asked; static unsigned nasked;
extern "C" struct tm* psx_localtime_r(const time_t* t, struct tm* r) { asked = *t; nasked++; *r = zone; return r; } extern "C" struct tm* psx_gmtime_r(const time_t*, struct tm*) { psx_fail("P34 logger: the time is not given in local time"); }
static void put(Seq<char>& w, const char* s) { while (*s) w.add(*s++); }
static void digits(Seq<char>& w, unsigned v, int n) { char b[8]; for (int i = n; i-- > 0; v /= 10) b[i] = (char)('0' + v % 10); for (int i = 0; i < n; i++) w.add(b[i]); }
static void right(Seq<char>& w, uint64_t v, unsigned width, char fill = ' ') { char b[20]; unsigned n = 0; do b[n++] = (char)('0' + v % 10); while (v /= 10); for (unsigned i = n; i < width; i++) w.add(fill); while (n) w.add(b[--n]); }
static void left(Seq<char>& w, const char* s, unsigned width, bool cut) { unsigned n = 0; for (; s[n] && !(cut && n == width); n++) w.add(s[n]); for (; n < width; n++) w.add(' '); }
static void line(Seq<char>& w, unsigned us, uint64_t tid, const char* title, const char* file, int ln, const char* fn, const std::string& m) {
  digits(w, (unsigned)zone.tm_year + 1900, 4); w.add('-'); digits(w, (unsigned)zone.tm_mon + 1, 2); w.add('-'); digits(w, (unsigned)zone.tm_mday, 2); w.add(' '); digits(w, (unsigned)zone.tm_hour, 2); w.add(':'); digits(w, (unsigned)zone.tm_min, 2); w.add(':'); digits(w, (unsigned)zone.tm_sec, 2); w.add('.'); right(w, us % 1000000ull, 6, '0');
  w.add('|'); right(w, tid, 7); w.add('|'); left(w, title, 8, false); w.add('|');
#if !PLUTO_LOGGER_HIDE_SOURCE_INFO
  left(w, file, 20, true); w.add('|'); right(w, (uint64_t)ln, 5); w.add('|'); left(w, fn, 20, true); w.add('|');
#endif
  for (char c : m) w.add(c); w.add('\n');
}
// vary: which field ranges over its values (the others take one of a few): 0 date and time, 1 microseconds, 2 thread, 3 level, 4 file name, 5 line, 6 function, 7 message
H(p34) {
  unsigned vary = (unsigned)psx_param("vary", 0); zone.tm_year = 125; zone.tm_mon = 0; zone.tm_mday = 9; zone.tm_hour = 7; zone.tm_min = 5; zone.tm_sec = 3; unsigned us = 42; uint64_t sec = 1736400000, ns = 999, tid = 77; Lv l = Lv::info; const char* title = "Info"; std::string file = "source.cpp", fn = "main", msg = "text"; int ln = 12; std::string dir = "src/";
  if (vary == 0) { zone.tm_year = (int)psx_range(0, 8099, "year") - 900; zone.tm_mon = (int)psx_range(0, 11, "month"); zone.tm_mday = (int)psx_range(1, 31, "day"); zone.tm_hour = (int)psx_range(0, 23, "hour"); zone.tm_min = (int)psx_range(0, 59, "minute"); zone.tm_sec = (int)psx_range(0, 60, "second"); }
  if (vary == 1) { static const unsigned M[] = {0, 1, 9, 10, 99, 100, 999}; us = M[psx_pick(7, "milliseconds")] * 1000 + (unsigned)psx_range(0, 999, "microseconds"); ns = psx_pick(2, "ns") ? 999 : 0; sec = psx_param("sec", 0); } if (vary == 8) { static const unsigned U[] = {0, 1, 9, 10, 99, 999, 1000, 99999, 100000, 999999}; us = U[psx_pick(10, "microseconds")]; sec = psx_pick(3, "s") * 1000000007ull; ns = psx_pick(2, "ns") ? 999 : 0; }
  if (vary == 2) tid = psx_u32("thread"); if (vary == 9) tid = psx_pick(2, "thread") ? UINT64_MAX : 10000000; if (vary == 3) { static const char* const T[] = {"Verbose", "Trace", "Debug", "Info", "Notice", "Warning", "Error", "Critical", "Fatal"}; unsigned i = (unsigned)psx_pick(9, "level"); l = levels[i]; title = T[i]; }
  static const unsigned L[] = {0, 1, 2, 19, 20, 21, 30}; unsigned sy = 3;
  if (vary == 4) { unsigned n = L[psx_pick(7, "file length")]; file.assign(n, 'f'); for (unsigned i = 0; i < n; i++) if (i < sy || i + sy > n || (i > 17 && i < 22)) { file[i] = (char)psx_u8("file"); psx_assume(file[i] != 0 && file[i] != '/' && file[i] != '\\'); } static const char* const D[] = {"", "/", "a/b\\", "c:\\very long directory name with spaces/"}; dir = D[psx_pick(4, "directory")]; }
  if (vary == 5) ln = (int)psx_range(0, 9999999, "line"); if (vary == 6) { unsigned n = L[psx_pick(7, "function length")]; fn.assign(n, 'g'); for (unsigned i = 0; i < n; i++) { fn[i] = (char)psx_u8("function"); psx_assume(fn[i] != 0); } }
  if (vary == 7) { unsigned n = L[psx_pick(7, "message length")]; msg.assign(n, 'm'); for (unsigned i = 0; i < n; i++) msg[i] = (char)psx_u8("message"); }
  std::ostringstream o; std::string path = dir + file; pluto::log_entry e{pluto::log_entry::time_type(pluto::log_entry::time_type::duration((int64_t)(sec * 1000000000ull + (uint64_t)us * 1000ull + ns))), tid, l, {path.c_str(), ln, fn.c_str()}, msg}; 
  bool header = psx_param("header", 1); if (header) { Logger::default_header_writer(o); o << '\n'; }
  Logger::default_log_writer(o, e); o << '\n'; A(nasked == 1 && asked == (time_t)sec, "the time shown is not the record's time"); if (vary != 1) { Logger::default_log_writer(o, e); o << '\n'; }
  std::string got = o.str(); Seq<char> one; line(one, us, tid, title, file.c_str(), ln, fn.c_str(), msg); size_t at = 0;
  if (header) {
#if PLUTO_LOGGER_HIDE_SOURCE_INFO
    static const char H0[] = "Timestamp                 |    TID|Level   |Message\n", H1[] = "--------------------------+-------+--------+-------\n";
#else
    static const char H0[] = "Timestamp                 |    TID|Level   |File Name           | Line|Function            |Message\n", H1[] = "--------------------------+-------+--------+--------------------+-----+--------------------+-------\n";
#endif
    at = sizeof H0 - 1 + sizeof H1 - 1; A(got.size() >= at && got.compare(0, sizeof H0 - 1, H0) == 0 && got.compare(sizeof H0 - 1, sizeof H1 - 1, H1) == 0, "the header is not the documented one"); psx_observe(at);
  }
  for (unsigned k = 0; k < (vary != 1 ? 2u : 1u); k++) { A(got.size() - at >= one.n, "the line is too short"); bool ok = true; for (size_t i = 0; i < one.n; i++) ok &= got[at + i] == one.v[i]; A(ok, "the line does not show the record in the documented columns"); at += one.n; }
  A(at == got.size(), "something follows the line"); psx_observe(got.size()); psx_cover("checked");
}
