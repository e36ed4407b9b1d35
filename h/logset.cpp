// P37: the logger's settings: initial values, setters, getters, and the writers in use.
#if CFG == 1
#define PLUTO_LOGGER_INITIAL_LEVEL warning
#define PLUTO_LOGGER_INITIAL_CREATE_DIRS false
#define PLUTO_LOGGER_INITIAL_WRITE_HEADER false
#define PLUTO_LOGGER_INITIAL_BUFFER_MAX_SIZE 7
#define PLUTO_LOGGER_INITIAL_BUFFER_FLUSH_SIZE 3
#define PLUTO_LOGGER_INITIAL_FILE_ROTATION_SIZE 1000
#define PLUTO_LOGGER_INITIAL_FILE_ROTATION_LIMIT 5
#define PLUTO_LOGGER_INITIAL_LOG_WRITER logA
#define PLUTO_LOGGER_INITIAL_HEADER_WRITER headA
#elif CFG == 2
#define PLUTO_LOGGER_INITIAL_LEVEL off
#define PLUTO_LOGGER_INITIAL_BUFFER_FLUSH_SIZE 0
#define PLUTO_LOGGER_INITIAL_FILE_ROTATION_SIZE 1
#define PLUTO_LOGGER_INITIAL_BUFFER_MAX_SIZE 1
#endif
#include "thr/psx_pthread.h"
#include <ostream>
namespace pluto { struct log_entry; } static void logA(std::ostream& s, const pluto::log_entry& e); static void headA(std::ostream& s);
#include "logger.h"
namespace std { int psx_vsnprintf(char*, size_t, const char*, va_list) { psx_error("formatter"); } }
extern "C" struct tm* psx_localtime_r(const time_t*, struct tm* r) { return r; } extern "C" struct tm* psx_gmtime_r(const time_t*, struct tm* r) { return r; }
#define A(c, m) psx_assert((c), "P37 logger: " m)
static void logA(std::ostream& s, const pluto::log_entry& e) { s << 'A' << e.message; } static void headA(std::ostream& s) { s << "HA"; }
typedef std::function<void(std::ostream&, const pluto::log_entry&)> LW; typedef std::function<void(std::ostream&)> HW;
static LW lw(char c) { return [c](std::ostream& s, const pluto::log_entry& e) { s << c << e.message; }; }
static HW hw(char c) { return [c](std::ostream& s) { s << 'H' << c; }; }
enum { LEVEL, DIRS, HEADER, MAX, FLUSH, RSIZE, RLIMIT, RESET, LOGW, HEADW, NS };
struct Set { Lv level = Lv::PLUTO_LOGGER_INITIAL_LEVEL; bool dirs = PLUTO_LOGGER_INITIAL_CREATE_DIRS, header = PLUTO_LOGGER_INITIAL_WRITE_HEADER; size_t max = PLUTO_LOGGER_INITIAL_BUFFER_MAX_SIZE, flush = PLUTO_LOGGER_INITIAL_BUFFER_FLUSH_SIZE, rsize = PLUTO_LOGGER_INITIAL_FILE_ROTATION_SIZE, rlimit = PLUTO_LOGGER_INITIAL_FILE_ROTATION_LIMIT; char log = CFG == 1 ? 'A' : 0, head = CFG == 1 ? 'A' : 0; };
struct Call { unsigned k; uint64_t v; };
static Call some(unsigned k) { Call c{k, 0}; if (k == LEVEL) c.v = psx_u8("level"); else if (k == DIRS || k == HEADER) c.v = psx_u8("flag") & 1; else if (k < RESET) c.v = psx_u64("size"); else if (k > RESET) c.v = psx_pick(2, "writer"); return c; }
static Logger& give(Logger& l, const Call& c) {
  switch (c.k) { case LEVEL: return l.level((Lv)(signed char)c.v); case DIRS: return l.create_dirs(c.v != 0); case HEADER: return l.write_header(c.v != 0); case MAX: return l.buffer_max_size((size_t)c.v); case FLUSH: return l.buffer_flush_size((size_t)c.v); case RSIZE: return l.file_rotation_size((size_t)c.v); case RLIMIT: return l.file_rotation_limit((size_t)c.v); case RESET: return l.reset_num_discarded_logs(); case LOGW: return l.log_writer(lw((char)('a' + c.v))); default: return l.header_writer(hw((char)('a' + c.v))); }
}
static void expect(Set& s, const Call& c) {
  switch (c.k) { case LEVEL: s.level = (Lv)(signed char)c.v; break; case DIRS: s.dirs = c.v != 0; break; case HEADER: s.header = c.v != 0; break; case MAX: s.max = (size_t)c.v; break; case FLUSH: s.flush = (size_t)c.v; break; case RSIZE: s.rsize = (size_t)c.v; break; case RLIMIT: s.rlimit = (size_t)c.v; break; case LOGW: s.log = (char)('a' + c.v); break; case HEADW: s.head = (char)('a' + c.v); break; default:; }
}
static pluto::log_entry entry() { return pluto::log_entry(Logger::clock_type::time_point{}, 0, Lv::info, {"f", 1, "g"}, "m"); }
static char which(const LW& f) { if (!f) return '?'; std::ostringstream s; f(s, entry()); std::string t = s.str(); if (t.size() == 2) return t[0]; std::ostringstream d; Logger::default_log_writer(d, entry()); return t == d.str() ? 0 : '!'; }
static char which(const HW& f) { if (!f) return '?'; std::ostringstream s; f(s); std::string t = s.str(); if (t.size() == 2) return t[1]; std::ostringstream d; Logger::default_header_writer(d); return t == d.str() ? 0 : '!'; }
static void check(const Logger& l, const Set& s, bool writers) {
  A(l.is_logging(), "a living logger is not logging"); A(l.level() == s.level, "the level is not the one set last"); A(l.create_dirs() == s.dirs && l.write_header() == s.header, "a flag is not the one set last"); A(l.buffer_max_size() == s.max && l.buffer_flush_size() == s.flush, "a buffer size is not the one set last"); A(l.file_rotation_size() == s.rsize && l.file_rotation_limit() == s.rlimit, "a rotation setting is not the one set last"); A(l.num_discarded_logs() == 0, "logs were discarded");
  if (writers) { A(which(l.log_writer()) == s.log, "the log writer is not the one set last"); A(which(l.header_writer()) == s.head, "the header writer is not the one set last"); }
}
H(p37_history) {   // any setters one after another: each changes its own setting alone
  psx_sched(0, 0, 0, 0); unsigned n = (unsigned)psx_param("N", 3); {
    Logger l; Set s; check(l, s, true); for (unsigned i = 0; i < n; i++) { Call c = some(psx_pick(NS, "setter")); A(&give(l, c) == &l, "a setter does not return the logger"); expect(s, c); check(l, s, true); }
    Lv q = (Lv)(signed char)psx_u8("asked level"); A(l.should_log(q) == (s.level <= q), "should_log does not compare with the level set"); psx_observe((uint64_t)(int64_t)(signed char)l.level()); psx_observe(l.buffer_max_size()); psx_observe(l.file_rotation_size());
  } A(fsx::files() == 0, "a file appears though nothing was logged"); psx_cover("checked");
}
H(p37_two) {   // loggers do not share settings
  psx_sched(0, 0, 0, 0); unsigned n = (unsigned)psx_param("N", 2); { Logger l[2]; Set s[2]; for (unsigned i = 0; i < n; i++) { unsigned w = psx_pick(2, "logger"); Call c = some(psx_pick(NS, "setter")); give(l[w], c); expect(s[w], c); } check(l[0], s[0], true); check(l[1], s[1], true); } psx_cover("checked");
}
static bool eq(const Set& a, const Set& b) { return a.level == b.level && a.dirs == b.dirs && a.header == b.header && a.max == b.max && a.flush == b.flush && a.rsize == b.rsize && a.rlimit == b.rlimit && a.log == b.log && a.head == b.head; }
static Set now(const Logger& l) { Set s; s.level = l.level(); s.dirs = l.create_dirs(); s.header = l.write_header(); s.max = l.buffer_max_size(); s.flush = l.buffer_flush_size(); s.rsize = l.file_rotation_size(); s.rlimit = l.file_rotation_limit(); s.log = which(l.log_writer()); s.head = which(l.header_writer()); return s; }
H(p37_threads) {   // setters of two threads at the same time: both take effect; a reader sees the old or the new value
  unsigned a = (unsigned)psx_param("a", 0), b = (unsigned)psx_param("b", 0); Call x = some(a), y = some(b == NS ? (unsigned)RESET : b); Set before, s; Logger l; psx_sched((int)psx_param("preempt", -1), 0, 0, (int)psx_param("races", 1)); Set seen; bool read = b == NS;
  { std::thread t([&] { give(l, x); }), u([&] { if (read) seen = now(l); else give(l, y); }); t.join(); u.join(); }
  psx_sched(0, 0, 0, 0); Set r = now(l), xy, yx; expect(xy, x); if (!read) expect(xy, y); if (!read) expect(yx, y); expect(yx, x); A(eq(r, xy) || eq(r, yx), "a setting is lost or changed by another one"); if (read) { Set o; A(eq(seen, o) || eq(seen, xy), "a reader sees a value that nobody set"); } psx_cover("checked");
}
H(p37_writers) {   // a line goes through the writer in use when it is written, a new file starts with the header in use then
  psx_sched(0, 0, 0, 0); unsigned n = (unsigned)psx_param("N", 4); bool late = psx_param("late", 0) != 0; std::string want, pend; bool header = PLUTO_LOGGER_INITIAL_WRITE_HEADER; char lc = 'x', hc = 'y'; uint8_t mark[8]; unsigned m = 0; 
  {
    Logger l; l.level(Lv::verbose).buffer_max_size(0).file_rotation_size(0).buffer_flush_size(late ? 100 : 1).log_writer(lw(lc)).header_writer(hw(hc));
    auto out = [&](const std::string& t) { if (header && want.empty()) { want += 'H'; want += hc; want += '\n'; } want += lc; want += t; want += '\n'; };
    for (unsigned i = 0; i < n; i++) switch (psx_pick(4, "operation")) {
      case 0: { mark[m] = psx_u8("byte"); std::string t(1, (char)mark[m++]); l.write("a", Lv::info, {"f", 1, "g"}, t); if (late) pend += t; else { psx_quiesce(); out(t); } break; }
      case 1: lc = (char)('a' + i); l.log_writer(lw(lc)); break; case 2: hc = (char)('a' + i); l.header_writer(hw(hc)); break; default: header = !header; l.write_header(header);
    }
    for (char c : pend) out(std::string(1, c));
  }
  std::string d; fsx::get("a", d); A(d.size() == want.size(), "lines or headers are missing or added"); bool ok = d.size() == want.size(); for (size_t i = 0; i < want.size() && i < d.size(); i++) ok &= d[i] == want[i]; A(ok, "a line or header was not written by the writer set last"); psx_observe(d.size()); psx_cover("checked");
}
H(p37_swap) {   // a writer replaced while lines are written: the lines logged afterwards go through the new one
  psx_sched((int)psx_param("preempt", -1), 0, 0, (int)psx_param("races", 1)); unsigned n = (unsigned)psx_param("N", 1); unsigned char mk = psx_u8("byte");
  { Logger l; l.level(Lv::verbose).buffer_max_size(0).file_rotation_size(0).buffer_flush_size(1).write_header(false).log_writer(lw('a')); auto run = [&] { for (unsigned i = 0; i < n; i++) l.write("a", Lv::info, {"f", 1, "g"}, "o"); }; std::thread t(run); std::string s("n"); s += (char)mk; l.log_writer(lw('b')); l.write("a", Lv::info, {"f", 1, "g"}, s); t.join(); }
  std::string d; fsx::get("a", d); size_t at = 0; unsigned olds = 0, news = 0; bool nb = false;
  while (at < d.size()) { char w = d[at]; A(w == 'a' || w == 'b', "a line was not written by a writer that was set"); A(w == 'b' || !nb, "a writer that was replaced writes after the new one"); nb |= w == 'b'; bool isn = at + 1 < d.size() && d[at + 1] == 'n'; A(!isn || w == 'b', "a line logged after the writer was replaced is written by the old one"); size_t len = isn ? 4 : 3; A(at + len <= d.size() && d[at + len - 1] == '\n', "a line is incomplete"); if (isn) { A((unsigned char)d[at + 2] == mk, "a message is changed"); news++; } else olds++; at += len; }
  A(olds == n && news == 1, "a line is lost or written twice"); psx_cover("checked");
}
