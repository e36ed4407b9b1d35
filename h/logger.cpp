// P26-P28: what reaches the log files, under every schedule of logging threads and the background writer.
#include "logger.h"
namespace std { int psx_vsnprintf(char*, size_t, const char*, va_list) { psx_error("formatter"); } }
extern "C" struct tm* psx_localtime_r(const time_t*, struct tm* r) { return r; } extern "C" struct tm* psx_gmtime_r(const time_t*, struct tm* r) { return r; }
static unsigned prop;
#define A(p, c, m) do { if (prop == p) psx_assert((c), "P" #p " logger: " m); } while (0)
static const unsigned MC = 3, MO = 4, MF = 2; static const char* const fname[MF] = {"a", "d/b.log"};
enum Op { LOG, LOGB, LOW, FLUSH, LEVEL, KINDS };
struct Msg { unsigned char file; bool submitted, returned, maybe, want; }; static Msg msg[MC][MO];
static unsigned char prog[MC][MO], mark[MC][MO]; static size_t arg[MC][MO]; static unsigned nc, no; static Logger* lg; static unsigned setting; static bool unordered; static Lv level; static bool headers;
static void writer(std::ostream& s, const pluto::log_entry& e) { s << e.message; }
static void headerWriter(std::ostream& s) { s << "H"; }
static std::string text(unsigned c, unsigned o) { std::string s; s += (char)('a' + c); s += (char)('0' + o); s += (char)mark[c][o]; return s; }
static void client(unsigned c) {
  for (unsigned o = 0; o < no; o++) {
    Msg& m = msg[c][o]; unsigned k = prog[c][o];
    if (k == FLUSH) { lg->buffer_flush_size(arg[c][o]); continue; }
    if (k == LEVEL) { if (setting++) unordered = true; for (auto& q : msg) for (auto& x : q) if (x.submitted && !x.returned) x.maybe = true; level = (Lv)(signed char)arg[c][o]; lg->level(level); setting--; continue; }
    m.file = k == LOGB; m.maybe = setting != 0 || unordered; Lv l = k == LOW ? Lv::debug : Lv::info; m.want = level <= l; m.submitted = true;
    lg->write(fname[m.file], l, {"f", 1, "g"}, text(c, o)); m.returned = true;
  }
}
// Reads the files: every line is exactly one expected message, in each thread's order. Returns the number of lines of each file.
static void look(bool final, unsigned lines[MF]) {
  for (unsigned f = 0; f < MF; f++) {
    lines[f] = 0; std::string d; bool have = fsx::get(fname[f], d); unsigned seen[MC] = {}; size_t at = 0; unsigned got[MC][MO] = {};
    if (have && headers && !d.empty()) { A(26, d.size() >= 2 && d[0] == 'H' && d[1] == '\n', "the file does not start with the header"); at = 2; }
    for (; at < d.size(); at += 4) {
      A(26, d.size() - at >= 4 && d[at + 3] == '\n', "a line is incomplete"); if (d.size() - at < 4) return; unsigned c = (unsigned char)d[at] - 'a', o = (unsigned char)d[at + 1] - '0';
      A(26, c < nc && o < no && msg[c][o].submitted && msg[c][o].file == f, "a line that nobody logged to this file"); if (!(c < nc && o < no)) return; A(26, (unsigned char)d[at + 2] == mark[c][o], "a message is changed");
      A(26, !got[c][o], "a message is written twice"); A(26, o + 1 > seen[c], "a thread's messages are out of order"); A(26, msg[c][o].want || msg[c][o].maybe, "a message below the level is written"); got[c][o] = 1; seen[c] = o + 1; lines[f]++;
    }
    if (final) for (unsigned c = 0; c < nc; c++) for (unsigned o = 0; o < no; o++) { Msg& m = msg[c][o]; if (m.submitted && m.file == f && m.want && !m.maybe) A(26, got[c][o], "a message is lost"); }
  }
}
static unsigned buffered(unsigned f, const unsigned* lines) { unsigned n = 0; for (unsigned c = 0; c < nc; c++) for (unsigned o = 0; o < no; o++) { Msg& m = msg[c][o]; if (m.submitted && m.file == f && m.want) n++; } return n - lines[f]; }
static void setup() {
  nc = (unsigned)psx_param("C", 1); no = (unsigned)psx_param("N", 2); headers = psx_param("headers", 1); unsigned kinds = (unsigned)psx_param("kinds", 1u << LOG);
  for (unsigned c = 0; c < nc; c++) for (unsigned o = 0; o < no; o++) { char nm[4] = {'k', (char)('0' + c), (char)('0' + o), 0}; int k = (int)psx_param(nm, -1); if (k < 0) { unsigned v[KINDS], n = 0; for (unsigned i = 0; i < KINDS; i++) if (kinds >> i & 1) v[n++] = i; k = (int)v[n == 1 ? 0 : psx_pick(n, "operation")]; } prog[c][o] = (unsigned char)k; mark[c][o] = psx_u8("message byte"); if (k == FLUSH) arg[c][o] = (size_t)psx_u64("flush size"); if (k == LEVEL) arg[c][o] = psx_u8("level"); }
 
  level = psx_param("level", -1) < 0 ? (Lv)(signed char)psx_u8("level") : (Lv)psx_param("level", 0); prop = 26;
}
H(p26) {
  setup(); size_t flush = psx_param("flush", -1) < 0 ? (size_t)psx_u64("flush size") : (size_t)psx_param("flush", 0); int mode = (int)psx_param("mode", 0), faults = (int)psx_param("faults", 0), xf = (int)psx_param("xfaults", 0); psx_sched((int)psx_param("preempt", -1), (int)psx_param("spurious", 0), 0, (int)psx_param("races", 0));
  {
    Logger l; lg = &l; l.level(level).write_header(headers).buffer_flush_size(flush).log_writer(writer).header_writer(headerWriter); fsx::faults(faults, xf);
    { std::vector<std::thread> t; for (unsigned c = 1; c < nc; c++) t.emplace_back(client, c); if (nc) client(0); for (auto& x : t) x.join(); }
    bool changed = false; for (auto& q : msg) for (auto& m : q) changed |= m.maybe;
    if (mode == 0) { psx_quiesce(); unsigned n[MF]; look(false, n); if (!changed) for (unsigned f = 0; f < MF; f++) A(26, buffered(f, n) == 0 || buffered(f, n) < l.buffer_flush_size(), "a file whose buffer has reached the flush size is not written"); }
    fsx::faults(0, 0); psx_assert(l.is_logging(), "P26 logger: a logger that is alive reports not logging");
  }
  unsigned n[MF]; look(true, n); for (unsigned f = 0; f < MF; f++) psx_observe(n[f]); psx_cover("checked");
}
// Missing directories: made for the file while create_dirs is on, never while it is off; lines that cannot be written wait.
H(p26_dirs) {
  prop = 26; psx_sched(-1, 0, 0, 0); unsigned n = (unsigned)psx_param("N", 4), logged = 0, written = 0; bool on = psx_pick(2, "create_dirs at first"), have = false; const char* f = psx_param("deep", 0) ? "d/e/b.log" : "d/b.log"; const char* dir = psx_param("deep", 0) ? "d/e" : "d"; uint8_t mark[8];
  auto check = [&](const char* m) { std::string d; bool there = fsx::get(f, d); if ((on || have) && written < logged && d.size() == 2 * logged) { written = logged; have = true; } psx_assert(fsx::isDir(dir) == have, m); psx_assert(fsx::isDir("d") == have, m); psx_assert(there == (written > 0), "P26 logger: the file is missing or not expected"); psx_assert(d.size() == 2 * written, "P26 logger: lines are missing"); bool ok = true; for (unsigned i = 0; i < written && 2 * i + 1 < d.size(); i++) ok &= (unsigned char)d[2 * i] == mark[i] && d[2 * i + 1] == '\n'; psx_assert(ok, "P26 logger: a line is changed"); };
  {
    Logger l; l.write_header(false).log_writer(writer).buffer_flush_size(1).create_dirs(on);
    for (unsigned i = 0; i < n; i++) {
      switch (psx_pick(4, "operation")) {
        case 0: mark[logged] = psx_u8("byte"); l.write(f, Lv::info, {"f", 1, "g"}, std::string(1, (char)mark[logged])); logged++; psx_quiesce(); if (on) have = true; if (have) written = logged; break;
        case 1: on = true; l.create_dirs(true); psx_quiesce(); break; case 2: on = false; l.create_dirs(false); psx_quiesce(); break; default: if (!have) { fsx::mkdirs(dir); have = true; }
      }
      psx_assert(l.create_dirs() == on, "P26 logger: create_dirs is not the value set"); check("P26 logger: directories are made though create_dirs is off, or not made though it is on");
    }
    if (on && written < logged) have = true; if (have) written = logged;
  }
  check("P26 logger: directories are made though create_dirs is off, or not made though it is on"); psx_observe(written); psx_cover("checked");
}
// The process-wide logger through its macro, first used by several threads at once.
H(p26_instance) {
  setup(); psx_sched(-1, 0, 0, (int)psx_param("races", 0)); fsx::put("d/b.log", "old\n"); static Logger* seen[MC];
  { std::vector<std::thread> t; for (unsigned c = 0; c < nc; c++) t.emplace_back([c] { Logger& l = Logger::instance(); seen[c] = &l; if (c == 0) { l.write_header(false); l.log_writer(writer); } }); for (auto& x : t) x.join(); }
  for (unsigned c = 1; c < nc; c++) psx_assert(seen[c] == seen[0], "P26 logger: instance() is not one logger");
  { std::vector<std::thread> t; for (unsigned c = 0; c < nc; c++) t.emplace_back([c] { for (unsigned o = 0; o < no; o++) { msg[c][o].submitted = msg[c][o].want = true; msg[c][o].file = 0; PLUTO_LOG_WRITE("a", info, text(c, o)); } }); for (auto& x : t) x.join(); }
  headers = false; psx_quiesce(); fsx::remove("d/b.log"); unsigned n[MF]; look(true, n); psx_cover("checked");
}
// Any two calls at the same time, with the background writer at work: no data race.
static void call(unsigned k, unsigned c) {
  switch (k) {
    case 0: lg->write("a", Lv::info, {"f", 1, "g"}, "m"); break; case 1: lg->stream("d/b.log", Lv::info, {"f", 1, "g"}) << "m"; break;
    case 2: lg->level(Lv::off); break; case 3: lg->create_dirs(false); break; case 4: lg->write_header(false); break; case 5: lg->buffer_max_size(1 + c); break; case 6: lg->buffer_flush_size(1 + c); break;
    case 7: lg->file_rotation_size(1); break; case 8: lg->file_rotation_limit(1 + c); break; case 9: lg->reset_num_discarded_logs(); break;
    case 10: lg->log_writer([c](std::ostream& s, const pluto::log_entry& e) { s << e.message << c; }); break; case 11: lg->header_writer([c](std::ostream& s) { s << c; }); break;
    case 12: { auto f = lg->log_writer(); auto g = lg->header_writer(); psx_assert(f && g, "P26 logger: a writer is empty"); break; }
    default: (void)lg->is_logging(); (void)lg->level(); (void)lg->create_dirs(); (void)lg->write_header(); (void)lg->buffer_max_size(); (void)lg->buffer_flush_size(); (void)lg->file_rotation_size(); (void)lg->file_rotation_limit(); (void)lg->num_discarded_logs(); (void)lg->should_log(Lv::info);
  }
}
H(p26_race) {
  psx_sched((int)psx_param("preempt", -1), 0, 0, 1); unsigned a = (unsigned)psx_param("a", 0), b = (unsigned)psx_param("b", 0);
  { Logger l; lg = &l; l.log_writer(writer).header_writer(headerWriter).buffer_flush_size((size_t)psx_param("flush", 1)).file_rotation_size((size_t)psx_param("rotate", 0)); std::thread x([a] { call(a, 0); }), y([b] { call(b, 1); }); if (psx_param("main", 0)) l.write("a", Lv::info, {"f", 1, "g"}, "n"); x.join(); y.join(); }
  psx_cover("checked");
}
// ---------------------------------------------------------------- P27
static unsigned countLines(const char* f) { std::string d; if (!fsx::get(f, d)) return 0; unsigned n = 0; for (char c : d) n += c == '\n'; return n; }
// One thread, quiescent after every call: exactly the predicted lines are kept, written and discarded, for every size.
H(p27) {
  prop = 27; unsigned n = (unsigned)psx_param("N", 4); int gate = (int)psx_param("gate", 0); psx_sched(0, 0, 0, 0); static unsigned open; open = !gate;
  size_t max = psx_u64("maximum size"), flush = psx_u64("flush size"); unsigned buf[MF] = {}, total[MF] = {}, disc = 0, logged = 0;
  {
    Logger l; l.write_header(false).buffer_max_size(max).buffer_flush_size(flush).log_writer([](std::ostream& s, const pluto::log_entry&) { psx_await(&open, 0); s << "x"; });
    A(27, l.buffer_max_size() == max && l.buffer_flush_size() == flush && l.num_discarded_logs() == 0, "a setting is not the one given");
    for (unsigned i = 0; i < n; i++) {
      unsigned op = (unsigned)psx_pick((unsigned)psx_param("ops", 5), "operation");
      if (op < 2) { l.write(fname[op], Lv::info, {"f", 1, "g"}, "m"); logged++; if (max == 0 || buf[op] < max) { buf[op]++; total[op]++; } else disc++; }
      else if (op == 2) { l.reset_num_discarded_logs(); disc = 0; } else if (op == 3) { max = psx_u64("new maximum"); l.buffer_max_size(max); } else { flush = psx_u64("new flush size"); l.buffer_flush_size(flush); }
      A(27, l.num_discarded_logs() == disc, "the discard counter is wrong");
      if (gate) { if (psx_param("quiet", 0)) psx_quiesce(); continue; }
      psx_quiesce(); for (unsigned f = 0; f < MF; f++) { if (buf[f] && flush <= buf[f]) buf[f] = 0; A(27, countLines(fname[f]) == total[f] - buf[f], "a message is kept or dropped wrongly"); }
    }
    open = 1; psx_await(&open, 0); if (gate) psx_quiesce();
  }
  for (unsigned f = 0; f < MF; f++) { A(27, countLines(fname[f]) == total[f], "a message is kept or dropped wrongly"); psx_observe(total[f]); } psx_observe(disc); psx_cover("checked");
}
// Several threads and the writer at work: written plus discarded equals logged, and never more than the maximum is pending.
H(p27_threads) {
  prop = 27; nc = (unsigned)psx_param("C", 2); no = (unsigned)psx_param("N", 1); static unsigned files; files = (unsigned)psx_param("files", 1); psx_sched((int)psx_param("preempt", -1), 0, 0, 0); static size_t max; max = psx_param("max", -1) >= 0 ? (size_t)psx_param("max", 0) : psx_u64("maximum size"); size_t flush = psx_param("flush", -1) >= 0 ? (size_t)psx_param("flush", 0) : psx_u64("flush size"); static unsigned done[MF], all[MF]; static unsigned late; size_t disc = 0;
  for (unsigned c = 0; c < nc; c++) for (unsigned o = 0; o < no; o++) { prog[c][o] = files > 1 ? (unsigned char)psx_pick(files, "file") : 0; all[prog[c][o]]++; }
  {
    static Logger* p; Logger l; p = &l; l.write_header(false).buffer_max_size(max).buffer_flush_size(flush).log_writer([](std::ostream& s, const pluto::log_entry&) { s << "x"; });
    auto run = [](unsigned c) { for (unsigned o = 0; o < no; o++) { unsigned f = prog[c][o]; p->write(fname[f], Lv::info, {"f", 1, "g"}, "m"); done[f]++; if (max) { unsigned n = 0; for (unsigned i = 0; i < MF; i++) { unsigned w = countLines(fname[i]); n += done[i] > w ? done[i] - w : 0; } size_t d = p->num_discarded_logs(); A(27, n <= d || max > 100 || n - d <= files * max, "more than the maximum is buffered"); } } };
    std::vector<std::thread> t; for (unsigned c = 1; c < nc; c++) t.emplace_back(run, c); run(0); for (auto& x : t) x.join(); disc = l.num_discarded_logs(); if (psx_param("quiet", 0)) psx_quiesce();
  }
  unsigned w = 0; for (unsigned f = 0; f < MF; f++) { unsigned k = countLines(fname[f]); w += k; A(27, k <= all[f] && k >= (max == 0 || all[f] < max ? all[f] : max), "a message is dropped although the buffer has room"); }
  A(27, w + disc == nc * no, "written and discarded messages do not add up to those logged"); A(27, max != 0 || disc == 0, "a message is discarded without a maximum"); psx_observe(w); psx_cover("checked");
}
// ---------------------------------------------------------------- P28
struct Ref { std::string f[8]; bool there[8] = {}; };
// Record lengths, rotation size and limit against a reference model of the files, with files left from before.
H(p28) {
  prop = 28; unsigned n = (unsigned)psx_param("N", 3), shape = (unsigned)psx_param("name", 0), batch = (unsigned)psx_param("batch", 0), maxLen = (unsigned)psx_param("len", 2), pre = (unsigned)psx_param("pre", 0); headers = psx_param("headers", 1); psx_sched(0, 0, 0, 0); int faults = (int)psx_param("faults", 0), xf = (int)psx_param("xfaults", 0), change = (int)psx_param("change", 0);
  static const char* const base[] = {"a", "d/x.log", ".h", "a.b.log", "x."}; static const char* const stem[] = {"a", "d/x", ".h", "a.b", "x"}; static const char* const ext[] = {"", ".log", "", ".log", "."};
  size_t size = psx_u64("rotation size"), limit = psx_u64("rotation limit"); if (faults || xf) psx_assume(limit >= 8);
  auto name = [&](unsigned i) { return std::string(stem[shape]) + (i ? "_" + std::string(1, (char)('0' + i)) : std::string()) + ext[shape]; };
  Ref r; if (pre) for (unsigned i = 0; i < pre; i++) if (psx_pick(2, "file from before")) { r.there[i] = true; for (unsigned k = (unsigned)psx_pick(3, "its lines"); k; k--) { r.f[i] += (char)('p' + i); r.f[i] += '\n'; } fsx::put(name(i), r.f[i]); }
  unsigned before = fsx::files(); std::string all, lost;
  {
    Logger l; l.write_header(headers).log_writer(writer).header_writer(headerWriter).file_rotation_size(size).file_rotation_limit(limit).buffer_flush_size(batch ? 100 : 1); A(28, l.file_rotation_size() == size && l.file_rotation_limit() == limit && l.write_header() == (bool)headers, "a setting is not the one given"); fsx::faults(faults, xf);
    for (unsigned m = 0; m < n; m++) {
      if (change && psx_pick(2, "change settings")) { size = psx_u64("new rotation size"); limit = psx_u64("new rotation limit"); l.file_rotation_size(size).file_rotation_limit(limit); }
      std::string t(psx_pick(maxLen + 1, "length"), (char)('A' + m)); l.write(base[shape], Lv::info, {"f", 1, "g"}, t); if (!batch) psx_quiesce();
      if (size != 0 && size <= r.f[0].size()) {
        unsigned k = 0; while (k < 8 && r.there[k]) k++; for (unsigned i = 0; i < k; i++) if (i >= limit) { lost += r.f[i]; r.there[i] = false; r.f[i].clear(); }
        unsigned e = 0; while (e < k && r.there[e]) e++; for (unsigned i = e; i > 0; i--) { r.f[i] = r.f[i - 1]; r.there[i] = true; } r.there[0] = false; r.f[0].clear();
      }
      r.there[0] = true; if (headers && r.f[0].empty()) r.f[0] = "H\n"; r.f[0] += t + "\n"; all += t + "\n";
    }
    if (batch) fsx::faults(0, 0);
  }
  fsx::faults(0, 0); std::string got;
  if (faults || xf) { // the numbering may have been interrupted: everything is still there once, in order
    for (unsigned i = 8; i-- > 0;) { std::string d; if (!fsx::get(name(i), d)) continue; if (headers && !d.empty() && d[0] == 'H') d.erase(0, 2); got += d; }
    std::string want; for (unsigned i = pre; i-- > 0;) (void)i; A(28, got.size() >= all.size() && got.compare(got.size() - all.size(), all.size(), all) == 0, "lines are lost, repeated or out of order"); psx_cover("checked"); return;
  }
  unsigned there = 0; for (unsigned i = 0; i < 8; i++) { std::string d; bool have = fsx::get(name(i), d); A(28, have == r.there[i], "a file is missing or should not exist"); A(28, !have || d == r.f[i], "a file does not hold the expected lines"); there += have; }
  unsigned dirs = 0, files = 0; for (unsigned i = 0; i < fsx::files(); i++) (fsx::node(i).dir ? dirs : files)++; A(28, files == there, "a file of another name was created"); (void)before;
  psx_observe(there); for (unsigned i = 0; i < 8; i++) psx_observe(r.f[i].size()); psx_cover("checked");
}
