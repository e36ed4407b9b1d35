// P17, P18: stopwatch over an arbitrary clock.
#include "hx.h"
#include <chrono>
struct Clk { typedef int64_t rep; typedef std::nano period; typedef std::chrono::duration<int64_t, std::nano> duration; typedef std::chrono::time_point<Clk> time_point; static constexpr bool is_steady = false; static time_point now(); };
#define PLUTO_STOPWATCH_CLOCK_TYPE Clk
#include <pluto/stopwatch.hpp>
static int64_t g_last; static int g_reads; static bool g_fixed; static int64_t g_fix;
Clk::time_point Clk::now() { g_reads++; if (g_fixed) return time_point(duration(g_fix)); int64_t v = sym<int64_t>("now"); psx_assume(v >= -(1ll << 56) && v <= (1ll << 56)); g_last = v; return time_point(duration(v)); }
#define A(c, m) psx_assert((c), "P17 stopwatch: " m)
// ops: arbitrary sequence, the clock returning an arbitrary (not even monotonic) instant at each reading
H(p17_ops) {
  int N = psx_param("N", 5); bool first = psx_pick(2, "start at construction"); pluto::stopwatch w(first);
  bool run = first; int64_t acc = 0, start = first ? g_last : 0;
  for (int i = 0; i < N; i++) {
    A(w.is_running() == run, "is_running is not the last effective operation");
    switch (psx_pick(6, "op")) {
      case 0: { bool was = run; w.start(); if (!was) { run = true; start = g_last; } break; }
      case 1: { bool was = run; w.stop(); if (was) { acc += g_last - start; run = false; } break; }
      case 2: w.restart(); acc = 0; start = g_last; run = true; break;
      case 3: w.reset(); acc = 0; run = false; break;
      case 4: { bool was = run; int64_t t = w.stop_and_time().count(); if (was) { acc += g_last - start; run = false; } psx_observe(t); A(t == acc, "stop_and_time is not the accumulated time"); break; }
      default: { int64_t t = w.time().count(); psx_observe(t); A(t == acc + (run ? g_last - start : 0), "time is not the sum of the running intervals"); break; }
    }
  }
  A(w.is_running() == run, "is_running is not the last effective operation");
  int64_t t = w.time().count(); psx_observe(t); A(t == acc + (run ? g_last - start : 0), "time is not the sum of the running intervals"); psx_cover("checked");
}
#undef A
#define A(c, m) psx_assert((c), "P18 stopwatch: " m)
static pluto::stopwatch* make(int64_t d, bool running) { // elapsed d, built through the interface
  g_fixed = true; g_fix = 1000; auto* w = new pluto::stopwatch(true); g_fix = 1000 + d; if (!running) w->stop(); return w; }
typedef std::chrono::nanoseconds NS; typedef std::chrono::microseconds US; typedef std::chrono::milliseconds MS; typedef std::chrono::seconds SE; typedef std::chrono::minutes MI; typedef std::chrono::hours HR;
static int64_t per(int u) { const int64_t k[] = {1, 1000, 1000000, 1000000000ll, 60000000000ll, 3600000000000ll}; return k[u]; }
// in_<unit>: d == q * unit + r with 0 <= r < unit, q and r symbolic
H(p18_units) {
  int u = psx_param("u", 1); int bits = psx_param("bits", 62); int64_t k = per(u); int64_t q = (int64_t)psx_range(0, ((1ull << bits) - 1) / k, "quotient"), r = (int64_t)psx_range(0, k - 1, "remainder"); bool running = psx_pick(2, "running");
  auto* w = make(q * k + r, running); int64_t got = u == 0 ? w->in_nanoseconds() : u == 1 ? w->in_microseconds() : u == 2 ? w->in_milliseconds() : u == 3 ? w->in_seconds() : u == 4 ? w->in_minutes() : w->in_hours();
  psx_observe(got); A(got == q, "in_<unit> is not the elapsed time truncated to that unit");
  int64_t c = u == 0 ? w->count<NS>() : u == 1 ? w->count<US>() : u == 2 ? w->count<MS>() : u == 3 ? w->count<SE>() : u == 4 ? w->count<MI>() : w->count<HR>(); A(c == q, "count<D> is not the elapsed time in D"); delete w; psx_cover("checked");
}
// parts: d composed from six symbolic parts
H(p18_parts) {
  int f = psx_param("part", 0); uint64_t hb = psx_param("hours", 1 << 20);
  int64_t h = psx_range(0, hb, "h"), m = psx_range(0, 59, "m"), s = psx_range(0, 59, "s"), ms = psx_range(0, 999, "ms"), us = psx_range(0, 999, "us"), ns = psx_range(0, 999, "ns");
  bool running = psx_pick(2, "running"); auto* w = make(h * per(5) + m * per(4) + s * per(3) + ms * per(2) + us * per(1) + ns, running); int64_t got, want;
  switch (f) { case 0: got = w->nanoseconds_part(); want = ns; break; case 1: got = w->microseconds_part(); want = us; break; case 2: got = w->milliseconds_part(); want = ms; break; case 3: got = w->seconds_part(); want = s; break; case 4: got = w->minutes_part(); want = m; break; default: got = w->hours_part(); want = h; }
  psx_observe(got); A(got == want, "parts do not recompose the elapsed time"); delete w; psx_cover("checked");
}
H(p18_rollover) { int64_t d = psx_range(0, (1ull << psx_param("bits", 40)) - 1, "d"); int64_t r = psx_range(1, (1ull << psx_param("rbits", 10)) - 1, "rollover"); auto* w = make(d, psx_pick(2, "running")); int64_t a = w->count<NS>(r), b = w->count<NS>(); psx_observe(a); A(a == b % r, "count<D>(r) is not count<D>() modulo r"); int64_t c = w->count<US>(r), e = w->count<US>(); A(c == e % r, "count<D>(r) is not count<D>() modulo r"); delete w; psx_cover("checked"); }
