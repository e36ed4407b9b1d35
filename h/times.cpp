// P32: local_time and gm_time. The C library's conversion is replaced by its specification: the proleptic Gregorian calendar, at an offset from
// UTC that is an arbitrary function of the time for the local zone. The non-reentrant forms share one buffer, as in C.
#include "thr/psx_pthread.h"
#include "hx.h"
#include <ctime>
#include <chrono>
#include <thread>
static const unsigned MZ = 8; struct Zone { int64_t t; int off; int dst; }; static Zone zone[MZ]; static unsigned nz;
static void calendar(int64_t t, int64_t off, int dst, const char* name, struct tm* r) {
  const uint64_t BIAS = 2000000000000ULL; uint64_t u = (uint64_t)(t + off) + 86400 * BIAS, day = u / 86400, sec = u % 86400, z = day + 719468 + (146097 * 20000000ULL - BIAS), era = z / 146097, doe = z % 146097, yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365, doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153;   // civil calendar counted from March; no branch
  uint64_t late = mp >= 10; int64_t y = (int64_t)yoe + ((int64_t)era - 20000000LL) * 400 + (int64_t)late; uint64_t leap = (uint64_t)((yoe % 4 == 0) & ((yoe % 100 != 0) | (yoe == 0)));   // of the year that starts in March, that is of its January-December year when it is not late
  r->tm_sec = (int)(sec % 60); r->tm_min = (int)(sec / 60 % 60); r->tm_hour = (int)(sec / 3600); r->tm_mday = (int)(doy - (153 * mp + 2) / 5 + 1); r->tm_mon = (int)(mp + 2 - 12 * late); r->tm_year = (int)(y - 1900); r->tm_wday = (int)((day + 4 + 7 - BIAS % 7) % 7); r->tm_yday = (int)(doy + (1 - late) * (59 + leap) - late * 306); r->tm_isdst = dst; r->tm_gmtoff = off; r->tm_zone = name;
}
static void arbitrary(Zone& z) { z.off = (int)psx_u16("offset") * 2 - 65536; z.dst = psx_u8("dst") & 1; }
static void at(bool local, int64_t t, struct tm* r) {
  if (!local) return calendar(t, 0, 0, "GMT", r);
  for (unsigned i = 0; i < nz; i++) if (zone[i].t == t) return calendar(t, zone[i].off, zone[i].dst, "ZON", r);
  if (nz == MZ) psx_error("times"); Zone& z = zone[nz++]; z.t = t; arbitrary(z); calendar(t, z.off, z.dst, "ZON", r);
}
extern "C" { struct tm* psx_localtime_r(const time_t* t, struct tm* r) { at(true, *t, r); return r; } struct tm* psx_gmtime_r(const time_t* t, struct tm* r) { at(false, *t, r); return r; } static struct tm shared;
struct tm* psx_localtime(const time_t* t) { psx_yield(); struct tm* r = psx_localtime_r(t, &shared); psx_yield(); return r; } struct tm* psx_gmtime(const time_t* t) { psx_yield(); struct tm* r = psx_gmtime_r(t, &shared); psx_yield(); return r; } }
namespace std { using ::psx_localtime; using ::psx_gmtime; }
#define localtime_r psx_localtime_r
#define gmtime_r psx_gmtime_r
#define localtime psx_localtime
#define gmtime psx_gmtime
#include <pluto/platform.hpp>
#define A(c, m) psx_assert((c), "P32 time: " m)
static int64_t when(const char* n) {
  int64_t t; if (psx_param("wide", 0)) { t = (int64_t)psx_u64(n); psx_assume(t >= -67000000000000000LL && t <= 67000000000000000LL);   // the year fits tm_year
  } else t = (int64_t)(int32_t)psx_u32(n);
  for (unsigned i = 0; i < nz; i++) psx_assume(zone[i].t != t); Zone& z = zone[nz++]; z.t = t; arbitrary(z); return t;
}
static void check(const std::tm& g, bool local, int64_t t) {
  std::tm w{}; at(local, t, &w);
  A(g.tm_isdst == w.tm_isdst && g.tm_gmtoff == w.tm_gmtoff && g.tm_zone == w.tm_zone, "the zone is wrong"); A(g.tm_sec == w.tm_sec && g.tm_min == w.tm_min && g.tm_hour == w.tm_hour, "the time of day is wrong"); A(g.tm_mday == w.tm_mday && g.tm_mon == w.tm_mon && g.tm_year == w.tm_year, "the date is wrong"); A(g.tm_wday == w.tm_wday && g.tm_yday == w.tm_yday, "the day of the week or of the year is wrong"); psx_observe((uint64_t)g.tm_year); psx_observe((uint64_t)g.tm_yday); psx_observe((uint64_t)g.tm_hour);
}
static std::tm call(bool local, time_t t) { return local ? pluto::local_time(t) : pluto::gm_time(t); }
H(p32_times) {   // a history of calls: each depends on its own time alone
  unsigned n = (unsigned)psx_param("N", 2); int64_t t[4]; bool l[4]; std::tm r[4]; for (unsigned i = 0; i < n; i++) { l[i] = psx_pick(2, "local"); if (i && psx_pick(2, "the same time again")) t[i] = t[i - 1]; else t[i] = when("time"); }
  for (unsigned i = 0; i < n; i++) r[i] = call(l[i], t[i]); for (unsigned i = 0; i < n; i++) check(r[i], l[i], t[i]); psx_cover("checked");
}
H(p32_threads) {
  unsigned a = (unsigned)psx_param("a", 0), b = (unsigned)psx_param("b", 0), n = (unsigned)psx_param("N", 1); int64_t t[2][2]; for (auto& x : t) for (unsigned i = 0; i < n; i++) x[i] = when("time"); psx_sched(-1, 0, 0, (int)psx_param("races", 1)); std::tm r[2][2]; bool l[2] = {a != 0, b != 0};
  auto run = [&](unsigned c) { for (unsigned i = 0; i < n; i++) r[c][i] = call(l[c], t[c][i]); }; std::thread x(run, 0), y(run, 1); x.join(); y.join(); psx_sched(-1, 0, 0, 0);
  for (unsigned c = 0; c < 2; c++) for (unsigned i = 0; i < n; i++) check(r[c][i], l[c], t[c][i]); psx_cover("checked");
}
