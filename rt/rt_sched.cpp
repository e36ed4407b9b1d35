// Threads, mutexes, condition variables, futures and clocks as a scheduler model: every synchronisation operation is a
// scheduling point at which the next thread is an explored choice. The same source runs inside the symbolic engine and,
// for replays, natively on real threads that hand over a baton (PSX_NATIVE). Contains no PlutoUtils code.
#include "psx.h"
#include <condition_variable>
#include <mutex>
#include <shared_mutex>
#include <thread>
#include <future>
#include <chrono>
#include <cstring>
#include <pthread.h>
#include <errno.h>
extern "C" { void psx_race_on(int); void psx_release(void); void psx_forget(uint64_t tid); }
#ifdef PSX_TSAN
extern "C" { void __tsan_acquire(void*); void __tsan_release(void*); }
#define ACQ(p) __tsan_acquire((void*)(p))
#define REL(p) __tsan_release((void*)(p))
#else
#define ACQ(p) ((void)0)
#define REL(p) ((void)0)
#endif
namespace {
enum { NONE, LOCK, RD, WR, JOIN, COND, FUTEX, GUARD, DRAIN, QUIET, SETTLE };
struct T { int op; bool timed, done, detached, timeout; unsigned val; void* obj; void* mu; int64_t deadline; void* state; };
const unsigned MAXT = 24;
T th[MAXT]; unsigned nth = 1; bool atomics; int preempt = -1, spur = 0, ticks = 0, races = 0; long failStart = -1; int64_t T0 = 1000000000000ll, horizon = INT64_MAX;
struct MuM { unsigned owner; unsigned kind; }; struct RwM { unsigned writer, readers; }; // readers: bit per thread
static_assert(sizeof(MuM) <= sizeof(pthread_mutex_t) && sizeof(RwM) <= sizeof(pthread_rwlock_t), "");
inline unsigned me() { return (unsigned)psx_self(); }
bool enabled(unsigned i) {
  T& t = th[i]; if (t.done) return false;
  switch (t.op) {
    case NONE: return true; case LOCK: return ((MuM*)t.obj)->owner == 0; case RD: return ((RwM*)t.obj)->writer == 0; case WR: return ((RwM*)t.obj)->writer == 0 && ((RwM*)t.obj)->readers == 0;
    case JOIN: return th[t.val].done; case FUTEX: return *(volatile unsigned*)t.obj != t.val; case GUARD: return ((volatile char*)t.obj)[1] == 0;
    case QUIET: case SETTLE:
      for (unsigned k = 0; k < nth; k++) if (k != i && th[k].op != QUIET && th[k].op != SETTLE && enabled(k)) return false;
      for (unsigned k = 0; k < nth; k++) if (!th[k].done && th[k].op == COND && th[k].timed && (horizon == INT64_MAX || th[k].deadline <= horizon) && (t.op == SETTLE || th[k].deadline <= T0)) return false;
      return true;
    case DRAIN: for (unsigned k = 1; k < nth; k++) if (!th[k].done) return false; return true;
  }
  return false;
}
void wake(unsigned i, bool timeout) { T& t = th[i]; t.op = LOCK; t.obj = t.mu; t.timed = false; t.timeout = timeout; }
// The next thread to run: one choice among all threads that can go on, time-outs and (within the budget) spurious wake-ups.
unsigned choose(bool ending) {
  unsigned self = me();
  for (;;) {
    unsigned c[3 * MAXT], n = 0, k; bool mine = !ending && enabled(self); if (mine) c[n++] = self;
    if (!(mine && preempt == 0)) { for (unsigned i = 0; i < nth; i++) if (i != self && enabled(i)) c[n++] = i;
      for (unsigned i = 0; i < nth; i++) if (!th[i].done && th[i].op == COND && th[i].timed && (horizon == INT64_MAX || th[i].deadline <= horizon)) c[n++] = MAXT + i;
      if (spur > 0) for (unsigned i = 0; i < nth; i++) if (!th[i].done && th[i].op == COND) c[n++] = 2 * MAXT + i; }
    if (n == 0) psx_fail("deadlock: every thread waits for ever");
    k = c[n == 1 ? 0 : psx_pick(n, "schedule")];
    if (k >= 2 * MAXT) { spur--; wake(k - 2 * MAXT, false); continue; }
    if (k >= MAXT) { T& t = th[k - MAXT]; if (t.deadline > T0) T0 = t.deadline; wake(k - MAXT, true); continue; }
    if (mine && k != self && preempt > 0) preempt--;
    return k;
  }
}
void park(int op, void* obj, unsigned val = 0) {
  unsigned self = me(); T& t = th[self]; t.op = op; t.obj = obj; t.val = val;
  psx_switch(choose(false)); psx_dedup(); t.op = NONE; t.obj = nullptr; t.val = 0;
}
void body(void* a) { unsigned i = (unsigned)(size_t)a; psx_dedup(); { std::unique_ptr<std::thread::_State> p((std::thread::_State*)th[i].state); th[i].state = nullptr; p->_M_run(); } }
#ifdef PSX_NATIVE
void finish();
void run(void* a) { body(a); finish(); }
#else
void run(void* a) { body(a); if (races) park(NONE, nullptr); unsigned i = me(); th[i].done = true; psx_thread_exit(choose(true)); }
#endif
int condWait(void* c, void* m, bool timed, int64_t dl) {
  unsigned self = me(); MuM* mu = (MuM*)m; if (races || atomics) park(NONE, nullptr);
  if (mu->owner != self + 1) psx_fail("condition wait without holding the mutex");
  REL(m); mu->owner = 0; psx_release();
  T& t = th[self]; t.op = COND; t.obj = c; t.mu = m; t.timed = timed; t.deadline = dl; t.timeout = false;
  psx_switch(choose(false)); psx_dedup(); t.op = NONE; t.obj = t.mu = nullptr; t.deadline = 0;
  mu->owner = self + 1; ACQ(m); bool to = t.timeout; t.timeout = false; return to ? ETIMEDOUT : 0;
}
void notify(void* c, bool all) {
  park(NONE, nullptr); unsigned w[MAXT], n = 0; for (unsigned i = 0; i < nth; i++) if (!th[i].done && th[i].op == COND && th[i].obj == c) w[n++] = i;
  if (!n) return; if (all) { for (unsigned i = 0; i < n; i++) wake(w[i], false); return; }
  wake(w[n == 1 ? 0 : psx_pick(n, "thread notified")], false);
}
int64_t clockNow() { if (ticks > 0 && psx_pick(2, "clock advances")) { ticks--; T0 += (int64_t)psx_range(1, 1ull << 40, "clock step"); } return T0; }
}
extern "C" {
int psx_mutex_lock(pthread_mutex_t* p) { MuM* m = (MuM*)p; unsigned self = me(); if (m->owner == self + 1) psx_fail("self-deadlock: the thread locks a mutex it holds"); park(LOCK, m); m->owner = self + 1; ACQ(m); return 0; }
int psx_mutex_trylock(pthread_mutex_t* p) { MuM* m = (MuM*)p; unsigned self = me(); park(NONE, nullptr); if (m->owner) return EBUSY; m->owner = self + 1; ACQ(m); return 0; }
int psx_mutex_unlock(pthread_mutex_t* p) { MuM* m = (MuM*)p; unsigned self = me(); if (races) park(NONE, nullptr); if (m->owner != self + 1) psx_fail("unlock of a mutex the thread does not hold"); REL(m); m->owner = 0; psx_release(); return 0; }
int psx_rwlock_rdlock(pthread_rwlock_t* p) { RwM* m = (RwM*)p; unsigned self = me(); if (m->writer == self + 1 || (m->readers >> self & 1)) psx_fail("self-deadlock: the thread locks a mutex it holds"); park(RD, m); m->readers |= 1u << self; ACQ(m); return 0; }
int psx_rwlock_wrlock(pthread_rwlock_t* p) { RwM* m = (RwM*)p; unsigned self = me(); if (m->writer == self + 1 || (m->readers >> self & 1)) psx_fail("self-deadlock: the thread locks a mutex it holds"); park(WR, m); m->writer = self + 1; ACQ(m); return 0; }
int psx_rwlock_tryrdlock(pthread_rwlock_t* p) { RwM* m = (RwM*)p; unsigned self = me(); park(NONE, nullptr); if (m->writer) return EBUSY; m->readers |= 1u << self; ACQ(m); return 0; }
int psx_rwlock_trywrlock(pthread_rwlock_t* p) { RwM* m = (RwM*)p; unsigned self = me(); park(NONE, nullptr); if (m->writer || m->readers) return EBUSY; m->writer = self + 1; ACQ(m); return 0; }
int psx_rwlock_unlock(pthread_rwlock_t* p) { RwM* m = (RwM*)p; unsigned self = me(); if (races) park(NONE, nullptr); if (m->writer != self + 1 && !(m->readers >> self & 1)) psx_fail("unlock of a mutex the thread does not hold"); REL(m); if (m->writer == self + 1) m->writer = 0; else m->readers &= ~(1u << self); psx_release(); return 0; }
int psx_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) { return condWait(c, m, true, (int64_t)ts->tv_sec * 1000000000ll + ts->tv_nsec); }
int psx_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec* ts) { return condWait(c, m, true, (int64_t)ts->tv_sec * 1000000000ll + ts->tv_nsec); }
int psx_once(pthread_once_t* o, void (*f)(void)) { if (*o == 2) { ACQ(o); return 0; } if (*o == 1) psx_error("contended call_once"); *o = 1; f(); *o = 2; REL(o); psx_release(); return 0; }
pthread_t psx_pthread_self() { return (pthread_t)(me() + 1); }
void psx_atomic_point() { atomics = true; if (nth > 1) park(NONE, nullptr); }
void psx_yield() { park(NONE, nullptr); }
void psx_drain() { park(DRAIN, nullptr); for (unsigned i = 1; i < nth; i++) { ACQ(&th[i]); psx_forget(i); } }
void psx_quiesce() { park(QUIET, nullptr); }
void psx_settle() { park(SETTLE, nullptr); }
void psx_await(unsigned* p, unsigned v) { park(FUTEX, p, v); }
void psx_horizon(long h) { horizon = h; }
void psx_sched(int p, int s, int t, int r) { preempt = p; spur = s; ticks = t; races = r; psx_race_on(r); }
long psx_now() { return T0; }
unsigned psx_tid() { return me(); }
void psx_fail_start(long n) { failStart = n; }
long psx_starts_left() { return failStart; }
int __cxa_guard_acquire(int64_t* gg) { char* g = (char*)gg; if (*g) { ACQ(g); return 0; } park(GUARD, g); if (*g) { ACQ(g); return 0; } g[1] = 1; return 1; }
void __cxa_guard_release(int64_t* gg) { char* g = (char*)gg; REL(g); *g = 1; g[1] = 0; psx_release(); }
void __cxa_guard_abort(int64_t* gg) { char* g = (char*)gg; g[1] = 0; }
}
namespace std {
void thread::_M_start_thread(_State_ptr s, void (*)()) {
  if (failStart >= 0 && failStart-- == 0) __throw_system_error((int)errc::resource_unavailable_try_again);
  if (nth >= MAXT) psx_error("too many threads"); unsigned i = nth++; th[i].op = NONE; th[i].state = s.release(); _M_id = id((pthread_t)(i + 1));
  unsigned k = (unsigned)psx_thread_create((void*)&run, (void*)(size_t)i); if (k != i) psx_error("thread numbering"); psx_release(); park(NONE, nullptr);
}
void thread::join() { unsigned t = (unsigned)(_M_id._M_thread - 1); if (_M_id == id()) __throw_system_error((int)errc::invalid_argument); if (t == me()) __throw_system_error((int)errc::resource_deadlock_would_occur); park(JOIN, nullptr, t); ACQ(&th[t]); psx_forget(t); _M_id = id(); }
void thread::detach() { if (_M_id == id()) __throw_system_error((int)errc::invalid_argument); th[_M_id._M_thread - 1].detached = true; _M_id = id(); }
unsigned thread::hardware_concurrency() noexcept { return 2; }
condition_variable::condition_variable() noexcept {}
condition_variable::~condition_variable() noexcept { for (unsigned i = 0; i < nth; i++) if (!th[i].done && th[i].op == COND && th[i].obj == (void*)this) psx_fail("condition variable destroyed while a thread waits on it"); }
void condition_variable::wait(unique_lock<mutex>& l) { condWait(this, l.mutex()->native_handle(), false, 0); }
void condition_variable::notify_one() noexcept { notify(this, false); }
void condition_variable::notify_all() noexcept { notify(this, true); }
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* a, unsigned v, bool, chrono::seconds, chrono::nanoseconds) { park(FUTEX, a, v); return true; }
bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned* a, unsigned v, bool, chrono::seconds, chrono::nanoseconds) { park(FUTEX, a, v); return true; }
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned*) { park(NONE, nullptr); }
namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { return time_point(duration(clockNow())); }
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(clockNow())); }
} }
}
#ifndef PSX_NATIVE
// ------------------------------------------------------------------ parts of libstdc++.so around futures and call_once (symbolic only)
extern "C" int pthread_cond_destroy(pthread_cond_t*) { return 0; }
extern "C" char __libc_single_threaded; char __libc_single_threaded = 0;
namespace std {
__thread void* __once_callable; __thread void (*__once_call)();
extern "C" void __once_proxy() { __once_call(); }
__future_base::_Result_base::_Result_base() = default;
__future_base::_Result_base::~_Result_base() = default;
struct FutCat : error_category { const char* name() const noexcept override { return "future"; } string message(int) const override { return "future error"; } };
const error_category& future_category() noexcept { static FutCat* c = new FutCat; return *c; }
future_error::~future_error() noexcept {}
const char* future_error::what() const noexcept { return "future_error"; }
void __throw_future_error(int i) { throw future_error(make_error_code(future_errc(i))); }
thread::_State::~_State() = default;
}
#else
// ------------------------------------------------------------------ real threads passing a baton
#include <unistd.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <cstdio>
#include <cstdlib>
static volatile unsigned baton = 0; static thread_local unsigned selfId = 0; struct St { void (*fn)(void*); void* arg; unsigned id; };
static void pass(unsigned t) { __atomic_store_n(&baton, t, __ATOMIC_SEQ_CST); syscall(SYS_futex, &baton, FUTEX_WAKE, 1 << 30, nullptr, nullptr, 0); }
static void await(unsigned t) { for (;;) { unsigned b = __atomic_load_n(&baton, __ATOMIC_SEQ_CST); if (b == t) return; syscall(SYS_futex, &baton, FUTEX_WAIT, b, nullptr, nullptr, 0); } }
static void* start(void* a) { St s = *(St*)a; free(a); selfId = s.id; await(s.id); s.fn(s.arg); return nullptr; }
namespace { void finish() { if (races) park(NONE, nullptr); unsigned i = me(); REL(&th[i]); th[i].done = true; pass(choose(true)); } }
extern "C" {
uint64_t psx_self() { return selfId; }
uint64_t psx_thread_create(void* fn, void* arg) { static unsigned n = 1; St* s = (St*)malloc(sizeof(St)); s->fn = (void (*)(void*))fn; s->arg = arg; s->id = n++; unsigned id = s->id; pthread_t t; pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setdetachstate(&at, PTHREAD_CREATE_DETACHED); if (pthread_create(&t, &at, start, s)) { fprintf(stderr, "PSX-ERROR: pthread_create\n"); _exit(12); } return id; }
void psx_switch(uint64_t t) { if (t == selfId) return; unsigned s = selfId; pass((unsigned)t); await(s); }
void psx_thread_exit(uint64_t) { abort(); }
void psx_race_on(int) {} void psx_release() {} void psx_forget(uint64_t) {}
}
#endif
