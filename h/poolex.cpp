// P39: a thread cannot be started, or a task cannot be copied, in the middle of a call: the thread pool stays usable.
#include "thr/psx_pthread.h"
#include "hx.h"
#include <functional>
#include <memory>
#include <system_error>
#include <thread>
#include <mutex>
#include <pluto/thread_pool.hpp>
typedef pluto::thread_pool Pool; typedef Pool::clock_type::time_point TP; typedef Pool::clock_type::duration Dur;
#define A(c, m) psx_assert((c), "P39 thread_pool: " m)
struct Failed {}; static unsigned copies; static uint32_t failAt; static bool armed, thrown, dead;   // the failAt-th copy of a task while armed throws, once
static const unsigned MT = 10; struct Task { bool accepted, refused, started, finished; int64_t time; }; static Task tk[MT]; static unsigned ntk, gate;
static void body(unsigned i) { Task& t = tk[i]; A(!t.refused, "a task is run although the call that submitted it failed"); A(!t.started, "a task is started twice"); A(!dead, "a task is started after the destructor returned"); A(psx_now() >= t.time, "a scheduled task is started before its time"); t.started = true; psx_yield(); t.finished = true; }
struct Fn { unsigned i, sane; explicit Fn(unsigned x) : i(x), sane(77) {} Fn(const Fn& o) : i(o.i), sane(o.sane) { if (armed && copies++ == failAt) { armed = false; thrown = true; sane = 0; throw Failed(); } } Fn(Fn&& o) noexcept : i(o.i), sane(o.sane) { o.sane = 0; } ~Fn() { sane = 0; } Fn& operator=(const Fn&) = delete; void operator()() const { A(sane == 77, "a task is run that was moved from or destroyed"); body(i); } };
static unsigned add() { if (ntk >= MT) psx_error("tasks"); tk[ntk] = Task{}; return ntk++; }
// One submission; the calls that fail are those of which a thread start or a copy does. 0 run_async, 1 run_sync, 2 run_at, 3 run_after, 4 run_at later
static bool submit(Pool& p, unsigned how) {
  unsigned i = add(); Task& t = tk[i]; const std::function<void()> f{ Fn(i) };
  try {
    switch (how) { case 0: p.run_async(f); break; case 1: p.run_sync(f); A(t.finished, "run_sync returns before its task has run"); break; case 3: t.time = psx_now() + 5; p.run_after(Dur(5), f); break; default: t.time = psx_now() + (how == 4 ? 1000 : -1); p.run_at(TP(Dur(t.time)), f); }
    t.accepted = true; return true;
  } catch (const Failed&) { A(thrown, "an exception out of nothing"); } catch (const std::system_error&) { A(psx_starts_left() == -1, "an exception out of nothing"); }
  A(!t.started, "a call fails although its task has been run"); t.refused = true; A(f != nullptr, "a failed call changed its arguments"); return false;
}
static void settled(Pool& p, size_t workers) {   // nothing can go on: everything accepted has been run
  psx_settle(); for (unsigned i = 0; i < ntk; i++) A(tk[i].finished == tk[i].accepted, "a task that was accepted is never run");
  A(p.scheduled_tasks_size() == 0, "a task that was refused stays scheduled"); A(p.waiting_tasks_size() == 0 && p.active_tasks_size() == 0 && p.tasks_size() == 0, "a task that was refused is still counted");
  A(p.workers_size() == workers && p.waiting_workers_size() == workers && p.active_workers_size() == 0, "the workers are miscounted");
}
static void finish(std::unique_ptr<Pool>& p, size_t workers) {   // the pool is as good as any other
  psx_fail_start(-1); armed = false; unsigned how = psx_pick(4, "last"); if (workers) { A(submit(*p, how), "a call fails"); settled(*p, workers); }
  bool complete = psx_pick(2, "policy"); p->on_stop(complete ? Pool::action::complete_tasks : Pool::action::join_all); p.reset(); dead = true; psx_drain(); for (unsigned i = 0; i < ntk; i++) psx_observe(tk[i].started * 2u + tk[i].finished); psx_cover("checked");
}
H(p39_create) {   // the k-th worker cannot be started while the pool is created
  unsigned w = (unsigned)psx_param("W", 2), k = psx_pick(w + 1, "start that fails"); psx_sched((int)psx_param("preempt", -1), 0, 0, 0); psx_fail_start(k); std::unique_ptr<Pool> p; bool failed = false;
  try { p.reset(new Pool(w)); } catch (const std::system_error&) { failed = true; }
  A(failed == (k < w), "a thread that cannot be started is not reported"); psx_fail_start(-1);
  if (failed) { psx_drain(); psx_cover("refused"); p.reset(new Pool(w)); }
  A(p->target_workers_size() == w, "the target is not the one set"); finish(p, w);
}
H(p39_grow) {   // the k-th new worker cannot be started while the pool grows
  unsigned w = (unsigned)psx_param("W", 1), to = (unsigned)psx_param("to", 3), n = (unsigned)psx_param("N", 1), k = psx_pick(to - w + 1, "start that fails"); std::unique_ptr<Pool> p(new Pool(w)); psx_sched((int)psx_param("preempt", -1), 0, 0, 0);
  for (unsigned i = 0; i < n; i++) { bool ok = submit(*p, 0); A(ok, "a call fails"); }
  psx_fail_start(k); bool failed = false; try { p->target_workers_size(to); } catch (const std::system_error&) { failed = true; } A(failed == (k < to - w), "a thread that cannot be started is not reported"); psx_fail_start(-1); unsigned now = w + k;
  if (psx_pick(2, "submit more")) { bool ok = submit(*p, 0); A(ok, "a call fails"); }
  if (now) settled(*p, now);
  switch (psx_pick(3, "then")) { case 0: p->target_workers_size(to); now = to; break; case 1: p->target_workers_size(1); now = 1; break; default: break; }
  if (now) settled(*p, now); else { A(p->workers_size() == 0, "the workers are miscounted"); }
  finish(p, now);
}
static Pool* pool; static void client(unsigned how) { submit(*pool, how); }
H(p39_sched) {   // the scheduler thread cannot be started; the same call is made again, or another client's succeeds
  unsigned n = (unsigned)psx_param("N", 2), w = (unsigned)psx_param("W", 1); char nm[] = "o0"; std::unique_ptr<Pool> p(new Pool(w)); psx_sched((int)psx_param("preempt", -1), 0, 0, 0); unsigned k = psx_pick(3, "start that fails"); psx_fail_start(k < 2 ? (long)k : -1);
  for (unsigned i = 0; i < n; i++) { nm[1] = (char)('0' + i); long f = psx_param(nm, -1); unsigned how = f >= 0 ? (unsigned)f : psx_pick(5, "op"); bool ok = submit(*p, how); if (!ok) { psx_cover("refused"); if (psx_pick(2, "retry")) { A(submit(*p, how), "a call fails twice"); } } }
  settled(*p, w); finish(p, w);
}
H(p39_two) {   // two clients, one of whose calls fails
  unsigned w = (unsigned)psx_param("W", 1); std::unique_ptr<Pool> p(new Pool(w)); pool = p.get(); unsigned a = (unsigned)psx_param("o0", 2), b = (unsigned)psx_param("o1", 2); psx_sched((int)psx_param("preempt", -1), 0, 0, 0);
  if (psx_param("copy", 0)) { failAt = psx_u8("copy that fails"); copies = 0; armed = true; client(a); std::thread t(client, b); t.join(); }
  else { std::thread t(client, b); psx_fail_start(0); client(a); t.join(); }
  settled(*p, w); finish(p, w);
}
H(p39_copy) {   // the n-th copy of a task throws, whichever thread makes it
  unsigned n = (unsigned)psx_param("N", 1), w = (unsigned)psx_param("W", 1); char nm[] = "o0"; std::unique_ptr<Pool> p(new Pool(w)); psx_sched((int)psx_param("preempt", -1), 0, 0, 0);
  failAt = psx_u8("copy that fails"); copies = 0; armed = true;
  for (unsigned i = 0; i < n; i++) { nm[1] = (char)('0' + i); long f = psx_param(nm, -1); unsigned how = f >= 0 ? (unsigned)f : psx_pick(5, "op"); if (!submit(*p, how)) psx_cover("refused"); }
  settled(*p, w); finish(p, w);
}
