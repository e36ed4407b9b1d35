// P22-P24: the thread pool under every schedule. Clients run short programs against a pool; "quiescent" means that no thread can go on.
#include "thr/psx_pthread.h"
#include "hx.h"
#include <functional>
#include <thread>
#include <mutex>
#include <pluto/thread_pool.hpp>
typedef pluto::thread_pool Pool;
static unsigned prop;
#define A(p, c, m) do { if (prop == p) psx_assert((c), "P" #p " thread_pool: " m); } while (0)
enum Op { RUN, SYNC, RESIZE, WAITALL, WAITNONE, NESTED, GATED, RESIZER, PROBE, KINDS };
static const unsigned MT = 8, MC = 3, MO = 3;
struct Task { bool submitted, accepted, settled, sync, preload; unsigned char started, finished, kind, arg; signed char prio; };
static Task tk[MT]; static bool before[MT][MT]; static unsigned ntk; static Pool* pool; static bool dead, orders, concurrent; static unsigned W, target; static unsigned gate; static bool client[24];
struct Cl { unsigned char at, kind, arg; bool blocked; unsigned task, mine; }; static Cl cl[MC]; static unsigned char prog[MC][MO], arg[MC][MO], no; static signed char prog_prio[MC][MO];
static void submit(unsigned i, bool sync);
static bool ahead(unsigned y, unsigned x) { return tk[y].prio > tk[x].prio || (tk[y].prio == tk[x].prio && before[y][x]); }
static void body(unsigned i) {
  Task& t = tk[i]; A(22, !t.started, "a task is started twice"); A(22, !dead, "a task is started after the destructor returned"); A(22, !client[psx_tid()], "a task does not run on a pool worker"); t.started = 1;
  if (orders && prop == 23) { unsigned skipped = 0; for (unsigned y = 0; y < ntk; y++) if (y != i && tk[y].settled && !tk[y].started && ahead(y, i)) skipped++; A(23, skipped < W, "a task is started before one of higher priority or earlier submission"); }
  psx_yield();
  if (t.kind == NESTED) submit(t.arg, false); if (t.kind == RESIZER) { target = t.arg; pool->target_workers_size(t.arg); } if (t.kind == GATED) psx_await(&gate, 0);
  if (prop == 23 && t.kind == PROBE) { A(23, pool->active_workers_size() >= 1 && pool->active_tasks_size() >= 1 && pool->tasks_size() >= 1 && pool->workers_size() >= 1, "a running task is not counted"); A(23, pool->waiting_workers_size() < W, "the running task's worker is counted as waiting"); }
  A(22, !dead, "a task runs after the destructor returned"); t.finished = 1;
  if (orders && W == 1) for (unsigned y = 0; y < ntk; y++) tk[y].settled = tk[y].accepted;
}
static unsigned add(unsigned kind, unsigned a, signed char prio) { if (ntk >= MT) psx_error("tasks"); Task& t = tk[ntk]; t = Task{}; t.kind = (unsigned char)kind; t.arg = (unsigned char)a; t.prio = prio; return ntk++; }
static void submit(unsigned i, bool sync) {
  Task& t = tk[i]; t.sync = sync; for (unsigned y = 0; y < ntk; y++) before[y][i] = tk[y].accepted; t.submitted = true;
  if (sync) { pool->run_sync([i] { body(i); }, t.prio); A(24, t.finished == 1, "run_sync returns before its task has run"); } else pool->run_async([i] { body(i); }, t.prio);
  t.accepted = true;
}
static void clientRun(unsigned c) {
  client[psx_tid()] = true;
  for (unsigned o = 0; o < no; o++) {
    Cl& k = cl[c]; k.at = (unsigned char)o; k.kind = prog[c][o]; bool acc[MT]; for (unsigned i = 0; i < ntk; i++) acc[i] = tk[i].accepted; k.blocked = true;
    switch (k.kind) {
      case SYNC: submit(k.mine + o, true); break;
      case RESIZE: target = arg[c][o]; pool->target_workers_size(arg[c][o]); A(24, concurrent || pool->target_workers_size() == target, "the target is not the one set"); break;
      case WAITALL: pool->wait_until_all_tasks_complete(); for (unsigned i = 0; i < ntk; i++) if (acc[i]) A(24, tk[i].finished, "wait_until_all_tasks_complete returns with an unfinished task"); break;
      case WAITNONE: { pool->wait_until_no_tasks_waiting(); unsigned u = 0; for (unsigned i = 0; i < ntk; i++) if (acc[i] && !tk[i].finished) u++; A(24, u <= W, "wait_until_no_tasks_waiting returns with waiting tasks"); break; }
      case PROBE: { size_t a = pool->active_workers_size(), ww = pool->waiting_workers_size(); A(23, a <= W && ww <= W, "more active or waiting workers than workers"); break; }
      default: submit(k.mine + o, false);
    }
    k.blocked = false;
  }
  cl[c].at = no; client[psx_tid()] = false;
}
// What must hold when nothing can go on any more.
static void atRest(unsigned nc, bool resized) {
  unsigned started = 0, finished = 0, sub = 0; for (unsigned i = 0; i < ntk; i++) { sub += tk[i].submitted; started += tk[i].started; finished += tk[i].finished; }
  unsigned active = started - finished, waiting = sub - started; size_t size = pool->workers_size(); unsigned tg = target;
  if (!resized) A(24, pool->target_workers_size() == tg, "the target is not the one set");
  tg = (unsigned)pool->target_workers_size();
  A(24, size == (active > tg ? active : tg), "the number of workers does not converge to the target");
  A(22, waiting == 0 || size <= active, "a task waits although a worker is free"); A(24, waiting == 0 || size <= active, "a task waits although a worker is free");
  A(23, pool->active_workers_size() == active && pool->active_tasks_size() == active, "the active count is not the number of running tasks"); A(23, pool->waiting_tasks_size() == waiting, "the waiting tasks are miscounted"); A(23, pool->tasks_size() == active + waiting, "tasks is not active + waiting"); A(23, pool->waiting_workers_size() == size - active, "workers is not active + waiting");
  for (unsigned c = 0; c < nc; c++) if (cl[c].at < no) { Cl& k = cl[c];
    bool ok = k.kind == SYNC ? !tk[k.mine + k.at].finished : k.kind == WAITALL ? active + waiting > 0 : k.kind == WAITNONE ? waiting > 0 : false;
    A(24, ok, "a call does not return although nothing is left to wait for"); }
}
static void scenario(unsigned p) {
  prop = p; W = (unsigned)psx_param("W", 1); unsigned nc = (unsigned)psx_param("C", 1); no = (unsigned char)psx_param("N", 1); unsigned pre = (unsigned)psx_param("pre", 0), maxw = (unsigned)psx_param("max", W); long kinds = psx_param("kinds", 1 << RUN), pk = psx_param("prekind", RUN), prios = psx_param("prios", 0), stop = psx_param("stop", 2), late = psx_param("late", 0), latekind = psx_param("latekind", RUN), shrink = psx_param("shrink", -1); char nm[4] = "k00";
  bool resized = false; target = W; orders = psx_param("orders", 0);
  auto prio = [&]() -> signed char { if (prios == 0) return 0; if (prios == 1) return (signed char)psx_pick(2, "priority"); return sym<signed char>("priority"); };
  client[0] = true; pool = new Pool(pre ? 0 : W);
  for (unsigned i = 0; i < pre; i++) { unsigned a = 0; if (pk == NESTED) a = add(RUN, 0, prio()); unsigned t = add((unsigned)pk, a, prio()); submit(t, false); tk[t].settled = true; }
  unsigned kl[KINDS], nk = 0; for (unsigned k = 0; k < KINDS; k++) if (kinds >> k & 1) kl[nk++] = k;
  for (unsigned c = 0; c < nc; c++) { cl[c] = Cl{}; cl[c].mine = ntk; for (unsigned o = 0; o < no; o++) { nm[1] = (char)('0' + c); nm[2] = (char)('0' + o); long k = psx_param(nm, -1); prog[c][o] = (unsigned char)(k >= 0 ? (unsigned)k : kl[psx_pick(nk, "op")]); k = prog[c][o]; arg[c][o] = 0; if (k == RESIZE) resized = true; if (k == RESIZE || k == RESIZER) arg[c][o] = (unsigned char)psx_pick(maxw + 1, "target");
      add((unsigned)k, arg[c][o], k == RESIZE || k >= WAITALL && k <= WAITNONE ? 0 : prio()); } }
  for (unsigned c = 0; c < nc; c++) for (unsigned o = 0; o < no; o++) if (prog[c][o] == NESTED) { unsigned n = add(RUN, 0, prio()); tk[cl[c].mine + o].arg = (unsigned char)n; }
  concurrent = resized && nc > 1; if (maxw > W) W = maxw;
  if (pre) { target = (unsigned)psx_param("W", 1); pool->target_workers_size(target); }
  psx_sched((int)psx_param("preempt", -1), (int)psx_param("spurious", 0), 0, 0);
  { std::thread th[MC]; for (unsigned c = 0; c < nc; c++) th[c] = std::thread(clientRun, c);
    psx_quiesce(); bool multi = concurrent; atRest(nc, multi); gate = 1; psx_quiesce(); atRest(nc, multi);
    if (target == 0) { target = 1; pool->target_workers_size(1); psx_quiesce(); atRest(nc, false); }
    for (unsigned c = 0; c < nc; c++) if (cl[c].at < no) psx_end(); for (unsigned c = 0; c < nc; c++) th[c].join(); }
  for (unsigned i = 0; i < ntk; i++) A(22, tk[i].submitted == tk[i].finished, "a submitted task is never executed");
  // destruction
  bool complete = stop == 2 ? psx_pick(2, "policy") : stop; pool->on_stop(complete ? Pool::action::complete_tasks : Pool::action::join_all); A(22, (pool->on_stop() == Pool::action::complete_tasks) == complete, "on_stop is not the action set");
  unsigned l0 = ntk; std::thread helper; bool gated = latekind == GATED && late;
  if (late) {
    if (gated) { gate = 0; for (size_t i = pool->workers_size(); i > 0; i--) submit(add(GATED, 0, 100), false); psx_quiesce(); l0 = ntk; }   // every worker is busy
    for (long i = 0; i < late; i++) { unsigned a = 0; if (latekind == NESTED) a = add(RUN, 0, 0); submit(add(gated ? (unsigned)RUN : (unsigned)latekind, a, 0), false); }
    if (shrink >= 0) { target = (unsigned)shrink; pool->target_workers_size((size_t)shrink); }
    if (gated) helper = std::thread([] { psx_quiesce(); gate = 1; });   // the destructor is waiting for the running task by now
  }
  client[0] = true; delete pool; dead = true;
  for (unsigned i = 0; i < ntk; i++) { A(22, tk[i].started == tk[i].finished, "a started task is not finished when the destructor returns"); if (complete && target > 0) A(22, tk[i].submitted == tk[i].finished, "complete_tasks: a waiting task is dropped"); if (!complete && gated && i >= l0) A(22, !tk[i].started, "join_all: a waiting task is started after the stop"); }
  if (helper.joinable()) helper.join(); psx_drain();
  for (unsigned i = 0; i < ntk; i++) psx_observe(tk[i].started * 2u + tk[i].finished); psx_cover("checked");
}
H(p22) { scenario(22); }
H(p23) { scenario(23); }
H(p24) { scenario(24); }

// ---------------------------------------------------------------- data races: the pool's own data, and what tasks and clients hand over to each other
static int data_[MC][MO]; static Pool::clock_type::time_point at0;
static void raceClient(unsigned c) {
  for (unsigned o = 0; o < no; o++) { int* d = &data_[c][o]; *d = 1;
    switch (prog[c][o]) {
      case SYNC: pool->run_sync([d] { *d += 1; }); psx_assert(*d == 2, "P22 thread_pool: run_sync returns before its task has run"); break;
      case RESIZE: pool->target_workers_size(arg[c][o]); break; case WAITALL: pool->wait_until_all_tasks_complete(); break; case WAITNONE: pool->wait_until_no_tasks_waiting(); break;
      case NESTED: pool->run_async([d] { *d += 1; pool->run_async([d] { *d += 1; }); }); break; case GATED: pool->run_at(at0, [d] { *d += 1; }); break; case RESIZER: pool->run_async([d] { *d += 1; pool->target_workers_size(1); }); break;
      case PROBE: (void)(pool->workers_size() + pool->target_workers_size() + pool->active_workers_size() + pool->waiting_workers_size() + pool->tasks_size() + pool->active_tasks_size() + pool->waiting_tasks_size() + pool->scheduled_tasks_size()); pool->on_stop(Pool::action::complete_tasks); (void)pool->on_stop(); break;
      default: pool->run_async([d] { *d += 1; }); } }
}
H(p22_race) {
  prop = 22; W = (unsigned)psx_param("W", 1); unsigned nc = (unsigned)psx_param("C", 2); no = (unsigned char)psx_param("N", 1); char nm[4] = "k00"; at0 = Pool::clock_type::now();
  for (unsigned c = 0; c < nc; c++) for (unsigned o = 0; o < no; o++) { nm[1] = (char)('0' + c); nm[2] = (char)('0' + o); prog[c][o] = (unsigned char)psx_param(nm, 0); arg[c][o] = (unsigned char)psx_param("to", 1); }
  psx_sched((int)psx_param("preempt", -1), 0, 0, 1);
  { Pool p(W); pool = &p; p.on_stop(Pool::action::complete_tasks); std::thread th[MC]; for (unsigned c = 1; c < nc; c++) th[c] = std::thread(raceClient, c); raceClient(0); for (unsigned c = 1; c < nc; c++) th[c].join(); p.wait_until_all_tasks_complete(); }
  psx_drain(); psx_sched(-1, 0, 0, 0); for (unsigned c = 0; c < nc; c++) for (unsigned o = 0; o < no; o++) { unsigned k = prog[c][o]; int want = k == RUN || k == SYNC || k == RESIZER ? 2 : k == NESTED ? 3 : k == GATED ? -1 : 1; if (want > 0) psx_assert(data_[c][o] == want, "P22 thread_pool: a task did not run exactly once"); psx_observe((uint64_t)data_[c][o]); }
  psx_cover("checked");
}

// ---------------------------------------------------------------- P23: named levels, default priorities, every overload
static unsigned order_[MT], nord;
H(p23_named) {
  prop = 23; typedef Pool::priority P; static const int doc[7] = {-128, -64, -32, 0, 32, 64, 127}; static const P lv[7] = {P::lowest, P::lower, P::low, P::normal, P::high, P::higher, P::highest}; unsigned n = (unsigned)psx_param("K", 2), how = (unsigned)psx_param("how", 0); int pr[MT]; nord = 0;
  Pool* p = pool = new Pool(0); std::thread sy[MT]; Pool::clock_type::time_point past(Pool::clock_type::duration(5));
  for (unsigned i = 0; i < n; i++) { unsigned l = (unsigned)psx_pick(9, "level"); signed char raw = 0; if (l == 8) raw = sym<signed char>("priority"); auto t = [i] { order_[nord++] = i; }; pr[i] = l == 8 ? raw : l < 7 ? doc[l] : how == 1 ? 32 : 0;
    switch (how) {
      case 0: if (l < 7) p->run_async(t, lv[l]); else if (l == 8) p->run_async(t, raw); else p->run_async(t); break;
      case 1: sy[i] = std::thread([=] { if (l < 7) p->run_sync(t, lv[l]); else if (l == 8) p->run_sync(t, raw); else p->run_sync(t); }); psx_quiesce(); break;
      case 2: if (l < 7) p->run_at(past, t, lv[l]); else if (l == 8) p->run_at(past, t, raw); else p->run_at(past, t); psx_settle(); break;
      default: if (l < 7) p->run_after(Pool::clock_type::duration(1), t, lv[l]); else if (l == 8) p->run_after(Pool::clock_type::duration(1), t, raw); else p->run_after(Pool::clock_type::duration(1), t); psx_settle(); }
    A(23, p->waiting_tasks_size() == i + 1, "a task without workers does not wait"); }
  psx_sched(0, 0, 0, 0); p->target_workers_size(1); psx_quiesce(); A(23, nord == n, "not every task is run"); for (unsigned i = 0; i < n; i++) if (sy[i].joinable()) sy[i].join();
  for (unsigned i = 0; i + 1 < nord; i++) { unsigned a = order_[i], b = order_[i + 1]; A(23, (pr[a] > pr[b]) | ((pr[a] == pr[b]) & (a < b)), "tasks are not run by priority, then submission order"); }
  for (unsigned i = 0; i < nord; i++) psx_observe(order_[i]); delete p; psx_cover("checked");
}

// ---------------------------------------------------------------- P25: scheduled tasks, with arbitrary times
struct Sch { bool accepted, started; int64_t time, acc; signed char prio; unsigned char client; }; static Sch sc[MT]; static unsigned nsc, busy, nest; static void schedule(unsigned, unsigned);
typedef Pool::clock_type::time_point TP; typedef Pool::clock_type::duration Dur;
static void schedBody(unsigned i) {
  Sch& t = sc[i]; A(25, !t.started, "a scheduled task is started twice"); A(25, !dead, "a scheduled task is started after the destructor returned"); A(25, !client[psx_tid()], "a scheduled task does not run on a pool worker"); t.started = true;
  int64_t now = psx_now(); A(25, now >= t.time, "a scheduled task is started before its time");
  if (W - busy == 1) for (unsigned y = 0; y < nsc; y++) if (y != i && sc[y].accepted && !sc[y].started) { bool due = (sc[y].time < t.time) & (sc[y].acc < t.time) & (sc[y].prio == t.prio); A(25, !due, "due tasks are not started in the order of their times"); }
  psx_yield(); if (nest && sc[nest].client == 255 && !sc[nest].accepted) { sc[nest].client = 254; schedule(nest, 0); }
}
static void schedule(unsigned i, unsigned how) {
  Sch& t = sc[i];
  if (how == 2) { int64_t d = psx_range(0, 1ull << 40, "delay"); int64_t n0 = psx_now(); t.time = n0 + d; pool->run_after(Dur(d), [i] { schedBody(i); }, t.prio); }   // the time is at least now + d
  else if (how == 1) pool->run_at(TP(Dur(t.time)), [i] { schedBody(i); }, Pool::priority::normal); else pool->run_at(TP(Dur(t.time)), [i] { schedBody(i); }, t.prio);
  t.acc = psx_now(); t.accepted = true;
}
static unsigned perClient, hows;
static void schedClient(unsigned c) { client[psx_tid()] = true; for (unsigned i = 0; i < nsc; i++) if (sc[i].client == c) { schedule(i, hows); } client[psx_tid()] = false; }
H(p25) {
  prop = 25; W = (unsigned)psx_param("W", 1); unsigned nc = (unsigned)psx_param("C", 1); perClient = (unsigned)psx_param("N", 1); hows = (unsigned)psx_param("how", 0); long mode = psx_param("mode", 0), prios = psx_param("prios", 0), ticks = psx_param("ticks", 0);
  client[0] = true; target = W; pool = new Pool(W); int64_t t0 = psx_now(); bool rel = psx_param("wide", 0) == 0;
  for (unsigned c = 0; c < nc; c++) for (unsigned k = 0; k < perClient; k++) { Sch& t = sc[nsc++]; t = Sch{}; t.client = (unsigned char)c; if (hows != 2) t.time = rel ? t0 + (int64_t)psx_range(0, 2000, "time") - 1000 : sym<int64_t>("time"); if (prios) t.prio = (signed char)psx_pick(2, "priority"); }
  psx_sched((int)psx_param("preempt", -1), (int)psx_param("spurious", 0), (int)ticks, 0); if (mode == 1) psx_horizon(t0);
  busy = (unsigned)psx_param("busy", 0); for (unsigned i = 0; i < busy; i++) pool->run_async([] { psx_await(&gate, 0); }); if (busy) psx_quiesce();
  if (psx_param("nest", 0)) { nest = nsc++; sc[nest] = Sch{}; sc[nest].client = 255; sc[nest].time = t0 + (int64_t)psx_range(0, 2000, "time") - 1000; }
  { std::thread th[MC]; for (unsigned c = 1; c < nc; c++) th[c] = std::thread(schedClient, c); schedClient(0); for (unsigned c = 1; c < nc; c++) th[c].join(); }
  client[0] = true; bool complete = psx_pick(2, "policy"); pool->on_stop(complete ? Pool::action::complete_tasks : Pool::action::join_all);
  if (mode == 0) {           // the pool lives on: every task is run
    psx_settle(); for (unsigned i = 0; i < nsc; i++) A(25, sc[i].started, "a scheduled task is never run"); A(25, pool->scheduled_tasks_size() == 0, "scheduled tasks remain after the last was run"); A(25, pool->tasks_size() == busy, "tasks remain after the last was run");
    if (psx_param("again", 0)) { unsigned i = nsc++; sc[i] = Sch{}; sc[i].time = sc[0].time; schedule(i, hows); psx_settle(); A(25, sc[i].started, "a task scheduled after the scheduler ended is never run"); }
  } else if (mode == 1) {    // destroyed with tasks pending, time standing still
    psx_quiesce(); unsigned pending = 0; for (unsigned i = 0; i < nsc; i++) { A(25, sc[i].started == (sc[i].accepted && sc[i].time <= t0), "exactly the due tasks have run"); pending += sc[i].accepted && !sc[i].started; } A(25, pool->scheduled_tasks_size() == pending, "scheduled_tasks_size is not the number of pending tasks");
  }
  gate = 1; psx_await(&gate, 0); delete pool; dead = true; if (mode != 2) for (unsigned i = 0; i < nsc; i++) A(25, sc[i].started == (mode == 0 || (sc[i].accepted && sc[i].time <= t0)), "a pending task is run by the destructor");
  psx_horizon(INT64_MAX); psx_drain(); for (unsigned i = 0; i < nsc; i++) psx_observe(sc[i].started); psx_cover("checked");
}
