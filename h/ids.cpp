// P35: process_id and thread_id. The system calls behind them are replaced by an arbitrary assignment of ids to processes and threads, which a fork
// changes: the child has an id of its own, and so has the one thread that goes on in it.
#include "thr/psx_pthread.h"
#include "hx.h"
#include <thread>
#include <unistd.h>
#include <sys/syscall.h>
static const unsigned MT = 8; static int pids[MT], tids[MT]; static unsigned np, nt, proc; static int base, cur[64];   // ids in use; cur: the index of each thread's id
static int fresh(const char* n) { int v = (int)psx_u32(n); psx_assume(v > 0); for (unsigned i = 0; i < nt; i++) psx_assume(v != tids[i]); if (nt == MT) psx_error("ids"); tids[nt++] = v; return v; }
static int& idOf(unsigned t) { if (t >= 64) psx_error("ids: threads"); return cur[t]; }
static void begin() { pids[np++] = fresh("pid"); idOf(psx_tid()) = pids[0]; proc = 0; }   // the first thread's id is the process's
static void forked() { pids[np] = fresh("pid of the child"); proc = np++; idOf(psx_tid()) = pids[proc]; }   // from here on: the child, with the calling thread alone
extern "C" { int psx_gettid() { psx_yield(); return idOf(psx_tid()); } int psx_getpid() { psx_yield(); return pids[proc]; } int psx_getppid() { return 1; }
long psx_syscall(long n, ...) { if (n == SYS_gettid) return psx_gettid(); if (n == SYS_getpid) return psx_getpid(); psx_error("ids: another system call"); return -1; } }
#define gettid psx_gettid
#define getpid psx_getpid
#define getppid psx_getppid
#define syscall psx_syscall
#include <pluto/platform.hpp>
#define A(c, m) psx_assert((c), "P35 ids: " m)
static void check(bool tid) {
  if (tid) { std::size_t g = pluto::thread_id(); A(g == (std::size_t)idOf(psx_tid()), "thread_id is not the calling thread's id"); psx_observe(g); }
  else { int g = pluto::process_id(); A(g == pids[proc], "process_id is not the calling process's id"); psx_observe((uint64_t)g); }
}
H(p35_history) {   // calls of one thread, and forks
  begin(); unsigned n = (unsigned)psx_param("N", 3); for (unsigned i = 0; i < n; i++) { unsigned k = psx_pick(3, "call"); if (k == 2) forked(); else check(k == 0); } check(true); check(false); psx_cover("checked");
}
H(p35_threads) {   // every thread has its own id, the process is the same for all; optionally one of them forks and goes on in the child
  begin(); unsigned c = (unsigned)psx_param("C", 2), n = (unsigned)psx_param("N", 1), f = (unsigned)psx_param("fork", 0); int mine[4]; for (unsigned i = 0; i < c; i++) mine[i] = fresh("tid"); if (psx_param("first", 1) && psx_pick(2, "main first")) { check(true); check(false); }
  psx_sched(-1, 0, 0, (int)psx_param("races", 0));
  auto run = [&](unsigned i) { idOf(psx_tid()) = mine[i]; for (unsigned j = 0; j < n; j++) { check(true); check(false); } };
  if (f) { std::thread x([&] { idOf(psx_tid()) = mine[0]; for (unsigned j = 0; j < n; j++) check(psx_pick(2, "what")); forked(); check(psx_pick(2, "what")); check(true); check(false); }); x.join(); }   // main only waits: there is no such thread in the child
  else { std::thread t[4]; for (unsigned i = 0; i < c; i++) t[i] = std::thread(run, i); if (psx_param("main", 1)) { check(true); check(false); } for (unsigned i = 0; i < c; i++) t[i].join(); psx_sched(-1, 0, 0, 0); check(true); check(false); }
  psx_cover("checked");
}
H(p35_successive) {   // threads that start after others have ended
  begin(); psx_sched(-1, 0, 0, 0); unsigned c = (unsigned)psx_param("C", 3); for (unsigned i = 0; i < c; i++) { int v = fresh("tid"); std::thread x([&] { idOf(psx_tid()) = v; check(true); check(false); }); x.join(); if (psx_pick(2, "main")) check(true); }
  check(true); check(false); psx_cover("checked");
}
