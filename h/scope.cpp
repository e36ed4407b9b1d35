// P21: scope guards. Tasks have arbitrary behaviour, the scope is left in every way.
#include "hx.h"
#include <functional>
#include <exception>
#include <stdexcept>
#include <pluto/scope.hpp>
#if __cplusplus >= 201703L
static bool hxUncaught() { return std::uncaught_exceptions() != 0; }
#else
static bool hxUncaught() { return std::uncaught_exception(); }
#endif
static int g_log[64], g_n; static int g_next;  // ids of the tasks in the order they ran; next id
static void ran(int id) { if (g_n < 64) g_log[g_n++] = id; psx_observe(1000 + id); }
struct Big { char pad[40]; int id; };
// expected order: the stack discipline - a task added while another runs becomes the next one to run
struct Want { int stack[64], n = 0; int order[64], m = 0; int kind[64]; int adds[64]; } W;
static int g_kinds; static bool g_nested;
template<class G> static void addTask(G* g, int depth);
template<class G> static std::function<void()> task(G* g, int id, int kind, int depth) {
  switch (kind) {
    case 0: return [id] { ran(id); };
    case 1: { Big b{}; b.id = id; return [b] { ran(b.id); throw std::runtime_error("task"); }; }
    case 2: return std::function<void()>();
    case 3: return [id] { ran(id); throw 7; };
    case 5: return [id] { ran(id); try { throw 1; } catch (int) {} };
    default: return [g, id, depth] { addTask(g, depth + 1); ran(id); };
  }
}
static int g_addKind;
template<class G> static void addTask(G* g, int depth) { if (g_next >= 40) psx_fail("P21 scope: a task is run again and again"); int id = g_next++; int kind = depth ? g_addKind : (int)psx_pick(g_kinds, "task kind"); W.kind[id] = kind; g->add(task(g, id, kind, depth)); }
// the model: run the stack of tasks from the top; kind 4 pushes one more before it counts as run
static void expectAll(int first, int n) {
  int st[64], sp = 0; for (int i = 0; i < n; i++) st[sp++] = first + i; int fresh = first + n;
  while (sp) { int id = st[--sp]; int k = id < first + n ? W.kind[id] : g_addKind; if (k == 2) continue; if (k == 4) { st[sp++] = fresh++; } W.order[W.m++] = id; }
}
struct OnExit : pluto::on_scope_exit { using pluto::on_scope_exit::on_scope_exit; };
static void compare(const char* what) { bool ok = g_n == W.m; psx_assert(ok, what); for (int i = 0; i < W.m; i++) psx_assert(g_log[i] == W.order[i], what); }
template<class G, int WHICH> struct Body {
  int N; bool ctor; int nTasks = 0; int first = 0;
  void fill(G& g) { first = g_next; if (ctor) { /* first task went in through the constructor */ } for (int i = nTasks; i < N; i++) { addTask(&g, 0); nTasks++; } }
  static bool due(bool byException) { return WHICH == 0 || (WHICH == 1 ? !byException : byException); }
  void leave(bool byException) { // one scope with one guard
    first = g_next; nTasks = 0;
    if (byException) { bool caught = false; try { G g; build(g); throw std::logic_error("scope"); } catch (const std::logic_error&) { caught = true; } psx_assert(caught, "P21 scope: the exception leaving the scope was lost"); }
    else { G g; build(g); }
    if (due(byException)) expectAll(first, N); }
  void build(G& g) { for (int i = 0; i < N; i++) addTask(&g, 0); }
  void ctorForm(bool byException) { first = g_next; W.kind[g_next] = 0; int id = g_next++;
    if (byException) { try { G g([id] { ran(id); }); throw 5; } catch (int) {} } else { G g([id] { ran(id); }); }
    if (due(byException)) W.order[W.m++] = id; }
};
template<class G, int WHICH> struct InUnwind { Body<G, WHICH>* b; bool exc; ~InUnwind() { b->leave(exc); } };
template<class G, int WHICH> static void run(const char* what) {
  g_kinds = (int)psx_param("kinds", 5); Body<G, WHICH> b; b.N = (int)psx_param("N", 2); g_addKind = (int)psx_pick(4, "kind of a task added by a task"); bool exc = psx_pick(2, "left by an exception");
  switch (psx_param("ctx", 0)) {
    case 0: b.leave(exc); break;
    case 1: try { throw 3; } catch (int) { b.leave(exc); } break;                                       // inside a handler
    case 2: try { InUnwind<G, WHICH> u{&b, exc}; throw 4L; } catch (long) {} psx_cover("inside unwinding"); break; // in a destructor run by unwinding
    case 3: { pluto::on_scope_exit outer([&] { b.leave(exc); }); } break;                              // inside another guard's task
    case 4: try { pluto::on_scope_fail outer([&] { b.leave(exc); }); throw 4L; } catch (long) {} psx_cover("inside unwinding"); break;
    case 5: b.ctorForm(exc); break;
    case 6: { b.leave(exc); compare(what); b.leave(!exc); break; }                                      // twice in a row
  }
  compare(what); psx_assert(!hxUncaught(), "P21 scope: an exception is still in flight"); psx_cover("checked");
}
H(p21_exit) { run<pluto::on_scope_exit, 0>("P21 on_scope_exit: tasks not run exactly once in reverse order"); }
H(p21_success) { run<pluto::on_scope_success, 1>("P21 on_scope_success: tasks not run exactly when the scope succeeds"); }
H(p21_fail) { run<pluto::on_scope_fail, 2>("P21 on_scope_fail: tasks not run exactly when the scope fails"); }
// Copying a task throws, the n-th time it happens: a task that could not be added is not run, every other one is; leaving the scope does not depend on copies.
struct Failed {}; static unsigned g_copies; static uint32_t g_failAt; static bool g_armed;
struct Fn { int id; explicit Fn(int i) : id(i) {} Fn(const Fn& o) : id(o.id) { if (g_armed && g_copies++ == g_failAt) throw Failed(); } Fn(Fn&& o) noexcept : id(o.id) { o.id = 63; } Fn& operator=(const Fn&) = delete; void operator()() const { ran(id); } };
template<class G, int WHICH> static void copyRun(const char* what) {
  int n = (int)psx_param("N", 2); bool ctor = psx_pick(2, "first through the constructor"), exc = psx_pick(2, "left by an exception"); g_failAt = psx_u8("copy that fails"); int ok[8], m = 0; bool built = false;
  try {
    const std::function<void()> f0{ Fn(g_next) }; g_armed = true;
    auto fill = [&](G& g, int from) { for (int i = from; i < n; i++) { g_armed = false; int id = g_next++; const std::function<void()> f{ Fn(id) }; g_armed = true; try { g.add(f); ok[m++] = id; } catch (const Failed&) { psx_cover("refused"); } } };
    if (ctor) { int id = g_next++; G g(f0); built = true; ok[m++] = id; fill(g, 1); if (exc) throw 5; } else { G g; built = true; fill(g, 0); if (exc) throw 5; }
  } catch (int) {} catch (const Failed&) { psx_assert(!built, "P21 scope: an exception escapes from a guard"); psx_cover("refused"); }
  g_armed = false; if (Body<G, WHICH>::due(exc)) while (m) W.order[W.m++] = ok[--m]; compare(what); psx_assert(!hxUncaught(), "P21 scope: an exception is still in flight"); psx_cover("checked");
}
H(p21_copy_exit) { copyRun<pluto::on_scope_exit, 0>("P21 on_scope_exit: a task that could not be added is run, or another is not"); }
H(p21_copy_success) { copyRun<pluto::on_scope_success, 1>("P21 on_scope_success: a task that could not be added is run, or another is not"); }
H(p21_copy_fail) { copyRun<pluto::on_scope_fail, 2>("P21 on_scope_fail: a task that could not be added is run, or another is not"); }
