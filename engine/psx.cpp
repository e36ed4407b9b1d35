// psx: symbolic executor for LLVM 18 bitcode, deciding with Z3.
#include <unistd.h>
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/ReplaceConstant.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <map>
#include <set>
#include <deque>
#include <random>
#include <sys/resource.h>
using namespace llvm;
typedef uint64_t U64;

static double nowS() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static ExprPool P;
static Solver* S;

struct Val { Expr* e; u64 c; };
static inline Val cv(u64 c) { return Val{nullptr, c}; }
static inline u64 mask64(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline Val mkV(Expr* e) { if (e->isC() && e->w <= 64) return Val{nullptr, (u64)e->val}; return Val{e, 0}; }
static inline Expr* toE(const Val& v, unsigned w) { return v.e ? v.e : P.C(v.c, w); }

// ------------------------------------------------------------------ memory
enum ObjKind : u8 { OK_GLOBAL, OK_STACK, OK_HEAP, OK_DEADSTACK };
struct SymB { Expr* e; u32 idx; };
struct Obj {
  u32 rc = 1; u32 size; ObjKind kind; bool alive = true, ro = false; u8 allocKind = 0; // 1 malloc 2 new 3 new[]
  u8* data; SymB* sym = nullptr; u8* un = nullptr; // un: 1 = uninitialised byte
  const void* name = nullptr; // alloc site
  Obj(u32 sz, ObjKind k) : size(sz), kind(k) { data = (u8*)calloc(sz ? sz : 1, 1); }
  Obj(const Obj& o) : size(o.size), kind(o.kind), alive(o.alive), ro(o.ro), allocKind(o.allocKind), name(o.name) {
    data = (u8*)malloc(size ? size : 1); memcpy(data, o.data, size);
    if (o.sym) { sym = (SymB*)malloc(sizeof(SymB) * size); memcpy(sym, o.sym, sizeof(SymB) * size); }
    if (o.un) { un = (u8*)malloc(size); memcpy(un, o.un, size); } }
  ~Obj() { free(data); free(sym); free(un); }
};
static const u32 PG = 32;
struct Page { u32 rc = 1; Obj* o[PG]; Page() { memset(o, 0, sizeof o); } };
static inline void decObj(Obj* o) { if (o && --o->rc == 0) delete o; }
static inline void decPage(Page* p) { if (p && --p->rc == 0) { for (auto* o : p->o) decObj(o); delete p; } }
static const u32 OBJBASE = 0x5A000000u, FNBASE = 0x7F000000u;
struct Mem {
  std::vector<Page*> pages; u32 next = 0;
  Mem() {}
  Mem(const Mem& m) : pages(m.pages), next(m.next) { for (auto* p : pages) if (p) p->rc++; }
  Mem& operator=(const Mem&) = delete;
  ~Mem() { for (auto* p : pages) decPage(p); }
  Obj* get(u32 i) const { u32 p = i / PG; if (p >= pages.size() || !pages[p]) return nullptr; return pages[p]->o[i % PG]; }
  Page* wpage(u32 p) { Page* q = pages[p]; if (q->rc > 1) { Page* n = new Page; for (u32 j = 0; j < PG; j++) if ((n->o[j] = q->o[j])) n->o[j]->rc++; q->rc--; pages[p] = q = n; } return q; }
  Obj* getW(u32 i) { Page* q = wpage(i / PG); Obj*& o = q->o[i % PG]; if (o->rc > 1) { Obj* n = new Obj(*o); o->rc--; o = n; } return o; }
  u32 add(Obj* o) { u32 i = next++; if (i / PG >= pages.size()) pages.push_back(new Page); else if (!pages[i / PG]) pages[i / PG] = new Page; wpage(i / PG)->o[i % PG] = o; return i; }
  void kill(u32 i) { // mark dead, drop content
    Page* q = wpage(i / PG); Obj*& o = q->o[i % PG]; Obj* n = new Obj(0, o->kind); n->size = o->size; n->alive = false; n->name = o->name; n->allocKind = o->allocKind;
    // dead object keeps size only for messages; data has 1 byte
    decObj(o); o = n; }
};
static inline u64 addrOf(u32 i) { return (u64)(OBJBASE + i) << 32; }

// ------------------------------------------------------------------ code
enum Opc : u16 { I_BIN, I_ICMP, I_CAST, I_SELECT, I_LOAD, I_STORE, I_GEP, I_ALLOCA, I_BR, I_CBR, I_SWITCH, I_RET, I_CALL, I_UNREACH,
  I_EXTRACTV, I_INSERTV, I_COPY, I_LPAD, I_RESUME, I_FBIN, I_FCMP, I_FCAST, I_FNEG, I_RMW, I_CAS, I_NOP, I_UNSUP, I_EXTEL, I_INSEL, I_SHUF };
struct Opnd { int slot; Val c; };
struct Leaf { u32 off; u16 w; u16 bytes; bool fp; };
struct FnInfo;
struct State;
struct Inst;
typedef bool (*Builtin)(State&, Inst&, Val* args, Val& ret);
struct Edge { int target; std::vector<std::pair<int, Opnd>> copies; };
struct Inst {
  Opc op; u16 sub = 0; u32 w = 0, w2 = 0; int dst = -1; int line = -1; u32 n = 0; u64 imm = 0;
  std::vector<Opnd> ops; std::vector<Leaf> leaves; std::vector<u64> scales; std::vector<int> edges; std::vector<u64> cases;
  FnInfo* callee = nullptr; Builtin bi = nullptr; const char* biName = nullptr; int asyncKind = 0;
  std::vector<u32> argLeaves; std::vector<u32> byvalSize; unsigned nfixed = 0; bool isInvoke = false; unsigned retLeaves = 0; std::vector<Leaf> retL;
  Instruction* src = nullptr; std::vector<u64>* live = nullptr; // lazily computed live-out
  std::vector<std::pair<int, u64>> clauses; // landingpad: kind 0 catch,1 filter-elt,2 filter-end ; cleanup in sub
};
struct FnInfo {
  Function* F; std::string name; bool decoded = false; bool isDecl = false; u32 id; int nslots = 0;
  std::vector<Inst> code; std::vector<int> blockStart; std::vector<Edge> edges; std::vector<u32> argW; bool vararg = false; unsigned nparamLeaves = 0;
  Builtin bi = nullptr; bool liveDone = false; bool pluto = false; bool noRace = false;
};
struct Frame {
  u32 rc = 1; FnInfo* f; int pc = 0; std::vector<Val> regs; std::vector<u32> allocas; u64 vaObj = 0; bool isCtorRoot = false;
};
struct Thread { std::vector<Frame*> st; bool alive = true; };
struct InputRec { std::shared_ptr<InputRec> prev; const char* name; Expr* e; u32 bytes; u32 n; u64 lo; u64 hi; };
struct ObsRec { std::shared_ptr<ObsRec> prev; Val v; };
struct Foot { std::map<u32, std::vector<u8>> o; }; // bytes touched since the thread's last release: 1 read, 2 written, 4 atomically read, 8 atomically written
struct PathEnd { int why; }; // 0 normal, 1 violation, 2 assume, 3 unsupported/limit, 4 dedup

struct State {
  Mem mem; std::vector<Thread> th; u32 cur = 0; std::vector<Expr*> pc; ModelP model; std::vector<bool> fixed; // fixed vars
  std::shared_ptr<InputRec> inputs; std::shared_ptr<ObsRec> obs; u32 nIn = 0, nUninit = 0; u64 steps = 0; u32 forks = 0, preempt = 0;
  std::map<std::pair<u32, u32>, u32> tls; std::vector<u64> unbase; u32 plutoSeen = 0; bool race = false; std::vector<std::shared_ptr<Foot>> foot;
  State() {}
  State(const State& o) : mem(o.mem), th(o.th), cur(o.cur), pc(o.pc), model(o.model), fixed(o.fixed), inputs(o.inputs), obs(o.obs), nIn(o.nIn), nUninit(o.nUninit), steps(o.steps), forks(o.forks + 1), preempt(o.preempt), tls(o.tls), plutoSeen(o.plutoSeen), race(o.race), foot(o.foot) {
    for (auto& t : th) for (auto* f : t.st) f->rc++; }
  State& operator=(const State&) = delete;
  ~State() { for (auto& t : th) for (auto* f : t.st) decF(f); }
  static void decF(Frame* f) { if (--f->rc == 0) delete f; }
  std::vector<Frame*>& st() { return th[cur].st; }
  Frame* top() { Frame*& f = th[cur].st.back(); if (f->rc > 1) { Frame* n = new Frame(*f); n->rc = 1; f->rc--; f = n; } return f; }
};

// ------------------------------------------------------------------ globals of the engine
static LLVMContext Ctx; static std::unique_ptr<Module> M; static const DataLayout* DL;
static std::vector<FnInfo*> fns; static std::unordered_map<const Function*, FnInfo*> fnMap;
static std::unordered_map<const GlobalVariable*, u32> gvObj; static std::unordered_map<u32, const GlobalVariable*> objGv;
static std::vector<const GlobalVariable*> tlsGvs; static std::unordered_map<const GlobalVariable*, u32> tlsIdx;
static std::unordered_map<std::string, Builtin> builtins;
static std::vector<State*> work; static State* CS = nullptr;
static std::map<std::string, i64> params;
static std::vector<u8> lineHit; static std::vector<std::pair<std::string, unsigned>> lineTab; static std::map<std::pair<std::string, unsigned>, int> lineIdx;
static std::map<std::string, u64> covers; static std::map<std::string, u64> endReasons; static std::set<std::string> plutoFns;
static u64 nInstr = 0, nPaths = 0, nPathsOk = 0, nForks = 0, nDedup = 0, nSchedStates = 0, nAssume = 0, nUnsup = 0, nAsserts = 0, nAssertsSym = 0; static bool incomplete = false; static std::set<std::string> incompleteWhy;
static u64 limInstr = 3000000, limPaths = ~0ull; static double limTime = 1e9; static unsigned limViol = 3; static unsigned nSamples = 3; static u64 seed = 1; static bool optDedup = true; static bool verbose = false; static double t0;
static u64 limChain = 64;
static std::mt19937_64 rng;
static void unsup(const std::string& s) { incomplete = true; incompleteWhy.insert(s); nUnsup++; throw PathEnd{3}; }

struct Violation { std::string kind, msg, where; std::vector<std::string> trace; std::string inputs; };
static std::vector<Violation> viols; static std::set<std::string> violKeys;
static std::vector<std::string> samples; static u64 sampleSeen = 0;

static std::string jesc(const std::string& s) { std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }
static std::string lineStr(int l) { return l < 0 ? "?" : lineTab[l].first + ":" + std::to_string(lineTab[l].second); }

// inputs as text: "name hexbytes" lines in creation order (little endian bytes)
static std::string inputsText(State& s) {
  std::vector<InputRec*> v; for (auto p = s.inputs.get(); p; p = p->prev.get()) v.push_back(p); std::reverse(v.begin(), v.end());
  std::string out;
  for (auto* r : v) { u128 x = S->eval(r->e, s.model); out += r->name; out += ' '; char b[4]; for (u32 i = 0; i < r->bytes; i++) { snprintf(b, 4, "%02x", (unsigned)(x >> (8 * i)) & 255); out += b; } out += '\n'; }
  return out;
}
static std::string obsText(State& s) {
  std::vector<ObsRec*> v; for (auto p = s.obs.get(); p; p = p->prev.get()) v.push_back(p); std::reverse(v.begin(), v.end()); std::string out;
  for (auto* r : v) { u64 x = r->v.e ? (u64)S->eval(r->v.e, s.model) : r->v.c; char b[32]; snprintf(b, 32, "%llx\n", (unsigned long long)x); out += b; }
  return out;
}
static Inst* curInst(Frame* f) { return f->pc < (int)f->f->code.size() ? &f->f->code[f->pc] : nullptr; }
[[noreturn]] static void violation(State& s, const std::string& kind, const std::string& msg) {
  std::string where; std::vector<std::string> tr;
  auto& st = s.st();
  for (int i = st.size() - 1; i >= 0; i--) { Inst* in = curInst(st[i]); std::string l = in ? lineStr(in->line) : "?"; tr.push_back(demangle(st[i]->f->name).substr(0, 160) + " @ " + l); if (where.empty() && in && in->line >= 0) where = l; }
  std::string key = kind + "|" + msg;
  if (violKeys.insert(key).second) { viols.push_back({kind, msg, where, tr, inputsText(s)}); }
  throw PathEnd{1};
}

// ------------------------------------------------------------------ constraints
static void addPC(State& s, Expr* c) {
  if (c->isC()) return;
  if (c->k == AND && c->w == 1) { addPC(s, c->a); addPC(s, c->b); return; }
  for (Expr* e : s.pc) if (e == c) return;
  s.pc.push_back(c);
  Expr* x = c; 
  auto fix = [&](Expr* v) { if (v->aux >= s.fixed.size()) s.fixed.resize(v->aux + 1); s.fixed[v->aux] = true; };
  if (x->k == EQ && x->b->isC() && x->a->k == VAR) fix(x->a);
  else if (x->k == VAR && x->w == 1) fix(x); else if (x->k == XOR && x->a->k == VAR && x->w == 1) fix(x->a);
}
static void updModel(State& s, Solver::Res* r) { auto m = std::make_shared<Model>(*s.model); for (auto& p : r->asg) { if (p.first >= m->size()) m->resize(p.first + 1); (*m)[p.first] = p.second; } s.model = m; }
static bool allFixed(State& s, VarSet* v) { for (u32 x : v->v) if (x >= s.fixed.size() || !s.fixed[x]) return false; return true; }
// A condition this path already decides, seen without the solver: 1, 0 or -1 (not seen). The same literal, or bounds on one variable.
static bool bound(Expr* e, Expr*& v, bool& sg, i128& lo, i128& hi) { // e as lo <= v <= hi
  bool neg = e->k == XOR && e->w == 1 && e->b->isC(); Expr* q = neg ? e->a : e; if (q->k != SLT && q->k != SLE && q->k != ULT && q->k != ULE) return false;
  Expr *x = q->a, *y = q->b; bool strict = (q->k == SLT || q->k == ULT) != neg; if (neg) std::swap(x, y); sg = q->k == SLT || q->k == SLE; // x < y or x <= y
  unsigned w = x->w; if (w > 64) return false; i128 m = (i128)1 << w, mn = sg ? -(m / 2) : 0, mx = sg ? m / 2 - 1 : m - 1; auto val = [&](Expr* c) { i128 t = (i128)c->val; return sg && t >= m / 2 ? t - m : t; };
  if (x->k == VAR && y->isC()) { v = x; lo = mn; hi = val(y) - strict; return true; } if (y->k == VAR && x->isC()) { v = y; lo = val(x) + strict; hi = mx; return true; } return false;
}
static int decided(State& s, Expr* c) {
  if (s.pc.empty()) return -1; Expr* nc = P.Not(c); for (Expr* q : s.pc) { if (q == c) return 1; if (q == nc) return 0; }
  Expr *v, *u; bool sg, g; i128 lo, hi, a, b; if (!bound(c, v, sg, lo, hi)) return -1;
  i128 m = (i128)1 << v->w, L = sg ? -(m / 2) : 0, H = sg ? m / 2 - 1 : m - 1; for (Expr* q : s.pc) if (bound(q, u, g, a, b) && u == v && g == sg) { if (a > L) L = a; if (b < H) H = b; }
  if (L > H) return -1; if (lo <= L && H <= hi) return 1; if (H < lo || hi < L) return 0; return -1;
}
static Expr* pickIte(State& s, Expr* c, Expr* a, Expr* b) { int d = c->isC() ? -1 : decided(s, c); return d < 0 ? P.ite(c, a, b) : d ? a : b; }
// Decide a branch condition; forks when both sides are feasible. The pushed state re-executes the current instruction.
static bool branch(State& s, Expr* c) {
  if (c->isC()) return c->val != 0;
  if (allFixed(s, c->vs)) return S->eval(c, s.model) != 0;
  Expr* nc = P.Not(c);
  for (Expr* e : s.pc) { if (e == c) return true; if (e == nc) return false; }
  bool v = S->eval(c, s.model) != 0; Expr* other = v ? nc : c;
  auto* r = S->check(s.pc, other);
  if (r->r == 1) { State* t = new State(s); if (!t->st().empty()) t->top(); addPC(*t, other); updModel(*t, r); work.push_back(t); nForks++; addPC(s, v ? c : nc); }
  else if (r->r < 0) { incomplete = true; incompleteWhy.insert("solver timeout"); addPC(s, v ? c : nc); }
  return v;
}
static u64 concretize(State& s, const Val& v, unsigned w) {
  if (!v.e) return v.c; if (v.e->isC()) return (u64)v.e->val; u64 x = (u64)S->eval(v.e, s.model);
  branch(s, P.bin(EQ, v.e, P.C(x, w))); return x;
}
static Expr* freshUninit(State& s, unsigned w) { return P.var(1000000 + s.nUninit++, w); }

// ------------------------------------------------------------------ memory access
static std::string ptrDesc(State& s, u64 p) {
  u32 hi = p >> 32; char b[160];
  if (p < 65536) { snprintf(b, 160, "null pointer (0x%llx)", (unsigned long long)p); return b; }
  if (hi >= OBJBASE && hi < FNBASE) { Obj* o = s.mem.get(hi - OBJBASE); if (o) { const char* k[] = {"global", "stack", "heap", "stack"}; snprintf(b, 160, "%s%s object of size %u", o->alive ? "" : "dead (freed or out of scope) ", k[o->kind], o->size); return b; } }
  snprintf(b, 160, "wild pointer"); return b;
}
struct Loc { u32 obj; u64 off; Expr* sym; u64 step; };
static void memErr(State& s, u64 p, u64 n, bool wr) { 
  violation(s, "memory", std::string("invalid ") + (wr ? "write" : "read") + " of " + std::to_string(n) + " byte(s): " + ptrDesc(s, p)); }
static Obj* objAt(State& s, u64 p, u32& id) { u32 hi = p >> 32; if (hi < OBJBASE || hi >= FNBASE) return nullptr; id = hi - OBJBASE; Obj* o = s.mem.get(id); return o; }
static Loc resolve(State& s, const Val& pv, u64 n, bool wr) {
  u64 p = pv.e ? (u64)S->eval(pv.e, s.model) : pv.c; u32 id = 0; Obj* o = objAt(s, p, id); u64 off = p & 0xffffffffu;
  if (!o || !o->alive || off + n > o->size || (wr && o->ro)) { if (!pv.e || true) memErr(s, p, n, wr); }
  if (!pv.e) return {id, off, nullptr, 1};
  Expr* base = P.C(addrOf(id), 64); Expr* d = P.bin(SUB, pv.e, base);
  if (!branch(s, P.bin(ULE, d, P.C(o->size - n, 64)))) memErr(s, p, n, wr);
  if (d->isC()) return {id, (u64)d->val, nullptr, 1};
  if (allFixed(s, d->vs)) return {id, off, nullptr, 1};
  unsigned t = ExprPool::tz(d); u64 step = t >= 32 ? 1ull << 31 : 1ull << t;
  u64 top = std::min<u128>(o->size - n, ExprPool::umaxOf(d, 8)), bot = (u64)std::min<u128>(ExprPool::uminOf(d, 8), top), cnt = wr ? (o->size - n) / step + 1 : (top - bot) / step + 1;
  if (cnt > (wr ? limChain / 2 : (o->ro ? 1024 : limChain))) { concretize(s, pv, 64); return {id, off, nullptr, 1}; }
  return {id, off, d, step};
}
static Expr* byteE(State& s, Obj* o, u32 i) {
  if (o->un && o->un[i]) return nullptr;
  if (o->sym && o->sym[i].e) return P.extract(o->sym[i].e, o->sym[i].idx * 8, 8);
  return P.C(o->data[i], 8);
}
static Val loadAt(State& s, u32 id, u64 off, unsigned bytes) { // width = bytes*8
  Obj* o = s.mem.get(id);
  if (o->un) { bool any = false; for (unsigned i = 0; i < bytes; i++) any |= o->un[off + i];
    if (any) { o = s.mem.getW(id); if (!o->sym) { o->sym = (SymB*)calloc(o->size, sizeof(SymB)); }
      for (unsigned i = 0; i < bytes; i++) if (o->un[off + i]) { o->un[off + i] = 0; o->sym[off + i] = {freshUninit(s, 8), 0}; } } }
  if (o->sym) {
    Expr* e0 = o->sym[off].e; bool any = e0 != nullptr, same = e0 != nullptr;
    for (unsigned i = 0; i < bytes; i++) { auto& b = o->sym[off + i]; if (b.e) any = true; if (b.e != e0 || (e0 && b.idx != o->sym[off].idx + i)) same = false; }
    if (any) {
      if (same) return mkV(P.extract(e0, o->sym[off].idx * 8, bytes * 8));
      Expr* r = nullptr; for (unsigned i = 0; i < bytes; i++) { Expr* b = byteE(s, o, off + i); r = r ? P.concat(b, r) : b; }
      return mkV(r);
    }
  }
  if (bytes <= 8) { u64 v = 0; memcpy(&v, o->data + off, bytes); return cv(v); }
  u128 v = 0; memcpy(&v, o->data + off, bytes); return mkV(P.C(v, bytes * 8));
}
static void storeAt(State& s, u32 id, u64 off, const Val& v, unsigned w, unsigned bytes) {
  Obj* o = s.mem.getW(id);
  if (o->un) memset(o->un + off, 0, bytes);
  if (!v.e || v.e->isC()) { u128 x = v.e ? v.e->val : v.c; memcpy(o->data + off, &x, bytes); if (o->sym) memset((void*)(o->sym + off), 0, sizeof(SymB) * bytes); return; }
  Expr* e = P.zext(v.e, bytes * 8); if (!o->sym) o->sym = (SymB*)calloc(o->size, sizeof(SymB));
  for (unsigned i = 0; i < bytes; i++) {
    Expr* b = P.extract(e, i * 8, 8);
    if (b->isC()) { o->data[off + i] = (u8)b->val; o->sym[off + i] = {nullptr, 0}; } else o->sym[off + i] = {e, i};
  }
}
static void touch(State& s, u32 id, u64 off, u64 n, u8 kind);
static Val loadV(State& s, const Val& p, unsigned w, unsigned bytes, bool atomic = false) {
  Loc l = resolve(s, p, bytes, false); Val r; if (s.race) { if (l.sym) { l.off = concretize(s, p, 64) & 0xffffffffu; l.sym = nullptr; } touch(s, l.obj, l.off, bytes, atomic ? 4 : 1); }
  if (!l.sym) r = loadAt(s, l.obj, l.off, bytes);
  else {
    u64 max = s.mem.get(l.obj)->size - bytes; Expr* e = nullptr; u64 hi = std::min<u128>(max, ExprPool::umaxOf(l.sym, 8)), lo = (u64)std::min<u128>(ExprPool::uminOf(l.sym, 8), hi);
    hi = hi / l.step * l.step; lo = (lo + l.step - 1) / l.step * l.step;
    bool lin = l.step == bytes && bytes <= 4 && hi > lo; u64 v0 = 0;   // consecutive values: no need for a chain
    for (u64 i = lo; lin && i <= hi; i += bytes) { Val v = loadAt(s, l.obj, i, bytes); if (v.e) lin = false; else if (i == lo) v0 = v.c; else lin = v.c == v0 + (i - lo) / bytes; }
    if (lin) e = P.extract(P.bin(ADD, P.bin(UDIV, l.sym, P.C(bytes, 64)), P.C(v0 - lo / bytes, 64)), 0, bytes * 8);
    else for (u64 i = hi + l.step; i >= lo + l.step;) { i -= l.step; Expr* v = toE(loadAt(s, l.obj, i, bytes), bytes * 8); e = e ? P.ite(P.bin(EQ, l.sym, P.C(i, 64)), v, e) : v; if (!i) break; }
    r = mkV(e);
  }
  if (w != bytes * 8) { if (!r.e) r.c &= mask64(w); else r = mkV(P.extract(r.e, 0, w)); }
  return r;
}
static void storeV(State& s, const Val& p, const Val& v, unsigned w, unsigned bytes, bool atomic = false) {
  Loc l = resolve(s, p, bytes, true); if (s.race) { if (l.sym) { l.off = concretize(s, p, 64) & 0xffffffffu; l.sym = nullptr; } touch(s, l.obj, l.off, bytes, atomic ? 8 : 2); }
  if (!l.sym) { storeAt(s, l.obj, l.off, v, w, bytes); return; }
  u64 max = s.mem.get(l.obj)->size - bytes; Expr* ve = P.zext(toE(v, w), bytes * 8);
  for (u64 i = 0; i <= max; i += l.step) { Expr* old = toE(loadAt(s, l.obj, i, bytes), bytes * 8); storeAt(s, l.obj, i, mkV(P.ite(P.bin(EQ, l.sym, P.C(i, 64)), ve, old)), bytes * 8, bytes); }
}
// Data races: a plain access that conflicts with an access another thread made after its last release is unordered with it.
static void touch(State& s, u32 id, u64 off, u64 n, u8 kind) {
  if (!s.race || s.st().empty() || s.st().back()->f->noRace) return; Obj* o = s.mem.get(id); if (!o || o->ro) return;
  static const u8 bad[9] = {0, 2 | 8, 15, 0, 2, 0, 0, 0, 1 | 2}; u8 b = bad[kind];
  for (u32 t = 0; t < s.foot.size(); t++) if (t != s.cur && s.foot[t]) { auto it = s.foot[t]->o.find(id); if (it == s.foot[t]->o.end()) continue; auto& v = it->second; for (u64 i = off; i < off + n && i < v.size(); i++) if (v[i] & b)
    violation(s, "race", std::string("data race: ") + (kind == 2 ? "write" : kind == 1 ? "read" : "atomic access") + " of memory another thread " + (v[i] & 10 ? "wrote" : "read") + " without synchronisation"); }
  if (s.foot.size() <= s.cur) s.foot.resize(s.cur + 1); auto& f = s.foot[s.cur]; if (!f) f = std::make_shared<Foot>();
  auto it = f->o.find(id); if (it != f->o.end()) { bool all = true; for (u64 i = off; i < off + n; i++) if (!(it->second[i] & kind)) { all = false; break; } if (all) return; }
  if (f.use_count() > 1) f = std::make_shared<Foot>(*f); auto& v = f->o[id]; if (v.size() < o->size) v.resize(o->size); for (u64 i = off; i < off + n; i++) v[i] |= kind;
}
static void release(State& s, u32 t) { if (t < s.foot.size()) s.foot[t] = nullptr; }
static u32 newObj(State& s, u64 size, ObjKind k, bool uninit) { if (size > (64u << 20)) unsup("huge allocation"); Obj* o = new Obj(size, k); if (uninit && size) { o->un = (u8*)malloc(size); memset(o->un, 1, size); } return s.mem.add(o); }
static void copyBytes(State& s, u64 dst, u64 src, u64 n) {
  if (!n) return; Loc b = resolve(s, cv(src), n, false), a = resolve(s, cv(dst), n, true); if (s.race) { touch(s, b.obj, b.off, n, 1); touch(s, a.obj, a.off, n, 2); }
  Obj* so = s.mem.get(b.obj); so->rc++; Obj* d = s.mem.getW(a.obj);
  if (so->un && !d->un) { d->un = (u8*)calloc(d->size, 1); } if (so->sym && !d->sym) d->sym = (SymB*)calloc(d->size, sizeof(SymB));
  memmove(d->data + a.off, so->data + b.off, n);
  if (d->un) { if (so->un) memmove(d->un + a.off, so->un + b.off, n); else memset(d->un + a.off, 0, n); }
  if (d->sym) { if (so->sym) memmove((void*)(d->sym + a.off), so->sym + b.off, n * sizeof(SymB)); else memset((void*)(d->sym + a.off), 0, n * sizeof(SymB)); }
  decObj(so);
}
static std::string cstr(State& s, u64 p) { std::string r; for (;; p++) { Val v = loadV(s, cv(p), 8, 1); u64 c = v.e ? (u64)S->eval(v.e, s.model) : v.c; if (!c) break; r += (char)c; if (r.size() > 4096) break; } return r; }
static u64 ldc(State& s, u64 p, unsigned n = 8) { Val v = loadV(s, cv(p), n * 8, n); return concretize(s, v, n * 8); }
static void stc(State& s, u64 p, u64 v, unsigned n = 8) { storeV(s, cv(p), cv(v), n * 8, n); }

// ------------------------------------------------------------------ decoding
static void flatten(Type* t, u64 off, std::vector<Leaf>& out) {
  if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) flatten(st->getElementType(i), off + sl->getElementOffset(i), out); return; }
  if (auto* at = dyn_cast<ArrayType>(t)) { u64 sz = DL->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); i++) flatten(at->getElementType(), off + i * sz, out); return; }
  if (auto* vt = dyn_cast<FixedVectorType>(t)) { u64 sz = DL->getTypeSizeInBits(vt->getElementType()) / 8; for (u64 i = 0; i < vt->getNumElements(); i++) flatten(vt->getElementType(), off + i * (sz ? sz : 1), out); return; }
  if (t->isVoidTy() || t->isMetadataTy() || t->isTokenTy() || t->isLabelTy()) return;
  unsigned w = t->isPointerTy() ? 64 : (unsigned)DL->getTypeSizeInBits(t);
  out.push_back({(u32)off, (u16)w, (u16)((w + 7) / 8), t->isFloatingPointTy()});
}
static unsigned nleaves(Type* t) { std::vector<Leaf> l; flatten(t, 0, l); return l.size(); }
static FnInfo* fnOf(const Function* F) { auto it = fnMap.find(F); if (it != fnMap.end()) return it->second; auto* f = new FnInfo; f->F = (Function*)F; f->name = F->getName().str(); f->id = fns.size(); f->isDecl = F->isDeclaration(); fns.push_back(f); fnMap[F] = f; auto b = builtins.find(f->name); if (b != builtins.end()) f->bi = b->second; return f; }
static void constVals(Constant* c, std::vector<Val>& out);
static u64 constAddr(Constant* c) { std::vector<Val> v; constVals(c, v); return v[0].c; }
static void constVals(Constant* c, std::vector<Val>& out) {
  Type* t = c->getType();
  if (auto* ci = dyn_cast<ConstantInt>(c)) { unsigned w = ci->getBitWidth(); if (w <= 64) out.push_back(cv(ci->getZExtValue())); else { u128 v = ci->getValue().getLoBits(64).trunc(64).getZExtValue(); v |= (u128)ci->getValue().lshr(64).trunc(64).getZExtValue() << 64; out.push_back(mkV(P.C(v, w))); } return; }
  if (auto* cf = dyn_cast<ConstantFP>(c)) { APInt b = cf->getValueAPF().bitcastToAPInt(); if (b.getBitWidth() <= 64) out.push_back(cv(b.getZExtValue())); else out.push_back(mkV(P.C((u128)b.trunc(64).getZExtValue() | ((u128)b.lshr(64).trunc(64).getZExtValue() << 64), b.getBitWidth()))); return; }
  if (isa<ConstantPointerNull>(c)) { out.push_back(cv(0)); return; }
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { std::vector<Leaf> l; flatten(t, 0, l); for (auto& x : l) out.push_back(x.w <= 64 ? cv(0) : mkV(P.C(0, x.w))); return; }
  if (auto* gv = dyn_cast<GlobalVariable>(c)) { auto it = gvObj.find(gv); if (it == gvObj.end()) { out.push_back(cv(0)); return; } out.push_back(cv(addrOf(it->second))); return; }
  if (auto* f = dyn_cast<Function>(c)) { out.push_back(cv((u64)(FNBASE + fnOf(f)->id) << 32)); return; }
  if (auto* ga = dyn_cast<GlobalAlias>(c)) { constVals(ga->getAliasee(), out); return; }
  if (auto* ca = dyn_cast<ConstantAggregate>(c)) { for (unsigned i = 0; i < ca->getNumOperands(); i++) constVals(ca->getOperand(i), out); return; }
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < cd->getNumElements(); i++) constVals(cd->getElementAsConstant(i), out); return; }
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    auto op = [&](unsigned i) { std::vector<Val> v; constVals(ce->getOperand(i), v); return v[0].c; };
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: { APInt off(64, 0); if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) { fprintf(stderr, "const gep\n"); abort(); } out.push_back(cv(op(0) + off.getSExtValue())); return; }
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::ZExt: out.push_back(cv(op(0))); return;
      case Instruction::Trunc: out.push_back(cv(op(0) & mask64(ce->getType()->getIntegerBitWidth()))); return;
      case Instruction::Add: out.push_back(cv(op(0) + op(1))); return; case Instruction::Sub: out.push_back(cv(op(0) - op(1))); return;
      case Instruction::ICmp: { auto pr = (CmpInst::Predicate)ce->getPredicate(); u64 a = op(0), b = op(1); out.push_back(cv(pr == CmpInst::ICMP_EQ ? a == b : pr == CmpInst::ICMP_NE ? a != b : a < b)); return; }
      default: break;
    }
  }
  errs() << "unhandled constant " << *c << "\n"; out.push_back(cv(0));
}
static int lineOf(Instruction& I, bool& pluto) {
  const DILocation* d = I.getDebugLoc(); if (!d) return -1;
  std::string f = d->getFilename().str(); unsigned ln = d->getLine(); auto pos = f.rfind("pluto/");
  pluto = pos != std::string::npos && f.find("include/pluto") != std::string::npos;
  if (pos != std::string::npos && pluto) f = f.substr(pos); else { auto q = f.rfind('/'); if (q != std::string::npos) f = f.substr(q + 1); }
  auto key = std::make_pair(f, ln); auto it = lineIdx.find(key); int idx; if (it == lineIdx.end()) { idx = lineTab.size(); lineIdx[key] = idx; lineTab.push_back(key); lineHit.push_back(0); } else idx = it->second;
  return idx;
}
struct FnDecoder {
  FnInfo* fi; std::unordered_map<const Value*, int> slot; std::unordered_map<const BasicBlock*, int> bb;
  Opnd leafOf(Value* v, unsigned i) { if (auto* c = dyn_cast<Constant>(v)) { std::vector<Val> cvs; constVals(c, cvs); return {-1, cvs[i]}; } auto it = slot.find(v); return {it->second + (int)i, cv(0)}; }
  void opnds(Value* v, std::vector<Opnd>& out) { if (auto* c = dyn_cast<Constant>(v)) { std::vector<Val> cvs; constVals(c, cvs); for (auto& x : cvs) out.push_back({-1, x}); return; } unsigned n = nleaves(v->getType()); auto it = slot.find(v); if (it == slot.end()) { if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) return; errs() << "no slot " << *v << "\n"; abort(); } for (unsigned i = 0; i < n; i++) out.push_back({it->second + (int)i, cv(0)}); }
  int mkEdge(BasicBlock* from, BasicBlock* to) { Edge e; e.target = -1; for (auto& ph : to->phis()) { int d = slot[&ph]; std::vector<Opnd> o; opnds(ph.getIncomingValueForBlock(from), o); for (unsigned i = 0; i < o.size(); i++) e.copies.push_back({d + (int)i, o[i]}); } fi->edges.push_back(e); edgeBB.push_back(to); return fi->edges.size() - 1; }
  std::vector<BasicBlock*> edgeBB;
  void run();
};
static unsigned flatIndex(Type* t, ArrayRef<unsigned> idx) { unsigned r = 0; for (unsigned k : idx) { if (auto* st = dyn_cast<StructType>(t)) { for (unsigned i = 0; i < k; i++) r += nleaves(st->getElementType(i)); t = st->getElementType(k); } else { auto* at = cast<ArrayType>(t); r += k * nleaves(at->getElementType()); t = at->getElementType(); } } return r; }
enum IntrK { IN_NONE, IN_NOP, IN_MEMCPY, IN_MEMSET, IN_UADDO, IN_USUBO, IN_UMULO, IN_SADDO, IN_SSUBO, IN_SMULO, IN_UMAX, IN_UMIN, IN_SMAX, IN_SMIN, IN_ABS, IN_CTLZ, IN_CTTZ, IN_CTPOP, IN_BSWAP, IN_FSHL, IN_FSHR, IN_UADDSAT, IN_USUBSAT, IN_EXPECT, IN_OBJSIZE, IN_TRAP, IN_TYPEID, IN_TLS, IN_ISCONST, IN_VASTART, IN_VACOPY, IN_LTSTART, IN_LTEND, IN_RETARG, IN_STACKSAVE, IN_FABS, IN_LOADREL, IN_FROUND, IN_COPYSIGN, IN_FMINMAX };
void FnDecoder::run() {
  Function& F = *fi->F; int n = 0;
  fi->vararg = F.isVarArg(); { std::string nm = F.getName().str(); auto* sp = F.getSubprogram(); std::string fl = sp ? sp->getFilename().str() : ""; fi->noRace = fl.find("rt_sched") != std::string::npos || fl.find("rt_io") != std::string::npos || (fl.find("rt_core") != std::string::npos && (nm.rfind("__cxa", 0) == 0 || nm.find("exception_ptr") != std::string::npos)) || nm.find("hx_norace") != std::string::npos; }
  for (auto& a : F.args()) { slot[&a] = n; n += nleaves(a.getType()); } fi->nparamLeaves = n;
  for (auto& B : F) for (auto& I : B) { unsigned k = nleaves(I.getType()); if (k) { slot[&I] = n; n += k; } }
  fi->nslots = n;
  for (auto& B : F) {
    bb[&B] = fi->code.size();
    for (auto& I : B) {
      if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) continue;
      Inst in; in.src = &I; bool pl = false; in.line = lineOf(I, pl);
      if (slot.count(&I)) in.dst = slot[&I];
      Type* t = I.getType();
      auto unsupported = [&]() { in.op = I_UNSUP; };
      if (auto* bo = dyn_cast<BinaryOperator>(&I)) {
        Type* et = t->getScalarType();
        if (et->isFloatingPointTy()) { in.op = I_FBIN; in.sub = bo->getOpcode(); in.w = DL->getTypeSizeInBits(et); }
        else { in.op = I_BIN; in.w = et->getIntegerBitWidth();
          static const std::map<unsigned, Kind> mp = {{Instruction::Add, ADD}, {Instruction::Sub, SUB}, {Instruction::Mul, MUL}, {Instruction::UDiv, UDIV}, {Instruction::SDiv, SDIV}, {Instruction::URem, UREM}, {Instruction::SRem, SREM}, {Instruction::And, AND}, {Instruction::Or, OR}, {Instruction::Xor, XOR}, {Instruction::Shl, SHL}, {Instruction::LShr, LSHR}, {Instruction::AShr, ASHR}};
          in.sub = mp.at(bo->getOpcode()); }
        in.n = nleaves(t); opnds(I.getOperand(0), in.ops); opnds(I.getOperand(1), in.ops);
      } else if (auto* ic = dyn_cast<ICmpInst>(&I)) { in.op = I_ICMP; in.sub = ic->getPredicate(); Type* ot = ic->getOperand(0)->getType()->getScalarType(); in.w = ot->isPointerTy() ? 64 : ot->getIntegerBitWidth(); in.n = nleaves(t); opnds(I.getOperand(0), in.ops); opnds(I.getOperand(1), in.ops);
      } else if (auto* fc = dyn_cast<FCmpInst>(&I)) { in.op = I_FCMP; in.sub = fc->getPredicate(); in.w = DL->getTypeSizeInBits(fc->getOperand(0)->getType()->getScalarType()); opnds(I.getOperand(0), in.ops); opnds(I.getOperand(1), in.ops);
      } else if (auto* ca = dyn_cast<CastInst>(&I)) {
        Type* st = ca->getSrcTy(); unsigned op = ca->getOpcode(); opnds(I.getOperand(0), in.ops);
        std::vector<Leaf> ls, ld; flatten(st, 0, ls); flatten(t, 0, ld);
        if (op == Instruction::FPToSI || op == Instruction::FPToUI || op == Instruction::SIToFP || op == Instruction::UIToFP || op == Instruction::FPExt || op == Instruction::FPTrunc) { in.op = I_FCAST; in.sub = op; in.w2 = ls[0].w; in.w = ld[0].w; if (ls.size() != 1) unsupported(); }
        else if (op == Instruction::BitCast && ls.size() != ld.size()) unsupported();
        else { in.op = I_CAST; in.n = ld.size(); in.w2 = ls[0].w; in.w = ld[0].w; in.sub = op == Instruction::SExt ? 1 : 0; }
      } else if (isa<SelectInst>(I)) { in.op = I_SELECT; in.sub = t->isPointerTy(); flatten(t, 0, in.leaves); opnds(I.getOperand(0), in.ops); in.imm = in.ops.size(); opnds(I.getOperand(1), in.ops); opnds(I.getOperand(2), in.ops);
      } else if (auto* li = dyn_cast<LoadInst>(&I)) { in.op = I_LOAD; in.sub = t->isPointerTy(); flatten(t, 0, in.leaves); opnds(li->getPointerOperand(), in.ops); in.asyncKind = li->isAtomic();
      } else if (auto* si = dyn_cast<StoreInst>(&I)) { in.op = I_STORE; flatten(si->getValueOperand()->getType(), 0, in.leaves); opnds(si->getPointerOperand(), in.ops); opnds(si->getValueOperand(), in.ops); in.asyncKind = si->isAtomic() ? (isReleaseOrStronger(si->getOrdering()) ? 2 : 1) : 0;
      } else if (auto* gp = dyn_cast<GetElementPtrInst>(&I)) {
        in.op = I_GEP; opnds(gp->getPointerOperand(), in.ops); if (gp->getType()->isVectorTy()) unsupported();
        for (auto gi = gep_type_begin(gp), e = gep_type_end(gp); gi != e; ++gi) {
          Value* ix = gi.getOperand();
          if (auto* st = gi.getStructTypeOrNull()) { in.imm += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
          u64 sz = DL->getTypeAllocSize(gi.getIndexedType());
          if (auto* ci = dyn_cast<ConstantInt>(ix)) { in.imm += (u64)ci->getSExtValue() * sz; continue; }
          opnds(ix, in.ops); in.scales.push_back(sz); in.cases.push_back(ix->getType()->getIntegerBitWidth());
        }
      } else if (auto* al = dyn_cast<AllocaInst>(&I)) { in.op = I_ALLOCA; in.imm = DL->getTypeAllocSize(al->getAllocatedType()); opnds(al->getArraySize(), in.ops); in.w = al->getArraySize()->getType()->getIntegerBitWidth();
      } else if (auto* br = dyn_cast<BranchInst>(&I)) { if (br->isConditional()) { in.op = I_CBR; opnds(br->getCondition(), in.ops); in.edges = {mkEdge(&B, br->getSuccessor(0)), mkEdge(&B, br->getSuccessor(1))}; } else { in.op = I_BR; in.edges = {mkEdge(&B, br->getSuccessor(0))}; }
      } else if (auto* sw = dyn_cast<SwitchInst>(&I)) { in.op = I_SWITCH; opnds(sw->getCondition(), in.ops); in.w = sw->getCondition()->getType()->getIntegerBitWidth(); in.edges.push_back(mkEdge(&B, sw->getDefaultDest())); for (auto& c : sw->cases()) { in.cases.push_back(c.getCaseValue()->getZExtValue()); in.edges.push_back(mkEdge(&B, c.getCaseSuccessor())); }
      } else if (auto* rt = dyn_cast<ReturnInst>(&I)) { in.op = I_RET; if (rt->getReturnValue()) opnds(rt->getReturnValue(), in.ops);
      } else if (isa<UnreachableInst>(I)) in.op = I_UNREACH;
      else if (auto* ev = dyn_cast<ExtractValueInst>(&I)) { in.op = I_COPY; unsigned k = flatIndex(ev->getAggregateOperand()->getType(), ev->getIndices()); in.n = nleaves(t); for (unsigned i = 0; i < in.n; i++) in.ops.push_back(leafOf(ev->getAggregateOperand(), k + i));
      } else if (auto* iv = dyn_cast<InsertValueInst>(&I)) { in.op = I_COPY; opnds(iv->getAggregateOperand(), in.ops); in.n = in.ops.size(); unsigned k = flatIndex(iv->getAggregateOperand()->getType(), iv->getIndices()); std::vector<Opnd> o; opnds(iv->getInsertedValueOperand(), o); for (unsigned i = 0; i < o.size(); i++) in.ops[k + i] = o[i];
      } else if (isa<FreezeInst>(I)) { in.op = I_COPY; opnds(I.getOperand(0), in.ops); in.n = in.ops.size();
      } else if (auto* ee = dyn_cast<ExtractElementInst>(&I)) { if (auto* ci = dyn_cast<ConstantInt>(ee->getIndexOperand())) { in.op = I_COPY; in.n = 1; in.ops.push_back(leafOf(ee->getVectorOperand(), ci->getZExtValue())); } else unsupported();
      } else if (auto* ie = dyn_cast<InsertElementInst>(&I)) { if (auto* ci = dyn_cast<ConstantInt>(ie->getOperand(2))) { in.op = I_COPY; opnds(ie->getOperand(0), in.ops); in.n = in.ops.size(); std::vector<Opnd> o; opnds(ie->getOperand(1), o); in.ops[ci->getZExtValue()] = o[0]; } else unsupported();
      } else if (auto* sv = dyn_cast<ShuffleVectorInst>(&I)) { in.op = I_COPY; unsigned k = nleaves(sv->getOperand(0)->getType()); for (int m : sv->getShuffleMask()) in.ops.push_back(m < 0 ? Opnd{-1, cv(0)} : (unsigned)m < k ? leafOf(sv->getOperand(0), m) : leafOf(sv->getOperand(1), m - k)); in.n = in.ops.size();
      } else if (auto* un = dyn_cast<UnaryOperator>(&I)) { in.op = I_FNEG; in.w = DL->getTypeSizeInBits(t); opnds(un->getOperand(0), in.ops);
      } else if (auto* lp = dyn_cast<LandingPadInst>(&I)) { in.op = I_LPAD; in.sub = lp->isCleanup(); for (unsigned i = 0; i < lp->getNumClauses(); i++) { if (lp->isCatch(i)) in.clauses.push_back({0, constAddr(lp->getClause(i))}); else { std::vector<Val> v; auto* arr = lp->getClause(i); if (auto* at = dyn_cast<ArrayType>(arr->getType()); at && at->getNumElements()) constVals(arr, v); for (auto& x : v) in.clauses.push_back({1, x.c}); in.clauses.push_back({2, 0}); } }
      } else if (isa<ResumeInst>(I)) { in.op = I_RESUME; opnds(I.getOperand(0), in.ops);
      } else if (isa<FenceInst>(I)) in.op = I_NOP;
      else if (auto* rm = dyn_cast<AtomicRMWInst>(&I)) { in.op = I_RMW; in.asyncKind = isReleaseOrStronger(rm->getOrdering()) ? 2 : 1; in.sub = rm->getOperation(); in.w = DL->getTypeSizeInBits(t); opnds(rm->getPointerOperand(), in.ops); opnds(rm->getValOperand(), in.ops);
      } else if (auto* cx = dyn_cast<AtomicCmpXchgInst>(&I)) { in.op = I_CAS; in.asyncKind = isReleaseOrStronger(cx->getSuccessOrdering()) ? 2 : 1; in.w = DL->getTypeSizeInBits(cx->getCompareOperand()->getType()); opnds(cx->getPointerOperand(), in.ops); opnds(cx->getCompareOperand(), in.ops); opnds(cx->getNewValOperand(), in.ops);
      } else if (auto* cb = dyn_cast<CallBase>(&I)) {
        in.op = I_CALL; in.retLeaves = nleaves(t); flatten(t, 0, in.retL);
        Value* cal = cb->getCalledOperand()->stripPointerCasts(); if (auto* ga = dyn_cast<GlobalAlias>(cal)) cal = ga->getAliaseeObject();
        if (auto* iv2 = dyn_cast<InvokeInst>(&I)) { in.isInvoke = true; in.edges = {mkEdge(&B, iv2->getNormalDest()), mkEdge(&B, iv2->getUnwindDest())}; }
        in.nfixed = cb->getFunctionType()->getNumParams();
        auto addArgs = [&]() { for (unsigned i = 0; i < cb->arg_size(); i++) { Value* a = cb->getArgOperand(i); if (a->getType()->isMetadataTy()) continue; unsigned b4 = in.ops.size(); opnds(a, in.ops); in.argLeaves.push_back(in.ops.size() - b4); in.byvalSize.push_back(cb->isByValArgument(i) ? (u32)DL->getTypeAllocSize(cb->getParamByValType(i)) : 0); } };
        auto* CF = dyn_cast<Function>(cal);
        if (CF && CF->isIntrinsic()) {
          int k = IN_NONE;
          switch (CF->getIntrinsicID()) {
            case Intrinsic::lifetime_start: k = IN_LTSTART; break; case Intrinsic::lifetime_end: k = IN_LTEND; break;
            case Intrinsic::assume: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::donothing: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::stackrestore: case Intrinsic::vaend: case Intrinsic::annotation: case Intrinsic::pseudoprobe: k = IN_NOP; break;
            case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: k = IN_MEMCPY; break; case Intrinsic::memset: k = IN_MEMSET; break;
            case Intrinsic::uadd_with_overflow: k = IN_UADDO; break; case Intrinsic::usub_with_overflow: k = IN_USUBO; break; case Intrinsic::umul_with_overflow: k = IN_UMULO; break;
            case Intrinsic::sadd_with_overflow: k = IN_SADDO; break; case Intrinsic::ssub_with_overflow: k = IN_SSUBO; break; case Intrinsic::smul_with_overflow: k = IN_SMULO; break;
            case Intrinsic::umax: k = IN_UMAX; break; case Intrinsic::umin: k = IN_UMIN; break; case Intrinsic::smax: k = IN_SMAX; break; case Intrinsic::smin: k = IN_SMIN; break; case Intrinsic::abs: k = IN_ABS; break;
            case Intrinsic::ctlz: k = IN_CTLZ; break; case Intrinsic::cttz: k = IN_CTTZ; break; case Intrinsic::ctpop: k = IN_CTPOP; break; case Intrinsic::bswap: k = IN_BSWAP; break;
            case Intrinsic::fshl: k = IN_FSHL; break; case Intrinsic::fshr: k = IN_FSHR; break; case Intrinsic::uadd_sat: k = IN_UADDSAT; break; case Intrinsic::usub_sat: k = IN_USUBSAT; break;
            case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: case Intrinsic::expect_with_probability: k = IN_RETARG; break;
            case Intrinsic::objectsize: k = IN_OBJSIZE; break; case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: k = IN_TRAP; break;
            case Intrinsic::eh_typeid_for: k = IN_TYPEID; break; case Intrinsic::threadlocal_address: k = IN_TLS; break; case Intrinsic::is_constant: k = IN_ISCONST; break;
            case Intrinsic::vastart: k = IN_VASTART; break; case Intrinsic::vacopy: k = IN_VACOPY; break; case Intrinsic::stacksave: k = IN_STACKSAVE; break; case Intrinsic::fabs: k = IN_FABS; break; case Intrinsic::load_relative: k = IN_LOADREL; break;
            case Intrinsic::round: k = IN_FROUND; in.imm = F_RNA; break; case Intrinsic::roundeven: case Intrinsic::rint: case Intrinsic::nearbyint: k = IN_FROUND; in.imm = F_RNE; break; case Intrinsic::floor: k = IN_FROUND; in.imm = F_RTN; break; case Intrinsic::ceil: k = IN_FROUND; in.imm = F_RTP; break; case Intrinsic::trunc: k = IN_FROUND; in.imm = F_RTZ; break; case Intrinsic::sqrt: k = IN_FROUND; in.imm = F_SQRT; break;
            case Intrinsic::copysign: k = IN_COPYSIGN; break; case Intrinsic::minnum: k = IN_FMINMAX; in.imm = 1; break; case Intrinsic::maxnum: k = IN_FMINMAX; in.imm = 0; break;
            default: break;
          }
          if (k == IN_NONE) unsupported();
          else if (k == IN_NOP) in.op = I_NOP;
          else if (k == IN_TLS) { in.sub = k; auto* gv = cast<GlobalVariable>(cb->getArgOperand(0)->stripPointerCasts()); in.imm = tlsIdx[gv]; }
          else { in.sub = k; in.w = t->isVoidTy() ? 0 : (in.retL.empty() ? 0 : in.retL[0].w); addArgs(); if (k >= IN_UADDO && k <= IN_SMULO) in.w = in.retL[0].w; if (t->isVectorTy()) unsupported(); }
        } else if (isa<InlineAsm>(cal)) { auto* ia = cast<InlineAsm>(cal); if (ia->getAsmString().empty()) { in.op = I_NOP; } else unsupported(); }
        else {
          addArgs();
          if (CF) { in.callee = fnOf(CF); if (in.callee->bi) { in.bi = in.callee->bi; } }
          else in.ops.insert(in.ops.begin(), leafOf(cb->getCalledOperand(), 0));
        }
      } else unsupported();
      fi->code.push_back(std::move(in));
    }
  }
  for (unsigned i = 0; i < fi->edges.size(); i++) fi->edges[i].target = bb[edgeBB[i]];
  fi->decoded = true;
}
static void decode(FnInfo* f) { FnDecoder d; d.fi = f; d.run(); }
#include "exec.h"
