// Hash-consed bit-vector expressions with local simplification.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>
#include <functional>
#include <memory>
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
typedef int64_t i64; typedef unsigned __int128 u128; typedef __int128 i128;

enum Kind : u8 { CONST, VAR, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
                 EQ, ULT, ULE, SLT, SLE, ITE, CONCAT, EXTRACT, ZEXT, SEXT, FOP, NKINDS };
// Floating-point operations on the bits of float (32), double (64) and x86 long double (80). aux = operation | width of the operands << 8.
enum FOpK : u8 { F_ADD, F_SUB, F_MUL, F_DIV, F_SQRT, F_LT, F_LE, F_EQ, F_UNO, F_RNA, F_RNE, F_RTN, F_RTP, F_RTZ, F_F2F, F_S2F, F_U2F, F_F2S, F_F2U };

struct VarSet { std::vector<u32> v; };
struct Expr {
  Kind k; u16 w; u32 id; u32 hash; u32 aux; // aux: extract low bit / var id
  Expr *a, *b, *c; u128 val; VarSet* vs;
  void* bv; void* bl;       // Z3 translations
  u64 stamp; u128 ev;       // evaluation memo
  u128 ul, um;              // cheap unsigned bounds
  bool isC() const { return k == CONST; }
};
static inline u128 maskW(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline i128 sx(u128 v, unsigned w) { if (w >= 128) return (i128)v; u128 s = (u128)1 << (w - 1); return (i128)((v ^ s) - s); }

struct ExprPool {
  std::vector<Expr*> table; size_t count = 0; u32 nextId = 1;
  std::vector<char*> arenas; size_t arenaLeft = 0; char* arenaPtr = nullptr;
  std::vector<u32> varIndex; // var id -> (index)
  struct VarInfo { u32 idx; u16 w; Expr* e; };
  std::vector<VarInfo> vars; std::unordered_map<u64, u32> varMap;
  struct VSHash { size_t operator()(const VarSet* s) const { size_t h = 17; for (u32 x : s->v) h = h * 1000003u ^ x; return h; } };
  struct VSEq { bool operator()(const VarSet* a, const VarSet* b) const { return a->v == b->v; } };
  std::unordered_set<VarSet*, VSHash, VSEq> vsets; VarSet* emptyVS;
  struct PH { size_t operator()(const std::pair<VarSet*, VarSet*>& p) const { return (u64)p.first * 0x9E3779B97F4A7C15ull ^ (u64)p.second; } };
  std::unordered_map<std::pair<VarSet*, VarSet*>, VarSet*, PH> unionMemo;
  Expr* smallC[129][16]; 
  ExprPool() { table.assign(1 << 20, nullptr); emptyVS = new VarSet; vsets.insert(emptyVS); memset(smallC, 0, sizeof smallC); }
  Expr* alloc() {
    if (arenaLeft < sizeof(Expr)) { arenaPtr = (char*)aligned_alloc(64, 1 << 22); arenaLeft = 1 << 22; arenas.push_back(arenaPtr); }
    Expr* e = (Expr*)arenaPtr; arenaPtr += sizeof(Expr); arenaLeft -= sizeof(Expr); memset((void*)e, 0, sizeof *e); return e;
  }
  VarSet* internVS(VarSet& t) { auto it = vsets.find(&t); if (it != vsets.end()) return *it; auto* n = new VarSet(t); vsets.insert(n); return n; }
  VarSet* unionVS(VarSet* x, VarSet* y) {
    if (x == y || y->v.empty()) return x; if (x->v.empty()) return y;
    if (x > y) std::swap(x, y);
    std::pair<VarSet*, VarSet*> key(x, y);
    auto it = unionMemo.find(key);
    if (it != unionMemo.end()) { return it->second; }
    VarSet t; std::set_union(x->v.begin(), x->v.end(), y->v.begin(), y->v.end(), std::back_inserter(t.v));
    VarSet* r = internVS(t); unionMemo[key] = r; return r;
  }
  static u32 hmix(u32 h, u64 x) { h ^= (u32)x; h *= 0x85ebca6b; h ^= h >> 13; h ^= (u32)(x >> 32); h *= 0xc2b2ae35; h ^= h >> 16; return h; }
  void grow() {
    std::vector<Expr*> n(table.size() * 2, nullptr); size_t m = n.size() - 1;
    for (Expr* e : table) if (e) { size_t i = e->hash & m; while (n[i]) i = (i + 1) & m; n[i] = e; }
    table.swap(n);
  }
  Expr* intern(Kind k, unsigned w, Expr* a, Expr* b, Expr* c, u32 aux, u128 val) {
    u32 h = hmix(hmix(hmix(hmix(hmix(k * 131 + w, a ? a->id : 0), b ? b->id : 0), c ? c->id : 0), aux), (u64)val);
    if (val >> 64) h = hmix(h, (u64)(val >> 64));
    size_t m = table.size() - 1, i = h & m;
    for (; table[i]; i = (i + 1) & m) { Expr* e = table[i];
      if (e->hash == h && e->k == k && e->w == w && e->a == a && e->b == b && e->c == c && e->aux == aux && e->val == val) return e; }
    Expr* e = alloc(); e->k = k; e->w = w; e->hash = h; e->a = a; e->b = b; e->c = c; e->aux = aux; e->val = val; e->id = nextId++;
    if (k == VAR) { VarSet t; t.v.push_back(aux); e->vs = internVS(t); }
    else { e->vs = emptyVS; if (a) e->vs = unionVS(e->vs, a->vs); if (b) e->vs = unionVS(e->vs, b->vs); if (c) e->vs = unionVS(e->vs, c->vs); }
    bounds(e); table[i] = e; if (++count * 10 > table.size() * 6) grow();
    return e;
  }
  Expr* C(u128 v, unsigned w) { v &= maskW(w); if (v < 16) { Expr*& s = smallC[w][(unsigned)v]; if (!s) s = intern(CONST, w, 0, 0, 0, 0, v); return s; } return intern(CONST, w, 0, 0, 0, 0, v); }
  Expr* var(u32 idx, unsigned w) {
    u64 key = ((u64)idx << 16) | w; auto it = varMap.find(key);
    if (it != varMap.end()) return vars[it->second].e;
    u32 id = vars.size(); Expr* e = intern(VAR, w, 0, 0, 0, id, 0); vars.push_back({idx, (u16)w, e}); varMap[key] = id; return e;
  }
  Expr* T() { return C(1, 1); } Expr* F() { return C(0, 1); }

  static u128 fold(Kind k, unsigned w, u128 x, u128 y) {
    u128 m = maskW(w);
    switch (k) {
      case ADD: return (x + y) & m; case SUB: return (x - y) & m; case MUL: return (x * y) & m;
      case UDIV: return y ? x / y : m; case UREM: return y ? x % y : x;
      case SDIV: { i128 p = sx(x, w), q = sx(y, w); if (!q) return p < 0 ? 1 : m; if (q == -1) return (u128)(0 - (u128)p) & m; return (u128)(p / q) & m; }
      case SREM: { i128 p = sx(x, w), q = sx(y, w); if (!q) return x; if (q == -1) return 0; return (u128)(p % q) & m; }
      case AND: return x & y; case OR: return x | y; case XOR: return x ^ y;
      case SHL: return y >= w ? 0 : (x << (unsigned)y) & m; case LSHR: return y >= w ? 0 : x >> (unsigned)y;
      case ASHR: { i128 p = sx(x, w); return (u128)(p >> (unsigned)(y >= w ? w - 1 : y)) & m; }
      case EQ: return x == y; case ULT: return x < y; case ULE: return x <= y;
      case SLT: return sx(x, w) < sx(y, w); case SLE: return sx(x, w) <= sx(y, w);
      default: abort();
    }
  }
  static bool comm(Kind k) { return k == ADD || k == MUL || k == AND || k == OR || k == XOR || k == EQ; }
  Expr* Not(Expr* x) {
    if (x->isC()) return C(!x->val, 1);
    if (x->k == ULT) return bin(ULE, x->b, x->a); if (x->k == ULE) return bin(ULT, x->b, x->a);
    if (x->k == SLT) return bin(SLE, x->b, x->a); if (x->k == SLE) return bin(SLT, x->b, x->a);
    if (x->k == XOR && x->b->isC()) return x->a;
    return intern(XOR, 1, x, C(1, 1), 0, 0, 0);
  }
  static unsigned tz(Expr* e) { // known trailing zero bits
    switch (e->k) {
      case CONST: { if (!e->val) return e->w; unsigned n = 0; u128 v = e->val; while (!(v & 1)) { v >>= 1; n++; } return n; }
      case MUL: return std::min<unsigned>(e->w, tz(e->a) + tz(e->b));
      case SHL: if (e->b->isC()) return std::min<unsigned>(e->w, tz(e->a) + (unsigned)std::min<u128>(e->b->val, e->w)); return tz(e->a);
      case ADD: case SUB: case OR: case XOR: return std::min(tz(e->a), tz(e->b));
      case AND: return std::max(tz(e->a), tz(e->b));
      case ITE: return std::min(tz(e->b), tz(e->c));
      case CONCAT: { unsigned l = tz(e->b); return l < e->b->w ? l : l + tz(e->a); }
      case ZEXT: case SEXT: { unsigned l = tz(e->a); return l < e->a->w ? l : e->w; }
      default: return 0;
    }
  }
  static u128 uminOf(Expr* e, int = 0) { return e->ul; }
  static u128 umaxOf(Expr* e, int = 0) { return e->um; }
  // ---- floating point: evaluation with the machine's own arithmetic (round to nearest even); NaN results are one canonical NaN
  template<class T> static T ftype(u128 v) { T r; memcpy(&r, &v, sizeof(T) > 10 ? 10 : sizeof(T)); return r; }
  static u128 fnan(unsigned w) { return w == 32 ? 0x7fc00000u : w == 64 ? (u128)0x7ff8000000000000ull : ((u128)0x7fff << 64) | 0xc000000000000000ull; }
  template<class T> static u128 fbits(T x, unsigned w) { if (x != x) return fnan(w); u128 v = 0; memcpy(&v, &x, w / 8); return v; }
  template<class D> static u128 ftoint(D x, unsigned w, bool sg) { // x86: a value out of range gives the indefinite integer
    if (x != x) return (u128)1 << (w - 1); D t = __builtin_truncl((long double)x); long double hi = sg ? __builtin_ldexpl(1, (int)w - 1) : __builtin_ldexpl(1, (int)w), lo = sg ? -hi : 0; if (t >= hi || t < lo) return (u128)1 << (w - 1); return sg ? (u128)(i128)t & maskW(w) : (u128)t & maskW(w); }
  template<class T> static u128 ffoldT(unsigned op, unsigned sw, unsigned w, u128 a, u128 b) {
    T x = ftype<T>(a), y = ftype<T>(b); if (sw == 32) { switch (op) { case F_ADD: return fbits(x + y, w); case F_SUB: return fbits(x - y, w); case F_MUL: return fbits(x * y, w); case F_DIV: return fbits(x / y, w); } }
    switch (op) { case F_ADD: return fbits((T)(x + y), w); case F_SUB: return fbits((T)(x - y), w); case F_MUL: return fbits((T)(x * y), w); case F_DIV: return fbits((T)(x / y), w); case F_SQRT: return fbits((T)(sizeof(T) == 4 ? __builtin_sqrtf((float)x) : sizeof(T) == 8 ? __builtin_sqrt((double)x) : __builtin_sqrtl((long double)x)), w);
      case F_LT: return x < y; case F_LE: return x <= y; case F_EQ: return x == y; case F_UNO: return x != x || y != y;
      case F_RNA: return fbits((T)__builtin_roundl((long double)x), w); case F_RNE: return fbits((T)__builtin_rintl((long double)x), w); case F_RTN: return fbits((T)__builtin_floorl((long double)x), w); case F_RTP: return fbits((T)__builtin_ceill((long double)x), w); case F_RTZ: return fbits((T)__builtin_truncl((long double)x), w);
      case F_F2F: return w == 32 ? fbits((float)x, w) : w == 64 ? fbits((double)x, w) : fbits((long double)x, w); case F_F2S: return ftoint(x, w, true); case F_F2U: return ftoint(x, w, false); }
    abort(); }
  static u128 ffold(unsigned aux, unsigned w, u128 a, u128 b) { unsigned op = aux & 255, sw = aux >> 8;
    if (op == F_S2F || op == F_U2F) { if (op == F_S2F) { i128 v = sx(a, sw); return w == 32 ? fbits((float)(i64)v, w) : w == 64 ? fbits((double)(i64)v, w) : fbits((long double)(i64)v, w); } u64 v = (u64)a; return w == 32 ? fbits((float)v, w) : w == 64 ? fbits((double)v, w) : fbits((long double)v, w); }
    return sw == 32 ? ffoldT<float>(op, sw, w, a, b) : sw == 64 ? ffoldT<double>(op, sw, w, a, b) : ffoldT<long double>(op, sw, w, a, b); }
  Expr* fop(unsigned op, unsigned w, Expr* a, Expr* b = nullptr) { u32 aux = op | a->w << 8; if (a->isC() && (!b || b->isC())) return C(ffold(aux, w, a->val, b ? b->val : 0), w); if (b && (op == F_ADD || op == F_MUL || op == F_EQ || op == F_UNO) && a->id > b->id) std::swap(a, b); if (a == b && op == F_LT) return F(); if (a == b && (op == F_EQ || op == F_LE)) return Not(fop(F_UNO, 1, a, a)); return intern(FOP, w, a, b, nullptr, aux, 0); }
  static void bounds(Expr* e) { // unsigned bounds that hold for every value of the variables
    u128 m = maskW(e->w); e->ul = 0; e->um = m; Expr *a = e->a, *b = e->b;
    switch (e->k) {
      case CONST: e->ul = e->um = e->val; break;
      case ZEXT: e->ul = a->ul; e->um = a->um; break;
      case SEXT: if (a->um <= (maskW(a->w) >> 1)) { e->ul = a->ul; e->um = a->um; } break;
      case EXTRACT: if (e->aux < 128) { if (e->aux == 0 && a->um <= m) { e->ul = a->ul; e->um = a->um; } else e->um = std::min(m, a->um >> e->aux); } break;
      case AND: e->um = std::min(a->um, b->um); break;
      case OR: case XOR: { if (e->k == XOR && b->isC() && b->val == m && e->w > 1) { e->ul = m - a->um; e->um = m - a->ul; break; } u128 x = a->um | b->um; for (unsigned k = 1; k < 128; k <<= 1) x |= x >> k; e->um = std::min(m, x); if (e->k == OR) e->ul = std::max(a->ul, b->ul); break; }
      case LSHR: if (b->isC() && b->val < e->w) { e->ul = a->ul >> (unsigned)b->val; e->um = a->um >> (unsigned)b->val; } else e->um = a->um; break;
      case ITE: e->ul = std::min(e->b->ul, e->c->ul); e->um = std::max(e->b->um, e->c->um); break;
      case UREM: if (b->isC() && b->val) { e->um = std::min(b->val - 1, a->um); if (a->um < b->val) e->ul = a->ul; } break;
      case UDIV: if (b->isC() && b->val) { e->ul = a->ul / b->val; e->um = a->um / b->val; } break;
      case MUL: if (e->w <= 64 && b->isC() && b->val && a->um <= m / b->val) { e->ul = a->ul * b->val; e->um = a->um * b->val; } break;
      case SHL: if (e->w <= 64 && b->isC() && b->val < e->w && a->um <= (m >> (unsigned)b->val)) { e->ul = a->ul << (unsigned)b->val; e->um = a->um << (unsigned)b->val; } break;
      case ADD: if (e->w <= 64 && a->um <= m - b->um) { e->ul = a->ul + b->ul; e->um = a->um + b->um; } break;
      case SUB: if (a->ul >= b->um) { e->ul = a->ul - b->um; e->um = a->um - b->ul; } break;
      case CONCAT: e->ul = (a->ul << b->w) | b->ul; e->um = (a->um << b->w) | b->um; break;
      default: break;
    }
  }
  // x = h * c + r (exact, no overflow) with constant c > 1
  bool horner(Expr* x, Expr*& h, u128& c, Expr*& r) {
    u128 m = maskW(x->w); if (x->w > 64) return false; if (x->k == CONCAT) { h = zext(x->a, x->w); c = (u128)1 << x->b->w; r = zext(x->b, x->w); return true; }
    if (x->k != ADD || x->um >= m) return false;
    auto mul = [&](Expr* p) { if (p->k == MUL && p->b->isC() && p->b->val > 1) { h = p->a; c = p->b->val; return true; } if (p->k == SHL && p->b->isC() && p->b->val && p->b->val < p->w) { h = p->a; c = (u128)1 << (unsigned)p->b->val; return true; } if (p->k == CONCAT && p->b->isC() && !p->b->val) { h = zext(p->a, p->w); c = (u128)1 << p->b->w; return true; } return false; };
    if (mul(x->a)) { r = x->b; return true; } if (mul(x->b)) { r = x->a; return true; }
    if (x->b->isC() && x->a->k == ADD) { Expr* y = x->a; if (mul(y->a)) { r = bin(ADD, y->b, x->b); return true; } if (mul(y->b)) { r = bin(ADD, y->a, x->b); return true; } }
    return false;
  }
  Expr* bin(Kind k, Expr* x, Expr* y) {
    unsigned w = x->w; if (x->w != y->w) { fprintf(stderr, "width mismatch kind %d %d %d\n", k, x->w, y->w); abort(); }
    bool rel = k >= EQ && k <= SLE; unsigned rw = rel ? 1 : w;
    if (x->isC() && y->isC()) return C(fold(k, w, x->val, y->val), rw);
    if (comm(k)) { if (x->isC() || (!y->isC() && x->id > y->id)) std::swap(x, y); }
    u128 m = maskW(w);
    switch (k) {
      case ADD:
        if (y->isC()) { if (!y->val) return x;
          if (x->k == ADD && x->b->isC()) return bin(ADD, x->a, C(x->b->val + y->val, w));
          if (x->k == SUB && x->a->isC()) return bin(SUB, C(x->a->val + y->val, w), x->b); }
        else { if (x->k == ADD && x->b->isC()) return bin(ADD, bin(ADD, x->a, y), x->b);
          if (y->k == ADD && y->b->isC()) return bin(ADD, bin(ADD, x, y->a), y->b);
          if (x->k == SUB && x->b == y) return x->a; if (y->k == SUB && y->b == x) return y->a;
          { auto opp = [&](Expr* p, Expr* q) { return p->k == MUL && q->k == MUL && p->a == q->a && p->b->isC() && q->b->isC() && ((p->b->val + q->b->val) & m) == 0; };
            if (opp(x, y)) return C(0, w);
            for (int sw = 0; sw < 2; sw++) { Expr *p = sw ? y : x, *q = sw ? x : y; if (q->k == ADD && opp(p, q->a)) return q->b; if (q->k == ADD && opp(p, q->b)) return q->a;
              if (p->k == MUL && p->b->isC() && p->a->k == SDIV && p->a->b == p->b && q->k == SREM && q->a == p->a->a && q->b == p->b) return q->a;
              if (p->k == MUL && p->b->isC() && p->a->k == UDIV && p->a->b == p->b && q->k == UREM && q->a == p->a->a && q->b == p->b) return q->a; } } }
        break;
      case SUB:
        if (x->isC() && !x->val && y->k == SUB && y->a->isC() && !y->a->val) return y->b;
        if (x == y) return C(0, w); if (y->isC()) return bin(ADD, x, C(-y->val, w));
        if (x->k == ADD && x->b->isC()) return bin(ADD, bin(SUB, x->a, y), x->b);
        if (y->k == ADD && y->b->isC()) return bin(ADD, bin(SUB, x, y->a), C(-y->b->val, w));
        if (x->k == ADD) { if (x->a == y) return x->b; if (x->b == y) return x->a; }
        if (y->k == ADD) { if (y->a == x) return bin(SUB, C(0, w), y->b); if (y->b == x) return bin(SUB, C(0, w), y->a); }
        break;
      case MUL:
        if (y->isC()) { if (!y->val) return y; if (y->val == 1) return x;
          if ((y->val & (y->val - 1)) == 0) { unsigned n = 0; while (!((y->val >> n) & 1)) n++; return bin(SHL, x, C(n, w)); } }
        break;
      case UDIV: if (x->k == ZEXT && y->isC() && y->val && y->val <= maskW(x->a->w)) return zext(bin(UDIV, x->a, C(y->val, x->a->w)), w);
        if (y->isC() && y->val == 1) return x;
        if (y->isC() && y->val > 1 && w <= 64) { Expr *h, *r; u128 c; if (horner(x, h, c, r) && r->um < maskW(w)) { if (c % y->val == 0 && r->um < y->val) return bin(MUL, h, C(c / y->val, w)); if (y->val % c == 0 && r->um < c) return bin(UDIV, h, C(y->val / c, w)); } }
        if (y->isC() && y->val && w <= 64) { u128 um = umaxOf(x, 6); if (um < y->val) return C(0, w);
          if (x->k == UDIV && x->b->isC() && x->b->val && x->b->val <= m / y->val) return bin(UDIV, x->a, C(x->b->val * y->val, w));
          if (um < m && x->k == MUL && x->b->isC() && x->b->val % y->val == 0) return bin(MUL, x->a, C(x->b->val / y->val, w));
          if (um < m && x->k == SHL && x->b->isC() && x->b->val < w && (((u128)1 << (unsigned)x->b->val) % y->val) == 0) return bin(MUL, x->a, C(((u128)1 << (unsigned)x->b->val) / y->val, w));
          if (um < m && x->k == ADD && x->b->isC() && x->a->k == MUL && x->a->b->isC() && x->a->b->val % y->val == 0) return bin(ADD, bin(MUL, x->a->a, C(x->a->b->val / y->val, w)), C(x->b->val / y->val, w)); }
        if (y->isC() && y->val && (y->val & (y->val - 1)) == 0) { unsigned n = 0; while (!((y->val >> n) & 1)) n++; return bin(LSHR, x, C(n, w)); } break;
      case SDIV: if (y->isC() && y->val == 1) return x;
        if (y->isC() && y->val && y->val <= m / 2 && w <= 64 && umaxOf(x, 6) <= m / 2) return bin(UDIV, x, y); break;
      case SREM: if (y->isC() && y->val && y->val <= m / 2 && w <= 64 && umaxOf(x, 6) <= m / 2) return bin(UREM, x, y); break;
      case UREM: if (x->k == ZEXT && y->isC() && y->val && y->val <= maskW(x->a->w)) return zext(bin(UREM, x->a, C(y->val, x->a->w)), w);
        if (y->isC() && y->val == 1) return C(0, w);
        if (y->isC() && y->val && w <= 64 && umaxOf(x, 6) < y->val) return x;
        if (y->isC() && y->val > 1 && w <= 64) { Expr *h, *r; u128 c; if (horner(x, h, c, r) && r->um < maskW(w)) { if (c % y->val == 0) return bin(UREM, r, y); if (y->val % c == 0 && r->um < c) return bin(ADD, bin(MUL, bin(UREM, h, C(y->val / c, w)), C(c, w)), r); } }
        if (y->isC() && y->val && w <= 64 && x->k == ADD && x->b->isC() && x->b->val >= y->val && umaxOf(x, 6) < m) return bin(UREM, bin(ADD, x->a, C(x->b->val % y->val, w)), y);
        if (y->isC() && y->val && (y->val & (y->val - 1)) == 0) return bin(AND, x, C(y->val - 1, w)); break;
      case AND:
        if (x == y) return x;
        if (y->isC()) { if (!y->val) return y; if (y->val == m) return x;
          if (x->k == AND && x->b->isC()) return bin(AND, x->a, C(x->b->val & y->val, w));
          if (x->k == ZEXT) { u128 im = maskW(x->a->w); return zext(bin(AND, x->a, C(y->val & im, x->a->w)), w); }
          // low mask -> zext(extract)
          if (((y->val + 1) & y->val) == 0) { unsigned n = 0; while ((y->val >> n) & 1) n++; return zext(extract(x, 0, n), w); }
          if (x->k == CONCAT) return concat(bin(AND, x->a, C(y->val >> x->b->w, x->a->w)), bin(AND, x->b, C(y->val, x->b->w)));
          if (x->k == ITE && (x->b->isC() || x->c->isC())) return ite(x->a, bin(AND, x->b, y), bin(AND, x->c, y)); }
        if (w == 1) { if (isNot(x, y)) return C(0, 1); }
        break;
      case OR:
        if (x == y) return x;
        if (y->isC()) { if (!y->val) return x; if (y->val == m) return y;
          if (x->k == ITE && x->b->isC() && x->c->isC()) return ite(x->a, bin(OR, x->b, y), bin(OR, x->c, y)); }
        if (w == 1) { if (isNot(x, y)) return C(1, 1); }
        else { // or of disjoint pieces: zext(a) | (zext(b) << k)  -> concat
          Expr* r = orPieces(x, y); if (!r) r = orPieces(y, x); if (r) return r; }
        break;
      case XOR:
        if (x == y) return C(0, w);
        if (y->isC()) { if (!y->val) return x; if (w == 1) return Not(x);
          if (x->k == XOR && x->b->isC()) return bin(XOR, x->a, C(x->b->val ^ y->val, w));
          if (x->k == ITE && x->b->isC() && x->c->isC()) return ite(x->a, bin(XOR, x->b, y), bin(XOR, x->c, y));
          if (x->k == ZEXT && !(y->val >> x->a->w)) return zext(bin(XOR, x->a, C(y->val, x->a->w)), w); }
        break;
      case SHL:
        if (y->isC()) { if (!y->val) return x; if (y->val >= w) return C(0, w); unsigned n = (unsigned)y->val;
          return concat(extract(x, 0, w - n), C(0, n)); }
        if (x->isC() && !x->val) return x; break;
      case LSHR:
        if (y->isC()) { if (!y->val) return x; if (y->val >= w) return C(0, w); unsigned n = (unsigned)y->val;
          return zext(extract(x, n, w - n), w); }
        if (x->isC() && !x->val) return x; break;
      case ASHR:
        if (y->isC()) { if (!y->val) return x; unsigned n = y->val >= w ? w - 1 : (unsigned)y->val; return sext(extract(x, n, w - n), w); }
        break;
      case EQ: {
        if (x == y) return T();
        if (w == 1) { if (y->isC()) return y->val ? x : Not(x); if (isNot(x, y)) return F(); }
        else if (x->um < y->ul || y->um < x->ul) return F();
        if (y->isC()) {
          if (x->k == ADD && x->b->isC()) return bin(EQ, x->a, C(y->val - x->b->val, w));
          if (x->k == SUB && x->a->isC()) return bin(EQ, x->b, C(x->a->val - y->val, w));
          if (x->k == XOR && x->b->isC()) return bin(EQ, x->a, C(y->val ^ x->b->val, w));
          if (x->k == ZEXT) { if (y->val >> x->a->w) return F(); return bin(EQ, x->a, C(y->val, x->a->w)); }
          if (x->k == SEXT) { u128 t = y->val & maskW(x->a->w); if (((u128)sx(t, x->a->w) & m) != y->val) return F(); return bin(EQ, x->a, C(t, x->a->w)); }
          if (x->k == CONCAT) return bin(AND, bin(EQ, x->a, C(y->val >> x->b->w, x->a->w)), bin(EQ, x->b, C(y->val, x->b->w)));
          if (x->k == ITE) {
            bool bc = x->b->isC(), cc = x->c->isC();
            if (bc && cc) { bool p = x->b->val == y->val, q = x->c->val == y->val; if (p && q) return T(); if (p) return x->a; if (q) return Not(x->a); return F(); }
            if (bc) { if (x->b->val == y->val) return bin(OR, x->a, bin(EQ, x->c, y)); return bin(AND, Not(x->a), bin(EQ, x->c, y)); }
            if (cc) { if (x->c->val == y->val) return bin(OR, Not(x->a), bin(EQ, x->b, y)); return bin(AND, x->a, bin(EQ, x->b, y)); }
          }
          if (y->val > umaxOf(x)) return F();
        } else {
          if (x->k == ZEXT && y->k == ZEXT && x->a->w == y->a->w) return bin(EQ, x->a, y->a);
          if (x->k == SEXT && y->k == SEXT && x->a->w == y->a->w) return bin(EQ, x->a, y->a);
          if (x->k == ADD && y->k == ADD && x->b == y->b) return bin(EQ, x->a, y->a);
          if (x->k == ADD && x->b->isC() && x->a == y) return F();
          if (y->k == ADD && y->b->isC() && y->a == x) return F();
          if (x->k == ITE && (x->b == y)) return bin(OR, x->a, bin(EQ, x->c, y));
        }
        break; }
      case ULT:
        if (x == y) return F(); if (y->isC() && !y->val) return F(); if (x->isC() && x->val == m) return F();
        if (x->um < y->ul) return T(); if (x->ul >= y->um) return F();
        if (y->isC() && y->val == 1) return bin(EQ, x, C(0, w));
        if (x->isC() && !x->val) return Not(bin(EQ, y, C(0, w)));
        if (y->isC()) { if (umaxOf(x) < y->val) return T();
          if (x->k == ZEXT) { if (y->val >> x->a->w) return T(); return bin(ULT, x->a, C(y->val, x->a->w)); }
          if (x->k == ITE && x->b->isC() && x->c->isC()) return iteBool(x->a, x->b->val < y->val, x->c->val < y->val); }
        if (x->isC()) { if (x->val >= umaxOf(y)) return F();
          if (y->k == ZEXT) { if (x->val >> y->a->w) return F(); return bin(ULT, C(x->val, y->a->w), y->a); }
          if (y->k == ITE && y->b->isC() && y->c->isC()) return iteBool(y->a, x->val < y->b->val, x->val < y->c->val); }
        if (x->k == ZEXT && y->k == ZEXT && x->a->w == y->a->w) return bin(ULT, x->a, y->a);
        break;
      case ULE:
        if (x == y) return T(); if (x->isC() && !x->val) return T(); if (y->isC() && y->val == m) return T();
        if (x->um <= y->ul) return T(); if (x->ul > y->um) return F();
        if (y->isC()) return bin(ULT, x, C(y->val + 1, w));
        if (x->isC()) return bin(ULT, C(x->val - 1, w), y);
        if (x->k == ZEXT && y->k == ZEXT && x->a->w == y->a->w) return bin(ULE, x->a, y->a);
        break;
      case SLT: {
        if (x == y) return F(); u128 smin = (u128)1 << (w - 1), smax = smin - 1;
        if (y->isC() && y->val == smin) return F(); if (x->isC() && x->val == smax) return F();
        if (x->um <= smax && y->um <= smax) return bin(ULT, x, y);
        if (x->um <= smax && y->isC()) return F(); if (y->um <= smax && x->isC()) return T();   // the constant is negative
        if (w > 1 && x->k == SUB && x->a->isC() && !x->a->val && x->b->um <= smax && y->isC()) return bin(SLT, C(-y->val, w), x->b);
        if (w > 1 && y->k == SUB && y->a->isC() && !y->a->val && y->b->um <= smax && x->isC()) { if (x->val == smin) return T(); return bin(SLT, y->b, C(-x->val, w)); }
        if (x->k == ZEXT && y->k == ZEXT) return bin(ULT, x, y);
        if (x->k == ZEXT && y->isC()) { if (y->val & smin) return F(); return bin(ULT, x, y); }
        if (y->k == ZEXT && x->isC()) { if (x->val & smin) return T(); return bin(ULT, x, y); }
        if (x->k == SEXT && y->k == SEXT && x->a->w == y->a->w) return bin(SLT, x->a, y->a);
        if (x->k == SEXT && y->isC()) { unsigned n = x->a->w; i128 v = sx(y->val, w), lo = -((i128)1 << (n - 1)), hi = ((i128)1 << (n - 1)) - 1;
          if (v > hi) return T(); if (v <= lo) return F(); return bin(SLT, x->a, C((u128)v, n)); }
        if (y->k == SEXT && x->isC()) { unsigned n = y->a->w; i128 v = sx(x->val, w), lo = -((i128)1 << (n - 1)), hi = ((i128)1 << (n - 1)) - 1;
          if (v < lo) return T(); if (v >= hi) return F(); return bin(SLT, C((u128)v, n), y->a); }
        if (x->k == ITE && x->b->isC() && x->c->isC() && y->isC()) return iteBool(x->a, sx(x->b->val, w) < sx(y->val, w), sx(x->c->val, w) < sx(y->val, w));
        if (y->k == ITE && y->b->isC() && y->c->isC() && x->isC()) return iteBool(y->a, sx(x->val, w) < sx(y->b->val, w), sx(x->val, w) < sx(y->c->val, w));
        break; }
      case SLE: {
        if (x == y) return T(); u128 smin = (u128)1 << (w - 1), smax = smin - 1;
        if (x->isC() && x->val == smin) return T(); if (y->isC() && y->val == smax) return T();
        if (y->isC()) return bin(SLT, x, C(y->val + 1, w));
        if (x->isC()) return bin(SLT, C(x->val - 1, w), y);
        if (x->k == ZEXT && y->k == ZEXT) return bin(ULE, x, y);
        if (x->k == SEXT && y->k == SEXT && x->a->w == y->a->w) return bin(SLE, x->a, y->a);
        break; }
      default: break;
    }
    return intern(k, rw, x, y, 0, 0, 0);
  }
  Expr* iteBool(Expr* c, bool p, bool q) { if (p == q) return C(p, 1); return p ? c : Not(c); }
  bool isNot(Expr* x, Expr* y) { return Not(x) == y; }
  // x = zext(lo part of n bits) ; y = concat(hi, 0_n)
  Expr* orPieces(Expr* x, Expr* y) {
    if (y->k == CONCAT && y->b->isC() && y->b->val == 0) { unsigned n = y->b->w;
      if (x->k == ZEXT && x->a->w <= n) return concat(y->a, zext(x->a, n));
      if (x->k == CONCAT && x->a->isC() && x->a->val == 0 && x->b->w <= n) return concat(y->a, zext(x->b, n));
      if (x->isC() && x->val <= maskW(n)) return concat(y->a, C(x->val, n)); }
    // zext(p) | c with p's range disjoint handled by z3
    if (y->k == ZEXT && y->a->k == CONCAT && y->a->b->isC() && y->a->b->val == 0) { unsigned n = y->a->b->w;
      if (x->k == ZEXT && x->a->w <= n) return zext(concat(y->a->a, zext(x->a, n)), y->w); }
    return nullptr;
  }
  Expr* ite(Expr* c, Expr* p, Expr* q) {
    if (c->isC()) return c->val ? p : q; if (p == q) return p;
    if (c->k == XOR && c->b->isC()) return ite(c->a, q, p);
    if (p->w == 1) {
      if (p->isC() && q->isC()) return p->val ? c : Not(c);
      if (p->isC()) return p->val ? bin(OR, c, q) : bin(AND, Not(c), q);
      if (q->isC()) return q->val ? bin(OR, Not(c), p) : bin(AND, c, p);
    }
    if (p->k == ITE && p->a == c) p = p->b; if (q->k == ITE && q->a == c) q = q->c;
    if (p == q) return p;
    // if (x == k) k else x
    if (c->k == EQ && c->b == p && c->a == q) return q;
    return intern(ITE, p->w, c, p, q, 0, 0);
  }
  Expr* concat(Expr* hi, Expr* lo) {
    unsigned w = hi->w + lo->w; if (w > 128) { fprintf(stderr, "concat too wide\n"); abort(); }
    if (hi->isC() && lo->isC()) return C((hi->val << lo->w) | lo->val, w);
    if (hi->isC() && hi->val == 0) return zext(lo, w);
    if (hi->k == EXTRACT && lo->k == EXTRACT && hi->a == lo->a && hi->aux == lo->aux + lo->w) return extract(hi->a, lo->aux, w);
    if (lo->k == CONCAT && hi->k == EXTRACT && lo->a->k == EXTRACT && hi->a == lo->a->a && hi->aux == lo->a->aux + lo->a->w)
      return concat(extract(hi->a, lo->a->aux, hi->w + lo->a->w), lo->b);
    if (lo->k == CONCAT && hi->isC() && lo->a->isC()) return concat(C((hi->val << lo->a->w) | lo->a->val, hi->w + lo->a->w), lo->b);
    if (hi->k == CONCAT && lo->isC() && hi->b->isC()) return concat(hi->a, C((hi->b->val << lo->w) | lo->val, hi->b->w + lo->w));
    if (hi->k == ZEXT) return zext(concat(hi->a, lo), w);
    if (hi->k == EXTRACT && hi->aux == lo->w && hi->a == lo) {} 
    if (hi->k == CONCAT) return concat(hi->a, concat(hi->b, lo)); // right-assoc normal form
    return intern(CONCAT, w, hi, lo, 0, 0, 0);
  }
  Expr* extract(Expr* x, unsigned lo, unsigned n) {
    if (lo == 0 && n == x->w) return x;
    switch (x->k) {
      case CONST: return C(x->val >> lo, n);
      case EXTRACT: return extract(x->a, x->aux + lo, n);
      case CONCAT: { unsigned bw = x->b->w; if (lo >= bw) return extract(x->a, lo - bw, n); if (lo + n <= bw) return extract(x->b, lo, n);
        return concat(extract(x->a, 0, lo + n - bw), extract(x->b, lo, bw - lo)); }
      case ZEXT: { unsigned aw = x->a->w; if (lo >= aw) return C(0, n); if (lo + n <= aw) return extract(x->a, lo, n); return zext(extract(x->a, lo, aw - lo), n); }
      case SEXT: { unsigned aw = x->a->w; if (lo + n <= aw) return extract(x->a, lo, n); if (lo < aw) return sext(extract(x->a, lo, aw - lo), n);
        return sext(extract(x->a, aw - 1, 1), n); }
      case AND: case OR: case XOR: if (x->b->isC() || n <= 8 || true) return bin(x->k, extract(x->a, lo, n), extract(x->b, lo, n));
      case ITE: if (x->b->isC() || x->c->isC() || n <= 8) return ite(x->a, extract(x->b, lo, n), extract(x->c, lo, n)); break;
      case ADD: case SUB: case MUL: if (lo == 0) return bin(x->k, extract(x->a, 0, n), extract(x->b, 0, n)); break;
      default: break;
    }
    return intern(EXTRACT, n, x, 0, 0, lo, 0);
  }
  Expr* zext(Expr* x, unsigned w) {
    if (w == x->w) return x; if (x->isC()) return C(x->val, w);
    if (x->k == ZEXT) return zext(x->a, w);
    if (x->k == EXTRACT && !x->aux && x->a->um <= maskW(x->w)) return x->a->w >= w ? extract(x->a, 0, w) : zext(x->a, w);
    if (x->k == ITE && x->b->isC() && x->c->isC()) return ite(x->a, C(x->b->val, w), C(x->c->val, w));
    return intern(ZEXT, w, x, 0, 0, 0, 0);
  }
  Expr* sext(Expr* x, unsigned w) {
    if (w == x->w) return x; if (x->isC()) return C((u128)sx(x->val, x->w), w);
    if (x->k == SEXT) return sext(x->a, w); if (x->k == ZEXT) return zext(x, w);
    if (x->um <= (maskW(x->w) >> 1)) return zext(x, w);
    if (x->k == SUB && x->a->isC() && !x->a->val && x->b->um <= ((u128)1 << (x->w - 1))) return bin(SUB, C(0, w), zext(x->b, w));
    if (x->k == ITE && x->b->isC() && x->c->isC()) return ite(x->a, sext(x->b, w), sext(x->c, w));
    return intern(SEXT, w, x, 0, 0, 0, 0);
  }
};
