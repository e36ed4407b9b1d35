// Query layer: slicing, caching and Z3.
#pragma once
#include "expr.h"
#include <z3.h>
#include <chrono>
typedef std::vector<u64> Model;           // by var id; missing = 0
typedef std::shared_ptr<const Model> ModelP;

struct Solver {
  ExprPool& P; Z3_context z; Z3_solver s; Z3_sort boolS;
  u64 queries = 0, cacheHits = 0, modelHits = 0, z3calls = 0, satN = 0, unsatN = 0, unknownN = 0; double z3time = 0;
  u64 stamp = 1; const Model* curM = nullptr; ModelP hold;
  static void err(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); exit(3); }
  Solver(ExprPool& p, unsigned timeoutMs) : P(p) {
    Z3_config cfg = Z3_mk_config(); z = Z3_mk_context(cfg); Z3_set_error_handler(z, err); Z3_del_config(cfg);
    s = Z3_mk_simple_solver(z); Z3_solver_inc_ref(z, s);
    Z3_params pr = Z3_mk_params(z); Z3_params_inc_ref(z, pr);
    Z3_params_set_uint(z, pr, Z3_mk_string_symbol(z, "timeout"), timeoutMs);
    Z3_params_set_uint(z, pr, Z3_mk_string_symbol(z, "random_seed"), 0);
    Z3_solver_set_params(z, s, pr); boolS = Z3_mk_bool_sort(z);
  }
  // ---- evaluation under a model
  void useModel(const ModelP& m) { if (curM != m.get()) { hold = m; curM = m.get(); stamp++; } }
  u128 evalRec(Expr* e) {
    if (e->k == CONST) return e->val; if (e->stamp == stamp) return e->ev;
    u128 r;
    switch (e->k) {
      case VAR: r = e->aux < curM->size() ? (u128)(*curM)[e->aux] & maskW(e->w) : 0; break;
      case ITE: r = evalRec(e->a) ? evalRec(e->b) : evalRec(e->c); break;
      case CONCAT: r = (evalRec(e->a) << e->b->w) | evalRec(e->b); break;
      case EXTRACT: r = (evalRec(e->a) >> e->aux) & maskW(e->w); break;
      case ZEXT: r = evalRec(e->a); break;
      case SEXT: r = (u128)sx(evalRec(e->a), e->a->w) & maskW(e->w); break;
      case FOP: r = ExprPool::ffold(e->aux, e->w, evalRec(e->a), e->b ? evalRec(e->b) : 0); break;
      default: r = ExprPool::fold(e->k, e->a->w, evalRec(e->a), evalRec(e->b));
    }
    e->stamp = stamp; e->ev = r; return r;
  }
  u128 eval(Expr* e, const ModelP& m) { if (e->k == CONST) return e->val; useModel(m); return evalRec(e); }
  // ---- translation
  Z3_sort fsort(unsigned w) { return w == 32 ? Z3_mk_fpa_sort_32(z) : w == 64 ? Z3_mk_fpa_sort_64(z) : Z3_mk_fpa_sort(z, 15, 64); }
  Z3_ast ffrom(Expr* e) { if (e->w != 80) return keep(Z3_mk_fpa_to_fp_bv(z, bv(e), fsort(e->w))); return keep(Z3_mk_fpa_to_fp_bv(z, Z3_mk_concat(z, Z3_mk_extract(z, 79, 64, bv(e)), Z3_mk_extract(z, 62, 0, bv(e))), fsort(80))); }   // long double: without its explicit leading bit
  Z3_ast cbv(u128 v, unsigned w) { return bv(P.C(v, w)); }
  Z3_ast fto(Z3_ast f, unsigned w) { Z3_ast r = keep(Z3_mk_fpa_to_ieee_bv(z, f)); if (w == 80) { Z3_ast ex = Z3_mk_extract(z, 77, 63, r); Z3_ast one = Z3_mk_ite(z, Z3_mk_eq(z, ex, cbv(0, 15)), cbv(0, 1), cbv(1, 1)); r = keep(Z3_mk_concat(z, Z3_mk_extract(z, 78, 63, r), Z3_mk_concat(z, one, Z3_mk_extract(z, 62, 0, r)))); } return keep(Z3_mk_ite(z, Z3_mk_fpa_is_nan(z, f), cbv(ExprPool::fnan(w), w), r)); }
  Z3_ast fbv(Expr* e) {
    unsigned op = e->aux & 255, w = e->w; Z3_ast rm = keep(Z3_mk_fpa_rne(z)), b1 = cbv(1, 1), b0 = cbv(0, 1); auto tf = [&](Z3_ast c) { return Z3_mk_ite(z, c, b1, b0); };
    if (op == F_S2F) return fto(keep(Z3_mk_fpa_to_fp_signed(z, rm, bv(e->a), fsort(w))), w); if (op == F_U2F) return fto(keep(Z3_mk_fpa_to_fp_unsigned(z, rm, bv(e->a), fsort(w))), w);
    Z3_ast x = ffrom(e->a), y = e->b ? ffrom(e->b) : nullptr; auto rnd = [&](Z3_ast m) { return fto(keep(Z3_mk_fpa_round_to_integral(z, keep(m), x)), w); };
    switch (op) {
      case F_ADD: return fto(keep(Z3_mk_fpa_add(z, rm, x, y)), w); case F_SUB: return fto(keep(Z3_mk_fpa_sub(z, rm, x, y)), w); case F_MUL: return fto(keep(Z3_mk_fpa_mul(z, rm, x, y)), w); case F_DIV: return fto(keep(Z3_mk_fpa_div(z, rm, x, y)), w); case F_SQRT: return fto(keep(Z3_mk_fpa_sqrt(z, rm, x)), w);
      case F_LT: return tf(Z3_mk_fpa_lt(z, x, y)); case F_LE: return tf(Z3_mk_fpa_leq(z, x, y)); case F_EQ: return tf(Z3_mk_fpa_eq(z, x, y)); case F_UNO: { Z3_ast t[2] = {Z3_mk_fpa_is_nan(z, x), Z3_mk_fpa_is_nan(z, y)}; return tf(Z3_mk_or(z, 2, t)); }
      case F_RNA: return rnd(Z3_mk_fpa_rna(z)); case F_RNE: return rnd(Z3_mk_fpa_rne(z)); case F_RTN: return rnd(Z3_mk_fpa_rtn(z)); case F_RTP: return rnd(Z3_mk_fpa_rtp(z)); case F_RTZ: return rnd(Z3_mk_fpa_rtz(z));
      case F_F2F: return fto(keep(Z3_mk_fpa_to_fp_float(z, rm, x, fsort(w))), w);
      default: { bool sg = op == F_F2S; unsigned sw = e->a->w; Z3_ast t = keep(Z3_mk_fpa_round_to_integral(z, keep(Z3_mk_fpa_rtz(z)), x)); long double h = __builtin_ldexpl(1, (int)w - (sg ? 1 : 0)), l = sg ? -h : 0; auto fc = [&](long double v) { return ffrom(P.C(sw == 32 ? ExprPool::fbits((float)v, 32) : sw == 64 ? ExprPool::fbits((double)v, 64) : ExprPool::fbits(v, 80), sw)); };
        Z3_ast in[2] = {keep(Z3_mk_fpa_lt(z, t, fc(h))), keep(Z3_mk_fpa_leq(z, fc(l), t))}; Z3_ast c = keep(sg ? Z3_mk_fpa_to_sbv(z, keep(Z3_mk_fpa_rtz(z)), x, w) : Z3_mk_fpa_to_ubv(z, keep(Z3_mk_fpa_rtz(z)), x, w)); return Z3_mk_ite(z, Z3_mk_and(z, 2, in), c, cbv((u128)1 << (w - 1), w)); }
    }
  }
  Z3_ast keep(Z3_ast a) { Z3_inc_ref(z, a); return a; }
  Z3_ast bv(Expr* e) {
    if (e->bv) return (Z3_ast)e->bv; Z3_ast r;
    auto sort = [&](unsigned w) { return Z3_mk_bv_sort(z, w); };
    switch (e->k) {
      case CONST: if (e->w <= 64) r = Z3_mk_unsigned_int64(z, (u64)e->val, sort(e->w));
        else r = Z3_mk_concat(z, Z3_mk_unsigned_int64(z, (u64)(e->val >> 64), sort(e->w - 64)), Z3_mk_unsigned_int64(z, (u64)e->val, sort(64))); break;
      case VAR: { char n[32]; snprintf(n, 32, "v%u_%u", P.vars[e->aux].idx, e->w); r = Z3_mk_const(z, Z3_mk_string_symbol(z, n), sort(e->w)); break; }
      case ADD: r = Z3_mk_bvadd(z, bv(e->a), bv(e->b)); break; case SUB: r = Z3_mk_bvsub(z, bv(e->a), bv(e->b)); break;
      case MUL: r = Z3_mk_bvmul(z, bv(e->a), bv(e->b)); break;
      case UDIV: r = Z3_mk_bvudiv(z, bv(e->a), bv(e->b)); break; case SDIV: r = Z3_mk_bvsdiv(z, bv(e->a), bv(e->b)); break;
      case UREM: r = Z3_mk_bvurem(z, bv(e->a), bv(e->b)); break; case SREM: r = Z3_mk_bvsrem(z, bv(e->a), bv(e->b)); break;
      case AND: if (e->w == 1) goto viaBool; r = Z3_mk_bvand(z, bv(e->a), bv(e->b)); break;
      case OR: if (e->w == 1) goto viaBool; r = Z3_mk_bvor(z, bv(e->a), bv(e->b)); break;
      case XOR: if (e->w == 1) goto viaBool; r = Z3_mk_bvxor(z, bv(e->a), bv(e->b)); break;
      case SHL: r = Z3_mk_bvshl(z, bv(e->a), bv(e->b)); break; case LSHR: r = Z3_mk_bvlshr(z, bv(e->a), bv(e->b)); break;
      case ASHR: r = Z3_mk_bvashr(z, bv(e->a), bv(e->b)); break;
      case ITE: r = Z3_mk_ite(z, bl(e->a), bv(e->b), bv(e->c)); break;
      case CONCAT: r = Z3_mk_concat(z, bv(e->a), bv(e->b)); break;
      case EXTRACT: r = Z3_mk_extract(z, e->aux + e->w - 1, e->aux, bv(e->a)); break;
      case ZEXT: r = Z3_mk_zero_ext(z, e->w - e->a->w, bv(e->a)); break;
      case SEXT: r = Z3_mk_sign_ext(z, e->w - e->a->w, bv(e->a)); break;
      case FOP: r = fbv(e); break;
      default: viaBool: r = Z3_mk_ite(z, bl(e), Z3_mk_unsigned_int64(z, 1, sort(1)), Z3_mk_unsigned_int64(z, 0, sort(1)));
    }
    e->bv = keep(r); return r;
  }
  Z3_ast bl(Expr* e) {
    if (e->bl) return (Z3_ast)e->bl; Z3_ast r;
    switch (e->k) {
      case CONST: r = e->val ? Z3_mk_true(z) : Z3_mk_false(z); break;
      case EQ: if (e->a->w == 1) r = Z3_mk_iff(z, bl(e->a), bl(e->b)); else r = Z3_mk_eq(z, bv(e->a), bv(e->b)); break;
      case ULT: r = Z3_mk_bvult(z, bv(e->a), bv(e->b)); break; case ULE: r = Z3_mk_bvule(z, bv(e->a), bv(e->b)); break;
      case SLT: r = Z3_mk_bvslt(z, bv(e->a), bv(e->b)); break; case SLE: r = Z3_mk_bvsle(z, bv(e->a), bv(e->b)); break;
      case AND: { Z3_ast t[2] = {bl(e->a), bl(e->b)}; r = Z3_mk_and(z, 2, t); break; }
      case OR: { Z3_ast t[2] = {bl(e->a), bl(e->b)}; r = Z3_mk_or(z, 2, t); break; }
      case XOR: r = e->b->isC() ? (e->b->val ? Z3_mk_not(z, bl(e->a)) : bl(e->a)) : Z3_mk_xor(z, bl(e->a), bl(e->b)); break;
      case ITE: r = Z3_mk_ite(z, bl(e->a), bl(e->b), bl(e->c)); break;
      default: r = Z3_mk_eq(z, bv(e), Z3_mk_unsigned_int64(z, 1, Z3_mk_bv_sort(z, 1)));
    }
    e->bl = keep(r); return r;
  }
  // ---- cache
  struct Res { int r; std::vector<std::pair<u32, u64>> asg; }; // r: 1 sat 0 unsat -1 unknown
  struct VH { size_t operator()(const std::vector<u32>& v) const { size_t h = v.size(); for (u32 x : v) h = (h ^ x) * 0x9E3779B97F4A7C15ull, h ^= h >> 29; return h; } };
  std::unordered_map<std::vector<u32>, Res, VH> cache;
  std::vector<Expr*> slice; std::vector<u64> bits;
  void mkSlice(const std::vector<Expr*>& pc, Expr* c) {
    slice.clear(); bits.assign((P.vars.size() + 63) / 64, 0);
    auto add = [&](VarSet* v) { for (u32 x : v->v) bits[x >> 6] |= 1ull << (x & 63); };
    auto hit = [&](VarSet* v) { for (u32 x : v->v) if (bits[x >> 6] >> (x & 63) & 1) return true; return false; };
    add(c->vs); std::vector<Expr*> rest(pc), nr; bool ch = true;
    while (ch) { ch = false; nr.clear(); for (Expr* e : rest) if (hit(e->vs)) { slice.push_back(e); add(e->vs); ch = true; } else nr.push_back(e); rest.swap(nr); }
    slice.push_back(c);
  }
  // ---- integer view: linear arithmetic with constant divisors, used where bit-blasting divisions does not finish.
  // Every w-bit value is an integer in [0, 2^w); wrap-around and division introduce uniquely defined integers.
  std::string show(Expr* e) { static const char* nm[] = {"const","var","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","ite","concat","extract","zext","sext","fop"};
    if (e->isC()) return dec((i128)e->val) + ":" + std::to_string(e->w); std::string r = std::string("(") + nm[e->k] + ":" + std::to_string(e->w); if (e->k == VAR || e->k == EXTRACT || e->k == FOP) r += " @" + std::to_string(e->aux); for (Expr* x : {e->a, e->b, e->c}) if (x) r += " " + show(x); return r + ")"; }
  struct IV { Z3_ast a; i128 lo, hi; };
  std::unordered_map<Expr*, IV> im; std::unordered_map<Expr*, Z3_ast> ib; std::vector<Z3_ast> defs; bool iok; unsigned fresh = 0; std::unordered_map<u32, std::pair<i128, i128>> vb; u64 intCalls = 0;
  std::unordered_map<Expr*, std::unordered_map<std::string, std::pair<IV, IV>>> dm;
  static std::string dec(i128 v) { if (!v) return "0"; bool n = v < 0; u128 x = n ? (u128)-v : (u128)v; std::string r; while (x) { r = char('0' + (int)(x % 10)) + r; x /= 10; } return n ? "-" + r : r; }
  Z3_ast num(i128 v) { return keep(Z3_mk_numeral(z, dec(v).c_str(), Z3_mk_int_sort(z))); }
  Z3_ast nary(char o, Z3_ast x, Z3_ast y) { Z3_ast t[2] = {x, y}; return keep(o == '+' ? Z3_mk_add(z, 2, t) : o == '-' ? Z3_mk_sub(z, 2, t) : Z3_mk_mul(z, 2, t)); }
  Z3_ast le(Z3_ast x, Z3_ast y) { return keep(Z3_mk_le(z, x, y)); }
  IV freshI(i128 lo, i128 hi) { char n[32]; snprintf(n, 32, "k%u", fresh++); Z3_ast a = keep(Z3_mk_const(z, Z3_mk_string_symbol(z, n), Z3_mk_int_sort(z))); defs.push_back(le(num(lo), a)); defs.push_back(le(a, num(hi))); return {a, lo, hi}; }
  IV wrap(Z3_ast a, i128 lo, i128 hi, unsigned w) { i128 m = (i128)1 << w; if (lo >= 0 && hi < m) return {a, lo, hi};
    auto fl = [&](i128 v) { return v >= 0 ? v / m : -((-v + m - 1) / m); }; IV k = freshI(fl(lo), fl(hi)); Z3_ast r = nary('-', a, nary('*', num(m), k.a)); defs.push_back(le(num(0), r)); defs.push_back(le(r, num(m - 1))); if (k.lo == k.hi) return {r, lo - k.lo * m, hi - k.lo * m}; return {r, 0, m - 1}; }
  std::pair<IV, IV> divc(Expr* e, IV x, i128 c) { auto& q = dm[e]; auto it = q.find(dec(c)); if (it != q.end()) return it->second; IV d = freshI(x.lo / c, x.hi / c), r = freshI(0, std::min(c - 1, x.hi)); defs.push_back(keep(Z3_mk_eq(z, x.a, nary('+', nary('*', num(c), d.a), r.a)))); return q[dec(c)] = {d, r}; }
  IV sgn(Expr* e) { IV x = iv(e); i128 h = (i128)1 << (e->w - 1), m = h * 2; if (x.hi < h) return x; if (x.lo >= h) return {nary('-', x.a, num(m)), x.lo - m, x.hi - m}; return {keep(Z3_mk_ite(z, le(num(h), x.a), nary('-', x.a, num(m)), x.a)), -h, h - 1}; }
  IV iv(Expr* e) {
    auto it = im.find(e); if (it != im.end()) return it->second; IV r{nullptr, 0, 0}; if (e->w > 64) { iok = false; return im[e] = {num(0), 0, 0}; }
    i128 m = (i128)1 << e->w;
    auto isC = [&](Expr* x) { return x->k == CONST; };
    switch (e->k) {
      case CONST: r = {num((i128)e->val), (i128)e->val, (i128)e->val}; break;
      case VAR: { auto b = vb.find(e->aux); i128 lo = 0, hi = m - 1; if (b != vb.end()) { lo = std::max(lo, b->second.first); hi = std::min(hi, b->second.second); } char n[32]; snprintf(n, 32, "i%u_%u", P.vars[e->aux].idx, e->w); Z3_ast a = keep(Z3_mk_const(z, Z3_mk_string_symbol(z, n), Z3_mk_int_sort(z))); defs.push_back(le(num(0), a)); defs.push_back(le(a, num(m - 1))); r = {a, lo, hi}; if (lo > hi) iok = false; break; }
      case ADD: { IV x = iv(e->a), y = iv(e->b); if (isC(e->b) && y.lo >= m / 2 && e->w > 1) { i128 c = m - y.lo; r = wrap(nary('-', x.a, num(c)), x.lo - c, x.hi - c, e->w); } else r = wrap(nary('+', x.a, y.a), x.lo + y.lo, x.hi + y.hi, e->w); break; }
      case SUB: { IV x = iv(e->a), y = iv(e->b); r = wrap(nary('-', x.a, y.a), x.lo - y.hi, x.hi - y.lo, e->w); break; }
      case MUL: { Expr *c = e->b, *v = e->a; if (isC(v)) std::swap(c, v); if (!isC(c)) { iok = false; break; } IV x = iv(v); i128 k = (i128)c->val; if (k >= m / 2) { iok = false; break; } if (x.hi > ((i128)1 << 120) / (k ? k : 1)) { iok = false; break; } r = wrap(nary('*', num(k), x.a), x.lo * k, x.hi * k, e->w); break; }
      case UDIV: case UREM: { if (!isC(e->b) || !e->b->val) { iok = false; break; } auto p = divc(e->a, iv(e->a), (i128)e->b->val); r = e->k == UDIV ? p.first : p.second; break; }
      case SDIV: case SREM: { if (!isC(e->b) || !e->b->val || (i128)e->b->val >= m / 2) { iok = false; break; } IV x = iv(e->a); if (x.hi >= m / 2) { iok = false; break; } auto p = divc(e->a, x, (i128)e->b->val); r = e->k == SDIV ? p.first : p.second; break; }
      case AND: if (e->w > 1 && isC(e->b) && ((e->b->val + 1) & e->b->val) == 0) { r = divc(e->a, iv(e->a), (i128)e->b->val + 1).second; break; } if (e->w == 1) goto viaB; iok = false; break;
      case OR: case XOR: { if (e->w == 1) goto viaB; Expr *x = e->a, *y = e->b; for (int t = 0; t < 2 && !r.a; t++, std::swap(x, y)) { unsigned k = ExprPool::tz(x); IV p = iv(x), q = iv(y); if (k < 64 && q.hi < ((i128)1 << k)) r = wrap(nary('+', p.a, q.a), p.lo + q.lo, p.hi + q.hi, e->w); } if (!r.a) iok = false; break; }
      case NKINDS: case FOP: iok = false; break;
      case SHL: { if (!isC(e->b) || e->b->val >= e->w) { iok = false; break; } IV x = iv(e->a); i128 k = (i128)1 << (unsigned)e->b->val; if (x.hi > ((i128)1 << 120) / k) { iok = false; break; } r = wrap(nary('*', num(k), x.a), x.lo * k, x.hi * k, e->w); break; }
      case LSHR: { if (!isC(e->b) || e->b->val >= e->w) { iok = false; break; } r = divc(e->a, iv(e->a), (i128)1 << (unsigned)e->b->val).first; break; }
      case ITE: { IV x = iv(e->b), y = iv(e->c); r = {keep(Z3_mk_ite(z, ibl(e->a), x.a, y.a)), std::min(x.lo, y.lo), std::max(x.hi, y.hi)}; break; }
      case CONCAT: { IV x = iv(e->a), y = iv(e->b); i128 k = (i128)1 << e->b->w; r = {nary('+', nary('*', num(k), x.a), y.a), x.lo * k + y.lo, x.hi * k + y.hi}; break; }
      case EXTRACT: { IV x = iv(e->a); if (e->aux) x = divc(e->a, x, (i128)1 << e->aux).first; if (x.hi < m) r = x; else { IV q = freshI(0, x.hi / m); Z3_ast a = nary('-', x.a, nary('*', num(m), q.a)); defs.push_back(le(num(0), a)); defs.push_back(le(a, num(m - 1))); r = {a, 0, m - 1}; } break; }
      case ZEXT: r = iv(e->a); break;
      case SEXT: { IV x = sgn(e->a); r = wrap(x.a, x.lo, x.hi, e->w); break; }
      default: viaB: r = {keep(Z3_mk_ite(z, ibl(e), num(1), num(0))), 0, 1};
    }
    if (!r.a) r = {num(0), 0, 0}; return im[e] = r;
  }
  Z3_ast ibl(Expr* e) {
    auto it = ib.find(e); if (it != ib.end()) return it->second; Z3_ast r;
    auto cmp = [&](IV x, IV y, bool strict) { return strict ? Z3_mk_lt(z, x.a, y.a) : Z3_mk_le(z, x.a, y.a); };
    switch (e->k) {
      case CONST: r = e->val ? Z3_mk_true(z) : Z3_mk_false(z); break;
      case EQ: if (e->a->w == 1) r = Z3_mk_iff(z, ibl(e->a), ibl(e->b)); else r = Z3_mk_eq(z, iv(e->a).a, iv(e->b).a); break;
      case ULT: r = cmp(iv(e->a), iv(e->b), true); break; case ULE: r = cmp(iv(e->a), iv(e->b), false); break;
      case SLT: r = cmp(sgn(e->a), sgn(e->b), true); break; case SLE: r = cmp(sgn(e->a), sgn(e->b), false); break;
      case AND: { Z3_ast t[2] = {ibl(e->a), ibl(e->b)}; r = Z3_mk_and(z, 2, t); break; }
      case OR: { Z3_ast t[2] = {ibl(e->a), ibl(e->b)}; r = Z3_mk_or(z, 2, t); break; }
      case XOR: r = Z3_mk_xor(z, ibl(e->a), ibl(e->b)); break;
      case ITE: r = Z3_mk_ite(z, ibl(e->a), ibl(e->b), ibl(e->c)); break;
      default: r = Z3_mk_eq(z, iv(e).a, num(1));
    }
    return ib[e] = keep(r);
  }
  bool hasDiv(Expr* e, std::unordered_set<Expr*>& seen) { if (!e || !seen.insert(e).second) return false; if ((e->k == UDIV || e->k == SDIV || e->k == UREM || e->k == SREM) && e->w >= 24 && e->b->isC() && (e->b->val & (e->b->val - 1))) return true; return (e->a && hasDiv(e->a, seen)) || (e->b && hasDiv(e->b, seen)) || (e->c && hasDiv(e->c, seen)); }
  bool hasFop(Expr* e, std::unordered_set<Expr*>& seen) { if (!e || !seen.insert(e).second) return false; return e->k == FOP || hasFop(e->a, seen) || hasFop(e->b, seen) || hasFop(e->c, seen); }
  Z3_lbool intCheck(Res& R) {
    im.clear(); ib.clear(); defs.clear(); dm.clear(); vb.clear(); iok = true;
    auto bd = [&](Expr* v, bool up, i128 c) { auto& p = vb.emplace(v->aux, std::make_pair((i128)0, ((i128)1 << 100))).first->second; if (up) p.second = std::min(p.second, c); else p.first = std::max(p.first, c); };
    for (Expr* e : slice) { bool neg = e->k == XOR && e->b->isC() && e->b->val == 1; Expr* q = neg ? e->a : e; if (q->k != ULE && q->k != ULT) continue; Expr *x = q->a, *y = q->b; bool st = q->k == ULT; if (neg) { std::swap(x, y); st = !st; } // x < y or x <= y
      if (x->k == VAR && y->isC()) bd(x, true, (i128)y->val - st); if (y->k == VAR && x->isC()) bd(y, false, (i128)x->val + st); }
    std::vector<Z3_ast> as; for (Expr* e : slice) as.push_back(ibl(e)); if (!iok) { if (getenv("PSX_DBG")) for (Expr* e : slice) fprintf(stderr, "int view fails: %s\n", show(e).c_str()); return Z3_L_UNDEF; } intCalls++;
    Z3_solver q = Z3_mk_simple_solver(z); Z3_solver_inc_ref(z, q); Z3_params pr = Z3_mk_params(z); Z3_params_inc_ref(z, pr); Z3_params_set_uint(z, pr, Z3_mk_string_symbol(z, "timeout"), 30000); Z3_solver_set_params(z, q, pr); Z3_params_dec_ref(z, pr);
    for (auto a : defs) Z3_solver_assert(z, q, a); for (auto a : as) Z3_solver_assert(z, q, a);
    Z3_lbool lb = Z3_solver_check(z, q);
    if (lb == Z3_L_TRUE) { Z3_model m = Z3_solver_get_model(z, q); Z3_model_inc_ref(z, m); auto mm = std::make_shared<Model>();
      for (u32 w = 0; w < bits.size(); w++) for (u64 b = bits[w]; b; b &= b - 1) { u32 id = w * 64 + __builtin_ctzll(b); Expr* v = P.vars[id].e; u64 val = 0; Z3_ast o; auto it = im.find(v); if (it != im.end() && Z3_model_eval(z, m, it->second.a, true, &o)) { Z3_inc_ref(z, o); Z3_get_numeral_uint64(z, o, (uint64_t*)&val); Z3_dec_ref(z, o); } R.asg.push_back({id, val}); if (mm->size() <= id) mm->resize(id + 1); (*mm)[id] = val; }
      Z3_model_dec_ref(z, m); for (Expr* e : slice) if (!eval(e, mm)) { fprintf(stderr, "psx: integer model does not satisfy the bit-vector query\n"); R.asg.clear(); lb = Z3_L_UNDEF; break; } }
    Z3_solver_dec_ref(z, q); return lb;
  }
  Res* check(const std::vector<Expr*>& pc, Expr* c) {
    queries++; mkSlice(pc, c);
    std::vector<u32> key; for (Expr* e : slice) key.push_back(e->id);
    std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
    auto it = cache.find(key); if (it != cache.end()) { cacheHits++; return &it->second; }
    Res& R = cache[key];
    auto t0 = std::chrono::steady_clock::now(); z3calls++;
    { std::unordered_set<Expr*> seen; bool d = false; for (Expr* e : slice) d |= hasDiv(e, seen); if (d) { Z3_lbool lb = intCheck(R); if (lb != Z3_L_UNDEF) { R.r = lb == Z3_L_TRUE; (R.r ? satN : unsatN)++; z3time += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); return &R; } } }
    bool fp = false; { std::unordered_set<Expr*> seen; for (Expr* e : slice) fp |= hasFop(e, seen); } Z3_solver main = s; if (fp) { s = Z3_mk_solver_for_logic(z, Z3_mk_string_symbol(z, "QF_FPBV")); Z3_solver_inc_ref(z, s); Z3_params pr = Z3_mk_params(z); Z3_params_inc_ref(z, pr); Z3_params_set_uint(z, pr, Z3_mk_string_symbol(z, "timeout"), 300000); Z3_solver_set_params(z, s, pr); Z3_params_dec_ref(z, pr); } else Z3_solver_push(z, s);
    for (Expr* e : slice) Z3_solver_assert(z, s, bl(e)); Z3_lbool lb = Z3_solver_check(z, s);
    if (lb == Z3_L_TRUE) { R.r = 1; satN++; Z3_model m = Z3_solver_get_model(z, s); Z3_model_inc_ref(z, m);
      for (u32 w = 0; w < bits.size(); w++) for (u64 b = bits[w]; b; b &= b - 1) { u32 id = w * 64 + __builtin_ctzll(b); Expr* v = P.vars[id].e; Z3_ast o; u64 val = 0;
        if (Z3_model_eval(z, m, bv(v), true, &o)) { Z3_inc_ref(z, o); Z3_get_numeral_uint64(z, o, (uint64_t*)&val); Z3_dec_ref(z, o); } R.asg.push_back({id, val}); }
      Z3_model_dec_ref(z, m); }
    else if (lb == Z3_L_FALSE) { R.r = 0; unsatN++; } else { R.r = -1; unknownN++; }
    if (fp) { Z3_solver_dec_ref(z, s); s = main; } else Z3_solver_pop(z, s, 1);
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); z3time += dt;
    if (dt > 0.5 && getenv("PSX_SLOW")) { fprintf(stderr, "slow query %.1f s\n", dt); for (Expr* e : slice) fprintf(stderr, "  %s\n", show(e).substr(0, 1500).c_str()); }
    return &R;
  }
};
