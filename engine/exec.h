// Execution, builtins, unwinding, threads, state matching, driver.
static inline Val rd(Frame* f, const Opnd& o) { return o.slot >= 0 ? f->regs[o.slot] : o.c; }
static inline void wr(Frame* f, int d, const Val& v) { f->regs[d] = v; }
static void takeEdge(State& s, Frame* f, Edge& e) {
  if (e.copies.size() == 1) { Val v = rd(f, e.copies[0].second); f->regs[e.copies[0].first] = v; }
  else if (!e.copies.empty()) { static std::vector<Val> tmp; tmp.clear(); for (auto& c : e.copies) tmp.push_back(rd(f, c.second)); for (size_t i = 0; i < tmp.size(); i++) f->regs[e.copies[i].first] = tmp[i]; }
  f->pc = e.target;
}
static Val binop(State& s, Kind k, unsigned w, const Val& a, const Val& b) {
  if (w <= 64 && !a.e && !b.e) {
    u64 m = mask64(w), x = a.c, y = b.c;
    switch (k) {
      case ADD: return cv((x + y) & m); case SUB: return cv((x - y) & m); case MUL: return cv((x * y) & m); case AND: return cv(x & y); case OR: return cv(x | y); case XOR: return cv(x ^ y);
      case SHL: return cv(y >= w ? 0 : (x << y) & m); case LSHR: return cv(y >= w ? 0 : x >> y);
      case UDIV: if (!y) violation(s, "divzero", "division by zero"); return cv(x / y); case UREM: if (!y) violation(s, "divzero", "division by zero"); return cv(x % y);
      default: break;
    }
  }
  if (k == UDIV || k == SDIV || k == UREM || k == SREM) if (branch(s, P.bin(EQ, toE(b, w), P.C(0, w)))) violation(s, "divzero", "division by zero");
  return mkV(P.bin(k, toE(a, w), toE(b, w)));
}
static Val icmp(unsigned p, unsigned w, const Val& a, const Val& b) {
  if (w <= 64 && !a.e && !b.e) {
    u64 x = a.c, y = b.c; i64 sxv = (i64)sx(x, w), syv = (i64)sx(y, w);
    switch (p) { case CmpInst::ICMP_EQ: return cv(x == y); case CmpInst::ICMP_NE: return cv(x != y); case CmpInst::ICMP_ULT: return cv(x < y); case CmpInst::ICMP_ULE: return cv(x <= y); case CmpInst::ICMP_UGT: return cv(x > y); case CmpInst::ICMP_UGE: return cv(x >= y);
      case CmpInst::ICMP_SLT: return cv(sxv < syv); case CmpInst::ICMP_SLE: return cv(sxv <= syv); case CmpInst::ICMP_SGT: return cv(sxv > syv); case CmpInst::ICMP_SGE: return cv(sxv >= syv); }
  }
  Expr *x = toE(a, w), *y = toE(b, w); Expr* r;
  switch (p) { case CmpInst::ICMP_EQ: r = P.bin(EQ, x, y); break; case CmpInst::ICMP_NE: r = P.Not(P.bin(EQ, x, y)); break; case CmpInst::ICMP_ULT: r = P.bin(ULT, x, y); break; case CmpInst::ICMP_ULE: r = P.bin(ULE, x, y); break; case CmpInst::ICMP_UGT: r = P.bin(ULT, y, x); break; case CmpInst::ICMP_UGE: r = P.bin(ULE, y, x); break;
    case CmpInst::ICMP_SLT: r = P.bin(SLT, x, y); break; case CmpInst::ICMP_SLE: r = P.bin(SLE, x, y); break; case CmpInst::ICMP_SGT: r = P.bin(SLT, y, x); break; default: r = P.bin(SLE, y, x); }
  return mkV(r);
}
static Val fop(unsigned op, unsigned w, unsigned sw, const Val& a, const Val* b = nullptr) { if (sw != 32 && sw != 64 && sw != 80 && op != F_S2F && op != F_U2F || (op >= F_F2F && op <= F_U2F && w != 32 && w != 64 && w != 80)) unsup("floating-point format"); if ((op == F_S2F || op == F_U2F) && sw > 64) unsup("wide integer to floating point"); return mkV(P.fop(op, w, toE(a, sw), b ? toE(*b, sw) : nullptr)); }
static Val fneg(const Val& a, unsigned w) { return mkV(P.bin(XOR, toE(a, w), P.C((u128)1 << (w - 1), w))); } static Val fabsV(const Val& a, unsigned w) { return mkV(P.bin(AND, toE(a, w), P.C(maskW(w) >> 1, w))); }

static u32 tlsObj(State& s, u32 idx) {
  auto k = std::make_pair(s.cur, idx); auto it = s.tls.find(k); if (it != s.tls.end()) return it->second;
  const GlobalVariable* gv = tlsGvs[idx]; u64 sz = DL->getTypeAllocSize(gv->getValueType()); u32 id = newObj(s, sz, OK_GLOBAL, false); s.tls[k] = id;
  if (gv->hasInitializer()) { std::vector<Leaf> l; std::vector<Val> v; flatten(gv->getValueType(), 0, l); constVals((Constant*)gv->getInitializer(), v); for (size_t i = 0; i < l.size(); i++) storeAt(s, id, l[i].off, v[i], l[i].w, l[i].bytes); }
  return id;
}
static void pushCall(State& s, FnInfo* f, const Val* args, unsigned nargs) {
  if (!f->decoded) decode(f);
  if (s.st().size() > 4000) violation(s, "stack", "stack overflow (unbounded recursion)");
  Frame* n = new Frame; n->f = f; n->regs.resize(f->nslots, cv(0)); for (unsigned i = 0; i < nargs && i < f->nparamLeaves; i++) n->regs[i] = args[i]; s.st().push_back(n);
}
static void popFrame(State& s) { Frame* f = s.st().back(); for (u32 a : f->allocas) s.mem.kill(a); s.st().pop_back(); State::decF(f); }
// finish a call instruction in the top frame with a return value
static void finishCall(State& s, Frame* f, Inst& in, const Val* rv, unsigned n) {
  for (unsigned i = 0; i < in.retLeaves && i < n; i++) f->regs[in.dst + i] = rv[i];
  if (in.isInvoke) takeEdge(s, f, f->f->edges[in.edges[0]]); else f->pc++;
}
static void doIntrinsic(State& s, Frame* f, Inst& in) {
  Val a[8]; for (unsigned i = 0; i < in.ops.size() && i < 8; i++) a[i] = rd(f, in.ops[i]); unsigned w = in.w; Val r = cv(0);
  auto E = [&](int i) { return toE(a[i], w); };
  switch (in.sub) {
    case IN_MEMCPY: { u64 n = concretize(s, a[2], 64), d = concretize(s, a[0], 64), q = concretize(s, a[1], 64); copyBytes(s, d, q, n); f->pc++; return; }
    case IN_MEMSET: { u64 n = concretize(s, a[2], 64), d = concretize(s, a[0], 64); if (n) { Loc l = resolve(s, cv(d), n, true); if (s.race) touch(s, l.obj, l.off, n, 2); for (u64 i = 0; i < n; i++) storeAt(s, l.obj, l.off + i, a[1], 8, 1); } f->pc++; return; }
    case IN_UADDO: { Expr* x = P.bin(ADD, E(0), E(1)); f->regs[in.dst] = mkV(x); f->regs[in.dst + 1] = mkV(P.bin(ULT, x, E(0))); f->pc++; return; }
    case IN_USUBO: f->regs[in.dst] = mkV(P.bin(SUB, E(0), E(1))); f->regs[in.dst + 1] = mkV(P.bin(ULT, E(0), E(1))); f->pc++; return;
    case IN_UMULO: { if (w > 64) unsup("umulo wide"); Expr* x = P.bin(MUL, P.zext(E(0), 2 * w), P.zext(E(1), 2 * w)); f->regs[in.dst] = mkV(P.extract(x, 0, w)); f->regs[in.dst + 1] = mkV(P.Not(P.bin(EQ, P.extract(x, w, w), P.C(0, w)))); f->pc++; return; }
    case IN_SADDO: case IN_SSUBO: { Kind k = in.sub == IN_SADDO ? ADD : SUB; Expr* x = P.bin(k, P.sext(E(0), w + 1), P.sext(E(1), w + 1)); Expr* y = P.extract(x, 0, w); f->regs[in.dst] = mkV(y); f->regs[in.dst + 1] = mkV(P.Not(P.bin(EQ, P.sext(y, w + 1), x))); f->pc++; return; }
    case IN_SMULO: { if (w > 64) unsup("smulo wide"); Expr* x = P.bin(MUL, P.sext(E(0), 2 * w), P.sext(E(1), 2 * w)); Expr* y = P.extract(x, 0, w); f->regs[in.dst] = mkV(y); f->regs[in.dst + 1] = mkV(P.Not(P.bin(EQ, P.sext(y, 2 * w), x))); f->pc++; return; }
    case IN_UMAX: r = mkV(pickIte(s, P.bin(ULT, E(0), E(1)), E(1), E(0))); break; case IN_UMIN: r = mkV(pickIte(s, P.bin(ULT, E(1), E(0)), E(1), E(0))); break;
    case IN_SMAX: r = mkV(pickIte(s, P.bin(SLT, E(0), E(1)), E(1), E(0))); break; case IN_SMIN: r = mkV(pickIte(s, P.bin(SLT, E(1), E(0)), E(1), E(0))); break;
    case IN_ABS: r = mkV(P.ite(P.bin(SLT, E(0), P.C(0, w)), P.bin(SUB, P.C(0, w), E(0)), E(0))); break;
    case IN_CTPOP: { Expr* x = P.C(0, w); for (unsigned i = 0; i < w; i++) x = P.bin(ADD, x, P.zext(P.extract(E(0), i, 1), w)); r = mkV(x); break; }
    case IN_CTLZ: { Expr* x = P.C(w, w); for (unsigned i = 0; i < w; i++) x = P.ite(P.extract(E(0), i, 1), P.C(w - 1 - i, w), x); r = mkV(x); break; }
    case IN_CTTZ: { Expr* x = P.C(w, w); for (int i = w - 1; i >= 0; i--) x = P.ite(P.extract(E(0), i, 1), P.C(i, w), x); r = mkV(x); break; }
    case IN_BSWAP: { Expr* x = P.extract(E(0), 0, 8); for (unsigned i = 1; i < w / 8; i++) x = P.concat(x, P.extract(E(0), i * 8, 8)); r = mkV(x); break; }
    case IN_FSHL: case IN_FSHR: { if (w > 64) unsup("fsh wide"); Expr* sh = P.bin(UREM, E(2), P.C(w, w)); Expr* x = P.concat(E(0), E(1)); Expr* s2 = P.zext(sh, 2 * w); r = in.sub == IN_FSHL ? mkV(P.extract(P.bin(SHL, x, s2), w, w)) : mkV(P.extract(P.bin(LSHR, x, s2), 0, w)); break; }
    case IN_UADDSAT: { Expr* x = P.bin(ADD, E(0), E(1)); r = mkV(P.ite(P.bin(ULT, x, E(0)), P.C(~(u128)0, w), x)); break; }
    case IN_USUBSAT: r = mkV(P.ite(P.bin(ULT, E(0), E(1)), P.C(0, w), P.bin(SUB, E(0), E(1)))); break;
    case IN_RETARG: r = a[0]; break; case IN_OBJSIZE: r = cv(mask64(w)); break; case IN_ISCONST: r = cv(0); break; case IN_STACKSAVE: r = cv(0); break;
    case IN_TRAP: violation(s, "trap", "trap reached (undefined behaviour or __builtin_trap)");
    case IN_TYPEID: r = cv((u32)((a[0].c >> 32) - OBJBASE + 1)); break;
    case IN_TLS: r = cv(addrOf(tlsObj(s, in.imm))); break;
    case IN_VASTART: { u64 p = concretize(s, a[0], 64); stc(s, p, 48, 4); stc(s, p + 4, 176, 4); stc(s, p + 8, f->vaObj); stc(s, p + 16, 0); f->pc++; return; }
    case IN_VACOPY: { u64 d = concretize(s, a[0], 64), q = concretize(s, a[1], 64); copyBytes(s, d, q, 24); f->pc++; return; }
    case IN_LTSTART: case IN_LTEND: { u64 p = a[1].c; u32 id; Obj* o = objAt(s, p, id); if (o && o->kind == OK_STACK && (p & 0xffffffff) == 0) { Obj* q = s.mem.getW(id);
        q->alive = in.sub == IN_LTSTART; free(q->sym); q->sym = nullptr; memset(q->data, 0, q->size); if (!q->un) q->un = (u8*)malloc(q->size ? q->size : 1); memset(q->un, 1, q->size); } f->pc++; return; }
    case IN_FABS: r = fabsV(a[0], w); break; case IN_FROUND: r = fop(in.imm, w, w, a[0]); break;
    case IN_COPYSIGN: { u128 sg = (u128)1 << (w - 1); r = mkV(P.bin(OR, P.bin(AND, toE(a[0], w), P.C(sg - 1, w)), P.bin(AND, toE(a[1], w), P.C(sg, w)))); break; }
    case IN_FMINMAX: { Val lt = in.imm ? fop(F_LT, 1, w, a[0], &a[1]) : fop(F_LT, 1, w, a[1], &a[0]), nan = fop(F_UNO, 1, w, a[0], &a[0]); r = mkV(P.ite(P.bin(OR, toE(lt, 1), toE(nan, 1)), toE(a[1], w), toE(a[0], w))); break; }
    default: unsup("intrinsic");
  }
  f->regs[in.dst] = r; f->pc++;
}
// ---- exceptions ---------------------------------------------------------
static u64 symAddr(const char* n) { auto* g = M->getNamedGlobal(n); if (!g) return 0; auto it = gvObj.find(g); return it == gvObj.end() ? 0 : addrOf(it->second); }
static u64 vtSI, vtVMI, vtCLS, vtPTR;
static bool tiMatch(State& s, u64 thrown, u64 want, u64& adj) { // adj: pointer to thrown object
  if (thrown == want) return true;
  u64 vt = ldc(s, thrown) & ~0xffffffffull;
  if (vt == vtSI) return tiMatch(s, ldc(s, thrown + 16), want, adj);
  if (vt == vtVMI) { u64 n = ldc(s, thrown + 20, 4); for (u64 i = 0; i < n; i++) { u64 base = ldc(s, thrown + 24 + 16 * i); i64 fl = (i64)ldc(s, thrown + 32 + 16 * i); if (!(fl & 2)) continue; u64 a2 = adj; if (fl & 1) { u64 vp = ldc(s, adj); a2 += (i64)ldc(s, vp + (fl >> 8)); } else a2 += fl >> 8; if (tiMatch(s, base, want, a2)) { adj = a2; return true; } } }
  return false;
}
static FnInfo* fnByName(const char* n) { Function* F = M->getFunction(n); if (!F || F->isDeclaration()) unsup(std::string("missing runtime function ") + n); return fnOf(F); }
// exn: address of thrown object (header 128 bytes before). Unwinds the current thread, starting below `skip` frames (already popped).
static void unwind(State& s, u64 exn, u64 tinfo) {
  auto& st = s.st();
  // search phase
  int handler = -1;
  for (int i = st.size() - 1; i >= 0 && handler < 0; i--) {
    Frame* f = st[i]; Inst& in = f->f->code[f->pc]; if (in.op != I_CALL || !in.isInvoke) continue;
    Inst& lp = f->f->code[f->f->edges[in.edges[1]].target]; u64 adj;
    size_t k = 0; while (k < lp.clauses.size()) {
      if (lp.clauses[k].first == 0) { adj = exn; if (!lp.clauses[k].second || tiMatch(s, tinfo, lp.clauses[k].second, adj)) { handler = i; break; } k++; }
      else { bool in2 = false; while (lp.clauses[k].first == 1) { adj = exn; if (tiMatch(s, tinfo, lp.clauses[k].second, adj)) in2 = true; k++; } k++; if (!in2) { handler = i; break; } } }
  }
  if (handler < 0) { std::string nm = "?"; auto it = objGv.find((tinfo >> 32) - OBJBASE); if (it != objGv.end()) nm = demangle(it->second->getName().str()); violation(s, "terminate", "uncaught exception of type " + nm + " (std::terminate)"); }
  for (int i = st.size() - 1; i >= handler; i--) {
    { Frame* g = st[i]; Inst& in = g->f->code[g->pc]; 
      if (in.op == I_CALL && in.isInvoke) {
        Frame* f = s.top(); Inst& lp = f->f->code[f->f->edges[in.edges[1]].target]; i64 sel = 0; bool land = lp.sub; u64 adj = exn;
        size_t k = 0; while (k < lp.clauses.size()) {
          if (lp.clauses[k].first == 0) { adj = exn; if (!lp.clauses[k].second) { sel = 1; land = true; break; } if (tiMatch(s, tinfo, lp.clauses[k].second, adj)) { sel = (u32)((lp.clauses[k].second >> 32) - OBJBASE + 1); land = true; break; } k++; }
          else { bool in2 = false; adj = exn; while (lp.clauses[k].first == 1) { u64 a2 = exn; if (tiMatch(s, tinfo, lp.clauses[k].second, a2)) in2 = true; k++; } k++; if (!in2) { sel = -1; land = true; break; } } }
        if (land) { stc(s, exn - 128 + 48, adj); takeEdge(s, f, f->f->edges[in.edges[1]]);
          int d = lp.dst; if (d >= 0) { f->regs[d] = cv(exn); f->regs[d + 1] = cv((u32)sel); } f->pc++; return; }
      } }
    popFrame(s);
  }
  unsup("unwind internal");
}
// ---- liveness for state matching -----------------------------------------
static void computeLive(FnInfo* f) {
  if (f->liveDone) return; f->liveDone = true; size_t n = f->code.size(), W = (f->nslots + 63) / 64; std::vector<std::vector<u64>> in(n, std::vector<u64>(W, 0)); bool ch = true;
  auto use = [&](std::vector<u64>& v, const Opnd& o) { if (o.slot >= 0) v[o.slot >> 6] |= 1ull << (o.slot & 63); };
  auto edgeIn = [&](int e) { Edge& ed = f->edges[e]; std::vector<u64> v = in[ed.target]; for (auto& c : ed.copies) v[c.first >> 6] &= ~(1ull << (c.first & 63)); for (auto& c : ed.copies) use(v, c.second); return v; };
  std::vector<std::vector<u64>> out(n);
  while (ch) { ch = false;
    for (int i = n - 1; i >= 0; i--) { Inst& I = f->code[i]; std::vector<u64> o(W, 0); bool term = I.op == I_BR || I.op == I_CBR || I.op == I_SWITCH || I.op == I_RET || I.op == I_UNREACH || I.op == I_RESUME || (I.op == I_CALL && I.isInvoke);
      if (term) { for (int e : I.edges) { auto v = edgeIn(e); for (size_t k = 0; k < W; k++) o[k] |= v[k]; } } else if (i + 1 < (int)n) o = in[i + 1];
      out[i] = o; unsigned nd = I.op == I_CALL ? I.retLeaves : I.op == I_LPAD ? 2 : I.op == I_LOAD || I.op == I_SELECT ? I.leaves.size() : I.op == I_COPY || I.op == I_BIN || I.op == I_ICMP || I.op == I_CAST ? std::max(1u, I.n) : 1; if (I.sub && I.op == I_CALL && !I.callee) nd = std::max(1u, I.retLeaves);
      if (I.dst >= 0) for (unsigned k = 0; k < nd; k++) o[(I.dst + k) >> 6] &= ~(1ull << ((I.dst + k) & 63)); 
      for (auto& op : I.ops) use(o, op); if (o != in[i]) { in[i] = o; ch = true; } } }
  for (size_t i = 0; i < n; i++) if (f->code[i].op == I_CALL) { Inst& I = f->code[i]; auto* v = new std::vector<u64>(out[i]); if (I.dst >= 0) for (unsigned k = 0; k < I.retLeaves; k++) (*v)[(I.dst + k) >> 6] &= ~(1ull << ((I.dst + k) & 63)); I.live = v; }
}
struct H128 { u64 a = 0x243F6A8885A308D3ull, b = 0x13198A2E03707344ull; void add(u64 x) { a = (a ^ x) * 0x9E3779B97F4A7C15ull; a ^= a >> 32; b = (b + x) * 0xC2B2AE3D27D4EB4Full; b ^= b >> 29; a += b; } };
static std::set<std::pair<u64, u64>> seenStates;
static std::vector<u32> writableGlobals;
static std::pair<u64, u64> hashState(State& s) {
  H128 h; std::unordered_map<u32, u32> canon; std::vector<u32> q;
  auto val = [&](u64 x) { u32 hi = x >> 32; if (hi >= OBJBASE && hi < OBJBASE + s.mem.next) { u32 id = hi - OBJBASE; auto it = canon.find(id); u32 c; if (it == canon.end()) { c = canon.size(); canon[id] = c; q.push_back(id); } else c = it->second; h.add(0x1234567800000000ull + c); h.add((u32)x); } else { h.add(x); } };
  h.add(s.cur); h.add(s.th.size());
  for (u32 g : writableGlobals) { canon[g] = canon.size(); q.push_back(g); }
  for (u32 ti = 0; ti < s.th.size(); ti++) { auto& t = s.th[ti]; h.add(0xABC0 + t.alive); h.add(t.st.size());
    for (auto* f : t.st) { computeLive(f->f); h.add(f->f->id); h.add(f->pc); Inst& in = f->f->code[f->pc];
      if (in.op == I_CALL && in.live) { auto& lv = *in.live; for (size_t k = 0; k < lv.size(); k++) for (u64 b = lv[k]; b; b &= b - 1) { u32 sl = k * 64 + __builtin_ctzll(b); Val& v = f->regs[sl]; h.add(sl); if (v.e) { h.add(0x777); h.add(v.e->id); } else val(v.c); } }
      else for (auto& v : f->regs) { if (v.e) { h.add(0x777); h.add(v.e->id); } else val(v.c); } } }
  for (auto& t : s.tls) { h.add(t.first.first); h.add(t.first.second); val(addrOf(t.second)); }
  for (size_t i = 0; i < q.size(); i++) { Obj* o = s.mem.get(q[i]); if (!o) { h.add(0xD0D0); continue; } h.add(o->size); h.add(o->alive); if (!o->alive || o->ro) { if (o->ro && o->alive) h.add(q[i]); continue; }
    for (u32 j = 0; j < o->size;) {
      bool w8 = j + 8 <= o->size && j % 8 == 0; 
      if (w8) for (u32 k = 0; k < 8; k++) if ((o->sym && o->sym[j + k].e) || (o->un && o->un[j + k])) w8 = false;
      if (w8) { u64 x; memcpy(&x, o->data + j, 8); val(x); j += 8; continue; }
      if (o->un && o->un[j]) h.add(0xEEEE); else if (o->sym && o->sym[j].e) { h.add(0x5555); h.add(o->sym[j].e->id); h.add(o->sym[j].idx); } else h.add(o->data[j]); j++; } }
  if (s.race) for (u32 t = 0; t < s.foot.size(); t++) if (s.foot[t]) { std::vector<std::pair<u32, u32>> l; for (auto& p : s.foot[t]->o) { Obj* o = s.mem.get(p.first); if (!o || !o->alive) continue; auto it = canon.find(p.first); l.push_back({it == canon.end() ? 0xffffff : it->second, p.first}); } std::sort(l.begin(), l.end()); h.add(0xF007 + t);
    for (auto& q2 : l) { if (q2.first == 0xffffff) continue; h.add(q2.first); for (u8 b : s.foot[t]->o[q2.second]) h.add(b); } }
  std::vector<u32> ids; for (Expr* e : s.pc) if (!allFixed(s, e->vs)) ids.push_back(e->id); std::sort(ids.begin(), ids.end()); for (u32 i : ids) h.add(i);
  return {h.a, h.b};
}
// ---- one step -----------------------------------------------------------
static void doCall(State& s, Frame* f, Inst& in) {
  if (in.sub) { doIntrinsic(s, f, in); return; }
  Val argbuf[64]; unsigned b0 = in.callee ? 0 : 1, na = in.ops.size() - b0; if (na > 64) unsup("too many args");
  FnInfo* cal = in.callee;
  if (!cal) { u64 p = concretize(s, rd(f, in.ops[0]), 64); u32 hi = p >> 32; if (hi < FNBASE || hi - FNBASE >= fns.size() || (p & 0xffffffff)) violation(s, "memory", "call through an invalid function pointer: " + ptrDesc(s, p)); cal = fns[hi - FNBASE]; }
  for (unsigned i = 0; i < na; i++) argbuf[i] = rd(f, in.ops[b0 + i]);
  if (cal->bi) { Val rv[2] = {cv(0), cv(0)}; if (cal->bi(s, in, argbuf, rv[0])) { Frame* f2 = s.top(); finishCall(s, f2, in, rv, in.retLeaves ? 1 : 0); } return; }
  if (cal->isDecl) { unsup("external function " + demangle(cal->name)); }
  // byval copies
  std::vector<u32> bv; unsigned k = 0; 
  for (unsigned i = 0; i < in.argLeaves.size(); i++) { if (in.byvalSize[i]) { u32 id = newObj(s, in.byvalSize[i], OK_STACK, false); u64 src = concretize(s, argbuf[k], 64); copyBytes(s, addrOf(id), src, in.byvalSize[i]); argbuf[k] = cv(addrOf(id)); bv.push_back(id); } k += in.argLeaves[i]; }
  u64 va = 0; 
  if (cal->F->isVarArg()) { unsigned fx = 0; for (unsigned i = 0; i < in.nfixed; i++) fx += in.argLeaves[i]; u32 id = newObj(s, 8 * (na - fx) + 8, OK_STACK, false); for (unsigned i = fx; i < na; i++) storeAt(s, id, 8 * (i - fx), argbuf[i].e && argbuf[i].e->w < 64 ? mkV(P.zext(argbuf[i].e, 64)) : argbuf[i], 64, 8); va = addrOf(id); bv.push_back(id); }
  pushCall(s, cal, argbuf, na); Frame* n = s.st().back(); n->vaObj = va; n->allocas = bv;
}
static void runState(State& s) {
  for (;;) {
    Frame* f = s.top(); Inst& in = f->f->code[f->pc]; nInstr++; if (++s.steps > limInstr) violation(s, "nontermination", "instruction limit exceeded (" + std::to_string(limInstr) + " instructions on one path)");
    if (in.line >= 0) lineHit[in.line] = 1;
    switch (in.op) {
      case I_BIN: for (u32 i = 0; i < in.n; i++) { Val a = rd(f, in.ops[i]), b = rd(f, in.ops[in.n + i]); f->regs[in.dst + i] = binop(s, (Kind)in.sub, in.w, a, b); } f->pc++; break;
      case I_ICMP: for (u32 i = 0; i < in.n; i++) f->regs[in.dst + i] = icmp(in.sub, in.w, rd(f, in.ops[i]), rd(f, in.ops[in.n + i])); f->pc++; break;
      case I_CAST: for (u32 i = 0; i < in.n; i++) { Val a = rd(f, in.ops[i]); 
          if (in.w == in.w2) {} else if (in.w < in.w2) a = a.e ? mkV(P.extract(a.e, 0, in.w)) : cv(a.c & mask64(in.w));
          else if (in.sub) a = (a.e || in.w > 64) ? mkV(P.sext(toE(a, in.w2), in.w)) : cv((u64)sx(a.c, in.w2) & mask64(in.w));
          else a = (a.e || in.w > 64) ? mkV(P.zext(toE(a, in.w2), in.w)) : a;
          if (!a.e && in.w > 64) a.e = P.C(a.c, in.w); f->regs[in.dst + i] = a; } f->pc++; break;
      case I_SELECT: { u32 nl = in.leaves.size(); for (u32 i = 0; i < nl; i++) { Val c = rd(f, in.ops[in.imm == 1 ? 0 : i]); Val a = rd(f, in.ops[in.imm + i]), b = rd(f, in.ops[in.imm + nl + i]); unsigned w = in.leaves[i].w;
          if (c.e) { int d = decided(s, c.e); if (d >= 0) c = cv(d); }
          f->regs[in.dst + i] = c.e ? mkV(P.ite(c.e, toE(a, w), toE(b, w))) : c.c ? a : b; if (w > 64 && !f->regs[in.dst + i].e) abort(); } f->pc++; break; }
      case I_LOAD: { Val p = rd(f, in.ops[0]); if (in.sub && p.e) p = cv(concretize(s, p, 64)); if (in.leaves.size() == 1) { Val v = loadV(s, p, in.leaves[0].w, in.leaves[0].bytes, in.asyncKind); f->regs[in.dst] = v; } else { u64 a = concretize(s, p, 64); for (size_t i = 0; i < in.leaves.size(); i++) f->regs[in.dst + i] = loadV(s, cv(a + in.leaves[i].off), in.leaves[i].w, in.leaves[i].bytes); } f->pc++; break; }
      case I_STORE: { Val p = rd(f, in.ops[0]); if (in.leaves.size() == 1) { storeV(s, p, rd(f, in.ops[1]), in.leaves[0].w, in.leaves[0].bytes, in.asyncKind); if (in.asyncKind == 2 && s.race) release(s, s.cur); } else { u64 a = concretize(s, p, 64); for (size_t i = 0; i < in.leaves.size(); i++) storeV(s, cv(a + in.leaves[i].off), rd(f, in.ops[1 + i]), in.leaves[i].w, in.leaves[i].bytes); } f->pc++; break; }
      case I_GEP: { Val p = rd(f, in.ops[0]); bool sym = p.e != nullptr; for (size_t i = 1; i < in.ops.size(); i++) if (in.ops[i].slot >= 0 && f->regs[in.ops[i].slot].e) sym = true;
          if (!sym) { u64 a = p.c + in.imm; for (size_t i = 1; i < in.ops.size(); i++) a += (u64)(i64)sx(rd(f, in.ops[i]).c, in.cases[i - 1]) * in.scales[i - 1]; f->regs[in.dst] = cv(a); }
          else { Expr* a = P.bin(ADD, toE(p, 64), P.C(in.imm, 64)); for (size_t i = 1; i < in.ops.size(); i++) { Expr* x = toE(rd(f, in.ops[i]), in.cases[i - 1]); x = x->w < 64 ? P.sext(x, 64) : P.extract(x, 0, 64); a = P.bin(ADD, a, P.bin(MUL, x, P.C(in.scales[i - 1], 64))); } f->regs[in.dst] = mkV(a); }
          f->pc++; break; }
      case I_ALLOCA: { u64 n = concretize(s, rd(f, in.ops[0]), in.w); u32 id = newObj(s, in.imm * n, OK_STACK, true); f->allocas.push_back(id); f->regs[in.dst] = cv(addrOf(id)); f->pc++; break; }
      case I_BR: takeEdge(s, f, f->f->edges[in.edges[0]]); break;
      case I_CBR: { Val c = rd(f, in.ops[0]); bool t = c.e ? branch(s, c.e) : c.c & 1; takeEdge(s, f, f->f->edges[in.edges[t ? 0 : 1]]); break; }
      case I_SWITCH: { Val c = rd(f, in.ops[0]); int e = 0;
          if (!c.e) { for (size_t i = 0; i < in.cases.size(); i++) if (in.cases[i] == c.c) { e = i + 1; break; } }
          else { // group by target under the current model
            u64 v = (u64)S->eval(c.e, s.model); for (size_t i = 0; i < in.cases.size(); i++) if (in.cases[i] == v) { e = i + 1; break; }
            int tgt = f->f->edges[in.edges[e]].target; Expr* cond = P.F(); Expr* none = P.T(); bool simple = true;
            for (size_t i = 0; i < in.cases.size(); i++) { Expr* q = P.bin(EQ, c.e, P.C(in.cases[i], in.w)); auto& ed = f->f->edges[in.edges[i + 1]]; auto& me = f->f->edges[in.edges[e]]; bool same = ed.target == tgt && ed.copies.size() == me.copies.size(); if (same) for (size_t k = 0; k < ed.copies.size(); k++) { auto &x = ed.copies[k], &y = me.copies[k]; if (x.first != y.first || x.second.slot != y.second.slot || x.second.c.c != y.second.c.c || x.second.c.e != y.second.c.e) same = false; } if (same) cond = P.bin(OR, cond, q); none = P.bin(AND, none, P.Not(q)); }
            (void)simple; if (e == 0) cond = P.bin(OR, cond, none); branch(s, cond); }
          takeEdge(s, f, f->f->edges[in.edges[e]]); break; }
      case I_RET: { Val rv[16]; unsigned n = in.ops.size(); for (unsigned i = 0; i < n; i++) rv[i] = rd(f, in.ops[i]); 
          popFrame(s); if (s.st().empty()) { if (s.cur == 0) throw PathEnd{0}; unsup("thread function returned"); }
          Frame* c = s.top(); Inst& ci = c->f->code[c->pc]; finishCall(s, c, ci, rv, n); break; }
      case I_CALL: doCall(s, f, in); break;
      case I_UNREACH: violation(s, "unreachable", "reached code the compiler deems unreachable (undefined behaviour)");
      case I_COPY: { if (in.n == 1) f->regs[in.dst] = rd(f, in.ops[0]); else { Val t[64]; for (u32 i = 0; i < in.n; i++) t[i] = rd(f, in.ops[i]); for (u32 i = 0; i < in.n; i++) f->regs[in.dst + i] = t[i]; } f->pc++; break; }
      case I_LPAD: f->pc++; break;
      case I_RESUME: { u64 exn = rd(f, in.ops[0]).c; u64 ti = ldc(s, exn - 128); popFrame(s); unwind(s, exn, ti); break; }
      case I_FBIN: { for (u32 i = 0; i < in.n; i++) { Val a = rd(f, in.ops[i]), b = rd(f, in.ops[in.n + i]); unsigned op; switch (in.sub) { case Instruction::FAdd: op = F_ADD; break; case Instruction::FSub: op = F_SUB; break; case Instruction::FMul: op = F_MUL; break; case Instruction::FDiv: op = F_DIV; break; default: unsup("frem"); } f->regs[in.dst + i] = fop(op, in.w, in.w, a, &b); } f->pc++; break; }
      case I_FNEG: f->regs[in.dst] = fneg(rd(f, in.ops[0]), in.w); f->pc++; break;
      case I_FCMP: { Val a = rd(f, in.ops[0]), b = rd(f, in.ops[1]); unsigned w = in.w; auto q = [&](unsigned op, bool swap = false) { return toE(swap ? fop(op, 1, w, b, &a) : fop(op, 1, w, a, &b), 1); }; Expr* r; auto Or = [&](Expr* x, Expr* y) { return P.bin(OR, x, y); };
        switch (in.sub) { case CmpInst::FCMP_OEQ: r = q(F_EQ); break; case CmpInst::FCMP_OGT: r = q(F_LT, true); break; case CmpInst::FCMP_OGE: r = q(F_LE, true); break; case CmpInst::FCMP_OLT: r = q(F_LT); break; case CmpInst::FCMP_OLE: r = q(F_LE); break; case CmpInst::FCMP_ONE: r = Or(q(F_LT), q(F_LT, true)); break; case CmpInst::FCMP_ORD: r = P.Not(q(F_UNO)); break; case CmpInst::FCMP_UNO: r = q(F_UNO); break; case CmpInst::FCMP_UEQ: r = P.Not(Or(q(F_LT), q(F_LT, true))); break; case CmpInst::FCMP_UGT: r = P.Not(q(F_LE)); break; case CmpInst::FCMP_UGE: r = P.Not(q(F_LT)); break; case CmpInst::FCMP_ULT: r = P.Not(q(F_LE, true)); break; case CmpInst::FCMP_ULE: r = P.Not(q(F_LT, true)); break; case CmpInst::FCMP_UNE: r = P.Not(q(F_EQ)); break; default: r = in.sub == CmpInst::FCMP_TRUE ? P.T() : P.F(); } f->regs[in.dst] = mkV(r); f->pc++; break; }
      case I_FCAST: { Val a = rd(f, in.ops[0]); unsigned op; switch (in.sub) { case Instruction::SIToFP: op = F_S2F; break; case Instruction::UIToFP: op = F_U2F; break; case Instruction::FPToSI: op = F_F2S; break; case Instruction::FPToUI: op = F_F2U; break; default: op = F_F2F; } f->regs[in.dst] = fop(op, in.w, in.w2, a); f->pc++; break; }
      case I_RMW: { Val p = rd(f, in.ops[0]); unsigned b = (in.w + 7) / 8; p = cv(concretize(s, p, 64)); Val o = loadV(s, p, in.w, b, true), v = rd(f, in.ops[1]); Expr *oe = toE(o, in.w), *ve = toE(v, in.w), *r; switch (in.sub) { case AtomicRMWInst::Xchg: r = ve; break; case AtomicRMWInst::Add: r = P.bin(ADD, oe, ve); break; case AtomicRMWInst::Sub: r = P.bin(SUB, oe, ve); break; case AtomicRMWInst::And: r = P.bin(AND, oe, ve); break; case AtomicRMWInst::Or: r = P.bin(OR, oe, ve); break; case AtomicRMWInst::Xor: r = P.bin(XOR, oe, ve); break; case AtomicRMWInst::Nand: r = P.bin(XOR, P.bin(AND, oe, ve), P.C(~(u128)0, in.w)); break; case AtomicRMWInst::UMax: r = P.ite(P.bin(ULT, oe, ve), ve, oe); break; case AtomicRMWInst::UMin: r = P.ite(P.bin(ULT, oe, ve), oe, ve); break; case AtomicRMWInst::Max: r = P.ite(P.bin(SLT, oe, ve), ve, oe); break; case AtomicRMWInst::Min: r = P.ite(P.bin(SLT, oe, ve), oe, ve); break; default: unsup("rmw"); } storeV(s, p, mkV(r), in.w, b, true); if (in.asyncKind == 2 && s.race) release(s, s.cur); f->regs[in.dst] = o; f->pc++; break; }
      case I_CAS: { u64 p = concretize(s, rd(f, in.ops[0]), 64); unsigned b = (in.w + 7) / 8; Val o = loadV(s, cv(p), in.w, b, true); bool eq = branch(s, P.bin(EQ, toE(o, in.w), toE(rd(f, in.ops[1]), in.w))); if (eq) { storeV(s, cv(p), rd(f, in.ops[2]), in.w, b, true); if (in.asyncKind == 2 && s.race) release(s, s.cur); } f->regs[in.dst] = o; f->regs[in.dst + 1] = cv(eq); f->pc++; break; }
      case I_NOP: if (in.dst >= 0) f->regs[in.dst] = cv(0); if (in.isInvoke) takeEdge(s, f, f->f->edges[in.edges[0]]); else f->pc++; break;
      default: { std::string t; raw_string_ostream os(t); os << *in.src; unsup("instruction " + t.substr(0, 120)); }
    }
  }
}
// ---- builtins -------------------------------------------------------------
static Val allocB(State& s, Inst& in, Val* a, u8 kind) { u64 n = concretize(s, a[0], 64); u32 id = newObj(s, n, OK_HEAP, true); Obj* o = s.mem.getW(id); o->allocKind = kind; return cv(addrOf(id)); }
static void freeB(State& s, Val* a, u8 kind) {
  u64 p = concretize(s, a[0], 64); if (!p) return; u32 id; Obj* o = objAt(s, p, id);
  if (!o || (p & 0xffffffff) || o->kind != OK_HEAP) violation(s, "memory", "free of an invalid pointer: " + ptrDesc(s, p));
  if (!o->alive) violation(s, "memory", "double free"); if (o->allocKind != kind) violation(s, "memory", "mismatched allocation and deallocation functions"); if (s.race) { touch(s, id, 0, o->size, 2); } s.mem.kill(id);
}
static InputRec* pushIn(State& s, const char* nm, Expr* e, u32 bytes) { auto r = std::make_shared<InputRec>(); r->prev = s.inputs; r->name = nm; r->e = e; r->bytes = bytes; s.inputs = r; return r.get(); }
static std::unordered_set<std::string> names; static const char* nameP(State& s, const Val& v) { return names.insert(cstr(s, concretize(s, v, 64))).first->c_str(); }
static void setModel(State& s, u32 var, u64 val) { auto m = std::make_shared<Model>(*s.model); if (var >= m->size()) m->resize(var + 1); (*m)[var] = val; s.model = m; }
static Expr* newIn(State& s, const Val& name, unsigned w) { Expr* e = P.var(s.nIn++, w); pushIn(s, nameP(s, name), e, w / 8); if (e->aux < s.model->size() && (*s.model)[e->aux]) setModel(s, e->aux, 0); return e; }
static void regBuiltins() {
  auto& B = builtins;
#define BI(name) B[name] = [](State& s, Inst& in, Val* a, Val& r) -> bool
  BI("malloc") { r = allocB(s, in, a, 1); return true; }; BI("_Znwm") { r = allocB(s, in, a, 2); return true; }; BI("_Znam") { r = allocB(s, in, a, 3); return true; };
  BI("_ZnwmSt11align_val_t") { r = allocB(s, in, a, 2); return true; }; BI("_ZnwmRKSt9nothrow_t") { r = allocB(s, in, a, 2); return true; };
  BI("calloc") { u64 n = concretize(s, a[0], 64) * concretize(s, a[1], 64); u32 id = newObj(s, n, OK_HEAP, false); s.mem.getW(id)->allocKind = 1; r = cv(addrOf(id)); return true; };
  BI("free") { freeB(s, a, 1); return true; }; BI("_ZdlPv") { freeB(s, a, 2); return true; }; BI("_ZdlPvm") { freeB(s, a, 2); return true; }; BI("_ZdaPv") { freeB(s, a, 3); return true; }; BI("_ZdaPvm") { freeB(s, a, 3); return true; };
  BI("_ZdlPvSt11align_val_t") { freeB(s, a, 2); return true; }; BI("_ZdlPvmSt11align_val_t") { freeB(s, a, 2); return true; }; BI("_ZdlPvRKSt9nothrow_t") { freeB(s, a, 2); return true; };
  BI("memcpy") { u64 n = concretize(s, a[2], 64), d = concretize(s, a[0], 64), q = concretize(s, a[1], 64); copyBytes(s, d, q, n); r = cv(d); return true; }; B["memmove"] = B["memcpy"];
  BI("memset") { u64 n = concretize(s, a[2], 64), d = concretize(s, a[0], 64); if (n) { Loc l = resolve(s, cv(d), n, true); if (s.race) touch(s, l.obj, l.off, n, 2); Val v = a[1].e ? mkV(P.extract(a[1].e, 0, 8)) : cv(a[1].c & 255); for (u64 i = 0; i < n; i++) storeAt(s, l.obj, l.off + i, v, 8, 1); } r = cv(d); return true; };
  BI("abort") { violation(s, "abort", "abort called"); return false; }; BI("_ZSt9terminatev") { violation(s, "terminate", "std::terminate called"); return false; }; BI("exit") { violation(s, "abort", "exit called"); return false; };
  BI("__assert_fail") { violation(s, "assert", "assertion failed: " + cstr(s, concretize(s, a[0], 64))); return false; };
  BI("__cxa_atexit") { r = cv(0); return true; }; BI("__cxa_thread_atexit") { r = cv(0); return true; };
  BI("psx_unwind") { u64 e = concretize(s, a[0], 64), t = concretize(s, a[1], 64); popFrame(s); unwind(s, e, t); return false; };
  // psx_unwind is called from runtime functions (__cxa_throw ...) whose frame is popped first; those frames have no cleanups.
  BI("psx_symbolic") { u64 p = concretize(s, a[0], 64), n = concretize(s, a[1], 64); const char* nm = nameP(s, a[2]);
    if (n == 1 || n == 2 || n == 4 || n == 8) { Expr* e = newIn(s, a[2], n * 8); storeV(s, cv(p), Val{e, 0}, n * 8, n); }
    else for (u64 i = 0; i < n; i++) { Expr* e = newIn(s, a[2], 8); storeV(s, cv(p + i), Val{e, 0}, 8, 1); } (void)nm; return true; };
  BI("psx_u8") { r = Val{newIn(s, a[0], 8), 0}; return true; }; BI("psx_u16") { r = Val{newIn(s, a[0], 16), 0}; return true; }; BI("psx_u32") { r = Val{newIn(s, a[0], 32), 0}; return true; }; BI("psx_u64") { r = Val{newIn(s, a[0], 64), 0}; return true; };
  BI("psx_range") { u64 lo = a[0].c, hi = a[1].c; if (a[0].e || a[1].e) unsup("psx_range symbolic bounds"); if (lo > hi) throw PathEnd{2}; Expr* e = newIn(s, a[2], 64); addPC(s, P.bin(ULE, P.C(lo, 64), e)); addPC(s, P.bin(ULE, e, P.C(hi, 64))); setModel(s, e->aux, lo); if (lo == hi) { addPC(s, P.bin(EQ, e, P.C(lo, 64))); r = cv(lo); } else r = Val{e, 0}; return true; };
  // eager n-way fork on a fresh symbolic choice variable
  BI("psx_pick") { u64 n = a[0].c; if (a[0].e) unsup("psx_pick symbolic"); if (n == 0) throw PathEnd{2}; Expr* e = newIn(s, a[1], 64);
    for (u64 i = n - 1; i >= 1; i--) { State* t = new State(s); addPC(*t, P.bin(EQ, e, P.C(i, 64))); setModel(*t, e->aux, i); Frame* f = t->top(); Val rv = cv(i); finishCall(*t, f, in, &rv, 1); work.push_back(t); nForks++; }
    addPC(s, P.bin(EQ, e, P.C(0, 64))); setModel(s, e->aux, 0); r = cv(0); return true; };
  BI("psx_assume") { Expr* c = toE(a[0], 1); if (c->w != 1) c = P.Not(P.bin(EQ, c, P.C(0, c->w))); if (!branch(s, c)) { nAssume++; throw PathEnd{2}; } return true; };
  BI("psx_assert") { nAsserts++; if (a[0].e) nAssertsSym++; Expr* c = toE(a[0], a[0].e ? a[0].e->w : 1); if (c->w != 1) c = P.Not(P.bin(EQ, c, P.C(0, c->w))); if (!branch(s, c)) violation(s, "assert", cstr(s, concretize(s, a[1], 64))); return true; };
  BI("psx_fail") { violation(s, "assert", cstr(s, concretize(s, a[0], 64))); return false; };
  BI("psx_cover") { covers[cstr(s, concretize(s, a[0], 64))]++; return true; };
  BI("psx_observe") { auto o = std::make_shared<ObsRec>(); o->prev = s.obs; o->v = a[0]; s.obs = o; return true; };
  BI("psx_is_symbolic") { r = cv(a[0].e != nullptr); return true; };
  BI("psx_concretize") { r = cv(concretize(s, a[0], 64)); return true; };
  BI("psx_possible") { /* 1 if the condition can be true on this path; no fork */ Expr* c = toE(a[0], a[0].e ? a[0].e->w : 1); if (c->w != 1) c = P.Not(P.bin(EQ, c, P.C(0, c->w))); if (c->isC()) r = cv(c->val != 0); else if (S->eval(c, s.model)) r = cv(1); else r = cv(S->check(s.pc, c)->r != 0); return true; };
  BI("psx_param") { std::string n = cstr(s, concretize(s, a[0], 64)); auto it = params.find(n); r = it == params.end() ? a[1] : cv((u64)it->second); return true; };
  BI("psx_end") { throw PathEnd{0}; return false; };
  BI("psx_error") { unsup("harness: " + cstr(s, concretize(s, a[0], 64))); return false; };
  BI("psx_native") { r = cv(0); return true; };
  BI("psx_print") { fprintf(stderr, "PRINT %s %llx%s\n", cstr(s, concretize(s, a[0], 64)).c_str(), (unsigned long long)(a[1].e ? (u64)S->eval(a[1].e, s.model) : a[1].c), a[1].e ? " (sym)" : ""); return true; };
  // threads
  BI("psx_thread_create") { u64 fn = concretize(s, a[0], 64); u32 hi = fn >> 32; FnInfo* cal = fns[hi - FNBASE]; u32 save = s.cur; s.th.emplace_back(); s.cur = s.th.size() - 1; Val v = a[1]; pushCall(s, cal, &v, 1); r = cv(s.cur); s.cur = save; return true; };
  BI("psx_self") { r = cv(s.cur); return true; };
  BI("psx_switch") { u64 t = concretize(s, a[0], 64); Frame* f = s.top(); finishCall(s, f, in, nullptr, 0); if (t >= s.th.size() || !s.th[t].alive) unsup("psx_switch to dead thread"); s.cur = t; return false; };
  BI("psx_thread_exit") { u64 t = concretize(s, a[0], 64); while (!s.st().empty()) popFrame(s); s.th[s.cur].alive = false; 
    for (auto it = s.tls.begin(); it != s.tls.end();) { if (it->first.first == s.cur) { s.mem.kill(it->second); it = s.tls.erase(it); } else ++it; }
    if (t >= s.th.size() || !s.th[t].alive) unsup("psx_thread_exit to dead thread"); s.cur = t; return false; };
  BI("psx_dedup") { nSchedStates++; if (optDedup) { auto h = hashState(s); if (!seenStates.insert(h).second) { nDedup++; throw PathEnd{4}; } } return true; };
  BI("psx_race_on") { s.race = a[0].c; if (!s.race) s.foot.clear(); return true; }; BI("psx_release") { if (s.race) release(s, s.cur); return true; }; BI("psx_forget") { release(s, concretize(s, a[0], 64)); return true; };
  BI("psx_obj_alive") { u64 p = concretize(s, a[0], 64); u32 id; Obj* o = objAt(s, p, id); r = cv(o && o->alive && (p & 0xffffffff) < o->size); return true; };
}
// clang accesses the guard of a function's thread_local without llvm.threadlocal.address: make every use go through it.
static void addressThreadLocals() {
  std::vector<GlobalVariable*> gs; for (auto& gv : M->globals()) if (gv.isThreadLocal()) gs.push_back(&gv);
  for (auto* gv : gs) { convertUsersOfConstantsToInstructions({gv}); std::vector<Use*> us; for (auto& u : gv->uses()) us.push_back(&u);
    for (auto* u : us) { auto* in = dyn_cast<Instruction>(u->getUser()); if (!in) continue; if (auto* c = dyn_cast<IntrinsicInst>(in)) if (c->getIntrinsicID() == Intrinsic::threadlocal_address) continue;
      Instruction* at = in; if (auto* p = dyn_cast<PHINode>(in)) at = p->getIncomingBlock(*u)->getTerminator(); IRBuilder<> b(at); auto* call = b.CreateThreadLocalAddress(gv); u->set(call); } }
}
static void initGlobals(State& s) {
  for (auto& gv : M->globals()) {
    if (gv.isThreadLocal()) { tlsIdx[&gv] = tlsGvs.size(); tlsGvs.push_back(&gv); continue; }
    if (gv.getName() == "llvm.global_ctors" || gv.getName() == "llvm.used" || gv.getName() == "llvm.compiler.used") continue;
    u64 sz = gv.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(gv.getValueType()) : 8; if (!gv.hasInitializer() && sz < 64) sz = 64; u32 id = newObj(s, sz, OK_GLOBAL, false); gvObj[&gv] = id; objGv[id] = &gv;
  }
  for (auto& F : *M) fnOf(&F);
  for (auto& gv : M->globals()) { auto it = gvObj.find(&gv); if (it == gvObj.end()) continue; u32 id = it->second;
    if (gv.hasInitializer() && !isa<ConstantAggregateZero>(gv.getInitializer())) { std::vector<Leaf> l; std::vector<Val> v; flatten(gv.getValueType(), 0, l); constVals((Constant*)gv.getInitializer(), v); for (size_t i = 0; i < l.size(); i++) storeAt(s, id, l[i].off, v[i], l[i].w, l[i].bytes); }
    if (gv.isConstant()) s.mem.getW(id)->ro = true; else writableGlobals.push_back(id); }
  vtSI = symAddr("_ZTVN10__cxxabiv120__si_class_type_infoE"); vtVMI = symAddr("_ZTVN10__cxxabiv121__vmi_class_type_infoE"); vtCLS = symAddr("_ZTVN10__cxxabiv117__class_type_infoE"); vtPTR = symAddr("_ZTVN10__cxxabiv119__pointer_type_infoE");
}
static void finishPath(State& s, int why) {
  nPaths++; const char* nm[] = {"completed", "violation", "assumption", "unsupported", "merged"}; endReasons[nm[why]]++;
  if (why == 0) { nPathsOk++; sampleSeen++; if (nSamples) { bool take = samples.size() < nSamples; size_t slot = samples.size(); if (!take) { u64 k = rng() % sampleSeen; if (k < nSamples) { take = true; slot = k; } }
      if (take) { std::string j = "{\"inputs\":\"" + jesc(inputsText(s)) + "\",\"observed\":\"" + jesc(obsText(s)) + "\"}"; if (slot == samples.size()) samples.push_back(j); else samples[slot] = j; } } }
}
static void report(const char* out, const char* entry) {
  struct rusage ru; getrusage(RUSAGE_SELF, &ru); FILE* fo = out ? fopen(out, "w") : stdout; if (!fo) { perror(out); exit(3); }
  std::set<std::string> pl; std::map<std::string, int> fnset; for (size_t i = 0; i < lineTab.size(); i++) if (lineHit[i] && lineTab[i].first.rfind("pluto/", 0) == 0) pl.insert(lineTab[i].first + ":" + std::to_string(lineTab[i].second));
  fprintf(fo, "{\"entry\":\"%s\",\"complete\":%s,\"why_incomplete\":[", entry, incomplete ? "false" : "true"); bool c = false; for (auto& w : incompleteWhy) { fprintf(fo, "%s\"%s\"", c ? "," : "", jesc(w).c_str()); c = true; }
  fprintf(fo, "],\"paths\":%llu,\"paths_completed\":%llu,\"forks\":%llu,\"instructions\":%llu,\"sched_states\":%llu,\"merged\":%llu,\"distinct_sched_states\":%zu,\"asserts\":%llu,\"asserts_symbolic\":%llu,\"queries\":%llu,\"cache_hits\":%llu,\"z3_calls\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"solver_s\":%.3f,\"wall_s\":%.3f,\"rss_mb\":%ld,\"exprs\":%zu,\"dropped_assume\":%llu",
    (unsigned long long)nPaths, (unsigned long long)nPathsOk, (unsigned long long)nForks, (unsigned long long)nInstr, (unsigned long long)nSchedStates, (unsigned long long)nDedup, seenStates.size(), (unsigned long long)nAsserts, (unsigned long long)nAssertsSym, (unsigned long long)S->queries, (unsigned long long)S->cacheHits, (unsigned long long)S->z3calls, (unsigned long long)S->satN, (unsigned long long)S->unsatN, (unsigned long long)S->unknownN, S->z3time, nowS() - t0, ru.ru_maxrss / 1024, P.count, (unsigned long long)nAssume);
  fprintf(fo, ",\"ends\":{"); c = false; for (auto& e : endReasons) { fprintf(fo, "%s\"%s\":%llu", c ? "," : "", e.first.c_str(), (unsigned long long)e.second); c = true; }
  fprintf(fo, "},\"covers\":{"); c = false; for (auto& e : covers) { fprintf(fo, "%s\"%s\":%llu", c ? "," : "", jesc(e.first).c_str(), (unsigned long long)e.second); c = true; }
  fprintf(fo, "},\"pluto_lines\":["); c = false; for (auto& e : pl) { fprintf(fo, "%s\"%s\"", c ? "," : "", jesc(e).c_str()); c = true; }
  fprintf(fo, "],\"pluto_functions\":["); c = false; for (auto& e : plutoFns) { fprintf(fo, "%s\"%s\"", c ? "," : "", jesc(e).c_str()); c = true; }
  fprintf(fo, "],\"violations\":["); c = false; for (auto& v : viols) { fprintf(fo, "%s{\"kind\":\"%s\",\"msg\":\"%s\",\"where\":\"%s\",\"inputs\":\"%s\",\"trace\":[", c ? "," : "", jesc(v.kind).c_str(), jesc(v.msg).c_str(), jesc(v.where).c_str(), jesc(v.inputs).c_str()); bool d = false; for (auto& t : v.trace) { fprintf(fo, "%s\"%s\"", d ? "," : "", jesc(t).c_str()); d = true; } fprintf(fo, "]}"); c = true; }
  fprintf(fo, "],\"samples\":["); c = false; for (auto& e : samples) { fprintf(fo, "%s%s", c ? "," : "", e.c_str()); c = true; }
  fprintf(fo, "]}\n"); if (out) fclose(fo);
}
static void collectFns() { // subprograms of pluto whose lines were executed
  std::set<const DISubprogram*> done;
  for (auto* f : fns) if (f->decoded) for (auto& in : f->code) if (in.line >= 0 && lineHit[in.line] && lineTab[in.line].first.rfind("pluto/", 0) == 0) { const DILocation* d = in.src->getDebugLoc(); if (!d) continue; const DISubprogram* sp = d->getScope()->getSubprogram(); if (sp && done.insert(sp).second) { std::string n = sp->getName().str(); std::string fl = sp->getFilename().str(); auto p = fl.rfind('/'); if (p != std::string::npos) fl = fl.substr(p + 1); plutoFns.insert(fl + ":" + n); } }
}
int main(int argc, char** argv) {
  std::string bc, entry = "harness"; const char* out = nullptr; unsigned qto = 20000; u64 memMB = 6000;
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--entry") entry = nx(); else if (a == "--out") out = argv[++i]; else if (a == "--param") { std::string p = nx(); auto q = p.find('='); params[p.substr(0, q)] = atoll(p.c_str() + q + 1); }
    else if (a == "--max-time") limTime = atof(argv[++i]); else if (a == "--max-instr") limInstr = atoll(argv[++i]); else if (a == "--max-paths") limPaths = atoll(argv[++i]); else if (a == "--max-viol") limViol = atoi(argv[++i]); else if (a == "--samples") nSamples = atoi(argv[++i]); else if (a == "--seed") seed = atoll(argv[++i]); else if (a == "--no-dedup") optDedup = false; else if (a == "--query-timeout") qto = atoi(argv[++i]); else if (a == "--verbose") verbose = true; else if (a == "--mem") memMB = atoll(argv[++i]); else if (a == "--chain") limChain = atoll(argv[++i]); else bc = a; }
  struct rlimit rl = {512ull << 20, 512ull << 20}; setrlimit(RLIMIT_STACK, &rl);
  t0 = nowS(); rng.seed(seed); S = new Solver(P, qto); regBuiltins();
  SMDiagnostic err; M = parseIRFile(bc, err, Ctx); if (!M) { err.print("psx", errs()); return 3; } DL = &M->getDataLayout(); addressThreadLocals();
  State* s0 = new State; s0->model = std::make_shared<Model>(); s0->th.emplace_back(); initGlobals(*s0);
  // constructors, then the entry
  std::vector<Function*> order; if (auto* gc = M->getNamedGlobal("llvm.global_ctors")) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer())) { std::vector<std::pair<u64, Function*>> v; for (auto& o : ca->operands()) { auto* st = cast<ConstantStruct>(o); if (auto* F = dyn_cast<Function>(st->getOperand(1)->stripPointerCasts())) v.push_back({cast<ConstantInt>(st->getOperand(0))->getZExtValue(), F}); } std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; }); for (auto& x : v) order.push_back(x.second); }
  Function* E = M->getFunction(entry); if (!E || E->isDeclaration()) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 3; }
  auto oneState = [&](State* s) { int why = 0; try { runState(*s); } catch (PathEnd& p) { why = p.why; } return why; };
  CS = s0;
  for (auto* F : order) { pushCall(*s0, fnOf(F), nullptr, 0); int w = oneState(s0); if (w != 0) { fprintf(stderr, "static initialiser failed: %s\n", F->getName().str().c_str()); for (auto& x : incompleteWhy) fprintf(stderr, "  %s\n", x.c_str()); for (auto& v : viols) fprintf(stderr, "  %s %s\n", v.kind.c_str(), v.msg.c_str()); report(out, entry.c_str()); return 3; } s0->steps = 0; }
  pushCall(*s0, fnOf(E), nullptr, 0); work.push_back(s0); double lastV = nowS(); u64 tick = 0;
  while (!work.empty()) {
    if ((++tick & 63) == 0) { if (nowS() - t0 > limTime) { incomplete = true; incompleteWhy.insert("time limit"); break; } struct rusage ru; getrusage(RUSAGE_SELF, &ru); if ((u64)ru.ru_maxrss / 1024 > memMB) { incomplete = true; incompleteWhy.insert("memory limit"); break; } }
    if (nPaths >= limPaths) { incomplete = true; incompleteWhy.insert("path limit"); break; }
    if (viols.size() >= limViol) { incomplete = true; incompleteWhy.insert("stopped after violations"); break; }
    if (verbose && nowS() - lastV > 2) { lastV = nowS(); fprintf(stderr, "[%.0fs] paths %llu work %zu instr %llum z3 %llu (%.1fs) exprs %zu sched %llu dedup %llu\n", nowS() - t0, (unsigned long long)nPaths, work.size(), (unsigned long long)nInstr / 1000000, (unsigned long long)S->z3calls, S->z3time, P.count, (unsigned long long)nSchedStates, (unsigned long long)nDedup); }
    State* s = work.back(); work.pop_back(); CS = s; int why = oneState(s); finishPath(*s, why); delete s;
  }
  collectFns(); report(out, entry.c_str()); fflush(stdout); _exit(viols.empty() ? 0 : 1);
}
