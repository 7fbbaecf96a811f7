static int g_params[16];
// ------------------------------------------------------------------ execution
static inline const Val &get(const Frame &f, int o, uint32_t i = 0) { return o >= 0 ? S->regs[f.base + o + i] : f.fn->consts[~o + i]; }
static inline void setr(const Frame &f, int d, Val v) { S->regs[f.base + d] = v; }
static bool constZeroE(Expr *e) { return e->isConst() && (e->wide ? e->wide->isZero() : e->extra == 0); }
#include "lin.inc"
static u64 nLin = 0;
static Val binop(Kind k, int w, Val a, Val b, u64 extra = 0, int rw = 0) {
  (void)rw;
  if (!a.e && !b.e) {
    u64 m = maskw(w);
    switch (k) {
    case K_Add: return cv((a.c + b.c) & m); case K_Sub: return cv((a.c - b.c) & m); case K_And: return cv(a.c & b.c); case K_Or: return cv(a.c | b.c); case K_Xor: return cv(a.c ^ b.c);
    case K_Eq: return cv(a.c == b.c); case K_Ult: return cv(a.c < b.c); case K_Ule: return cv(a.c <= b.c); case K_Slt: return cv(sextw(a.c, w) < sextw(b.c, w)); case K_Sle: return cv(sextw(a.c, w) <= sextw(b.c, w));
    default: return cv(evalOp(k, w, w, a.c, b.c, extra));
    }
  }
  Expr *x = ex(a, w), *y = ex(b, w);
  if ((k >= K_UDiv && k <= K_SRem) || (k >= K_Eq && k <= K_Sle) || k == K_LShr || k == K_AShr || k == K_Sub || k == K_Add) if (w >= 8 && ((x->sup | y->sup).count() > 1 || w > 64)) { Val o; if (linOp(k, w, x, y, o)) { nLin++;
    { Expr *org = mkBin(k, x, y, extra); Evaluator e1(S->model.data()); APInt v1 = e1.evw(org), v2 = o.e ? e1.evw(o.e) : APInt(org->width, o.c); if (v1 != v2) { fprintf(stderr, "linear rewrite disagrees with evaluation\n"); abort(); } }
    return o; } }
  return mkv(mkBin(k, x, y, extra));
}
static Val castop(Kind k, int w, int sw, Val a, u64 extra = 0) {
  if (!a.e && w <= 64) { if (k == K_ZExt) return a; if (k == K_Extract && !extra) return cv(a.c & maskw(w)); return cv(evalOp(k, w, sw, a.c, 0, extra)); }
  return mkv(mkCast(k, w, ex(a, sw), extra));
}
static void takeEdge(Frame &f, Edge *e) {
  size_t n = e->copies.size();
  if (n == 1) { S->regs[f.base + e->copies[0].second] = get(f, e->copies[0].first); }
  else if (n) { Val tmp[64]; std::vector<Val> big; Val *t = tmp; if (n > 64) { big.resize(n); t = big.data(); } for (size_t i = 0; i < n; i++) t[i] = get(f, e->copies[i].first); for (size_t i = 0; i < n; i++) S->regs[f.base + e->copies[i].second] = t[i]; }
  f.pc = e->target;
}
static void pushFrame(FnInfo *fi, int retDst, uint32_t nret) {
  fi->hits++;
  Frame fr; fr.fn = fi; fr.pc = 0; fr.base = (uint32_t)S->regs.size(); fr.retDst = retDst; fr.nret = nret;
  S->regs.resize(fr.base + fi->nslots, cv(0));
  S->fr.push_back(std::move(fr));
}
static void popFrame() { Frame &f = S->fr.back(); for (auto id : f.allocas) S->mem.release(id); S->regs.resize(f.base); S->fr.pop_back(); }
static u64 allocHeap(u64 n) {
  if (n > 8 * 1024 * 1024) { violation("alloc", "allocation of " + std::to_string(n) + " bytes"); return 0; }
  u64 a; S->mem.alloc((uint32_t)n, 0, a); return a;
}
static void freeHeap(u64 a) {
  if (!a) return;
  uint32_t id = addrId(a); Obj *o = S->mem.get(id);
  if (!o || id < baseObjs.size() || o->kind != 0) { violation("badfree", "free of a non-heap pointer"); return; }
  if (o->gen != addrGen(a) || o->freed) { violation("badfree", "double free"); return; }
  if (addrOff(a) != 0) { violation("badfree", "free of an interior pointer"); return; }
  S->mem.release(id);
}
static bool unwind() { // find handler for the pending exception; false when it escapes
  while (!S->fr.empty()) {
    Frame &f = S->fr.back(); Ins &in = f.fn->code[f.pc];
    if (in.op == O_Invoke && in.I) {
      auto *lp = cast<InvokeInst>(in.I)->getUnwindDest()->getLandingPadInst(); int sel = -1;
      for (unsigned i = 0; i < lp->getNumClauses(); i++) if (lp->isCatch(i)) { Constant *c = lp->getClause(i); if (isa<ConstantPointerNull>(c)) { sel = 1; break; } u64 t = constAddr(c); if (t == S->excTinfo || demangle(c->getName().str()).find("std::exception") != std::string::npos) { sel = (int)(t >> OFFB) & 0xfffff; break; } }
      if (sel < 0 && lp->isCleanup()) sel = 0;
      if (sel >= 0) { S->regs[f.base].c = S->regs[f.base].c; Edge *e = in.e2; takeEdge(f, e); // landingpad is first non-phi
        Ins &li = f.fn->code[f.pc]; if (li.op != O_LandingPad) { unsupported("landingpad shape"); return true; } setr(f, li.dst, cv(S->excPtr)); setr(f, li.dst + 1, cv((u64)sel)); f.pc++; return true; }
    }
    if (S->fr.size() == 1) break;
    popFrame();
  }
  return false;
}
static void throwExc(u64 ptr, u64 tinfo, const std::string &what) {
  S->excPtr = ptr; S->excTinfo = tinfo;
  State *keep = S; (void)keep;
  std::string loc = where();
  // does anyone catch it?
  bool can = false; for (size_t i = S->fr.size(); i-- > 0;) { Frame &f = S->fr[i]; if (f.fn->code[f.pc].op == O_Invoke) { auto *lp = cast<InvokeInst>(f.fn->code[f.pc].I)->getUnwindDest()->getLandingPadInst(); for (unsigned k = 0; k < lp->getNumClauses(); k++) if (lp->isCatch(k)) can = true; } }
  if (!can) { violation("exception", what); return; }
  if (!unwind()) violation("exception", what);
}
static void doSymbolic(u64 p, u64 n, const std::string &nm) {
  if (S->nvars + (int)n > MAXVARS) { unsupported("too many symbolic bytes"); return; }
  uint32_t id; i64 off; if (!n) return; Obj *o = resolve(p, n, true, id, off); if (!o) return; o = S->mem.wr(id);
  S->ins.push_back({nm, (uint32_t)n, S->nvars});
  for (u64 i = 0; i < n; i++) { S->dom.push_back(Dom::full()); S->model.push_back(0); storeByte(o, off + i, Val{0, mkVar(S->nvars)}); S->nvars++; }
}
static void doAssume(Expr *c) {
  c = specialize(c, S->dom.data());
  std::vector<uint8_t> m; SolveRes r = feasible(*S, c, m);
  if (r == S_UNSAT) { nKilled++; killPath(); return; }
  if (r == S_UNKNOWN) { nUndecided++; nKilled++; killPath(); return; }
  S->model = m; addConstraint(*S, c);
}
static void doCheck(Val v, const std::string &msg) {
  nChecks++;
  if (!v.e) { nChecksConst++; if (!v.c) { report("check", msg, S->model.data(), true); } return; }
  Expr *c = specialize(v.e, S->dom.data());
  if (c->isConst()) { nChecksConst++; if (!c->extra) report("check", msg, S->model.data(), true); return; }
  std::vector<uint8_t> m; SolveRes r = feasible(*S, mkNot(c), m);
  if (r == S_SAT) { report("check", msg, m.data(), false); doAssume(c); return; }
  if (r == S_UNKNOWN) { nUndecided++; S->incomplete = true; fprintf(outF, "{\"t\":\"undecided\",\"msg\":\"%s\"}\n", jesc(msg).c_str()); return; }
}
static Expr *bytesExpr(Val v, int w) { return ex(v, w); }
static void finishCall(Frame &f, Ins &in) { if (in.op == O_Invoke) takeEdge(f, in.e1); else f.pc++; }
static Val ctz(Val a, int w) { if (!a.e && w <= 64) return cv(a.c ? (u64)__builtin_ctzll(a.c) : (u64)w); Expr *e = ex(a, w), *r = mkConst(w, w); for (int i = w - 1; i >= 0; i--) r = mkIte(mkExtract(e, i, 1), mkConst(w, i), r); return mkv(r); }
static Val clz(Val a, int w) { if (!a.e && w <= 64) return cv(a.c ? (u64)(__builtin_clzll(a.c) - (64 - w)) : (u64)w); Expr *e = ex(a, w), *r = mkConst(w, w); for (int i = 0; i < w; i++) r = mkIte(mkExtract(e, i, 1), mkConst(w, w - 1 - i), r); return mkv(r); }
static Val popc(Val a, int w) { if (!a.e && w <= 64) return cv((u64)__builtin_popcountll(a.c)); Expr *e = ex(a, w), *r = mkConst(w, 0); for (int i = 0; i < w; i++) r = mkBin(K_Add, r, mkCast(K_ZExt, w, mkExtract(e, i, 1))); return mkv(r); }
static Val selv(Val c, Val a, Val b, int w) { if (!c.e) return c.c ? a : b; return mkv(mkIte(c.e, ex(a, w), ex(b, w))); }
static Val withOvf(Intrinsic::ID id, Val a, Val b, int w, Val &ovf) {
  bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
  Kind k = (id == Intrinsic::sadd_with_overflow || id == Intrinsic::uadd_with_overflow) ? K_Add : (id == Intrinsic::ssub_with_overflow || id == Intrinsic::usub_with_overflow) ? K_Sub : K_Mul;
  int W = k == K_Mul ? 2 * w : w + 1;
  if (!a.e && !b.e && w <= 64) {
    i128 x = sg ? (i128)sextw(a.c, w) : (i128)a.c, y = sg ? (i128)sextw(b.c, w) : (i128)b.c; 
    u64 lo; bool o;
    if (k == K_Mul && !sg) { u128 r = (u128)a.c * b.c; lo = (u64)r & maskw(w); o = (r >> w) != 0; }
    else { i128 r = k == K_Add ? x + y : k == K_Sub ? x - y : x * y; lo = (u64)r & maskw(w); o = sg ? r != (i128)sextw(lo, w) : r != (i128)lo; }
    ovf = cv(o); return cv(lo);
  }
  Expr *x = ex(a, w), *y = ex(b, w); Kind c = sg ? K_SExt : K_ZExt;
  Expr *r = mkBin(k, mkCast(c, W, x), mkCast(c, W, y)), *lo = mkBin(k, x, y);
  ovf = mkv(mkNot(mkBin(K_Eq, r, mkCast(c, W, lo)))); return mkv(lo);
}
// returns true when handled
static bool intrinsic(Frame &f, Ins &in) {
  auto id = (Intrinsic::ID)(in.builtin - 100000);
  auto A = [&](int k, uint32_t i = 0) -> Val { return get(f, in.args[k], i); };
  int w = in.w; uint32_t n = in.n;
  switch (id) {
  case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::var_annotation: case Intrinsic::stackrestore:
    return true;
  case Intrinsic::stacksave: setr(f, in.dst, cv(0)); return true;
  case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { u64 nn = concretize(A(2), 64); if (dead) return true; u64 d = concretize(A(0), 64), s = concretize(A(1), 64); if (dead) return true; copyMem(d, s, nn); return true; }
  case Intrinsic::memset: case Intrinsic::memset_inline: { u64 nn = concretize(A(2), 64); u64 d = concretize(A(0), 64); if (dead || !nn) return true; uint32_t oid; i64 off; Obj *o = resolve(d, nn, true, oid, off); if (!o) return true; o = S->mem.wr(oid); Val v = A(1); if (!v.e && o->s.empty()) memset(o->d.data() + off, (int)v.c, nn); else for (u64 i = 0; i < nn; i++) storeByte(o, off + i, v); return true; }
  case Intrinsic::trap: case Intrinsic::debugtrap: violation("trap", "trap reached"); return true;
  case Intrinsic::ubsantrap: violation("ub", "undefined behaviour (sanitizer check " + std::to_string(A(0).c) + ")"); return true;
  case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax:
    for (uint32_t i = 0; i < n; i++) { Val a = A(0, i), b = A(1, i); Val c = id == Intrinsic::umin ? binop(K_Ult, w, a, b) : id == Intrinsic::umax ? binop(K_Ult, w, b, a) : id == Intrinsic::smin ? binop(K_Slt, w, a, b) : binop(K_Slt, w, b, a); setr(f, in.dst + i, selv(c, a, b, w)); } return true;
  case Intrinsic::abs: for (uint32_t i = 0; i < n; i++) { Val a = A(0, i); Val z = w > 64 ? Val{0, mkConst(w, 0)} : cv(0); setr(f, in.dst + i, selv(binop(K_Slt, w, a, z), binop(K_Sub, w, z, a), a, w)); } return true;
  case Intrinsic::ctlz: case Intrinsic::cttz:
    for (uint32_t i = 0; i < n; i++) {
      Val a = A(0, i); bool tz = id == Intrinsic::cttz;
      if (a.e && w <= 64) { // the result is nearly always an index: case-split bit by bit
        int k = 0; for (; k < w; k++) { Expr *b = mkExtract(a.e, tz ? k : w - 1 - k, 1); bool s = b->isConst() ? b->extra : branchOn(b); if (dead) return true; if (s) break; }
        setr(f, in.dst + i, cv(k));
      } else setr(f, in.dst + i, tz ? ctz(a, w) : clz(a, w));
    }
    return true;
  case Intrinsic::ctpop: for (uint32_t i = 0; i < n; i++) setr(f, in.dst + i, popc(A(0, i), w)); return true;
  case Intrinsic::bswap: { Expr *e = ex(A(0), w), *r = nullptr; for (int i = 0; i < w / 8; i++) { Expr *b = mkExtract(e, i * 8, 8); r = r ? mkBin(K_Concat, r, b) : b; } setr(f, in.dst, mkv(r)); return true; }
  case Intrinsic::bitreverse: { Expr *e = ex(A(0), w), *r = nullptr; for (int i = 0; i < w; i++) { Expr *b = mkExtract(e, i, 1); r = r ? mkBin(K_Concat, r, b) : b; } setr(f, in.dst, mkv(r)); return true; }
  case Intrinsic::fshl: case Intrinsic::fshr: {
    Val s = A(2); Expr *cat = mkBin(K_Concat, ex(A(0), w), ex(A(1), w));
    if (!s.e && w <= 64) { unsigned sh = (unsigned)(s.c % w); Expr *r = id == Intrinsic::fshl ? mkExtract(cat, w - (int)sh, w) : mkExtract(cat, (int)sh, w); if (id == Intrinsic::fshl && sh == 0) r = ex(A(0), w); setr(f, in.dst, mkv(r)); }
    else { Expr *sh = mkCast(K_ZExt, 2 * w, mkBin(K_URem, ex(s, w), mkConst(w, w))); Expr *r = id == Intrinsic::fshl ? mkExtract(mkBin(K_Shl, cat, sh), w, w) : mkExtract(mkBin(K_LShr, cat, sh), 0, w); setr(f, in.dst, mkv(r)); }
    return true; }
  case Intrinsic::sadd_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::umul_with_overflow: { Val o; Val r = withOvf(id, A(0), A(1), w, o); setr(f, in.dst, r); setr(f, in.dst + 1, o); return true; }
  case Intrinsic::uadd_sat: for (uint32_t i = 0; i < n; i++) { Val o; Val r = withOvf(Intrinsic::uadd_with_overflow, A(0, i), A(1, i), w, o); setr(f, in.dst + i, selv(o, cv(maskw(w)), r, w)); } return true;
  case Intrinsic::usub_sat: for (uint32_t i = 0; i < n; i++) { Val o; Val r = withOvf(Intrinsic::usub_with_overflow, A(0, i), A(1, i), w, o); setr(f, in.dst + i, selv(o, cv(0), r, w)); } return true;
  case Intrinsic::sadd_sat: case Intrinsic::ssub_sat: for (uint32_t i = 0; i < n; i++) { Val o; Val r = withOvf(id == Intrinsic::sadd_sat ? Intrinsic::sadd_with_overflow : Intrinsic::ssub_with_overflow, A(0, i), A(1, i), w, o); Val sg = binop(K_Slt, w, A(0, i), cv(0)); setr(f, in.dst + i, selv(o, selv(sg, cv(1ull << (w - 1)), cv(maskw(w - 1)), w), r, w)); } return true;
  case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: setr(f, in.dst, A(0)); return true;
  case Intrinsic::is_constant: setr(f, in.dst, cv(0)); return true;
  case Intrinsic::objectsize: setr(f, in.dst, cv(maskw(w))); return true;
  case Intrinsic::ptrmask: setr(f, in.dst, binop(K_And, 64, A(0), A(1))); return true;
  case Intrinsic::fabs: for (uint32_t i = 0; i < n; i++) setr(f, in.dst + i, binop(K_And, w, A(0, i), cv(maskw(w - 1)))); return true;
  case Intrinsic::copysign: setr(f, in.dst, binop(K_Or, w, binop(K_And, w, A(0), cv(maskw(w - 1))), binop(K_And, w, A(1), cv(1ull << (w - 1))))); return true;
  case Intrinsic::floor: setr(f, in.dst, castop(K_FRound, w, w, A(0), 0)); return true;
  case Intrinsic::ceil: setr(f, in.dst, castop(K_FRound, w, w, A(0), 1)); return true;
  case Intrinsic::trunc: setr(f, in.dst, castop(K_FRound, w, w, A(0), 2)); return true;
  case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: setr(f, in.dst, castop(K_FRound, w, w, A(0), 3)); return true;
  case Intrinsic::round: setr(f, in.dst, castop(K_FRound, w, w, A(0), 4)); return true;
  case Intrinsic::fmuladd: setr(f, in.dst, binop(K_FAdd, w, binop(K_FMul, w, A(0), A(1)), A(2))); return true;
  case Intrinsic::is_fpclass: { // build from bits
    Val a = A(0); int aw = (*in.argl[0])[0].w; u64 m = A(1).c; int mb = aw == 64 ? 52 : 23, eb = aw == 64 ? 11 : 8;
    Expr *e = ex(a, aw), *man = mkExtract(e, 0, mb), *exx = mkExtract(e, mb, eb), *sg = mkExtract(e, aw - 1, 1), *z = mkBin(K_Eq, man, mkConst(mb, 0)), *e0 = mkBin(K_Eq, exx, mkConst(eb, 0)), *e1 = mkBin(K_Eq, exx, mkConst(eb, maskw(eb))), *q = mkExtract(e, mb - 1, 1), *r = mkConst(1, 0);
    auto And = [&](Expr *x, Expr *y) { return mkBin(K_And, x, y); }; auto orr = [&](Expr *x) { r = mkBin(K_Or, r, x); };
    if (m & 1) orr(And(e1, And(mkNot(z), mkNot(q)))); if (m & 2) orr(And(e1, q)); if (m & 4) orr(And(sg, And(e1, z))); if (m & 8) orr(And(sg, And(mkNot(e0), mkNot(e1)))); if (m & 16) orr(And(sg, And(e0, mkNot(z)))); if (m & 32) orr(And(sg, And(e0, z)));
    if (m & 64) orr(And(mkNot(sg), And(e0, z))); if (m & 128) orr(And(mkNot(sg), And(e0, mkNot(z)))); if (m & 256) orr(And(mkNot(sg), And(mkNot(e0), mkNot(e1)))); if (m & 512) orr(And(mkNot(sg), And(e1, z)));
    setr(f, in.dst, mkv(r)); return true; }
  case Intrinsic::eh_typeid_for: setr(f, in.dst, cv((A(0).c >> OFFB) & 0xfffff)); return true;
  case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_umax: case Intrinsic::vector_reduce_umin: case Intrinsic::aarch64_neon_umaxv: case Intrinsic::aarch64_neon_uminv: {
    uint32_t m = (uint32_t)in.argl[0]->size(); int aw = (*in.argl[0])[0].w; Val r = A(0, 0);
    for (uint32_t i = 1; i < m; i++) { Val x = A(0, i); switch (id) { case Intrinsic::vector_reduce_or: r = binop(K_Or, aw, r, x); break; case Intrinsic::vector_reduce_and: r = binop(K_And, aw, r, x); break; case Intrinsic::vector_reduce_add: r = binop(K_Add, aw, r, x); break; case Intrinsic::vector_reduce_umin: case Intrinsic::aarch64_neon_uminv: r = selv(binop(K_Ult, aw, x, r), x, r, aw); break; default: r = selv(binop(K_Ult, aw, r, x), x, r, aw); } }
    if (w != aw) r = castop(K_ZExt, w, aw, r); setr(f, in.dst, r); return true; }
  case Intrinsic::x86_sse2_pmovmskb_128: case Intrinsic::x86_avx2_pmovmskb: {
    uint32_t m = (uint32_t)in.argl[0]->size(); Expr *r = nullptr; bool allc = true; u64 c = 0;
    for (uint32_t i = 0; i < m; i++) { Val x = A(0, i); if (x.e) allc = false; else c |= ((x.c >> 7) & 1) << i; }
    if (allc) { setr(f, in.dst, cv(c)); return true; }
    for (uint32_t i = 0; i < m; i++) { Expr *b = mkExtract(ex(A(0, i), 8), 7, 1); r = r ? mkBin(K_Concat, b, r) : b; }
    setr(f, in.dst, mkv(mkCast(K_ZExt, 32, r))); return true; }
  case Intrinsic::x86_sse42_pcmpistri128: { // modes used: unsigned bytes, equal any (0) or ranges (4), least significant index
    u64 imm = A(2).c; unsigned agg = (imm >> 2) & 3; if ((imm & 3) != 0 || agg > 1 || (imm & 0x40)) { unsupported("pcmpistri mode"); return true; }
    bool neg = (imm >> 4) & 1; bool negm = (imm >> 5) & 1;
    int na = 16; std::vector<u64> set; for (int i = 0; i < 16; i++) { Val x = A(0, i); if (x.e) { unsupported("pcmpistri symbolic set"); return true; } if (!x.c) { na = i; break; } set.push_back(x.c); }
    // valid = bytes before the first NUL of operand b
    Expr *valid = mkConst(1, 1), *res = mkConst(32, 16); std::vector<Expr *> hit;
    for (int i = 0; i < 16; i++) {
      Expr *x = ex(A(1, i), 8); valid = mkBin(K_And, valid, mkNot(mkBin(K_Eq, x, mkConst(8, 0)))); Expr *h = mkConst(1, 0);
      if (agg == 0) for (int j = 0; j < na; j++) h = mkBin(K_Or, h, mkBin(K_Eq, x, mkConst(8, set[j])));
      else for (int j = 0; j + 1 < na; j += 2) h = mkBin(K_Or, h, mkBin(K_And, mkBin(K_Ule, mkConst(8, set[j]), x), mkBin(K_Ule, x, mkConst(8, set[j + 1]))));
      h = mkBin(K_And, h, valid); if (neg) { if (negm) h = mkBin(K_And, mkNot(h), valid), h = mkIte(valid, h, mkConst(1, 0)); else h = mkNot(h); } hit.push_back(h);
    }
    for (int i = 15; i >= 0; i--) res = mkIte(hit[i], mkConst(32, i), res);
    setr(f, in.dst, mkv(res)); return true; }
  default: break;
  }
  std::string nm = in.callee->getName().str();
  unsupported("intrinsic " + nm); return true;
}
static bool builtin(Frame &f, Ins &in, int b) { // returns true if control already transferred
  auto A = [&](int k) -> Val { return get(f, in.args[k]); };
  switch (b) {
  case B_new: case B_malloc: { u64 n = concretize(A(0), 64); if (dead) return true; u64 a = allocHeap(n); if (dead) return true; setr(f, in.dst, cv(a)); break; }
  case B_calloc: { u64 n = concretize(A(0), 64) * concretize(A(1), 64); if (dead) return true; u64 a = allocHeap(n); if (dead) return true; Obj *o = S->mem.wr(addrId(a)); std::fill(o->d.begin(), o->d.end(), 0); setr(f, in.dst, cv(a)); break; }
  case B_realloc: { u64 p = concretize(A(0), 64), n = concretize(A(1), 64); if (dead) return true; u64 a = allocHeap(n); if (dead) return true; if (p) { uint32_t id; i64 off; Obj *o = resolve(p, 0, false, id, off); if (!o) return true; copyMem(a, p, std::min<u64>(n, o->size)); if (dead) return true; freeHeap(p); if (dead) return true; } setr(f, in.dst, cv(a)); break; }
  case B_delete: case B_free: { u64 p = concretize(A(0), 64); if (dead) return true; freeHeap(p); break; }
  case B_memcpy: { u64 n = concretize(A(2), 64), d = concretize(A(0), 64), s = concretize(A(1), 64); if (dead) return true; copyMem(d, s, n); setr(f, in.dst, cv(d)); break; }
  case B_memset: { u64 n = concretize(A(2), 64), d = concretize(A(0), 64); if (dead) return true; Val v = castop(K_Extract, 8, 32, A(1)); if (n) { uint32_t id; i64 off; Obj *o = resolve(d, n, true, id, off); if (!o) return true; o = S->mem.wr(id); for (u64 i = 0; i < n; i++) storeByte(o, off + i, v); } setr(f, in.dst, cv(d)); break; }
  case B_memcmp: case B_bcmp: case B_strcmp: case B_strncmp: {
    bool str = b == B_strcmp || b == B_strncmp; u64 n = b == B_strcmp ? ~0ull : concretize(A(2), 64), p = concretize(A(0), 64), q = concretize(A(1), 64); if (dead) return true;
    u64 r = 0;
    if (!str && n) { uint32_t id; i64 off; if (!resolve(p, n, false, id, off)) return true; if (!resolve(q, n, false, id, off)) return true; }
    for (u64 i = 0; i < n; i++) {
      Val x = readB(p + i); if (dead) return true; Val y = readB(q + i); if (dead) return true;
      Val e = binop(K_Eq, 8, x, y); bool eq = e.e ? branchOn(e.e) : e.c; if (dead) return true;
      if (!eq) { if (b == B_bcmp) r = 1; else { Val l = binop(K_Ult, 8, x, y); bool lt = l.e ? branchOn(l.e) : l.c; r = lt ? 0xffffffffu : 1; } break; }
      if (str) { Val z = binop(K_Eq, 8, x, cv(0)); bool iz = z.e ? branchOn(z.e) : z.c; if (iz) break; }
    }
    if (dead) return true; setr(f, in.dst, cv(r)); break; }
  case B_eqmem: { // vf_eqmem: one solver-level equality over two byte ranges, no forking
    u64 n = concretize(A(2), 64), p = concretize(A(0), 64), q = concretize(A(1), 64); if (dead) return true; Expr *r = mkConst(1, 1);
    if (n) { uint32_t id; i64 off; if (!resolve(p, n, false, id, off)) return true; if (!resolve(q, n, false, id, off)) return true; }
    for (u64 i = 0; i < n && !isFalse(r); i++) { Val e = binop(K_Eq, 8, readB(p + i), readB(q + i)); r = mkBin(K_And, r, ex(e, 1)); }
    if (dead) return true; setr(f, in.dst, mkv(mkCast(K_ZExt, in.w, r))); break; }
  case B_memchr: { u64 n = concretize(A(2), 64), p = concretize(A(0), 64); if (dead) return true; Val c = castop(K_Extract, 8, 32, A(1)); u64 r = 0;
    for (u64 i = 0; i < n; i++) { Val x = readB(p + i); if (dead) return true; Val e = binop(K_Eq, 8, x, c); bool eq = e.e ? branchOn(e.e) : e.c; if (eq) { r = p + i; break; } }
    setr(f, in.dst, cv(r)); break; }
  case B_strlen: case B_strnlen: { u64 p = concretize(A(0), 64), n = b == B_strnlen ? concretize(A(1), 64) : ~0ull; if (dead) return true; u64 i = 0; for (; i < n; i++) { Val x = readB(p + i); if (dead) return true; Val e = binop(K_Eq, 8, x, cv(0)); bool z = e.e ? branchOn(e.e) : e.c; if (z) break; } setr(f, in.dst, cv(i)); break; }
  case B_abort: violation("abort", "abort() called"); return true;
  case B_terminate: violation("abort", "std::terminate called"); return true;
  case B_assert: violation("assert", "assertion failed: " + cstr(A(0).c)); return true;
  case B_pure: violation("abort", "pure virtual call"); return true;
  case B_throw: { std::string n = demangle(in.callee->getName().str()); throwExc(0, 1, "exception: " + n.substr(0, n.find('('))); return true; }
  case B_cxa_alloc_exc: { u64 a = allocHeap(A(0).c + 64); setr(f, in.dst, cv(a)); break; }
  case B_cxa_throw: throwExc(A(0).c, A(1).c, "exception thrown"); return true;
  case B_begin_catch: setr(f, in.dst, A(0)); break;
  case B_end_catch: case B_free_exc: case B_nop: break;
  case B_guard_acq: { Val g = readB(A(0).c); if (dead) return true; setr(f, in.dst, cv(g.c ? 0 : 1)); break; }
  case B_guard_rel: { uint32_t id; i64 off; Obj *o = resolve(A(0).c, 1, true, id, off); if (!o) return true; o = S->mem.wr(id); o->d[off] = 1; break; }
  case B_ret0: if (in.dst >= 0) setr(f, in.dst, cv(0)); break;
  case B_ret1: if (in.dst >= 0) setr(f, in.dst, cv(1)); break;
  case B_sym: { u64 p = A(0).c, n = concretize(A(1), 64); if (dead) return true; doSymbolic(p, n, cstr(A(2).c)); if (dead) return true; break; }
  case B_assume: { Val v = A(0); int aw = (*in.argl[0])[0].w; Expr *c = mkNot(mkBin(K_Eq, ex(v, aw), mkConst(aw, 0))); if (c->isConst()) { if (!c->extra) { nKilled++; killPath(); return true; } } else doAssume(c); if (dead) return true; break; }
  case B_check: { Val v = A(0); int aw = (*in.argl[0])[0].w; Expr *c = mkNot(mkBin(K_Eq, ex(v, aw), mkConst(aw, 0))); doCheck(mkv(c), cstr(A(1).c)); if (dead) return true; break; }
  case B_fail: nChecks++; report("check", cstr(A(0).c), S->model.data(), true); return true;
  case B_reach: { std::string n = cstr(A(0).c); auto it = reachIdx.find(n); uint32_t k; if (it == reachIdx.end()) { k = (uint32_t)reachNames.size(); reachIdx[n] = k; reachNames.push_back(n); } else k = it->second; bool have = false; for (auto x : S->reach) if (x == k) have = true; if (!have) S->reach.push_back(k); break; }
  case B_concretize: { u64 k = concretize(A(0), 64); if (dead) return true; setr(f, in.dst, cv(k)); break; }
  case B_param: { u64 k = A(0).c; setr(f, in.dst, cv((u64)(k < 16 ? g_params[k] : 0) & 0xffffffffu)); break; }
  case B_issym: setr(f, in.dst, cv(A(0).e != nullptr)); break;
  case B_observe: { u64 p = A(0).c, n = concretize(A(1), 64); if (dead) return true; for (u64 i = 0; i < n; i++) { Val x = readB(p + i); if (dead) return true; S->obs.push_back(x); } break; }
  case B_mathd: case B_mathf: case B_mathdd: {
    std::string n = in.callee->getName().str(); Val a = A(0); bool fl = b == B_mathf; int w = fl ? 32 : 64;
    if (n == "floor" || n == "floorf") { setr(f, in.dst, castop(K_FRound, w, w, a, 0)); break; }
    if (n == "ceil" || n == "ceilf") { setr(f, in.dst, castop(K_FRound, w, w, a, 1)); break; }
    if (n == "trunc") { setr(f, in.dst, castop(K_FRound, w, w, a, 2)); break; }
    if (n == "rint") { setr(f, in.dst, castop(K_FRound, w, w, a, 3)); break; }
    if (n == "round" || n == "roundf") { setr(f, in.dst, castop(K_FRound, w, w, a, 4)); break; }
    u64 x = concretize(a, w); if (dead) return true; u64 y = b == B_mathdd ? concretize(A(1), 64) : 0; if (dead) return true;
    double d, e, r = 0; memcpy(&d, &x, 8); memcpy(&e, &y, 8); if (fl) { float t; memcpy(&t, &x, 4); d = t; }
    if (n == "log10" || n == "log10f") r = std::log10(d); else if (n == "log2") r = std::log2(d); else if (n == "log") r = std::log(d); else if (n == "exp") r = std::exp(d); else if (n == "sqrt") r = std::sqrt(d); else if (n == "pow") r = std::pow(d, e); else if (n == "nextafter") r = std::nextafter(d, e); else if (n == "fmod") r = std::fmod(d, e);
    u64 o = 0; if (fl) { float t = (float)r; memcpy(&o, &t, 4); } else memcpy(&o, &r, 8); setr(f, in.dst, cv(o)); break; }
  default: unsupported("builtin"); return true;
  }
  return false;
}
static void doCall(Frame &f, Ins &in) {
  Function *cal = in.callee; int b = in.builtin;
  if (!cal) {
    u64 a = concretize(get(f, in.c), 64); if (dead) return;
    auto it = addrFn.find(a); if (it == addrFn.end()) { violation(a < 65536 ? "null" : "wild", "call through an invalid function pointer"); return; }
    cal = it->second; b = Decoder::builtinOf(cal);
  }
  if (b >= 100000) { intrinsic(f, in); if (!dead) finishCall(f, in); return; }
  if (b >= 0) { Function *sv = in.callee; in.callee = cal; bool t = builtin(f, in, b); in.callee = sv; if (!t && !dead) finishCall(f, in); return; }
  if (b == -2) { unsupported("external " + cal->getName().str()); return; }
  FnInfo *fi = getFn(cal);
  if (S->fr.size() > 4000) { violation("stack", "call depth over 4000"); return; }
  std::vector<Val> args; 
  for (size_t k = 0; k < in.args.size(); k++) for (size_t j = 0; j < in.argl[k]->size(); j++) args.push_back(get(f, in.args[k], (uint32_t)j));
  std::vector<std::pair<size_t, u64>> bv; { size_t p = 0; for (size_t k = 0; k < in.args.size(); k++) { if (in.byval[k]) bv.push_back({p, in.byval[k]}); p += in.argl[k]->size(); } }
  std::vector<uint32_t> al;
  for (auto &x : bv) { u64 a; uint32_t id = S->mem.alloc((uint32_t)x.second, 1, a); al.push_back(id); copyMem(a, args[x.first].c, x.second); if (dead) return; args[x.first] = cv(a); }
  int dst = in.dst; uint32_t n = in.n;
  pushFrame(fi, dst, n); // f may dangle from here on
  Frame &nf = S->fr.back(); nf.allocas = al;
  size_t p = 0; for (size_t k = 0; k < fi->params.size(); k++) for (size_t j = 0; j < fi->paramL[k]->size(); j++) { if (p < args.size()) S->regs[nf.base + fi->params[k] + j] = args[p++]; }
}
static void endPath() {
  nPaths++;
  for (auto k : S->reach) reachCount[reachNames[k]]++;
  if (S->incomplete) reachCount["__incomplete"]++;
  bool want = nPaths <= 10 || (nPaths % sampleEvery == 0);
  if (want && nSamples < sampleMax) {
    nSamples++; Evaluator E(S->model.data()); std::vector<uint8_t> o; for (auto &v : S->obs) o.push_back((uint8_t)(v.e ? E.ev(v.e) : v.c));
    fprintf(outF, "{\"t\":\"trace\",\"in\":\"%s\",\"obs\":\"%s\"}\n", inputsHex(*S, S->model.data()).c_str(), hex(o).c_str());
  }
  dead = true;
}
static bool timeUp = false;
static void runState(State *s, bool keep = false) {
  S = s; dead = false; u64 start = S->steps;
  while (!dead) {
    Frame &f = S->fr.back();
    Ins &in = f.fn->code[f.pc];
    if (++S->steps > stepLimit) { nBudget++; violation("hang", "step budget exceeded"); break; }
    if ((S->steps & 8191) == 0 && now() > tEnd) { timeUp = true; break; }
    switch (in.op) {
    case O_Bin: {
      if (in.k == K_UDiv || in.k == K_SDiv || in.k == K_URem || in.k == K_SRem) {
        bool stop = false;
        for (uint32_t i = 0; i < in.n && !stop; i++) {
          Val b = get(f, in.b, i);
          if (!b.e) { if (!b.c) { violation("div0", "division by zero"); stop = true; } }
          else { Val z = mkv(mkBin(K_Eq, b.e, mkConst(in.w, 0))); bool iz = z.e ? branchOn(z.e) : z.c; if (iz) { violation("div0", "division by zero"); stop = true; } }
        }
        if (dead) break;
      }
      for (uint32_t i = 0; i < in.n; i++) setr(f, in.dst + i, binop(in.k, in.w, get(f, in.a, i), get(f, in.b, i)));
      f.pc++; break; }
    case O_ICmp: for (uint32_t i = 0; i < in.n; i++) { Val r = binop(in.k, in.w, get(f, in.a, i), get(f, in.b, i)); if (in.flag) { if (r.e) r = mkv(mkNot(r.e)); else r.c = !r.c; } setr(f, in.dst + i, r); } f.pc++; break;
    case O_FCmp: for (uint32_t i = 0; i < in.n; i++) { Val a = get(f, in.a, i), b = get(f, in.b, i); if (!a.e && !b.e) setr(f, in.dst + i, cv(evalOp(K_FCmp, 1, in.w, a.c, b.c, in.imm))); else setr(f, in.dst + i, mkv(mkBin(K_FCmp, ex(a, in.w), ex(b, in.w), in.imm))); } f.pc++; break;
    case O_Cast: for (uint32_t i = 0; i < in.n; i++) setr(f, in.dst + i, castop(in.k, in.w, in.w2, get(f, in.a, i))); f.pc++; break;
    case O_BitCast: {
      if (in.lay->size() == in.lay2->size() && in.w == in.w2) { for (uint32_t i = 0; i < in.n; i++) setr(f, in.dst + i, get(f, in.a, i)); f.pc++; break; }
      Expr *e = nullptr; for (uint32_t i = 0; i < in.lay2->size(); i++) { Expr *x = ex(get(f, in.a, i), in.w2); e = e ? mkBin(K_Concat, x, e) : x; }
      for (uint32_t i = 0; i < in.n; i++) setr(f, in.dst + i, mkv(mkExtract(e, i * in.w, in.w)));
      f.pc++; break; }
    case O_FNeg: for (uint32_t i = 0; i < in.n; i++) setr(f, in.dst + i, binop(K_Xor, in.w, get(f, in.a, i), cv(1ull << (in.w - 1)))); f.pc++; break;
    case O_Copy: for (uint32_t i = 0; i < in.n; i++) setr(f, in.dst + i, get(f, in.a, i)); f.pc++; break;
    case O_Load: { Val a = get(f, in.a); if (!a.e && in.n == 1) { uint32_t id; i64 off; Obj *o = resolve(a.c, in.imm, false, id, off); if (!o) break; setr(f, in.dst, loadLeafAt(o, off, (*in.lay)[0])); f.pc++; break; }
      std::vector<Val> tmp(std::max(1u, in.n)); doLoad(a, in.lay, in.imm, tmp.data()); if (dead) break; for (uint32_t i = 0; i < in.n; i++) setr(f, in.dst + i, tmp[i]); f.pc++; break; }
    case O_Store: { Val tmp[64]; std::vector<Val> big; size_t n = in.lay->size(); Val *t = tmp; if (n > 64) { big.resize(n); t = big.data(); } for (size_t i = 0; i < n; i++) t[i] = get(f, in.b, (uint32_t)i); doStore(get(f, in.a), in.lay, in.imm, t); if (!dead) f.pc++; break; }
    case O_GEP: { Val r = get(f, in.a); if (!r.e) r.c += in.imm; else if (in.imm) r = binop(K_Add, 64, r, cv(in.imm));
      for (size_t i = 0; i < in.gep.size(); i++) { Val x = get(f, in.gep[i].first); int w = in.gepw[i]; if (!x.e && !r.e) { r.c += (u64)sextw(x.c, w) * in.gep[i].second; continue; } x = w < 64 ? castop(K_SExt, 64, w, x) : x; if (in.gep[i].second != 1) x = binop(K_Mul, 64, x, cv(in.gep[i].second)); r = binop(K_Add, 64, r, x); }
      setr(f, in.dst, r); f.pc++; break; }
    case O_Alloca: { u64 n = concretize(get(f, in.a), in.w2); if (dead) break; u64 sz = n * in.imm; if (sz > 8 * 1024 * 1024) { violation("alloc", "huge stack allocation"); break; } u64 a; uint32_t id = S->mem.alloc((uint32_t)sz, 1, a); f.allocas.push_back(id); setr(f, in.dst, cv(a)); f.pc++; break; }
    case O_Br: takeEdge(f, in.e1); break;
    case O_CondBr: { Val c = get(f, in.a); bool t = c.e ? branchOn(c.e) : (bool)c.c; if (dead) break; takeEdge(S->fr.back(), t ? in.e1 : in.e2); break; }
    case O_Switch: { Val c = get(f, in.a);
      if (c.e) { Expr *e = specialize(c.e, S->dom.data()); if (e->isConst()) c = cv(e->extra); else {
          // fork on the groups of case values that share a destination
          std::map<uint32_t, std::vector<u64>> groups; std::vector<uint32_t> order; for (auto &k : in.cases) { if (k.second->copies.empty()) { if (!groups.count(k.second->target)) order.push_back(k.second->target); groups[k.second->target].push_back(k.first); } }
          Edge *go = nullptr; std::set<u64> done;
          for (auto t : order) { Expr *c2 = mkConst(1, 0); for (u64 v : groups[t]) { c2 = mkBin(K_Or, c2, mkBin(K_Eq, e, mkConst(in.w, v))); done.insert(v); } if (isFalse(c2)) continue; if (decide(c2)) { for (auto &k : in.cases) if (k.second->target == t && k.second->copies.empty()) { go = k.second; break; } break; } }
          if (!go) for (auto &k : in.cases) if (!done.count(k.first)) { Expr *c2 = mkBin(K_Eq, e, mkConst(in.w, k.first)); if (isFalse(c2)) continue; if (decide(c2)) { go = k.second; break; } }
          if (!go) go = in.e1;
          takeEdge(S->fr.back(), go); break; } }
      Edge *go = in.e1; for (auto &k : in.cases) if (k.first == c.c) { go = k.second; break; } takeEdge(f, go); break; }
    case O_Ret: {
      Val tmp[16]; std::vector<Val> big; Val *t = tmp; if (in.n > 16) { big.resize(in.n); t = big.data(); }
      for (uint32_t i = 0; i < in.n; i++) t[i] = get(f, in.a, i);
      int d = f.retDst; uint32_t nr = f.nret;
      if (S->fr.size() == 1) { endPath(); break; }
      popFrame(); Frame &cf = S->fr.back(); if (d >= 0) for (uint32_t i = 0; i < nr && i < in.n; i++) S->regs[cf.base + d + i] = t[i];
      finishCall(cf, cf.fn->code[cf.pc]); break; }
    case O_Unreach: violation("unreachable", "unreachable code reached"); break;
    case O_Select: {
      if (in.n == 1 && !(*in.lay)[0].fp && (*in.lay)[0].w >= 32) { // index-like results: case-split instead of merging
        Val c = get(f, in.c); if (c.e) { Val a = get(f, in.a), b = get(f, in.b); bool idx = (*in.lay)[0].w == 64 && !a.e && !b.e; if (idx || c.e->kind != K_Tab) { bool t = branchOn(c.e); if (dead) break; Frame &g = S->fr.back(); setr(g, in.dst, get(g, t ? in.a : in.b)); g.pc++; break; } } }
      for (uint32_t i = 0; i < in.n; i++) { Val c = get(f, in.c, in.flag ? i : 0); setr(f, in.dst + i, selv(c, get(f, in.a, i), get(f, in.b, i), (*in.lay)[i].w)); } f.pc++; break; }
    case O_ExtractV: for (uint32_t i = 0; i < in.n; i++) setr(f, in.dst + i, get(f, in.a, (uint32_t)in.imm + i)); f.pc++; break;
    case O_InsertV: { for (uint32_t i = 0; i < in.n; i++) setr(f, in.dst + i, get(f, in.a, i)); for (uint32_t i = 0; i < in.lay2->size(); i++) setr(f, in.dst + (int)in.imm + i, get(f, in.b, i)); f.pc++; break; }
    case O_ExtractE: { u64 i = concretize(get(f, in.b), in.w2); if (dead) break; setr(f, in.dst, get(f, in.a, (uint32_t)(i < in.imm ? i : 0))); f.pc++; break; }
    case O_InsertE: { u64 k = concretize(get(f, in.c), in.w2); if (dead) break; for (uint32_t i = 0; i < in.n; i++) setr(f, in.dst + i, get(f, in.a, i)); Val b = get(f, in.b); if (k < in.n) setr(f, in.dst + (int)k, b); f.pc++; break; }
    case O_Shuffle: { std::vector<Val> t(in.n); for (uint32_t i = 0; i < in.n; i++) { int m = in.mask[i]; t[i] = m < 0 ? cv(0) : (u64)m < in.imm ? get(f, in.a, m) : get(f, in.b, m - (int)in.imm); } for (uint32_t i = 0; i < in.n; i++) setr(f, in.dst + i, t[i]); f.pc++; break; }
    case O_AtomicRMW: { Val old; doLoad(get(f, in.a), in.lay, in.imm, &old); if (dead) break; Val nv = binop(in.k, in.w, old, get(f, in.b)); doStore(get(f, in.a), in.lay, in.imm, &nv); if (dead) break; setr(f, in.dst, old); f.pc++; break; }
    case O_Call: case O_Invoke: doCall(f, in); break;
    case O_Resume: { if (S->fr.size() == 1) { violation("exception", "exception"); break; } popFrame(); if (!unwind()) violation("exception", "exception"); break; }
    default: { std::string s; raw_string_ostream o(s); in.I->print(o); unsupported("instruction " + s); }
    }
  }
  nSteps += S->steps - start;
  if (!keep) delete S;
}
static void initGlobals(State *s, std::vector<GlobalVariable *> &rw) {
  S = s;
  // addresses: constants and functions in the shared base table, the rest in the state
  for (auto &f : *M) { Obj *o = new Obj; o->gen = 1; o->kind = 3; o->ro = true; u64 a = mkAddr((uint32_t)baseObjs.size(), 1); baseObjs.push_back(o); gaddr[&f] = a; addrFn[a] = &f; }
  for (auto &g : M->globals()) if (g.isConstant() && g.hasInitializer()) { Obj *o = new Obj; o->gen = 1; o->kind = 2; o->ro = true; o->size = (uint32_t)DL->getTypeAllocSize(g.getValueType()); o->d.assign(o->size, 0); gaddr[&g] = mkAddr((uint32_t)baseObjs.size(), 1); baseObjs.push_back(o); }
  if (baseObjs.size() >= (1u << (IDB - 1))) { errs() << "too many globals\n"; exit(3); }
  for (auto &g : M->globals()) if (!(g.isConstant() && g.hasInitializer())) { u64 sz = g.hasInitializer() ? (u64)DL->getTypeAllocSize(g.getValueType()) : 128; u64 a; uint32_t id = s->mem.alloc((uint32_t)sz, 2, a); gaddr[&g] = a; Obj *o = s->mem.wr(id); std::fill(o->d.begin(), o->d.end(), 0); if (!g.hasInitializer() && g.getName() == "__libc_single_threaded") o->d[0] = 1; rw.push_back(&g); }
  for (auto &g : M->globals()) if (g.hasInitializer()) { uint32_t id = addrId(gaddr[&g]); Obj *o = g.isConstant() ? baseObjs[id] : s->mem.wr(id); if (o->size) storeInit(g.getInitializer(), o->d.data()); }
}
static void startFn(State *s, Function *f) { S = s; pushFrame(getFn(f), -1, 0); }
static void emitStats(double wall, u64 left) {
  fprintf(outF, "{\"t\":\"stats\",\"paths\":%llu,\"forks\":%llu,\"killed\":%llu,\"steps\":%llu,\"checks\":%llu,\"checks_const\":%llu,\"undecided\":%llu,\"unsup\":%llu,\"budget\":%llu,\"domdec\":%llu,\"concretize\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"fallback\":%llu,\"ext\":%llu,\"cachehit\":%llu,\"fdom\":%llu,\"cross\":%llu,\"crossbad\":%llu,\"solver_s\":%.3f,\"solver_max\":%.3f,\"nodes\":%llu,\"lin\":%llu,\"wall\":%.2f,\"left\":%llu,\"timeup\":%d,\"viol\":%d}\n",
    nPaths, nForks, nKilled, nSteps, nChecks, nChecksConst, nUndecided, nUnsup, nBudget, nDomDec, nConcretize, g_ss.queries, g_ss.sat, g_ss.unsat, g_ss.unknown, g_ss.fallback, g_ss.ext, g_ss.cachehit, g_ss.fdom, g_ss.cross, g_ss.crossbad, g_ss.time, g_ss.maxtime, g_nodes, nLin, wall, left, timeUp ? 1 : 0, violTotal);
  for (auto &p : reachCount) fprintf(outF, "{\"t\":\"reach\",\"name\":\"%s\",\"n\":%llu}\n", jesc(p.first).c_str(), p.second);
  for (auto &p : unsupMsgs) fprintf(outF, "{\"t\":\"unsup\",\"msg\":\"%s\",\"n\":%llu}\n", jesc(p.first.substr(0, 400)).c_str(), p.second);
  for (auto &p : fnInfo) if (p.second->hits) fprintf(outF, "{\"t\":\"fn\",\"name\":\"%s\",\"n\":%llu}\n", jesc(demangle(p.first->getName().str()).substr(0, 200)).c_str(), p.second->hits);
  fflush(outF);
}
static void resetStats() { nPaths = nForks = nKilled = nSteps = nChecks = nChecksConst = nUndecided = nUnsup = nBudget = nDomDec = nConcretize = 0; g_ss = SolverStats(); reachCount.clear(); unsupMsgs.clear(); violTotal = 0; for (auto &p : fnInfo) p.second->hits = 0; }
static bool memHigh() { static int c = 0; if (++c & 255) return false; FILE *fp = fopen("/proc/self/statm", "r"); if (!fp) return false; long a = 0, b = 0; if (fscanf(fp, "%ld %ld", &a, &b) != 2) b = 0; fclose(fp); return b * 4096.0 > 3.2e9; }
static u64 dfs(u64 maxPaths) { (void)maxPaths; while (!work.empty() && !timeUp) { if (now() > tEnd || memHigh()) { timeUp = true; break; } if (violTotal > violMax * 50) break; State *s = work.back(); work.pop_back(); runState(s); } return work.size(); }
int main(int argc, char **argv) {
  std::vector<std::string> bcs; std::string entry = "vf_main", out = "/dev/stdout"; int jobs = 1; double tl = 1e9; bool list = false;
  for (int i = 1; i < argc; i++) { std::string a = argv[i];
    if (a == "--entry") entry = argv[++i]; else if (a == "--out") out = argv[++i]; else if (a == "--jobs") jobs = atoi(argv[++i]); else if (a == "--time") tl = atof(argv[++i]); else if (a == "--steps") stepLimit = strtoull(argv[++i], 0, 10); else if (a == "--samples") sampleMax = strtoull(argv[++i], 0, 10); else if (a == "--every") sampleEvery = strtoull(argv[++i], 0, 10); else if (a == "--fast-ms") g_solver_fast_ms = atoi(argv[++i]); else if (a == "--slow-ms") g_solver_slow_ms = atoi(argv[++i]); else if (a == "--dump") g_dumpdir = argv[++i]; else if (a == "--cross") g_cross_every = atoi(argv[++i]); else if (a == "--p") { std::string v = argv[++i]; int k = 0; size_t q = 0; while (q <= v.size() && k < 16) { g_params[k++] = atoi(v.c_str() + q); size_t c = v.find(',', q); if (c == std::string::npos) break; q = c + 1; } } else if (a == "--list") list = true; else bcs.push_back(a); }
  double t0 = now(); tEnd = t0 + tl; g_deadline = tl < 1e8 ? tEnd : 0;
  LLVMContext ctx; SMDiagnostic err;
  std::unique_ptr<Module> mod = parseIRFile(bcs[0], err, ctx); if (!mod) { err.print("engine", errs()); return 3; }
  for (size_t i = 1; i < bcs.size(); i++) { auto m2 = parseIRFile(bcs[i], err, ctx); if (!m2) { err.print("engine", errs()); return 3; } if (Linker::linkModules(*mod, std::move(m2), Linker::Flags::LinkOnlyNeeded)) { errs() << "link failed\n"; return 3; } }
  M = mod.get(); DL = &M->getDataLayout();
  if (list) { for (auto &f : *M) if (f.isDeclaration() && !f.isIntrinsic()) outs() << f.getName() << " " << Decoder::builtinOf(&f) << "\n"; return 0; }
  outF = fopen(out.c_str(), "w"); if (!outF) return 3; setvbuf(outF, nullptr, _IOFBF, 1 << 16);
  State *s0 = new State; std::vector<GlobalVariable *> rw; initGlobals(s0, rw);
  // static constructors, concretely
  u64 keepMax = sampleMax; sampleMax = 0;
  if (auto *gc = M->getNamedGlobal("llvm.global_ctors")) if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
    std::vector<std::pair<u64, Function *>> cs; for (auto &o : ca->operands()) { auto *st = cast<ConstantStruct>(o); if (auto *f = dyn_cast<Function>(st->getOperand(1)->stripPointerCasts())) cs.push_back({cast<ConstantInt>(st->getOperand(0))->getZExtValue(), f}); }
    std::stable_sort(cs.begin(), cs.end(), [](auto &a, auto &b) { return a.first < b.first; });
    for (auto &c : cs) { startFn(s0, c.second); int v0 = violTotal; runState(s0, true); if (violTotal != v0 || s0->fr.size() != 1) { errs() << "static constructor failed\n"; return 3; } S = s0; popFrame(); }
  }
  sampleMax = keepMax;
  Function *ef = M->getFunction(entry); if (!ef) { errs() << "no entry " << entry << "\n"; return 3; }
  s0->steps = 0; nPaths = 0; nSamples = 0; startFn(s0, ef); resetStats(); nSamples = 0;
  work.push_back(s0);
  if (jobs <= 1) { u64 left = dfs(0); emitStats(now() - t0, left); fclose(outF); return 0; }
  // breadth-first until there is enough to share out
  size_t target = (size_t)jobs * 24; u64 burst = 0;
  while (!work.empty() && work.size() < target && !timeUp && burst < 4000 && now() < tEnd) { State *s = work.front(); work.pop_front(); runState(s); burst++; }
  emitStats(now() - t0, 0); fflush(outF);
  if (work.empty()) { fclose(outF); return 0; }
  std::vector<State *> items(work.begin(), work.end()); work.clear();
  unsigned *ctr = (unsigned *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); *ctr = 0;
  std::vector<pid_t> kids;
  for (int j = 0; j < jobs; j++) {
    pid_t p = fork();
    if (p == 0) {
      outF = fopen((out + "." + std::to_string(j)).c_str(), "w"); setvbuf(outF, nullptr, _IOFBF, 1 << 16); resetStats(); nSamples = 0; u64 left = 0; double t1 = now();
      for (;;) { unsigned i = __atomic_fetch_add(ctr, 1, __ATOMIC_SEQ_CST); if (i >= items.size()) break; if (timeUp || now() > tEnd) { timeUp = true; left++; continue; } work.push_back(items[i]); left += dfs(0); if (timeUp) work.clear(); }
      emitStats(now() - t1, left); fclose(outF); _exit(0);
    }
    kids.push_back(p);
  }
  int rc = 0; for (auto p : kids) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) rc = 4; }
  fclose(outF);
  return rc;
}
