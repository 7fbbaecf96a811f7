#include "expr.h"
#include <cmath>
#include <unordered_map>
#include <map>
u64 g_nodes = 0;
static inline u64 mix(u64 h, u64 x) { h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; return h ^ (h >> 29); }

// ---------------------------------------------------------------- interning
static std::vector<Expr *> tabH(1 << 16, nullptr);
static u64 tabN = 0;
static bool sameE(Expr *x, Expr *y) {
  if (x->hash != y->hash || x->kind != y->kind || x->width != y->width || x->a != y->a || x->b != y->b || x->c != y->c ||
      x->extra != y->extra || x->tab != y->tab) return false;
  if (x->wide || y->wide) return x->wide && y->wide && *x->wide == *y->wide;
  return true;
}
static Expr *intern(Expr &t) {
  u64 h = mix(t.kind, t.width);
  h = mix(h, t.a ? t.a->id + 1 : 0); h = mix(h, t.b ? t.b->id + 1 : 0); h = mix(h, t.c ? t.c->id + 1 : 0);
  h = mix(h, t.extra); h = mix(h, t.tab ? t.tab->id + 1 : 0);
  if (t.wide) for (unsigned i = 0; i < t.wide->getNumWords(); i++) h = mix(h, t.wide->getRawData()[i]);
  t.hash = h;
  u64 i = h & (tabH.size() - 1);
  while (tabH[i]) { if (sameE(tabH[i], &t)) return tabH[i]; i = (i + 1) & (tabH.size() - 1); }
  Expr *e = new Expr(t);
  e->id = (uint32_t)++g_nodes;
  VarSet s;
  if (e->kind == K_Tab) s.add(e->var());
  if (e->a) s = s | e->a->sup;
  if (e->b) s = s | e->b->sup;
  if (e->c) s = s | e->c->sup;
  e->sup = s;
  if (t.wide) e->wide = new APInt(*t.wide);
  tabH[i] = e;
  if (++tabN * 2 > tabH.size()) {
    std::vector<Expr *> n(tabH.size() * 2, nullptr);
    for (auto *p : tabH) if (p) { u64 j = p->hash & (n.size() - 1); while (n[j]) j = (j + 1) & (n.size() - 1); n[j] = p; }
    tabH.swap(n);
  }
  return e;
}
static Expr blank() { Expr t; t.kind = K_Const; t.width = 0; t.id = 0; t.a = t.b = t.c = nullptr; t.extra = 0; t.tab = nullptr; t.wide = nullptr; t.hash = 0; return t; }
Expr *mkConst(int w, u64 v) {
  if (w > 64) return mkConstAP(APInt(w, v));
  Expr t = blank(); t.kind = K_Const; t.width = w; t.extra = v & maskw(w); return intern(t);
}
Expr *mkConstAP(const APInt &v) {
  int w = v.getBitWidth();
  if (w <= 64) return mkConst(w, v.getZExtValue());
  Expr t = blank(); t.kind = K_Const; t.width = w; APInt c(v); t.wide = &c; t.extra = v.isZero() ? 0 : 1; return intern(t);
}
static APInt constAP(Expr *e) { return e->wide ? *e->wide : APInt(e->width, e->extra); }

static std::unordered_multimap<u64, Table *> tables;
static std::vector<Table *> tableList;
const Table *internTable(int width, const u64 *v) {
  u64 h = width;
  for (int i = 0; i < 256; i++) h = mix(h, v[i]);
  auto r = tables.equal_range(h);
  for (auto it = r.first; it != r.second; ++it) if (it->second->width == width && !memcmp(it->second->v, v, sizeof(u64) * 256)) return it->second;
  Table *t = new Table; t->id = (int)tableList.size(); t->width = width; memcpy(t->v, v, sizeof t->v);
  t->bits = Dom::none(); if (width == 1) for (int i = 0; i < 256; i++) if (v[i]) t->bits.add(i);
  t->identity = width == 8; for (int i = 0; i < 256; i++) if (v[i] != (u64)i) t->identity = false;
  tableList.push_back(t); tables.emplace(h, t); return t;
}
Expr *mkTab(int var, const Table *tb) {
  bool same = true; for (int i = 1; i < 256; i++) if (tb->v[i] != tb->v[0]) { same = false; break; }
  if (same) return mkConst(tb->width, tb->v[0]);
  Expr t = blank(); t.kind = K_Tab; t.width = tb->width; t.extra = var; t.tab = tb; return intern(t);
}
Expr *mkVar(int id) {
  static const Table *idt = nullptr;
  if (!idt) { u64 v[256]; for (int i = 0; i < 256; i++) v[i] = i; idt = internTable(8, v); }
  return mkTab(id, idt);
}
// ---------------------------------------------------------------- concrete evaluation
static double asD(u64 v) { double d; memcpy(&d, &v, 8); return d; }
static u64 fromD(double d) { u64 v; memcpy(&v, &d, 8); return v; }
static float asF(u64 v) { uint32_t x = (uint32_t)v; float d; memcpy(&d, &x, 4); return d; }
static u64 fromF(float d) { uint32_t v; memcpy(&v, &d, 4); return v; }
template <class F> static u64 fop(Kind k, F a, F b) {
  F r;
  switch (k) { case K_FAdd: r = a + b; break; case K_FSub: r = a - b; break; case K_FMul: r = a * b; break; case K_FDiv: r = a / b; break; default: r = std::fmod(a, b); }
  if (r != r) { if (sizeof(F) == 8) return 0x7ff8000000000000ull; return 0x7fc00000u; }
  return sizeof(F) == 8 ? fromD((double)r) : fromF((float)r);
}
template <class F> static bool fcmp(unsigned p, F a, F b) { // LLVM predicate bits: 1 eq,2 gt,4 lt,8 uno
  bool uno = (a != a) || (b != b);
  return ((p & 8) && uno) || (!uno && (((p & 1) && a == b) || ((p & 2) && a > b) || ((p & 4) && a < b)));
}
static double fround(double a, u64 mode) { switch (mode) { case 0: return std::floor(a); case 1: return std::ceil(a); case 2: return std::trunc(a); case 3: return std::nearbyint(a); default: return std::round(a); } }
u64 evalOp(Kind k, int w, int aw, u64 a, u64 b, u64 extra) {
  u64 m = maskw(w);
  switch (k) {
  case K_Add: return (a + b) & m;
  case K_Sub: return (a - b) & m;
  case K_Mul: return (a * b) & m;
  case K_UDiv: return b ? (a / b) & m : m;
  case K_URem: return b ? a % b : a;
  case K_SDiv: { i64 x = sextw(a, w), y = sextw(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (0 - (u64)x) & m; return (u64)(x / y) & m; }
  case K_SRem: { i64 x = sextw(a, w), y = sextw(b, w); if (!y) return a; if (y == -1) return 0; return (u64)(x % y) & m; }
  case K_And: return a & b;
  case K_Or: return a | b;
  case K_Xor: return a ^ b;
  case K_Shl: return b >= (u64)w ? 0 : (a << b) & m;
  case K_LShr: return b >= (u64)w ? 0 : a >> b;
  case K_AShr: { i64 x = sextw(a, w); return (u64)(x >> (b >= (u64)w ? w - 1 : b)) & m; }
  case K_Eq: return a == b;
  case K_Ult: return a < b;
  case K_Ule: return a <= b;
  case K_Slt: return sextw(a, aw) < sextw(b, aw);
  case K_Sle: return sextw(a, aw) <= sextw(b, aw);
  case K_ZExt: return a;
  case K_SExt: return (u64)sextw(a, aw) & m;
  case K_Extract: return (a >> extra) & m;
  case K_FAdd: case K_FSub: case K_FMul: case K_FDiv: case K_FRem:
    return w == 64 ? fop<double>(k, asD(a), asD(b)) : fop<float>(k, asF(a), asF(b));
  case K_FCmp: return aw == 64 ? fcmp<double>((unsigned)extra, asD(a), asD(b)) : fcmp<float>((unsigned)extra, asF(a), asF(b));
  case K_FToSI: { double d = aw == 64 ? asD(a) : asF(a); double lim = std::ldexp(1.0, w - 1); if (!(d > -lim - 1 && d < lim)) { if (w == 64 && d == -lim) return 1ull << 63; return (1ull << (w - 1)) & m; } return (u64)(i64)d & m; }
  case K_FToUI: { double d = aw == 64 ? asD(a) : asF(a); double lim = std::ldexp(1.0, w); if (!(d > -1 && d < lim)) return w == 64 ? 1ull << 63 : m; return (u64)d & m; }
  case K_SIToF: return w == 64 ? fromD((double)sextw(a, aw)) : fromF((float)sextw(a, aw));
  case K_UIToF: return w == 64 ? fromD((double)a) : fromF((float)a);
  case K_FConv: if (aw == w) return a; return w == 64 ? fromD((double)asF(a)) : fromF((float)asD(a));
  case K_FRound: return w == 64 ? fromD(fround(asD(a), extra)) : fromF((float)fround(asF(a), extra));
  default: fprintf(stderr, "evalOp %d\n", k); abort();
  }
}
static APInt evalAP(Kind k, int w, const APInt &a, const APInt &b, u64 extra) {
  int aw = a.getBitWidth();
  switch (k) {
  case K_Add: return a + b;
  case K_Sub: return a - b;
  case K_Mul: return a * b;
  case K_UDiv: return b.isZero() ? APInt::getAllOnes(w) : a.udiv(b);
  case K_URem: return b.isZero() ? a : a.urem(b);
  case K_SDiv: return b.isZero() ? (a.isNegative() ? APInt(w, 1) : APInt::getAllOnes(w)) : a.sdiv(b);
  case K_SRem: return b.isZero() ? a : a.srem(b);
  case K_And: return a & b;
  case K_Or: return a | b;
  case K_Xor: return a ^ b;
  case K_Shl: return b.uge(w) ? APInt(w, 0) : a.shl(b);
  case K_LShr: return b.uge(w) ? APInt(w, 0) : a.lshr(b);
  case K_AShr: return b.uge(w) ? a.ashr(w - 1) : a.ashr(b);
  case K_Eq: return APInt(1, a == b);
  case K_Ult: return APInt(1, a.ult(b));
  case K_Ule: return APInt(1, a.ule(b));
  case K_Slt: return APInt(1, a.slt(b));
  case K_Sle: return APInt(1, a.sle(b));
  case K_ZExt: return a.zext(w);
  case K_SExt: return a.sext(w);
  case K_Extract: return a.extractBits(w, (unsigned)extra);
  case K_Concat: return a.zext(w).shl(b.getBitWidth()) | b.zext(w);
  case K_UIToF: case K_SIToF: { double d = k == K_UIToF ? a.roundToDouble(false) : a.roundToDouble(true); (void)aw; return w == 64 ? APInt(64, fromD(d)) : APInt(32, fromF((float)d)); }
  case K_FToSI: case K_FToUI: { double d = aw == 64 ? asD(a.getZExtValue()) : asF(a.getZExtValue()); if (!(std::fabs(d) < std::ldexp(1.0, w - 1))) return APInt::getSignedMinValue(w); bool n = d < 0; if (n) d = -d; int e; double f = std::frexp(d, &e); u64 mant = (u64)std::ldexp(f, 53); APInt r(w, mant); r = e >= 53 ? r.shl(e - 53) : r.lshr(53 - e > w ? w : 53 - e); return n ? -r : r; }
  default: break;
  }
  return APInt(w, evalOp(k, w, aw, a.getZExtValue(), b.getZExtValue(), extra));
}
static uint32_t g_epoch = 0;
Evaluator::Evaluator(const uint8_t *model) : m(model) { ++g_epoch; }
u64 Evaluator::ev(Expr *e) {
  if (e->width > 64) abort();
  if (e->kind == K_Const) return e->extra;
  if (e->kind == K_Tab) return e->tab->v[m[e->var()]];
  if (e->epoch == g_epoch) return e->ev;
  u64 r;
  if (e->kind == K_Ite) r = ev(e->c) ? ev(e->a) : ev(e->b);
  else if (e->kind == K_Concat) r = (ev(e->a) << e->b->width) | ev(e->b);
  else if (e->a->width > 64) r = evalAP(e->kind, e->width, evw(e->a), e->b ? evw(e->b) : APInt(1, 0), e->extra).getZExtValue();
  else {
    u64 a = ev(e->a);
    // short cuts keep this cheap for deep boolean structure
    if (e->kind == K_And && !a) r = 0;
    else r = evalOp(e->kind, e->width, e->a->width, a, e->b ? ev(e->b) : 0, e->extra);
  }
  e->epoch = g_epoch; e->ev = r;
  return r;
}
APInt Evaluator::evw(Expr *e) {
  if (e->width <= 64) return APInt(e->width, ev(e));
  if (e->kind == K_Const) return *e->wide;
  if (e->epoch == g_epoch && e->evw) return *e->evw;
  APInt r(e->width, 0);
  if (e->kind == K_Ite) r = ev(e->c) ? evw(e->a) : evw(e->b);
  else r = evalAP(e->kind, e->width, evw(e->a), e->b ? evw(e->b) : APInt(1, 0), e->extra);
  if (!e->evw) e->evw = new APInt(r); else *e->evw = r;
  e->epoch = g_epoch;
  return r;
}
// ---------------------------------------------------------------- tables
struct OpKey { u64 k, a, b, c; bool operator==(const OpKey &o) const { return k == o.k && a == o.a && b == o.b && c == o.c; } };
struct OpHash { size_t operator()(const OpKey &k) const { return mix(mix(mix(k.k, k.a), k.b), k.c); } };
static std::unordered_map<OpKey, const Table *, OpHash> opMemo;
static const Table *constTable(int w, u64 v) {
  static std::unordered_map<OpKey, const Table *, OpHash> m;
  OpKey key{(u64)w, v, 0, 0}; auto it = m.find(key); if (it != m.end()) return it->second;
  u64 x[256]; for (int i = 0; i < 256; i++) x[i] = v; return m[key] = internTable(w, x);
}
static bool tabbable(Expr *e, int &var) { // const or table over the same variable
  if (e->width > 64) return false;
  if (e->kind == K_Const) return true;
  if (e->kind != K_Tab) return false;
  if (var < 0) var = e->var();
  return var == e->var();
}
static const Table *tabOf(Expr *e) { return e->kind == K_Const ? constTable(e->width, e->extra) : e->tab; }
static Expr *tabOp(Kind k, int w, int var, Expr *a, Expr *b, Expr *c, u64 extra) {
  const Table *ta = tabOf(a), *tb = b ? tabOf(b) : nullptr, *tc = c ? tabOf(c) : nullptr;
  OpKey key{(u64)k | ((u64)w << 8) | (extra << 32), (u64)ta->id, tb ? (u64)tb->id + 1 : 0, tc ? (u64)tc->id + 1 : 0};
  auto it = opMemo.find(key);
  if (it != opMemo.end()) return mkTab(var, it->second);
  u64 v[256];
  for (int i = 0; i < 256; i++) {
    if (k == K_Ite) v[i] = tc->v[i] ? ta->v[i] : tb->v[i];
    else if (k == K_Concat) v[i] = (ta->v[i] << b->width) | tb->v[i];
    else v[i] = evalOp(k, w, a->width, ta->v[i], tb ? tb->v[i] : 0, extra);
  }
  const Table *t = internTable(w, v); opMemo[key] = t; return mkTab(var, t);
}
// ---------------------------------------------------------------- builders
// an operation of width <= 64 over one variable whose operands are wider than 64 bits: tabulated as well
static Expr *viaWide(Expr &t, int var) {
  struct Key { Kind k; int w; Expr *a, *b, *c; u64 x; bool operator==(const Key &o) const { return k == o.k && w == o.w && a == o.a && b == o.b && c == o.c && x == o.x; } };
  struct H { size_t operator()(const Key &q) const { return mix(mix(mix(mix(mix(q.k, q.w), (u64)q.a), (u64)q.b), (u64)q.c), q.x); } };
  static std::unordered_map<Key, Expr *, H> memo;
  Key key{t.kind, t.width, t.a, t.b, t.c, t.extra};
  auto it = memo.find(key); if (it != memo.end()) return it->second;
  u64 v[256]; uint8_t m[MAXVARS] = {0};
  for (int i = 0; i < 256; i++) { m[var] = (uint8_t)i; Evaluator e(m); Expr x = t; x.epoch = 0; v[i] = e.ev(&x) & maskw(t.width); }
  return memo[key] = mkTab(var, internTable(t.width, v));
}
static Expr *raw(Kind k, int w, Expr *a, Expr *b, Expr *c, u64 extra) {
  Expr t = blank(); t.kind = k; t.width = w; t.a = a; t.b = b; t.c = c; t.extra = extra;
  if (w <= 64) {
    VarSet s = a->sup; if (b) s = s | b->sup; if (c) s = s | c->sup;
    if (s.count() == 1) return viaWide(t, s.first());
  }
  return intern(t);
}
Expr *mkNot(Expr *a) { return mkBin(K_Xor, a, mkConst(a->width, maskw(a->width))); }
static bool isBoolConn(Expr *e) { return e->width == 1; }
Expr *mkIte(Expr *c, Expr *t, Expr *f) {
  if (c->isConst()) return c->extra ? t : f;
  if (t == f) return t;
  int var = -1;
  if (tabbable(c, var) && tabbable(t, var) && tabbable(f, var) && var >= 0) return tabOp(K_Ite, t->width, var, t, f, c, 0);
  if (t->width == 1) {
    if (isTrue(t)) return mkBin(K_Or, c, f);
    if (isFalse(t)) return mkBin(K_And, mkNot(c), f);
    if (isTrue(f)) return mkBin(K_Or, mkNot(c), t);
    if (isFalse(f)) return mkBin(K_And, c, t);
  }
  if (c->kind == K_Xor && c->b->isConst()) return mkIte(c->a, f, t); // not
  if (t->kind == K_Ite && t->c == c) t = t->a;
  if (f->kind == K_Ite && f->c == c) f = f->b;
  if (t == f) return t;
  return raw(K_Ite, t->width, t, f, c, 0);
}
Expr *mkCast(Kind k, int w, Expr *a, u64 extra) {
  if ((k == K_ZExt || k == K_SExt || k == K_FConv) && w == a->width) return a;
  if (k == K_Extract && w == a->width) return a;
  if (a->isConst()) {
    if (w <= 64 && a->width <= 64) return mkConst(w, evalOp(k, w, a->width, a->extra, 0, extra));
    return mkConstAP(evalAP(k, w, constAP(a), APInt(1, 0), extra));
  }
  int var = -1;
  if (w <= 64 && tabbable(a, var)) return tabOp(k, w, var, a, nullptr, nullptr, extra);
  if (k == K_ZExt) { // as concat with zeros: one normal form
    return mkBin(K_Concat, mkConst(w - a->width, 0), a);
  }
  if (k == K_Extract) {
    int lo = (int)extra;
    if (a->kind == K_Extract) return mkExtract(a->a, lo + (int)a->extra, w);
    if (a->kind == K_Concat) {
      int bw = a->b->width;
      if (lo + w <= bw) return mkExtract(a->b, lo, w);
      if (lo >= bw) return mkExtract(a->a, lo - bw, w);
      return mkBin(K_Concat, mkExtract(a->a, 0, lo + w - bw), mkExtract(a->b, lo, bw - lo));
    }
    if (a->kind == K_SExt && lo == 0 && w > a->a->width) return mkCast(K_SExt, w, a->a);
    if (a->kind == K_SExt && lo + w <= a->a->width) return mkExtract(a->a, lo, w);
    if (a->kind == K_And || a->kind == K_Or || a->kind == K_Xor) return mkBin(a->kind, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
    if (a->kind == K_Ite) return mkIte(a->c, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
    if (lo == 0 && (a->kind == K_Add || a->kind == K_Sub || a->kind == K_Mul)) return mkBin(a->kind, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
    if (a->kind == K_Shl && a->b->isConst() && a->width <= 64) {
      int s = (int)a->b->extra;
      if (lo >= s && s < a->width) return mkExtract(a->a, lo - s, w);
      if (lo + w <= s) return mkConst(w, 0);
    }
  }
  return raw(k, w, a, nullptr, nullptr, extra);
}
static int widthOf(Kind k, Expr *a, Expr *b) {
  if (k >= K_Eq && k <= K_Sle) return 1;
  if (k == K_FCmp) return 1;
  if (k == K_Concat) return a->width + b->width;
  return a->width;
}
static bool zeroHi(Expr *a, Expr *&lo) { // a = 0 ++ lo
  if (a->kind == K_Concat && a->a->isConst() && (a->a->wide ? a->a->wide->isZero() : a->a->extra == 0)) { lo = a->b; return true; }
  return false;
}
static bool constZero(Expr *e) { return e->isConst() && (e->wide ? e->wide->isZero() : e->extra == 0); }
static bool constOnes(Expr *e) { return e->isConst() && (e->wide ? e->wide->isAllOnes() : e->extra == maskw(e->width)); }
Expr *mkBin(Kind k, Expr *a, Expr *b, u64 extra) {
  int w = widthOf(k, a, b);
  if (a->isConst() && b->isConst()) {
    if (w <= 64 && a->width <= 64) { if (k == K_Concat) return mkConst(w, (a->extra << b->width) | b->extra); return mkConst(w, evalOp(k, w, a->width, a->extra, b->extra, extra)); }
    return mkConstAP(evalAP(k, w, constAP(a), constAP(b), extra));
  }
  { int var = -1; if (w <= 64 && tabbable(a, var) && tabbable(b, var)) return tabOp(k, w, var, a, b, nullptr, extra); }
  // commutative: constant right
  if (k == K_Add || k == K_Mul || k == K_And || k == K_Or || k == K_Xor || k == K_Eq) {
    if (a->isConst() || (!b->isConst() && a->id > b->id)) std::swap(a, b);
  }
  switch (k) {
  case K_Add:
    if (constZero(b)) return a;
    if (b->isConst() && a->kind == K_Add && a->b->isConst()) return mkBin(K_Add, a->a, mkBin(K_Add, a->b, b));
    if (b->isConst() && a->kind == K_Ite && a->a->isConst() && a->b->isConst()) return mkIte(a->c, mkBin(k, a->a, b), mkBin(k, a->b, b));
    break;
  case K_Sub:
    if (constZero(b)) return a;
    if (a == b) return mkConst(w, 0);
    if (b->isConst()) return mkBin(K_Add, a, mkBin(K_Sub, mkConst(w, 0), b));
    if (a->kind == K_Add && a->a == b) return a->b;
    if (a->kind == K_Add && a->b == b) return a->a;
    if (a->kind == K_Add && b->kind == K_Add && a->a == b->a) return mkBin(K_Sub, a->b, b->b);
    break;
  case K_Mul:
    if (constZero(b)) return b;
    if (b->isConst() && !b->wide && b->extra == 1) return a;
    break;
  case K_UDiv: case K_SDiv:
    if (b->isConst() && !b->wide && b->extra == 1) return a;
    break;
  case K_And:
    if (constZero(b)) return b;
    if (constOnes(b)) return a;
    if (a == b) return a;
    if (w == 1 && a->kind == K_Xor && a->b->isConst() && a->a == b) return mkConst(1, 0);
    if (w == 1 && b->kind == K_Xor && b->b->isConst() && b->a == a) return mkConst(1, 0);
    if (b->isConst() && w <= 64 && w > 1) { // low mask -> zext(extract)
      u64 v = b->extra; int n = __builtin_popcountll(v);
      if (v == maskw(n)) return mkCast(K_ZExt, w, mkExtract(a, 0, n));
      int tz = __builtin_ctzll(v); u64 v2 = v >> tz;
      if (v2 == maskw(__builtin_popcountll(v2))) { int m = __builtin_popcountll(v2); Expr *mid = mkExtract(a, tz, m); Expr *r = mkBin(K_Concat, mid, mkConst(tz, 0)); return mkCast(K_ZExt, w, r); }
    }
    break;
  case K_Or:
    if (constZero(b)) return a;
    if (constOnes(b)) return b;
    if (a == b) return a;
    if (w == 1 && a->kind == K_Xor && a->b->isConst() && a->a == b) return mkConst(1, 1);
    if (w == 1 && b->kind == K_Xor && b->b->isConst() && b->a == a) return mkConst(1, 1);
    if (w > 1 && a->kind == K_Concat && b->kind == K_Concat && a->b->width == b->b->width) return mkBin(K_Concat, mkBin(K_Or, a->a, b->a), mkBin(K_Or, a->b, b->b));
    if (w > 1 && a->kind == K_Concat) { int bw = a->b->width; return mkBin(K_Concat, mkBin(K_Or, a->a, mkExtract(b, bw, w - bw)), mkBin(K_Or, a->b, mkExtract(b, 0, bw))); }
    if (w > 1 && b->kind == K_Concat) { int bw = b->b->width; return mkBin(K_Concat, mkBin(K_Or, mkExtract(a, bw, w - bw), b->a), mkBin(K_Or, mkExtract(a, 0, bw), b->b)); }
    break;
  case K_Xor:
    if (constZero(b)) return a;
    if (a == b) return mkConst(w, 0);
    if (b->isConst() && a->kind == K_Xor && a->b->isConst()) return mkBin(K_Xor, a->a, mkBin(K_Xor, a->b, b));
    if (w == 1 && b->isConst()) { // not: push into comparisons and connectives
      if (a->kind == K_Ult) return mkBin(K_Ule, a->b, a->a);
      if (a->kind == K_Ule) return mkBin(K_Ult, a->b, a->a);
      if (a->kind == K_Slt) return mkBin(K_Sle, a->b, a->a);
      if (a->kind == K_Sle) return mkBin(K_Slt, a->b, a->a);
      if (a->kind == K_And) return mkBin(K_Or, mkNot(a->a), mkNot(a->b));
      if (a->kind == K_Or) return mkBin(K_And, mkNot(a->a), mkNot(a->b));
    }
    break;
  case K_Shl:
    if (b->isConst() && !b->wide) { u64 s = b->extra; if (s == 0) return a; if (s >= (u64)w) return mkConst(w, 0); return mkBin(K_Concat, mkExtract(a, 0, w - (int)s), mkConst((int)s, 0)); }
    if (b->isConst()) { u64 s = b->wide->getLimitedValue(); if (s == 0) return a; if (s >= (u64)w) return mkConst(w, 0); return mkBin(K_Concat, mkExtract(a, 0, w - (int)s), mkConst((int)s, 0)); }
    break;
  case K_LShr:
    if (b->isConst()) { u64 s = b->wide ? b->wide->getLimitedValue() : b->extra; if (s == 0) return a; if (s >= (u64)w) return mkConst(w, 0); return mkCast(K_ZExt, w, mkExtract(a, (int)s, w - (int)s)); }
    break;
  case K_AShr:
    if (b->isConst()) { u64 s = b->wide ? b->wide->getLimitedValue() : b->extra; if (s == 0) return a; if (s >= (u64)w) s = w - 1; return mkCast(K_SExt, w, mkExtract(a, (int)s, w - (int)s)); }
    break;
  case K_Concat: {
    if (a->kind == K_Extract && b->kind == K_Extract && a->a == b->a && a->extra == b->extra + b->width) return mkExtract(a->a, (int)b->extra, w);
    // right-nested: (x ++ y) ++ z => x ++ (y ++ z), so that adjacent pieces meet
    if (a->kind == K_Concat) return mkBin(K_Concat, a->a, mkBin(K_Concat, a->b, b));
    if (b->kind == K_Concat) {
      Expr *m = b->a;
      if (a->kind == K_Extract && m->kind == K_Extract && a->a == m->a && a->extra == m->extra + m->width) return mkBin(K_Concat, mkExtract(a->a, (int)m->extra, a->width + m->width), b->b);
      if (a->isConst() && m->isConst()) return mkBin(K_Concat, mkBin(K_Concat, a, m), b->b);
      if (a->kind == K_Tab || a->isConst()) { int var = -1; if (a->width + m->width <= 64 && tabbable(a, var) && tabbable(m, var) && var >= 0 ) return mkBin(K_Concat, mkBin(K_Concat, a, m), b->b); }
    }
    break; }
  case K_Eq:
    if (a == b) return mkConst(1, 1);
    if (a->width == 1) {
      if (b->isConst()) return b->extra ? a : mkNot(a);
      break;
    }
    if (b->isConst()) {
      if (a->kind == K_Concat) { int bw = a->b->width; return mkBin(K_And, mkBin(K_Eq, a->a, mkExtract(b, bw, a->a->width)), mkBin(K_Eq, a->b, mkExtract(b, 0, bw))); }
      if (a->kind == K_Add && a->b->isConst()) return mkBin(K_Eq, a->a, mkBin(K_Sub, b, a->b));
      if (a->kind == K_Sub && a->a->isConst()) return mkBin(K_Eq, a->b, mkBin(K_Sub, a->a, b));
      if (a->kind == K_Sub && constZero(b)) return mkBin(K_Eq, a->a, a->b);
      if (a->kind == K_Xor && a->b->isConst()) return mkBin(K_Eq, a->a, mkBin(K_Xor, a->b, b));
      if (a->kind == K_Xor && constZero(b)) return mkBin(K_Eq, a->a, a->b);
      if (a->kind == K_Or && constZero(b)) return mkBin(K_And, mkBin(K_Eq, a->a, b), mkBin(K_Eq, a->b, b));
      if (a->kind == K_SExt) { Expr *lo = mkExtract(b, 0, a->a->width); if (mkCast(K_SExt, a->width, lo) == b) return mkBin(K_Eq, a->a, lo); return mkConst(1, 0); }
      if (a->kind == K_Ite && (a->a->isConst() || a->b->isConst())) return mkIte(a->c, mkBin(K_Eq, a->a, b), mkBin(K_Eq, a->b, b));
    } else if (a->kind == K_Concat && b->kind == K_Concat && a->b->width == b->b->width) {
      return mkBin(K_And, mkBin(K_Eq, a->a, b->a), mkBin(K_Eq, a->b, b->b));
    } else if (a->kind == K_Concat && a->width <= 64) { int bw = a->b->width; if (b->kind == K_Concat) return mkBin(K_And, mkBin(K_Eq, a->a, mkExtract(b, bw, a->a->width)), mkBin(K_Eq, a->b, mkExtract(b, 0, bw))); }
    break;
  case K_Ult:
    if (a == b || constZero(b)) return mkConst(1, 0);
    if (constOnes(a)) return mkConst(1, 0);
    { Expr *la, *lb;
      if (zeroHi(a, la) && b->isConst()) { Expr *hi = mkExtract(b, la->width, a->width - la->width); if (!constZero(hi)) return mkConst(1, 1); return mkBin(K_Ult, la, mkExtract(b, 0, la->width)); }
      if (a->isConst() && zeroHi(b, lb)) { Expr *hi = mkExtract(a, lb->width, b->width - lb->width); if (!constZero(hi)) return mkConst(1, 0); return mkBin(K_Ult, mkExtract(a, 0, lb->width), lb); }
      if (zeroHi(a, la) && zeroHi(b, lb) && la->width == lb->width) return mkBin(K_Ult, la, lb);
      if (constZero(a)) return mkNot(mkBin(K_Eq, b, a));
      if (b->isConst() && !b->wide && b->extra == 1) return mkBin(K_Eq, a, mkConst(a->width, 0));
    }
    if (b->isConst() && a->kind == K_Ite && a->a->isConst() && a->b->isConst()) return mkIte(a->c, mkBin(k, a->a, b), mkBin(k, a->b, b));
    if (a->isConst() && b->kind == K_Ite && b->a->isConst() && b->b->isConst()) return mkIte(b->c, mkBin(k, a, b->a), mkBin(k, a, b->b));
    break;
  case K_Ule:
    if (a == b || constZero(a) || constOnes(b)) return mkConst(1, 1);
    if (b->isConst()) return mkBin(K_Ult, a, mkBin(K_Add, b, mkConst(b->width, 1)));
    if (a->isConst()) return mkBin(K_Ult, mkBin(K_Sub, a, mkConst(a->width, 1)), b);
    { Expr *la, *lb; if (zeroHi(a, la) && zeroHi(b, lb) && la->width == lb->width) return mkBin(K_Ule, la, lb); }
    break;
  case K_Slt: case K_Sle: {
    if (a == b) return mkConst(1, k == K_Sle);
    Expr *la, *lb; Kind uk = k == K_Slt ? K_Ult : K_Ule;
    bool na = zeroHi(a, la), nb = zeroHi(b, lb);
    auto sgn = [&](Expr *e) { return e->wide ? e->wide->isNegative() : (bool)(e->extra >> (e->width - 1) & 1); };
    if (na && b->isConst()) return sgn(b) ? mkConst(1, 0) : mkBin(uk, a, b);
    if (a->isConst() && nb) return sgn(a) ? mkConst(1, 1) : mkBin(uk, a, b);
    if (na && nb) return mkBin(uk, a, b);
    if (a->kind == K_SExt && b->kind == K_SExt && a->a->width == b->a->width) return mkBin(k, a->a, b->a);
    if (b->isConst() && a->kind == K_Ite && a->a->isConst() && a->b->isConst()) return mkIte(a->c, mkBin(k, a->a, b), mkBin(k, a->b, b));
    if (a->isConst() && b->kind == K_Ite && b->a->isConst() && b->b->isConst()) return mkIte(b->c, mkBin(k, a, b->a), mkBin(k, a, b->b));
    break; }
  default: break;
  }
  return raw(k, w, a, b, nullptr, extra);
}
static Expr *specRec(Expr *e, const Dom *doms, const VarSet &fixed, std::unordered_map<Expr *, Expr *> &memo) {
  if (!e->sup.intersects(fixed)) return e;
  if (e->kind == K_Tab) return mkConst(e->width, e->tab->v[doms[e->var()].first()]);
  auto it = memo.find(e); if (it != memo.end()) return it->second;
  Expr *a = e->a ? specRec(e->a, doms, fixed, memo) : nullptr, *b = e->b ? specRec(e->b, doms, fixed, memo) : nullptr, *c = e->c ? specRec(e->c, doms, fixed, memo) : nullptr;
  Expr *r;
  if (e->kind == K_Ite) r = mkIte(c, a, b);
  else if (e->b) r = mkBin(e->kind, a, b, e->extra);
  else r = mkCast(e->kind, e->width, a, e->extra);
  return memo[e] = r;
}
Expr *specialize(Expr *e, const Dom *doms) {
  if (e->isConst()) return e;
  VarSet fixed; bool any = false;
  e->sup.each([&](int v) { if (doms[v].count() == 1) { fixed.add(v); any = true; } });
  if (!any) return e;
  std::unordered_map<Expr *, Expr *> memo;
  return specRec(e, doms, fixed, memo);
}
std::string exprStr(Expr *e, int d) {
  static const char *n[] = {"c", "tab", "+", "-", "*", "/u", "/s", "%u", "%s", "&", "|", "^", "<<", ">>u", ">>s", "==", "<u", "<=u", "<s", "<=s", "zext", "sext", "ext", "++", "ite", "f+", "f-", "f*", "f/", "f%", "fcmp", "f2s", "f2u", "s2f", "u2f", "fconv", "fround"};
  if (e->kind == K_Const) return e->wide ? "W" : std::to_string(e->extra) + ":" + std::to_string(e->width);
  if (e->kind == K_Tab) { if (e->tab->identity) return "b" + std::to_string(e->var()); return "T" + std::to_string(e->tab->id) + "(b" + std::to_string(e->var()) + "):" + std::to_string(e->width); }
  if (d == 0) return "...";
  std::string s = "("; s += n[e->kind]; s += ":" + std::to_string(e->width);
  if (e->kind == K_Extract || e->kind == K_FCmp) s += "@" + std::to_string(e->extra);
  if (e->c) s += " " + exprStr(e->c, d - 1);
  if (e->a) s += " " + exprStr(e->a, d - 1);
  if (e->b) s += " " + exprStr(e->b, d - 1);
  return s + ")";
}
