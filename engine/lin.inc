// Linear normal form of integer expressions over the byte variables, modulo 2^w: value == c0 + sum coef*atom.
// Together with the current domains it yields exact ranges; used to simplify division by constants and to decide
// comparisons of digit arithmetic without bit-blasting. Everything here is an equivalence under the path condition.
static const int LW = 320;
struct Lin { APInt c0{LW, 0}; std::vector<std::pair<Expr *, APInt>> t; };
static void linAdd(Lin &a, const Lin &b, const APInt &k) {
  a.c0 += b.c0 * k;
  for (auto &x : b.t) { bool f = false; for (size_t i = 0; i < a.t.size(); i++) if (a.t[i].first == x.first) { a.t[i].second += x.second * k; if (a.t[i].second.isZero()) a.t.erase(a.t.begin() + i); f = true; break; } if (!f) { APInt c = x.second * k; if (!c.isZero()) a.t.push_back({x.first, c}); } }
}
static APInt lc(i64 v) { return APInt(LW, (u64)v, true); }
static void atomRange(Expr *e, APInt &lo, APInt &hi) { // atoms are tables, read as signed when that is narrower
  const Dom &d = S->dom[e->var()]; u64 mn = ~0ull, mx = 0; i64 smn = INT64_MAX, smx = INT64_MIN;
  for (int i = 0; i < 256; i++) if (d.has(i)) { u64 v = e->tab->v[i]; i64 s = sextw(v, e->width); mn = std::min(mn, v); mx = std::max(mx, v); smn = std::min(smn, s); smx = std::max(smx, s); }
  if (mx - mn <= (u64)smx - (u64)smn) { lo = APInt(LW, mn); hi = APInt(LW, mx); } else { lo = lc(smn); hi = lc(smx); }
}
static void linRange(const Lin &l, APInt &lo, APInt &hi) {
  lo = hi = l.c0;
  for (auto &x : l.t) { APInt a(LW, 0), b(LW, 0); atomRange(x.first, a, b); if (x.second.isNegative()) { lo += b * x.second; hi += a * x.second; } else { lo += a * x.second; hi += b * x.second; } }
}
static APInt floorDiv(const APInt &a, const APInt &b) { APInt q = a.sdiv(b); if (a.isNegative() && q * b != a) q -= 1; return q; } // b > 0
// move the form by a multiple of 2^w so that its range lies in [base, base + 2^w)
static bool linFit(Lin &l, int w, bool sg, APInt &lo, APInt &hi) {
  linRange(l, lo, hi); APInt M = APInt(LW, 1).shl(w), base = sg ? -(M.lshr(1)) : APInt(LW, 0);
  APInt k = floorDiv(lo - base, M) * M; l.c0 -= k; lo -= k; hi -= k; return hi.slt(base + M);
}
static bool linSplit(const Lin &l, const APInt &D, Lin &q, Lin &r) { // l = q*D + r with 0 <= r < D
  q = Lin(); r = Lin();
  for (auto &x : l.t) { APInt k = x.second.sdiv(D); APInt m = x.second - k * D; // truncated
    if (!m.isZero() && !k.isZero()) { q.t.push_back({x.first, k}); r.t.push_back({x.first, m}); } else if (m.isZero()) q.t.push_back({x.first, k}); else r.t.push_back({x.first, m}); }
  APInt k = floorDiv(l.c0, D); q.c0 = k; r.c0 = l.c0 - k * D;
  APInt lo(LW, 0), hi(LW, 0); linRange(r, lo, hi);
  APInt s = floorDiv(lo, D); if (!s.isZero()) { q.c0 += s; r.c0 -= s * D; lo -= s * D; hi -= s * D; }
  return hi.slt(D);
}
static bool lin(Expr *e, Lin &o, int depth = 0) {
  if (depth > 90 || e->width > 130) return false;
  int w = e->width;
  switch (e->kind) {
  case K_Const: o.c0 = (e->wide ? *e->wide : APInt(w, e->extra)).zext(LW); return true;
  case K_Tab: {
    const Dom &d = S->dom[e->var()]; int f = d.first(); u64 M = maskw(w); if (f < 0) return false;
    if (d.count() == 1) { o.c0 = APInt(LW, e->tab->v[f]); return true; }
    int g = -1; for (int i = f + 1; i < 256; i++) if (d.has(i)) { g = i; break; }
    u64 dv = (e->tab->v[g] - e->tab->v[f]) & M; i64 sd = sextw(dv, w); i64 al = sd / (g - f);
    bool aff = al * (g - f) == sd && al != 0; for (int i = f; aff && i < 256; i++) if (d.has(i)) aff = ((e->tab->v[f] + (u64)al * (u64)(i - f)) & M) == e->tab->v[i];
    if (aff) { o.t.push_back({mkVar(e->var()), lc(al)}); o.c0 = APInt(LW, e->tab->v[f]) - lc(al) * lc(f); }
    else { // constants of the table are offset-free; reading (signed or not) is the one of atomRange
      o.t.push_back({e, lc(1)}); }
    return true; }
  case K_Add: case K_Sub: { Lin b; if (!lin(e->a, o, depth + 1) || !lin(e->b, b, depth + 1)) return false; linAdd(o, b, lc(e->kind == K_Add ? 1 : -1)); break; }
  case K_Xor: { if (!e->b->isConst() || !(e->b->wide ? e->b->wide->isAllOnes() : e->b->extra == maskw(w))) return false; Lin a; if (!lin(e->a, a, depth + 1)) return false; linAdd(o, a, lc(-1)); o.c0 -= 1; break; }
  case K_Mul: { Lin a, b; if (!lin(e->a, a, depth + 1) || !lin(e->b, b, depth + 1)) return false; if (!a.t.empty()) std::swap(a, b); if (!a.t.empty()) return false; APInt k = a.c0, M = APInt(LW, 1).shl(w); k = k - floorDiv(k, M) * M; if (k.uge(M.lshr(1))) k -= M; linAdd(o, b, k); break; }
  case K_Shl: { if (!e->b->isConst() || e->b->wide) return false; u64 s = e->b->extra; if (s >= (u64)w) return false; Lin a; if (!lin(e->a, a, depth + 1)) return false; linAdd(o, a, APInt(LW, 1).shl((unsigned)s)); break; }
  case K_Concat: { Lin a, b;
    if (e->a->kind == K_Extract && e->a->extra == (u64)e->b->width) { // bytes of one value put together again
      Lin x; APInt M = APInt(LW, 1).shl(e->b->width);
      if (lin(e->a->a, x, depth + 1) && lin(e->b, b, depth + 1)) { Lin d = x; linAdd(d, b, lc(-1)); bool z = (d.c0 - floorDiv(d.c0, M) * M).isZero(); for (auto &y : d.t) z &= (y.second - floorDiv(y.second, M) * M).isZero(); if (z) { o = x; break; } }
      b = Lin(); }
    APInt lo(LW, 0), hi(LW, 0); if (!lin(e->a, a, depth + 1) || !lin(e->b, b, depth + 1) || !linFit(b, e->b->width, false, lo, hi)) return false; o = b; linAdd(o, a, APInt(LW, 1).shl(e->b->width)); break; }
  case K_SExt: { APInt lo(LW, 0), hi(LW, 0); if (!lin(e->a, o, depth + 1) || !linFit(o, e->a->width, true, lo, hi)) return false; break; }
  case K_Extract: { Lin a; APInt lo(LW, 0), hi(LW, 0); if (!lin(e->a, a, depth + 1)) return false; if (e->extra) { Lin r; if (!linFit(a, e->a->width, false, lo, hi) || !linSplit(a, APInt(LW, 1).shl((unsigned)e->extra), o, r)) return false; } else o = a; break; }
  case K_UDiv: case K_URem: { if (!e->b->isConst() || constZeroE(e->b)) return false; Lin a, q, r; APInt lo(LW, 0), hi(LW, 0); if (!lin(e->a, a, depth + 1) || !linFit(a, w, false, lo, hi) || !linSplit(a, (e->b->wide ? *e->b->wide : APInt(w, e->b->extra)).zext(LW), q, r)) return false; o = e->kind == K_UDiv ? q : r; break; }
  default: return false;
  }
  if (o.t.size() > 64) return false;
  { APInt M = APInt(LW, 1).shl(w); for (size_t i = 0; i < o.t.size();) if ((o.t[i].second - floorDiv(o.t[i].second, M) * M).isZero()) o.t.erase(o.t.begin() + i); else i++; }
  for (auto &x : o.t) if (x.second.getSignificantBits() > 200) return false;
  if (o.c0.getSignificantBits() > 200) return false;
  return true;
}
// range of a value; divisions whose quotient is not linear contribute an interval
static bool rng(Expr *e, bool sg, APInt &lo, APInt &hi) {
  Lin l; if (lin(e, l) && linFit(l, e->width, sg, lo, hi)) return true;
  if (e->kind == K_UDiv && e->b->isConst() && !constZeroE(e->b)) {
    APInt D = (e->b->wide ? *e->b->wide : APInt(e->width, e->b->extra)).zext(LW); if (!rng(e->a, false, lo, hi)) return false; lo = floorDiv(lo, D); hi = floorDiv(hi, D);
    return !sg || hi.slt(APInt(LW, 1).shl(e->width - 1)); }
  return false;
}
static Expr *linBuild(Lin l, int w) {
  std::sort(l.t.begin(), l.t.end(), [](auto &a, auto &b) { return a.first->var() != b.first->var() ? a.first->var() < b.first->var() : a.first->id < b.first->id; });
  Expr *r = nullptr;
  for (auto &x : l.t) {
    APInt lo(LW, 0), hi(LW, 0); atomRange(x.first, lo, hi);
    Expr *a = x.first->width == w ? x.first : x.first->width > w ? mkExtract(x.first, 0, w) : mkCast(lo.isNegative() ? K_SExt : K_ZExt, w, x.first);
    APInt k = x.second.trunc(w); if (!k.isOne()) a = mkBin(K_Mul, a, mkConstAP(k));
    r = r ? mkBin(K_Add, r, a) : a;
  }
  Expr *c = mkConstAP(l.c0.trunc(w)); return r ? mkBin(K_Add, r, c) : c;
}
static bool linOp(Kind k, int w, Expr *a, Expr *b, Val &out) {
  switch (k) {
  case K_Add: case K_Sub: { // cancellation, as in x - (x / 10) * 10
    if (!(a->sup & b->sup).count()) return false;
    Lin x, y; if (!lin(a, x) || !lin(b, y)) return false; size_t n = std::max(x.t.size(), y.t.size()); linAdd(x, y, lc(k == K_Add ? 1 : -1)); APInt M = APInt(LW, 1).shl(w);
    for (size_t i = 0; i < x.t.size();) { APInt c = x.t[i].second; c -= floorDiv(c, M) * M; if (c.isZero()) { x.t.erase(x.t.begin() + i); continue; } if (c.uge(M.lshr(1))) c -= M; x.t[i++].second = c; }
    if (x.t.size() >= n) return false;
    out = mkv(linBuild(x, w)); return true; }
  case K_LShr: case K_AShr: {
    if (!b->isConst() || b->wide || b->extra >= (u64)w) return false; bool sg = k == K_AShr;
    Lin l, q, r; APInt lo(LW, 0), hi(LW, 0); if (!lin(a, l) || !linFit(l, w, sg, lo, hi)) return false;
    if (sg && hi.isNegative() && b->extra == (u64)w - 1) { out = mkv(mkConstAP(APInt::getAllOnes(w))); return true; }
    if (lo.isNegative() || !linSplit(l, APInt(LW, 1).shl((unsigned)b->extra), q, r)) return false;
    out = mkv(linBuild(q, w)); return true; }
  case K_UDiv: case K_URem: case K_SDiv: case K_SRem: {
    if (!b->isConst() || constZeroE(b)) return false;
    bool sg = k == K_SDiv || k == K_SRem, dv = k == K_UDiv || k == K_SDiv; APInt D = b->wide ? *b->wide : APInt(w, b->extra); if (sg && D.isNegative()) return false; D = D.zext(LW);
    Lin l, q, r; APInt lo(LW, 0), hi(LW, 0); if (!lin(a, l) || !linFit(l, w, sg, lo, hi)) return false;
    if (!lo.isNegative()) { if (!linSplit(l, D, q, r)) return false; out = mkv(linBuild(dv ? q : r, w)); return true; }
    if (hi.isStrictlyPositive()) return false;
    Lin n; linAdd(n, l, lc(-1)); if (!linSplit(n, D, q, r)) return false; Lin m; linAdd(m, dv ? q : r, lc(-1)); out = mkv(linBuild(m, w)); return true; }
  case K_Eq: case K_Ult: case K_Ule: case K_Slt: case K_Sle: {
    if (a->width < 8) return false;
    bool cmp = k != K_Eq, le = k == K_Ule || k == K_Sle;
    Lin x, y; if (!lin(a, x) || !lin(b, y)) {
      if (!cmp || (a->kind != K_UDiv && b->kind != K_UDiv)) return false;
      bool sg = k == K_Slt || k == K_Sle; APInt al(LW, 0), ah(LW, 0), bl(LW, 0), bh(LW, 0); if (!rng(a, sg, al, ah) || !rng(b, sg, bl, bh)) return false;
      if (le ? ah.sle(bl) : ah.slt(bl)) { out = cv(1); return true; }
      if (le ? al.sgt(bh) : al.sge(bh)) { out = cv(0); return true; }
      return false; }
    APInt lo(LW, 0), hi(LW, 0); int aw = a->width;
    if (k == K_Eq) { Lin d = x; linAdd(d, y, lc(-1));
      { APInt M = APInt(LW, 1).shl(aw); for (size_t i = 0; i < d.t.size();) { APInt c = d.t[i].second; c -= floorDiv(c, M) * M; if (c.isZero()) { d.t.erase(d.t.begin() + i); continue; } if (c.uge(M.lshr(1))) c -= M; d.t[i++].second = c; } }
      if (!linFit(d, aw, false, lo, hi)) return false; if (lo == hi) { out = cv(lo.isZero()); return true; } if (lo.isStrictlyPositive()) { out = cv(0); return true; } return false; }
    bool sg = k == K_Slt || k == K_Sle; if (!linFit(x, aw, sg, lo, hi) || !linFit(y, aw, sg, lo, hi)) return false;
    linAdd(x, y, lc(-1)); linRange(x, lo, hi);
    if (le ? !hi.isStrictlyPositive() : hi.isNegative()) { out = cv(1); return true; }
    if (le ? lo.isStrictlyPositive() : !lo.isNegative()) { out = cv(0); return true; }
    return false; }
  default: return false;
  }
}
