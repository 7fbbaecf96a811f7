// Expression -> z3, with a portfolio fallback to other installed solvers on SMT-LIB2 text.
#include "expr.h"
#include <z3.h>
#include <functional>
#include <algorithm>
#include <llvm/ADT/SmallString.h>
#include <unordered_map>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <unistd.h>
#include <signal.h>
#include <sys/wait.h>
#include <poll.h>
#include <fcntl.h>
SolverStats g_ss;
double g_deadline = 0; int g_solver_fast_ms = 400, g_solver_slow_ms = 60000;
int g_cross_every = 0;
std::string g_dumpdir;
static Z3_context C = nullptr;
static Z3_solver SV = nullptr;
static std::unordered_map<Expr *, Z3_ast> memo;
static Z3_ast vars[MAXVARS];
static Z3_sort bv(int w) { return Z3_mk_bv_sort(C, w); }
static void onerr(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); }
static void init() {
  if (C) return;
  Z3_config cfg = Z3_mk_config();
  C = Z3_mk_context(cfg);
  Z3_set_error_handler(C, onerr);
  for (int i = 0; i < MAXVARS; i++) { std::string n = "b" + std::to_string(i); vars[i] = Z3_mk_const(C, Z3_mk_string_symbol(C, n.c_str()), bv(8)); }
  SV = Z3_mk_simple_solver(C); Z3_solver_inc_ref(C, SV);
}
static Z3_ast num(int w, u64 v) { return Z3_mk_unsigned_int64(C, v, bv(w)); }
static Z3_ast numAP(const APInt &v) { llvm::SmallString<64> s; v.toStringUnsigned(s, 10); return Z3_mk_numeral(C, s.c_str(), bv(v.getBitWidth())); }
static Z3_ast fpsort_of(int w) { return (Z3_ast)(w == 64 ? Z3_mk_fpa_sort_double(C) : Z3_mk_fpa_sort_single(C)); }
static Z3_ast toFp(Z3_ast a, int w) { return Z3_mk_fpa_to_fp_bv(C, a, (Z3_sort)fpsort_of(w)); }
static Z3_ast b2bv(Z3_ast b) { return Z3_mk_ite(C, b, num(1, 1), num(1, 0)); }
static Z3_ast bv2b(Z3_ast b) { return Z3_mk_eq(C, b, num(1, 1)); }
static Z3_ast domAst(int v, const Dom &d) { // v in d, as ranges
  std::vector<Z3_ast> alts;
  for (int i = 0; i < 256;) {
    if (!d.has(i)) { i++; continue; }
    int j = i; while (j + 1 < 256 && d.has(j + 1)) j++;
    if (i == j) alts.push_back(Z3_mk_eq(C, vars[v], num(8, i)));
    else { Z3_ast two[2] = {Z3_mk_bvuge(C, vars[v], num(8, i)), Z3_mk_bvule(C, vars[v], num(8, j))}; if (i == 0) alts.push_back(two[1]); else if (j == 255) alts.push_back(two[0]); else alts.push_back(Z3_mk_and(C, 2, two)); }
    i = j + 1;
  }
  if (alts.size() == 1) return alts[0];
  return alts.empty() ? Z3_mk_false(C) : Z3_mk_or(C, (unsigned)alts.size(), alts.data());
}
static Z3_ast tabAst(Expr *e) {
  const Table *t = e->tab; int v = e->var(), w = e->width;
  if (t->identity) return vars[v];
  if (w == 1) return b2bv(domAst(v, t->bits));
  // runs that are constant or x+c
  struct Run { int hi; bool lin; u64 c; };
  std::vector<Run> runs; u64 m = maskw(w);
  for (int i = 0; i < 256;) {
    int j = i; while (j + 1 < 256 && t->v[j + 1] == t->v[i]) j++;
    int k = i; u64 off = (t->v[i] - (u64)i) & m;
    while (k + 1 < 256 && ((t->v[k + 1] - (u64)(k + 1)) & m) == off) k++;
    if (k > j && k > i) { runs.push_back({k, true, off}); i = k + 1; }
    else { runs.push_back({j, false, t->v[i]}); i = j + 1; }
  }
  Z3_ast x = w > 8 ? Z3_mk_zero_ext(C, w - 8, vars[v]) : w == 8 ? vars[v] : Z3_mk_extract(C, w - 1, 0, vars[v]);
  auto val = [&](const Run &r) { return r.lin ? Z3_mk_bvadd(C, x, num(w, r.c)) : num(w, r.c); };
  // binary decision over the runs
  struct Rec { static Z3_ast go(const std::vector<Run> &r, int lo, int hi, int v, const std::function<Z3_ast(const Run &)> &val) {
      if (lo == hi) return val(r[lo]);
      int mid = (lo + hi) / 2;
      return Z3_mk_ite(C, Z3_mk_bvule(C, vars[v], num(8, r[mid].hi)), go(r, lo, mid, v, val), go(r, mid + 1, hi, v, val)); } };
  return Rec::go(runs, 0, (int)runs.size() - 1, v, val);
}
static Z3_ast conv(Expr *e) {
  auto it = memo.find(e);
  if (it != memo.end()) return it->second;
  Z3_ast r = nullptr;
  int w = e->width;
  if (e->kind == K_Const) r = e->wide ? numAP(*e->wide) : num(w, e->extra);
  else if (e->kind == K_Tab) r = tabAst(e);
  else {
    Z3_ast a = e->a ? conv(e->a) : nullptr, b = e->b ? conv(e->b) : nullptr;
    int aw = e->a->width;
    Z3_ast rne = Z3_mk_fpa_rne(C), rtz = Z3_mk_fpa_rtz(C);
    switch (e->kind) {
    case K_Add: r = Z3_mk_bvadd(C, a, b); break;
    case K_Sub: r = Z3_mk_bvsub(C, a, b); break;
    case K_Mul: r = Z3_mk_bvmul(C, a, b); break;
    case K_UDiv: r = Z3_mk_bvudiv(C, a, b); break;
    case K_SDiv: r = Z3_mk_bvsdiv(C, a, b); break;
    case K_URem: r = Z3_mk_bvurem(C, a, b); break;
    case K_SRem: r = Z3_mk_bvsrem(C, a, b); break;
    case K_And: r = Z3_mk_bvand(C, a, b); break;
    case K_Or: r = Z3_mk_bvor(C, a, b); break;
    case K_Xor: r = Z3_mk_bvxor(C, a, b); break;
    case K_Shl: r = Z3_mk_bvshl(C, a, b); break;
    case K_LShr: r = Z3_mk_bvlshr(C, a, b); break;
    case K_AShr: r = Z3_mk_bvashr(C, a, b); break;
    case K_Eq: r = b2bv(Z3_mk_eq(C, a, b)); break;
    case K_Ult: r = b2bv(Z3_mk_bvult(C, a, b)); break;
    case K_Ule: r = b2bv(Z3_mk_bvule(C, a, b)); break;
    case K_Slt: r = b2bv(Z3_mk_bvslt(C, a, b)); break;
    case K_Sle: r = b2bv(Z3_mk_bvsle(C, a, b)); break;
    case K_ZExt: r = Z3_mk_zero_ext(C, w - aw, a); break;
    case K_SExt: r = Z3_mk_sign_ext(C, w - aw, a); break;
    case K_Extract: r = Z3_mk_extract(C, (unsigned)e->extra + w - 1, (unsigned)e->extra, a); break;
    case K_Concat: r = Z3_mk_concat(C, a, b); break;
    case K_Ite: r = Z3_mk_ite(C, bv2b(conv(e->c)), a, b); break;
    case K_FAdd: r = Z3_mk_fpa_to_ieee_bv(C, Z3_mk_fpa_add(C, rne, toFp(a, w), toFp(b, w))); break;
    case K_FSub: r = Z3_mk_fpa_to_ieee_bv(C, Z3_mk_fpa_sub(C, rne, toFp(a, w), toFp(b, w))); break;
    case K_FMul: r = Z3_mk_fpa_to_ieee_bv(C, Z3_mk_fpa_mul(C, rne, toFp(a, w), toFp(b, w))); break;
    case K_FDiv: r = Z3_mk_fpa_to_ieee_bv(C, Z3_mk_fpa_div(C, rne, toFp(a, w), toFp(b, w))); break;
    case K_FRem: r = Z3_mk_fpa_to_ieee_bv(C, Z3_mk_fpa_rem(C, toFp(a, w), toFp(b, w))); break;
    case K_FCmp: {
      Z3_ast x = toFp(a, aw), y = toFp(b, aw); unsigned p = (unsigned)e->extra;
      std::vector<Z3_ast> o;
      if (p & 1) o.push_back(Z3_mk_fpa_eq(C, x, y));
      if (p & 2) o.push_back(Z3_mk_fpa_gt(C, x, y));
      if (p & 4) o.push_back(Z3_mk_fpa_lt(C, x, y));
      if (p & 8) { o.push_back(Z3_mk_fpa_is_nan(C, x)); o.push_back(Z3_mk_fpa_is_nan(C, y)); }
      r = b2bv(o.empty() ? Z3_mk_false(C) : o.size() == 1 ? o[0] : Z3_mk_or(C, (unsigned)o.size(), o.data())); break; }
    case K_FToSI: r = Z3_mk_fpa_to_sbv(C, rtz, toFp(a, aw), w); break;
    case K_FToUI: r = Z3_mk_fpa_to_ubv(C, rtz, toFp(a, aw), w); break;
    case K_SIToF: r = Z3_mk_fpa_to_ieee_bv(C, Z3_mk_fpa_to_fp_signed(C, rne, a, (Z3_sort)fpsort_of(w))); break;
    case K_UIToF: r = Z3_mk_fpa_to_ieee_bv(C, Z3_mk_fpa_to_fp_unsigned(C, rne, a, (Z3_sort)fpsort_of(w))); break;
    case K_FConv: r = Z3_mk_fpa_to_ieee_bv(C, Z3_mk_fpa_to_fp_float(C, rne, toFp(a, aw), (Z3_sort)fpsort_of(w))); break;
    case K_FRound: { Z3_ast rm = e->extra == 0 ? Z3_mk_fpa_rtn(C) : e->extra == 1 ? Z3_mk_fpa_rtp(C) : e->extra == 2 ? rtz : e->extra == 3 ? rne : Z3_mk_fpa_rna(C); r = Z3_mk_fpa_to_ieee_bv(C, Z3_mk_fpa_round_to_integral(C, rm, toFp(a, w))); break; }
    default: fprintf(stderr, "conv kind %d\n", e->kind); abort();
    }
  }
  Z3_inc_ref(C, r);
  memo[e] = r;
  return r;
}
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static void setTimeout(Z3_solver s, int ms) { Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p); Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), ms); Z3_solver_set_params(C, s, p); Z3_params_dec_ref(C, p); }
static void getModel(Z3_solver s, const VarSet &sup, uint8_t *model) {
  Z3_model m = Z3_solver_get_model(C, s); Z3_model_inc_ref(C, m);
  sup.each([&](int v) { Z3_ast o; if (Z3_model_eval(C, m, vars[v], true, &o)) { u64 x = 0; if (Z3_get_numeral_uint64(C, o, (uint64_t *)&x)) model[v] = (uint8_t)x; } });
  Z3_model_dec_ref(C, m);
}
// run external solvers on SMT2 text, racing; first definite answer wins
static SolveRes external(const std::string &smt, const VarSet &sup, uint8_t *model, int ms, const std::vector<std::vector<std::string>> &cmds, std::string *who = nullptr) {
  char fn[] = "/tmp/vfqXXXXXX"; int fd = mkstemp(fn); if (fd < 0) return S_UNKNOWN;
  std::string full = smt;
  if (write(fd, full.data(), full.size()) != (ssize_t)full.size()) {}
  close(fd);
  struct P { pid_t pid; int fd; std::string out; bool done = false; };
  std::vector<P> ps;
  for (auto &c : cmds) {
    int pp[2]; if (pipe(pp)) continue;
    pid_t pid = fork();
    if (pid == 0) {
      setpgid(0, 0); dup2(pp[1], 1); int dn = open("/dev/null", O_WRONLY); dup2(dn, 2); close(pp[0]); close(pp[1]);
      std::vector<char *> av; for (auto &x : c) av.push_back((char *)x.c_str()); av.push_back(fn); av.push_back(nullptr);
      execvp(av[0], av.data()); _exit(127);
    }
    close(pp[1]); P p; p.pid = pid; p.fd = pp[0]; ps.push_back(p);
  }
  SolveRes res = S_UNKNOWN; double end = now() + ms / 1000.0; std::string got;
  while (res == S_UNKNOWN && now() < end) {
    std::vector<pollfd> pf; for (auto &p : ps) if (!p.done) pf.push_back({p.fd, POLLIN, 0});
    if (pf.empty()) break;
    int n = poll(pf.data(), pf.size(), (int)((end - now()) * 1000) + 1); if (n <= 0) break;
    for (auto &f : pf) if (f.revents) for (size_t i = 0; i < ps.size(); i++) if (ps[i].fd == f.fd) {
      char buf[65536]; ssize_t k = read(f.fd, buf, sizeof buf);
      if (k > 0) ps[i].out.append(buf, k);
      else {
        ps[i].done = true;
        if (ps[i].out.find("(error") != std::string::npos && ps[i].out.compare(0, 5, "unsat") != 0) continue;
        if (ps[i].out.compare(0, 5, "unsat") == 0) { res = S_UNSAT; if (who) *who = cmds[i][0]; break; }
        if (ps[i].out.compare(0, 3, "sat") == 0) { res = S_SAT; got = ps[i].out; if (who) *who = cmds[i][0]; break; }
      }
    }
  }
  for (auto &p : ps) { kill(-p.pid, SIGKILL); kill(p.pid, SIGKILL); close(p.fd); int st; waitpid(p.pid, &st, 0); }
  unlink(fn);
  if (res == S_SAT) {
    bool ok = true;
    sup.each([&](int v) {
      std::string key = "(b" + std::to_string(v) + " "; size_t p = got.find(key);
      if (p == std::string::npos) { ok = false; return; }
      p += key.size(); if (got.compare(p, 2, "#x") == 0) model[v] = (uint8_t)strtoul(got.c_str() + p + 2, nullptr, 16); else if (got.compare(p, 2, "#b") == 0) model[v] = (uint8_t)strtoul(got.c_str() + p + 2, nullptr, 2); else ok = false; });
    if (!ok) res = S_UNKNOWN;
  }
  return res;
}
static std::string smt2(const std::vector<Z3_ast> &as, const VarSet &sup, bool fp) {
  std::vector<Z3_ast> tail(as.begin(), as.end() - 1);
  std::string s = Z3_benchmark_to_smtlib_string(C, "q", "", "unknown", "", (unsigned)tail.size(), tail.data(), as.back());
  // make sure all variables are declared, drop z3's trailing check-sat
  size_t p = s.rfind("(check-sat)"); if (p != std::string::npos) s = s.substr(0, p);
  std::string decl; sup.each([&](int v) { std::string d = "(declare-fun b" + std::to_string(v) + " ()"; if (s.find(d) == std::string::npos) decl += d + " (_ BitVec 8))\n"; });
  std::string pre = fp ? "(set-logic QF_BVFP)\n" : "(set-logic QF_BV)\n";
  std::string r = "(set-option :produce-models true)\n" + pre + decl;
  // remove set-info / set-logic lines from z3's text
  size_t i = 0; while (i < s.size()) { size_t e = s.find('\n', i); if (e == std::string::npos) e = s.size(); std::string line = s.substr(i, e - i); if (line.compare(0, 9, "(set-info") && line.compare(0, 10, "(set-logic") && line.compare(0, 1, ";")) r += line + "\n"; i = e + 1; }
  r += "(check-sat)\n(get-value ("; sup.each([&](int v) { r += "b" + std::to_string(v) + " "; }); r += "))\n";
  return r;
}
static bool hasFp(Expr *e, std::unordered_map<Expr *, bool> &m) { if (e->kind >= K_FAdd) return true; auto it = m.find(e); if (it != m.end()) return it->second; bool r = (e->a && hasFp(e->a, m)) || (e->b && hasFp(e->b, m)) || (e->c && hasFp(e->c, m)); return m[e] = r; }
struct CacheEnt { SolveRes r; std::vector<std::pair<int, uint8_t>> m; };
static std::unordered_map<std::string, CacheEnt> qcache;
// Decides a conjunction over few variables with small domains by evaluating it for every assignment (finite-domain theory);
// used for floating point and hard arithmetic over a handful of bytes, where bit-blasting does not answer in time.
static SolveRes finite(const std::vector<Expr *> &cs, const VarSet &sup, const Dom *doms, uint8_t *model, u64 limit) {
  std::vector<int> vs; std::vector<std::vector<uint8_t>> vals; u64 n = 1;
  sup.each([&](int v) { vs.push_back(v); std::vector<uint8_t> x; for (int i = 0; i < 256; i++) if (doms[v].has((uint8_t)i)) x.push_back((uint8_t)i); n = n > limit ? n : n * std::max<u64>(1, x.size()); vals.push_back(x); });
  if (n > limit || vs.empty()) return S_UNKNOWN;
  for (auto &x : vals) if (x.empty()) return S_UNSAT;
  uint8_t m[MAXVARS] = {0}; std::vector<size_t> ix(vs.size(), 0); u64 cnt = 0; double t1 = now();
  for (size_t i = 0; i < vs.size(); i++) m[vs[i]] = vals[i][0];
  for (;;) {
    if (!(++cnt & 63) && now() - t1 > 20) return S_UNKNOWN;
    Evaluator E(m); bool ok = true; for (auto *c : cs) if (!E.ev(c)) { ok = false; break; }
    if (ok) { for (int v : vs) model[v] = m[v]; return S_SAT; }
    size_t k = 0; for (; k < vs.size(); k++) { if (++ix[k] < vals[k].size()) { m[vs[k]] = vals[k][ix[k]]; break; } ix[k] = 0; m[vs[k]] = vals[k][0]; }
    if (k == vs.size()) return S_UNSAT;
  }
}
SolveRes solve(const std::vector<Expr *> &cs, const Dom *doms, uint8_t *model) {
  init();
  VarSet sup; for (auto *c : cs) sup = sup | c->sup;
  std::string key;
  { std::vector<uint32_t> ids; for (auto *c : cs) ids.push_back(c->id); std::sort(ids.begin(), ids.end()); key.assign((char *)ids.data(), ids.size() * 4); sup.each([&](int v) { key.append((const char *)&doms[v], sizeof(Dom)); }); }
  auto it = qcache.find(key);
  if (it != qcache.end()) { g_ss.cachehit++; for (auto &p : it->second.m) model[p.first] = p.second; return it->second.r; }
  double t0 = now();
  std::unordered_map<Expr *, bool> fm; bool fp = false; for (auto *c : cs) fp |= hasFp(c, fm);
  if (fp) {
    SolveRes r = finite(cs, sup, doms, model, 20000);
    if (r != S_UNKNOWN) {
      double dt = now() - t0; g_ss.queries++; g_ss.fdom++; g_ss.time += dt; if (dt > g_ss.maxtime) g_ss.maxtime = dt; if (r == S_SAT) g_ss.sat++; else g_ss.unsat++;
      CacheEnt ce; ce.r = r; if (r == S_SAT) sup.each([&](int v) { ce.m.push_back({v, model[v]}); }); if (qcache.size() > 200000) qcache.clear(); qcache[key] = ce; return r;
    }
  }
  std::vector<Z3_ast> as;
  sup.each([&](int v) { if (!(doms[v] == Dom::full())) { Z3_ast a = domAst(v, doms[v]); Z3_inc_ref(C, a); as.push_back(a); } });
  for (auto *c : cs) { Z3_ast a = bv2b(conv(c)); Z3_inc_ref(C, a); as.push_back(a); }
  SolveRes res = S_UNKNOWN;
  Z3_solver_push(C, SV);
  double left = g_deadline > 0 ? std::max(0.2, g_deadline - now()) * 1000 : 1e9;
  setTimeout(SV, (int)std::min<double>(fp ? 150 : g_solver_fast_ms, left));
  for (auto a : as) Z3_solver_assert(C, SV, a);
  Z3_lbool lb = Z3_solver_check(C, SV);
  if (lb == Z3_L_TRUE) { res = S_SAT; getModel(SV, sup, model); } else if (lb == Z3_L_FALSE) res = S_UNSAT;
  Z3_solver_pop(C, SV, 1);
  if (res == S_UNKNOWN) { res = finite(cs, sup, doms, model, 20000); if (res != S_UNKNOWN) g_ss.fdom++; }
  if (res == S_UNKNOWN) {
    g_ss.fallback++;
    std::string txt = smt2(as, sup, fp);
    if (!g_dumpdir.empty()) { static int n = 0; std::string f = g_dumpdir + "/q" + std::to_string(getpid()) + "_" + std::to_string(n++) + ".smt2"; FILE *o = fopen(f.c_str(), "w"); if (o) { fputs(txt.c_str(), o); fclose(o); } }
    std::vector<std::vector<std::string>> cmds = {{"z3-new"}, {"cvc5"}};
    if (!fp) cmds.push_back({"cvc5", "--solve-bv-as-int=sum"});
    if (!fp) cmds.push_back({"z3", "tactic.default_tactic=qfbv"});
    res = external(txt, sup, model, (int)std::min<double>(g_solver_slow_ms, left), cmds);
    if (res != S_UNKNOWN) g_ss.ext++;
  } else if (g_cross_every && g_ss.queries % g_cross_every == 0) {
    // second opinion from an independent solver on a deterministic sample of the queries
    uint8_t tmp[MAXVARS]; SolveRes r2 = external(smt2(as, sup, fp), sup, tmp, 10000, {{"cvc5"}});
    if (r2 != S_UNKNOWN) { g_ss.cross++; if (r2 != res) { g_ss.crossbad++; res = S_UNKNOWN; } }
  }
  for (auto a : as) Z3_dec_ref(C, a);
  double dt = now() - t0;
  g_ss.queries++; g_ss.time += dt; if (dt > g_ss.maxtime) g_ss.maxtime = dt;
  if (res == S_SAT) {
    g_ss.sat++;
    // the model must satisfy the constraints when evaluated by the engine itself
    uint8_t full[MAXVARS] = {0}; sup.each([&](int v) { full[v] = model[v]; });
    Evaluator E(full); bool ok = true; for (auto *c : cs) if (!E.ev(c)) ok = false;
    sup.each([&](int v) { if (!doms[v].has(model[v])) ok = false; });
    if (!ok) { g_ss.crossbad++; g_ss.sat--; g_ss.unknown++; res = S_UNKNOWN; }
  } else if (res == S_UNSAT) g_ss.unsat++; else g_ss.unknown++;
  CacheEnt ce; ce.r = res; if (res == S_SAT) sup.each([&](int v) { ce.m.push_back({v, model[v]}); });
  if (qcache.size() > 200000) qcache.clear();
  qcache[key] = ce;
  return res;
}
