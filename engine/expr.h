// Symbolic expressions: hash-consed bit-vector DAG over 8-bit variables.
// Every expression of width <= 64 that depends on exactly one variable is kept in
// canonical form as a table of its 256 values.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <llvm/ADT/APInt.h>
typedef unsigned long long u64;
typedef long long i64;
typedef unsigned __int128 u128;
typedef __int128 i128;
using llvm::APInt;

enum Kind : uint8_t {
  K_Const, K_Tab,
  K_Add, K_Sub, K_Mul, K_UDiv, K_SDiv, K_URem, K_SRem, K_And, K_Or, K_Xor, K_Shl, K_LShr, K_AShr,
  K_Eq, K_Ult, K_Ule, K_Slt, K_Sle,
  K_ZExt, K_SExt, K_Extract, K_Concat, K_Ite,
  K_FAdd, K_FSub, K_FMul, K_FDiv, K_FRem, K_FCmp,   // FCmp: pred in extra
  K_FToSI, K_FToUI, K_SIToF, K_UIToF, K_FConv, K_FRound  // FRound: mode in extra (0 floor,1 ceil,2 trunc,3 rint/nearbyint,4 round)
};
const int MAXVARS = 256;
struct VarSet {
  u64 w[4];
  VarSet() { w[0] = w[1] = w[2] = w[3] = 0; }
  void add(int i) { w[i >> 6] |= 1ull << (i & 63); }
  bool has(int i) const { return (w[i >> 6] >> (i & 63)) & 1; }
  VarSet operator|(const VarSet &o) const { VarSet r; for (int i = 0; i < 4; i++) r.w[i] = w[i] | o.w[i]; return r; }
  VarSet operator&(const VarSet &o) const { VarSet r; for (int i = 0; i < 4; i++) r.w[i] = w[i] & o.w[i]; return r; }
  bool intersects(const VarSet &o) const { return (w[0] & o.w[0]) | (w[1] & o.w[1]) | (w[2] & o.w[2]) | (w[3] & o.w[3]); }
  bool operator==(const VarSet &o) const { return !memcmp(w, o.w, sizeof w); }
  int count() const { return __builtin_popcountll(w[0]) + __builtin_popcountll(w[1]) + __builtin_popcountll(w[2]) + __builtin_popcountll(w[3]); }
  int first() const { for (int i = 0; i < 4; i++) if (w[i]) return i * 64 + __builtin_ctzll(w[i]); return -1; }
  template <class F> void each(F f) const { for (int i = 0; i < 4; i++) { u64 x = w[i]; while (x) { int b = __builtin_ctzll(x); x &= x - 1; f(i * 64 + b); } } }
};
struct Dom { // subset of 0..255
  u64 w[4];
  static Dom full() { Dom d; for (int i = 0; i < 4; i++) d.w[i] = ~0ull; return d; }
  static Dom none() { Dom d; for (int i = 0; i < 4; i++) d.w[i] = 0; return d; }
  bool has(int i) const { return (w[i >> 6] >> (i & 63)) & 1; }
  void add(int i) { w[i >> 6] |= 1ull << (i & 63); }
  bool empty() const { return !(w[0] | w[1] | w[2] | w[3]); }
  int count() const { return __builtin_popcountll(w[0]) + __builtin_popcountll(w[1]) + __builtin_popcountll(w[2]) + __builtin_popcountll(w[3]); }
  int first() const { for (int i = 0; i < 4; i++) if (w[i]) return i * 64 + __builtin_ctzll(w[i]); return -1; }
  Dom operator&(const Dom &o) const { Dom r; for (int i = 0; i < 4; i++) r.w[i] = w[i] & o.w[i]; return r; }
  Dom operator~() const { Dom r; for (int i = 0; i < 4; i++) r.w[i] = ~w[i]; return r; }
  bool operator==(const Dom &o) const { return !memcmp(w, o.w, sizeof w); }
};
struct Table {
  int id;
  int width;
  u64 v[256];
  Dom bits; // for width 1: where it is true
  bool identity;
};
struct Expr {
  Kind kind;
  uint16_t width;
  uint32_t id;
  Expr *a, *b, *c;
  u64 extra; // const value, extract lo, fcmp pred, or var id for Tab
  const Table *tab;
  APInt *wide; // const, width > 64
  VarSet sup;
  u64 hash;
  uint32_t epoch = 0; // evaluation memo
  u64 ev = 0;
  APInt *evw = nullptr;
  bool isConst() const { return kind == K_Const; }
  int var() const { return (int)extra; }
};
inline u64 maskw(int w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline i64 sextw(u64 v, int w) { return w >= 64 ? (i64)v : ((i64)(v << (64 - w)) >> (64 - w)); }

Expr *mkConst(int w, u64 v);
Expr *mkConstAP(const APInt &v);
Expr *mkVar(int id);
Expr *mkTab(int var, const Table *t);
const Table *internTable(int width, const u64 *v);
Expr *mkBin(Kind k, Expr *a, Expr *b, u64 extra = 0); // width follows the kind
Expr *mkCast(Kind k, int w, Expr *a, u64 extra = 0);  // ZExt SExt Extract FP conversions
Expr *mkIte(Expr *c, Expr *t, Expr *f);
Expr *mkNot(Expr *a); // width 1
inline Expr *mkExtract(Expr *a, int lo, int w) { return mkCast(K_Extract, w, a, lo); }
inline bool isTrue(Expr *e) { return e->isConst() && e->extra; }
inline bool isFalse(Expr *e) { return e->isConst() && e->width <= 64 && !e->extra; }
u64 evalOp(Kind k, int w, int aw, u64 a, u64 b, u64 extra); // concrete, widths <= 64
// evaluate under assignment
struct Evaluator {
  const uint8_t *m;
  explicit Evaluator(const uint8_t *model);
  u64 ev(Expr *e);
  APInt evw(Expr *e);
};
std::string exprStr(Expr *e, int depth = 6);
Expr *specialize(Expr *e, const Dom *doms); // replace single-valued variables by their value
extern u64 g_nodes;

// ---- solver
enum SolveRes { S_UNSAT = 0, S_SAT = 1, S_UNKNOWN = 2 };
struct SolverStats { u64 queries = 0, sat = 0, unsat = 0, unknown = 0, fallback = 0, ext = 0, cachehit = 0, fdom = 0, cross = 0, crossbad = 0; double time = 0, maxtime = 0; };
extern SolverStats g_ss;
extern int g_solver_fast_ms, g_solver_slow_ms; extern double g_deadline;
extern std::string g_dumpdir;
extern int g_cross_every;
// conjunction of cs, with variable domains for all variables of their support; model filled for those variables
SolveRes solve(const std::vector<Expr *> &cs, const Dom *doms, uint8_t *model);
