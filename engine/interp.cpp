// Symbolic executor for LLVM IR.  See /verif/DESIGN.md.
#include "expr.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/IntrinsicsX86.h>
#include <llvm/IR/IntrinsicsAArch64.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <unordered_map>
#include <unordered_set>
#include <map>
#include <set>
#include <deque>
#include <chrono>
#include <cmath>
#include <functional>
#include <cstdio>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <signal.h>
using namespace llvm;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

struct Val { u64 c; Expr *e; };
static inline Val cv(u64 c) { return Val{c, nullptr}; }
static inline Val mkv(Expr *e) { if (e->isConst() && e->width <= 64) return Val{e->extra, nullptr}; return Val{0, e}; }
static inline Expr *ex(const Val &v, int w) { return v.e ? v.e : mkConst(w, v.c); }

// ------------------------------------------------------------------ memory
struct Obj {
  int ref = 1;
  uint32_t gen = 0;
  uint8_t kind = 0; // 0 heap 1 stack 2 global 3 function
  bool freed = false, ro = false;
  uint32_t size = 0;
  uint32_t align = 1;
  std::vector<uint8_t> d;
  std::vector<Expr *> s; // empty or size entries
  const char *name = "";
  Obj *clone() { Obj *o = new Obj(*this); o->ref = 1; return o; }
};
const u64 OFFB = 24, BASEOFF = 0x100000, IDB = 20;
static inline uint32_t addrId(u64 a) { return (uint32_t)((a >> OFFB) & ((1u << IDB) - 1)); }
static inline uint32_t addrGen(u64 a) { return (uint32_t)(a >> (OFFB + IDB)); }
static inline u64 mkAddr(uint32_t id, uint32_t gen) { return ((u64)gen << (OFFB + IDB)) | ((u64)id << OFFB) | BASEOFF; }
static inline i64 addrOff(u64 a) { return (i64)(a & ((1ull << OFFB) - 1)) - (i64)BASEOFF; }

static std::vector<Obj *> baseObjs(1, nullptr); // ids 0..N-1: constants and functions, shared and immutable
struct ObjTab {
  std::vector<Obj *> v;
  std::vector<uint32_t> freeIds;
  ObjTab() {}
  ObjTab(const ObjTab &o) : v(o.v), freeIds(o.freeIds) { for (auto *p : v) if (p) p->ref++; }
  ObjTab &operator=(const ObjTab &o) = delete;
  ~ObjTab() { for (auto *p : v) if (p && --p->ref == 0) delete p; }
  uint32_t alloc(uint32_t size, int kind, u64 &addr) {
    Obj *o = new Obj; o->size = size; o->d.assign(size, 0xAA); o->kind = (uint8_t)kind;
    uint32_t i;
    if (!freeIds.empty()) { i = freeIds.back(); freeIds.pop_back(); o->gen = v[i]->gen + 1; if (--v[i]->ref == 0) delete v[i]; v[i] = o; }
    else { i = (uint32_t)v.size(); v.push_back(o); o->gen = 1; }
    uint32_t id = i + (uint32_t)baseObjs.size();
    addr = mkAddr(id, o->gen);
    return id;
  }
  Obj *get(uint32_t id) { if (id < baseObjs.size()) return baseObjs[id]; id -= (uint32_t)baseObjs.size(); return id < v.size() ? v[id] : nullptr; }
  Obj *wr(uint32_t id) { id -= (uint32_t)baseObjs.size(); Obj *o = v[id]; if (o->ref > 1) { o->ref--; o = v[id] = o->clone(); } return o; }
  void release(uint32_t id) { Obj *o = wr(id); o->freed = true; std::vector<uint8_t>().swap(o->d); std::vector<Expr *>().swap(o->s); freeIds.insert(freeIds.begin(), id - (uint32_t)baseObjs.size()); }
};
// ------------------------------------------------------------------ decoded code
struct Leaf { uint16_t w; uint8_t fp; uint32_t off; };
typedef std::vector<Leaf> Layout;
static Module *M; static const DataLayout *DL;
static std::unordered_map<Type *, Layout *> layouts;
static void flatten(Type *t, u64 off, Layout &l) {
  if (t->isIntegerTy()) l.push_back({(uint16_t)t->getIntegerBitWidth(), 0, (uint32_t)off});
  else if (t->isPointerTy()) l.push_back({64, 0, (uint32_t)off});
  else if (t->isFloatTy()) l.push_back({32, 1, (uint32_t)off});
  else if (t->isDoubleTy()) l.push_back({64, 1, (uint32_t)off});
  else if (t->isX86_FP80Ty()) l.push_back({80, 1, (uint32_t)off});
  else if (t->isHalfTy()) l.push_back({16, 1, (uint32_t)off});
  else if (auto *st = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) flatten(st->getElementType(i), off + sl->getElementOffset(i), l); }
  else if (auto *at = dyn_cast<ArrayType>(t)) { u64 es = DL->getTypeAllocSize(at->getElementType()); for (unsigned i = 0; i < at->getNumElements(); i++) flatten(at->getElementType(), off + i * es, l); }
  else if (auto *vt = dyn_cast<FixedVectorType>(t)) { u64 bits = DL->getTypeSizeInBits(vt->getElementType()); for (unsigned i = 0; i < vt->getNumElements(); i++) { Layout tmp; flatten(vt->getElementType(), 0, tmp); tmp[0].off = (uint32_t)(off + i * bits / 8); l.push_back(tmp[0]); } }
  else if (t->isVoidTy() || t->isMetadataTy() || t->isTokenTy() || t->isLabelTy()) {}
  else { errs() << "unsupported type " << *t << "\n"; exit(3); }
}
static Layout *layout(Type *t) { auto &l = layouts[t]; if (!l) { Layout *n = new Layout; flatten(t, 0, *n); layouts[t] = n; return n; } return l; }

enum OpC : uint8_t { O_Bin, O_ICmp, O_FCmp, O_Cast, O_BitCast, O_Load, O_Store, O_GEP, O_Alloca, O_Br, O_CondBr, O_Switch, O_Ret, O_Unreach, O_Select, O_Call, O_ExtractV, O_InsertV, O_ExtractE, O_InsertE, O_Shuffle, O_FNeg, O_Copy, O_Invoke, O_LandingPad, O_Resume, O_AtomicRMW, O_CmpXchg, O_Unsup };
struct FnInfo;
struct Edge { uint32_t target; std::vector<std::pair<int, uint32_t>> copies; std::vector<uint32_t> tmpn; };
struct Ins {
  OpC op; Kind k = K_Add; uint8_t flag = 0; uint16_t w = 0, w2 = 0;
  int dst = -1; int a = 0, b = 0, c = 0; uint32_t n = 1;
  u64 imm = 0;
  Layout *lay = nullptr, *lay2 = nullptr;
  std::vector<std::pair<int, u64>> gep; std::vector<int> gepw;
  Edge *e1 = nullptr, *e2 = nullptr;
  std::vector<std::pair<u64, Edge *>> cases;
  std::vector<int> args; std::vector<Layout *> argl; std::vector<u64> byval;
  Function *callee = nullptr; int builtin = -1;
  std::vector<int> mask;
  Instruction *I = nullptr;
};
struct FnInfo {
  Function *F; std::vector<Ins> code; std::vector<Val> consts; std::vector<int> params; std::vector<Layout *> paramL; uint32_t nslots = 0;
  u64 hits = 0;
};
static std::unordered_map<Function *, FnInfo *> fnInfo;
static std::unordered_map<u64, Function *> addrFn;
static std::unordered_map<const GlobalValue *, u64> gaddr;

struct Frame { FnInfo *fn; uint32_t pc, base; int retDst; uint32_t nret; std::vector<uint32_t> allocas; Edge *invUnwind = nullptr; };
struct PathAbort {}; // not thrown: we use status flags
struct SymIn { std::string name; uint32_t n; int firstVar; };
struct State {
  std::vector<Frame> fr;
  std::vector<Val> regs;
  ObjTab mem;
  std::vector<Expr *> pc; // multi-variable constraints
  VarSet multi;
  std::vector<Dom> dom;
  std::vector<uint8_t> model;
  int nvars = 0;
  u64 steps = 0;
  uint32_t depth = 0;
  std::vector<SymIn> ins;
  std::vector<Val> obs; // observed bytes
  std::vector<uint32_t> reach;
  u64 excPtr = 0, excTinfo = 0;
  bool incomplete = false;
};
// ------------------------------------------------------------------ run globals
static std::deque<State *> work;
static u64 nPaths = 0, nForks = 0, nKilled = 0, nSteps = 0, nChecks = 0, nChecksConst = 0, nUndecided = 0, nUnsup = 0, nBudget = 0, nDomDec = 0, nConcretize = 0;
static std::map<std::string, u64> reachCount, unsupMsgs;
static std::vector<std::string> reachNames; static std::map<std::string, uint32_t> reachIdx;
static std::map<std::string, int> violSeen;
static FILE *outF; static u64 stepLimit = 4000000; static double tEnd = 1e18; static u64 sampleEvery = 50, sampleMax = 100, nSamples = 0; static int violPer = 2, violTotal = 0, violMax = 40;
static bool dead; // current path ended
static State *S;
static std::string jesc(const std::string &s) { std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }
static std::string hex(const std::vector<uint8_t> &v) { std::string r; char b[4]; for (auto c : v) { snprintf(b, 4, "%02x", c); r += b; } return r; }
static std::string inputsHex(State &s, const uint8_t *m) { std::vector<uint8_t> v(m, m + s.nvars); return hex(v); }
static std::string where() {
  std::string r;
  int n = 0;
  for (size_t i = S->fr.size(); i-- > 0 && n < 6; n++) { Frame &f = S->fr[i]; std::string nm = demangle(f.fn->F->getName().str()); if (nm.size() > 140) nm = nm.substr(0, 140) + ".."; r += (n ? " < " : "") + nm;
    uint32_t pc = f.pc; if (pc < f.fn->code.size() && f.fn->code[pc].I) if (auto &dl = f.fn->code[pc].I->getDebugLoc()) r += ":" + std::to_string(dl.getLine()); }
  return r;
}
static void killPath() { dead = true; }
static void report(const std::string &kind, const std::string &msg, const uint8_t *m, bool final) {
  std::string loc = where();
  std::string key = kind + "|" + msg + "|" + (kind == "check" ? "" : loc.substr(0, loc.find(" < ")));
  if (violSeen[key]++ < violPer) {
    fprintf(outF, "{\"t\":\"viol\",\"kind\":\"%s\",\"msg\":\"%s\",\"where\":\"%s\",\"in\":\"%s\"}\n", kind.c_str(), jesc(msg).c_str(), jesc(loc).c_str(), inputsHex(*S, m).c_str()); fflush(outF);
    fflush(outF);
  }
  violTotal++;
  if (final) killPath();
}
static void violation(const std::string &kind, const std::string &msg) { report(kind, msg, S->model.data(), true); }
static void unsupported(const std::string &msg) { nUnsup++; unsupMsgs[msg + " @ " + where()]++; killPath(); }

// ------------------------------------------------------------------ constraints
static void setDom(State &s, int v, const Dom &d) { s.dom[v] = d; }
static void sliceFor(State &s, const VarSet &sup, std::vector<Expr *> &out) {
  VarSet cur = sup; std::vector<char> used(s.pc.size(), 0); bool ch = true;
  while (ch) { ch = false; for (size_t i = 0; i < s.pc.size(); i++) if (!used[i] && s.pc[i]->sup.intersects(cur)) { used[i] = 1; cur = cur | s.pc[i]->sup; out.push_back(s.pc[i]); ch = true; } }
}
// is PC && c satisfiable?  model gets a full satisfying assignment
static SolveRes feasible(State &s, Expr *c, std::vector<uint8_t> &model) {
  model = s.model;
  if (c->isConst()) return c->extra ? S_SAT : S_UNSAT;
  if (c->kind == K_Tab) {
    int v = c->var(); Dom d = s.dom[v] & c->tab->bits;
    if (d.empty()) { // confirm the refutation with the SMT solver (memoised per table and domain)
      std::vector<Expr *> one(1, c); uint8_t tmp[MAXVARS]; SolveRes r = solve(one, s.dom.data(), tmp); if (r != S_UNSAT) { fprintf(stderr, "engine: domain procedure and solver disagree\n"); exit(5); } return S_UNSAT; }
    if (!s.multi.has(v)) { if (!d.has(model[v])) model[v] = (uint8_t)d.first(); nDomDec++; return S_SAT; }
  }
  { Evaluator E(model.data()); if (E.ev(c)) return S_SAT; }
  std::vector<Expr *> cs; cs.push_back(c);
  sliceFor(s, c->sup, cs);
  uint8_t m[MAXVARS]; memcpy(m, model.data(), model.size());
  static const bool tq = getenv("VF_TRACEQ") != nullptr;
  if (tq) fprintf(stderr, "Q n=%zu %s :: %s\n", cs.size(), exprStr(c).c_str(), where().c_str());
  SolveRes r = solve(cs, s.dom.data(), m);
  if (r == S_SAT) memcpy(model.data(), m, model.size());
  return r;
}
static void addConstraint(State &s, Expr *c) { // caller guarantees feasibility and a fitting model
  if (c->isConst()) return;
  if (c->kind == K_And && c->width == 1) { addConstraint(s, c->a); addConstraint(s, c->b); return; }
  c = specialize(c, s.dom.data());
  if (c->isConst()) return;
  if (c->kind == K_And && c->width == 1) { addConstraint(s, c->a); addConstraint(s, c->b); return; }
  if (c->kind == K_Tab) { setDom(s, c->var(), s.dom[c->var()] & c->tab->bits); return; }
  for (auto *p : s.pc) if (p == c) return;
  s.pc.push_back(c); s.multi = s.multi | c->sup;
}
static State *forkState() { nForks++; State *n = new State(*S); n->depth++; S->depth++; return n; }
// decide an atomic condition; forks a copy (positioned on the same instruction) when both ways are possible
static bool decide(Expr *c) {
  c = specialize(c, S->dom.data());
  if (c->isConst()) return c->extra;
  Expr *nc = mkNot(c);
  std::vector<uint8_t> mt, mf;
  SolveRes rt = feasible(*S, c, mt);
  if (rt == S_UNSAT) return false;
  SolveRes rf = feasible(*S, nc, mf);
  if (rt == S_UNKNOWN || rf == S_UNKNOWN) { nUndecided++; S->incomplete = true; // keep to the side the model is on
    Evaluator E(S->model.data()); bool v = E.ev(c); addConstraint(*S, v ? c : nc); return v; }
  if (rf == S_UNSAT) return true;
  // both
  bool here = true; { Evaluator E(S->model.data()); here = E.ev(c); }
  State *o = forkState();
  addConstraint(*o, here ? nc : c); o->model = here ? mf : mt;
  work.push_back(o);
  addConstraint(*S, here ? c : nc); S->model = here ? mt : mf;
  return here;
}
static bool branchOn(Expr *c) {
  if (c->isConst()) return c->extra;
  if (c->width == 1 && c->kind == K_And) { if (!branchOn(c->a)) return false; return branchOn(c->b); }
  if (c->width == 1 && c->kind == K_Or) { if (branchOn(c->a)) return true; return branchOn(c->b); }
  if (c->width == 1 && c->kind == K_Xor && c->b->isConst()) return !branchOn(c->a);
  return decide(c);
}
static u64 concretize(Val v, int w) { // fork over all feasible values
  if (!v.e) return v.c;
  Expr *e = specialize(v.e, S->dom.data());
  if (e->isConst() && e->width <= 64) return e->extra;
  if (e->kind == K_Ite && e->width <= 64) { bool t = branchOn(e->c); if (dead) return 0; u64 k = concretize(mkv(t ? e->a : e->b), w); if (dead) return k; for (size_t i = S->fr.back().base; i < S->regs.size(); i++) if (S->regs[i].e == v.e) S->regs[i] = cv(k); return k; }
  nConcretize++;
  u64 k; { Evaluator E(S->model.data()); if (e->width > 64) { unsupported("concretize wide"); return 0; } k = E.ev(e); }
  Expr *eq = mkBin(K_Eq, e, mkConst(e->width, k));
  Expr *ne = mkNot(eq);
  std::vector<uint8_t> m;
  SolveRes r = feasible(*S, ne, m);
  if (r == S_SAT) { State *o = forkState(); addConstraint(*o, ne); o->model = m; work.push_back(o); }
  else if (r == S_UNKNOWN) { nUndecided++; S->incomplete = true; }
  addConstraint(*S, eq);
  // remember the value in the registers that hold the same expression
  for (size_t i = S->fr.back().base; i < S->regs.size(); i++) if (S->regs[i].e == v.e) S->regs[i] = cv(k);
  return k;
}
// ------------------------------------------------------------------ memory access
static Obj *resolve(u64 a, u64 size, bool write, uint32_t &id, i64 &off) {
  id = addrId(a); off = addrOff(a);
  Obj *o = S->mem.get(id);
  if (a < 4096 || !o || o->gen != addrGen(a)) {
    if (a < 65536) violation("null", "null pointer access");
    else if (o && o->gen > addrGen(a)) violation("uaf", "use after free or return");
    else violation("oob", "wild pointer access");
    return nullptr;
  }
  if (o->freed) { violation("uaf", "use after free or return"); return nullptr; }
  if (off < 0 || (u64)off + size > o->size) { violation("oob", std::string("out of bounds ") + (write ? "write" : "read") + " of " + (o->kind == 0 ? "heap" : o->kind == 1 ? "stack" : "global") + " object"); return nullptr; }
  if (write && (o->ro || id < baseObjs.size())) { violation("oob", "write to constant object"); return nullptr; }
  return o;
}
static inline Val loadByte(Obj *o, u64 i) {
  if (!o->s.empty() && o->s[i]) {
    Expr *e = o->s[i];
    if (e->kind == K_Tab) { const Dom &d = S->dom[e->var()]; int f = d.first(); if (d.count() == 1) return cv(e->tab->v[f]); }
    return Val{0, e};
  }
  return cv(o->d[i]);
}
static Val loadLeafAt(Obj *o, u64 off, const Leaf &l) {
  unsigned n = (l.w + 7) / 8;
  if (l.w <= 64) {
    bool sym = false;
    if (!o->s.empty()) for (unsigned i = 0; i < n; i++) if (o->s[off + i]) { sym = true; break; }
    if (!sym) { u64 v = 0; memcpy(&v, o->d.data() + off, n); return cv(v & maskw(l.w)); }
  }
  Expr *e = nullptr;
  for (unsigned i = 0; i < n; i++) { Val b = loadByte(o, off + i); Expr *x = ex(b, 8); e = e ? mkBin(K_Concat, x, e) : x; }
  if (e->width != l.w) e = mkExtract(e, 0, l.w);
  return mkv(e);
}
static void storeByte(Obj *o, u64 i, Val v) {
  if (v.e) { if (o->s.empty()) o->s.assign(o->size, nullptr); o->s[i] = v.e; }
  else { o->d[i] = (uint8_t)v.c; if (!o->s.empty()) o->s[i] = nullptr; }
}
static void storeLeafAt(Obj *o, u64 off, const Leaf &l, Val v) {
  unsigned n = (l.w + 7) / 8;
  if (!v.e) { memcpy(o->d.data() + off, &v.c, n); if (!o->s.empty()) for (unsigned i = 0; i < n; i++) o->s[off + i] = nullptr; return; }
  Expr *e = v.e;
  if (e->width < n * 8) e = mkCast(K_ZExt, n * 8, e);
  for (unsigned i = 0; i < n; i++) storeByte(o, off + i, mkv(mkExtract(e, i * 8, 8)));
}
static void doLoad(Val addr, Layout *lay, u64 size, Val *dst) {
  uint32_t id; i64 off;
  if (addr.e) {
    Expr *e = specialize(addr.e, S->dom.data());
    if (e->isConst()) addr = cv(e->extra);
    else if (e->kind == K_Tab && lay->size() == 1 && (*lay)[0].w <= 64) {
      // table lookup by one byte: read every feasible address
      int v = e->var(); Dom d = S->dom[v]; u64 t[256] = {0}; bool ok = true; Dom bad = Dom::none(); u64 lastGood = 0; bool haveGood = false;
      for (int i = 0; i < 256 && ok; i++) if (d.has(i)) {
        u64 a = e->tab->v[i]; uint32_t oid = addrId(a); i64 of = addrOff(a); Obj *o = S->mem.get(oid);
        if (!o || o->gen != addrGen(a) || o->freed || of < 0 || (u64)of + size > o->size) { bad.add(i); continue; }
        Val x = loadLeafAt(o, of, (*lay)[0]); if (x.e) { ok = false; break; } t[i] = x.c; lastGood = x.c; haveGood = true;
      }
      if (ok && bad.empty() && haveGood) { for (int i = 0; i < 256; i++) if (!d.has(i)) t[i] = lastGood; dst[0] = mkv(mkTab(v, internTable((*lay)[0].w, t))); return; }
    }
    if (addr.e) addr = cv(concretize(addr, 64));
    if (dead) return;
  }
  Obj *o = resolve(addr.c, size, false, id, off); if (!o) return;
  for (size_t i = 0; i < lay->size(); i++) dst[i] = loadLeafAt(o, off + (*lay)[i].off, (*lay)[i]);
}
static void doStore(Val addr, Layout *lay, u64 size, const Val *src) {
  uint32_t id; i64 off;
  u64 a = concretize(addr, 64); if (dead) return;
  Obj *o = resolve(a, size, true, id, off); if (!o) return;
  o = S->mem.wr(id);
  for (size_t i = 0; i < lay->size(); i++) storeLeafAt(o, off + (*lay)[i].off, (*lay)[i], src[i]);
}
static void copyMem(u64 d, u64 s, u64 n) {
  if (!n) return;
  uint32_t id1, id2; i64 o1, o2;
  Obj *so = resolve(s, n, false, id2, o2); if (!so) return;
  Obj *dd = resolve(d, n, true, id1, o1); if (!dd) return;
  dd = S->mem.wr(id1); so = S->mem.get(id2);
  bool ssym = !so->s.empty();
  if (!ssym && dd->s.empty()) { memmove(dd->d.data() + o1, so->d.data() + o2, n); return; }
  if (ssym && dd->s.empty()) { bool any = false; for (u64 i = 0; i < n; i++) if (so->s[o2 + i]) { any = true; break; } if (!any) { memmove(dd->d.data() + o1, so->d.data() + o2, n); return; } dd->s.assign(dd->size, nullptr); }
  std::vector<Expr *> tmp(n, nullptr); if (!so->s.empty()) for (u64 i = 0; i < n; i++) tmp[i] = so->s[o2 + i];
  memmove(dd->d.data() + o1, so->d.data() + o2, n);
  for (u64 i = 0; i < n; i++) { Expr *e = tmp[i]; if (e && e->kind == K_Tab) { const Dom &dm = S->dom[e->var()]; if (dm.count() == 1) { dd->d[o1 + i] = (uint8_t)e->tab->v[dm.first()]; e = nullptr; } } dd->s[o1 + i] = e; }
}
static std::string cstr(u64 a) { std::string r; uint32_t id = addrId(a); i64 off = addrOff(a); Obj *o = S->mem.get(id); if (!o || off < 0) return "?"; while ((u64)off < o->size && o->d[off]) r += (char)o->d[off++]; return r; }
static Val readB(u64 a) { uint32_t id; i64 off; Obj *o = resolve(a, 1, false, id, off); if (!o) return cv(0); return loadByte(o, off); }

// ------------------------------------------------------------------ constants & globals
static void evalConst(const Constant *c, Layout *l, Val *out);
static u64 constAddr(const Constant *c) { Val v; Layout *l = layout(c->getType()); evalConst(c, l, &v); return v.c; }
static void storeInit(const Constant *c, uint8_t *p) {
  Layout *l = layout(c->getType()); if (l->empty()) return;
  if (isa<ConstantAggregateZero>(c)) { memset(p, 0, DL->getTypeAllocSize(c->getType())); return; }
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { StringRef r = cd->getRawDataValues(); memcpy(p, r.data(), r.size()); return; }
  std::vector<Val> v(l->size()); evalConst(c, l, v.data());
  for (size_t i = 0; i < l->size(); i++) { unsigned n = ((*l)[i].w + 7) / 8; if (v[i].e) { APInt a = *v[i].e->wide; for (unsigned b = 0; b < n; b++) p[(*l)[i].off + b] = (uint8_t)a.extractBitsAsZExtValue(std::min(8u, a.getBitWidth() - b * 8), b * 8); } else memcpy(p + (*l)[i].off, &v[i].c, n); }
}
static Val apv(const APInt &a) { if (a.getBitWidth() <= 64) return cv(a.getZExtValue()); return Val{0, mkConstAP(a)}; }
static void evalConst(const Constant *c, Layout *l, Val *out) {
  if (auto *ci = dyn_cast<ConstantInt>(c)) { out[0] = apv(ci->getValue()); return; }
  if (auto *cf = dyn_cast<ConstantFP>(c)) { out[0] = apv(cf->getValueAPF().bitcastToAPInt()); return; }
  if (isa<ConstantPointerNull>(c)) { out[0] = cv(0); return; }
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { for (size_t i = 0; i < l->size(); i++) out[i] = (*l)[i].w > 64 ? Val{0, mkConst((*l)[i].w, 0)} : cv(0); return; }
  if (auto *gv = dyn_cast<GlobalValue>(c)) { if (auto *ga = dyn_cast<GlobalAlias>(gv)) { evalConst(ga->getAliasee(), l, out); return; } auto it = gaddr.find(gv); if (it == gaddr.end()) { errs() << "no address for " << gv->getName() << "\n"; exit(3); } out[0] = cv(it->second); return; }
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < cd->getNumElements(); i++) { Layout *el = layout(cd->getElementType()); evalConst(cd->getElementAsConstant(i), el, out + i * el->size()); } return; }
  if (auto *ca = dyn_cast<ConstantAggregate>(c)) { size_t k = 0; for (unsigned i = 0; i < ca->getNumOperands(); i++) { Layout *el = layout(ca->getOperand(i)->getType()); evalConst(ca->getOperand(i), el, out + k); k += el->size(); } return; }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
    case Instruction::GetElementPtr: { auto *g = cast<GEPOperator>(ce); APInt off(64, 0); if (!g->accumulateConstantOffset(*DL, off)) break; out[0] = cv(constAddr(ce->getOperand(0)) + off.getZExtValue()); return; }
    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: { u64 a = constAddr(ce->getOperand(0)); out[0] = cv((*l)[0].w <= 64 ? a & maskw((*l)[0].w) : a); return; }
    case Instruction::Trunc: { out[0] = cv(constAddr(ce->getOperand(0)) & maskw((*l)[0].w)); return; }
    case Instruction::Add: out[0] = cv((constAddr(ce->getOperand(0)) + constAddr(ce->getOperand(1))) & maskw((*l)[0].w)); return;
    case Instruction::Sub: out[0] = cv((constAddr(ce->getOperand(0)) - constAddr(ce->getOperand(1))) & maskw((*l)[0].w)); return;
    default: break;
    }
    errs() << "unsupported constexpr " << *c << "\n"; exit(3);
  }
  errs() << "unsupported constant " << *c << "\n"; exit(3);
}
#include "decode.inc"
#include "exec.inc"
