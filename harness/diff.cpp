// C18: json_struct_diff. p0 mode 0: texts: p1 base template, p2 its arbitrary bytes, p3 diff template, p4 its arbitrary bytes, p5 options; 1: histories over a list of documents: p1 diffs, p2 changes of the base
#include <json_struct/json_struct_diff.h>
#include "vf.h"
#include "reftok.h"
#include <string>
#include <vector>
struct Doc { std::vector<RTok> t; std::vector<size_t> end; int ok = 0; }; // ok: 1 one complete container, 0 not well formed
static Doc doc(const char *d, size_t len) {
  Doc r; Ref f(d, len, 0); RTok k; std::vector<size_t> st;
  for (size_t i = 0; i <= len; i++) {
    RRes q = f.next(k); if (q != R_TOK) return r; if (!i && k.vt != R_OS && k.vt != R_AS) return r;
    r.t.push_back(k); r.end.push_back(r.t.size()); if (k.vt == R_OS || k.vt == R_AS) st.push_back(r.t.size() - 1); if (k.vt == R_OE || k.vt == R_AE) { r.end[st.back()] = r.t.size(); st.pop_back(); }
    if (f.depth == 0) { for (size_t j = f.p; j < len; j++) if (!Ref::ws(d[j])) return r; r.ok = 1; return r; }
  }
  return r;
}
static int eq(const char *a, size_t al, const char *b, size_t bl) { return al == bl && vf_eqmem(a, b, al); }
static bool dontcare, differs;
static bool value(const RTok &t, double &o) {
  static const double P[] = {1e0, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e11, 1e12, 1e13, 1e14, 1e15, 1e16, 1e17, 1e18, 1e19, 1e20, 1e21, 1e22};
  const char *p = t.v, *e = p + t.vl; bool neg = false; if (p < e && *p == '-') { neg = true; p++; } if (p >= e || !Ref::dig(*p)) return false;
  uint64_t m = 0; int k = 0, dg = 0; while (p < e && Ref::dig(*p)) { m = m * 10 + (uint64_t)(*p++ - '0'); dg++; } if (p < e && *p == '.') { p++; if (p >= e || !Ref::dig(*p)) return false; while (p < e && Ref::dig(*p)) { m = m * 10 + (uint64_t)(*p++ - '0'); k--; dg++; } }
  if (p < e && (*p == 'e' || *p == 'E')) { p++; bool en = false; if (p < e && (*p == '-' || *p == '+')) en = *p++ == '-'; if (p >= e) return false; int x = 0; while (p < e && Ref::dig(*p)) { x = x * 10 + (*p++ - '0'); if (x > 40) return false; } k += en ? -x : x; }
  if (p != e || dg > 14 || k < -22 || k > 22) return false; o = k < 0 ? (double)m / P[-k] : (double)m * P[k]; if (neg) o = -o; return true;
}
struct Exp { std::vector<int> d; std::vector<std::vector<size_t>> mm, mi; };
static void mark(Exp &x, size_t i, int v) { x.d[i] = v; differs = true; }
static void all(const Doc &d, Exp &x, size_t i, int v) { for (size_t j = i; j < d.end[i]; j++) mark(x, j, v); }
static void cmp(const Doc &b, size_t i, const Doc &d, size_t j, Exp &x, bool fuzzy, double eps) {
  const RTok &p = b.t[i], &q = d.t[j];
  if (p.vt == R_STR) { if (!eq(p.v, p.vl, q.v, q.vl)) mark(x, j, JS::ValueDiff); }
  else if (p.vt == R_NUM) { double u, w; if (!value(p, u) || !value(q, w)) { dontcare = true; return; } double g = u > w ? u - w : w - u; if (fuzzy ? !(g <= eps) : u != w) mark(x, j, JS::ValueDiff); }
  else if (p.vt == R_BOOL) { if (p.vl != q.vl) mark(x, j, JS::ValueDiff); }
  else if (p.vt == R_OS) {
    for (size_t a = i + 1; b.t[a].vt != R_OE; a = b.end[a]) {
      bool found = false; for (size_t c = j + 1; d.t[c].vt != R_OE; c = d.end[c]) if (eq(b.t[a].n, b.t[a].nl, d.t[c].n, d.t[c].nl)) { found = true; if (b.t[a].vt != d.t[c].vt) all(d, x, c, JS::TypeDiff); else cmp(b, a, d, c, x, fuzzy, eps); break; }
      if (!found) { mark(x, j, JS::MissingMembers); for (size_t c = a; c < b.end[a]; c++) x.mm[j].push_back(c); }
    }
    for (size_t c = j + 1; d.t[c].vt != R_OE; c = d.end[c]) { bool found = false; for (size_t a = i + 1; b.t[a].vt != R_OE; a = b.end[a]) if (eq(b.t[a].n, b.t[a].nl, d.t[c].n, d.t[c].nl)) { found = true; break; } if (!found) all(d, x, c, JS::NewMember); }
  } else if (p.vt == R_AS) {
    size_t a = i + 1, c = j + 1;
    for (; b.t[a].vt != R_AE && d.t[c].vt != R_AE; a = b.end[a], c = d.end[c]) if (b.t[a].vt != d.t[c].vt) { for (size_t k = c; k < d.end[c]; k++) x.d[k] = -1; mark(x, c, JS::TypeDiff); } else cmp(b, a, d, c, x, fuzzy, eps);
    for (; d.t[c].vt != R_AE; c = d.end[c]) all(d, x, c, JS::NewArrayItem);
    for (; b.t[a].vt != R_AE; a = b.end[a]) { mark(x, j, JS::MissingArrayItems); for (size_t k = a; k < b.end[a]; k++) x.mi[j].push_back(k); }
  }
}
static bool unique(const Doc &d) { for (size_t i = 0; i < d.t.size(); i++) if (d.t[i].vt == R_OS) for (size_t a = i + 1; d.t[a].vt != R_OE; a = d.end[a]) for (size_t c = d.end[a]; d.t[c].vt != R_OE; c = d.end[c]) if (eq(d.t[a].n, d.t[a].nl, d.t[c].n, d.t[c].nl)) return false; return true; }
static void verify(const Doc &b, const Doc &d, const JS::DiffTokens &r, bool fuzzy, double eps) {
  Exp x; x.d.assign(d.t.size(), 0); x.mm.resize(d.t.size()); x.mi.resize(d.t.size()); dontcare = differs = false;
  if (b.t.empty()) all(d, x, 0, d.t[0].vt == R_OS ? JS::NewMember : JS::NewArrayItem);
  else if (d.t.empty()) { vf_check(r.diff_count != 0, "a document that is gone differs"); return; }
  else if (b.t[0].vt != d.t[0].vt) all(d, x, 0, JS::RootItemDiff); else cmp(b, 0, d, 0, x, fuzzy, eps);
  if (dontcare) return;
  vf_check(r.tokens.data.size() == d.t.size() && r.diffs.size() == d.t.size(), "one result per token");
  vf_check((r.diff_count != 0) == differs, "differences are found exactly where there are some"); vf_reach(differs ? "differs" : "same");
  for (size_t i = 0; i < d.t.size(); i++) {
    if (x.d[i] >= 0) vf_check(r.diffs[i] == (JS::DiffType)x.d[i], "each token is marked with its difference");
    const std::vector<JS::Token> *m = r.getMissingMembers(r.tokens.data[i]), *a = r.getMissingArrayItems(r.tokens.data[i]);
    vf_check((m ? m->size() : 0) == x.mm[i].size() && (a ? a->size() : 0) == x.mi[i].size(), "missing tokens are listed");
    for (int k = 0; k < 2; k++) { auto &e = k ? x.mi[i] : x.mm[i]; auto *g = k ? a : m; for (size_t j = 0; j < e.size(); j++) { vf_check((*g)[j].value.data == b.t[e[j]].v && (*g)[j].value.size == b.t[e[j]].vl, "each missing token is one of the base"); vf_reach("missing"); } }
  }
}
static const char *PRE[] = {"", "{\"a\":", "[", "{\"a\":1,\"b\":", "[1,{\"a\":", "{\"", "[[1],", "{\"a\":{\"b\":\"", "[\"", "[1", "{\"a\":[1,2],", "[1,", "{\"q\":true,\"a\":[", "[-1.", "{\"a\":[],"}, *SUF[] = {"", "}", "]", "}", "}]", "\":1}", ",2]", "\"}}", "\"]", "]", "\"c\":null}", ",[2],3]", "]}", "e1]", "\"b\":{\"c\":[1]}}"};
static char *text(int t, int n, size_t &len, const char *nm) { size_t a = strlen(PRE[t]), b = strlen(SUF[t]); len = a + n + b; char *d = (char *)malloc(len + 1); memcpy(d, PRE[t], a); if (n) vf_symbolic(d + a, n, nm); memcpy(d + a + n, SUF[t], b); return d; }
static JS::DiffOptions opts(int o, bool &fuzzy, double &eps) { static const double E[] = {1e-6, 0.5, 3}; fuzzy = o < 3; eps = E[o % 3]; return o == 0 ? JS::DiffOptions() : JS::DiffOptions(fuzzy ? JS::FuzzyFloatComparison : JS::DiffFlags::None, eps); }
static void texts() {
  size_t bl, dl; char *b = text(vf_p(1), vf_p(2), bl, "base"), *d = text(vf_p(3), vf_p(4), dl, "diff"); Doc x = doc(b, bl), y = doc(d, dl); vf_assume(x.ok && y.ok); vf_assume(unique(x) && unique(y));
  bool f; double e; JS::DiffOptions o = opts(vf_p(5), f, e); JS::DiffContext c(b, bl, o); size_t i = c.diff(d, dl); vf_check(i == 0 && c.diffs.size() == 1 && c.error == JS::DiffError::NoError, "a document is diffed"); vf_obs(c.diffs[0].diff_count); for (auto q : c.diffs[0].diffs) vf_obs(q);
  verify(x, y, c.diffs[0], f, e); vf_check(c.base.diff_count == 0, "the base has no differences");
}
static const char *DOC[] = {"{\"a\":1,\"b\":[1,2,[3]]}", "{\"b\":[1],\"a\":1}", "[1,2,3]", "[1,[2],{\"x\":3}]", "{}", "[]", "{\"a\":{\"c\":1,\"d\":2},\"b\":[1,2,[3],4]}", "[[1,2],{\"x\":3,\"y\":4},5]", "{\"a\":1.0000001,\"b\":[true,null,\"s\"]}", " ", "", "{\"a\":1e999,\"b\":[1,2,[3,4]]}", "{\"a\":10e998,\"b\":null}"};
static void history() {
  std::vector<std::string> t; std::vector<Doc> ds; int nd = vf_p(1), nc = vf_p(2), lim = vf_p(3); bool f; double e; int o = vf_p(4); JS::DiffOptions op = opts(o, f, e);
  std::vector<int> pick; for (int i = 0; i <= nd; i++) pick.push_back((int)vf_choice((unsigned)lim, "doc"));
  for (int k : pick) t.push_back(DOC[k]); for (auto &s : t) ds.push_back(doc(s.data(), s.size()));
  for (int i = 0; i <= nd; i++) if (!ds[i].ok) ds[i].t.clear();
  JS::DiffContext c(op); c.reset(t[0], op); std::vector<int> idx; std::vector<int> in; int base = 0;
  for (int i = 1; i <= nd; i++) { size_t r = c.diff(t[i]); if (ds[i].ok) { vf_check(r == in.size(), "the position of the diff"); in.push_back(i); } else { vf_check(r == (size_t)-1 && c.error == (t[i].empty() ? JS::DiffError::EmptyString : JS::DiffError::NoTokens), "a text without a document is an error"); vf_reach("no document"); } }
  for (int s = 0; s <= nc; s++) {
    vf_check(c.diffs.size() == in.size(), "number of diffs");
    for (size_t i = 0; i < in.size(); i++) { bool special = false; for (int q : {base, in[i]}) if (pick[q] == 11 || pick[q] == 12) special = true; if (!special) verify(ds[base], ds[in[i]], c.diffs[i], f, e); else if (pick[base] == pick[in[i]]) vf_check(c.diffs[i].diff_count == 0, "the same text has no differences"); else vf_reach("special"); }
    if (s == nc || in.empty()) break; unsigned k = vf_choice((unsigned)in.size(), "base"); c.changeBase(k); std::swap(base, in[k]); vf_reach("changed");
  }
  if (vf_p(5)) { c.reset(t[nd], op); if (ds[nd].ok && ds[0].ok) { size_t r = c.diff(t[0]); vf_check(r == 0 && c.diffs.size() == 1, "reset forgets the diffs"); bool special = pick[0] > 10 || pick[nd] > 10; if (!special) verify(ds[nd], ds[0], c.diffs[0], f, e); } }
}
extern "C" void vf_main() { if (vf_p(0) == 0) texts(); else history(); }
