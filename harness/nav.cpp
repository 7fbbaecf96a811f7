// C22: resetting, scopes and copied ranges of the tokenizer. p0 mode (0 reset to a text, 1 scopes, 2 copied ranges, 3 token lists, 4 context used again, 5 deep scopes: p1 arbitrary bytes, p2 0 arrays 1 objects 2 alternating, p3 set of depths, 6 the ways of giving a text), p1 arbitrary bytes, p2 prefix, p3 suffix, p4 how the text arrives (0 one buffer, 1 cut anywhere, 2 byte by byte), p5 bytes of the second text, p6 options (-1 any)
#include <json_struct/json_struct.h>
#include "vf.h"
#include "reftok.h"
#include <string>
#include <vector>
static const char *PRE[] = {"", "{\"a\":", "[[", "{\"a\":[{\"b\":", "[1,{\"", "[[1],[", "[\"", "[{\"a\":{},\"b\":[", "{\"x\":{\"y\":{\"z\":", "[ [ ] , { \"k\" : "};
static const char *SUF[] = {"", ",\"b\":2}", "]]", "}]}", "\":[]},2]", "],[]]", "\",3]", "]},4]", "}},\"w\":[]}", " } , [ ] ]"};
static int tmap(JS::Type t) {
  switch (t) {
  case JS::Type::Ascii: return R_ASCII; case JS::Type::String: return R_STR; case JS::Type::Number: return R_NUM;
  case JS::Type::ObjectStart: return R_OS; case JS::Type::ObjectEnd: return R_OE; case JS::Type::ArrayStart: return R_AS; case JS::Type::ArrayEnd: return R_AE;
  case JS::Type::Bool: return R_BOOL; case JS::Type::Null: return R_NULL; default: return -1;
  }
}
static std::vector<char *> chunks; static size_t nrel;
static void feed(JS::Tokenizer &t, const char *d, size_t len, int how) {
  chunks.clear(); nrel = 0; if (!how) { char *m = (char *)malloc(len ? len : 1); memcpy(m, d, len); t.addData(m, len); chunks.push_back(m); return; }
  size_t cut = how == 1 ? vf_choice((unsigned)len + 1, "cut") : 0, p = 0; while (p < len) { size_t q = how == 2 ? p + 1 : (p < cut ? cut : len); char *m = (char *)malloc(q - p); memcpy(m, d + p, q - p); t.addData(m, q - p); chunks.push_back(m); p = q; }
}
static void options(JS::Tokenizer &t, int opt) { t.allowAsciiType(opt & 1); t.allowNewLineAsTokenDelimiter(opt & 2); t.allowSuperfluousComma(opt & 4); t.allowComments(opt & 8); }
static bool eq(const JS::DataRef &a, const char *p, size_t n) { return a.size == n && vf_eqmem(a.data, p, n); }
static void token(const JS::Token &k, const RTok &r) { vf_check(tmap(k.value_type) == r.vt, "type of the token"); vf_check(eq(k.value, r.v, r.vl), "value of the token"); vf_check(eq(k.name, r.n, r.nl), "name of the token"); }
static void follow(JS::Tokenizer &t, Ref &r, size_t max) { // the tokenizer delivers what is left of the text
  for (size_t i = 0; i <= max; i++) { JS::Token k; RTok x; JS::Error e = t.nextToken(k); RRes q = r.next(x); vf_obs(e); if (q == R_DONTCARE) return; if (q == R_INC) { vf_check(e == JS::Error::NeedMoreData, "at the end more data is wanted"); return; } if (q != R_TOK) { vf_check(e != JS::Error::NoError, "malformed text is rejected"); return; } vf_check(e == JS::Error::NoError, "token"); token(k, x); vf_reach("followed"); } }
struct In { int x = -1; JS_OBJ(x); };
struct S { int a = -1; In in; std::vector<int> v; JS::Optional<std::string> s; JS_OBJ(a, in, v, s); };
static bool same(const S &a, const S &b) { return a.a == b.a && a.in.x == b.in.x && a.v == b.v && a.s.data == b.s.data; }
static void deep() { // a scope around many levels, and what comes after it
  static const unsigned D[] = {1, 2, 7, 8, 9, 31, 32, 33, 127, 128, 129, 255, 256, 257, 300}, L[] = {65535, 65536, 65537}; int n = vf_p(1), kind = vf_p(2); unsigned dn = vf_p(3) ? L[vf_choice(3, "depth")] : D[vf_choice(15, "depth")];
  std::string o = "[7,", c; for (unsigned i = 0; i < dn; i++) { bool obj = kind == 1 || (kind == 2 && (i & 1)); o += obj ? "{\"k\":" : "["; c += obj ? '}' : ']'; } c = std::string(c.rbegin(), c.rend()); size_t at = o.size(); for (int i = 0; i < n; i++) o += '?'; o += c; o += ",[8],9]"; char *d = (char *)malloc(o.size()); memcpy(d, o.data(), o.size()); vf_symbolic(d + at, n, "json");
  for (int i = 0; i < n; i++) vf_assume(d[at + i] != '"' && d[at + i] != '{' && d[at + i] != '[' && d[at + i] != ']' && d[at + i] != '}' && d[at + i] != ',' && d[at + i] != ':'); vf_assume(d[at] >= '0' && d[at] <= '9');
  JS::Tokenizer t; t.addData(d, o.size()); JS::Token y; for (int i = 0; i < 3; i++) vf_check(t.nextToken(y) == JS::Error::NoError, "token"); t.pushScope(y.value_type); unsigned in = vf_choice(3, "inside"); for (unsigned i = 0; i < in && i + 1 < dn; i++) vf_check(t.nextToken(y) == JS::Error::NoError, "token");
  JS::Error e = t.goToEndOfScope(y); vf_obs(e); bool num = true; for (int i = 1; i < n; i++) if (!((d[at + i] >= '0' && d[at + i] <= '9') || d[at + i] == ' ')) num = false; if (!num) return; bool gap = false; for (int i = 1; i < n; i++) { if (d[at + i] == ' ') gap = true; else if (gap) { vf_check(e != JS::Error::NoError, "two values"); return; } }
  vf_check(e == JS::Error::NoError, "end of the scope"); vf_check(y.value.data == d + at + n + dn - 1, "the end of the container"); vf_check(t.nextToken(y) == JS::Error::ScopeHasEnded, "nothing more in the scope"); t.popScope(); vf_check(t.nextToken(y) == JS::Error::NoError && y.value_type == JS::Type::ArrayStart, "the next value"); vf_check(t.nextToken(y) == JS::Error::NoError && y.value.size == 1 && y.value.data[0] == '8', "its element"); vf_reach("deep");
}
static void ways() {
  char d[24] = "{\"a\":1,\"v\":[??],\"in\":0}"; static_assert(sizeof(d) == 24, "size"); vf_symbolic(d + 12, 2, "json"); vf_assume(d[12] && d[13]); vf_symbolic(d + 21, 1, "json"); vf_assume(d[21]); size_t l = strlen(d); const char(&arr)[24] = d; S x; JS::ParseContext c(d, l); JS::Error e = c.parseTo(x); vf_obs(e); S y; JS::Error f; std::string str(d, l);
  switch (vf_choice(8, "way")) {
  case 0: { JS::ParseContext q((const char *)d); f = q.parseTo(y); break; } case 1: { JS::ParseContext q(str); f = q.parseTo(y); break; } case 2: { JS::ParseContext q(d, l, y); f = q.error; break; } case 3: { JS::ParseContext q(arr); f = q.parseTo(y); break; }
  case 4: { JS::ParseContext q; q.tokenizer.addData(arr); f = q.parseTo(y); break; } case 5: { JS::ParseContext q; q.tokenizer.addData(d, 9); q.tokenizer.addData(d + 9, l - 9); f = q.parseTo(y); break; } case 6: { JS::ParseContext q; q.tokenizer.addData(d, 0); q.tokenizer.addData(d, l); f = q.parseTo(y); break; }
  default: { JS::ParseContext q; q.tokenizer.setNeedMoreDataCallback([&](JS::Tokenizer &t) { t.addData(d, l); }); f = q.parseTo(y); if (e == JS::Error::NeedMoreData) return; break; } }
  vf_check(e == f, "every way of giving a text has the same result"); vf_check(same(x, y), "and the same values"); vf_reach("ways");
}
// ranges that begin and end with brackets, in any order: p1 how it is fed, p2 text, p3 number of ranges
static void overlap() {
  static const char *T[] = {"[1, [2] ,[ {} ],4]", "{\"a\":[ ?],\"b\" : {\"c\": {} } }", "[[?,[ ]] , [?] ]"}; std::string s = T[vf_p(2)]; size_t len = s.size(); char *d = (char *)malloc(len + 1); memcpy(d, s.data(), len); for (size_t i = 0; i < len; i++) if (d[i] == '?') { vf_symbolic(d + i, 1, "json"); vf_assume(d[i] != 0); }
  Ref r(d, len, 0); std::vector<RTok> ts; RTok k; bool end = false; for (size_t i = 0; i <= len && !end; i++) { if (r.next(k) != R_TOK) return; ts.push_back(k); end = !r.depth; } if (!end) return;
  std::vector<size_t> br; for (size_t i = 0; i < ts.size(); i++) if (ts[i].vt == R_OS || ts[i].vt == R_AS || ts[i].vt == R_OE || ts[i].vt == R_AE) br.push_back(i);
  size_t nr = (size_t)vf_p(3), f[3], l[3]; std::string o[3]; for (size_t j = 0; j < nr; j++) { f[j] = br[vf_choice((unsigned)br.size(), "first")]; l[j] = br[vf_choice((unsigned)br.size(), "last")]; if (f[j] > l[j]) return; o[j] = j == 1 ? "kept:" : ""; }
  JS::Tokenizer t; feed(t, d, len, vf_p(1)); JS::Token y; for (size_t i = 0; i < ts.size(); i++) { vf_check(t.nextToken(y) == JS::Error::NoError, "token"); token(y, ts[i]); for (size_t j = 0; j < nr; j++) if (f[j] == i) t.copyFromValue(y, o[j]); for (size_t j = 0; j < nr; j++) if (l[j] == i) t.copyIncludingValue(y, o[j]); }
  for (size_t j = 0; j < nr; j++) { std::string w = j == 1 ? "kept:" : ""; w.append(ts[f[j]].v, (size_t)(ts[l[j]].v + 1 - ts[f[j]].v)); vf_observe(o[j].data(), o[j].size()); vf_check(o[j].size() == w.size() && vf_eqmem(o[j].data(), w.data(), w.size()), "every range is exactly its text"); } vf_reach("ranges");
}
extern "C" void vf_main() {
  if (vf_p(0) == 7) { overlap(); return; }
  if (vf_p(0) == 6) { ways(); return; }
  if (vf_p(0) == 5) { deep(); return; }
  int mode = vf_p(0), n = vf_p(1), how = vf_p(4), n2 = vf_p(5), opt = vf_p(6); const char *pre = PRE[vf_p(2)], *suf = SUF[vf_p(3)]; if (opt < 0) opt = vf_choice(16, "opt");
  size_t a = strlen(pre), b = strlen(suf), len = a + n + b; char *d = (char *)malloc(len + 1); memcpy(d, pre, a); vf_symbolic(d + a, n, "json"); memcpy(d + a + n, suf, b); if (how) for (int i = 0; i < n; i++) vf_assume(d[a + i] != 0);
  if (mode == 0 || mode == 4) { // a second text after the first was read to any point
    static const char *P2[] = {"", "[1,", "{\"a\":1,", "xx{\"b\":"}, *S2[] = {"", "]", "}", "}"}; unsigned w = vf_choice(mode == 4 ? 1 : 4, "second"); std::string u = mode == 4 ? "{\"a\":4,\"in\":{\"x\":" : P2[w]; size_t at = u.size(), idx = mode == 0 && w == 3 ? 2 : 0; u += std::string((size_t)n2, '?'); u += mode == 4 ? "},\"v\":[1,2],\"s\":\"q\"}" : S2[w]; char *e = (char *)malloc(u.size() + 1); memcpy(e, u.data(), u.size()); vf_symbolic(e + at, n2, "second"); size_t el = u.size();
    if (mode == 0) {
      JS::Tokenizer t; options(t, opt); std::function<void(const char *)> rel = [](const char *x) { vf_check(nrel < chunks.size() && chunks[nrel] == x, "buffers are released in order, once each"); nrel++; free((void *)x); }; t.setReleaseCallback(rel); feed(t, d, len, how);
      unsigned stop = vf_choice((unsigned)n + 3, "tokens read"); for (unsigned i = 0; i < stop; i++) { JS::Token k; if (t.nextToken(k) != JS::Error::NoError) break; }
      if (stop && vf_choice(2, "scope left open")) t.pushScope(JS::Type::ArrayStart);
      t.resetData(e, el, idx); vf_check(nrel == chunks.size(), "reset releases what is left"); vf_check(t.registeredBuffers() == 1, "one buffer"); vf_check(t.currentPosition() == e + idx, "position"); chunks.assign(1, e); nrel = 0;
      char *cp = (char *)malloc(el + 1); memcpy(cp, e, el); Ref r(cp + idx, el - idx, opt); follow(t, r, el); vf_reach("reset"); return; }
    JS::ParseContext c; S x, y; feed(c.tokenizer, d, len, how); JS::Error e1 = c.parseTo(x); vf_obs(e1); S z; c.tokenizer.resetData(e, el, 0); JS::Error r1 = c.parseTo(z); JS::ParseContext f(e, el); JS::Error r2 = f.parseTo(y); vf_check(r1 == r2 && c.error == r2, "same result as a new context"); vf_check(same(z, y), "same values as a new context"); std::string m1 = c.tokenizer.makeErrorString(), m2 = f.tokenizer.makeErrorString(); vf_check(m1 == m2, "same report as a new context"); vf_obs(r1); vf_reach(r1 == JS::Error::NoError ? "again" : "again rejected"); return; }
  Ref r(d, len, opt); std::vector<RTok> ts; std::vector<int> dep; RTok k; RRes q = R_TOK; for (size_t i = 0; i <= len; i++) { q = r.next(k); if (q != R_TOK) break; ts.push_back(k); dep.push_back(r.depth); if (!r.depth) break; } if (q == R_DONTCARE || ts.empty()) return; bool whole = q == R_TOK;
  JS::Tokenizer t; options(t, opt); std::vector<JS::Token> list;
  if (mode == 3) { if (!whole) return; JS::Tokenizer g; options(g, opt); g.addData(d, len); JS::Token x; for (size_t i = 0; i < ts.size(); i++) { vf_check(g.nextToken(x) == JS::Error::NoError, "token"); list.push_back(x); }
    unsigned from = vf_choice((unsigned)(ts.size() < 6 ? ts.size() : 6), "from"); bool push = ts[from].vt == R_OS || ts[from].vt == R_AS; if (from || vf_choice(2, "reset")) t.resetData(&list, from); else t.addData(&list); JS::Token y; vf_check(t.isParsingTokens(), "from tokens"); vf_check(t.nextToken(y) == JS::Error::NoError, "first"); token(y, ts[from]); size_t i = from + 1;
    if (push && vf_choice(2, "scope")) { t.pushScope(y.value_type); vf_check(t.goToEndOfScope(y) == JS::Error::NoError, "end of the scope"); t.popScope(); int want = dep[from] - 1; while (dep[i] != want) i++; token(y, ts[i]); i++; vf_reach("scope in tokens"); }
    for (; i < ts.size(); i++) { vf_check(t.nextToken(y) == JS::Error::NoError, "token"); token(y, ts[i]); } vf_check(t.nextToken(y) == JS::Error::NeedMoreData, "nothing more"); vf_reach("tokens"); return; }
  feed(t, d, len, how);
  unsigned lim = ts.size() < 7 ? (unsigned)ts.size() : 7, first = vf_choice(lim, "first"); JS::Token y; size_t i = 0; for (; i <= first; i++) { vf_check(t.nextToken(y) == JS::Error::NoError, "token"); } token(y, ts[first]); auto endof = [&](size_t j) { if (ts[j].vt != R_OS && ts[j].vt != R_AS) return j; int want = dep[j] - 1; size_t m = j + 1; while (m < ts.size() && dep[m] != want) m++; return m; };
  bool open = ts[first].vt == R_OS || ts[first].vt == R_AS; if (ts[first].vt == R_OE || ts[first].vt == R_AE) return;
  if (mode == 1) {
    size_t end = endof(first); t.pushScope(y.value_type);
    if (!open) { JS::Token z; vf_check(t.nextToken(z) == JS::Error::ScopeHasEnded, "a value is a scope of its own"); vf_check(t.goToEndOfScope(z) == JS::Error::NoError, "which has ended"); t.popScope(); }
    else {
      if (vf_choice(2, "inner scope")) { // another scope inside, or the same once more
        unsigned more = vf_choice(4, "tokens inside"); for (unsigned m = 0; m < more && i < ts.size() && i < end; m++, i++) vf_check(t.nextToken(y) == JS::Error::NoError, "token"); size_t last = i - 1; if (last >= end || ts[last].vt == R_OE || ts[last].vt == R_AE) return; token(y, ts[last]); size_t ie = endof(last); t.pushScope(y.value_type); JS::Error e = t.goToEndOfScope(y); if (ie >= ts.size()) { vf_check(e != JS::Error::NoError, "the end is missing"); return; } vf_check(e == JS::Error::NoError, "end of the inner scope"); token(y, ts[ie]); t.popScope(); i = ie + 1; vf_reach("inner"); }
      JS::Error e = t.goToEndOfScope(y); if (end >= ts.size()) { vf_check(e != JS::Error::NoError, "the end is missing"); vf_reach("no end"); return; }
      vf_check(e == JS::Error::NoError, "end of the scope"); if (i <= end) token(y, ts[end]); JS::Token z; vf_check(t.nextToken(z) == JS::Error::ScopeHasEnded, "nothing more in the scope"); t.popScope(); i = end + 1; vf_reach("scope"); }
    for (; i < ts.size(); i++) { vf_check(t.nextToken(y) == JS::Error::NoError, "the text goes on after the scope"); token(y, ts[i]); }
    if (!whole) vf_check(t.nextToken(y) != JS::Error::NoError, "and ends as before"); return; }
  // copied ranges: containers, one inside the other
  if (!open) return; size_t end = endof(first); if (end >= ts.size()) return; std::string o, in; bool inner = false; size_t is = 0, ie = 0; t.copyFromValue(y, o); unsigned pick = vf_choice(3, "inner");
  for (; i <= end; i++) { vf_check(t.nextToken(y) == JS::Error::NoError, "token"); token(y, ts[i]); if (!inner && pick && (ts[i].vt == R_OS || ts[i].vt == R_AS) && --pick == 0) { inner = true; is = i; ie = endof(i); t.copyFromValue(y, in); } else if (inner && i == ie) { t.copyIncludingValue(y, in); } }
  t.copyIncludingValue(y, o); vf_check(o.size() == (size_t)(ts[end].v + 1 - ts[first].v) && vf_eqmem(o.data(), ts[first].v, o.size()), "exactly the text from the first to the last token"); if (inner) { vf_check(in.size() == (size_t)(ts[ie].v + 1 - ts[is].v) && vf_eqmem(in.data(), ts[is].v, in.size()), "also of the inner range"); vf_reach("inner range"); } vf_observe(o.data(), o.size()); vf_reach("range");
  for (; i < ts.size(); i++) { vf_check(t.nextToken(y) == JS::Error::NoError, "token"); token(y, ts[i]); }
}
