// C19: error reports. p0 mode 0: text with p1 arbitrary bytes, p2 prefix, p3 suffix, p4 type, p5 pad; 1: calls; 2: member lists; 3: names of the errors
#define JS_STL_MAP
#include <json_struct/json_struct.h>
#include "vf.h"
#include "reftok.h"
#include <string>
#include <vector>
struct In { bool x = false; int i = 0; JS_OBJ(x, i); };
struct S { int a = 1; std::string b; std::vector<bool> v; In n; JS_OBJ(a, b, v, n); };
static const char *NAMES[] = {"NoError", "NeedMoreData", "InvalidToken", "ExpectedPropertyName", "ExpectedDelimiter", "ExpectedDataToken", "ExpectedObjectStart", "ExpectedObjectEnd", "ExpectedArrayStart", "ExpectedArrayEnd", "UnexpectedArrayEnd", "UnexpectedObjectEnd", "IllegalPropertyName", "IllegalPropertyType", "IllegalDataValue", "EncounteredIllegalChar", "NodeNotFound", "MissingPropertyMember", "MissingFunction", "FailedToParseBoolean", "FailedToParseDouble", "FailedToParseFloat", "FailedToParseInt", "UnassignedRequiredMember", "NonContigiousMemory", "ScopeHasEnded", "KeyNotFound", "DuplicateInSet", "UnknownPropertyMember", "UnknownError", "UserDefinedErrors"};
typedef std::decay<decltype(std::declval<JS::Tokenizer>().errorContext())>::type EC;
static std::string name(JS::Error e) { return NAMES[(int)e]; }
static std::string head(JS::Error e, const std::string &msg = "") { std::string r = "Error"; if (e < JS::Error::UserDefinedErrors) r += " " + name(e); if (msg.size()) r += " " + msg; return r + ":\n"; }
typedef std::vector<std::string> Lines;
static bool same(const std::string &a, const std::string &b) { return a.size() == b.size() && vf_eqmem(a.data(), b.data(), a.size()); }
// what has to be shown of the text when the place is p
static void window(const char *d, size_t len, size_t p, size_t lc, size_t rc, Lines &out, size_t &line, size_t &ch) {
  size_t lo = p > 256 ? p - 256 : 0, hi = len - p > 256 ? p + 256 : len; std::vector<std::pair<size_t, size_t>> ls; size_t b = lo, at = 0;
  for (size_t i = lo; i < hi; i++) if (d[i] == '\n') { ls.push_back({b, i}); b = i + 1; }
  if (b < hi || b <= p) ls.push_back({b, hi});
  for (size_t i = 0; i < ls.size(); i++) if (ls[i].first <= p) at = i;
  size_t from = at + 1 > lc ? at + 1 - lc : 0, to = at + lc < ls.size() ? at + lc : ls.size(); line = at - from;
  if (to - from == 1) { size_t l = p - ls[at].first > rc ? p - rc : ls[at].first, r = ls[at].second - p > rc ? p + rc : ls[at].second; out.push_back(std::string(d + l, r - l)); ch = p - l; line = 0; return; }
  for (size_t i = from; i < to; i++) out.push_back(std::string(d + ls[i].first, ls[i].second - ls[i].first)); ch = p - ls[at].first;
}
static std::string render(const Lines &l, size_t line, size_t ch) { std::string r; for (size_t i = 0; i < l.size(); i++) { r += l[i]; r += '\n'; if (i == line) { r.append(ch, ' '); r += "^\n"; } } return r; }
template <class T> static JS::Error go(const char *d, size_t len, size_t lc, size_t rc, std::string &s, EC &x, JS::Token &t) { T v; JS::ParseContext c(d, len); c.tokenizer.setErrorContextConfig(lc, rc); JS::Error e = c.parseTo(v); s = c.makeErrorString(); x = c.tokenizer.errorContext(); t = c.token; return e; }
typedef JS::Error (*Go)(const char *, size_t, size_t, size_t, std::string &, EC &, JS::Token &);
static void texts() {
  static const char *PRE[] = {"", "{", "{\n", "\n[", "{\n \"a\":", "{\"v\":[true,\n", "\n\n{ \"n\":{\n\"x\":", "[1,\n2,\n", "{\"b\":\"s\",", "\n\n\n\n\n{\n\n\n"}, *SUF[] = {"", "}", "\n}", "]\n", "\n,\"b\":\"x\"\n}\n", "\n]}", "\n\n}\n}", "\n3\n]\n\n", "\n\n\n\n\n\n}"};
  static const Go G[] = {go<S>, go<std::vector<int>>, go<JS::JsonTokens>}; Go g = G[vf_p(4)];
  size_t n = vf_p(1), pad = vf_p(5); std::string pre(PRE[vf_p(2)]), suf(SUF[vf_p(3)]); if (pad) { pre = std::string(pad / 1000, ' ') + pre; suf = suf + std::string(pad % 1000, ' '); } size_t a = pre.size(), len = a + n + suf.size(); char *d = (char *)malloc(len + 1); memcpy(d, pre.data(), a); vf_symbolic(d + a, n, "json"); memcpy(d + a + n, suf.data(), suf.size());
  std::string s; EC x; JS::Token tk; JS::Error e = g(d, len, 100, 1000, s, x, tk); vf_obs(e); vf_observe(s.data(), s.size());
  if (e == JS::Error::NoError) { vf_check(x.error == JS::Error::NoError && x.lines.empty(), "no report without an error"); vf_reach("ok"); return; }
  if (e == JS::Error::NeedMoreData) { vf_reach("incomplete"); return; }
  vf_check(x.error == e, "the report is about the error"); vf_check(x.custom_message.empty(), "no message"); vf_check(x.lines.size() && x.line < x.lines.size(), "the marked line is shown"); vf_check(x.character <= x.lines[x.line].size(), "the mark is inside its line");
  // the place: known exactly because the whole text is shown, or 256 characters of it
  size_t lo = 0, p = 0, k = x.character; bool cut = len > 250; if (!cut) { for (size_t i = 0; i < x.line; i++) p += x.lines[i].size() + 1; p += k; } else { bool f = false; for (size_t q = 0; q <= len && !f; q++) { Lines w; size_t l, c; window(d, len, q, 100, 1000, w, l, c); if (l == x.line && c == x.character && w.size() == x.lines.size()) { bool all = true; for (size_t i = 0; i < w.size() && all; i++) all = same(w[i], x.lines[i]); if (all) { f = true; p = q; } } } vf_check(f, "what is shown is a part of the text"); }
  vf_check(p <= len, "the place is inside the text");
  for (int cfg = 0; cfg < 4; cfg++) {
    static const size_t LC[] = {100, 4, 2, 1}, RC[] = {1000, 38, 3, 2}; std::string s2 = s; EC y = x; if (cfg) { JS::Error e2 = g(d, len, LC[cfg], RC[cfg], s2, y, tk); vf_check(e2 == e && y.error == e, "the same error"); }
    Lines w; size_t l, c; window(d, len, p, LC[cfg], RC[cfg], w, l, c); vf_check(y.line == l && y.character == c && y.lines.size() == w.size(), "the lines around the place are shown"); for (size_t i = 0; i < w.size(); i++) vf_check(same(w[i], y.lines[i]), "each line is shown as it is"); vf_check(same(s2, head(e) + render(w, l, c)), "the report is written with the name of the error, the lines and the mark"); vf_reach(w.size() > 1 ? "lines" : "one line");
  }
  // where it is: not before the last good token, not behind what could not be read
  Ref r(d, len, 0); RTok t; RRes q = R_ERR; size_t lastb = 0, laste = 0; bool last = false; for (size_t i = 0; i <= len && !last; i++) { q = r.next(t); if (q != R_TOK) break; size_t vb = (size_t)(t.v - d), ve = vb + t.vl; if (t.vt == R_STR) ve++; if (tk.value.data == t.v && e != JS::Error::IllegalDataValue) { last = true; } lastb = vb; laste = ve; if (r.depth == 0) break; }
  if (q == R_TOK) { vf_check(p >= lastb, "the place is not before the value that is wrong"); if (last && vf_p(4) < 2 && (e == JS::Error::FailedToParseInt || e == JS::Error::FailedToParseBoolean || e == JS::Error::ExpectedArrayStart || e == JS::Error::ExpectedObjectStart)) { while (laste < len && Ref::ws(d[laste])) laste++; vf_check(p <= laste + 1, "nor behind it"); }; vf_reach("value"); }
  else if (q == R_ERR || q == R_NOTOK) { vf_check(p >= laste, "the place is not before the last token"); vf_reach("token"); }
}
static std::vector<std::string> listed(const std::string &r) { std::vector<std::string> o; size_t p = r.find(": "); if (p == std::string::npos) return o; std::string w; for (p += 2; p < r.size(); p++) if (r[p] == ',' && p + 1 < r.size() && r[p + 1] == ' ') { o.push_back(w); w.clear(); p++; } else w += r[p]; o.push_back(w); return o; }
static void members() {
  static const char *M[] = {"a", "b", "v", "n", "zz", "q"}; static const char *V[] = {"1", "\"\"", "[]", "{\"x\":true,\"i\":3}", "[1]", "null"}; std::string t = "{"; std::vector<std::string> miss, un; bool flags = vf_choice(2, "which");
  for (int i = 0; i < 6; i++) { bool in = vf_choice(2, "in"); if (in) { if (t.size() > 1) t += ','; t += std::string("\"") + M[i] + "\":" + V[i]; if (i > 3) miss.push_back(M[i]); } else if (i < 4) un.push_back(M[i]); }
  t += "}"; S s; JS::ParseContext c(t); c.allow_missing_members = !flags; c.allow_unasigned_required_members = flags; JS::Error e = c.parseTo(s); std::string r = c.makeErrorString(); vf_obs(e); vf_observe(r.data(), r.size());
  auto has = [](const std::vector<std::string> &v, const std::string &n) { int k = 0; for (auto &x : v) if (x == n) k++; return k == 1; }; auto l = listed(r);
  if (flags) { vf_check((e == JS::Error::MissingPropertyMember) == !miss.empty() && (e != JS::Error::NoError) == !miss.empty(), "members that are not in the struct are an error"); if (miss.size()) { vf_check(l.size() >= 1 && has(l, miss[0]), "the report names the member that is not in the struct"); for (auto &x : l) vf_check(has(miss, x), "and no other"); vf_reach("missing"); } }
  else { vf_check((e == JS::Error::UnassignedRequiredMember) == !un.empty() && (e != JS::Error::NoError) == !un.empty(), "members that are not in the text are an error"); if (un.size()) { vf_check(l.size() == un.size(), "the report names the members that are not in the text"); for (auto &x : un) vf_check(has(l, x), "each of them once"); vf_reach("unassigned"); } }
  if (e == JS::Error::NoError) { std::vector<std::string> m = c.missing_members, u = c.unassigned_required_members; vf_check(m.size() == miss.size(), "without that option the members are listed"); for (auto &x : miss) vf_check(has(m, x), "each of them once"); }
}
struct Fn { int one(const int &x) { return x; } int err(const int &x, JS::CallFunctionErrorContext &e) { if (x > 5) e.setError(JS::Error::KeyNotFound, "too much"); if (x > 7) e.setError("far too much"); return x; } In obj(const In &i) { return i; } void none() {} JS_FUNCTION_CONTAINER(JS_FUNCTION(one), JS_FUNCTION(err), JS_FUNCTION(obj), JS_FUNCTION(none)); };
static void calls() {
  static const char *C[] = {"\"one\":1", "\"one\":\"x\"", "\"one\":[1]", "\"err\":6", "\"err\":8", "\"err\":2", "\"err\":{}", "\"obj\":{\"x\":3}", "\"obj\":{\"x\":true,\"q\":1}", "\"nope\":1", "\"none\":[2]", "\"obj\":[]"}; static const int E[] = {0, (int)JS::Error::FailedToParseInt, (int)JS::Error::FailedToParseInt, (int)JS::Error::KeyNotFound, (int)JS::Error::UserDefinedErrors, 0, (int)JS::Error::FailedToParseInt, (int)JS::Error::FailedToParseBoolean, 0, (int)JS::Error::MissingFunction, 0, (int)JS::Error::ExpectedObjectStart};
  int k = vf_p(1); std::string t = "{\n"; std::vector<unsigned> pick; for (int i = 0; i < k; i++) { unsigned c = vf_choice(12, "call"); pick.push_back(c); if (i) t += ",\n"; t += C[c]; } t += "\n}"; std::string o; JS::DefaultCallFunctionContext c(t.data(), t.size(), o); c.stop_execute_on_fail = false; Fn f; JS::Error e = c.callFunctions(f); (void)e;
  vf_check(c.execution_list.size() == pick.size(), "one entry per call");
  for (size_t i = 0; i < pick.size(); i++) {
    auto &x = c.execution_list[i]; std::string s = x.error_string.data; vf_observe(s.data(), s.size()); int want = E[pick[i]]; vf_check((x.error == JS::Error::NoError) == (want == 0), "outcome"); if (!want) { vf_check(s.empty(), "no report without an error"); vf_reach("ok"); continue; }
    vf_check((int)x.error == want || pick[i] > 10, "error"); std::string h = head(x.error, pick[i] == 3 ? "too much" : pick[i] == 4 ? "far too much" : ""); vf_check(s.size() > h.size() && s.compare(0, h.size(), h) == 0, "the report of a call has its own error and message"); size_t bar = 0, car = 0; std::string shown, ln; for (size_t j = h.size(); j < s.size(); j++) { if (s[j] != '\n') { ln += s[j]; continue; } bool mark = ln.size() && ln[ln.size() - 1] == '^'; for (size_t q = 0; q + 1 < ln.size() && mark; q++) if (ln[q] != ' ') mark = false; if (mark) { car++; size_t col = ln.size() - 1; std::string w = C[pick[i]]; if (i + 1 < pick.size()) w += ","; vf_check(shown == w && col <= w.size(), "the mark is below the line of the call"); } else { bar++; shown = ln; } ln.clear(); }
    vf_check(car == 1, "one mark"); vf_check(bar <= pick.size() + 2, "every line once"); vf_reach("report");
  }
}
static void names() {
  for (int i = 1; i <= (int)JS::Error::UserDefinedErrors; i++) { if (i == (int)JS::Error::MissingPropertyMember || i == (int)JS::Error::UnassignedRequiredMember) continue; JS::ParseContext c("[1]"); c.error = (JS::Error)i; vf_check(c.makeErrorString() == "Error:" + name((JS::Error)i), "every error has its name"); c.tokenizer.updateErrorContext((JS::Error)i, i % 2 ? "msg" : ""); vf_check(c.makeErrorString().compare(0, head((JS::Error)i).size() - 2, head((JS::Error)i), 0, head((JS::Error)i).size() - 2) == 0, "in the report"); vf_reach("named"); }
  JS::ParseContext c("[1]"); c.tokenizer.updateErrorContext(JS::Error::InvalidToken, "first"); c.tokenizer.updateErrorContext(JS::Error::KeyNotFound, ""); vf_check(c.tokenizer.makeErrorString() == "Error KeyNotFound:\n[1]\n^\n", "a new report replaces the old one");
}
// tokens that come from several buffers
static void tokens() {
  static const char *T[] = {"{\"a\":1,\"b\":\"x\",\"v\":[true]}", "{\"a\":[2]}", "{\"n\":{\"x\":true,\"i\":\"w\"}}", "{\"v\":[true,3]}", "[1,2]", "{\"b\":{}}"}; JS::Map m; std::vector<std::string> src; JS::ParseContext pc(T[vf_choice(6, "text")]); (void)(int)pc.parseTo(m);
  for (int i = 0; i < vf_p(1); i++) { JS::ParseContext q; unsigned k = vf_choice(5, "set"); if (k == 0) (void)(int)m.setValue("a", q, std::string("abc")); else if (k == 1) (void)(int)m.setValue("b", q, std::vector<int>{1, 2}); else if (k == 2) (void)(int)m.setValue("n", q, std::string("\n")); else if (k == 3) (void)(int)m.setValue("v", q, std::vector<std::string>{"x", "y\nz"}); else (void)(int)m.setValue("a", q, In()); }
  JS::ParseContext c; c.tokenizer.resetData(&m.tokens.data, 0); JS::Error e; if (vf_choice(2, "type")) { S s; e = c.parseTo(s); } else { std::vector<int> v; e = c.parseTo(v); } std::string s = c.makeErrorString(); vf_obs(e); vf_observe(s.data(), s.size()); auto x = c.tokenizer.errorContext();
  if (e == JS::Error::NoError) { vf_check(x.lines.empty(), "no report without an error"); vf_reach("ok"); return; } vf_check(s.compare(0, head(e).size(), head(e)) == 0, "the report has the error"); if (x.lines.empty()) return; vf_check(x.line < x.lines.size() && x.character <= x.lines[x.line].size(), "the mark is inside its line"); std::string all; for (size_t i = 0; i < x.lines.size(); i++) { if (i) all += '\n'; all += x.lines[i]; } vf_check(same(all, std::string(c.token.value.data, c.token.value.size)), "the value that is wrong is shown"); vf_reach("report");
}
extern "C" void vf_main() { switch (vf_p(0)) { case 0: texts(); break; case 1: calls(); break; case 2: members(); break; case 4: tokens(); break; default: names(); } }
