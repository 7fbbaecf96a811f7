// C17: functions called by JSON. p0 mode 0: p1 calls chosen from names and arguments (p2: last kinds of arguments), options chosen; 1: text with p1 arbitrary bytes, p2 prefix, p3 suffix
#include <json_struct/json_struct.h>
#include "vf.h"
#include "reftok.h"
#include <string>
#include <vector>
static std::string logs; static void lg(const char *n, int v = 0) { logs += n; logs += std::to_string(v); logs += ';'; }
struct Arg { int v = 9; int w = 1; JS_OBJ(v, w); };
struct Base { int base(const int &x) { lg("base", x); return x * 2; } int over(const int &x) { lg("wrong", x); return 0; } void bv() { lg("bv"); } JS_FUNCTION_CONTAINER(JS_FUNCTION(base), JS_FUNCTION(over), JS_FUNCTION(bv)); };
struct Base2 { Arg give(const Arg &a) { lg("give", a.v); Arg r = a; r.w++; return r; } JS_FUNCTION_CONTAINER(JS_FUNCTION(give)); };
struct Fn : Base, Base2 {
  int one(const int &x) { lg("one", x); return x + 1; }
  std::string two() { lg("two"); return "t\""; }
  void three(const std::vector<int> &x) { lg("three", x.size() ? x.back() : -1); }
  int err(const int &x, JS::CallFunctionErrorContext &e) { lg("err", x); if (x > 5) e.setError(JS::Error::UserDefinedErrors, "too much"); return x; }
  int ctx(const Arg &a, JS::CallFunctionContext &c) { lg("ctx", a.v * 100 + a.w); if (a.v == 2) c.error_context.setError("two"); return a.v; }
  void vctx(JS::CallFunctionContext &c) { lg("vctx"); c.error_context.setError(JS::Error::KeyNotFound, "none"); }
  int over(const int &x) { lg("over", x); return x + 5; }
  std::vector<int> both(const std::vector<int> &x) { lg("both", (int)x.size()); return x; }
  JS_FUNCTION_CONTAINER_WITH_SUPER(JS_SUPER_CLASSES(JS_SUPER_CLASS(Base), JS_SUPER_CLASS(Base2)), JS_FUNCTION_ALIASES(one, "uno", "base"), JS_FUNCTION(two), JS_FUNCTION(three), JS_FUNCTION(err), JS_FUNCTION(ctx), JS_FUNCTION(vctx), JS_FUNCTION_ALIASES(over, "uno", "ov"), JS_FUNCTION_WITH_NAME(both, "a b"));
};
static const char *NAME[] = {"one", "two", "three", "err", "ctx", "vctx", "over", "a b", "uno", "base", "ov", "bv", "give", "nope", "both", ""};
static const char *ARG[] = {"3", "7", "{\"v\":2}", "[1,2]", "[[1],{\"a\":[]}]", "{\"v\":[1,{}],\"w\":3}", "\"x\"", "null", "{}", "{\"q\":{\"v\":5},\"v\":4}", "true", "[]"};
template <class T> struct W { T v; JS_OBJ(v); };
template <class T> static bool arg(const std::string &t, T &o) { W<T> w; std::string s = "{\"v\":" + t + "}"; JS::ParseContext c(s); c.allow_missing_members = true; if (c.parseTo(w) != JS::Error::NoError) return false; o = w.v; return true; }
static std::string elog, eout; static bool had;
static void out(const std::string &s) { if (had) eout += ','; had = true; eout += s; }
// what a call has to do: 0 done, 1 error, 2 no such function
static int expect(const std::string &n, const std::string &a) {
  int x; Arg s; std::vector<int> v; auto L = [](const char *k, int q) { elog += k; elog += std::to_string(q); elog += ';'; };
  if (n == "one" || n == "over" || n == "uno" || n == "ov" || n == "base") { if (!arg(a, x)) return 1; if (n == "base") { L("base", x); out(std::to_string(x * 2)); } else if (n == "one") { L("one", x); out(std::to_string(x + 1)); } else { L("over", x); out(std::to_string(x + 5)); } return 0; }
  if (n == "two") { L("two", 0); out("\"t\\\"\""); return 0; }
  if (n == "three") { if (!arg(a, v)) return 1; L("three", v.size() ? v.back() : -1); return 0; }
  if (n == "err") { if (!arg(a, x)) return 1; L("err", x); if (x > 5) return 1; out(std::to_string(x)); return 0; }
  if (n == "ctx") { if (!arg(a, s)) return 1; L("ctx", s.v * 100 + s.w); if (s.v == 2) return 1; out(std::to_string(s.v)); return 0; }
  if (n == "vctx") { L("vctx", 0); return 1; }
  if (n == "a b") { if (!arg(a, v)) return 1; L("both", (int)v.size()); std::string t = "["; for (size_t i = 0; i < v.size(); i++) { if (i) t += ','; t += std::to_string(v[i]); } out(t + "]"); return 0; }
  if (n == "bv") { L("bv", 0); return 0; }
  if (n == "give") { if (!arg(a, s)) return 1; L("give", s.v); out("{\"v\":" + std::to_string(s.v) + ",\"w\":" + std::to_string(s.w + 1) + "}"); return 0; }
  return 2;
}
static void run(const char *d, size_t len, bool am, bool stop, Fn &f, std::string &o, JS::Error &e, std::vector<std::pair<std::string, JS::Error>> &list) {
  { JS::DefaultCallFunctionContext c(d, len, o); c.return_serializer.setOptions(JS::SerializerOptions(JS::SerializerOptions::Compact)); c.allow_missing = am; c.stop_execute_on_fail = stop; e = c.callFunctions(f); for (auto &x : c.execution_list) list.push_back({x.name, x.error}); }
}
static void calls() {
  int k = vf_p(1), na = vf_p(2); bool am = vf_choice(2, "allow missing"), stop = vf_choice(2, "stop"); std::string t = "{"; std::vector<std::pair<std::string, std::string>> cs;
  for (int i = 0; i < k; i++) { std::string n = NAME[vf_choice(i == 0 || k < 3 ? 16 : 6, "name")], a = ARG[vf_choice(i == 0 || na > 12 ? (na > 12 ? 12 : na) : (unsigned)na, "arg")]; cs.push_back({n, a}); if (i) t += ", "; t += '"' + n + "\" : " + a; }
  t += " }"; char *d = (char *)malloc(t.size()); memcpy(d, t.data(), t.size()); Fn f; std::string o; JS::Error e; std::vector<std::pair<std::string, JS::Error>> list; run(d, t.size(), am, stop, f, o, e, list); vf_obs(e); vf_observe(o.data(), o.size());
  eout = "["; size_t i = 0; bool stopped = false; std::vector<int> res; for (; i < cs.size() && !stopped; i++) { int r = expect(cs[i].first, cs[i].second); res.push_back(r); if (stop && (r == 1 || (r == 2 && !am))) stopped = true; vf_reach(r == 0 ? "called" : r == 1 ? "failed" : "missing"); }
  eout += "]";
  vf_check(logs == elog, "exactly the named functions are called, in order, with their arguments"); vf_check(o == eout, "the results are written, in order");
  vf_check(list.size() == res.size(), "one entry per call"); for (size_t j = 0; j < res.size(); j++) { vf_check(list[j].first == cs[j].first, "with its name"); vf_check(res[j] == 0 ? list[j].second == JS::Error::NoError : res[j] == 2 ? list[j].second == JS::Error::MissingFunction : list[j].second != JS::Error::NoError && list[j].second != JS::Error::MissingFunction, "and its outcome"); if (cs[j].first == "vctx") vf_check(list[j].second == JS::Error::KeyNotFound, "the error that was set"); }
  vf_check((e != JS::Error::NoError) == stopped, "execution stops at a failure only when asked to"); if (stopped) vf_reach("stopped");
}
static void text() {
  static const char *PRE[] = {"", "{", "{\"one\":", "{\"o", "{\"three\":[1,", "{\"ctx\":{\"v\":4},\"", "{\"two\":{\"x\":", "{\"nope\":{\"a\":[1,", "{\"err\":6,\"a b\":[", "{\"one\":1,"}, *SUF[] = {"", "}", ",\"two\":null}", "\":4}", "],\"one\":2}", "]},\"two\":1}", "},\"one\":3}"};
  int n = vf_p(1); const char *pre = PRE[vf_p(2)], *suf = SUF[vf_p(3)]; size_t a = strlen(pre), b = strlen(suf), len = a + n + b; char *d = (char *)malloc(len + 1); memcpy(d, pre, a); vf_symbolic(d + a, n, "json"); memcpy(d + a + n, suf, b);
  Fn f; std::string o; JS::Error e; std::vector<std::pair<std::string, JS::Error>> list; run(d, len, false, false, f, o, e, list); vf_obs(e); vf_observe(o.data(), o.size());
  Ref r(d, len, 0); RTok k; RRes q; bool done = false; int first = 0; std::vector<std::pair<std::string, std::string>> cs; const char *vb = nullptr; RTok nm; bool str = false;
  for (size_t i = 0; i <= len; i++) { int before = r.depth; q = r.next(k); if (q != R_TOK) break; if (!i) first = k.vt; if (r.depth == 0) { done = true; break; } if (!i) continue; if (before == 1) { vb = k.v; nm = k; } if (r.depth == 1) { bool s = k.vt == R_STR; std::string v(vb - (s ? 1 : 0), (size_t)(k.v + k.vl - vb) + (s ? 2 : 0)); cs.push_back({std::string(nm.n ? nm.n : "", nm.nl), v}); } }
  if (q == R_DONTCARE) return;
  if (o.size()) { size_t dep = 0; vf_check(o[0] == '[' && o[o.size() - 1] == ']', "the results are a closed array"); }
  if (!done || first != R_OS) { bool reported = e != JS::Error::NoError; for (auto &x : list) if (x.second != JS::Error::NoError) reported = true; vf_check(reported, "an incomplete or malformed text, or something that is not an object, is reported"); if (q == R_INC || first != R_OS) vf_check(e != JS::Error::NoError, "an incomplete text, or something that is not an object, is an error"); vf_reach("rejected"); if (first == R_OS) { if (q == R_INC) vf_check(list.size() <= cs.size() + 1, "nothing is called for what is not there"); for (size_t i = 0; i < cs.size() && i < list.size(); i++) vf_check(list[i].first.size() == cs[i].first.size(), "names"); } return; }
  vf_check(e == JS::Error::NoError, "a well formed object is executed"); eout = "["; std::vector<int> res; for (auto &c : cs) res.push_back(expect(c.first, c.second)); eout += "]";
  vf_check(logs.size() == elog.size() && vf_eqmem(logs.data(), elog.data(), logs.size()), "exactly the named functions are called"); vf_check(o.size() == eout.size() && vf_eqmem(o.data(), eout.data(), o.size()), "the results are written"); vf_check(list.size() == res.size(), "one entry per call");
  for (size_t j = 0; j < res.size(); j++) { vf_check(list[j].first.size() == cs[j].first.size() && vf_eqmem(list[j].first.data(), cs[j].first.data(), cs[j].first.size()), "with its name"); vf_check((res[j] == 0) == (list[j].second == JS::Error::NoError), "and its outcome"); vf_reach(res[j] == 0 ? "called" : res[j] == 1 ? "failed" : "missing"); }
}
extern "C" void vf_main() { if (vf_p(0) == 0) calls(); else text(); }
