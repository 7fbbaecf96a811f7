// C17: every kind of function and container, and what is reported about each call. p0: number of calls, p1: kinds of arguments of the calls after the first, p2: 1: the context is used for two texts
#define JS_STL_MAP 1
#include <json_struct/json_struct.h>
#include "vf.h"
#include <string>
#include <vector>
static std::string logs; static void lg(const char *n, int v = 0) { logs += n; logs += std::to_string(v); logs += ';'; }
struct Arg { int v = 9; int w = 1; JS_OBJ(v, w); };
struct Deep { int deep(const Arg &a) { lg("deep", a.v); return a.v + 20; } int hid(const int &x) { lg("wrong", x); return 0; } JS_FUNC_OBJ(deep, hid); };
struct Mid : Deep { JS_FUNCTION_CONTAINER_WITH_SUPER_WITHOUT_MEMBERS(JS_SUPER_CLASSES(JS_SUPER_CLASS(Deep))); };
struct Ext { void evae(const Arg &a, JS::CallFunctionErrorContext &e) { lg("evae", a.w); if (a.v == 2) e.setError(JS::Error::KeyNotFound, "m-evae"); } int same(int x) { lg("same", x); return x; } };
JS_FUNC_OBJ_EXTERNAL(Ext, evae, same)
struct Fn : Mid, Ext {
  void vae(const int &x, JS::CallFunctionErrorContext &e) { lg("vae", x); if (x > 5) e.setError(JS::Error::KeyNotFound, "m-vae"); }
  void vac(const Arg &a, JS::CallFunctionContext &c) { lg("vac", a.v * 10 + a.w); if (a.v == 2) c.error_context.setError("m-vac"); }
  int rve(JS::CallFunctionErrorContext &e) { lg("rve"); if (e.getLatestError() != JS::Error::NoError) lg("stale"); return 8; }
  Arg rvc(JS::CallFunctionContext &c) { lg("rvc", (int)c.execution_list.size()); if (c.execution_list.size() == 2) c.error_context.setError(JS::Error::UserDefinedErrors, "m-rvc"); return Arg(); }
  void vve(JS::CallFunctionErrorContext &e) { lg("vve"); e.setError("m-vve"); }
  Arg plain(Arg a) { lg("plain", a.v); a.v++; return a; }
  int hid(int x) { lg("hid", x); return x * 3; }
  JS_FUNCTION_CONTAINER_WITH_SUPER(JS_SUPER_CLASSES(JS_SUPER_CLASS(Mid), JS_SUPER_CLASS(Ext)), JS_FUNCTION(vae), JS_FUNCTION(vac), JS_FUNCTION_WITH_NAME_ALIASES(rve, "r e", "deep", "al", "al3", "al4"), JS_FUNCTION(rvc), JS_FUNCTION(vve), JS_FUNCTION(plain), JS_FUNCTION(hid));
};
static const char *NAME[] = {"vae", "plain", "rvc", "vac", "vve", "r e", "al", "deep", "hid", "evae", "same", "none", "rve", "pl", "al4"};
static const char *ARG[] = {"7", "{\"v\":2}", "3", "{\"q\":{\"v\":1},\"v\":4,\"w\":6}", "\"x\"", "null", "[{}]"};
struct Res { int r; JS::Error err; std::string msg; std::vector<std::string> miss, un; };
static std::string elog, eout; static bool had; static size_t nth;
static void out(const std::string &s) { if (had) eout += ','; had = true; eout += s; }
static bool ai(const std::string &t, int &x) { if (t != "7" && t != "3") return false; x = t[0] - '0'; return true; }
static bool aa(const std::string &t, Arg &a, Res &r) { if (t[0] != '{') return false; JS::ParseContext c(t); if (c.parseTo(a) != JS::Error::NoError) return false; r.miss = c.missing_members; r.un = c.unassigned_required_members; return true; }
static Res expect(const std::string &n, const std::string &a) {
  Res r{0, JS::Error::NoError, "", {}, {}}; int x; Arg s; auto L = [](const char *k, int q) { elog += k; elog += std::to_string(q); elog += ';'; }; auto fail = [&](JS::Error e, const char *m) { r.r = 1; r.err = e; r.msg = m; };
  auto A = [](const Arg &q) { return "{\"v\":" + std::to_string(q.v) + ",\"w\":" + std::to_string(q.w) + "}"; };
  if (n == "vae" || n == "hid" || n == "same") { if (!ai(a, x)) { r.r = 2; return r; } L(n.c_str(), x); if (n == "hid") out(std::to_string(x * 3)); else if (n == "same") out(std::to_string(x)); else if (x > 5) fail(JS::Error::KeyNotFound, "m-vae"); return r; }
  if (n == "vac" || n == "plain" || n == "deep" || n == "evae") { if (!aa(a, s, r)) { r.r = 2; return r; }
    if (n == "vac") { L("vac", s.v * 10 + s.w); if (s.v == 2) fail(JS::Error::UserDefinedErrors, "m-vac"); } else if (n == "plain") { L("plain", s.v); s.v++; out(A(s)); } else if (n == "deep") { L("deep", s.v); out(std::to_string(s.v + 20)); } else { L("evae", s.w); if (s.v == 2) fail(JS::Error::KeyNotFound, "m-evae"); } return r; }
  if (n == "r e" || n == "al" || n == "al4") { L("rve", 0); out("8"); return r; }
  if (n == "rvc") { L("rvc", (int)nth); if (nth == 2) fail(JS::Error::UserDefinedErrors, "m-rvc"); else out("{\"v\":9,\"w\":1}"); return r; }
  if (n == "vve") { L("vve", 0); fail(JS::Error::UserDefinedErrors, "m-vve"); return r; }
  r.r = 3; r.err = JS::Error::MissingFunction; return r;
}
static const char *MSG[] = {"m-vae", "m-evae", "m-vac", "m-rvc", "m-vve"};
static void check(const JS::CallFunctionExecutionState &s, const std::string &name, const Res &r) {
  vf_check(s.name == name, "each entry has the name of its call"); vf_check(r.r == 2 ? s.error != JS::Error::NoError && s.error != JS::Error::MissingFunction : s.error == r.err, "and its error");
  vf_check((s.error == JS::Error::NoError) == s.error_string.data.empty(), "a message if and only if it failed"); for (const char *m : MSG) vf_check((s.error_string.data.find(m) != std::string::npos) == (r.msg == m), "the message of its own failure");
  vf_check(s.missing_members.data == r.miss, "members of its argument without a property"); vf_check(s.unassigned_required_members.data == r.un, "properties its argument did not set"); vf_check(s.context.data == "ctx", "the context given"); vf_reach(r.r == 0 ? "done" : r.r == 3 ? "missing" : "failed"); if (r.miss.size()) vf_reach("surplus"); if (r.un.size()) vf_reach("unset");
}
struct My : JS::DefaultCallFunctionContext { using JS::DefaultCallFunctionContext::DefaultCallFunctionContext; int b = 0, a = 0; void beforeCallFunctions() override { b++; } void afterCallFunctions() override { a++; JS::DefaultCallFunctionContext::afterCallFunctions(); } };
extern "C" void vf_main() {
  int k = vf_p(0), na = vf_p(1); bool stop = vf_choice(2, "stop"); Fn f; std::string o;
  std::string t = "{"; std::vector<std::pair<std::string, std::string>> cs;
  for (int i = 0; i < k; i++) { std::string n = NAME[vf_choice(i && k > 2 ? 6 : 15, "name")], a = ARG[vf_choice(i ? na : 7, "arg")]; cs.push_back({n, a}); if (i) t += ","; t += '"' + n + "\":" + a; }
  t += "}"; char *d = (char *)malloc(t.size()); memcpy(d, t.data(), t.size());
  std::vector<Res> res; bool stopped = false; eout = "["; for (size_t i = 0; i < cs.size() && !stopped; i++) { nth = i + 1; res.push_back(expect(cs[i].first, cs[i].second)); if (stop && res.back().r) stopped = true; } eout += "]";
  std::vector<JS::CallFunctionExecutionState> list; JS::Error e; { My c(d, t.size(), o); c.return_serializer.setOptions(JS::SerializerOptions(JS::SerializerOptions::Compact)); c.stop_execute_on_fail = stop; c.user_context = "ctx"; e = c.callFunctions(f); list = c.execution_list; vf_check(c.b == 1 && c.a == 1, "before and after are called once"); }
  vf_obs(e); vf_observe(o.data(), o.size()); vf_observe(logs.data(), logs.size());
  vf_check(logs == elog, "exactly the named functions are called, in order, with their arguments"); vf_check(o == eout, "the results are written, in order"); vf_check((e != JS::Error::NoError) == stopped, "execution stops at a failure only when asked to"); vf_check(list.size() == res.size(), "one entry per call"); for (size_t i = 0; i < res.size(); i++) check(list[i], cs[i].first, res[i]);
}
