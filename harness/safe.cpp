// C01: no input makes the library read or write outside its objects, run into undefined behaviour, fail an assertion, throw or loop for ever.
// The engine checks every memory access and (this unit is compiled with the UB checks) every arithmetic operation.
// p0 mode, p1 arbitrary bytes, p2 prefix, p3 suffix, p4 type or options
#define JS_STL_MAP
#define JS_STL_SET
#define JS_STL_ARRAY
#define JS_STL_UNORDERED_SET
#define JS_INT_128
#define JS_STD_TIMEPOINT
#include <json_struct/json_struct.h>
#include "vf.h"
#include <string.h>
JS_ENUM(Color, red, green, blu)
JS_ENUM_DECLARE_STRING_PARSER(Color)
JS_ENUM(Nr, a, b)
JS_ENUM_DECLARE_VALUE_PARSER(Nr)
struct In { int i = 0; std::string s; JS_OBJ(i, s); };
struct Base { bool z = false; JS_OBJ(z); };
struct Big : Base {
  int i = 0; unsigned char u = 0; double d = 0; float f = 0; bool b = false; std::string s; std::vector<int> v; std::vector<bool> w; In o; std::vector<In> p;
  std::unique_ptr<In> q; std::shared_ptr<int> r; JS::Optional<int> t; JS::OptionalChecked<std::string> x; JS::Nullable<int> y; JS::NullableChecked<bool> A; std::optional<int> B;
  std::map<std::string, int> C; JS::JsonObject D; JS::JsonArray E; JS::JsonObjectOrArray F; JS::JsonObjectRef G; JS::JsonArrayRef H; JS::JsonObjectOrArrayRef I; JS::JsonTokens J; Color K = Color::red; Nr L = Nr::a; int M[2] = {0, 0}; std::array<bool, 2> O{};
  std::tuple<int, std::string> P; JS::Tuple<int, bool> Q; std::set<int> R; JS::OneOrMany<int> S; JS::ArrayVariableContent<int, 2> T; JS::Map U; std::unordered_map<std::string, In> V; JS::js_int128_t W = 0; char X = 0; long long Y = 0;
  JS_OBJECT_WITH_SUPER(JS_SUPER(Base), JS_MEMBER(i), JS_MEMBER(u), JS_MEMBER(d), JS_MEMBER(f), JS_MEMBER(b), JS_MEMBER(s), JS_MEMBER(v), JS_MEMBER(w), JS_MEMBER(o), JS_MEMBER(p), JS_MEMBER(q), JS_MEMBER(r), JS_MEMBER(t), JS_MEMBER(x), JS_MEMBER(y), JS_MEMBER(A), JS_MEMBER(B), JS_MEMBER(C), JS_MEMBER(D), JS_MEMBER(E), JS_MEMBER(F), JS_MEMBER(G), JS_MEMBER(H), JS_MEMBER(I), JS_MEMBER(J), JS_MEMBER(K), JS_MEMBER(L), JS_MEMBER(M), JS_MEMBER(O), JS_MEMBER(P), JS_MEMBER(Q), JS_MEMBER(R), JS_MEMBER(S), JS_MEMBER(T), JS_MEMBER(U), JS_MEMBER(V), JS_MEMBER(W), JS_MEMBER(X), JS_MEMBER(Y));
};
struct Fn {
  int n = 0; void inc(const int &k) { n += k > 0 && k < 9; } int get() { return n; } void in(const In &x, JS::CallFunctionErrorContext &e) { if (x.i == 7) e.setError(JS::Error::UserDefinedErrors, "seven"); } std::string s(const std::string &t) { return t; }
  JS_FUNCTION_CONTAINER(JS_FUNCTION(inc), JS_FUNCTION(get), JS_FUNCTION(in), JS_FUNCTION(s));
};
static const char *NAME = "iudfbsvwopqrtxyABCDEFGHIJKLMOPQRSTUVWXYz";
static const char *PRE[] = {"", "{", "[", "{\"a\":", "[1,", "{\"i\":1,\"", "[[", "{\"a\":[", "[\"", "{\"", "{\n\n", "{\"inc\":1,\"", "{\"in\":{\"", "{\"s\":", "{\"a\":{\"b\":[1,2],\"c\":3},", "[\"\\", "[\"\\u", "[\"\\ud83d\\u", "{\"a\":\"\\"};
static const char *SUF[] = {"", "}", "]", "]}", "}]", "\"]", "\":1}", "\n}", "\n1]", "\"}", "}}", "123456789012345678901234567890]", "\n\n\n\n\n\n}"};
template <class T> static void parse(const char *d, size_t n, int kind) {
  JS::ParseContext c(d, n); if (kind & 1) { c.allow_missing_members = false; c.allow_unasigned_required_members = false; }
  T v; JS::Error e = c.parseTo(v); vf_obs(e); std::string s = c.makeErrorString(); vf_obs(s.size());
  if (e == JS::Error::NoError && !(kind & 2)) { std::string o = JS::serializeStruct(v); vf_obs(o.size()); vf_reach("accepted"); } else if (e != JS::Error::NoError) vf_reach("rejected");
}
extern "C" void vf_main() {
  int mode = vf_p(0), n = vf_p(1), x = vf_p(4); const char *pre = PRE[vf_p(2)], *suf = SUF[vf_p(3)];
  size_t a = strlen(pre), b = strlen(suf), nm = mode == 1 ? 5 : 0, len = nm + a + n + b;
  char *d = (char *)malloc(len ? len : 1);
  if (nm) { char t[5] = {'{', '"', NAME[x], '"', ':'}; memcpy(d, t, 5); }
  memcpy(d + nm, pre, a); vf_symbolic(d + nm + a, n, "json"); memcpy(d + nm + a + n, suf, b);
  if (mode == 0) { // tokenizer, any options, any cut, going on after errors
    int opt = vf_choice(16, "opt"); size_t cut = vf_choice(len + 1, "cut");
    JS::Tokenizer t; t.allowAsciiType(opt & 1); t.allowNewLineAsTokenDelimiter(opt & 2); t.allowSuperfluousComma(opt & 4); t.allowComments(opt & 8);
    t.addData(d, cut); bool more = true; int bad = 0; size_t sum = 0;
    for (size_t i = 0; i <= 3 * len + 6; i++) {
      JS::Token k; JS::Error e = t.nextToken(k);
      if (e == JS::Error::NeedMoreData && more) { more = false; t.addData(d + cut, len - cut); continue; }
      if (e != JS::Error::NoError) { std::string s = t.makeErrorString(); sum += s.size(); if (++bad > 2) break; continue; }
      for (size_t j = 0; j < k.value.size; j++) sum += (unsigned char)k.value.data[j] & 1; // the spans can be read
      for (size_t j = 0; j < k.name.size; j++) sum += (unsigned char)k.name.data[j] & 1;
    }
    vf_reach("tokens");
  } else if (mode == 1) parse<Big>(d, len, x == 2 || x == 3 ? 2 : 0);
  else if (mode == 2) { // reformat
    JS::SerializerOptions o(x & 1 ? JS::SerializerOptions::Compact : JS::SerializerOptions::Pretty); if (x & 2) o.skipDelimiter(true); if (x & 4) o.setConvertAsciiToString(false);
    std::string out; if (x & 8) out = "abc"; JS::Error e = JS::reformat(d, len, out, o); vf_obs(e); vf_obs(out.size()); vf_reach("reformat");
  } else if (mode == 3) { // tokens, meta data, parsing from tokens
    JS::JsonTokens v; JS::ParseContext c(d, len); JS::Error e = c.parseTo(v); vf_obs(e);
    if (e == JS::Error::NoError) { auto meta = JS::metaForTokens(v); vf_obs(meta.size()); }
    JS::ParseContext c2; if (v.data.size()) c2.tokenizer.addData(&v.data);
    Big g; e = c2.parseTo(g); vf_obs(e); vf_obs(c2.makeErrorString().size()); vf_reach("tokens");
  } else if (mode == 4) { // Map
    JS::Map m; JS::ParseContext c(d, len); JS::Error e = c.parseTo(m); vf_obs(e);
    int k = 5; JS::ParseContext c2; if (x & 1) { e = m.setValue("n", c2, k); vf_obs(e); } JS::Error e2;
    JS::ParseContext c3; In i3; e2 = m.castToType("a", c3, i3); vf_obs(e2); vf_obs(c3.makeErrorString().size());
    JS::ParseContext c4; Big g; e2 = m.castToType(c4, g); vf_obs(e2); vf_obs(c4.makeErrorString().size());
    std::string s = JS::serializeStruct(m); vf_obs(s.size()); vf_reach("map");
  } else if (mode == 5) { // functions
    Fn f; std::string out; JS::DefaultCallFunctionContext c(d, len, out); if (x & 1) c.allow_missing = true; if (x & 2) c.stop_execute_on_fail = true;
    JS::Error e = c.callFunctions(f); vf_obs(e); vf_obs(out.size()); vf_obs(c.execution_list.size()); vf_reach("functions");
  } else if (mode == 6) { // a top level container
    if (x == 0) parse<std::vector<double>>(d, len, 2); else if (x == 1) parse<std::vector<float>>(d, len, 2); else if (x == 2) parse<std::vector<std::string>>(d, len, 0); else if (x == 3) parse<Big>(d, len, 1);
    else if (x == 4) parse<std::vector<JS::JsonObjectOrArray>>(d, len, 0); else if (x == 5) parse<std::vector<int>>(d, len, 0); else if (x == 6) parse<std::vector<Big>>(d, len, 1); else if (x == 7) parse<std::map<std::string, std::vector<In>>>(d, len, 0);
    else if (x == 8) parse<std::vector<JS::js_uint128_t>>(d, len, 0); else if (x == 9) parse<std::vector<signed char>>(d, len, 0); else if (x == 10) parse<std::vector<unsigned long>>(d, len, 0);
    else if (x == 11) parse<std::vector<std::chrono::system_clock::time_point>>(d, len, 0);
  }
}
