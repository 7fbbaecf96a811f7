// C15: raw capture. p0 kind of the target (0 JsonObject 1 JsonArray 2 JsonObjectOrArray 3..5 the same as Ref 6 JsonTokens 7 std::vector<Token>),
// p1 arbitrary bytes, p2 prefix, p3 suffix, p4 how the text arrives (0 one buffer, 1 cut anywhere in two, 2 every byte its own buffer, 3 from tokens), p5 options (-1 any), p6 nested deep (1 arrays, 2 objects, 3 both; +4 very deep)
#include <json_struct/json_struct.h>
#include "vf.h"
#include "reftok.h"
#include <string>
#include <vector>
static const char *PRE[] = {"", "{\"b\":1,\"r\":", "{\"b\":1,\"r\":{\"a\":", "{\"r\":[", "{\"r\":{", "{\"r\" : { \"x\" : [ 1 , ", "{\"r\":[\"", "{\"r\":{\"r\":{\"", "{\"x\":{\"r\":[1]},\"r\":", "{\"r\":{\"a\":1},\"r\":", "{\"r\":[[],[{\"", "{\"r\":{\"s\":\"a\\\"", "{\"r", "{\"a\":", "{\"b\":1,\"r\":// c\n[", "{r:[x,"};
static const char *SUF[] = {"", ",\"a\":2}", "},\"a\":2}", "],\"a\":2}", "}", "]}]}", "\"],\"a\":2}", "\":1}},\"a\":2}", "\":[]}]],\"a\":2}", "\"},\"a\":2}", "]}, \"a\" : 2 }", "\":[1,2],\"a\":2}", ",\"r\":[7]}", "],a:2}"};
#if KIND == 0
typedef JS::JsonObject X;
#elif KIND == 1
typedef JS::JsonArray X;
#elif KIND == 2
typedef JS::JsonObjectOrArray X;
#elif KIND == 3
typedef JS::JsonObjectRef X;
#elif KIND == 4
typedef JS::JsonArrayRef X;
#elif KIND == 5
typedef JS::JsonObjectOrArrayRef X;
#elif KIND == 6
typedef JS::JsonTokens X;
#else
struct X { std::vector<JS::Token> data; };
namespace JS { template <> struct TypeHandler<X> { static Error to(X &x, ParseContext &c) { return TypeHandler<std::vector<Token>>::to(x.data, c); } static void from(const X &x, Token &t, Serializer &s) { TypeHandler<std::vector<Token>>::from(x.data, t, s); } }; }
#endif
struct S { int b = -1; X r; int a = -1; JS_OBJ(b, r, a); };
static const char *d; static size_t len, nrel, firstcut; static std::vector<char *> *held;
static std::string get(const std::string &s) { return s; }
static int tmap(JS::Type t) {
  switch (t) {
  case JS::Type::Ascii: return R_ASCII; case JS::Type::String: return R_STR; case JS::Type::Number: return R_NUM;
  case JS::Type::ObjectStart: return R_OS; case JS::Type::ObjectEnd: return R_OE; case JS::Type::ArrayStart: return R_AS; case JS::Type::ArrayEnd: return R_AE;
  case JS::Type::Bool: return R_BOOL; case JS::Type::Null: return R_NULL; default: return -1;
  }
}
static bool isname(const RTok &k, char c) { return k.n && k.nl == 1 && k.n[0] == c; }
extern "C" void vf_main() {
  int n = vf_p(1), feed = vf_p(4), opt = vf_p(5); const char *pre = PRE[vf_p(2)], *suf = SUF[vf_p(3)];
  if (opt < 0) opt = vf_choice(16, "opt");
  std::string dp, ds; if (int w = vf_p(6)) { static const int D[] = {63, 64, 127, 128, 254, 255, 256, 257}, VD[] = {65534, 65535, 65536}; int k = w > 4 ? VD[vf_choice(3, "depth")] : D[vf_choice(8, "depth")]; dp = pre; for (int i = 0; i < k; i++) { bool o = (w & 3) == 2 || ((w & 3) == 3 && i & 1); dp += o ? "{\"a\":" : "["; ds += o ? '}' : ']'; } std::string rv(ds.rbegin(), ds.rend()); ds = rv + suf; pre = dp.c_str(); suf = ds.c_str(); }
  size_t a = strlen(pre), b = strlen(suf); len = a + n + b; char *t = (char *)malloc(len + 1); memcpy(t, pre, a); vf_symbolic(t + a, n, "json"); memcpy(t + a + n, suf, b); d = t;
  if (feed) for (int i = 0; i < n; i++) vf_assume(d[a + i] != 0);
  JS::ParseContext c; S s; JS::Error e; JS::JsonTokens tokens; std::vector<char *> chunks;
  JS::ParseContext *pc = &c; JS::ParseContext tc;
  c.tokenizer.allowAsciiType(opt & 1); c.tokenizer.allowNewLineAsTokenDelimiter(opt & 2); c.tokenizer.allowSuperfluousComma(opt & 4); c.tokenizer.allowComments(opt & 8);
  if (feed == 0 || feed == 3) c.tokenizer.addData(d, len);
  else { size_t &cut = firstcut; cut = feed == 1 ? vf_choice((unsigned)len + 1, "cut") : 0; size_t p = 0; while (p < len) { size_t q = feed == 2 ? p + 1 : (p < cut ? cut : len); char *m = (char *)malloc(q - p); memcpy(m, d + p, q - p); c.tokenizer.addData(m, q - p); chunks.push_back(m); p = q; }
#if KIND < 3
    nrel = 0; held = &chunks; std::function<void(const char *)> rel = [](const char *x) { vf_check(nrel < held->size() && (*held)[nrel] == x, "buffers are released in order, once each"); nrel++; free((void *)x); }; c.tokenizer.setReleaseCallback(rel);
#endif
  }
  static const char OLD[] = "{\"old\":[1]}"; bool used = (vf_p(2) + feed) & 1; // the target held another value
#if KIND < 3
  if (used) s.r.data = OLD;
#elif KIND < 6
  if (used) s.r.ref = JS::DataRef(OLD, sizeof(OLD) - 1);
#else
  if (used) { JS::Token o; o.value_type = JS::Type::Number; o.value = JS::DataRef(OLD, 3); s.r.data.assign(4, o); }
#endif
  if (feed == 3) { e = c.parseTo(tokens); if (e == JS::Error::NoError && tokens.data.size()) { tc.tokenizer.addData(&tokens.data); e = tc.parseTo(s); } }
  else e = c.parseTo(s);
  vf_obs(e);
  // what the text says
  Ref r(d, len, opt); RRes q = R_TOK; bool done = false, two = false, dup = false; RTok k; int first = 0; std::vector<RTok> cap; bool in = false; const char *vb = nullptr, *ve = nullptr; int vt = 0; bool plain = true; int ra = -1, rb = -1;
  for (size_t i = 0; i <= len; i++) { int before = r.depth; q = r.next(k); if (q != R_TOK) break; if (i == 0) first = k.vt;
    if (before == 1 && (k.n || k.nl)) { if (isname(k, 'r')) { if (vb) dup = true; cap.clear(); in = true; vb = k.v; vt = k.vt; } else { if (isname(k, 'a') || isname(k, 'b')) { if (k.vt != R_NUM || k.vl != 1 || !Ref::dig(k.v[0])) plain = false; else (k.n[0] == 'a' ? ra : rb) = k.v[0] - '0'; } for (size_t j = 0; j < k.nl; j++) if (k.n[j] == '\\') plain = false; } }
    if (in) { cap.push_back(k); if (r.depth == 1) { in = false; ve = k.v + k.vl; } }
    if (r.depth == 0) { done = true; break; } }
  if (q == R_DONTCARE) return;
  if (!done) { vf_check(e != JS::Error::NoError, "an incomplete or malformed text is an error"); vf_reach("rejected");
#if KIND >= 3 && KIND <= 5
    const JS::DataRef &g = s.r.ref; bool fine = g.size == 0 || (used && g.data == OLD && g.size == sizeof(OLD) - 1) || ((feed == 0 || feed == 3) && g.data >= d && g.data + g.size <= d + len); for (size_t i = 0, at = 0; i < chunks.size() && !fine; i++) { size_t l = i + 1 < chunks.size() ? (feed == 2 ? 1 : (size_t)firstcut) : len - at; fine = g.data >= chunks[i] && g.data + g.size <= chunks[i] + l; at += l; } vf_check(fine, "no bogus range");
#endif
    return; }
  if (first != R_OS) { vf_check(e != JS::Error::NoError, "an array is not an object"); return; }
  if (!plain || (dup && KIND < 6)) return;
  if (!vb) { vf_reach("absent"); vf_check(e == JS::Error::NoError && s.b == rb && s.a == ra, "text without the raw member"); return; }
  bool fits = KIND >= 6 || (vt == R_OS && KIND % 3 != 1) || (vt == R_AS && KIND % 3 != 0);
  if (!fits) { vf_check(e != JS::Error::NoError, "a value of another type is an error"); vf_reach("other type"); return; }
#if KIND >= 3 && KIND <= 5
  if (feed == 1 || feed == 2) { if (e != JS::Error::NoError) { vf_check(e == JS::Error::NonContigiousMemory, "a value in several buffers is reported as such"); vf_check(s.r.ref.size == 0, "and gives no range"); vf_reach("split"); return; } vf_check(s.r.ref.size == (size_t)(ve - vb), "length"); vf_check(vf_eqmem(s.r.ref.data, vb, s.r.ref.size), "the text of the value"); vf_reach("captured"); vf_check(s.a == ra && s.b == rb, "members around it"); return; }
#endif
  vf_check(e == JS::Error::NoError, "a value of the right type is captured"); vf_check(s.a == ra && s.b == rb, "the members around it keep their values");
#if KIND < 3
  if (feed == 3) { // written again from tokens: same tokens
    Ref o(s.r.data.data(), s.r.data.size(), opt); for (size_t i = 0; i < cap.size(); i++) { RTok x; vf_check(o.next(x) == R_TOK, "token"); vf_check(x.vt == cap[i].vt && x.vl == cap[i].vl && vf_eqmem(x.v, cap[i].v, x.vl), "same value"); vf_check(i == 0 || (x.nl == cap[i].nl && vf_eqmem(x.n, cap[i].n, x.nl)), "same name"); } vf_check(o.depth == 0 && o.p == s.r.data.size(), "ends there"); vf_reach("captured"); return; }
  vf_check(s.r.data.size() == (size_t)(ve - vb) && vf_eqmem(s.r.data.data(), vb, s.r.data.size()), "exactly the text of the value"); vf_observe(s.r.data.data(), s.r.data.size());
#elif KIND < 6
  vf_check(s.r.ref.data == vb && s.r.ref.size == (size_t)(ve - vb), "exactly the span of the value");
#else
  if (feed == 1 || feed == 2) { vf_check(s.r.data.size() == cap.size(), "number of tokens"); for (size_t i = 0; i < cap.size(); i++) vf_check(tmap(s.r.data[i].value_type) == cap[i].vt && s.r.data[i].value.size == cap[i].vl, "token kind"); vf_reach("captured"); return; }
  vf_check(s.r.data.size() == cap.size(), "all tokens of the value"); for (size_t i = 0; i < cap.size(); i++) { JS::Token &x = s.r.data[i]; vf_check(tmap(x.value_type) == cap[i].vt && x.value.data == cap[i].v && x.value.size == cap[i].vl && x.name.size == cap[i].nl && (!cap[i].nl || x.name.data == cap[i].n), "token"); }
#if KIND == 6
  if (vt == R_OS || vt == R_AS) {
    std::vector<JS::JsonMeta> m = JS::metaForTokens(s.r); size_t mi = 0;
    for (size_t i = 0; i < cap.size(); i++) if (cap[i].vt == R_OS || cap[i].vt == R_AS) {
      vf_check(mi < m.size() && m[mi].position == i && m[mi].is_array == (cap[i].vt == R_AS), "one entry per container, in order");
      size_t j = i + 1, size = 1, skip = 1, ch = 0, cc = 0; int dep = 1; bool data = false;
      for (; dep; j++) { size++; bool open = cap[j].vt == R_OS || cap[j].vt == R_AS, close = cap[j].vt == R_OE || cap[j].vt == R_AE; if (!close && dep == 1) { ch++; cc += open; } if (open) { dep++; skip++; } else if (close) dep--; else data = true; }
      vf_check(m[mi].size == size && m[mi].skip == skip && m[mi].children == ch && m[mi].complex_children == cc && m[mi].has_data == data, "the entry describes the container"); mi++; }
    vf_check(mi == m.size(), "no other entries"); vf_reach("meta");
  }
#endif
#endif
  vf_reach("captured");
#if KIND != 7
  if (opt == 0 && !dup) { // written and read again
    std::string w = JS::serializeStruct(s, JS::SerializerOptions(JS::SerializerOptions::Compact)); S s2; JS::ParseContext c2(w); vf_check(c2.parseTo(s2) == JS::Error::NoError && s2.a == s.a && s2.b == s.b, "what is written can be read");
#if KIND < 3
    vf_check(s2.r.data == s.r.data, "the text survives");
#elif KIND < 6
    vf_check(s2.r.ref.size == s.r.ref.size && vf_eqmem(s2.r.ref.data, s.r.ref.data, s.r.ref.size), "the text survives");
#else
    vf_check(s2.r.data.size() == s.r.data.size(), "the tokens survive");
#endif
  }
#endif
}
