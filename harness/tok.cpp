// C02/C03: tokenizer against the reference. p0: number of arbitrary bytes, p1: option mask, p2: prefix selector, p3: suffix selector
#include <json_struct/json_struct.h>
#include "vf.h"
#include "reftok.h"
static const char *PRE[] = {"", "{", "[", "{\"a\":", "[1,", "{\"a\":1", "[[", "{\"a\":{", "{\"a\":[1", "[true", "{a:", "[{}", "{\"k\\\"\":\"v\\\\\",", "[\"", "{\"", "[// c\n", "{x:1\n"};
static const char *SUF[] = {"", "}", "]", "]}", "}]", "\"]", "\":1}", "\n}", "\n1]"};
static int tmap(JS::Type t) {
  switch (t) {
  case JS::Type::Ascii: return R_ASCII; case JS::Type::String: return R_STR; case JS::Type::Number: return R_NUM;
  case JS::Type::ObjectStart: return R_OS; case JS::Type::ObjectEnd: return R_OE; case JS::Type::ArrayStart: return R_AS; case JS::Type::ArrayEnd: return R_AE;
  case JS::Type::Bool: return R_BOOL; case JS::Type::Null: return R_NULL; default: return -1;
  }
}
extern "C" void vf_main() {
  int n = vf_p(0), opt = vf_p(1); const char *pre = PRE[vf_p(2)], *suf = SUF[vf_p(3)];
  if (opt < 0) opt = vf_choice(16, "opt");
  size_t a = strlen(pre), b = strlen(suf), len = a + n + b; char *d;
  if (vf_p(4)) { // deep nesting (1: arrays, 2: objects, 3: alternating) or many members; the arbitrary bytes are in the middle, or among the closing brackets
    static const unsigned D[] = {2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 34, 63, 64, 65, 66, 127, 128, 129, 255, 256, 257}; unsigned how = vf_p(4), dn = D[vf_choice(22, "depth")]; bool late = vf_choice(2, "late"); static char o[4000], c[600]; size_t on = 0, cn = 0;
    if (how == 4) { o[on++] = '['; for (unsigned i = 0; i < dn; i++) { memcpy(o + on, i % 3 ? "1," : "{\"k\":2},", i % 3 ? 2 : 8); on += i % 3 ? 2 : 8; } c[cn++] = ']'; }
    else { for (unsigned i = 0; i < dn; i++) { bool obj = how == 2 || (how == 3 && (i & 1)); if (obj) { memcpy(o + on, "{\"k\":", 5); on += 5; } else o[on++] = '['; c[dn - 1 - i] = obj ? '}' : ']'; } cn = dn; }
    len = on + n + cn + (late ? 1 : 0); d = (char *)malloc(len); memcpy(d, o, on); size_t x = on; if (late) { d[x++] = '1'; size_t h = cn / 2; memcpy(d + x, c, h); x += h; vf_symbolic(d + x, n, "json"); memcpy(d + x + n, c + h, cn - h); } else { vf_symbolic(d + x, n, "json"); memcpy(d + x + n, c, cn); } }
  else { d = (char *)malloc(len ? len : 1); memcpy(d, pre, a); vf_symbolic(d + a, n, "json"); memcpy(d + a + n, suf, b); }
  JS::Tokenizer t; t.addData(d, len);
  t.allowAsciiType(opt & 1); t.allowNewLineAsTokenDelimiter(opt & 2); t.allowSuperfluousComma(opt & 4); t.allowComments(opt & 8);
  Ref ref(d, len, opt);
  for (size_t i = 0; i <= len; i++) {
    JS::Token k; RTok r;
    JS::Error e = t.nextToken(k);
    RRes q = ref.next(r);
    vf_obs(e);
    if (q == R_DONTCARE) { vf_reach("dontcare"); return; }
    if (q == R_INC) { vf_check(e == JS::Error::NeedMoreData, "an incomplete document asks for more data"); vf_reach("incomplete"); return; }
    if (q == R_ERR || q == R_NOTOK) { vf_check(e != JS::Error::NoError, "malformed input yields no token"); if (q == R_ERR) vf_check(e != JS::Error::NeedMoreData, "malformed input is reported as an error"); vf_reach("rejected"); return; }
    vf_check(e == JS::Error::NoError, "a well formed token is accepted");
    vf_check(tmap(k.value_type) == r.vt, "token type");
    vf_check(k.value.data == r.v && k.value.size == r.vl, "token value span");
    vf_check(k.name.size == r.nl, "token name length");
    if (r.nl || r.n) { vf_check(k.name.data == r.n, "token name span"); vf_check(tmap(k.name_type) == r.nt, "token name type"); }
    vf_obs(k.value.size); vf_obs(k.name.size); vf_obs(k.value_type);
    vf_reach("token");
    if (ref.depth == 0) vf_reach("document");
  }
}
