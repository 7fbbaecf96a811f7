// C05: the SIMD code of the header (SSE2, SSE4.2, AVX2 or NEON, by compiler flags) against the portable code of the same header.
// p0 0: whole text in one buffer, 1: in two buffers cut anywhere, 2: serialization of a string
// p1 filler, p2 number of filler characters, p3 size of the window of arbitrary bytes (at any position), p4 option mask (-1 any),
// p5 0: no second window, else one more arbitrary byte, p5 positions later
#include <json_struct/json_struct.h>
#undef JSON_STRUCT_H
#undef JSON_STRUCT_HAS_SSE2
#undef JSON_STRUCT_HAS_SSE4_2
#undef JSON_STRUCT_HAS_AVX2
#undef JSON_STRUCT_HAS_BMI
#undef JSON_STRUCT_HAS_NEON
#define JS_DISABLE_SIMD 1
#define JS JSscalar
#include <json_struct/json_struct.h>
#undef JS
#include "vf.h"
#include <stdlib.h>
#include <string.h>
struct Fill { const char *pre, *unit, *suf; };
static const Fill FILL[] = {
  {"[\"", "a", "\"]"}, {"[", "1", "]"}, {"[", "a", ",1]"}, {"[", " ", "1]"}, {"{\"", "k", "\":1}"}, {"{\"a\":", " \t\r\n", "1}"},
  {"[// ", "c", "\n1]"}, {"[1", "\n", ",2]"}, {"{", "k", ":1}"}, {"[\"", "\\\\", "\"]"}, {"[\"", "\\\"", "\"]"}, {"[", "1,", "1]"}, {"{\"a\":\"", "b", "\",\"c\":2}"}, {"{\"a\":-", "1.5", "e3}"}, {"[1", " ", "]"}, {"[1,", " ", "2]"}, {"[\"", "\xc3\xa9", "\"]"},
  {"{\"a\":1//", "c", "\n\"b\":2}"}, {"[1 // ", "c", "\n2\n]"}, {"{\"a\":1", " ", "\n\"b\":2}"}, {"{\"a\"", " ", ":1}"}, {"{\"a\":[1", " ", "],\"b\":2}"}, {"{a:1,", " ", "b:x}"}, {"[1,// ", "\n//", "\n2]"}};
struct R { int e, vt, nt; const char *v, *n; size_t vl, nl; };
template <typename T, typename K> struct Run {
  T t; const char *d; size_t len, cut; bool more = false;
  Run(const char *d, size_t len, size_t cut, int opt) : d(d), len(len), cut(cut) {
    t.allowAsciiType(opt & 1); t.allowNewLineAsTokenDelimiter(opt & 2); t.allowSuperfluousComma(opt & 4); t.allowComments(opt & 8);
    if (cut < len) { t.addData(d, cut); more = true; } else t.addData(d, len);
  }
  R next() {
    K k; auto e = t.nextToken(k);
    if ((int)e == (int)JS::Error::NeedMoreData && more) { more = false; t.addData(d + cut, len - cut); e = t.nextToken(k); }
    return R{(int)e, (int)k.value_type, (int)k.name_type, k.value.data, k.name.data, k.value.size, k.name.size};
  }
};
extern "C" void vf_main() {
  int mode = vf_p(0); const Fill &f = FILL[vf_p(1)]; int n = vf_p(2), w = vf_p(3), opt = vf_p(4), gap = vf_p(5);
  size_t a = mode == 2 ? 0 : strlen(f.pre), b = mode == 2 ? 0 : strlen(f.suf), u = strlen(f.unit), len = a + n + b;
  char *d = (char *)malloc(len ? len : 1);
  memcpy(d, f.pre, a); for (int i = 0; i < n; i++) d[a + i] = f.unit[i % u]; memcpy(d + a + n, f.suf, b);
  int last = gap ? n - w - gap : n - w;
  size_t at = a + (last > 0 ? vf_choice(last + 1, "at") : 0);
  vf_symbolic(d + at, w, "window"); if (gap) vf_symbolic(d + at + w + gap - 1, 1, "second");
  if (mode == 2) {
    std::string s(d, n);
    std::string x, y; x = JS::serializeStruct(s); y = JSscalar::serializeStruct(s);
    vf_check(x.size() == y.size() && vf_eqmem(x.data(), y.data(), x.size()), "SIMD and portable serialization agree");
    vf_obs(x.size()); vf_reach("serialized"); return;
  }
  if (opt < 0) opt = vf_choice(16, "opt");
  size_t cut = len;
  if (mode == 1) {
    size_t c = vf_choice(4, "cut"); // the cut is inside or next to the window
    cut = at + c; if (cut > len) cut = len;
  }
  Run<JS::Tokenizer, JS::Token> x(d, len, cut, opt); Run<JSscalar::Tokenizer, JSscalar::Token> y(d, len, cut, opt);
  for (size_t i = 0; i <= len; i++) {
    R p = x.next(), q = y.next(); vf_obs(p.e);
    vf_check((p.e == (int)JS::Error::NoError) == (q.e == (int)JS::Error::NoError), "SIMD and portable code accept the same text");
    vf_check((p.e == (int)JS::Error::NeedMoreData) == (q.e == (int)JS::Error::NeedMoreData), "SIMD and portable code agree on what is incomplete");
    if (p.e != (int)JS::Error::NoError) { vf_check(p.e == q.e, "SIMD and portable code report the same error"); vf_reach("end"); return; }
    vf_check(p.vt == q.vt && p.nt == q.nt, "SIMD and portable code agree on the token types");
    vf_check(p.vl == q.vl && p.nl == q.nl, "SIMD and portable code agree on the token sizes");
    if (cut == len) vf_check((!p.vl || p.v == q.v) && (!p.nl || p.n == q.n), "SIMD and portable code agree on the token spans");
    else vf_check(vf_eqmem(p.v, q.v, p.vl) && vf_eqmem(p.n, q.n, p.nl), "SIMD and portable code agree on the token texts");
    vf_obs(p.vl); vf_reach("token");
  }
}
