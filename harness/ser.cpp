// C16: writing tokens. p0 mode 0 buffers of any size, 1 one buffer that may be too small, 2 reformat, 3 depth, 4 growing string (SerializerContext)
// p1 arbitrary bytes, p2 prefix, p3 suffix, p4 style (0 compact 1 pretty 2 either, 3: any settings), p5 buffer scheme
#include <json_struct/json_struct.h>
#include "vf.h"
#include "reftok.h"
#include <string>
#include <vector>
static const char *PRE[] = {"", "{\"a\":[1,", "[[],{},", "{\"a\":{\"b\":{\"c\":{\"d\":{\"e\":{\"f\":", "[{\"x\":true},", "{\"", "[\"a\\\"b ", "{\"\":", "[[[[[[[["};
static const char *SUF[] = {"", "]}", "]", "}}}}}}", "]", "\":null}", "\"]", "}", "]]]]]]]]"};
static JS::Type tm(int t) { switch (t) { case R_ASCII: return JS::Type::Ascii; case R_STR: return JS::Type::String; case R_NUM: return JS::Type::Number; case R_OS: return JS::Type::ObjectStart; case R_OE: return JS::Type::ObjectEnd; case R_AS: return JS::Type::ArrayStart; case R_AE: return JS::Type::ArrayEnd; case R_BOOL: return JS::Type::Bool; default: return JS::Type::Null; } }
struct Opt { bool pretty = false; int shift = 2; bool conv = true, delim = true; };
// the text that has to come out: every token on its own line indented by its depth, or nothing but the tokens
struct Writer { std::string o; int depth = 0; bool first = true, start = true; Opt p; std::vector<bool> obj;
  void word(const char *s, size_t n, bool quoted) { if (quoted) o += '"'; o.append(s, n); if (quoted) o += '"'; }
  void tok(const RTok &k) { bool end = k.vt == R_OE || k.vt == R_AE; if (end) depth--; if (!start && !end && p.delim) o += ','; if (p.pretty) { if (!first) o += '\n'; o.append((size_t)(depth * p.shift), ' '); } first = false;
    if (!end && obj.size() && obj.back()) { word(k.n, k.nl, k.nt == R_STR || !k.nl || p.conv); o += p.pretty ? ": " : ":"; }
    word(k.v, k.vl, k.vt == R_STR || (k.vt == R_ASCII && p.conv)); start = k.vt == R_OS || k.vt == R_AS; if (start) { depth++; obj.push_back(k.vt == R_OS); } if (end) obj.pop_back(); }
};
static bool same(const std::string &a, const std::string &b) { return a.size() == b.size() && vf_eqmem(a.data(), b.data(), a.size()); }
static Opt options(int how, JS::SerializerOptions &so, int &ascii) {
  Opt p; ascii = 0; if (how == 2) how = vf_choice(2, "style"); p.pretty = how == 1;
  if (how == 3) { unsigned x = vf_choice(8, "settings"); p.pretty = x != 0 && x != 6; p.conv = x != 5 && x != 6; p.delim = x != 4 && x != 7; static const int SH[] = {2, 2, 0, 3, 2, 4, 2, 8}; p.shift = SH[x]; if (x == 5 || x == 6) ascii = 1; }
  so = JS::SerializerOptions(p.pretty ? JS::SerializerOptions::Pretty : JS::SerializerOptions::Compact); if (p.pretty && p.shift != 2) so.setShiftSize((unsigned char)p.shift); if (!p.conv) so.setConvertAsciiToString(false); if (!p.delim) so.skipDelimiter(true);
  if (how == 3 && p.pretty && vf_choice(2, "set style")) { so.setStyle(JS::SerializerOptions::Compact); p.pretty = false; }
  return p;
}
static std::string got; static char *cur; static size_t curn; static int scheme; static size_t firstsize; static int calls;
static size_t nextsize() { if (scheme == 0) return firstsize; if (calls == 0) return firstsize; return 4096; }
static void collect(JS::Serializer &s) { if (cur) { got.append(cur, curn); free(cur); } size_t n = nextsize(); calls++; cur = (char *)malloc(n); curn = n; s.setBuffer(cur, n); }
extern "C" void vf_main() {
  int mode = vf_p(0);
  if (mode == 3) { // nesting, with values before and after the nested one
    static const unsigned D[] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 16, 17, 33, 100, 255, 256, 257, 270, 300}; unsigned d = D[vf_choice(21, "depth")]; bool obj = vf_choice(2, "object"), pretty = vf_choice(2, "pretty"); unsigned sib = vf_choice(4, "siblings"); std::string in;
    for (unsigned i = 0; i < d; i++) { in += obj ? "{" : "["; if (sib & 1) in += obj ? "\"b\":1," : "1,"; if (obj) in += "\"k\":"; } in += obj ? "[]" : "1"; for (unsigned i = 0; i < d; i++) { if (sib & 2) in += obj ? ",\"a\":2" : ",2"; in += obj ? '}' : ']'; }
    Ref r(in.data(), in.size(), 0); RTok k; Writer w; w.p.pretty = pretty; while (r.next(k) == R_TOK) { w.tok(k); if (r.depth == 0) break; }
    std::string out; JS::Error e = JS::reformat(in, out, JS::SerializerOptions(pretty ? JS::SerializerOptions::Pretty : JS::SerializerOptions::Compact)); vf_check(e == JS::Error::NoError, "deep nesting is accepted");
    vf_check(same(out, w.o), "nothing is lost and the indentation follows the depth"); vf_obs(out.size()); vf_reach("deep"); return; }
  if (mode == 4) { // a string grows across the buffer sizes
    size_t len = (size_t)vf_p(1) + vf_choice((unsigned)vf_p(2), "length"); std::string v(len, 'x'); unsigned char c = vf_u8("char"); v[len - 1] = (char)c; v[len / 2] = (char)c; std::vector<std::string> w; w.push_back(v); w.push_back("y");
    std::string want = "[\""; for (size_t i = 0; i < len; i++) { if (i != len / 2 && i != len - 1) { want += 'x'; continue; } char h[8]; static const char *hx = "0123456789abcdef"; if (c == '"' || c == '\\') { want += '\\'; want += (char)c; } else if (c == 8) want += "\\b"; else if (c == 9) want += "\\t"; else if (c == 10) want += "\\n"; else if (c == 12) want += "\\f"; else if (c == 13) want += "\\r"; else if (c < 32) { want += "\\u00"; want += hx[c >> 4]; want += hx[c & 15]; } else want += (char)c; (void)h; }
    want += "\",\"y\"]"; std::string s = JS::serializeStruct(w, JS::SerializerOptions(JS::SerializerOptions::Compact)); vf_check(same(s, want), "the text is complete"); vf_obs(s.size()); 
    std::string o(1 + vf_choice(5, "start"), '?'); { JS::SerializerContext sc(o); sc.serializer.setOptions(JS::SerializerOptions(JS::SerializerOptions::Compact)); sc.serialize(w); } vf_check(same(o, want), "also when it starts in a small string"); vf_reach("grown"); return; }
  int n = vf_p(1); const char *pre = PRE[vf_p(2)], *suf = SUF[vf_p(3)]; JS::SerializerOptions so; int ascii; Opt p = options(vf_p(4), so, ascii);
  size_t a = strlen(pre), b = strlen(suf), len = a + n + b; char *d = (char *)malloc(len + 1); memcpy(d, pre, a); vf_symbolic(d + a, n, "json"); memcpy(d + a + n, suf, b);
  Ref r(d, len, mode == 2 ? 0 : ascii); std::vector<RTok> ts; RTok k; RRes q; bool done = false; Writer w; w.p = p;
  for (size_t i = 0; i <= len; i++) { q = r.next(k); if (q != R_TOK) break; ts.push_back(k); w.tok(k); if (r.depth == 0) { done = true; break; } }
  if (mode == 2) {
    if (q == R_DONTCARE) return; std::string out; if (vf_choice(2, "out")) out = "xyz"; JS::Error e = JS::reformat(d, len, out, so); vf_obs(e);
    if (!done) { if (ts.empty()) { vf_check(out.empty(), "no document, no text"); return; } vf_check(e != JS::Error::NoError, "an incomplete or malformed text is an error"); vf_reach("rejected"); return; }
    for (size_t i = r.p; i < len; i++) if (!Ref::ws(d[i])) return; // more documents: not claimed
    vf_check(e == JS::Error::NoError, "a document is reformatted"); vf_check(same(out, w.o), "same tokens, in the wanted style"); vf_observe(out.data(), out.size()); vf_reach("reformatted");
    std::string again; if (p.delim) vf_check(JS::reformat(out, again, so) == JS::Error::NoError && same(again, out), "formatting is idempotent"); return; }
  if (!done) return;
  JS::Serializer s; s.setOptions(so);
  if (mode == 0) { scheme = vf_p(5); firstsize = scheme == 0 ? 1 + vf_choice(9, "size") : 1 + vf_choice((unsigned)w.o.size() + 2, "size"); s.setRequestBufferCallback(collect); }
  else { firstsize = vf_choice((unsigned)w.o.size() + 3, "size"); cur = (char *)malloc(firstsize); curn = firstsize; s.setBuffer(cur, firstsize); }
  bool ok = true; for (auto &t : ts) { JS::Token x; x.name.data = t.n; x.name.size = t.nl; x.name_type = t.nl || t.n ? tm(t.nt) : JS::Type::String; x.value.data = t.v; x.value.size = t.vl; x.value_type = tm(t.vt); if (!s.write(x)) { ok = false; break; } }
  if (s.currentBuffer().used) got.append(cur, s.currentBuffer().used);
  if (mode == 0) { vf_check(ok, "every token is written"); vf_check(same(got, w.o), "the text does not depend on the buffers"); vf_observe(got.data(), got.size()); vf_reach("written"); return; }
  vf_check(ok == (firstsize >= w.o.size()), "a buffer that is too small is reported"); if (ok) { vf_check(same(got, w.o), "text"); vf_reach("fits"); } else vf_reach("full");
}
