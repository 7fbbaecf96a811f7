// C09: properties without a member, with arbitrary values, are skipped whole. p0 arbitrary bytes, p1 prefix, p2 suffix, p3 how the text arrives (0 one buffer, 1 cut anywhere, 2 byte by byte), p4 nesting (0 none, 1 arrays, 2 objects, 3 alternating) around the arbitrary bytes, p5 options (-1 any)
#include <json_struct/json_struct.h>
#include "vf.h"
#include "reftok.h"
#include <string>
#include <vector>
static const char *PRE[] = {"{", "{\"zz\":", "{\"a\":1,\"zz\":", "{\"in\":{\"u\":", "{\"zz\":[", "{\"zz\":{\"a\":7,\"", "{\"zz\":\"", "{\"a\":1,\"zz\":[{\"a\":5},", "{\"in\":{\"x\":3,\"u\":{\"x\":", "{\"aa\":2,\"", "{\"u\":[1,2],\"zz\":{\"a\":", "{zz:", "{\"u\":{},\"in\":{\"x\":"};
static const char *SUF[] = {"}", ",\"a\":2}", "},\"a\":2}", "],\"a\":2}", "\":[]},\"a\":2}", "\",\"a\":2}", "],\"in\":{\"x\":4}}", "}},\"a\":2}", "\":1,\"a\":2}", ",a:2}", ",\"zz\":[[]],\"a\":3,\"u\":\"]\"}"};
struct In { int x = -1; JS_OBJ(x); };
struct S { int a = -1; In in; int b = -1; JS_OBJ(a, in, b); };
static bool name(const RTok &k, const char *s) { size_t l = strlen(s); return k.n && k.nl == l && vf_eqmem(k.n, s, l); }
extern "C" void vf_main() {
  int n = vf_p(0), feed = vf_p(3), nest = vf_p(4), opt = vf_p(5); const char *pre = PRE[vf_p(1)], *suf = SUF[vf_p(2)]; if (opt < 0) opt = vf_choice(16, "opt");
  std::string o = pre, c;
  if (nest) { static const unsigned D[] = {1, 2, 7, 8, 9, 16, 17, 31, 32, 33, 64, 65, 127, 128, 129, 255, 256, 257}; unsigned dn = D[vf_choice(18, "depth")]; for (unsigned i = 0; i < dn; i++) { bool obj = nest == 2 || (nest == 3 && (i & 1)); o += obj ? "{\"a\":" : "["; c.insert(c.begin(), obj ? '}' : ']'); } }
  c += suf; size_t len = o.size() + n + c.size(); char *d = (char *)malloc(len); memcpy(d, o.data(), o.size()); vf_symbolic(d + o.size(), n, "json"); memcpy(d + o.size() + n, c.data(), c.size());
  if (feed) for (int i = 0; i < n; i++) vf_assume(d[o.size() + i] != 0);
  JS::ParseContext pc; pc.tokenizer.allowAsciiType(opt & 1); pc.tokenizer.allowNewLineAsTokenDelimiter(opt & 2); pc.tokenizer.allowSuperfluousComma(opt & 4); pc.tokenizer.allowComments(opt & 8);
  if (!feed) pc.tokenizer.addData(d, len); else { size_t cut = feed == 1 ? vf_choice((unsigned)len + 1, "cut") : 0, p = 0; while (p < len) { size_t q = feed == 2 ? p + 1 : (p < cut ? cut : len); char *m = (char *)malloc(q - p); memcpy(m, d + p, q - p); pc.tokenizer.addData(m, q - p); p = q; } }
  S s; JS::Error e = pc.parseTo(s); vf_obs(e); vf_obs(s.a); vf_obs(s.in.x);
  Ref r(d, len, opt); RTok k; RRes q; int a = -1, x = -1, b = -1; bool aa = false, ab = false, ax = false, ai = false; std::vector<std::string> miss; bool inin = false; int skip = -1, first = 0;
  for (size_t i = 0; i <= len; i++) {
    int before = r.depth; q = r.next(k); if (q == R_DONTCARE) return; if (q != R_TOK) { vf_check(e != JS::Error::NoError, "malformed or cut off text is an error"); vf_reach("rejected"); return; }
    if (!i) { if (k.vt != R_OS) { vf_check(e != JS::Error::NoError, "not an object"); return; } continue; }
    if (k.vt == R_OE || k.vt == R_AE) { if (skip >= 0 && r.depth == skip) skip = -1; else if (inin && r.depth == 1) inin = false; if (r.depth == 0) break; continue; }
    if (skip >= 0 || !k.n) continue;
    for (size_t j = 0; j < k.nl; j++) if (k.n[j] == '\\') return;
    int *t = nullptr; if (inin && name(k, "x")) t = &x, ax = true; else if (!inin && name(k, "a")) t = &a, aa = true; else if (!inin && name(k, "b")) t = &b, ab = true;
    else if (!inin && name(k, "in")) { if (k.vt != R_OS) { vf_check(e != JS::Error::NoError, "a value of the wrong type"); return; } if (ai) return; ai = true; inin = true; continue; }
    else { miss.push_back(std::string(k.n, k.nl)); if (k.vt == R_OS || k.vt == R_AS) skip = before; continue; }
    if (k.vt == R_NUM && k.vl == 1 && Ref::dig(k.v[0])) *t = k.v[0] - '0'; else return; // other values are the subject of C07
  }
  vf_check(e == JS::Error::NoError, "the object is read"); vf_check(s.a == a && s.b == b && s.in.x == x, "the members get their values, whatever is between them");
  vf_check(pc.missing_members.size() == miss.size(), "every property without a member is reported once"); for (size_t i = 0; i < miss.size(); i++) vf_check(pc.missing_members[i].size() == miss[i].size() && vf_eqmem(pc.missing_members[i].data(), miss[i].data(), miss[i].size()), "under its name");
  size_t una = !aa + !ab + !ai + (ai && !ax); vf_check(pc.unassigned_required_members.size() == una, "members without a property");
  if (miss.size()) vf_reach("skipped"); vf_reach("parsed");
}
