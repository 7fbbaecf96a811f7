// C07: integers. p0 type, p1 mode (0 serialize all values with p2 digits, 1 parse p2 digits, 2 parse with exponent / fraction, 3 arbitrary text, 4 p2 zeros that the exponent makes up for, p4 0 behind the point, 1 before the exponent, p5 first exponent, p6 number of exponents), p2 digits, p3 sign, p4.. extra
#define JS_INT_128
#include <json_struct/json_struct.h>
#include "vf.h"
typedef unsigned __int128 u128; typedef __int128 i128;
template <class T> struct W { T v; T w; JS_OBJ(v, w); };
static const char *TAIL[] = {"", ".0", ".9", "e0", "e1", "e2", "E+3", "e-1", "e-2", ".5e1", "00", "e19", "e38", "0000000000000000000000", "e-30", ".000000000000000000001", "e99999999999"};
// decimal digits d[0..n) > lim, digit by digit (case split)
static bool above(const char *d, int n, u128 lim) {
  while (n > 1 && d[0] == '0') { d++; n--; }
  char l[44]; int k = 0; { char t[44]; int q = 0; u128 x = lim; do { t[q++] = (char)('0' + (int)(x % 10)); x /= 10; } while (x); while (q) l[k++] = t[--q]; }
  if (n != k) return n > k;
  for (int i = 0; i < n; i++) { if (d[i] > l[i]) return true; if (d[i] < l[i]) return false; }
  return false;
}
template <class T, class U> static void run() {
  int mode = vf_p(1), nd = vf_p(2), neg = vf_p(3);
  const bool sg = T(-1) < T(0); const int bits = sizeof(T) * 8;
  const U umax = sg ? (U)(((U)1 << (bits - 1)) - 1) : (U)~(U)0, nmag = sg ? (U)(umax + 1) : 0;
  if (mode == 0) { // every value with nd digits, given by its digits
    uint8_t d[40]; vf_symbolic(d, nd, "digits"); for (int i = 0; i < nd; i++) vf_assume(d[i] >= '0' && d[i] <= '9'); if (nd > 1) vf_assume(d[0] != '0');
    u128 m = 0; const u128 lim = neg ? (u128)nmag : (u128)umax;
    if (above((const char *)d, nd, lim)) { vf_reach("out-of-range"); return; }
    for (int i = 0; i < nd; i++) m = m * 10 + (u128)(d[i] - '0');
    T v = neg ? (T)(U)(0 - (U)m) : (T)(U)m;
    if (neg && nd == 1) vf_assume(d[0] != '0');
    std::vector<T> a; a.push_back(v); std::string o = JS::serializeStruct(a, JS::SerializerOptions(JS::SerializerOptions::Compact));
    vf_check(o.size() == (size_t)nd + 2 + (neg ? 1 : 0), "length of the serialized integer");
    vf_check(o[0] == '[' && o[o.size() - 1] == ']' && (!neg || o[1] == '-'), "frame and sign");
    vf_check(vf_eqmem(o.data() + 1 + (neg ? 1 : 0), d, nd), "digits of the serialized integer");
    std::vector<T> b; JS::ParseContext c(o); vf_check(c.parseTo(b) == JS::Error::NoError && b.size() == 1, "own output parses"); vf_check(b[0] == v, "round trip");
    vf_observe(o.data(), o.size()); vf_reach("serialized");
    return;
  }
  if (mode == 4) {
    int k = vf_p(5) + (int)vf_choice(vf_p(6), "exp"), kind = vf_p(4); std::string t = "["; if (neg) t += '-'; if (!kind) { t += "0."; t.append((size_t)nd, '0'); } size_t at = t.size(); t += "??"; if (kind) t.append((size_t)nd, '0'); t += 'e'; t += std::to_string(kind ? k - nd : k + nd + 2); t += ']';
    char *p = (char *)malloc(t.size()); memcpy(p, t.data(), t.size()); unsigned x = vf_u8("digits"); vf_assume(x < 100); p[at] = (char)('0' + x / 10); p[at + 1] = (char)('0' + x % 10);
    char id[60]; int ni = 0; for (int i = 0; i < 2 + k; i++) id[ni++] = i < 2 ? p[at + i] : '0'; const u128 lim = neg ? (u128)nmag : (u128)umax; u128 m = 0; bool ovf = ni && above(id, ni, lim); if (!ovf) for (int i = 0; i < ni; i++) m = m * 10 + (u128)(id[i] - '0');
    U r = (U)(ovf ? lim : m); T e = neg ? (T)(U)(0 - r) : (T)r; std::vector<T> a; JS::ParseContext c(p, t.size()); JS::Error er = c.parseTo(a); vf_check(er == JS::Error::NoError && a.size() == 1, "number accepted"); vf_check(a[0] == e, "parsed integer is the value, saturated to the range of the type"); vf_obs(a[0]); vf_reach(ovf ? "saturated" : "in-range"); return; }
  // parse: digits, then a tail
  char t[64]; int n = 0; t[n++] = '['; if (neg) t[n++] = '-';
  vf_symbolic(t + n, nd, "digits"); char *d = t + n; for (int i = 0; i < nd; i++) vf_assume(d[i] >= '0' && d[i] <= '9'); n += nd;
  const char *tail = TAIL[mode == 1 ? 0 : vf_p(4)]; for (const char *q = tail; *q; q++) t[n++] = *q; t[n++] = ']';
  // reference value: digits scaled by the exponent, truncated towards zero, saturated
  int fd = 0, ex = 0; const char *q = tail; char dig[80]; int k = 0; for (int i = 0; i < nd; i++) dig[k++] = d[i];
  for (; *q >= '0' && *q <= '9'; q++) dig[k++] = *q;
  if (*q == '.') for (q++; *q >= '0' && *q <= '9'; q++) { dig[k++] = *q; fd++; }
  if (*q == 'e' || *q == 'E') { q++; bool en = false; if (*q == '+') q++; else if (*q == '-') { en = true; q++; } for (; *q; q++) if (ex < 1000) ex = ex * 10 + (*q - '0'); if (en) ex = -ex; }
  int shift = ex - fd; int nint = k + shift; // number of integral digits
  const u128 lim = neg ? (u128)nmag : (u128)umax; u128 m = 0; bool ovf = false;
  char id[200]; int ni = 0; for (int i = 0; i < nint && i < k; i++) id[ni++] = dig[i];
  bool zero = true; for (int i = 0; i < ni; i++) if (id[i] != '0') { zero = false; break; }
  if (!zero) { for (int i = k; i < nint; i++) { if (ni >= 190) { ovf = true; break; } id[ni++] = '0'; }
    if (!ovf) ovf = above(id, ni, lim); if (!ovf) for (int i = 0; i < ni; i++) m = m * 10 + (u128)(id[i] - '0'); }
  U r = (U)(ovf ? lim : m); T e = neg ? (T)(U)(0 - r) : (T)r;
  char *p = (char *)malloc(n); memcpy(p, t, n);
  std::vector<T> a; JS::ParseContext c(p, n); JS::Error er = c.parseTo(a);
  vf_check(er == JS::Error::NoError && a.size() == 1, "number accepted");
  vf_check(a[0] == e, "parsed integer is the value, saturated to the range of the type");
  vf_obs(a[0]); if (ovf) vf_reach("saturated"); else vf_reach("in-range");
}
// arbitrary token text into an integer: either rejected, or a number
static void text() {
  int n = vf_p(2); char *t = (char *)malloc(n + 2); t[0] = '['; vf_symbolic(t + 1, n, "text"); t[n + 1] = ']';
  for (int i = 0; i < n; i++) { char c = t[1 + i]; vf_assume((c >= '0' && c <= '9') || c == '-' || c == '+' || c == '.' || c == 'e' || c == 'E'); }
  vf_assume(t[1] == '-' || (t[1] >= '0' && t[1] <= '9'));
  std::vector<int> a; JS::ParseContext c(t, n + 2); JS::Error e = c.parseTo(a);
  // -? digits? [. digits*]? ([eE][+-]?digits+)? with at least one mantissa digit
  int i = 1, md = 0; bool ok = true; if (t[i] == '-') i++; while (i <= n && t[i] >= '0' && t[i] <= '9') { i++; md++; } if (i <= n && t[i] == '.') { i++; while (i <= n && t[i] >= '0' && t[i] <= '9') { i++; md++; } }
  if (!md) ok = false; if (i <= n && (t[i] == 'e' || t[i] == 'E')) { i++; if (i <= n && (t[i] == '+' || t[i] == '-')) i++; int x = 0; while (i <= n && t[i] >= '0' && t[i] <= '9') { i++; x++; } if (!x) ok = false; } if (i != n + 1) ok = false;
  vf_check(ok == (e == JS::Error::NoError), "a malformed number is rejected, a number is accepted"); if (!ok) vf_check(e == JS::Error::FailedToParseInt, "error code"); vf_obs(e); vf_reach(ok ? "number" : "malformed");
}
extern "C" void vf_main() {
  if (vf_p(1) == 3) { text(); return; }
  switch (vf_p(0)) {
  case 0: run<int8_t, uint8_t>(); break; case 1: run<uint8_t, uint8_t>(); break; case 2: run<short, uint16_t>(); break; case 3: run<unsigned short, uint16_t>(); break;
  case 4: run<int, uint32_t>(); break; case 5: run<unsigned, uint32_t>(); break; case 6: run<long, uint64_t>(); break; case 7: run<unsigned long, uint64_t>(); break;
  case 8: run<long long, uint64_t>(); break; case 9: run<unsigned long long, uint64_t>(); break; case 10: run<i128, u128>(); break; case 11: run<u128, u128>(); break; case 12: run<char, uint8_t>(); break;
  }
}
