// C08: floating point. F = double or float (define FLT).
// p0 0: value -> text -> value; p1 first exponent field, p2 number of consecutive exponent fields, p3 mantissa pattern, p4 position of the arbitrary byte (bits), -1: none, p5 step of the exponents
// p0 1: text -> value against exact arithmetic; p1 text template, p2 first exponent, p3 number of exponents
// p0 2: p1 arbitrary number characters
// p0 3: many zeros that the exponent makes up for; p1 0 zeros behind the point, 1 zeros before the exponent, p2 number of zeros, p3 first exponent of the value, p4 number of exponents
#include <json_struct/json_struct.h>
#include "vf.h"
#include <string.h>
#ifdef FLT
typedef float F; typedef uint32_t U; enum { MB = 23, EB = 8 };
#else
typedef double F; typedef uint64_t U; enum { MB = 52, EB = 11 };
#endif
typedef unsigned __int128 u128;
struct Big { uint32_t w[90]; int n = 0;
  explicit Big(u128 v) { for (n = 0; n < 4; n++) w[n] = (uint32_t)(v >> (32 * n)); }
  void mul(uint32_t k) { uint64_t c = 0; for (int i = 0; i < n; i++) { uint64_t p = (uint64_t)w[i] * k + c; w[i] = (uint32_t)p; c = p >> 32; } w[n++] = (uint32_t)c; }
  void pow5(int e) { while (e >= 13) { mul(1220703125u); e -= 13; } uint32_t k = 1; while (e-- > 0) k *= 5; mul(k); }
  void shl(int b) { int q = b / 32, r = b % 32; for (int i = n - 1; i >= 0; i--) w[i + q] = w[i]; for (int i = 0; i < q; i++) w[i] = 0; n += q; uint64_t c = 0; for (int i = 0; i < n; i++) { uint64_t p = ((uint64_t)w[i] << r) | c; w[i] = (uint32_t)p; c = p >> 32; } w[n++] = (uint32_t)c; }
};
// a < b and a == b, without branching on the digits
static void cmpBig(Big &a, Big &b, bool &lt, bool &eq) {
  while (a.n < b.n) a.w[a.n++] = 0; while (b.n < a.n) b.w[b.n++] = 0;
  uint64_t br = 0; uint32_t x = 0; for (int i = 0; i < a.n; i++) { uint64_t d = (uint64_t)a.w[i] - b.w[i] - br; br = (d >> 32) & 1; x |= a.w[i] ^ b.w[i]; }
  lt = br; eq = x == 0;
}
static void cmpDec(u128 s, int e10, uint64_t m, int e2, bool &lt, bool &eq) { // s * 10^e10 against m * 2^e2
  Big a(s), b(m); if (e10 >= 0) a.pow5(e10); else b.pow5(-e10);
  int sh = e10 - e2; if (sh >= 0) a.shl(sh); else b.shl(-sh);
  cmpBig(a, b, lt, eq);
}
// is f the number nearest to s * 10^e10 (s != 0)?
static bool nearest(u128 s, int e10, U bits) {
  int ex = (int)vf_concretize((uint64_t)((bits >> MB) & ((1 << EB) - 1))); U frac = bits & (((U)1 << MB) - 1);
  const int bias = (1 << (EB - 1)) - 1;
  bool lt, eq;
  if (ex == (1 << EB) - 1) { // infinity: at or beyond the largest finite number plus half a unit
    if (frac != 0) return false; cmpDec(s, e10, ((uint64_t)1 << (MB + 2)) - 1, ex - 1 - bias - MB - 1, lt, eq); return !lt; }
  uint64_t m = ex ? (uint64_t)frac | ((uint64_t)1 << MB) : (uint64_t)frac; int e2 = (ex ? ex : 1) - bias - MB;
  uint64_t low = frac == 0 && ex > 1 ? 4 * m - 1 : 4 * m - 2, high = 4 * m + 2; bool even = !(m & 1);
  if (m != 0) { cmpDec(s, e10, low, e2 - 2, lt, eq); if (lt || (eq && !even)) return false; }
  cmpDec(s, e10, high, e2 - 2, lt, eq); return lt || (eq && even);
}
static bool dig(char c) { return c >= '0' && c <= '9'; }
struct Num { bool ok = false, neg = false, json = false; u128 s = 0; int e = 0, digits = 0; };
// reads a number; digit values may be arbitrary, the positions of the other characters are decided by branching
static Num readNum(const char *p, size_t n) {
  Num r; size_t i = 0; if (i < n && p[i] == '-') { r.neg = true; i++; }
  size_t b = i; bool dot = false; int nd = 0; bool after = false;
  for (; i < n; i++) { char c = p[i]; if (c == '.') { if (dot) return r; dot = true; continue; } if (!dig(c)) break; nd++; if (dot) after = true; if (r.digits < 39) { r.s = r.s * 10 + (unsigned)(c - '0'); r.digits++; if (dot) r.e--; } else return r; }
  if (!nd) return r;
  r.json = n > b && p[b] != '.' && (!dot || after);
  if (i == n) { r.ok = true; return r; }
  if (p[i] != 'e' && p[i] != 'E') return r; i++;
  bool en = false; if (i < n && (p[i] == '-' || p[i] == '+')) { en = p[i] == '-'; i++; }
  if (i == n) return r; int x = 0; for (; i < n; i++) { if (!dig(p[i])) return r; if (x < 100000) x = x * 10 + (int)vf_concretize((unsigned)(p[i] - '0')); }
  r.e += en ? -x : x; r.ok = true; return r;
}
static U bitsOf(F f) { U b; memcpy(&b, &f, sizeof b); return b; }
static void checkText(const char *d, size_t n, U bits, bool shortest) {
  Num q = readNum(d, n); vf_check(q.ok && q.json, "a finite number is written as a JSON number");
  vf_check(q.neg == (bool)(bits >> (MB + EB)), "the sign is written");
  if (q.s == 0) { vf_check((bits & (((U)1 << (MB + EB)) - 1)) == 0, "only zero is written as zero"); return; }
  vf_check((bits & (((U)1 << (MB + EB)) - 1)) != 0, "zero is written as zero");
  vf_check(nearest(q.s, q.e, bits & (((U)1 << (MB + EB)) - 1)), "the written number denotes the value");
}
static const char *T[] = {"#", "##", "-#.#", "1#", "9007199254740##", "9007199254740##2", "1234567890123456#", "#2345678901234567#", "184467440737095516#", "1.7976931348623##", "1.79769313486231##", "4.9#", "2.22507385850720##", "0.0000000000#", "#0000000000000000000", "3.402823#", "1.17549#", "1.4#", "1677721#", "16777217.#", "5.3687091#", "999999999999999#", "0.#999999999999999", "9.5367431640625#", "1.0000000596046447#", "1.0000000596046448#", "-7.00649232#",
  /* 27: around the middle of two floats */ "1.00000005960464477539062##", "1.0000000596046447753906##", "1.00000017881393432617187##", "16777217.0000000000000000##", "16777216.9999999999999999##", "16777218.9999999999999999##", "16777219.00000000000000000#", "-0.10000000521540641784667968##", "3402823364973240579858689715108912824##", "3402823567797336616375393954581425684##", "2.101947696487225606385594374934874##", "1.175494420887210724209590083408724##", "9223373686122217472.##", "9223373686122217471.##", "2.646979064574955869005035391043872##", "7.00649232162408535461864791644958065640130970938257885878534141944895541342930300743319094181060791015#"};
extern "C" void vf_main() {
  int mode = vf_p(0);
  if (mode == 0) {
    static const uint64_t PAT[] = {0, ~0ull, 0x5555555555555555ull, 0x8000000000000000ull >> (64 - MB), 0xaaaaaaaaaaaaaaaaull, 0x123456789abcdull};
    unsigned first = vf_p(1), cnt = vf_p(2), st = vf_p(5); uint64_t pat = PAT[vf_p(3)]; int pos = vf_p(4);
    unsigned ex = first + st * (cnt > 1 ? vf_choice(cnt, "exp") : 0);
    U m = (U)pat; if (pos >= 0) { U x = vf_u8("mantissa"); m = (m & ~((U)0xff << pos)) | (x << pos); }
    m &= ((U)1 << MB) - 1; U bits = m | ((U)ex << MB); if (vf_choice(2, "sign")) bits |= (U)1 << (MB + EB);
    F f; memcpy(&f, &bits, sizeof f);
    std::vector<F> v; v.push_back(f); std::string s = JS::serializeStruct(v, JS::SerializerOptions(JS::SerializerOptions::Compact));
    vf_check(s.size() > 2 && s[0] == '[' && s[s.size() - 1] == ']', "one number in an array");
    vf_obs(s.size());
    if (ex == (1u << EB) - 1) { vf_check(s == "[null]", "a value that is not finite is written as null"); vf_reach("null"); return; }
    checkText(s.data() + 1, s.size() - 2, bits, true); vf_reach("written");
    std::vector<F> w; JS::ParseContext c(s); vf_check(c.parseTo(w) == JS::Error::NoError && w.size() == 1, "the text is accepted");
    vf_check(bitsOf(w[0]) == bits, "the text gives the same value back"); vf_reach("back"); return;
  }
  if (mode == 3) {
    int kind = vf_p(1), z = vf_p(2), k = vf_p(3) + (int)vf_choice(vf_p(4), "exp"); unsigned x = vf_u8("digits"); vf_assume(x < 100); std::string t = "["; if (!kind) { t += "0."; t.append((size_t)z, '0'); } size_t at = t.size(); t += "??"; if (kind) t.append((size_t)z, '0'); t += "e"; t += std::to_string(kind ? k - z : k + z + 2); t += "]";
    char *d = (char *)malloc(t.size()); memcpy(d, t.data(), t.size()); d[at] = (char)('0' + x / 10); d[at + 1] = (char)('0' + x % 10);
    std::vector<F> w; JS::ParseContext c(d, t.size()); vf_check(c.parseTo(w) == JS::Error::NoError && w.size() == 1, "a JSON number is accepted"); U bits = bitsOf(w[0]); vf_obs(bits); if (x == 0) vf_check(bits == 0, "zero"); else vf_check(nearest(x, k, bits), "the nearest number"); vf_reach("value"); return; }
  char b[160]; size_t n = 0; b[n++] = '[';
  if (mode == 1) {
    const char *t = T[vf_p(1)];
    unsigned x = vf_u8("digits"), marks = 0; for (const char *q = t; *q; q++) marks += *q == '#'; vf_assume(x < (marks > 1 ? 100u : 10u));
    for (; *t; t++) { if (*t == '#') { b[n++] = (char)('0' + (--marks ? x / 10 : x % 10)); } else b[n++] = *t; }
    int e = vf_p(2) + vf_p(4) * (vf_p(3) > 1 ? (int)vf_choice(vf_p(3), "exp") : 0);
    if (e) { b[n++] = 'e'; if (e < 0) { b[n++] = '-'; e = -e; } if (e > 99) b[n++] = '0' + e / 100; if (e > 9) b[n++] = '0' + e / 10 % 10; b[n++] = '0' + e % 10; }
  } else { int k = vf_p(1); for (int i = 0; i < k; i++) { char c = (char)vf_u8("char"); vf_assume(dig(c) || c == '.' || c == '-' || c == '+' || c == 'e' || c == 'E'); b[n++] = c; } }
  size_t len = n - 1; b[n++] = ']';
  char *d = (char *)malloc(n); memcpy(d, b, n);
  std::vector<F> w; JS::ParseContext c(d, n); JS::Error e = c.parseTo(w); vf_obs(e);
  Num q = readNum(d + 1, len);
  if (q.ok && q.json) vf_check(e == JS::Error::NoError && w.size() == 1, "a JSON number is accepted");
  if (!q.ok) { vf_check(e != JS::Error::NoError, "text that is not a number is an error"); vf_reach("rejected"); return; }
  if (e != JS::Error::NoError) return;
  U bits = bitsOf(w[0]); vf_obs(bits);
  vf_check(q.neg == (bool)(bits >> (MB + EB)), "sign"); bits &= ((U)1 << (MB + EB)) - 1;
  if (q.s == 0) vf_check(bits == 0, "zero"); else if (q.e > 400) vf_check(bits == (U)((1 << EB) - 1) << MB, "too large a number is infinite"); else if (q.e < -400) vf_check(bits == 0, "too small a number is zero"); else vf_check(nearest(q.s, q.e, bits), "the nearest number");
  vf_reach("value");
}
