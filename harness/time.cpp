// C20: std::chrono::time_point. p0 mode 0: text: p1 digits, p2 leading pattern, p3.. positions of arbitrary digits; 1: write and read back: p1 unit, p2 pattern, p3 shift of the arbitrary byte; 2: p1 arbitrary bytes
#define JS_STD_TIMEPOINT
#include <json_struct/json_struct.h>
#include "vf.h"
#include <string>
typedef std::chrono::system_clock::time_point TP;
struct S { int a = 1; TP t{std::chrono::nanoseconds{77}}; int b = 2; JS_OBJ(a, t, b); };
static int64_t ns(const TP &t) { return (int64_t)std::chrono::duration_cast<std::chrono::nanoseconds>(t.time_since_epoch()).count(); }
static const uint64_t E11 = 100000000000ull, E14 = E11 * 1000, E17 = E14 * 1000, MAX = 9223372036854775807ull;
// 0 error, 1 ok, 2 not claimed
static int want(uint64_t v, int64_t &o) { uint64_t f = v <= E11 ? 1000000000ull : v <= E14 ? 1000000ull : v <= E17 ? 1000ull : 1; if (f == 1) { if (v > MAX) return 2; o = (int64_t)v; return 1; } if (v > MAX / f) return 0; o = (int64_t)(v * f); return 1; }
static void read(const std::string &num, uint64_t v) {
  std::string t = "{\"a\":5,\"t\":" + num + ",\"b\":6}"; S s; JS::ParseContext c(t.data(), t.size()); JS::Error e = c.parseTo(s); vf_obs(e); int64_t o = 0, g = ns(s.t); vf_obs(g); int w = want(v, o); if (w == 2) return;
  vf_check((e == JS::Error::NoError) == (w == 1), "a time is accepted exactly when it fits"); if (w) { vf_check(g == o, "seconds, milliseconds, microseconds or nanoseconds by magnitude"); vf_check(s.a == 5 && s.b == 6, "the members around it"); vf_reach("time"); } else { vf_check(g == 77, "an error leaves it alone"); vf_reach("too large"); }
}
static void digits() {
  static const char *PAT[] = {"9999999999999999999", "1000000000000000000", "9223372036854775807", "1723456789012345678", "4611686018427387904"}; int n = vf_p(1); std::string num(PAT[vf_p(2)], n); int k = 0; uint8_t x = vf_u8("digit"); vf_assume(x < 100);
  for (int i = 0; i < n; i++) if (i == vf_p(3)) num[i] = (char)('0' + x / 10); else if (i == vf_p(4)) num[i] = (char)('0' + x % 10); (void)k;
  if (vf_p(3) == 0) vf_assume(x / 10 != 0); uint64_t v = 0; for (char ch : num) v = v * 10 + (uint64_t)(ch - '0'); read(num, v);
}
static void back() {
  static const int64_t U[] = {1, 1000, 1000000, 1000000000}, B[] = {100000000000000001, 1763446329123456789, 9223372036854775807 - 70000, 4611686018427387904, 1000000000000000000, 123456789000000000, 100000000000000000}; int u = vf_p(1); int64_t q = B[vf_p(2)] / U[u]; uint8_t y = vf_u8("part"); q ^= (int64_t)y << vf_p(3); if (q > (int64_t)(MAX / (uint64_t)U[u])) return; int64_t n = q * U[u]; if (n < 100000000000000000) return;
  S s; s.t = TP{std::chrono::nanoseconds{n}}; std::string t = JS::serializeStruct(s, JS::SerializerOptions(JS::SerializerOptions::Compact)); vf_observe(t.data(), t.size()); size_t d = 0; for (size_t i = 11; i < t.size() && t[i] != ','; i++) { d++; vf_check(t[i] >= '0' && t[i] <= '9', "a number"); } vf_check(d >= 1 && d <= 19, "a number"); S r; JS::ParseContext c(t); JS::Error e = c.parseTo(r); vf_check(e == JS::Error::NoError && ns(r.t) == n && r.a == 1 && r.b == 2, "writing and reading gives the same time"); vf_reach("round trip");
}
static void text() {
  int n = vf_p(1); std::string t = "{\"t\":"; size_t a = t.size(); t += std::string(n, '0') + "}"; vf_symbolic(&t[a], n, "text"); S s; JS::ParseContext c(t.data(), t.size()); JS::Error e = c.parseTo(s); vf_obs(e); int64_t g = ns(s.t); uint64_t v = 0; bool num = true; for (int i = 0; i < n; i++) if (t[a + i] < '0' || t[a + i] > '9') num = false; else v = v * 10 + (uint64_t)(t[a + i] - '0');
  if (num) { vf_check(e == JS::Error::NoError && g == (int64_t)(v * 1000000000ull), "seconds"); vf_reach("seconds"); } else if (e == JS::Error::FailedToParseInt) { vf_check(g == 77, "an error leaves it alone"); vf_reach("rejected"); }
}
extern "C" void vf_main() { if (vf_p(0) == 0) digits(); else if (vf_p(0) == 1) back(); else text(); }
