// C13: enums. p0 mode, p1 enum, p2 arbitrary bytes
#include <json_struct/json_struct.h>
#include "vf.h"
JS_ENUM(Color, red, green, blue_2, r, re, _x, GREEN,
        last)
JS_ENUM_DECLARE_STRING_PARSER(Color)
namespace ns { JS_ENUM(Kind, a, bb , c3) }
JS_ENUM_NAMESPACE_DECLARE_STRING_PARSER(ns, Kind)
JS_ENUM(One, only)
JS_ENUM_DECLARE_STRING_PARSER(One)
enum class Val : short { A = 1, B = 100, C = -7 };
JS_ENUM_DECLARE_VALUE_PARSER(Val)
namespace ns { enum class Val8 : unsigned char { Z = 0, Y = 255 }; }
JS_ENUM_NAMESPACE_DECLARE_VALUE_PARSER(ns, Val8)
// 300 enumerators, and names of every kind
#define D10(x) x##0, x##1, x##2, x##3, x##4, x##5, x##6, x##7, x##8, x##9
#define D100(x) D10(x##0), D10(x##1), D10(x##2), D10(x##3), D10(x##4), D10(x##5), D10(x##6), D10(x##7), D10(x##8), D10(x##9)
#define MKENUM(n, ...) JS_ENUM(n, __VA_ARGS__)
MKENUM(Big, D100(a), D100(Zz), D100(a_long_name_of_an_enumerator_of_this_enum_))
JS_ENUM_DECLARE_STRING_PARSER(Big)
JS_ENUM(Mix, A, Z, z, a, a_long_name_that_goes_on_and_on_for_more_than_32_1, a_long_name_that_goes_on_and_on_for_more_than_32_2, a_long_name_that_goes_on_and_on_for_more, __, _0, x9, xyz09, xyz0)
JS_ENUM_DECLARE_STRING_PARSER(Mix)
static const char *N4[] = {"A", "Z", "z", "a", "a_long_name_that_goes_on_and_on_for_more_than_32_1", "a_long_name_that_goes_on_and_on_for_more_than_32_2", "a_long_name_that_goes_on_and_on_for_more", "__", "_0", "x9", "xyz09", "xyz0"};
static std::string bigName(int i) { static const char *B[] = {"a", "Zz", "a_long_name_of_an_enumerator_of_this_enum_"}; return B[i / 100] + std::string(1, (char)('0' + i / 10 % 10)) + (char)('0' + i % 10); }
template <class E> struct Keep { E e, f; int after = 0; JS_OBJ(e, f, after); };
template <class E> static void one(const std::string &text, int want) {
  std::string t = "{\"e\":" + text + ",\"f\":0,\"after\":5}"; char *d = (char *)malloc(t.size()); memcpy(d, t.data(), t.size()); Keep<E> h; h.e = (E)3; h.f = (E)1; JS::ParseContext c(d, t.size()); JS::Error r = c.parseTo(h); vf_obs(r);
  if (want >= 0) { vf_check(r == JS::Error::NoError && (int)h.e == want && (int)h.f == 0 && h.after == 5, "a name or number of the enum is accepted"); vf_reach("accepted"); } else { vf_check(r == JS::Error::IllegalDataValue && (int)h.e == 3, "anything else is rejected and leaves the enum alone"); vf_reach("rejected"); }
}
static void more() {
  int m = vf_p(1);
  if (m == 0) { int i = (int)vf_choice(300, "value"); std::vector<Big> v(2, (Big)i), w; std::string o = JS::serializeStruct(v, JS::SerializerOptions(JS::SerializerOptions::Compact)); vf_check(o == "[\"" + bigName(i) + "\",\"" + bigName(i) + "\"]", "an enum is written as its name"); JS::ParseContext c(o); vf_check(c.parseTo(w) == JS::Error::NoError && w == v, "round trip"); vf_reach("written"); return; }
  if (m == 1) { static const char *P[] = {"", "1", "2", "3", "12", "42949672", "42949673", "429496729600", "184467440737095516", "922337203685477580"}; unsigned char q; vf_symbolic(&q, 1, "digits"); vf_assume(q < 100); std::string t = P[vf_p(2)]; if (t.empty() && q < 10) t += (char)('0' + q); else { t += (char)('0' + q / 10); t += (char)('0' + q % 10); } int want = vf_p(2) < 3 ? vf_p(2) * 100 + q : -1; one<Big>(t, want); return; }
  if (m == 2) { static const char *P[] = {"a", "Zz", "a_long_name_of_an_enumerator_of_this_enum_"}; std::string t = P[vf_p(2)]; size_t l = t.size(); t.resize(l + vf_p(3)); vf_symbolic(&t[l], vf_p(3), "end"); for (int i = 0; i < vf_p(3); i++) vf_assume((unsigned char)t[l + i] >= 32 && t[l + i] != '"' && t[l + i] != '\\'); int want = vf_p(3) == 2 && t[l] >= '0' && t[l] <= '9' && t[l + 1] >= '0' && t[l + 1] <= '9' ? vf_p(2) * 100 + (t[l] - '0') * 10 + (t[l + 1] - '0') : -1; one<Big>('"' + t + '"', want); return; }
  if (m == 3) { std::string t = N4[vf_p(2)]; int at = vf_p(3); if (at < 0) t.resize(t.size() + at); else if (at > 0) t += 'q'; size_t l = t.size(); if (l) { vf_symbolic(&t[l - 1], 1, "last"); vf_assume((unsigned char)t[l - 1] >= 32 && t[l - 1] != '"' && t[l - 1] != '\\'); } int want = -1; for (int i = 0; i < 12; i++) if (strlen(N4[i]) == l && vf_eqmem(N4[i], t.data(), l)) { want = i; break; } one<Mix>('"' + t + '"', want); return; }
}
static const char *N0[] = {"red", "green", "blue_2", "r", "re", "_x", "GREEN", "last"}, *N1[] = {"a", "bb", "c3"}, *N2[] = {"only"};
template <class E> struct Holder { E e; int after = 0; JS_OBJ(e, after); };
template <class E> static void run(const char **names, int cnt) {
  int mode = vf_p(0), n = vf_p(2);
  if (mode == 3) {
    int i = (int)vf_choice(cnt, "value"); std::vector<E> v; v.push_back((E)i); v.push_back((E)i); std::string o = JS::serializeStruct(v, JS::SerializerOptions(JS::SerializerOptions::Compact));
    std::string e = std::string("[\"") + names[i] + "\",\"" + names[i] + "\"]"; vf_check(o == e, "an enum is written as its name"); std::vector<E> w; JS::ParseContext c(o); vf_check(c.parseTo(w) == JS::Error::NoError && w == v, "round trip"); vf_reach("written"); vf_obs(i); return;
  }
  std::string t = "{\"e\":"; size_t p = 0;
  if (mode == 0) { t += '"'; p = t.size(); t.resize(p + n); if (n) vf_symbolic(&t[p], n, "name"); for (int i = 0; i < n; i++) vf_assume(t[p + i] != '"' && t[p + i] != '\\' && t[p + i] != 0); t += '"'; }
  else if (mode == 1) { p = t.size(); if (vf_p(3)) t += '-'; size_t q = t.size(); t.resize(q + n); vf_symbolic(&t[q], n, "digits"); for (int i = 0; i < n; i++) vf_assume(t[q + i] >= '0' && t[q + i] <= '9'); }
  else { static const char *O[] = {"true", "null", "{}", "[]", "[0]", "{\"a\":0}", "false"}; t += O[vf_choice(7, "other")]; }
  size_t pe = t.size(); t += ",\"after\":5}";
  int want = -1;
  if (mode == 0) for (int i = 0; i < cnt; i++) if (strlen(names[i]) == (size_t)n && vf_eqmem(names[i], &t[p], n)) { want = i; break; }
  if (mode == 1) { long x = 0; for (size_t i = p; i < pe; i++) if (t[i] != '-') x = x * 10 + (t[i] - '0'); if (vf_p(3)) x = -x; if (x >= 0 && x < cnt) want = (int)x; }
  char *d = (char *)malloc(t.size()); memcpy(d, t.data(), t.size());
  Holder<E> h; h.e = (E)0; JS::ParseContext c(d, t.size()); JS::Error r = c.parseTo(h); vf_obs(r);
  if (want >= 0) { vf_check(r == JS::Error::NoError, "a name or number of the enum is accepted"); vf_check((int)h.e == want, "enum value"); vf_check(h.after == 5, "the following member is parsed"); vf_reach("accepted"); }
  else { vf_check(r != JS::Error::NoError, "anything else is rejected"); if (mode != 2) vf_check(r == JS::Error::IllegalDataValue, "error code"); vf_check((int)h.e == 0, "a rejected value leaves the enum alone"); vf_reach("rejected"); }
}
template <class E, class U> static void value(long lo, long hi) {
  int n = vf_p(2); std::string t = "["; if (vf_p(3)) t += '-'; size_t q = t.size(); t.resize(q + n); vf_symbolic(&t[q], n, "digits"); for (int i = 0; i < n; i++) vf_assume(t[q + i] >= '0' && t[q + i] <= '9'); if (n > 1 || vf_p(3)) vf_assume(t[q] != '0'); t += ']';
  long x = 0; for (int i = 0; i < n; i++) x = x * 10 + (t[q + i] - '0'); if (vf_p(3)) x = -x;
  if (x < lo || x > hi) { vf_reach("out of range"); return; }
  std::vector<E> v; JS::ParseContext c(t); vf_check(c.parseTo(v) == JS::Error::NoError && v.size() == 1, "a number is accepted"); vf_check((long)(U)v[0] == x, "value");
  std::string o = JS::serializeStruct(v, JS::SerializerOptions(JS::SerializerOptions::Compact)); vf_check(o.size() == t.size() && vf_eqmem(o.data(), t.data(), t.size()), "written as the number"); vf_observe(o.data(), o.size()); vf_reach("number");
}
extern "C" void vf_main() {
  if (vf_p(0) == 5) { more(); return; }
  if (vf_p(0) == 4) { if (vf_p(1) == 0) value<Val, short>(-32768, 32767); else value<ns::Val8, unsigned char>(0, 255); return; }
  switch (vf_p(1)) { case 0: run<Color>(N0, 8); break; case 1: run<ns::Kind>(N1, 3); break; case 2: run<One>(N2, 1); break; }
}
