// C09: bases with bases, external declarations, many members. p0 struct, p1 number of properties in the text
#include <json_struct/json_struct.h>
#include "vf.h"
#include <string>
#include <vector>
struct G { int g = -1, h = -1; JS_OBJ(g, h); };
struct A { int a = -1; JS_OBJ(a); };
struct B : G { int b = -1, b2 = -1; JS_OBJ_SUPER(JS_SUPER(G), b, b2); };
struct D : A, B { int d = -1; JS_OBJ_SUPER(JS_SUPER(A, B), d); };
struct E1 { int e = -1, ee = -1; };
struct E2 : E1 { int f = -1; JS::Optional<int> opt; E2() { opt = -1; } };
JS_OBJ_EXT(E1, e, ee)
JS_OBJ_EXT_SUPER(E2, JS_SUPER(E1), f, opt)
struct M { int m0 = -1, m1 = -1, m2 = -1, m3 = -1, m4 = -1, m5 = -1, m6 = -1, m7 = -1, m8 = -1, m9 = -1, m10 = -1, m11 = -1, m12 = -1, m13 = -1, m14 = -1, m15 = -1, m16 = -1;
  JS_OBJ(m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16); };
struct F { int p = -1, q = -1, r = -1; JS_OBJECT(JS_MEMBER_WITH_NAME_AND_ALIASES(p, "P", "pp", "ppp", "q"), JS_MEMBER(q), JS_MEMBER_ALIASES(r, "P", "rr")); };
struct Mem { const char *name, *una; int idx; };
template <class T> struct Info;
template <> struct Info<D> { enum { n = 6, names = 6 }; static int *at(D &x, int i) { int *m[] = {&x.d, &x.a, &x.b, &x.b2, &x.g, &x.h}; return m[i]; } static const Mem *mem() { static const Mem m[] = {{"d", "d", 0}, {"a", "A::a", 1}, {"b", "B::b", 2}, {"b2", "B::b2", 3}, {"g", "G::g", 4}, {"h", "G::h", 5}}; return m; } static bool opt(int) { return false; } };
template <> struct Info<E2> { enum { n = 4, names = 4 }; static int *at(E2 &x, int i) { int *m[] = {&x.f, &x.opt.data, &x.e, &x.ee}; return m[i]; } static const Mem *mem() { static const Mem m[] = {{"f", "f", 0}, {"opt", "opt", 1}, {"e", "E1::e", 2}, {"ee", "E1::ee", 3}}; return m; } static bool opt(int i) { return i == 1; } };
template <> struct Info<M> { enum { n = 17, names = 17 }; static int *at(M &x, int i) { return &x.m0 + i; } static const Mem *mem() { static const Mem m[] = {{"m0", "m0", 0}, {"m1", "m1", 1}, {"m2", "m2", 2}, {"m3", "m3", 3}, {"m4", "m4", 4}, {"m5", "m5", 5}, {"m6", "m6", 6}, {"m7", "m7", 7}, {"m8", "m8", 8}, {"m9", "m9", 9}, {"m10", "m10", 10}, {"m11", "m11", 11}, {"m12", "m12", 12}, {"m13", "m13", 13}, {"m14", "m14", 14}, {"m15", "m15", 15}, {"m16", "m16", 16}}; return m; } static bool opt(int) { return false; } };
template <> struct Info<F> { enum { n = 3, names = 7 }; static int *at(F &x, int i) { return &x.p + i; } static const Mem *mem() { static const Mem m[] = {{"P", "P", 0}, {"q", "q", 1}, {"r", "r", 2}, {"pp", "", 0}, {"ppp", "", 0}, {"rr", "", 2}, {"p", "", -1}}; return m; } static bool opt(int) { return false; } };
static size_t count(const std::string &s, const std::string &x) { size_t c = 0; for (size_t p = s.find(x); p != std::string::npos; p = s.find(x, p + 1)) c++; return c; }
template <class T> static void run() {
  typedef Info<T> I; int k = vf_p(1); std::string t = "{"; T x, w; bool as[20] = {}; const Mem *m = I::mem(); std::vector<std::string> miss; bool used[20] = {};
  for (int i = 0; i < k; i++) {
    int j = (int)vf_choice(I::names, "property"); vf_assume(!used[j]); used[j] = true; char d = (char)vf_u8("digit"); vf_assume(d >= '0' && d <= '9');
    if (i) t += ','; t += '"'; t += m[j].name; t += "\":"; t += d; if (m[j].idx < 0) { miss.push_back(m[j].name); continue; } *I::at(w, m[j].idx) = d - '0'; as[m[j].idx] = true;
  }
  t += "}"; bool au = vf_choice(2, "allow"); JS::ParseContext c(t); c.allow_unasigned_required_members = au; JS::Error e = c.parseTo(x); vf_obs(e);
  size_t una = 0; for (int i = 0; i < I::n; i++) if (!as[i] && !I::opt(i)) { una++; bool f = false; std::string want = m[i].una; for (auto &s : c.unassigned_required_members) { size_t q = s.rfind("::"); std::string tail = q == std::string::npos ? s : s.substr(q + 2); if (tail == m[i].name) f = true; } vf_check(f, "each member without a property is reported"); }
  vf_check(c.unassigned_required_members.size() == una, "only members without a property are reported"); vf_check(e == (una && !au ? JS::Error::UnassignedRequiredMember : JS::Error::NoError), "result"); vf_check(c.missing_members.size() == miss.size(), "unknown properties");
  for (int i = 0; i < I::n; i++) vf_check(*I::at(x, i) == *I::at(w, i), "each member gets the value of its property and the others are untouched");
  std::string o = JS::serializeStruct(w, JS::SerializerOptions(JS::SerializerOptions::Compact)); vf_observe(o.data(), o.size()); size_t len = 2 + I::n - 1;
  for (int i = 0; i < I::n; i++) { std::string p = std::string("\"") + m[i].name + "\":"; vf_check(count(o, p) == 1, "each member is written once"); size_t at = o.find(p) + p.size(); int v = *I::at(w, i); if (v < 0) vf_check(o[at] == '-' && o[at + 1] == '1', "value"); else vf_check(o[at] == '0' + v, "value"); len += p.size() + (v < 0 ? 2 : 1); }
  for (int i = 0; i + 1 < I::n; i++) { std::string a = m[i].una, b = m[i + 1].una; size_t p = a.find("::"), q = b.find("::"); if ((p == std::string::npos ? "" : a.substr(0, p)) != (q == std::string::npos ? "" : b.substr(0, q))) continue; vf_check(o.find(std::string("\"") + m[i].name + "\":") < o.find(std::string("\"") + m[i + 1].name + "\":"), "in declaration order"); }
  vf_check(o.size() == len && o[0] == '{' && o[o.size() - 1] == '}', "and nothing else"); vf_reach("struct");
  T y; JS::ParseContext b(o); vf_check(b.parseTo(y) == JS::Error::NoError && b.missing_members.empty() && b.unassigned_required_members.empty(), "own output"); for (int i = 0; i < I::n; i++) vf_check(*I::at(y, i) == *I::at(w, i), "round trip");
}
extern "C" void vf_main() { switch (vf_p(0)) { case 0: run<D>(); break; case 1: run<E2>(); break; case 2: run<M>(); break; case 3: run<F>(); break; } }
