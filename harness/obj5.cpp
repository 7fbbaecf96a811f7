// C09: structs with many members, described outside. p0: text, p1: option
#include <json_struct/json_struct.h>
#include "vf.h"
#include <string>
#define D10(x) x##0, x##1, x##2, x##3, x##4, x##5, x##6, x##7, x##8, x##9
#define M1(x) JS_MEMBER(x)
#define M10(x) M1(x##0), M1(x##1), M1(x##2), M1(x##3), M1(x##4), M1(x##5), M1(x##6), M1(x##7), M1(x##8), M1(x##9)
#define Z10(x) x##0 = 0, x##1 = 0, x##2 = 0, x##3 = 0, x##4 = 0, x##5 = 0, x##6 = 0, x##7 = 0, x##8 = 0, x##9 = 0
struct Base0 { int Z10(p0), Z10(p1); };
struct Base1 : Base0 { int q = 0, Z10(q1); };
struct Other { int o = 0; int shared = 0; };
struct Big : Base1, Other { int Z10(m0), Z10(m1), Z10(m2), Z10(m3), Z10(m4), Z10(m5), Z10(m6); };
JS_OBJECT_EXTERNAL(Base0, M10(p0), M10(p1))
JS_OBJECT_EXTERNAL_WITH_SUPER(Base1, JS_SUPER(Base0), JS_MEMBER(q), M10(q1))
JS_OBJECT_EXTERNAL(Other, JS_MEMBER_ALIASES(o, "oo", "m77"), JS_MEMBER_WITH_NAME(shared, "m70"))
JS_OBJECT_EXTERNAL_WITH_SUPER(Big, JS_SUPER_CLASSES(JS_SUPER_CLASS(Base1), JS_SUPER_CLASS(Other)), M10(m0), M10(m1), M10(m2), M10(m3), M10(m4), M10(m5), M10(m6))
static int count(const Big &b) { int n = 0; const int *p = &b.p00; for (int i = 0; i < 20; i++) n += p[i] != 0; p = &b.q; for (int i = 0; i < 11; i++) n += p[i] != 0; n += (b.o != 0) + (b.shared != 0); p = &b.m00; for (int i = 0; i < 70; i++) n += p[i] != 0; return n; }
static const int *where(const Big &b, const char *n, size_t l) { if (l == 3 && n[0] == 'm' && n[1] >= '0' && n[1] <= '6' && n[2] >= '0' && n[2] <= '9') return &b.m00 + (n[1] - '0') * 10 + (n[2] - '0'); if (l == 3 && n[0] == 'p' && (n[1] == '0' || n[1] == '1') && n[2] >= '0' && n[2] <= '9') return &b.p00 + (n[1] - '0') * 10 + (n[2] - '0'); if (l == 3 && n[0] == 'q' && n[1] == '1' && n[2] >= '0' && n[2] <= '9') return &b.q10 + (n[2] - '0'); if (l == 1 && n[0] == 'q') return &b.q; if (l == 1 && n[0] == 'o') return &b.o; if (l == 2 && n[0] == 'o' && n[1] == 'o') return &b.o; if (l == 3 && n[0] == 'm' && n[1] == '7' && n[2] == '7') return &b.o; if (l == 3 && n[0] == 'm' && n[1] == '7' && n[2] == '0') return &b.shared; return nullptr; }
extern "C" void vf_main() {
  static const char *P[] = {"m", "p", "q", "", "o"}; int n = vf_p(1); std::string t = "{\"m33\":0,\""; t += P[vf_p(0)]; size_t s = 10, at = t.size(); t.resize(at + n); if (n) vf_symbolic(&t[at], n, "name"); for (int i = 0; i < n; i++) vf_assume((unsigned char)t[at + i] >= 32 && t[at + i] != '"' && t[at + i] != '\\'); size_t e = t.size(); t += "\":7,\"m00\":0}";
  char *d = (char *)malloc(t.size()); memcpy(d, t.data(), t.size()); Big b; JS::ParseContext c(d, t.size()); JS::Error r = c.parseTo(b); vf_obs(r); vf_check(r == JS::Error::NoError, "parsed"); const int *w = where(b, d + s, e - s);
  if (w) { vf_check(*w == 7 || w == &b.m00, "the member of that name is assigned"); vf_check(count(b) == (w == &b.m00 ? 0 : 1), "and no other"); vf_check(c.missing_members.empty(), "nothing unknown"); vf_reach("known"); } else { vf_check(count(b) == 0, "no member is assigned"); vf_check(c.missing_members.size() == 1 && c.missing_members[0].size() == e - s, "the unknown name is reported"); vf_reach("unknown"); }
  vf_check(c.unassigned_required_members.size() == 103u - 2u - ((w && w != &b.m00 && w != &b.m33) ? 1u : 0u), "all others are reported as unassigned");
  if (w && vf_p(2)) { Big z; std::string o = JS::serializeStruct(b, JS::SerializerOptions(JS::SerializerOptions::Compact)); JS::ParseContext c2(o); vf_check(c2.parseTo(z) == JS::Error::NoError && c2.missing_members.empty() && c2.unassigned_required_members.empty(), "every member is written"); const int *w2 = &z.m00 + (w - &b.m00); bool in = w >= &b.m00 && w < &b.m00 + 70; vf_check(count(z) == count(b) && (!in || *w2 == *w), "and read back"); }
}
