// C10: an optional struct that holds a value takes the value of the text, not a mix. p0: text
#define JS_STD_OPTIONAL 1
#define JS_STL_MAP 1
#include <json_struct/json_struct.h>
#include "vf.h"
#include <optional>
#include <string>
struct P { int v = 1, w = 2; std::optional<int> q; std::string s = "d"; JS_OBJ(v, w, q, s); };
struct O { std::optional<P> o; int k = 3; JS_OBJ(o, k); };
extern "C" void vf_main() {
  static const char *T[] = {"{\"o\":{\"v\":#}}", "{\"o\":{\"w\":#,\"s\":\"x\"},\"k\":4}", "{\"o\":{}}", "{\"o\":{\"q\":#}}", "{\"k\":#}", "{\"o\":{\"s\":\"#\"}}"};
  int t = vf_p(0); std::string s = T[t]; size_t at = s.find('#'); unsigned char c = '0'; if (at != std::string::npos) { vf_symbolic(&c, 1, "digit"); vf_assume(c >= '0' && c <= '9'); s[at] = (char)c; }
  O a; if (vf_choice(2, "held")) { P p; p.v = 7; p.w = 8; p.q = 9; p.s = "old"; a.o = p; } bool held = a.o.has_value();
  char *d = (char *)malloc(s.size()); memcpy(d, s.data(), s.size()); JS::ParseContext x(d, s.size()); JS::Error e = x.parseTo(a); vf_check(e == JS::Error::NoError, "parsed"); int dg = c - '0'; vf_reach(held ? "held" : "empty");
  if (t == 4) { vf_check(a.o.has_value() == held && a.k == dg, "absent: untouched"); if (held) vf_check(a.o->v == 7 && a.o->w == 8 && a.o->q == 9 && a.o->s == "old", "untouched"); return; }
  vf_check(a.o.has_value(), "set"); vf_check(a.o->v == (t == 0 ? dg : 1) && a.o->w == (t == 1 ? dg : 2), "the value of the text"); vf_check(t == 3 ? a.o->q.has_value() && *a.o->q == dg : !a.o->q.has_value(), "the value of the text, inner"); vf_check(a.o->s.size() == 1 && a.o->s[0] == (t == 5 ? (char)c : t == 1 ? 'x' : 'd'), "string"); vf_check(a.k == (t == 1 ? 4 : 3), "others");
}
