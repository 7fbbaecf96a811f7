// C09: names. p0: which name the text has, p1: how many arbitrary bytes at the end of it (negative: at the start), p2: bytes cut (+: added) at the end
#include <json_struct/json_struct.h>
#include "vf.h"
#include <string>
struct S {
  int a_long_name_of_a_member_with_an_end_x1 = 0, a_long_name_of_a_member_with_an_end_x2 = 0, a_long_name_of_a_member = 0, b_long_name_of_a_member = 0, ab = 0, abcdefgh = 0, abcdefgi = 0, many = 0, few = 0, c = 0, nn = 0;
  JS_OBJECT(JS_MEMBER(a_long_name_of_a_member_with_an_end_x1), JS_MEMBER(a_long_name_of_a_member_with_an_end_x2), JS_MEMBER(a_long_name_of_a_member), JS_MEMBER(b_long_name_of_a_member), JS_MEMBER(ab), JS_MEMBER(abcdefgh), JS_MEMBER(abcdefgi), JS_MEMBER_ALIASES(many, "al1", "al2", "al3", "al4", "al5", "abcdefg"), JS_MEMBER_WITH_NAME_AND_ALIASES(few, "f w", "few2", "few3", "few4", "few5", "f"), JS_MEMBER(c), JS_MEMBER_WITH_NAME(nn, "n\xc3\xb8n n"));
};
static const struct { const char *n; int S::*m; } NM[] = {{"a_long_name_of_a_member_with_an_end_x1", &S::a_long_name_of_a_member_with_an_end_x1}, {"a_long_name_of_a_member_with_an_end_x2", &S::a_long_name_of_a_member_with_an_end_x2}, {"a_long_name_of_a_member", &S::a_long_name_of_a_member}, {"b_long_name_of_a_member", &S::b_long_name_of_a_member}, {"ab", &S::ab}, {"abcdefgh", &S::abcdefgh}, {"abcdefgi", &S::abcdefgi},
  {"many", &S::many}, {"al1", &S::many}, {"al2", &S::many}, {"al3", &S::many}, {"al4", &S::many}, {"al5", &S::many}, {"abcdefg", &S::many}, {"f w", &S::few}, {"few2", &S::few}, {"few3", &S::few}, {"few4", &S::few}, {"few5", &S::few}, {"f", &S::few}, {"c", &S::c}, {"n\xc3\xb8n n", &S::nn}};
extern "C" void vf_main() {
  int at = vf_p(1), cut = vf_p(2); std::string n = NM[vf_p(0)].n; if (cut < 0) n.resize(n.size() + cut); else n.append(cut, 'z');
  size_t l = n.size(), k = at < 0 ? -at : at, w = at < 0 ? 0 : l - k; char *d = (char *)malloc(l + 6); d[0] = '{'; d[1] = '"'; memcpy(d + 2, n.data(), l); vf_symbolic(d + 2 + w, k, "name"); for (size_t i = 0; i < k; i++) { unsigned char c = d[2 + w + i]; vf_assume(c >= 32 && c != '"' && c != '\\'); } memcpy(d + 2 + l, "\":7}", 4);
  JS::ParseContext c(d, l + 6); S s; JS::Error e = c.parseTo(s); vf_obs(e); vf_check(e == JS::Error::NoError, "parsed"); int S::*m = nullptr;
  for (auto &x : NM) { if (strlen(x.n) == l && vf_eqmem(x.n, d + 2, l)) { m = x.m; break; } }
  vf_reach(m ? "known" : "unknown"); for (auto &x : NM) vf_check(s.*(x.m) == (x.m == m ? 7 : 0), "a property is assigned by its own names only"); vf_check(c.missing_members.size() == (m ? 0u : 1u), "a member without a property is reported"); if (!m) vf_check(c.missing_members[0].size() == l && vf_eqmem(c.missing_members[0].data(), d + 2, l), "by its name"); vf_check(c.unassigned_required_members.size() == (m ? 10u : 11u), "the properties not assigned are reported");
}
