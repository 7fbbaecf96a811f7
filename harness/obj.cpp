// C09: binding of object members to struct members. p0 members in the text, p1 name lengths (decimal digits, first member first; 0 = a known name chosen from the list), p2 value kinds allowed (bit mask), p3 white space
#include <json_struct/json_struct.h>
#include "vf.h"
struct Base { int base1 = -1; JS_OBJ(base1); };
struct In { int x = -1; JS_OBJ(x); };
struct S : Base {
  int aa = -1, b = -1, q = -1; In in; JS::Optional<int> o; int ab = -1;
  S() { o = -1; }
  JS_OBJECT_WITH_SUPER(JS_SUPER(Base), JS_MEMBER(aa), JS_MEMBER_ALIASES(b, "bee", "ab"), JS_MEMBER_WITH_NAME(q, "Q"), JS_MEMBER(in), JS_MEMBER(o), JS_MEMBER(ab));
};
static const char *KN[] = {"aa", "b", "bee", "ab", "Q", "in", "o", "base1", "q", "zz", "", "x"};
// member index: 0 aa, 1 b, 2 q, 3 in, 4 o, 5 ab, 6 base1; -1 unknown
static int lookup(const char *n, size_t l) {
  struct { const char *s; int m; } P[] = {{"aa", 0}, {"b", 1}, {"Q", 2}, {"in", 3}, {"o", 4}, {"ab", 5}, {"base1", 6}, {"bee", 1}};
  for (auto &p : P) if (strlen(p.s) == l && vf_eqmem(p.s, n, l)) return p.m;
  return -1;
}
extern "C" void vf_main() {
  int nm = vf_p(0), lens = vf_p(1), mask = vf_p(2), ws = vf_p(3);
  std::string t = ws ? " { " : "{"; struct M { std::string n; int k; int v; }; std::vector<M> ms;
  int div = 1; for (int i = 1; i < nm; i++) div *= 10;
  for (int i = 0; i < nm; i++, div /= 10) {
    M m; int l = lens / div % 10;
    if (l == 0) m.n = KN[vf_choice(12, "known name")];
    else { m.n.resize(l); vf_symbolic(&m.n[0], l, "name"); for (int j = 0; j < l; j++) { unsigned char c = (unsigned char)m.n[j]; vf_assume(c != '"' && c != '\\' && c != 0); } }
    do m.k = (int)vf_choice(8, "value kind"), vf_assume(mask >> m.k & 1); while (0);
    char d = (char)vf_u8("digit"); vf_assume(d >= '0' && d <= '9'); m.v = d - '0';
    if (i) t += ws ? " ,\n" : ","; t += '"'; t += m.n; t += ws ? "\" : " : "\":";
    switch (m.k) {
    case 0: t += d; break; case 1: t += "\"s\\\"}\""; break; case 2: t += "{\"x\":"; t += d; t += '}'; break; case 3: t += "[{\"aa\":7},\"]\",[[]],{}]"; break;
    case 4: t += "null"; break; case 5: t += "true"; break; case 6: t += "{\"aa\":{\"b\":[]},\"x\":5,\"y\":\"}\"}"; break; case 7: t += "{}"; break;
    }
    if (ws) t += ' '; ms.push_back(m);
  }
  t += ws ? "} " : "}";
  bool am = vf_choice(2, "allow_missing_members"), au = vf_choice(2, "allow_unasigned_required_members");
  // reference
  int val[8] = {-1, -1, -1, -1, -1, -1, -1, -1}; bool as[7] = {false, false, false, false, false, false, false}; JS::Error e = JS::Error::NoError; std::vector<std::string> miss, una; int bad = -1; // member whose value is of the wrong type
  for (auto &m : ms) {
    int k = lookup(m.n.data(), m.n.size());
    if (k < 0) { miss.push_back(m.n); if (!am) { e = JS::Error::MissingPropertyMember; break; } continue; }
    as[k] = true;
    if (k == 3) {
      if (m.k == 2) val[3] = m.v;
      else if (m.k == 6) { miss.push_back("aa"); if (!am) { e = JS::Error::UnknownPropertyMember; break; } val[3] = 5; miss.push_back("y"); }
      else if (m.k == 7) { una.push_back("x"); if (!au) { e = JS::Error::UnassignedRequiredMember; break; } }
      else { e = JS::Error::ExpectedObjectStart; break; }
    } else if (m.k == 0) val[k] = m.v; else { e = JS::Error::FailedToParseInt; bad = k; break; }
  }
  if (e == JS::Error::NoError) {
    static const char *N[] = {"aa", "b", "Q", "in", "o", "ab", "Base::base1"};
    bool any = false; for (int i = 0; i < 7; i++) if (!as[i] && i != 4) { any = true; una.push_back(N[i]); }
    if (any && !au) e = JS::Error::UnassignedRequiredMember;
  }
  char *p = (char *)malloc(t.size()); memcpy(p, t.data(), t.size());
  S s; JS::ParseContext c(p, t.size()); c.allow_missing_members = am; c.allow_unasigned_required_members = au;
  JS::Error r = c.parseTo(s);
  vf_check(r == e, "result"); vf_check(c.error == e, "error of the context");
  int got[7] = {s.aa, s.b, s.q, s.in.x, s.o.data, s.ab, s.base1}; for (int i = 0; i < 7; i++) if (i != bad) vf_check(got[i] == val[i], "each member gets the value that belongs to its name");
  vf_check(c.missing_members.size() == miss.size(), "unknown members are reported"); for (size_t i = 0; i < miss.size(); i++) vf_check(c.missing_members[i].size() == miss[i].size() && vf_eqmem(c.missing_members[i].data(), miss[i].data(), miss[i].size()), "name of an unknown member");
  vf_check(c.unassigned_required_members.size() == una.size(), "unassigned members are reported"); for (size_t i = 0; i < una.size(); i++) { bool f = false; for (auto &x : c.unassigned_required_members) f |= x == una[i]; vf_check(f, "name of an unassigned member"); }
  vf_obs(r); vf_obs(s.aa); vf_obs(s.b); vf_obs(s.in.x);
  if (r == JS::Error::NoError) vf_reach("parsed"); else vf_reach("rejected");
  if (r == JS::Error::NoError && as[0] && as[1] && as[3]) vf_reach("several");
  if (r != JS::Error::NoError) return;
  // and back
  for (int st = 0; st < 2; st++) {
    std::string o = JS::serializeStruct(s, JS::SerializerOptions(st ? JS::SerializerOptions::Compact : JS::SerializerOptions::Pretty)); S u; JS::ParseContext d(o); d.allow_missing_members = false; d.allow_unasigned_required_members = false;
    vf_check(d.parseTo(u) == JS::Error::NoError && d.missing_members.empty() && d.unassigned_required_members.empty(), "the serialized object has every member once, under its name");
    vf_check(u.aa == s.aa && u.b == s.b && u.q == s.q && u.ab == s.ab && u.base1 == s.base1 && u.o.data == s.o.data && u.in.x == s.in.x, "round trip");
  }
}
