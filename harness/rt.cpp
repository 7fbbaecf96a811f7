// C21: values of composed types survive writing and reading. p0 which part varies, p1 transport (0 one buffer, 1 cut anywhere, 2 every byte its own buffer, 3 from tokens), p2 reuse (0 fresh objects, 1 the target holds another value, 2 second document of the same context, 3 the same after a document from tokens)
#define JS_STL_MAP
#define JS_STL_SET
#define JS_STL_ARRAY
#define JS_STD_OPTIONAL
#include <json_struct/json_struct.h>
#include "vf.h"
#include <string>
JS_ENUM(Col, red, green, dark_green)
JS_ENUM_DECLARE_STRING_PARSER(Col)
enum class Num { zero, one = 5, big = 70000 };
JS_ENUM_DECLARE_VALUE_PARSER(Num)
struct Leaf { int i = 1; std::string s = "l"; bool b = false; JS::OptionalChecked<int> o; JS_OBJ(i, s, b, o); bool operator==(const Leaf &x) const { return i == x.i && s.size() == x.s.size() && vf_eqmem(s.data(), x.s.data(), s.size()) && b == x.b && o.assigned == x.o.assigned && (!o.assigned || o.data == x.o.data); } };
struct Base { std::string name = "n"; Col col = Col::red; JS_OBJ(name, col); };
struct Base2 { int i = 4; unsigned char u = 7; JS_OBJECT(JS_MEMBER_WITH_NAME(i, "base i"), JS_MEMBER(u)); };
struct Top : Base, Base2 {
  std::vector<Leaf> leaves; std::map<std::string, std::vector<int>> m; std::unique_ptr<Leaf> p; std::optional<int> o; std::array<int, 2> a{{3, 4}}; std::tuple<int, std::string, bool> t{1, "t", true}; JS::NullableChecked<Leaf> n; JS::JsonObject raw; std::vector<std::vector<std::string>> vv; std::set<int> st; JS::OneOrMany<int> om; std::vector<bool> vb; std::shared_ptr<std::vector<Leaf>> sp; double d = 0.5; Num e = Num::zero; int64_t big = -5; std::map<std::string, Leaf> ml; JS::SilentString ss; int fa[2] = {8, 9};
  Top() { raw.data = "{}"; om.data.push_back(1); n.null = false; }
  JS_OBJ_SUPER(JS_SUPER(Base, Base2), leaves, m, p, o, a, t, n, raw, vv, st, om, vb, sp, d, e, big, ml, ss, fa);
};
static bool eqs(const std::string &a, const std::string &b) { return a.size() == b.size() && vf_eqmem(a.data(), b.data(), a.size()); }
static std::string str(size_t k) { std::string s(k, 'x'); if (k) vf_symbolic(&s[0], k, "chars"); return s; }
static int num() { signed char c = (signed char)vf_u8("int"); return c; }
static Leaf leaf() { Leaf l; l.i = num(); l.s = str(1); l.b = vf_choice(2, "bool"); if (vf_choice(2, "assigned")) l.o = 6; return l; }
static void vary(Top &x, int w) {
  switch (w) {
  case 0: for (unsigned k = vf_choice(3, "leaves"); k; k--) { Leaf l; l.s = str(1); l.b = k == 2; if (k == 1) l.o = 0; x.leaves.push_back(l); } x.name = str(1); break;
  case 1: for (unsigned k = vf_choice(3, "entries"); k; k--) { std::vector<int> v(vf_choice(3, "ints"), 5); if (v.size()) v[0] = num(); x.m[k == 1 ? "a" : "b\"\n"] = v; } break;
  case 2: { std::string k = str(2); x.m[k] = {1}; break; }
  case 3: if (vf_choice(2, "p")) x.p.reset(new Leaf(leaf())); break;
  case 4: x.n = leaf(); x.n.null = vf_choice(2, "null"); if (x.n.null) x.n.data = Leaf(); break;
  case 5: if (vf_choice(2, "o")) x.o = num(); x.a[1] = num(); break;
  case 6: { std::get<0>(x.t) = num(); std::get<1>(x.t) = str(1); std::get<2>(x.t) = vf_choice(2, "b"); break; }
  case 7: { static const char *R[] = {"{}", "{\"a\":[1,{\"b\":null}]}", "{\"\":{}}", "{ \"x\" : \"}\\\"\" }", "{\"a\": [ ] }"}; x.raw.data = R[vf_choice(vf_p(1) == 3 ? 3 : 5, "raw")]; x.ss = JS::SilentString(); x.ss.data = str(vf_choice(2, "ss")); break; }
  case 8: for (unsigned k = vf_choice(3, "rows"); k; k--) { x.vv.push_back({}); for (unsigned j = vf_choice(3, "cols"); j; j--) x.vv.back().push_back(j == 1 ? "\\" : ""); } x.name = str(1); break;
  case 9: for (unsigned k = vf_choice(4, "set"); k; k--) x.st.insert((int)k * 7 - 10); x.om.data.clear(); for (unsigned k = 1 + vf_choice(3, "many"); k; k--) x.om.data.push_back((int)k); break;
  case 10: for (unsigned k = vf_choice(4, "bools"); k; k--) x.vb.push_back(vf_choice(2, "bit")); break;
  case 11: if (vf_choice(2, "sp")) { x.sp.reset(new std::vector<Leaf>()); for (unsigned k = vf_choice(3, "n"); k; k--) { Leaf l; l.i = num(); x.sp->push_back(l); } } break;
  case 12: { static const double D[] = {0, 1, -2.5, 1e300, 5e-324, 0.1, 123456789.125, -1e-7, 1.7976931348623157e308, 3}; x.d = D[vf_choice(10, "d")]; static const Num N_[] = {Num::zero, Num::one, Num::big}; x.e = N_[vf_choice(3, "e")]; break; }
  case 13: { uint8_t q = vf_u8("big"); x.big = (int64_t)((uint64_t)q << 56) + 12345; x.i = num(); x.u = vf_u8("u"); break; }
  case 14: for (unsigned k = vf_choice(3, "ml"); k; k--) { Leaf l; l.i = num(); x.ml[k == 1 ? "" : "k"] = l; } x.col = vf_choice(2, "col") ? Col::dark_green : Col::green; break;
  case 15: x.fa[0] = num(); x.col = (Col)vf_choice(3, "col"); x.name = str(1); break;
  }
}
static bool same(const Top &a, const Top &b) {
  if (!(a.leaves == b.leaves) || !(a.m.size() == b.m.size()) || (a.p ? !b.p || !(*a.p == *b.p) : !!b.p) || a.o != b.o || a.a != b.a || std::get<0>(a.t) != std::get<0>(b.t) || !eqs(std::get<1>(a.t), std::get<1>(b.t)) || std::get<2>(a.t) != std::get<2>(b.t) || a.n.null != b.n.null || (!a.n.null && !(a.n.data == b.n.data)) || !eqs(a.raw.data, b.raw.data) || a.vv != b.vv || a.st != b.st || a.om.data != b.om.data || a.vb != b.vb) return false;
  for (auto i = a.m.begin(), j = b.m.begin(); i != a.m.end(); ++i, ++j) if (!eqs(i->first, j->first) || i->second != j->second) return false;
  if (a.sp ? !b.sp || !(*a.sp == *b.sp) : !!b.sp) return false; if (a.d != b.d || a.e != b.e || a.big != b.big || a.ml.size() != b.ml.size() || !eqs(a.ss.data, b.ss.data) || a.fa[0] != b.fa[0] || a.fa[1] != b.fa[1] || !eqs(a.name, b.name) || a.col != b.col || a.i != b.i || a.u != b.u) return false;
  for (auto i = a.ml.begin(), j = b.ml.begin(); i != a.ml.end(); ++i, ++j) if (!eqs(i->first, j->first) || !(i->second == j->second)) return false; return true;
}
static void other(Top &x) { x.leaves.resize(3); x.p.reset(new Leaf()); x.p->i = 99; x.o = 98; x.a = {{7, 7}}; x.t = std::make_tuple(9, std::string("zz"), false); x.n.data.i = 55; x.raw.data = "{\"old\":1}"; x.vv = {{"q"}, {}}; x.st = {1, 2, 3}; x.om.data = {4, 4}; x.vb = {true, true}; x.sp.reset(new std::vector<Leaf>(2)); x.d = 9; x.e = Num::big; x.big = 1; x.fa[0] = 0; x.name = "old"; x.col = Col::green; x.i = 0; x.u = 0; }
static std::vector<std::pair<char *, size_t>> chunks; static size_t nextc;
extern "C" void vf_main() {
  int w = vf_p(0), tr = vf_p(1), re = vf_p(2); Top x; vary(x, w); if (re == 1) { if (!x.o) x.o = 1; /* absent members keep what the target holds */ if (x.ss.data.empty()) x.ss.data = "v"; for (auto *l : {&x.leaves}) for (auto &k : *l) if (!k.o.assigned) k.o = 3; if (x.p && !x.p->o.assigned) x.p->o = 2; if (!x.n.data.o.assigned) x.n.data.o = 2; if (x.sp) for (auto &k : *x.sp) if (!k.o.assigned) k.o = 1; }
  bool pretty = vf_choice(2, "style"); std::string t = JS::serializeStruct(x, JS::SerializerOptions(pretty ? JS::SerializerOptions::Pretty : JS::SerializerOptions::Compact)); vf_observe(t.data(), t.size());
  Top y; if (re == 1) other(y); JS::Error e; JS::JsonTokens toks; JS::ParseContext c; if (re == 2) { static const char first[] = "{\"name\":\"f\",\"i\":[{}]} "; Top z; c.tokenizer.addData(first, sizeof(first) - 1); (void)(int)c.parseTo(z); c.missing_members.clear(); c.unassigned_required_members.clear(); }
  std::vector<JS::Token> ft; if (re == 3) { static const char first[] = "{\"name\":\"f\",\"base i\":7,\"zz\":[{}]}"; JS::ParseContext q(first, sizeof(first) - 1); JS::JsonTokens k; vf_check(q.parseTo(k) == JS::Error::NoError, "first tokens"); ft = k.data; Top z; c.tokenizer.addData(&ft); vf_check(c.parseTo(z) == JS::Error::NoError && z.i == 7, "first document"); c.missing_members.clear(); c.unassigned_required_members.clear(); }
  if (tr == 0) { c.tokenizer.addData(t.data(), t.size()); e = c.parseTo(y); }
  else if (tr == 3) { JS::ParseContext q(t); vf_check(q.parseTo(toks) == JS::Error::NoError, "tokens"); if (re == 3) c.tokenizer.addData(&toks.data); else c.tokenizer.resetData(&toks.data, 0); e = c.parseTo(y); }
  else { size_t cut = tr == 1 ? 1 + vf_choice((unsigned)(t.size() > 250 ? 250 : t.size() - 1), "cut") : 0; if (tr == 1 && t.size() > 250) cut += (size_t)vf_p(3); if (cut >= t.size()) return; for (size_t i = 0; i < t.size();) { size_t l = tr == 2 ? 1 : i == 0 ? cut : t.size() - i; char *d = (char *)malloc(l); memcpy(d, t.data() + i, l); chunks.push_back({d, l}); i += l; }
    std::function<void(const char *)> rel = [](const char *p) { for (auto &k : chunks) if (k.first == p) { free(k.first); k.first = nullptr; } }; c.tokenizer.setReleaseCallback(rel); c.tokenizer.setNeedMoreDataCallback([](JS::Tokenizer &k) { if (nextc < chunks.size()) { k.addData(chunks[nextc].first, chunks[nextc].second); nextc++; } }); e = c.parseTo(y); }
  vf_obs(e); vf_check(e == JS::Error::NoError, "what was written can be read"); vf_check(same(x, y), "the same value is read back"); vf_check(c.missing_members.empty(), "every member that is written is known"); vf_check(c.unassigned_required_members.empty(), "every required member is written");
  std::string u = JS::serializeStruct(y, JS::SerializerOptions(pretty ? JS::SerializerOptions::Pretty : JS::SerializerOptions::Compact)); vf_check(eqs(t, u), "and gives the same text"); vf_reach("round trip");
}
