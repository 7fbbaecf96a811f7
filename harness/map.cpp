// C14: JS::Map as a dictionary. p0 mode, 0: history (p1 start, p2 operations, p3 palette), 1: arbitrary text (p1 bytes, p2 prefix, p3 suffix, p4 bytes of the wanted name)
#include <json_struct/json_struct.h>
#include "vf.h"
#include "reftok.h"
#include <string>
#include <vector>
typedef std::vector<std::pair<std::string, std::string>> Model; // name, compact text of the value
struct Inner { int x = 4; std::vector<int> y; JS_OBJ(x, y); };
struct Outer { Inner in; int k = 7; JS_OBJ(in, k); };
static std::string esc(const std::string &s) {
  std::string o; static const char *hx = "0123456789abcdef";
  for (char ch : s) { unsigned char c = (unsigned char)ch;
    if (c == '"' || c == '\\') { o += '\\'; o += ch; } else if (c == 8) o += "\\b"; else if (c == 9) o += "\\t"; else if (c == 10) o += "\\n"; else if (c == 12) o += "\\f"; else if (c == 13) o += "\\r";
    else if (c < 32) { o += "\\u00"; o += hx[c >> 4]; o += hx[c & 15]; } else o += ch; }
  return o;
}
static std::string text(const Model &m) { std::string o = "{"; for (size_t i = 0; i < m.size(); i++) { if (i) o += ','; o += '"'; o += esc(m[i].first); o += "\":"; o += m[i].second; } return o + "}"; }
static bool same(const std::string &a, const std::string &b) { return a.size() == b.size() && vf_eqmem(a.data(), b.data(), a.size()); }
static int at(const Model &m, const std::string &n) { for (size_t i = 0; i < m.size(); i++) if (same(m[i].first, n)) return (int)i; return -1; }
static bool isint(const std::string &s) { return s.size() && ((s[0] >= '0' && s[0] <= '9') || s[0] == '-'); }
static void verify(const JS::Map &map, const Model &m, JS::ParseContext &pc, const std::vector<std::string> &names) {
  std::string o = JS::serializeStruct(map, JS::SerializerOptions(JS::SerializerOptions::Compact)); vf_check(same(o, text(m)), "the written text has exactly the entries"); vf_observe(o.data(), o.size());
  size_t i = 0; JS::Map::It it = map.begin(), e = map.end();
  for (; it != e && i <= m.size(); ++it, i++) {
    if (i == m.size()) { vf_check(it->value_type == JS::Type::ObjectEnd, "only the closing token follows the entries"); continue; }
    std::string raw(it->name.data, it->name.size); vf_check(same(raw, esc(m[i].first)), "iteration visits the entries in order"); vf_check(m[i].second == "\"\"" ? it->value.size == 0 : it->value.size >= 1 && *(it->value_type == JS::Type::String ? m[i].second.data() + 1 : m[i].second.data()) == *it->value.data, "with their values");
  }
  vf_check(it == e, "iteration ends");
  for (auto &n : names) {
    int w = at(m, n); JS::Map::It f = map.find(n);
    if (w < 0) { vf_check(f == map.end(), "a name that is not there is not found"); int v = 5; if (map.tokens.data.size()) { JS::Error er = map.castToType(n, pc, v); vf_check(er == JS::Error::KeyNotFound && pc.error == er, "error for a missing key"); } vf_check(v == 5, "target untouched"); continue; }
    vf_check(f != map.end(), "a name that is there is found");
    const std::string &val = m[w].second; int v = map.castTo<int>(n, pc);
    if (isint(val)) { long ref = 0; for (char ch : val) ref = ref * 10 + (ch - '0'); vf_check(pc.error == JS::Error::NoError && v == ref, "number value"); }
    else if (val[0] != '"') vf_check(pc.error != JS::Error::NoError, "a value of another type is reported");
    if (val[0] == '"') { std::string s = map.castTo<std::string>(n, pc); vf_check(pc.error == JS::Error::NoError && s.size() + 2 == val.size() && vf_eqmem(s.data(), val.data() + 1, s.size()), "string value"); }
    if (val[0] == '[' && val[1] != '[') { std::vector<int> s = map.castTo<std::vector<int>>(n, pc); vf_check(pc.error == JS::Error::NoError, "array value"); std::string r = JS::serializeStruct(s, JS::SerializerOptions(JS::SerializerOptions::Compact)); vf_check(r == val, "array elements"); }
    if (val == "{\"x\":4,\"y\":[8]}" || val == "{\"x\":4,\"y\":[]}") { Inner s = map.castTo<Inner>(n, pc); vf_check(pc.error == JS::Error::NoError && s.x == 4 && s.y.size() == (val.size() == 15 ? 1u : 0u), "struct value"); }
    vf_reach("found");
  }
  auto fresh = JS::metaForTokens(map.tokens); vf_check(fresh.size() == map.meta.size(), "meta count");
  for (size_t k = 0; k < fresh.size(); k++) vf_check(fresh[k].position == map.meta[k].position && fresh[k].size == map.meta[k].size && fresh[k].skip == map.meta[k].skip && fresh[k].children == map.meta[k].children && fresh[k].complex_children == map.meta[k].complex_children && fresh[k].is_array == map.meta[k].is_array, "meta data describes the tokens");
}
static void history() {
  static const char *START[] = {"", "{}", "{\"a\":1}", "{\"a\":1,\"b\":[1,2],\"cc\":{\"x\":4,\"y\":[8]},\"d\":\"s\"}", "{\"b\":{\"a\":{\"b\":[]}},\"a\":[[],[{}]],\"d\":3}", "{\"cc\":\"\",\"a\":{\"x\":4,\"y\":[]},\"b\":null}"};
  static const char *NV[][8] = {{}, {}, {"a", "1"}, {"a", "1", "b", "[1,2]", "cc", "{\"x\":4,\"y\":[8]}", "d", "\"s\""}, {"b", "{\"a\":{\"b\":[]}}", "a", "[[],[{}]]", "d", "3"}, {"cc", "\"\"", "a", "{\"x\":4,\"y\":[]}", "b", "null"}};
  int st = vf_p(1), ops = vf_p(2), pal = vf_p(3); JS::Map map; Model m; std::string src = st < 6 ? START[st] : "", src2 = "{\"b\":[1],\"a\":\"t\",\"e\":{}}";
  if (st == 6) { JS::ParseContext q; map.setValue("a", q, std::vector<int>{1, 2, 3}); map.setValue("b", q, std::string("bbbb")); Inner in; map.setValue("cc", q, in); map.setValue("d", q, std::string("dd")); m = {{"a", "[1,2,3]"}, {"b", "\"bbbb\""}, {"cc", "{\"x\":4,\"y\":[]}"}, {"d", "\"dd\""}}; }
  else if (st) { JS::ParseContext c(src); vf_check(c.parseTo(map) == JS::Error::NoError, "start text parses"); for (int i = 0; i < 8 && NV[st][i]; i += 2) m.push_back({NV[st][i], NV[st][i + 1]}); }
  JS::ParseContext pc; std::vector<std::string> names = {"a", "b", "d", ""}; if (pal == 0) names[3] = "cc"; if (pal == 4) names = {"a", "b", "cc", "d"};
  if (pal == 2) { std::string s(2, 'a'); vf_symbolic(&s[0], 2, "name"); names = {s, "a", "b"}; }
  for (int k = 0; k < ops; k++) {
    std::string n = names[pal == 2 ? (k == 0 ? 0 : vf_choice(3, "which")) : vf_choice(pal == 3 ? 2 : pal == 4 ? 3 : 4, "name")]; int kind; static const int K3[] = {0, 1, 3, 6}; if (pal == 3) kind = K3[vf_choice(4, "kind")]; else kind = (int)vf_choice(pal == 4 ? 2 : 6, "kind"); std::string val; JS::Error e;
    if (kind == 6) { if (n != "a") return; JS::ParseContext c(src2); vf_check(c.parseTo(map) == JS::Error::NoError, "the next text parses"); m = {{"b", "[1]"}, {"a", "\"t\""}, {"e", "{}"}}; vf_reach("reparsed"); continue; }
    if (kind == 0) { e = map.setValue(n, pc, 40 + k); val = std::to_string(40 + k); }
    else if (kind == 1) { e = map.setValue(n, pc, std::string("v" + std::to_string(k))); val = "\"v" + std::to_string(k) + "\""; }
    else if (kind == 2) { e = map.setValue(n, pc, std::vector<int>{k, 9}); val = "[" + std::to_string(k) + ",9]"; }
    else if (kind == 3) { Inner in; in.y.push_back(8); e = map.setValue(n, pc, in); val = "{\"x\":4,\"y\":[8]}"; }
    else if (kind == 4) { Outer ou; e = map.setValue(n, pc, ou); val = "{\"in\":{\"x\":4,\"y\":[]},\"k\":7}"; }
    else { JS::OptionalChecked<int> none; e = map.setValue(n, pc, none); }
    vf_check(e == JS::Error::NoError, "setValue succeeds");
    int w = at(m, n); if (w >= 0) m.erase(m.begin() + w); if (kind != 5) m.push_back({n, val});
    vf_reach(w >= 0 ? "replaced" : "added");
  }
  verify(map, m, pc, names);
  if (ops == 1) { Outer ou; vf_check(map.setValue(pc, ou) == JS::Error::NoError, "whole object"); Model w = {{"in", "{\"x\":4,\"y\":[]}"}, {"k", "7"}}; verify(map, w, pc, names); Outer back; vf_check(map.castToType(pc, back) == JS::Error::NoError && back.k == 7, "whole object back"); }
}
static void arbitrary() {
  static const char *PRE[] = {"", "{\"a\":1,", "{\"a\":[1,{}],\"", "{\"", "[", "{\"a\":{\"b\":", "{\"a\\u0062\":1,\""}, *SUF[] = {"", "}", "\":2}", ",\"a\":3}", "\":{}}", "]", "},\"c\":1}"};
  int n = vf_p(1), wn = vf_p(4); const char *pre = PRE[vf_p(2)], *suf = SUF[vf_p(3)]; size_t a = strlen(pre), b = strlen(suf), len = a + n + b; char *d = (char *)malloc(len + 1); memcpy(d, pre, a); vf_symbolic(d + a, n, "json"); memcpy(d + a + n, suf, b);
  std::string want(wn, 'a'); if (wn) vf_symbolic(&want[0], wn, "want"); for (int i = 0; i < wn; i++) vf_assume(want[i] != '\\');
  JS::Map map; JS::ParseContext c(d, len); JS::Error e = c.parseTo(map); vf_obs(e);
  Ref r(d, len, 0); std::vector<RTok> top, all; RRes q; bool done = false;
  for (size_t i = 0; i <= len; i++) { RTok k; q = r.next(k); if (q != R_TOK) break; int dep = r.depth; if ((dep == 1 && k.vt != R_OE && k.vt != R_AE && all.size()) || (dep == 2 && (k.vt == R_OS || k.vt == R_AS))) top.push_back(k); all.push_back(k); if (dep == 0) { done = true; break; } }
  if (q == R_DONTCARE) return;
  if (!done) { vf_check(e != JS::Error::NoError, "an incomplete or malformed text is an error"); vf_reach("rejected"); return; }
  vf_check(e == JS::Error::NoError, "a well formed object or array is accepted"); vf_check(map.tokens.data.size() == all.size(), "token count"); vf_reach("accepted");
  size_t i = 0; JS::Map::It it = map.begin(), en = map.end(); const RTok *hit = nullptr;
  for (; it != en && i <= top.size(); ++it, i++) { if (i == top.size()) { vf_check(it->value_type == JS::Type::ObjectEnd || it->value_type == JS::Type::ArrayEnd, "the closing token is last"); continue; } vf_check(it->value.data == top[i].v && it->value.size == top[i].vl && it->name.size == top[i].nl, "iteration visits the entries of the outermost object"); }
  vf_check(it == en, "iteration ends"); if (all[0].vt != R_OS) { JS::ParseContext pc; int v = 5; vf_check(map.castToType(want, pc, v) == JS::Error::ExpectedObjectStart && v == 5, "an array has no named values"); vf_check(map.setValue(want, pc, 1) == JS::Error::ExpectedObjectStart && map.tokens.data.size() == all.size(), "and does not take any"); vf_reach("array"); return; }
  for (auto &k : top) { bool bs = false; for (size_t j = 0; j < k.nl; j++) if (k.n[j] == '\\') bs = true; if (bs) return; if (!hit && k.nl == (size_t)wn && vf_eqmem(k.n, want.data(), wn)) hit = &k; }
  JS::Map::It f = map.find(want); if (hit) { vf_check(f != map.end() && f->value.data == hit->v, "find gives the entry with that name"); vf_reach("hit"); } else { vf_check(f == map.end(), "find gives the end for other names"); vf_reach("miss"); }
}
// long names and values, many entries: p1 kind, p2 length, p3 place of the arbitrary byte
static void large() {
  int kind = vf_p(1); size_t len = (size_t)vf_p(2), at_ = vf_p(3) < 0 ? len - 1 : (size_t)vf_p(3); JS::Map map; Model m; JS::ParseContext pc;
  if (kind < 2) { // two names that differ in one byte at most
    std::string a(len, 'k'), b = a; vf_symbolic(&b[at_], 1, "byte"); std::string src = "{\"first\":[{},1],\"" + a + "\":1,\"last\":{\"" + a + "\":2}}";
    if (kind == 1) { JS::ParseContext c(src); vf_check(c.parseTo(map) == JS::Error::NoError, "text"); m = {{"first", "[{},1]"}, {a, "1"}, {"last", "{\"" + a + "\":2}"}}; } else { vf_check(map.setValue(a, pc, 1) == JS::Error::NoError, "set"); m = {{a, "1"}}; }
    std::vector<std::string> names = {a, b, a + "k", a.substr(1), "last"}; verify(map, m, pc, names);
    vf_check(map.setValue(b, pc, 7) == JS::Error::NoError, "set"); int w = at(m, b); if (w >= 0) { m.erase(m.begin() + w); vf_reach("same"); } else vf_reach("other"); m.push_back({b, "7"}); verify(map, m, pc, names); return; }
  if (kind == 2) { // long text values
    std::string v(len, 'v'); vf_symbolic(&v[at_], 1, "byte"); unsigned char c = (unsigned char)v[at_]; vf_assume(c >= 32 && c != 34 && c != 92 && c < 128); for (int i = 0; i < 3; i++) { vf_check(map.setValue(i == 1 ? "b" : "a", pc, v) == JS::Error::NoError, "set"); } m = {{"b", "\"" + v + "\""}, {"a", "\"" + v + "\""}}; verify(map, m, pc, {"a", "b", "c"}); vf_reach("text"); return; }
  // many entries, each an array of some values; one of them is replaced
  std::string src = "{"; for (size_t i = 0; i < len; i++) { std::string n = "n" + std::to_string(i), v = i % 3 == 0 ? "[[2],{}]" : i % 3 == 1 ? std::to_string(i) : "{\"x\":4,\"y\":[8]}"; if (i) src += ','; src += "\"" + n + "\":" + v; m.push_back({n, v}); } src += "}";
  if (kind == 3) { JS::ParseContext c(src); vf_check(c.parseTo(map) == JS::Error::NoError, "text"); unsigned char x; vf_symbolic(&x, 1, "which"); static const size_t W[] = {0, 1, 2, 84, 85, 86, 127, 128, 170, 171, 253, 254, 255, 256, 257, 258}; vf_assume(x < 16); size_t w = 0; for (size_t j = 0; j < 16; j++) if (x == j) w = W[j]; if (w >= len) return; std::string n = "n" + std::to_string(w); vf_check(map.setValue(n, pc, std::string("new")) == JS::Error::NoError, "set"); m.erase(m.begin() + (int)w); m.push_back({n, "\"new\""}); verify(map, m, pc, {n, "n0", "n255", "n256", "n1", "n2", "q"}); vf_reach("many"); return; }
  // one long array between others
  std::string l = "["; for (size_t i = 0; i < len; i++) { if (i) l += ','; l += i % 2 ? "[]" : "1"; } l += "]"; src = "{\"a\":[3],\"b\":" + l + ",\"c\":{\"x\":4,\"y\":[8]},\"d\":5}"; JS::ParseContext c(src); vf_check(c.parseTo(map) == JS::Error::NoError, "text"); m = {{"a", "[3]"}, {"b", l}, {"c", "{\"x\":4,\"y\":[8]}"}, {"d", "5"}}; verify(map, m, pc, {"a", "c", "d", "e"}); static const char *NM[] = {"a", "b", "c", "d", "e"}; for (int i = 0; i < 2; i++) { std::string n = NM[vf_choice(5, "name")]; vf_check(map.setValue(n, pc, 9) == JS::Error::NoError, "set"); int w = at(m, n); if (w >= 0) m.erase(m.begin() + w); m.push_back({n, "9"}); } verify(map, m, pc, {"a", "c", "d", "e"}); vf_reach("long array");
}
extern "C" void vf_main() { if (vf_p(0) == 0) history(); else if (vf_p(0) == 3) large(); else arbitrary(); }
