// C06: string values. p0 mode: 0 parse, 1 serialize, 2 parse through a struct/map key; p1 arbitrary bytes, p2 prefix template, p3 suffix template, p4 restriction
#define JS_STL_MAP
#include <json_struct/json_struct.h>
#include "vf.h"
static const char *PRE[] = {"", "\\u", "\\ud83d\\u", "\\u00e9", "ab\\", "0123456789abcde", "0123456789abcdef0123456789abcde", "\\ud8", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "\\u12", "\\\\", "\\ud83d", "\\uD8"};
static const char *SUF[] = {"", "0", "\\udc00", "0123456789abcdef", "0123456789abcdef0123456789abcdef", "00", "\\u0041", "zz"};
static int hexv(unsigned char c) { if (c >= '0' && c <= '9') return c - '0'; if (c >= 'a' && c <= 'f') return c - 'a' + 10; if (c >= 'A' && c <= 'F') return c - 'A' + 10; return -1; }
static bool hex4(const std::string &s, size_t i, unsigned &v) { if (i + 4 > s.size()) return false; v = 0; for (size_t k = 0; k < 4; k++) { int h = hexv((unsigned char)s[i + k]); if (h < 0) return false; v = v * 16 + (unsigned)h; } return true; }
static void utf8(std::string &o, unsigned c) {
  if (c < 0x80) o += (char)c;
  else if (c < 0x800) { o += (char)(0xc0 | c >> 6); o += (char)(0x80 | (c & 63)); }
  else if (c < 0x10000) { o += (char)(0xe0 | c >> 12); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
  else { o += (char)(0xf0 | c >> 18); o += (char)(0x80 | (c >> 12 & 63)); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
}
// reference: RFC 8259 escapes; an unknown escape is kept as it is
static std::string unesc(const std::string &s) {
  std::string o;
  for (size_t i = 0; i < s.size();) {
    if (s[i] != '\\') { o += s[i++]; continue; }
    if (i + 1 >= s.size()) break;
    char e = s[i + 1]; i += 2;
    switch (e) {
    case 'b': o += '\b'; break; case 'f': o += '\f'; break; case 'n': o += '\n'; break; case 'r': o += '\r'; break; case 't': o += '\t'; break;
    case '"': o += '"'; break; case '\\': o += '\\'; break; case '/': o += '/'; break;
    case 'u': { unsigned a, b; if (!hex4(s, i, a)) { o += "\\u"; break; } i += 4;
      if (a >= 0xd800 && a < 0xdc00 && i + 1 < s.size() && s[i] == '\\' && s[i + 1] == 'u' && hex4(s, i + 2, b) && b >= 0xdc00 && b < 0xe000) { i += 6; utf8(o, 0x10000 + ((a & 0x3ff) << 10) + (b & 0x3ff)); vf_reach("surrogates"); } else { utf8(o, a); vf_reach("unicode"); } break; }
    default: o += '\\'; o += e;
    }
  }
  return o;
}
// is the text between the quotes terminated exactly at its end?
static bool closed(const std::string &s) { for (size_t i = 0; i < s.size(); i++) { if (s[i] == '\\') { i++; if (i >= s.size()) return false; } else if (s[i] == '"') return false; } return true; }
static bool validstr(const std::string &s) { // RFC 8259 string content
  for (size_t i = 0; i < s.size(); i++) {
    unsigned char c = (unsigned char)s[i];
    if (c < 0x20 || c == '"') return false;
    if (c == '\\') { i++; if (i >= s.size()) return false; char e = s[i]; unsigned v;
      if (e == 'u') { if (!hex4(s, i + 1, v)) return false; i += 4; } else if (!(e == '"' || e == '\\' || e == '/' || e == 'b' || e == 'f' || e == 'n' || e == 'r' || e == 't')) return false; }
  }
  return true;
}
struct M { std::string a, b; JS_OBJ(a, b); };
extern "C" void vf_main() {
  int mode = vf_p(0), n = vf_p(1);
  std::string s = PRE[vf_p(2)]; size_t a = s.size(); s.resize(a + n); if (n) vf_symbolic(&s[a], n, "text"); s += SUF[vf_p(3)];
  int restr = vf_p(4);
  if (restr == 1) for (int i = 0; i < n; i++) vf_assume(hexv((unsigned char)s[a + i]) >= 0);
  if (mode == 0) {
    for (int i = 0; i < n; i++) vf_assume(s[a + i] != 0);
    if (!closed(s)) return;
    std::string j = "[\"" + s + "\"]"; char *d = (char *)malloc(j.size()); memcpy(d, j.data(), j.size());
    std::vector<std::string> v; v.push_back("old"); JS::ParseContext c(d, j.size());
    vf_check(c.parseTo(v) == JS::Error::NoError && v.size() == 1, "a closed string is accepted");
    std::string e = unesc(s);
    vf_check(v[0].size() == e.size(), "decoded length"); vf_check(vf_eqmem(v[0].data(), e.data(), e.size()), "decoded text");
    vf_observe(v[0].data(), v[0].size()); vf_reach("parsed");
  } else if (mode == 1) {
    std::vector<std::string> v; v.push_back(s);
    std::string o = JS::serializeStruct(v, JS::SerializerOptions(JS::SerializerOptions::Compact));
    vf_check(o.size() >= 4 && o[0] == '[' && o[1] == '"' && o[o.size() - 2] == '"' && o[o.size() - 1] == ']', "frame");
    std::string t = o.substr(2, o.size() - 4);
    vf_check(validstr(t), "serialized string is a valid JSON string");
    std::string e = unesc(t); vf_check(e.size() == s.size() && vf_eqmem(e.data(), s.data(), s.size()), "serialized string denotes the original");
    std::vector<std::string> w; JS::ParseContext c(o); vf_check(c.parseTo(w) == JS::Error::NoError && w.size() == 1 && w[0].size() == s.size() && vf_eqmem(w[0].data(), s.data(), s.size()), "round trip");
    vf_observe(o.data(), o.size()); vf_reach("serialized");
  } else { // member values and map keys
    M m; m.a = s; m.b = "x"; std::string o = JS::serializeStruct(m, JS::SerializerOptions(JS::SerializerOptions::Compact));
    M r; JS::ParseContext c(o); vf_check(c.parseTo(r) == JS::Error::NoError, "own output parses"); vf_check(r.a.size() == s.size() && vf_eqmem(r.a.data(), s.data(), s.size()) && r.b == "x", "member round trip");
    std::map<std::string, std::string> k, q; k[s] = "v"; o = JS::serializeStruct(k, JS::SerializerOptions(JS::SerializerOptions::Compact));
    JS::ParseContext d(o); vf_check(d.parseTo(q) == JS::Error::NoError && q.size() == 1, "own map output parses"); const std::string &f = q.begin()->first; vf_check(f.size() == s.size() && vf_eqmem(f.data(), s.data(), s.size()) && q.begin()->second == "v", "key round trip");
    vf_observe(o.data(), o.size()); vf_reach("member");
  }
}
