// C04: the token stream does not depend on how the text is cut into buffers.
// p0 arbitrary bytes, p1 options (-1 any), p2 prefix, p3 suffix, p4 cuts (0: every byte its own buffer), p5 feeding: 0 callback, 1 after NeedMoreData, 2 all buffers queued up front, 3 any of these; p6 first cut position (-1 anywhere)
#include <json_struct/json_struct.h>
#include "vf.h"
static const char *PRE[] = {"", "{", "[", "{\"a\":", "[1,", "{\"ab\":", "[\"x", "{\"a\":{\"b\":", "{\"a\":[1", "[tr", "{ab:", "{\"k\\\"\":\"v\\\\\",", "[\"\\u00", "{\"x", "[// c\n", "{x:1\n",
  "[\"aaaaaaaaaaaaaaaaaaaa", "{\"aaaaaaaaaaaaaaaaaa\":12", "[                       ", "{\"a\": \"0123456789abcdef0123456789abcdef012345"};
static const char *SUF[] = {"", "}", "]", "]}", "}]", "\"]", "\":1}", "\n}", "\n1]", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa\"]", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa\":1}", "e\"]", "2345678901234567890123]", "                                     ,1]", "aaaaaaaaaaaaaaaaaaaaaaaaaaaa\"bbbbbbbbbbbbbbbbb\"}"};
struct T { std::string n, v; JS::Type nt, vt; };
static std::vector<char *> chunks; static std::vector<size_t> csz; static size_t nextc; static size_t released;
static bool isend(JS::Error e) { return e == JS::Error::NeedMoreData; }
extern "C" void vf_main() {
  int n = vf_p(0), opt = vf_p(1); const char *pre = PRE[vf_p(2)], *suf = SUF[vf_p(3)]; int cuts = vf_p(4), feed = vf_p(5), c0 = vf_p(6);
  if (opt < 0) opt = vf_choice(16, "opt");
  if (feed == 3) feed = vf_choice(3, "feed");
  size_t a = strlen(pre), b = strlen(suf), len = a + n + b;
  char *d = (char *)malloc(len ? len : 1);
  memcpy(d, pre, a); vf_symbolic(d + a, n, "json"); memcpy(d + a + n, suf, b); for (int i = 0; i < n; i++) vf_assume(d[a + i] != 0);
  size_t pos[80]; int np = 0; pos[np++] = 0;
  if (cuts == 0) for (size_t i = 1; i < len; i++) pos[np++] = i;
  else for (int i = 0; i < cuts; i++) { size_t lo = pos[np - 1], hi = len; if (i == 0 && c0 >= 0) lo = hi = (size_t)c0; pos[np++] = lo + (lo == hi ? 0 : vf_choice((unsigned)(hi - lo + 1), "cut")); }
  pos[np] = len;
  JS::Tokenizer one, many;
  JS::Tokenizer *ts[2] = {&one, &many};
  for (auto *t : ts) { t->allowAsciiType(opt & 1); t->allowNewLineAsTokenDelimiter(opt & 2); t->allowSuperfluousComma(opt & 4); t->allowComments(opt & 8); }
  one.addData(d, len);
  for (int i = 0; i < np; i++) { size_t l = pos[i + 1] - pos[i]; char *c = (char *)malloc(l ? l : 1); memcpy(c, d + pos[i], l); chunks.push_back(c); csz.push_back(l); }
  std::function<void(const char *)> rel = [](const char *p) { vf_check(released < chunks.size() && p == chunks[released], "buffers are released in order, once each"); released++; free((void *)p); };
  many.setReleaseCallback(rel);
  if (feed == 0) many.setNeedMoreDataCallback([](JS::Tokenizer &t) { if (nextc < chunks.size()) { t.addData(chunks[nextc], csz[nextc]); nextc++; } });
  if (feed == 2) for (; nextc < chunks.size(); nextc++) many.addData(chunks[nextc], csz[nextc]);
  for (size_t i = 0; i <= len; i++) {
    JS::Token k1, k2;
    JS::Error e1 = one.nextToken(k1);
    JS::Error e2 = many.nextToken(k2);
    if (feed == 1) while (e2 == JS::Error::NeedMoreData && nextc < chunks.size()) { many.addData(chunks[nextc], csz[nextc]); nextc++; e2 = many.nextToken(k2); }
    vf_obs(e1); vf_obs(e2);
    if (e1 != JS::Error::NoError) {
      if (e1 == JS::Error::NeedMoreData) vf_reach("incomplete"); else vf_reach("error");
      vf_check((e1 == JS::Error::NeedMoreData) == (e2 == JS::Error::NeedMoreData), "same outcome (more data needed)");
      vf_check(e2 != JS::Error::NoError, "same outcome (error)");
      if (e1 == JS::Error::NeedMoreData) vf_check(released == chunks.size(), "every consumed buffer has been released");
      return;
    }
    vf_check(e2 == JS::Error::NoError, "token accepted in both");
    vf_check(k1.value_type == k2.value_type, "same value type");
    vf_check(k1.name.size == k2.name.size && k1.value.size == k2.value.size, "same token lengths");
    if (k1.name.size) { vf_check(k1.name_type == k2.name_type, "same name type"); vf_check(vf_eqmem(k1.name.data, k2.name.data, k1.name.size), "same name text"); }
    vf_check(vf_eqmem(k1.value.data, k2.value.data, k1.value.size), "same value text");
    vf_obs(k1.value.size); vf_obs(k1.name.size);
    if (released) vf_reach("token-after-release");
    vf_reach("token");
  }
}
