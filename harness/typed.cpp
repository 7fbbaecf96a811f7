// C10/C11/C12: typed parsing against the reference semantics. p0 type, p1 arbitrary bytes, p2 prefix, p3 suffix, p4 restrict the bytes to JSON characters, p5 initial content
#define JS_STL_MAP
#define JS_STL_SET
#define JS_STL_UNORDERED_SET
#define JS_STL_ARRAY
#define JS_STD_UNORDERED_MAP
#define JS_STD_OPTIONAL
#include <json_struct/json_struct.h>
#include "typed.h"
static const char *PRE[] = {"", "[", "[[", "{\"a\":", "[1,", "[[1],", "{\"a\":1,", "[{\"a\":", "[1,\"x\",", "{\"a\":[", "[1,2", "{\"a\":null,", "[null,", "{\"x\":[{\"a\":3}],", "[true,", "{\"b\":2,\"a\":", "{\"a\":{\"a\":", "{\"a\":[1],", "{\"", "{\"a\":\"", "[1,2,3,4,5,6,7,8,9,", "[[1,2,3,4,5,6,7,8,9,10],[", "{\"a\":7,\"a\\u00", "[\"\\u", "{\"k\":\"\\", "{\"b\":\"\",\"a\":\"\\u00"};
static const char *SUF[] = {"", "]", "]]", "}", ",2]", ",\"b\":2}", "}]", ",true]", "]}", ",[3]]", ",\"b\":null}", ",\"c\":{\"b\":4}}", ":5}", "\":6}", "\":{\"k\":6}}", "\":[6]}", "\"}", "\",\"b\":\"\"}", ",11,12]", "b\":6}", "\"]"};
template <class T> static void init(T &v, int i) { (void)v; (void)i; }
static void init(std::vector<int> &v, int i) { if (i) v = {7, 8, 9}; }
static void init(std::vector<std::string> &v, int i) { if (i) v = {"old", "old2"}; }
static void init(std::vector<bool> &v, int i) { if (i) v = {true, true, false}; }
static void init(std::set<int> &v, int i) { if (i) v = {1, 2, 3}; }
static void init(JS::OneOrMany<int> &v, int i) { if (i) v.data = {7, 8}; }
static void init(JS::ArrayVariableContent<int, 2> &v, int i) { v.data[0] = v.data[1] = 5; v.size = i ? 2 : 0; }
static void init(std::map<std::string, int> &v, int i) { if (i) { v["a"] = 7; v["z"] = 8; } }
template <class T> static void init(W<T> &v, int i) { if (i) { init(v.a, i); init(v.b, i); } }
static void init(int &v, int i) { v = i ? 77 : 0; }
template <class T> static void init(std::map<std::string, W<T>> &v, int i) { if (i) { v["a"].a = 5; v["a"].b = 6; v["z"].b = 7; } }
template <class T> static void init(std::unordered_map<std::string, W<T>> &v, int i) { if (i) { v["a"].a = 5; v["a"].b = 6; v["z"].b = 7; } }
static void init(std::map<std::string, std::vector<int>> &v, int i) { if (i) { v["a"] = {5, 6}; v["z"] = {7}; } }
static void init(std::map<std::string, std::map<std::string, int>> &v, int i) { if (i) { v["a"]["y"] = 5; v["a"]["k"] = 4; v["z"]["a"] = 6; } }
static void init(std::unordered_map<std::string, std::map<std::string, int>> &v, int i) { if (i) { v["a"]["y"] = 5; v["a"]["k"] = 4; v["z"]["a"] = 6; } }
template <class T> static void init(JS::Nullable<T> &v, int i) { if (i) { init(v.data, i); } }
template <class T> static void init(JS::NullableChecked<T> &v, int i) { if (i) { init(v.data, i); v.null = false; } }
template <class T> static void init(JS::Optional<T> &v, int i) { if (i) { init(v.data, i); } }
template <class T> static void init(JS::OptionalChecked<T> &v, int i) { if (i) { init(v.data, i); v.assigned = i > 1; } }
template <class T> static void init(std::optional<T> &v, int i) { if (i) { v = T(); init(*v, i); } }
template <class T> static void init(std::unique_ptr<T> &v, int i) { if (i) { v.reset(new T()); init(*v, i); } }
template <class T> static void init(std::shared_ptr<T> &v, int i) { if (i) { v.reset(new T()); init(*v, i); } }
template <class T> static void init(std::array<T, 2> &v, int i) { init(v[0], i); init(v[1], i); }
static void init(std::string &v, int i) { if (i) v = "older"; }
static void init(JS::SilentString &v, int i) { init(v.data, i); }
template <class T> static void init(JS::SilentVector<T> &v, int i) { init(v.data, i); }
template <class T> static void init(JS::SilentUniquePtr<T> &v, int i) { init(v.data, i); }
// does the serialized form denote the value itself? (an unset optional is left out, so it comes back unset)
template <class T> struct Box { T v; };
template <class T, size_t K> struct Box<T[K]> { T v[K]; };
template <class T> static void run() {
  int n = vf_p(1), res = vf_p(4); const char *pre = PRE[vf_p(2)], *suf = SUF[vf_p(3)]; size_t a = strlen(pre), b = strlen(suf), len = a + n + b;
  char *d = (char *)malloc(len ? len : 1); memcpy(d, pre, a); if (n) vf_symbolic(d + a, n, "json"); memcpy(d + a + n, suf, b);
  static const char AL[] = "{}[]:,\"ab12-ntrue lf"; // the characters that matter for structure, literals and digits
  for (int i = 0; i < n; i++) { vf_assume(d[a + i] != 0); if (res) { int ok = 0; for (const char *q = AL; *q; q++) ok |= d[a + i] == *q; vf_assume(ok); } }
  Box<T> x{}, y{}; init(x.v, vf_p(5)); init(y.v, vf_p(5));
  RC rc(d, len); Out o = rc.next(); if (o == OK) o = RT<T>::to(y.v, rc); if (o == SKIP) { vf_reach("outside"); return; }
  JS::ParseContext c(d, len); JS::Error e = c.parseTo(x.v);
  vf_obs(e); vf_check((o == OK) == (e == JS::Error::NoError), "a document is accepted exactly when it fits the type"); vf_check(c.error == e, "error of the context");
  if (o != OK) { vf_reach("rejected"); return; }
  vf_check(same(x.v, y.v), "parsed value"); vf_reach("accepted");
  if (!vf_p(6)) for (int st = 0; st < 2; st++) {
    std::string s = JS::serializeStruct(x.v, JS::SerializerOptions(st ? JS::SerializerOptions::Compact : JS::SerializerOptions::Pretty)); vf_observe(s.data(), s.size());
    Box<T> z{}; init(z.v, 0); JS::ParseContext d2(s); vf_check(d2.parseTo(z.v) == JS::Error::NoError, "own output parses"); vf_check(same(z.v, x.v), "round trip");
    Box<T> w{}; init(w.v, 0); RC r2(s.data(), s.size()); Out o2 = r2.next(); if (o2 == OK) o2 = RT<T>::to(w.v, r2); vf_check(o2 != BAD, "the output is a document of the type"); if (o2 == OK) vf_check(same(w.v, x.v), "the output denotes the value");
  }
}
extern "C" void vf_main() {
  switch (vf_p(0)) {
#if GROUP == 0
  case 0: run<std::vector<int>>(); break;
  case 1: run<std::vector<std::vector<int>>>(); break;
  case 2: run<std::vector<bool>>(); break;
  case 3: run<std::vector<std::string>>(); break;
  case 4: run<std::vector<W<int>>>(); break;
  case 5: run<std::tuple<int, std::string, bool>>(); break;
  case 6: run<JS::Tuple<int, std::string, bool>>(); break;
  case 7: run<std::array<int, 2>>(); break;
  case 8: run<int[2]>(); break;
  case 9: run<JS::ArrayVariableContent<int, 2>>(); break;
  case 10: run<W<JS::OneOrMany<int>>>(); break;
  case 11: run<std::set<int>>(); break;
  case 12: run<std::unordered_set<int>>(); break;
  case 13: run<W<std::vector<int>>>(); break;
  case 14: run<W<W<int>>>(); break;
  case 15: run<std::vector<std::array<int, 2>>>(); break;
  case 16: run<std::array<std::string, 2>>(); break;
  case 17: run<std::tuple<std::vector<int>, W<int>, bool>>(); break;
  case 18: run<std::array<std::vector<int>, 2>>(); break;
  case 19: run<std::vector<W<std::string>>>(); break;
  case 20: run<std::array<bool, 3>>(); break;
  case 21: run<int[1]>(); break;
  case 22: run<std::array<int, 1>>(); break;
  case 23: run<JS::ArrayVariableContent<int, 1>>(); break;
  case 24: run<std::set<std::string>>(); break;
  case 25: run<W<JS::OneOrMany<std::string>>>(); break;
  case 26: run<W<int[3]>>(); break;
  case 27: run<std::vector<std::tuple<int, std::string, bool>>>(); break;
  case 28: run<std::vector<std::set<int>>>(); break;
  case 29: run<std::vector<std::vector<bool>>>(); break;
#elif GROUP == 1
  case 17: run<W<JS::Nullable<std::string>>>(); break;
  case 18: run<W<JS::NullableChecked<std::string>>>(); break;
  case 19: run<W<JS::Optional<std::string>>>(); break;
  case 20: run<W<JS::OptionalChecked<std::string>>>(); break;
  case 21: run<W<std::optional<std::string>>>(); break;
  case 22: run<W<std::unique_ptr<std::string>>>(); break;
  case 23: run<W<std::shared_ptr<std::string>>>(); break;
  case 24: run<W<JS::SilentString>>(); break;
  case 25: run<W<JS::SilentVector<int>>>(); break;
  case 26: run<W<JS::SilentUniquePtr<int>>>(); break;
  case 27: run<W<JS::OptionalChecked<std::vector<int>>>>(); break;
  case 28: run<W<JS::NullableChecked<std::vector<int>>>>(); break;
  case 29: run<W<JS::OptionalChecked<bool>>>(); break;
  case 30: run<W<JS::NullableChecked<bool>>>(); break;
  case 31: run<W<std::unique_ptr<bool>>>(); break;
  case 32: run<W<std::optional<bool>>>(); break;
  case 0: run<std::vector<JS::Nullable<int>>>(); break;
  case 1: run<std::vector<JS::NullableChecked<int>>>(); break;
  case 2: run<W<JS::Nullable<int>>>(); break;
  case 3: run<W<JS::NullableChecked<int>>>(); break;
  case 4: run<W<JS::Optional<int>>>(); break;
  case 5: run<W<JS::OptionalChecked<int>>>(); break;
  case 6: run<W<std::optional<int>>>(); break;
  case 7: run<W<std::unique_ptr<int>>>(); break;
  case 8: run<W<std::shared_ptr<int>>>(); break;
  case 9: run<std::vector<std::unique_ptr<W<int>>>>(); break;
  case 10: run<std::array<std::unique_ptr<int>, 2>>(); break;
  case 11: run<W<std::unique_ptr<W<int>>>>(); break;
  case 12: run<W<JS::NullableChecked<W<int>>>>(); break;
  case 13: run<W<std::shared_ptr<std::vector<int>>>>(); break;
  case 14: run<W<JS::OptionalChecked<W<int>>>>(); break;
  case 15: run<W<std::optional<std::vector<int>>>>(); break;
  case 16: run<W<JS::OptionalChecked<JS::NullableChecked<int>>>>(); break;
#else
  case 0: run<std::map<std::string, int>>(); break;
  case 1: run<std::map<std::string, std::map<std::string, int>>>(); break;
  case 2: run<std::unordered_map<std::string, int>>(); break;
  case 3: run<std::map<std::string, std::vector<int>>>(); break;
  case 4: run<std::map<std::string, W<int>>>(); break;
  case 5: run<std::vector<std::map<std::string, int>>>(); break;
  case 6: run<W<std::map<std::string, int>>>(); break;
  case 7: run<std::map<std::string, JS::NullableChecked<int>>>(); break;
  case 8: run<std::unordered_map<std::string, W<int>>>(); break;
  case 9: run<std::unordered_map<std::string, std::map<std::string, int>>>(); break;
#endif
  default: break;
  }
}
