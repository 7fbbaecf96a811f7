// Reference semantics of typed parsing: an independent reading of what a JSON document means for a C++ type.
#pragma once
#include "vf.h"
#include "reftok.h"
#include <array>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <optional>
#include <memory>
#include <string>
#include <vector>
#include <tuple>
#include <cstring>
enum Out { OK, BAD, SKIP }; // SKIP: outside of what this oracle pins down
struct RC { Ref ref; RTok t; RC(const char *d, size_t n) : ref(d, n, 0) {}
  Out next() { RRes r = ref.next(t); return r == R_TOK ? OK : r == R_DONTCARE ? SKIP : BAD; } };
template <class T, class E = void> struct RT;
#define TRY(x) do { Out o_ = (x); if (o_ != OK) return o_; } while (0)
static inline bool istext(const RTok &t, const char *s) { return t.vl == strlen(s) && !memcmp(t.v, s, t.vl); }
static Out skipValue(RC &c) { int d = 0; do { if (c.t.vt == R_OS || c.t.vt == R_AS) d++; if (c.t.vt == R_OE || c.t.vt == R_AE) d--; if (d) TRY(c.next()); } while (d); return OK; }
// what a string without surrogates denotes
static Out unesc(const char *s, size_t n, std::string &o) {
  for (size_t i = 0; i < n; i++) {
    if (s[i] != '\\') { o += s[i]; continue; }
    if (++i >= n) return SKIP;
    char c = s[i];
    if (c == '"' || c == '\\' || c == '/') o += c; else if (c == 'b') o += '\b'; else if (c == 'f') o += '\f'; else if (c == 'n') o += '\n'; else if (c == 'r') o += '\r'; else if (c == 't') o += '\t';
    else if (c == 'u') { if (i + 4 >= n) return SKIP; unsigned v = 0; for (int k = 1; k <= 4; k++) { char h = s[i + k]; unsigned x; if (h >= '0' && h <= '9') x = h - '0'; else if (h >= 'a' && h <= 'f') x = h - 'a' + 10; else if (h >= 'A' && h <= 'F') x = h - 'A' + 10; else return SKIP; v = v * 16 + x; } i += 4;
      if (v >= 0xd800 && v < 0xe000) return SKIP; if (v < 0x80) o += (char)v; else if (v < 0x800) { o += (char)(0xc0 | v >> 6); o += (char)(0x80 | (v & 63)); } else { o += (char)(0xe0 | v >> 12); o += (char)(0x80 | (v >> 6 & 63)); o += (char)(0x80 | (v & 63)); } }
    else return SKIP; }
  return OK; }
template <> struct RT<int> { static Out to(int &v, RC &c) {
  if (c.t.vt == R_STR) return SKIP; if (c.t.vt != R_NUM) return BAD;
  size_t i = 0, n = c.t.vl; const char *s = c.t.v; bool neg = false; if (s[0] == '-') { neg = true; i++; }
  if (i >= n) return BAD; long x = 0; for (; i < n; i++) { if (s[i] < '0' || s[i] > '9') return SKIP; x = x * 10 + (s[i] - '0'); } v = (int)(neg ? -x : x); return OK; } };
template <> struct RT<bool> { static Out to(bool &v, RC &c) { if (c.t.vt == R_STR) return SKIP; if (istext(c.t, "true")) v = true; else if (istext(c.t, "false")) v = false; else return BAD; return OK; } };
template <> struct RT<std::string> { static Out to(std::string &v, RC &c) { if (c.t.vt == R_OE || c.t.vt == R_AE) return BAD; if (c.t.vt != R_STR) return SKIP; std::string r; TRY(unesc(c.t.v, c.t.vl, r)); v = r; return OK; } };
template <class T> static Out refArray(RC &c, T f) { if (c.t.vt != R_AS) return BAD; TRY(c.next()); while (c.t.vt != R_AE) { TRY(f()); TRY(c.next()); } return OK; }
template <class T> struct RT<std::vector<T>> { static Out to(std::vector<T> &v, RC &c) { std::vector<T> r; TRY(refArray(c, [&] { T e = T(); TRY(RT<T>::to(e, c)); r.push_back(std::move(e)); return OK; })); v = std::move(r); return OK; } };
template <> struct RT<std::vector<bool>> { static Out to(std::vector<bool> &v, RC &c) { std::vector<bool> r; TRY(refArray(c, [&] { bool e = false; TRY(RT<bool>::to(e, c)); r.push_back(e); return OK; })); v = r; return OK; } };
template <class T, size_t K> static Out refFixed(T *v, RC &c) { if (c.t.vt != R_AS) return BAD; TRY(c.next()); for (size_t i = 0; i < K; i++) { if (c.t.vt == R_AE) return BAD; TRY(RT<T>::to(v[i], c)); TRY(c.next()); } return c.t.vt == R_AE ? OK : BAD; }
template <class T, size_t K> struct RT<std::array<T, K>> { static Out to(std::array<T, K> &v, RC &c) { return refFixed<T, K>(v.data(), c); } };
template <class T, size_t K> struct RT<T[K]> { static Out to(T (&v)[K], RC &c) { return refFixed<T, K>(v, c); } };
template <class T, size_t K> struct RT<JS::ArrayVariableContent<T, K>> { static Out to(JS::ArrayVariableContent<T, K> &v, RC &c) { size_t n = 0; TRY(refArray(c, [&] { if (n == K) return BAD; TRY(RT<T>::to(v.data[n], c)); n++; return OK; })); v.size = n; return OK; } };
template <class T> struct RT<JS::OneOrMany<T>> { static Out to(JS::OneOrMany<T> &v, RC &c) { if (c.t.vt == R_AS) return RT<std::vector<T>>::to(v.data, c); T e = T(); TRY(RT<T>::to(e, c)); v.data.clear(); v.data.push_back(e); return OK; } };
template <class T, class S> static Out refSet(S &v, RC &c) { S r; TRY(refArray(c, [&] { T e = T(); TRY(RT<T>::to(e, c)); if (r.count(e)) return BAD; r.insert(e); return OK; })); v = r; return OK; }
template <class T> struct RT<std::set<T>> { static Out to(std::set<T> &v, RC &c) { return refSet<T>(v, c); } };
template <class T> struct RT<std::unordered_set<T>> { static Out to(std::unordered_set<T> &v, RC &c) { return refSet<T>(v, c); } };
template <class A, class B, class C> struct RT<std::tuple<A, B, C>> { static Out to(std::tuple<A, B, C> &v, RC &c) { if (c.t.vt != R_AS) return BAD; TRY(c.next()); if (c.t.vt == R_AE) return BAD; TRY(RT<A>::to(std::get<0>(v), c)); TRY(c.next()); if (c.t.vt == R_AE) return BAD; TRY(RT<B>::to(std::get<1>(v), c)); TRY(c.next()); if (c.t.vt == R_AE) return BAD; TRY(RT<C>::to(std::get<2>(v), c)); TRY(c.next()); return c.t.vt == R_AE ? OK : BAD; } };
template <class A, class B, class C> struct RT<JS::Tuple<A, B, C>> { static Out to(JS::Tuple<A, B, C> &v, RC &c) { std::tuple<A, B, C> x; TRY((RT<std::tuple<A, B, C>>::to(x, c))); v.template get<0>() = std::get<0>(x); v.template get<1>() = std::get<1>(x); v.template get<2>() = std::get<2>(x); return OK; } };
// null handling
template <class T> struct RT<JS::Nullable<T>> { static Out to(JS::Nullable<T> &v, RC &c) { if (c.t.vt == R_NULL) return OK; return RT<T>::to(v.data, c); } };
template <class T> struct RT<JS::NullableChecked<T>> { static Out to(JS::NullableChecked<T> &v, RC &c) { if (c.t.vt == R_NULL) { v.null = true; return OK; } TRY(RT<T>::to(v.data, c)); v.null = false; return OK; } };
template <class T> struct RT<JS::Optional<T>> { static Out to(JS::Optional<T> &v, RC &c) { return RT<T>::to(v.data, c); } };
template <class T> struct RT<JS::OptionalChecked<T>> { static Out to(JS::OptionalChecked<T> &v, RC &c) { TRY(RT<T>::to(v.data, c)); v.assigned = true; return OK; } };
template <class T> struct RT<std::optional<T>> { static Out to(std::optional<T> &v, RC &c) { T x = T(); TRY(RT<T>::to(x, c)); v = x; return OK; } };
template <class T> struct RT<std::unique_ptr<T>> { static Out to(std::unique_ptr<T> &v, RC &c) { if (c.t.vt == R_NULL) { v.reset(); return OK; } if (!v) v.reset(new T()); return RT<T>::to(*v, c); } };
template <class T> struct RT<std::shared_ptr<T>> { static Out to(std::shared_ptr<T> &v, RC &c) { if (c.t.vt == R_NULL) { v.reset(); return OK; } if (!v) v.reset(new T()); return RT<T>::to(*v, c); } };
template <> struct RT<JS::SilentString> { static Out to(JS::SilentString &v, RC &c) { return RT<std::string>::to(v.data, c); } };
template <class T> struct RT<JS::SilentVector<T>> { static Out to(JS::SilentVector<T> &v, RC &c) { return RT<std::vector<T>>::to(v.data, c); } };
template <class T> struct RT<JS::SilentUniquePtr<T>> { static Out to(JS::SilentUniquePtr<T> &v, RC &c) { return RT<std::unique_ptr<T>>::to(v.data, c); } };
// maps: later members replace earlier ones, existing content stays
template <class V, class M> static Out refMap(M &v, RC &c, bool cz) { if (c.t.vt != R_OS) return BAD; TRY(c.next()); while (c.t.vt != R_OE) { std::string k; TRY(unesc(c.t.n, c.t.nl, k)); if (cz) for (auto &x : k) x = (char)vf_concretize((unsigned char)x); V e = V(); TRY(RT<V>::to(e, c)); v[k] = std::move(e); TRY(c.next()); } return OK; }
template <class V> struct RT<std::map<std::string, V>> { static Out to(std::map<std::string, V> &v, RC &c) { return refMap<V>(v, c, false); } };
template <class V> struct RT<std::unordered_map<std::string, V>> { static Out to(std::unordered_map<std::string, V> &v, RC &c) { return refMap<V>(v, c, true); } };
// a struct with two members a and b
template <class T> struct W { T a{}; T b{}; JS_OBJ(a, b); };
template <class T> struct RT<W<T>> { static Out to(W<T> &v, RC &c) { if (c.t.vt != R_OS) return BAD; TRY(c.next()); while (c.t.vt != R_OE) { bool one = c.t.nl == 1; if (one && c.t.n[0] == 'a') TRY(RT<T>::to(v.a, c)); else if (one && c.t.n[0] == 'b') TRY(RT<T>::to(v.b, c)); else TRY(skipValue(c)); TRY(c.next()); } return OK; } };
// equality
template <class T> static bool same(const T &a, const T &b) { return a == b; }
static bool same(const std::string &a, const std::string &b) { return a.size() == b.size() && vf_eqmem(a.data(), b.data(), a.size()); }
template <class T> static bool same(const JS::Nullable<T> &a, const JS::Nullable<T> &b);
template <class T> static bool same(const JS::NullableChecked<T> &a, const JS::NullableChecked<T> &b);
template <class T> static bool same(const JS::Optional<T> &a, const JS::Optional<T> &b);
template <class T> static bool same(const JS::OptionalChecked<T> &a, const JS::OptionalChecked<T> &b);
template <class T> static bool same(const std::optional<T> &a, const std::optional<T> &b);
template <class T> static bool same(const std::unique_ptr<T> &a, const std::unique_ptr<T> &b);
template <class T> static bool same(const std::shared_ptr<T> &a, const std::shared_ptr<T> &b);
template <class T> static bool same(const JS::OneOrMany<T> &a, const JS::OneOrMany<T> &b);
template <class T, size_t K> static bool same(const JS::ArrayVariableContent<T, K> &a, const JS::ArrayVariableContent<T, K> &b);
template <class T> static bool same(const W<T> &a, const W<T> &b);
static bool same(const JS::SilentString &a, const JS::SilentString &b) { return same(a.data, b.data); }
template <class T> static bool same(const JS::SilentVector<T> &a, const JS::SilentVector<T> &b);
template <class T> static bool same(const JS::SilentUniquePtr<T> &a, const JS::SilentUniquePtr<T> &b);
template <class T> static bool same(const std::map<std::string, T> &a, const std::map<std::string, T> &b);
template <class A, class B, class C> static bool same(const JS::Tuple<A, B, C> &a, const JS::Tuple<A, B, C> &b);
template <class T, size_t K> static bool same(const std::array<T, K> &a, const std::array<T, K> &b);
template <class A, class B, class C> static bool same(const std::tuple<A, B, C> &a, const std::tuple<A, B, C> &b);
template <class T, size_t K> static bool same(const T (&a)[K], const T (&b)[K]) { for (size_t i = 0; i < K; i++) if (!same(a[i], b[i])) return false; return true; }
template <class T> static bool same(const std::vector<T> &a, const std::vector<T> &b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!same(a[i], b[i])) return false; return true; }
static bool same(const std::vector<bool> &a, const std::vector<bool> &b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (a[i] != b[i]) return false; return true; }
template <class T> static bool same(const JS::Nullable<T> &a, const JS::Nullable<T> &b) { return same(a.data, b.data); }
template <class T> static bool same(const JS::NullableChecked<T> &a, const JS::NullableChecked<T> &b) { return a.null == b.null && same(a.data, b.data); }
template <class T> static bool same(const JS::Optional<T> &a, const JS::Optional<T> &b) { return same(a.data, b.data); }
template <class T> static bool same(const JS::OptionalChecked<T> &a, const JS::OptionalChecked<T> &b) { return a.assigned == b.assigned && same(a.data, b.data); }
template <class T> static bool same(const std::optional<T> &a, const std::optional<T> &b) { return a.has_value() == b.has_value() && (!a || same(*a, *b)); }
template <class T> static bool same(const std::unique_ptr<T> &a, const std::unique_ptr<T> &b) { return !a == !b && (!a || same(*a, *b)); }
template <class T> static bool same(const std::shared_ptr<T> &a, const std::shared_ptr<T> &b) { return !a == !b && (!a || same(*a, *b)); }
template <class T> static bool same(const JS::OneOrMany<T> &a, const JS::OneOrMany<T> &b) { return same(a.data, b.data); }
template <class T, size_t K> static bool same(const JS::ArrayVariableContent<T, K> &a, const JS::ArrayVariableContent<T, K> &b) { if (a.size != b.size) return false; for (size_t i = 0; i < a.size; i++) if (!same(a.data[i], b.data[i])) return false; return true; }
template <class T> static bool same(const W<T> &a, const W<T> &b) { return same(a.a, b.a) && same(a.b, b.b); }
template <class T> static bool same(const std::map<std::string, T> &a, const std::map<std::string, T> &b) { if (a.size() != b.size()) return false; auto i = a.begin(); for (auto &x : b) { if (!same(i->first, x.first) || !same(i->second, x.second)) return false; ++i; } return true; }
template <class T> static bool same(const std::unordered_map<std::string, T> &a, const std::unordered_map<std::string, T> &b) { if (a.size() != b.size()) return false; for (auto &x : b) { auto i = a.find(x.first); if (i == a.end() || !same(i->second, x.second)) return false; } return true; }
template <class A, class B, class C> static bool same(const JS::Tuple<A, B, C> &a, const JS::Tuple<A, B, C> &b) { return same(a.template get<0>(), b.template get<0>()) && same(a.template get<1>(), b.template get<1>()) && same(a.template get<2>(), b.template get<2>()); }
template <class T, size_t K> static bool same(const std::array<T, K> &a, const std::array<T, K> &b) { for (size_t i = 0; i < K; i++) if (!same(a[i], b[i])) return false; return true; }
template <class A, class B, class C> static bool same(const std::tuple<A, B, C> &a, const std::tuple<A, B, C> &b) { return same(std::get<0>(a), std::get<0>(b)) && same(std::get<1>(a), std::get<1>(b)) && same(std::get<2>(a), std::get<2>(b)); }
template <class T> static bool same(const JS::SilentVector<T> &a, const JS::SilentVector<T> &b) { return same(a.data, b.data); }
template <class T> static bool same(const JS::SilentUniquePtr<T> &a, const JS::SilentUniquePtr<T> &b) { return same(a.data, b.data); }
