// C10: copying, moving and assigning nullable and optional values keeps the value and the state. p0 type (0 Nullable 1 NullableChecked 2 Optional 3 OptionalChecked), p1 number of operations
#define JS_STD_OPTIONAL
#include <json_struct/json_struct.h>
#include "vf.h"
#include <string>
#include <utility>
template <class X> struct St { static bool on(const X &) { return true; } static const bool has = false; static void off(X &) {} };
template <class T> struct St<JS::NullableChecked<T>> { static bool on(const JS::NullableChecked<T> &x) { return !x.null; } static const bool has = true; static void off(JS::NullableChecked<T> &x) { x.null = true; } };
template <class T> struct St<JS::OptionalChecked<T>> { static bool on(const JS::OptionalChecked<T> &x) { return x.assigned; } static const bool has = true; static void off(JS::OptionalChecked<T> &x) { x.assigned = false; } };
template <class X> struct W { X v; JS_OBJ(v); };
template <class X> static void run() {
  X a[2]; std::string val[2]; bool on[2] = {!St<X>::has, !St<X>::has}; int ops = vf_p(1);
  vf_check(a[0].data.empty() && St<X>::on(a[0]) == on[0], "a new one is empty");
  for (int i = 0; i < ops; i++) {
    unsigned t = vf_choice(2, "target"), o = 1 - t; char ch = (char)vf_u8("value"); std::string s(1, ch);
    switch (vf_choice(12, "op")) {
    case 0: a[t] = s; val[t] = s; on[t] = true; break;
    case 1: { std::string c = s; a[t] = std::move(c); val[t] = s; on[t] = true; break; }
    case 2: a[t] = static_cast<const X &>(a[o]); val[t] = val[o]; on[t] = on[o]; break;
    case 3: { X c(a[o]); a[t] = std::move(c); val[t] = val[o]; on[t] = on[o]; break; }
    case 4: { X c(static_cast<const X &>(a[o])); X e(std::move(c)); std::swap(a[t], e); val[t] = val[o]; on[t] = on[o]; break; }
    case 5: { const X c(s); a[t] = c; val[t] = s; on[t] = true; break; }
    case 6: { std::string m = s; X c(std::move(m)); a[t] = c; val[t] = s; on[t] = true; break; }
    case 7: a[t]() = s; val[t] = s; break;
    case 8: if (!St<X>::has) break; St<X>::off(a[t]); on[t] = false; break;
    case 9: a[t] = static_cast<const X &>(a[t]); break;
    case 10: std::swap(a[t], a[o]); std::swap(val[t], val[o]); std::swap(on[t], on[o]); break;
    case 11: { W<X> w; w.v = a[o]; W<X> u(w); a[t] = u.v; val[t] = val[o]; on[t] = on[o]; break; }
    }
    for (int k = 0; k < 2; k++) { const X &c = a[k]; vf_check(c.data.size() == val[k].size() && vf_eqmem(c.data.data(), val[k].data(), val[k].size()), "the value is kept"); vf_check(&c() == &c.data, "access"); vf_check(St<X>::on(c) == on[k], "the state is kept"); vf_obs(c.data.size()); }
  }
  vf_reach("copied");
}
extern "C" void vf_main() { switch (vf_p(0)) { case 0: run<JS::Nullable<std::string>>(); break; case 1: run<JS::NullableChecked<std::string>>(); break; case 2: run<JS::Optional<std::string>>(); break; case 3: { run<JS::OptionalChecked<std::string>>(); JS::OptionalChecked<int> x; vf_check(!x.opt(), "no value"); signed char q = (signed char)vf_u8("q"); x = q; vf_check(x.opt() && *x.opt() == q, "as std::optional"); break; } } }
