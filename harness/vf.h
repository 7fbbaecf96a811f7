// Harness interface: the same source is executed symbolically (engine) and natively (replay).
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
void vf_symbolic(void *p, size_t n, const char *name); // fill with arbitrary bytes
void vf_assume(int c);
void vf_check(int c, const char *msg);
[[noreturn]] void vf_fail(const char *msg);
void vf_reach(const char *label); // vacuity witness
uint64_t vf_concretize(uint64_t v); // case-split on the value
void vf_observe(const void *p, size_t n); // compared between symbolic and native execution
int vf_p(int i); // job parameter
int vf_eqmem(const void *a, const void *b, size_t n); // equality of two byte ranges as one condition
}
static inline uint8_t vf_u8(const char *n = "u8") { uint8_t v; vf_symbolic(&v, 1, n); return v; }
// arbitrary number in 0..n-1, case-split
static inline unsigned vf_choice(unsigned n, const char *nm = "choice") { uint8_t v; vf_symbolic(&v, 1, nm); vf_assume(v < n); return (unsigned)vf_concretize(v); }
template <typename T> static inline T vf_any(const char *n = "any") { T v; vf_symbolic(&v, sizeof(T), n); return v; }
template <typename T> static inline void vf_obs(const T &v) { vf_observe(&v, sizeof(T)); }
