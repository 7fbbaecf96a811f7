// Native replay runtime: inputs come from the file named by VF_IN.
#include "vf.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unistd.h>
extern "C" void vf_main();
static std::string in, obs; static size_t pos = 0; static bool overrun = false;
static void finish(int rc) { const char *o = getenv("VF_OBS"); if (o) { FILE *f = fopen(o, "wb"); if (f) { fwrite(obs.data(), 1, obs.size(), f); fclose(f); } } fflush(stdout); fflush(stderr); _exit(rc); }
extern "C" {
void vf_symbolic(void *p, size_t n, const char *) { for (size_t i = 0; i < n; i++) { if (pos < in.size()) ((char *)p)[i] = in[pos++]; else { ((char *)p)[i] = 0; overrun = true; } } }
void vf_assume(int c) { if (!c) { fprintf(stderr, "VF-ASSUME-FALSE\n"); finish(77); } }
void vf_check(int c, const char *msg) { if (!c) { fprintf(stderr, "VF-CHECK-FAILED: %s\n", msg); finish(42); } }
void vf_fail(const char *msg) { fprintf(stderr, "VF-CHECK-FAILED: %s\n", msg); finish(42); abort(); }
void vf_reach(const char *l) { if (getenv("VF_VERBOSE")) fprintf(stderr, "VF-REACH %s\n", l); }
uint64_t vf_concretize(uint64_t v) { return v; }
void vf_observe(const void *p, size_t n) { obs.append((const char *)p, n); }
int vf_p(int i) { const char *p = getenv("VF_P"); while (p && i-- > 0) { p = strchr(p, ','); if (p) p++; } return p ? atoi(p) : 0; }
int vf_eqmem(const void *a, const void *b, size_t n) { return memcmp(a, b, n) == 0; }
}
int main(int argc, char **argv) {
  const char *fn = argc > 1 ? argv[1] : getenv("VF_IN");
  if (fn) { FILE *f = fopen(fn, "rb"); if (f) { char b[4096]; size_t k; while ((k = fread(b, 1, sizeof b, f)) > 0) in.append(b, k); fclose(f); } }
  vf_main();
  finish(0);
}
