/* Native counterpart of the symbolic executor's intrinsics: runs one harness entry of the real build
   on concrete inputs.   native SO ENTRY INPUTS
   exit 0: every check held; 3: an assumption failed (inputs not applicable); 10: a check failed. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <signal.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
struct kv { char *k; uint64_t v; };
static struct kv *in; static int nin;
static struct kv cnt[4096]; static int ncnt;
static int expect = -1, allow, failed;
static char *dup_n(const char *p, size_t l) { char *s = malloc(l + 1); memcpy(s, p, l); s[l] = 0; return s; }
static uint64_t get(const char *k) { for (int i = 0; i < nin; i++) if (!strcmp(in[i].k, k)) return in[i].v; return 0; }
static int *counter(const char *k) {
  static int c[4096];
  for (int i = 0; i < ncnt; i++) if (!strcmp(cnt[i].k, k)) return &c[i];
  if (ncnt >= 4096) _exit(4);
  cnt[ncnt].k = strdup(k); return &c[ncnt++];
}
static uint64_t m(uint64_t v, uint32_t b) { return b >= 64 ? v : v & ((1ull << b) - 1); }
uint64_t sx_input(const char *p, size_t l, uint32_t b) {
  char *n = dup_n(p, l), full[600]; int *c = counter(n); ++*c;
  if (*c == 1) return m(get(n), b);
  snprintf(full, sizeof full, "%s#%d", n, *c); return m(get(full), b);
}
uint64_t sx_mirror(const char *p, size_t l, uint32_t b) {
  char *n = dup_n(p, l), full[600]; int *c = counter(n);
  if (*c <= 1) return m(get(n), b);
  snprintf(full, sizeof full, "%s#%d", n, *c); return m(get(full), b);
}
uint64_t sx_param(const char *p, size_t l, uint64_t d) {
  char *n = dup_n(p, l), full[600]; snprintf(full, sizeof full, "%%%s", n);
  for (int i = 0; i < nin; i++) if (!strcmp(in[i].k, full)) return in[i].v;
  return d;
}
static void fin(int code) { fflush(stdout); _exit(code); }
void sx_assume(bool b) { if (!b) { printf("ASSUME failed\n"); fin(failed ? 10 : 3); } }
void sx_check(bool b, const char *p, size_t l) { printf("CHECK %d %.*s\n", b, (int)l, p); if (!b) { printf("FAILED %.*s\n", (int)l, p); failed = 1; } }
void sx_reach(const char *p, size_t l) { printf("REACH %.*s\n", (int)l, p); }
void sx_expect_panic(bool b) { expect = b; }
void sx_allow_panic(void) { allow = 1; }
void sx_forbid_panic(void) { allow = 0; }
void sx_bound_loops(uint64_t n) { (void)n; }
bool sx_branch(bool b) { return b; }
uint64_t sx_pick(uint64_t v) { return v; }
void sx_out(const char *p, size_t l, uint64_t v) { printf("OUT %.*s %llx\n", (int)l, p, (unsigned long long)v); }
void sx_ftoken(const char *p, size_t l, double v) { (void)p; (void)l; (void)v; }
bool sx_symbolic(void) { return false; }
bool sx_fsame64(double a, double b) { uint64_t x, y; memcpy(&x, &a, 8); memcpy(&y, &b, 8); return x == y || (a != a && b != b); }
bool sx_fsame32(float a, float b) { uint32_t x, y; memcpy(&x, &a, 4); memcpy(&y, &b, 4); return x == y || (a != a && b != b); }
void sx_print(const char *p, size_t l) { printf("PRINT %.*s\n", (int)l, p); }
static void done(void) {
  if (expect == 1) { printf("FAILED missing-rejection\n"); fin(10); }
  fin(failed ? 10 : 0);
}
void sx_stop(void) { done(); }
static void onabort(int sig) {
  if (failed) fin(10);
  printf("PANIC signal %d\n", sig);
  if (sig == SIGABRT || sig == SIGILL || sig == SIGTRAP) {
    if (allow || expect == 1) fin(0);
    printf("FAILED %s\n", expect == 0 ? "unexpected-rejection" : "unexpected-panic");
  } else printf("FAILED crash\n");
  fin(10);
}
int main(int argc, char **argv) {
  if (argc < 4) return 2;
  FILE *f = fopen(argv[3], "r"); char k[600], v[64];
  in = calloc(100000, sizeof *in);
  if (f) { while (nin < 100000 && fscanf(f, "%599s %63s", k, v) == 2) { in[nin].k = strdup(k); in[nin++].v = strtoull(v, 0, 16); } fclose(f); }
  void *so = dlopen(argv[1], RTLD_NOW | RTLD_GLOBAL);
  if (!so) { fprintf(stderr, "%s\n", dlerror()); return 2; }
  void (*e)(void) = (void (*)(void))dlsym(so, argv[2]);
  if (!e) { fprintf(stderr, "no entry %s\n", argv[2]); return 2; }
  signal(SIGABRT, onabort); signal(SIGILL, onabort); signal(SIGTRAP, onabort); signal(SIGSEGV, onabort); signal(SIGFPE, onabort);
  alarm(60);
  e(); done(); return 0;
}
