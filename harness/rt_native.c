#define _GNU_SOURCE
/* Native replay runtime: feeds a recorded input vector to a harness linked with the real code. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <inttypes.h>
#include <dlfcn.h>
#include <unistd.h>
#include <time.h>
#include <sys/time.h>
#include <pwd.h>
#include <arpa/inet.h>
#include "sym.h"
#include "env.h"
static FILE *fin, *fobs;
static int nargs;
static char **argl;
static volatile uint64_t live, blocks; /* volatile: libc declares functions "leaf" */
int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
size_t __sanitizer_get_allocated_size(const volatile void *);
static void onm(const volatile void *p, size_t n) { if (p) { live += n; blocks++; } }
static void onf(const volatile void *p) { if (p) { live -= __sanitizer_get_allocated_size(p); blocks--; } }
const char *__asan_default_options(void) { return "malloc_fill_byte=190:max_malloc_fill_size=16000000:detect_leaks=0:allocator_may_return_null=1:exitcode=71:detect_stack_use_after_return=0"; }
void sym_bytes(void *p, size_t n, const char *name) {
  char nm[256];
  size_t k;
  uint64_t l = live, b = blocks;
  if (fscanf(fin, "%255s %zu", nm, &k) != 2 || k != n || strcmp(nm, name)) { fprintf(stderr, "REPLAY-MISMATCH input %s %zu\n", name, n); _exit(72); }
  for (size_t i = 0; i < n; i++) { unsigned x; if (fscanf(fin, " %2x", &x) != 1) _exit(72); ((unsigned char *)p)[i] = x; }
  live = l; blocks = b;
}
void sym_assume(int c) { if (!c) { fprintf(stderr, "REPLAY-ASSUME\n"); fflush(fobs); _exit(73); } }
void sym_assert_(int c, const char *m) { if (!c) { fprintf(stderr, "REPLAY-ASSERT %s\n", m); fflush(fobs); _exit(70); } }
void sym_reach(const char *w) { (void)w; }
void sym_observe(uint64_t v) { uint64_t l = live, b = blocks; fprintf(fobs, "0x%" PRIx64 "\n", v); live = l; blocks = b; }
void sym_observe_mem(const void *p, size_t n) { uint64_t l = live, b = blocks; for (size_t i = 0; i < n; i++) fprintf(fobs, "0x%x\n", ((const unsigned char *)p)[i]); live = l; blocks = b; }
long sym_arg(const char *n, long d) {
  size_t k = strlen(n);
  for (int i = 0; i < nargs; i++) if (strncmp(argl[i], n, k) == 0 && argl[i][k] == '=') return strtol(argl[i] + k + 1, 0, 0);
  return d;
}
uint64_t sym_live_bytes(void) { return live; }
uint64_t sym_live_blocks(void) { return blocks; }
uint64_t sym_concretize(uint64_t v) { return v; }
int sym_is_symbolic(uint64_t v) { (void)v; return 0; }
int sym_same(uint64_t a, uint64_t b) { return a == b; }
int sym_and(int a, int b) { return a && b; }
void sym_stub(const char *f, const char *b) { (void)f; (void)b; }
void sym_done(void) { fflush(fobs); fprintf(stderr, "REPLAY-OK\n"); _exit(0); }
void sym_print(const char *n, uint64_t v) { fprintf(stderr, "PRINT %s: %lld 0x%llx\n", n, (long long)v, (unsigned long long)v); }
void sym_unmodelled(const char *w) { (void)w; }
static FILE *real_out;
static char obuf[1 << 20], oiob[1 << 16]; static FILE *oms;
void h_out_begin(void) { uint64_t l = live, b = blocks; if (!real_out) real_out = stdout; oms = fmemopen(obuf, sizeof obuf - 1, "w"); setvbuf(oms, oiob, _IOFBF, sizeof oiob); stdout = oms; live = l; blocks = b; }
size_t h_out_end(char **p) { uint64_t l = live, b = blocks; fflush(oms); long n = ftell(oms); fclose(oms); stdout = real_out; obuf[n] = 0; *p = obuf; live = l; blocks = b; return n; }
void h_out_free(char *p) { (void)p; }
static void warm(void) {
  struct timeval tv = {0, 0}; struct tm tm; char b[64]; time_t t = 0; struct in_addr a = {0};
  tzset(); localtime_r(&t, &tm); gmtime_r(&t, &tm); mktime(&tm); timegm(&tm); strptime("2000-01-01", "%Y-%m-%d", &tm); strftime(b, sizeof b, "%Y", &tm);
  inet_ntoa(a); snprintf(b, sizeof b, "%s", strerror(2)); strsignal(1); (void)tv; getpwnam("root"); rand();
}
int main(int argc, char **argv) {
  /* INPUTS OBS ENTRY [K=V...] */
  fin = fopen(argv[1], "r");
  fobs = fopen(argv[2], "w");
  if (!fin || !fobs) return 2;
  static char ob[1 << 16];
  setvbuf(fobs, ob, _IOFBF, sizeof ob);
  nargs = argc - 4; argl = argv + 4;
  void (*f)(void) = (void (*)(void))dlsym(RTLD_DEFAULT, argv[3]);
  if (!f) { fprintf(stderr, "no entry %s\n", argv[3]); return 2; }
  warm();
  __sanitizer_install_malloc_and_free_hooks(onm, onf);
  f();
  sym_done();
  (void)argc;
}
