/* C08: the string buffer holds exactly what was appended. */
#include "h.h"
#define CAP 512
static char model[CAP];
static size_t mlen;
static void check(cbuf *cb) {
  char *p = cbuf_get(cb);
  sym_assert(p != NULL, "buffer present");
  sym_assert(cbuf_len(cb) == mlen, "length is the number of bytes held");
  sym_assert(cbuf_buflen(cb) > mlen, "allocation covers content and terminator");
  sym_assert(p[mlen] == 0, "terminated");
  sym_assert(eqmem(p, model, mlen), "content is what was appended");
}
static void put(const void *p, size_t n) { memcpy(model + mlen, p, n); mlen += n; }
static void var(cbuf *cb, const char *f, ...) { va_list ap; va_start(ap, f); sym_assert(vcprintf(cb, f, ap) == 0, "vcprintf ok"); va_end(ap); }
/* a sequence of operations on a buffer of a given start size and growth threshold */
void c08_seq(void) {
  int steps = sym_arg("N", 3), L = sym_arg("L", 3), smax = sym_arg("S", 4);
  uint64_t live0 = sym_live_bytes();
  size_t st = 1 + sym_pick("start", smax), th = sym_pick("thresh", 4);
  size_t s0, t0;
  cbuf_alloc_get(&s0, &t0);
  sym_assert(cbuf_alloc_set(st, th) == 0, "alloc_set");
  size_t s1, t1;
  cbuf_alloc_get(&s1, &t1);
  sym_assert(s1 == st && t1 == th, "alloc parameters read back");
  cbuf *cb = sym_pick("new", 2) ? cbuf_new() : cbuf_new_alloc(st);
  mlen = 0;
  check(cb);
  for (int k = 0; k < steps; k++) {
    char s[16];
    switch (sym_pick("op", 9)) {
    case 0: { size_t n = sym_pick("n", L + 1); sym_str(s, n, "s"); sym_assert(cprintf(cb, "%s", s) == 0, "cprintf ok"); put(s, n); break; }
    case 1: { size_t n = sym_pick("n", L + 1); sym_str(s, n, "s"); sym_assert(cbuf_append_str(cb, s) == 0, "append_str ok"); put(s, n); break; }
    case 2: { size_t n = sym_pick("n", L + 1); if (n) sym_bytes(s, n, "s"); sym_assert(cbuf_append_buf(cb, s, n) == 0, "append_buf ok"); put(s, n); break; }
    case 3: { sym_str(s, 1, "c"); sym_assert(cbuf_append(cb, s[0]) == 0, "append ok"); put(s, 1); break; }
    case 4: { size_t i = sym_pick("i", mlen + 3); int r = cbuf_trunc(cb, i); sym_assert((r == 0) == (i <= mlen), "trunc accepts exactly 0..len"); if (r == 0) mlen = i; break; }
    case 5: cbuf_reset(cb); mlen = 0; break;
    case 6: { size_t n = sym_pick("n", L + 1); sym_str(s, n, "s"); var(cb, "<%s%c>", s, 'x'); put("<", 1); put(s, n); put("x>", 2); break; }
    case 7: { unsigned char v = sym_u8("v", 0, 255); sym_assert(cprintf(cb, "%u:%-3d|", v, 7) == 0, "cprintf ok"); char t[16]; int m = snprintf(t, sizeof t, "%u:7  |", v); put(t, m); break; }
    case 8: sym_assert(cbuf_append_str(cb, NULL) < 0, "NULL refused"); sym_assert(cbuf_append_buf(cb, NULL, 1) < 0, "NULL refused"); break;
    }
    check(cb);
    sym_observe(cbuf_len(cb));
  }
  sym_observe_mem(cbuf_get(cb), mlen + 1);
  cbuf_free(cb);
  cbuf_alloc_set(s0, t0);
  sym_assert(sym_live_bytes() == live0, "all memory released");
  sym_reach("end");
}
/* one append of a block to a buffer in an arbitrary fill state: sizes around every growth boundary */
void c08_grow(void) {
  int S = sym_arg("S", 20), A = sym_arg("A", 24), th = sym_arg("T", 0), op = sym_arg("op", 0);
  size_t s0, t0;
  cbuf_alloc_get(&s0, &t0);
  cbuf_alloc_set(s0, th);
  static char a[CAP], b[CAP];
  cbuf *cb = cbuf_new_alloc(1 + sym_pick("start", S));
  size_t n1 = sym_pick("n1", A), n2 = sym_pick("n2", A);
  for (size_t i = 0; i < n1; i++) a[i] = 'a' + i % 26;
  a[n1] = 0;
  if (n2) sym_bytes(b, n2, "b");
  b[n2] = 0;
  for (size_t i = 0; i < n2; i++) sym_assume(b[i] != 0);
  mlen = 0;
  cprintf(cb, "%s", a); put(a, n1);
  check(cb);
  if (op == 0) cprintf(cb, "%s", b); else if (op == 1) cbuf_append_str(cb, b); else cbuf_append_buf(cb, b, n2);
  put(b, n2);
  check(cb);
  cbuf_free(cb);
  cbuf_alloc_set(s0, t0);
  sym_reach("end");
}
/* buffers created with size zero work like any other */
void c08_zero(void) {
  cbuf *cb = cbuf_new_alloc(0);
  char s[4];
  size_t n = sym_pick("n", 3);
  sym_str(s, n, "s");
  mlen = 0;
  cbuf_append_str(cb, s);
  put(s, n);
  check(cb);
  cbuf_free(cb);
  sym_reach("end");
}
