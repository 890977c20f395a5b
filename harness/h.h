/* Common helpers for harnesses. */
#ifndef H_H
#define H_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <inttypes.h>
#include <errno.h>
#include <stdarg.h>
#include <unistd.h>
#include <sys/types.h>
#include <netinet/in.h>
#include <cligen/cligen.h>
#include "sym.h"
#include "env.h"
/* symbolic byte in [lo,hi] */
static inline unsigned char sym_u8(const char *name, unsigned lo, unsigned hi) {
  unsigned char b;
  sym_bytes(&b, 1, name);
  sym_assume((unsigned)(b - lo) <= hi - lo);
  return b;
}
/* one of 0..n-1, decided by forking */
static inline unsigned sym_pick(const char *name, unsigned n) {
  if (n <= 1) return 0;
  return (unsigned)sym_concretize(sym_u8(name, 0, n - 1));
}
/* one character of the set, symbolic */
static inline int in_set(unsigned char c, const char *set) { int r = 0; for (; *set; set++) r |= (c == (unsigned char)*set); return r; }
/* n symbolic bytes, none of them NUL, then NUL */
static inline void sym_str(char *buf, size_t n, const char *name) {
  if (n) sym_bytes(buf, n, name);
  buf[n] = 0;
  for (size_t i = 0; i < n; i++) sym_assume(buf[i] != 0);
}
/* as sym_str over an alphabet */
static inline void sym_strset(char *buf, size_t n, const char *name, const char *set) {
  if (n) sym_bytes(buf, n, name);
  buf[n] = 0;
  for (size_t i = 0; i < n; i++) sym_assume(in_set(buf[i], set));
}
/* equality of two byte blocks without forking */
static inline int eqmem(const void *a, const void *b, size_t n) {
  const unsigned char *x = a, *y = b;
  unsigned d = 0;
  for (size_t i = 0; i < n; i++) d |= x[i] ^ y[i];
  return d == 0;
}
/* string equals given bytes (s must have at least n+1 readable bytes; no fork when lengths are right) */
static inline int eqstr(const char *s, const char *t) {
  size_t n = strlen(t);
  return strlen(s) == n && eqmem(s, t, n);
}
#endif
