/* C02: decimal64 values parse, print and round-trip exactly. */
#include <errno.h>
#include "h.h"
/* [blanks][sign]digits*[.digits*], at least one digit; at most n fraction digits */
static int literal(const char *s, int n, int *neg, char *dig, int *nd) {
  int f = 0, any = 0, k = 0;
  while (*s == ' ' || (*s >= 9 && *s <= 13)) s++;
  *neg = 0;
  if (*s == '-' || *s == '+') { *neg = *s == '-' ? 1 : 0; s++; }
  while (*s >= '0' && *s <= '9') { dig[k++] = *s++; any = 1; }
  if (*s == '.') { s++; while (*s >= '0' && *s <= '9') { if (k < 60) dig[k++] = *s; s++; f++; any = 1; } }
  if (*s != 0 || !any || f > n) return 0;
  for (; f < n; f++) dig[k++] = '0';
  *nd = k;
  return 1;
}
static int le_limit(const char *d, int n, const char *l) {
  int m = strlen(l), lt = 0, eq = 1;
  while (n > m && *d == '0') { d++; n--; }
  if (n != m) return n < m;
  for (int i = 0; i < n; i++) { lt |= eq & (d[i] < l[i]); eq &= d[i] == l[i]; }
  return lt | eq;
}
static void decide(const char *s, int n) {
  char dig[96];
  int neg, nd = 0;
  cg_var *cv = cv_new(CGV_DEC64);
  char *reason = NULL;
  cv_dec64_n_set(cv, n);
  uint64_t live0 = sym_live_bytes();
  int r = cv_parse1(s, cv, &reason);
  int ok = literal(s, n, &neg, dig, &nd);
  if (ok) ok = le_limit(dig, nd, neg ? "9223372036854775808" : "9223372036854775807");
  sym_observe(r);
  sym_assert((r == 1) == ok, "accepted exactly when it is a decimal literal that fits");
  sym_assert(r == 0 || r == 1, "no fatal error");
  sym_assert(cv_dec64_n_get(cv) == n, "number of fraction digits unchanged");
  if (r == 1) {
    uint64_t mag = 0;
    for (int i = 0; i < nd; i++) mag = mag * 10 + (dig[i] - '0');
    sym_assert(reason == NULL, "no reason on success");
    sym_assert(cv_dec64_i_get(cv) == (int64_t)(neg ? -mag : mag), "stored as value*10^n");
    sym_observe(cv_dec64_i_get(cv));
    sym_reach("accepted");
  } else {
    sym_assert(reason && *reason, "a reason is given");
    free(reason);
    sym_reach("refused");
  }
  sym_assert(sym_live_bytes() == live0, "nothing leaked");
  cv_free(cv);
}
void c02_any(void) {
  errno = ERANGE;      /* left over from something else */
  char s[16];
  int n = sym_arg("n", 0);
  if (!n) n = 1 + sym_pick("n", 3);
  sym_str(s, sym_arg("L", 3), "s");
  decide(s, n);
}
/* sign, a digits, dot, b digits */
void c02_digits(void) {
  errno = ERANGE;      /* left over from something else */
  char s[64];
  int n = sym_arg("n", 2), k = 0;
  int a = sym_arg("alo", 0), b = 0;
  if (sym_arg("neg", 0)) s[k++] = '-';
  a += sym_pick("a", sym_arg("ahi", 20) - a + 1);
  sym_strset(s + k, a, "i", "0123456789");
  if (a > 1) sym_assume(s[k] != '0');
  k += a;
  if (sym_pick("dot", 2)) {
    s[k++] = '.';
    b = sym_pick("b", n + 2);
    sym_strset(s + k, b, "f", "0123456789");
    k += b;
  }
  s[k] = 0;
  decide(s, n);
}
/* invalid number of fraction digits */
void c02_badn(void) {
  errno = ERANGE;      /* left over from something else */
  cg_var *cv = cv_new(CGV_DEC64);
  char *reason = NULL;
  uint8_t n = sym_u8("n", 0, 255);
  sym_assume(n == 0 || n > 18);
  cv_dec64_n_set(cv, n);
  sym_assert(cv_parse1("1.0", cv, &reason) != 1, "refused");
  free(reason);
  cv_free(cv);
}
/* print any stored number and read it back */
void c02_print(void) {
  errno = ERANGE;      /* left over from something else */
  int n = sym_arg("n", 2);
  int lim = sym_arg("lim", 0);
  int64_t v;
  char buf[64], *reason = NULL;
  if (!sym_arg("edge", 0)) sym_bytes(&v, 8, "v");
  if (lim) { if (sym_arg("neg", 0)) sym_assume(v < 0 && v > -lim); else sym_assume(v >= 0 && v < lim); }
  else if (sym_arg("edge", 0)) {
    static const int64_t E[] = {INT64_MIN, INT64_MIN + 1, INT64_MAX, INT64_MAX - 1, 0, 1, -1, 999999999999999999, 1000000000000000000, -1000000000000000000, -999999999999999999};
    v = E[sym_pick("e", sizeof E / sizeof *E)];
  }
  else if (sym_arg("neg", 0)) sym_assume(v < 0); else sym_assume(v >= 0);
  cg_var *cv = cv_new(CGV_DEC64), *c2 = cv_new(CGV_DEC64);
  cv_dec64_n_set(cv, n);
  cv_dec64_n_set(c2, n);
  cv_dec64_i_set(cv, v);
  int len = cv2str(cv, buf, sizeof buf);
  sym_assert(len == (int)strlen(buf), "length reported");
  int i = 0, nd = 0, f = 0;
  uint64_t mag = 0;
  int neg = 0;
  if (buf[0] == '-') { neg = 1; i = 1; }
  sym_assert(neg == (v < 0), "sign shown for negative numbers only");
  for (; buf[i] >= '0' && buf[i] <= '9'; i++) { nd++; mag = mag * 10 + (buf[i] - '0'); }
  sym_assert(nd >= 1, "an integer digit");
  sym_assert(buf[i] == '.', "a decimal point");
  for (i++; buf[i] >= '0' && buf[i] <= '9'; i++) { f++; mag = mag * 10 + (buf[i] - '0'); }
  sym_assert(buf[i] == 0 && f == n, "exactly n fraction digits");
  sym_assert(mag == (uint64_t)(neg ? -v : v), "the text denotes the stored number");
  sym_assert(cv_parse1(buf, c2, &reason) == 1, "the text is accepted again");
  sym_assert(cv_dec64_i_get(c2) == v, "and gives the same stored value");
  sym_assert(cv_cmp(cv, c2) == 0, "values compare equal");
  cbuf *cb = cbuf_new();
  cv2cbuf(cv, cb);
  sym_assert(eqstr(cbuf_get(cb), buf), "buffer rendering is the same");
  sym_observe_mem(buf, len + 1);
  cbuf_free(cb);
  cv_free(cv);
  cv_free(c2);
  sym_reach("end");
}
