/* C01: integer literals are accepted exactly when representable. */
#include <errno.h>
#include "h.h"
static const enum cv_type TY[8] = {CGV_INT8, CGV_INT16, CGV_INT32, CGV_INT64, CGV_UINT8, CGV_UINT16, CGV_UINT32, CGV_UINT64};
static const int BITS[8] = {8, 16, 32, 64, 8, 16, 32, 64};
/* value of a hexadecimal digit, 99 for anything else, without branches */
static int dv(unsigned char c) { int d = (unsigned)c - '0' < 10, a = ((unsigned)c | 32) - 'a' < 6; return ((int)c - '0') * d + (((int)c | 32) - 'a' + 10) * a + 99 * (1 - (d | a)); }
/* independent reading of a literal: blanks, sign, 0x hex / 0 octal / decimal digits. Returns 1 and sign/magnitude, or 0 */
static int literal(const char *s, int *neg, int *base, const char **digits, int *nd) {
  while (*s == ' ' || (*s >= 9 && *s <= 13)) s++;
  *neg = 0;
  if (*s == '-' || *s == '+') { *neg = *s == '-' ? 1 : 0; s++; }
  *base = 10;
  if (s[0] == '0') {
    *base = 8;
    if ((s[1] == 'x' || s[1] == 'X') && dv(s[2]) < 16) { *base = 16; s += 2; }
  }
  *digits = s;
  *nd = 0;
  while (dv(*s) < *base) { s++; (*nd)++; }
  return *nd > 0 && *s == 0;
}
/* digit string d (base b, n digits) <= limit, without forking on the digits after the leading zeros */
static int le_limit(const char *d, int n, int b, uint64_t lim) {
  char l[72];
  int m = 0;
  uint64_t x = lim;
  do { m++; x /= b; } while (x);
  x = lim;
  for (int i = m - 1; i >= 0; i--) { l[i] = x % b; x /= b; }
  while (n > m && *d == '0') { d++; n--; }
  if (n != m) return n < m;
  int lt = 0, eq = 1;
  for (int i = 0; i < n; i++) { int v = dv(d[i]); lt |= eq & (v < l[i]); eq &= v == l[i]; }
  return lt | eq;
}
static void decide(int t, char *s) {
  int neg, base, nd, ok;
  const char *d;
  uint64_t mag = 0;
  int sgn = t < 4, bits = BITS[t];
  uint64_t pos = sgn ? (1ull << (bits - 1)) - 1 : bits == 64 ? ~0ull : (1ull << bits) - 1;
  cg_var *cv = cv_new(TY[t]);
  char *reason = NULL;
  uint64_t live0 = sym_live_bytes();
  int r = cv_parse1(s, cv, &reason);
  ok = literal(s, &neg, &base, &d, &nd);
  if (ok) {
    if (neg && !sgn) ok = 0;           /* unsigned types admit no minus sign */
    else if (nd <= 15) { /* no overflow: compare numbers */
      for (int i = 0; i < nd; i++) mag = mag * base + dv(d[i]);
      ok = mag <= pos + neg;
    } else ok = le_limit(d, nd, base, pos + neg);
  }
  sym_observe(r);
  sym_assert(r == 0 || r == 1, "parsing does not fail fatally");
  sym_assert((r == 1) == ok, "accepted exactly when it is a literal whose value fits");
  if (r == 1) {
    sym_assert(reason == NULL, "no reason on success");
    mag = 0;
    for (int i = 0; i < nd; i++) mag = mag * base + dv(d[i]);
    int64_t want = neg ? (int64_t)-mag : (int64_t)mag, got = 0;
    switch (t) {
    case 0: got = cv_int8_get(cv); break;
    case 1: got = cv_int16_get(cv); break;
    case 2: got = cv_int32_get(cv); break;
    case 3: got = cv_int64_get(cv); break;
    case 4: got = cv_uint8_get(cv); break;
    case 5: got = cv_uint16_get(cv); break;
    case 6: got = cv_uint32_get(cv); break;
    case 7: got = (int64_t)cv_uint64_get(cv); break;
    }
    /* the value is in range: its low bits determine it */
    sym_assert((((uint64_t)got ^ (uint64_t)want) << (64 - bits)) == 0, "the stored value is exactly the number written");
    sym_observe(got);
    sym_reach("accepted");
  } else {
    sym_assert(reason != NULL && strlen(reason) > 0, "a reason is given");
    free(reason);
    sym_reach("refused");
  }
  sym_assert(sym_live_bytes() == live0, "nothing leaked");
  /* the same decision without a place for the reason */
  cg_var *cv2 = cv_new(TY[t]);
  sym_assert(cv_parse1(s, cv2, NULL) == r, "same decision when no reason is asked for");
  cv_free(cv);
  cv_free(cv2);
}
void c01_any(void) {
  errno = ERANGE;      /* left over from something else */
  char s[16];
  int n = sym_arg("L", 3);
  sym_str(s, n, "s");
  decide(sym_arg("t", 0), s);
}
/* long literals: fixed prefix, n digits of the right base, optional arbitrary last byte */
void c01_digits(void) {
  errno = ERANGE;      /* left over from something else */
  static const char *pre[] = {"", "-", "+", "0x", "-0x", "0X", "0", "-0", " -", "00"};
  static const char *set[] = {"0123456789", "0123456789", "0123456789", "0123456789abcdefABCDEF", "0123456789abcdefABCDEF", "0123456789abcdefABCDEF", "01234567", "01234567", "0123456789", "01234567"};
  char s[48];
  int lo = sym_arg("lo", 1), hi = sym_arg("hi", 20), p = sym_arg("p", 0);
  strcpy(s, pre[p]);
  size_t k = strlen(s);
  int n = lo + sym_pick("n", hi - lo + 1);
  sym_strset(s + k, n, "d", set[p]);
  if (p < 3 || p == 8) sym_assume(s[k] != '0');
  if (sym_arg("trail", 0)) sym_str(s + k + n, 1, "e");
  decide(sym_arg("t", 3), s);
}
void c01_null(void) {
  errno = ERANGE;      /* left over from something else */
  int t = sym_pick("t", 8);
  cg_var *cv = cv_new(TY[t]);
  char *reason = NULL;
  sym_assert(cv_parse1(NULL, cv, &reason) == 0, "no text is no number");
  sym_assert(reason && *reason, "a reason is given");
  free(reason);
  cv_free(cv);
}
