/* C03: all renderings of a value agree; parsing the rendering gives the value back. */
#include <errno.h>
#include "vals.h"
void c03_render(void) {
  errno = ERANGE;      /* left over from something else */
  int ti = sym_arg("t", 0), L = sym_arg("L", 2), mode = sym_arg("mode", 0);
  enum cv_type t = VT[ti];
  cg_var *cv = cv_new(t);
  char big[256], lim[256], *d, *out, *reason = NULL;
  any_val(cv, L, mode);
  uint64_t live0 = sym_live_bytes();
  int n = cv2str(cv, big, sizeof big);
  sym_assert(n >= 0 && n < (int)sizeof big, "rendered");
  if (t == CGV_EMPTY) { big[0] = 0; }
  sym_assert((int)strlen(big) == n, "terminated, full length returned");
  sym_assert(cv2str(cv, NULL, 0) == n, "length without a buffer");
  d = cv2str_dup(cv);
  sym_assert(d && (int)strlen(d) == n && eqmem(d, big, n), "duplicate rendering is the same text");
  cbuf *cb = cbuf_new();
  cprintf(cb, "x");
  sym_assert(cv2cbuf(cv, cb) == 0, "buffer rendering");
  sym_assert((int)cbuf_len(cb) == n + 1 && eqmem(cbuf_get(cb) + 1, big, n), "buffer rendering is the same text");
  /* printing to a stream: same text, strings in double quotes */
  h_out_begin();
  cv_print(stdout, cv);
  size_t on = h_out_end(&out);
  int q = t == CGV_STRING || t == CGV_INTERFACE;
  sym_assert((int)on == n + 2 * q && eqmem(out + q, big, n), "stream rendering is the same text");
  h_out_free(out);
  /* every size limit */
  int sz;
  if (n + 3 <= sym_arg("Z", 12)) sz = sym_pick("size", n + 3);
  else { int c[] = {0, 1, n, n + 1}; sz = c[sym_pick("size", 4)]; }
  memset(lim, 0x7e, sizeof lim);
  sym_assert(cv2str(cv, lim, sz) == n, "full length reported whatever the limit");
  if (t != CGV_EMPTY && sz > 0) {
    int k = sz - 1 < n ? sz - 1 : n;
    sym_assert(lim[k] == 0, "limited rendering is terminated");
    sym_assert(eqmem(lim, big, k), "limited rendering is a prefix");
  }
  sym_assert(lim[sz] == 0x7e && lim[sz + 1] == 0x7e, "nothing written beyond the limit");
  sym_observe_mem(big, n);
  /* and back */
  if (t != CGV_VOID && t != CGV_EMPTY) {
    cg_var *c2 = cv_new(t);
    if (t == CGV_DEC64) cv_dec64_n_set(c2, cv_dec64_n_get(cv));
    if (t == CGV_STRING || t == CGV_REST) for (int i = 0; i < n; i++) sym_assume(big[i] != '\\');   /* backslash is the escape character when typed */
    int r = cv_parse1(big, c2, &reason);
    sym_assert(r == 1 && reason == NULL, "the rendering is accepted");
    if (t == CGV_URL && (strlen(cv_urluser_get(cv)) == 0 && strlen(cv_urlpasswd_get(cv)) == 0)) sym_reach("url without user");
    sym_assert(same_val(cv, c2), "and gives the value back");
    sym_assert(cv_cmp(cv, c2) == 0, "comparing equal");
    cv_free(c2);
  }
  free(d);
  cbuf_free(cb);
  sym_assert(sym_live_bytes() == live0, "nothing leaked");
  cv_free(cv);
  sym_reach("end");
}
/* bounds of each integer type rendered as text: the texts are accepted and are the extreme values */
void c03_max(void) {
  errno = ERANGE;      /* left over from something else */
  int ti = sym_pick("t", 8);
  cg_var *cv = cv_new(VT[ti]), *c2 = cv_new(VT[ti]), *c3 = cv_new(VT[ti]);
  char s[64], *d = cvtype_max2str_dup(VT[ti]), *reason = NULL;
  sym_assert(cvtype_max2str(VT[ti], s, sizeof s) >= 0, "rendered");
  sym_assert(d && eqstr(d, s), "same text");
  cv_max_set(cv);
  sym_assert(cv_parse1(s, c2, &reason) == 1, "accepted");
  sym_assert(same_val(cv, c2), "the largest value");
  any_val(c3, 0, 0);
  sym_assert(cv_cmp(c3, cv) <= 0, "no value is larger");
  cv_min_set(c2);
  sym_assert(cv_cmp(c3, c2) >= 0, "no value is smaller");
  free(d);
  cv_free(cv); cv_free(c2); cv_free(c3);
}
