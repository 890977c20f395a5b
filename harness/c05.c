/* C05: range, length and pattern restrictions accept exactly the union of the intervals. */
#include <errno.h>
#include "cli.h"
#include "vals.h"
#include <cligen/cligen_cv.h>
static cg_varspec cs;
static const enum cv_type T5[] = {CGV_INT8, CGV_INT16, CGV_INT32, CGV_INT64, CGV_UINT8, CGV_UINT16, CGV_UINT32, CGV_UINT64, CGV_DEC64};
static void setnum(cg_var *cv, uint64_t v) {
  switch (cv_type_get(cv)) {
  case CGV_INT8: cv_int8_set(cv, (int8_t)v); break;
  case CGV_INT16: cv_int16_set(cv, (int16_t)v); break;
  case CGV_INT32: cv_int32_set(cv, (int32_t)v); break;
  case CGV_INT64: cv_int64_set(cv, (int64_t)v); break;
  case CGV_UINT8: cv_uint8_set(cv, (uint8_t)v); break;
  case CGV_UINT16: cv_uint16_set(cv, (uint16_t)v); break;
  case CGV_UINT32: cv_uint32_set(cv, (uint32_t)v); break;
  case CGV_UINT64: cv_uint64_set(cv, v); break;
  default: cv_dec64_i_set(cv, (int64_t)v); break;
  }
}
/* the value of a variable of type index t with bit pattern v: sign or zero extended */
static uint64_t norm(int t, uint64_t v) {
  switch (t) {
  case 0: return (uint64_t)(int64_t)(int8_t)v; case 1: return (uint64_t)(int64_t)(int16_t)v; case 2: return (uint64_t)(int64_t)(int32_t)v;
  case 4: return (uint8_t)v; case 5: return (uint16_t)v; case 6: return (uint32_t)v;
  default: return v;
  }
}
static int le(int t, uint64_t a, uint64_t b) { return (t >= 4 && t < 8) ? a <= b : (int64_t)a <= (int64_t)b; }
/* stands for cv2cbuf where the text of the reason is not looked at (C03 decides cv2cbuf) */
int stub_cv2cbuf(cg_var *cv, cbuf *cb) { (void)cv; return cbuf_append_str(cb, "0") < 0 ? -1 : 0; }
/* arbitrary value against up to K arbitrary intervals, each with or without lower bound */
void c05_range(void) {
  errno = ERANGE;      /* left over from something else */
  int t = sym_arg("t", 0), K = sym_arg("K", 2), inside = 0;
  static const int W[] = {1, 2, 4, 8, 1, 2, 4, 8, 8};
  uint64_t v = 0, lo, up;
  char *reason = NULL;
  if (!sym_arg("real", 0)) sym_stub("cv2cbuf", "stub_cv2cbuf");
  H = cligen_init();
  uint64_t live0 = sym_live_bytes();
  memset(&cs, 0, sizeof cs);
  cs.cgs_vtype = T5[t];
  cs.cgs_dec64_n = 2;
  int k = sym_pick("k", K + 1);
  sym_bytes(&v, W[t], "v");
  v = norm(t, v);
  cg_var *cv = cv_new(T5[t]);
  if (t == 8) cv_dec64_n_set(cv, 2);
  setnum(cv, v);
  cs.cgs_rangecvv_low = cvec_new(0);
  cs.cgs_rangecvv_upp = cvec_new(0);
  for (int i = 0; i < k; i++) {
    cg_var *c;
    lo = up = 0;
    int open = sym_pick("open", 2);
    c = cvec_add(cs.cgs_rangecvv_low, open ? CGV_EMPTY : T5[t]);
    if (!open) { if (t == 8) cv_dec64_n_set(c, 2); sym_bytes(&lo, W[t], "lo"); lo = norm(t, lo); setnum(c, lo); }
    c = cvec_add(cs.cgs_rangecvv_upp, T5[t]);
    if (t == 8) cv_dec64_n_set(c, 2);
    sym_bytes(&up, W[t], "up");
    up = norm(t, up);
    setnum(c, up);
    cs.cgs_rangelen++;
    inside |= (open | le(t, lo, v)) & le(t, v, up);
  }
  if (k == 0) inside = 1;
  if (sym_arg("r", 0)) {
    int r = cv_validate(H, cv, &cs, "cmd", &reason);
    sym_assert(r == inside, "accepted exactly inside the union of the intervals");
    sym_assert((r == 0) == (reason != NULL), "reason exactly on refusal");
    if (reason) { sym_assert(reason[0] != 0, "reason not empty"); free(reason); }
    sym_observe(r);
  } else {
    int r = cv_validate(H, cv, &cs, "cmd", NULL);
    sym_assert(r == inside, "accepted exactly inside the union of the intervals");
    sym_observe(r);
  }
  cv_free(cv);
  cvec_free(cs.cgs_rangecvv_low);
  cvec_free(cs.cgs_rangecvv_upp);
  sym_assert(sym_live_bytes() == live0, "nothing leaked");
  cligen_exit(H);
  sym_reach("end");
}
/* string length intervals, arbitrary bounds, strings up to L bytes */
void c05_length(void) {
  errno = ERANGE;      /* left over from something else */
  int K = sym_arg("K", 2), L = sym_arg("L", 4), inside = 0;
  char s[32], *reason = NULL;
  sym_stub("cv2cbuf", "stub_cv2cbuf");
  H = cligen_init();
  uint64_t live0 = sym_live_bytes();
  memset(&cs, 0, sizeof cs);
  cs.cgs_vtype = sym_pick("rest", 2) ? CGV_REST : CGV_STRING;
  int k = 1 + sym_pick("k", K), n = sym_pick("n", L + 1);
  sym_str(s, n, "s");
  cg_var *cv = cv_new(cs.cgs_vtype);
  cv_string_set(cv, s);
  cs.cgs_rangecvv_low = cvec_new(0);
  cs.cgs_rangecvv_upp = cvec_new(0);
  for (int i = 0; i < k; i++) {
    uint64_t lo = 0, up;
    int open = sym_pick("open", 2);
    cg_var *c = cvec_add(cs.cgs_rangecvv_low, open ? CGV_EMPTY : CGV_UINT64);
    if (!open) { sym_bytes(&lo, 8, "lo"); cv_uint64_set(c, lo); }
    c = cvec_add(cs.cgs_rangecvv_upp, CGV_UINT64);
    sym_bytes(&up, 8, "up");
    cv_uint64_set(c, up);
    cs.cgs_rangelen++;
    inside |= (open | (lo <= (uint64_t)n)) & ((uint64_t)n <= up);
  }
  int r = cv_validate(H, cv, &cs, "cmd", NULL);
  sym_assert(r == inside, "accepted exactly inside the union of the intervals");
  (void)reason;
  cv_free(cv);
  cvec_free(cs.cgs_rangecvv_low);
  cvec_free(cs.cgs_rangecvv_upp);
  sym_assert(sym_live_bytes() == live0, "nothing leaked");
  cligen_exit(H);
  sym_reach("end");
}
/* written specifications: the declared bounds are those checked, for every value */
struct spec { const char *text; int t; int n; int64_t b[24]; };
#define OPEN INT64_MIN
static const struct spec S5[] = {
  {"x <v:int8 range[-12:80] range[100:110]>;", 0, 2, {-12, 80, 100, 110}},
  {"x <v:int8 range[-5]>;", 0, 1, {OPEN, -5}},
  {"x <v:int16 range[-16:1000]>;", 1, 1, {-16, 1000}},
  {"x <v:int32 range[125]>;", 2, 1, {OPEN, 125}},
  {"x <v:int32 range[5:5] range[-3:-1] range[7]>;", 2, 3, {5, 5, -3, -1, OPEN, 7}},
  {"x <v:int64 range[-10000000000:10000000000]>;", 3, 1, {-10000000000LL, 10000000000LL}},
  {"x <v:uint8 range[255]>;", 4, 1, {OPEN, 255}},
  {"x <v:uint16 range[1:255] range[65535:65535]>;", 5, 2, {1, 255, 65535, 65535}},
  {"x <v:uint32 range[10:4294967295]>;", 6, 1, {10, 4294967295LL}},
  {"x <v:uint64 range[2:3]>;", 7, 1, {2, 3}},
  {"x <v:decimal64 fraction-digits:4 range[0.1:10]>;", 8, 1, {1000, 100000}},
  {"x <v:decimal64 range[-1.5:2.25] range[7.1:7.2]>;", 8, 2, {-150, 225, 710, 720}},
  {"x <v:int32 range[9:3]>;", 2, 1, {9, 3}},
  {"x <v:string length[2:3] length[5]>;", 9, 2, {2, 3, OPEN, 5}},
  {"x <v:string length[3:4] length[0:1]>;", 9, 2, {3, 4, 0, 1}},
  {"x <v:rest length[2]>;", 10, 1, {OPEN, 2}},
  {"x <v:int32 range[1:2] range[4:5] range[-70:-60] range[10:12] range[20:30] range[-5:-4] range[40:50] range[100:200] range[1000:1001] range[99999:100000]>;", 2, 10,
   {1, 2, 4, 5, -70, -60, 10, 12, 20, 30, -5, -4, 40, 50, 100, 200, 1000, 1001, 99999, 100000}},
  {"x <v:uint64 range[1:1] range[3:3] range[5:5] range[7:7] range[9:9] range[11:11] range[13:13] range[15:15] range[17:17]>;", 7, 9, {1, 1, 3, 3, 5, 5, 7, 7, 9, 9, 11, 11, 13, 13, 15, 15, 17, 17}},
  {"x <v:string length[0:0] length[6:6] length[2:2] length[30:40] length[50:60] length[70:80] length[90:91] length[4:4]>;", 9, 8, {0, 0, 6, 6, 2, 2, 30, 40, 50, 60, 70, 80, 90, 91, 4, 4}},
};
void c05_spec(void) {
  errno = ERANGE;      /* left over from something else */
  int i = sym_pick("spec", sizeof S5 / sizeof S5[0]), inside = 0;
  const struct spec *p = &S5[i];
  static const int W[] = {1, 2, 4, 8, 1, 2, 4, 8, 8};
  sym_stub("cv2cbuf", "stub_cv2cbuf");
  parse_tree *pt = cli(p->text);
  cg_obj *co = kidof(kid(pt, 0), 0);
  sym_assert(co && co->co_type == CO_VARIABLE, "variable");
  cg_var *cv = cv_new(co->co_vtype);
  uint64_t v = 0;
  if (p->t < 9) {
    sym_assert(co->co_vtype == T5[p->t], "declared type");
    sym_bytes(&v, W[p->t], "v");
    v = norm(p->t, v);
    if (p->t == 8) cv_dec64_n_set(cv, co->co_dec64_n);
    setnum(cv, v);
  } else {
    char s[16];
    v = sym_pick("n", 8);
    sym_str(s, v, "s");
    cv_string_set(cv, s);
  }
  int ty = p->t < 9 ? p->t : 7;
  for (int k = 0; k < p->n; k++) inside |= ((p->b[2 * k] == OPEN) | le(ty, (uint64_t)p->b[2 * k], v)) & le(ty, v, (uint64_t)p->b[2 * k + 1]);
  int r = cv_validate(H, cv, co2varspec(co), "cmd", NULL);
  sym_assert(r == inside, "accepted exactly inside the declared intervals");
  sym_observe(r);
  cv_free(cv);
  cli_end();
  sym_reach("end");
}
/* decimals with another number of fraction digits than declared are refused */
void c05_frac(void) {
  errno = ERANGE;      /* left over from something else */
  memset(&cs, 0, sizeof cs);
  cs.cgs_vtype = CGV_DEC64;
  H = cligen_init();
  cs.cgs_dec64_n = 1 + sym_pick("n", 18);
  cg_var *cv = cv_new(CGV_DEC64);
  int m = 1 + sym_pick("m", 18);
  int64_t v;
  sym_bytes(&v, 8, "v");
  cv_dec64_n_set(cv, m);
  cv_dec64_i_set(cv, v);
  sym_assert(cv_validate(H, cv, &cs, "cmd", NULL) == (m == cs.cgs_dec64_n), "same number of fraction digits");
  cv_free(cv);
  cligen_exit(H);
}
