/* C06: cv_cmp is a total order per type, zero exactly for equal values, numeric for numbers. */
#include "vals.h"
static int sgn(int x) { return (x > 0) - (x < 0); }
/* as any_val, every byte of fixed size values arbitrary */
static void raw(cg_var *cv, int L, int mode) {
  char *r = NULL;
  switch (cv_type_get(cv)) {
  case CGV_IPV6ADDR: cv_parse1("::", cv, &r); sym_bytes(cv_ipv6addr_get(cv), 16, "a"); break;
  case CGV_IPV6PFX: cv_parse1(sym_pick("m", 2) ? "::/64" : "::/127", cv, &r); sym_bytes(cv_ipv6addr_get(cv), 16, "a"); break;
  case CGV_MACADDR: sym_bytes(cv_mac_get(cv), 6, "mac"); break;
  case CGV_UUID: { unsigned char u[16]; sym_bytes(u, 16, "u"); cv_uuid_set(cv, u); break; }
  default: any_val(cv, L, mode);
  }
}
void c06_order(void) {
  int t = sym_arg("t", 0), L = sym_arg("L", 2), mode = sym_arg("mode", 1);
  cg_var *a = cv_new(VT[t]), *b = cv_new(VT[t]), *c = NULL;
  raw(a, L, mode);
  raw(b, L, mode);
  if (sym_arg("three", 1)) { c = cv_new(VT[t]); raw(c, L, mode); }
  int ab = cv_cmp(a, b), ba = cv_cmp(b, a);
  sym_assert(((ab == 0) ^ same_val(a, b)) == 0, "zero exactly for equal values");
  sym_assert(((ab > 0) == (ba < 0)) & ((ab < 0) == (ba > 0)), "antisymmetric");
  sym_assert(cv_cmp(a, a) == 0, "reflexive");
  if (c) {
    int bc = cv_cmp(b, c), ac = cv_cmp(a, c);
    sym_assert(!((ab <= 0) & (bc <= 0)) | (ac <= 0), "transitive");
    sym_assert(!((ab <= 0) & (bc < 0)) | (ac < 0), "transitive, strict");
  }
  switch (VT[t]) {
  case CGV_INT8: sym_assert((ab < 0) == (cv_int8_get(a) < cv_int8_get(b)), "numeric order"); break;
  case CGV_INT16: sym_assert((ab < 0) == (cv_int16_get(a) < cv_int16_get(b)), "numeric order"); break;
  case CGV_INT32: sym_assert((ab < 0) == (cv_int32_get(a) < cv_int32_get(b)), "numeric order"); break;
  case CGV_INT64: sym_assert((ab < 0) == (cv_int64_get(a) < cv_int64_get(b)), "numeric order"); break;
  case CGV_UINT8: sym_assert((ab < 0) == (cv_uint8_get(a) < cv_uint8_get(b)), "numeric order"); break;
  case CGV_UINT16: sym_assert((ab < 0) == (cv_uint16_get(a) < cv_uint16_get(b)), "numeric order"); break;
  case CGV_UINT32: sym_assert((ab < 0) == (cv_uint32_get(a) < cv_uint32_get(b)), "numeric order"); break;
  case CGV_UINT64: sym_assert((ab < 0) == (cv_uint64_get(a) < cv_uint64_get(b)), "numeric order"); break;
  case CGV_DEC64: sym_assert((ab < 0) == (cv_dec64_i_get(a) < cv_dec64_i_get(b)), "numeric order"); break;
  default: break;
  }
  sym_observe(sgn(ab) + 1);
  cv_free(a); cv_free(b); if (c) cv_free(c);
  sym_reach("end");
}
/* values of different types are never equal and compare consistently; the string types form one type */
void c06_types(void) {
  int i = sym_pick("i", NVT), j = sym_pick("j", NVT);
  cg_var *a = cv_new(VT[i]), *b = cv_new(VT[j]);
  if (VT_ISTR(VT[i])) cv_string_set(a, "x");
  if (VT_ISTR(VT[j])) cv_string_set(b, sym_pick("same", 2) ? "x" : "y");
  if (VT[i] == CGV_URL || VT[j] == CGV_URL) { if (i == j) sym_done(); }
  int r = cv_cmp(a, b), s = cv_cmp(b, a);
  sym_assert(sgn(r) == -sgn(s), "antisymmetric across types");
  if (i != j && !(VT_ISTR(VT[i]) && VT_ISTR(VT[j]))) sym_assert(r != 0, "different types are different");
  if (VT_ISTR(VT[i]) && VT_ISTR(VT[j])) sym_assert((r == 0) == (strcmp(cv_string_get(a), cv_string_get(b)) == 0), "strings by content");
  cv_free(a); cv_free(b);
  sym_reach("end");
}

/* long strings that differ far from the start, or in length only */
void c06_long(void) {
  static const enum cv_type S[] = {CGV_STRING, CGV_REST, CGV_INTERFACE};
  static const int LN[] = {8, 16, 31, 64, 255, 1000};
  static char x[1100], y[1100], z[1100];
  int t = sym_pick("type", 3), n = LN[sym_pick("len", 6)] + sym_pick("more", 3), at = sym_pick("at", 3), k, cut = sym_pick("cut", 3);
  for (k = 0; k < n; k++) x[k] = y[k] = z[k] = 'a' + k % 26;
  at = at == 0 ? 0 : at == 1 ? n / 2 : n - 1;
  x[at] = sym_u8("x", 1, 255); y[at] = sym_u8("y", 1, 255); z[at] = sym_u8("z", 1, 255);
  if (cut == 1) x[n - 1] = 0;
  if (cut == 2) y[n / 2 + 1] = 0;
  cg_var *a = cv_new(S[t]), *b = cv_new(S[t]), *c = cv_new(S[t]);
  cv_string_set(a, x); cv_string_set(b, y); cv_string_set(c, z);
  int ab = cv_cmp(a, b), ba = cv_cmp(b, a), bc = cv_cmp(b, c), ac = cv_cmp(a, c);
  sym_assert((ab == 0) == eqstr(x, y), "zero exactly for equal values");
  sym_assert(((ab > 0) == (ba < 0)) & ((ab < 0) == (ba > 0)), "antisymmetric");
  sym_assert(!((ab <= 0) & (bc <= 0)) | (ac <= 0), "transitive");
  sym_assert(cv_cmp(a, a) == 0, "reflexive");
  cv_free(a); cv_free(b); cv_free(c);
  sym_reach("end");
}
