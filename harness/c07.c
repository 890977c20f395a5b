/* C07: copies are equal, independent, and freed exactly once. */
#include "vals.h"
#include "cligen_cv_internal.h"
/* a second description of a value, kept outside it */
struct snap { enum cv_type type; uint64_t x[3]; char s[5][16]; int has[5], name, cnst, flag; char nm[16], show[16]; int shown; };
static void put(struct snap *p, int i, char *s) { p->has[i] = s != NULL; p->s[i][0] = 0; if (s) strcpy(p->s[i], s); }
static void take(struct snap *p, cg_var *cv) {
  memset(p, 0, sizeof *p);
  p->type = cv_type_get(cv);
  p->cnst = cv_const_get(cv);
  p->flag = (cv_flag(cv, 1) != 0) + 2 * (cv_flag(cv, 2) != 0) + 4 * (cv_flag(cv, 0x40) != 0);
  p->name = cv_name_get(cv) != NULL;
  if (p->name) strcpy(p->nm, cv_name_get(cv));
  p->shown = cv->var_show != NULL;
  if (p->shown) strcpy(p->show, cv->var_show);
  switch (p->type) {
  case CGV_INT8: p->x[0] = cv_int8_get(cv); break;
  case CGV_INT16: p->x[0] = cv_int16_get(cv); break;
  case CGV_INT32: p->x[0] = cv_int32_get(cv); break;
  case CGV_INT64: p->x[0] = cv_int64_get(cv); break;
  case CGV_UINT8: p->x[0] = cv_uint8_get(cv); break;
  case CGV_UINT16: p->x[0] = cv_uint16_get(cv); break;
  case CGV_UINT32: p->x[0] = cv_uint32_get(cv); break;
  case CGV_UINT64: p->x[0] = cv_uint64_get(cv); break;
  case CGV_DEC64: p->x[0] = cv_dec64_i_get(cv); p->x[1] = cv_dec64_n_get(cv); break;
  case CGV_BOOL: p->x[0] = cv_bool_get(cv); break;
  case CGV_REST: case CGV_STRING: case CGV_INTERFACE: put(p, 0, cv_string_get(cv)); break;
  case CGV_IPV4ADDR: case CGV_IPV4PFX: memcpy(p->x, cv_ipv4addr_get(cv), 4); p->x[1] = cv_ipv4masklen_get(cv); break;
  case CGV_IPV6ADDR: case CGV_IPV6PFX: memcpy(p->x, cv_ipv6addr_get(cv), 16); p->x[2] = cv_ipv6masklen_get(cv); break;
  case CGV_MACADDR: memcpy(p->x, cv_mac_get(cv), 6); break;
  case CGV_UUID: memcpy(p->x, cv_uuid_get(cv), 16); break;
  case CGV_URL: put(p, 0, cv_urlproto_get(cv)); put(p, 1, cv_urluser_get(cv)); put(p, 2, cv_urlpasswd_get(cv)); put(p, 3, cv_urladdr_get(cv)); put(p, 4, cv_urlpath_get(cv)); break;
  case CGV_TIME: { struct timeval t = cv_time_get(cv); p->x[0] = t.tv_sec; p->x[1] = t.tv_usec; break; }
  case CGV_VOID: p->x[0] = (uint64_t)cv_void_get(cv); break;
  default: break;
  }
}
static int same(const struct snap *a, const struct snap *b) { return eqmem(a, b, sizeof *a); }
/* any name, show, flags */
static void any_meta(cg_var *cv) {
  char s[8];
  if (sym_pick("named", 2)) { int n = sym_pick("nn", 3); sym_str(s, n, "nm"); cv_name_set(cv, s); }
  if (sym_pick("shown", 2)) cv->var_show = strdup("sh");
  cv_const_set(cv, sym_pick("const", 2));
  uint8_t f; sym_bytes(&f, 1, "flag"); cv_flag_set(cv, f);
}
static int longs;
/* overwrite everything in place */
static void spoil(cg_var *cv) {
  switch (longs ? 1 : (int)sym_pick("spoil", 3)) {
  case 0: cv_reset(cv); cv_type_set(cv, CGV_INT8); cv_int8_set(cv, 3); break;
  case 1:
    if (cv_name_get(cv)) cv_name_get(cv)[0] = '#';
    cv_name_set(cv, "other");
    if (VT_ISTR(cv_type_get(cv))) { if (cv_string_get(cv)) cv_string_get(cv)[0] = '#'; cv_string_set(cv, "other"); }
    else if (cv_type_get(cv) == CGV_URL) { if (cv_urladdr_get(cv)) cv_urladdr_get(cv)[0] = '#'; if (cv_urlpath_get(cv)) cv_urlpath_get(cv)[0] = '#'; if (cv_urlproto_get(cv)) cv_urlproto_get(cv)[0] = '#'; if (cv_urluser_get(cv)) cv_urluser_get(cv)[0] = '#'; if (cv_urlpasswd_get(cv)) cv_urlpasswd_get(cv)[0] = '#'; }
    else memset(&cv->u, 0x5a, sizeof cv->u);
    cv_flag_set(cv, 0x42); cv_const_set(cv, !cv_const_get(cv));
    break;
  default: break;
  }
}
void c07_dup(void) {
  int t = sym_arg("t", 0), L = sym_arg("L", 2), how = sym_pick("how", 3);
  struct snap s0, s1;
  uint64_t l0 = sym_live_bytes(), b0 = sym_live_blocks();
  cg_var *a = cv_new(VT[t]), *b = NULL;
  cvec *vec = NULL;
  any_val(a, L, 1);
  if (VT_ISTR(VT[t]) && sym_pick("unset", 2)) cv_reset(a);
  any_meta(a);
  take(&s0, a);
  if (how == 0) b = cv_dup(a);
  else if (how == 1) { b = cv_new(VT[t]); sym_assert(cv_cp(b, a) == 0, "copied"); }
  else { vec = cvec_from_var(a); sym_assert(vec && cvec_len(vec) == 1, "vector of one"); b = cvec_i(vec, 0); }
  sym_assert(b != NULL, "copied");
  take(&s1, b);
  sym_assert(same(&s0, &s1), "copy equals the original");
  take(&s1, a);
  sym_assert(same(&s0, &s1), "original unchanged by copying");
  if (VT[t] != CGV_URL && !(VT_ISTR(VT[t]) && !cv_string_get(a))) sym_assert(cv_cmp(a, b) == 0, "compares equal");
  if (sym_pick("first", 2)) {
    spoil(a); cv_free(a);
    take(&s1, b);
    sym_assert(same(&s0, &s1), "copy independent of the original");
    if (vec) cvec_free(vec); else cv_free(b);
  } else {
    spoil(b); if (vec) cvec_free(vec); else cv_free(b);
    take(&s1, a);
    sym_assert(same(&s0, &s1), "original independent of the copy");
    cv_free(a);
  }
  sym_assert(sym_live_bytes() == l0 && sym_live_blocks() == b0, "all memory released");
  sym_reach("end");
}
/* vectors of up to N variables of arbitrary type */
void c07_vec(void) {
  static const enum cv_type S[] = {CGV_INT64, CGV_STRING, CGV_URL, CGV_IPV6PFX, CGV_EMPTY, CGV_ERR};
  int N = sym_arg("N", 3);
  static struct snap s0[8], s1;
  uint64_t l0 = sym_live_bytes(), b0 = sym_live_blocks();
  int n = sym_pick("n", N + 1), nl = 0;
  char nm[8];
  cvec *v = cvec_new(0);
  int named = sym_pick("vname", 2);
  if (named) { nl = sym_pick("vl", 6); sym_str(nm, nl, "vn"); cvec_name_set(v, nm); }
  for (int i = 0; i < n; i++) {
    cg_var *cv = cvec_add(v, S[sym_pick("type", 6)]);
    if (cv_type_get(cv) == CGV_URL) { cv_urladdr_set(cv, "ad"); if (sym_pick("proto", 2)) cv_urlproto_set(cv, "p"); cv_urlpath_set(cv, "pa"); cv_urluser_set(cv, "u"); }
    else if (cv_type_get(cv) == CGV_IPV6PFX) { char *r = NULL; cv_parse1("2001:db8::1/64", cv, &r); }
    else any_val(cv, 2, 0);
    if (sym_pick("name", 2)) cv_name_set(cv, "nm");
    uint8_t f; sym_bytes(&f, 1, "flag"); cv_flag_set(cv, f); cv_const_set(cv, i & 1);
    take(&s0[i], cv);
  }
  cvec *w = cvec_dup(v);
  sym_assert(w != NULL && cvec_len(w) == n, "same length");
  for (int k = 0; k < 2; k++) {
    for (int i = 0; i < n; i++) { take(&s1, cvec_i(w, i)); sym_assert(same(&s0[i], &s1), "same element"); }
    sym_assert((cvec_name_get(w) != NULL) == named && (!named || eqstr(cvec_name_get(w), nm)), "same vector name");
    if (k == 0) {
      if (sym_pick("first", 2)) { cvec *x = v; v = w; w = x; }   /* compare the original after freeing the copy */
      for (int i = 0; i < n; i++) if (i != 1) spoil(cvec_i(v, i));
      if (n && sym_pick("grow", 2)) cvec_add(v, CGV_STRING);
      cvec_free(v);
    }
  }
  cvec_free(w);
  sym_assert(cvec_dup(NULL) == NULL, "no vector, no copy");
  sym_assert(sym_live_bytes() == l0 && sym_live_blocks() == b0, "all memory released");
  sym_reach("end");
}

/* long texts, and vectors of many */
void c07_long(void) {
  static const int LN[] = {14, 30, 62, 126, 254, 1000, 4095};
  static const enum cv_type S[] = {CGV_STRING, CGV_REST, CGV_INTERFACE, CGV_URL};
  static char x[4200], nm[4200];
  int t = sym_pick("type", 4), n = LN[sym_pick("len", 7)] + sym_pick("more", 3), how = sym_pick("how", 3), k, many = sym_pick("many", 3) * 70 + 1;
  uint64_t l0 = sym_live_bytes(), b0 = sym_live_blocks();
  for (k = 0; k < n; k++) x[k] = nm[k] = 'a' + k % 26;
  x[n - 1] = sym_u8("c", 1, 255);
  nm[n / 2] = sym_u8("d", 1, 255);
  if (many > 1 && n > 64) sym_done();
  longs = 1;
  cvec *v = cvec_new(0), *w;
  for (k = 0; k < many; k++) {
    cg_var *cv = cvec_add(v, S[t]);
    if (t == 3) { cv_urlproto_set(cv, "p"); cv_urladdr_set(cv, x); cv_urlpath_set(cv, nm); cv_urluser_set(cv, x); cv_urlpasswd_set(cv, nm); }
    else cv_string_set(cv, x);
    cv_name_set(cv, nm);
    cv_flag_set(cv, k);
  }
  cvec_name_set(v, nm);
  if (how == 0) w = cvec_dup(v);
  else {
    w = cvec_new(0);
    cvec_name_set(w, nm);
    for (k = 0; k < many; k++) {
      if (how == 1) { cg_var *d = cv_dup(cvec_i(v, k)); sym_assert(d && cvec_append_var(w, d) != NULL, "added"); cv_free(d); }
      else { cg_var *d = cvec_add(w, S[t]); sym_assert(d && cv_cp(d, cvec_i(v, k)) == 0, "copied"); }
    }
  }
  sym_assert(w != NULL && cvec_len(w) == many && eqstr(cvec_name_get(w), nm), "same length and name");
  if (sym_pick("first", 2)) { cvec *y = v; v = w; w = y; }
  for (k = 0; k < many; k += 3) spoil(cvec_i(v, k));
  cvec_free(v);
  for (k = 0; k < many; k++) {
    cg_var *cv = cvec_i(w, k);
    if (k > 2 && k < many - 2) continue;
    sym_assert(cv_type_get(cv) == S[t] && eqstr(cv_name_get(cv), nm) && (cv_flag(cv, 0xff) & 0xff) == (k & 0xff), "same element");
    if (t < 3) sym_assert(eqstr(cv_string_get(cv), x), "same text");
    else sym_assert(eqstr(cv_urlproto_get(cv), "p") && eqstr(cv_urladdr_get(cv), x) && eqstr(cv_urlpath_get(cv), nm) && eqstr(cv_urluser_get(cv), x) && eqstr(cv_urlpasswd_get(cv), nm), "same texts");
  }
  cvec_free(w);
  sym_assert(sym_live_bytes() == l0 && sym_live_blocks() == b0, "all memory released");
  sym_reach("end");
}
