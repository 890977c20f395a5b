/* C09: a vector of variables is an ordered list under every edit sequence. */
#include "h.h"
#define MAX 80
struct el { int v; int named; char nm[4]; };
static struct el m[MAX];
static int n;
static void same(cvec *v) {
  cg_var *cv = NULL;
  int i = 0;
  sym_assert(cvec_len(v) == n, "length");
  while ((cv = cvec_each(v, cv)) != NULL) {
    sym_assert(i < n, "each ends");
    sym_assert(cv == cvec_i(v, i), "each visits positions in order");
    sym_assert(cv_type_get(cv) == CGV_INT32 && cv_int32_get(cv) == m[i].v, "value kept");
    sym_assert((cv_name_get(cv) != NULL) == m[i].named, "name kept");
    if (m[i].named) sym_assert(eqstr(cv_name_get(cv), m[i].nm), "name kept");
    i++;
  }
  sym_assert(i == n, "each visits all");
  i = 1;
  cv = NULL;
  while ((cv = cvec_each1(v, cv)) != NULL) { sym_assert(i < n && cv == cvec_i(v, i), "each1 skips the first"); i++; }
  sym_assert(i == n || n == 0, "each1 visits the rest");
  sym_assert(cvec_i(v, -1) == NULL && cvec_i(v, n) == NULL && cvec_i(v, n + 1) == NULL, "no element outside");
}
static void put(int i, cg_var *cv, int v) {
  m[i].v = v;
  cv_int32_set(cv, v);
  if (i < sym_arg("many", 0)) { m[i].named = i % 3 != 0; if (m[i].named) { m[i].nm[0] = 'a' + i % 20; m[i].nm[1] = 0; cv_name_set(cv, m[i].nm); } return; }
  m[i].named = sym_pick("named", 2);
  if (m[i].named) { sym_str(m[i].nm, 1, "nm"); cv_name_set(cv, m[i].nm); }
}
static void drop(int i) { for (int k = i; k + 1 < n; k++) m[k] = m[k + 1]; n--; }
void c09_seq(void) {
  int N = sym_arg("N", 3), start = sym_arg("start", 0);
  uint64_t l0 = sym_live_bytes();
  cvec *v = cvec_new(start);
  cg_var *cv;
  n = 0;
  for (; n < start; n++) { cv = cvec_i(v, n); sym_assert(cv_type_get(cv) == CGV_ERR, "fresh element"); cv_type_set(cv, CGV_INT32); put(n, cv, 100 + n); }
  same(v);
  for (int k = 0; k < N; k++) {
    switch (sym_pick("op", 7)) {
    case 0: cv = cvec_add(v, CGV_INT32); sym_assert(cv != NULL && cv == cvec_i(v, n), "added last"); n++; put(n - 1, cv, k); break;
    case 1: {
      cg_var *x = cv_new(CGV_INT32);
      put(n, x, 10 + k);
      cv = cvec_append_var(v, x);
      sym_assert(cv != NULL && cv == cvec_i(v, n), "appended last");
      n++;
      cv_free(x);
      break;
    }
    case 2: if (n) { int i = sym_pick("i", n); cv = cvec_i(v, i); cv_reset(cv); sym_assert(cvec_del(v, cv) == n - 1, "new length"); drop(i); } break;
    case 3: if (n) { int i = sym_pick("i", n); cv_reset(cvec_i(v, i)); sym_assert(cvec_del_i(v, i) == n - 1, "new length"); drop(i); } break;
    case 4: cvec_reset(v); n = 0; break;
    case 5: sym_assert(cvec_del_i(v, sym_pick("neg", 2) ? -1 : n) == -1, "position outside refused"); break;
    case 6: { cg_var *x = cv_new(CGV_INT32); sym_assert(cvec_del(v, x) == n, "not an element"); cv_free(x); break; }
    }
    same(v);
  }
  /* lookup by name: the first with that name */
  char q[4];
  int f = -1;
  sym_str(q, 1, "q");
  cv = cvec_find(v, q);
  for (int i = n - 1; i >= 0; i--) if (m[i].named && m[i].nm[0] == q[0]) f = i;
  sym_assert(cv == (f < 0 ? NULL : cvec_i(v, f)), "first with the name");
  f = -1;
  for (int i = n - 1; i >= 0; i--) if (!m[i].named) f = i;
  sym_assert(cvec_find(v, NULL) == (f < 0 ? NULL : cvec_i(v, f)), "first without name");
  sym_assert(cvec_find(v, "zz") == NULL, "no such name");
  cvec_free(v);
  sym_assert(sym_live_bytes() == l0, "all memory released");
  sym_reach("end");
}
/* lookups that also look at constness and type */
void c09_find(void) {
  int N = sym_arg("N", 3), con[8], str[8];
  char nm[8][4], q[4], val[8][4];
  cvec *v = cvec_new(0);
  int n = sym_pick("n", N + 1), k = -1, w = -1, f = -1;
  for (int i = 0; i < n; i++) {
    str[i] = sym_pick("str", 2);
    cg_var *cv = cvec_add(v, str[i] ? CGV_STRING : CGV_INT32);
    sym_str(nm[i], 1, "nm");
    cv_name_set(cv, nm[i]);
    con[i] = sym_pick("const", 2);
    cv_const_set(cv, con[i]);
    val[i][0] = 'a' + i; val[i][1] = 0;
    if (str[i]) cv_string_set(cv, val[i]);
    sym_assert(cvec_i_str(v, i) == (str[i] ? cv_string_get(cvec_i(v, i)) : NULL) || !str[i], "string at position");
  }
  sym_str(q, 1, "q");
  for (int i = n - 1; i >= 0; i--) if (nm[i][0] == q[0]) { f = i; if (con[i]) k = i; else w = i; }
  sym_assert(cvec_find_keyword(v, q) == (k < 0 ? NULL : cvec_i(v, k)), "first keyword");
  sym_assert(cvec_find_var(v, q) == (w < 0 ? NULL : cvec_i(v, w)), "first variable");
  char *s = cvec_find_str(v, q);
  if (f >= 0 && str[f]) sym_assert(s && eqstr(s, val[f]), "string of the first"); else sym_assert(s == NULL, "not a string");
  sym_assert(cvec_i_str(v, n) == NULL, "no string outside");
  cvec_free(v);
  sym_reach("end");
}
/* no vector at all */
void c09_null(void) {
  sym_assert(cvec_len(NULL) == 0 && cvec_i(NULL, 0) == NULL && cvec_each(NULL, NULL) == NULL && cvec_each1(NULL, NULL) == NULL && cvec_add(NULL, CGV_INT8) == NULL && cvec_find(NULL, "a") == NULL, "absent vector");
  sym_assert(cvec_free(NULL) == 0, "free of no vector");
}
