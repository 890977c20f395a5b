/* C29: case-insensitive mode changes letter case matching and nothing else. */
#include "match.h"
#include <cligen_match.h>
#include <cligen_expand.h>
static const struct node T0[] = {KW(-1, "aB", 1), KW(-1, "aBc", 1), KW(-1, "B", 1), KW(-1, "ba", 0), KW(3, "C", 1), KW(3, "cd", 1), KW(3, "Z`", 0), KW(6, "x_", 1), END};
static const struct node T1[] = {KW(-1, "A", 0), KW(0, "Bc", 1), {0, "b", "<b:bool>", CGV_BOOL, 12, 1}, {0, "s", "<s:string>", CGV_STRING, 5, 0}, KW(3, "E", 1), KW(3, "eX", 1), {3, "t", "<t:string>", CGV_STRING, 5, 1}, END};
static const struct node T3[] = {KW(-1, "a", 1), KW(-1, "Q", 0), KW(1, "q", 1), KW(1, "qR", 1), KW(0, "~", 1), KW(0, "_k", 1), END};
static const struct node *T[] = {T0, T1, T3};
static const char *SET[] = {"aAbBcCdDzxX@`_", "aAbBeExXcCtTfF0", "aAqQrRkK~_^?"};
#define NT 3
static void words(struct line *l) {
  any_line(l, sym_arg("K", 2), sym_arg("L", 2), sym_arg("set", 0) ? SET[sym_arg("tree", 0)] : NULL);
}
static const struct node *start(int on) {
  char spec[1024];
  const struct node *t = T[sym_arg("tree", 0)];
  tree_spec(t, sym_arg("order", 0), spec);
  cli(spec);
  nocase = on;
  cligen_caseignore_set(H, on);
  return t;
}
/* match, command, keyword names and values as the rules say, in either mode */
void c29_match(void) {
  struct line l;
  struct result r;
  cg_obj *co = NULL;
  cvec *cvv = NULL;
  cligen_result res = -7;
  char *reason = NULL, *line;
  const struct node *t = start(sym_pick("mode", 2));
  words(&l);
  ref_match(t, &l, &r, 0);
  line = strdup(l.s);
  sym_assert(cliread_parse(H, line, cligen_ph_parsetree_get(cligen_ph_i(H, 0)), &co, &cvv, &res, &reason) == 0, "no error");
  free(line);
  sym_assert((int)res == r.res, "match, no match or ambiguous");
  if (r.res == CG_MATCH) {
    sym_assert(which(co) == r.node, "the command");
    sym_assert(cvec_len(cvv) == r.k + 1, "one value per word");
    for (int i = 0; i < r.k; i++) {
      const struct node *x = &t[r.path[i]];
      cg_var *cv = cvec_i(cvv, i + 1);
      if (!x->decl) sym_assert(eqstr(cv_string_get(cv), x->name) && eqstr(cv_name_get(cv), x->name), "keyword as it is spelled in the specification");
      else {
        sym_assert(cv_cmp(cv, r.val[i]) == 0, "value");
        if (x->t == CGV_STRING) sym_assert(eqmem(cv_string_get(cv), l.w[i], l.n[i] + 1), "letter case of the value is kept");
      }
    }
    sym_reach("match");
  }
  sym_observe(res);
  ref_free(&r);
  if (co) co_free(co, 0);
  if (cvv) cvec_free(cvv);
  free(reason);
  cli_end();
  sym_reach("end");
}
/* two lines that differ in the case of letters: same result, same number of candidates, and completion adds the same text */
struct got { int res, which, n; char name[MAXW + 1][16]; char val[MAXW + 1][16]; int ktot; char comp[80]; int rc; };
static void run(const char *s, struct got *g) {
  cg_obj *co = NULL;
  cvec *cvv = NULL;
  cligen_result res = -7;
  char *reason = NULL, *line = strdup(s);
  memset(g, 0, sizeof *g);
  parse_tree *pt = cligen_ph_parsetree_get(cligen_ph_i(H, 0));
  sym_assert(cliread_parse(H, line, pt, &co, &cvv, &res, &reason) == 0, "no error");
  g->res = res;
  g->which = which(co);
  if (res == CG_MATCH) {
    g->n = cvec_len(cvv);
    for (int i = 1; i < g->n; i++) {
      cg_var *cv = cvec_i(cvv, i);
      strcpy(g->name[i], cv_name_get(cv));
      char *v = cv2str_dup(cv);
      strcpy(g->val[i], cv_const_get(cv) ? v : "");
      free(v);
    }
  }
  free(line);
  if (co) co_free(co, 0);
  if (cvv) cvec_free(cvv);
  free(reason);
  size_t n = 80;
  line = malloc(n);
  strcpy(line, s);
  cvv = cvec_start(s);
  parse_tree *ptn = pt_new();
  sym_assert(pt_expand(H, NULL, pt, NULL, cvv, 1, 0, NULL, NULL, ptn) == 0, "tree expanded");
  g->rc = match_complete(H, ptn, &line, &n, cvv);
  cvec_free(cvv);
  pt_free(ptn, 0);
  pt_expand_cleanup(H, pt);
  strcpy(g->comp, line);
  free(line);
}
void c29_pair(void) {
  struct line l;
  struct got a, b;
  char s2[80];
  start(1);
  words(&l);
  strcpy(s2, l.s);
  char *p = s2;
  /* the case of values counts: no words for the boolean variable */
  if (sym_arg("tree", 0) == 1) for (int i = 0; i < l.k; i++) sym_assume(!in_set(l.w[i][0], "oOtTfF"));
  for (int i = 0; i < l.k; i++, p++) for (int j = 0; j < l.n[i]; j++, p++) {
    unsigned char c = l.w[i][j], f = sym_u8("flip", 0, 1);
    int letter = (c >= 'a' && c <= 'z') | (c >= 'A' && c <= 'Z');
    *p = c ^ ((f & letter) << 5);
  }
  run(l.s, &a);
  run(s2, &b);
  sym_assert(a.res == b.res, "same result");
  sym_assert(a.which == b.which, "same command");
  sym_assert(a.n == b.n, "same number of values");
  for (int i = 1; i < a.n; i++) {
    sym_assert(eqstr(a.name[i], b.name[i]), "same names");
    sym_assert(eqstr(a.val[i], b.val[i]), "same keywords");
  }
  sym_assert(a.rc == b.rc && strlen(a.comp) == strlen(b.comp), "same completion");
  int n = strlen(l.s);
  sym_assert(eqmem(a.comp, l.s, n) && eqmem(b.comp, s2, n), "completion keeps what was typed");
  sym_assert(strlen(a.comp) != strlen(b.comp) || eqstr(a.comp + n, b.comp + n), "completion adds the same");
  cli_end();
  sym_reach("end");
}

/* long keywords: case flipped anywhere, one character any */
void c29_long(void) {
  static const int LN[] = {2, 15, 31, 63, 127};
  static char a[160], b[160], w[400], spec[800];
  int n = LN[sym_pick("len", 5)] + sym_pick("more", 2), flip = sym_pick("flip", 4), at = sym_pick("at", 4), cut = sym_pick("cut", 3), on = sym_pick("mode", 2), k;
  for (k = 0; k < n; k++) a[k] = b[k] = (k % 3 ? 'a' : 'A') + k % 26;
  a[n] = 'x'; b[n] = 'Y'; a[n + 1] = b[n + 1] = 0;
  snprintf(spec, sizeof spec, "~; %s, cb(); %s { %s, cb(); }", a, b, a);
  cli(spec);
  nocase = on;
  cligen_caseignore_set(H, on);
  int sub = sym_pick("below", 2), m = n + 1 - cut;
  char *s = w, *q, *full = sub ? a : sym_pick("which", 2) ? a : b;
  if (sub) { for (k = 0; k <= n; k++) *s++ = b[k] ^ (on && flip == 1 ? 32 : 0); *s++ = ' '; }
  q = s;
  for (k = 0; k < m; k++) *s++ = full[k] ^ (flip == 1 || (flip == 2 && k % 2) || (flip == 3 && k == n / 2) ? 32 : 0);
  q[at == 0 ? 0 : at == 1 ? m / 2 : m - 1] = sym_u8("c", '0', 'z');
  *s = 0;
  if (cut == 0 && at == 3) { *s++ = sym_u8("more", 'a', 'z'); *s = 0; m++; }
  for (k = 0; k < m; k++) sym_assume(q[k] != '?' && q[k] != '\\');
  /* which of the two can it be */
  int A = 1, B = 1, fa, fb;
  for (k = 0; k < m; k++) {
    int ca = k <= n ? a[k] : 0, cb = k <= n ? b[k] : 0, c = q[k];
    A &= on ? fold(c) == fold(ca) : c == ca;
    B &= on ? fold(c) == fold(cb) : c == cb;
  }
  fa = A & (m == n + 1); fb = B & (m == n + 1);
  if (sub) B = fb = 0;
  int want = A + B == 0 ? CG_NOMATCH : A + B == 2 && !fa && !fb ? CG_MULTIPLE : B && !sub ? CG_NOMATCH : CG_MATCH;
  cg_obj *co = NULL;
  cvec *cvv = NULL;
  cligen_result res = -7;
  char *reason = NULL;
  sym_assert(cliread_parse(H, w, cligen_ph_parsetree_get(cligen_ph_i(H, 0)), &co, &cvv, &res, &reason) == 0, "no error");
  sym_assert((int)res == want, "match, no match or ambiguous");
  if (res == CG_MATCH) sym_assert(eqstr(co->co_command, a) && eqstr(cv_string_get(cvec_i(cvv, 1 + sub)), a), "keyword as it is spelled in the specification");
  if (co) co_free(co, 0);
  if (cvv) cvec_free(cvv);
  free(reason);
  cli_end();
  sym_reach("end");
}
