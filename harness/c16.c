/* C16: a matched line delivers exactly the typed values to the command. */
#include "match.h"
static int r15(cg_var *cv) { return cv_int32_get(cv) >= 1 && cv_int32_get(cv) <= 5; }
static const struct node T0[] = {KW(-1, "ab", 1), KW(-1, "abc", 0), KW(1, "cd", 1), {1, "s", "<s:string>", CGV_STRING, 5, 0}, KW(3, "e", 1), {3, "n", "<n:int8>", CGV_INT8, 52, 1}, {2, "m", "<m:rest>", CGV_REST, 1, 1}, END};
static const struct node T1[] = {{-1, "i", "<i:int16>", CGV_INT16, 50, 1}, {-1, "b", "<b:bool>", CGV_BOOL, 12, 1}, {0, "d", "<d:decimal64 fraction-digits:2>", CGV_DEC64, 62, 1}, {0, "u", "<u:uint32>", CGV_UINT32, 47, 1}, {1, "v4", "<v4:ipv4addr>", CGV_IPV4ADDR, 70, 1}, {1, "s", "<s:string>", CGV_STRING, 5, 1}, {-1, "x", "<x:int32 range[1:5] show:\"shown\">", CGV_INT32, 56, 0, r15}, KW(6, "end", 1), END};
static const struct node T2[] = {KW(-1, "k", 0), {0, "url", "<url:url>", CGV_URL, 20, 1}, {0, "w", "<w:string>", CGV_STRING, 5, 1}, {0, "t", "<t:time>", CGV_TIME, 74, 1}, {0, "mac", "<mac:macaddr>", CGV_MACADDR, 72, 1}, {0, "id", "<id:uuid>", CGV_UUID, 73, 1}, {0, "p", "<p:ipv4prefix>", CGV_IPV4PFX, 70, 1}, END};
static const struct node *T[] = {T0, T1, T2};
static const char *SET[] = {"abcde-5", "0127.tru-", "k:/.ab12"};
static const struct node *t;
static struct line l;
static struct result r;
static int called, exf, exk;
static void text(cg_var *cv, char *p) { char *s = cv2str_dup(cv); strcpy(p, s); free(s); }
/* the vector: command line, then the words */
static void check(cvec *v, int expand, int excl) {
  int pos = 1;
  cg_var *cv = cvec_i(v, 0);
  sym_assert(cv && cv_type_get(cv) == CGV_REST && eqstr(cv_name_get(cv), "cmd"), "first the command line");
  if (!expand) sym_assert(eqstr(cv_string_get(cv), l.s), "command line as typed");
  else {
    char want[200], *p = want;
    for (int i = 0; i < r.k; i++) {
      const struct node *x = &t[r.path[i]];
      if (i) *p++ = ' ';
      if (x->decl) text(r.val[i], p); else strcpy(p, x->name);
      p += strlen(p);
    }
    sym_assert(eqstr(cv_string_get(cv), want), "command line with complete keywords");
  }
  for (int i = 0; i < r.k; i++) {
    const struct node *x = &t[r.path[i]];
    if (!x->decl && excl) continue;
    cv = cvec_i(v, pos++);
    sym_assert(cv != NULL, "one entry per word");
    sym_assert(eqstr(cv_name_get(cv), x->name), "name of keyword or variable");
    if (x->decl) {
      sym_assert(cv_const_get(cv) == 0, "variable is not constant");
      sym_assert(cv_type_get(cv) == x->t, "declared type");
      if (x->t == CGV_STRING) sym_assert(eqmem(cv_string_get(cv), l.w[i], l.n[i] + 1), "the typed text");
      sym_assert(cv_cmp(cv, r.val[i]) == 0, "the typed value");
    } else {
      sym_assert(cv_const_get(cv) == 1, "keyword is constant");
      sym_assert(cv_type_get(cv) == CGV_STRING && eqstr(cv_string_get(cv), x->name), "keyword in full");
    }
  }
  sym_assert(cvec_len(v) == pos, "nothing else");
}
static int cb(cligen_handle h, cvec *cvv, cvec *argv) {
  sym_assert(h == H, "the handle");
  sym_assert(argv && cvec_len(argv) == 1 && cv_string_get(cvec_i(argv, 0))[0] == 'A' + r.node, "argument of the command");
  check(cvv, exf, exk);
  called++;
  return 0;
}
static cgv_fnstype_t *s2f(char *n, void *a, char **e) { sym_assert(strcmp(n, "cb") == 0, "name of the callback"); return cb; }
void c16_vars(void) {
  char spec[1024];
  cg_obj *co = NULL;
  cvec *cvv = NULL;
  cligen_result res = -7;
  char *reason = NULL, *line;
  t = T[sym_arg("tree", 0)];
  tree_spec(t, 0, spec);
  parse_tree *pt = cli(spec);
  cligen_callbackv_str2fn(pt, s2f, NULL);
  any_line(&l, sym_arg("K", 2), sym_arg("L", 2), sym_arg("set", 0) ? SET[sym_arg("tree", 0)] : NULL);
  uint64_t l0 = sym_live_bytes();
  ref_match(t, &l, &r, 0);
  line = strdup(l.s);
  sym_assert(cliread_parse(H, line, pt, &co, &cvv, &res, &reason) == 0, "no error");
  free(line);
  if (r.res == CG_MATCH) {
    sym_assert(res == CG_MATCH, "match");
    check(cvv, 0, 0);
    exf = sym_pick("expand", 2); exk = sym_pick("exclude", 2);
    cligen_expand_first_set(H, exf);
    cligen_exclude_keys_set(H, exk);
    called = 0;
    sym_assert(cligen_eval(H, co, cvv) == 0, "evaluated");
    sym_assert(called == 1, "called once");
    check(cvv, 0, 0);
  }
  ref_free(&r);
  if (co) co_free(co, 0);
  if (cvv) cvec_free(cvv);
  free(reason);
  sym_assert(sym_live_bytes() == l0, "nothing leaked");
  cli_end();
  sym_reach("end");
}
/* concrete texts of the wider types at a symbolic place among symbolic words */
void c16_texts(void) {
  static const char *txt[] = {"http://a.b/c", "a@h", "00:11:22:33:44:ff", "2001-02-03T04:05:06Z", "12345678-1234-1234-1234-123456789abc", "1.2.3.4/8", "1.2.3.4", "k"};
  char spec[1024];
  cg_obj *co = NULL;
  cvec *cvv = NULL;
  cligen_result res = -7;
  char *reason = NULL, *line;
  t = T2;
  tree_spec(t, 0, spec);
  parse_tree *pt = cli(spec);
  l.k = 2;
  strcpy(l.w[0], "k"); l.n[0] = 1;
  strcpy(l.s, "k ");
  char *w = l.s + 2;
  strcpy(w, txt[sym_pick("text", 8)]);
  int at = sym_pick("at", strlen(w));
  sym_bytes(w + at, 1, "c");
  sym_assume(w[at] && !in_set(w[at], " \t\n\"\\") && (at || w[at] != '#'));
  l.n[1] = strlen(w);
  static char w1[64];
  strcpy(w1, w);
  /* words of match.h are short */
  memset(&r, 0, sizeof r);
  int best = 0;
  for (int c = 1; c < 7; c++) { cg_var *cv = accept_(&t[c], w); if (cv && t[c].pref > best) { best = t[c].pref; if (r.val[1]) cv_free(r.val[1]); r.val[1] = cv; r.node = c; } else if (cv) cv_free(cv); }
  line = strdup(l.s);
  sym_assert(cliread_parse(H, line, pt, &co, &cvv, &res, &reason) == 0, "no error");
  sym_assert(res == CG_MATCH && which(co) == r.node, "most preferred type");
  cg_var *cv = cvec_i(cvv, 2);
  sym_assert(cvec_len(cvv) == 3 && cv_type_get(cv) == t[r.node].t && eqstr(cv_name_get(cv), t[r.node].name), "declared type and name");
  sym_assert(cv_cmp(cv, r.val[1]) == 0, "the typed value");
  cv_free(r.val[1]);
  free(line);
  co_free(co, 0);
  cvec_free(cvv);
  free(reason);
  cli_end();
  sym_reach("end");
}
/* long lines of many long values */
static int bigV, bigL, bigcalls;
static char bigw[20][300];
static void big_check(cvec *v) {
  sym_assert(cvec_len(v) == 2 + bigV, "one entry per word");
  for (int i = 0; i < bigV; i++) {
    cg_var *cv = cvec_i(v, 2 + i);
    char nm[200];
    memset(nm, 'n', bigL); sprintf(nm + bigL, "%d", i);
    sym_assert(eqstr(cv_name_get(cv), nm), "name of the variable");
    if (i % 3 == 1) sym_assert(cv_type_get(cv) == CGV_INT32 && cv_int32_get(cv) == i * 100000 + (bigw[i][strlen(bigw[i]) - 1] - '0'), "the typed value");
    else sym_assert(cv_type_get(cv) == CGV_STRING && eqstr(cv_string_get(cv), bigw[i]), "the typed text");
    sym_assert(cvec_find(v, nm) == cv, "found by name");
  }
}
static int bigcb(cligen_handle h, cvec *cvv, cvec *argv) { big_check(cvv); bigcalls++; return 0; }
static cgv_fnstype_t *bigs2f(char *n, void *a, char **e) { return bigcb; }
void c16_big(void) {
  static char spec[8000], line[8000];
  char *q = spec, *p = line;
  bigV = sym_arg("V", 9); bigL = sym_arg("L", 60);
  q = puts_(q, "k"); p = puts_(p, "k");
  for (int i = 0; i < bigV; i++) {
    *q++ = ' '; *q++ = '<';
    memset(q, 'n', bigL); q += bigL;
    q += sprintf(q, i % 3 == 1 ? "%d:int32>" : "%d:string>", i);
    if (i % 3 == 1) { sprintf(bigw[i], "%d", i * 100000); bigw[i][strlen(bigw[i]) - 1] = sym_u8("digit", '0', '9'); }
    else {
      for (int j = 0; j < bigL; j++) bigw[i][j] = 'a' + (i + j) % 26;
      bigw[i][0] = sym_u8("c", 'a', 'z'); bigw[i][bigL - 1] = sym_u8("c", 'a', 'z');
    }
    *p++ = ' '; p = puts_(p, bigw[i]);
  }
  q = puts_(q, ", cb();"); *q = *p = 0;
  parse_tree *pt = cli(spec);
  cligen_callbackv_str2fn(pt, bigs2f, NULL);
  cg_obj *co = NULL;
  cvec *cvv = NULL;
  cligen_result res = -7;
  char *reason = NULL, *l2 = strdup(line);
  sym_assert(cliread_parse(H, line, pt, &co, &cvv, &res, &reason) == 0 && res == CG_MATCH, "match");
  sym_assert(eqstr(cv_string_get(cvec_i(cvv, 0)), l2), "command line as typed");
  big_check(cvv);
  sym_assert(cligen_eval(H, co, cvv) == 0 && bigcalls == 1, "called once");
  co_free(co, 0); cvec_free(cvv); free(reason); free(l2);
  cli_end();
  sym_reach("end");
}
