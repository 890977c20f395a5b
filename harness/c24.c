/* C24: callbacks run once each, in order, with exactly their declared arguments. */
#include "match.h"
#define NCB 4
static int NC, NA[NCB], ret[NCB], wrapped, uh, calls, wraps, fail, failed, form;
static unsigned char A[NCB][3], sval;
static int USER;
static cg_obj *CO;
static char order[64], *op;
/* declared arguments: text of argument j of callback i */
static void argtext(int i, int j, char *p) {
  static const char *t[] = {"", "long argument text", "x y", "a,b()"};
  if (j == 0) { p[0] = A[i][0]; p[1] = 0; }
  else strcpy(p, t[(i + j + form) % 4]);
}
static int cb_n(int i, cligen_handle h, cvec *cvv, cvec *argv) {
  char t[32];
  sym_assert(h == (uh ? (cligen_handle)&USER : H), "the handle, or the one set by the user");
  sym_assert(!failed, "nothing runs after a failure");
  t[0] = 'a' + i; t[1] = 0;
  sym_assert(cligen_fn_str_get(H) && eqstr(cligen_fn_str_get(H), t), "name of the running callback");
  sym_assert(cligen_co_match(H) == CO, "the matched command");
  sym_assert(cvec_len(cvv) == 3, "values of the line");
  sym_assert(eqstr(cv_string_get(cvec_i(cvv, 1)), "k"), "keyword");
  sym_assert(eqstr(cv_name_get(cvec_i(cvv, 2)), "s") && cv_string_get(cvec_i(cvv, 2))[0] == sval && cv_string_get(cvec_i(cvv, 2))[1] == 0, "value typed");
  sym_assert(cvec_len(argv) == NA[i], "number of declared arguments");
  for (int j = 0; j < NA[i]; j++) {
    cg_var *cv = cvec_i(argv, j);
    argtext(i, j, t);
    sym_assert(cv_type_get(cv) == CGV_STRING && eqstr(cv_string_get(cv), t), "declared argument");
    cv_string_set(cv, "changed");   /* the arguments are a copy */
  }
  *op++ = 'a' + i; *op = 0;
  if (ret[i] < 0) failed = 1;
  return ret[i];
}
static int cb0(cligen_handle h, cvec *c, cvec *a) { return cb_n(0, h, c, a); }
static int cb1(cligen_handle h, cvec *c, cvec *a) { return cb_n(1, h, c, a); }
static int cb2(cligen_handle h, cvec *c, cvec *a) { return cb_n(2, h, c, a); }
static int cb3(cligen_handle h, cvec *c, cvec *a) { return cb_n(3, h, c, a); }
static cgv_fnstype_t *FN[] = {cb0, cb1, cb2, cb3};
static int missing = -1;
static cgv_fnstype_t *s2f(char *n, void *arg, char **err) {
  sym_assert(arg == (void *)&NC, "argument of the lookup");
  if (n[0] - 'a' == missing) { *err = "no such"; return NULL; }
  return FN[n[0] - 'a'];
}
static int wrap_(void *arg, void **wh, const char *name, const char *fn) {
  sym_assert(arg == (void *)&USER, "argument of the wrapper");
  *op++ = *wh ? ')' : '(';
  *op++ = name[0];
  *op = 0;
  if (*wh) { free(*wh); *wh = NULL; } else *wh = malloc(4);
  return 1;
}
static void eval(parse_tree *pt, char *text) {
  cvec *cvv = NULL;
  cligen_result res = -7;
  char *reason = NULL, want[64], *w = want;
  op = order; *op = 0; failed = 0;
  sym_assert(cliread_parse(H, text, pt, &CO, &cvv, &res, &reason) == 0 && res == CG_MATCH, "match");
  int r = cligen_eval(H, CO, cvv), expect = 0;
  for (int i = 0; i < NC && expect == 0; i++) {
    if (wrapped) { *w++ = '('; *w++ = 'a' + i; }
    *w++ = 'a' + i;
    if (wrapped) { *w++ = ')'; *w++ = 'a' + i; }
    if (ret[i] < 0) expect = -1;
  }
  *w = 0;
  sym_observe_mem(order, strlen(order));
  sym_assert(eqstr(order, want), "each callback once, in order, up to the first failure, each between two calls of the wrapper");
  sym_assert((r < 0) == (expect < 0), "failure is reported");
  sym_assert(cligen_fn_str_get(H) == NULL, "no running callback");
  co_free(CO, 0);
  cvec_free(cvv);
  free(reason);
}
void c24_eval(void) {
  char spec[512], line[8] = "k  ";
  NC = sym_pick("callbacks", sym_arg("n", 3) + 1);
  form = sym_pick("form", 2);
  char *q = puts_(spec, sym_pick("tree", 2) ? "(k|l) <s:string>" : "k <s:string>");
  for (int i = 0; i < NC; i++) {
    NA[i] = sym_pick("args", 3);
    A[i][0] = sym_u8("a", 'a', 'z');
    if (sym_pick("fails", 2)) { sym_bytes(&ret[i], 4, "r"); sym_assume(ret[i] < 0); }
    else { sym_bytes(&ret[i], 4, "r"); sym_assume(ret[i] >= 0); }
    q = puts_(q, ", ");
    *q++ = 'a' + i;
    *q++ = '(';
    for (int j = 0; j < NA[i]; j++) {
      char t[32];
      argtext(i, j, t);
      if (j) *q++ = ',';
      *q++ = '"';
      if (j == 0) *q++ = A[i][0]; else q = puts_(q, t);
      *q++ = '"';
    }
    *q++ = ')';
  }
  q = puts_(q, ";");
  *q = 0;
  parse_tree *pt = cli(spec);
  sym_assert(cligen_callbackv_str2fn(pt, s2f, &NC) == 0, "bound");
  wrapped = sym_pick("wrap", 2);
  uh = wrapped;
  if (wrapped) { cligen_eval_wrap_fn_set(H, wrap_, &USER); cligen_userhandle_set(H, &USER); }
  sval = sym_u8("s", 'a', 'z');
  line[2] = sval; line[3] = 0;
  uint64_t l0 = sym_live_bytes();
  eval(pt, line);
  sym_assert(sym_live_bytes() == l0, "nothing leaked");
  eval(pt, line);   /* and again, the arguments are as declared */
  sym_assert(sym_live_bytes() == l0, "nothing leaked");
  cli_end();
  sym_reach("end");
}
/* an unknown callback is an error, wherever it is in the tree */
void c24_bind(void) {
  parse_tree *pt = cli("x, a(); y{ z, b(); w{ v, c(), d(); } } u, a();");
  missing = sym_pick("missing", 5) - 1;
  NC = 1;
  int r = cligen_callbackv_str2fn(pt, s2f, &NC);
  sym_assert((r < 0) == (missing >= 0), "an unknown callback is an error");
  if (missing < 0) {
    cg_obj *y = kid(pt, 2);
    sym_assert(eqstr(y->co_command, "y"), "order");
    cg_callback *cc = kidof(kidof(y, 0), 0)->co_callbacks;
    sym_assert(co_callback_fn_get(cc) == cb2 && co_callback_fn_get(co_callback_next(cc)) == cb3 && co_callback_next(co_callback_next(cc)) == NULL, "by name, in order");
    sym_assert(co_callback_fn_get(kidof(y, 1)->co_callbacks) == cb1, "inner");
    sym_assert(co_callback_fn_get(kid(pt, 0)->co_callbacks) == cb0, "outer");
  }
  cli_end();
  sym_reach("end");
}
/* typed and unquoted arguments of callbacks and expansions */
static int got;
static int cbt(cligen_handle h, cvec *cvv, cvec *argv) {
  sym_assert(cvec_len(argv) == 4, "number of arguments");
  sym_assert(cv_type_get(cvec_i(argv, 0)) == CGV_INT32 && cv_int32_get(cvec_i(argv, 0)) == -17, "typed argument");
  sym_assert(cv_type_get(cvec_i(argv, 1)) == CGV_STRING && eqstr(cv_string_get(cvec_i(argv, 1)), "plain"), "unquoted argument");
  sym_assert(cv_type_get(cvec_i(argv, 2)) == CGV_BOOL && cv_bool_get(cvec_i(argv, 2)) == 1, "typed argument");
  sym_assert(cv_type_get(cvec_i(argv, 3)) == CGV_STRING && eqstr(cv_string_get(cvec_i(argv, 3)), ""), "empty argument");
  got++;
  return 0;
}
static cgv_fnstype_t *s2t(char *n, void *a, char **e) { return cbt; }
static int xargs;
static int xt(void *h, char *name, cvec *cvv, cvec *argv, cvec *cmds, cvec *helps) {
  sym_assert(cvec_len(argv) == xargs, "number of arguments of the expansion");
  if (xargs > 0) sym_assert(eqstr(cv_string_get(cvec_i(argv, 0)), "one"), "first");
  if (xargs > 1) sym_assert(eqstr(cv_string_get(cvec_i(argv, 1)), "two"), "second");
  if (xargs > 2) sym_assert(cv_type_get(cvec_i(argv, 2)) == CGV_UINT8 && cv_uint8_get(cvec_i(argv, 2)) == 3, "third");
  if (xargs > 3) sym_assert(eqstr(cv_string_get(cvec_i(argv, 3)), ""), "fourth");
  cvec_add_string(cmds, NULL, "val");
  return 0;
}
static expandv_cb *s2x(char *n, void *a, char **e) { return (expandv_cb *)xt; }
void c24_typed(void) {
  char spec[256], line[8] = "k  \0", *q = spec;
  static const char *decl[] = {"", "\"one\"", "\"one\", two", "one , \"two\",(uint8)\"3\"", "\"one\",\"two\",(uint8)\"3\",\"\""};
  xargs = sym_pick("xargs", 5);
  q = puts_(q, "k { <c:string f(");
  q = puts_(q, decl[xargs]);
  q = puts_(q, ")>, cb((int32)\"-17\", plain, (bool)\"true\", \"\"); } m, cb((int32)\"-17\", plain, (bool)\"true\", \"\");");
  *q = 0;
  parse_tree *pt = cli(spec);
  cligen_callbackv_str2fn(pt, s2t, NULL);
  cligen_expandv_str2fn(pt, s2x, NULL);
  static const char *ln[] = {"k val", "m"};
  strcpy(line, ln[sym_pick("line", 2)]);
  cvec *cvv = NULL;
  cligen_result res = -7;
  char *reason = NULL;
  sym_assert(cliread_parse(H, line, pt, &CO, &cvv, &res, &reason) == 0 && res == CG_MATCH, "match");
  sym_assert(cligen_eval(H, CO, cvv) == 0 && got == 1, "called once");
  co_free(CO, 0);
  cvec_free(cvv);
  free(reason);
  cli_end();
  sym_reach("end");
}
/* a translation is applied once to the value typed */
static int trs;
static int tr(cligen_handle h, cg_var *cv) {
  char *s = cv_string_get(cv);
  for (; *s; s++) (*s)++;
  trs++;
  return 0;
}
static translate_cb_t *s2tr(char *n, void *a, char **e) { sym_assert(eqstr(n, "inc"), "name"); return tr; }
void c24_translate(void) {
  int n = sym_arg("L", 2);
  char line[16] = "k ", w[8];
  parse_tree *pt = cli("k <s:string translate:inc()>, a();{ <t:string>, b();{ <s:string translate:inc()>; } }");
  sym_assert(cligen_translate_str2fn(pt, s2tr, NULL) == 0, "bound");
  for (int i = 0; i < n; i++) w[i] = sym_u8("w", 'a', 'z');
  w[n] = 0;
  int k = sym_pick("words", 3);
  strcpy(line + 2, w);
  if (k) strcat(line, " q");
  if (k > 1) strcat(line, " r");
  cvec *cvv = NULL;
  cligen_result res = -7;
  char *reason = NULL;
  sym_assert(cliread_parse(H, line, pt, &CO, &cvv, &res, &reason) == 0 && res == CG_MATCH, "match");
  char *v = cv_string_get(cvec_i(cvv, 2));
  for (int i = 0; i < n; i++) sym_assert(v[i] == w[i] + 1, "translated once");
  sym_assert(v[n] == 0, "length");
  if (k) sym_assert(eqstr(cv_string_get(cvec_i(cvv, 3)), "q"), "not translated");
  if (k > 1) sym_assert(eqstr(cv_string_get(cvec_i(cvv, 4)), "s"), "translated");
  sym_assert(trs == (k > 1 ? 2 : 1), "one call per value");
  co_free(CO, 0);
  cvec_free(cvv);
  free(reason);
  cli_end();
  sym_reach("end");
}
/* through the terminal: the value of the callback is delivered, and no callback runs without a match */
static int rd_ret, rd_n;
static int cb_rd(cligen_handle h, cvec *cvv, cvec *argv) {
  rd_n++;
  sym_assert(cvec_len(cvv) == 3 && cv_string_get(cvec_i(cvv, 2))[0] == sval, "value typed");
  sym_assert(cvec_len(argv) == 1 && eqstr(cv_string_get(cvec_i(argv, 0)), "A"), "argument");
  return rd_ret;
}
static cgv_fnstype_t *s2rd(char *n, void *a, char **e) { return cb_rd; }
void c24_read(void) {
  parse_tree *pt = cli("k <s:string>, a(\"A\"); k l;");
  sym_assert(cligen_callbackv_str2fn(pt, s2rd, NULL) == 0, "bound");
  unsigned char k[8] = "k ";
  sval = sym_u8("s", 'a', 'z');
  sym_bytes(&rd_ret, 4, "r");
  int bad = sym_pick("bad", 3);
  k[2] = sval; k[3] = '\n';
  if (bad == 1) k[0] = 'x';
  env_tty(0, 24, 80);
  env_keys(k, bad == 2 ? 0 : 4);
  char *line = NULL, *reason = NULL, *out;
  int r = -77;
  cligen_result res = -7;
  h_out_begin();
  int rv = cliread_eval(H, &line, &r, &res, &reason);
  h_out_end(&out);
  h_out_free(out);
  if (bad) {
    sym_assert(rv == 0 && r == -77 && rd_n == 0, "no callback without a match");
    sym_assert(res == (bad == 2 ? CG_EOF : CG_NOMATCH), "result");
    if (bad == 1) sym_assert(reason && *reason, "reason");
  } else if (sval == 'l') {
    sym_assert(rv == 0 && res == CG_MATCH && rd_n == 0, "command without callbacks");
  } else {
    sym_assert(rd_n == 1 && res == CG_MATCH && rv == 0, "called once");
    sym_assert((rd_ret < 0) == (r < 0), "failure is reported");
    sym_observe(r);
  }
  free(reason);
  cli_end();
  sym_reach("end");
}
/* many callbacks with many long arguments */
static int bigC, bigA, bigB, bign, bigfail;
static unsigned char bigc[12];
static int bigcb(cligen_handle h, cvec *cvv, cvec *argv) {
  char t[300], nm[80];
  int i = bign++;
  memset(nm, 'f', bigB / 4); sprintf(nm + bigB / 4, "%d", i);
  sym_assert(eqstr(cligen_fn_str_get(H), nm), "each callback once, in order");
  sym_assert(i < bigC && cvec_len(argv) == (i * 5 + 1) % (bigA + 1), "number of declared arguments");
  for (int j = 0; j < cvec_len(argv); j++) {
    for (int k = 0; k < bigB; k++) t[k] = 'a' + (i + j + k) % 26;
    t[0] = bigc[i];
    sprintf(t + bigB, "%d", j);
    sym_assert(eqstr(cv_string_get(cvec_i(argv, j)), t), "declared argument");
  }
  return i == bigfail ? -1 : i;
}
static cgv_fnstype_t *bigs2f(char *n, void *a, char **e) { return bigcb; }
void c24_big(void) {
  static char spec[20000];
  char *q = spec, line[4] = "k";
  bigC = sym_arg("C", 9); bigA = sym_arg("A", 7); bigB = sym_arg("base", 60);
  *q++ = 'k';
  for (int i = 0; i < bigC; i++) {
    bigc[i] = sym_u8("c", 'a', 'z');
    *q++ = ','; *q++ = ' ';
    memset(q, 'f', bigB / 4); q += bigB / 4;
    q += sprintf(q, "%d(", i);
    for (int j = 0; j < (i * 5 + 1) % (bigA + 1); j++) {
      if (j) *q++ = ',';
      *q++ = '"'; *q++ = bigc[i];
      for (int k = 1; k < bigB; k++) *q++ = 'a' + (i + j + k) % 26;
      q += sprintf(q, "%d\"", j);
    }
    *q++ = ')';
  }
  *q++ = ';'; *q = 0;
  parse_tree *pt = cli(spec);
  sym_assert(cligen_callbackv_str2fn(pt, bigs2f, NULL) == 0, "bound");
  bigfail = (int)sym_pick("fail", bigC + 1) - 1;
  cvec *cvv = NULL;
  cligen_result res = -7;
  char *reason = NULL;
  sym_assert(cliread_parse(H, line, pt, &CO, &cvv, &res, &reason) == 0 && res == CG_MATCH, "match");
  int r = cligen_eval(H, CO, cvv);
  sym_assert((r < 0) == (bigfail >= 0) && bign == (bigfail < 0 ? bigC : bigfail + 1), "all, up to the first failure");
  co_free(CO, 0); cvec_free(cvv); free(reason);
  cli_end();
  sym_reach("end");
}
