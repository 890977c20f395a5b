/* C23: choice and dynamic variables accept exactly the offered values. */
#include "match.h"
#include <cligen_expand.h>
/* characters of words: printable, nothing special to words or lists */
static void word(char *p, int n, const char *name, const char *set) {
  if (set) sym_strset(p, n, name, set);
  else {
    sym_bytes(p, n, name);
    p[n] = 0;
    for (int i = 0; i < n; i++) sym_assume(p[i] > 32 && p[i] < 127 && !in_set(p[i], "\"\\,|?;:"));
    sym_assume(p[0] != '#');
  }
}
static char M[4][8];
static int NM;
/* index of the member selected by the word: -1 none, -2 several */
static int select_(char *w, int n) {
  int ex = -1, ab = -1, cnt = 0;
  for (int i = 0; i < NM; i++) {
    int m = kw_match(M[i], w, n), dup = 0;
    for (int j = 0; j < i; j++) dup |= eqstr(M[j], M[i]);
    if (dup) continue;
    if (m == 2) ex = i;
    if (m) { ab = i; cnt++; }
  }
  return ex >= 0 ? ex : cnt == 1 ? ab : cnt ? -2 : -1;
}
static void members(int lens, const char *set) {
  for (NM = 0; lens; lens /= 10, NM++) word(M[NM], lens % 10, "m", set);
}
static cg_obj *var_of(cg_obj *co) {
  if (co && co->co_type == CO_VARIABLE && (co->co_choice || co->co_expand_fn_str)) return co;
  parse_tree *pt = co_pt_get(co);
  for (int i = 0; i < pt_len_get(pt); i++) { cg_obj *r = pt_vec_i_get(pt, i); if (r && (r = var_of(r))) return r; }
  return NULL;
}
static int after, more, calls, nonum, second;
static void decide(parse_tree *pt, char *w, int n, int num, int sel, enum cv_type ty) {
  char line[32], *p = line, *reason = NULL;
  cg_obj *co = NULL;
  cvec *cvv = NULL;
  cligen_result res = -7;
  p = puts_(p, "k ");
  memcpy(p, w, n); p += n;
  if (after) p = puts_(p, " end");
  *p = 0;
  uint64_t l0 = sym_live_bytes();
  sym_assert(cliread_parse(H, line, pt, &co, &cvv, &res, &reason) == 0, "the line is decided");
  /* an exact member, else the number, else the abbreviation */
  int exact = sel >= 0 && kw_match(M[sel], w, n) == 2;
  if (exact || (!num && sel >= 0)) {
    sym_assert(res == CG_MATCH, "an offered value is accepted");
    sym_assert(which(co) == after, "the command of the variable");
    sym_assert(cvec_len(cvv) == 3 + after, "one value per word");
    cg_var *cv = cvec_i(cvv, 2);
    sym_assert(cv_type_get(cv) == ty && cv_const_get(cv) == 0, "kind of value");
    sym_assert(eqstr(cv_name_get(cv), "c"), "bound to the name of the variable");
    char *s = cv2str_dup(cv);
    sym_assert(eqstr(s, M[sel]), "the full value");
    free(s);
    sym_reach("accepted");
  }
  else if (num) {
    sym_assert((res == CG_MATCH) == !after, "the number is accepted");
    if (!after) sym_assert(which(co) == 2 && eqstr(cv_name_get(cvec_i(cvv, 2)), "i"), "the number");
    sym_reach("number");
  }
  else {
    sym_assert(res == CG_NOMATCH || (res == CG_MULTIPLE && sel == -2 && !after), "other values are refused");
    if (sel == -2 && !after) sym_assert(res == CG_MULTIPLE, "an ambiguous abbreviation");
    sym_assert(co == NULL, "nothing selected");
    if (res == CG_NOMATCH) sym_assert(reason && *reason, "with a reason");
    sym_reach("refused");
  }
  sym_observe(res);
  if (co) co_free(co, 0);
  cvec_free(cvv);
  free(reason);
  sym_assert(sym_live_bytes() == l0, "nothing leaked");
}
static int number_(char *w) {
  struct node nd = {-1, "i", "<i:int8>", CGV_INT8, 52, 1};
  cg_var *cv = accept_(&nd, w);
  if (cv) cv_free(cv);
  return cv != NULL;
}
static const char *SET[] = {NULL, "ab", "ab1-", "aA_", "123"};
/* members set after parsing, the parser is the subject of another check */
void c23_choice(void) {
  char w[8], *p;
  int n = sym_arg("L", 2), num = sym_arg("num", 0);
  const char *set = SET[sym_arg("set", 0)];
  after = sym_pick("after", 2);
  members(sym_arg("lens", 11), set);
  static const char *spec[] = {"k <c:string choice:a|b|c>, cb(\"A\");{ end, cb(\"B\"); }",
    "k { <c:string choice:a|b|c>, cb(\"A\");{ end, cb(\"B\"); } <i:int8>, cb(\"C\"); }",
    "k <c:int32 choice:a|b|c>, cb(\"A\");{ end, cb(\"B\"); }"};
  parse_tree *pt = cli(spec[num]);
  word(w, n, "w", set);
  cg_obj *v = var_of(kid(pt, 0));
  sym_assert(v != NULL, "variable");
  free(v->co_choice);
  p = v->co_choice = malloc(40);
  for (int i = 0; i < NM; i++) { if (i) *p++ = i % 2 ? '|' : ','; p = puts_(p, M[i]); }
  *p = 0;
  enum cv_type ty = num == 2 ? CGV_INT32 : CGV_STRING;
  int is = num == 1 && number_(w), sel = select_(w, n);
  decide(pt, w, n, is, sel, ty);
  decide(pt, w, n, is, sel, ty);   /* and again */
  cli_end();
  sym_reach("end");
}
/* values offered by a callback, others the next time; arguments of the callback */
static char M2[4][8], pre[8];
static int help_;
static int xcb(void *h, char *name, cvec *cvv, cvec *argv, cvec *cmds, cvec *helps) {
  sym_assert(h == (void *)H, "the handle");
  sym_assert(eqstr(name, "f"), "name of the callback");
  sym_assert(argv && cvec_len(argv) == 2 && eqstr(cv_string_get(cvec_i(argv, 0)), "x") && eqstr(cv_string_get(cvec_i(argv, 1)), "y"), "arguments of the callback");
  sym_assert(cvec_len(cvv) == 2 && eqstr(cv_name_get(cvec_i(cvv, 1)), "p") && eqstr(cv_string_get(cvec_i(cvv, 1)), pre), "values typed before");
  for (int i = 0; i < NM; i++) {
    cvec_add_string(cmds, NULL, second ? M2[i] : M[i]);
    if (i < help_) { char t[3] = {'h', '0' + i, 0}; cvec_add_string(helps, NULL, t); }
  }
  calls++;
  return 0;
}
static expandv_cb *s2x(char *n, void *a, char **e) { return (expandv_cb *)xcb; }
static void decide_x(parse_tree *pt, char *w, int n, int sel, int free_) {
  char line[40], *p = line, *reason = NULL;
  cg_obj *co = NULL;
  cvec *cvv = NULL;
  cligen_result res = -7;
  p = puts_(p, "k ");
  p = puts_(p, pre);
  *p++ = ' ';
  memcpy(p, w, n); p += n;
  if (after) p = puts_(p, " end");
  *p = 0;
  uint64_t l0 = sym_live_bytes();
  sym_assert(cliread_parse(H, line, pt, &co, &cvv, &res, &reason) == 0, "the line is decided");
  int exact = sel >= 0 && kw_match(M[sel], w, n) == 2;
  if (sel >= 0 && (exact || !free_)) {
    sym_assert(res == CG_MATCH, "an offered value is accepted");
    sym_assert(which(co) == after, "the command of the variable");
    cg_var *cv = cvec_i(cvv, 3);
    sym_assert(cvec_len(cvv) == 4 + after && eqstr(cv_name_get(cv), "c") && cv_const_get(cv) == 0, "bound to the name of the variable");
    sym_assert(cv_type_get(cv) == CGV_STRING && eqstr(cv_string_get(cv), M[sel]), "the full value");
    sym_reach("accepted");
  }
  else if (free_) {
    sym_assert((res == CG_MATCH) == !after, "accepted by the other variable");
    if (!after) sym_assert(which(co) == 2 && eqstr(cv_name_get(cvec_i(cvv, 3)), "v") && eqmem(cv_string_get(cvec_i(cvv, 3)), w, n + 1), "as typed");
    sym_reach("free");
  }
  else {
    sym_assert(res == CG_NOMATCH || (res == CG_MULTIPLE && sel == -2 && !after), "other values are refused");
    if (sel == -2 && !after) sym_assert(res == CG_MULTIPLE, "an ambiguous abbreviation");
    sym_assert(co == NULL, "nothing selected");
    sym_reach("refused");
  }
  sym_observe(res);
  if (co) co_free(co, 0);
  cvec_free(cvv);
  free(reason);
  sym_assert(sym_live_bytes() == l0, "nothing leaked");
}
void c23_expand(void) {
  char w[8];
  int n = sym_arg("L", 2), fr = sym_arg("free", 0), lens = sym_arg("lens", 11);
  const char *set = SET[sym_arg("set", 0)];
  after = sym_pick("after", 2);
  help_ = 9;
  members(lens, set);
  for (int i = 0; i < NM; i++) for (int j = 0; j < i; j++) if (strlen(M[i]) == strlen(M[j])) sym_assume(!eqstr(M[i], M[j]));
  for (int i = 0; i < NM; i++) { strcpy(M2[i], M[i]); M2[i][0] ^= 1; if (in_set(M2[i][0], "\"\\,|?;:#")) M2[i][0] = '~'; }
  for (int i = 0; i < NM; i++) for (int j = 0; j < i; j++) if (strlen(M[i]) == strlen(M[j])) sym_assume(!eqstr(M2[i], M2[j]));
  word(w, n, "w", set);
  pre[0] = sym_u8("p", 'a', 'z'); pre[1] = 0;
  static const char *spec[] = {"k <p:string> <c:string f(\"x\", \"y\")>, cb(\"A\");{ end, cb(\"B\"); }",
    "k <p:string> { <c:string f(\"x\", \"y\")>, cb(\"A\");{ end, cb(\"B\"); } <v:string>, cb(\"C\"); }"};
  parse_tree *pt = cli(spec[fr]);
  sym_assert(cligen_expandv_str2fn(pt, s2x, NULL) == 0, "callback bound");
  second = 0;
  decide_x(pt, w, n, select_(w, n), fr);
  sym_assert(calls > 0, "callback called");
  /* other values now */
  second = 1;
  memcpy(M, M2, sizeof M);
  decide_x(pt, w, n, select_(w, n), fr);
  cli_end();
  sym_reach("end");
}
/* a choice beside a dynamic variable (or another choice): the union of the offers, a value offered twice once */
static int ycb(void *h, char *name, cvec *cvv, cvec *argv, cvec *cmds, cvec *helps) {
  for (int i = NM; i < NM + help_; i++) cvec_add_string(cmds, NULL, M[i]);
  calls++;
  return 0;
}
static expandv_cb *s2y(char *n, void *a, char **e) { return (expandv_cb *)ycb; }
void c23_both(void) {
  char w[8], *p, line[32], *reason = NULL;
  int n = sym_arg("L", 2), lens = sym_arg("lens", 11), lens2 = sym_arg("lens2", 12), k, dyn = sym_arg("dyn", 1), kw = sym_arg("kw", 0);
  const char *set = SET[sym_arg("set", 0)];
  static const char *spec[] = {"k { <c:string choice:a|b>, cb(\"A\"); <d:string choice:c|e>, cb(\"B\"); }", "k { <c:string choice:a|b>, cb(\"A\"); <d:string f()>, cb(\"B\"); }",
    "k { <c:string choice:a|b>, cb(\"A\"); <d:string choice:c|e>, cb(\"B\"); aa, cb(\"C\"); }", "k { <c:string choice:a|b>, cb(\"A\"); <d:string f()>, cb(\"B\"); aa, cb(\"C\"); }"};
  parse_tree *pt = cli(spec[dyn + 2 * kw]), *kp = co_pt_get(kid(pt, 0));
  sym_assert(cligen_expandv_str2fn(pt, s2y, NULL) == 0, "callback bound");
  members(lens, set);
  int n1 = NM;
  for (k = lens2; k; k /= 10) word(M[NM++], k % 10, "m2", set);
  help_ = NM - n1;
  int all = NM;
  cg_obj *v[2] = {NULL, NULL};
  for (int i = 0; i < (int)pt_len_get(kp); i++) { cg_obj *co = pt_vec_i_get(kp, i); if (co->co_type == CO_VARIABLE) v[co->co_command[0] == 'd'] = co; }
  sym_assert(v[0] && v[1], "variables");
  for (int j = 0; j < 2; j++) {
    if (j && dyn) break;
    free(v[j]->co_choice);
    p = v[j]->co_choice = malloc(40);
    for (int i = j ? n1 : 0; i < (j ? all : n1); i++) { if (i != (j ? n1 : 0)) *p++ = '|'; p = puts_(p, M[i]); }
    *p = 0;
  }
  word(w, n, "w", set);
  p = puts_(line, "k ");
  memcpy(p, w, n); p[n] = 0;
  NM = all;
  if (kw) strcpy(M[NM++], "aa");
  int sel = select_(w, n), in[3] = {0, 0, 0};
  NM = n1;                                       /* the callback counts from here */
  if (sel >= 0) for (int i = 0; i < all + kw; i++) if (eqstr(M[i], M[sel])) in[i >= all ? 2 : i >= n1] = 1;
  cg_obj *co = NULL;
  cvec *cvv = NULL;
  cligen_result res = -7;
  uint64_t l0 = sym_live_bytes();
  sym_assert(cliread_parse(H, line, pt, &co, &cvv, &res, &reason) == 0, "the line is decided");
  if (sel >= 0) {
    sym_assert(res == CG_MATCH, "a value offered by either is accepted");
    int wh = which(co);
    sym_assert(wh >= 0 && wh < 3 && in[wh], "by one that offers it");
    cg_var *cv = cvec_i(cvv, 2);
    static const char *nm[] = {"c", "d", "aa"};
    sym_assert(cvec_len(cvv) == 3 && eqstr(cv_name_get(cv), nm[wh]) && eqstr(cv_string_get(cv), M[sel]), "the full value, bound to its name");
    sym_reach("accepted");
  }
  else {
    sym_assert(res == (sel == -2 ? CG_MULTIPLE : CG_NOMATCH) && co == NULL, "other values are refused");
    sym_reach("refused");
  }
  sym_observe(res);
  if (co) co_free(co, 0);
  cvec_free(cvv);
  free(reason);
  sym_assert(sym_live_bytes() == l0, "nothing leaked");
  cli_end();
  sym_reach("end");
}
/* values and help texts of the tree shown */
void c23_help(void) {
  static const struct { const char *spec; } X[] = {{"k <p:string> <c:string f(\"x\", \"y\")>(\"own\"), cb(\"A\");"}};
  members(sym_arg("lens", 11), SET[sym_arg("set", 0)]);
  for (int i = 0; i < NM; i++) for (int j = 0; j < i; j++) if (strlen(M[i]) == strlen(M[j])) sym_assume(!eqstr(M[i], M[j]));
  help_ = sym_pick("helps", NM + 1);
  strcpy(pre, "q");
  parse_tree *pt = cli(X[0].spec), *ptn = pt_new();
  sym_assert(cligen_expandv_str2fn(pt, s2x, NULL) == 0, "callback bound");
  cvec *cvv = cvec_start("k q ");
  cg_var *cv = cvec_add(cvv, CGV_STRING);
  cv_name_set(cv, "k"); cv_string_set(cv, "k"); cv_const_set(cv, 1);
  cv = cvec_add(cvv, CGV_STRING);
  cv_name_set(cv, "p"); cv_string_set(cv, "q");
  cg_obj *p = kidof(kid(pt, 0), 0);
  sym_assert(pt_expand(H, p, co_pt_get(p), NULL, cvv, 1, 1, NULL, NULL, ptn) == 0, "expanded");
  sym_assert(pt_len_get(ptn) == NM, "as many as offered");
  unsigned seen = 0;
  for (int i = 0; i < NM; i++) {
    cg_obj *co = pt_vec_i_get(ptn, i);
    int k = -1;
    for (int j = 0; j < NM; j++) if (eqstr(co->co_command, M[j])) k = j;
    sym_assert(co->co_type == CO_COMMAND && k >= 0 && !(seen & 1u << k), "each value once");
    seen |= 1u << k;
    char t[4] = {'h', '0' + k, 0};
    sym_assert(eqstr(co->co_helpstring, k < help_ ? t : "own"), "its help text");
    if (i) sym_assert(strcmp(((cg_obj *)pt_vec_i_get(ptn, i - 1))->co_command, co->co_command) < 0, "in order");
  }
  pt_free(ptn, 0);
  cvec_free(cvv);
  cli_end();
  sym_reach("end");
}
/* many long values, many arguments */
static int bigN, bigB, bigA, bigcalls;
static char bigbase[200];
static void bigval(int i, char *p) { strcpy(p, bigbase); p += bigB; *p++ = 'a' + i / 5; *p++ = 'a' + i % 5; if (i % 4 == 3) *p++ = 'z'; *p = 0; }
static int bigcb(void *h, char *name, cvec *cvv, cvec *argv, cvec *cmds, cvec *helps) {
  char t[240];
  sym_assert(cvec_len(argv) == bigA, "arguments of the callback");
  for (int i = 0; i < bigA; i++) { sprintf(t, "%s%d", bigbase, i); sym_assert(eqstr(cv_string_get(cvec_i(argv, i)), t), "argument of the callback"); }
  for (int i = 0; i < bigN; i++) { bigval(i * 7 % bigN, t); cvec_add_string(cmds, NULL, t); cvec_add_string(helps, NULL, t + bigB); }
  bigcalls++;
  return 0;
}
static expandv_cb *bigs2x(char *n, void *a, char **e) { return (expandv_cb *)bigcb; }
void c23_big(void) {
  static char spec[12000], line[400];
  char *q = spec, w[240], t[240];
  int dyn = sym_pick("dynamic", 2), m, n, cnt = 0, sel = -1, ex = -1;
  bigN = sym_arg("N", 22); bigB = sym_arg("base", 40); bigA = sym_arg("A", 6);
  for (int i = 0; i < bigB; i++) bigbase[i] = 'a' + i % 11;
  q += sprintf(q, "k <c:string ");
  if (dyn) { *q++ = 'f'; *q++ = '('; for (int i = 0; i < bigA; i++) q += sprintf(q, "%s\"%s%d\"", i ? "," : "", bigbase, i); *q++ = ')'; }
  else { q = puts_(q, "choice:"); for (int i = 0; i < bigN; i++) { bigval(i * 7 % bigN, t); if (i) *q++ = '|'; q = puts_(q, t); } }
  q = puts_(q, ">, cb(\"A\");"); *q = 0;
  parse_tree *pt = cli(spec);
  sym_assert(cligen_expandv_str2fn(pt, bigs2x, NULL) == 0, "callback bound");
  m = sym_pick("part", 3);
  m = m == 0 ? 1 : m == 1 ? bigB - 1 : bigB;
  memcpy(w, bigbase, m);
  n = sym_pick("more", 5);
  sym_strset(w + m, n, "w", "abcdefz");
  n += m; w[n] = 0;
  for (int i = 0; i < bigN; i++) { bigval(i, t); int k = kw_match(t, w, n); if (k) { cnt++; sel = i; } if (k == 2) ex = i; }
  if (ex >= 0) sel = ex;
  int want = ex >= 0 || cnt == 1 ? CG_MATCH : cnt ? CG_MULTIPLE : CG_NOMATCH;
  strcpy(line, "k "); strcpy(line + 2, w);
  cg_obj *co = NULL;
  cvec *cvv = NULL;
  cligen_result res = -7;
  char *reason = NULL;
  uint64_t l0 = sym_live_bytes();
  sym_assert(cliread_parse(H, line, pt, &co, &cvv, &res, &reason) == 0 && (int)res == want, "the line is decided");
  if (want == CG_MATCH) {
    bigval(sel, t);
    sym_assert(which(co) == 0 && cvec_len(cvv) == 3 && eqstr(cv_string_get(cvec_i(cvv, 2)), t) && eqstr(cv_name_get(cvec_i(cvv, 2)), "c"), "the full value");
  }
  sym_assert(!dyn || bigcalls, "callback called");
  if (co) co_free(co, 0);
  cvec_free(cvv);
  free(reason);
  sym_assert(sym_live_bytes() == l0, "nothing leaked");
  sym_observe(res);
  cli_end();
  sym_reach("end");
}
