/* C20: a rejected line always states a reason and has no effect. */
#include <errno.h>
#include "cli.h"
#include <cligen_getline.h>
static const char *SPEC[] = {
  "ab, cb(\"A\"); abc x, cb(\"B\"); b <i:int8>, cb(\"C\"); <s:string length[1:2]>, cb(\"D\"); <s2:string regexp:\"[a-b]+\"> y, cb(\"E\");",
  "a <u:bool>, cb(\"A\"); a <m:macaddr>, cb(\"B\"); a <d:decimal64 fraction-digits:1> b, cb(\"C\"); r <x:rest>, cb(\"D\");",
  "a [b] (c|d) [e f], cb(\"A\"); b <c:string choice:aa|ab|bc>, cb(\"B\");",
  "s @{ a, cb(\"A\"); b <i:int8>, cb(\"B\"); c{ d, cb(\"C\"); } }",
  "a @sub, cb(\"A\"); @sub; treename=\"sub\"; b, cb(\"S\"); c { d, cb(\"T\"); } <v:uint8>, cb(\"U\");",
  "<a:ipv4prefix>, cb(\"A\"); <b:url>, cb(\"B\"); <t:time>, cb(\"C\"); <u:uuid>, cb(\"D\"); <v:ipv6addr>, cb(\"E\");",
};
static int called;
static int cb(cligen_handle h, cvec *cvv, cvec *argv) { called++; return 0; }
static cgv_fnstype_t *s2f(char *n, void *a, char **e) { return cb; }
static const char *SET = " \"\\ab#1\t";
static const char *KEYS[] = {" abcx1\"", " abr1\"-", " abcdef", " sabcd1", " abcd1\"", " 1:./a@"};
static void raw(char *s, int n) {
  int set = sym_arg("set", 0);
  if (set == 2) sym_strset(s, n, "s", KEYS[sym_arg("spec", 0)]);
  else if (set) sym_strset(s, n, "s", SET);
  else sym_str(s, n, "s");
}
static parse_tree *tree(void) {
  int k = sym_arg("spec", 0);
  parse_tree *pt = cli(SPEC[k]);
  for (int i = 0; cligen_ph_i(H, i); i++) cligen_callbackv_str2fn(cligen_ph_parsetree_get(cligen_ph_i(H, i)), s2f, NULL);
  if (k == 4) { cligen_ph_active_set_byname(H, "spec"); pt = cligen_pt_active_get(H); }
  return pt;
}
void c20_line(void) {
  errno = ERANGE;      /* left over from something else */
  char s[32];
  int n = sym_arg("L", 3);
  parse_tree *pt = tree();
  raw(s, n);
  uint64_t l0 = sym_live_bytes();
  int first = -1;
  for (int k = 0; k < 2; k++) {
    char *line = malloc(n + 1), *reason = NULL;
    cg_obj *co = NULL;
    cvec *cvv = NULL;
    cligen_result res = -7;
    memcpy(line, s, n + 1);
    sym_assert(cliread_parse(H, line, pt, &co, &cvv, &res, &reason) == 0, "the line is decided");
    sym_assert(res == CG_NOMATCH || res == CG_MATCH || res == CG_MULTIPLE, "match, no match or ambiguous");
    if (res == CG_NOMATCH) sym_assert(reason && reason[0], "a reason for no match");
    sym_assert((co != NULL) == (res == CG_MATCH), "an object exactly on a match");
    sym_assert(cvv != NULL, "a vector");
    if (k) sym_assert((int)res == first, "same result again");
    first = res;
    if (co) co_free(co, 0);
    cvec_free(cvv);
    free(reason);
    free(line);
    sym_assert(sym_live_bytes() == l0, "nothing leaked");
  }
  sym_assert(called == 0, "no callback");
  sym_observe(first);
  cli_end();
  sym_reach("end");
}
/* through the terminal: a callback exactly on a match */
void c20_eval(void) {
  errno = ERANGE;      /* left over from something else */
  char s[40];
  int n = sym_arg("L", 3), cbr = -99;
  tree();
  raw(s, n);
  for (int i = 0; i < n; i++) sym_assume((unsigned char)s[i] >= 32 && (unsigned char)s[i] != 127);
  s[n] = '\n';
  env_tty(0, 24, 80);
  env_keys((unsigned char *)s, n + 1);
  char *line = NULL, *reason = NULL;
  cligen_result res = -7;
  called = 0;
  sym_assert(cliread_eval(H, &line, &cbr, &res, &reason) == 0, "no error");
  sym_assert(called == (res == CG_MATCH), "callback called exactly on a match");
  if (res == CG_NOMATCH) sym_assert(reason && reason[0], "a reason for no match");
  if (res == CG_MATCH) sym_assert(cbr == 0, "value of the callback");
  sym_assert((res == CG_EOF) == (line == NULL), "end of file without line");
  free(reason);
  cli_end();
  sym_reach("end");
}
static char *puts_(char *p, const char *s) { while (*s) *p++ = *s++; return p; }
/* any arrangement of the parts of a specification that is accepted can be used with any line */
static const char *PART[] = {"a", "ab", "b", " <x:int8>", " <s:string>", " <r:rest>", " <c:string choice:a|b>", " <e:string f()>", " @t ", " @|p ", " @v ", ";", "{", "}", "(", ")", "|", "[", "]", " @{", ", cb(\"A\")", ", hide"};
static int offer(cligen_handle h, char *name, cvec *cvv, cvec *argv, cvec *cmds, cvec *helps) { cvec_add_string(cmds, NULL, "ba"); cvec_add_string(cmds, NULL, "a"); return 0; }
static expandv_cb *s2x(char *n, void *a, char **e) { return offer; }
void c20_parts(void) {
  errno = ERANGE;      /* left over from something else */
  static const char *PRE[] = {"", "a { ", "b "}, *POST[] = {";", "; b, cb(\"B\"); }", ", cb(\"B\");"};
  int n = sym_arg("N", 3), shape = sym_arg("shape", 0), L = sym_arg("L", 3), first = sym_arg("first", -1), use = sym_pick("use", 3);
  char b[400], *q = b, s[16], *line, *reason, *out;
  q = puts_(q, PRE[shape]);
  for (int i = 0; i < n; i++) q = puts_(q, PART[i == 0 && first >= 0 ? first : (int)sym_pick("part", sizeof PART / sizeof *PART)]);
  q = puts_(q, POST[shape]);
  q = puts_(q, " treename=\"t\"; a, cb(\"T\"); b { ba, cb(\"U\"); <y:int8>, cb(\"V\"); } treename=\"v\"; <y:uint8>, cb(\"W\"); @t; treename=\"|p\"; \\| { a <z:string>, pf(\"P\"); }");
  *q = 0;
  H = cligen_init();
  GLOB = cvec_new(0);
  h_out_begin();
  FILE *e = stderr; stderr = stdout;
  int r = clispec_parse_str(H, b, "spec", NULL, NULL, GLOB);
  if (r < 0 || !cligen_ph_find(H, "spec")) { stderr = e; h_out_end(&out); h_out_free(out); sym_done(); sym_reach("refused"); return; }
  for (int i = 0; cligen_ph_i(H, i); i++) {
    parse_tree *p1 = cligen_ph_parsetree_get(cligen_ph_i(H, i));
    cligen_callbackv_str2fn(p1, s2f, NULL);
    cligen_expandv_str2fn(p1, s2x, NULL);
  }
  cligen_ph_active_set_byname(H, "spec");
  parse_tree *pt = cligen_pt_active_get(H);
  sym_strset(s, L, "s", "ab 1|");
  uint64_t l0 = sym_live_bytes();
  int res0 = -1;
  if (use == 0) for (int k = 0; k < 2; k++) {
    cg_obj *co = NULL;
    cvec *cvv = NULL;
    cligen_result res = -7;
    line = strdup(s);
    reason = NULL;
    sym_assert(cliread_parse(H, line, pt, &co, &cvv, &res, &reason) == 0, "the line is decided");
    sym_assert(res == CG_NOMATCH || res == CG_MATCH || res == CG_MULTIPLE, "match, no match or ambiguous");
    if (res == CG_NOMATCH) sym_assert(reason && reason[0], "a reason for no match");
    sym_assert((co != NULL) == (res == CG_MATCH), "an object exactly on a match");
    if (k) sym_assert((int)res == res0, "same result again");
    res0 = res;
    if (co) co_free(co, 0);
    cvec_free(cvv);
    free(reason);
    free(line);
    sym_assert(sym_live_bytes() == l0, "nothing leaked");
  }
  else {
    char keys[20];
    int m = L;
    memcpy(keys, s, L);
    keys[m++] = use == 1 ? '?' : '\t';
    keys[m++] = '\n';
    env_tty(0, 24, 80);
    env_keys((unsigned char *)keys, m);
    line = NULL;
    sym_assert(gl_getline(H, &line) == 0 && line, "a line is read");
    m = strlen(line);
    sym_assert(m > L && line[m - 1] == '\n' && eqmem(line, s, L), "the text typed is kept");
  }
  stderr = e;
  h_out_end(&out);
  h_out_free(out);
  sym_observe(res0);
  sym_assert(called == 0, "no callback");
  cli_end();
  sym_reach("end");
}
