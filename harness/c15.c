/* C15: a line matches a command exactly when every word has one best interpretation. */
#include "match.h"
static int r15(cg_var *cv) { return cv_int32_get(cv) >= 1 && cv_int32_get(cv) <= 5; }
static int len2(cg_var *cv) { return strlen(cv_string_get(cv)) <= 2; }
static const struct node T0[] = {KW(-1, "ab", 1), KW(-1, "abc", 1), KW(-1, "b", 1), KW(-1, "ba", 0), KW(3, "c", 1), KW(3, "cd", 1), KW(3, "da", 0), KW(6, "x", 1), END};
static const struct node T1[] = {KW(-1, "a", 0), KW(0, "bc", 1), {0, "i", "<i:int8>", CGV_INT8, 52, 1}, {0, "s", "<s:string length[1:2]>", CGV_STRING, 5, 0, len2}, KW(3, "e", 1), KW(2, "e", 1), KW(0, "12", 1), END};
static const struct node T2[] = {KW(-1, "r", 1), {0, "x", "<x:rest>", CGV_REST, 1, 1}, KW(0, "st", 0), {2, "y", "<y:int32 range[1:5]>", CGV_INT32, 56, 1, r15}, {0, "b", "<b:bool>", CGV_BOOL, 12, 1}, KW(4, "z", 1), {-1, "t", "<t:string>", CGV_STRING, 5, 0}, {6, "u", "<u:uint8>", CGV_UINT8, 51, 1}, {6, "v", "<v:int64>", CGV_INT64, 46, 1}, END};
static const struct node T3[] = {KW(-1, "a", 1), KW(0, "a", 1), KW(1, "a", 0), KW(2, "ab", 1), KW(2, "ac", 1), KW(0, "aa", 0), KW(5, "a", 1), END};
static const struct node *T[] = {T0, T1, T2, T3};
void c15_match(void) {
  char spec[1024];
  struct line l;
  struct result r;
  cg_obj *co = NULL;
  cvec *cvv = NULL;
  cligen_result res = -7;
  char *reason = NULL, *line;
  const struct node *t = T[sym_arg("tree", 0)];
  static const char *set[] = {"abcd", "abce12", "rstz015tue", "abc"};
  tree_spec(t, sym_arg("order", 0), spec);
  parse_tree *pt = cli(spec);
  any_line(&l, sym_arg("K", 2), sym_arg("L", 2), sym_arg("set", 0) ? set[sym_arg("tree", 0)] : NULL);
  uint64_t l0 = sym_live_bytes();
  ref_match(t, &l, &r, 0);
  ref_free(&r);
  line = strdup(l.s);
  sym_assert(cliread_parse(H, line, pt, &co, &cvv, &res, &reason) == 0, "no error");
  free(line);
  sym_assert((int)res == r.res, "match, no match or ambiguous as the rules say");
  sym_assert((co != NULL) == (r.res == CG_MATCH), "an object exactly on a match");
  if (r.res == CG_MATCH) sym_assert(which(co) == r.node, "the command the rules select");
  if (co) co_free(co, 0);
  if (cvv) cvec_free(cvv);
  free(reason);
  sym_assert(sym_live_bytes() == l0, "nothing leaked");
  sym_observe(res);
  cli_end();
  sym_reach("end");
}
/* many commands with long names at any depth: the word is a part of the common beginning and up to three letters */
static int argno(cg_obj *co) { return atoi(cv_string_get(cvec_i(co->co_callbacks->cc_cvec, 0))); }
void c15_big(void) {
  static char spec[40000], line[2000];
  char name[300], w[300];
  int B = sym_arg("base", 30), N = sym_arg("N", 40), D = sym_arg("D", 2), rev = sym_pick("reversed", 2), i;
  char *q = spec, *p = line;
  for (i = 0; i < B; i++) name[i] = 'a' + (i * 5 + i / 7) % 20;
  for (int j = 0; j < N; j++) {
    i = rev ? N - 1 - j : j;
    for (int d = 0; d < D; d++) { memcpy(q, name, B); q += B; *q++ = 'a' + d % 20; *q++ = ' '; }
    memcpy(q, name, B); q += B;
    *q++ = 'a' + i / 6; *q++ = 'a' + i % 6;
    q += sprintf(q, ", cb(\"%d\");\n", i);
  }
  *q = 0;
  parse_tree *pt = cli(spec);
  for (int d = 0; d < D; d++) { memcpy(p, name, B); p += B; if (d % 3) *p++ = 'a' + d % 20; *p++ = ' '; }
  int m = sym_pick("part", 3), n = 0, cnt = 0, hit = -1, exact = -1;
  m = m == 0 ? 1 : m == 1 ? B / 2 : B;
  memcpy(w, name, m);
  n = sym_pick("more", 4);
  sym_strset(w + m, n, "w", "abcdefghz");
  n += m;
  w[n] = 0;
  strcpy(p, w);
  for (i = 0; i < N; i++) {
    char full[300];
    memcpy(full, name, B); full[B] = 'a' + i / 6; full[B + 1] = 'a' + i % 6; full[B + 2] = 0;
    int k = kw_match(full, w, n);
    if (k) { cnt++; hit = i; }
    if (k == 2) exact = i;
  }
  int want = exact >= 0 || cnt == 1 ? CG_MATCH : cnt ? CG_MULTIPLE : CG_NOMATCH;
  if (exact >= 0) hit = exact;
  cg_obj *co = NULL;
  cvec *cvv = NULL;
  cligen_result res = -7;
  char *reason = NULL;
  sym_assert(cliread_parse(H, line, pt, &co, &cvv, &res, &reason) == 0, "no error");
  sym_assert((int)res == want, "match, no match or ambiguous as the rules say");
  if (want == CG_MATCH) {
    sym_assert(argno(co) == hit && cvec_len(cvv) == D + 2, "the command the rules select");
    for (int d = 0; d <= D; d++) {
      char *s = cv_string_get(cvec_i(cvv, d + 1));
      sym_assert((int)strlen(s) == B + (d < D ? 1 : 2) && eqmem(s, name, B), "keyword in full");
    }
    co_free(co, 0);
  }
  if (cvv) cvec_free(cvv);
  free(reason);
  sym_observe(res);
  cli_end();
  sym_reach("end");
}
