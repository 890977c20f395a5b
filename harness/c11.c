/* C11: escaping a value and typing it back yields the same value. */
#include "cli.h"
#include <cligen_match.h>
static char *esc(const char *v) {
  int n = cligen_escape_need(v);
  sym_assert(n == 0 || n == 1, "need is 0 or 1");
  return n ? cligen_escape_do(v) : strdup(v);
}
/* a value that can be typed: no double quote, newline, leading comment character */
static void value(char *v, int n) {
  int set = sym_arg("set", 0);
  if (set) sym_strset(v, n, "v", " \t?\\a#\"'");
  else sym_str(v, n, "v");
  for (int i = 0; i < n; i++) sym_assume(v[i] != '"' && v[i] != '\n');
  if (sym_arg("comment", 1)) sym_assume(v[0] != '#');
}
/* typing the escaped text of a value binds the value */
static void typed(parse_tree *pt, const char *text, const char *v, int n) {
  char *line = malloc(strlen(text) + 3), *reason = NULL;
  cg_obj *co = NULL;
  cvec *cvv = NULL;
  cligen_result res = -7;
  strcpy(line, "x ");
  strcat(line, text);
  sym_assert(cliread_parse(H, line, pt, &co, &cvv, &res, &reason) == 0, "the line is decided");
  sym_assert(res == CG_MATCH, "the value reads back as one word");
  if (res == CG_MATCH) {
    sym_assert(cvec_len(cvv) == 3, "one word");
    char *got = cv_string_get(cvec_i(cvv, 2));
    sym_assert(got != NULL, "a string");
    sym_assert(strlen(got) == (size_t)n && eqmem(got, v, n), "same content");
  }
  if (co) co_free(co, 0);
  if (cvv) cvec_free(cvv);
  free(reason);
  free(line);
}
void c11_string(void) {
  char v[16], w[16];
  int n = sym_arg("L", 3);
  value(v, n);
  memcpy(w, v, n + 1);
  parse_tree *pt = cli("x <v:string>;");
  if (!sym_arg("comment", 1)) cligen_comment_set(H, 0);
  uint64_t l0 = sym_live_bytes();
  char *e = esc(v);
  sym_assert(eqmem(v, w, n + 1), "the value is untouched");
  typed(pt, e, v, n);
  free(e);
  sym_assert(sym_live_bytes() == l0, "nothing leaked");
  cli_end();
  sym_reach("end");
}
/* any string can be given to the escaping functions: quoted text whose specials are preceded by a backslash */
void c11_form(void) {
  char v[16];
  int n = sym_arg("L", 3);
  sym_str(v, n, "v");
  uint64_t l0 = sym_live_bytes();
  char *e = cligen_escape_do(v);
  int j = 1, k = 2;
  sym_assert(e && e[0] == '"', "starts with a quote");
  for (int i = 0; i < n; i++) {
    if (v[i] == '?' || v[i] == '\\') { sym_assert(e[j] == '\\', "escaped"); j++; }
    sym_assert(e[j] == v[i], "character kept");
    j++;
  }
  sym_assert(e[j] == '"' && e[j + 1] == 0, "ends with a quote");
  free(e);
  int need = 0;
  for (int i = 0; i < n; i++) need |= in_set(v[i], "?\\ \t");
  if (n > 1) need = need && !(v[0] == '"' && v[n - 1] == '"');
  sym_assert(cligen_escape_need(v) == !!need, "needed exactly for blanks, backslash and question mark outside quotes");
  sym_assert(cligen_escape_need(NULL) == -1 && cligen_escape_do(NULL) == NULL, "NULL is refused");
  sym_assert(sym_live_bytes() == l0, "nothing leaked");
  sym_reach("end");
}
/* values offered by an expansion */
static char V[2][16];
static int N[2];
static int xcb(void *h, char *name, cvec *cvv, cvec *argv, cvec *cmds, cvec *helps) {
  for (int i = 0; i < 2; i++) {
    char *e = esc(V[i]);
    cvec_add_string(cmds, NULL, e);
    cvec_add_string(helps, NULL, "h");
    free(e);
  }
  return 0;
}
static expandv_cb *s2x(char *n, void *a, char **e) { return (expandv_cb *)xcb; }
static parse_tree *xtree(void) {
  N[0] = sym_arg("L", 2);
  N[1] = sym_arg("M", 2);
  for (int i = 0; i < 2; i++) value(V[i], N[i]);
  if (N[0] == N[1]) sym_assume(!eqmem(V[0], V[1], N[0]));
  parse_tree *pt = cli("x <v:string f()>;");
  sym_assert(cligen_expandv_str2fn(pt, s2x, NULL) == 0, "callback bound");
  return pt;
}
void c11_expand(void) {
  parse_tree *pt = xtree();
  uint64_t l0 = sym_live_bytes();
  for (int i = 0; i < 2; i++) { char *e = esc(V[i]); typed(pt, e, V[i], N[i]); free(e); }
  sym_assert(sym_live_bytes() == l0, "nothing leaked");
  cli_end();
  sym_reach("end");
}
/* completing a prefix of the text offered, then reading the line */
void c11_complete(void) {
  parse_tree *pt = xtree(), *ptn = pt_new();
  char *e = esc(V[0]);
  int p = sym_pick("prefix", strlen(e)) + 1;
  if (p == (int)strlen(e) && e[0] == '"') { sym_done(); return; }   /* a complete word is not completed */
  size_t len = 64;
  char *line = calloc(1, len);
  strcpy(line, "x ");
  memcpy(line + 2, e, p);
  sym_assume(e[p - 1] != '\\');
  cvec *cvv = cvec_start(line);
  sym_assert(pt_expand(H, NULL, pt, NULL, cvv, 1, 0, NULL, NULL, ptn) == 0, "expanded");
  int r = match_complete(H, ptn, &line, &len, cvv);
  sym_assert(r == 0 || r == 1, "completed or not");
  cvec_free(cvv);
  pt_free(ptn, 0);
  pt_expand_cleanup(H, pt);
  int n = strlen(line), m = strlen(e);
  char *e1 = esc(V[1]);
  int one = (int)strlen(e1) < p || !eqmem(e1, e, p);   /* the other value does not start like this */
  free(e1);
  sym_assert(n >= 2 + p && eqmem(line + 2, e, p), "what was typed is kept");
  if (one && e[0] != '"') sym_assert(n == m + 3 && line[n - 1] == ' ', "the only candidate is completed");
  if (one && n > 2 + p) {
    sym_assert(n == m + 3 && eqmem(line + 2, e, m) && line[n - 1] == ' ', "the value offered, then a blank");
    typed(pt, line + 2, V[0], N[0]);
    sym_reach("complete");
    if (e[0] == '"') sym_reach("quoted");
  }
  free(line);
  free(e);
  cli_end();
  sym_reach("end");
}

/* long values */
void c11_long(void) {
  static char v[1100];
  static const int LN[] = {14, 30, 62, 126, 254, 1000};
  static const char *PAT[] = {"a", "a b", "?", "\\x", "\t\\?b"};
  int n = LN[sym_pick("len", 6)] + sym_pick("more", 3), p = sym_pick("pattern", 5), at = sym_pick("at", 3), i;
  for (i = 0; i < n; i++) v[i] = PAT[p][i % strlen(PAT[p])];
  v[n] = 0;
  v[at == 0 ? 0 : at == 1 ? n / 2 : n - 1] = sym_u8("c", 1, 255);
  for (i = 0; i < n; i++) sym_assume(v[i] != '"' && v[i] != '\n');
  sym_assume(v[0] != '#');
  parse_tree *pt = cli("x <v:string>;");
  uint64_t l0 = sym_live_bytes();
  char *e = esc(v);
  typed(pt, e, v, n);
  free(e);
  sym_assert(sym_live_bytes() == l0, "nothing leaked");
  cli_end();
  sym_reach("end");
}
