/* C18: completion adds only what every candidate shares. */
#define MAXW 10
#include "complete.h"
#include <cligen_getline.h>
static int keys_(unsigned char *k, struct part *p, const char *right, int nr, int mark) {
  int n = strlen(p->l.s), j = 0;
  memcpy(k, p->l.s, n); j += n;
  memcpy(k + j, right, nr); j += nr;
  for (int i = 0; i < nr; i++) k[j++] = 2;      /* ^B */
  k[j++] = '\t';
  if (mark) k[j++] = '|';
  k[j++] = '\n';
  return j;
}
static void read_(char **line) {
  sym_assert(gl_getline(H, line) == 0 && *line, "a line is read");
  int n = strlen(*line);
  sym_assert(n && (*line)[n - 1] == '\n', "ends with newline");
  (*line)[n - 1] = 0;
}
/* one TAB, with text after the cursor; where the cursor is afterwards is seen by typing a character */
void c18_tab(void) {
  struct ctree *T = &CT[sym_arg("tree", 0)];
  struct part p;
  char right[4], ins[64], want[256];
  int cand[24], wn, at, nr, mode;
  char *word;
  unsigned char k[256];
  nocase = sym_arg("nocase", 0);
  const char *set[] = {"abcxyd1h- ", "aXcdebft1 ", "k120mnazqt "};
  any_part(&p, sym_arg("K", 2), sym_arg("L", 2), sym_arg("set", 0) ? set[sym_arg("tree", 0)] : NULL);
  if (sym_arg("set", 0)) for (int i = 0; i < p.l.k; i++) for (int j = 0; j < p.l.n[i]; j++) sym_assume(p.l.w[i][j] != ' ');
  nr = sym_pick("right", sym_arg("R", 1) + 1);
  for (int i = 0; i < nr; i++) right[i] = sym_u8("r", 32, 126);
  for (int i = 0; i < nr; i++) sym_assume(right[i] != '\\' && right[i] != '?');
  mode = sym_pick("mode", 4);
  cli(T->spec);
  cligen_tabmode_set(H, (mode & 1) * CLIGEN_TABMODE_VARS + (mode / 2) * CLIGEN_TABMODE_COLUMNS);
  if (nocase) cligen_caseignore_set(H, 1);
  int nc = candidates(T->n, &p, cand, &word, &wn, &at), n = 0;
  if (nc == -2) { sym_done(); return; }
  if (nc > 0) n = shared(T->n, cand, nc, wn, mode & 1, ins);
  int nl = strlen(p.l.s), w = 0;
  memcpy(want, p.l.s, nl); w = nl;
  memcpy(want + w, ins, n); w += n;
  want[w++] = '|';
  memcpy(want + w, right, nr); w += nr;
  env_tty(0, 24, 80);
  env_keys(k, keys_(k, &p, right, nr, 1));
  char *line = NULL, *out;
  h_out_begin();
  read_(&line);
  h_out_end(&out);
  sym_assert(strlen(line) == (size_t)w, "exactly the shared text was inserted");
  sym_assert(strlen(line) != (size_t)w || eqmem(line, want, w), "text before and after the cursor is kept");
  h_out_free(out);
  cli_end();
  sym_reach(n ? "inserted" : "nothing");
}
/* all steps at once */
void c18_steps(void) {
  struct ctree *T = &CT[sym_arg("tree", 0)];
  struct part p;
  char ins[64], want[256];
  int cand[24], wn, at, mode;
  char *word;
  unsigned char k[256];
  any_part(&p, sym_arg("K", 2), sym_arg("L", 2), NULL);
  mode = sym_pick("mode", 2);
  cli(T->spec);
  cligen_tabmode_set(H, mode * CLIGEN_TABMODE_VARS + CLIGEN_TABMODE_STEPS);
  env_keys(k, keys_(k, &p, "", 0, 0));
  for (int i = 0; i < 9; i++) {
    int nc = candidates(T->n, &p, cand, &word, &wn, &at), n = 0;
    if (nc == -2) { sym_done(); return; }
    if (nc > 0) n = shared(T->n, cand, nc, wn, mode & 1, ins);
    if (n == 0) break;
    insert_(&p, ins, n);
  }
  strcpy(want, p.l.s);
  env_tty(0, 24, 80);
  char *line = NULL, *out;
  h_out_begin();
  read_(&line);
  h_out_end(&out);
  sym_assert(strlen(line) == strlen(want), "exactly the shared text was inserted");
  sym_assert(strlen(line) != strlen(want) || eqmem(line, want, strlen(want)), "text is kept");
  h_out_free(out);
  cli_end();
  sym_reach("end");
}
/* keywords of any length, line and cursor anywhere near the size of the buffer */
void c18_long(void) {
  char spec[600], *q = spec;
  unsigned char k[600];
  int j = 0, two = sym_pick("two", 2), typed = sym_pick("typed", 3), nr = sym_pick("right", 4);
  int len = sym_arg("from", 120) + sym_pick("len", sym_arg("n", 12)), common = len;
  for (int i = 0; i < len; i++) *q++ = 'a' + i % 7;
  q = puts_(q, ", cb();\n");
  if (two) { common = len - 3; for (int i = 0; i < common; i++) *q++ = 'a' + i % 7; q = puts_(q, "Z, cb();\n"); }
  *q = 0;
  cli(spec);
  char right[4];
  for (int i = 0; i < nr; i++) right[i] = sym_u8("r", 'a', 'z');
  for (int i = 0; i < typed; i++) k[j++] = 'a' + i % 7;
  for (int i = 0; i < nr; i++) k[j++] = right[i];
  for (int i = 0; i < nr; i++) k[j++] = 2;
  k[j++] = '\t';
  k[j++] = '\n';
  env_tty(0, 24, 80);
  env_keys(k, j);
  char *line = NULL, *out;
  h_out_begin();
  read_(&line);
  h_out_end(&out);
  int w = common + !two + nr;
  sym_assert(strlen(line) == (size_t)w, "length");
  for (int i = 0; i < common; i++) sym_assert(line[i] == 'a' + i % 7, "completed text");
  sym_assert(eqmem(line + w - nr, right, nr), "text after the cursor is kept");
  if (!two) sym_assert(line[common] == ' ', "delimiter");
  h_out_free(out);
  cli_end();
  sym_reach("end");
}
/* many keywords with a long text in common */
void c18_many(void) {
  static char spec[40000], want[256];
  static const int NN[] = {2, 9, 33, 70}, CL[] = {1, 7, 31, 63};
  char *q = spec;
  unsigned char k[128];
  int n = NN[sym_pick("n", 4)], c = CL[sym_pick("common", 4)], i, j = 0, w = 0, m = 0, add = sym_pick("sub", 2);
  for (i = 0; i < n; i++) {
    for (m = 0; m < c; m++) *q++ = 'a' + m % 9;
    *q++ = '0' + i / 10; *q++ = '0' + i % 10;
    if (add && i == 0) q = puts_(q, "{ sub, cb(); }\n"); else q = puts_(q, ", cb();\n");
  }
  *q = 0;
  cli(spec);
  int typed = sym_pick("typed", 3);
  if (typed == 2) typed = c / 2 + 1;
  int ok = 1, all = 1;
  for (i = 0; i < typed; i++) {
    char x = 'a' + i % 9;
    if (i == typed - 1) { x = sym_u8("c", 'a', 'z'); ok = x == 'a' + i % 9; }
    k[j++] = x; want[w++] = x;
  }
  (void)all;
  if (ok) {
    for (i = typed; i < c; i++) want[w++] = 'a' + i % 9;
    if (n <= 10) want[w++] = '0';     /* the first digit too */
  }
  k[j++] = '\t'; k[j++] = '|'; k[j++] = '\n';
  want[w++] = '|';
  env_tty(0, 24, 80);
  env_keys(k, j);
  char *line = NULL, *out;
  h_out_begin();
  read_(&line);
  h_out_end(&out);
  sym_assert(strlen(line) == (size_t)w, "exactly the shared text was inserted");
  sym_assert(strlen(line) != (size_t)w || eqmem(line, want, w), "text before and after the cursor is kept");
  h_out_free(out);
  cli_end();
  sym_reach(ok ? "inserted" : "nothing");
}
/* a quoted word is complete */
void c18_quoted(void) {
  unsigned char k[64];
  char line0[64];
  int n = sym_arg("L", 2), j = 0;
  cli(CT[0].spec);
  k[j++] = '"';
  for (int i = 0; i < n; i++) k[j++] = sym_u8("q", 32, 126);
  for (int i = 1; i <= n; i++) sym_assume(k[i] != '\\' && k[i] != '?' && k[i] != '"');
  k[j++] = '"';
  memcpy(line0, k, j);
  int l0 = j;
  k[j++] = '\t';
  k[j++] = '\n';
  env_tty(0, 24, 80);
  env_keys(k, j);
  char *line = NULL, *out;
  h_out_begin();
  read_(&line);
  h_out_end(&out);
  int l = strlen(line);
  sym_assert(l >= l0 && eqmem(line, line0, l0), "typed text is kept");
  sym_assert(l <= l0 + 1, "no characters added to a quoted word");
  if (l == l0 + 1) sym_assert(line[l0] == ' ', "delimiter only");
  h_out_free(out);
  cli_end();
  sym_reach("end");
}
