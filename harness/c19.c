/* C19: help and completion list each visible candidate once and nothing hidden. */
#define MAXW 6
#include "complete.h"
#include <cligen_getline.h>
static char *pad_(char *q, const char *s, int n, int width) {
  int i;
  for (i = 0; i < n; i++) *q++ = s[i];
  for (; i < width; i++) *q++ = ' ';
  return q;
}
static void name_(const struct node *t, char *b) {
  if (t->decl) { *b++ = '<'; b = puts_(b, t->name); *b++ = '>'; *b = 0; }
  else strcpy(b, t->name);
}
/* i:th line of a help text without leading blanks, -1 if none */
static int help_line(const char *h, int i, const char **s) {
  if (h == NULL || *h == 0) return -1;
  for (;;) {
    int n = 0;
    while (h[n] && h[n] != '\n') n++;
    if (i-- == 0) { *s = h; return n; }
    if (h[n] == 0 || h[n + 1] == 0) return -1;
    h += n + 1;
  }
}
/* the same command text and the same first line of help are shown once */
static int same_(const struct node *a, const struct node *b, int help) {
  char x[96], y[96];
  const char *s, *t;
  name_(a, x); name_(b, y);
  if (strcmp(x, y)) return 0;
  if (!help) return 1;
  int n = help_line(a->help, 0, &s), m = help_line(b->help, 0, &t);
  return n == m && (n < 0 || eqmem(s, t, n));
}
static int unique_(const struct node *t, int *cand, int nc, int help) {
  int n = 0;
  for (int i = 0; i < nc; i++) if (n == 0 || !same_(&t[cand[n - 1]], &t[cand[i]], help)) cand[n++] = cand[i];
  return n;
}
static int width_(const struct node *t, int *cand, int nc) {
  char b[96];
  int m = 0;
  for (int i = 0; i < nc; i++) { name_(&t[cand[i]], b); if ((int)strlen(b) > m) m = strlen(b); }
  return m + 1 < 21 ? 21 : m + 1;
}
/* lines of the long form */
static char *want_lines(const struct node *t, int *cand, int nc, int tw, int lines, int trunc, char *q) {
  char b[96];
  const char *s;
  nc = unique_(t, cand, nc, 1);
  int cw = width_(t, cand, nc), w = tw - cw - 3;
  if (w < 0) w = 0;
  for (int i = 0; i < nc; i++) {
    name_(&t[cand[i]], b);
    q = puts_(q, "  ");
    q = pad_(q, b, strlen(b), cw);
    int n = help_line(t[cand[i]].help, 0, &s);
    if (n < 0) *q++ = '\n';
    for (int j = 0; n >= 0 && (lines == 0 || j < lines); n = help_line(t[cand[i]].help, ++j, &s)) {
      if (j) { q = puts_(q, "  "); q = pad_(q, "", 0, cw); }
      *q++ = ' ';
      q = pad_(q, s, trunc && n > w ? w : n, w);
      *q++ = '\n';
    }
  }
  return q;
}
/* columns of the short form */
static char *want_cols(const struct node *t, int *cand, int nc, int tw, char *q) {
  char b[96];
  nc = unique_(t, cand, nc, 0);
  if (nc == 0) return q;
  int cw = width_(t, cand, nc), cn = tw / cw;
  if (cn < 1) cn = 1;
  cw += tw % cw / cn;
  for (int i = 0; i < nc; i++) {
    name_(&t[cand[i]], b);
    *q++ = ' ';
    q = pad_(q, b, strlen(b), cw - 1);
    if (i % cn == cn - 1 || i == nc - 1) *q++ = '\n';
  }
  return q;
}
/* 1 if a command may end after the words typed, -1 if hidden commands were typed */
static int cr_(const struct node *t, struct part *p) {
  int a = -1, off = 0;
  if (!p->empty) return 0;
  for (int i = 0; i < p->l.k; i++) {
    if ((a = step_(t, a, p->l.w[i], p->l.n[i], p->l.s + off)) < 0) return -1;
    off += p->l.n[i] + 1;
  }
  return t[a].term;
}
void c19_help(void) {
  struct ctree *T = &CT[sym_arg("tree", 0)];
  struct part p;
  char want[2048], ins[64], *q = want, *out, *word, *line = NULL;
  int cand[24], wn, at, key, n = 0, j;
  static const int W[] = {80, 50, 30, 21};
  unsigned char k[64];
  const char *set[] = {"abcxyd1h-", "aXcdebft1", "k120mnazqt", "i1nk2b-"};
  key = sym_pick("key", 3);      /* question mark, TAB with columns, TAB with lines */
  int tw = W[sym_pick("width", sym_arg("W", 2))], lines = sym_pick("lines", 3), trunc = sym_pick("trunc", 2);
  if (sym_arg("empty", 0)) { memset(&p, 0, sizeof p); }
  else any_part(&p, sym_arg("K", 2), sym_arg("L", 2), sym_arg("set", 0) ? set[sym_arg("tree", 0)] : NULL);
  if (p.l.k == 0) p.empty = 1;
  cli(T->spec);
  cligen_terminal_width_set(H, tw);
  cligen_helpstring_lines_set(H, lines);
  cligen_helpstring_truncate_set(H, trunc);
  cligen_tabmode_set(H, (key == 2) * CLIGEN_TABMODE_COLUMNS);
  j = strlen(p.l.s);
  memcpy(k, p.l.s, j);
  k[j++] = key ? '\t' : '?';
  k[j++] = '\n';
  int nc = candidates(T->n, &p, cand, &word, &wn, &at);
  if (nc == -2) { sym_done(); return; }
  if (key && nc > 0 && (n = shared(T->n, cand, nc, wn, 0, ins))) { insert_(&p, ins, n); nc = candidates(T->n, &p, cand, &word, &wn, &at); }
  if (nc == -2) { sym_done(); return; }
  *q++ = '\n';
  int cr = p.l.k ? cr_(T->n, &p) : 0;
  if (key != 1 && cr == 1) q = puts_(q, "  <cr>\n");
  if (nc > 0) q = key == 1 ? want_cols(T->n, cand, nc, tw, q) : want_lines(T->n, cand, nc, tw, lines, trunc, q);
  env_tty(0, 24, tw);
  env_keys(k, j);
  h_out_begin();
  sym_assert(gl_getline(H, &line) == 0 && line, "a line is read");
  int l = h_out_end(&out);
#ifdef DBG
  fprintf(stderr, "[%.*s]\n[%.*s]\n", l, out, (int)(q - want), want);
#endif
  if (cr == -1 && key != 1 && l > q - want) sym_assert(l == q - want + 7 && eqmem(out + l - 7, "  <cr>\n", 7), "nothing listed below a hidden command");
  else {
    sym_assert(l == q - want, "exactly the candidates are listed");
    sym_assert(l != q - want || eqmem(out, want, l), "the text of the list");
  }
  h_out_free(out);
  cli_end();
  sym_reach(nc > 1 ? "many" : nc == 1 ? "one" : "none");
}
/* many commands, long names, long help texts of many lines, wide and narrow terminals */
void c19_big(void) {
  static struct node t[64];
  static int cand[64];
  static char nm[64][80], ht[4][4096], want[200000], spec[60000], in[64];
  char *q = want, *out, *line = NULL, *s = spec;
  unsigned char k[16];
  static const int NN[] = {3, 17, 40}, NL[] = {3, 19, 20, 21, 22, 60}, HL[] = {1, 56, 57, 60, 150}, HN[] = {1, 2, 9, 12}, W[] = {80, 21, 170, 32}, LN[] = {0, 1, 2, 10};
  int part = sym_arg("part", 0), key = part ? sym_pick("tab", 2) * 2 : sym_pick("key", 3), n = NN[part ? 0 : sym_pick("n", 3)], nl = NL[part ? sym_pick("longname", 2) * 4 : sym_pick("name", 6)], i, j, x, nc = 0;
  int hl = HL[part ? sym_pick("length", 5) : 1], hn = HN[part ? sym_pick("lines", 4) : 0], tw = W[sym_pick("width", part ? 3 : 4)], lines = LN[part ? sym_pick("limit", 4) : 0], trunc = part ? sym_pick("trunc", 2) : 0;
  memset(t, 0, sizeof t);
  for (i = 0; i < n; i++) {
    nm[i][0] = 'k'; nm[i][1] = '0' + i / 10; nm[i][2] = '0' + i % 10;
    int l = i == n / 2 ? nl : 3;
    for (j = 3; j < l; j++) nm[i][j] = 'a' + j % 20;
    nm[i][l] = 0;
    t[i].name = nm[i];
    s = puts_(s, nm[i]);
    if (i % 3 != 1) {
      char *h = ht[i % 4];
      for (x = 0; x < hn; x++) { for (j = 0; j < (x % 2 ? 3 : hl); j++) *h++ = 'A' + (x + j) % 26; *h++ = '\n'; }
      h[-1] = 0;
      t[i].help = ht[i % 4];
      s = puts_(s, "(\""); s = puts_(s, ht[i % 4]); s = puts_(s, "\")");
    }
    s = puts_(s, ", cb();\n");
  }
  *s = 0;
  int typed = part ? 2 : sym_pick("typed", 3);      /* nothing, the letter all share, and a digit */
  if (typed) in[0] = 'k';
  if (typed == 2) in[1] = part ? '0' : sym_u8("digit", '0', '5');
  for (i = 0; i < n; i++) if (typed < 2 || in[1] == nm[i][1]) cand[nc++] = i;
  cli(spec);
  cligen_terminal_width_set(H, tw);
  cligen_helpstring_lines_set(H, lines);
  cligen_helpstring_truncate_set(H, trunc);
  cligen_tabmode_set(H, (key == 2) * CLIGEN_TABMODE_COLUMNS);
  if (key && (nc == 1 || typed == 0 || (typed == 1 && n < 10))) { sym_done(); return; }   /* TAB would complete */
  j = strlen(in);
  memcpy(k, in, j);
  k[j++] = key ? '\t' : '?';
  k[j++] = '\n';
  *q++ = '\n';
  if (nc > 0) q = key == 1 ? want_cols(t, cand, nc, tw, q) : want_lines(t, cand, nc, tw, lines, trunc, q);
  env_tty(0, 24, tw);
  env_keys(k, j);
  h_out_begin();
  sym_assert(gl_getline(H, &line) == 0 && line, "a line is read");
  int l = h_out_end(&out);
#ifdef DBG
  fprintf(stderr, "[%.*s]\n[%.*s]\n", l, out, (int)(q - want), want);
#endif
  sym_assert(l == q - want, "exactly the candidates are listed");
  sym_assert(l != q - want || eqmem(out, want, l), "the text of the list");
  h_out_free(out);
  cli_end();
  sym_reach("end");
}
/* values and help texts of an expansion callback are listed as returned */
static const char *HT[] = {"", "h", "help me\nmore", "h"};
static char XV[4][2];
static int XH[4], XN, XHN;
static int xcb(void *h, char *name, cvec *cvv, cvec *argv, cvec *cmds, cvec *helps) {
  for (int i = 0; i < XN; i++) cvec_add_string(cmds, NULL, XV[i]);
  for (int i = 0; i < XHN; i++) cvec_add_string(helps, NULL, (char *)HT[XH[i]]);
  return 0;
}
static expandv_cb *s2x(char *n, void *a, char **e) { return (expandv_cb *)xcb; }
void c19_expand(void) {
  struct node t[8];
  int cand[4], nc = 0, key = sym_pick("key", 2), typed = sym_pick("typed", 2);
  char want[1024], *q = want, *out, *line = NULL;
  unsigned char k[16], c = 0;
  memset(t, 0, sizeof t);
  XN = sym_pick("n", sym_arg("N", 3)) + 1;
  XHN = sym_pick("helps", XN + 1);
  for (int i = 0; i < XN; i++) XV[i][0] = 'a' + sym_pick("v", 2);
  for (int i = 0; i < XHN; i++) XH[i] = sym_pick("h", 3);
  if (typed) c = sym_u8("c", 'a', 'c');
  for (int i = 0; i < XN; i++) {
    t[i].name = XV[i];
    t[i].help = i < XHN ? HT[XH[i]] : "variable";
    if (!typed || c == (unsigned char)XV[i][0]) cand[nc++] = i;
  }
  parse_tree *pt = cli("x <v:string f()>(\"variable\"), cb();");
  sym_assert(cligen_expandv_str2fn(pt, s2x, NULL) == 0, "callback bound");
  cligen_tabmode_set(H, CLIGEN_TABMODE_COLUMNS);
  for (int i = 1; i < nc; i++)       /* in tree order */
    for (int m = i; m > 0 && XV[cand[m - 1]][0] > XV[cand[m]][0]; m--) { int x = cand[m]; cand[m] = cand[m - 1]; cand[m - 1] = x; }
  int j = 0;
  k[j++] = 'x'; k[j++] = ' ';
  if (typed) k[j++] = c;
  k[j++] = key ? '\t' : '?';
  k[j++] = '\n';
  int same = nc > 0;
  for (int i = 1; i < nc; i++) same = same && XV[cand[i]][0] == XV[cand[0]][0];
  if (same && nc > 1) { sym_done(); return; }   /* equal commands count as one */
  if (key && same) { sym_done(); return; }
  *q++ = '\n';
  q = want_lines(t, cand, nc, 80, 0, 0, q);
  env_tty(0, 24, 80);
  env_keys(k, j);
  h_out_begin();
  sym_assert(gl_getline(H, &line) == 0 && line, "a line is read");
  int l = h_out_end(&out);
#ifdef DBG
  fprintf(stderr, "[%.*s]\n[%.*s]\n", l, out, (int)(q - want), want);
#endif
  sym_assert(l == q - want, "exactly the values are listed");
  sym_assert(l != q - want || eqmem(out, want, l), "the text of the list");
  h_out_free(out);
  cli_end();
  sym_reach("end");
}
