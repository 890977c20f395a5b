/* Trees with help texts and hidden commands, and what can continue a partial line, as documented. */
#ifndef COMPLETE_H
#define COMPLETE_H
#include "match.h"
#define KWH(p, n, e, hid, help) {p, n, NULL, CGV_ERR, 0, e, NULL, hid, help}
#define VARH(p, n, ty, pr, e, help) {p, n, "<>", ty, pr, e, NULL, 0, help}
struct ctree { const char *spec; struct node n[24]; };
/* nodes in tree order */
static struct ctree CT[] = {
  {"ab(\"one\"), cb(); abc(\"two\"){ x(\"ex\"), cb(); y, cb(); <n:int8>(\"num\"), cb(); } b(\"bee\nsecond line is long\nthird\"){ c{ d, cb(); } } b(\"bee\nsecond line is long\nthird\") c dd, hide, cb();"
   " hid, hide, cb(); <v:int8>(\"val\"), cb();",
   {KWH(-1, "ab", 1, 0, "one"), KWH(-1, "abc", 0, 0, "two"), KWH(-1, "b", 0, 0, "bee\nsecond line is long\nthird"), KWH(-1, "hid", 1, 1, 0), VARH(-1, "v", CGV_INT8, 52, 1, "val"),
    KWH(1, "x", 1, 0, "ex"), KWH(1, "y", 1, 0, 0), VARH(1, "n", CGV_INT8, 52, 1, "num"), KWH(2, "c", 0, 0, 0), KWH(8, "d", 1, 0, 0), KWH(8, "dd", 1, 1, 0), END}},
  {"aXb(\"\"), cb(); aXc(\"h\"){ eth0, cb(); eth1(\"port with a long description\"), cb(); } c(\"cc\"), hide, cb(); cd(\"a\nb\"){ e, hide, cb(); f, hide, cb(); } d{ e, cb(); f, hide, cb(); <r:rest>(\"remaining\"), cb(); } <s:string>(\"str\"){ a, cb(); }",
   {KWH(-1, "aXb", 1, 0, 0), KWH(-1, "aXc", 0, 0, "h"), KWH(-1, "c", 1, 1, "cc"), KWH(-1, "cd", 0, 0, "a\nb"), KWH(-1, "d", 0, 0, 0), VARH(-1, "s", CGV_STRING, 5, 0, "str"),
    KWH(1, "eth0", 1, 0, 0), KWH(1, "eth1", 1, 0, "port with a long description"), KWH(3, "e", 1, 1, 0), KWH(3, "f", 1, 1, 0), KWH(4, "e", 1, 0, 0), KWH(4, "f", 1, 1, 0), VARH(4, "r", CGV_REST, 1, 1, "remaining"),
    KWH(5, "a", 1, 0, 0), END}},
  {"k1, cb(); k10, cb(); k2, cb(); m{ <a:int8>(\"\"), cb(); <a:int16>(\"\"), cb(); <a:bool>(\"truth\"), cb(); } n { <a:int8>(\"small\nnumber\"){ z, cb(); } q, hide{ r, cb(); } }",
   {KWH(-1, "k1", 1, 0, 0), KWH(-1, "k10", 1, 0, 0), KWH(-1, "k2", 1, 0, 0), KWH(-1, "m", 0, 0, 0), KWH(-1, "n", 0, 0, 0),
    VARH(3, "a", CGV_INT8, 52, 1, ""), VARH(3, "a", CGV_INT16, 51, 1, ""), VARH(3, "a", CGV_BOOL, 12, 1, "truth"), VARH(4, "a", CGV_INT8, 52, 0, "small\nnumber"), KWH(4, "q", 0, 1, 0), KWH(8, "z", 1, 0, 0), KWH(9, "r", 1, 0, 0), END}},
  {"i1, cb(); interface-of-a-long-name(\"long\"){ <a-variable-with-a-long-name:int8>(\"v1\"), cb(); b(\"short\"), cb(); } k, hide, cb(); <number-of-the-port-in-use:int16>(\"v2\nmore\"), cb(); zone-with-an-even-longer-name-than-that, hide, cb();",
   {KWH(-1, "i1", 1, 0, 0), KWH(-1, "interface-of-a-long-name", 0, 0, "long"), KWH(-1, "k", 1, 1, 0), VARH(-1, "number-of-the-port-in-use", CGV_INT16, 51, 1, "v2\nmore"), KWH(-1, "zone-with-an-even-longer-name-than-that", 1, 1, 0),
    KWH(1, "b", 1, 0, "short"), VARH(1, "a-variable-with-a-long-name", CGV_INT8, 52, 1, "v1"), END}},
};
#define NCT ((int)(sizeof CT / sizeof CT[0]))
/* a partial line: words and a last word that may be empty */
struct part { struct line l; int empty; };
static void any_part(struct part *p, int K, int L, const char *set) {
  any_line(&p->l, K, L, set);
  for (int i = 0; i < p->l.k; i++) for (int j = 0; j < p->l.n[i]; j++) sym_assume(p->l.w[i][j] > 32 && p->l.w[i][j] < 127 && p->l.w[i][j] != '?');
  p->empty = sym_pick("blank", 2);
  if (p->empty) strcat(p->l.s, " ");
}
/* the visible node the given word selects below at, or -1 */
static int step_(const struct node *t, int at, char *w, int n, char *rest) {
  int best = 0, cnt = 0, pick = -1;
  for (int c = 0; t[c].par != -2; c++) {
    int p = 0;
    if (t[c].par != at || t[c].hide) continue;
    if (t[c].decl) { cg_var *cv = accept_(&t[c], t[c].t == CGV_REST ? rest : w); if (cv) { p = t[c].pref; cv_free(cv); } }
    else { int m = kw_match(t[c].name, w, n); p = m == 2 ? 100 : m == 1 ? 3 : 0; }
    if (p && p == best) cnt++;
    if (p > best) { best = p; cnt = 1; pick = c; }
  }
  return cnt == 1 ? pick : -1;
}
/* visible nodes that can continue the line; number of them, -1 if the words before select nothing */
static int candidates(const struct node *t, struct part *p, int *cand, char **word, int *wn, int *at) {
  int a = -1, n = 0, off = 0, last = p->empty ? p->l.k : p->l.k - 1;
  for (int i = 0; i < last; i++) {
    if ((a = step_(t, a, p->l.w[i], p->l.n[i], p->l.s + off)) < 0) return -1;
    if (t[a].decl && t[a].t == CGV_REST) return -2;   /* the rest of the line belongs to a variable */
    off += p->l.n[i] + 1;
  }
  *word = p->empty ? "" : p->l.w[last];
  *wn = p->empty ? 0 : p->l.n[last];
  *at = a;
  for (int c = 0; t[c].par != -2; c++) {
    if (t[c].par != a || t[c].hide) continue;
    if (t[c].decl) {
      if (*wn) { cg_var *cv = accept_(&t[c], *word); if (!cv) continue; cv_free(cv); }
      cand[n++] = c;
    }
    else if (kw_match(t[c].name, *word, *wn)) cand[n++] = c;
  }
  return n;
}
/* what one completion step inserts for the visible candidates */
static int shared(const struct node *t, const int *cand, int nc, int wn, int vars, char *ins) {
  int k = -1, m = 0, cnt = 0;
  for (int i = 0; i < nc; i++) {
    const char *s = t[cand[i]].name;
    if (t[cand[i]].decl) { if (vars) return 0; continue; }
    if (k < 0) { k = cand[i]; m = strlen(s); }
    else { int j = 0; while (j < m && s[j] && fold(s[j]) == fold(t[k].name[j])) j++; m = j; }
    cnt++;
  }
  if (cnt == 0) return 0;
  int n = 0;
  for (int j = wn; j < m; j++) ins[n++] = t[k].name[j];
  if (cnt == 1) ins[n++] = ' ';
  return n;
}
/* text inserted at the end of the line */
static void insert_(struct part *p, const char *ins, int n) {
  int l = strlen(p->l.s), u = p->empty ? p->l.k : p->l.k - 1;
  memcpy(p->l.s + l, ins, n);
  p->l.s[l + n] = 0;
  if (p->empty) { p->l.n[u] = 0; p->l.k++; p->empty = 0; }
  int b = ins[n - 1] == ' ';
  memcpy(p->l.w[u] + p->l.n[u], ins, n - b);
  p->l.n[u] += n - b;
  p->l.w[u][p->l.n[u]] = 0;
  p->empty = b;
}
static int done_(cligen_handle h, cvec *v, cvec *a) { return 0; }
static cgv_fnstype_t *s2done(char *n, void *a, char **e) { return done_; }
#endif
