/* Trees of commands described independently of cligen, the specification text for them, and the
 * documented matching rules as a reference. */
#ifndef MATCH_H
#define MATCH_H
#include "cli.h"
struct node {
  int par;            /* index of parent, -1 at top */
  const char *name;   /* keyword, or name of variable */
  const char *decl;   /* text of the variable, NULL for keywords */
  enum cv_type t;
  int pref;           /* preference of the variable (documentation, appendix D) */
  int term;           /* a command ends here */
  int (*ok)(cg_var *cv);   /* further restriction */
  int hide;
  const char *help;        /* help text, NULL if none */
};
#define KW(p, n, e) {p, n, NULL, CGV_ERR, 0, e, NULL}
#define END {-2, NULL}
#ifndef MAXW
#define MAXW 4
#endif
static int tree_len(const struct node *t) { int n = 0; while (t[n].par != -2) n++; return n; }
static char *puts_(char *p, const char *s) { while (*s) *p++ = *s++; return p; }
static char *path_(char *p, const struct node *t, int i) {
  if (t[i].par >= 0) { p = path_(p, t, t[i].par); *p++ = ' '; }
  return puts_(p, t[i].decl ? t[i].decl : t[i].name);
}
/* specification: one line per command; order: 0 as given, 1 reversed, 2.. rotated */
static void tree_spec(const struct node *t, int order, char *p) {
  int n = tree_len(t);
  for (int k = 0; k < n; k++) {
    int i = order == 0 ? k : order == 1 ? n - 1 - k : (k + order - 1) % n;
    if (!t[i].term) continue;
    p = path_(p, t, i);
    p = puts_(p, ", cb(\"");
    *p++ = 'A' + i;
    p = puts_(p, "\");\n");
  }
  *p = 0;
}
struct line {
  char w[MAXW][16];
  int n[MAXW], k;
  char s[80];
};
/* up to K words of 1..L bytes each, any byte that is not special to words, joined by blanks */
static void any_line(struct line *l, int K, int L, const char *set) {
  char *p = l->s;
  static const char *fixed[] = {"n1", "n2"};   /* a part of the lines, for jobs of even size */
  l->k = sym_arg("k", 0) ? sym_arg("k", 0) : sym_pick("words", K) + 1;
  for (int i = 0; i < l->k; i++) {
    l->n[i] = i < 2 && sym_arg(fixed[i], 0) ? sym_arg(fixed[i], 0) : sym_pick("len", L) + 1;
    if (set) sym_strset(l->w[i], l->n[i], "w", set);
    else {
      sym_str(l->w[i], l->n[i], "w");
      for (int j = 0; j < l->n[i]; j++) sym_assume(!in_set(l->w[i][j], " \t\n\"\\"));
      sym_assume(l->w[i][0] != '#');
    }
    if (i) *p++ = ' ';
    memcpy(p, l->w[i], l->n[i]);
    p += l->n[i];
  }
  *p = 0;
}
static int nocase;
static int fold(int c) { return nocase && c >= 'A' && c <= 'Z' ? c + 32 : c; }
/* 0 no, 1 proper prefix, 2 equal */
static int kw_match(const char *kw, const char *w, int n) {
  int len = strlen(kw), d = 0;
  if (n > len) return 0;
  for (int i = 0; i < n; i++) d |= fold((unsigned char)kw[i]) ^ fold((unsigned char)w[i]);
  if (d) return 0;
  return n == len ? 2 : 1;
}
static cg_var *accept_(const struct node *x, char *w) {
  cg_var *cv = cv_new(x->t);
  char *reason = NULL;
  if (x->t == CGV_DEC64) cv_dec64_n_set(cv, 2);
  int r = cv_parse1(w, cv, &reason);
  free(reason);
  if (r == 1 && x->ok && !x->ok(cv)) r = 0;
  if (r == 1) return cv;
  cv_free(cv);
  return NULL;
}
struct result { int res; int node; int path[MAXW]; cg_var *val[MAXW]; int k; int mode; };
/* reference: the documented rules */
static void ref_match(const struct node *t, struct line *l, struct result *r, int mode) {
  int at = -1, n = tree_len(t), off = 0;
  memset(r, 0, sizeof *r);
  for (int i = 0; i < l->k; i++) {
    int best = 0, cnt = 0, pick = -1;
    cg_var *pv = NULL;
    char *rest = l->s + off;
    for (int c = 0; c < n; c++) {
      int p = 0;
      cg_var *cv = NULL;
      if (t[c].par != at) continue;
      if (t[c].decl) {
        cv = accept_(&t[c], t[c].t == CGV_REST ? rest : l->w[i]);
        if (cv) p = t[c].pref;
      } else { int m = kw_match(t[c].name, l->w[i], l->n[i]); p = m == 2 ? 100 : m == 1 ? 3 : 0; }
      if (p && p == best) {
        int last = i == l->k - 1;
        if (t[c].decl && t[pick].decl && (mode == 3 || (mode == 1 && last) || (mode == 2 && !last))) ; /* first one */
        else cnt++;
      }
      if (p > best) { best = p; cnt = 1; pick = c; if (pv) cv_free(pv); pv = cv; cv = NULL; }
      if (cv) cv_free(cv);
    }
    if (cnt != 1) {
      if (pv) cv_free(pv);
      r->res = cnt > 1 && i == l->k - 1 ? CG_MULTIPLE : CG_NOMATCH;
      return;
    }
    r->path[r->k] = pick;
    r->val[r->k++] = pv;
    at = pick;
    if (t[pick].decl && t[pick].t == CGV_REST) break;
    off += l->n[i] + 1;
  }
  r->res = t[at].term ? CG_MATCH : CG_NOMATCH;
  r->node = at;
}
static void ref_free(struct result *r) { for (int i = 0; i < r->k; i++) if (r->val[i]) cv_free(r->val[i]); }
/* the command found: argument of its callback */
static int which(cg_obj *co) {
  cg_var *cv;
  if (co == NULL || co->co_callbacks == NULL || co->co_callbacks->cc_cvec == NULL) return -1;
  if ((cv = cvec_i(co->co_callbacks->cc_cvec, 0)) == NULL) return -1;
  return cv_string_get(cv)[0] - 'A';
}
#endif
