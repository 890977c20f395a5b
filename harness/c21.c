/* C21: syntax operators denote the same language as their written-out form. */
#include "match.h"
struct pair { const char *op, *out, *set; };
static const struct pair P[] = {
  {"a (b|c) d, cb(\"A\");", "a b d, cb(\"A\"); a c d, cb(\"A\");", "abcd"},
  {"a [b] c, cb(\"A\");", "a b c, cb(\"A\"); a c, cb(\"A\");", "abc"},
  {"a [b|c] d, cb(\"A\"); a e, cb(\"B\");", "a b d, cb(\"A\"); a c d, cb(\"A\"); a d, cb(\"A\"); a e, cb(\"B\");", "abcde"},
  {"a [b [c]], cb(\"A\");", "a, cb(\"A\"); a b, cb(\"A\"); a b c, cb(\"A\");", "abc"},
  {"a [[b] c], cb(\"A\");", "a, cb(\"A\"); a b c, cb(\"A\"); a c, cb(\"A\");", "abc"},
  {"[a] b, cb(\"A\");", "a b, cb(\"A\"); b, cb(\"A\");", "ab"},
  {"[a][b][c], cb(\"A\");", "a, cb(\"A\"); a b, cb(\"A\"); a b c, cb(\"A\"); a c, cb(\"A\"); b, cb(\"A\"); b c, cb(\"A\"); c, cb(\"A\");", "abc"},
  {"(a b|c) d, cb(\"A\");", "a b d, cb(\"A\"); c d, cb(\"A\");", "abcd"},
  {"a (b c | d [e]) f, cb(\"A\");", "a b c f, cb(\"A\"); a d f, cb(\"A\"); a d e f, cb(\"A\");", "abcdef"},
  {"(a|<i:int8>) (b|<s:string>), cb(\"A\");", "a b, cb(\"A\"); a <s:string>, cb(\"A\"); <i:int8> b, cb(\"A\"); <i:int8> <s:string>, cb(\"A\");", "ab1-"},
  {"a { b, cb(\"A\"); c { d, cb(\"B\"); } [e] f, cb(\"C\"); }", "a b, cb(\"A\"); a c d, cb(\"B\"); a e f, cb(\"C\"); a f, cb(\"C\");", "abcdef"},
  {"a, cb(\"A\");{ b, cb(\"B\");{ c, cb(\"C\"); } }", "a, cb(\"A\"); a b, cb(\"B\"); a b c, cb(\"C\");", "abc"},
  {"a (b|(c|d)) [e|f [g]], cb(\"A\");", "a b, cb(\"A\"); a c, cb(\"A\"); a d, cb(\"A\"); a b e, cb(\"A\"); a c e, cb(\"A\"); a d e, cb(\"A\"); a b f, cb(\"A\"); a c f, cb(\"A\"); a d f, cb(\"A\"); a b f g, cb(\"A\"); a c f g, cb(\"A\"); a d f g, cb(\"A\");", "abcdefg"},
  {"a [<i:int8>] [<u:bool>] b, cb(\"A\");", "a b, cb(\"A\"); a <i:int8> b, cb(\"A\"); a <u:bool> b, cb(\"A\"); a <i:int8> <u:bool> b, cb(\"A\");", "ab1on"},
  {"(aa|ab) [(ba|bb <i:int8>)] c, cb(\"A\");", "aa c, cb(\"A\"); ab c, cb(\"A\"); aa ba c, cb(\"A\"); ab ba c, cb(\"A\"); aa bb <i:int8> c, cb(\"A\"); ab bb <i:int8> c, cb(\"A\");", "abc1"},
  {"a [b], cb(\"A\"); { c, cb(\"B\"); d, cb(\"C\"); }", "a, cb(\"A\"); a b, cb(\"A\"); a c, cb(\"B\"); a b c, cb(\"B\"); a d, cb(\"C\"); a b d, cb(\"C\");", "abcd"},
  {"(a|b); { c, cb(\"B\"); [d] e, cb(\"C\"); }", "a; b; a c, cb(\"B\"); b c, cb(\"B\"); a e, cb(\"C\"); a d e, cb(\"C\"); b e, cb(\"C\"); b d e, cb(\"C\");", "abcde"},
  {"a (b(\"x\")|c(\"y\")) <n:uint8 range[1:9]>(\"z\"), cb(\"A\"); a b <m:string length[2]>, cb(\"B\");", "a b <n:uint8 range[1:9]>, cb(\"A\"); a c <n:uint8 range[1:9]>, cb(\"A\"); a b <m:string length[2]>, cb(\"B\");", "abc109"},
};
#define NP ((int)(sizeof P / sizeof P[0]))
/* members of sets and the command that ends each, as words */
struct member { const char *words; const char *cb; };
struct set { const char *op; struct member m[6]; const char *chars; };
static const struct set S[] = {
  {"x @{ a, cb(\"A\"); b, cb(\"B\"); c, cb(\"C\"); }", {{"a", "A"}, {"b", "B"}, {"c", "C"}}, "xabc"},
  {"x @{ aa, cb(\"A\"); ab, cb(\"B\"); <i:int8>, cb(\"C\"); }", {{"aa", "A"}, {"ab", "B"}, {"<i:int8>", "C"}}, "xab1"},
  {"x @{ a <i:int8>, cb(\"A\"); b b2, cb(\"B\"); c, cb(\"C\"); }", {{"a <i:int8>", "A"}, {"b b2", "B"}, {"c", "C"}}, "xabc12"},
  {"x y, cb(\"X\"); @{ a, cb(\"A\"); b, cb(\"B\"); } z, cb(\"Z\");", {{"a", "A"}, {"b", "B"}}, "xyabz"},
  {"x @{ <i:int8> <j:int8>, cb(\"A\"); <u:bool>, cb(\"B\"); c, cb(\"C\"); }", {{"<i:int8> <j:int8>", "A"}, {"<u:bool>", "B"}, {"c", "C"}}, "x1onc"},
  {"x @{ a, cb(\"A\"); b, cb(\"B\"); c, cb(\"C\"); d, cb(\"D\"); }", {{"a", "A"}, {"b", "B"}, {"c", "C"}, {"d", "D"}}, "xabcd"},
};
#define NS ((int)(sizeof S / sizeof S[0]))
static char *arr(const struct set *s, char *q, const char *pre, const int *pick, int n, unsigned used) {
  if (n) {
    q = puts_(q, pre);
    for (int i = 0; i < n; i++) { *q++ = ' '; q = puts_(q, s->m[pick[i]].words); }
    q = puts_(q, ", cb(\"");
    q = puts_(q, s->m[pick[n - 1]].cb);
    q = puts_(q, "\");\n");
  }
  int p2[6];
  for (int i = 0; i < n; i++) p2[i] = pick[i];
  for (int i = 0; s->m[i].words; i++) if (!(used >> i & 1)) { p2[n] = i; q = arr(s, q, pre, p2, n + 1, used | 1u << i); }
  return q;
}
struct got { int res, which, n; char name[10][8]; char *val[10]; int cst[10]; };
static void run(const char *spec, const char *text, struct got *g) {
  parse_tree *pt = cli(spec);
  char *line = strdup(text), *reason = NULL;
  cg_obj *co = NULL;
  cvec *cvv = NULL;
  cligen_result res = -7;
  memset(g, 0, sizeof *g);
  sym_assert(cliread_parse(H, line, pt, &co, &cvv, &res, &reason) == 0, "the line is decided");
  g->res = res;
  g->which = which(co);
  if (res == CG_MATCH) {
    g->n = cvec_len(cvv);
    for (int i = 1; i < g->n; i++) {
      cg_var *cv = cvec_i(cvv, i);
      strcpy(g->name[i], cv_name_get(cv));
      g->val[i] = cv2str_dup(cv);
      g->cst[i] = cv_const_get(cv) * 100 + cv_type_get(cv);
    }
  }
  if (co) co_free(co, 0);
  cvec_free(cvv);
  free(reason);
  free(line);
  cli_end();
}
static void compare(const char *op, const char *out, struct line *l) {
  struct got a, b;
  run(op, l->s, &a);
  run(out, l->s, &b);
  sym_observe(a.res); sym_observe(a.which);
  sym_assert((a.res == CG_MATCH) == (b.res == CG_MATCH), "the same lines are accepted");
  if (a.res == CG_MATCH) {
    sym_assert(a.which == b.which, "by the same command");
    sym_assert(a.n == b.n, "number of values");
    for (int i = 1; i < a.n; i++) {
      sym_assert(eqstr(a.name[i], b.name[i]), "name");
      sym_assert(a.cst[i] == b.cst[i], "kind of value");
      sym_assert(eqstr(a.val[i], b.val[i]), "value");
    }
    sym_reach("match");
  }
  for (int i = 1; i < a.n; i++) { free(a.val[i]); free(b.val[i]); }
  sym_reach("end");
}
static void words(struct line *l, const char *chars) {
  any_line(l, sym_arg("K", 3), sym_arg("L", 2), sym_arg("set", 0) ? chars : NULL);
}
void c21_ops(void) {
  struct line l;
  const struct pair *p = &P[sym_arg("p", 0)];
  words(&l, p->set);
  compare(p->op, p->out, &l);
}
void c21_sets(void) {
  struct line l;
  static char out[8192];
  const struct set *s = &S[sym_arg("p", 0)];
  char *q = out;
  int pick[6];
  if (s == &S[3]) {   /* a set next to ordinary commands, at top */
    q = puts_(q, "x y, cb(\"X\"); z, cb(\"Z\");\n");
    q = arr(s, q, "x y", pick, 0, 0);
  }
  else q = arr(s, q, "x", pick, 0, 0);
  *q = 0;
  words(&l, s->chars);
  if (s == &S[3]) compare("x y, cb(\"X\"); @{ a, cb(\"A\"); b, cb(\"B\"); } z, cb(\"Z\");", out, &l);
  else compare(s->op, out, &l);
}
/* any arrangement of names and operators, with a callback: the lines are those of its expansion, each with its callback once */
#include "ops.h"
void c21_lang(void) {
  int n = sym_arg("N", 5), K = sym_arg("K", 3), shape = sym_arg("shape", 0), i;
  static const char *PRE[] = {"", "a(", "[", "ba;{", "a{["}, *POST[] = {";", ")b;", "]a;", ";}", "]b;}"};
  char t[24], b[96], w[8], line[16];
  static struct lang l;
  int np = strlen(PRE[shape]);
  strcpy(t, PRE[shape]);
  sym_strset(t + np, n, "s", "ab()[]|");
  strcpy(t + np + n, POST[shape]);
  n = strlen(t);
  sym_assume(o_file(t, &l) && !o_over);
  char *q = b;
  for (i = 0; i < n; i++) {
    if (t[i] == ';' && !(shape == 3 && i < np)) q = puts_(q, ", cb(\"A\")");
    *q++ = t[i];
    if (t[i] != ';') *q++ = ' ';
  }
  *q = 0;
  parse_tree *pt = cli(b);
  for (int k = 1; k <= K; k++) {
    char *reason = NULL;
    cg_obj *co = NULL;
    cvec *cvv = NULL;
    cligen_result res = -7;
    sym_strset(w, k, "w", "ab");
    for (i = 0; i < k; i++) { line[2 * i] = w[i]; line[2 * i + 1] = ' '; }
    line[2 * k - 1] = 0;
    sym_assert(cliread_parse(H, line, pt, &co, &cvv, &res, &reason) == 0, "the line is decided");
    sym_assert((res == CG_MATCH) == o_in(&l, w, k), "accepts the lines its operators mean");
    if (res == CG_MATCH) {
      sym_assert(cvec_len(cvv) == k + 1, "one value per word");
      int calls = 0;
      for (struct cg_callback *cc = co->co_callbacks; cc; cc = cc->cc_next) calls++;
      sym_assert(shape == 3 && k == 2 ? calls <= 1 : calls == 1, "ends at the callback, once");
      sym_reach("matched");
    }
    if (co) co_free(co, 0);
    cvec_free(cvv);
    free(reason);
  }
  cli_end();
}
