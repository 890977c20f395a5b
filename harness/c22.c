/* C22: tree references behave as if the referenced tree were written in place. */
#include "match.h"
struct pair { const char *ref, *out, *set; };
static const struct pair P[] = {
  {"treename=\"M\"; a @S; d, cb(\"D\"); treename=\"S\"; x, f(\"X\"); y { z, f(\"Z\"); <i:int8>, f(\"I\"); }",
   "a x, f(\"X\"); a y z, f(\"Z\"); a y <i:int8>, f(\"I\"); d, cb(\"D\");", "axyzd1"},
  {"treename=\"M\"; a @S, add(\"R\"); d @S, del(\"P\", \"Q\"); e @S; treename=\"S\"; x, f(\"X\"); y { z, f(\"Z\"); <i:int8>, f(\"I\", \"J\"); }",
   "a x, add(\"X\", \"R\"); a y z, add(\"Z\", \"R\"); a y <i:int8>, add(\"I\", \"J\", \"R\"); d x, del(\"X\", \"P\", \"Q\"); d y z, del(\"Z\", \"P\", \"Q\"); d y <i:int8>, del(\"I\", \"J\", \"P\", \"Q\"); e x, f(\"X\"); e y z, f(\"Z\"); e y <i:int8>, f(\"I\", \"J\");", "axyzde1"},
  {"treename=\"M\"; a @S, @remove:l; b @S; treename=\"S\"; x{ y, l, f(\"1\"); z, f(\"2\"); } w, l{ v, f(\"3\"); } u, f(\"4\");{ t, l, f(\"5\"); }",
   "a x z, f(\"2\"); a u, f(\"4\"); b x y, f(\"1\"); b x z, f(\"2\"); b w v, f(\"3\"); b u, f(\"4\"); b u t, f(\"5\");", "abxyzwvut"},
  {"treename=\"M\"; a @S; treename=\"S\"; x, hide, f(\"1\"); y{ z, hide, f(\"2\"); w, f(\"3\"); }",
   "a x, f(\"1\"); a y z, f(\"2\"); a y w, f(\"3\");", "axyzw"},
  {"treename=\"T\"; foo, f(\"1\"); r @T;",
   "foo, f(\"1\"); r foo, f(\"1\"); r r foo, f(\"1\"); r r r foo, f(\"1\"); r r r r foo, f(\"1\");", "rfo"},
  {"treename=\"M\"; a @S; treename=\"S\"; @E; x, f(\"X\"); treename=\"E\"; y, f(\"Y\"); w{ z, f(\"Z\"); }",
   "a y, f(\"Y\"); a w z, f(\"Z\"); a x, f(\"X\");", "axywz"},
  {"treename=\"M\"; a { @S; @E; k, f(\"K\"); } treename=\"S\"; x, f(\"X\"); treename=\"E\"; y, f(\"Y\");{ z, f(\"Z\"); }",
   "a x, f(\"X\"); a y, f(\"Y\"); a y z, f(\"Z\"); a k, f(\"K\");", "axyzk"},
  {"treename=\"M\"; a @S, @remove:l; treename=\"S\"; @E, @remove:m; x, l, f(\"1\"); v, m, f(\"6\"); treename=\"E\"; y, l, f(\"2\"); q, m, f(\"3\"); r{ s, m, f(\"4\"); t, l, f(\"5\"); u, f(\"7\"); }",
   "a v, f(\"6\"); a r u, f(\"7\");", "axyqrstuv"},
  {"treename=\"M\"; a @S, @remove:l; treename=\"S\"; k @E, @remove:m; treename=\"E\"; x{ y, m, f(\"1\"); z, l, f(\"2\"); w, f(\"3\");{ l, l, f(\"4\"); m, m, f(\"5\"); n, f(\"6\"); } }",
   "a k x w, f(\"3\"); a k x w n, f(\"6\");", "akxyzwlmn"},
  {"treename=\"M\"; @S; k, f(\"K\"); treename=\"S\"; x, f(\"X\"); y{ z, f(\"Z\"); }",
   "x, f(\"X\"); y z, f(\"Z\"); k, f(\"K\");", "xyzk"},
  {"treename=\"M\"; a (<i:int8>|@S|k), g(\"G\"); treename=\"S\"; x, f(\"X\"); y{ z, f(\"Z\"); }",
   "a <i:int8>, g(\"G\"); a k, g(\"G\"); a x, g(\"X\", \"G\"); a y z, g(\"Z\", \"G\");", "axyzk1"},
  {"treename=\"M\"; a @S; treename=\"S\"; <c:string choice:ab|cd>, f(\"C\"); <s:string length[3]>, f(\"S\");{ <c:string choice:x|y>, f(\"D\"); }",
   "a <c:string choice:ab|cd>, f(\"C\"); a <s:string length[3]>, f(\"S\"); a <s:string length[3]> <c:string choice:x|y>, f(\"D\");", "abcdxy"},
  {"treename=\"M\"; a @S, g(\"R\"); treename=\"S\"; x, f(); y; z{ w; }",
   "a x, g(\"R\"); a y, g(\"R\"); a z w, g(\"R\");", "axyzw"},
  {"treename=\"M\"; a @S, g(\"R\"); treename=\"S\"; k @E; x, f(\"X\"); treename=\"E\"; y, f(\"Y\");{ z, f(\"Z\"); }",
   "a k y, g(\"Y\", \"R\"); a k y z, g(\"Z\", \"R\"); a x, g(\"X\", \"R\");", "akyzx"},
  {"treename=\"M\"; a @S, g(\"R\"); b @E, h(\"H\"); treename=\"S\"; k @E, h(\"Q\"); treename=\"E\"; y, f(\"Y\");{ z, f(\"Z\"); }",
   "a k y, h(\"Y\", \"Q\"); a k y z, h(\"Z\", \"Q\"); b y, h(\"Y\", \"H\"); b y z, h(\"Z\", \"H\");", "abkyz"},
  {"treename=\"M\"; a [@S], g(\"G\"); [b] c @S, h(\"H\"); treename=\"S\"; x, f(\"X\"); y{ z, f(\"Z\"); }", "a, g(\"G\"); a x, g(\"X\", \"G\"); a y z, g(\"Z\", \"G\"); c x, h(\"X\", \"H\"); c y z, h(\"Z\", \"H\"); b c x, h(\"X\", \"H\"); b c y z, h(\"Z\", \"H\");", "abcxyz"},
  {"treename=\"M\"; a { @S; x{ k, f(\"K\"); } } treename=\"S\"; x{ z, f(\"Z\"); } y, f(\"Y\");",
   "a x z, f(\"Z\"); a x k, f(\"K\"); a y, f(\"Y\");", "axyzk"},
  {"treename=\"M\"; a { @S; @E; } treename=\"S\"; x{ z, f(\"Z\"); } treename=\"E\"; x{ w, f(\"W\"); } y, f(\"Y\");",
   "a x z, f(\"Z\"); a x w, f(\"W\"); a y, f(\"Y\");", "axyzw"},
  {"treename=\"M\"; a @S; b @E; treename=\"S\"; x{ z, f(\"Z\"); } @E; treename=\"E\"; x{ w, f(\"W\"); } y, f(\"Y\");",
   "a x z, f(\"Z\"); a x w, f(\"W\"); a y, f(\"Y\"); b x w, f(\"W\"); b y, f(\"Y\");", "abxyzw"},
  {"treename=\"M\"; a { @S; @E; @Q; } b { @E; @Q; } treename=\"S\"; x{ k{ z, f(\"Z\"); } } treename=\"E\"; x{ k{ w, f(\"W\"); <i:int8>, f(\"I\"); } w, f(\"V\"); } treename=\"Q\"; x{ k{ z, f(\"Z\"); w{ z, f(\"U\"); } } }",
   "a x k z, f(\"Z\"); a x k w, f(\"W\");{ z, f(\"U\"); } a x k <i:int8>, f(\"I\"); a x w, f(\"V\"); b x k w, f(\"W\");{ z, f(\"U\"); } b x k z, f(\"Z\"); b x k <i:int8>, f(\"I\"); b x w, f(\"V\");", "abxkzw1"},
  {"treename=\"M\"; a { @S; @E; } treename=\"S\"; x{ z, f(\"Z\"); } treename=\"E\"; x, f(\"X\");{ w, f(\"W\"); }",
   "a x, f(\"X\");{ z, f(\"Z\"); w, f(\"W\"); }", "axzw"},
  {"treename=\"M\"; a { @S; @E; } treename=\"E\"; x{ z, f(\"Z\"); } treename=\"S\"; x, f(\"X\");{ w, f(\"W\"); }",
   "a x, f(\"X\");{ z, f(\"Z\"); w, f(\"W\"); }", "axzw"},
  /* a tree that refers to itself, directly or through another, at its top level */
  {"treename=\"M\"; a @S; treename=\"S\"; @S; x, f(\"X\"); y{ z, f(\"Z\"); }",
   "a x, f(\"X\"); a y z, f(\"Z\");", "axyz"},
  {"treename=\"M\"; @S; k, f(\"K\"); treename=\"S\"; x, f(\"X\"); @E; treename=\"E\"; @S; y, f(\"Y\");",
   "x, f(\"X\"); y, f(\"Y\"); k, f(\"K\");", "xyk"},
  {"treename=\"M\"; k, f(\"K\"); @M; z @M;", "k, f(\"K\"); z k, f(\"K\"); z z k, f(\"K\"); z z z k, f(\"K\"); z z z z k, f(\"K\");", "kz"},
};
#define NP ((int)(sizeof P / sizeof P[0]))
struct got { int res, n; char name[10][8]; char *val[10]; int cst[10]; char cb[64], sub[1024]; };
static void callbacks(cg_obj *co, char *p) {
  *p = 0;
  for (cg_callback *cc = co ? co->co_callbacks : NULL; cc; cc = cc->cc_next) {
    if (cc->cc_fn_str) p = puts_(p, cc->cc_fn_str);
    *p++ = '(';
    for (int i = 0; i < cvec_len(cc->cc_cvec); i++) { p = puts_(p, cv_string_get(cvec_i(cc->cc_cvec, i))); *p++ = ' '; }
    *p++ = ')';
  }
  *p = 0;
}
/* everything about the trees that a command could change */
static char *dig(char *p, parse_tree *pt, int depth) {
  *p++ = '{';
  for (int i = 0; i < pt_len_get(pt); i++) {
    cg_obj *co = pt_vec_i_get(pt, i);
    if (co == NULL || co->co_type == CO_EMPTY) { *p++ = ';'; continue; }
    *p++ = '0' + co->co_type;
    p = puts_(p, co->co_command);
    *p++ = 'A' + (co_flags_get(co, ~0u) & 31);
    callbacks(co, p);
    p += strlen(p);
    for (int k = 0; k < cvec_len(co->co_cvec); k++) { *p++ = ','; p = puts_(p, cv_name_get(cvec_i(co->co_cvec, k))); }
    *p++ = '0' + (co->co_filter ? cvec_len(co->co_filter) : 0);
    *p++ = co->co_ref ? 'r' : '-';
    p = dig(p, co_pt_get(co), depth + 1);
  }
  *p++ = '}';
  *p = 0;
  return p;
}
static void digest(char *p) {
  pt_head *ph = NULL;
  while ((ph = cligen_ph_each(H, ph)) != NULL) { p = puts_(p, cligen_ph_name_get(ph)); p = dig(p, cligen_ph_parsetree_get(ph), 0); }
}
static void once(parse_tree *pt, const char *text, struct got *g) {
  char *line = strdup(text), *reason = NULL;
  cg_obj *co = NULL;
  cvec *cvv = NULL;
  cligen_result res = -7;
  memset(g, 0, sizeof *g);
  sym_assert(cliread_parse(H, line, pt, &co, &cvv, &res, &reason) == 0, "the line is decided");
  g->res = res;
  callbacks(co, g->cb);
  if (res == CG_MATCH) {
    g->n = cvec_len(cvv);
    for (int i = 1; i < g->n; i++) {
      cg_var *cv = cvec_i(cvv, i);
      strcpy(g->name[i], cv_name_get(cv));
      g->val[i] = cv2str_dup(cv);
      g->cst[i] = cv_const_get(cv) * 100 + cv_type_get(cv);
    }
  }
  if (co) {
    if (res == CG_MATCH) dig(g->sub, co_pt_get(co), 0); /* what is returned remains valid */
    co_free(co, 0);
  }
  cvec_free(cvv);
  free(reason);
  free(line);
}
static void same(struct got *a, struct got *b) {
  sym_assert((a->res == CG_MATCH) == (b->res == CG_MATCH), "the same lines are accepted");
  if (a->res == CG_MATCH) {
    sym_assert(eqstr(a->cb, b->cb), "the same callback and arguments");
    sym_assert(a->n == b->n, "number of values");
    for (int i = 1; i < a->n; i++) {
      sym_assert(eqstr(a->name[i], b->name[i]), "name");
      sym_assert(a->cst[i] == b->cst[i], "kind of value");
      sym_assert(eqstr(a->val[i], b->val[i]), "value");
    }
    sym_reach("match");
  }
}
static void got_free(struct got *a) { for (int i = 1; i < a->n; i++) free(a->val[i]); }
static int wrap_(cligen_handle h, char *name, cvec *cvt, void *arg, char **newname) {
  if (strcmp(name, "V") != 0) return 0;
  *newname = strdup("S");
  return 1;
}
void c22_ref(void) {
  struct line l;
  struct got a, b, c;
  static char d0[4096], d1[4096];
  int k = sym_arg("p", 0);
  const struct pair *p = &P[k];
  any_line(&l, sym_arg("K", 3), sym_arg("L", 1), sym_arg("set", 0) ? p->set : NULL);
  parse_tree *pt = cli(p->ref);
  digest(d0);
  uint64_t l0 = sym_live_bytes();
  once(pt, l.s, &a);
  digest(d1);
  sym_assert(eqstr(d0, d1), "the trees are unchanged");
  once(pt, l.s, &b);
  digest(d1);
  sym_assert(eqstr(d0, d1), "the trees are unchanged after another");
  same(&a, &b);
  got_free(&b);
  got_free(&a); a.n = 0;
  sym_assert(sym_live_bytes() == l0, "nothing leaked");
  once(pt, l.s, &a);
  cli_end();
  pt = cli(p->out);
  once(pt, l.s, &c);
  same(&a, &c);
  sym_observe(a.res);
  got_free(&a);
  got_free(&c);
  cli_end();
  sym_reach("end");
}
/* a wrapper names the tree */
void c22_wrap(void) {
  struct line l;
  struct got a, c;
  any_line(&l, sym_arg("K", 3), sym_arg("L", 1), NULL);
  parse_tree *pt = cli("treename=\"M\"; a @V; b @S, g(\"R\"); treename=\"S\"; x, f(\"X\"); y { z, f(\"Z\"); @V; } treename=\"V\"; no, f(\"N\");");
  cligen_tree_resolve_wrapper_set(H, wrap_, NULL);
  once(pt, l.s, &a);
  cli_end();
  pt = cli("a x, f(\"X\"); a y z, f(\"Z\"); a y x, f(\"X\"); b x, g(\"X\", \"R\"); b y z, g(\"Z\", \"R\"); b y x, g(\"X\", \"R\");"
           "a y y z, f(\"Z\"); a y y x, f(\"X\"); b y y z, g(\"Z\", \"R\"); b y y x, g(\"X\", \"R\");");
  once(pt, l.s, &c);
  same(&a, &c);
  got_free(&a);
  got_free(&c);
  cli_end();
  sym_reach("end");
}
/* references through many trees, one after another and one below another */
void c22_chain(void) {
  static char ref[4000], out[8000];
  char *q = ref, *o = out, path[200], *p = path;
  struct line l;
  struct got a, c;
  int N = sym_arg("N", 7), B = sym_arg("base", 0);
  char base[80];
  memset(base, 'n', B); base[B] = 0;
  for (int i = 0; i < N; i++) {
    q += sprintf(q, "treename=\"%sT%d\"; %c, f(\"%d\"); ", base, i, 'a' + i % 2, i);
    if (i + 1 < N) q += sprintf(q, i % 3 == 0 ? "@%sT%d; " : "c { @%sT%d; } ", base, i + 1);
  }
  int d = 0;
  for (int i = 0; i < N; i++) {
    *p = 0;
    o += sprintf(o, "%s%c, f(\"%d\"); ", path, 'a' + i % 2, i);
    if (i % 3) { p = puts_(p, "c "); d++; }
  }
  (void)d;
  any_line(&l, 4, 1, "abc");
  parse_tree *pt = cli(ref);
  uint64_t l0 = sym_live_bytes();
  once(pt, l.s, &a);
  got_free(&a); a.n = 0;
  sym_assert(sym_live_bytes() == l0, "nothing leaked");
  once(pt, l.s, &a);
  cli_end();
  pt = cli(out);
  once(pt, l.s, &c);
  same(&a, &c);
  sym_observe(a.res);
  got_free(&a); got_free(&c);
  cli_end();
  sym_reach("end");
}
