/* C13: command trees stay sorted and free of duplicates however they are built. */
#include "cli.h"
struct ob { int kind; char nm[4]; int v; };
static struct ob o[5];
static int N;
/* kinds */
enum { KWD, INT8, STR, UINT8, RANGE, REGEXP, DEC, DECRANGE, CHOICE, LEN, EXPAND, EMPTYK, REF, NKIND };
static int NV = 3;
static void any_ob(struct ob *x, int kinds, int L, int fix) {
  x->kind = fix >= 0 ? fix : sym_pick("kind", kinds);
  sym_strset(x->nm, sym_pick("len", L) + 1, "nm", "acmZ");
  x->v = 0;
  if (x->kind >= RANGE && x->kind < EMPTYK) x->v = sym_pick("v", NV);
}
static cg_var *num(cvec *v, enum cv_type t, int64_t x) {
  cg_var *cv = cvec_add(v, t);
  if (t == CGV_INT32) cv_int32_set(cv, x);
  else if (t == CGV_UINT64) cv_uint64_set(cv, x);
  else { cv_dec64_n_set(cv, 2); cv_dec64_i_set(cv, x); }
  return cv;
}
static void iv(cg_obj *co, enum cv_type t, int lo, int hi) {
  if (!co->co_rangecvv_low) { co->co_rangecvv_low = cvec_new(0); co->co_rangecvv_upp = cvec_new(0); }
  co->co_rangelen++;
  num(co->co_rangecvv_low, t, lo); num(co->co_rangecvv_upp, t, hi);
}
static void rng(cg_obj *co, enum cv_type t, int v) {
  iv(co, t, v ? 100 : 200, v == 2 ? 600 : 500);
  if (v > 2) iv(co, t, v == 5 ? 800 : 700, v == 4 ? 901 : 900);
}
static void re(cg_obj *co, const char *x, int inv) {
  if (!co->co_regex) co->co_regex = cvec_new(0);
  cg_var *cv = cvec_add(co->co_regex, CGV_STRING);
  cv_string_set(cv, (char *)x);
  if (inv) cv_flag_set(cv, V_INVERT);
}
static void earg(cg_obj *co, const char *x) {
  if (!co->co_expand_fn_vec) co->co_expand_fn_vec = cvec_new(0);
  cv_string_set(cvec_add(co->co_expand_fn_vec, CGV_STRING), x);
}
/* an object with one child of its own */
static cg_obj *build(int i) {
  struct ob *x = &o[i];
  cg_obj *co, *ch;
  char nm[2] = {'p' + i, 0};
  switch (x->kind) {
  case KWD: co = co_new(x->nm, NULL); break;
  case REF: co = co_new(x->nm, NULL); co->co_type = CO_REFERENCE; break;
  case EMPTYK: co = co_new(NULL, NULL); co->co_type = CO_EMPTY; return co;
  default: {
    static const enum cv_type t[] = {0, CGV_INT8, CGV_STRING, CGV_UINT8, CGV_INT32, CGV_STRING, CGV_DEC64, CGV_DEC64, CGV_STRING, CGV_STRING, CGV_STRING};
    co = cov_new(t[x->kind], NULL);
    co->co_command = strdup(x->nm);
    switch (x->kind) {
    case RANGE: rng(co, CGV_INT32, x->v); break;
    case LEN: rng(co, CGV_UINT64, x->v); break;
    case REGEXP: re(co, x->v ? "x" : "y", x->v == 2); if (x->v > 2) re(co, x->v == 4 ? "z" : "y", x->v == 5); break;
    case DEC: co->co_dec64_n = 1 + x->v; break;
    case DECRANGE: co->co_dec64_n = 2; rng(co, CGV_DEC64, x->v); break;
    case EXPAND: co->co_expand_fn_str = strdup(x->v == 5 ? "g" : "f"); if (x->v) earg(co, x->v == 2 ? "2" : "1"); if (x->v == 3 || x->v == 4) earg(co, x->v == 3 ? "1" : "2"); break;
    case CHOICE: co->co_choice = strdup(x->v == 0 ? "y" : x->v == 1 ? "x" : x->v == 2 ? "x|y" : x->v == 3 ? "y|x" : x->v == 4 ? "x|z" : "xy"); break;
    }
  } }
  ch = co_new(nm, co);
  co_insert(co_pt_get(co), ch);
  return co;
}
static int same(int i, int j) {
  if (o[i].kind != o[j].kind) return 0;
  if (o[i].kind == EMPTYK) return 1;
  if (o[i].kind == KWD || o[i].kind == REF) return eqstr(o[i].nm, o[j].nm);
  return o[i].v == o[j].v;
}
/* which inserted object a child of the tree stands for: the first that is the same */
static int rep(int i) { for (int j = 0; j < i; j++) if (same(i, j)) return j; return i; }
static void ins(parse_tree *pt, int i) {
  cg_obj *co = build(i), *r = co_insert(pt, co);
  sym_assert(r != NULL, "inserted");
}
/* class of every position of the tree, after checking it */
static int classes(parse_tree *pt, int *cl) {
  int n = pt_len_get(pt), left[5] = {0};
  for (int i = 0; i < n; i++) {
    cg_obj *co = pt_vec_i_get(pt, i);
    sym_assert(co != NULL, "object");
    cl[i] = -1;
    if (co->co_type == CO_EMPTY) { for (int j = 0; j < N; j++) if (o[j].kind == EMPTYK) { cl[i] = j; break; } }
    else {
      /* its children name the objects merged into it */
      int m = pt_len_get(co_pt_get(co));
      for (int k = 0; k < m; k++) {
        cg_obj *ch = kidof(co, k);
        int j = ch->co_command[0] - 'p';
        sym_assert(j >= 0 && j < N && !left[j], "sub-tree kept once");
        left[j] = 1;
        sym_assert(co_up(ch) == co, "parent link");
        if (k) sym_assert(strcmp(kidof(co, k - 1)->co_command, ch->co_command) < 0, "children in order");
        if (cl[i] < 0) cl[i] = rep(j);
        sym_assert(cl[i] == rep(j), "only equal commands merged");
      }
    }
    sym_assert(cl[i] >= 0, "one of those inserted");
    for (int k = 0; k < i; k++) sym_assert(cl[k] != cl[i], "no two equal siblings");
  }
  for (int j = 0; j < N; j++) {
    int f = 0;
    for (int i = 0; i < n; i++) f += cl[i] == rep(j);
    sym_assert(f == 1, "every inserted command is there");
    sym_assert(o[j].kind == EMPTYK || left[j], "every sub-tree is there");
  }
  return n;
}
static int rank_(int k) { return k == EMPTYK ? 0 : k == KWD ? 1 : k == REF ? 3 : 2; }
void c13_insert(void) {
  int kinds = sym_arg("kinds", NKIND), a[5], b[5];
  uint64_t l0 = sym_live_bytes();
  int only = sym_arg("only", -1);
  N = sym_arg("N", 3);
  NV = sym_arg("V", 3);
  for (int i = 0; i < N; i++) any_ob(&o[i], kinds, sym_arg("L", 1), only >= 0 ? only : i ? -1 : sym_arg("k0", -1));
  parse_tree *pa = pt_new(), *pb = pt_new();
  int perm[5], used[5] = {0};
  for (int i = 0; i < N; i++) { ins(pa, i); }
  for (int i = 0; i < N; i++) { int k = sym_pick("perm", N - i); for (int j = 0; j < N; j++) if (!used[j] && k-- == 0) { perm[i] = j; used[j] = 1; break; } ins(pb, perm[i]); }
  int na = classes(pa, a), nb = classes(pb, b);
  sym_assert(na == nb, "same number of commands in any order of insertion");
  for (int i = 0; i < na; i++) sym_assert(a[i] == b[i], "same order of commands in any order of insertion");
  for (int i = 1; i < na; i++) {
    struct ob *x = &o[a[i - 1]], *y = &o[a[i]];
    sym_assert(rank_(x->kind) <= rank_(y->kind), "keywords before variables before references");
    if (x->kind == y->kind && rank_(x->kind) != 2) sym_assert(strcmp(x->nm, y->nm) < 0, "keywords sorted");
  }
  if (kinds == 1) for (int j = 0; j < N; j++) { cg_obj *co = co_find_one(pa, o[j].nm); sym_assert(co && eqstr(co->co_command, o[j].nm), "found by name"); }
  pt_free(pa, 1); pt_free(pb, 1);
  sym_assert(sym_live_bytes() == l0, "all memory released");
  sym_reach("end");
}
/* sorting a tree put together in any order: the same members, empty ones first, then in the order that insertion gives them */
static void in_order(parse_tree *pt) {
  for (unsigned i = 1; i < pt_len_get(pt); i++) {
    cg_obj *x = pt_vec_i_get(pt, i - 1), *y = pt_vec_i_get(pt, i);
    sym_assert(x == NULL || y != NULL, "empty members first");
    if (x == NULL) continue;
    int rx = x->co_type == CO_EMPTY ? 0 : x->co_type == CO_COMMAND ? 1 : x->co_type == CO_VARIABLE ? 2 : 3, ry = y->co_type == CO_EMPTY ? 0 : y->co_type == CO_COMMAND ? 1 : y->co_type == CO_VARIABLE ? 2 : 3;
    sym_assert(rx <= ry, "keywords before variables before references");
    if (rx == ry && (rx == 1 || rx == 3)) sym_assert(strcmp(x->co_command, y->co_command) <= 0, "by name");
    sym_assert(co_eq(x, y) <= 0, "in order");
  }
}
void c13_sort(void) {
  int kinds = sym_arg("kinds", NKIND), rec = sym_pick("recursive", 2), m = 0;
  uint64_t l0 = sym_live_bytes();
  cg_obj *co[5], *sub[5][2];
  N = sym_arg("N", 3);
  NV = 2;
  parse_tree *pt = pt_new();
  for (int i = 0; i < N; i++) {
    co[i] = NULL;
    if (sym_pick("none", 2)) { m++; pt_vec_append(pt, NULL); continue; }
    any_ob(&o[i], kinds, 1, -1);
    co[i] = build(i);
    sub[i][0] = sub[i][1] = NULL;
    if (o[i].kind != EMPTYK) {
      sub[i][0] = kidof(co[i], 0);
      if (i < 2) { char n[2] = {i ? 'z' : 'a', 0}; sub[i][1] = co_new(n, co[i]); pt_vec_append(co_pt_get(co[i]), sub[i][1]); }
    }
    pt_vec_append(pt, co[i]);
  }
  cligen_parsetree_sort(pt, rec);
  sym_assert((int)pt_len_get(pt) == N, "the same number of members");
  int left[5] = {0}, nulls = 0;
  for (int i = 0; i < N; i++) {
    cg_obj *x = pt_vec_i_get(pt, i);
    if (!x) { nulls++; continue; }
    int j = 0;
    for (; j < N; j++) if (co[j] == x) break;
    sym_assert(j < N && !left[j], "the same members");
    left[j] = 1;
    parse_tree *st = co_pt_get(x);
    if (o[j].kind == EMPTYK) continue;
    int n = sub[j][1] ? 2 : 1;
    sym_assert((int)pt_len_get(st) == n, "members below stay");
    if (n == 1) { sym_assert(pt_vec_i_get(st, 0) == sub[j][0], "members below stay"); continue; }
    int swap = rec && j == 0;               /* p a -> a p, q z stays */
    sym_assert(pt_vec_i_get(st, 0) == sub[j][swap] && pt_vec_i_get(st, 1) == sub[j][!swap], "sorted below exactly when asked for");
    sym_assert(!co_flags_get(x, CO_FLAGS_MARK), "no mark left");
  }
  sym_assert(nulls == m, "empty members stay");
  in_order(pt);
  pt_free(pt, 1);
  sym_assert(sym_live_bytes() == l0, "all memory released");
  sym_reach("end");
}
/* many commands with long names, in and out of order, and one more that may be there already */
void c13_big(void) {
  int n = sym_arg("N", 40), B = sym_arg("base", 40), st = sym_arg("step", 7), at = -1;
  char nm[300], x[8];
  uint64_t l0 = sym_live_bytes();
  parse_tree *pt = pt_new();
  for (int i = 0; i < B; i++) nm[i] = 'a' + i % 23;
  for (int j = 0; j < n; j++) {
    int i = j * st % n;
    sprintf(nm + B, "%c%c", 'b' + i / 6, 'b' + i % 6);
    cg_obj *co = co_new(nm, NULL);
    sym_assert(co_insert(pt, co) == co, "inserted");
    if (j % 3 == 0) sym_assert(co_insert(pt, co_new(nm, NULL)) == co, "the one that is there");
    sym_assert((int)pt_len_get(pt) == j + 1, "no duplicate");
  }
  sym_strset(x, sym_pick("len", 4), "x", "abcdefghz");
  strcpy(nm + B, x);
  for (int i = 0; i < n; i++) { char t[3] = {'b' + i / 6, 'b' + i % 6, 0}; if (eqstr(x, t)) at = i; }
  cg_obj *f = co_find_one(pt, nm);
  sym_assert((f != NULL) == (at >= 0), "found exactly if it is there");
  cg_obj *y = co_new(nm, NULL), *r = co_insert(pt, y);
  sym_assert(at >= 0 ? r == f : r == y, "the one that is there, or the new one");
  sym_assert((int)pt_len_get(pt) == n + (at < 0), "no two equal siblings");
  for (int i = 1; i < n + (at < 0); i++) sym_assert(strcmp(pt_vec_i_get(pt, i - 1)->co_command, pt_vec_i_get(pt, i)->co_command) < 0, "keywords sorted");
  sym_observe(at);
  pt_free(pt, 1);
  sym_assert(sym_live_bytes() == l0, "all memory released");
  sym_reach("end");
}
