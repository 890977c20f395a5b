/* C14: command trees edit and copy as ordered vectors of sub-trees. */
#include "cli.h"
#include "vals.h"
/* --- editing one level against a model list --- */
#define MAXN 8
static int m[MAXN], mn;          /* ids of the children, -1: empty */
static int next_id;
static cg_obj *obj[16];          /* by id */
static cg_obj *fresh(void) {
  char nm[2] = {'a' + next_id, 0};
  cg_obj *co = co_new(nm, NULL), *ch = co_new("k", co);
  pt_vec_append(co_pt_get(co), ch);
  obj[next_id] = co;
  return co;
}
static void same_level(parse_tree *pt) {
  sym_assert((int)pt_len_get(pt) == mn, "number of children");
  for (int i = 0; i < mn; i++) {
    cg_obj *co = pt_vec_i_get(pt, i);
    if (m[i] < 0) { sym_assert(co == NULL, "empty position kept"); continue; }
    sym_assert(co == obj[m[i]], "children in order");
    sym_assert(co->co_command[0] == 'a' + m[i] && co->co_command[1] == 0 && pt_len_get(co_pt_get(co)) == 1, "child intact");
    sym_assert(co_up(kidof(co, 0)) == co, "parent link");
  }
  errno = 0;
  sym_assert(pt_vec_i_get(pt, -1) == NULL && errno == EINVAL, "nothing before the first");
  errno = 0;
  sym_assert(pt_vec_i_get(pt, mn) == NULL && errno == EINVAL, "nothing after the last");
}
static void drop(int i) { for (int k = i; k + 1 < mn; k++) m[k] = m[k + 1]; mn--; }
static void put(int i, int id) { for (int k = mn; k > i; k--) m[k] = m[k - 1]; m[i] = id; mn++; }
void c14_edit(void) {
  uint64_t l0 = sym_live_bytes(), b0 = sym_live_blocks();
  int N = sym_arg("N", 3), start = sym_arg("start", 0);
  parse_tree *pt = pt_new();
  sym_assert(pt && pt_len_get(pt) == 0, "new tree is empty");
  for (int i = 0; i < start; i++) { sym_assert(pt_vec_append(pt, fresh()) == 0, "appended"); put(mn, next_id++); }
  for (int s = 0; s < N; s++) {
    int op = sym_pick("op", 6);
    int i = (int)sym_pick("pos", mn + 3) - 1, r;
    int id = sym_pick("empty", op < 2 ? 2 : 1) ? -1 : next_id;
    switch (op) {
    case 0:
      if (i >= 0) { sym_done(); return; }
      r = pt_vec_append(pt, id < 0 ? NULL : fresh());
      if (id >= 0) next_id++;
      sym_assert(r == 0, "appended");
      put(mn, id);
      break;
    case 1: {
      cg_obj *co = id < 0 ? NULL : fresh();
      if (id >= 0) next_id++;
      r = pt_vec_i_insert(pt, i, co);
      if (i >= 0 && i <= mn) { sym_assert(r == 0, "inserted"); put(i, id); }
      else { sym_assert(r == -1, "position refused"); if (co) co_free(co, 1); }
      break; }
    case 2: case 3: {   /* with or without what is below */
      cg_obj *co = i >= 0 && i < mn ? pt_vec_i_get(pt, i) : NULL;
      parse_tree *sub = co && op == 3 ? co_pt_get(co) : NULL;
      r = pt_vec_i_delete(pt, i, op == 2);
      if (i >= 0 && i < mn) { sym_assert(r == 0, "deleted"); drop(i); }
      else sym_assert(r == -1, "position refused");
      if (sub) { sym_assert(pt_len_get(sub) == 1 && pt_vec_i_get(sub, 0)->co_command[0] == 'k', "sub-tree kept"); pt_free(sub, 1); }
      break; }
    case 4: {
      cg_obj *co = i >= 0 && i < mn ? pt_vec_i_get(pt, i) : NULL;
      r = pt_vec_i_clear(pt, i);
      if (i >= 0 && i < mn) { sym_assert(r == 0, "cleared"); m[i] = -1; if (co) co_free(co, 1); }
      else sym_assert(r == -1, "position refused");
      break; }
    case 5: {
      parse_tree *sub[MAXN] = {0};
      for (int k = i < 0 ? 0 : i; k < mn; k++) if (pt_vec_i_get(pt, k)) sub[k] = co_pt_get(pt_vec_i_get(pt, k));
      r = pt_trunc(pt, i);
      if (i >= 1 && i <= mn) { sym_assert(r == 0, "truncated"); for (int k = i; k < mn; k++) if (sub[k]) pt_free(sub[k], 1); mn = i; }
      else sym_assert(r == -1, "length refused");
      break; }
    }
    same_level(pt);
  }
  pt_free(pt, 1);
  sym_assert(sym_live_bytes() == l0 && sym_live_blocks() == b0, "every object released once");
  sym_reach("end");
}
/* --- copies of whole trees --- */
#define MAXT 6
static int T, par[MAXT], kd[MAXT];
static cg_obj *node[MAXT];
enum { K_CMD, K_CMDX, K_CB, K_RANGE, K_RE, K_EXPAND, K_CHOICE, K_DEC, K_REF, K_NULL, K_EMPTY, NKD };
static void str_(cvec *v, const char *n, const char *x) { cg_var *cv = cvec_add(v, CGV_STRING); if (n) cv_name_set(cv, (char *)n); cv_string_set(cv, (char *)x); }
static void cb_(cg_obj *co, const char *fn, const char *arg, void *f, int flags) {
  cg_callback **p = &co->co_callbacks, *cc = calloc(1, sizeof(*cc));
  while (*p) p = &(*p)->cc_next;
  *p = cc;
  cc->cc_fn_str = strdup(fn);
  cc->cc_fn_vec = f;
  cc->cc_flags = flags;
  if (arg) { cc->cc_cvec = cvec_new(0); str_(cc->cc_cvec, "arg", arg); }
}
static int cbf(cligen_handle h, cvec *a, cvec *b) { return 0; }
static int xf(void *h, char *n, cvec *a, cvec *b, cvec *c, cvec *d) { return 0; }
static int tf(cligen_handle h, cg_var *cv) { return 0; }
static cg_obj *make(int k, cg_obj *up, const char *nm, unsigned v) {
  static const enum cv_type vt[NKD] = { [K_RANGE] = CGV_INT32, [K_RE] = CGV_STRING, [K_EXPAND] = CGV_STRING, [K_CHOICE] = CGV_STRING, [K_DEC] = CGV_DEC64 };
  cg_obj *co;
  if (k == K_NULL) return NULL;
  if (k >= K_RANGE && k <= K_DEC) { co = cov_new(vt[k], up); co->co_command = strdup(nm); }
  else co = co_new(k == K_EMPTY ? NULL : (char *)nm, up);
  switch (k) {
  case K_REF: co->co_type = CO_REFERENCE; co->co_filter = cvec_new(0); str_(co->co_filter, "lab", "l"); cb_(co, "g", NULL, NULL, 0); break;
  case K_EMPTY: co->co_type = CO_EMPTY; break;
  case K_CMDX:
    co->co_helpstring = strdup("help");
    co->co_prefix = strdup("pre");
    co->co_preference = v;
    co_flags_set(co, CO_FLAGS_HIDE);
    co->co_cvec = cvec_new(0);
    str_(co->co_cvec, "hide", "x"); str_(co->co_cvec, NULL, "y");
    break;
  case K_CB: cb_(co, "f", "1", cbf, 0); cb_(co, "g", NULL, NULL, CC_FLAGS_PIPE_FUNCTION); break;
  case K_RANGE:
    co->co_rangelen = 1; co->co_rangecvv_low = cvec_new(0); co->co_rangecvv_upp = cvec_new(0);
    cv_int32_set(cvec_add(co->co_rangecvv_low, CGV_INT32), (int)v - 5); cv_int32_set(cvec_add(co->co_rangecvv_upp, CGV_INT32), v);
    co->co_show = strdup("shown");
    break;
  case K_RE: co->co_regex = cvec_new(0); str_(co->co_regex, NULL, "a.*"); str_(co->co_regex, NULL, "b"); cv_flag_set(cvec_i(co->co_regex, 1), V_INVERT); break;
  case K_EXPAND: co->co_expand_fn_str = strdup("ex"); co->co_expandv_fn = (expandv_cb *)xf; co->co_expand_fn_vec = cvec_new(0); str_(co->co_expand_fn_vec, NULL, "q"); co->co_translate_fn_str = strdup("tr"); co->co_translate_fn = (translate_cb_t *)tf; break;
  case K_CHOICE: co->co_choice = strdup("one|two"); break;
  case K_DEC: co->co_dec64_n = v % 18 + 1; break;
  }
  return co;
}
static parse_tree *tree(void) {
  int kinds = sym_arg("kinds", NKD), fix = sym_arg("k0", -1);
  parse_tree *pt = pt_new();
  unsigned char v = sym_u8("v", 0, 255);
  T = sym_arg("T", 3);
  pt_sets_set(pt, sym_pick("set", 2));
  for (int i = 0; i < T; i++) {
    char nm[2];
    par[i] = (int)sym_pick("up", i + 1) - 1;
    kd[i] = i == 0 && fix >= 0 ? fix : (int)sym_pick("kind", kinds);
    sym_strset(nm, 1, "nm", "abZ");
    if (par[i] >= 0 && (node[par[i]] == NULL || kd[par[i]] == K_EMPTY)) { sym_done(); return NULL; }
    node[i] = make(kd[i], par[i] < 0 ? NULL : node[par[i]], nm, v);
    parse_tree *up = par[i] < 0 ? pt : co_pt_get(node[par[i]]);
    if (i == T - 1) pt_sets_set(up, 1);
    sym_assert(pt_vec_append(up, node[i]) == 0, "appended");
  }
  return pt;
}
static void apart(const void *a, const void *b) { sym_assert((a == NULL) == (b == NULL) && (!a || a != b), "nothing shared"); }
static void same_str(const char *a, const char *b) { apart(a, b); if (a) sym_assert(eqstr(a, b), "same text"); }
static void same_vec(cvec *a, cvec *b) {
  apart(a, b);
  if (!a) return;
  sym_assert(cvec_len(a) == cvec_len(b), "same length");
  for (int i = 0; i < cvec_len(a); i++) {
    cg_var *x = cvec_i(a, i), *y = cvec_i(b, i);
    same_str(cv_name_get(x), cv_name_get(y));
    if (cv_isstring(cv_type_get(x))) apart(cv_string_get(x), cv_string_get(y));
    sym_assert(same_val(x, y), "same value");
    sym_assert(cv_flag(x, V_INVERT) == cv_flag(y, V_INVERT), "same flags");
  }
}
static void same_pt(parse_tree *a, parse_tree *b, cg_obj *up);
static void same_one(cg_obj *a, cg_obj *b, cg_obj *up) {
  apart(a, b);
  sym_assert(a->co_type == b->co_type && a->co_preference == b->co_preference && a->co_flags == b->co_flags, "same kind and flags");
  sym_assert(co_up(b) == up, "parent link");
  same_str(a->co_command, b->co_command);
  same_str(a->co_prefix, b->co_prefix);
  same_str(a->co_helpstring, b->co_helpstring);
  same_vec(a->co_cvec, b->co_cvec);
  same_vec(a->co_filter, b->co_filter);
  cg_callback *x = a->co_callbacks, *y = b->co_callbacks;
  for (; x && y; x = x->cc_next, y = y->cc_next) {
    apart(x, y);
    sym_assert(x->cc_fn_vec == y->cc_fn_vec && x->cc_flags == y->cc_flags, "same callback");
    same_str(x->cc_fn_str, y->cc_fn_str);
    same_vec(x->cc_cvec, y->cc_cvec);
  }
  sym_assert(!x && !y, "same callbacks");
  if (a->co_type == CO_VARIABLE) {
    sym_assert(a->co_vtype == b->co_vtype && a->co_rangelen == b->co_rangelen && a->co_dec64_n == b->co_dec64_n, "same type");
    sym_assert(a->co_expandv_fn == b->co_expandv_fn && a->co_translate_fn == b->co_translate_fn, "same functions");
    same_str(a->co_show, b->co_show);
    same_str(a->co_expand_fn_str, b->co_expand_fn_str);
    same_vec(a->co_expand_fn_vec, b->co_expand_fn_vec);
    same_str(a->co_translate_fn_str, b->co_translate_fn_str);
    same_str(a->co_choice, b->co_choice);
    same_vec(a->co_rangecvv_low, b->co_rangecvv_low);
    same_vec(a->co_rangecvv_upp, b->co_rangecvv_upp);
    same_vec(a->co_regex, b->co_regex);
  }
}
static int as_ref;   /* copies made for a reference point to what they were made from */
static void same_co(cg_obj *a, cg_obj *b, cg_obj *up) {
  if (a && b) sym_assert(b->co_treeref_orig == (as_ref ? a : a->co_treeref_orig), "link to the object referred to");
  if (!a || !b) { sym_assert(!a && !b, "empty position kept"); return; }
  same_one(a, b, up);
  same_pt(co_pt_get(a), co_pt_get(b), b);
}
static void same_pt(parse_tree *a, parse_tree *b, cg_obj *up) {
  apart(a, b);
  if (!a) return;
  sym_assert(pt_len_get(a) == pt_len_get(b) && pt_sets_get(a) == pt_sets_get(b), "same number of children");
  for (unsigned i = 0; i < pt_len_get(a); i++) same_co(pt_vec_i_get(a, i), pt_vec_i_get(b, i), up);
}
void c14_copy(void) {
  uint64_t l0 = sym_live_bytes(), b0 = sym_live_blocks();
  parse_tree *a = tree();
  if (!a) return;
  uint64_t la = sym_live_bytes() - l0;
  cg_obj *up = co_new("up", NULL);
  uint64_t lu = sym_live_bytes() - l0 - la;
  parse_tree *b = pt_dup(a, up, 0);
  sym_assert(b != NULL, "copied");
  same_pt(a, b, up);
  sym_assert(sym_live_bytes() - l0 == 2 * la + lu, "the copy has the same size");
  sym_assert(pt_dup(NULL, NULL, 0) == NULL, "nothing to copy");
  if (sym_pick("first", 2)) {   /* the copy outlives its original and is copied again */
    pt_free(a, 1);
    a = pt_dup(b, NULL, 0);
    same_pt(b, a, NULL);
  }
  pt_free(b, 1);
  b = pt_dup(a, up, CO_COPY_FLAGS_TREEREF);
  as_ref = 1;
  same_pt(a, b, up);
  as_ref = 0;
  pt_free(b, 1);
  for (int i = 0; i < (int)pt_len_get(a); i++) {
    cg_obj *co = pt_vec_i_get(a, i), *c1 = NULL, *c2 = NULL;
    if (!co) continue;
    sym_assert(co_copy(co, up, 0, &c1) == 0 && c1, "object copied");
    same_co(co, c1, up);
    co_free(c1, 1);
    sym_assert(co_copy1(co, NULL, 1, 0, &c1) == 0 && c1, "object copied");
    same_co(co, c1, NULL);
    sym_assert(co_copy1(co, up, 0, 0, &c2) == 0 && c2, "object copied alone");
    same_one(co, c2, up);
    sym_assert(co_pt_get(c2) == co_pt_get(co), "children shared");
    co_free(c2, 0);
    same_co(co, c1, NULL);
    co_free(c1, 1);
  }
  pt_free(a, 1);
  co_free(up, 1);
  sym_assert(sym_live_bytes() == l0 && sym_live_blocks() == b0, "every object released once");
  sym_reach("end");
}
/* --- what a reference has brought in is left out of a copy, the rest stays in order --- */
void c14_top(void) {
  uint64_t l0 = sym_live_bytes(), b0 = sym_live_blocks();
  int n = sym_arg("N", 4), deep = sym_pick("deep", 2), e = 0;
  parse_tree *a = pt_new(), *in = a, *b, *jn;
  cg_obj *up = NULL, *want[8];
  if (deep) { up = co_new("up", NULL); pt_vec_append(a, up); in = co_pt_get(up); }
  for (int i = 0; i < n; i++) {
    int k = sym_pick("kind", 3);
    cg_obj *co = NULL;
    if (k) { char nm[2] = {'a' + i, 0}; co = co_new(nm, up); pt_vec_append(co_pt_get(co), co_new("k", co)); }
    if (k == 2) co_flags_set(co, CO_FLAGS_TOPOFTREE);
    sym_assert(pt_vec_append(in, co) == 0, "appended");
    if (k != 2) want[e++] = co;
  }
  b = pt_dup(a, NULL, 0);
  sym_assert(b != NULL, "copied");
  jn = deep ? co_pt_get(pt_vec_i_get(b, 0)) : b;
  sym_assert((int)pt_len_get(jn) == e, "what was brought in is left out");
  for (int i = 0; i < e; i++) same_co(want[i], pt_vec_i_get(jn, i), deep ? pt_vec_i_get(b, 0) : NULL);
  sym_assert((int)pt_len_get(in) == n, "the original is unchanged");
  pt_free(a, 1);
  pt_free(b, 1);
  sym_assert(sym_live_bytes() == l0 && sym_live_blocks() == b0, "every object released once");
  sym_reach("end");
}
/* --- visiting --- */
static int seen, stop_at, stop_how;
static int visit(cg_obj *co, void *arg) {
  sym_assert(arg == &seen, "argument passed");
  int i = 0;
  for (; i < T; i++) if (node[i] == co) break;
  sym_assert(i < T && !(seen >> i & 1), "every object once");
  seen |= 1 << i;
  sym_assert(par[i] < 0 || seen >> par[i] & 1, "parents first");
  return i == stop_at ? stop_how : 0;
}
static int level(int i) { int d = 0; while (par[i] >= 0) { i = par[i]; d++; } return d; }
void c14_apply(void) {
  uint64_t l0 = sym_live_bytes();
  parse_tree *a = tree();
  if (!a) return;
  int depth = sym_pick("depth", T + 2);
  stop_at = (int)sym_pick("stop", T + 1) - 1;
  stop_how = sym_pick("done", 2) ? 1 : -1;
  int r = pt_apply(a, visit, depth, &seen), all = 0;
  for (int i = 0; i < T; i++) if (node[i] && level(i) < depth) all |= 1 << i;
  if (stop_at >= 0 && all >> stop_at & 1) {
    if (stop_how < 0) sym_assert(r == -1 && (seen & ~all) == 0, "error reported");
    else {                                   /* done: nothing below it nor after it on its level, everything else */
      int cut[8] = {0};
      cg_obj *up = par[stop_at] >= 0 ? node[par[stop_at]] : NULL;
      parse_tree *lv = up ? co_pt_get(up) : a;
      int past = 0;
      for (unsigned k = 0; k < pt_len_get(lv); k++) { cg_obj *c = pt_vec_i_get(lv, k); for (int i = 0; i < T; i++) if (c && node[i] == c && past) cut[i] = 1; if (c == node[stop_at]) past = 1; }
      int want = 0;
      for (int i = 0; i < T; i++) if (all >> i & 1) { int out = 0; for (int t = i; t >= 0; t = par[t]) out |= cut[t] || (par[t] == stop_at); if (!out) want |= 1 << i; }
      sym_assert(r == 0 && seen == want, "done ends its level only");
    }
  }
  else sym_assert(r == 0 && seen == all, "every object down to the depth");
  uint64_t nr = 0; size_t sz = 0;
  int n = 0;
  for (int i = 0; i < T; i++) n += node[i] != NULL;
  sym_assert(pt_stats(a, &nr, &sz) == 0 && (int)nr >= n && sz > 0, "objects counted");
  for (int i = 0; i < T; i++) if (node[i]) { int t = i; while (par[t] >= 0) t = par[t]; sym_assert(co_top(node[i]) == node[t], "top of the tree"); }
  pt_free(a, 1);
  sym_assert(sym_live_bytes() == l0, "every object released once");
  sym_reach("end");
}
/* --- merging two trees of keywords: the union of the paths --- */
struct kw { char nm; int up, at; };   /* at: 1 has a function, 2 may end here */
static void grow(parse_tree *pt, struct kw *k, int n, cg_obj **o, const char *fn) {
  for (int i = 0; i < n; i++) {
    char nm[2];
    k[i].up = (int)sym_pick("up", i + 1) - 1;
    sym_strset(nm, 1, "nm", "ab");
    nm[0] = k[i].nm = sym_concretize(nm[0]);
    o[i] = co_new(nm, k[i].up < 0 ? NULL : o[k[i].up]);
    k[i].at = sym_arg("at", 0) ? sym_pick("at", 4) : 0;
    if (k[i].at & 1) cb_(o[i], fn, NULL, NULL, 0);
    if (k[i].at & 2) pt_vec_append(co_pt_get(o[i]), NULL);
    cg_obj *r = co_insert(k[i].up < 0 ? pt : co_pt_get(o[k[i].up]), o[i]);
    if (r != o[i]) { sym_done(); return; }   /* equal siblings: the smaller tree */
  }
}
static void path_of(struct kw *k, int i, char *p) { char t[8]; int n = 0; for (; i >= 0; i = k[i].up) t[n++] = k[i].nm; for (int j = 0; j < n; j++) p[j] = t[n - 1 - j]; p[n] = 0; }
static cg_obj *has(parse_tree *pt, const char *p) {
  cg_obj *co = NULL;
  for (; *p; p++) {
    co = NULL;
    for (unsigned i = 0; i < pt_len_get(pt); i++) if (pt_vec_i_get(pt, i) && pt_vec_i_get(pt, i)->co_command[0] == *p) co = pt_vec_i_get(pt, i);
    if (!co) return NULL;
    pt = co_pt_get(co);
  }
  return co;
}
static int ends(cg_obj *co) { int n = 0; for (unsigned i = 0; i < pt_len_get(co_pt_get(co)); i++) n += pt_vec_i_get(co_pt_get(co), i) == NULL; return n; }
static void has_fn(cg_obj *co, const char *fn) {
  cg_callback *cc = co->co_callbacks;
  if (!fn) sym_assert(cc == NULL, "no function");
  else sym_assert(cc && !cc->cc_next && eqstr(cc->cc_fn_str, fn), "its own function, otherwise that of the other");
}
static int count(parse_tree *pt, cg_obj *up) {
  int n = 0;
  for (unsigned i = 0; i < pt_len_get(pt); i++) {
    cg_obj *co = pt_vec_i_get(pt, i);
    if (!co) { sym_assert(i == 0, "the end of a command first"); continue; }
    sym_assert(co_up(co) == up, "parent link");
    if (i && pt_vec_i_get(pt, i - 1)) sym_assert(strcmp(pt_vec_i_get(pt, i - 1)->co_command, co->co_command) < 0, "sorted");
    n += 1 + count(co_pt_get(co), co);
  }
  return n;
}
void c14_merge(void) {
  uint64_t l0 = sym_live_bytes();
  struct kw a[4], b[4];
  cg_obj *oa[4], *ob[4];
  int na = sym_arg("A", 2), nb = sym_arg("B", 2), both = 0;
  parse_tree *pa = pt_new(), *pb = pt_new();
  grow(pa, a, na, oa, "f");
  grow(pb, b, nb, ob, "g");
  parse_tree *pc = pt_dup(pb, NULL, 0);
  sym_assert(cligen_parsetree_merge(pa, NULL, pb) == 0, "merged");
  same_pt(pb, pc, NULL);
  char p[8];
  for (int i = 0; i < na; i++) {
    path_of(a, i, p);
    cg_obj *co = has(pa, p), *of = has(pb, p);
    sym_assert(co == oa[i], "paths of the first");
    both += of != NULL;
    has_fn(co, a[i].at & 1 ? "f" : of && of->co_callbacks ? "g" : NULL);
    sym_assert(ends(co) == ((a[i].at & 2) || (of && ends(of))), "ends where either ends");
  }
  for (int i = 0; i < nb; i++) {
    path_of(b, i, p);
    cg_obj *co = has(pa, p);
    sym_assert(co != NULL, "paths of the second");
    if (!(b[i].at & 1)) continue;
    sym_assert(co->co_callbacks != NULL && co->co_callbacks != ob[i]->co_callbacks, "function kept");
    if (eqstr(co->co_callbacks->cc_fn_str, "g")) has_fn(co, "g");
  }
  sym_assert(count(pa, NULL) == na + nb - both, "nothing else, nothing twice");
  pt_free(pb, 1);
  sym_assert(count(pa, NULL) == na + nb - both, "independent of the second");
  pt_free(pa, 1);
  pt_free(pc, 1);
  sym_assert(sym_live_bytes() == l0, "every object released once");
  sym_reach("end");
}
