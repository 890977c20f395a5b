/* C33: printing a specification and parsing the print gives an equivalent specification. */
#include "dig.h"
static parse_tree *tree_(void) { pt_head *ph = cligen_ph_i(H, 0); return ph ? cligen_ph_parsetree_get(ph) : NULL; }
static int parse_(const char *s) {
  char *t = strdup(s);
  H = cligen_init();
  GLOB = cvec_new(0);
  int r = clispec_parse_str(H, t, "spec", NULL, NULL, GLOB);
  free(t);
  return r == 0;
}
static int print_(int brief, char *to) {
  char *o;
  h_out_begin();
  sym_assert(pt_print1(stdout, tree_(), brief) == 0, "printed");
  int n = h_out_end(&o);
  memcpy(to, o, n);
  to[n] = 0;
  h_out_free(o);
  return n;
}
static char D1[65536], D2[65536], T1[32768], T2[32768], B1[32768];
/* the short print names every command in order: a variable by its shown name or its only values, and nothing of its details */
static const char *skip_(const char *p) { while (*p == ' ' || *p == '\n' || *p == '{' || *p == '}' || *p == ';') p++; return p; }
static const char *word_(const char *p, const char *w) { int n = strlen(w); sym_assert((int)strlen(p) >= n && eqmem(p, w, n), "the name in the short print"); return p + n; }
static const char *locals_(const char *p, cvec *v) { for (int i = 0; i < cvec_len(v); i++) { p = word_(skip_(p), ","); p = word_(skip_(p), cv_name_get(cvec_i(v, i))); } return p; }
/* names that look like structure */
static int unclear_(const char *q) { for (; q && *q; q++) if (strchr(" \n{};@", *q)) return 1; return 0; }
static const char *brief_(const char *p, parse_tree *pt) {
  for (unsigned i = 0; i < pt_len_get(pt); i++) {
    cg_obj *co = pt_vec_i_get(pt, i), *e = NULL;
    if (!co || co->co_type == CO_EMPTY) continue;
    int opt = co_flags_get(co, CO_FLAGS_OPTION) != 0, c = co->co_type == CO_VARIABLE && co->co_choice && co->co_choice[0] && strchr(co->co_choice, '|') != NULL;
    if (unclear_(co->co_command) || co->co_type == CO_VARIABLE && (unclear_(co->co_choice) || unclear_(co->co_show))) return NULL;
    p = skip_(p);
    if (opt) p = word_(p, "[");
    if (co->co_type == CO_REFERENCE) p = word_(p, "@");
    if (co->co_type == CO_VARIABLE && co->co_choice) { if (c) p = word_(p, "("); p = word_(p, co->co_choice); if (c) p = word_(p, ")"); }
    else if (co->co_type == CO_VARIABLE) { p = word_(p, "<"); p = word_(p, co->co_show ? co->co_show : co->co_command); p = word_(p, ">"); }
    else p = word_(p, co->co_command);
    if (opt) p = word_(p, "]");
    p = locals_(p, co->co_cvec);
    if (co_terminal(co, &e) && e) p = locals_(p, e->co_cvec);
    if (co_sets_get(co) && pt_len_get(co_pt_get(co)) > 1) p = word_(skip_(p), "@");
    if ((p = brief_(p, co_pt_get(co))) == NULL) return NULL;
  }
  return p;
}
static void round_(void) {
#ifdef DBG
  print_(1, B1); fprintf(stderr, "<%s>\n", B1);
#endif
  dig(D1, tree_());
  if (odd) { cli_end(); sym_done(); return; }
  int n1 = print_(0, T1);
  print_(1, B1);
  const char *b = brief_(B1, tree_());
  sym_assert(b == NULL || *skip_(b) == 0, "nothing else in the short print");
  cli_end();
  int ok = parse_(T1);
#ifdef DBG
  fprintf(stderr, "[%s] %d\n", T1, ok);
#endif
  sym_assert(ok, "the print is accepted");
  char *e = dig(D2, tree_());
#ifdef DBG
  fprintf(stderr, "[%s]\n[%s]\n", D1, D2);
#endif
  int n = strlen(D1);
  sym_assert(n == e - D2 && eqmem(D1, D2, n), "the same commands, types, restrictions and options");
  int n2 = print_(0, T2);
  sym_assert(n1 == n2 && eqmem(T1, T2, n1), "the print of it is the same");
  cli_end();
  sym_observe_mem(T1, n1);
}
static const char *TPL[] = {
  "a{b;}c;", "a(\"h\nx\"),f(\"u\",(int8)\"2\"),g();", "(a|b c)d;", "a<x:int8 range[1:2]range[5]>;", "a<x:string length[2]show:\"y z\">;",
  "a<x:int8 choice:1|2>;", "a<x:decimal64 fraction-digits:3 range[1.25]>;", "a<x:string regexp:!\"x*\"regexp:\"y\"g(\"u\",\"v\")>;", "a<x:string translate:t()preference:7>;",
  "a@{b;c <i:int8>;}", "a\\;b,m();", "<x>(\"y\");", "a <x:string keyword:k>;", "p{a,m=\"n\",hide,o;{b;}}", "p{c,hide{b;}d @S,@remove:l;}", "a,g(\"\",\"x\");{b,h();}"};
void c33_bytes(void) {
  int t = sym_arg("tpl", 0), op = sym_arg("op", 0), k = sym_arg("k", 1);
  char b[128];
  const char *s = TPL[t];
  int n = strlen(s), pos = op == 2 ? 0 : sym_pick("pos", n + (op == 0 ? 1 - k : 1));
  strcpy(b, s);
  if (op < 2) {
    memcpy(b, s, pos);
    if (k > 1) b[pos] = "\\\"'()[]{}<>|;:,@#=!-+.a1 \t\n\r_\x80"[sym_pick("c", 30)];     /* every character that the lexer tells apart, then any byte */
    sym_str(b + pos + (k > 1), k > 1 ? k - 1 : k, "s");
    strcpy(b + pos + k, s + pos + (op == 0 ? k : 0));
  }
  int ok = parse_(b);
  sym_observe(ok);
  if (!ok || tree_() == NULL || pt_len_get(tree_()) == 0) { cli_end(); sym_reach("refused"); return; }
  round_();
  sym_reach("accepted");
}
/* one optional name, variable or reference anywhere in a line */
void c33_opt(void) {
  static const char *E[] = {"%c", "<%c:int8>", "<%c:string show:\"s\">", "@%c", "%c(\"h\")", "<%c:int8 choice:1|2>", "<%c:string choice:y>", "<%c:decimal64 fraction-digits:2>"};
  static const char *L[] = {"p %s;", "p %s b;", "p q %s;", "p{%s c; q;}", "p{a %s;b;}", "p a{%s d;}"};
  char n[2], e[40], o[44], b[80];
  int t = sym_pick("what", 8);
  sym_strset(n, 1, "name", "exz");
  snprintf(e, sizeof e, E[t], n[0]);
  snprintf(o, sizeof o, "[%s]", e);
  snprintf(b, sizeof b, L[sym_pick("where", 6)], o);
  int ok = parse_(b);
  sym_assert(ok, "accepted");
  int h = 0;
  parse_tree *pt = co_pt_get(kid(tree_(), 0));
  for (int d = 0; d < 3 && pt; d++) {
    parse_tree *nx = NULL;
    for (unsigned i = 0; i < pt_len_get(pt); i++) {
      cg_obj *co = pt_vec_i_get(pt, i);
      if (!co || co->co_type == CO_EMPTY) continue;
      if (co_flags_get(co, CO_FLAGS_OPTION)) { h++; sym_assert(co->co_command && co->co_command[0] == n[0] && co->co_type == (t == 3 ? CO_REFERENCE : t == 0 || t == 4 ? CO_COMMAND : CO_VARIABLE), "the optional one"); }
      if (!nx && pt_len_get(co_pt_get(co))) nx = co_pt_get(co);
    }
    pt = nx;
  }
  sym_assert(h >= 1, "marked as optional");
  round_();
  sym_reach("accepted");
}
/* names and operators in any order */
void c33_ops(void) {
  int n = sym_arg("N", 6), i;
  char t[24], b[64];
  sym_strset(t, n, "s", "ab()|{};@");
  for (i = 0; i < n; i++) {
    sym_assume(t[i] != '@' || (i + 1 < n && t[i + 1] == '{'));
    b[2 * i] = t[i]; b[2 * i + 1] = t[i] == '@' ? '{' : ' ';
  }
  /* a set is one token, @{ */
  char *q = b;
  for (i = 0; i < n; i++) {
    if (t[i] == '@') { *q++ = '@'; *q++ = '{'; i++; } else *q++ = t[i];
    *q++ = ' ';
  }
  *q = 0;
  if (!parse_(b) || tree_() == NULL || pt_len_get(tree_()) == 0) { cli_end(); sym_reach("refused"); return; }
  round_();
  sym_reach("accepted");
}
/* any bounds that a type can have */
void c33_num(void) {
  static const char *TY[] = {"int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "decimal64", "string"};
  static const char *PRE[] = {"", "-3", "214748", "-92233720368547758", "", "6", "42949672", "184467440737095516", "-92233720368547758", ""};
  int t = sym_arg("type", 0), n = sym_arg("n", 2);
  char b[128], lo[24], hi[24];
  strcpy(lo, sym_pick("pre", 2) ? PRE[t] : "");
  sym_strset(lo + strlen(lo), n, "lo", t == 8 ? "0123456789.-" : "0123456789-");
  strcpy(hi, "1");
  sym_strset(hi + 1, n, "hi", "0123456789");
  snprintf(b, sizeof b, sym_pick("one", 2) ? "a <x:%s %s[%s] %s[%s:%s]>;" : "a <x:%s %s[%s:7] %s[%s:%s]>;", TY[t], t == 9 ? "length" : "range", lo, t == 9 ? "length" : "range", lo, hi);
  if (!parse_(b)) { cli_end(); sym_reach("refused"); return; }
  round_();
  sym_reach("accepted");
}

static char *puts_(char *q, const char *s) { while (*s) *q++ = *s++; return q; }
static char *num_(char *q, int n) { return q + sprintf(q, "%d", n); }
/* deep, wide and long specifications */
void c33_big(void) {
  static char b[32768];
  static const int DN[] = {1, 9, 30}, WN[] = {1, 9, 33}, NL[] = {1, 70}, HL[] = {0, 1, 130};
  int d = DN[sym_pick("depth", 3)], w = WN[sym_pick("width", 3)], nl = NL[sym_pick("name", 2)], hl = HL[sym_pick("help", 3)], cbs = sym_pick("callbacks", 2) * 9, i, j, k;
  int ty = sym_arg("kind", 0);
  char *q = b, c[2];
  c[0] = "abz"[sym_pick("c", 3)]; c[1] = 0;
  for (i = 0; i < d; i++) {
    *q++ = 'a' + i % 26;
    q = puts_(q, "{\n");
  }
  for (j = 0; j < w; j++) {
    if (ty == 1 || ty == 2) *q++ = '<';
    for (k = 0; k < nl; k++) *q++ = 'a' + k % 26;
    *q++ = '0' + j / 10; *q++ = '0' + j % 10;
    q = puts_(q, c);
    if (ty == 1) { q = puts_(q, ":int16"); for (k = 0; k < 9; k++) { q = puts_(q, " range["); q = num_(q, 10 * k); *q++ = ':'; q = num_(q, 10 * k + 5); *q++ = ']'; } *q++ = '>'; }
    if (ty == 2) { q = puts_(q, ":string choice:"); for (k = 0; k < nl; k++) { if (k) *q++ = '|'; *q++ = 'k'; *q++ = '0' + k / 10; *q++ = '0' + k % 10; } *q++ = '>'; }
    if (hl) { q = puts_(q, "(\""); for (k = 0; k < hl; k++) *q++ = k % 40 == 39 ? '\n' : 'h'; q = puts_(q, "\")"); }
    for (k = 0; k < cbs; k++) { q = puts_(q, ",f"); *q++ = '0' + k; q = puts_(q, "(\"x\")"); }
    if (ty == 3) q = puts_(q, ",hide");
    q = puts_(q, ";\n");
  }
  for (i = 0; i < d; i++) { *q++ = '}'; *q++ = '\n'; }
  *q = 0;
  if (q - b > 7000) sym_done();
  int ok = parse_(b);
  sym_assert(ok, "accepted");
  round_();
  sym_reach("end");
}
