/* C27: any specification text is either parsed completely or refused cleanly. */
#include "cli.h"
extern int cligen_parse_debug(int d);
static int nameof(const char *s, int n, const char *const *l) {
  for (; *l; l++) if ((int)strlen(*l) == n && eqmem(s, *l, n)) return 1;
  return 0;
}
/* parse the text into the handle; 1 accepted, 0 refused */
static int parse_(const char *s) {
  char *t = strdup(s);
  int r;
  H = cligen_init();
  GLOB = cvec_new(0);
  r = clispec_parse_str(H, t, "spec", NULL, NULL, GLOB);
  free(t);
  sym_assert(r == 0 || r == -1, "accepted or refused");
  return r == 0;
}
static int line_(parse_tree *pt, const char *l, cvec **cvvp) {
  char *line = strdup(l), *reason = NULL;
  cg_obj *co = NULL;
  cvec *cvv = NULL;
  cligen_result res = CG_ERROR;
  int r = cliread_parse(H, line, pt, &co, &cvv, &res, &reason);
  if (co) co_free(co, 0);
  if (cvvp) *cvvp = cvv; else cvec_free(cvv);
  free(reason); free(line);
  return r < 0 ? -1 : (int)res;
}
/* everything accepted can be printed, matched and freed */
static void use_(int match) {
  pt_head *ph = NULL;
  for (int i = 0; (ph = cligen_ph_i(H, i)) != NULL; i++) {
    parse_tree *pt = cligen_ph_parsetree_get(ph);
    if (pt == NULL) continue;
    pt_print1(stdout, pt, 1);
    pt_print1(stdout, pt, 0);
    if (match) { line_(pt, "a", NULL); line_(pt, "a 1", NULL); }
  }
}
static const char *TPL[] = {
  "a{b;}c;", "a(\"h\nx\"),f(\"u\",(int8)2),hide;", "(a|[b]c)d;", "a<x:int8 range[1:2]>;", "a<x:string length[2]show:\"y z\">;",
  "a<x:int8 choice:1|2>;", "a<x:decimal64 fraction-digits:2 range[1.2]>;", "a<x:string regexp:!\"x*\"g(\"u\")>;", "a<x:string translate:t()preference:7>;",
  "p=\"q\";a;treename=\"t\";@t;@|u;", "a@{b;#c\n}", "a\\;b,m=\"n\\\"o\";", "<x>(\"y\");", "a <x:string keyword:k>;"};
void c27_bytes(void) {
  int t = sym_arg("tpl", 0), op = sym_arg("op", 0), k = sym_arg("k", 1);
  char b[128];
  const char *s = TPL[t];
  int n = strlen(s), pos = sym_pick("pos", n + (op == 0 ? 1 - k : 1));
  printf("\n"); fprintf(stderr, "\n");
  uint64_t l0 = sym_live_blocks();
  memcpy(b, s, pos);
  if (op == 2) strcpy(b + pos, s + pos + k > s + n ? "" : s + pos + k);   /* deleted */
  else {
    if (k > 1) b[pos] = "\\\"'()[]{}<>|;:,@#=!-+.a1 \t\n\r_\x80"[sym_pick("c", 30)];     /* every character that the lexer tells apart, then any byte */
    sym_str(b + pos + (k > 1), k > 1 ? k - 1 : k, "s");
    strcpy(b + pos + k, s + pos + (op == 0 ? k : 0));
  }
  int ok = parse_(b);
  sym_observe(ok);
  if (ok) use_(1);
  cli_end();
  if (ok || sym_arg("leak", 0)) sym_assert(sym_live_blocks() == l0, "nothing leaked");
  sym_reach(ok ? "accepted" : "refused");
}
/* names and operators in any order: accepted exactly when they nest, and then for the lines they mean */
#include "ops.h"
void c27_ops(void) {
  int n = sym_arg("N", 5), k = sym_arg("K", 2), shape = sym_arg("shape", 0), i;
  static const char *PRE[] = {"", "a{", "a[", "(a|", "a;"}, *POST[] = {"", "}", "]b;", ")b;", ""};
  char t[24], b[64], w[8], line[16];
  static struct lang l;
  int np = strlen(PRE[shape]);
  strcpy(t, PRE[shape]);
  sym_strset(t + np, n, "s", OTOK);
  strcpy(t + np + n, POST[shape]);
  n = strlen(t);
  int good = o_file(t, &l);
  for (i = 0; i < n; i++) { b[2 * i] = t[i]; b[2 * i + 1] = " \n"[i & 1]; }
  b[2 * n] = 0;
  int ok = parse_(b);
  sym_assert(ok == good, "accepted exactly when the operators are balanced");
  sym_observe(ok);
  if (ok && !o_over) {
    parse_tree *pt = cligen_ph_parsetree_get(cligen_ph_i(H, 0));
    for (k = sym_arg("K", 2); k > 0; k--) {
      sym_strset(w, k, "w", "ab");
      for (i = 0; i < k; i++) { line[2 * i] = w[i]; line[2 * i + 1] = ' '; }
      line[2 * k - 1] = 0;
      int m = line_(pt, line, NULL) == CG_MATCH;
      sym_assert(m == o_in(&l, w, k), "accepts the lines its operators mean");
    }
  }
  cli_end();
  sym_reach(ok ? "accepted" : "refused");
}
/* a declaration is accepted exactly when its type is one there is */
static const char *TN[] = {"int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "decimal64", "bool", "string", "rest", "interface",
  "ipaddr", "ipv4addr", "ipv4prefix", "ipv6addr", "ipv6prefix", "macaddr", "url", "uuid", "time", "void", "empty", NULL};
void c27_type(void) {
  int named = sym_arg("named", 1), k = sym_arg("k", 1), mode = sym_arg("op", 0), kept = 0;
  char ty[24], b[64];
  const char *s = TN[sym_pick("t", 24)];
  int n = strlen(s), pos;
  if (mode == 1) {                                          /* some letters inserted */
    pos = sym_pick("pos", n + 1);
    memcpy(ty, s, pos);
    sym_strset(ty + pos, k, "s", "abcdefghijklmnopqrstuvwxyz0123456789_-AI");
    strcpy(ty + pos + k, s + pos);
  } else if (mode == 0) {
    pos = sym_pick("pos", n + 1 - k);
    strcpy(ty, s);
    sym_strset(ty + pos, k, "s", "abcdefghijklmnopqrstuvwxyz0123456789_-AI");
    memcpy(ty + pos + k, s + pos + k, n - pos - k + 1);
  } else {                                                  /* some left out */
    pos = sym_pick("pos", n + 1 - k);
    memcpy(ty, s, pos); strcpy(ty + pos, s + pos + k);
  }
  n = strlen(ty);
  for (int i = 0; TN[i]; i++) kept |= (int)strlen(TN[i]) == n && eqmem(ty, TN[i], n);
  snprintf(b, sizeof b, named ? "a <x:%s>;" : "a <%s>;", ty);
  int ok = parse_(b);
  sym_observe(ok);
  sym_assert(ok == (n > 0 && kept), "accepted exactly when the type exists");
  cli_end();
  sym_reach(ok ? "accepted" : "refused");
}
/* a bound is accepted exactly when it is a number of the variable's type */
static const char *BT[] = {"int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "decimal64", "string"};
static int bound_ok(int t, const char *s) {
  static const uint64_t MX[] = {127, 32767, 2147483647u, 9223372036854775807ull, 255, 65535, 4294967295u, 18446744073709551615ull, 9223372036854775807ull, 18446744073709551615ull};
  int neg = 0, n = 0, frac = -1, ovf = 0, bad = 0, base = 10;
  uint64_t v = 0;
  if (*s == '-' || *s == '+') { neg = *s == '-'; s++; }
  if (*s == '0' && t != 8) base = 8;
  for (; *s; s++) {
    if (*s == '.') { if (t != 8 || frac >= 0 || !n) return 0; frac = 0; continue; }
    if (*s < '0' || *s > '9') return 0;
    int d = *s - '0';
    bad |= d >= base;
    uint64_t q = base == 8 ? 2305843009213693951ull : 1844674407370955161ull;
    ovf |= (v > q) | ((v == q) & (base == 10) & (d > 5));
    v = v * base + d; n++;
    if (frac >= 0) frac++;
  }
  if (!n || frac == 0 || frac > 2 || bad || ovf) return 0;
  if (t == 8) for (n = frac < 0 ? 0 : frac; n < 2; n++) { ovf |= v > 1844674407370955161ull; v *= 10; }
  if (ovf) return 0;
  if (neg) return (t < 4 || t == 8) && v <= MX[t] + 1;
  return v <= MX[t];
}
void c27_bounds(void) {
  static const char *PRE[] = {"", "", "21474836", "922337203685477580", "", "", "42949672", "1844674407370955161", "92233720368547758", "1844674407370955161"};
  int t = sym_arg("type", 0), n = sym_arg("n", 4), pre = sym_arg("pre", 0), form = sym_arg("form", 0);
  char s[40], b[96];
  int sg = pre ? sym_pick("sign", 3) : 0;
  strcpy(s, (const char *[]){"", "-", "+"}[sg]);
  if (pre) strcat(s, PRE[t]);
  int m = strlen(s);
  sym_strset(s + m, n, "s", pre ? "0123456789." : "0123456789.+-");
  const char *key = t == 9 ? "length" : "range", *ty = BT[t];
  if (form == 0) snprintf(b, sizeof b, "a <x:%s %s[%s]>;", ty, key, s);
  if (form == 1) snprintf(b, sizeof b, "a <x:%s %s[%s:100]>;", ty, key, s);
  if (form == 2) snprintf(b, sizeof b, "a <x:%s %s[0:%s]>;", ty, key, s);
  int ok = parse_(b);
  sym_observe(ok);
  sym_assert(ok == bound_ok(t, s), "accepted exactly when the bound is a number of that type");
  cli_end();
  sym_reach(ok ? "accepted" : "refused");
}
/* which options go with which type */
void c27_opts(void) {
  static const struct { const char *s; int kind; } O[] = {            /* 1 numbers and decimal, 2 strings, 3 any, 4 decimal */
    {"range[1]", 1}, {"range[1:2]", 1}, {"length[1]", 2}, {"length[1:2]", 2}, {"regexp:\"b\"", 5}, {"show:\"u\"", 3}, {"choice:b", 6},
    {"fraction-digits:3", 4}, {"preference:3", 3}, {"translate:t()", 3}, {"f(\"x\",(int8)\"3\")", 3}, {"regexp:!\"c\"", 5}};
  int t = sym_pick("type", 23), K = sym_arg("K", 2), i, bad = 0, rng = 0, len = 0, re = 0, fd = 0;     /* rng: 1 given before the digits, 2 after */
  char b[160];
  printf("\n"); fprintf(stderr, "\n");
  uint64_t l0 = sym_live_blocks();
  snprintf(b, sizeof b, "a <x:%s", TN[t]);
  for (i = 0; i < K; i++) {
    int o = sym_pick("o", 12);
    snprintf(b + strlen(b), sizeof b - strlen(b), " %s", O[o].s);
    if (O[o].kind == 1) { if (!rng || fd == 0) rng = 1 + fd; bad |= t > 8 || re; }
    if (O[o].kind == 2) len = 1;
    if (O[o].kind == 4) { bad |= rng == 1 && t == 8; fd = 1; }
    if (O[o].kind == 5) { re = 1; bad |= rng && t != 7; }               /* a pattern makes it a string; bounds of a uint64 become lengths */
    if (O[o].kind == 6 && i < K - 1) { sym_done(); return; }           /* a choice comes last */
  }
  strcat(b, ">;");
  if (len && !re) bad |= !(strcmp(TN[t], "string") == 0 || strcmp(TN[t], "rest") == 0 || strcmp(TN[t], "uint64") == 0);
  int ok = parse_(b);
  sym_observe(ok);
  sym_assert(ok == !bad, "accepted exactly when the options apply to the type");
  if (ok) use_(1);
  cli_end();
  if (ok) sym_assert(sym_live_blocks() == l0, "nothing leaked");
  sym_reach(ok ? "accepted" : "refused");
}
/* assignments: a global variable has the last value given to it, a local one belongs to its command, and each tree has the name and
   pipe given last before its end */
static struct { char n[12], v[4]; } G_[6];
static int GN;
static void g_set(const char *n, const char *v) {
  int i = 0;
  for (; i < GN; i++) if (strcmp(G_[i].n, n) == 0) break;
  if (i == GN) { GN++; strcpy(G_[i].n, n); }
  strcpy(G_[i].v, v);
}
static struct { char n[8], pipe[4]; int first, count; } TR[6];
static struct { int kind; char v[4], w[4]; } CM[6];
static void check_cmd(cg_obj *co, int c) {
  char nm[4] = {'c', '0' + c, 0};
  sym_assert(co && eqstr(co->co_command, nm) && co_up(co) == NULL, "the command, at the top of its tree");
  cg_obj *k = kidof(co, 0);
  if (CM[c].kind == 0) { sym_assert(cvec_len(co->co_cvec) == 0 && k && k->co_type == CO_EMPTY, "no local variables"); return; }
  for (int i = 0; i < (CM[c].kind == 3 ? 2 : 1); i++) {
    cg_obj *a = kidof(co, i);
    cvec *v = NULL;
    sym_assert(a && eqstr(a->co_command, i ? "b" : "a") && co_up(a) == co, "the inner command");
    v = a->co_cvec;
    sym_assert(cvec_len(v) == (CM[c].kind == 2 ? 2 : 1), "its local variables");
    sym_assert(eqstr(cv_name_get(cvec_i(v, 0)), "p") && cv_type_get(cvec_i(v, 0)) == CGV_STRING && eqstr(cv_string_get(cvec_i(v, 0)), i ? CM[c].w : CM[c].v), "value of a local variable");
    if (CM[c].kind == 2) sym_assert(eqstr(cv_name_get(cvec_i(v, 1)), "r") && cv_type_get(cvec_i(v, 1)) == CGV_STRING && eqstr(cv_string_get(cvec_i(v, 1)), CM[c].w), "value of a local variable");
  }
}
static void val_(char *v) { static int k; sym_strset(v, 1 + k++ % 2, "v", "xy"); }
void c27_assign(void) {
  int K = sym_arg("K", 4), nt = 0, nc = 0, i;
  char b[256], *q = b, name[8] = "spec";
  int here = 0;
  for (i = 0; i < K; i++) {
    int op = sym_pick("op", sym_arg("ops", 5));
    char v[4], w[4];
    switch (op) {
    case 0: val_(v); q += sprintf(q, "p=\"%s\";", v); g_set("p", v); break;
    case 1: { int how = sym_pick("pipe", 2); strcpy(v, how ? "|z" : ""); q += sprintf(q, "pipetree=\"%s\";\n", v); g_set("pipetree", v); break; }
    case 2:
      CM[nc].kind = sym_pick("local", 4);
      val_(CM[nc].v);
      if (CM[nc].kind > 1) val_(CM[nc].w);
      if (CM[nc].kind == 0) q += sprintf(q, "c%d;", nc);
      if (CM[nc].kind == 1) q += sprintf(q, "c%d{a,p=\"%s\";}", nc, CM[nc].v);
      if (CM[nc].kind == 2) q += sprintf(q, "c%d{a,p=\"%s\",r=\"%s\";}", nc, CM[nc].v, CM[nc].w);
      if (CM[nc].kind == 3) q += sprintf(q, "c%d{b,p=\"%s\";a,p=\"%s\";}", nc, CM[nc].w, CM[nc].v);
      nc++; here++;
      break;
    case 3:
      if (here) { strcpy(TR[nt].n, name); TR[nt].first = nc - here; TR[nt].count = here; TR[nt].pipe[0] = 0; for (int j = 0; j < GN; j++) if (strcmp(G_[j].n, "pipetree") == 0) strcpy(TR[nt].pipe, G_[j].v); nt++; here = 0; }
      sprintf(name, "t%d", i);
      q += sprintf(q, "treename=\"%s\";", name);
      break;
    default: val_(v); q += sprintf(q, "q=\"%s\"; ", v); g_set("q", v); break;
    }
  }
  *q = 0;
  strcpy(TR[nt].n, name); TR[nt].first = nc - here; TR[nt].count = here; TR[nt].pipe[0] = 0;
  for (int j = 0; j < GN; j++) if (strcmp(G_[j].n, "pipetree") == 0) strcpy(TR[nt].pipe, G_[j].v);
  nt++;
  sym_assert(parse_(b), "accepted");
  sym_assert(cvec_len(GLOB) == GN, "every global variable once");
  for (i = 0; i < GN; i++) {
    cg_var *cv = cvec_find(GLOB, G_[i].n);
    sym_assert(cv && cv_type_get(cv) == CGV_STRING && eqstr(cv_string_get(cv), G_[i].v), "the last value of a global variable");
  }
  pt_head *ph;
  for (i = 0; (ph = cligen_ph_i(H, i)) != NULL; i++) {
    sym_assert(i < nt && eqstr(cligen_ph_name_get(ph), TR[i].n), "the trees in order, by name");
    char *p = cligen_ph_pipe_get(ph);
    sym_assert(TR[i].pipe[0] ? p && eqstr(p, TR[i].pipe) : p == NULL || *p == 0, "pipe of the tree");
    parse_tree *pt = cligen_ph_parsetree_get(ph);
    sym_assert((int)pt_len_get(pt) == TR[i].count, "commands of the tree");
    for (int k = 0; k < TR[i].count; k++) check_cmd(pt_vec_i_get(pt, k), TR[i].first + k);
  }
  sym_assert(i == nt, "every tree");
  cli_end();
  sym_reach("end");
}

static char *puts_(char *q, const char *s) { while (*s) *q++ = *s++; return q; }
/* deep nesting: accepted exactly when it closes, and then the path can be typed */
void c27_deep(void) {
  static char b[4096], l[1024];
  static const int DN[] = {1, 12, 30, 45};
  static const char *OP[] = {"a{", "a[b ", "a(b|c ", "<v:int8>{", "[a "}, *CL[] = {"c;}", "]", ")", "c;}", "]"};
  int d = DN[sym_pick("depth", 4)], k = sym_pick("kind", 5), off = sym_pick("closed", 3) - 1, i, j = 0;
  if (k && d > 12) sym_done();
  uint64_t l0 = sym_live_blocks();
  printf("\n"); fprintf(stderr, "\n");
  l0 = sym_live_blocks();
  char *q = b;
  for (i = 0; i < d; i++) q = puts_(q, OP[k]);
  q = puts_(q, k == 0 || k == 3 ? "b;" : k == 2 ? "" : "b");
  for (i = 0; i < d + off; i++) q = puts_(q, CL[k]);
  if (!(k == 0 || k == 3)) q = puts_(q, ";");
  *q = 0;
  int ok = parse_(b);
  sym_assert(ok == (off == 0), "accepted exactly when it closes");
  if (ok) {
    use_(0);
    for (i = 0; i < d; i++) { l[j++] = k == 3 ? '1' : 'a'; l[j++] = ' '; }
    l[j++] = 'b'; l[j] = 0;
    if (k == 0 || k == 3) {
      char last = sym_u8("last", 'a', 'd');
      l[j - 1] = last;
      int want = last == 'b' || last == 'c' ? CG_MATCH : CG_NOMATCH;
      sym_assert(line_(cligen_ph_parsetree_get(cligen_ph_i(H, 0)), l, NULL) == want, "the path");
    }
  }
  cli_end();
  if (ok) sym_assert(sym_live_blocks() == l0, "nothing leaked");
  sym_reach(ok ? "accepted" : "refused");
}
