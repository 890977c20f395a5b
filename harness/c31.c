/* C31: named trees, aliases, working points and the active tree behave as a registry. */
#include "cli.h"
#include "match.h"
#define MX 40
/* ---- the list of trees ---- */
#define ML 320
static struct { char name[ML], prompt[ML], pipe[ML]; int hasprompt, haspipe; pt_head *ph; parse_tree *pt; } R[MX];
static int RN, RA;                         /* how many, the active one or -1 */
static int m_find(const char *n) { for (int i = 0; i < RN; i++) if (eqstr(R[i].name, n)) return i; return -1; }
static void r_name(char *b, int L, int set) {
  int n = sym_pick("len", L + 1), pre = sym_arg("pre", 0);
  if (pre) memset(b, 'a', pre), b += pre;      /* long names that differ at the end only */
  if (set == 0) sym_str(b, n, "name"); else sym_strset(b, n, "name", "ab");
}
static void r_check(void) {
  pt_head *ph = NULL;
  int i = 0;
  while ((ph = cligen_ph_each(H, ph)) != NULL) {
    sym_assert(i < RN && R[i].ph == ph, "the trees in the order they were added");
    i++;
  }
  sym_assert(i == RN, "every tree");
  for (i = 0; i < RN; i++) {
    sym_assert(cligen_ph_i(H, i) == R[i].ph, "tree by number");
    sym_assert(eqstr(cligen_ph_name_get(R[i].ph), R[i].name), "name");
    char *s = cligen_ph_prompt_get(R[i].ph);
    sym_assert(R[i].hasprompt ? s && eqstr(s, R[i].prompt) : s == NULL, "prompt");
    s = cligen_ph_pipe_get(R[i].ph);
    sym_assert(R[i].haspipe ? s && eqstr(s, R[i].pipe) : s == NULL, "pipe");
    sym_assert(cligen_ph_parsetree_get(R[i].ph) == R[i].pt, "tree");
    sym_assert(cligen_ph_workpoint_get(R[i].ph) == NULL, "no working point");
  }
  sym_assert(cligen_ph_i(H, RN) == NULL && cligen_ph_i(H, -1) == NULL, "no more trees");
  sym_assert(cligen_ph_active_get(H) == (RA < 0 ? NULL : R[RA].ph), "the active tree");
  sym_assert(cligen_pt_active_get(H) == (RA < 0 ? NULL : R[RA].pt), "its commands");
}
void c31_reg(void) {
  int K = sym_arg("K", 3), L = sym_arg("L", 2), set = sym_arg("set", 1), ops = sym_arg("ops", 5);
  H = cligen_init();
  RA = -1;
  r_check();
  for (int k = sym_arg("many", 0); k > 0; k--) {      /* a good number of trees to begin with */
    sprintf(R[RN].name, "tree-%d", RN);
    R[RN].ph = cligen_ph_add(H, R[RN].name);
    R[RN].pt = pt_new();
    sym_assert(R[RN].ph && cligen_ph_parsetree_set(R[RN].ph, R[RN].pt) == 0, "added");
    if (RA < 0) RA = RN;
    RN++;
  }
  if (RN) r_check();
  for (int k = 0; k < K; k++) {
    char b[ML];
    int i, op = k == 0 ? 0 : sym_pick("op", ops), clear = 0;
    if (op >= 2) { i = sym_pick("tree", RN); clear = sym_pick("clear", 2); }
    if (!clear) r_name(b, L, set);
    switch (op) {
    case 0:
      strcpy(R[RN].name, b);
      sym_assert((R[RN].ph = cligen_ph_add(H, b)) != NULL, "added");
      sym_assert(cligen_ph_parsetree_get(R[RN].ph) == NULL, "without commands");
      R[RN].pt = pt_new();
      sym_assert(cligen_ph_parsetree_set(R[RN].ph, R[RN].pt) == 0, "commands set");
      if (RN++ == 0) RA = 0;
      break;
    case 1:
      sym_assert(cligen_ph_active_set_byname(H, b) == 0, "activated");
      RA = m_find(b);
      break;
    case 2:
      if (clear) { clear = 0; i = -1; break; }
      sym_assert(cligen_ph_name_set(R[i].ph, b) == 0, "renamed");
      strcpy(R[i].name, b);
      break;
    case 3:
      sym_assert(cligen_ph_prompt_set(R[i].ph, clear ? NULL : b) == 0, "prompt set");
      if (!clear) strcpy(R[i].prompt, b);
      R[i].hasprompt = !clear;
      break;
    case 4:
      sym_assert(cligen_ph_pipe_set(R[i].ph, clear ? NULL : b) == 0, "pipe set");
      if (!clear) strcpy(R[i].pipe, b);
      R[i].haspipe = !clear;
      break;
    }
    memset(b, '!', sizeof b);
    r_check();
  }
  char q[ML];
  r_name(q, L, set);
  int i = m_find(q);
  sym_observe(i);
  sym_assert(cligen_ph_find(H, q) == (i < 0 ? NULL : R[i].ph), "found under its name, the first of several");
  sym_assert(cligen_ph_find(H, NULL) == NULL, "no name");
  cligen_exit(H); H = NULL;
  sym_assert(sym_live_blocks() == 0, "everything released");
  sym_reach("end");
}
/* ---- trees of a specification ---- */
static char said[64]; static int nsaid;
static int say(cligen_handle h, cvec *cvv, cvec *argv) { sym_assert(nsaid < 60, "calls"); said[nsaid++] = cv_string_get(cvec_i(argv, 0))[0]; said[nsaid] = 0; return 0; }
static int swi(cligen_handle h, cvec *cvv, cvec *argv) { return cligen_ph_active_set_byname(h, cv_string_get(cvec_find(cvv, "t"))); }
static cgv_fnstype_t *s2f31(char *name, void *arg, char **err) { *err = NULL; return name[0] == 's' ? swi : say; }
void c31_spec(void) {
  char spec[256], nm[3][4], *q = spec;
  int n = sym_pick("trees", 3) + 1, given = sym_pick("given", 2);
  for (int i = 0; i < n; i++) {
    nm[i][0] = 'p' + i; nm[i][1] = i == 1 ? sym_u8("n", 'a', 'c') : 'b'; nm[i][2] = 0;
    if (i || !given) { q = puts_(q, "treename=\""); q = puts_(q, nm[i]); q = puts_(q, "\";"); }
    q = puts_(q, "x, c(\""); *q++ = '0' + i; q = puts_(q, "\"); ");
    if (i == 0) q = puts_(q, "go <t:string>, s();");
  }
  *q = 0;
  H = cligen_init();
  cvec *glob = cvec_new(0);
  sym_assert(clispec_parse_str(H, spec, "spec", given ? nm[0] : NULL, NULL, glob) == 0, "parsed");
  cvec_free(glob);
  for (int i = 0; i < n; i++) {
    pt_head *ph = cligen_ph_i(H, i);
    sym_assert(ph && eqstr(cligen_ph_name_get(ph), nm[i]) && cligen_ph_find(H, nm[i]) == ph, "each tree under its name");
    parse_tree *pt = cligen_ph_parsetree_get(ph);
    sym_assert(cligen_callbackv_str2fn(pt, s2f31, NULL) == 0, "bound");
  }
  sym_assert(cligen_ph_i(H, n) == NULL, "no other tree");
  sym_assert(cligen_ph_active_get(H) == cligen_ph_i(H, 0), "the first is active");
  char line[2][16], *lp = line[0], t[4];
  unsigned char keys[32]; int nk = 0;
  sym_strset(t, 2, "t", "pqrbx"); sym_assume(t[0] != 'x');
  keys[nk++] = 'x'; keys[nk++] = '\n';
  keys[nk++] = 'g'; keys[nk++] = 'o'; keys[nk++] = ' '; keys[nk++] = t[0]; keys[nk++] = t[1]; keys[nk++] = '\n';
  keys[nk++] = 'x'; keys[nk++] = '\n';
  (void)lp;
  int to = -1;
  for (int i = 0; i < n; i++) if (eqstr(nm[i], t)) to = i;
  cligen_result res; char *buf, *reason = NULL; int cr, r; char *out;
  env_keys(keys, nk);
  h_out_begin();
  for (int i = 0; i < 3; i++) {
    cr = 0;
    r = cliread_eval(H, &buf, &cr, &res, &reason);
    if (i == 2 && to < 0) sym_assert(r < 0, "no active tree");
    else sym_assert(r == 0 && res == CG_MATCH && cr == 0, "read and run");
    free(reason); reason = NULL;
  }
  h_out_end(&out); h_out_free(out);
  sym_assert(nsaid == (to < 0 ? 1 : 2) && said[0] == '0' && (to < 0 || said[1] == '0' + to), "commands of the active tree are run");
  cligen_exit(H); H = NULL;
  sym_reach("end");
}
/* ---- aliases ---- */
static char ab[4][8], atext[64]; static int acalls, aret;
static int acb(cligen_handle h, cvec *cvv, cvec *argv) {
  acalls++;
  sym_assert(cvec_len(argv) == 1, "one argument");
  char *s = cv_string_get(cvec_i(argv, 0));
  sym_assert(strlen(s) < sizeof atext, "length");
  strcpy(atext, s);
  return 0;
}
static const char *const ATREE[] = {
  "k, c(\"k\"); km, c(\"m\");{ x, c(\"x\"); }",
  "[k], c(\"k\"); km, c(\"m\");{ x, c(\"x\"); }",
  "<k:int32>, c(\"k\"); km, c(\"m\");{ x, c(\"x\"); }",
  "@T, c(\"k\"); km, c(\"m\");{ x, c(\"x\"); } treename=\"T\"; k, c(\"k\");",
  "", };
static const int AK[] = {1, 1, 0, 0, 0};    /* k is an ordinary command of the tree */
static struct { char name[8], cmd[16], help[8]; int hashelp; } AL[MX];
static int AN;
static int a_find(const char *n) { for (int i = 0; i < AN; i++) if (eqstr(AL[i].name, n)) return i; return -1; }
void c31_alias(void) {
  int K = sym_arg("K", 2), C = sym_arg("C", 2), tr = sym_arg("tree", 0), set = sym_arg("set", 0);
  char out0[512], *out;
  if (tr == 4) { H = cligen_init(); pt_head *ph = cligen_ph_add(H, "spec"); cligen_ph_parsetree_set(ph, pt_new()); }
  else cli(ATREE[tr]);
  pt_head *ph = cligen_ph_i(H, 0);
  parse_tree *pt = cligen_ph_parsetree_get(ph);
  sym_assert(cligen_callbackv_str2fn(pt, s2f31, NULL) == 0, "bound");
  if (cligen_ph_i(H, 1)) cligen_callbackv_str2fn(cligen_ph_parsetree_get(cligen_ph_i(H, 1)), s2f31, NULL);
  int base = pt_len_get(pt);
  cg_obj *orig[MX];
  int no = 0;
  for (int i = 0; i < base; i++) if (pt_vec_i_get(pt, i)) orig[no++] = pt_vec_i_get(pt, i);
  h_out_begin();
  for (int k = 0; k < K; k++) {
    char n[8], cmd[16], help[8];
    int where = k ? 0 : sym_pick("where", 3), nh = set == 0 ? sym_pick("help", 2) : 1, nn = sym_pick("names", 5);
    strcpy(n, nn == 0 ? "k" : nn == 1 ? "km" : nn == 2 ? "a" : nn == 3 ? "" : "a b");
    if (nn == 2) n[0] = sym_u8("n", 'a', 'c');
    if (set == 0) sym_str(cmd, sym_pick("cl", C + 1), "cmd"); else sym_strset(cmd, C, "cmd", "a \"\\;");
    if (nh) { if (set == 0) { help[0] = sym_u8("h", 1, 255); help[1] = 0; } else sym_strset(help, 2, "help", "h\"\\)"); }
    int r = cligen_alias_add(H, where == 0 ? NULL : where == 1 ? (char *)cligen_ph_name_get(ph) : (char *)"none", n, nh ? help : NULL, cmd, acb);
    int ok = where != 2 && nn < 3 && !(nn == 1 && tr != 4) && !(nn == 0 && AK[tr]);
    sym_assert((r == 0) == ok, "added unless the tree is unknown, the name is not a word or an ordinary command");
    if (ok) {
      int i = a_find(n);
      if (i < 0) i = AN++;
      strcpy(AL[i].name, n); strcpy(AL[i].cmd, cmd); AL[i].hashelp = nh; if (nh) strcpy(AL[i].help, help);
    }
    memset(n, '!', 7); memset(cmd, '!', 15); memset(help, '!', 7);
    /* the tree has the ordinary commands and the aliases */
    int found = 0, old = 0;
    for (int i = 0; i < pt_len_get(pt); i++) {
      cg_obj *co = pt_vec_i_get(pt, i);
      if (co == NULL) continue;
      int is = 0;
      for (int j = 0; j < no; j++) if (orig[j] == co) is = 1;
      if (is) { old++; sym_assert(!co_flags_get(co, CO_FLAGS_ALIAS), "ordinary commands are no aliases"); continue; }
      int j = a_find(co->co_command);
      sym_assert(j >= 0 && co->co_type == CO_COMMAND && co_flags_get(co, CO_FLAGS_ALIAS), "an alias");
      sym_assert(AL[j].hashelp ? co->co_helpstring && eqstr(co->co_helpstring, AL[j].help) : co->co_helpstring == NULL, "its help text");
      found++;
    }
    sym_assert(old == no && found == AN, "the ordinary commands and every alias once");
  }
  /* run them */
  for (int i = 0; i < AN; i++) {
    cg_obj *co = NULL; cvec *cvv = NULL; cligen_result res; char *reason = NULL, line[8];
    strcpy(line, AL[i].name);
    sym_assert(cliread_parse(H, line, pt, &co, &cvv, &res, &reason) == 0, "parsed");
    if (tr == 3 && AL[i].name[0] == 'k') { /* k is also a command of the referenced tree */ }
    else {
      sym_assert(res == CG_MATCH, "an alias is a command");
      acalls = 0;
      sym_assert(cligen_eval(H, co, cvv) == 0 && acalls == 1, "run");
      sym_assert(eqstr(atext, AL[i].cmd), "the text of the alias");
    }
    if (co) co_free(co, 0);
    if (cvv) cvec_free(cvv);
    free(reason);
  }
  /* and the ordinary commands still run */
  if (tr != 4) {
    cg_obj *co = NULL; cvec *cvv = NULL; cligen_result res; char *reason = NULL, line[8] = "km x";
    nsaid = 0;
    sym_assert(cliread_parse(H, line, pt, &co, &cvv, &res, &reason) == 0 && res == CG_MATCH, "parsed");
    sym_assert(cligen_eval(H, co, cvv) == 0 && nsaid == 1 && said[0] == 'x', "ordinary command");
    co_free(co, 0); cvec_free(cvv); free(reason);
  }
  h_out_end(&out); h_out_free(out);
  (void)out0;
  cli_end();
  sym_assert(sym_live_blocks() == 0, "everything released");
  sym_reach("end");
}
/* an alias runs its command in the active tree */
static char cs[16]; static int ccalls, cret;
static int ccb(cligen_handle h, cvec *cvv, cvec *argv) {
  ccalls++;
  cg_var *cv = cvec_find(cvv, "s");
  sym_assert(cvec_len(cvv) == 3 && cv, "the command's variables");
  strcpy(cs, cv_string_get(cv));
  return cret;
}
static cgv_fnstype_t *s2c(char *name, void *arg, char **err) { *err = NULL; return ccb; }
void c31_call(void) {
  int L = sym_arg("L", 2);
  char v[8], cmd[16], *q = cmd, *out;
  cli("x <s:string>, c(); y <s:int32>;");
  pt_head *ph = cligen_ph_i(H, 0);
  parse_tree *pt = cligen_ph_parsetree_get(ph);
  cligen_callbackv_str2fn(pt, s2c, NULL);
  int n = sym_pick("len", L) + 1;
  sym_str(v, n, "v");
  for (int i = 0; i < n; i++) sym_assume(!in_set(v[i], " \t\n\r\"\\"));
  int form = sym_pick("form", 3);             /* quoted, plain or unknown */
  q = puts_(q, form == 2 ? "z " : sym_pick("blank", 2) ? "  x  " : "x ");
  if (form == 0) *q++ = '"';
  q = puts_(q, v);
  if (form == 0) { q = puts_(q, " w"); *q++ = '"'; }
  *q = 0;
  sym_assert(cligen_alias_add(H, NULL, "al", "help", cmd, NULL) == 0, "added");
  cret = sym_pick("fails", 2) ? -1 : 0;
  cg_obj *co = NULL; cvec *cvv = NULL; cligen_result res; char *reason = NULL;
  h_out_begin();
  for (int again = 0; again < 2; again++) {
    char line[8] = "al";
    co = NULL; cvv = NULL; reason = NULL;
    ccalls = 0; cs[0] = 0;
    uint64_t l0 = sym_live_bytes();
    sym_assert(cliread_parse(H, line, pt, &co, &cvv, &res, &reason) == 0 && res == CG_MATCH, "parsed");
    int r = cligen_eval(H, co, cvv);
    co_free(co, 0); cvec_free(cvv); free(reason);
    sym_assert(sym_live_bytes() == l0, "nothing leaked");
    sym_assert(ccalls == (form != 2), "the command is run once");
    sym_assert(r == (form == 2 ? 0 : cret), "its result is returned");
    if (form != 2) sym_assert(form == 0 ? strlen(cs) == n + 2u && eqmem(cs, v, n) && eqstr(cs + n, " w") : eqstr(cs, v), "with its values");
  }
  h_out_end(&out); h_out_free(out);
  cli_end();
  sym_assert(sym_live_blocks() == 0, "everything released");
  sym_reach("end");
}
/* ---- working points ---- */
static const struct { char key[4]; int up, var; } W[] = {
  {"a", -1, 0}, {"b", 0, 0}, {"c", 1, 0}, {"x", 1, 1}, {"e", 3, 0}, {"f", 0, 0}, {"b", 5, 0}, {"dd", -1, 0}, {"x", 7, 1} };
#define WN 9
static int w_down(int at, const char *w) {
  for (int i = 0; i < WN; i++) if (W[i].up == at && !W[i].var && eqstr(W[i].key, w)) return i;
  for (int i = 0; i < WN; i++) if (W[i].up == at && W[i].var) return i;
  return -2;
}
static cgv_fnstype_t *s2w(char *name, void *arg, char **err) {
  *err = NULL;
  return name[0] == 's' ? cligen_wp_set : name[0] == 'u' ? cligen_wp_up : name[0] == 't' ? cligen_wp_top : say;
}
void c31_wp(void) {
  int K = sym_arg("K", 3), deep = sym_arg("deep", 0);
  char *out;
  cli("treename=\"m\"; edit @t, s(\"t\"); up, u(\"t\"); top, t(\"t\"); run @t, c(\"r\");"
      "treename=\"t\"; a;{ b;{ c; <x:string>;{ e; } } f;{ b; } } dd;{ <x:string>; }");
  parse_tree *pt = cligen_ph_parsetree_get(cligen_ph_find(H, "m"));
  sym_assert(cligen_callbackv_str2fn(pt, s2w, NULL) == 0, "bound");
  h_out_begin();
  int at = -1;
  for (int k = 0; k < K; k++) {
    char line[24], *q = line, w[2][4];
    int op = sym_pick("op", 4), nw = op == 2 || op == 3 ? 0 : deep && sym_pick("two", 2) ? 2 : 1, to = at;
    q = puts_(q, op == 0 ? "run" : op == 1 ? "edit" : op == 2 ? "up" : "top");
    for (int i = 0; i < nw; i++) {
      w[i][0] = sym_u8("w", 'a', 'g'); w[i][1] = 0;
      if (sym_pick("wl", 2)) { w[i][1] = 'd'; w[i][2] = 0; }
      *q++ = ' '; q = puts_(q, w[i]);
      if (to != -2) {
        int dn = w_down(to, w[i]);
        if (dn == -2 && to == -1 && eqstr(w[i], "d")) dn = 7;   /* abbreviated */
        to = dn;
      }
    }
    *q = 0;
    if (op == 2) to = at < 0 ? -1 : W[at].up;
    if (op == 3) to = -1;
    cg_obj *co = NULL; cvec *cvv = NULL; cligen_result res; char *reason = NULL;
    nsaid = 0;
    sym_assert(cliread_parse(H, line, pt, &co, &cvv, &res, &reason) == 0, "parsed");
    sym_observe(res);
    sym_assert((res == CG_MATCH) == (to != -2), "the commands below the working point, and no other");
    if (res == CG_MATCH) {
      sym_assert(cligen_eval(H, co, cvv) == 0, "run");
      sym_assert(nsaid == (op == 0), "callback");
      co_free(co, 0); cvec_free(cvv);
      if (op) at = to;
    } else { if (co) co_free(co, 0); if (cvv) cvec_free(cvv); }
    free(reason);
  }
  h_out_end(&out); h_out_free(out);
  cli_end();
  sym_assert(sym_live_blocks() == 0, "everything released");
  sym_reach("end");
}
