/* C30: regular expressions constrain the whole value. Subjects are arbitrary; each pattern's language is written out by hand. */
#include "cli.h"
static int az(char c) { return (unsigned char)(c - 'a') < 26; }
static int d9(char c) { return (unsigned char)(c - '0') < 10; }
/* languages, over s of length n, without branching on the bytes */
static int l_ident(const char *s, int n) { int r = n >= 1; if (n) r &= az(s[0]); for (int i = 1; i < n; i++) r &= d9(s[i]); return r; }   /* [a-z][0-9]* */
static int is(const char *s, int n, const char *w) { return n == (int)strlen(w) && eqmem(s, w, n); }
static int l_aorb(const char *s, int n) { return is(s, n, "a") | is(s, n, "b"); }
static int l_foobar(const char *s, int n) { return is(s, n, "foo") | is(s, n, "ba"); }
static int l_dig2(const char *s, int n) { int r = n == 2 || n == 3; for (int i = 0; i < n; i++) r &= d9(s[i]); return r; }
static int l_abs(const char *s, int n) { int r = n % 2 == 0; for (int i = 0; i + 1 < n; i += 2) r &= (s[i] == 'a') & (s[i + 1] == 'b'); return r; } /* (ab)* */
static int l_any(const char *s, int n) { return n >= 1; }  /* .+ */
static int l_all(const char *s, int n) { return 1; }       /* .* */
static int l_aorfoo(const char *s, int n) { return is(s, n, "a") | is(s, n, "bc") | is(s, n, "d"); }
static int l_none(const char *s, int n) { return 0; }
static int l_ax(const char *s, int n) { int r = n >= 1; if (n) r &= s[0] == 'a'; return r; } /* a.* */
static int l_dol(const char *s, int n) { return is(s, n, "a$"); }
static int l_dot(const char *s, int n) { return is(s, n, "a.b"); }
static int l_neg(const char *s, int n) { int r = n == 1; if (n == 1) r &= s[0] != 'a' & s[0] != 'b' & s[0] != 'c'; return r; }
static int l_empty(const char *s, int n) { return n == 0; }
static const struct { const char *p; int (*l)(const char *, int); } P[] = {
  {"[a-z][0-9]*", l_ident}, {"^([a-z][0-9]*)$", l_ident}, {"^[a-z][0-9]*", l_ident}, {"^([a-z][0-9]*", l_ident}, {"[a-z][0-9]*$", l_ident}, {"[a-z][0-9]*)$", l_ident},
  {"^[a-z][0-9]*$", l_ident}, {"^([a-z][0-9]*)", l_ident}, {"([a-z][0-9]*)$", l_ident}, {"([a-z])([0-9])*", l_ident},
  {"a|b", l_aorb}, {"^a|b", l_aorb}, {"a|b$", l_aorb}, {"^a|b$", l_aorb}, {"^(a|b)$", l_aorb}, {"^(a|b", l_aorb}, {"a|b)$", l_aorb}, {"^(a)|b", l_aorb}, {"a|(b)$", l_aorb}, {"^(a)|(b)$", l_aorb}, {"[ab]", l_aorb}, {"^a|^b", l_aorb},
  {"foo|ba", l_foobar}, {"^foo|ba$", l_foobar}, {"(foo|ba)", l_foobar}, {"[0-9]{2,3}", l_dig2}, {"^[0-9][0-9][0-9]?$", l_dig2}, {"(ab)*", l_abs}, {"^(ab)*$", l_abs}, {".+", l_any}, {".*", l_all}, {"", l_empty},
  {"a|bc|d", l_aorfoo}, {"^a|bc|d$", l_aorfoo}, {"(a|bc)|d", l_aorfoo}, {"(", l_none}, {"[a", l_none}, {"*a", l_none}, {"a{2", l_none}, {"a.*", l_ax}, {"^a.*$", l_ax}, {"a\\.b", l_dot}, {"[^abc]", l_neg}, {"a\\$", l_dol}};
#define NP ((int)(sizeof P / sizeof P[0]))
/* match_regexp on every subject */
void c30_match(void) {
  int lo = sym_arg("lo", 0), hi = sym_arg("hi", NP - 1), L = sym_arg("L", 4);
  int i = lo + sym_pick("pat", (hi < NP ? hi : NP - 1) - lo + 1), inv = sym_pick("inv", 2), n = sym_pick("n", L + 1);
  char s[16], pat[64];
  strcpy(pat, P[i].p);
  sym_str(s, n, "s");
  H = cligen_init();
  uint64_t live0 = sym_live_bytes();
  int want = P[i].l(s, n), r = match_regexp(H, s, pat, inv);
  if (P[i].l == l_none) sym_assert(r == 0, "an invalid pattern never matches");
  else sym_assert(r == (want ^ inv), "matches exactly the language of the pattern");
  sym_assert(match_regexp(H, NULL, pat, 0) == -1, "no subject");
  sym_assert(match_regexp(H, s, NULL, 0) == -1, "no pattern");
  void *re = NULL;
  int c = cligen_regex_compile(H, pat, &re);
  sym_assert(c == (P[i].l != l_none), "an invalid pattern is reported, a valid one compiles");
  if (re) { sym_assert(cligen_regex_exec(H, re, s) == want, "compiled pattern"); cligen_regex_free(H, re); }
  sym_assert(sym_live_bytes() == live0, "nothing leaked");
  sym_observe(r);
  cligen_exit(H);
  sym_reach("end");
}
/* several patterns, direct and inverted, must all hold; lengths too */
void c30_several(void) {
  static const int sel[] = {0, 10, 22, 29, 40, 42};
  int L = sym_arg("L", 3), n = sym_pick("n", L + 1);
  char s[16], *reason = NULL;
  cg_varspec cs;
  sym_str(s, n, "s");
  H = cligen_init();
  uint64_t live0 = sym_live_bytes();
  memset(&cs, 0, sizeof cs);
  cs.cgs_vtype = CGV_STRING;
  cs.cgs_regex = cvec_new(0);
  int k = 1 + sym_pick("k", 2), want = 1;
  for (int j = 0; j < k; j++) {
    int i = sel[sym_pick("pat", 6)], inv = sym_pick("inv", 2);
    cg_var *c = cvec_add(cs.cgs_regex, CGV_STRING);
    cv_string_set(c, (char *)P[i].p);
    if (inv) cv_flag_set(c, V_INVERT);
    want &= P[i].l(s, n) ^ inv;
  }
  if (sym_pick("len", 2)) {
    cs.cgs_rangecvv_low = cvec_new(0); cs.cgs_rangecvv_upp = cvec_new(0);
    cv_uint64_set(cvec_add(cs.cgs_rangecvv_low, CGV_UINT64), 1);
    cv_uint64_set(cvec_add(cs.cgs_rangecvv_upp, CGV_UINT64), 2);
    cs.cgs_rangelen = 1;
    want &= n >= 1 && n <= 2;
  }
  cg_var *cv = cv_new(CGV_STRING);
  cv_string_set(cv, s);
  int r = cv_validate(H, cv, &cs, "cmd", &reason);
  sym_assert(r == want, "all patterns hold and no inverted one");
  sym_assert((r == 0) == (reason != NULL), "reason exactly on refusal");
  free(reason);
  cv_free(cv);
  cvec_free(cs.cgs_regex);
  cvec_free(cs.cgs_rangecvv_low); cvec_free(cs.cgs_rangecvv_upp);
  sym_assert(sym_live_bytes() == live0, "nothing leaked");
  cligen_exit(H);
  sym_reach("end");
}
/* patterns written in a specification */
void c30_spec(void) {
  static const struct { const char *t; int i, inv; } S[] = {
    {"x <v:string regexp:\"[a-z][0-9]*\">;", 0, 0}, {"x <v:string regexp:!\"[a-z][0-9]*\">;", 0, 1}, {"x <v:string regexp:\"^a|b$\">;", 10, 0}, {"x <v:rest regexp:\"foo|ba\">;", 22, 0}, {"x <v:string regexp:\"(\">;", 35, 0}};
  int k = sym_pick("spec", 5), n = sym_pick("n", sym_arg("L", 4) + 1);
  char s[16];
  sym_str(s, n, "s");
  cg_obj *co = kidof(kid(cli(S[k].t), 0), 0);
  cg_var *cv = cv_new(co->co_vtype);
  cv_string_set(cv, s);
  int r = cv_validate(H, cv, co2varspec(co), "cmd", NULL);
  sym_assert(r == (P[S[k].i].l(s, n) ^ S[k].inv), "declared pattern is the one checked");
  cv_free(cv);
  cli_end();
  sym_reach("end");
}

/* long subjects: one character anywhere decides */
void c30_long(void) {
  static const int sel[] = {0, 1, 27, 29, 39, 10, 12, 22, 42}, LN[] = {62, 126, 254, 1000};
  static char s[1100], pat[64];
  int i = sel[sym_pick("pat", 9)], n = LN[sym_pick("len", 4)] + sym_pick("more", 3), at = sym_pick("at", 3), inv = sym_pick("inv", 2), k;
  strcpy(pat, P[i].p);
  for (k = 0; k < n; k++) s[k] = P[i].l == l_abs ? 'a' + k % 2 : k == 0 ? 'a' : '0' + k % 10;
  s[n] = 0;
  s[at == 0 ? 0 : at == 1 ? n / 2 : n - 1] = sym_u8("c", 1, 255);
  H = cligen_init();
  uint64_t live0 = sym_live_bytes();
  int want = P[i].l(s, n), r = match_regexp(H, s, pat, inv);
  sym_assert(r == (want ^ inv), "matches exactly the language of the pattern");
  void *re = NULL;
  sym_assert(cligen_regex_compile(H, pat, &re) == 1 && re && cligen_regex_exec(H, re, s) == want, "compiled pattern");
  cligen_regex_free(H, re);
  sym_assert(sym_live_bytes() == live0, "nothing leaked");
  cligen_exit(H);
  sym_reach("end");
}
/* long patterns: a choice of many words and the word with one character changed */
void c30_longpat(void) {
  static char s[64], pat[4096];
  static const int NN[] = {2, 5, 9};
  int n = NN[sym_pick("n", 3)], k, j, w, inv = sym_pick("inv", 2), grp = sym_pick("anchors", 4), l = 3 + 10 * sym_pick("length", 3), want = 0;
  char *q = pat;
  if (grp & 1) *q++ = '^';
  if (grp & 2) *q++ = '(';
  for (k = 0; k < n; k++) {
    if (k) *q++ = '|';
    for (j = 0; j < l - 2; j++) *q++ = 'a' + j % 26;
    *q++ = '0' + k / 10; *q++ = '0' + k % 10;
  }
  if (grp & 2) *q++ = ')';
  if (grp & 1) *q++ = '$';
  *q = 0;
  w = sym_pick("word", 3) * (n - 1) / 2;
  for (j = 0; j < l - 2; j++) s[j] = 'a' + j % 26;
  s[l - 2] = '0' + w / 10;
  s[l - 1] = sym_u8("c", 1, 255);
  s[l] = sym_u8("more", 0, 255);
  for (k = 0; k < n; k++) want |= (s[l - 2] == '0' + k / 10) & (s[l - 1] == '0' + k % 10);
  want &= s[l] == 0;
  H = cligen_init();
  int r = match_regexp(H, s, pat, inv);
  sym_assert(r == (want ^ inv), "matches exactly the language of the pattern");
  cligen_exit(H);
  sym_reach("end");
}
