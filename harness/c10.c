/* C10: command lines split by the documented quoting and escaping rules. */
#include "h.h"
#include <cligen/cligen_match.h>
#define blank(c) ((c) == ' ' || (c) == '\t')
void c10_split(void) {
  int n = sym_arg("L", 4), w = 0, i = 0, lead;
  static char s[2000];
  int many = sym_arg("many", 0), b = 0;
  cvec *t = NULL, *r = NULL;
  uint64_t l0 = sym_live_bytes();
  for (int j = 0; j < many; j++) b += sprintf(s + b, j % 3 == 0 ? "word-%d-of-a-long-line " : j % 3 == 1 ? "\"quoted words %d\" " : "esc\\ aped%d\t ", j);
  if (sym_arg("set", 0)) sym_strset(s + b, n, "s", " \"\\\ta"); else sym_str(s + b, n, "s");
  if (many) { n += b; b = strlen(strcpy(s + n, " and \"more of\" it")); n += b; }
  sym_assert(cligen_str2cvv(s, &t, &r) == 0 && t && r, "split");
  sym_assert(eqstr(cv_string_get(cvec_i(t, 0)), s) && eqstr(cv_string_get(cvec_i(r, 0)), s), "the line itself first");
  /* reference splitting */
  for (;;) {
    int st, len, q = 0;
    for (lead = 0; i < n && blank(s[i]); i++) lead++;
    st = i;
    if (i == n) {
      if (w && !lead) break;
      len = 0;
    } else if (s[i] == '"') {
      int j = i + 1;
      while (j < n && s[j] != '"') j++;
      if (j < n) { q = 1; len = j - i - 1; i = j + 1; } else { len = n - i; i = n; }
    } else {
      int esc = 0;
      for (; i < n; i++) { if (esc) esc = 0; else if (s[i] == '\\') esc = 1; else if (blank(s[i])) break; }
      len = i - st;
    }
    w++;
    sym_assert(w < cvec_len(t) && w < cvec_len(r), "as many words");
    char *tok = cv_string_get(cvec_i(t, w)), *rest = cv_string_get(cvec_i(r, w));
    sym_assert(strlen(tok) == (size_t)len && eqmem(tok, s + st + q, len), "word text");
    sym_assert(strlen(rest) == (size_t)(n - st) && eqmem(rest, s + st, n - st), "rest of the line");
    if (st == n) break;
  }
  sym_assert(cvec_len(t) == w + 1 && cvec_len(r) == w + 1, "no more words");
  sym_assert(cligen_cvv_levels(t) == w - 1, "levels");
  sym_observe(w);
  cvec_free(t);
  cvec_free(r);
  sym_assert(sym_live_bytes() == l0, "all memory released");
  sym_reach("end");
}
/* what a typed string variable holds: escapes resolved, for the word of the line */
void c10_unescape(void) {
  int n = sym_arg("L", 4), k = 0, esc = 0;
  char s[32], want[32], *reason = NULL;
  sym_str(s, n, "s");
  cg_var *cv = cv_new(CGV_STRING);
  sym_assert(cv_parse1(s, cv, &reason) == 1, "any text is a string");
  for (int i = 0; i < n; i++) { if (!esc && s[i] == '\\') esc = 1; else { esc = 0; want[k++] = s[i]; } }
  want[k] = 0;
  sym_assert(eqstr(cv_string_get(cv), want), "escapes resolved");
  cv_free(cv);
  sym_reach("end");
}
