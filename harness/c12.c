/* C12: trimming a line removes blanks, newline and comment and changes nothing else. */
#include "h.h"
#include <cligen/cligen_read.h>
#define blank(c) ((c) == ' ' || (c) == '\t')
/* reference: words (quoted text and escaped characters intact) joined by single spaces */
static int want(const char *s, int n, int comment, char *out) {
  int k = 0, i = 0, keep = 0;
  while (i < n) {
    int sep = 0;
    while (i < n && blank(s[i])) { i++; sep = 1; }
    if (i == n) { if (sep) out[k++] = ' '; break; }
    if (comment && s[i] == comment && (sep || i == 0)) break;
    if (sep) out[k++] = ' ';
    if (s[i] == '"') { /* up to the closing quote, or the end */
      out[k++] = s[i++];
      while (i < n) { out[k++] = s[i]; if (s[i++] == '"') break; }
    } else while (i < n && !blank(s[i])) {
      int e = s[i] == '\\';
      out[k++] = s[i++];
      if (e && i < n) { out[k++] = s[i]; if (blank(s[i])) keep = k; i++; }
    }
  }
  while (k > keep && (blank(out[k - 1]) || out[k - 1] == '\n')) k--;
  out[k] = 0;
  int st = 0;
  while (st < k && blank(out[st])) st++;
  memmove(out, out + st, k - st + 1);
  return k - st;
}
void c12_trim(void) {
  int n = sym_arg("L", 4), c = sym_arg("c", '#');
  char in[32], w[40], once[40], *s, *t;
  if (sym_arg("set", 0)) sym_strset(in, n, "s", " \"\\\t#a\n"); else sym_str(in, n, "s");
  s = malloc(n + 1);   /* exactly the size of the line */
  memcpy(s, in, n + 1);
  int k = want(in, n, c, w);
  t = s;
  cli_trim(&t, c);
  sym_assert(t >= s && t <= s + n, "result within the line");
  sym_assert(strlen(t) == (size_t)k && eqmem(t, w, k), "words joined by single spaces");
  memcpy(once, t, k + 1);
  cli_trim(&t, c);
  sym_assert(strlen(t) == (size_t)k && eqmem(t, once, k), "trimming again changes nothing");
  free(s);
  sym_observe(k);
  sym_reach("end");
}
/* the words of the trimmed line are those of the line (without comment) */
void c12_words(void) {
  int n = sym_arg("L", 4), a, b;
  char in[32], *s, *t;
  cvec *v = NULL, *w = NULL;
  sym_strset(in, n, "s", " \"\\\ta");
  if (n) sym_assume(in[n - 1] != ' ' && in[n - 1] != '\t');
  s = strdup(in);
  t = s;
  cli_trim(&t, '#');
  cligen_str2cvv(in, &v, NULL);
  cligen_str2cvv(t, &w, NULL);
  sym_assert(cvec_len(v) == cvec_len(w), "same number of words");
  for (int i = 1; i < cvec_len(v); i++) sym_assert(eqstr(cv_string_get(cvec_i(v, i)), cv_string_get(cvec_i(w, i))), "same words");
  cvec_free(v); cvec_free(w); free(s);
  sym_reach("end");
}

/* long lines */
void c12_long(void) {
  static char in[1200], w[1200], once[1200];
  static const int LN[] = {30, 63, 127, 255, 511, 1000};
  static const char *PAT[] = {"word ", "a  b\t", "\"q  t\" ", "x\\  y ", "ab", " "};
  int k0 = sym_arg("L", 2), base = LN[sym_pick("len", 6)], p = sym_pick("pattern", 6), at = sym_pick("at", 3), pl = strlen(PAT[p]), i, c = sym_pick("comment", 2) ? '#' : 0;
  at = at == 0 ? 0 : at == 1 ? base / 2 : base;
  for (i = 0; i < base; i++) in[i + (i >= at) * k0] = PAT[p][i % pl];
  char x[8];
  sym_strset(x, k0, "s", " \"\\#a\n");
  memcpy(in + at, x, k0);
  int n = base + k0;
  in[n] = 0;
  char *s = malloc(n + 1), *t = s;
  memcpy(s, in, n + 1);
  int k = want(in, n, c, w);
  cli_trim(&t, c);
  sym_assert(t >= s && t <= s + n, "result within the line");
  sym_assert(strlen(t) == (size_t)k && eqmem(t, w, k), "words joined by single spaces");
  memcpy(once, t, k + 1);
  cli_trim(&t, c);
  sym_assert(strlen(t) == (size_t)k && eqmem(t, once, k), "trimming again changes nothing");
  free(s);
  sym_reach("end");
}
