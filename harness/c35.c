/* C35: blanks, newlines and comments between the words of a specification do not change what it means. */
#include "dig.h"
/* ~ a place between two tokens, ^ the same inside < >, _ a blank that has to be there; longer texts are in tokens of their own */
static const char *TPL[] = {
  "~a~{~b_c~;~d~;~{~e~;~}~}~f~;~",
  "~a~(\"h\")~,~f~(~\"u\"~,~(~int8~)~\"2\"~)~,~g~(~)~;~b~,~hide~,~v~=~\"w x\"~;~",
  "~a_<^x^:^int8_range^[^-1^:^2^]^range^[^5^]^show^:^\"y z\"^>~(\"k\")~;~",
  "~(~a~|~b_c~)~[~d~|~e~]~(~f~)~;~",
  "~a_<^x^:^int8_choice:^1^|^-2^|^3^>~,~f~(~)~;~b~<^y^:^string_length^[^1^:^4^]^regexp^:^!^\"a*\"^regexp^:^\"b\"^>~;~",
  "~a~@{~b~;~c~,~hide~;~}~d~,~hide_@{~e~;~}~",
  "~treename~=~\"T\"~;~a~@~U~;~b~@~|~p~,~f~(~)~;~c~@~U~,~@remove:l~;~treename~=~\"U\"~;~x~,~l~;~",
  "~a_<^x^:^decimal64_fraction-digits^:^3_range^[^1.25^:^2.5^]^>~;~<^int32^>~;~",
  "~a_<^x^:^string_f^(^\"u\"^,^\"v\"^)^preference^:^7_translate^:^t^(^)^>~;~<^k^:^string_keyword^:^w^>~;~",
  "~a\\;b~,~m~(~(~string~)~\"\"~,~\"x\\\"y\"~)~,~o~;~{~b~,~h~(~)~;~}~",
};
static char D[2][4096];
static int parse_(const char *s, char *d, char *err) {
  FILE *e;
  char *t = strdup(s), *o, *p = d;
  H = cligen_init();
  GLOB = cvec_new(0);
  h_out_begin();
  e = stderr;
  stderr = stdout;
  int r = clispec_parse_str(H, t, "spec", NULL, NULL, GLOB);
  stderr = e;
  int n = h_out_end(&o);
  memcpy(err, o, n < 40 ? n : 40);
  err[n < 40 ? n : 40] = 0;
  h_out_free(o);
  free(t);
  pt_head *ph;
  *p = 0;
  for (int i = 0; r == 0 && (ph = cligen_ph_i(H, i)) != NULL; i++) {
    p = ps(p, cligen_ph_name_get(ph));
    p = dig(p, cligen_ph_parsetree_get(ph));
  }
  p = pcvv(p, GLOB);
  *p = 0;
  cli_end();
  return r == 0;
}
/* one thing that separates tokens */
static char *filler(char *q, int kind, int n, int *nl, const char *name) {
  switch (kind) {
  case 0: *q++ = ' '; break;
  case 1: *q++ = '\t'; break;
  case 2: *q++ = '\n'; break;
  case 3: *q++ = '\r'; *q++ = '\n'; break;
  default: {
    char c[8];
    sym_str(c, n, name);
    for (int i = 0; i < n; i++) sym_assume(c[i] != '\n');
    *q++ = ' '; *q++ = '#';
    memcpy(q, c, n);
    q += n;
    if (kind == 5) return q;    /* ends with the text */
    *q++ = '\n'; }
  }
  *nl += kind >= 2;
  return q;
}
/* one place, or one and all others in another way */
void c35_gap(void) {
  int t = sym_arg("tpl", 0), n = sym_arg("n", 2), two = sym_arg("two", 0), all = sym_arg("all", 0), bad = sym_arg("bad", 0), i, gaps = 0, nl = 0, last = 0;
  const char *s = TPL[t];
  char b[4096], c[4096], *q = b, *p = c, err[2][48], want[48];
  for (i = 0; s[i]; i++) gaps += s[i] == '~' || s[i] == '^' || s[i] == '_';
  int at = sym_pick("at", gaps), at2 = two ? at + 1 : -1, g = 0;
  if (two && at + 1 >= gaps) { sym_done(); return; }
  /* within variables there are no comments; only the last place may end the text */
  for (i = 0; s[i]; i++) {
    char k = s[i];
    if (k != '~' && k != '^' && k != '_') { *q++ = *p++ = k; continue; }
    if (k == '_') *p++ = ' ';
    int end = s[i + 1] == 0;
    if (end && bad) { *q++ = '\n'; nl++; }
    if (g == at || g == at2) {
      int in = k == '^' || (k == '_' && strchr(s + i, '>') && (!strchr(s + i, '<') || strchr(s + i, '>') < strchr(s + i, '<')));
      int kind = sym_pick(g == at ? "kind" : "kind2", in ? 4 : end && !bad ? 6 : 5);
      q = filler(q, kind, n, &nl, g == at ? "text" : "text2");
      if (kind == 4 || kind == 5) sym_reach("comment");
      last = kind;
    }
    else if (all) { q = filler(q, 1 + all, 0, &nl, "none"); }
    else if (k == '_') *q++ = ' ';
    g++;
    if (end) break;
  }
  *q = *p = 0;
  if (bad) { strcpy(q, " } "); }
  int ok = parse_(c, D[0], err[0]);
  sym_assert(ok && !odd, "the shortest form is accepted");
  int ok2 = parse_(b, D[1], err[1]);
#ifdef DBG
  fprintf(stderr, "[%s] %d %s\n[%s] %d %s\n", c, ok, D[0], b, ok2, D[1]);
#endif
  if (bad) {
    sprintf(want, "spec:%d: Error:", nl + 1);
    sym_assert(!ok2, "an error is an error");
    sym_assert(eqmem(err[1], want, strlen(want)), "the line of the error");
    return;
  }
  (void)last;
  sym_assert(ok2, "accepted");
  int m = strlen(D[0]);
  sym_assert(strlen(D[1]) == m && eqmem(D[0], D[1], m), "the same trees and assignments");
  sym_observe(nl);
}
