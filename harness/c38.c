/* C38: an interactive session answers every line once, in order, until it ends. */
#include "cli.h"
#include "env.h"
#include <cligen_history.h>
#include <cligen_getline.h>
#include <cligen_io.h>
static char got[8192], *g, want[8192], *w, hist[8192], *hp, wh[8192], *wp;
static int quits, hfail, hn, left;
static char *puts_(char *p, const char *s) { int n = strlen(s); memcpy(p, s, n + 1); return p + n; }
static int show(const char *n, cvec *cvv, cvec *argv) {
  g = puts_(g, n);
  g = puts_(g, ":");
  for (int i = 1; i < cvec_len(cvv); i++) { char *s = cv2str_dup(cvec_i(cvv, i)); g = puts_(g, s); free(s); g = puts_(g, ","); }
  for (int i = 0; i < cvec_len(argv); i++) { g = puts_(g, "("); g = puts_(g, cv_string_get(cvec_i(argv, i))); }
  g = puts_(g, ";");
  return 0;
}
static int cb_h(cligen_handle h, cvec *c, cvec *a) { return show("h", c, a); }
static int cb_f(cligen_handle h, cvec *c, cvec *a) { show("f", c, a); return -1; }
static int cb_q(cligen_handle h, cvec *c, cvec *a) { cligen_exiting_set(h, 1); return show("q", c, a); }
static cgv_fnstype_t *s2f(char *n, void *arg, char **err) { return n[0] == 'f' ? cb_f : n[0] == 'q' ? cb_q : cb_h; }
static int hist_cb(cligen_handle h, char *cmd, void *arg) {
  sym_assert(arg == (void *)&hn, "its argument");
  hp = puts_(hp, cmd);
  hp = puts_(hp, "|");
  return hfail && --hn < 0 ? -1 : 0;
}
static unsigned char K[4096];
static int kn;
static void key(const char *s) { for (; *s; s++) K[kn++] = *s; }
static void heard(const char *s) { wp = puts_(wp, s); wp = puts_(wp, "|"); }
static int live;        /* the session goes on */
/* a line: what is typed, what it does, and what it says */
static int neg_(const char *c) { return c[0] == 45; }
static int digit(int c) { return c >= '0' && c <= '9'; }
static void line(int k) {
  char b[32], c[4];
  static const char *T[] = {"", "   ", "# no 1", "hello %%\n", "he\n", "fail", "quit\n", "zz", "num %%", "nil", " hell   a  # c", "hello", "fail\r", "n 1", "\"fail\"", "hello \"x y\" 2", "zz  zz"};
  const char *s = T[k];
  char *p = b;
  int q = 0;
  for (; *s && *s != '\n' && *s != '\r'; s++) if (*s == '%') { *p = c[q++] = sym_u8("c", k == 8 ? '-' : 'a', k == 8 ? '9' : 'z'); p++; } else *p++ = *s;
  *p = 0;
  if (k == 8) sym_assume(c[0] != '.' && c[1] != '.' && c[0] != '/' && c[1] != '/' && c[0] != '0');
  key(b);
  key(*s == '\r' ? "\r" : "\n");
  if (!live) return;
  char *o = w;
  switch (k) {
  case 0: case 1: case 2: return;
  case 3: heard(b); w = puts_(w, "h:hello,"); *w++ = c[0]; *w++ = c[1]; w = puts_(w, ",(A(B;"); break;
  case 4: heard(b); w = puts_(w, "Ambiguous command\n"); break;
  case 5: case 12: heard(b); w = puts_(w, "f:fail,(F;CLI callback error\n"); break;
  case 14: heard(b); w = puts_(w, "f:fail,(F;CLI callback error\n"); break;
  case 6: heard(b); w = puts_(w, "q:quit,;"); live = 0; break;
  case 16: case 7: case 11: case 13: case 15: if (k == 16) strcpy(b, "zz zz"); heard(b); w = puts_(w, "CLI syntax error in: \""); w = puts_(w, b); w = puts_(w, "\": ?\n"); break;
  case 8: {
    int ok = (neg_(c) || 10 * c[0] + c[1] <= 10 * 57 + 48) && (digit(c[0]) || c[0] == '-') && digit(c[1]), neg = c[0] == '-', v = neg ? c[1] - '0' : 10 * (c[0] - '0') + c[1] - '0';
    heard(b);
    if (ok) { w = puts_(w, "h:num,"); if (neg && v) *w++ = '-'; w += sprintf(w, "%d", v); w = puts_(w, ",;"); }
    else { w = puts_(w, "CLI syntax error in: \""); w = puts_(w, b); w = puts_(w, "\": ?\n"); }
    break; }
  case 9: heard(b); break;
  case 10: heard("hell a"); w = puts_(w, "h:hello,a,(A(B;"); break;
  }
}
static const char *SPEC = "hello <x:string length[1:3]>,h(\"A\",\"B\");help,p();fail,f(\"F\");quit,q();num <n:int8 range[-9:90]>,n();nil;";
/* compare, where ? stands for one line of text */
static void same(char *o, int n) {
  char *p = want;
  int i = 0;
  while (*p) {
    if (*p == '?') {
      int s = i;
      while (i < n && o[i] != '\n') i++;
      sym_assert(i > s, "a reason is given");
      p++;
    }
    else { sym_assert(i < n && o[i] == *p, "said as expected"); i++; p++; }
  }
  sym_assert(i == n, "nothing more is said");
}
static void start(void) {
  env_tty(0, 24, 80);
  cli(SPEC);
  parse_tree *pt = cligen_ph_parsetree_get(cligen_ph_i(H, 0));
  sym_assert(cligen_callbackv_str2fn(pt, s2f, NULL) == 0, "functions");
  g = got; *g = 0; w = want; *w = 0; hp = hist; *hp = 0; wp = wh; *wp = 0;
  kn = 0; live = 1; hn = 0;
  cligen_comment_set(H, '#');
  cligen_hist_fn_set(H, hist_cb, &hn);
}
/* callbacks write to got[]; with standard output it is interleaved by printing it */
static void loop_(int many) {
  int n = sym_arg("K", 2), L = sym_arg("lines", 17), from = sym_arg("from", 0);
  char *o;
  uint64_t b0 = sym_live_bytes();
  start();
  if (many) {      /* many lines, one of them any */
    int first = 4 * sym_pick("first", 4), step = 1 + 2 * sym_pick("step", 2), at = sym_arg("at", 1);
    for (int i = 0; i < many; i++) {
      int k = i == at * many / 2 - (at == 2) ? (int)sym_pick("line", 17) : (first + i * step) % 17;
      if (k == 3 || k == 8 || (k == 6 && i < many / 2)) k = 15;
      line(k);
    }
  }
  else for (int i = 0; i < n; i++) line(from + sym_pick("line", L - from));
  int part = sym_pick("partial", 2);
  if (part) key("hello x");             /* an unfinished line before end of file is not run */
  env_keys(K, kn);
  h_out_begin();
  g = got;
  int r = cligen_loop(H);
  int l = h_out_end(&o);
#ifdef DBG
  fprintf(stderr, "%d [%.*s]\n[%s]\n[%s]\nhist [%s]\n[%s]\n", r, l, o, got, want, hist, wh);
#endif
  sym_assert(r == 0, "ends without error");
  sym_assert(cligen_exiting(H) == 1, "ended");
  sym_assert((env_keys_left() == 0) || !live, "every line is read");
  /* callbacks and messages in order: got has the callbacks, o the messages */
  char *p = want;
  static char exp_out[8192], exp_cb[8192];
  char *eo = exp_out, *ec = exp_cb;
  while (*p) {
    if (p[1] == ':' && (*p == 'h' || *p == 'f' || *p == 'q')) { while (*p != ';') *ec++ = *p++; *ec++ = *p++; }
    else { while (*p != '\n') *eo++ = *p++; *eo++ = *p++; }
  }
  *eo = *ec = 0;
  sym_assert(eqstr(got, exp_cb), "each command runs once, in order, with its values and arguments");
  memcpy(want, exp_out, eo - exp_out + 1);
  same(o, l);
  sym_assert(eqstr(hist, wh), "each line is reported once as it was understood");
  h_out_free(o);
  cli_end();
  sym_assert(sym_live_bytes() == b0, "nothing is lost");
  sym_reach(live ? "end of file" : "quit");
}
void c38_loop(void) { loop_(0); }
void c38_many(void) { loop_(sym_arg("N", 120)); }
/* a failing history function, and no commands at all */
void c38_error(void) {
  char *o;
  start();
  hfail = 1;
  hn = sym_pick("after", 2);
  line(3);
  line(5);
  key("quit\n");
  int n = hn;
  env_keys(K, kn);
  h_out_begin();
  int r = cligen_loop(H);
  h_out_end(&o);
  h_out_free(o);
  sym_assert(r == -1, "the error ends the session");
  int c = 0;
  for (char *p = hist; *p; p++) c += *p == '|';
  sym_assert(c == n + 1, "after the line that failed");
  c = 0;
  for (char *p = got; *p; p++) c += *p == ';';
  sym_assert(c == n, "which is not run");
  cli_end();
  H = cligen_init();
  env_keys((const unsigned char *)"a\n", 2);
  FILE *e = stderr;
  h_out_begin();
  stderr = stdout;
  r = cligen_loop(H);
  stderr = e;
  h_out_end(&o);
  h_out_free(o);
  sym_assert(r == -1, "no commands is an error");
  env_keys(NULL, 0);
  sym_assert(cligen_loop(H) == 0 && cligen_exiting(H), "end of file is not");
  sym_assert(cligen_loop(H) == 0, "already ended");
  cligen_exit(H);
  sym_reach("end");
}
