/* C32: handle settings and registrations are independent and read back as set. */
#include "h.h"
#include "env.h"
#include <cligen_getline.h>
#include <cligen_history.h>
void *cligen_userdata(cligen_handle h);      /* not declared in the header */
int cligen_userdata_set(cligen_handle h, void *userdata);
static cligen_handle HH[2];
/* ---- numbers: per handle, then of the program ---- */
#define NPH 10
#define NGL 9
static int nget(cligen_handle h, int k) {
  switch (k) {
  case 0: return cligen_exiting(h);
  case 1: return cligen_comment(h);
  case 2: return cligen_delimiter(h);
  case 3: return cligen_tabmode(h);
  case 4: return cligen_logsyntax(h);
  case 5: return cligen_regex_xsd(h);
  case 6: return cligen_preference_mode(h);
  case 7: return cligen_caseignore_get(h);
  case 8: return cligen_expand_first_get(h);
  case 9: return cligen_exclude_keys_get(h);
  case 10: return cligen_paging_get(h);
  case 11: return cligen_utf8_get(h);
  case 12: return cligen_line_scrolling(h);
  case 13: return cligen_helpstring_truncate(h);
  case 14: return cligen_helpstring_lines(h);
  case 15: return cligen_lexicalorder(h);
  case 16: return cligen_ignorecase(h);
  case 17: return cligen_terminal_width(h);
  default: return cligen_terminal_rows(h);
  }
}
static int nset(cligen_handle h, int k, int v) {
  switch (k) {
  case 0: return cligen_exiting_set(h, v);
  case 1: return cligen_comment_set(h, v);
  case 2: return cligen_delimiter_set(h, v);
  case 3: return cligen_tabmode_set(h, v);
  case 4: return cligen_logsyntax_set(h, v);
  case 5: return cligen_regex_xsd_set(h, v);
  case 6: return cligen_preference_mode_set(h, v);
  case 7: return cligen_caseignore_set(h, v);
  case 8: return cligen_expand_first_set(h, v);
  case 9: return cligen_exclude_keys_set(h, v);
  case 10: return cligen_paging_set(h, v);
  case 11: return cligen_utf8_set(h, v);
  case 12: return cligen_line_scrolling_set(h, v);
  case 13: return cligen_helpstring_truncate_set(h, v);
  case 14: return cligen_helpstring_lines_set(h, v);
  case 15: return cligen_lexicalorder_set(h, v);
  case 16: return cligen_ignorecase_set(h, v);
  case 17: return cligen_terminal_width_set(h, v);
  default: return cligen_terminal_rows_set(h, v);
  }
}
/* ---- pointers ---- */
#define NP 10
static void *pget(cligen_handle h, int k) {
  cligen_hist_fn *hf; cligen_eval_wrap_fn *ef; cligen_tree_resolve_wrapper_fn *tf; void *a;
  switch (k) {
  case 0: return cligen_co_match(h);
  case 1: return cligen_callback_arguments_get(h);
  case 2: return cligen_userhandle(h);
  case 3: return cligen_userdata(h);
  case 4: cligen_hist_fn_get(h, &hf, NULL); return (void *)hf;
  case 5: cligen_hist_fn_get(h, NULL, &a); return a;
  case 6: cligen_eval_wrap_fn_get(h, &ef, NULL); return (void *)ef;
  case 7: cligen_eval_wrap_fn_get(h, NULL, &a); return a;
  case 8: cligen_tree_resolve_wrapper_get(h, &tf, NULL); return (void *)tf;
  default: cligen_tree_resolve_wrapper_get(h, NULL, &a); return a;
  }
}
static int histfn(cligen_handle h, char *c, void *a) { return 0; }
static int wrapfn(void *a, void **s, const char *n, const char *f) { return 0; }
static int resfn(cligen_handle h, char *n, cvec *t, void *a, char **r) { return 0; }
/* ---- strings ---- */
#define NS 3
static char *sget(cligen_handle h, int k) { return k == 0 ? cligen_prompt(h) : k == 1 ? cligen_treename_keyword(h) : cligen_fn_str_get(h); }
static int sset(cligen_handle h, int k, char *s) { return k == 0 ? cligen_prompt_set(h, s) : k == 1 ? cligen_treename_keyword_set(h, s) : cligen_fn_str_set(h, s); }
static int N[2][NPH], G[NGL];
static void *P[2][NP];
static char S[2][NS][16]; static int SH[2][NS];
static int tty, wrows;
static void check(void) {
  for (int i = 0; i < 2; i++) {
    cligen_handle h = HH[i];
    sym_assert(cligen_check(h) == 0, "a handle");
    for (int k = 0; k < NPH; k++) sym_assert(nget(h, k) == N[i][k], "number");
    for (int k = 0; k < NGL; k++) sym_assert(nget(h, NPH + k) == G[k], "number of the program");
    for (int k = 0; k < NP; k++) sym_assert(pget(h, k) == P[i][k], "pointer");
    for (int k = 0; k < NS; k++) {
      char *s = sget(h, k);
      sym_assert(SH[i][k] ? s != NULL && strlen(s) == strlen(S[i][k]) && eqmem(s, S[i][k], strlen(S[i][k])) : s == NULL, "string");
    }
  }
}
static int widthof(int w) { return w == 0 ? 80 : w < 21 ? 21 : w; }
void c32_set(void) {
  int K = sym_arg("K", 2), L = sym_arg("L", 2);
  tty = sym_pick("tty", 2);
  wrows = tty && sym_pick("rows", 2) ? 24 : 0;
  env_tty(tty, wrows, wrows ? 100 : 0);
  for (int i = 0; i < 2; i++) {
    HH[i] = cligen_init();
    N[i][2] = ' ';
    strcpy(S[i][0], CLIGEN_PROMPT_DEFAULT); SH[i][0] = 1;
    strcpy(S[i][1], "treename"); SH[i][1] = 1;
  }
  G[0] = 1; G[2] = 1; G[7] = wrows ? 100 : 80; G[8] = wrows;
  check();
  for (int k = 0; k < K; k++) {
    int i = sym_pick("handle", 2), j = sym_pick("what", NPH + NGL + NP + NS), v;
    cligen_handle h = HH[i];
    if (j < NPH + NGL) {
      sym_bytes(&v, 4, "v");
      if (j == 1 || j == 2) sym_assume(v >= -128 && v <= 127);
      if (j == 17) sym_assume(v != 0xffff);
      int r = nset(h, j, v);
      if (j == 12) sym_assert(r == G[2], "the earlier mode is returned");
      else sym_assert(r == 0, "set");
      if (j == 17) v = widthof(v);
      if (j == 18) v = !tty || v == 0 ? 0 : wrows ? G[8] : v;   /* a known window size is not overridden */
      if (j < NPH) N[i][j] = v; else G[j - NPH] = v;
    } else if (j < NPH + NGL + NP) {
      void *p = NULL, *f;
      int q = j - NPH - NGL, on = sym_pick("on", 2);
      sym_bytes(&p, 8, "p");
      switch (q) {
      case 0: cligen_co_match_set(h, p); break;
      case 1: cligen_callback_arguments_set(h, p); break;
      case 2: cligen_userhandle_set(h, p); break;
      case 3: cligen_userdata_set(h, p); break;
      case 4: case 5: f = on ? (void *)histfn : NULL; cligen_hist_fn_set(h, f, p); q = 5; P[i][4] = f; break;
      case 6: case 7: f = on ? (void *)wrapfn : NULL; cligen_eval_wrap_fn_set(h, f, p); q = 7; P[i][6] = f; break;
      default: f = on ? (void *)resfn : NULL; cligen_tree_resolve_wrapper_set(h, f, p); q = 9; P[i][8] = f; break;
      }
      P[i][q] = p;
    } else {
      int q = j - NPH - NGL - NP, clear = sym_pick("clear", 2);
      char b[8];
      if (!clear) sym_str(b, sym_pick("len", L + 1), "s");
      sym_assert(sset(h, q, clear ? NULL : b) == 0, "set");
      SH[i][q] = !clear;
      if (!clear) strcpy(S[i][q], b);
      else if (q == 1) { strcpy(S[i][q], "treename"); SH[i][q] = 1; }
      memset(b, '!', sizeof b);
    }
    check();
  }
  for (int i = 0; i < 2; i++) cligen_exit(HH[i]);
  sym_assert(sym_live_blocks() == 0, "everything released");
  sym_reach("end");
}
/* the size of the terminal */
void c32_winsize(void) {
  int rows = 0, cols = 0, t = sym_pick("tty", 2);
  sym_bytes(&rows, 2, "rows"); sym_bytes(&cols, 2, "cols");
  sym_assume(cols != 0xffff);
  env_tty(t, rows, cols);
  HH[0] = cligen_init();
  sym_assert(cligen_terminal_rows(HH[0]) == (t ? rows : 0), "rows");
  sym_assert(cligen_terminal_width(HH[0]) == (t ? widthof(cols) : 80), "width");
  cligen_exit(HH[0]);
  sym_reach("end");
}
/* ---- the lines of two handles ---- */
static unsigned char keys[1024];
static int nk;
static char KL[2][400];            /* killed text */
void c32_lines(void) {
  int K = sym_arg("K", 3), n;
  static const int LEN[] = {1, 62, 63, 64, 65, 130};
  char *out, *b, want[400];
  for (int i = 0; i < 2; i++) HH[i] = cligen_init();
  h_out_begin();
  for (int k = 0; k < K; k++) {
    int i = sym_pick("handle", 2), op = sym_pick("op", 3);
    cligen_handle h = HH[i];
    nk = 0;
    want[0] = 0;
    if (op == 2) {                     /* yank what this handle killed */
      keys[nk++] = '\031'; keys[nk++] = '\n';
      strcpy(want, KL[i]);
    } else {
      n = LEN[sym_pick("len", sym_arg("lens", 6))];
      char c = sym_u8("c", 'a', 'z');
      for (int j = 0; j < n; j++) want[j] = j == n - 1 ? c : 'A' + j % 26;
      want[n] = 0;
      memcpy(keys, want, n); nk = n;
      if (op == 1) { keys[nk++] = '\001'; keys[nk++] = '\013'; strcpy(KL[i], want); want[0] = 0; }
      keys[nk++] = '\n';
    }
    env_keys(keys, nk);
    sym_assert(gl_getline(h, &b) == 0 && b == cligen_buf(h), "read");
    n = strlen(want);
    sym_assert(strlen(b) == n + 1u && eqmem(b, want, n) && b[n] == '\n', "the line");
    for (int j = 0; j < 2; j++) {
      sym_assert(strlen(cligen_buf(HH[j])) < (size_t)cligen_buf_size(HH[j]), "fits its buffer");
      sym_assert(strlen(cligen_killbuf(HH[j])) < (size_t)cligen_killbuf_size(HH[j]), "fits its buffer");
      sym_assert(strlen(cligen_killbuf(HH[j])) == strlen(KL[j]) && eqmem(cligen_killbuf(HH[j]), KL[j], strlen(KL[j])), "killed text");
      cligen_buf(HH[j])[cligen_buf_size(HH[j]) - 1] = 0;
      cligen_killbuf(HH[j])[cligen_killbuf_size(HH[j]) - 1] = 0;
    }
  }
  h_out_end(&out); h_out_free(out);
  for (int i = 0; i < 2; i++) cligen_exit(HH[i]);
  sym_reach("end");
}
/* ---- a prompt cleared or changed while lines are read ---- */
void c32_prompt(void) {
  char *out, *b;
  cligen_handle h = HH[0] = cligen_init();
  int n = sym_pick("len", 3), form = sym_pick("prompt", 3);
  char p[4];
  sym_strset(p, 2, "p", "p> ");
  sym_assert(cligen_prompt_set(h, form == 0 ? NULL : form == 1 ? "" : p) == 0, "set");
  for (int i = 0; i < n; i++) keys[nk++] = sym_u8("k", 'a', 'z');
  keys[nk++] = '\001'; keys[nk++] = '\n';
  env_keys(keys, nk);
  h_out_begin();
  sym_assert(gl_getline(h, &b) == 0, "read");
  sym_assert(strlen(b) == n + 1u && eqmem(b, keys, n), "the line");
  h_out_end(&out); h_out_free(out);
  cligen_exit(h);
  sym_assert(sym_live_blocks() == 0, "everything released");
  sym_reach("end");
}
/* ---- descriptors ---- */
static long called[8]; static int ncalled[8], cfail, cself;
static int fdcb(int fd, void *arg) {
  sym_assert(fd >= 0 && fd < 8, "a registered descriptor");
  ncalled[fd]++; called[fd] = (long)arg;
  if (cself) sym_assert(cligen_unregfd(fd) == 0, "unregister myself");
  return cfail ? -1 : 0;
}
static int fdcb2(int fd, void *arg) { int r = fdcb(fd, arg); called[fd] = -called[fd]; return r; }
void c32_fds(void) {
  int K = sym_arg("K", 4), D = sym_arg("D", 3);
  long reg[8] = {0};
  char *out, *b;
  cligen_handle h = cligen_init();
  for (int k = 0; k < K; k++) {
    int fd = 3 + sym_pick("fd", D), op = sym_pick("op", 2);
    if (op == 0) {
      int other = sym_pick("cb", 2);
      long a = sym_u8("arg", 1, 255);
      sym_assert(cligen_regfd(fd, other ? fdcb2 : fdcb, (void *)a) == 0, "registered");
      reg[fd] = other ? -a : a;
    } else {
      sym_assert(cligen_unregfd(fd) == (reg[fd] ? 0 : -1), "unregistered if it was registered");
      reg[fd] = 0;
    }
  }
  int mode = sym_pick("mode", 3), one = 3 + sym_pick("one", D);
  cself = mode == 1; cfail = mode == 2;
  int rd[8] = {0}; 
  for (int fd = 3; fd < 3 + D; fd++) if (mode == 0 || fd == one) { rd[fd] = 1; env_ready(fd); }
  if (mode == 0) env_ready(0);
  keys[0] = 'a'; keys[1] = '\n';
  env_keys(keys, 2);
  h_out_begin();
  int r = gl_getline(h, &b);
  h_out_end(&out); h_out_free(out);
  sym_assert(r == 0 && eqstr(b, "a\n"), "the line, whatever the callbacks return");
  for (int fd = 3; fd < 3 + D; fd++) {
    int n = rd[fd] && reg[fd];
    sym_assert(ncalled[fd] == n, "each registered descriptor that is ready, once");
    if (n) sym_assert(called[fd] == reg[fd], "with the callback and argument registered last");
  }
  if (cself) {
    if (reg[one]) reg[one] = 0;
    cself = 0;
    memset(ncalled, 0, sizeof ncalled);
    for (int fd = 3; fd < 3 + D; fd++) env_ready(fd);
    env_keys(keys, 2);
    h_out_begin();
    sym_assert(gl_getline(h, &b) == 0 && eqstr(b, "a\n"), "the line");
    h_out_end(&out); h_out_free(out);
    for (int fd = 3; fd < 3 + D; fd++) sym_assert(ncalled[fd] == (reg[fd] != 0), "the others are still registered");
  }
  for (int fd = 3; fd < 3 + D; fd++) if (reg[fd]) sym_assert(cligen_unregfd(fd) == 0, "all unregistered");
  cligen_exit(h);
  sym_assert(sym_live_blocks() == 0, "everything released");
  sym_reach("end");
}
/* ---- exit characters ---- */
void c32_exitchar(void) {
  static const char CH[] = {1, 2, 5, 6, 7, 17, 24, 28, 29, 30, 31, (char)0x80, (char)0xff};
  int n = sym_arg("n", 3), is = 0;
  char set[16], *out, *b;
  cligen_handle h = cligen_init();
  for (int i = 0; i < n; i++) {
    set[i] = n > 3 ? CH[i] : CH[sym_pick("set", sizeof CH)];
    cligen_exitchar_add(h, set[i]);
  }
  int have = n > 8 ? 8 : n;            /* room for 8 */
  char x = CH[sym_pick("x", sizeof CH)], c = sym_u8("c", 'a', 'z');
  for (int i = 0; i < have; i++) if (set[i] == x) is = 1;
  if (!is) sym_assume(x > 0);          /* other bytes would be part of the line */
  keys[0] = c; keys[1] = x; keys[2] = '\n';
  env_keys(keys, 3);
  h_out_begin();
  sym_assert(gl_getline(h, &b) == 0, "read");
  h_out_end(&out); h_out_free(out);
  sym_assert((gl_eof() != 0) == is, "ends the session exactly if it is an exit character");
  if (is) sym_assert(b[0] == 0, "no line");
  else sym_assert(b[0] == c && b[1] == '\n' && b[2] == 0, "the line");
  cligen_exit(h);
  sym_reach("end");
}
