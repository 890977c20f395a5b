/* C25: history is a bounded ring of the most recent distinct lines. */
#include "h.h"
#include "env.h"
#include <cligen_history.h>
#include <cligen_history_internal.h>
#include <cligen_getline.h>
#define ML 8
static cligen_handle H;
/* the ideal history */
static struct { char s[64][ML]; int n, max, pos; } M;
static void m_add(const char *l) {
  int blank = 1;
  for (const char *p = l; *p; p++) if (*p != ' ' && *p != '\t' && *p != '\n') blank = 0;
  if (!blank && !(M.n && eqstr(M.s[M.n - 1], l))) {
    if (M.n == M.max) { memmove(M.s[0], M.s[1], (M.n - 1) * ML); M.n--; }
    strcpy(M.s[M.n++], l);
  }
  M.pos = M.n;
}
static const char *m_prev(void) { if (M.n == 0) return ""; if (M.pos >= 0) M.pos--; return M.pos < 0 ? "" : M.s[M.pos]; }
static const char *m_next(void) { if (M.pos < M.n) M.pos++; return M.pos == M.n ? "" : M.s[M.pos]; }
static void m_init(int max) { M.n = M.pos = 0; M.max = max; }
static int nline;
static void line(char *l, int L, int set) {
  static const char *ab = "ab \n\t";
  int n = sym_pick("len", L + 1);
  for (int i = 0; i < n; i++) {
    l[i] = set == 0 ? sym_u8("l", 1, 255) : 0;
    if (set == 1) { l[i] = sym_u8("l", 'a', 'c'); }
    if (set == 2) { l[i] = ab[sym_pick("l", 5)]; }
  }
  l[n] = 0;
  nline++;
}
static void walk(void) {
  /* from wherever we are: back past the oldest line, forward past the newest */
  for (int i = 0; i < M.max + 3; i++) sym_assert(eqstr(hist_prev(H), m_prev()), "walk back");
  for (int i = 0; i < M.max + 3; i++) sym_assert(eqstr(hist_next(H), m_next()), "walk forward");
  for (int i = 0; i < 2; i++) sym_assert(eqstr(hist_prev(H), m_prev()), "back again");
}
/* every sequence of operations */
void c25_ops(void) {
  int K = sym_arg("K", 4), L = sym_arg("L", 1), set = sym_arg("set", 0), N = sym_arg("N", 3), ops = sym_arg("ops", 4);
  char l[ML], *out;
  H = cligen_init();
  uint64_t b0 = sym_live_bytes();
  int n = sym_pick("size", N) + 1;
  sym_assert(cligen_hist_init(H, n) == 0, "init");
  m_init(n);
  h_out_begin();
  for (int k = 0; k < K; k++) {
    switch (sym_pick("op", ops)) {
    case 0: line(l, L, set); sym_assert(hist_add(H, l) == 0, "add"); m_add(l); break;
    case 1: sym_assert(eqstr(hist_prev(H), m_prev()), "previous"); break;
    case 2: sym_assert(eqstr(hist_next(H), m_next()), "next"); break;
    case 3: n = sym_pick("size", N + 1); sym_assert((cligen_hist_init(H, n) == 0) == (n > 0), "resize"); if (n) m_init(n); break;
    }
  }
  walk();
  h_out_end(&out);
  h_out_free(out);
  sym_observe(M.n);
  for (int i = 0; i < M.n; i++) sym_observe_mem(M.s[i], strlen(M.s[i]));
  sym_assert(cligen_hist_init(H, 1) == 0, "emptied");
  cligen_exit(H);
  sym_reach("end");
}
/* many lines through rings of every size */
void c25_wrap(void) {
  int N = sym_arg("N", 4), A = sym_arg("A", 10);
  char l[ML], *out;
  H = cligen_init();
  int n = sym_pick("size", N) + 1, pre = sym_pick("pre", A);
  cligen_hist_init(H, n);
  m_init(n);
  for (int k = 0; k < pre; k++) { l[0] = 'p'; l[1] = '0' + k; l[2] = 0; hist_add(H, l); m_add(l); }
  h_out_begin();
  for (int k = 0; k < 3; k++) { line(l, 1, 1); hist_add(H, l); m_add(l); }
  walk();
  h_out_end(&out);
  h_out_free(out);
  cligen_exit(H);
  sym_reach("end");
}
/* saving and loading, into a history of any size */
void c25_file(void) {
  int K = sym_arg("K", 3), L = sym_arg("L", 2), N = sym_arg("N", 3);
  char l[ML], *out;
  H = cligen_init();
  int n = sym_pick("size", N) + 1, k, pre = sym_pick("pre", 3);
  cligen_hist_init(H, n);
  m_init(n);
  for (k = 0; k < pre; k++) { l[0] = 'p'; l[1] = '0' + k; l[2] = 0; hist_add(H, l); m_add(l); }
  for (k = 0; k < K; k++) {
    line(l, L, sym_arg("set", 0));
    for (char *p = l; *p; p++) sym_assume(*p != '\n');
    hist_add(H, l); m_add(l);
  }
  FILE *f = tmpfile();
  h_out_begin();
  if (sym_pick("walked", 2)) { hist_prev(H); m_prev(); }
  sym_assert(cligen_hist_file_save(H, f) == 0, "saved");
  rewind(f);
  int how = sym_pick("into", 3);
  n = sym_pick("size2", N) + 1;
  /* into the same handle, resized, or into the history as it is */
  if (how == 0) { cligen_hist_init(H, n); }
  if (how == 1) { cligen_exit(H); H = cligen_init(); cligen_hist_init(H, n); }
  sym_assert(cligen_hist_file_load(H, f) == 0, "loaded");
  fclose(f);
  static char c[8][ML];
  int cn = M.n, max = how == 2 ? M.max : n;
  for (k = 0; k < cn; k++) strcpy(c[k], M.s[k]);
  if (how != 2) m_init(max);
  for (k = 0; k < cn; k++) m_add(c[k]);
  walk();
  h_out_end(&out);
  h_out_free(out);
  cligen_exit(H);
  sym_reach("end");
}
/* through the terminal: lines entered, then arrows from the line being edited */
void c25_keys(void) {
  int N = sym_arg("N", 2), K = sym_arg("K", 3);
  unsigned char k[128];
  int q = 0, i;
  char l[4][ML], want[ML], *out, *s;
  H = cligen_init();
  int n = sym_pick("size", N) + 1;
  cligen_hist_init(H, n);
  m_init(n);
  for (i = 0; i < K; i++) {
    l[i][0] = sym_u8("l", 'a', 'c'); l[i][1] = 0;
    k[q++] = l[i][0]; k[q++] = '\n';
  }
  int up = sym_pick("up", N + 3), down = sym_pick("down", N + 3), how = sym_pick("keys", 3), typed = sym_pick("typed", 2);
  if (typed) k[q++] = 'x';
  for (i = 0; i < up + down; i++) {
    if (how == 0) k[q++] = i < up ? '\020' : '\016';
    else { k[q++] = '\033'; k[q++] = how == 1 ? '[' : 'O'; k[q++] = i < up ? 'A' : 'B'; }
  }
  k[q++] = 'z'; k[q++] = '\n';
  env_tty(1, 24, 80);
  env_keys(k, q);
  h_out_begin();
  for (i = 0; i < K; i++) {
    s = NULL;
    sym_assert(cliread(H, &s) == 0 && s && eqstr(s, l[i]), "line entered");
    m_add(l[i]);
  }
  strcpy(want, typed ? "x" : "");
  for (i = 0; i < up; i++) strcpy(want, m_prev());
  for (i = 0; i < down; i++) strcpy(want, m_next());
  strcat(want, "z");
  s = NULL;
  sym_assert(cliread(H, &s) == 0 && s, "read");
  h_out_end(&out);
  h_out_free(out);
  sym_observe_mem(s, strlen(s));
  sym_assert(eqstr(s, want), "the line of the history, edited");
  cligen_exit(H);
  sym_reach("end");
}
/* lines longer than any typed so far, added by the program or loaded from a file, are recalled whole */
void c25_long(void) {
  static char l[2][1200];
  static const char *ks[] = {"\020", "\033[A", "\020\020\016", "\020\033[B\020", "\022y\n", "\022y\006"};
  unsigned char k[64];
  char *s = NULL, *out;
  int base = sym_arg("base", 128), w = sym_arg("w", 6), q = 0;
  int n = base - 3 + sym_pick("length", w), how = sym_pick("how", 2), t = sym_pick("keys", 6);
  H = cligen_init();
  env_tty(1, 24, 80);
  strcpy(l[0], "old");
  for (int i = 0; i < n; i++) l[1][i] = 'a' + i % 23;
  l[1][n] = 0;
  l[1][0] = 'y';
  l[1][n - 1] = sym_u8("c", '0', '9');
  h_out_begin();
  if (how == 0) for (int i = 0; i < 2; i++) sym_assert(hist_add(H, l[i]) == 0, "added");
  else {
    FILE *f = tmpfile();
    for (int i = 0; i < 2; i++) fprintf(f, "%s\n", l[i]);
    rewind(f);
    sym_assert(cligen_hist_file_load(H, f) == 0, "loaded");
    fclose(f);
  }
  for (const char *p = ks[t]; *p; p++) k[q++] = *p;
  if (t != 4) { k[q++] = '\005'; k[q++] = 'z'; k[q++] = '\n'; }
  env_keys(k, q);
  sym_assert(cliread(H, &s) == 0 && s, "read");
  h_out_end(&out);
  h_out_free(out);
#ifdef DBG
  fprintf(stderr, "%d [%s]\n[%s]\n", n, s, l[1]);
#endif
  sym_assert(strlen(s) == n + (t != 4) && eqmem(s, l[1], n), "recalled whole");
  sym_assert(t == 4 || s[n] == 'z', "and edited");
  cligen_exit(H);
  sym_reach("end");
}
