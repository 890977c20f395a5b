/* C37: the terminal is handed back as it was found, and signals lose no key. */
#include "cli.h"
#include "env.h"
#include <errno.h>
#include <signal.h>
#include <cligen_io.h>
#include <cligen_getline.h>
#include <cligen_history.h>
#include <cligen_history_internal.h>
static struct termios T0;
static int rest(void) { return eqmem(&env_t.t, &T0, sizeof T0); }
static void attrs(int real) {
  uint32_t f[4];
  memset(&T0, 0, sizeof T0);
  T0.c_iflag = ICRNL | IXON; T0.c_oflag = OPOST; T0.c_cflag = CS8; T0.c_lflag = ICANON | ECHO | ISIG | IEXTEN;
  if (!real) {
    sym_bytes((char *)f, sizeof f, "flags");
    T0.c_iflag = f[0]; T0.c_oflag = f[1]; T0.c_cflag = f[2]; T0.c_lflag = f[3];
    T0.c_cc[VMIN] = sym_u8("min", 0, 255);
    T0.c_cc[VTIME] = sym_u8("time", 0, 255);
  }
  T0.c_cc[VINTR] = 3; T0.c_cc[VQUIT] = 28; T0.c_cc[VSUSP] = 26;
  memset(&env_t, 0, sizeof env_t);
  env_t.t = T0;
}
static int sigs, lastsig, hook_rc, hooks;
static void on_kill(int pid, int sig) { sym_assert(rest(), "as found when the signal is raised"); sym_assert(pid == 0, "to the whole group"); sigs++; lastsig = sig; }
static int in_hook(cligen_handle h, void *a, char *s, int *p) { return 0; }
static int q_fail(cligen_handle h, char *s) { hooks++; return -1; }
static int t_fail(cligen_handle h, int *p) { hooks++; return -1; }
static const char *LINES = "a(\"help of a\");b(\"help of b\");c(\"help of c\");d(\"help of d\");e(\"help of e\");ab(\"other\");";
extern int (*gl_qmark_hook)();
extern int (*gl_tab_hook)();
/* any end of a line */
void c37_keys(void) {
  int K = sym_arg("K", 3), n = 0, r, expect = 0;
  unsigned char k[32];
  static const unsigned char A[] = {'a', '\n', '\r', 4, 3, 28, 26, 27, '?', '\t', 18, 'X' - 64, 11, 8, ' ', 'q', '\\', 0, 255};
  char *s = NULL, *o;
  env_tty(1, 100, 80);
  attrs(0);
  env_t.on_kill = on_kill;
  cli(LINES);
  gl_exitchar_add('X' - 64);
  int m = sym_pick("count", K + 1);
  for (int i = 0; i < m; i++) k[n++] = A[sym_pick("key", sizeof A)];
  if (sym_pick("any", 2)) k[n++] = sym_u8("other", 0, 255);
  if (sym_pick("more", 2)) { k[n++] = 'q'; k[n++] = '\n'; }
  env_keys(k, n);
  h_out_begin();
  r = gl_getline(H, &s);
  h_out_end(&o);
  h_out_free(o);
  sym_assert(r == 0 && s != NULL, "a line or end of file");
  sym_assert(rest(), "as found after the line");
  sym_assert(env_t.cooked == 0, "keys are read without echo, one by one");
  /* again, from what it is now */
  static unsigned char more[] = "b\n";
  if (!gl_eof()) {
    env_keys(more, 2);
    r = gl_getline(H, &s);
    sym_assert(r == 0 && eqstr(s, "b\n"), "the next line");
    sym_assert(rest() && env_t.cooked == 0, "as found after the next line");
    sym_reach("next");
  }
  sym_observe(sigs);
  cli_end();
}
/* a signal key: the terminal is as found while it is raised, and the line starts anew */
void c37_signal(void) {
  int n = 0, m, w;
  static const int S[] = {SIGINT, SIGQUIT, SIGTSTP};
  static const int I[] = {VINTR, VQUIT, VSUSP};
  unsigned char k[32];
  char *s = NULL;
  env_tty(1, 100, 80);
  attrs(1);
  env_t.on_kill = on_kill;
  w = sym_pick("which", 3);
  int key = sym_u8("char", 1, 31);
  static const unsigned char taken[] = {1, 2, 4, 5, 6, 8, 9, 10, 11, 12, 13, 14, 15, 16, 18, 19, 20, 21, 23, 25, 26, 27};
  for (int i = 0; i < sizeof taken; i++) sym_assume(key != taken[i]);
  for (int i = 0; i < 3; i++) if (i != w) sym_assume(T0.c_cc[I[i]] != key);
  T0.c_cc[I[w]] = key;
  env_t.t = T0;
  cli(LINES);
  m = sym_pick("before", 3);
  for (int i = 0; i < m; i++) k[n++] = sym_u8("c", 'a', 'z');
  if (m && sym_pick("left", 2)) k[n++] = 2;
  k[n++] = key;
  m = sym_pick("after", 3);
  int at = n;
  for (int i = 0; i < m; i++) k[n++] = sym_u8("c", 'a', 'z');
  k[n++] = '\n';
  env_keys(k, n);
  sym_assert(gl_getline(H, &s) == 0, "a line");
  sym_assert(sigs == 1 && lastsig == S[w], "the signal is raised once");
  sym_assert(strlen(s) == m + 1 && eqmem(s, k + at, m + 1), "the line is what was typed after it");
  sym_assert(rest() && env_t.cooked == 0, "as found");
  cli_end();
  sym_reach("end");
}
/* errors of hooks and interrupted waits */
static int iq(cligen_handle h) { hooks++; return hook_rc; }
void c37_error(void) {
  unsigned char k[8];
  char *s = NULL;
  int n = 0, w = sym_pick("which", 2);
  env_tty(1, 100, 80);
  attrs(0);
  cli(LINES);
  if (sym_pick("before", 2)) k[n++] = sym_u8("c", 'a', 'z');
  k[n++] = w ? '?' : '\t';
  k[n++] = '\n';
  if (w) gl_qmark_hook = q_fail; else gl_tab_hook = t_fail;
  env_keys(k, n);
  sym_assert(gl_getline(H, &s) == -1, "the error is reported");
  sym_assert(hooks == 1, "once");
  sym_assert(rest(), "as found after an error");
  cli_end();
  sym_reach("end");
}
static int budget, seen, cbs[2], evs[2], rd;
static int sched(void) {
  if (budget <= 0) return 0;
  int e = sym_pick("event", 4);
  if (e == 0) return 0;
  budget--;
  if (e == 1) { seen++; return -1; }
  evs[e - 2]++;
  return 5 + e;
}
static int sched_read(void) { if (rd <= 0 || !sym_pick("interrupt", 2)) return 0; rd--; seen++; return 1; }
static int cb(int fd, void *a) { sym_assert((fd == 7 || fd == 8) && a == (void *)(long)(fd * 100), "its argument"); cbs[fd - 7]++; return 0; }
/* signals and other descriptors while waiting for keys */
void c37_wait(void) {
  int K = sym_arg("K", 2), hook = sym_pick("hook", 3), n = 0;
  unsigned char k[16];
  static const char *KS[] = {"ab", "a\033[Db", "a\002b", "ab\022a", "a\\?b", "\033[Aa"};
  char *s[2] = {0}, *r[2];
  int t = sym_pick("keys", 6);
  for (const char *q = KS[t]; *q; q++) k[n++] = *q == 'b' ? sym_u8("c", 'b', 'z') : *q;
  if (sym_pick("end", 2)) k[n++] = '\n';
  int eof[2];
  attrs(1);
  for (int i = 0; i < 2; i++) {
    env_tty(hook == 2, 50, 80);
    gl_interrupt_hook = NULL;
    cli(LINES);
    if (hook == 1) cligen_interrupt_hook(H, iq);
    hist_add(H, "old");
    sym_assert(cligen_regfd(7, cb, (void *)700L) == 0 && cligen_regfd(8, cb, (void *)800L) == 0, "registered");
    if (i == 1) {
      env_t.on_select = sched;
      env_t.on_read = sched_read;
      budget = K;
      rd = sym_arg("R", 1);
      hooks = 0;
    }
    env_keys(k, n);
    sym_assert(gl_getline(H, &s[i]) == 0, "a line");
    eof[i] = gl_eof();
    r[i] = strdup(s[i]);
    cligen_unregfd(7);
    cligen_unregfd(8);
    cli_end();
    sym_assert(rest() && env_t.cooked == 0, "as found");
  }
  sym_assert(eqstr(r[0], r[1]) && eof[0] == eof[1], "the same line as without interruptions");
  sym_assert(cbs[0] == evs[0] && cbs[1] == evs[1] && env_t.lost == 0, "each event reaches its own function once");
  sym_assert(env_t.blocked == 0, "never stuck waiting for a key while descriptors are registered");
  if (hook == 1) sym_assert(hooks == seen, "the hook is called for each interruption");
  sym_observe(seen);
  free(r[0]);
  free(r[1]);
  sym_reach("end");
}
/* a function called while a line is edited prints more than the screen holds */
static int cb_print(int fd, void *a) { cbs[0]++; for (int i = 0; i < 5; i++) sym_assert(cligen_output(stdout, "line %d\n", i) == 0, "printed"); return 0; }
static int q_print(cligen_handle h, char *l) { return cb_print(0, NULL); }
void c37_page(void) {
  int way = sym_pick("way", 2), n = 0;
  static const unsigned char A[] = {' ', '\n', 'q', 'z', 3, '?'};
  unsigned char k[16];
  char *s = NULL, *o;
  env_tty(1, sym_pick("rows", 3) + 2, 80);
  attrs(0);
  cli(LINES);
  cligen_paging_set(H, 1);
  cligen_regfd(7, cb_print, NULL);
  if (way) { gl_qmark_hook = q_print; k[n++] = '?'; }
  else env_ready(7);
  int m = sym_pick("answers", 4);
  for (int i = 0; i < m; i++) k[n++] = A[sym_pick("answer", sizeof A)];
  k[n++] = sym_u8("c", 'a', 'z');
  k[n++] = '\n';
  env_keys(k, n);
  h_out_begin();
  cli_output_reset();
  sym_assert(gl_getline(H, &s) == 0, "a line");
  h_out_end(&o);
  h_out_free(o);
  sym_assert(cbs[0] >= 1, "printed");
  sym_assert(rest(), "as found after the line");
  sym_assert(env_t.cooked == 0, "keys are read without echo, one by one");
  /* and outside of editing */
  static unsigned char more[] = "    q";
  env_keys(more, 5);
  h_out_begin();
  cli_output_reset();
  cb_print(0, NULL);
  h_out_end(&o);
  h_out_free(o);
  sym_assert(rest(), "as found after output");
  sym_assert(env_t.cooked == 0, "answers are read without echo");
  cligen_unregfd(7);
  cli_end();
  sym_reach("end");
}
/* a failing interrupt hook ends the line, not the terminal */
void c37_abandon(void) {
  unsigned char k[8] = {'a', 'b', '\n'};
  char *s = NULL;
  env_tty(0, 50, 80);
  attrs(1);
  cli(LINES);
  cligen_interrupt_hook(H, iq);
  hook_rc = -1;
  env_t.on_select = sched;
  env_t.on_read = sched_read;
  budget = 1;
  rd = 1;
  env_keys(k, 3);
  int rc = gl_getline(H, &s);
  sym_assert(rc == -1 || rc == 0, "reported or abandoned");
  sym_assert(rest(), "as found");
  if (seen) sym_assert(hooks == 1 && (rc == -1 || s[0] == 0), "the line is given up");
  else sym_assert(rc == 0 && eqstr(s, "ab\n"), "the line");
  cli_end();
  sym_reach("end");
}
/* switching echo changes nothing else */
void c37_echo(void) {
  attrs(0);
  H = cligen_init();
  cligen_echo_off();
  sym_assert(env_t.t.c_lflag == (T0.c_lflag & ~ECHO), "echo is off");
  env_t.t.c_lflag = T0.c_lflag;
  sym_assert(rest(), "and nothing else");
  cligen_echo_on();
  sym_assert(env_t.t.c_lflag == (T0.c_lflag | ECHO), "echo is on");
  env_t.t.c_lflag = T0.c_lflag;
  sym_assert(rest(), "and nothing else");
  cligen_exit(H);
  sym_reach("end");
}
