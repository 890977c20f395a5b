/* C34: the output of a command goes through the pipe function, once and completely. */
#include "match.h"
#include <cligen/cligen_io.h>
#define DIRECT "a, f(\"x\"), g(\"y z\", \"w\"); b <v:string>, f(\"x\"), g(\"y z\", \"w\");"
#define PIPES "\\| { g <arg:string>, pf(\"t\", \"arg\"); c, pf(\"u\"); d, pf(); }"
#define SUB "f(\"x\"), g(\"y z\", \"w\")"
static const char *S[] = {
  "treename=\"M\"; pipetree=\"|p\"; " DIRECT " treename=\"|p\"; pipetree=\"\"; " PIPES,
  "treename=\"M\"; a, " SUB ";{ @|p, " SUB "; } b <v:string>, " SUB ";{ @|p, " SUB "; } treename=\"|p\"; " PIPES,
  "treename=\"M\"; pipetree=\"|p\"; x; @T; treename=\"|p\"; pipetree=\"\"; " PIPES " treename=\"T\"; pipetree=\"|p\"; " DIRECT,
  "treename=\"|p\"; " PIPES " treename=\"M\"; pipetree=\"|q\"; a, " SUB ";{ @|p, " SUB "; } b <v:string>, " SUB ";{ @|p, " SUB "; } treename=\"|q\"; pipetree=\"\"; \\| { z, pf(); }",
};
/* what the callbacks print: T[0] by f, T[1] and T[2] by g */
static char T[3][9100], sval[2], aval[2];
static int ret[2], nf, ng, np, pret, failed, piped, child, kind, cmd, broken, dupfail;
static void line_vals(cvec *cvv) {
  int i = 1, n = 2 + cmd + (piped ? 2 + (kind == 0) : 0);
  sym_assert(cvec_len(cvv) == n, "values of the line");
  sym_assert(eqstr(cv_string_get(cvec_i(cvv, i++)), cmd ? "b" : "a"), "keyword");
  if (cmd) { sym_assert(eqstr(cv_name_get(cvec_i(cvv, i)), "v") && eqstr(cv_string_get(cvec_i(cvv, i)), sval), "value"); i++; }
  if (!piped) return;
  sym_assert(eqstr(cv_string_get(cvec_i(cvv, i++)), "|"), "pipe");
  sym_assert(eqstr(cv_string_get(cvec_i(cvv, i++)), kind == 0 ? "g" : kind == 1 ? "c" : "d"), "pipe command");
  if (kind == 0) sym_assert(eqstr(cv_name_get(cvec_i(cvv, i)), "arg") && eqstr(cv_string_get(cvec_i(cvv, i)), aval), "value of the pipe command");
}
static void out(const char *t) { int r = cligen_output(stdout, "%s", t); if (!broken) sym_assert(r == 0, "printed"); }
static int f(cligen_handle h, cvec *cvv, cvec *argv) {
  sym_assert(h == H && !child, "runs in the process of the user");
  sym_assert(!failed && nf == 0 && ng == 0, "first, once");
  sym_assert(cvec_len(argv) == 1 && eqstr(cv_string_get(cvec_i(argv, 0)), "x"), "arguments of f");
  line_vals(cvv);
  nf++;
  out(T[0]);
  if (ret[0] < 0) failed = 1;
  return ret[0];
}
static int g(cligen_handle h, cvec *cvv, cvec *argv) {
  sym_assert(h == H && !child, "runs in the process of the user");
  sym_assert(!failed && nf == 1 && ng == 0, "second, once");
  sym_assert(cvec_len(argv) == 2 && eqstr(cv_string_get(cvec_i(argv, 0)), "y z") && eqstr(cv_string_get(cvec_i(argv, 1)), "w"), "arguments of g");
  line_vals(cvv);
  ng++;
  out(T[1]);
  out(T[2]);
  if (ret[1] < 0) failed = 1;
  return ret[1];
}
static int pf(cligen_handle h, cvec *cvv, cvec *argv) {
  sym_assert(h == H && child && piped, "the pipe function runs in a process of its own");
  sym_assert(np == 0 && nf == 0 && ng == 0, "once, alone");
  sym_assert(env_fd(0) == FD_CHILD && env_fd(1) == FD_CHILD, "input and output are the socket");
  sym_assert(env_fds() == 2 && env_fd(2) == FD_TTY, "nothing else is open");
  if (kind == 0) sym_assert(cvec_len(argv) == 2 && eqstr(cv_string_get(cvec_i(argv, 0)), "t") && eqstr(cv_string_get(cvec_i(argv, 1)), "arg"), "arguments of the pipe function");
  else if (kind == 1) sym_assert(cvec_len(argv) == 1 && eqstr(cv_string_get(cvec_i(argv, 0)), "u"), "arguments of the pipe function");
  else sym_assert(cvec_len(argv) == 0, "no arguments of the pipe function");
  line_vals(cvv);
  np++;
  return pret;
}
static void on_exit_(int st) {
  sym_reach("child");
  sym_observe(st);
  sym_assert(child && (np == 1 || dupfail), "the process of the pipe function ends when it has run");
  if (dupfail) sym_assert((st & 0xff) != 0 && np == 0, "failure");
  else sym_assert((st & 0xff) == (pret & 0xff), "status of the process");
  sym_done();
}
static cgv_fnstype_t *s2f(char *n, void *arg, char **err) { (void)arg; (void)err; return n[0] == 'f' ? f : n[0] == 'g' ? g : pf; }
static int run(parse_tree *pt) {
  char line[64], *p = line;
  cvec *cvv = NULL;
  cg_obj *co = NULL;
  cligen_result res = -7;
  char *reason = NULL;
  int r;
  p = puts_(p, cmd ? "b " : "a");
  if (cmd) *p++ = sval[0];
  if (piped) {
    p = puts_(p, kind == 0 ? " | g " : kind == 1 ? " |  c" : "  |  d");
    if (kind == 0) *p++ = aval[0];
  }
  *p = 0;
  nf = ng = np = failed = 0;
  sym_assert(cliread_parse(H, line, pt, &co, &cvv, &res, &reason) == 0 && res == CG_MATCH, "match");
  r = cligen_eval(H, co, cvv);
  co_free(co, 0);
  cvec_free(cvv);
  free(reason);
  return r;
}
static parse_tree *start_(int big) {
  int form = sym_arg("form", 0);
  env_proc_reset();
  env_tty(sym_arg("tty", 0), 24, 80);
  cli(S[form]);
  for (pt_head *ph = NULL; (ph = cligen_ph_each(H, ph)) != NULL; )
    sym_assert(cligen_callbackv_str2fn(cligen_ph_parsetree_get(ph), s2f, NULL) == 0, "functions");
  if (big) {
    cmd = sym_pick("command", 2); kind = cmd;
    sval[0] = aval[0] = 'q'; T[0][0] = 'x'; T[2][0] = '\n';
    return cligen_ph_parsetree_get(cligen_ph_find(H, "M"));
  }
  sym_strset(sval, 1, "v", "qa7|.-");
  sym_strset(aval, 1, "arg", "qa7|.-");
  cmd = sym_pick("command", 2);
  kind = sym_pick("pipe", 3);
  for (int i = 0; i < 3; i++) { int n = i == 1 ? sym_pick("length", 3) : 1; sym_str(T[i], n, "text"); }
  return cligen_ph_parsetree_get(cligen_ph_find(H, "M"));
}
static parse_tree *start(void) { return start_(0); }
/* a command without a pipe, run after the one with */
static void plain(parse_tree *pt) {
  static char want[28000];
  int forks = env_p.forks, bad = env_p.bad;
  char *o;
  size_t n;
  piped = 0; ret[0] = ret[1] = 0; broken = 0;
  h_out_begin();
  int r = run(pt);
  n = h_out_end(&o);
  char *w = want;
  for (int i = 0; i < 3; i++) w = puts_(w, T[i]);
  *w = 0;
  sym_assert(r == 0 && nf == 1 && ng == 1 && env_p.forks == forks && env_p.bad == bad, "a command without a pipe runs in this process only");
  sym_assert(n == strlen(want) && eqmem(o, want, n), "its output is shown");
  h_out_free(o);
}
void c34_parent(void) {
  parse_tree *pt = start();
  char O[6], *o, want[16];
  size_t n;
  int s, no = sym_pick("output_of_the_pipe_function", 4), st = 0, sig = 0, base = 0;
  uint64_t b0;
  sym_str(O, no, "out");
  base = sym_pick("what_happens", 9);
  ret[0] = ret[1] = 0;
  switch (base) {
  case 0: env_p.chunk[0] = sym_pick("first_piece", 3); env_p.chunk[1] = sym_pick("second_piece", 2); env_p.pause = sym_pick("pause", 2); break;
  case 1: env_p.late = sym_pick("late", 3); st = sym_u8("status", 0, 255); break;
  case 2: sig = 1; break;
  case 3: ret[0] = sym_pick("failure_of_f", 2) ? -1 : 1; break;
  case 4: ret[1] = sym_pick("failure_of_g", 2) ? -1 : 1; break;
  case 5: env_p.gone = sym_pick("reads", 3); env_p.rst = sym_pick("reset", 2); broken = 1; break;
  case 6: env_p.rst = 1; break;
  case 8: if (sym_pick("short", 2)) env_p.shortw = 1 + sym_pick("writes", 2); else env_p.intr = 1; break;
  case 7: env_p.fail = 1 + sym_pick("failing_call", 3); if (env_p.fail == 3) env_p.fail = 4; break;
  }
  env_p.out = O; env_p.nout = no;
  env_p.status = sig ? 15 : st << 8;
  b0 = sym_live_blocks();
  piped = 1;
  h_out_begin();
  int fail = env_p.fail;
  int r = run(pt);
  n = h_out_end(&o);
  sym_observe(r); sym_observe(n); sym_observe_mem(env_p.in, env_p.nin);
  sym_assert(np == 0, "the pipe function does not run in this process");
  sym_assert(!env_p.killed, "the process survives when the pipe function reads no more");
  sym_assert(env_p.bad == 0, "only open descriptors and live processes are used");
  sym_assert(env_fds() == 0, "no descriptor is left open");
  sym_assert(env_fd(0) == FD_TTY && env_fd(1) == FD_TTY && env_fd(2) == FD_TTY, "the terminal remains");
  sym_assert(cli_pipe_output_socket_get(&s) == 0 && s == -1, "output goes to the terminal again");
  sym_assert(env_p.forks <= 1 && env_p.reaped == env_p.forks, "the process of the pipe function is waited for");
  sym_assert(sym_live_blocks() == b0, "no memory is left");
  if (fail == 1 || fail == 2) {
    sym_assert(r < 0 && nf == 0 && ng == 0 && env_p.forks == 0 && n == 0, "nothing runs without a process for the pipe function");
  }
  else if (ret[0] < 0 || ret[1] < 0) {
    sym_assert(r < 0 && nf == 1 && ng == (ret[0] >= 0), "failure of a callback");
  }
  else if (fail == 0) {
    sym_assert(nf == 1 && ng == 1 && env_p.forks == 1, "every callback runs");
    sym_assert((r < 0) == (st != 0), "the result is that of the pipe function");
    if (env_p.gone < 0 && base != 5) {
      char *w = want;
      for (int i = 0; i < 3; i++) w = puts_(w, T[i]);
      *w = 0;
      sym_assert(env_p.nin == (int)strlen(want) && eqmem(env_p.in, want, env_p.nin), "the pipe function gets exactly what the command printed");
    }
    sym_assert(env_p.shut, "the pipe function gets an end of file");
    sym_assert((int)n == no && eqmem(o, O, n), "exactly what the pipe function printed is shown");
    sym_reach("piped");
  }
  h_out_free(o);
  plain(pt);
  cli_end();
}
/* much output, in pieces and with pauses */
void c34_big(void) {
  static char O[9100], want[28000];
  static const int LN[] = {1, 2047, 2048, 4095, 4096, 4097, 8192, 9000};
  parse_tree *pt = start_(1);
  char *o;
  size_t n;
  int no = LN[sym_pick("output_of_the_pipe_function", 8)], l = LN[sym_pick("output_of_the_command", 8)], which = sym_pick("callback", 3), k, r;
  for (k = 0; k < no; k++) O[k] = k == no / 2 ? sym_u8("out", 1, 255) : 'a' + k % 26;
  if (l > 1) { for (k = 0; k < l; k++) T[which][k] = k == l - 1 ? sym_u8("t", 1, 255) : 'A' + k % 26; T[which][l] = 0; }
  ret[0] = ret[1] = 0;
  switch (sym_pick("pieces", 3)) {
  case 0: break;
  case 1: env_p.chunk[0] = 1; env_p.chunk[1] = 4096; env_p.pause = 1; break;
  case 2: env_p.shortw = 5; env_p.chunk[0] = 4095; break;
  }
  env_p.out = O; env_p.nout = no;
  piped = 1;
  h_out_begin();
  r = run(pt);
  n = h_out_end(&o);
  char *w = want;
  for (int i = 0; i < 3; i++) w = puts_(w, T[i]);
  *w = 0;
  sym_assert(r == 0 && nf == 1 && ng == 1 && env_p.forks == 1, "every callback runs");
  sym_assert(env_p.nin == (int)(w - want) && eqmem(env_p.in, want, env_p.nin), "the pipe function gets exactly what the command printed");
  sym_assert((int)n == no && eqmem(o, O, n), "exactly what the pipe function printed is shown");
  sym_assert(env_p.bad == 0 && env_fds() == 0 && env_p.reaped == 1, "nothing is left");
  h_out_free(o);
  plain(pt);
  cli_end();
  sym_reach("end");
}
void c34_child(void) {
  parse_tree *pt = start();
  env_p.child = child = piped = 1;
  env_p.on_exit = on_exit_;
  pret = sym_pick("result", 3) - 1;
  if ((dupfail = sym_pick("dup2_fails", 2))) env_p.fail = 5;
  run(pt);
  sym_assert(0, "the process of the pipe function does not go on as a user interface");
}
