#include <stdio.h>
#include <string.h>
#include <stdarg.h>
#include <errno.h>
#include <sys/types.h>
#include <sys/select.h>
#include <sys/ioctl.h>
#include <termios.h>
#include <unistd.h>
#include <stdlib.h>
#include <signal.h>
#include <poll.h>
#include <sys/socket.h>
#include <sys/wait.h>
#include "env.h"
static const unsigned char *ek;
static size_t en, ei;
static int e_tty, e_rows, e_cols;
static int rdy[64], nrdy;
char env_w[8192];
size_t env_wn;
void env_keys(const unsigned char *k, size_t n) { ek = k; en = n; ei = 0; }
size_t env_keys_left(void) { return en - ei; }
void env_tty(int t, int r, int c) { e_tty = t; e_rows = r; e_cols = c; }
void env_ready(int fd) { if (nrdy < 64) rdy[nrdy++] = fd; }
struct env_proc env_p;
struct env_term env_t;
#define NFD 64
#define PID 4242
static int kind[NFD] = {FD_TTY, FD_TTY, FD_TTY}, nextfd = 40, nchunk, npause, oi;
void env_proc_reset(void) {
  memset(&env_p, 0, sizeof env_p);
  memset(kind, 0, sizeof kind);
  kind[0] = kind[1] = kind[2] = FD_TTY;
  env_p.gone = -1;
  nextfd = 40; nchunk = npause = oi = 0;
}
int env_fd(int fd) { return fd < 0 || fd >= NFD ? FD_CLOSED : kind[fd]; }
int env_fds(void) { int c = 0; for (int i = 0; i < NFD; i++) c += kind[i] == FD_PARENT || kind[i] == FD_CHILD; return c; }
int h_socketpair(int d, int t, int p, int *sv) {
  (void)d; (void)t; (void)p;
  if (env_p.fail == 1) { errno = EMFILE; return -1; }
  if (nextfd + 1 >= NFD) { errno = EMFILE; return -1; }
  kind[nextfd] = FD_PARENT; kind[nextfd + 1] = FD_CHILD;
  sv[0] = nextfd++; sv[1] = nextfd++;
  return 0;
}
pid_t h_fork(void) {
  if (env_p.fail == 2) { errno = EAGAIN; return -1; }
  env_p.forks++;
  return env_p.child ? 0 : PID;
}
pid_t h_vfork(void) { return h_fork(); }
int h_close(int fd) {
  if (env_fd(fd) == FD_CLOSED) { env_p.bad++; errno = EBADF; return -1; }
  kind[fd] = FD_CLOSED;
  return 0;
}
int h_dup2(int a, int b) {
  if (env_p.fail == 5 && env_p.child) { env_p.fail = 0; errno = EBUSY; return -1; }
  if (env_fd(a) == FD_CLOSED || b < 0 || b >= NFD) { env_p.bad++; errno = EBADF; return -1; }
  kind[b] = kind[a];
  return b;
}
int h_shutdown(int fd, int how) {
  if (env_fd(fd) != FD_PARENT) { env_p.bad++; errno = ENOTSOCK; return -1; }
  if (how != SHUT_RD) env_p.shut++;
  return 0;
}
pid_t h_waitpid(pid_t p, int *st, int opt) {
  (void)opt;
  if (env_p.fail == 3) { env_p.fail = 0; errno = EINTR; return -1; }
  if ((p != PID && p != -1) || !env_p.forks || env_p.reaped) { errno = ECHILD; return -1; }
  env_p.reaped = 1;
  if (st) *st = env_p.status;
  return PID;
}
pid_t h_wait(int *st) { return h_waitpid(-1, st, 0); }
void h_exit(int st) { if (env_p.on_exit) env_p.on_exit(st); exit(st); }
void h__exit(int st) { h_exit(st); }
void h__Exit(int st) { h_exit(st); }
int h_sigprocmask(int how, const sigset_t *a, sigset_t *b) { (void)how; (void)a; if (b) memset(b, 0, sizeof *b); return 0; }
static void (*sigpipe)(int);
int h_sigaction(int sig, const struct sigaction *a, struct sigaction *o) {
  if (o) { memset(o, 0, sizeof *o); if (sig == SIGPIPE) o->sa_handler = sigpipe; }
  if (a && sig == SIGPIPE) sigpipe = a->sa_handler;
  env_p.sigign = sigpipe == SIG_IGN;
  return 0;
}
void (*h_signal(int sig, void (*f)(int)))(int) {
  void (*o)(int) = sigpipe;
  if (sig != SIGPIPE) return SIG_DFL;
  sigpipe = f;
  env_p.sigign = sigpipe == SIG_IGN;
  return o;
}
static ssize_t sock_write(const void *b, size_t n, int nosig) {
  if (env_p.shut || env_p.gone == 0) {
    if (sigpipe != SIG_IGN && sigpipe == SIG_DFL && !nosig) env_p.killed = 1;
    errno = EPIPE;
    return -1;
  }
  if (env_p.intr > 0) { env_p.intr--; errno = EINTR; return -1; }
  if (env_p.gone > 0) env_p.gone--;
  if (env_p.shortw > 0 && n > 1) { env_p.shortw--; n = 1; }
  for (size_t i = 0; i < n; i++) if (env_p.nin < (int)sizeof env_p.in) env_p.in[env_p.nin++] = ((const char *)b)[i];
  return n;
}
static ssize_t sock_read(void *b, size_t n) {
  size_t k = env_p.nout - oi;
  if (!env_p.shut) env_p.bad++;      /* waits for ever: the child prints at the end of its input */
  if (k == 0) {
    if (env_p.rst && !env_p.eof) { env_p.eof = 1; errno = ECONNRESET; return -1; }
    env_p.eof = 1;
    return 0;
  }
  if (nchunk < 4 && env_p.chunk[nchunk] && (size_t)env_p.chunk[nchunk] < k) k = env_p.chunk[nchunk];
  nchunk++;
  if (k > n) k = n;
  for (size_t i = 0; i < k; i++) ((char *)b)[i] = env_p.out[oi + i];
  oi += k;
  return k;
}
ssize_t h_send(int fd, const void *b, size_t n, int fl) {
  if (env_fd(fd) != FD_PARENT) { env_p.bad++; errno = EBADF; return -1; }
  return sock_write(b, n, fl & MSG_NOSIGNAL);
}
ssize_t h_read(int fd, void *b, size_t n);
ssize_t h_recv(int fd, void *b, size_t n, int fl) { (void)fl; return h_read(fd, b, n); }
ssize_t h_read(int fd, void *b, size_t n) {
  if (env_fd(fd) == FD_PARENT) return sock_read(b, n);
  if (fd != 0) { errno = EBADF; return -1; }
  if (env_t.on_read && env_t.on_read()) { errno = EINTR; return -1; }
  if (env_t.on_select && !env_t.avail) env_t.blocked++;
  env_t.avail = 0;
  if (ei >= en || n == 0) return 0;
  if (env_t.t.c_lflag & (ICANON | ECHO | ISIG)) env_t.cooked++;
  *(unsigned char *)b = ek[ei++];
  return 1;
}
ssize_t h_write(int fd, const void *b, size_t n) {
  size_t i;
  if (env_fd(fd) == FD_PARENT) return sock_write(b, n, 0);
  if (fd != 1 && fd != 2) { env_p.bad++; errno = EBADF; return -1; }
  for (i = 0; i < n; i++) { char c = ((const char *)b)[i]; if (env_wn < sizeof env_w) env_w[env_wn++] = c; }
  return n;
}
/* a file that fails after so many bytes */
static FILE *ferr_f;
static int ferr_n, ferr_seen;
void env_ferr(FILE *f, int n) { ferr_f = f; ferr_n = n; ferr_seen = 0; }
static int file_getc(FILE *f) {
  if (f == ferr_f) {
    if (ferr_n <= 0) { ferr_seen = 1; errno = EIO; return EOF; }
    ferr_n--;
  }
  return fgetc(f);
}
int h_ferror(FILE *f) { return f == ferr_f ? ferr_seen : ferror(f); }
size_t h_fread(void *p, size_t s, size_t n, FILE *f) {
  size_t k = 0, t = s * n;
  int c;
  if (f != ferr_f) return fread(p, s, n, f);
  while (k < t && (c = file_getc(f)) != EOF) ((char *)p)[k++] = c;
  return s ? k / s : 0;
}
char *h_fgets(char *b, int n, FILE *f) {
  int i = 0, c = 0;
  if (f != ferr_f) return fgets(b, n, f);
  while (i < n - 1 && (c = file_getc(f)) != EOF) { b[i++] = c; if (c == '\n') break; }
  if (i == 0 || (c == EOF && ferr_seen)) return 0;
  b[i] = 0;
  return b;
}
int h_fgetc(FILE *f) {
  if (f != stdin) return file_getc(f);
  if (ei >= en) return EOF;
  if (env_t.t.c_lflag & (ICANON | ECHO | ISIG)) env_t.cooked++;
  return ek[ei++];
}
int h_getc(FILE *f) { return h_fgetc(f); }
int h_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv) {
  int i, c = 0, any = 0;
  fd_set ask = *r;
  (void)w; (void)e; (void)tv;
  for (i = 3; i < n && i < NFD; i++) if (FD_ISSET(i, &ask) && kind[i] == FD_PARENT) {
    if (env_p.fail == 4) { env_p.fail = 0; errno = EINTR; return -1; }
    FD_ZERO(r);
    if (env_p.late > 0) { env_p.late--; return 0; }
    if (env_p.pause && nchunk > npause) { npause = nchunk; return 0; }
    if (!env_p.shut) env_p.bad++;
    FD_SET(i, r);
    return 1;
  }
  if (env_t.on_select) {
    int k = env_t.on_select();      /* 0: a key, or else a descriptor, or interrupted */
    if (k < 0) { errno = EINTR; return -1; }
    FD_ZERO(r);
    if (!FD_ISSET(k, &ask)) env_t.lost++;
    FD_SET(k, r);
    if (k == 0) env_t.avail = 1;
    return 1;
  }
  FD_ZERO(r);
  for (i = 0; i < nrdy; i++) if (rdy[i] < n && FD_ISSET(rdy[i], &ask)) { FD_SET(rdy[i], r); c++; any = 1; }
  nrdy = 0;
  if (!any && FD_ISSET(0, &ask)) { FD_SET(0, r); c++; }
  return c;
}
int h_poll(struct pollfd *p, nfds_t n, int ms) {
  int c = 0, any = 0;
  (void)ms;
  for (nfds_t k = 0; k < n; k++) {
    p[k].revents = 0;
    if (env_fd(p[k].fd) == FD_PARENT) {
      if (env_p.fail == 4) { env_p.fail = 0; errno = EINTR; return -1; }
      if (env_p.late > 0) { env_p.late--; return 0; }
    if (env_p.pause && nchunk > npause) { npause = nchunk; return 0; }
      p[k].revents = POLLIN; c++; any = 1;
    }
    else for (int i = 0; i < nrdy; i++) if (rdy[i] == p[k].fd && !p[k].revents) { p[k].revents = POLLIN; c++; any = 1; }
  }
  nrdy = 0;
  if (env_t.on_select && c == 0) {
    int k = env_t.on_select();
    if (k < 0) { errno = EINTR; return -1; }
    for (nfds_t i = 0; i < n; i++) if (p[i].fd == k) { p[i].revents = POLLIN; c = 1; }
    if (c == 0) env_t.lost++;
    if (k == 0) env_t.avail = 1;
    return c;
  }
  if (!any) for (nfds_t k = 0; k < n; k++) if (p[k].fd == 0) { p[k].revents = POLLIN; c++; }
  return c;
}
int h_isatty(int fd) { (void)fd; return e_tty; }
int h_ioctl(int fd, unsigned long req, ...) {
  va_list ap;
  (void)fd;
  if (req == TIOCGWINSZ) {
    struct winsize *ws;
    va_start(ap, req);
    ws = va_arg(ap, struct winsize *);
    va_end(ap);
    memset(ws, 0, sizeof *ws);
    ws->ws_row = e_rows;
    ws->ws_col = e_cols;
    return 0;
  }
  return 0;
}
int h_tcgetattr(int fd, struct termios *t) { if (env_t.fail) { errno = ENOTTY; return -1; } (void)fd; memcpy(t, &env_t.t, sizeof *t); return 0; }
int h_tcsetattr(int fd, int a, const struct termios *t) { if (env_t.fail) { errno = ENOTTY; return -1; } (void)fd; (void)a; memcpy(&env_t.t, t, sizeof *t); env_t.sets++; return 0; }
int h_kill(pid_t p, int s) { if (env_t.on_kill && p != PID) env_t.on_kill(p, s); if (env_p.forks && p == PID) { if (env_p.reaped) env_p.bad++; if (!env_p.eof) { env_p.nout = oi; env_p.status = s; } env_p.kills++; } return 0; }
