/* Terminal environment shared by the symbolic and the native runs. The code under check is compiled
 * with -Dread=h_read etc., so that both see the same scripted terminal. */
#ifndef ENV_H
#define ENV_H
#include <stddef.h>
#include <stdio.h>
#include <termios.h>
void env_keys(const unsigned char *k, size_t n);   /* bytes delivered by read(0) and fgetc(stdin), then end of file */
void env_tty(int tty, int rows, int cols);         /* isatty() and window size */
void env_ready(int fd);                            /* fd reported readable by the next select() */
size_t env_keys_left(void);
void h_out_begin(void);                            /* capture stdout */
size_t h_out_end(char **p);
void h_out_free(char *p);
void env_ferr(FILE *f, int n);                      /* reading f fails after n bytes */
extern char env_w[8192];                           /* bytes written with write(1, ...) */
extern size_t env_wn;
/* The terminal: attributes, and what a wait for a key sees */
struct env_term {
  struct termios t;
  int fail;                  /* not a terminal */
  int (*on_select)(void);    /* 0: a key is there, > 0: this descriptor is ready, < 0: a signal came */
  int (*on_read)(void);      /* nonzero: a signal came */
  void (*on_kill)(int pid, int sig);
  int avail, blocked, cooked, lost, sets;   /* read without a key there, keys read with echo or line mode on, events of unregistered descriptors */
};
extern struct env_term env_t;
/* Processes and sockets: fork() returns on the chosen side only; the other process is scripted. */
enum { FD_CLOSED, FD_TTY, FD_PARENT, FD_CHILD };
struct env_proc {
  int child;                 /* fork() returns as the child */
  int fail;                  /* 1: socketpair fails, 2: fork fails, 3: the first wait is interrupted, 4: select fails, 5: dup2 fails */
  const char *out; int nout; /* what the child prints ... */
  int chunk[4];              /* ... in pieces of these sizes, the rest at once */
  int late;                  /* the first waits time out */
  int pause;                 /* waits time out after each piece read */
  int gone;                  /* the child reads no more after so many writes, -1: reads all */
  int shortw, intr;          /* the first writes are short, or interrupted */
  int rst;                   /* end of output is reported as a reset connection */
  int status;                /* of the child */
  void (*on_exit)(int st);   /* the child exits */
  /* observed */
  int forks, reaped, shut, bad, killed, sigign, eof, kills, unread;
  char in[32768]; int nin;     /* received by the child */
};
extern struct env_proc env_p;
void env_proc_reset(void);
int env_fd(int fd);                                /* FD_... */
int env_fds(void);                                 /* open descriptors of socket pairs */
#endif
