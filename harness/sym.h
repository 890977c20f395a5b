/* Interface between harnesses and the symbolic executor (or the native replay runtime). */
#ifndef SYM_H
#define SYM_H
#include <stddef.h>
#include <stdint.h>
void sym_bytes(void *p, size_t n, const char *name);   /* n fresh symbolic bytes */
void sym_assume(int c);
void sym_assert_(int c, const char *msg);
#define sym_assert(c, msg) sym_assert_(!!(c), msg)
void sym_reach(const char *what);                      /* reachability witness */
void sym_observe(uint64_t v);                          /* trace compared with the native run */
void sym_observe_mem(const void *p, size_t n);
long sym_arg(const char *name, long def);
uint64_t sym_live_bytes(void);
uint64_t sym_live_blocks(void);
uint64_t sym_concretize(uint64_t v);
int sym_is_symbolic(uint64_t v);
int sym_same(uint64_t a, uint64_t b);                   /* the same term: never forks, may be 0 for equal values */
int sym_and(int a, int b);                             /* conjunction without forking */
void sym_done(void);
void sym_stub(const char *fn, const char *by);          /* engine only: calls of fn go to by (a function of the harness) */
void sym_print(const char *n, uint64_t v);
void sym_unmodelled(const char *what);                 /* path is inconclusive */
#endif
