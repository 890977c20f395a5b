/* C models of the libc functions the code under check calls. Compiled to bitcode and linked with it.
 * memory primitives (malloc, free, memcpy, ...) are engine natives. Locale is "C", TZ is UTC. */
#define __NO_CTYPE
#include <stddef.h>
#include <stdint.h>
#include <stdarg.h>
#include <errno.h>
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <limits.h>
#include <regex.h>
#include <time.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <sys/time.h>
#include "../harness/sym.h"
#undef stdin
#undef stdout
#undef stderr

static int g_errno;
int *__errno_location(void) { return &g_errno; }

/* ------------------------------------------------------------ ctype (C locale), branch free */
int isdigit(int c) { return (unsigned)c - '0' < 10; }
int isupper(int c) { return (unsigned)c - 'A' < 26; }
int islower(int c) { return (unsigned)c - 'a' < 26; }
int isalpha(int c) { return ((unsigned)c | 32) - 'a' < 26; }
int isalnum(int c) { return (((unsigned)c | 32) - 'a' < 26) | ((unsigned)c - '0' < 10); }
int isspace(int c) { return (c == ' ') | ((unsigned)c - 9 < 5); }
int isblank(int c) { return (c == ' ') | (c == 9); }
int isxdigit(int c) { return ((unsigned)c - '0' < 10) | (((unsigned)c | 32) - 'a' < 6); }
int isprint(int c) { return (unsigned)c - 32 < 95; }
int isgraph(int c) { return (unsigned)c - 33 < 94; }
int iscntrl(int c) { return ((unsigned)c < 32) | (c == 127); }
int ispunct(int c) { return ((unsigned)c - 33 < 94) & !((((unsigned)c | 32) - 'a' < 26) | ((unsigned)c - '0' < 10)); }
int isascii(int c) { return (unsigned)c < 128; }
int tolower(int c) { return c + (((unsigned)c - 'A' < 26) << 5); }
int toupper(int c) { return c - (((unsigned)c - 'a' < 26) << 5); }

/* ------------------------------------------------------------ strings */
size_t m_strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
int m_strcmp(const char *a, const char *b) {
  for (;; a++, b++) { unsigned char x = *a, y = *b; if (x != y) return (int)x - (int)y; if (!x) return 0; }
}
int m_strncmp(const char *a, const char *b, size_t n) {
  for (; n; a++, b++, n--) { unsigned char x = *a, y = *b; if (x != y) return (int)x - (int)y; if (!x) return 0; }
  return 0;
}
int strcasecmp(const char *a, const char *b) {
  for (;; a++, b++) { int x = tolower((unsigned char)*a), y = tolower((unsigned char)*b); if (x != y) return x - y; if (!x) return 0; }
}
int strncasecmp(const char *a, const char *b, size_t n) {
  for (; n; a++, b++, n--) { int x = tolower((unsigned char)*a), y = tolower((unsigned char)*b); if (x != y) return x - y; if (!x) return 0; }
  return 0;
}
int m_memcmp(const void *p, const void *q, size_t n) {
  const unsigned char *a = p, *b = q;
  int r = 0;
  while (n--) { int d = (int)a[n] - (int)b[n]; int m = -(d != 0); r = (d & m) | (r & ~m); }
  return r;
}
int bcmp(const void *p, const void *q, size_t n) { return m_memcmp(p, q, n); }
char *m_strchr(const char *s, int c) {
  for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; }
}
char *index(const char *s, int c) { return strchr(s, c); }
char *strchrnul(const char *s, int c) { for (;; s++) if (*s == (char)c || !*s) return (char *)s; }
char *strrchr(const char *s, int c) {
  const char *r = 0;
  for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; }
}
char *rindex(const char *s, int c) { return strrchr(s, c); }
void *memchr(const void *p, int c, size_t n) { const unsigned char *a = p; for (; n; n--, a++) if (*a == (unsigned char)c) return (void *)a; return 0; }
void bzero(void *p, size_t n) { memset(p, 0, n); }
void bcopy(const void *s, void *d, size_t n) { memmove(d, s, n); }
char *strcpy(char *d, const char *s) { size_t n = strlen(s); memcpy(d, s, n + 1); return d; }
char *stpcpy(char *d, const char *s) { size_t n = strlen(s); memcpy(d, s, n + 1); return d + n; }
char *strncpy(char *d, const char *s, size_t n) {
  size_t l = strnlen(s, n);
  memcpy(d, s, l);
  memset(d + l, 0, n - l);
  return d;
}
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strncat(char *d, const char *s, size_t n) { size_t l = strlen(d), k = strnlen(s, n); memcpy(d + l, s, k); d[l + k] = 0; return d; }
char *strdup(const char *s) { size_t n = strlen(s); char *r = malloc(n + 1); if (r) memcpy(r, s, n + 1); return r; }
char *strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *r = malloc(n + 1); if (r) { memcpy(r, s, n); r[n] = 0; } return r; }
char *strstr(const char *h, const char *n) {
  size_t k = strlen(n);
  if (k == 0) return (char *)h;
  for (; *h; h++) if (strncmp(h, n, k) == 0) return (char *)h;
  return 0;
}
char *strcasestr(const char *h, const char *n) {
  size_t k = strlen(n);
  if (k == 0) return (char *)h;
  for (; *h; h++) if (strncasecmp(h, n, k) == 0) return (char *)h;
  return 0;
}
static int inset(const char *set, char c) { int r = 0; for (; *set; set++) r |= (*set == c); return r; }
size_t strspn(const char *s, const char *set) { size_t n = 0; while (s[n] && inset(set, s[n])) n++; return n; }
size_t strcspn(const char *s, const char *set) { size_t n = 0; while (s[n] && !inset(set, s[n])) n++; return n; }
char *strpbrk(const char *s, const char *set) { for (; *s; s++) if (inset(set, *s)) return (char *)s; return 0; }
char *strsep(char **sp, const char *delim) {
  char *s = *sp, *e;
  if (!s) return 0;
  for (e = s; *e; e++) if (inset(delim, *e)) { *e = 0; *sp = e + 1; return s; }
  *sp = 0;
  return s;
}
char *strtok_r(char *s, const char *delim, char **save) {
  if (!s) s = *save;
  if (!s) return 0;
  s += strspn(s, delim);
  if (!*s) { *save = s; return 0; }
  char *e = s + strcspn(s, delim);
  if (*e) { *e = 0; *save = e + 1; } else *save = e;
  return s;
}
static char *tok_save;
char *strtok(char *s, const char *delim) { return strtok_r(s, delim, &tok_save); }
/* glibc's strverscmp state machine */
int strverscmp(const char *s1, const char *s2) {
  enum { S_N = 0, S_I = 3, S_F = 6, S_Z = 9, CMP = 2, LEN = 3 };
  static const uint8_t next_state[] = {S_N, S_I, S_Z, S_N, S_I, S_I, S_N, S_F, S_F, S_N, S_F, S_Z};
  static const int8_t result_type[] = {
    CMP, CMP, CMP, CMP, LEN, CMP, CMP, CMP, CMP,
    CMP, -1, -1, +1, LEN, LEN, +1, LEN, LEN,
    CMP, CMP, CMP, CMP, CMP, CMP, CMP, CMP, CMP,
    CMP, +1, +1, -1, CMP, CMP, -1, CMP, CMP};
  const unsigned char *p1 = (const unsigned char *)s1, *p2 = (const unsigned char *)s2;
  if (p1 == p2) return 0;
  unsigned char c1 = *p1++, c2 = *p2++;
  int state = S_N + ((c1 == '0') + (isdigit(c1) != 0));
  int diff;
  while ((diff = c1 - c2) == 0) {
    if (c1 == '\0') return diff;
    state = next_state[state];
    c1 = *p1++; c2 = *p2++;
    state += (c1 == '0') + (isdigit(c1) != 0);
  }
  state = result_type[state * 3 + (((c2 == '0') + (isdigit(c2) != 0)))];
  switch (state) {
  case CMP: return diff;
  case LEN:
    while (isdigit(*p1++)) if (!isdigit(*p2++)) return 1;
    return isdigit(*p2) ? -1 : diff;
  default: return state;
  }
}

/* ------------------------------------------------------------ numbers */
static int digval(unsigned char c) { /* branch free: value of an alphanumeric digit, 99 otherwise */
  int d = (unsigned)c - '0' < 10, a = ((unsigned)c | 32) - 'a' < 26;
  return ((int)c - '0') * d + (((int)c | 32) - 'a' + 10) * a + 99 * (1 - (d | a));
}
/* n digits in the given base denote a number <= lim; no fork on the digits after the leading zeros */
static int le_digits(const char *d, int n, int b, uint64_t lim) {
  unsigned char l[72];
  int m = 0;
  uint64_t x = lim;
  do { m++; x /= b; } while (x);
  x = lim;
  for (int i = m - 1; i >= 0; i--) { l[i] = x % b; x /= b; }
  while (n > m && *d == '0') { d++; n--; }
  if (n != m) return n < m;
  int lt = 0, eq = 1;
  for (int i = 0; i < n; i++) { int v = digval(d[i]); lt |= eq & (v < l[i]); eq &= v == l[i]; }
  return lt | eq;
}
/* decimal representations already introduced on this path: value term -> digits */
static struct { uint64_t v; int n; char d[20]; } dmemo[16];
static int ndmemo;
static void dmemo_add(uint64_t v, const char *d, int n) {
  if (ndmemo >= 16) return;
  dmemo[ndmemo].v = v;
  dmemo[ndmemo].n = n;
  for (int i = 0; i < n; i++) dmemo[ndmemo].d[i] = d[i];
  ndmemo++;
}
static unsigned long long strtox(const char *s, char **end, int base, int sgn) {
  const char *p = s;
  int neg = 0, any = 0, n = 0, nozero = 0;
  uint64_t v = 0;
  while (isspace((unsigned char)*p)) p++;
  if (*p == '-') { neg = 1; p++; } else if (*p == '+') p++;
  if (base == 0) {
    if (*p == '0') {
      if ((p[1] == 'x' || p[1] == 'X') && digval(p[2]) < 16) { base = 16; p += 2; } else base = 8;
    } else { base = 10; nozero = 1; }
  } else if (base == 16 && *p == '0' && (p[1] == 'x' || p[1] == 'X') && digval(p[2]) < 16) p += 2;
  int safe = base <= 10 ? 18 : 15;
  const char *q = p;
  for (;; p++) {
    int d = digval(*p);
    if (d >= base) break;
    any = 1;
    n++;
    v = v * base + d;
  }
  if (end) *end = (char *)(any ? p : s);
  if (n > safe) { /* overflow decided digit by digit */
    if (!le_digits(q, n, base, sgn ? (uint64_t)LLONG_MAX + neg : ~0ull)) {
      g_errno = ERANGE;
      return sgn ? (neg ? (unsigned long long)LLONG_MIN : LLONG_MAX) : ULLONG_MAX;
    }
  }
  if (base == 10 && n > 1 && n <= 20)
    for (int k = 0; k < ndmemo; k++) if (dmemo[k].n == n) { /* the digits of a value printed on this path denote that value */
      int i = 0;
      while (i < n && sym_same(dmemo[k].d[i], q[i])) i++;
      if (i == n) { v = dmemo[k].v; return neg ? -v : v; }
    }
  if (base == 10 && n > 1 && n <= 20 && p - q == n && sym_is_symbolic(v) && sym_is_symbolic(*q) && nozero) dmemo_add(v, q, n);
  return neg ? -v : v;
}

#define STRTO(ret, name, sg) \
  ret x_##name(const char *s, char **e, int b) __asm__(#name); ret x_##name(const char *s, char **e, int b) { return (ret)strtox(s, e, b, sg); } \
  ret y_##name(const char *s, char **e, int b) __asm__("__isoc23_" #name); ret y_##name(const char *s, char **e, int b) { return (ret)strtox(s, e, b, sg); }
STRTO(long long, strtoll, 1)
STRTO(long, strtol, 1)
STRTO(unsigned long long, strtoull, 0)
STRTO(unsigned long, strtoul, 0)
int atoi(const char *s) { return (int)strtox(s, 0, 10, 1); }
long atol(const char *s) { return (long)strtox(s, 0, 10, 1); }
int abs(int x) { return x < 0 ? -x : x; }
void qsort(void *b, size_t n, size_t sz, int (*cmp)(const void *, const void *)) {
  char *a = b;
  char t[256];
  for (size_t i = 1; i < n; i++) {
    size_t j = i;
    memcpy(t, a + i * sz, sz);
    while (j > 0 && cmp(a + (j - 1) * sz, t) > 0) { memcpy(a + j * sz, a + (j - 1) * sz, sz); j--; }
    memcpy(a + j * sz, t, sz);
  }
}

/* ------------------------------------------------------------ formatted output */
struct out { char *p; size_t n, len; };
static inline void oc(struct out *o, char c) { if (o->len + 1 < o->n) o->p[o->len] = c; o->len++; }
/* decimal digits of a symbolic value: fresh digit bytes constrained by value == sum (avoids 64-bit division) */
static int dec_digits(uint64_t v, char *buf) {
  static const uint64_t p10[20] = {1ull, 10ull, 100ull, 1000ull, 10000ull, 100000ull, 1000000ull, 10000000ull, 100000000ull, 1000000000ull,
    10000000000ull, 100000000000ull, 1000000000000ull, 10000000000000ull, 100000000000000ull, 1000000000000000ull, 10000000000000000ull,
    100000000000000000ull, 1000000000000000000ull, 10000000000000000000ull};
  int n = 0;
  if (!sym_is_symbolic(v)) {
    char t[24];
    do { t[n++] = '0' + v % 10; v /= 10; } while (v);
    for (int i = 0; i < n; i++) buf[i] = t[n - 1 - i];
    return n;
  }
  for (int k = 0; k < ndmemo; k++) if (sym_same(dmemo[k].v, v)) { for (int i = 0; i < dmemo[k].n; i++) buf[i] = dmemo[k].d[i]; return dmemo[k].n; }
  for (n = 1; n < 20; n++) if (v < p10[n]) break;
  if (n == 1) { buf[0] = '0' + (int)v; return n; }
  sym_bytes(buf, n, "_digits");
  uint64_t s = 0;
  int ok = 1;
  for (int i = 0; i < n; i++) { ok = sym_and(ok, isdigit((unsigned char)buf[i])); s = s * 10 + digval(buf[i]); }
  ok = sym_and(ok, buf[0] != '0');
  if (n == 20) ok = sym_and(ok, le_digits(buf, n, 10, ~0ull));
  ok = sym_and(ok, s == v);
  sym_assume(ok);
  dmemo_add(v, buf, n);
  return n;
}
static void pad(struct out *o, int n, char c) { while (n-- > 0) oc(o, c); }
static int vfmt(char *dst, size_t size, const char *f, va_list ap) {
  struct out o = {dst, size, 0};
  char nb[72];
  for (; *f; f++) {
    if (*f != '%') { oc(&o, *f); continue; }
    f++;
    int left = 0, zero = 0, plus = 0, space = 0, alt = 0, width = 0, prec = -1, lng = 0;
    for (;; f++) {
      if (*f == '-') left = 1; else if (*f == '0') zero = 1; else if (*f == '+') plus = 1; else if (*f == ' ') space = 1; else if (*f == '#') alt = 1; else break;
    }
    if (*f == '*') { width = va_arg(ap, int); f++; if (width < 0) { left = 1; width = -width; } }
    else while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
    if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0'); }
    for (;; f++) { if (*f == 'l') lng++; else if (*f == 'h') lng--; else if (*f == 'z' || *f == 'j' || *f == 't') lng = 2; else break; }
    switch (*f) {
    case '%': oc(&o, '%'); break;
    case 'c': { char c = (char)va_arg(ap, int); if (!left) pad(&o, width - 1, ' '); oc(&o, c); if (left) pad(&o, width - 1, ' '); break; }
    case 's': {
      const char *s = va_arg(ap, const char *);
      if (!s) s = "(null)";
      size_t n = prec >= 0 ? strnlen(s, prec) : strlen(s);
      if (!left) pad(&o, width - (int)n, ' ');
      if (o.len + n < o.n) { memcpy(o.p + o.len, s, n); o.len += n; }
      else for (size_t i = 0; i < n; i++) oc(&o, s[i]);
      if (left) pad(&o, width - (int)n, ' ');
      break;
    }
    case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': case 'p': {
      uint64_t v;
      int neg = 0, n = 0;
      char sg = 0;
      if (*f == 'd' || *f == 'i') {
        int64_t sv = lng >= 1 ? va_arg(ap, long) : va_arg(ap, int);
        if (lng == -1) sv = (short)sv; else if (lng <= -2) sv = (signed char)sv;
        neg = sym_concretize(sv < 0);
        v = neg ? 0 - (uint64_t)sv : (uint64_t)sv;
        sg = neg ? '-' : plus ? '+' : space ? ' ' : 0;
      } else {
        v = (lng >= 1 || *f == 'p') ? va_arg(ap, unsigned long) : va_arg(ap, unsigned);
        if (*f == 'p' && v == 0) { if (!left) pad(&o, width - 5, ' '); for (const char *z = "(nil)"; *z; z++) oc(&o, *z); if (left) pad(&o, width - 5, ' '); break; }
        if (lng == -1) v = (unsigned short)v; else if (lng <= -2) v = (unsigned char)v;
      }
      if (*f == 'p') alt = 1;
      if (*f == 'd' || *f == 'i' || *f == 'u') n = dec_digits(v, nb);
      else {
        int sh = *f == 'o' ? 3 : 4;
        int nd = 1;
        for (nd = 1; nd * sh < 64; nd++) if ((v >> (nd * sh)) == 0) break;
        for (n = 0; n < nd; n++) {
          int d = (v >> ((nd - 1 - n) * sh)) & ((1 << sh) - 1);
          nb[n] = d + '0' + (d > 9) * ((*f == 'X' ? 'A' : 'a') - '0' - 10);
        }
      }
      int pre = alt && (*f == 'x' || *f == 'X' || *f == 'p') ? 2 : 0;
      int zeros = prec > n ? prec - n : 0;
      if (prec == 0 && n == 1 && nb[0] == '0') n = 0;
      int tot = n + zeros + (sg != 0) + pre;
      if (zero && !left && prec < 0 && width > tot) { zeros += width - tot; tot = width; }
      if (!left) pad(&o, width - tot, ' ');
      if (sg) oc(&o, sg);
      if (pre) { oc(&o, '0'); oc(&o, *f == 'X' ? 'X' : 'x'); }
      pad(&o, zeros, '0');
      for (int i = 0; i < n; i++) oc(&o, nb[i]);
      if (left) pad(&o, width - tot, ' ');
      break;
    }
    default: sym_unmodelled("printf conversion");
    }
  }
  if (size) dst[o.len < size ? o.len : size - 1] = 0;
  return (int)o.len;
}
int vsnprintf(char *d, size_t n, const char *f, va_list ap) { return vfmt(d, n, f, ap); }
int vsprintf(char *d, const char *f, va_list ap) { return vfmt(d, 1 << 20, f, ap); }
int snprintf(char *d, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = vfmt(d, n, f, ap); va_end(ap); return r; }
int sprintf(char *d, const char *f, ...) { va_list ap; va_start(ap, f); int r = vfmt(d, 1 << 20, f, ap); va_end(ap); return r; }
int vasprintf(char **d, const char *f, va_list ap) {
  va_list a2;
  va_copy(a2, ap);
  int r = vfmt(0, 0, f, a2);
  va_end(a2);
  *d = malloc(r + 1);
  vfmt(*d, r + 1, f, ap);
  return r;
}
int asprintf(char **d, const char *f, ...) { va_list ap; va_start(ap, f); int r = vasprintf(d, f, ap); va_end(ap); return r; }

/* ------------------------------------------------------------ streams */
struct mfile { int kind; size_t wr, rd; int eof, open; char buf[32768]; };
static struct mfile m_in = {0}, m_out = {1}, m_err = {2};
FILE *stdin = (FILE *)&m_in, *stdout = (FILE *)&m_out, *stderr = (FILE *)&m_err;
static void fputn(FILE *fp, const char *s, size_t n) {
  struct mfile *f = (struct mfile *)fp;
  if (f->kind == 2 || f->kind == 0) return;
  if (f->wr + n > sizeof f->buf) sym_unmodelled("stream buffer full");
  memcpy(f->buf + f->wr, s, n);
  f->wr += n;
}
int vfprintf(FILE *fp, const char *fmt, va_list ap) {
  struct mfile *f = (struct mfile *)fp;
  if (f->kind == 2) return 0;
  char t[1024], *l = t;
  va_list again;
  va_copy(again, ap);
  int n = vfmt(t, sizeof t, fmt, ap);
  if (n >= (int)sizeof t) {
    l = malloc(n + 1);
    vfmt(l, n + 1, fmt, again);
  }
  va_end(again);
  fputn(fp, l, n);
  if (l != t) free(l);
  return n;
}
int fprintf(FILE *fp, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = vfprintf(fp, fmt, ap); va_end(ap); return r; }
int vprintf(const char *fmt, va_list ap) { return vfprintf(stdout, fmt, ap); }
int printf(const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = vfprintf(stdout, fmt, ap); va_end(ap); return r; }
int fputs(const char *s, FILE *f) { fputn(f, s, strlen(s)); return 1; }
int puts(const char *s) { fputn(stdout, s, strlen(s)); fputn(stdout, "\n", 1); return 1; }
int fputc(int c, FILE *f) { char x = c; fputn(f, &x, 1); return (unsigned char)x; }
int putc(int c, FILE *f) { return fputc(c, f); }
int putchar(int c) { return fputc(c, stdout); }
size_t fwrite(const void *p, size_t s, size_t n, FILE *f) { fputn(f, p, s * n); return n; }
int fflush(FILE *f) { return 0; }
int ferror(FILE *f) { return 0; }
void clearerr(FILE *f) {}
int fileno(FILE *f) { return ((struct mfile *)f)->kind; }
int feof(FILE *fp) { return ((struct mfile *)fp)->eof; }
int fgetc(FILE *fp) {
  struct mfile *f = (struct mfile *)fp;
  if (f->rd >= f->wr) { f->eof = 1; return EOF; }
  return (unsigned char)f->buf[f->rd++];
}
int getc(FILE *f) { return fgetc(f); }
int ungetc(int c, FILE *fp) { struct mfile *f = (struct mfile *)fp; if (f->rd) f->rd--; return c; }
size_t fread(void *p, size_t s, size_t n, FILE *fp) {
  struct mfile *f = (struct mfile *)fp;
  size_t k = 0, t = s * n;
  while (k < t && f->rd < f->wr) ((char *)p)[k++] = f->buf[f->rd++];
  if (k < t) f->eof = 1;
  return s ? k / s : 0;
}
char *fgets(char *b, int n, FILE *fp) {
  int i = 0, c;
  while (i < n - 1 && (c = fgetc(fp)) != EOF) { b[i++] = c; if (c == '\n') break; }
  if (i == 0) return 0;
  b[i] = 0;
  return b;
}
FILE *tmpfile(void) { struct mfile *f = calloc(1, sizeof *f); f->kind = 3; return (FILE *)f; }
int fclose(FILE *f) { if (((struct mfile *)f)->kind == 3) free(f); return 0; }
void rewind(FILE *f) { ((struct mfile *)f)->rd = 0; ((struct mfile *)f)->eof = 0; }
/* captured standard output, for harnesses */
void h_out_begin(void) { m_out.wr = 0; }
size_t h_out_end(char **p) { *p = m_out.buf; return m_out.wr; }
void h_out_free(char *p) {}
void perror(const char *s) {}
char *strerror(int e) { return "error"; }

/* ------------------------------------------------------------ scanning */
static int vscan(const char *s, const char *f, va_list ap) {
  int n = 0;
  for (; *f; f++) {
    if (isspace((unsigned char)*f)) { while (isspace((unsigned char)*s)) s++; continue; }
    if (*f != '%') { if (*s != *f) return n ? n : (*s ? 0 : EOF); s++; continue; }
    f++;
    int width = 0, h = 0;
    while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
    while (*f == 'h') { h++; f++; }
    if (!width) width = 1 << 20;
    int base = *f == 'x' || *f == 'X' ? 16 : *f == 'd' || *f == 'u' ? 10 : 0;
    if (!base) sym_unmodelled("scanf conversion");
    while (isspace((unsigned char)*s)) s++;
    if (!*s) return n ? n : EOF;
    int neg = 0, any = 0;
    uint64_t v = 0;
    if (*s == '-' || *s == '+') { neg = *s == '-'; s++; width--; }
    if (base == 16 && width >= 2 && *s == '0' && (s[1] == 'x' || s[1] == 'X')) { s += 2; width -= 2; }
    for (; width > 0 && digval(*s) < base; s++, width--) { v = v * base + digval(*s); any = 1; }
    if (!any) return n;
    if (neg) v = -v;
    if (h == 2) *va_arg(ap, unsigned char *) = v; else if (h == 1) *va_arg(ap, unsigned short *) = v; else *va_arg(ap, unsigned *) = v;
    n++;
  }
  return n;
}
#define SSCANF(n, l) int n(const char *s, const char *f, ...) __asm__(l); int n(const char *s, const char *f, ...) { va_list ap; va_start(ap, f); int r = vscan(s, f, ap); va_end(ap); return r; }
SSCANF(x_sscanf, "sscanf")
SSCANF(y_sscanf, "__isoc99_sscanf")
SSCANF(z_sscanf, "__isoc23_sscanf")

/* ------------------------------------------------------------ addresses (after glibc's algorithms) */
static int pton4(const char *s, const char *end, unsigned char *dst) {
  unsigned char tmp[4] = {0}, *tp = tmp;
  int saw = 0, oct = 0;
  while (s < end && *s) {
    unsigned char ch = *s++;
    if (isdigit(ch)) {
      unsigned nw = *tp * 10 + (ch - '0');
      if (saw && *tp == 0) return 0;
      if (nw > 255) return 0;
      *tp = nw;
      if (!saw) { if (++oct > 4) return 0; saw = 1; }
    } else if (ch == '.' && saw) {
      if (oct == 4) return 0;
      *++tp = 0;
      saw = 0;
    } else return 0;
  }
  if (oct < 4) return 0;
  memcpy(dst, tmp, 4);
  return 1;
}
static int pton6(const char *src, unsigned char *dst) {
  const char *end = src + strlen(src);
  unsigned char tmp[16] = {0};
  int tp = 0, colon = -1;
  if (src == end) return 0;
  if (*src == ':') { ++src; if (src == end || *src != ':') return 0; }
  const char *curtok = src;
  int seen = 0;
  unsigned val = 0;
  while (src < end) {
    unsigned char ch = *src++;
    int d = digval(ch);
    if (d < 16) {
      if (seen == 4) return 0;
      val = (val << 4) | d;
      if (val > 0xffff) return 0;
      ++seen;
      continue;
    }
    if (ch == ':') {
      curtok = src;
      if (seen == 0) { if (colon >= 0) return 0; colon = tp; continue; }
      else if (src == end) return 0;
      if (tp + 2 > 16) return 0;
      tmp[tp++] = (val >> 8) & 0xff;
      tmp[tp++] = val & 0xff;
      seen = 0;
      val = 0;
      continue;
    }
    if (ch == '.' && tp + 4 <= 16 && pton4(curtok, end, tmp + tp) > 0) { tp += 4; seen = 0; break; }
    return 0;
  }
  if (seen > 0) {
    if (tp + 2 > 16) return 0;
    tmp[tp++] = (val >> 8) & 0xff;
    tmp[tp++] = val & 0xff;
  }
  if (colon >= 0) {
    if (tp == 16) return 0;
    int n = tp - colon;
    memmove(tmp + 16 - n, tmp + colon, n);
    memset(tmp + colon, 0, 16 - n - colon);
    tp = 16;
  }
  if (tp != 16) return 0;
  memcpy(dst, tmp, 16);
  return 1;
}
int inet_pton(int af, const char *s, void *dst) {
  if (af == AF_INET) return pton4(s, s + strlen(s), dst);
  if (af == AF_INET6) return pton6(s, dst);
  g_errno = EAFNOSUPPORT;
  return -1;
}
static char ntoa_buf[18];
char *inet_ntoa(struct in_addr in) {
  unsigned char b[4];
  memcpy(b, &in, 4);
  snprintf(ntoa_buf, sizeof ntoa_buf, "%d.%d.%d.%d", b[0], b[1], b[2], b[3]);
  return ntoa_buf;
}
const char *inet_ntop(int af, const void *src, char *dst, socklen_t size) {
  const unsigned char *b = src;
  char tmp[48];
  if (af == AF_INET) snprintf(tmp, sizeof tmp, "%u.%u.%u.%u", b[0], b[1], b[2], b[3]);
  else {
    unsigned w[8];
    struct { int base, len; } best = {-1, 0}, c = {-1, 0};
    int i, n = 0;
    for (i = 0; i < 8; i++) w[i] = (b[2 * i] << 8) | b[2 * i + 1];
    for (i = 0; i < 8; i++) {
      if (w[i] == 0) { if (c.base == -1) { c.base = i; c.len = 1; } else c.len++; }
      else if (c.base != -1) { if (best.base == -1 || c.len > best.len) best = c; c.base = -1; }
    }
    if (c.base != -1 && (best.base == -1 || c.len > best.len)) best = c;
    if (best.base != -1 && best.len < 2) best.base = -1;
    for (i = 0; i < 8; i++) {
      if (best.base != -1 && i >= best.base && i < best.base + best.len) { if (i == best.base) tmp[n++] = ':'; continue; }
      if (i != 0) tmp[n++] = ':';
      if (i == 6 && best.base == 0 && (best.len == 6 || (best.len == 5 && w[5] == 0xffff))) {
        n += snprintf(tmp + n, sizeof tmp - n, "%u.%u.%u.%u", b[12], b[13], b[14], b[15]);
        break;
      }
      n += snprintf(tmp + n, sizeof tmp - n, "%x", w[i]);
    }
    if (best.base != -1 && best.base + best.len == 8) tmp[n++] = ':';
    tmp[n] = 0;
  }
  if (strlen(tmp) + 1 > size) { g_errno = ENOSPC; return 0; }
  strcpy(dst, tmp);
  return dst;
}

/* ------------------------------------------------------------ time (UTC) */
long timezone = 0;
static int64_t days_civil(int64_t y, int64_t m, int64_t d) { /* m 1..12 */
  static const int cum[12] = {0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334};
  int32_t yy = (int32_t)y - 1, leap = ((y % 4 == 0) & (y % 100 != 0)) | (y % 400 == 0);
  return 365 * (int64_t)yy + yy / 4 - yy / 100 + yy / 400 + cum[m - 1] + ((m > 2) & leap) + d - 1 - 719162;
}
time_t mktime(struct tm *tm) {
  int64_t t = days_civil(tm->tm_year + 1900, tm->tm_mon + 1, 1) + tm->tm_mday - 1;
  return ((t * 24 + tm->tm_hour) * 60 + tm->tm_min) * 60 + tm->tm_sec;
}
time_t timegm(struct tm *tm) { return mktime(tm); }
static struct tm g_tm;
struct tm *gmtime_r(const time_t *tp, struct tm *tm) {
  int64_t t = *tp, days = t / 86400, rem = t % 86400;
  if (rem < 0) { rem += 86400; days--; }
  memset(tm, 0, sizeof *tm);
  tm->tm_hour = rem / 3600; tm->tm_min = rem / 60 % 60; tm->tm_sec = rem % 60;
  int64_t z = days + 719468, era = (z >= 0 ? z : z - 146096) / 146097;
  unsigned doe = z - era * 146097, yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
  int64_t y = (int64_t)yoe + era * 400;
  unsigned doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153, d = doy - (153 * mp + 2) / 5 + 1, m = mp < 10 ? mp + 3 : mp - 9;
  tm->tm_year = y + (m <= 2) - 1900; tm->tm_mon = m - 1; tm->tm_mday = d;
  return tm;
}
struct tm *gmtime(const time_t *tp) { return gmtime_r(tp, &g_tm); }
void tzset(void) {}
time_t time(time_t *t) { if (t) *t = 1000000000; return 1000000000; }

/* ------------------------------------------------------------ POSIX extended regular expressions: NFA, branch free on the subject */
enum { R_SET = 1, R_SPLIT, R_EPS, R_BOL, R_EOL, R_ACC };
#define RMAX 512
struct rnode { int op, a, b; unsigned char set[256]; };
struct rprog { int n, start, err; const char *p; struct rnode nd[RMAX]; };
struct frag { int s, e; }; /* e: an R_EPS node whose successor is open */
static int rn(struct rprog *r, int op, int a, int b) {
  if (r->n >= RMAX) sym_unmodelled("regex size");
  r->nd[r->n].op = op; r->nd[r->n].a = a; r->nd[r->n].b = b;
  return r->n++;
}
static struct frag r_alt(struct rprog *r, int depth);
static unsigned char rch(const char *p) { return (unsigned char)sym_concretize((unsigned char)*p); }
static struct frag r_copy(struct rprog *r, int from, int to, struct frag f) { /* duplicate nodes [from,to) */
  int d = r->n - from;
  for (int i = from; i < to; i++) {
    int k = rn(r, r->nd[i].op, 0, 0);
    memcpy(r->nd[k].set, r->nd[i].set, 256);
    r->nd[k].a = r->nd[i].a >= 0 ? r->nd[i].a + d : -1;
    r->nd[k].b = r->nd[i].b >= 0 ? r->nd[i].b + d : -1;
  }
  struct frag g = {f.s + d, f.e + d};
  return g;
}
static int r_class(struct rprog *r, unsigned char *set) { /* after '[' */
  int neg = 0, first = 1;
  memset(set, 0, 256);
  if (rch(r->p) == '^') { neg = 1; r->p++; }
  for (;; first = 0) {
    unsigned char c = rch(r->p);
    if (!c) { r->err = REG_EBRACK; return 0; }
    if (c == ']' && !first) { r->p++; break; }
    if (c == '[' && rch(r->p + 1) == ':') {
      const char *q = r->p + 2;
      int (*fn)(int) = 0;
      if (strncmp(q, "alpha:]", 7) == 0) fn = isalpha; else if (strncmp(q, "digit:]", 7) == 0) fn = isdigit; else if (strncmp(q, "alnum:]", 7) == 0) fn = isalnum;
      else if (strncmp(q, "space:]", 7) == 0) fn = isspace; else if (strncmp(q, "upper:]", 7) == 0) fn = isupper; else if (strncmp(q, "lower:]", 7) == 0) fn = islower;
      else { r->err = REG_ECTYPE; return 0; }
      for (int i = 1; i < 256; i++) if (fn(i)) set[i] = 1;
      r->p = q + 7;
      continue;
    }
    r->p++;
    unsigned char hi = c;
    if (rch(r->p) == '-' && rch(r->p + 1) != ']' && rch(r->p + 1)) { hi = rch(r->p + 1); r->p += 2; }
    if (hi < c) { r->err = REG_ERANGE; return 0; }
    for (int i = c; i <= hi; i++) set[i] = 1;
  }
  if (neg) for (int i = 0; i < 256; i++) set[i] = !set[i];
  set[0] = 0;
  return 1;
}
static struct frag r_atom(struct rprog *r, int depth) {
  struct frag f = {-1, -1};
  unsigned char c = rch(r->p);
  if (c == '(') {
    r->p++;
    f = r_alt(r, depth + 1);
    if (r->err) return f;
    if (rch(r->p) != ')') { r->err = REG_EPAREN; return f; }
    r->p++;
    return f;
  }
  int e = -1, s;
  if (c == '^') { r->p++; e = rn(r, R_EPS, -1, -1); s = rn(r, R_BOL, e, -1); }
  else if (c == '$') { r->p++; e = rn(r, R_EPS, -1, -1); s = rn(r, R_EOL, e, -1); }
  else {
    e = rn(r, R_EPS, -1, -1);
    s = rn(r, R_SET, e, -1);
    unsigned char *set = r->nd[s].set;
    memset(set, 0, 256);
    if (c == '.') { r->p++; memset(set + 1, 1, 255); }
    else if (c == '[') { r->p++; if (!r_class(r, set)) return f; }
    else if (c == '\\') {
      c = rch(r->p + 1);
      if (!c) { r->err = REG_EESCAPE; return f; }
      r->p += 2;
      int neg = 0;
      if (c == 'w' || c == 'W') { for (int i = 1; i < 256; i++) set[i] = (isalnum(i) | (i == '_')) ^ (c == 'W'); }
      else if (c == 's' || c == 'S') { for (int i = 1; i < 256; i++) set[i] = isspace(i) ^ (c == 'S'); }
      else if ((c >= '1' && c <= '9') || c == 'b' || c == 'B' || c == '<' || c == '>' || c == '`' || c == '\'') sym_unmodelled("regex escape");
      else set[c] = 1;
      (void)neg;
    } else { set[c] = 1; r->p++; }
  }
  f.s = s; f.e = e;
  return f;
}
static int rnum(struct rprog *r) {
  int n = -1;
  while (isdigit(rch(r->p))) { n = (n < 0 ? 0 : n) * 10 + (rch(r->p) - '0'); r->p++; }
  return n;
}
static struct frag r_cat(struct rprog *r, int depth) {
  int e = rn(r, R_EPS, -1, -1);
  struct frag f = {e, e};
  for (int first = 1;; first = 0) {
    unsigned char c = rch(r->p);
    if (!c || c == '|' || (c == ')' && depth > 0)) return f;
    if (c == '*' || c == '+' || c == '?' || c == '{') {
      if (first || c != '{') { r->err = REG_BADRPT; return f; }
    }
    int from = r->n;
    struct frag g = r_atom(r, depth);
    if (r->err) return f;
    for (;;) {
      int to = r->n;
      c = rch(r->p);
      if (c == '*' || c == '+' || c == '?') {
        r->p++;
        int ne = rn(r, R_EPS, -1, -1), sp = rn(r, R_SPLIT, g.s, ne);
        if (c == '*') { r->nd[g.e].a = sp; g.s = sp; }
        else if (c == '+') r->nd[g.e].a = sp;
        else { r->nd[g.e].a = ne; g.s = sp; }
        g.e = ne;
      } else if (c == '{') {
        const char *save = r->p;
        r->p++;
        int lo = rnum(r), hi = lo;
        if (rch(r->p) == ',') { r->p++; hi = rnum(r); if (lo < 0) lo = 0; }
        if (rch(r->p) != '}' || lo < 0) { r->err = rch(r->p) ? REG_BADBR : REG_EBRACE; return f; }
        (void)save;
        r->p++;
        if (hi >= 0 && hi < lo) { r->err = REG_BADBR; return f; }
        struct frag base = g;
        int e0 = rn(r, R_EPS, -1, -1);
        struct frag acc = {e0, e0};
        for (int i = 0; i < lo; i++) { struct frag k = r_copy(r, from, to, base); r->nd[acc.e].a = k.s; acc.e = k.e; }
        if (hi < 0) {
          struct frag k = r_copy(r, from, to, base);
          int ne = rn(r, R_EPS, -1, -1), sp = rn(r, R_SPLIT, k.s, ne);
          r->nd[k.e].a = sp; r->nd[acc.e].a = sp; acc.e = ne;
        } else {
          int ne = rn(r, R_EPS, -1, -1);
          for (int i = lo; i < hi; i++) { struct frag k = r_copy(r, from, to, base); int sp = rn(r, R_SPLIT, k.s, ne); r->nd[acc.e].a = sp; acc.e = k.e; }
          r->nd[acc.e].a = ne;
          acc.e = ne;
        }
        g = acc;
      } else break;
    }
    r->nd[f.e].a = g.s;
    f.e = g.e;
  }
}
static struct frag r_alt(struct rprog *r, int depth) {
  struct frag f = r_cat(r, depth);
  while (!r->err && rch(r->p) == '|') {
    r->p++;
    struct frag g = r_cat(r, depth);
    if (r->err) return f;
    int sp = rn(r, R_SPLIT, f.s, g.s), e = rn(r, R_EPS, -1, -1);
    r->nd[f.e].a = e;
    r->nd[g.e].a = e;
    f.s = sp;
    f.e = e;
  }
  return f;
}
int regcomp(regex_t *re, const char *pat, int flags) {
  struct rprog *r = calloc(1, sizeof *r);
  r->p = pat;
  if (!(flags & REG_EXTENDED)) sym_unmodelled("basic regex");
  struct frag f = r_alt(r, 0);
  if (!r->err && rch(r->p)) r->err = REG_BADPAT;
  if (r->err) { int e = r->err; free(r); re->__buffer = 0; return e; }
  int acc = rn(r, R_ACC, -1, -1);
  r->nd[f.e].a = acc;
  r->start = f.s;
  re->__buffer = (void *)r;
  return 0;
}
static void r_add(struct rprog *r, int *set, int k, int v, int bol, int eol, char *seen) {
  for (;;) {
    if (k < 0 || seen[k]) return;
    seen[k] = 1;
    struct rnode *n = &r->nd[k];
    switch (n->op) {
    case R_SET: case R_ACC: set[k] |= v; return;
    case R_EPS: k = n->a; break;
    case R_SPLIT: r_add(r, set, n->a, v, bol, eol, seen); k = n->b; break;
    case R_BOL: if (!bol) return; k = n->a; break;
    case R_EOL: if (!eol) return; k = n->a; break;
    default: return;
    }
  }
}
int regexec(const regex_t *re, const char *s, size_t nm, regmatch_t *pm, int flags) {
  struct rprog *r = (struct rprog *)re->__buffer;
  int cur[RMAX], nxt[RMAX], acc = 0;
  char seen[RMAX];
  memset(cur, 0, sizeof cur);
  for (size_t i = 0;; i++) {
    int eol = s[i] == 0;
    memset(seen, 0, sizeof seen);
    r_add(r, cur, r->start, 1, i == 0, eol, seen);
    acc |= cur[r->n - 1];
    if (!sym_is_symbolic(acc) && acc) return 0;
    if (eol) break;
    unsigned char c = s[i];
    int neol = s[i + 1] == 0;
    memset(nxt, 0, sizeof nxt);
    for (int k = 0; k < r->n; k++) {
      if (r->nd[k].op != R_SET) continue;
      if (!sym_is_symbolic(cur[k]) && !cur[k]) continue;
      int v = cur[k] & r->nd[k].set[c];
      if (!sym_is_symbolic(v) && !v) continue;
      memset(seen, 0, sizeof seen);
      r_add(r, nxt, r->nd[k].a, v, 0, neol, seen);
    }
    memcpy(cur, nxt, sizeof cur);
  }
  return 1 - acc; /* REG_NOMATCH is 1 */
}
void regfree(regex_t *re) { free((void *)re->__buffer); re->__buffer = 0; }
size_t regerror(int e, const regex_t *re, char *buf, size_t n) { if (n) { strncpy(buf, "regex error", n - 1); buf[n - 1] = 0; } return 12; }

/* ------------------------------------------------------------ processes, signals: absent */
char *getenv(const char *n) { return 0; }
int sigaction(int s, const void *a, void *b) { return 0; }
int sigaddset(void *s, int n) { return 0; }
int sigemptyset(void *s) { return 0; }
int sigfillset(void *s) { return 0; }
int sigprocmask(int h, const void *a, void *b) { return 0; }
int close(int fd) { return 0; }
long __fdelt_chk(long d) { return d / 64; }

/* ------------------------------------------------------------ not used by the code today, here so that a change may use them */
void *memrchr(const void *p, int c, size_t n) { const unsigned char *a = p; while (n--) if (a[n] == (unsigned char)c) return (void *)(a + n); return 0; }
void *rawmemchr(const void *p, int c) { const unsigned char *a = p; while (*a != (unsigned char)c) a++; return (void *)a; }
void *mempcpy(void *d, const void *s, size_t n) { memcpy(d, s, n); return (char *)d + n; }
void *memmem(const void *h, size_t hn, const void *n, size_t k) {
  const char *a = h;
  if (k == 0) return (void *)h;
  for (; hn >= k; hn--, a++) if (memcmp(a, n, k) == 0) return (void *)a;
  return 0;
}
void *memccpy(void *d, const void *s, int c, size_t n) {
  char *a = d; const char *b = s;
  for (; n; n--) { *a++ = *b; if (*b++ == (char)c) return a; }
  return 0;
}
char *stpncpy(char *d, const char *s, size_t n) { size_t l = strnlen(s, n); memcpy(d, s, l); memset(d + l, 0, n - l); return d + l; }
size_t strlcpy(char *d, const char *s, size_t n) {
  size_t l = strlen(s);
  if (n) { size_t k = l < n ? l : n - 1; memcpy(d, s, k); d[k] = 0; }
  return l;
}
size_t strlcat(char *d, const char *s, size_t n) { size_t l = strnlen(d, n); if (l == n) return n + strlen(s); return l + strlcpy(d + l, s, n - l); }
int strcoll(const char *a, const char *b) { return strcmp(a, b); }
void *bsearch(const void *k, const void *b, size_t n, size_t w, int (*f)(const void *, const void *)) {
  size_t lo = 0, hi = n;
  while (lo < hi) {
    size_t m = (lo + hi) / 2;
    const char *p = (const char *)b + m * w;
    int r = f(k, p);
    if (r == 0) return (void *)p;
    if (r < 0) hi = m; else lo = m + 1;
  }
  return 0;
}
long long atoll(const char *s) { return strtoll(s, 0, 10); }
long labs(long x) { return x < 0 ? -x : x; }
long long llabs(long long x) { return x < 0 ? -x : x; }
int ffs(int x) { int i; for (i = 0; i < 32; i++) if (x >> i & 1) return i + 1; return 0; }
void *reallocarray(void *p, size_t n, size_t w) { return realloc(p, n * w); }
struct tm *localtime_r(const time_t *t, struct tm *m) { return gmtime_r(t, m); }
struct tm *localtime(const time_t *t) { return gmtime(t); }
int setvbuf(FILE *f, char *b, int m, size_t n) { return 0; }
void setbuf(FILE *f, char *b) { }
