/* C36: a specification file means what its text means, all of it, or is refused. */
#include "dig.h"
#include "env.h"
#define N 8192
static char D[2][N], ERR[2][64];
/* from a file, or from a string */
static int parse_(int file, const char *s, int n, int bad, const char *treename, int own, int cvv, char *d, char *err) {
  FILE *e, *f = NULL;
  char *t = NULL, *o, *p = d;
  parse_tree *pt = NULL;
  H = cligen_init();
  GLOB = cvv ? cvec_new(0) : NULL;
  if (own) pt = pt_new();
  if (file) {
    f = tmpfile();
    fwrite(s, 1, n, f);
    rewind(f);
    if (bad >= 0) env_ferr(f, bad);
  }
  else { t = malloc(n + 1); memcpy(t, s, n); t[n] = 0; }
  h_out_begin();
  e = stderr;
  stderr = stdout;
  int r = file ? clispec_parse_file(H, f, "spec", (char *)treename, pt, GLOB) : clispec_parse_str(H, t, "spec", (char *)treename, pt, GLOB);
  stderr = e;
  int k = h_out_end(&o);
  memcpy(err, o, k < 60 ? k : 60);
  err[k < 60 ? k : 60] = 0;
  h_out_free(o);
  if (file) { env_ferr(NULL, 0); fclose(f); }
  free(t);
  pt_head *ph;
  *p = 0;
  if (r == 0) {
    for (int i = 0; (ph = cligen_ph_i(H, i)) != NULL; i++) {
      p = ps(p, cligen_ph_name_get(ph));
      p = dig(p, cligen_ph_parsetree_get(ph));
    }
    if (own) p = dig(p, pt);
    if (GLOB) p = pcvv(p, GLOB);
  }
  *p = 0;
  sym_assert(r == 0 || r == -1, "accepted or refused");
  if (own) pt_free(pt, 1);
  if (GLOB) cvec_free(GLOB);
  GLOB = NULL;
  cligen_exit(H);
  return r == 0;
}
static void same(const char *s, int n, const char *treename, int own, int cvv) {
  int nul = 0;
  for (int i = 0; i < n; i++) nul |= s[i] == 0;
  int ok = parse_(1, s, n, -1, treename, own, cvv, D[1], ERR[1]);
  if (nul) { sym_assert(!ok, "text after a null character is not dropped"); sym_reach("nul"); return; }
  int ok2 = parse_(0, s, n, -1, treename, own, cvv, D[0], ERR[0]);
#ifdef DBG
  fprintf(stderr, "[%.*s] %d %d\n%s\n%s\n", n, s, ok, ok2, D[0], D[1]);
#endif
  sym_assert(ok == ok2, "accepted as the text is");
  sym_assert(eqstr(ERR[0], ERR[1]), "the same message");
  int m = strlen(D[0]);
  sym_assert(strlen(D[1]) == m && eqmem(D[0], D[1], m), "the same trees and assignments");
  sym_observe(ok);
  sym_observe(m);
  sym_reach("end");
}
/* a file of any length around the sizes of the buffer */
void c36_size(void) {
  int base = sym_arg("base", 1024), w = sym_arg("w", 14), k = sym_arg("pad", 0), n = 0;
  static char b[N];
  static const char *pads[] = {" ", "\n", "a;", "# c\n"};
  int p = base - sym_pick("before", w), q = strlen(pads[k]);
  while (n + q <= p) { memcpy(b + n, pads[k], q); n += q; }
  while (n < p) b[n++] = '\n';
  int len = sym_u8("x", 'b', 'z');
  static const char *txt[] = {"a?c(\"h\"),f();{d;}", "v=\"?\";", "a?", "a <x:?nt8>;e;"};
  int t = sym_pick("text", 4), m = strlen(txt[t]);
  memcpy(b + n, txt[t], m);
  for (int i = 0; i < m; i++) if (b[n + i] == '?') b[n + i] = len;
  n += m;
  same(b, n, NULL, 0, 1);
}
/* any bytes */
void c36_bytes(void) {
  int n = sym_arg("n", 2), t = sym_pick("text", 4);
  static const char *txt[] = {"@", "a@b;c;", "a(\"@\");b;", "a;#@\nb;"};
  static const char L[] = " \t\n\r#;{}()[]<>,=\"\\|@!:/%-1afs\0\177\377";
  char b[64], c[8];
  int k = 0, m = sym_pick("count", n + 1);
  if (m) sym_bytes(c, m, "byte");
  if (m > 1 && t < 2) c[0] = L[sym_pick("first", sizeof L - 1)];
  for (const char *s = txt[t]; *s; s++) {
    if (*s != '@') b[k++] = *s;
    else { memcpy(b + k, c, m); k += m; }
  }
  same(b, k, NULL, 0, 1);
}
/* each way to ask for it; the same text again leaves the same memory in use */
void c36_ways(void) {
  static const char *txt[] = {"", "\n", "# x", "a;", "treename=\"U\";a;", "a;treename=\"T\";b;v=\"1\";", "v=\"1\";", "a{", "a;;", "a;}\n"};
  int t = sym_pick("text", sizeof txt / sizeof *txt), own = sym_pick("own", 2), cvv = sym_pick("cvv", 2), nm = sym_pick("name", 2);
  int n = strlen(txt[t]);
  if (t == 4 || t == 5) own = 0;      /* the tree given would belong to the handle */
  uint64_t b0 = sym_live_bytes();
  same(txt[t], n, nm ? "T" : NULL, own, cvv);
  sym_assert(t > 6 || sym_live_bytes() == b0, "nothing is lost");
}
/* an error while reading */
void c36_error(void) {
  static const char txt[] = "a;b;\nc;#d\ne{f;}g;";
  int n = strlen(txt), at = sym_pick("at", n + 1);
  uint64_t b0 = sym_live_bytes();
  int ok = parse_(1, txt, n, at, NULL, 0, 1, D[1], ERR[1]);
  sym_assert(!ok, "a file that cannot be read is refused");
  sym_assert(sym_live_bytes() == b0, "nothing is lost");
  sym_reach("end");
}
