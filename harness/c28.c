/* C28: paged output shows every character once and pauses before the screen overflows. */
#include "h.h"
#include "env.h"
#include <cligen_io.h>
#define NA 64
static cligen_handle H;
static int W, R, na, chunks;
static unsigned char ans[NA];
static char text[16384], piece[16384];
static int lines_of(const char *p, int n, int w, int *col) {
  int r = 0;
  for (int i = 0; i < n; i++) {
    if (p[i] == '\n') { r++; *col = 0; }
    else if (++*col == w) { r++; *col = 0; }
  }
  return r;
}
static void out(const char *s, int basic) {
  if (basic) { char *d = strdup(s); sym_assert(cligen_output_basic(stdout, d, strlen(d)) == 0, "output"); free(d); }
  else sym_assert(cligen_output(stdout, "%s", s) == 0, "output");
}
static int is(const char *p, const char *s) { return eqmem(p, s, strlen(s)); }
/* text made of runs of characters, with and without newlines, split over calls */
static char *mark[128];
static void make(int m, const int *lens, int nl) {
  char *q = text;
  int cut = 0;
  for (int k = 0; k < m; k++) {
    int l = lens[sym_pick("run", nl)];
    for (int i = 0; i < l; i++) *q++ = i == 0 ? sym_u8("c", 'a', 'z') : 'A' + (i + k) % 26;
    if (sym_pick("newline", 2)) *q++ = '\n';
    if (k + 1 < m && sym_pick("split", 2)) { if (l > 2 && sym_pick("inside", 2)) mark[cut++] = q - 2; else mark[cut++] = q; }
  }
  *q = 0;
  mark[cut++] = q;
  chunks = cut;
}
static void emit(int basic) {
  char *p = text;
  for (int k = 0; k < chunks; k++) {
    int n = mark[k] - p;
    memcpy(piece, p, n);
    piece[n] = 0;
    out(piece, basic);
    p = mark[k];
  }
}
static void paged(int big) {
  int m = sym_arg("m", 3), q = 0, quit = 0, help = 0;
  static const int LN[] = {0, 1, 20, 21, 22, 43}, RB[] = {2, 24, 50}, WB[] = {80, 132, 511};
  char *o, *p, *t;
  size_t n;
  W = big ? WB[sym_pick("width", 3)] : 21;
  R = big ? RB[sym_pick("rows", 3)] : (int)sym_pick("rows", sym_arg("rows", 3)) + sym_arg("row0", 1);
  env_tty(1, R, W);
  H = cligen_init();
  sym_assert(cligen_terminal_width_set(H, W) == 0 && cligen_terminal_rows_set(H, R) == 0, "size");
  sym_assert(cligen_terminal_width(H) == W && cligen_terminal_rows(H) == R, "size as set");
  cligen_paging_set(H, 1);
  na = sym_arg("answers", 3);
  for (int i = 0; i < NA; i++) ans[i] = i < na ? sym_u8("key", 0, 255) : ' ';
  env_keys(ans, NA);
  if (big) {       /* many lines, some longer than the terminal is wide; one of the first answers is any key */
    char *x = text;
    int nl = (R == 2 ? 40 : 120) + sym_pick("more", 2), per = sym_pick("calls", 3), a = sym_pick("answer", 3) * 2;
    for (int i = 0; i < NA; i++) ans[i] = ' ';
    ans[a] = sym_u8("key", 0, 255);
    chunks = 0;
    for (int k = 0; k < nl; k++) {
      int l = k % 7 == 3 ? W + sym_arg("over", 1) : k % 5 * 9;
      for (int i = 0; i < l; i++) *x++ = 'A' + (i + k) % 26;
      *x++ = '\n';
      if (per == 0 || (per == 1 && k % 9 == 8)) mark[chunks++] = x;
    }
    *x = 0;
    mark[chunks++] = x;
    sym_assert(chunks <= 128 && x < text + sizeof text, "sizes");
  }
  else make(m, LN, sym_arg("lens", 6));
  cli_output_reset();
  h_out_begin();
  emit(big ? (int)sym_pick("basic", 2) : sym_arg("basic", 0));
  n = h_out_end(&o);
  sym_observe_mem(o, n);
  t = text;
  p = o;
  int allowed = R - 1 > 0 ? R - 1 : 0, col = 0, rows = 0;
  while (p < o + n) {
    char *s = p;
    int prompt = 0;
    while (p < o + n && !(prompt = is(p, "--More--"))) p++;
    sym_assert(!quit, "nothing after quitting");
    sym_assert(p - s <= (ssize_t)strlen(t) && eqmem(s, t, p - s), "every character once and in order");
    t += p - s;
    rows = lines_of(s, p - s, W, &col);
    sym_assert(rows <= (allowed > 0 ? allowed : 1), "not more than the screen between two prompts");
    if (!prompt) {
      if (!help && R > 1) sym_assert(rows < allowed, "pauses when the screen is full");
      break;
    }
    if (!help && R > 1) sym_assert(rows == allowed, "pauses only when the screen is full");
    p += 8;
    sym_assert(q < NA, "answers");
    unsigned char a = ans[q++];
    allowed = R - 1;
    if (a == 'q' || a == 3) quit = 1;
    else if (a == '\n') allowed = 1;
    else if (a == '?') { help = 1; while (p < o + n && *p != '\n') p++; p++; }
    s = p;
    while (p < o + n && (*p == '\b' || *p == '\r' || *p == ' ')) p++;
    sym_assert(p > s, "prompt removed");
  }
  sym_assert(NA - env_keys_left() == q, "one key for each prompt");
  if (!quit) sym_assert(*t == 0, "everything is shown");
  sym_assert((cli_output_status() < 0) == quit, "status");
  h_out_free(o);
  /* nothing until the next command */
  h_out_begin();
  cligen_output(stdout, "%s", "x");
  n = h_out_end(&o);
  if (quit) sym_assert(n == 0, "the rest is suppressed");
  else sym_assert(n >= 1 && o[0] == 'x', "shown");
  h_out_free(o);
  cli_output_reset();
  sym_assert(cli_output_status() == 0, "reset");
  h_out_begin();
  cligen_output(stdout, "%s", "yz");
  n = h_out_end(&o);
  sym_assert(n >= 2 && o[0] == 'y' && o[1] == 'z', "shown again");
  h_out_free(o);
  cligen_exit(H);
  sym_reach("end");
}
void c28_page(void) { paged(0); }
void c28_big(void) { paged(1); }
/* the width changes between two calls */
void c28_resize(void) {
  static const int WS[] = {21, 22, 30, 0};
  char *o;
  size_t n;
  R = 2 + sym_pick("rows", 3);
  env_tty(1, R, 30);
  H = cligen_init();
  cligen_terminal_rows_set(H, R);
  cligen_paging_set(H, 1);
  memset(ans, ' ', NA);
  env_keys(ans, NA);
  int w1 = WS[sym_pick("w1", 4)], w2 = WS[sym_pick("w2", 4)], n1 = sym_pick("n1", sym_arg("n", 32)), n2 = 1 + 7 * sym_pick("n2", 6), i;
  cli_output_reset();
  h_out_begin();
  cligen_terminal_width_set(H, w1);
  for (i = 0; i < n1; i++) text[i] = i == 0 ? sym_u8("c", 'a', 'z') : 'x';
  text[n1] = 0;
  out(text, 0);
  cligen_terminal_width_set(H, w2);
  for (i = 0; i < n2; i++) piece[i] = i == 0 ? sym_u8("c", 'a', 'z') : 'y';
  piece[n2] = 0;
  strcat(text, piece);
  out(piece, 0);
  n = h_out_end(&o);
  char *t = text;
  for (i = 0; i < (int)n; i++) {
    if (is(o + i, "--More--")) { i += 8; while (i < (int)n && (o[i] == '\b' || o[i] == '\r' || o[i] == ' ')) i++; i--; continue; }
    sym_assert(*t == o[i], "every character once and in order");
    t++;
  }
  sym_assert(*t == 0, "everything is shown");
  h_out_free(o);
  cligen_exit(H);
  sym_reach("end");
}
/* without paging, without a terminal size, or to another file: as it is */
void c28_plain(void) {
  static const int LN[] = {0, 1, 22, 60};
  char *o, b[512];
  int how = sym_pick("how", 3);
  R = 2;
  env_tty(how != 1, R, 21);
  H = cligen_init();
  cligen_terminal_width_set(H, 21);
  cligen_terminal_rows_set(H, R);
  cligen_paging_set(H, how != 0);
  env_keys(ans, NA);
  make(sym_arg("m", 3), LN, 4);
  cli_output_reset();
  if (how == 2) {
    FILE *f = tmpfile();
    char *p = text;
    for (int k = 0; k < chunks; k++) {
      memcpy(piece, p, mark[k] - p); piece[mark[k] - p] = 0;
      sym_assert(cligen_output(f, "%s", piece) == 0, "output");
      p = mark[k];
    }
    rewind(f);
    int n = 0, c;
    while ((c = fgetc(f)) != EOF) b[n++] = c;
    b[n] = 0;
    fclose(f);
    sym_assert(eqstr(b, text), "as it is");
  } else {
    h_out_begin();
    emit(sym_pick("basic", 2));
    size_t n = h_out_end(&o);
    sym_assert(n == strlen(text) && eqmem(o, text, n), "as it is");
    h_out_free(o);
  }
  sym_assert(env_keys_left() == NA, "no prompt");
  cligen_exit(H);
  sym_reach("end");
}
