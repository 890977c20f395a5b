/* C26: the line editor's buffer always equals what the keystrokes mean. */
#include "h.h"
#include "env.h"
#include <cligen_getline.h>
#include <cligen_history_internal.h>
#include <ctype.h>
#define ML 300
static cligen_handle H;
static unsigned char keys[ML * 2];
static int nk;
/* the ideal editor */
static struct { char t[ML]; int n, pos, ov; char kill[ML]; } E;
static int blank(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static void ins(const char *s, int l) {
  if (E.ov) {
    for (int i = 0; i < l; i++) E.t[E.pos + i] = s[i];
    if (E.pos + l > E.n) E.n = E.pos + l;
  } else {
    memmove(E.t + E.pos + l, E.t + E.pos, E.n - E.pos);
    memcpy(E.t + E.pos, s, l);
    E.n += l;
  }
  E.pos += l;
}
static void cut(int a, int b, int keep) {
  if (a == b) return;
  if (keep) { memcpy(E.kill, E.t + a, b - a); E.kill[b - a] = 0; }
  memmove(E.t + a, E.t + b, E.n - b);
  E.n -= b - a;
  E.pos = a;
}
static void put(int c) { keys[nk++] = c; }
static void puts1(const char *s) { while (*s) put(*s++); }
static void chr(int c) { char x = c; put(c); ins(&x, 1); }
static int back(void) {
  int p = E.pos;
  while (p > 0 && blank(E.t[p - 1])) p--;
  while (p > 0 && !blank(E.t[p - 1])) p--;
  return p;
}
static int fwd(void) {
  int p = E.pos;
  while (p < E.n && !blank(E.t[p])) p++;
  while (p < E.n && blank(E.t[p])) p++;
  return p;
}
#define NKEY 26   /* and 26: a character of several bytes */
static int utf8;
/* one key; returns 1 if it ends the session */
static int key(int k, int alpha) {
  char c;
  switch (k) {
  case 0:
    c = alpha == 0 ? sym_u8("c", 32, 126) : alpha == 1 ? sym_u8("c", 'a', 'b') : 'w';
    sym_assume(c != '?' && c != '\\');
    chr(c);
    break;
  case 1: put('\004'); if (E.n == 0) return 1; if (E.pos < E.n) cut(E.pos, E.pos + 1, 0); break;
  case 2: put(sym_pick("bs", 2) ? 010 : 0177); if (E.pos > 0) cut(E.pos - 1, E.pos, 0); break;
  case 3: put('\013'); { int p = E.pos; cut(p, E.n, 1); } break;
  case 4: put('\025'); cut(0, E.pos, 1); break;
  case 5: put('\027'); cut(back(), E.pos, 1); break;
  case 6: put('\031'); ins(E.kill, strlen(E.kill)); break;
  case 7: put('\024'); if (E.pos > 0 && E.pos < E.n) { c = E.t[E.pos]; E.t[E.pos] = E.t[E.pos - 1]; E.t[E.pos - 1] = c; } break;
  case 8: put('\017'); E.ov = !E.ov; break;
  case 9: put('\002'); if (E.pos > 0) E.pos--; break;
  case 10: put('\006'); if (E.pos < E.n) E.pos++; break;
  case 11: puts1("\033b"); E.pos = back(); break;
  case 12: puts1("\033f"); E.pos = fwd(); break;
  case 13: put('\001'); E.pos = 0; break;
  case 14: put('\005'); E.pos = E.n; break;
  case 15: put(' '); ins(" ", 1); break;
  case 16: c = sym_u8("q", 32, 126); put('\\'); put(c); ins(&c, 1); break;
  case 17: put('\\'); put('\n'); ins("\n", 1); break;
  case 18: put('\\'); put('\002'); if (E.pos > 0) E.pos--; break;
  case 19: put('\014'); break;
  case 20: puts1(sym_pick("app", 2) ? "\033OC" : "\033[C"); if (E.pos < E.n) E.pos++; break;
  case 21: puts1(sym_pick("app", 2) ? "\033OD" : "\033[D"); if (E.pos > 0) E.pos--; break;
  case 22: puts1(sym_pick("app", 2) ? "\033OH" : "\033[H"); E.pos = 0; break;
  case 23: puts1(sym_pick("app", 2) ? "\033OF" : "\033[F"); E.pos = E.n; break;
  case 24: puts1("\033[3~"); if (E.pos < E.n) cut(E.pos, E.pos + 1, 0); break;
  case 25: /* keys without a meaning */
    switch (sym_pick("none", 5)) {
    case 0: put('\033'); put('x'); break;
    case 1: puts1("\033[Z"); break;
    case 2: put('\007'); break;
    case 3: put(sym_u8("hi", 0x80, 0xbf)); break;
    case 4: c = sym_u8("no", 'a', '~'); sym_assume(c != '~'); puts1("\033[3"); put(c); break;
    }
    break;
  case 26: {
    unsigned char u[4];
    int l = 2 + sym_pick("bytes", 3);
    static const int lo[] = {0xc0, 0xe0, 0xf0}, hi[] = {0xdf, 0xef, 0xf7};
    for (int i = 0; i < l; i++) { u[i] = i ? sym_u8("u", 1, 255) : sym_u8("u", lo[l - 2], hi[l - 2]); put(u[i]); }
    if (utf8) for (int i = 0; i < l; i++) ins((char *)u + i, 1);
    break;
  }
  }
  return 0;
}
/* a small terminal */
static char scr[64][128];
static int row, col, W;
static void screen(const char *o, size_t n) {
  memset(scr, ' ', sizeof scr);
  row = col = 0;
  for (size_t i = 0; i < n; i++) {
    unsigned char c = o[i];
    if (c == '\r') col = 0;
    else if (c == '\n') row++;
    else if (c == '\b') { if (col) col--; }
    else if (c == '\a') ;
    else if (c == 033) {
      sym_assert(o[i + 1] == '[', "escape sequence");
      i += 2;
      int k = 0;
      while (o[i] >= '0' && o[i] <= '9') k = k * 10 + o[i++] - '0';
      if (o[i] == 'J') memset(scr, ' ', sizeof scr);
      else if (o[i] == 'H') row = col = 0;
      else if (o[i] == 'A') row -= k;
      else if (o[i] == 'C') { col += k; if (col >= W) col = W - 1; }
      else sym_assert(0, "escape sequence");
    } else {
      sym_assert(col < W && row < 64, "on the screen");
      scr[row][col++] = c;
    }
  }
}
/* the row of the cursor shows the prompt and the line, or the part of it around the cursor, with $ where it is cut */
static void shown(const char *prompt) {
  int pl = strlen(prompt), i, s = E.pos - (col - pl), ok = 1, last;
  sym_assert(eqmem(scr[row], prompt, pl), "prompt");
  sym_assert(s >= 0 && col >= pl && col < W, "cursor on the screen");
  if (s > E.n) return;
  for (last = W - 1; last >= pl && scr[row][last] == ' '; last--) ;
  for (i = pl; i < W; i++) {
    int p = s + i - pl;
    char want = p < E.n ? E.t[p] : ' ', got = scr[row][i];
    if (s > 0 && i == pl) want = '$';
    if (got == '$' && i >= W - 2 && p < E.n) { break; }
    if (i == W - 1 && p < E.n) { ok = 0; break; }
    ok &= got == want;
  }
  sym_assert(ok, "the line shown around the cursor");
}
static void run(const char *prompt, int eof) {
  char *s = NULL, *out;
  put('M');
  if (!eof) ins("M", 1);
  put('\n');
  env_keys(keys, nk);
  h_out_begin();
  sym_assert(gl_getline(H, &s) == 0 && s != NULL, "read");
  h_out_end(&out);
  h_out_free(out);
  if (eof) { sym_assert(gl_eof() && s[0] == 0, "end of input"); return; }
  sym_assert(!gl_eof(), "not the end of input");
  for (int i = 0; i <= E.n; i++) sym_observe((unsigned char)s[i]);
  sym_assert(eqmem(s, E.t, E.n), "the line");
  sym_assert(s[E.n] == '\n' && s[E.n + 1] == 0, "the end of the line");
}
/* the input ends after the keys: what is on the screen then */
static void look(const char *prompt) {
  char *s = NULL, *out;
  env_keys(keys, nk);
  h_out_begin();
  sym_assert(gl_getline(H, &s) == 0 && s != NULL && gl_eof() && s[0] == 0, "end of input");
  h_out_end(&out);
  h_out_free(out);
  sym_assert(env_wn >= 2 && env_w[env_wn - 2] == '\n' && env_w[env_wn - 1] == '\r', "ends with a newline");
  sym_observe_mem(env_w, env_wn);
  screen(env_w, env_wn - 2);
  shown(prompt);
}
static void prompt_(const char *p) { sym_assert(cligen_prompt_set(H, (char *)p) == 0, "prompt"); }
static void start(int n, int kl0) {
  int kl = sym_pick("killed", kl0), k;
  if (kl) { for (k = 0; k < kl; k++) chr("KL"[k]); put('\025'); cut(0, kl, 1); }
  int len = sym_pick("len", n + 1);
  for (k = 0; k < len; k++) if (sym_pick("blank", 2)) chr(' '); else chr(sym_u8("t", 'a', 'z'));
  int at = sym_pick("at", len + 1);
  for (k = len; k > at; k--) key(9, 0);
  if (sym_pick("overwrite", 2)) key(8, 0);
}
/* any line, cursor, kill buffer and mode, then K keys */
void c26_edit(void) {
  int K = sym_arg("K", 1), k, eof = 0;
  H = cligen_init();
  env_tty(1, 24, 80);
  prompt_("> ");
  if (sym_pick("scrolling", 2)) cligen_line_scrolling_set(H, 0);
  start(sym_arg("n", 3), sym_arg("kl", 3));
  for (k = 0; k < K && !eof; k++) eof = key(sym_pick("key", NKEY), sym_arg("alpha", 0));
  run("> ", eof);
  cligen_exit(H);
  sym_reach("end");
}
/* from the empty line */
void c26_keys(void) {
  int K = sym_arg("K", 3), eof = 0;
  H = cligen_init();
  env_tty(1, 24, 80);
  utf8 = sym_arg("utf8", 0);
  gl_utf8_set(utf8 = utf8 ? sym_pick("utf8", 2) : 0);
  for (int k = 0; k < K && !eof; k++) eof = key(sym_arg("utf8", 0) ? (int[]){0, 2, 26, 9, 3, 6}[sym_pick("key", 6)] : (int)sym_pick("key", NKEY), sym_arg("alpha", 0));
  run("cli> ", eof);
  cligen_exit(H);
  sym_reach("end");
}
/* lines about as long as the buffers, and longer ones */
void c26_grow(void) {
  int K = sym_arg("K", 1), base = sym_arg("base", 62), span = sym_arg("span", 5), k, eof = 0;
  H = cligen_init();
  env_tty(1, 24, 80);
  if (sym_pick("scrolling", 2)) cligen_line_scrolling_set(H, 0);
  int kl = sym_pick("killed", 3) * 31;
  if (kl) { for (k = 0; k < kl; k++) chr('K'); put('\025'); cut(0, kl, 1); }
  int len = base + sym_pick("len", span);
  for (k = 0; k < len; k++) chr(k == len / 2 ? ' ' : 'a' + k % 26);
  int at = sym_pick("at", 3);
  if (at == 0) key(13, 0);
  if (at == 1) key(11, 0);
  if (sym_pick("overwrite", 2)) key(8, 0);
  for (k = 0; k < K && !eof; k++) eof = key(sym_pick("key", 25), 1);
  run("cli> ", eof);
  cligen_exit(H);
  sym_reach("end");
}
/* what the terminal shows, in lines shorter and longer than it */
void c26_screen(void) {
  int K = sym_arg("K", 1), base = sym_arg("base", 0), span = sym_arg("span", 4), k, eof = 0;
  static const char *P[] = {"> ", "", "a prompt> "};
  const char *p = P[sym_pick("prompt", sym_arg("prompts", 3))];
  H = cligen_init();
  W = sym_arg("W", 24);
  env_tty(1, 24, W);
  sym_assert(cligen_terminal_width_set(H, W) == 0 && cligen_terminal_width(H) == W, "width");
  prompt_(p);
  int kl = sym_pick("killed", 2) * 2;
  if (kl) { for (k = 0; k < kl; k++) chr("KL"[k]); put('\025'); cut(0, kl, 1); }
  int len = base + sym_pick("len", span);
  for (k = 0; k < len; k++) if (k == len / 2) chr(' '); else chr(k + 1 == len ? sym_u8("t", 'a', 'z') : 'a' + k % 26);
  int at = sym_pick("at", 4);
  if (at == 0) key(13, 0);
  if (at == 1) key(11, 0);
  if (at == 2) { key(9, 0); key(9, 0); }
  if (sym_pick("overwrite", 2)) key(8, 0);
  for (k = 0; k < K && !eof; k++) {
    static const int ks[] = {0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 13, 14, 19};
    eof = key(ks[sym_pick("key", 15)], 1);
  }
  if (eof) sym_done();
  look(p);
  cligen_exit(H);
  sym_reach("end");
}
/* prompts about as long as the terminal is wide, and longer ones */
void c26_prompt(void) {
  int K = sym_arg("K", 1), k, eof = 0, n = sym_arg("n", 2);
  static const int PL[] = {12, 20, 21, 30, 79, 80, 81, 100}, WW[] = {21, 24, 80};
  char p[128];
  H = cligen_init();
  W = WW[sym_pick("W", 3)];
  env_tty(1, 24, W);
  sym_assert(cligen_terminal_width_set(H, W) == 0, "width");
  if (sym_pick("scrolling", 2)) cligen_line_scrolling_set(H, 0);
  int pl = PL[sym_pick("prompt", 8)];
  memset(p, 'p', pl); p[pl] = 0;
  prompt_(p);
  int base = sym_pick("base", 2) ? W : 1;
  for (k = 0; k < base; k++) chr('a' + k % 26);
  for (k = 0; k < n && !eof; k++) eof = key((int[]){13, 9, 10, 14}[sym_pick("move", 4)], 1);
  for (k = 0; k < K && !eof; k++) eof = key(sym_pick("key", 25), 1);
  run(p, eof);
  cligen_exit(H);
  sym_reach("end");
}
/* any bytes: nothing is read or written outside, and a line is a text ending with a newline */
void c26_any(void) {
  int K = sym_arg("K", 3);
  char *s = NULL, *out;
  H = cligen_init();
  env_tty(1, 24, 80);
  int hist = sym_pick("history", 3);
  if (hist > 0) hist_add(H, "abc");
  if (hist > 1) hist_add(H, "b ab");
  gl_utf8_set(sym_pick("utf8", 2));
  if (sym_pick("scrolling", 2)) cligen_line_scrolling_set(H, 0);
  static const char *pre[] = {"", "ab", "\022a", "\022b\022", "\020", "\023b", "a\033["};
  puts1(pre[sym_pick("pre", 7)]);
  for (int k = 0; k < K; k++) {
    unsigned char c = sym_u8("key", 0, 255);
    sym_assume(c != '?' && c != '\t' && c != 3 && c != 034 && c != 032);
    put(c);
  }
  if (sym_pick("enter", 2)) put('\n');
  env_keys(keys, nk);
  h_out_begin();
  sym_assert(gl_getline(H, &s) == 0 && s != NULL, "read");
  h_out_end(&out);
  h_out_free(out);
  size_t l = strlen(s);
  sym_observe(l);
  if (gl_eof()) sym_assert(l == 0, "nothing at the end of input");
  else sym_assert(l > 0 && s[l - 1] == '\n', "a line");
  cligen_exit(H);
  sym_reach("end");
}
/* searching the history */
static char HL[4][4];
static int has(const char *l, const char *p) {
  int n = strlen(l), m = strlen(p);
  for (int i = 0; i + m <= n; i++) if (eqmem(l + i, p, m)) return 1;
  return 0;
}
void c26_search(void) {
  int K = sym_arg("K", 3), n = sym_arg("n", 3), np = sym_arg("np", 2), k, i;
  char pat[4] = {0}, *s = NULL, *out;
  H = cligen_init();
  env_tty(1, 24, 80);
  cligen_hist_init(H, sym_pick("full", 2) ? n : n + 2);
  for (i = 0; i < n; i++) {
    for (k = 0; k < 2; k++) HL[i][k] = sym_u8("h", 'a', 'c');
    for (k = 0; k < i; k++) sym_assume(!eqstr(HL[i], HL[k]));
    hist_add(H, HL[i]);
  }
  if (sym_pick("typed", 2)) put('x');
  put('\022');
  /* pos: the line shown; start: where the search was last continued with a key of its own */
  int pos = n, start = n, pl = 0, back = 1, found;
  for (k = 0; k < np + K; k++) {
    int op = k < np ? 3 : sym_pick("op", 5);
    if (op == 0) continue;
    if (op == 1 || op == 2) {
      put(op == 1 ? '\022' : '\023');
      back = op == 1;
      if (pl == 0) continue;
    }
    else {
      if (op == 3) { if (pl == 3) { sym_done(); return; } pat[pl] = sym_u8("p", 'a', 'd'); put(pat[pl++]); }
      else {
        put(8);
        if (pl) pat[--pl] = 0;
        pos = pl ? start : n;      /* a character less: from there once more */
        if (!pl) continue;
      }
      /* the line shown stays if it still matches, otherwise the next one that does */
      if (pos < n && pos >= 0 && has(HL[pos], pat)) continue;
    }
    if (back) { if (pos >= 0) for (pos--; pos >= 0 && !has(HL[pos], pat); pos--) ; }
    else { if (pos < n) for (pos++; pos < n && !has(HL[pos], pat); pos++) ; }
    if (op < 3 && pos >= 0 && pos < n) start = pos;
  }
  found = pos >= 0 && pos < n;
  int edit = sym_pick("edit", 4);
  if (edit == 3) {                /* the line before the one found; the last one if none was found */
    if (found && pos == 0) { sym_done(); return; }
    puts1(sym_pick("arrow", 2) ? "\033[A" : "\020\020");     /* the first ^P only ends the search */
    pos = (found ? pos : n) - 1;
    found = 1;
  }
  if (edit == 1) { put('\005'); put('z'); found |= 2; }
  if (edit == 2) put('\013');     /* the cursor is where the text was found */
  put('\n');
  env_keys(keys, nk);
  h_out_begin();
  sym_assert(gl_getline(H, &s) == 0 && s != NULL, "read");
  h_out_end(&out);
  h_out_free(out);
  strcpy(E.t, found & 1 ? HL[pos] : "");
  if (edit == 2 && (found & 1)) *strstr(E.t, pat) = 0;
  if (found & 2) strcat(E.t, "z");
  strcat(E.t, "\n");
  sym_observe(strlen(s));
  sym_assert(eqstr(s, E.t), "the line found");
  cligen_exit(H);
  sym_reach("end");
}
/* search texts up to and beyond what the prompt holds */
void c26_longsearch(void) {
  int K = sym_arg("K", 3), base = sym_arg("base", 96), n = base, k;
  char *s = NULL, *out, hl[64];
  uint64_t l0 = sym_live_bytes();
  H = cligen_init();
  env_tty(1, 24, 80);
  memset(hl, 'a', 40); hl[40] = 0;
  hist_add(H, hl);
  put('\022');
  for (k = 0; k < base; k++) put('a');
  for (k = 0; k < K; k++) {
    int op = sym_pick("op", 4);
    if (op == 0) { put('a'); n += n < 99; }
    else if (op == 1) { put(8); n--; }
    else if (op == 2) put('\022');
    else { put(sym_u8("key", 'b', 'z')); n += n < 99; }
  }
  int del = sym_pick("delete", 3);     /* all but some characters */
  if (del) { while (n > 40 - (del == 2)) { put(8); n--; } }
  put('\n');
  env_keys(keys, nk);
  h_out_begin();
  sym_assert(gl_getline(H, &s) == 0 && s != NULL, "read");
  h_out_end(&out);
  h_out_free(out);
  strcat(hl, "\n");
  sym_assert(eqstr(s, del ? hl : "\n"), "the line found");
  cligen_exit(H);
  sym_assert(sym_live_bytes() == l0, "released");
  sym_reach("end");
}
