/* Reference for specifications made of names and operators: who is well-formed, and which lines they accept. */
#ifndef OPS_H
#define OPS_H
#define OMAX 96
#define OLEN 10
struct lang { int n, len[OMAX]; char s[OMAX][OLEN]; };
static const char *o_p;                                  /* next token, one character each, NUL at the end */
static int o_over;                                       /* a language that does not fit */
static const char *OTOK = "ab()[]|{};";
static void o_add(struct lang *l, const char *s, int n) {
  if (l->n == OMAX || n > OLEN) { o_over = 1; return; }
  memcpy(l->s[l->n], s, n); l->len[l->n++] = n;
}
static void o_union(struct lang *a, const struct lang *b) { for (int i = 0; i < b->n; i++) o_add(a, b->s[i], b->len[i]); }
static void o_cat(struct lang *a, const struct lang *b) {
  struct lang *r = calloc(1, sizeof *r);
  char t[2 * OLEN];
  for (int i = 0; i < a->n; i++) for (int k = 0; k < b->n; k++) {
    memcpy(t, a->s[i], a->len[i]); memcpy(t + a->len[i], b->s[k], b->len[k]);
    o_add(r, t, a->len[i] + b->len[k]);
  }
  *a = *r;
  free(r);
}
static int o_is(char c) { return *o_p == c; }
static int o_decltop(struct lang *out);
static int o_name(void) { return o_is('a') || o_is('b'); }
static int o_first(void) { return o_name() || o_is('(') || o_is('['); }
static int o_decl(struct lang *out) {
  if (o_name()) { o_add(out, o_p, 1); o_p++; return 1; }
  if (o_is('(')) { o_p++; if (!o_decltop(out) || !o_is(')')) return 0; o_p++; return 1; }
  if (o_is('[')) { o_p++; if (!o_decltop(out) || !o_is(']')) return 0; o_p++; o_add(out, "", 0); return 1; }
  return 0;
}
static int o_decltop(struct lang *out) {
  struct lang *seq = calloc(1, sizeof *seq), *d = calloc(1, sizeof *d);
  int ok = o_decl(seq);
  while (ok) {
    if (o_is('|')) { o_p++; o_union(out, seq); seq->n = 0; ok = o_decl(seq); }
    else if (o_first()) { d->n = 0; ok = o_decl(d); if (ok) o_cat(seq, d); }
    else break;
  }
  if (ok) o_union(out, seq);
  free(seq); free(d);
  return ok;
}
static int o_lines(struct lang *out) {
  int ok = 1;
  while (ok && o_first()) {
    struct lang *l = calloc(1, sizeof *l), *m = calloc(1, sizeof *m);
    ok = o_decltop(l);
    if (ok && o_is(';')) { o_p++; o_union(out, l); }
    else if (ok && !o_is('{')) ok = 0;
    if (ok && o_is('{')) {
      o_p++;
      ok = o_lines(m) && o_is('}');
      if (ok) { o_p++; o_cat(l, m); o_union(out, l); }
    }
    free(l); free(m);
  }
  return ok;
}
/* well-formed? and its lines, one letter per word */
static int o_file(const char *toks, struct lang *out) {
  o_p = toks; o_over = 0; out->n = 0;
  return o_lines(out) && *o_p == 0;
}
static int o_in(const struct lang *l, const char *w, int n) {
  int r = 0;
  for (int i = 0; i < l->n; i++) if (l->len[i] == n) r |= eqmem(l->s[i], w, n);
  return r;
}
#endif
