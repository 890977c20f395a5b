/* C17: ties between matching variables are resolved by preference only. */
#include "match.h"
static int r_u(cg_var *cv) { uint64_t v; switch (cv_type_get(cv)) { case CGV_UINT8: v = cv_uint8_get(cv); break; case CGV_UINT16: v = cv_uint16_get(cv); break; case CGV_UINT32: v = cv_uint32_get(cv); break; default: v = cv_uint64_get(cv); } return v >= 1 && v <= 5; }
static int r_i(cg_var *cv) { int64_t v; switch (cv_type_get(cv)) { case CGV_INT8: v = cv_int8_get(cv); break; case CGV_INT16: v = cv_int16_get(cv); break; case CGV_INT32: v = cv_int32_get(cv); break; default: v = cv_int64_get(cv); } return v >= 1 && v <= 5; }
static int r_2(cg_var *cv) { int v = cv_int8_get(cv); return v >= 2 && v <= 6; }
static int l2(cg_var *cv) { return strlen(cv_string_get(cv)) <= 2; }
static int re2(cg_var *cv) { char *s = cv_string_get(cv); int r = *s != 0; for (; *s; s++) r &= in_set(*s, "a1."); return r; }
static int re(cg_var *cv) { char *s = cv_string_get(cv); int r = *s != 0; for (; *s; s++) r &= in_set(*s, "ab01"); return r; }
static const struct { const char *d; enum cv_type t; int pref; int (*ok)(cg_var *); } V[] = {
  {"ipv4addr", CGV_IPV4ADDR, 70}, {"ipv4prefix", CGV_IPV4PFX, 70}, {"int8 range[1:5]", CGV_INT8, 60, r_i}, {"int8 range[2:6]", CGV_INT8, 60, r_2}, {"string regexp:\"[ab01]+\"", CGV_STRING, 7, re}, {"string regexp:\"[a1.]+\"", CGV_STRING, 7, re2}, {"string", CGV_STRING, 5}, {"string length[1:2]", CGV_STRING, 5, l2}, {"rest", CGV_REST, 1},
  {"time", CGV_TIME, 74}, {"uuid", CGV_UUID, 73}, {"macaddr", CGV_MACADDR, 72}, {"ipv6addr", CGV_IPV6ADDR, 71}, {"decimal64 fraction-digits:2", CGV_DEC64, 62},
  {"uint8 range[1:5]", CGV_UINT8, 59, r_u}, {"int16 range[1:5]", CGV_INT16, 58, r_i}, {"uint16 range[1:5]", CGV_UINT16, 57, r_u}, {"int32 range[1:5]", CGV_INT32, 56, r_i}, {"uint32 range[1:5]", CGV_UINT32, 55, r_u}, {"int64 range[1:5]", CGV_INT64, 54, r_i}, {"uint64 range[1:5]", CGV_UINT64, 53, r_u},
  {"int8", CGV_INT8, 52}, {"uint8", CGV_UINT8, 51}, {"int16", CGV_INT16, 50}, {"uint16", CGV_UINT16, 49}, {"int32", CGV_INT32, 48}, {"uint32", CGV_UINT32, 47}, {"int64", CGV_INT64, 46}, {"uint64", CGV_UINT64, 45},
  {"url", CGV_URL, 20}, {"bool", CGV_BOOL, 12}, {"interface", CGV_INTERFACE, 10}};
#define NV ((int)(sizeof V / sizeof V[0]))
static const char *TXT[] = {"2001-02-03T04:05:06Z", "12345678-1234-1234-1234-123456789abc", "00:11:22:33:44:55", "::1", "1.2.3.4", "1.2.3.4/8", "1.25", "-3", "300", "70000", "5000000000", "-5000000000", "a@h/b", "true"};
static int find(parse_tree *pt, int id) { for (int i = 0; i < 3; i++) { cg_obj *co = kid(pt, i); if (co && (which(co) == id || (kidof(co, 0) && which(kidof(co, 0)) == id))) return i; } return 99; }
static char *dcl(char *p, char c, int i, int pr) {
  *p++ = '<'; *p++ = c; *p++ = ':';
  p = puts_(p, V[i].d);
  if (pr) p += sprintf(p, " preference:%d", pr);
  return puts_(p, ">");
}
void c17_pair(void) {
  static const int prefs[] = {0, 6, 49, 101};
  int lo = sym_arg("lo", 0), hi = sym_arg("hi", 28);
  int a = lo + sym_pick("a", hi - lo + 1), b = sym_pick("b", sym_arg("bhi", NV - 1) + 1), pa = prefs[sym_pick("pa", sym_arg("prefs", 1))], mode = sym_pick("mode", sym_arg("modes", 1)), deep = sym_pick("deep", sym_arg("modes", 1) > 1 ? 2 : 1), kw = sym_pick("kw", 2), rev = sym_pick("rev", 2);
  if (a == b) return;   /* two declarations of the same variable are one command */
  char spec[400], *p = spec, line[64], w[48];
  for (int k = 0; k < 2; k++) {
    int second = k ^ rev;
    p = second ? dcl(p, 'b', b, 0) : dcl(p, 'a', a, pa);
    p = puts_(p, deep ? " z" : "");
    p = puts_(p, second ? ", cb(\"B\");\n" : ", cb(\"A\");\n");
  }
  if (kw) p = puts_(p, deep ? "a1 z, cb(\"C\");\n" : "a1, cb(\"C\");\n");
  *p = 0;
  parse_tree *pt = cli(spec);
  int n;
  if (sym_pick("long", 1 + sym_arg("long", 1))) { strcpy(w, TXT[sym_pick("txt", 14)]); n = strlen(w); }
  else { n = sym_pick("n", sym_arg("L", 2)) + 1; if (sym_arg("all", 0)) { sym_str(w, n, "w"); for (int j = 0; j < n; j++) sym_assume(!in_set(w[j], " \t\n\"\\")); sym_assume(w[0] != '#'); } else sym_strset(w, n, "w", "a1-.0"); }
  strcpy(line, w);
  if (deep) strcat(line, " z");
  cligen_preference_mode_set(H, mode);
  /* reference */
  struct node N[3] = {{-1, "a", "", V[a].t, pa ? pa : V[a].pref, 1, V[a].ok}, {-1, "b", "", V[b].t, V[b].pref, 1, V[b].ok}, KW(-1, "a1", 1)};
  int P[3] = {0, 0, 0};
  for (int i = 0; i < 2; i++) { cg_var *cv = accept_(&N[i], N[i].t == CGV_REST ? line : w); if (cv) { P[i] = N[i].pref; cv_free(cv); } }
  if (kw) { int m = kw_match("a1", w, n); P[2] = m == 2 ? 100 : m == 1 ? 3 : 0; }
  int top = 0, cnt = 0, pick = -1;
  for (int i = 0; i < 3; i++) if (P[i] > top) top = P[i];
  for (int i = 0; i < 3; i++) if (P[i] == top && top) { cnt++; if (pick < 0 || find(pt, i) < find(pt, pick)) pick = i; }
  int want = cnt == 0 ? CG_NOMATCH : cnt == 1 ? CG_MATCH : deep ? CG_NOMATCH : CG_MULTIPLE;
  if (cnt == 2 && P[2] < top && (mode == 3 || mode == (deep ? 2 : 1))) want = CG_MATCH;
  if (want == CG_MATCH && deep && pick < 2 && N[pick].t == CGV_REST) want = CG_NOMATCH;   /* rest takes the remaining line, its command goes on */
  /* two declarations of one variable are the same command */
  cg_obj *co = NULL;
  cvec *cvv = NULL;
  cligen_result res = -7;
  char *reason = NULL;
  char *l = strdup(line);
  sym_assert(cliread_parse(H, l, pt, &co, &cvv, &res, &reason) == 0, "no error");
  sym_assert((int)res == want, "result by preference");
  if (want == CG_MATCH) sym_assert(which(co) == pick, "the highest preference");
  if (co) co_free(co, 0);
  free(l);
  cvec_free(cvv);
  free(reason);
  cli_end();
  sym_reach("end");
}
