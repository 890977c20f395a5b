/* A text that tells apart trees that accept, show or call different things. */
#ifndef DIG_H
#define DIG_H
#include "cli.h"
static int odd;         /* texts that have no place in a specification: no name, a backslash last, operators in names of functions and variables */
static void raw_(const char *s) { int n = s ? strlen(s) : 0; if (n && s[n - 1] == '\\') odd = 1; }
static void fn_(const char *s) {
  for (; s && *s; s++) for (const char *q = " \t\n,#=;(){}\"\\"; *q; q++) if (*s == *q) odd = 1;
}
static char *pn(char *p, int n) { return p + sprintf(p, "%d.", n); }
static char *ps(char *p, const char *s) {
  if (s == NULL) { *p++ = '0'; return p; }
  *p++ = '"';
  while (*s) *p++ = *s++;
  *p++ = '"';
  return p;
}
static char *pcv(char *p, cg_var *cv) {
  if (cv == NULL) { *p++ = '-'; return p; }
  p = pn(p, cv_type_get(cv));
  p = pn(p, cv_flag(cv, 0xff));
  p = ps(p, cv_name_get(cv));
  if (cv_type_get(cv) != CGV_EMPTY) {
    char *s = cv2str_dup(cv);
    raw_(s);
    p = ps(p, s);
    free(s);
  }
  return p;
}
static char *pcvv(char *p, cvec *v) {
  *p++ = '[';
  for (int i = 0; v && i < cvec_len(v); i++) p = pcv(p, cvec_i(v, i));
  *p++ = ']';
  return p;
}
/* everything that decides what a tree accepts, shows and calls */
static char *dig(char *p, parse_tree *pt) {
  *p++ = '{';
  for (int i = 0; pt && i < pt_len_get(pt); i++) {
    cg_obj *co = pt_vec_i_get(pt, i);
    if (co == NULL || co->co_type == CO_EMPTY) { *p++ = ';'; continue; }
    p = pn(p, co->co_type);
    p = ps(p, co->co_command);
    if (co->co_command[0] == 0) odd = 1;
    p = ps(p, co->co_helpstring);
    p = pn(p, (co_flags_get(co, CO_FLAGS_HIDE) != 0) + 2 * (co_flags_get(co, CO_FLAGS_OPTION) != 0));
    int kids = 0;
    for (int k = 0; k < pt_len_get(co_pt_get(co)); k++) { cg_obj *c = pt_vec_i_get(co_pt_get(co), k); kids |= c && c->co_type != CO_EMPTY; }
    p = pn(p, kids && co_sets_get(co));
    p = pn(p, co->co_preference);
    for (int k = 0; k < cvec_len(co->co_cvec); k++) fn_(cv_name_get(cvec_i(co->co_cvec, k)));
    for (int k = 0; k < cvec_len(co->co_cvec); k++)
      if (strcmp(cv_name_get(cvec_i(co->co_cvec, k)), "hide")) p = pcv(p, cvec_i(co->co_cvec, k));     /* hide is a flag, too */
    for (cg_callback *cc = co->co_callbacks; cc; cc = cc->cc_next) { fn_(cc->cc_fn_str); p = ps(p, cc->cc_fn_str); p = pcvv(p, cc->cc_cvec); }
    if (co->co_type == CO_VARIABLE) {
      p = pn(p, co->co_vtype);
      p = pn(p, co->co_rangelen);
      for (int k = 0; k < co->co_rangelen; k++) { p = pcv(p, cvec_i(co->co_rangecvv_low, k)); p = pcv(p, cvec_i(co->co_rangecvv_upp, k)); }
      raw_(co->co_show); raw_(co->co_choice); raw_(co->co_translate_fn_str); raw_(co->co_expand_fn_str); raw_(co->co_command);
      p = ps(p, co->co_show);
      p = ps(p, co->co_choice);
      p = ps(p, co->co_translate_fn_str);
      p = ps(p, co->co_expand_fn_str);
      p = pcvv(p, co->co_expand_fn_vec);
      p = pcvv(p, co->co_regex);
      if (co->co_vtype == CGV_DEC64) p = pn(p, co->co_dec64_n);
    }
    p = dig(p, co_pt_get(co));
  }
  *p++ = '}';
  *p = 0;
  return p;
}
#endif
