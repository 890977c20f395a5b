/* A handle with a parsed specification. */
#ifndef CLI_H
#define CLI_H
#include "h.h"
static cligen_handle H;
static cvec *GLOB;
static parse_tree *cli(const char *spec) {
  parse_tree *pt = NULL;
  pt_head *ph;
  char *s = strdup(spec);
  if (!H) H = cligen_init();
  if (!GLOB) GLOB = cvec_new(0);
  sym_assert(clispec_parse_str(H, s, "spec", NULL, NULL, GLOB) >= 0, "specification accepted");
  free(s);
  if ((ph = cligen_ph_i(H, 0)) != NULL) pt = cligen_ph_parsetree_get(ph);
  return pt;
}
static void cli_end(void) { if (GLOB) cvec_free(GLOB); GLOB = NULL; if (H) cligen_exit(H); H = NULL; }
/* i:th child of an object or tree, skipping empty ones */
static cg_obj *kid(parse_tree *pt, int i) {
  for (int k = 0; k < pt_len_get(pt); k++) { cg_obj *co = pt_vec_i_get(pt, k); if (co && i-- == 0) return co; }
  return NULL;
}
static cg_obj *kidof(cg_obj *co, int i) { return kid(co_pt_get(co), i); }
#endif
