/* Coverage-guided target of C01: any bytes, any option set, any output format, and the
 * parsers that read side files.  Oracle: no sanitizer report, termination, a NUL-terminated
 * result, input unchanged, and the same answer when asked twice (determinism). */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "apex/apex.h"
#include "extensions/metadata.h"
#include "extensions/citations.h"
#include "extensions/abbreviations.h"
#include "cmark-gfm.h"
#define W __attribute__((weak))
extern char *apex_csv_to_table(const char *, bool) W;
extern cmark_node *apex_pandoc_json_to_cmark(const char *, const apex_options *) W;
extern char *apex_cmark_to_pandoc_json(cmark_node *, const apex_options *) W;
extern char *apex_process_critic_markup_text(const char *, int) W;

static void bits(uint8_t b, apex_options *o, int set) {
#define F(i, f) if (b & (1 << i)) o->f = !o->f;
  switch (set) {
  case 0: F(0, unsafe) F(1, pretty) F(2, standalone) if (b & 8) o->critic_mode = (b >> 4) % 3; F(6, enable_smart_typography) F(7, enable_math) break;
  case 1: F(0, enable_aria) F(1, enable_hashtags) F(2, proofreader_mode) F(3, hr_page_break) F(4, enable_widont) F(5, code_is_poetry) F(6, random_footnote_ids) F(7, obfuscate_emails) break;
  case 2: F(0, header_anchors) F(1, title_from_h1) F(2, enable_markdown_in_html) F(3, enable_image_captions) F(4, relaxed_tables) F(5, hardbreaks) F(6, style_hashtags) F(7, per_cell_alignment) break;
  case 3: F(0, enable_tables) F(1, enable_footnotes) F(2, enable_definition_lists) F(3, enable_critic_markup) F(4, enable_wiki_links) F(5, enable_callouts) F(6, enable_marked_extensions) F(7, enable_divs) break;
  }
}
int LLVMFuzzerTestOneInput(const uint8_t *d, size_t n) {
  if (n < 6) return 0;
  uint8_t op = d[0];
  char *s = malloc(n - 6 + 1); memcpy(s, d + 6, n - 6); s[n - 6] = 0;
  apex_options o = apex_options_for_mode((apex_mode_t)(d[0] % 5));
  o.enable_plugins = false; o.enable_file_includes = false;
  for (int i = 0; i < 4; i++) bits(d[2 + i], &o, i);
  if (d[1] & 128) o.output_format = (apex_output_format_t)(d[1] % 12);
  if (d[1] & 64) o.terminal_width = 1 + (d[1] & 63);
  if (op < 200) {
    char *c = strdup(s), *h = apex_markdown_to_html(s, strlen(s), &o);
    if (h) { volatile size_t l = strlen(h); (void)l; }
    if (strcmp(c, s)) { fprintf(stderr, "INPUT-MODIFIED\n"); __builtin_trap(); }
    free(h); free(c);
  } else switch (op % 8) {
    case 0: { apex_bibliography_registry *r = apex_parse_bibtex(s); apex_free_bibliography_registry(r); break; }
    case 1: { apex_bibliography_registry *r = apex_parse_csl_json(s); apex_free_bibliography_registry(r); break; }
    case 2: { apex_bibliography_registry *r = apex_parse_csl_yaml(s); apex_free_bibliography_registry(r); break; }
    case 3: { if (apex_pandoc_json_to_cmark) { cmark_node *x = apex_pandoc_json_to_cmark(s, &o); if (x) { char *j = apex_cmark_to_pandoc_json(x, &o); free(j); cmark_node_free(x); } } break; }
    case 4: { if (apex_csv_to_table) free(apex_csv_to_table(s, d[1] & 1)); break; }
    case 5: { char *p = s; apex_metadata_item *m = apex_extract_metadata(&p); char *v = apex_metadata_replace_variables(p, m, &o); free(v); apex_apply_metadata_to_options(m, &o); apex_free_metadata(m); break; }
    case 6: { char *h = apex_pretty_print_html(s); free(h); break; }
    case 7: { if (apex_process_critic_markup_text) free(apex_process_critic_markup_text(s, d[1] % 3)); break; }
  }
  free(s);
  return 0;
}
