/* Verification worker: runs apex entry points on request.
 * Protocol (stdin/stdout): request  = "<cmd> <nargs>\n" then per arg "<len>\n<bytes>"
 *                          response = "<nout>\n" then per out "<len>\n<bytes>"   (len -1 = NULL)
 * Internal entry points are declared weak, so that a tree that drops one still links;
 * calling a missing one answers with the single output "!missing".
 */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <unistd.h>
#include <sys/wait.h>
#include <signal.h>
#include <errno.h>
#include "apex/apex.h"
#include "cmark-gfm.h"
#include "cmark-gfm-core-extensions.h"
#include "cmark-gfm-extension_api.h"
#include "extensions/metadata.h"
#include "extensions/citations.h"
#include "extensions/index.h"
#include "extensions/abbreviations.h"
#include "extensions/ial.h"

#define W __attribute__((weak))
typedef char *(*s2s)(const char *);
/* text -> text functions */
#define T2T(X) \
 X(apex_process_highlights) X(apex_process_inserts) X(apex_process_sup_sub) \
 X(apex_process_special_markers) X(apex_process_inline_footnotes) X(apex_process_inline_tables) \
 X(apex_process_relaxed_tables) X(apex_process_headerless_tables) X(apex_process_fenced_divs) \
 X(apex_postprocess_fenced_divs_html) X(apex_preprocess_grid_tables) \
 X(apex_autocorrect_emoji_names) X(apex_replace_emoji) X(apex_replace_emoji_text) \
 X(apex_pretty_print_html) X(apex_clean_html_tag_spacing) X(apex_collapse_intertag_newlines) \
 X(apex_convert_relaxed_table_headers) X(apex_remove_table_blank_lines) \
 X(apex_remove_table_separator_rows) X(apex_strip_figure_paragraph_wrapper) \
 X(apex_strip_block_paragraph_wrapper)
#define DECL(f) extern char *f(const char *) W;
T2T(DECL)
extern char *apex_preprocess_ial(const char *) W;
extern char *apex_preprocess_bracketed_spans(const char *) W;
extern char *apex_process_critic_markup_text(const char *, int) W;
extern char *apex_csv_to_table(const char *, bool) W;
extern char *apex_process_definition_lists(const char *, bool) W;
extern char *apex_generate_header_id(const char *, int) W;
extern char *apex_adjust_header_levels(const char *, int) W;
extern char *apex_adjust_quote_language(const char *, const char *) W;
extern char *apex_process_toc(const char *, cmark_node *, int) W;
extern char *apex_process_includes(const char *, const char *, apex_metadata_item *, int) W;
extern char *apex_resolve_wildcard(const char *, const char *) W;
extern cmark_node *apex_pandoc_json_to_cmark(const char *, const apex_options *) W;
extern char *apex_cmark_to_pandoc_json(cmark_node *, const apex_options *) W;
extern bool apex_extract_manual_header_id(char **, char **) W;
extern const char *apex_find_emoji_name(const char *, size_t) W;
extern char *apex_process_html_markdown(const char *, void *) W;
extern char *apex_inject_header_ids(const char *, cmark_node *, bool, bool, int) W;
extern char *apex_convert_image_captions(const char *, bool, bool) W;

typedef struct { char *p; size_t n; } str;
static FILE *in, *out;
static str args[4096]; static int nargs;

static void die(const char *m) { fprintf(stderr, "worker: %s\n", m); _exit(97); }
static long rdnum(void) {
  long v = 0; int c, neg = 0, any = 0;
  while ((c = getc(in)) != EOF && c != '\n') { if (c == '-') neg = 1; else if (c >= '0' && c <= '9') { v = v * 10 + c - '0'; any = 1; } else die("bad num"); }
  if (!any) { if (c == EOF) _exit(0); die("no num"); }
  return neg ? -v : v;
}
static int nout; static str outs[200000];
static void put_n(const char *p, size_t n) { if (nout >= 200000) die("too many outs"); outs[nout].p = malloc(n + 1); memcpy(outs[nout].p, p, n); outs[nout].p[n] = 0; outs[nout].n = n; nout++; }
static void put(const char *p) { if (!p) { outs[nout].p = NULL; outs[nout].n = 0; nout++; } else put_n(p, strlen(p)); }
static void put_own(char *p) { put(p); free(p); }
static void puti(long v) { char b[32]; snprintf(b, sizeof b, "%ld", v); put(b); }
static void flush_out(void) {
  fprintf(out, "%d\n", nout);
  for (int i = 0; i < nout; i++) {
    if (!outs[i].p) { fprintf(out, "-1\n"); continue; }
    fprintf(out, "%zu\n", outs[i].n); fwrite(outs[i].p, 1, outs[i].n, out); free(outs[i].p);
  }
  nout = 0; fflush(out);
}

/* ---------------- options ---------------- */
#define BOOLS(X) X(enable_plugins) X(enable_tables) X(enable_footnotes) X(enable_definition_lists) X(enable_smart_typography) \
 X(enable_math) X(enable_critic_markup) X(enable_wiki_links) X(enable_task_lists) X(enable_attributes) X(enable_callouts) \
 X(enable_marked_extensions) X(enable_divs) X(enable_spans) X(strip_metadata) X(enable_metadata_variables) \
 X(enable_metadata_transforms) X(enable_file_includes) X(unsafe) X(validate_utf8) X(github_pre_lang) X(standalone) X(pretty) \
 X(hardbreaks) X(nobreaks) X(generate_header_ids) X(header_anchors) X(relaxed_tables) X(per_cell_alignment) \
 X(allow_mixed_list_markers) X(allow_alpha_lists) X(enable_sup_sub) X(enable_strikethrough) X(enable_autolink) \
 X(obfuscate_emails) X(embed_images) X(enable_image_captions) X(title_captions_only) X(enable_citations) \
 X(suppress_bibliography) X(link_citations) X(show_tooltips) X(enable_indices) X(enable_mmark_index_syntax) \
 X(enable_textindex_syntax) X(enable_leanpub_index_syntax) X(suppress_index) X(group_index_by_letter) X(wikilink_sanitize) \
 X(embed_stylesheet) X(enable_aria) X(enable_emoji_autocorrect) X(code_line_numbers) X(highlight_language_only) \
 X(enable_widont) X(code_is_poetry) X(enable_markdown_in_html) X(random_footnote_ids) X(enable_hashtags) X(style_hashtags) \
 X(proofreader_mode) X(hr_page_break) X(title_from_h1) X(page_break_before_footnotes) X(ast_filter_strict)
#define INTS(X) X(critic_mode) X(max_include_depth) X(terminal_width) X(id_format) X(caption_position) X(wikilink_space)
#define STRS(X) X(base_directory) X(document_title) X(theme_name) X(csl_file) X(nocite) X(wikilink_extension) X(code_highlighter) X(input_file_path)

static char *keep[8192]; static int nkeep;
static char *keepdup(const char *s) { if (nkeep >= 8192) die("keep"); return keep[nkeep++] = strdup(s); }
static void keepfree(void) { while (nkeep) free(keep[--nkeep]); }
static const char *l_css[64]; static char *l_bib[64]; static char *l_scr[64]; static const char *l_flt[64];

/* text: "key=value\n..." ; value may hold "\n" escapes; first line mode=N */
static apex_options parse_opts(const char *text) {
  int mode = 4; const char *m = strstr(text, "mode="); if (m && (m == text)) mode = atoi(m + 5);
  apex_options o = mode < 0 ? apex_options_default() : apex_options_for_mode((apex_mode_t)mode);
  o.enable_plugins = false;
  int ncss = 0, nbib = 0, nscr = 0, nflt = 0;
  char *dup = strdup(text), *save = NULL;
  for (char *ln = strtok_r(dup, "\n", &save); ln; ln = strtok_r(NULL, "\n", &save)) {
    char *eq = strchr(ln, '='); if (!eq) continue; *eq = 0; char *k = ln, *v = eq + 1;
    if (!strcmp(k, "mode")) continue;
    int known = 0;
#define SB(f) if (!strcmp(k, #f)) { o.f = atoi(v) != 0; known = 1; }
#define SI(f) if (!strcmp(k, #f)) { o.f = atoi(v); known = 1; }
#define SS(f) if (!strcmp(k, #f)) { o.f = keepdup(v); known = 1; }
    BOOLS(SB) INTS(SI) STRS(SS)
    if (!strcmp(k, "output_format")) { o.output_format = (apex_output_format_t)atoi(v); known = 1; }
    if (!strcmp(k, "css")) { l_css[ncss++] = keepdup(v); known = 1; }
    if (!strcmp(k, "bib")) { l_bib[nbib++] = keepdup(v); known = 1; }
    if (!strcmp(k, "script")) { l_scr[nscr++] = keepdup(v); known = 1; }
    if (!strcmp(k, "filter")) { l_flt[nflt++] = keepdup(v); known = 1; }
    if (!known) { fprintf(stderr, "unknown option %s\n", k); die("option"); }
  }
  free(dup);
  if (ncss) { l_css[ncss] = NULL; o.stylesheet_paths = l_css; o.stylesheet_count = (size_t)ncss; }
  if (nbib) { l_bib[nbib] = NULL; o.bibliography_files = l_bib; }
  if (nscr) { l_scr[nscr] = NULL; o.script_tags = l_scr; }
  if (nflt) { o.ast_filter_commands = l_flt; o.ast_filter_count = (size_t)nflt; }
  return o;
}
static void dump_opts(const apex_options *o) {
  char b[256];
#define DB(f) snprintf(b, sizeof b, #f "=%d", (int)o->f); put(b);
#define DS(f) if (o->f) { char *t = malloc(strlen(o->f) + 64); sprintf(t, #f "=%s", o->f); put_own(t); } else put(#f "=~");
  snprintf(b, sizeof b, "mode=%d", (int)o->mode); put(b);
  snprintf(b, sizeof b, "output_format=%d", (int)o->output_format); put(b);
  snprintf(b, sizeof b, "stylesheet_count=%d", (int)o->stylesheet_count); put(b);
  for (size_t i = 0; i < o->stylesheet_count && o->stylesheet_paths; i++) { char *t = malloc(strlen(o->stylesheet_paths[i]) + 64); sprintf(t, "css=%s", o->stylesheet_paths[i]); put_own(t); }
  for (size_t i = 0; o->bibliography_files && o->bibliography_files[i]; i++) { char *t = malloc(strlen(o->bibliography_files[i]) + 64); sprintf(t, "bib=%s", o->bibliography_files[i]); put_own(t); }
  BOOLS(DB) INTS(DB) STRS(DS)
}
static apex_metadata_item *mk_meta(int from, int n) { /* args from.. as k,v pairs */
  apex_metadata_item *h = NULL, **t = &h;
  for (int i = 0; i + 1 < n; i += 2) {
    apex_metadata_item *it = calloc(1, sizeof *it);
    it->key = strdup(args[from + i].p); it->value = strdup(args[from + i + 1].p); *t = it; t = &it->next;
  }
  return h;
}
static void put_meta(apex_metadata_item *m) { for (; m; m = m->next) { put(m->key); put(m->value); } }
/* exact-size copy, so that ASan sees any overread */
static char *exact(str s) { char *p = malloc(s.n + 1); memcpy(p, s.p, s.n); p[s.n] = 0; return p; }

static void put_bib(apex_bibliography_registry *r) {
  if (!r) { put("!null"); return; }
  puti((long)r->count);
  for (apex_bibliography_entry *e = r->entries; e; e = e->next) {
    put(e->id); put(e->type); put(e->title); put(e->author); put(e->year); put(e->container_title); put(e->publisher); put(e->volume); put(e->page);
  }
}

static void handle(const char *cmd) {
#define NEED(n) if (nargs < (n)) die("args")
#define HAVE(f) if (!(f)) { put("!missing"); return; }
  if (!strcmp(cmd, "conv")) { NEED(2); /* opts, text [, len] */
    apex_options o = parse_opts(args[0].p), c; memcpy(&c, &o, sizeof o);
    char *t = exact(args[1]); size_t n = nargs > 2 ? (size_t)atol(args[2].p) : args[1].n;
    char *r = apex_markdown_to_html(t, n, &o);
    put(r);
    if (memcmp(t, args[1].p, args[1].n) || t[args[1].n]) put("!input-modified");
    if (memcmp(&c, &o, sizeof o)) put("!options-modified");
    apex_free_string(r); free(t); keepfree(); return;
  }
  if (!strcmp(cmd, "t2t")) { NEED(2);
    s2s f = NULL; int known = 0;
#define SEL(g) if (!strcmp(args[0].p, #g)) { f = g; known = 1; }
    T2T(SEL) SEL(apex_preprocess_ial) SEL(apex_preprocess_bracketed_spans)
    if (!known) die("t2t");
    HAVE(f); char *t = exact(args[1]); char *r = f(t); put(r); free(r); free(t); return;
  }
#define T2I(name) if (!strcmp(cmd, #name)) { NEED(2); HAVE(name); char *t = exact(args[0]); char *r = name(t, atoi(args[1].p)); put(r); free(r); free(t); return; }
  T2I(apex_process_critic_markup_text) T2I(apex_csv_to_table) T2I(apex_process_definition_lists) T2I(apex_generate_header_id) T2I(apex_adjust_header_levels)
  if (!strcmp(cmd, "quotes")) { NEED(2); HAVE(apex_adjust_quote_language); char *t = exact(args[0]); char *r = apex_adjust_quote_language(t, args[1].p); put(r); free(r); free(t); return; }
  if (!strcmp(cmd, "toc")) { NEED(2); HAVE(apex_process_toc); char *t = exact(args[0]); char *r = apex_process_toc(t, NULL, atoi(args[1].p)); put(r); free(r); free(t); return; }
  if (!strcmp(cmd, "captions")) { NEED(3); HAVE(apex_convert_image_captions); char *t = exact(args[0]); char *r = apex_convert_image_captions(t, atoi(args[1].p), atoi(args[2].p)); put(r); free(r); free(t); return; }
  if (!strcmp(cmd, "wrap")) { NEED(5); /* content,title,header,footer,lang ("~" = NULL), css... */
    const char *a[6]; for (int i = 0; i < 5; i++) a[i] = strcmp(args[i].p, "~") ? args[i].p : NULL;
    const char *css[32]; int n = 0; for (int i = 5; i < nargs && n < 31; i++) css[n++] = args[i].p; css[n] = NULL;
    char *r = apex_wrap_html_document(a[0], a[1], n ? css : NULL, (size_t)n, NULL, a[2], a[3], a[4]); put(r); apex_free_string(r); return; }
  if (!strcmp(cmd, "meta_extract")) { NEED(1); char *t = exact(args[0]); char *p = t; apex_metadata_item *m = apex_extract_metadata(&p);
    if (p < t || p > t + args[0].n) { put("!range"); } else put(p); put_meta(m); apex_free_metadata(m); free(t); return; }
  if (!strcmp(cmd, "meta_get")) { NEED(1); apex_metadata_item *m = mk_meta(1, nargs - 1); const char *r = apex_metadata_get(m, args[0].p); put(r); apex_free_metadata(m); return; }
  if (!strcmp(cmd, "meta_vars")) { NEED(2); apex_options o = parse_opts(args[0].p); apex_metadata_item *m = mk_meta(2, nargs - 2); char *t = exact(args[1]);
    char *r = apex_metadata_replace_variables(t, m, &o); put(r); free(r); free(t); apex_free_metadata(m); keepfree(); return; }
  if (!strcmp(cmd, "meta_opts")) { NEED(1); apex_options o = parse_opts(args[0].p); apex_metadata_item *m = mk_meta(1, nargs - 1); apex_apply_metadata_to_options(m, &o); dump_opts(&o); apex_free_metadata(m); keepfree(); return; }
  if (!strcmp(cmd, "meta_cmd")) { NEED(1); apex_metadata_item *m = apex_parse_command_metadata(args[0].p); put_meta(m); apex_free_metadata(m); return; }
  if (!strcmp(cmd, "meta_file")) { NEED(1); apex_metadata_item *m = apex_load_metadata_from_file(args[0].p); put_meta(m); apex_free_metadata(m); return; }
  if (!strcmp(cmd, "meta_merge")) { NEED(3); /* n1,n2,n3 pairs then items */
    int n1 = atoi(args[0].p) * 2, n2 = atoi(args[1].p) * 2, n3 = atoi(args[2].p) * 2;
    apex_metadata_item *a = mk_meta(3, n1), *b = mk_meta(3 + n1, n2), *c = mk_meta(3 + n1 + n2, n3);
    apex_metadata_item *r;
    if (n3) r = apex_merge_metadata(a, b, c, NULL); else if (n2) r = apex_merge_metadata(a, b, NULL); else r = apex_merge_metadata(a, NULL);
    put_meta(r); apex_free_metadata(r); apex_free_metadata(a); apex_free_metadata(b); apex_free_metadata(c); return; }
  if (!strcmp(cmd, "includes")) { NEED(2); HAVE(apex_process_includes); apex_metadata_item *m = mk_meta(2, nargs - 2); char *t = exact(args[0]); char *r = apex_process_includes(t, args[1].p, m, 0); put(r); free(r); free(t); apex_free_metadata(m); return; }
  if (!strcmp(cmd, "abbr")) { NEED(2); /* markdown, html */
    char *t = exact(args[0]), *p = t; abbr_item *a = apex_extract_abbreviations(&p); char *r = apex_replace_abbreviations(args[1].p, a);
    put(p); put(r); for (abbr_item *i = a; i; i = i->next) { put(i->abbr); put(i->expansion); }
    free(r); apex_free_abbreviations(a); free(t); return; }
  if (!strcmp(cmd, "bibtex")) { NEED(1); char *t = exact(args[0]); apex_bibliography_registry *r = apex_parse_bibtex(t); put_bib(r); apex_free_bibliography_registry(r); free(t); return; }
  if (!strcmp(cmd, "csljson")) { NEED(1); char *t = exact(args[0]); apex_bibliography_registry *r = apex_parse_csl_json(t); put_bib(r); apex_free_bibliography_registry(r); free(t); return; }
  if (!strcmp(cmd, "cslyaml")) { NEED(1); char *t = exact(args[0]); apex_bibliography_registry *r = apex_parse_csl_yaml(t); put_bib(r); apex_free_bibliography_registry(r); free(t); return; }
  if (!strcmp(cmd, "bibload")) { NEED(1); const char *fs[32]; int n = 0; for (int i = 1; i < nargs && n < 31; i++) fs[n++] = args[i].p; fs[n] = NULL;
    apex_bibliography_registry *r = apex_load_bibliography(fs, args[0].n ? args[0].p : NULL); put_bib(r); apex_free_bibliography_registry(r); return; }
  if (!strcmp(cmd, "index")) { NEED(2); /* opts, text -> text, entries(item,sub,primary,anchor)*, "|", html of the index */
    apex_options o = parse_opts(args[0].p); apex_index_registry reg; memset(&reg, 0, sizeof reg); char *t = exact(args[1]);
    char *r = apex_process_index_entries(t, &reg, &o); put(r); char *html = apex_generate_index_html(&reg, &o); put(html); 
    for (apex_index_entry *e = reg.entries; e; e = e->next) { put(e->item); put(e->subitem); puti(e->primary); put(e->anchor_id); }
    free(r); free(html); apex_free_index_registry(&reg); free(t); keepfree(); return; }
  if (!strcmp(cmd, "json2")) { NEED(2); HAVE(apex_pandoc_json_to_cmark); /* opts,json -> html, json again */
    apex_options o = parse_opts(args[0].p); char *t = exact(args[1]); cmark_node *d = apex_pandoc_json_to_cmark(t, &o);
    if (!d) { put(NULL); put(NULL); } else { char *h = cmark_render_html(d, CMARK_OPT_UNSAFE, NULL); put(h); free(h); char *j = apex_cmark_to_pandoc_json(d, &o); put(j); free(j); cmark_node_free(d); }
    free(t); keepfree(); return; }
  if (!strcmp(cmd, "manual_id")) { NEED(1); HAVE(apex_extract_manual_header_id); char *t = exact(args[0]), *id = NULL; bool b = apex_extract_manual_header_id(&t, &id); puti(b); put(t); put(id); free(t); free(id); return; }
  if (!strcmp(cmd, "emojiname")) { NEED(1); HAVE(apex_find_emoji_name); put(apex_find_emoji_name(args[0].p, args[0].n)); return; }
  if (!strcmp(cmd, "attrs")) { NEED(1); char *t = exact(args[0]); apex_attributes *a = parse_ial_content(t, (int)args[0].n); if (!a) { put(NULL); free(t); return; }
    char *h = attributes_to_html(a); put(h); put(a->id); puti(a->class_count); for (int i = 0; i < a->class_count; i++) put(a->classes[i]); puti(a->attr_count); for (int i = 0; i < a->attr_count; i++) { put(a->keys[i]); put(a->values[i]); }
    free(h); apex_free_attributes(a); free(t); return; }
  if (!strcmp(cmd, "cmark")) { NEED(3); /* reference renderer: opts int, ext list, text */
    int co = atoi(args[0].p); cmark_gfm_core_extensions_ensure_registered(); cmark_parser *p = cmark_parser_new(co);
    char *e = strdup(args[1].p), *sv = NULL; for (char *x = strtok_r(e, ",", &sv); x; x = strtok_r(NULL, ",", &sv)) { cmark_syntax_extension *s = cmark_find_syntax_extension(x); if (!s) die("ext"); cmark_parser_attach_syntax_extension(p, s); }
    free(e); cmark_parser_feed(p, args[2].p, args[2].n); cmark_node *d = cmark_parser_finish(p);
    char *h = cmark_render_html(d, co, cmark_parser_get_syntax_extensions(p)); put(h); free(h); cmark_node_free(d); cmark_parser_free(p); return; }
  if (!strcmp(cmd, "opts")) { NEED(1); apex_options o = parse_opts(args[0].p); dump_opts(&o); keepfree(); return; }
  if (!strcmp(cmd, "version")) { put(apex_version_string()); puti(apex_version_major()); puti(apex_version_minor()); puti(apex_version_patch()); return; }
  if (!strcmp(cmd, "ping")) { put("pong"); return; }
  die(cmd);
}

int main(void) {
  /* keep the protocol channel away from anything the code prints */
  int fd = dup(1); dup2(2, 1);
  in = stdin; out = fdopen(fd, "w");
  char cmd[64];
  for (;;) {
    int i = 0, c;
    while ((c = getc(in)) != EOF && c != ' ' && i < 63) cmd[i++] = (char)c;
    if (c == EOF) break;
    cmd[i] = 0; nargs = (int)rdnum(); if (nargs < 0 || nargs > 4096) die("nargs");
    for (i = 0; i < nargs; i++) { size_t n = (size_t)rdnum(); args[i].p = malloc(n + 1); args[i].n = n; if (fread(args[i].p, 1, n, in) != n) die("short"); args[i].p[n] = 0; }
    if (!strncmp(cmd, "iso:", 4)) { /* run it in a forked child: this process keeps its state */
      fflush(out); pid_t k = fork();
      if (k == 0) { handle(cmd + 4); flush_out(); _exit(0); }
      int stt; while (waitpid(k, &stt, 0) < 0 && errno == EINTR) {}
      if (!WIFEXITED(stt) || WEXITSTATUS(stt)) _exit(98);
    } else { handle(cmd); flush_out(); }
    for (i = 0; i < nargs; i++) free(args[i].p);
  }
  return 0;
}
