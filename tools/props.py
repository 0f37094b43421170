PROPS = []
NOT_APPLICABLE = []


def P(id, title, statement, q, why, files, mech, tech, note, over=("inputs", "configurations"), at=None):
    d = dict(id=id, title=title, statement=statement, q=q, why=why, files=files, mech=mech, tech=tech, note=note, over=list(over))
    if at: d["at"] = at
    PROPS.append(d)


NOTE = "Generated-input search with a fixed seed: a violation comes with a shrunk replay; silence means no counterexample among the counted cases. "

P("C01", "Any text, options and output format: conversion returns, memory-safely",
  "For every NUL-terminated byte string, every dialect, every combination of options and every output format (HTML, JSON, Markdown dialects, terminal, man), a conversion terminates and returns a string, without reading or writing outside its buffers, using freed memory or crashing. The same holds for the parsers of side files (bibliographies, metadata, CSV, JSON syntax trees) on arbitrary file contents.",
  "all byte strings x all option sets x all output formats", "The test suite converts a few hundred hand-written samples; buffers are sized by heuristics over the input, so only unusual shapes overflow them.",
  ["src/apex.c", "src/extensions", "src/html_renderer.c", "src/ast_json.c", "src/ast_terminal.c", "src/ast_man.c", "src/ast_markdown.c"],
  [("output buffer sizing and growth", "every text pass in src/extensions and src/apex.c"), ("node ownership when the syntax tree is rewritten", "src/extensions/ial.c, advanced_footnotes.c, definition_list.c")],
  "Hypothesis structured generation + libFuzzer under AddressSanitizer", NOTE + "AddressSanitizer is the oracle; cmark-gfm and libyaml are trusted.")

P("C02", "A conversion is a pure function of text and options",
  "Converting the same text with the same options always gives the same output, whatever was converted before in the same process, how often, and with which other options; the caller's text and options are left unchanged. Only the first `len` bytes of the text matter.",
  "all histories of conversions in one process", "Tests convert each sample once in a fresh order; leaked static state, exhausted registries and leftovers of earlier documents show only in histories.",
  ["src/apex.c", "src/ast_man.c", "src/ast_terminal.c", "src/extensions"], [("file-scope state that must be reset per conversion", "src/ast_man.c, src/ast_terminal.c, src/extensions/advanced_tables.c, header ids, footnote counters"), ("cmark extension registration", "src/apex.c, src/extensions/math.c, definition_list.c")],
  "stateful generation: histories compared with fresh processes", NOTE + "A forked idle process stands for a fresh one; the random-footnote-id option is excluded.", over=("histories", "inputs", "configurations"))

P("C03", "CommonMark mode is CommonMark, GFM mode is GFM",
  "In CommonMark mode the HTML is what the CommonMark reference implementation gives for the same text (Liquid tags aside), whatever syntax of other dialects the text contains; white space inside tags and between adjacent tags may differ. In GFM mode the same holds against the GFM reference for documents of paragraphs, headings, lists, task lists, quotes, code, strikethrough and regular tables.",
  "all documents x rendering flags (raw HTML allowed or not, hard breaks, smart punctuation)", "Tests check single snippets with substring matches, never the whole output against the reference.",
  ["src/apex.c", "src/html_renderer.c", "src/extensions"], [("dialect gating of every preprocessing and post-processing pass", "src/apex.c apex_markdown_to_html"), ("option presets per dialect", "src/apex.c apex_options_for_mode")],
  "differential testing against libcmark-gfm", NOTE + "The system's libcmark-gfm is the reference.")

P("C05", "CriticMarkup accept, reject and markup views show exactly the edits",
  "In the accept view every complete edit is replaced by its new text ({++a++}, {~~a~>b~~} and {==a==} keep a, b, a; {--a--} and {>>a<<} vanish), in the reject view by its old text, and in the markup view by ins, del, mark and comment-span elements holding that text; everything outside complete edits, including unclosed markers, is unchanged byte for byte. Edits do not nest: the first matching closing marker ends an edit, and the first ~> splits a substitution.",
  "all texts x three views, edits of any length at any place", "Tests try a handful of one-edit strings.",
  ["src/extensions/critic.c", "src/apex.c"], [("scan of markers and output assembly", "src/extensions/critic.c")], "reference model + metamorphic (converted edited document)", NOTE)

P("C06", "Highlight, insert, superscript and subscript markers",
  "==a==, ++a++ (markers of exactly two characters hugging their text on one line, not part of CriticMarkup), ^a^ or ^a (up to white space or .,;:!?), ~a~ inside a word (subscript) and ~a~ around a word (underline) become mark, ins, sup, sub and u elements around exactly that text, and all other text is unchanged byte for byte. Nothing changes inside fenced code, single-backtick spans, math, Liquid tags, link destinations, HTML tags, comments or (highlight and superscript) indented code, escaped ^ and ~ are text, and the text after such regions is processed again.",
  "all texts of markers, near misses and code regions", "Tests try isolated markers; near misses, several markers per line and markers next to code are not sampled.",
  ["src/extensions/highlight.c", "src/extensions/insert.c", "src/extensions/sup_sub.c"], [("marker scanners with code tracking", "src/extensions/highlight.c, insert.c, sup_sub.c")], "reference model + metamorphic", NOTE)

P("C07", "Metadata blocks are split off exactly and read completely",
  "A YAML, MultiMarkdown or Pandoc title block at the start of a document is recognised as such, every key of it can be looked up (ignoring case and spaces) with the value written there, and the body that remains is exactly the text after the block; a document without such a block is left unchanged. The converted document shows no metadata text and all of the body, in every dialect that supports metadata, and documents without metadata syntax are unaffected.",
  "all metadata blocks of the three kinds x all bodies x dialects", "Tests look up single keys in two or three fixed blocks and never compare the remaining body.",
  ["src/extensions/metadata.c", "src/apex.c"], [("block detection and splitting", "src/extensions/metadata.c apex_extract_metadata"), ("case and space insensitive lookup", "src/extensions/metadata.c apex_metadata_get")],
  "reference model over generated blocks", NOTE, at=["apex_extract_metadata", "apex_metadata_get", "apex_markdown_to_html"])

P("C12", "Header IDs follow the documented rules, are unique, and the TOC links to them",
  "Every heading gets the id given by the documented rules of the selected format (GFM, MultiMarkdown, Kramdown) for its text, or its manual id ([id], {#id}, {: #id}); ids of generated headings are made unique with -1, -2, ..., raw HTML headings keep their own attributes, and the heading text, level and order never change. A table of contents lists exactly the headings within its levels (except .no_toc ones) in order, correctly nested, with their text and a link to the id the heading really has.",
  "all heading texts x three id formats x documents of any number and length of headings", "Tests check a dozen ids by substring; long, many, duplicate and emphasised headings and the agreement between TOC and headings are not sampled.",
  ["src/extensions/header_ids.c", "src/extensions/toc.c", "src/html_renderer.c"], [("id generation", "src/extensions/header_ids.c apex_generate_header_id"), ("id injection into the HTML", "src/html_renderer.c apex_inject_header_ids"), ("TOC generation", "src/extensions/toc.c apex_process_toc")],
  "reference model over generated headings and documents", NOTE, at=["apex_generate_header_id", "apex_extract_manual_header_id", "apex_markdown_to_html"])

P("C08", "Metadata variables and transforms give the documented values",
  "[%key] is replaced by the value of that metadata key (ignoring case and spaces), and [%key:t1:t2(...)] by the value passed through the documented transforms from left to right (case, trim, slug, replace, substring, truncate, split, join, first, last, slice, default, escape, basename, URL coding, prefix, suffix, remove, repeat, reverse, format, length, pad, contains, strftime). Unknown keys and unclosed brackets stay as written, unknown transforms change nothing, and all other text is unchanged byte for byte.",
  "all texts x metadata x chains of transforms", "Each transform has one or two example tests; chains, boundary numbers, repeated variables and long values are not sampled.",
  ["src/extensions/metadata.c"], [("variable scanner and transform chain", "src/extensions/metadata.c apex_metadata_replace_variables, apply_transform")], "reference model over generated chains", NOTE, at=["apex_metadata_replace_variables", "apex_markdown_to_html"])

P("C09", "Metadata sources merge with the documented precedence and drive the options",
  "Metadata from a metadata file, the document and the command line is merged key by key (ignoring case): the document overrides the file and the command line overrides both. --meta accepts several comma-separated pairs, quoted values and values containing commas. Every documented option key, in every spelling, with true/yes/1 or false/no/0 in any case, sets exactly its option (and those it implies), unknown keys and values change nothing, and a mode key first resets the options to that dialect's defaults.",
  "all lists of metadata items x base options; all placements of keys in file, document and command line", "Tests cover a few keys singly; the full option set is never compared, nor are repeated keys and all three sources together.",
  ["src/extensions/metadata.c", "cli/main.c"], [("metadata to option table", "src/extensions/metadata.c apex_apply_metadata_to_options"), ("merging", "src/extensions/metadata.c apex_merge_metadata, apex_parse_command_metadata; cli/main.c")],
  "reference table and merge model; CLI runs against library options", NOTE, at=["apex_apply_metadata_to_options", "apex_merge_metadata", "apex_parse_command_metadata", "apex CLI"])

P("C10", "Includes insert exactly the selected file content, from the right place",
  "{{file}}, <<[file], <<(file) and /file insert the named file, found relative to the including file (or its transclude base), as Markdown, as a code block that its content cannot end, as a table (CSV, TSV) or as an image; nested includes are resolved up to ten levels deep, and cycles end. An address selects exactly the lines it names ([3,5] is lines 3 and 4, [3,] to the end, /a/,/b/ from the first match to before the next) with the prefix on each; text around includes, missing files in {{...}}, and include syntax inside backtick code are left as written.",
  "all file trees x include syntaxes x addresses, files of any size", "Tests include a few small fixtures; nested folders, transclude bases, last lines without newline, large files and cycles are not sampled.",
  ["src/extensions/includes.c", "src/apex.c"], [("include scanner and recursion", "src/extensions/includes.c apex_process_includes"), ("line selection", "src/extensions/includes.c extract_lines"), ("CSV conversion", "src/extensions/includes.c apex_csv_to_table")],
  "reference expansion over generated file trees", NOTE + "Front matter of included files is not judged.", at=["apex_process_includes", "apex_csv_to_table", "apex_markdown_to_html"], over=("inputs", "configurations"))

P("C11", "--combine and --mmd-merge join exactly the listed files, in order",
  "--combine outputs the listed files in order, with their includes expanded and a blank line between them; a SUMMARY.md in the list stands for the local files its links name (titles and #anchors aside), in order. --mmd-merge outputs the files an index names, with every line that begins with # given one more # per tab or four spaces of indentation, skipping comments and blank lines. Unreadable files are skipped with a warning, and -o receives the same bytes as standard output.",
  "all lists, SUMMARY files and indexes over all file trees", "The shell tests of the suite run two or three fixed layouts; none nests deeper than one level or mixes SUMMARY.md with other files.",
  ["cli/main.c", "src/extensions/includes.c"], [("summary scan and separation", "cli/main.c apex_cli_combine_from_summary, apex_cli_write_combined_chunk"), ("index reading and heading shift", "cli/main.c apex_cli_mmd_merge_index, apex_cli_shift_headers")],
  "reference model over generated file trees, runs of the program", NOTE, at=["apex --combine", "apex --mmd-merge"])

P("C13", "Every footnote appears once, numbered by first use and linked both ways",
  "Each note that is referred to, by label ([^x] with a definition of any number of blocks, anywhere in the document) or inline (^[text], [^several words]), appears exactly once, complete, in the footnote section, numbered in the order of first reference; every reference links to its note and every note back to each of its references, with unique ids (also with random footnote ids). Undefined references stay as written, unreferenced definitions are not shown, code is untouched, and the rest of the text is unchanged.",
  "all documents x labels x kinds of notes", "Tests check one or two notes by substring; numbering, repeated references, label clashes and notes next to code are not sampled.",
  ["src/extensions/inline_footnotes.c", "src/extensions/advanced_footnotes.c", "src/apex.c"], [("inline note rewriting", "src/extensions/inline_footnotes.c apex_process_inline_footnotes"), ("footnote id prefixes", "src/apex.c apex_add_hash_to_footnote_ids")],
  "reference model over generated documents", NOTE, at=["apex_process_inline_footnotes", "apex_markdown_to_html"])

P("C14", "The JSON syntax tree is valid, complete and read back exactly; filters chain",
  "JSON output is valid JSON and, in Pandoc's types, exactly the document's tree of paragraphs, headings, lists (kind, start, delimiter, tightness), quotes, code, rules, emphasis, links, images, strikethrough and raw HTML. Reading such a tree, in any key order, spacing or escaping, gives the same document again. AST filters run in the order given, each sees the tree left by the one before and its target format, a document of any size passes an identity filter unchanged, and a failing filter fails the conversion, or is skipped with --no-strict-filters.",
  "all trees x all encodings x all chains of filter programs", "Tests parse six fixed JSON strings and count blocks; no test looks at inlines, lists, escapes or at the validity of the output.",
  ["src/ast_json.c", "src/filters_ast.c", "src/apex.c"], [("tree writer and reader", "src/ast_json.c apex_cmark_to_pandoc_json, apex_pandoc_json_to_cmark"), ("filter processes and their pipes", "src/filters_ast.c apex_run_ast_filters")],
  "reference model (Python renderer), round trip and differential against libcmark-gfm", NOTE + "Tables and footnotes travel as raw HTML.", over=("inputs", "configurations", "histories"), at=["apex_cmark_to_pandoc_json", "apex_pandoc_json_to_cmark", "apex_run_ast_filters", "apex --filter"])

P("C22", "Every kind of table syntax gives exactly the table it describes",
  "A pipe table (with or without outer pipes), a relaxed table (rows without a separator line, where the dialect allows them), a headerless table (separator line first) and a CSV or TSV table (```table fence or <!--TABLE--> marker) become one HTML table with exactly its rows and cells in their order: header cells in thead, body rows in tbody, rows after a === row in tfoot, || joining a cell with the following column, ^^ extending the cell above, the alignment of its column, a row-header column when only the first header cell is empty, and its caption once. Pipes in code, code spans, lists, quotes, headings or escaped are no table syntax, and no text outside tables changes.",
  "all tables x dialects x surrounding blocks", "Tests look for single cells in fixed tables; sections, spans, one-row tables, short rows and pipes outside tables are not sampled.",
  ["src/extensions/relaxed_tables.c", "src/extensions/inline_tables.c", "src/extensions/includes.c", "src/extensions/advanced_tables.c", "src/extensions/table_html_postprocess.c", "src/html_renderer.c", "src/apex.c"],
  [("separator insertion for relaxed tables and dummy headers for headerless ones", "src/extensions/relaxed_tables.c"), ("CSV/TSV rewriting", "src/extensions/inline_tables.c, includes.c apex_csv_to_table"), ("spans, footers, captions", "src/extensions/advanced_tables.c, table_html_postprocess.c"), ("caption normalisation", "src/apex.c apex_preprocess_table_captions")],
  "reference model over generated tables and documents", NOTE, at=["apex_process_inline_tables", "apex_markdown_to_html"])

P("C04", "Code is verbatim",
  "The content of every code block (fences of backticks or tildes of any length, with or without a language; indented code; also within lists and quotes) and of every code span (in paragraphs, headings, lists, quotes, table cells, links, definitions) reaches the output exactly as written, HTML-escaped, in every dialect and with every option that rewrites text. No extension's syntax, definition or variable has an effect in code, and code does not affect the text around it.",
  "all code contents x places x dialects x options", "Tests show one or two syntaxes in one fence each; the product of some thirty syntaxes with all places for code is not sampled.",
  ["src/apex.c", "src/extensions/highlight.c", "src/extensions/insert.c", "src/extensions/sup_sub.c", "src/extensions/inline_tables.c", "src/extensions/inline_footnotes.c", "src/extensions/relaxed_tables.c", "src/extensions/emoji.c", "src/extensions/abbreviations.c"],
  [("code regions skipped by each text pass", "src/extensions/*.c"), ("protection of code during preprocessing", "src/apex.c apex_protect_code, apex_restore_code")],
  "invariant over generated documents (code content equals source), identity of text passes", NOTE, over=("inputs", "configurations"), at=["apex_markdown_to_html", "apex_process_highlights", "apex_replace_emoji"])

P("C24", "No text is lost, doubled or reordered, however long or nested",
  "Every word of a document's text, in any combination of paragraphs, headings, lists, quotes, callouts, tables, definitions, divs, code, raw HTML and captions, with any inline markup, appears in the output exactly once and in document order, notes following at the end. This holds for elements of any length.",
  "all documents of these constructs x sizes x dialects x options", "Tests look for the construct they are about in a short document; long lines, neighbouring constructs and completeness are not looked at.",
  ["src/apex.c", "src/html_renderer.c", "src/extensions/abbreviations.c", "src/extensions/ial.c", "src/extensions/definition_list.c", "src/extensions/html_markdown.c", "src/extensions/fenced_divs.c"],
  [("line buffers of the text passes", "src/extensions/abbreviations.c apex_extract_abbreviations, ial.c apex_extract_alds"), ("removal of caption paragraphs", "src/extensions/table_html_postprocess.c")],
  "invariant over generated documents with numbered words", NOTE + "Notes referred to only from definitions or Markdown in HTML are recorded findings.", over=("inputs", "configurations"), at=["apex_markdown_to_html"])

P("C18", "Every emoji name in text becomes its emoji, and nothing else changes",
  "In GFM and unified mode every known :name: in text, in any case and with hyphens for underscores, becomes its emoji (or image), in headings too; names in code, comments, tags and attributes, clock times, alignment rows and unknown names stay as they are, in texts of any length, and plain-text output takes the same emoji. Correction of a misspelt name gives a nearest name, the shortest of these, leaves known and far-off names alone, and is idempotent; the reverse lookup gives the longest name of an emoji.",
  "all texts x names x spellings x places", "Tests look at five names in short strings; the table, look-alikes, places and long texts are not sampled.",
  ["src/extensions/emoji.c", "src/extensions/emoji_data.h", "src/apex.c"], [("replacement in HTML and text", "src/extensions/emoji.c apex_replace_emoji, apex_replace_emoji_text"), ("correction", "src/extensions/emoji.c apex_autocorrect_emoji_names"), ("reverse lookup", "src/extensions/emoji.c apex_find_emoji_name")],
  "reference model over generated texts, HTML and documents", NOTE, at=["apex_replace_emoji", "apex_replace_emoji_text", "apex_autocorrect_emoji_names", "apex_find_emoji_name", "apex_markdown_to_html"])

P("C19", "Every whole-word use of an abbreviation is marked, and nothing else is",
  "Definitions *[name]: text and [>name]: text are removed from the text wherever they stand and whatever their length; the inline form [>(name) text] leaves the name. Every whole-word use of a name in text (the longest name that fits) and every reference [>name] becomes an abbr element with the escaped text as title, exactly once; names within longer words, tags, attributes, addresses, code, comments and existing abbreviations stay as they are. All other text is unchanged.",
  "all sets of definitions x texts x places", "Tests check one or two names in a sentence; overlapping names, special characters, long definitions and places without text are not sampled.",
  ["src/extensions/abbreviations.c", "src/apex.c"], [("extraction", "src/extensions/abbreviations.c apex_extract_abbreviations"), ("replacement", "src/extensions/abbreviations.c apex_replace_abbreviations")],
  "reference model over generated definitions and HTML", NOTE, at=["apex_extract_abbreviations", "apex_replace_abbreviations", "apex_markdown_to_html"])

P("C16", "Pretty-printing changes only the white space between tags",
  "Pretty-printed output, from the exported function on any HTML and from every conversion, has the same tags, attributes, text, comments and entities in the same order as without it, and the content of pre, textarea, script and style elements byte for byte. White space is neither added nor removed where it shows, that is, where it would join or split words. Every block element starts a line of its own, indented by two spaces per enclosing element.",
  "all HTML x documents x dialects", "Tests look for a newline and an indentation in three outputs; preformatted content, attributes, long lines and idempotence are not looked at.",
  ["src/pretty_html.c", "src/apex.c"], [("tokenising and indentation", "src/pretty_html.c apex_pretty_print_html")],
  "metamorphic relation (same token stream) over generated HTML and documents", NOTE, at=["apex_pretty_print_html", "apex_markdown_to_html"])

P("C17", "Standalone output is one complete document around exactly the fragment",
  "A standalone document has one doctype, html, head and body; its body is exactly the fragment the same text gives otherwise, followed by footer and scripts in order. Title, language, style sheets (linked, or embedded where they exist, in order, replacing the default style) and header HTML appear exactly once in the head, escaped where they are text. Options on the command line win over metadata.",
  "all fragments x titles x style sheets x headers x scripts x sources of the settings", "Tests look for the title and one style sheet link; special characters, several sheets, embedding and the body are not compared.",
  ["src/apex.c", "cli/main.c"], [("document frame", "src/apex.c apex_wrap_html_document"), ("style sheets, scripts, title", "src/apex.c apex_markdown_to_html"), ("precedence", "cli/main.c main")],
  "reference model of the frame and differential (fragment against standalone) over generated settings", NOTE, over=("inputs", "configurations"), at=["apex_wrap_html_document", "apex_markdown_to_html", "apex -s"])

P("C21", "Citations and bibliography follow the bibliography files and the citation syntax",
  "Every entry of a BibTeX file (braced, quoted or bare values, any layout) or CSL YAML file is read with exactly its fields; several files merge, the first definition of a key winning. In a document every citation, in any of the Pandoc, MultiMarkdown and mmark forms and in any place with text, becomes one citation element for exactly its keys with author and year of the entries, escaped, and everything else converts as if a word stood there. The bibliography lists each cited, known entry once in order of citation, at its marker or at the end, and not when suppressed.",
  "all bibliographies x layouts x documents x citation forms x options", "Tests cite one or two keys in a sentence and look for the class name; several files, special characters, places and the list are not compared.",
  ["src/extensions/citations.c", "src/apex.c", "cli/main.c"], [("reading of BibTeX and CSL YAML", "src/extensions/citations.c apex_parse_bibtex, apex_parse_csl_yaml"), ("citation syntax", "src/extensions/citations.c apex_process_citations"), ("rendering", "src/extensions/citations.c apex_render_citations, apex_insert_bibliography"), ("files from metadata and flags", "src/apex.c, cli/main.c")],
  "round trip of generated bibliographies and reference model over generated documents", NOTE + "CSL JSON is a recorded finding.", over=("inputs", "configurations"), at=["apex_parse_bibtex", "apex_parse_csl_yaml", "apex_load_bibliography", "apex_markdown_to_html", "apex --bibliography"])

P("C20", "The index lists exactly the marked terms, each with a link to its place",
  "Every index mark of the enabled syntaxes ((!item, sub), word{^}, [term]{^}, {i: term}), wherever there is text, becomes one empty anchor numbered in document order, leaves only its visible term, and changes nothing else, heading ids included; malformed marks and marks in code stay text. The index lists each entry once with its sub-term and link, escaped, in order of letter and term, at its marker or the end; it is left out when suppressed, and marks are plain text when indices are off.",
  "all documents x mark syntaxes x options", "Tests look for the anchor and the heading of the index in single sentences; terms with other characters, order, several entries and places are not compared.",
  ["src/extensions/index.c", "src/apex.c", "src/extensions/metadata.c", "cli/main.c"], [("parsing of marks", "src/extensions/index.c apex_process_index_entries"), ("sorting and grouping", "src/extensions/index.c apex_generate_index_html"), ("insertion", "src/extensions/index.c apex_insert_index")],
  "reference model over generated texts and documents", NOTE, over=("inputs", "configurations"), at=["apex_process_index_entries", "apex_generate_index_html", "apex_markdown_to_html", "apex --indices"])

P("C27", "Plugins run in order, as declared, and are managed only in their directory",
  "When plugins are enabled (flags winning over metadata), every valid plugin of the project, base and user directories, the first of an id winning, runs in its phase in order of priority and id: patterns replace every match with their groups, commands get the exact text as JSON in their own directory and their output replaces it, whatever its size; broken, failing and silent plugins change nothing, and nothing runs when disabled. The listing shows exactly the entries of the plugin directory. Installing and uninstalling create and remove only the directory of that plugin, after confirmation, whatever the id.",
  "all sets of plugins x texts x directories x ids", "Tests run one plugin of each kind on a sentence; order, several places, anchors, failures, special characters and hostile ids are not sampled.",
  ["src/plugins.c", "src/plugins_env.c", "src/plugins_remote.c", "src/apex.c", "cli/main.c"], [("discovery and order", "src/plugins.c apex_plugins_load, append_plugin_sorted"), ("patterns", "src/plugins.c apply_regex_replacement"), ("commands and JSON", "src/plugins_env.c apex_run_external_plugin_command, apex_json_escape"), ("directory", "src/plugins_remote.c apex_remote_extract_string"), ("installation", "cli/main.c main")],
  "model-based testing of generated plugin sets; stand-ins for curl, git and rm record what is done", NOTE, over=("inputs", "configurations", "fault_sequences"), at=["apex --plugins", "apex --list-plugins", "apex --install-plugin", "apex --uninstall-plugin"])

P("C15", "Markdown output means the same as its input",
  "Converting a document to Markdown of its own dialect (CommonMark, GFM, MultiMarkdown, Kramdown, unified) gives text that renders to the same HTML as the document, whatever the nesting of lists, quotes, code, tables, task lists, footnotes, raw HTML and inline markup, and whatever special characters text, code, URLs and titles hold. Converting that Markdown again gives the same Markdown.",
  "all documents of the supported constructs x dialects", "No test converts Markdown output back; nesting, fences, escapes and empty or special content combine without limit.",
  ["src/ast_markdown.c", "src/apex.c"], [("inline markup and escapes", "src/ast_markdown.c escape_markdown, serialize_inline"), ("blocks", "src/ast_markdown.c serialize_block")],
  "round trip and differential testing against libcmark-gfm over generated document trees", NOTE, over=("inputs",), at=["apex_cmark_to_markdown", "apex_markdown_to_html", "apex -t markdown|mmd|commonmark|kramdown|gfm"])

P("C31", "Bare addresses become links to exactly themselves; mail links can be obfuscated",
  "With autolinks on, every bare http(s) URL and e-mail address in text, wherever it stands, becomes one link to exactly itself, without the punctuation and markup around it; addresses in code, link texts and destinations, attributes, comments, raw HTML blocks and definitions make no further link, and with autolinks off no address does. The text of the document stays the same. Obfuscation changes only the spelling of mail links: they parse to the same address and text, and neither can be read in the source.",
  "all addresses x surroundings x places x dialects", "Tests link one or two addresses in a sentence; punctuation, brackets, markup in URLs and the places that are not text are hardly sampled.",
  ["src/apex.c"], [("autolinker", "src/apex.c apex_preprocess_autolinks"), ("obfuscation", "src/apex.c apex_obfuscate_email_links")],
  "reference model over generated documents; metamorphic relation (same parsed tree) for obfuscation", NOTE, over=("inputs",), at=["apex_markdown_to_html", "apex --obfuscate-emails", "apex --no-autolink"])

P("C32", "Terminal and man output hold exactly the text of the document",
  "For a document of headings, paragraphs, lists, quotes, code and rules (and, in the terminal, tables) with any inline markup, the terminal output (16 or 256 colours) without its colour sequences, the roff source of the man page as a roff reader sees it, and the man page HTML hold every word of the text, list number and link address exactly once and in order, whatever characters the words have: no text becomes a roff request or escape, and no style stays on at the end. With --width N the program breaks lines exactly after N characters and changes nothing else.",
  "all documents of these blocks x words with special characters x widths", "Tests look for single substrings in a few short outputs; special characters at line starts, nesting, long texts and wrapping are not compared.",
  ["src/ast_terminal.c", "src/ast_man.c", "cli/main.c"], [("terminal", "src/ast_terminal.c serialize_block, serialize_inline"), ("man pages", "src/ast_man.c render_block_roff, man_buf_append_roff_safe, render_block_man_html"), ("wrapping", "cli/main.c wrap_ansi_to_width")],
  "reference model: the generated document tree and its words; a roff reader", NOTE, over=("inputs", "configurations"), at=["apex_markdown_to_html", "apex --to terminal --width"])

P("C33", "Embedded images hold exactly the bytes of their files, and nothing else changes",
  "With image embedding on, the src of every image (Markdown, by reference, or raw HTML) that names a readable local file, relative to the base directory or absolute, whatever characters its name has, is replaced by data:TYPE;base64, with the type of its extension and exactly the bytes of the file. Remote, data, missing and empty images and directories keep their src. Everything else of the output is byte for byte that without embedding.",
  "all files x names x documents x dialects", "No stable test embeds a file; padding, names that need escapes and the text after an image are not looked at.",
  ["src/apex.c", "src/extensions/ial.c", "cli/main.c"], [("embedding", "src/apex.c apex_embed_images, apex_read_and_encode_image, apex_base64_encode"), ("destinations", "src/extensions/ial.c apex_preprocess_image_attributes"), ("base directory", "cli/main.c main")],
  "reference model (base64 of the real file) over generated files, names and documents", NOTE, over=("inputs",), at=["apex_markdown_to_html", "apex --embed-images"])

P("C25", "Line endings and the way in or out never change the result",
  "A document gives the same result with LF, CR LF, CR or mixed line endings, and, when it has several lines, with and without the final one, in every mode and output format. The same holds for its metadata block and for the files it includes, its metadata files and its bibliography. The program gives the same bytes whether it reads a file or standard input and whether it writes to standard output or to a file.",
  "all documents x line endings x modes x output formats", "All test inputs have LF line endings; each text pass looks for line ends by itself, so any of them can miss the others.",
  ["src/apex.c", "src/extensions/includes.c", "src/extensions/metadata.c", "cli/main.c"], [("normalisation", "src/apex.c apex_markdown_to_html"), ("files", "src/extensions/includes.c read_file_contents; src/extensions/metadata.c"), ("input and output", "cli/main.c main")],
  "metamorphic testing: the same document with other line endings", NOTE, over=("inputs", "configurations"), at=["apex_markdown_to_html", "apex"])

P("C23", "Raw HTML is passed on unchanged when allowed, and never when not",
  "With unsafe off, no element, attribute, comment or declaration written as HTML in the document, and no javascript, vbscript, file or data:text link, however it is spelled and wherever in the document it stands, reaches the output. With unsafe on, blocks of HTML (scripts, styles, comments, preformatted text) and inline tags come out byte for byte. A document without HTML gives the same output either way.",
  "all HTML and links x all places of a document x modes and options", "Tests look for one script in a paragraph; each extension builds HTML by itself, so any place of the document can leak or change it.",
  ["src/apex.c", "src/html_renderer.c", "src/extensions"], [("safe rendering", "src/apex.c apex_to_cmark_options, apex_markdown_to_html"), ("attributes", "src/extensions/ial.c attributes_to_html"), ("clean-up of tags", "src/html_renderer.c apex_clean_html_tag_spacing, apex_collapse_intertag_newlines")],
  "generated injections at every place of a document, judged by an HTML parser; verbatim and metamorphic relations", NOTE, over=("inputs", "configurations"), at=["apex_markdown_to_html", "apex --no-unsafe"])

P("C26", "The program's flags are the library's options, and its status tells success",
  "For any documented flags, in any order, the output of the program is that of the library with the options the help text describes; --mode sets the defaults under all other flags, later flags win over earlier ones, and flags win over metadata of any source, which wins over the defaults. Status 0 means that the complete output was written; unknown flags, missing or wrong values, unreadable inputs and outputs that cannot be written end with another status and a message.",
  "all lists of flags x option metadata x documents; all kinds of failure", "The suite tests the library; the program is run by a few shell scripts with one or two flags.",
  ["cli/main.c", "src/apex.c", "src/extensions/metadata.c"], [("flags", "cli/main.c main"), ("defaults of modes", "src/apex.c apex_options_for_mode"), ("metadata", "src/extensions/metadata.c apex_apply_metadata_to_options"), ("output", "cli/main.c main")],
  "differential testing of the program against the library over generated flags, metadata and documents; injected failures of input and output", NOTE, over=("inputs", "configurations", "fault_sequences"), at=["apex", "apex_markdown_to_html"])

P("C28", "Callouts, divs, HTML with Markdown and definitions hold exactly their content",
  "Callouts (Bear and Obsidian syntax, foldable or not), fenced divs (any colons, block types and attributes), HTML elements with a markdown attribute and definition lists, nested in each other and in quotes and lists, become exactly the element with the type, title and attributes written, holding exactly their content as converted Markdown and nothing before or after it. Page breaks, pauses and end-of-block marks become their element. With the option off or in a mode without it, the syntax is text.",
  "all nestings of containers x attributes x titles x options", "Tests look for a class name in one container with one paragraph; nesting, closing, titles with markup, attribute values and what stands after the container are not compared.",
  ["src/extensions/callouts.c", "src/extensions/fenced_divs.c", "src/extensions/html_markdown.c", "src/extensions/definition_list.c", "src/extensions/special_markers.c"], [("callouts", "src/extensions/callouts.c apex_process_callouts_in_tree"), ("fenced divs", "src/extensions/fenced_divs.c apex_process_fenced_divs"), ("Markdown in HTML", "src/extensions/html_markdown.c apex_process_html_markdown"), ("definition lists", "src/extensions/definition_list.c apex_process_definition_lists"), ("markers", "src/extensions/special_markers.c apex_process_special_markers")],
  "reference model: documents generated as trees, the parsed output must be the same tree", NOTE, over=("inputs", "configurations"), at=["apex_markdown_to_html", "apex_process_callouts_in_tree", "apex_process_fenced_divs", "apex_process_html_markdown"])

P("C29", "Formulas, Liquid tags and wiki links hold exactly what is written in them",
  "What stands in a formula ($..$, $$..$$) or a Liquid tag ({%..%}), whatever syntax of other extensions it looks like and wherever in the document it stands, comes out as it was written (escaped as text in formulas, verbatim in tags), and the rest of the document is what it would be with a word in its place. Prices, escaped dollars and unclosed marks are text. Wiki links are links to exactly the page by the documented rules for spaces, sanitising, extensions and sections, and are text when switched off.",
  "all contents x places of a document x options", "Tests look for one simple formula or link in a paragraph; every text pass can change their content.",
  ["src/extensions/math.c", "src/extensions/wiki_links.c", "src/extensions/emoji.c", "src/extensions/abbreviations.c", "src/apex.c"], [("formulas", "src/extensions/math.c; src/apex.c protection of formulas"), ("Liquid tags", "src/apex.c apex_markdown_to_html"), ("wiki links", "src/extensions/wiki_links.c apex_process_wiki_links_in_tree")],
  "metamorphic relation: the document with words in their place; reference model of the rules of wiki links", NOTE, over=("inputs", "configurations"), at=["apex_markdown_to_html"])

P("C30", "Attribute lists give exactly the attributes to exactly the element",
  "An element followed by an attribute list (Kramdown {: ..} or Pandoc {#id .class key=value}; references to attribute list definitions with further attributes) gets exactly the id, classes and values that were written, whatever characters a value holds. No other element of the document gets or loses an attribute, whether or not the texts of the elements are the same. The list itself does not appear in the output, and the rest of the document is the same.",
  "all documents of blocks and inlines x places of lists x values", "Tests look for one attribute in the output of a short document; renderings, other syntaxes and other elements interact with it.",
  ["src/extensions/ial.c", "src/html_renderer.c", "src/apex.c"], [("parsing", "src/extensions/ial.c parse_ial_content, apex_extract_alds"), ("association", "src/extensions/ial.c apex_process_ial_in_tree, apex_apply_image_attributes"), ("rendering", "src/html_renderer.c apex_render_html_with_attributes")],
  "reference model: the generated document tree with its attributes", NOTE, over=("inputs", "configurations"), at=["apex_markdown_to_html"])
