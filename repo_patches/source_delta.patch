From 08dd96d78376379e90412518cca6d94f5ad89917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:14 +0000
Subject: [PATCH 001/180] fix: critic markup output buffer too small (content
 dropped, NUL written past the end)

---
 src/extensions/critic.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/extensions/critic.c b/src/extensions/critic.c
index b686951..2f80f1a 100644
--- a/src/extensions/critic.c
+++ b/src/extensions/critic.c
@@ -278,7 +278,8 @@ char *apex_process_critic_markup_text(const char *text, critic_mode_t mode) {
     if (!text) return NULL;
 
     size_t len = strlen(text);
-    size_t output_capacity = len * 2;  /* Generous estimate */
+    /* Worst case is an empty substitution: 9 source bytes become ~65 bytes of HTML */
+    size_t output_capacity = len * 8 + 64;
     char *output = malloc(output_capacity);
     if (!output) return NULL;
 
-- 
2.43.0


From 4aba2164abe69e5aff36384191d218f60861f8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:14 +0000
Subject: [PATCH 002/180] fix: highlight output buffer too small (marks
 dropped, NUL written past the end)

---
 src/extensions/highlight.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/extensions/highlight.c b/src/extensions/highlight.c
index d09d1c3..8f4b840 100644
--- a/src/extensions/highlight.c
+++ b/src/extensions/highlight.c
@@ -42,7 +42,7 @@ char *apex_process_highlights(const char *text) {
     if (!text) return NULL;
 
     size_t len = strlen(text);
-    size_t capacity = len * 2;  /* Room for <mark> tags */
+    size_t capacity = len * 3 + 16;  /* "==x==" (5 bytes) becomes "<mark>x</mark>" (14 bytes) */
     char *output = malloc(capacity);
     if (!output) return NULL;
 
@@ -82,7 +82,7 @@ char *apex_process_highlights(const char *text) {
          */
         bool preceded_by_equals = (read > text && read[-1] == '=');
         bool preceded_by_plus = (read > text && read[-1] == '+');
-        bool followed_by_plus = (read[2] == '+');
+        bool followed_by_plus = (read[0] == '=' && read[1] == '=' && read[2] == '+');
         bool is_valid_highlight_start = (read[0] == '=' && read[1] == '=' &&
                                          read[2] != '=' && read[2] != '}' &&
                                          read[2] != '\0' && read[2] != '\n' &&
-- 
2.43.0


From d2282b37997dbd7be47fac8d166e102dc40ca266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:14 +0000
Subject: [PATCH 003/180] fix: insert output buffer too small (content dropped,
 NUL written past the end, over-read)

---
 src/extensions/insert.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/extensions/insert.c b/src/extensions/insert.c
index 1a63432..db4ea1a 100644
--- a/src/extensions/insert.c
+++ b/src/extensions/insert.c
@@ -49,7 +49,7 @@ char *apex_process_inserts(const char *text) {
     if (!text) return NULL;
 
     size_t len = strlen(text);
-    size_t capacity = len * 2;  /* Room for <ins> tags */
+    size_t capacity = len * 3 + 16;  /* "++x++" (5 bytes) becomes "<ins>x</ins>" (12 bytes) */
     char *output = malloc(capacity);
     if (!output) return NULL;
 
@@ -82,8 +82,9 @@ char *apex_process_inserts(const char *text) {
          */
         bool preceded_by_plus = (read > text && read[-1] == '+');
         bool preceded_by_brace = (read > text && read[-1] == '{');
-        bool followed_by_plus = (read[2] == '+');
-        bool followed_by_brace = (read[2] == '}');
+        bool has_marker = (read[0] == '+' && read[1] == '+');
+        bool followed_by_plus = (has_marker && read[2] == '+');
+        bool followed_by_brace = (has_marker && read[2] == '}');
         bool is_valid_insert_start = (read[0] == '+' && read[1] == '+' &&
                                      read[2] != '+' && !followed_by_brace &&
                                      read[2] != '\0' && read[2] != '\n' &&
@@ -134,8 +135,9 @@ char *apex_process_inserts(const char *text) {
                             /* Build ins tag with attributes */
                             char *attr_str = attributes_to_html(attrs);
                             if (attr_str) {
-                                /* Calculate space needed */
-                                size_t ins_open_len = 30 + strlen(attr_str) + content_len + 20;
+                                /* Calculate space needed for this tag and for the rest of the text */
+                                size_t ins_open_len = 30 + strlen(attr_str) + content_len + 20 +
+                                                      strlen(ial_end) * 3 + 16;
                                 if (remaining < ins_open_len) {
                                     size_t written = write - output;
                                     capacity = (written + ins_open_len + 1) * 2;
-- 
2.43.0


From b943e804bcdf859025cb4845ca406040d305b7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:14 +0000
Subject: [PATCH 004/180] fix: special markers lose text after expansions;
 {index} only matched at end of text

---
 src/extensions/special_markers.c | 68 +++++++++++++-------------------
 1 file changed, 27 insertions(+), 41 deletions(-)

diff --git a/src/extensions/special_markers.c b/src/extensions/special_markers.c
index f67c367..50f2594 100644
--- a/src/extensions/special_markers.c
+++ b/src/extensions/special_markers.c
@@ -18,7 +18,7 @@ char *apex_process_special_markers(const char *text) {
 
     size_t len = strlen(text);
     /* Page break divs are ~64 bytes each, so need generous capacity */
-    size_t capacity = len * 4;  /* Room for expansion */
+    size_t capacity = len * 4 + 64;  /* Room for expansion */
     char *output = malloc(capacity);
     if (!output) return strdup(text);
 
@@ -26,6 +26,22 @@ char *apex_process_special_markers(const char *text) {
     char *write = output;
     size_t remaining = capacity;
 
+    /* Make room for n more bytes and the terminator (markers expand a lot) */
+    #define ENSURE_SPACE(n) do { \
+        if (remaining <= (n)) { \
+            size_t written = (size_t)(write - output); \
+            capacity = (written + (n) + 100) * 2; \
+            char *new_output = realloc(output, capacity); \
+            if (!new_output) { \
+                free(output); \
+                return strdup(text); \
+            } \
+            output = new_output; \
+            write = output + written; \
+            remaining = capacity - written; \
+        } \
+    } while(0)
+
     while (*read) {
         /* Check for End of Block marker (Kramdown) */
         /* Pattern: ^ on a line by itself (with optional leading whitespace) */
@@ -58,6 +74,7 @@ char *apex_process_special_markers(const char *text) {
                 /* This ensures lists are not merged by the parser, and the paragraph won't render visibly */
                 const char *replacement = "\n\n\u200B\n\n";
                 size_t repl_len = strlen(replacement);
+                ENSURE_SPACE(repl_len);
                 if (repl_len < remaining) {
                     memcpy(write, replacement, repl_len);
                     write += repl_len;
@@ -79,19 +96,7 @@ char *apex_process_special_markers(const char *text) {
                 "style=\"page-break-after:always\">"
                 "<span style=\"display:none\">&nbsp;</span></div>\n\n";
             size_t repl_len = strlen(replacement);
-            if (repl_len >= remaining) {
-                /* Expand buffer */
-                size_t written = (size_t)(write - output);
-                capacity = (written + repl_len + 100) * 2;
-                char *new_output = realloc(output, capacity);
-                if (!new_output) {
-                    free(output);
-                    return strdup(text);
-                }
-                output = new_output;
-                write = output + written;
-                remaining = capacity - written;
-            }
+            ENSURE_SPACE(repl_len);
             memcpy(write, replacement, repl_len);
             write += repl_len;
             remaining -= repl_len;
@@ -114,6 +119,7 @@ char *apex_process_special_markers(const char *text) {
                         seconds);
 
                 size_t repl_len = strlen(replacement);
+                ENSURE_SPACE(repl_len);
                 if (repl_len < remaining) {
                     memcpy(write, replacement, repl_len);
                     write += repl_len;
@@ -133,19 +139,7 @@ char *apex_process_special_markers(const char *text) {
                 "style=\"page-break-after:always\">"
                 "<span style=\"display:none\">&nbsp;</span></div>\n\n";
             size_t repl_len = strlen(replacement);
-            if (repl_len >= remaining) {
-                /* Expand buffer */
-                size_t written = (size_t)(write - output);
-                capacity = (written + repl_len + 100) * 2;
-                char *new_output = realloc(output, capacity);
-                if (!new_output) {
-                    free(output);
-                    return strdup(text);
-                }
-                output = new_output;
-                write = output + written;
-                remaining = capacity - written;
-            }
+            ENSURE_SPACE(repl_len);
             memcpy(write, replacement, repl_len);
             write += repl_len;
             remaining -= repl_len;
@@ -157,29 +151,19 @@ char *apex_process_special_markers(const char *text) {
          * Replaced with <!--INDEX--> so the index extension inserts the index there.
          * The marker is always removed from the document (either replaced by the
          * index block or left as an invisible HTML comment when index is suppressed). */
-        if (strncmp(read, "{index}", 8) == 0) {
+        if (strncmp(read, "{index}", 7) == 0) {
             const char *replacement = "<!--INDEX-->";
             size_t repl_len = strlen(replacement);
-            if (repl_len >= remaining) {
-                size_t written = (size_t)(write - output);
-                capacity = (written + repl_len + 100) * 2;
-                char *new_output = realloc(output, capacity);
-                if (!new_output) {
-                    free(output);
-                    return strdup(text);
-                }
-                output = new_output;
-                write = output + written;
-                remaining = capacity - written;
-            }
+            ENSURE_SPACE(repl_len);
             memcpy(write, replacement, repl_len);
             write += repl_len;
             remaining -= repl_len;
-            read += 8;
+            read += 7;
             continue;
         }
 
         /* Not a special marker, copy character */
+        ENSURE_SPACE(1);
         if (remaining > 0) {
             *write++ = *read++;
             remaining--;
@@ -188,6 +172,8 @@ char *apex_process_special_markers(const char *text) {
         }
     }
 
+    #undef ENSURE_SPACE
+
     *write = '\0';
     return output;
 }
-- 
2.43.0


From 24076dc8a40e42a0f6dcd99c6065baab19ee306f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:14 +0000
Subject: [PATCH 005/180] fix: inline footnotes output buffer too small
 (definitions dropped)

---
 src/extensions/inline_footnotes.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/extensions/inline_footnotes.c b/src/extensions/inline_footnotes.c
index f57f7f2..9ca141b 100644
--- a/src/extensions/inline_footnotes.c
+++ b/src/extensions/inline_footnotes.c
@@ -28,7 +28,8 @@ char *apex_process_inline_footnotes(const char *text) {
 
     size_t len = strlen(text);
     /* Allocate generous buffer (inline footnotes become references + definitions) */
-    size_t capacity = len * 3;
+    /* Worst case "^[]": 3 bytes become "[^fnN]" plus "[^fnN]: \n" */
+    size_t capacity = len * 10 + 16;
     char *output = malloc(capacity);
     if (!output) return strdup(text);
 
-- 
2.43.0


From 3a3e0bbed21c223a73b38beea7a3feb23573c751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:14 +0000
Subject: [PATCH 006/180] fix: emoji autocorrect output buffer too small

---
 src/extensions/emoji.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extensions/emoji.c b/src/extensions/emoji.c
index c96e173..d2c3cd5 100644
--- a/src/extensions/emoji.c
+++ b/src/extensions/emoji.c
@@ -674,7 +674,7 @@ static int is_table_alignment_pattern(const char *start, const char *end) {
 char *apex_autocorrect_emoji_names(const char *text) {
     if (!text) return NULL;
 
-    size_t capacity = strlen(text) * 2;
+    size_t capacity = strlen(text) * 3 + 1;  /* A corrected name is at most 4 bytes longer */
     char *output = malloc(capacity);
     if (!output) return strdup(text);
 
-- 
2.43.0


From 88b386176b48039467a307bf83ca01d364f19a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:14 +0000
Subject: [PATCH 007/180] fix: long heading text overflows its buffer when
 extracting heading text

---
 src/extensions/header_ids.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/extensions/header_ids.c b/src/extensions/header_ids.c
index 91683c2..5b4687a 100644
--- a/src/extensions/header_ids.c
+++ b/src/extensions/header_ids.c
@@ -415,15 +415,16 @@ char *apex_extract_heading_text(cmark_node *heading_node) {
             if (literal) {
                 size_t len = strlen(literal);
                 if (len >= remaining) {
-                    size_t new_capacity = capacity * 2;
+                    size_t used = (size_t)(write - text);
+                    size_t new_capacity = (used + len + 1) * 2;
                     char *new_text = realloc(text, new_capacity);
                     if (!new_text) {
                         free(text);
                         return strdup("");
                     }
-                    write = new_text + (write - text);
+                    write = new_text + used;
                     text = new_text;
-                    remaining = new_capacity - (write - text);
+                    remaining = new_capacity - used;
                 }
                 memcpy(write, literal, len);
                 write += len;
@@ -434,15 +435,16 @@ char *apex_extract_heading_text(cmark_node *heading_node) {
             if (literal) {
                 size_t len = strlen(literal);
                 if (len >= remaining) {
-                    size_t new_capacity = capacity * 2;
+                    size_t used = (size_t)(write - text);
+                    size_t new_capacity = (used + len + 1) * 2;
                     char *new_text = realloc(text, new_capacity);
                     if (!new_text) {
                         free(text);
                         return strdup("");
                     }
-                    write = new_text + (write - text);
+                    write = new_text + used;
                     text = new_text;
-                    remaining = new_capacity - (write - text);
+                    remaining = new_capacity - used;
                 }
                 memcpy(write, literal, len);
                 write += len;
-- 
2.43.0


From 773dff8085750c7e9be25db7fccce00542e83138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:14 +0000
Subject: [PATCH 008/180] fix: advanced tables read unterminated cell buffers
 and index past 50 columns

---
 src/extensions/advanced_tables.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/extensions/advanced_tables.c b/src/extensions/advanced_tables.c
index 75cf34e..97e465d 100644
--- a/src/extensions/advanced_tables.c
+++ b/src/extensions/advanced_tables.c
@@ -28,6 +28,14 @@ static bool g_per_cell_alignment = false;
 static const unsigned char ESCAPED_LTLT_PLACEHOLDER[] = "APEXLTLT";
 #define ESCAPED_LTLT_PLACEHOLDER_LEN 8
 
+/**
+ * Raw (unparsed) content of a node, or NULL when it has none.
+ * The buffer of an empty node is not NUL-terminated, so it must not be read as a string.
+ */
+static const char *get_raw_content(cmark_node *node) {
+    return node->content.size > 0 ? cmark_node_get_string_content(node) : NULL;
+}
+
 /**
  * Recursively collect all text from a node into a buffer.
  * Caller must free the returned string.
@@ -111,12 +119,12 @@ static bool is_colspan_cell(cmark_node *cell, const char *raw_content_override)
         }
     }
     if (!raw || !raw[0])
-        raw = cmark_node_get_string_content(cell);
+        raw = get_raw_content(cell);
     if (!raw || !raw[0]) {
         cmark_node *first = cmark_node_first_child(cell);
         if (first && !cmark_node_next(first) &&
             cmark_node_get_type(first) == CMARK_NODE_PARAGRAPH)
-            raw = cmark_node_get_string_content(first);
+            raw = get_raw_content(first);
     }
     if (raw && raw[0]) {
         free(full_text);
@@ -164,7 +172,7 @@ static bool is_colspan_cell(cmark_node *cell, const char *raw_content_override)
     /* If we would treat as colspan but node's raw content buffer (string_content) has
      * more than "<<", prefer it so "raw <<" isn't wrongly merged (e.g. if user_data was lost). */
     if (result) {
-        const char *raw_buf = cmark_node_get_string_content(cell);
+        const char *raw_buf = get_raw_content(cell);
         if (raw_buf && raw_buf[0]) {
             const char *r = raw_buf;
             const char *r_end = r + strlen(r);
@@ -790,7 +798,7 @@ static void process_table_spans(cmark_node *table) {
                      *
                      * IMPORTANT: We set this AFTER processing the cell, so that when we process ^^ cells
                      * in the NEXT row, they will use the correct active cell from THIS row. */
-                    if (!is_rowspan_cell(cell)) {
+                    if (col_index < 50 && !is_rowspan_cell(cell)) {
                         char *cell_attrs = (char *)cmark_node_get_user_data(cell);
                         if (!cell_attrs || !strstr(cell_attrs, "data-remove")) {
                             /* This is a regular cell, so it becomes the new active cell for this column */
-- 
2.43.0


From 4a916ded76122359ebbd35ba641e8ec355b9d86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:14 +0000
Subject: [PATCH 009/180] fix: fenced div attribute parser reads past the end;
 output one byte too small

---
 src/extensions/fenced_divs.c | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/extensions/fenced_divs.c b/src/extensions/fenced_divs.c
index 3a77b83..8b31d95 100644
--- a/src/extensions/fenced_divs.c
+++ b/src/extensions/fenced_divs.c
@@ -330,7 +330,7 @@ static char *parse_attributes(const char *attr_text, size_t attr_len) {
             }
 
             /* Unknown token, skip */
-            p++;
+            if (*p) p++;
         }
     }
 
@@ -356,7 +356,7 @@ static char *parse_attributes(const char *attr_text, size_t attr_len) {
 
     /* Add ID */
     if (id) {
-        size_t needed = strlen(id) + 5; /* id="..." */
+        size_t needed = strlen(id) + 7; /*  id="..." and NUL */
         if (html_len + needed >= html_capacity) {
             html_capacity = (html_len + needed) * 2;
             char *new_attrs = realloc(html_attrs, html_capacity);
@@ -385,7 +385,7 @@ static char *parse_attributes(const char *attr_text, size_t attr_len) {
         for (size_t i = 0; i < class_count; i++) {
             class_str_len += strlen(classes[i]) + 1; /* +1 for space */
         }
-        size_t needed = class_str_len + 8; /* class="..." */
+        size_t needed = class_str_len + 10; /*  class="..." and NUL */
         if (html_len + needed >= html_capacity) {
             html_capacity = (html_len + needed) * 2;
             char *new_attrs = realloc(html_attrs, html_capacity);
@@ -415,7 +415,7 @@ static char *parse_attributes(const char *attr_text, size_t attr_len) {
 
     /* Add other attributes */
     for (size_t i = 0; i < attr_count; i++) {
-        size_t needed = strlen(keys[i]) + strlen(values[i]) + 4; /* key="value" */
+        size_t needed = strlen(keys[i]) + strlen(values[i]) + 5; /*  key="value" and NUL */
         if (html_len + needed >= html_capacity) {
             html_capacity = (html_len + needed) * 2;
             char *new_attrs = realloc(html_attrs, html_capacity);
@@ -491,7 +491,7 @@ char *apex_process_fenced_divs(const char *text) {
     if (!text) return NULL;
 
     size_t text_len = strlen(text);
-    size_t output_capacity = text_len * 2;
+    size_t output_capacity = text_len * 2 + 1;
     char *output = malloc(output_capacity);
     if (!output) return NULL;
 
@@ -580,8 +580,8 @@ char *apex_process_fenced_divs(const char *text) {
             const char *emit_tag = use_wrapper ? "div" : tag_name;
             size_t emit_tag_len = strlen(emit_tag);
             size_t markdown_attr_len = 13; /*  markdown="1" */
-            size_t wrapper_attr_len = use_wrapper ? (22 + strlen(tag_name)) : 0; /*  data-apex-fenced-element="tagname" */
-            size_t needed = 1 + emit_tag_len + 1 + (html_attrs ? strlen(html_attrs) : 0) + wrapper_attr_len + markdown_attr_len + 1;
+            size_t wrapper_attr_len = use_wrapper ? (27 + strlen(tag_name)) : 0; /*  data-apex-fenced-element="tagname" */
+            size_t needed = 1 + emit_tag_len + 1 + (html_attrs ? strlen(html_attrs) : 0) + wrapper_attr_len + markdown_attr_len + 3; /* newline and NUL */
             if (remaining < needed) {
                 size_t written = write - output;
                 output_capacity = (written + needed) * 2;
@@ -639,7 +639,7 @@ char *apex_process_fenced_divs(const char *text) {
             /* Write closing tag: </div> when we wrapped for cmark, else </block_type> */
             const char *close_tag = was_wrapped ? "div" : (block_type ? block_type : "div");
             size_t tag_name_len = strlen(close_tag);
-            size_t needed = 2 + tag_name_len + 1; /* </tag> */
+            size_t needed = 2 + tag_name_len + 2; /* </tag> and NUL */
             if (remaining < needed) {
                 size_t written = write - output;
                 output_capacity = (written + needed) * 2;
@@ -670,7 +670,7 @@ char *apex_process_fenced_divs(const char *text) {
             if (*read == '\n') read++;
         } else {
             /* Regular line - copy as-is */
-            size_t needed = line_len + 1; /* +1 for newline */
+            size_t needed = line_len + 3; /* line ending (CR and/or LF) and NUL */
             if (remaining < needed) {
                 size_t written = write - output;
                 output_capacity = (written + needed) * 2;
@@ -722,7 +722,7 @@ char *apex_process_fenced_divs(const char *text) {
         }
         const char *close_tag = was_wrapped ? "div" : (block_type ? block_type : "div");
         size_t tag_name_len = strlen(close_tag);
-        size_t needed = 2 + tag_name_len + 1; /* </tag> */
+        size_t needed = 2 + tag_name_len + 2; /* </tag> and NUL */
         if (remaining < needed) {
             size_t written = write - output;
             output_capacity = (written + needed) * 2;
@@ -813,7 +813,7 @@ char *apex_postprocess_fenced_divs_html(const char *html) {
 
         size_t rest_len = (size_t)(tag_end - after_attr);
         size_t open_tag_len = 1 + tagname_len + 1 + rest_len + 1; /* <tagname ...> */
-        if (rest_len >= remaining) {
+        if (open_tag_len >= remaining) {
             size_t written = (size_t)(write - out);
             cap = written + open_tag_len + 256;
             char *new_out = realloc(out, cap);
-- 
2.43.0


From a0344bfece9c7b30e3d0e55f545cd5088e03f886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:14 +0000
Subject: [PATCH 010/180] fix: HTML markdown blocks dropped when their
 rendering is longer than the source

---
 src/extensions/html_markdown.c | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/extensions/html_markdown.c b/src/extensions/html_markdown.c
index b915971..fcfcc9a 100644
--- a/src/extensions/html_markdown.c
+++ b/src/extensions/html_markdown.c
@@ -149,7 +149,7 @@ char *apex_process_html_markdown(const char *text, void *img_attrs) {
     image_attr_entry *attrs = (image_attr_entry *)img_attrs;
 
     size_t text_len = strlen(text);
-    size_t output_capacity = text_len * 2;
+    size_t output_capacity = text_len * 2 + 1;
     char *output = malloc(output_capacity);
     if (!output) return NULL;
 
@@ -157,6 +157,20 @@ char *apex_process_html_markdown(const char *text, void *img_attrs) {
     char *write_pos = output;
     size_t remaining = output_capacity;
 
+    /* Rendered HTML can be much longer than its source: grow instead of dropping content */
+    #define ENSURE_SPACE(n) do { \
+        if ((n) >= remaining) { \
+            size_t used = (size_t)(write_pos - output); \
+            size_t new_capacity = (used + (n) + 1) * 2; \
+            char *new_output = realloc(output, new_capacity); \
+            if (new_output) { \
+                output = new_output; \
+                write_pos = output + used; \
+                remaining = new_capacity - used; \
+            } \
+        } \
+    } while(0)
+
     while (*read_pos) {
         char tag_name[64];
         char markdown_attr[64];
@@ -169,6 +183,7 @@ char *apex_process_html_markdown(const char *text, void *img_attrs) {
         if (!tag_start) {
             /* No more markdown tags, copy rest */
             size_t rest_len = strlen(read_pos);
+            ENSURE_SPACE(rest_len);
             if (rest_len < remaining) {
                 memcpy(write_pos, read_pos, rest_len);
                 write_pos += rest_len;
@@ -179,6 +194,7 @@ char *apex_process_html_markdown(const char *text, void *img_attrs) {
 
         /* Copy text before tag */
         size_t prefix_len = tag_start - read_pos;
+        ENSURE_SPACE(prefix_len);
         if (prefix_len < remaining) {
             memcpy(write_pos, read_pos, prefix_len);
             write_pos += prefix_len;
@@ -191,6 +207,7 @@ char *apex_process_html_markdown(const char *text, void *img_attrs) {
 
         if (!closing_tag) {
             /* No closing tag, just copy the opening tag */
+            ENSURE_SPACE(tag_length);
             if (tag_length < remaining) {
                 memcpy(write_pos, tag_start, tag_length);
                 write_pos += tag_length;
@@ -334,6 +351,7 @@ char *apex_process_html_markdown(const char *text, void *img_attrs) {
                                 opening_tag[tag_written] = '\0';
                             }
 
+                            ENSURE_SPACE(tag_written);
                             if (tag_written < remaining) {
                                 memcpy(write_pos, opening_tag, tag_written);
                                 write_pos += tag_written;
@@ -353,6 +371,7 @@ char *apex_process_html_markdown(const char *text, void *img_attrs) {
                                 html_content[html_len] = '\0';
                             }
 
+                            ENSURE_SPACE(html_len);
                             if (html_len < remaining) {
                                 memcpy(write_pos, html_content, html_len);
                                 write_pos += html_len;
@@ -370,6 +389,7 @@ char *apex_process_html_markdown(const char *text, void *img_attrs) {
 
             /* Write closing tag */
             size_t closing_len = closing_tag - closing_tag_start;
+            ENSURE_SPACE(closing_len);
             if (closing_len < remaining) {
                 memcpy(write_pos, closing_tag_start, closing_len);
                 write_pos += closing_len;
@@ -385,13 +405,15 @@ char *apex_process_html_markdown(const char *text, void *img_attrs) {
                     needs_newline = false;
                 }
             }
-            if (needs_newline && remaining > 0) {
+            if (needs_newline) ENSURE_SPACE(1);
+            if (needs_newline && remaining > 1) {
                 *write_pos++ = '\n';
                 remaining--;
             }
         } else {
             /* markdown="0" or no parsing - copy everything as-is */
             size_t total_len = closing_tag - tag_start;
+            ENSURE_SPACE(total_len);
             if (total_len < remaining) {
                 memcpy(write_pos, tag_start, total_len);
                 write_pos += total_len;
@@ -402,6 +424,8 @@ char *apex_process_html_markdown(const char *text, void *img_attrs) {
         read_pos = closing_tag;
     }
 
+    #undef ENSURE_SPACE
+
     *write_pos = '\0';
     return output;
 }
-- 
2.43.0


From 81a985cebb721d9eb4891ab1b9d1ed2cc8c9c728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:14 +0000
Subject: [PATCH 011/180] fix: uninitialised image attributes when no picture
 source can be built

---
 src/extensions/ial.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/extensions/ial.c b/src/extensions/ial.c
index 4ded06f..79beba0 100644
--- a/src/extensions/ial.c
+++ b/src/extensions/ial.c
@@ -2246,6 +2246,7 @@ static char *attributes_to_html_for_image(const char *url, apex_attributes *attr
         char *result = malloc(need);
         if (result) {
             char *p = result;
+            *p = '\0';  /* No usable source: still a valid (empty) string */
             if (base && *base) p += sprintf(p, "%s", base);
             if (webp_srcset) {
                 p += sprintf(p, " data-apex-replace-picture=1 data-apex-picture-webp=\"%s\"", webp_srcset);
-- 
2.43.0


From 5bced00145b1a785132b00558e14c0726ece0c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:14 +0000
Subject: [PATCH 012/180] fix: CSV table output buffer too small for padded
 rows

---
 src/extensions/includes.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/extensions/includes.c b/src/extensions/includes.c
index 3bf9da1..8978d61 100644
--- a/src/extensions/includes.c
+++ b/src/extensions/includes.c
@@ -370,8 +370,9 @@ char *apex_csv_to_table(const char *csv_content, bool is_tsv) {
         }
     }
 
-    /* Allocate output buffer: original size * 4 should be enough with extra alignment row */
-    char *output = malloc(len * 4 + 64);
+    /* Allocate output buffer: every row (and the separator row) is padded to col_count cells */
+    size_t max_cell_overhead = 8;  /* "| " + " " or the longest alignment spec */
+    char *output = malloc(len + ((size_t)row_count + 1) * ((size_t)col_count * max_cell_overhead + 2) + 64);
     if (!output) {
         if (align) free(align);
         for (int r = 0; r < row_count; r++) {
-- 
2.43.0


From a614e4b58538ed331dec1a8b60d2f5c807aa8230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:14 +0000
Subject: [PATCH 013/180] fix: definition lists exhaust cmark node types after
 many conversions; freed literals

---
 src/extensions/definition_list.c | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/extensions/definition_list.c b/src/extensions/definition_list.c
index 1c7a881..b5cf41d 100644
--- a/src/extensions/definition_list.c
+++ b/src/extensions/definition_list.c
@@ -1733,6 +1733,16 @@ static void ensure_node_has_content_from_block(cmark_node *node, cmark_mem *mem)
     mem->free(buf);
 }
 
+/**
+ * Hand from's content buffer over to to. The literals of inline nodes can point into the
+ * content of the block they were parsed from, so the buffer must move along with them.
+ */
+static void take_block_content(cmark_node *to, cmark_node *from) {
+    cmark_strbuf content = to->content;
+    to->content = from->content;
+    from->content = content;
+}
+
 /**
  * Move all children from para into term, then unlink and free para.
  * If para had no inline children, use its block content to create a TEXT node in term.
@@ -1754,6 +1764,7 @@ static void move_paragraph_inlines_to_term(cmark_node *term, cmark_node *para) {
             cmark_node_append_child(term, child);
         }
     }
+    take_block_content(term, para);
     cmark_node_unlink(para);
     cmark_node_free(para);
 }
@@ -1843,6 +1854,7 @@ static void create_dd_from_paragraph(cmark_syntax_extension *ext,
         cmark_node_insert_after(term, dd);
     else
         cmark_node_append_child(def_list, dd);
+    take_block_content(dd, para);
     cmark_node_unlink(para);
     cmark_node_free(para);
 }
@@ -1994,10 +2006,13 @@ cmark_syntax_extension *create_definition_list_extension(void) {
     cmark_syntax_extension *ext = cmark_syntax_extension_new("definition_list");
     if (!ext) return NULL;
 
-    /* Register node types */
-    APEX_NODE_DEFINITION_LIST = cmark_syntax_extension_add_node(0);
-    APEX_NODE_DEFINITION_TERM = cmark_syntax_extension_add_node(0);
-    APEX_NODE_DEFINITION_DATA = cmark_syntax_extension_add_node(0);
+    /* Register node types once per process: cmark has a fixed number of them and
+     * aborts when they run out, and this is called for every conversion. */
+    if (!APEX_NODE_DEFINITION_LIST) {
+        APEX_NODE_DEFINITION_LIST = cmark_syntax_extension_add_node(0);
+        APEX_NODE_DEFINITION_TERM = cmark_syntax_extension_add_node(0);
+        APEX_NODE_DEFINITION_DATA = cmark_syntax_extension_add_node(0);
+    }
 
     /* Set callbacks */
     cmark_syntax_extension_set_open_block_func(ext, open_block);
-- 
2.43.0


From d1ac667f02b6b5db2a116a0eaa2801e7a0b90dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:14 +0000
Subject: [PATCH 014/180] fix: video/picture replacement overflow and over-read
 at end of HTML

---
 src/html_renderer.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/html_renderer.c b/src/html_renderer.c
index 1bef780..abaaeaf 100644
--- a/src/html_renderer.c
+++ b/src/html_renderer.c
@@ -859,7 +859,8 @@ char *apex_render_html_with_attributes(cmark_node *document, int options) {
 
                             if (strstr(matching->attrs, "data-apex-replace-video")) {
                                 /* Build <video> with <source> elements. Order: webm, ogg, mp4/mov/m4v (primary) */
-                                size_t cap = 256 + (src ? strlen(src) * 4 : 0);
+                                /* Up to six <source> elements, each with the URL and an extension */
+                                size_t cap = 512 + (src ? strlen(src) * 6 : 0) + (alt ? strlen(alt) : 0);
                                 replacement = malloc(cap);
                                 if (replacement) {
                                     char *w = replacement;
@@ -898,7 +899,7 @@ char *apex_render_html_with_attributes(cmark_node *document, int options) {
                                 char *avif_srcset = extract_data_apex_picture_srcset(matching->attrs, "avif");
 
                                 /* Strip data-apex-* from attrs for the img */
-                                size_t cap = 512 + (src ? strlen(src) * 2 : 0) + (webp_srcset ? strlen(webp_srcset) : 0) + (avif_srcset ? strlen(avif_srcset) : 0);
+                                size_t cap = 512 + (src ? strlen(src) * 2 : 0) + (alt ? strlen(alt) : 0) + (title ? strlen(title) : 0) + (webp_srcset ? strlen(webp_srcset) : 0) + (avif_srcset ? strlen(avif_srcset) : 0);
                                 replacement = malloc(cap);
                                 if (replacement) {
                                     char *w = replacement;
@@ -1512,7 +1513,8 @@ char *apex_collapse_intertag_newlines(const char *html) {
                 read = look;
                 continue;
             }
-            /* Otherwise, fall through and let the normal loop copy whitespace */
+            /* Otherwise, let the normal loop copy whitespace (and stop at the end of the string) */
+            continue;
         }
 
         *write++ = *read++;
-- 
2.43.0


From 7e1c4db189b448cf3951f349fcaac55d887f6d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:14 +0000
Subject: [PATCH 015/180] fix: use-after-free of normalised text; alpha list
 buffer too small

---
 src/apex.c | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/apex.c b/src/apex.c
index 9ec4a63..a8ef590 100644
--- a/src/apex.c
+++ b/src/apex.c
@@ -2006,7 +2006,7 @@ static char *apex_preprocess_alpha_lists(const char *text) {
     if (!text) return NULL;
 
     size_t text_len = strlen(text);
-    size_t output_capacity = text_len * 3;  /* Extra capacity for markers and conversions */
+    size_t output_capacity = text_len * 3 + 1;  /* Extra capacity for markers and conversions */
     char *output = malloc(output_capacity);
     if (!output) return NULL;
 
@@ -2026,6 +2026,21 @@ static char *apex_preprocess_alpha_lists(const char *text) {
         if (!line_end) line_end = read + strlen(read);
         bool has_newline = (*line_end == '\n');
 
+        /* A line can gain a list marker paragraph and a number: make sure it always fits */
+        size_t line_needed = (size_t)(line_end - line_start) + 64;
+        if (remaining < line_needed) {
+            size_t used = write - output;
+            output_capacity = (used + line_needed) * 2;
+            char *new_output = realloc(output, output_capacity);
+            if (!new_output) {
+                free(output);
+                return NULL;
+            }
+            output = new_output;
+            write = output + used;
+            remaining = output_capacity - used;
+        }
+
         /* Check for line start */
         const char *p = line_start;
         while (p < line_end && (*p == ' ' || *p == '\t')) {
@@ -2323,8 +2338,8 @@ static char *apex_postprocess_alpha_lists_html(const char *html) {
 
     /* Copy any remaining characters */
     size_t remaining_len = read - read_start;
+    ENSURE_SPACE(remaining_len + 1);
     if (remaining_len > 0) {
-        ENSURE_SPACE(remaining_len);
         memcpy(write, read_start, remaining_len);
         write += remaining_len;
         remaining -= remaining_len;
@@ -5003,6 +5018,12 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
     cmark_node *document = cmark_parser_finish(parser);
     PROFILE_END(parsing);
 
+    /* Look for markers that decide on later AST passes while the parsed text is still alive */
+    bool text_has_wiki_markers = strstr(text_ptr, "[[") != NULL;
+    bool text_has_ial_markers = strstr(text_ptr, "{:") != NULL ||
+                                strstr(text_ptr, "{#") != NULL ||
+                                strstr(text_ptr, "{.") != NULL;
+
     /* Free normalized buffer if we allocated it (after parser is finished) */
     if (final_normalized) {
         free(final_normalized);
@@ -5062,7 +5083,7 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
     /* Postprocess wiki links if enabled */
     if (options->enable_wiki_links) {
         /* Fast path: skip AST walk if no wiki link markers present */
-        if (strstr(text_ptr, "[[") != NULL) {
+        if (text_has_wiki_markers) {
             PROGRESS_REPORT("Processing wiki links", -1);
             /* Create wiki link configuration from options */
             wiki_link_config wiki_config;
@@ -5096,9 +5117,7 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
     if (alds || options->mode == APEX_MODE_KRAMDOWN || options->mode == APEX_MODE_UNIFIED) {
         /* Fast path: skip AST walk if no IAL markers present */
         /* Check for both Kramdown-style ({:) and Pandoc-style ({# or {.) IALs */
-        if (strstr(text_ptr, "{:") != NULL ||
-            strstr(text_ptr, "{#") != NULL ||
-            strstr(text_ptr, "{.") != NULL) {
+        if (text_has_ial_markers) {
             PROFILE_START(ial);
             apex_process_ial_in_tree(document, alds);
             PROFILE_END(ial);
-- 
2.43.0


From 9e2120beadfd6a9231f1ecb9fe41589b1cc840a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:40 +0000
Subject: [PATCH 016/180] fix: man output hangs on a literal '<' or '&' in a
 definition list

---
 src/ast_man.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/ast_man.c b/src/ast_man.c
index 0bd0cff..3ca2b42 100644
--- a/src/ast_man.c
+++ b/src/ast_man.c
@@ -157,11 +157,10 @@ static void append_html_fragment_roff(man_buffer *buf, const char *str, size_t l
                 continue;
             }
         }
-        /* plain text run */
-        size_t start = i;
+        /* plain text run (a '<' or '&' that got here is literal text, so always advance) */
+        size_t start = i++;
         while (i < len && str[i] != '<' && str[i] != '&') i++;
-        if (i > start)
-            man_buf_append_roff_safe(buf, str + start, i - start);
+        man_buf_append_roff_safe(buf, str + start, i - start);
     }
 }
 
-- 
2.43.0


From 3af275628ae7fa40ba6d4a0139a64d5ef75a94f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:40 +0000
Subject: [PATCH 017/180] fix: over-read on an unterminated index placeholder

---
 src/extensions/index.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/extensions/index.c b/src/extensions/index.c
index 966a7eb..99c9c03 100644
--- a/src/extensions/index.c
+++ b/src/extensions/index.c
@@ -660,6 +660,8 @@ char *apex_render_index_markers(const char *html, apex_index_registry *registry,
             }
         }
 
+        if (!*read) break;  /* Unterminated placeholder at the end of the document */
+
         /* Copy character as-is */
         if (remaining < 2) {
             size_t used = write - output;
-- 
2.43.0


From 0645118490e09d6168ad79cc0c1e339665dc522f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:40 +0000
Subject: [PATCH 018/180] fix: IAL pass walks removed nodes; long width/height
 values overflow the style buffer

---
 src/extensions/ial.c | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/extensions/ial.c b/src/extensions/ial.c
index 79beba0..c241d9e 100644
--- a/src/extensions/ial.c
+++ b/src/extensions/ial.c
@@ -700,8 +700,7 @@ char *attributes_to_html(apex_attributes *attrs) {
             if (is_px && !is_decimal_px && is_integer) {
                 /* Convert integer Xpx to integer X for width/height attributes */
                 char int_val[64];
-                memcpy(int_val, val, val_len - 2);
-                int_val[val_len - 2] = '\0';
+                snprintf(int_val, sizeof(int_val), "%.*s", (int)(val_len - 2), val);
 
                 char attr_str[1024];
                 if (first_attr) {
@@ -723,12 +722,9 @@ char *attributes_to_html(apex_attributes *attrs) {
                 APPEND(attr_str);
             } else {
                 /* Percentage, decimal pixel, or other non-integer - add to style */
-                if (has_style) {
-                    strcat(style_buffer, "; ");
-                }
-                strcat(style_buffer, key);
-                strcat(style_buffer, ": ");
-                strcat(style_buffer, val);
+                size_t style_len = strlen(style_buffer);
+                snprintf(style_buffer + style_len, sizeof(style_buffer) - style_len,
+                         "%s%s: %s", has_style ? "; " : "", key, val);
                 has_style = true;
             }
         }
@@ -1488,6 +1484,8 @@ void apex_process_ial_in_tree(cmark_node *node, ald_entry *alds) {
         if (ev_type == CMARK_EVENT_ENTER) {
             /* Process node and collect any nodes that need to be freed */
             cmark_node *node_to_free = process_node_ial(cur, alds);
+            /* Children of cur may have been removed: recompute where to go next */
+            cmark_iter_reset(iter, cur, CMARK_EVENT_ENTER);
             if (node_to_free) {
                 /* Expand array if needed */
                 if (free_count >= free_capacity) {
-- 
2.43.0


From f400deac34663595586bf78225d8a8972f4d0a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:38 +0000
Subject: [PATCH 019/180] fix: table post-processing takes quartic time when no
 column has a rowspan

---
 src/extensions/table_html_postprocess.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/extensions/table_html_postprocess.c b/src/extensions/table_html_postprocess.c
index 36b9836..bb5f6f1 100644
--- a/src/extensions/table_html_postprocess.c
+++ b/src/extensions/table_html_postprocess.c
@@ -1128,7 +1128,12 @@ char *apex_inject_table_attributes(const char *html, cmark_node *document, int c
                  * If a previous row has a cell with rowspan that's still active (spans to this row),
                  * then this column won't render a new <td> tag in this HTML row. */
                 bool covered_by_rowspan = false;
-                if (renders_new_cell && row_idx > 0) {
+                bool column_has_rowspan = false;
+                for (cell_attr *a = attrs; a && !column_has_rowspan; a = a->next) {
+                    column_has_rowspan = a->table_index == table_idx && a->col_index == orig_col &&
+                                         strstr(a->attributes, "rowspan=") != NULL;
+                }
+                if (renders_new_cell && row_idx > 0 && column_has_rowspan) {
                     /* Check all previous HTML rows to see if any have a rowspan covering this column */
                     for (int prev_html_row = 0; prev_html_row < row_idx; prev_html_row++) {
                         /* Map previous HTML row to AST row */
-- 
2.43.0


From a493505f9c546be6bce7cacbccb880e8e81b0032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:38 +0000
Subject: [PATCH 020/180] fix: newline after a converted table fence written
 past the buffer

---
 src/extensions/inline_tables.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/extensions/inline_tables.c b/src/extensions/inline_tables.c
index bbe5928..34674eb 100644
--- a/src/extensions/inline_tables.c
+++ b/src/extensions/inline_tables.c
@@ -133,9 +133,10 @@ char *apex_process_inline_tables(const char *text) {
                 }
 
                 size_t table_len = strlen(table);
-                if (write + table_len >= out + capacity) {
+                /* Room for the table and the newline after the closing fence */
+                if (write + table_len + 2 >= out + capacity) {
                     size_t used = (size_t)(write - out);
-                    capacity = (used + table_len + 1) * 2;
+                    capacity = (used + table_len + 2) * 2;
                     char *tmp = realloc(out, capacity);
                     if (!tmp) {
                         free(out);
-- 
2.43.0


From fa39312712c816dc8244a36b4ccd508d3b9c4c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:38 +0000
Subject: [PATCH 021/180] fix: footnote pass walks freed nodes after reparsing
 a definition

---
 src/extensions/advanced_footnotes.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/extensions/advanced_footnotes.c b/src/extensions/advanced_footnotes.c
index 9203e1b..6e3876f 100644
--- a/src/extensions/advanced_footnotes.c
+++ b/src/extensions/advanced_footnotes.c
@@ -151,6 +151,8 @@ cmark_node *apex_process_advanced_footnotes(cmark_node *root, cmark_parser *pars
             /* Check if this is a footnote definition */
             if (type == CMARK_NODE_FOOTNOTE_DEFINITION) {
                 reparse_footnote_blocks(cur, parser);
+                /* The children may have been replaced: continue with the current ones */
+                cmark_iter_reset(iter, cur, CMARK_EVENT_ENTER);
             }
         }
     }
-- 
2.43.0


From 7ca89c24600f2a4dc5298e13ded560450f86ee01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:57 +0000
Subject: [PATCH 022/180] fix: terminal output dereferences NULL for a callout
 block without a closing tag

---
 src/ast_terminal.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ast_terminal.c b/src/ast_terminal.c
index 012dec6..4459855 100644
--- a/src/ast_terminal.c
+++ b/src/ast_terminal.c
@@ -2311,8 +2311,11 @@ static void serialize_block(terminal_buffer *buf,
                         if (strstr(title_start, "<summary>")) {
                             title_start = strstr(title_start, "<summary>") + 9;
                         } else {
-                            title_start = strstr(title_start, ">") + 1;
+                            title_start = strchr(title_start, '>');
+                            if (title_start) title_start++;
                         }
+                    }
+                    if (title_start) {
                         const char *title_end = strstr(title_start, "</");
                         if (title_end && title_end > title_start) {
                             if (found_title) {
@@ -2335,8 +2338,9 @@ static void serialize_block(terminal_buffer *buf,
                     
                     /* Extract content */
                     const char *content_start = strstr(p, "callout-content");
+                    if (content_start) content_start = strchr(content_start, '>');
                     if (content_start) {
-                        content_start = strstr(content_start, ">") + 1;
+                        content_start++;
                         const char *content_end = strstr(content_start, "</div>");
                         if (!content_end) content_end = strstr(content_start, "</details>");
                         if (content_end && content_end > content_start) {
-- 
2.43.0


From a74ade3be99277ee2ecdf6e60d262194aa4f35f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:21 +0000
Subject: [PATCH 023/180] fix: CSL YAML parser reads past the end of a file
 without a final newline

---
 src/extensions/citations.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/extensions/citations.c b/src/extensions/citations.c
index fd05738..79ca252 100644
--- a/src/extensions/citations.c
+++ b/src/extensions/citations.c
@@ -1832,6 +1832,7 @@ apex_bibliography_registry *apex_parse_csl_yaml(const char *content) {
         const char *line_start = p;
         const char *line_end = strchr(p, '\n');
         if (!line_end) line_end = p + strlen(p);
+        const char *next_start = *line_end ? line_end + 1 : line_end;
 
         size_t line_len = line_end - line_start;
         char line[1024];
@@ -1841,7 +1842,7 @@ apex_bibliography_registry *apex_parse_csl_yaml(const char *content) {
 
         char *trimmed = trim_string(line);
         if (!trimmed || *trimmed == '\0' || *trimmed == '#') {
-            p = line_end + 1;
+            p = next_start;
             continue;
         }
 
@@ -1858,12 +1859,12 @@ apex_bibliography_registry *apex_parse_csl_yaml(const char *content) {
             }
             current_entry = NULL;
             in_entry = true;
-            p = line_end + 1;
+            p = next_start;
             continue;
         }
 
         if (!in_entry) {
-            p = line_end + 1;
+            p = next_start;
             continue;
         }
 
@@ -1896,9 +1897,9 @@ apex_bibliography_registry *apex_parse_csl_yaml(const char *content) {
                 } else if (strcmp(key, "author") == 0) {
                     /* Parse author structure - may be multi-line */
                     const char *author_start = value_str;
-                    if (*author_start == '\0' && line_end[1]) {
+                    if (*author_start == '\0' && *next_start) {
                         /* Multi-line author, look at next line */
-                        const char *next_line = line_end + 1;
+                        const char *next_line = next_start;
                         if (*next_line == '-' || (*next_line == ' ' && next_line[1] == ' ')) {
                             author_start = next_line;
                         }
@@ -1910,8 +1911,8 @@ apex_bibliography_registry *apex_parse_csl_yaml(const char *content) {
                 } else if (strcmp(key, "issued") == 0 || strcmp(key, "year") == 0) {
                     /* Parse date - may be multi-line */
                     const char *date_start = value_str;
-                    if (*date_start == '\0' && line_end[1]) {
-                        const char *next_line = line_end + 1;
+                    if (*date_start == '\0' && *next_start) {
+                        const char *next_line = next_start;
                         if (*next_line == ' ' || *next_line == '-') {
                             date_start = next_line;
                         }
@@ -1944,7 +1945,7 @@ apex_bibliography_registry *apex_parse_csl_yaml(const char *content) {
             }
         }
 
-        p = line_end + 1;
+        p = next_start;
     }
 
     /* Add last entry if exists */
-- 
2.43.0


From ce4f101835a562f5fed8b5f456aae477539ef93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:52 +0000
Subject: [PATCH 024/180] fix: BibTeX parser crashes on an unterminated entry
 and rescans parsed fields

---
 src/extensions/citations.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/extensions/citations.c b/src/extensions/citations.c
index 79ca252..2e7c3ce 100644
--- a/src/extensions/citations.c
+++ b/src/extensions/citations.c
@@ -1482,6 +1482,7 @@ apex_bibliography_registry *apex_parse_bibtex(const char *content) {
         /* Create entry */
         apex_bibliography_entry *entry = bibliography_entry_new(entry_id);
         free(entry_id);
+        const char *entry_end = key_end;
 
         if (entry) {
             entry->type = strdup(bibtex_to_csl_type(type_str));
@@ -1530,6 +1531,7 @@ apex_bibliography_registry *apex_parse_bibtex(const char *content) {
                     /* Advance past this field */
                     if (field_end) {
                         field_start = field_end;
+                        entry_end = field_end;
                         /* Skip comma if present */
                         while (*field_start && (*field_start == ',' || isspace(*field_start))) {
                             field_start++;
@@ -1557,9 +1559,10 @@ apex_bibliography_registry *apex_parse_bibtex(const char *content) {
 
         free((void*)type_str);
 
-        /* Find next entry */
-        p = strchr(p, '}');
-        if (p) p++;
+        /* Find next entry (after the fields that were parsed) */
+        p = strchr(entry_end, '}');
+        if (!p) break;  /* Unterminated entry: nothing can follow it */
+        p++;
     }
 
     return registry;
-- 
2.43.0


From 339900aefb4e9e9932008cebfc6d622caef6977f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:19 +0000
Subject: [PATCH 025/180] fix: bibliography values with leading space free a
 pointer into the middle of a block

---
 src/extensions/citations.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/extensions/citations.c b/src/extensions/citations.c
index 2e7c3ce..b7c1327 100644
--- a/src/extensions/citations.c
+++ b/src/extensions/citations.c
@@ -1242,8 +1242,10 @@ apex_bibliography_entry *apex_find_bibliography_entry(apex_bibliography_registry
 static char *trim_string(char *str) {
     if (!str) return NULL;
 
-    /* Trim leading whitespace */
-    while (isspace((unsigned char)*str)) str++;
+    /* Trim leading whitespace (callers free the pointer they passed in) */
+    char *start = str;
+    while (isspace((unsigned char)*start)) start++;
+    if (start != str) memmove(str, start, strlen(start) + 1);
 
     if (*str == 0) return str;
 
-- 
2.43.0


From f3e16ecca9b4225324b6ad5f57c60f5b4c8c3c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:26 +0000
Subject: [PATCH 026/180] fix: ==, ++ and inline table extensions rewrite
 CommonMark and GFM documents

---
 src/apex.c | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/apex.c b/src/apex.c
index a8ef590..c431df1 100644
--- a/src/apex.c
+++ b/src/apex.c
@@ -4295,12 +4295,15 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
     }
 
     /* Process inline table fences and <!--TABLE--> markers before parsing */
+    bool strict_dialect = (options->mode == APEX_MODE_COMMONMARK || options->mode == APEX_MODE_GFM);
     char *inline_tables_processed = NULL;
-    PROFILE_START(inline_tables);
-    inline_tables_processed = apex_process_inline_tables(text_ptr);
-    PROFILE_END(inline_tables);
-    if (inline_tables_processed) {
-        text_ptr = inline_tables_processed;
+    if (!strict_dialect) {
+        PROFILE_START(inline_tables);
+        inline_tables_processed = apex_process_inline_tables(text_ptr);
+        PROFILE_END(inline_tables);
+        if (inline_tables_processed) {
+            text_ptr = inline_tables_processed;
+        }
     }
 
     /* Process alpha lists before parsing (preprocessing) */
@@ -4339,7 +4342,7 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
     /* Process ==highlight== syntax before parsing
      * Skip if proofreader mode is enabled (proofreader will handle it via CriticMarkup) */
     char *highlights_processed = NULL;
-    if (!options->proofreader_mode) {
+    if (!options->proofreader_mode && !strict_dialect) {
         PROFILE_START(highlights);
         highlights_processed = apex_process_highlights(text_ptr);
         PROFILE_END(highlights);
@@ -4350,11 +4353,13 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
 
     /* Process ++insert++ syntax before parsing */
     char *inserts_processed = NULL;
-    PROFILE_START(inserts);
-    inserts_processed = apex_process_inserts(text_ptr);
-    PROFILE_END(inserts);
-    if (inserts_processed) {
-        text_ptr = inserts_processed;
+    if (!strict_dialect) {
+        PROFILE_START(inserts);
+        inserts_processed = apex_process_inserts(text_ptr);
+        PROFILE_END(inserts);
+        if (inserts_processed) {
+            text_ptr = inserts_processed;
+        }
     }
 
     /* Process superscript and subscript syntax before parsing */
-- 
2.43.0


From b97a85821f235c9d1c6e7fd1912f473d7b618b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:37 +0000
Subject: [PATCH 027/180] fix: '||' outside tables (prose, code) rewritten to a
 colspan marker

---
 src/apex.c | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/src/apex.c b/src/apex.c
index c431df1..918154d 100644
--- a/src/apex.c
+++ b/src/apex.c
@@ -1764,6 +1764,30 @@ static char *apex_restore_liquid_tags(const char *html,
     return output;
 }
 
+/**
+ * Check whether the run of non-blank lines starting at text contains a table
+ * separator row (only pipes, dashes, colons, plus, equals and whitespace).
+ */
+static bool block_has_table_separator(const char *text) {
+    const char *line = text;
+    while (*line) {
+        bool has_dash = false, has_pipe = false, only_sep = true, blank = true;
+        const char *p = line;
+        for (; *p && *p != '\n' && *p != '\r'; p++) {
+            if (*p != ' ' && *p != '\t') blank = false;
+            if (*p == '-') has_dash = true;
+            else if (*p == '|') has_pipe = true;
+            else if (!strchr(" \t:+=>", *p)) only_sep = false;
+        }
+        if (blank) return false;
+        if (only_sep && has_dash && has_pipe) return true;
+        if (p[0] == '\r' && p[1] == '\n') p++;
+        if (*p) p++;
+        line = p;
+    }
+    return false;
+}
+
 /**
  * Preprocess table rows to convert consecutive pipes without whitespace into << markers
  * for colspan detection.
@@ -1788,6 +1812,8 @@ static char *apex_preprocess_table_colspans(const char *text) {
     char *write = out;
     size_t remaining = cap;
     bool in_code_block = false;
+    bool previous_blank = true;
+    bool in_table = false;  /* current run of non-blank lines has a separator row */
 
     while (*read) {
         const char *line_start = read;
@@ -1828,9 +1854,15 @@ static char *apex_preprocess_table_colspans(const char *text) {
             in_code_block = false;
         }
 
+        bool blank_line = (p == line_end);
+        if (previous_blank && !blank_line) {
+            in_table = block_has_table_separator(line_start);
+        }
+        previous_blank = blank_line;
+
         /* Check if this line contains a table row (has | character) */
         bool is_table_row = false;
-        if (!in_code_block) {
+        if (!in_code_block && in_table) {
             for (const char *q = line_start; q < line_end; q++) {
                 if (*q == '|') {
                     is_table_row = true;
-- 
2.43.0


From f0e7fff15e38493d8e53837003c91bec99c32dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:13 +0000
Subject: [PATCH 028/180] fix: a conversion with math disables backslash
 escapes in later conversions

---
 src/extensions/math.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/extensions/math.c b/src/extensions/math.c
index 5e5e97a..a335dcc 100644
--- a/src/extensions/math.c
+++ b/src/extensions/math.c
@@ -264,14 +264,15 @@ static cmark_node *match_math_backslash(cmark_syntax_extension *self,
 cmark_syntax_extension *create_math_extension(void) {
     cmark_syntax_extension *ext = cmark_syntax_extension_new("math");
 
-    /* Register special characters $ and \ */
+    /* Register special character $. '\' must not be registered: it is special in
+     * cmark itself, which clears a special character after a parser that had an
+     * extension for it, so escapes would stop working in later conversions. */
     cmark_llist *special_chars = NULL;
     cmark_mem *mem = cmark_get_default_mem_allocator();
     special_chars = cmark_llist_append(mem, special_chars, (void *)'$');
-    special_chars = cmark_llist_append(mem, special_chars, (void *)'\\');
     cmark_syntax_extension_set_special_inline_chars(ext, special_chars);
 
-    /* Set match function - it will handle both $ and \ */
+    /* Set match function */
     cmark_syntax_extension_set_match_inline_func(ext, match_math_dollar);
 
     return ext;
-- 
2.43.0


From f53560880b50a22e196b995861f8d5f25aabe990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:17 +0000
Subject: [PATCH 029/180] fix: blank lines inside <pre> collapsed as if they
 were space between tags

---
 src/html_renderer.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/html_renderer.c b/src/html_renderer.c
index abaaeaf..97e3535 100644
--- a/src/html_renderer.c
+++ b/src/html_renderer.c
@@ -1487,6 +1487,14 @@ char *apex_collapse_intertag_newlines(const char *html) {
     char *write = output;
 
     while (*read) {
+        /* Whitespace is content inside <pre>: copy such elements as they are */
+        if (*read == '<' && strncasecmp(read, "<pre", 4) == 0 &&
+            (read[4] == '>' || isspace((unsigned char)read[4]))) {
+            while (*read && strncasecmp(read, "</pre", 5) != 0) {
+                *write++ = *read++;
+            }
+            continue;
+        }
         if (*read == '>') {
             /* Copy the '>' */
             *write++ = *read++;
-- 
2.43.0


From 01c8f348c5cc7a4aaba33c475491ae1c48e9e52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:59 +0000
Subject: [PATCH 030/180] fix: a long first header cell turns the first column
 into row headers

---
 src/extensions/table_html_postprocess.c | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/src/extensions/table_html_postprocess.c b/src/extensions/table_html_postprocess.c
index bb5f6f1..2dbc7d8 100644
--- a/src/extensions/table_html_postprocess.c
+++ b/src/extensions/table_html_postprocess.c
@@ -1768,11 +1768,11 @@ char *apex_inject_table_attributes(const char *html, cmark_node *document, int c
                 bool header_first_cell_empty = false;
                 /* Find the > that closes this <th tag - it should be right after <th or <th with attributes */
                 const char *tag_end = strchr(read, '>');
-                if (tag_end && tag_end > read && tag_end < read + 20) {
+                if (tag_end) {
                     /* Found the > for this <th tag - now find the matching </th> immediately following */
                     const char *content_start = tag_end + 1;
                     const char *content_end = strstr(content_start, "</th>");
-                    if (content_end && content_end < read + 100) {
+                    if (content_end) {
                         /* Check if content between > and </th> is empty or whitespace only */
                         /* For empty cells like <th></th>, content_end should be right after content_start */
                         header_first_cell_empty = true;
@@ -1782,13 +1782,7 @@ char *apex_inject_table_attributes(const char *html, cmark_node *document, int c
                                 break;
                             }
                         }
-                    } else {
-                        /* No closing tag found in reasonable distance - treat as empty */
-                        header_first_cell_empty = true;
                     }
-                } else {
-                    /* No > found in reasonable distance - treat as empty (shouldn't happen) */
-                    header_first_cell_empty = true;
                 }
                 if (header_first_cell_empty) {
                     table_has_row_header_first_col[table_idx] = true;
@@ -2310,10 +2304,10 @@ char *apex_inject_table_attributes(const char *html, cmark_node *document, int c
                 bool is_empty = false;
                 const char *close_tag = "</th>";
                 const char *tag_end = strchr(read, '>');
-                if (tag_end && tag_end > read && tag_end < read + 20) {
+                if (tag_end) {
                     const char *content_start = tag_end + 1;
                     const char *content_end = strstr(content_start, close_tag);
-                    if (content_end && content_end < read + 100) {
+                    if (content_end) {
                         /* Check if content between > and </th> is empty or whitespace only */
                         is_empty = true;
                         for (const char *p = content_start; p < content_end; p++) {
@@ -2322,13 +2316,7 @@ char *apex_inject_table_attributes(const char *html, cmark_node *document, int c
                                 break;
                             }
                         }
-                    } else {
-                        /* No closing tag found in reasonable distance - treat as empty */
-                        is_empty = true;
                     }
-                } else {
-                    /* No > found in reasonable distance - treat as empty (shouldn't happen) */
-                    is_empty = true;
                 }
                 if (is_empty && !table_has_row_header_first_col[table_idx]) {
                     table_has_row_header_first_col[table_idx] = true;
-- 
2.43.0


From fdf15a09bf683e0363ef594e6212286e3f6c96bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:58 +0000
Subject: [PATCH 031/180] fix: man output of a document depends on whether the
 previous one ended in a definition list

---
 src/ast_man.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ast_man.c b/src/ast_man.c
index 3ca2b42..147c30b 100644
--- a/src/ast_man.c
+++ b/src/ast_man.c
@@ -401,6 +401,7 @@ static void render_block_roff(man_buffer *buf, cmark_node *node) {
     cmark_node_type t = cmark_node_get_type(node);
     switch (t) {
         case CMARK_NODE_DOCUMENT:
+            roff_last_was_dl_dd = false;  /* do not carry over from an earlier document */
             for (cmark_node *cur = cmark_node_first_child(node); cur; cur = cmark_node_next(cur))
                 render_block_roff(buf, cur);
             break;
-- 
2.43.0


From 1838531e1e490f580bc50315138af6ac7ec2c703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:46 +0000
Subject: [PATCH 032/180] fix: bracketed spans write the terminating NUL past
 the buffer

---
 src/extensions/ial.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/extensions/ial.c b/src/extensions/ial.c
index c241d9e..b92d2bf 100644
--- a/src/extensions/ial.c
+++ b/src/extensions/ial.c
@@ -4203,7 +4203,7 @@ char *apex_preprocess_bracketed_spans(const char *text) {
     char **ref_ids = extract_reference_link_ids(text, &ref_count);
 
     size_t text_len = strlen(text);
-    size_t output_capacity = text_len * 2;  /* Worst case: every char becomes part of HTML */
+    size_t output_capacity = text_len * 2 + 1;  /* Worst case: every char becomes part of HTML */
     char *output = malloc(output_capacity);
     if (!output) {
         /* Free ref_ids */
@@ -4373,13 +4373,13 @@ char *apex_preprocess_bracketed_spans(const char *text) {
             }
         }
 
-        /* Copy character as-is */
-        if (remaining > 0) {
+        /* Copy character as-is (always leave room for the terminating NUL) */
+        if (remaining > 1) {
             *write++ = *read++;
             remaining--;
         } else {
             size_t written = write - output;
-            output_capacity = (written + 1) * 2;
+            output_capacity = (written + 2) * 2;
             char *new_output = realloc(output, output_capacity);
             if (!new_output) {
                 goto cleanup;
-- 
2.43.0


From 4e00fa5ceb2a57bb303068ff89d43ae0be24a64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:31 +0000
Subject: [PATCH 033/180] fix: text in braces after ++insert++ is dropped when
 it is not an attribute list

---
 src/extensions/insert.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/extensions/insert.c b/src/extensions/insert.c
index db4ea1a..838cf3f 100644
--- a/src/extensions/insert.c
+++ b/src/extensions/insert.c
@@ -131,6 +131,12 @@ char *apex_process_inserts(const char *text) {
                         /* Parse IAL attributes */
                         apex_attributes *attrs = parse_ial_content(ial_start + 1, ial_len);
 
+                        /* Braces without any attribute are text ({note}, {++critic++}) */
+                        if (attrs && !attrs->id && attrs->class_count == 0 && attrs->attr_count == 0) {
+                            apex_free_attributes(attrs);
+                            attrs = NULL;
+                        }
+
                         if (attrs) {
                             /* Build ins tag with attributes */
                             char *attr_str = attributes_to_html(attrs);
-- 
2.43.0


From 2f21d6e77c6aa25725ad0bfa3b7a2e7b47f64fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:43 +0000
Subject: [PATCH 034/180] fix: text in braces after a bracket is dropped when
 it is not an attribute list

---
 src/extensions/ial.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/extensions/ial.c b/src/extensions/ial.c
index b92d2bf..a0b5244 100644
--- a/src/extensions/ial.c
+++ b/src/extensions/ial.c
@@ -4312,6 +4312,12 @@ char *apex_preprocess_bracketed_spans(const char *text) {
                                 size_t ial_len = ial_end - (ial_start + 1);
                                 apex_attributes *attrs = parse_ial_content(ial_start + 1, ial_len);
 
+                                /* Braces without any attribute are text, not an IAL */
+                                if (attrs && !attrs->id && attrs->class_count == 0 && attrs->attr_count == 0) {
+                                    apex_free_attributes(attrs);
+                                    attrs = NULL;
+                                }
+
                                 if (attrs) {
                                     /* Build span tag with attributes */
                                     char *attr_str = attributes_to_html(attrs);
-- 
2.43.0


From 2cbdcfb671f16af464ab675a9b9bc962a1cd133f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:54 +0000
Subject: [PATCH 035/180] fix: front matter extraction drops headings and body
 text

YAML front matter now ends at the first line that is exactly --- or ...;
a document that starts with --- but has no closing line has no front matter.
MultiMarkdown metadata extraction no longer deletes a leading heading,
comment or marker line.
---
 src/extensions/metadata.c | 59 ++++++++++++++++++++++++---------------
 1 file changed, 37 insertions(+), 22 deletions(-)

diff --git a/src/extensions/metadata.c b/src/extensions/metadata.c
index a320234..251f158 100644
--- a/src/extensions/metadata.c
+++ b/src/extensions/metadata.c
@@ -103,6 +103,24 @@ static void add_metadata_item(apex_metadata_item **list, const char *key, const
     *list = item;
 }
 
+/**
+ * Find the first line consisting of --- or ... (trailing white space allowed).
+ * text is at the start of a line; returns the start of that line or NULL.
+ */
+static const char *find_yaml_end(const char *text) {
+    const char *line = text;
+    while (line && *line) {
+        if (strncmp(line, "---", 3) == 0 || strncmp(line, "...", 3) == 0) {
+            const char *p = line + 3;
+            while (*p == ' ' || *p == '\t' || *p == '\r') p++;
+            if (*p == '\n' || *p == '\0') return line;
+        }
+        line = strchr(line, '\n');
+        if (line) line++;
+    }
+    return NULL;
+}
+
 #ifdef APEX_HAVE_LIBYAML
 /* Recursively convert libyaml node to flat metadata items */
 static void yaml_node_to_flat_items(yaml_document_t *doc, yaml_node_t *node,
@@ -264,26 +282,13 @@ static apex_metadata_item *parse_yaml_with_libyaml(const char *text, size_t text
         }
     }
 
-    /* Find the end of YAML front matter (---) */
-    const char *end_marker = strstr(yaml_start, "\n---");
-    if (!end_marker) {
-        end_marker = strstr(yaml_start, "\n...");
-    }
-    if (!end_marker) {
-        /* Look for --- at start of line */
-        const char *p = yaml_start;
-        while ((p = strstr(p, "\n---")) != NULL) {
-            if (p[4] == '\n' || p[4] == '\0' || p[4] == '\r') {
-                end_marker = p;
-                break;
-            }
-            p += 4;
-        }
-    }
+    /* Find the line that ends the YAML front matter (the newline before it) */
+    const char *end_line = find_yaml_end(yaml_start);
+    const char *end_marker = end_line ? end_line - 1 : NULL;
 
     size_t yaml_content_len = text_len - (yaml_start - text);
-    if (end_marker && end_marker > yaml_start) {
-        yaml_content_len = (size_t)(end_marker - yaml_start);
+    if (end_line) {
+        yaml_content_len = (size_t)(end_line - yaml_start);
     }
 
     if (!yaml_parser_initialize(&parser)) {
@@ -708,17 +713,27 @@ apex_metadata_item *apex_extract_metadata(char **text_ptr) {
     size_t consumed = 0;
     apex_metadata_item *items = NULL;
 
-    /* Try YAML first (most explicit) */
+    /* Try YAML first (most explicit). A document that starts with a thematic break
+     * but has no closing line has no front matter. */
     if (strncmp(text, "---", 3) == 0) {
-        items = parse_yaml_metadata(text, &consumed);
+        const char *second_line = strchr(text, '\n');
+        if (find_yaml_end(text) == text && second_line && find_yaml_end(second_line + 1)) {
+            items = parse_yaml_metadata(text, &consumed);
+        }
     }
     /* Try Pandoc */
     else if (*text == '%') {
         items = parse_pandoc_metadata(text, &consumed);
     }
-    /* Try MMD (least specific) */
+    /* Try MMD (least specific). Metadata starts the document, so there is none when
+     * the first thing is a heading, comment, abbreviation, IAL or TOC marker. */
     else {
-        items = parse_mmd_metadata(text, &consumed);
+        const char *first = text;
+        while (isspace((unsigned char)*first)) first++;
+        if (*first != '#' && strncmp(first, "<!--", 4) != 0 && strncmp(first, "*[", 2) != 0 &&
+            strncmp(first, "[>", 2) != 0 && strncmp(first, "{:", 2) != 0 && strncmp(first, "{{TOC", 5) != 0) {
+            items = parse_mmd_metadata(text, &consumed);
+        }
     }
 
     /* Remove metadata from text if found */
-- 
2.43.0


From 2ff6f9c470141639c5b2e88edc3ea4db8e7e2d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:16 +0000
Subject: [PATCH 036/180] fix: format transform passes the document's text to
 printf as a format string

---
 src/extensions/metadata.c | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/extensions/metadata.c b/src/extensions/metadata.c
index 251f158..7acd486 100644
--- a/src/extensions/metadata.c
+++ b/src/extensions/metadata.c
@@ -1199,6 +1199,26 @@ static apex_string_array *split_string(const char *str, const char *delimiter_pa
     return arr;
 }
 
+/* A number format may hold one floating-point conversion and literal text, nothing else:
+ * any other conversion would read arguments that are not there. */
+static bool is_number_format(const char *format) {
+    int conversions = 0;
+    for (const char *p = format; *p; p++) {
+        if (*p != '%') continue;
+        p++;
+        if (*p == '%') continue;
+        while (*p && strchr("-+ #0'", *p)) p++;
+        while (isdigit((unsigned char)*p)) p++;
+        if (*p == '.') {
+            p++;
+            while (isdigit((unsigned char)*p)) p++;
+        }
+        if (!*p || !strchr("fFeEgGaA", *p)) return false;
+        conversions++;
+    }
+    return conversions == 1;
+}
+
 /**
  * Apply a single transform to a value
  * Returns newly allocated string, or NULL on error
@@ -1901,7 +1921,7 @@ static char *apply_transform(const char *transform_name, const char *options,
 
         /* Try to parse as number for formatting */
         double num = 0.0;
-        if (sscanf(value, "%lf", &num) == 1) {
+        if (is_number_format(options) && sscanf(value, "%lf", &num) == 1) {
             char buffer[256];
             int written = snprintf(buffer, sizeof(buffer), options, num);
             if (written > 0 && written < (int)sizeof(buffer)) {
-- 
2.43.0


From b6d9cf2b0c99205f941fc58c945ba38db425d315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:16 +0000
Subject: [PATCH 037/180] fix: truncate, repeat and slice transforms overflow
 on extreme numbers

---
 src/extensions/metadata.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/extensions/metadata.c b/src/extensions/metadata.c
index 7acd486..b2c610c 100644
--- a/src/extensions/metadata.c
+++ b/src/extensions/metadata.c
@@ -1361,7 +1361,7 @@ static char *apply_transform(const char *transform_name, const char *options,
             if (start < 0) start = 0;
             if (start >= (long)arr->count) return strdup("");
             if (len < 0) len = (long)arr->count - start;
-            if (len > 0 && (size_t)(start + len) > arr->count) len = (long)arr->count - start;
+            if (len > (long)arr->count - start) len = (long)arr->count - start;
 
             /* Create new array with slice */
             apex_string_array *slice = calloc(1, sizeof(apex_string_array));
@@ -1736,6 +1736,7 @@ static char *apply_transform(const char *transform_name, const char *options,
         if (sscanf(options, "%ld,%63s", &max_len, suffix) >= 1 ||
             sscanf(options, "%ld", &max_len) == 1) {
             size_t len = strlen(value);
+            if (max_len < 0) max_len = 0;
             if ((long)len <= max_len) return strdup(value);
 
             size_t suffix_len = strlen(suffix);
@@ -1889,6 +1890,7 @@ static char *apply_transform(const char *transform_name, const char *options,
         if (sscanf(options, "%ld", &count) == 1 && count > 0) {
             size_t value_len = strlen(value);
             if (value_len == 0) return strdup("");
+            if ((size_t)count > (SIZE_MAX / 2) / value_len) return strdup(value);
 
             char *result = malloc(value_len * count + 1);
             if (!result) return NULL;
@@ -1949,7 +1951,7 @@ static char *apply_transform(const char *transform_name, const char *options,
             if ((long)len >= width) return strdup(value);
 
             size_t pad_count = width - len;
-            char *result = malloc(width + 1);
+            char *result = malloc((size_t)width + 1);
             if (!result) return NULL;
 
             memset(result, pad_char, pad_count);
-- 
2.43.0


From d3b69d373bf2ffc95a49ac7700238a909d2e5d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:17 +0000
Subject: [PATCH 038/180] fix: split and replace transforms never end when the
 pattern matches nothing

---
 src/extensions/metadata.c | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/extensions/metadata.c b/src/extensions/metadata.c
index b2c610c..cecee9c 100644
--- a/src/extensions/metadata.c
+++ b/src/extensions/metadata.c
@@ -5,6 +5,7 @@
 
 #include "../../include/apex/apex.h"
 #include "metadata.h"
+#include <stdint.h>
 #include <string.h>
 #include <stdlib.h>
 #include <ctype.h>
@@ -1105,7 +1106,11 @@ static apex_string_array *split_string(const char *str, const char *delimiter_pa
     const char *search_pos = str;
     regmatch_t matches[1];
 
-    while (regexec(&regex, search_pos, 1, matches, 0) == 0) {
+    while (regexec(&regex, search_pos, 1, matches, search_pos == str ? 0 : REG_NOTBOL) == 0) {
+        if (matches[0].rm_eo == 0) {
+            /* An empty delimiter separates nothing and would never advance */
+            break;
+        }
         /* Extract token before match */
         size_t token_len = (size_t)matches[0].rm_so;
         if (token_len > 0) {
@@ -1606,10 +1611,14 @@ static char *apply_transform(const char *transform_name, const char *options,
                 /* Count matches first to estimate size */
                 size_t count = 0;
                 const char *search_pos = value;
-                while (regexec(&regex, search_pos, 1, matches, 0) == 0) {
+                while (regexec(&regex, search_pos, 1, matches, search_pos == value ? 0 : REG_NOTBOL) == 0) {
                     count++;
                     search_pos += matches[0].rm_eo;
-                    if (*search_pos == '\0') break;
+                    if (matches[0].rm_eo == matches[0].rm_so) {
+                        /* Empty match: step over one character so the search advances */
+                        if (*search_pos == '\0') break;
+                        search_pos++;
+                    }
                 }
 
                 if (count > 0) {
@@ -1621,7 +1630,7 @@ static char *apply_transform(const char *transform_name, const char *options,
                         const char *src = value;
 
                         search_pos = src;
-                        while (regexec(&regex, search_pos, 1, matches, 0) == 0) {
+                        while (regexec(&regex, search_pos, 1, matches, search_pos == src ? 0 : REG_NOTBOL) == 0) {
                             /* Copy text before match */
                             size_t before_len = matches[0].rm_so;
                             memcpy(out, search_pos, before_len);
@@ -1633,6 +1642,10 @@ static char *apply_transform(const char *transform_name, const char *options,
                             out += repl_len;
 
                             search_pos += matches[0].rm_eo;
+                            if (matches[0].rm_eo == matches[0].rm_so) {
+                                if (*search_pos == '\0') break;
+                                *out++ = *search_pos++;
+                            }
                         }
 
                         /* Copy remaining text */
-- 
2.43.0


From 1c384e9b07e4a6da9ad2d4ae092a8a3d86781546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:40 +0000
Subject: [PATCH 039/180] fix: transforms after first, last, slice or a
 one-element split work on the wrong value

---
 src/extensions/metadata.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/extensions/metadata.c b/src/extensions/metadata.c
index cecee9c..63164e8 100644
--- a/src/extensions/metadata.c
+++ b/src/extensions/metadata.c
@@ -1298,6 +1298,8 @@ static char *apply_transform(const char *transform_name, const char *options,
             *array_ptr = arr;
             *is_array = true;
         }
+        /* The result is a string: later transforms work on it, not on the array */
+        *is_array = false;
         apex_string_array *arr = *array_ptr;
         if (arr->count == 0) return strdup("");
         return strdup(arr->items[0]);
@@ -1312,6 +1314,7 @@ static char *apply_transform(const char *transform_name, const char *options,
             *array_ptr = arr;
             *is_array = true;
         }
+        *is_array = false;
         apex_string_array *arr = *array_ptr;
         if (arr->count == 0) return strdup("");
         return strdup(arr->items[arr->count - 1]);
@@ -1364,7 +1367,7 @@ static char *apply_transform(const char *transform_name, const char *options,
         if (sscanf(options, "%ld,%ld", &start, &len) >= 1) {
             apex_string_array *arr = *array_ptr;
             if (start < 0) start = 0;
-            if (start >= (long)arr->count) return strdup("");
+            if (start > (long)arr->count) start = (long)arr->count;
             if (len < 0) len = (long)arr->count - start;
             if (len > (long)arr->count - start) len = (long)arr->count - start;
 
@@ -1372,7 +1375,7 @@ static char *apply_transform(const char *transform_name, const char *options,
             apex_string_array *slice = calloc(1, sizeof(apex_string_array));
             if (!slice) return NULL;
             slice->capacity = len;
-            slice->items = malloc(len * sizeof(char*));
+            slice->items = malloc((len > 0 ? len : 1) * sizeof(char*));
             if (!slice->items) {
                 free(slice);
                 return NULL;
@@ -1414,6 +1417,7 @@ static char *apply_transform(const char *transform_name, const char *options,
     /* String transforms */
     if (*is_array) {
         /* Convert array to string first */
+        *is_array = false;
         apex_string_array *arr = *array_ptr;
         if (arr->count == 0) value = "";
         else if (arr->count == 1) value = arr->items[0];
@@ -1437,8 +1441,9 @@ static char *apply_transform(const char *transform_name, const char *options,
                 }
             }
             *p = '\0';
-            value = joined;
-            *is_array = false;
+            char *result = apply_transform(transform_name, options, joined, array_ptr, is_array);
+            free(joined);
+            return result;
         }
     }
 
-- 
2.43.0


From adf7df4be6d40670123c500a2e34595c4c818d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:40 +0000
Subject: [PATCH 040/180] fix: substring transform without an end drops the
 last character

---
 src/extensions/metadata.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/extensions/metadata.c b/src/extensions/metadata.c
index 63164e8..d0bef7e 100644
--- a/src/extensions/metadata.c
+++ b/src/extensions/metadata.c
@@ -1726,8 +1726,10 @@ static char *apply_transform(const char *transform_name, const char *options,
         if (!options) return strdup(value);
 
         long start = 0, end = -1;
-        if (sscanf(options, "%ld,%ld", &start, &end) >= 1) {
+        int parsed = sscanf(options, "%ld,%ld", &start, &end);
+        if (parsed >= 1) {
             size_t len = strlen(value);
+            if (parsed == 1) end = (long)len;  /* No END: up to the end of the value */
             if (start < 0) start = len + start;  /* Negative index from end */
             if (end < 0) end = len + end;
             if (start < 0) start = 0;
-- 
2.43.0


From 37b75e890ec121e9fa7fff9b6599cf38b6ee6c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:40 +0000
Subject: [PATCH 041/180] fix: html_escape transform garbles non-ASCII text

---
 src/extensions/metadata.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/extensions/metadata.c b/src/extensions/metadata.c
index d0bef7e..1546fc5 100644
--- a/src/extensions/metadata.c
+++ b/src/extensions/metadata.c
@@ -1795,8 +1795,8 @@ static char *apply_transform(const char *transform_name, const char *options,
                 case '"': strcpy(out, "&quot;"); out += 6; break;
                 case '\'': strcpy(out, "&#39;"); out += 5; break;
                 default:
-                    if (c >= 32 && c < 127) {
-                        *out++ = (char)c;
+                    if ((c >= 32 && c < 127) || c >= 128) {
+                        *out++ = (char)c;  /* Bytes of UTF-8 sequences are text, not characters to encode */
                     } else {
                         /* Encode other characters as entities */
                         int written = snprintf(out, 16, "&#%u;", c);
-- 
2.43.0


From be1a5514b8e22c5d5d16fb47f433bbd548e8b466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:40 +0000
Subject: [PATCH 042/180] fix: reverse transform breaks UTF-8 characters apart

---
 src/extensions/metadata.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/extensions/metadata.c b/src/extensions/metadata.c
index 1546fc5..260f79c 100644
--- a/src/extensions/metadata.c
+++ b/src/extensions/metadata.c
@@ -1931,8 +1931,14 @@ static char *apply_transform(const char *transform_name, const char *options,
         char *result = malloc(len + 1);
         if (!result) return NULL;
 
-        for (size_t i = 0; i < len; i++) {
-            result[i] = value[len - 1 - i];
+        /* Reverse characters, keeping the bytes of each UTF-8 sequence in order */
+        size_t out_pos = len;
+        for (size_t i = 0; i < len; ) {
+            size_t n = 1;
+            while (i + n < len && ((unsigned char)value[i + n] & 0xC0) == 0x80) n++;
+            out_pos -= n;
+            memcpy(result + out_pos, value + i, n);
+            i += n;
         }
         result[len] = '\0';
         return result;
-- 
2.43.0


From 874b87abbd5a13ac800a68398627ec91bf272352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:02 +0000
Subject: [PATCH 043/180] fix: --meta drops values after a comma and the pairs
 that follow them

---
 src/extensions/metadata.c | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/extensions/metadata.c b/src/extensions/metadata.c
index 260f79c..8760ca4 100644
--- a/src/extensions/metadata.c
+++ b/src/extensions/metadata.c
@@ -2297,11 +2297,9 @@ static int parse_key_value_pair(const char *input, char **key_out, char **value_
         memcpy(*value_out, value_start, value_len);
         (*value_out)[value_len] = '\0';
     } else {
-        /* Unquoted value - take until comma or end */
-        const char *value_end = strchr(value_start, ',');
-        if (!value_end) {
-            value_end = value_start + strlen(value_start);
-        }
+        /* Unquoted value - the whole rest: commas that start another pair were split off before */
+        while (isspace((unsigned char)*value_start)) value_start++;
+        const char *value_end = value_start + strlen(value_start);
         size_t value_len = value_end - value_start;
         *value_out = malloc(value_len + 1);
         if (!*value_out) {
@@ -2355,8 +2353,7 @@ apex_metadata_item *apex_parse_command_metadata(const char *arg) {
             const char *search = value_start;
             pair_end = p + strlen(p);  /* Default to end of string */
 
-            const char *comma = strchr(search, ',');
-            if (comma) {
+            for (const char *comma = strchr(search, ','); comma; comma = strchr(comma + 1, ',')) {
                 /* Found a comma - check if it starts a new KEY= pair */
                 const char *after_comma = comma + 1;
                 while (*after_comma && isspace((unsigned char)*after_comma)) after_comma++;
@@ -2370,6 +2367,7 @@ apex_metadata_item *apex_parse_command_metadata(const char *arg) {
                         if (!comma_between || comma_between > next_equals) {
                             /* This comma starts the next KEY= pair */
                             pair_end = comma;
+                            break;
                         }
                     }
                 }
-- 
2.43.0


From 2ba954d9db2d47e020b7045f8acd51aa795d73da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:21 +0000
Subject: [PATCH 044/180] fix: wikilink-sanitize metadata does not understand
 yes and no

---
 src/extensions/metadata.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/extensions/metadata.c b/src/extensions/metadata.c
index 8760ca4..634a1f9 100644
--- a/src/extensions/metadata.c
+++ b/src/extensions/metadata.c
@@ -2862,7 +2862,11 @@ void apex_apply_metadata_to_options(apex_metadata_item *metadata, apex_options *
         } else if (strcasecmp(key, "wikilink-extension") == 0 || strcasecmp(key, "wikilink_extension") == 0) {
             options->wikilink_extension = value;
         } else if (strcasecmp(key, "wikilink-sanitize") == 0 || strcasecmp(key, "wikilink_sanitize") == 0) {
-            options->wikilink_sanitize = (strcasecmp(value, "true") == 0 || strcmp(value, "1") == 0);
+            if (is_true_value(value)) {
+                options->wikilink_sanitize = true;
+            } else if (is_false_value(value)) {
+                options->wikilink_sanitize = false;
+            }
         }
         /* Terminal-specific options from config/metadata.
          * Keys are typically flattened from YAML mappings, e.g.:
-- 
2.43.0


From 6697640265bb8a3b3f8fc3318472910c8d999479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:44 +0000
Subject: [PATCH 045/180] fix: --meta and --meta-file are ignored when the
 document has no metadata

---
 cli/main.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/cli/main.c b/cli/main.c
index 253e626..86b6903 100644
--- a/cli/main.c
+++ b/cli/main.c
@@ -1373,6 +1373,16 @@ static int apex_cli_combine_from_summary(const char *summary_path, FILE *out) {
     return 0;
 }
 
+/* Merge three metadata lists, later ones winning. apex_merge_metadata() stops at the first
+ * NULL list, so empty lists have to be left out. */
+static apex_metadata_item *merge_metadata3(apex_metadata_item *a, apex_metadata_item *b, apex_metadata_item *c) {
+    apex_metadata_item *ab = b ? apex_merge_metadata(a, b, NULL) : apex_merge_metadata(a, NULL);
+    if (!c) return ab;
+    apex_metadata_item *abc = apex_merge_metadata(ab, c, NULL);
+    apex_free_metadata(ab);
+    return abc;
+}
+
 int main(int argc, char *argv[]) {
     /* Initialize progress reporting */
     init_progress();
@@ -3072,12 +3082,7 @@ int main(int argc, char *argv[]) {
     }
 
     if (global_config_meta || project_config_meta || explicit_file_meta) {
-        file_metadata = apex_merge_metadata(
-            global_config_meta,
-            project_config_meta,
-            explicit_file_meta,
-            NULL
-        );
+        file_metadata = merge_metadata3(global_config_meta, project_config_meta, explicit_file_meta);
     }
 
     if (global_config_meta) apex_free_metadata(global_config_meta);
@@ -3117,12 +3122,7 @@ int main(int argc, char *argv[]) {
     PROFILE_START(metadata_merge);
     apex_metadata_item *merged_metadata = NULL;
     if (file_metadata || doc_metadata || cmdline_metadata) {
-        merged_metadata = apex_merge_metadata(
-            file_metadata,
-            doc_metadata,
-            cmdline_metadata,
-            NULL
-        );
+        merged_metadata = merge_metadata3(file_metadata, doc_metadata, cmdline_metadata);
     }
     PROFILE_END(metadata_merge);
 
-- 
2.43.0


From 476b3aea661be28753ce82f32775e62dc958b2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:44 +0000
Subject: [PATCH 046/180] fix: metadata is printed as text when it selects
 CommonMark or GFM mode

---
 cli/main.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cli/main.c b/cli/main.c
index 86b6903..5a50595 100644
--- a/cli/main.c
+++ b/cli/main.c
@@ -3256,6 +3256,14 @@ int main(int argc, char *argv[]) {
         }
     }
 
+    /* CommonMark and GFM modes (chosen by option or by metadata) do not read front matter,
+     * so the metadata block must not reach the converter as text. */
+    if (enhanced_markdown && (options.mode == APEX_MODE_COMMONMARK || options.mode == APEX_MODE_GFM)) {
+        enhanced_len = input_len - doc_metadata_end;
+        memcpy(enhanced_markdown, markdown + doc_metadata_end, enhanced_len);
+        enhanced_markdown[enhanced_len] = '\0';
+    }
+
     /* Re-apply explicit CLI override for plugins so it wins over metadata. */
     if (plugins_cli_override) {
         options.enable_plugins = plugins_cli_value;
-- 
2.43.0


From 2b19da838c2ab5717f34c0040c21d0eacd5a9cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:27 +0000
Subject: [PATCH 047/180] fix: command-line runs garble metadata values holding
 quotes, # or other YAML syntax

---
 cli/main.c | 45 +++++++++++++++++++++++++++++++++------------
 1 file changed, 33 insertions(+), 12 deletions(-)

diff --git a/cli/main.c b/cli/main.c
index 5a50595..ca8e230 100644
--- a/cli/main.c
+++ b/cli/main.c
@@ -5,6 +5,7 @@
 #include "../include/apex/apex.h"
 #include "../src/extensions/metadata.h"
 #include "../src/extensions/includes.h"
+#include <ctype.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -1373,6 +1374,32 @@ static int apex_cli_combine_from_summary(const char *summary_path, FILE *out) {
     return 0;
 }
 
+/* Write s as a YAML scalar that reads back as exactly s: plain if that is unambiguous,
+ * double-quoted with escapes otherwise. Needs up to 2 * strlen(s) + 3 bytes. */
+static size_t write_yaml_scalar(char *out, const char *s) {
+    size_t len = strlen(s);
+    bool plain = len > 0 && isalnum((unsigned char)s[0]) && !isspace((unsigned char)s[len - 1]);
+    for (const char *p = s; plain && *p; p++) {
+        if ((unsigned char)*p < 32 || strchr(":#\"\\", *p)) plain = false;
+    }
+    if (plain) {
+        memcpy(out, s, len + 1);
+        return len;
+    }
+    char *o = out;
+    *o++ = '"';
+    for (const char *p = s; *p; p++) {
+        if (*p == '"' || *p == '\\') { *o++ = '\\'; *o++ = *p; }
+        else if (*p == '\n') { *o++ = '\\'; *o++ = 'n'; }
+        else if (*p == '\t') { *o++ = '\\'; *o++ = 't'; }
+        else if (*p == '\r') { *o++ = '\\'; *o++ = 'r'; }
+        else *o++ = *p;
+    }
+    *o++ = '"';
+    *o = '\0';
+    return (size_t)(o - out);
+}
+
 /* Merge three metadata lists, later ones winning. apex_merge_metadata() stops at the first
  * NULL list, so empty lists have to be left out. */
 static apex_metadata_item *merge_metadata3(apex_metadata_item *a, apex_metadata_item *b, apex_metadata_item *c) {
@@ -3150,11 +3177,7 @@ int main(int argc, char *argv[]) {
             /* Add all merged metadata */
             apex_metadata_item *item = merged_metadata;
             while (item) {
-                /* Escape value if it contains special characters */
-                bool needs_quotes = strchr(item->value, ':') || strchr(item->value, '\n') ||
-                                    strchr(item->value, '"') || strchr(item->value, '\\');
-
-                size_t needed = strlen(item->key) + strlen(item->value) + (needs_quotes ? 4 : 0) + 10;
+                size_t needed = 2 * (strlen(item->key) + strlen(item->value)) + 16;
                 if (yaml_pos + needed >= yaml_size) {
                     yaml_size = (yaml_pos + needed) * 2;
                     char *new_buf = realloc(yaml_buf, yaml_size);
@@ -3166,13 +3189,11 @@ int main(int argc, char *argv[]) {
                     yaml_buf = new_buf;
                 }
 
-                if (needs_quotes) {
-                    int written = snprintf(yaml_buf + yaml_pos, yaml_size - yaml_pos, "%s: \"%s\"\n", item->key, item->value);
-                    if (written > 0) yaml_pos += written;
-                } else {
-                    int written = snprintf(yaml_buf + yaml_pos, yaml_size - yaml_pos, "%s: %s\n", item->key, item->value);
-                    if (written > 0) yaml_pos += written;
-                }
+                yaml_pos += write_yaml_scalar(yaml_buf + yaml_pos, item->key);
+                yaml_buf[yaml_pos++] = ':';
+                yaml_buf[yaml_pos++] = ' ';
+                yaml_pos += write_yaml_scalar(yaml_buf + yaml_pos, item->value);
+                yaml_buf[yaml_pos++] = '\n';
                 item = item->next;
             }
 
-- 
2.43.0


From cdf13852f6262cb0337922f73f46a2a8505d966d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:46 +0000
Subject: [PATCH 048/180] fix: long headings cut off the end of the document
 when header IDs are added

---
 src/html_renderer.c | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/html_renderer.c b/src/html_renderer.c
index 97e3535..d69fa33 100644
--- a/src/html_renderer.c
+++ b/src/html_renderer.c
@@ -1153,10 +1153,20 @@ char *apex_inject_header_ids(const char *html, cmark_node *document, bool genera
 
     /* Process HTML to inject IDs */
     size_t html_len = strlen(html);
-    size_t capacity = html_len + header_count * 100;  /* Extra space for IDs */
+    size_t capacity = html_len;
+    size_t longest_id = 0;
+    for (header_id_map *h = header_map; h; h = h->next) {
+        size_t h_len = h->id ? strlen(h->id) : 0;
+        capacity += h_len * 2 + 100;  /* An anchor holds the ID twice */
+        if (h_len > longest_id) longest_id = h_len;
+    }
+    size_t attr_size = longest_id * 2 + 100;
+    char *attr_buf = malloc(attr_size);
     char *output = malloc(capacity + 1);  /* +1 for null terminator */
-    if (!output) {
+    if (!output || !attr_buf) {
         /* Clean up */
+        free(output);
+        free(attr_buf);
         while (header_map) {
             header_id_map *next = header_map->next;
             free(header_map->text);
@@ -1231,8 +1241,8 @@ char *apex_inject_header_ids(const char *html, cmark_node *document, bool genera
                 read = tag_end + 1;
 
                 /* Inject anchor tag after the header tag */
-                char anchor_tag[512];
-                snprintf(anchor_tag, sizeof(anchor_tag),
+                char *anchor_tag = attr_buf;
+                snprintf(anchor_tag, attr_size,
                         "<a href=\"#%s\" aria-hidden=\"true\" class=\"anchor\" id=\"%s\"></a>",
                         header->id, header->id);
                 size_t anchor_len = strlen(anchor_tag);
@@ -1269,8 +1279,8 @@ char *apex_inject_header_ids(const char *html, cmark_node *document, bool genera
                     }
 
                     /* Inject new id="..." */
-                    char id_attr_str[512];
-                    snprintf(id_attr_str, sizeof(id_attr_str), "id=\"%s\"", header->id);
+                    char *id_attr_str = attr_buf;
+                    snprintf(id_attr_str, attr_size, "id=\"%s\"", header->id);
                     size_t id_len = strlen(id_attr_str);
                     if (id_len <= remaining) {
                         memcpy(write, id_attr_str, id_len);
@@ -1338,8 +1348,8 @@ char *apex_inject_header_ids(const char *html, cmark_node *document, bool genera
                     }
 
                     /* Inject id="..." */
-                    char id_attr_str[512];
-                    snprintf(id_attr_str, sizeof(id_attr_str), "id=\"%s\"", header->id);
+                    char *id_attr_str = attr_buf;
+                    snprintf(id_attr_str, attr_size, "id=\"%s\"", header->id);
                     size_t id_len = strlen(id_attr_str);
                     if (id_len <= remaining) {
                         memcpy(write, id_attr_str, id_len);
@@ -1394,6 +1404,7 @@ char *apex_inject_header_ids(const char *html, cmark_node *document, bool genera
         }
     }
     *write = '\0';
+    free(attr_buf);
 
     /* Clean up */
     while (header_map) {
-- 
2.43.0


From e5a55f134877c2f0ff2f67d9fe1ce44fdbacf36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:46 +0000
Subject: [PATCH 049/180] fix: headings after one with a manual ID get the
 wrong ID

---
 src/html_renderer.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/html_renderer.c b/src/html_renderer.c
index d69fa33..39cef63 100644
--- a/src/html_renderer.c
+++ b/src/html_renderer.c
@@ -1308,7 +1308,6 @@ char *apex_inject_header_ids(const char *html, cmark_node *document, bool genera
                             read++;
                         }
                     }
-                    current_header_idx++;
                 } else {
                     /* No existing ID: copy tag up to '>', inject id attribute, then copy '>' */
                     const char *after_tag_name = tag_start + 3;
-- 
2.43.0


From 1b845d3ba45453190cbfabb1bbaa0ff781ba72f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:46 +0000
Subject: [PATCH 050/180] fix: raw HTML headings shift the IDs of the Markdown
 headings

---
 src/html_renderer.c | 50 +++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 46 insertions(+), 4 deletions(-)

diff --git a/src/html_renderer.c b/src/html_renderer.c
index 39cef63..a6d664f 100644
--- a/src/html_renderer.c
+++ b/src/html_renderer.c
@@ -1070,6 +1070,20 @@ char *apex_render_html_with_attributes(cmark_node *document, int options) {
     return output;
 }
 
+/**
+ * Count the opening heading tags (<h1>..<h6>) in HTML
+ */
+static int count_heading_tags(const char *html) {
+    int count = 0;
+    for (const char *p = html; p && (p = strchr(p, '<')) != NULL; p++) {
+        if (p[1] == 'h' && p[2] >= '1' && p[2] <= '6' &&
+            (p[3] == '>' || isspace((unsigned char)p[3]))) {
+            count++;
+        }
+    }
+    return count;
+}
+
 /**
  * Inject header IDs into HTML output
  */
@@ -1088,13 +1102,27 @@ char *apex_inject_header_ids(const char *html, cmark_node *document, bool genera
 
     header_id_map *header_map = NULL;
     int header_count = 0;
+    int raw_header_count = 0;
 
     /* Walk AST to collect headers */
     cmark_iter *iter = cmark_iter_new(document);
     cmark_event_type event;
     while ((event = cmark_iter_next(iter)) != CMARK_EVENT_DONE) {
         cmark_node *node = cmark_iter_get_node(iter);
-        if (event == CMARK_EVENT_ENTER && cmark_node_get_type(node) == CMARK_NODE_HEADING) {
+        if (event == CMARK_EVENT_ENTER &&
+            (cmark_node_get_type(node) == CMARK_NODE_HTML_BLOCK ||
+             cmark_node_get_type(node) == CMARK_NODE_HTML_INLINE)) {
+            /* Raw HTML headings take no generated ID, but they do take a place in the output */
+            int raw_count = count_heading_tags(cmark_node_get_literal(node));
+            for (int i = 0; i < raw_count; i++) {
+                header_id_map *entry = calloc(1, sizeof(header_id_map));
+                if (!entry) break;
+                entry->index = header_count++;
+                entry->next = header_map;
+                header_map = entry;
+                raw_header_count++;
+            }
+        } else if (event == CMARK_EVENT_ENTER && cmark_node_get_type(node) == CMARK_NODE_HEADING) {
             char *text = apex_extract_heading_text(node);
             char *id = NULL;
 
@@ -1151,6 +1179,22 @@ char *apex_inject_header_ids(const char *html, cmark_node *document, bool genera
     }
     header_map = reversed;
 
+    /* The raw headings may have been dropped from the output (safe mode): if the
+     * tags there do not pair up with the list, leave the raw ones out of it. */
+    if (raw_header_count > 0 && count_heading_tags(html) != header_count) {
+        header_id_map **link = &header_map;
+        while (*link) {
+            header_id_map *entry = *link;
+            if (entry->text) {
+                link = &entry->next;
+            } else {
+                *link = entry->next;
+                free(entry);
+                header_count--;
+            }
+        }
+    }
+
     /* Process HTML to inject IDs */
     size_t html_len = strlen(html);
     size_t capacity = html_len;
@@ -1376,9 +1420,7 @@ char *apex_inject_header_ids(const char *html, cmark_node *document, bool genera
                     remaining -= tag_len;
                 }
                 read = tag_end + 1;
-                if (!has_id) {
-                    current_header_idx++;
-                }
+                current_header_idx++;
             }
         } else {
             /* Copy character */
-- 
2.43.0


From e9b0eb617af1a273ae08b142ec455b6054c8cbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:22 +0000
Subject: [PATCH 051/180] fix: heading attribute lists such as {#id .class}
 become part of the ID

---
 src/extensions/header_ids.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/extensions/header_ids.c b/src/extensions/header_ids.c
index 5b4687a..0e8d077 100644
--- a/src/extensions/header_ids.c
+++ b/src/extensions/header_ids.c
@@ -540,7 +540,8 @@ bool apex_extract_manual_header_id(char **heading_text, char **manual_id_out) {
             if (*after == '\0') {
                 /* Extract ID */
                 size_t id_len = kramdown_end - kramdown_start - 2;  /* Skip {# */
-                if (id_len > 0) {
+                /* More than one token is an attribute list, left to the IAL processor */
+                if (id_len > 0 && strcspn(kramdown_start + 2, " \t\"'<>&") >= id_len) {
                     *manual_id_out = malloc(id_len + 1);
                     if (*manual_id_out) {
                         memcpy(*manual_id_out, kramdown_start + 2, id_len);
-- 
2.43.0


From 630bd62cb6e91e83136757cc78d7953ad8b2d221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:22 +0000
Subject: [PATCH 052/180] fix: emphasised, linked and second-line words are
 missing from header IDs and the TOC

---
 src/extensions/header_ids.c | 75 +++++++++++++++----------------------
 1 file changed, 31 insertions(+), 44 deletions(-)

diff --git a/src/extensions/header_ids.c b/src/extensions/header_ids.c
index 0e8d077..def5d1a 100644
--- a/src/extensions/header_ids.c
+++ b/src/extensions/header_ids.c
@@ -406,55 +406,42 @@ char *apex_extract_heading_text(cmark_node *heading_node) {
     char *write = text;
     size_t remaining = capacity;
 
-    cmark_node *child = cmark_node_first_child(heading_node);
-    while (child) {
+    /* Text and code count wherever they are, inside emphasis and links too */
+    cmark_iter *iter = cmark_iter_new(heading_node);
+    cmark_event_type event;
+    while ((event = cmark_iter_next(iter)) != CMARK_EVENT_DONE) {
+        if (event != CMARK_EVENT_ENTER) continue;
+        cmark_node *child = cmark_iter_get_node(iter);
         cmark_node_type type = cmark_node_get_type(child);
+        const char *literal = NULL;
 
-        if (type == CMARK_NODE_TEXT) {
-            const char *literal = cmark_node_get_literal(child);
-            if (literal) {
-                size_t len = strlen(literal);
-                if (len >= remaining) {
-                    size_t used = (size_t)(write - text);
-                    size_t new_capacity = (used + len + 1) * 2;
-                    char *new_text = realloc(text, new_capacity);
-                    if (!new_text) {
-                        free(text);
-                        return strdup("");
-                    }
-                    write = new_text + used;
-                    text = new_text;
-                    remaining = new_capacity - used;
-                }
-                memcpy(write, literal, len);
-                write += len;
-                remaining -= len;
-            }
-        } else if (type == CMARK_NODE_CODE) {
-            const char *literal = cmark_node_get_literal(child);
-            if (literal) {
-                size_t len = strlen(literal);
-                if (len >= remaining) {
-                    size_t used = (size_t)(write - text);
-                    size_t new_capacity = (used + len + 1) * 2;
-                    char *new_text = realloc(text, new_capacity);
-                    if (!new_text) {
-                        free(text);
-                        return strdup("");
-                    }
-                    write = new_text + used;
-                    text = new_text;
-                    remaining = new_capacity - used;
-                }
-                memcpy(write, literal, len);
-                write += len;
-                remaining -= len;
-            }
+        if (type == CMARK_NODE_TEXT || type == CMARK_NODE_CODE) {
+            literal = cmark_node_get_literal(child);
+        } else if (type == CMARK_NODE_SOFTBREAK || type == CMARK_NODE_LINEBREAK) {
+            literal = " ";
         }
         /* Skip other inline elements for ID generation */
-
-        child = cmark_node_next(child);
+        if (!literal) continue;
+
+        size_t len = strlen(literal);
+        if (len >= remaining) {
+            size_t used = (size_t)(write - text);
+            size_t new_capacity = (used + len + 1) * 2;
+            char *new_text = realloc(text, new_capacity);
+            if (!new_text) {
+                free(text);
+                cmark_iter_free(iter);
+                return strdup("");
+            }
+            write = new_text + used;
+            text = new_text;
+            remaining = new_capacity - used;
+        }
+        memcpy(write, literal, len);
+        write += len;
+        remaining -= len;
     }
+    cmark_iter_free(iter);
 
     *write = '\0';
     return text;
-- 
2.43.0


From 82de7e01c9c594c22f34db8ef08c5fbd4334e6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:23 +0000
Subject: [PATCH 053/180] fix: lowercase accented letters are dropped from GFM
 header IDs

---
 src/extensions/header_ids.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/extensions/header_ids.c b/src/extensions/header_ids.c
index def5d1a..bcf76ef 100644
--- a/src/extensions/header_ids.c
+++ b/src/extensions/header_ids.c
@@ -261,10 +261,13 @@ char *apex_generate_header_id(const char *text, apex_id_format_t format) {
                                 /* 2-byte UTF-8 sequence - check for common Latin diacritics */
                                 if (read[1] != '\0' && ((unsigned char)read[1] & 0xC0) == 0x80) {
                                     unsigned char byte2 = (unsigned char)read[1];
-                                    /* Check for É (0xC3 0x89) */
-                                    if (c == 0xC3 && byte2 == 0x89) {
-                                        normalized = 'e';
-                                    } else if (c == 0xC3 && byte2 >= 0x80 && byte2 <= 0x85) {
+                                    /* Lowercase letters (0xA0-0xBE) sit 0x20 above the uppercase ones */
+                                    if (c == 0xC3 && byte2 >= 0xA0 && byte2 <= 0xBE) {
+                                        byte2 -= 0x20;
+                                    } else if (c == 0xC3 && byte2 == 0xBF) {
+                                        byte2 = 0x9D;  /* ÿ, like ý */
+                                    }
+                                    if (c == 0xC3 && byte2 >= 0x80 && byte2 <= 0x85) {
                                         /* ÀÁÂÃÄÅ (0xC3 0x80-0x85) */
                                         normalized = 'a';
                                     } else if (c == 0xC3 && (byte2 == 0x87 || byte2 == 0xA7)) {
@@ -279,7 +282,7 @@ char *apex_generate_header_id(const char *text, apex_id_format_t format) {
                                     } else if (c == 0xC3 && (byte2 == 0x91 || byte2 == 0xB1)) {
                                         /* Ñ (0xD1) or ñ (0xF1) */
                                         normalized = 'n';
-                                    } else if (c == 0xC3 && byte2 >= 0x92 && byte2 <= 0x98) {
+                                    } else if (c == 0xC3 && byte2 >= 0x92 && byte2 <= 0x98 && byte2 != 0x97) {
                                         /* ÒÓÔÕÖØ (0xD2-0xD8) */
                                         normalized = 'o';
                                     } else if (c == 0xC3 && byte2 >= 0x99 && byte2 <= 0x9C) {
-- 
2.43.0


From 00e0e4b8446eaee22d78ccb7ffbd2cd1fc385925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:18 +0000
Subject: [PATCH 054/180] fix: duplicate headings share an ID, and the TOC
 links to IDs the headings do not have

---
 src/extensions/header_ids.c | 92 +++++++++++++++++++++++++++++++++++++
 src/extensions/header_ids.h | 23 ++++++++++
 src/extensions/toc.c        | 11 ++++-
 src/html_renderer.c         | 30 ++++--------
 4 files changed, 132 insertions(+), 24 deletions(-)

diff --git a/src/extensions/header_ids.c b/src/extensions/header_ids.c
index bcf76ef..a24bf9f 100644
--- a/src/extensions/header_ids.c
+++ b/src/extensions/header_ids.c
@@ -9,6 +9,7 @@
 #include <string.h>
 #include <stdlib.h>
 #include <ctype.h>
+#include <stdio.h>
 
 /**
  * Convert diacritic characters to ASCII equivalents
@@ -450,6 +451,97 @@ char *apex_extract_heading_text(cmark_node *heading_node) {
     return text;
 }
 
+/**
+ * The ID set by an IAL or manual ID, NULL when there is none
+ */
+static char *explicit_heading_id(cmark_node *node) {
+    /* Attributes are kept in user_data: look for id="..." there */
+    const char *attrs = (const char *)cmark_node_get_user_data(node);
+    const char *start = attrs;
+    while (start && (start = strstr(start, "id=\"")) != NULL &&
+           start != attrs && !isspace((unsigned char)start[-1])) {
+        start++;
+    }
+    if (!start) return NULL;
+    start += 4;
+    const char *end = strchr(start, '"');
+    if (!end || end == start) return NULL;
+    char *id = malloc((size_t)(end - start) + 1);
+    if (!id) return NULL;
+    memcpy(id, start, (size_t)(end - start));
+    id[end - start] = '\0';
+    return id;
+}
+
+static bool heading_id_taken(const apex_heading_id *ids, size_t count, const char *id) {
+    for (size_t i = 0; i < count; i++) {
+        if (ids[i].id && strcmp(ids[i].id, id) == 0) return true;
+    }
+    return false;
+}
+
+apex_heading_id *apex_collect_heading_ids(cmark_node *document, apex_id_format_t format, size_t *count) {
+    apex_heading_id *ids = NULL;
+    char **generated = NULL;
+    size_t n = 0, capacity = 0;
+
+    *count = 0;
+    if (!document) return NULL;
+
+    cmark_iter *iter = cmark_iter_new(document);
+    cmark_event_type event;
+    while ((event = cmark_iter_next(iter)) != CMARK_EVENT_DONE) {
+        cmark_node *node = cmark_iter_get_node(iter);
+        if (event != CMARK_EVENT_ENTER || cmark_node_get_type(node) != CMARK_NODE_HEADING) continue;
+        if (n == capacity) {
+            capacity = capacity ? capacity * 2 : 16;
+            apex_heading_id *new_ids = realloc(ids, capacity * sizeof(*ids));
+            if (new_ids) ids = new_ids;
+            char **new_generated = realloc(generated, capacity * sizeof(*generated));
+            if (new_generated) generated = new_generated;
+            if (!new_ids || !new_generated) break;
+        }
+        ids[n].node = node;
+        ids[n].id = explicit_heading_id(node);
+        generated[n] = NULL;
+        if (!ids[n].id) {
+            char *text = apex_extract_heading_text(node);
+            generated[n] = apex_generate_header_id(text, format);
+            free(text);
+        }
+        n++;
+    }
+    cmark_iter_free(iter);
+
+    for (size_t i = 0; i < n; i++) {
+        if (!generated[i]) continue;
+        size_t suffix = 0;
+        for (size_t j = 0; j < i; j++) {
+            if (generated[j] && strcmp(generated[j], generated[i]) == 0) suffix++;
+        }
+        size_t size = strlen(generated[i]) + 24;
+        char *id = malloc(size);
+        if (!id) continue;
+        do {
+            if (suffix) snprintf(id, size, "%s-%zu", generated[i], suffix);
+            else snprintf(id, size, "%s", generated[i]);
+            suffix++;
+        } while (heading_id_taken(ids, n, id));
+        ids[i].id = id;
+    }
+
+    for (size_t i = 0; i < n; i++) free(generated[i]);
+    free(generated);
+    *count = n;
+    return ids;
+}
+
+void apex_free_heading_ids(apex_heading_id *ids, size_t count) {
+    if (!ids) return;
+    for (size_t i = 0; i < count; i++) free(ids[i].id);
+    free(ids);
+}
+
 /**
  * Extract manual header ID from heading text
  * Supports:
diff --git a/src/extensions/header_ids.h b/src/extensions/header_ids.h
index d3cd362..6bb793b 100644
--- a/src/extensions/header_ids.h
+++ b/src/extensions/header_ids.h
@@ -33,6 +33,29 @@ char *apex_generate_header_id(const char *text, apex_id_format_t format);
  */
 char *apex_extract_heading_text(cmark_node *heading_node);
 
+/**
+ * The ID of one heading of a document
+ */
+typedef struct {
+    cmark_node *node;   /* The heading */
+    char *id;           /* Its manual or IAL ID, or the generated one */
+} apex_heading_id;
+
+/**
+ * List the IDs of all headings of a document, in document order. Generated IDs that
+ * are already taken by another heading get a numeric suffix (-1, -2, ...).
+ * @param document The document
+ * @param format ID format for generated IDs
+ * @param count Receives the number of headings
+ * @return Newly allocated list (free with apex_free_heading_ids), NULL when there are none
+ */
+apex_heading_id *apex_collect_heading_ids(cmark_node *document, apex_id_format_t format, size_t *count);
+
+/**
+ * Free a list from apex_collect_heading_ids
+ */
+void apex_free_heading_ids(apex_heading_id *ids, size_t count);
+
 /**
  * Extract manual header ID from heading text
  * Supports:
diff --git a/src/extensions/toc.c b/src/extensions/toc.c
index 993c72d..e0b2675 100644
--- a/src/extensions/toc.c
+++ b/src/extensions/toc.c
@@ -17,6 +17,7 @@ typedef struct header_item {
     int level;
     char *text;
     char *id;
+    cmark_node *node;
     struct header_item *next;
 } header_item;
 
@@ -56,6 +57,7 @@ static header_item *collect_headers(cmark_node *node, header_item **tail) {
                 item->level = cmark_node_get_heading_level(node);
                 item->text = apex_extract_heading_text(node);
                 item->id = NULL;  /* Will be set later with format */
+                item->node = node;
                 item->next = NULL;
 
                 if (*tail) {
@@ -314,10 +316,15 @@ char *apex_process_toc(const char *html, cmark_node *document, int id_format) {
     header_item *headers = collect_headers(document, &tail);
     if (!headers) return strdup(html);
 
-    /* Generate IDs for all headers using the specified format */
+    /* Link to the IDs the headings themselves get */
+    size_t heading_count = 0, next_heading = 0;
+    apex_heading_id *ids = apex_collect_heading_ids(document, (apex_id_format_t)id_format, &heading_count);
     for (header_item *h = headers; h; h = h->next) {
-        h->id = apex_generate_header_id(h->text, (apex_id_format_t)id_format);
+        while (next_heading < heading_count && ids[next_heading].node != h->node) next_heading++;
+        h->id = next_heading < heading_count && ids[next_heading].id
+            ? strdup(ids[next_heading].id) : apex_generate_header_id(h->text, (apex_id_format_t)id_format);
     }
+    apex_free_heading_ids(ids, heading_count);
 
     /* Parse the marker for min/max levels */
     int min_level, max_level;
diff --git a/src/html_renderer.c b/src/html_renderer.c
index a6d664f..23314c8 100644
--- a/src/html_renderer.c
+++ b/src/html_renderer.c
@@ -1104,6 +1104,9 @@ char *apex_inject_header_ids(const char *html, cmark_node *document, bool genera
     int header_count = 0;
     int raw_header_count = 0;
 
+    size_t heading_count = 0, next_heading = 0;
+    apex_heading_id *headings = apex_collect_heading_ids(document, (apex_id_format_t)id_format, &heading_count);
+
     /* Walk AST to collect headers */
     cmark_iter *iter = cmark_iter_new(document);
     cmark_event_type event;
@@ -1126,28 +1129,10 @@ char *apex_inject_header_ids(const char *html, cmark_node *document, bool genera
             char *text = apex_extract_heading_text(node);
             char *id = NULL;
 
-            /* Check if ID already exists from IAL or manual ID (stored in user_data) */
-            char *user_data = (char *)cmark_node_get_user_data(node);
-            if (user_data) {
-                /* Look for id="..." in user_data */
-                const char *id_attr = strstr(user_data, "id=\"");
-                if (id_attr) {
-                    const char *id_start = id_attr + 4;
-                    const char *id_end = strchr(id_start, '"');
-                    if (id_end && id_end > id_start) {
-                        size_t id_len = id_end - id_start;
-                        id = malloc(id_len + 1);
-                        if (id) {
-                            memcpy(id, id_start, id_len);
-                            id[id_len] = '\0';
-                        }
-                    }
-                }
-            }
-
-            /* If no manual/IAL ID, generate one automatically */
-            if (!id) {
-                id = apex_generate_header_id(text, (apex_id_format_t)id_format);
+            if (next_heading < heading_count && headings[next_heading].node == node) {
+                id = headings[next_heading].id;
+                headings[next_heading].id = NULL;
+                next_heading++;
             }
 
             header_id_map *entry = malloc(sizeof(header_id_map));
@@ -1164,6 +1149,7 @@ char *apex_inject_header_ids(const char *html, cmark_node *document, bool genera
         }
     }
     cmark_iter_free(iter);
+    apex_free_heading_ids(headings, heading_count);
 
     if (!header_map) {
         return strdup(html);
-- 
2.43.0


From 5c87659ff91468b02c23d6175a69b809971a9229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:18 +0000
Subject: [PATCH 055/180] fix: TOC drops entries after 4 KB, misnests lists
 below level 1 and does not escape titles

---
 src/extensions/toc.c | 74 +++++++++++++++++++-------------------------
 1 file changed, 32 insertions(+), 42 deletions(-)

diff --git a/src/extensions/toc.c b/src/extensions/toc.c
index e0b2675..b91e4eb 100644
--- a/src/extensions/toc.c
+++ b/src/extensions/toc.c
@@ -86,22 +86,21 @@ static header_item *collect_headers(cmark_node *node, header_item **tail) {
 static char *generate_toc_html(header_item *headers, int min_level, int max_level) {
     if (!headers) return strdup("");
 
-    size_t capacity = 4096;
+    size_t capacity = 256;
+    for (header_item *h = headers; h; h = h->next) {
+        capacity += strlen(h->id) + strlen(h->text) * 6 + 100;  /* Escaping makes text longer */
+    }
     char *html = malloc(capacity);
     if (!html) return strdup("");
 
     char *write = html;
-    size_t remaining = capacity;
-    int current_level = 0;
-    int last_level = 0;  /* level of last item added (0 = none yet) */
+    int levels[8];  /* Heading level of each open list */
+    int depth = 0;
 
     #define APPEND(str) do { \
         size_t len = strlen(str); \
-        if (len < remaining) { \
-            memcpy(write, str, len); \
-            write += len; \
-            remaining -= len; \
-        } \
+        memcpy(write, str, len); \
+        write += len; \
     } while(0)
 
     APPEND("<nav class=\"toc\">\n");
@@ -110,47 +109,38 @@ static char *generate_toc_html(header_item *headers, int min_level, int max_leve
         /* Skip headers outside min/max range */
         if (h->level < min_level || h->level > max_level) continue;
 
-        /* Going up: close </ul></li> for each level (nested ul inside parent li) */
-        while (current_level > h->level) {
-            APPEND("</ul>\n</li>\n");
-            current_level--;
-        }
-
-        /* Going down: open one <ul> inside the previous li before adding child.
-         * At root (current_level 0): only open one ul - never ul > ul.
-         * When going deeper: open exactly one ul per step - never ul > ul. */
-        while (current_level < h->level) {
-            if (current_level == 0) {
-                APPEND("<ul>\n");
-                current_level = 1;
-                break;
-            }
-            if (last_level > 0) {
-                APPEND("<ul>\n");
-                current_level++;
-                break;
-            } else {
-                break;  /* No parent li - add as direct child of root ul */
-            }
-        }
-
-        /* Close previous li when adding sibling (same or shallower level) */
-        if (last_level > 0 && h->level <= last_level) {
+        if (depth == 0 || h->level > levels[depth - 1]) {
+            /* Deeper: open one list inside the previous item */
+            APPEND("<ul>\n");
+            levels[depth++] = h->level;
+        } else {
             APPEND("</li>\n");
+            while (depth > 1 && h->level <= levels[depth - 2]) {
+                APPEND("</ul>\n</li>\n");
+                depth--;
+            }
+            levels[depth - 1] = h->level;
         }
 
         /* Add list item (leave open - may contain nested ul) */
-        char item[1024];
-        snprintf(item, sizeof(item), "<li><a href=\"#%s\">%s</a>",
-                 h->id, h->text);
-        APPEND(item);
-        last_level = h->level;
+        APPEND("<li><a href=\"#");
+        APPEND(h->id);
+        APPEND("\">");
+        for (const char *p = h->text; *p; p++) {
+            switch (*p) {
+                case '&': APPEND("&amp;"); break;
+                case '<': APPEND("&lt;"); break;
+                case '>': APPEND("&gt;"); break;
+                default: *write++ = *p;
+            }
+        }
+        APPEND("</a>");
     }
 
     /* Close remaining: </li></ul> for each open level */
-    while (current_level > 0) {
+    while (depth > 0) {
         APPEND("</li>\n</ul>\n");
-        current_level--;
+        depth--;
     }
 
     APPEND("</nav>\n");
-- 
2.43.0


From bc2464e40ea7041a9b123fef6f7844c26ec9095c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:38 +0000
Subject: [PATCH 056/180] fix: TOC levels are read from the text after the
 marker

---
 src/extensions/toc.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/extensions/toc.c b/src/extensions/toc.c
index b91e4eb..cbb91af 100644
--- a/src/extensions/toc.c
+++ b/src/extensions/toc.c
@@ -317,8 +317,19 @@ char *apex_process_toc(const char *html, cmark_node *document, int id_format) {
     apex_free_heading_ids(ids, heading_count);
 
     /* Parse the marker for min/max levels */
-    int min_level, max_level;
-    parse_toc_marker(marker, &min_level, &max_level);
+    int min_level = 1, max_level = 6;
+    const char *params_end = strstr(marker, is_html_comment ? "-->" : "}}");
+    if (params_end) {
+        /* Only the marker itself: the text after it may hold the same words */
+        size_t params_len = (size_t)(params_end - marker);
+        char *params = malloc(params_len + 1);
+        if (params) {
+            memcpy(params, marker, params_len);
+            params[params_len] = '\0';
+            parse_toc_marker(params, &min_level, &max_level);
+            free(params);
+        }
+    }
 
     /* Generate TOC HTML */
     char *toc_html = generate_toc_html(headers, min_level, max_level);
-- 
2.43.0


From 2670ff27fe84b18c032e56f3fd550ef93b347c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:30 +0000
Subject: [PATCH 057/180] fix: strftime transform shows every date as a Sunday

---
 src/extensions/metadata.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/extensions/metadata.c b/src/extensions/metadata.c
index 634a1f9..36bfc09 100644
--- a/src/extensions/metadata.c
+++ b/src/extensions/metadata.c
@@ -1009,6 +1009,13 @@ static bool parse_date(const char *date_str, struct tm *tm_out) {
         if (items >= 4) tm_out->tm_hour = hour;
         if (items >= 5) tm_out->tm_min = min;
         if (items >= 6) tm_out->tm_sec = sec;
+        /* Weekday and day of the year follow from the date */
+        struct tm normalized = *tm_out;
+        normalized.tm_isdst = -1;
+        if (mktime(&normalized) != (time_t)-1) {
+            tm_out->tm_wday = normalized.tm_wday;
+            tm_out->tm_yday = normalized.tm_yday;
+        }
         return true;
     }
     #endif
-- 
2.43.0


From 07a60a2585372d3bcf3fcc6ba209149bcb8115bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:03 +0000
Subject: [PATCH 058/180] fix: replace transform with an empty match breaks
 UTF-8 characters apart

---
 src/extensions/metadata.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/extensions/metadata.c b/src/extensions/metadata.c
index 36bfc09..588bfb5 100644
--- a/src/extensions/metadata.c
+++ b/src/extensions/metadata.c
@@ -1629,7 +1629,7 @@ static char *apply_transform(const char *transform_name, const char *options,
                     if (matches[0].rm_eo == matches[0].rm_so) {
                         /* Empty match: step over one character so the search advances */
                         if (*search_pos == '\0') break;
-                        search_pos++;
+                        do { search_pos++; } while (((unsigned char)*search_pos & 0xC0) == 0x80);
                     }
                 }
 
@@ -1656,7 +1656,9 @@ static char *apply_transform(const char *transform_name, const char *options,
                             search_pos += matches[0].rm_eo;
                             if (matches[0].rm_eo == matches[0].rm_so) {
                                 if (*search_pos == '\0') break;
-                                *out++ = *search_pos++;
+                                do {
+                                    *out++ = *search_pos++;
+                                } while (((unsigned char)*search_pos & 0xC0) == 0x80);
                             }
                         }
 
-- 
2.43.0


From d94af11f59741a117488f906afe326f814debb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:24 +0000
Subject: [PATCH 059/180] fix: transforms after join of a single element work
 on the array

---
 src/extensions/metadata.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/extensions/metadata.c b/src/extensions/metadata.c
index 588bfb5..d754486 100644
--- a/src/extensions/metadata.c
+++ b/src/extensions/metadata.c
@@ -1265,6 +1265,8 @@ static char *apply_transform(const char *transform_name, const char *options,
         const char *delim = options && options[0] ? options : ", ";
         apex_string_array *arr = *array_ptr;
 
+        /* Join converts array back to string */
+        *is_array = false;
         if (arr->count == 0) return strdup("");
         if (arr->count == 1) return strdup(arr->items[0]);
 
@@ -1291,8 +1293,6 @@ static char *apply_transform(const char *transform_name, const char *options,
         }
         *p = '\0';
 
-        /* Join converts array back to string */
-        *is_array = false;
         return result;
     }
 
-- 
2.43.0


From a08b4722461c0956faadae3e6a2ec85d51965dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:51 +0000
Subject: [PATCH 060/180] fix: a relative transclude base in an included file
 is applied twice

---
 src/extensions/includes.c | 30 ++++++------------------------
 1 file changed, 6 insertions(+), 24 deletions(-)

diff --git a/src/extensions/includes.c b/src/extensions/includes.c
index 8978d61..7ad4a2a 100644
--- a/src/extensions/includes.c
+++ b/src/extensions/includes.c
@@ -1170,14 +1170,8 @@ char *apex_process_includes(const char *text, const char *base_dir, apex_metadat
                                 file_metadata = apex_extract_metadata(&file_text_after_metadata);
                             }
 
-                            /* Get transclude base from file's metadata, or use file's directory */
-                            char *transclude_base = NULL;
-                            if (file_metadata) {
-                                transclude_base = get_transclude_base(get_directory(resolved_path), file_metadata);
-                            }
-                            if (!transclude_base) {
-                                transclude_base = get_directory(resolved_path);
-                            }
+                            /* The file's own directory; its metadata may redirect that (done by the call below) */
+                            char *transclude_base = get_directory(resolved_path);
 
                             to_insert = apex_process_includes(content, transclude_base, file_metadata, depth + 1);
 
@@ -1283,14 +1277,8 @@ char *apex_process_includes(const char *text, const char *base_dir, apex_metadat
                             }
                         }
 
-                        /* Get transclude base from file's metadata, or use file's directory */
-                        char *transclude_base = NULL;
-                        if (file_metadata) {
-                            transclude_base = get_transclude_base(get_directory(resolved_path), file_metadata);
-                        }
-                        if (!transclude_base) {
-                            transclude_base = get_directory(resolved_path);
-                        }
+                        /* The file's own directory; its metadata may redirect that (done by the call below) */
+                        char *transclude_base = get_directory(resolved_path);
 
                         /* Recursively process with file's metadata and transclude base */
                         char *processed = apex_process_includes(to_process, transclude_base, file_metadata, depth + 1);
@@ -1428,14 +1416,8 @@ char *apex_process_includes(const char *text, const char *base_dir, apex_metadat
 
                                 /* Markdown include - recursively process */
 
-                                /* Get transclude base from file's metadata, or use file's directory */
-                                char *transclude_base = NULL;
-                                if (file_metadata) {
-                                    transclude_base = get_transclude_base(get_directory(resolved_path), file_metadata);
-                                }
-                                if (!transclude_base) {
-                                    transclude_base = get_directory(resolved_path);
-                                }
+                                /* The file's own directory; its metadata may redirect that (done by the call below) */
+                                char *transclude_base = get_directory(resolved_path);
 
                                 char *processed = apex_process_includes(to_process, transclude_base, file_metadata, depth + 1);
 
-- 
2.43.0


From 3b5d152849f3ac2b78eeeb71e8caf13b389a45cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:51 +0000
Subject: [PATCH 061/180] fix: endless recursion on an include address with an
 invalid pattern and a prefix

---
 src/extensions/includes.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/extensions/includes.c b/src/extensions/includes.c
index 7ad4a2a..ec37913 100644
--- a/src/extensions/includes.c
+++ b/src/extensions/includes.c
@@ -687,9 +687,8 @@ static char *extract_lines(const char *content, address_spec_t *spec) {
 
         if (!compiled_start && !compiled_end) {
             /* No valid regex, return full content */
-            if (compiled_start) regfree(&regex_start);
-            if (compiled_end) regfree(&regex_end);
-            return spec->prefix ? extract_lines(content, spec) : strdup(content);
+            spec->is_regex_range = false;
+            return extract_lines(content, spec);
         }
 
         /* Find line numbers matching regex patterns */
-- 
2.43.0


From f3a5644ed52920f464651fddcf4798ceaf071de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:51 +0000
Subject: [PATCH 062/180] fix: include address whose end pattern matches the
 start line selects nothing

---
 src/extensions/includes.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/extensions/includes.c b/src/extensions/includes.c
index ec37913..65a5073 100644
--- a/src/extensions/includes.c
+++ b/src/extensions/includes.c
@@ -713,18 +713,16 @@ static char *extract_lines(const char *content, address_spec_t *spec) {
             memcpy(line, line_start, line_len);
             line[line_len] = '\0';
 
-            /* Check start pattern */
+            /* Check start pattern; the end pattern counts from the line after it */
             if (compiled_start && !found_start) {
                 if (regexec(&regex_start, line, 1, &match, 0) == 0) {
                     start_line = line_num;
                     found_start = true;
                 }
-            }
-
-            /* Check end pattern (only if start found or no start pattern) */
-            if (compiled_end && (found_start || !compiled_start)) {
+            } else if (compiled_end) {
                 if (regexec(&regex_end, line, 1, &match, 0) == 0) {
                     end_line = line_num;
+                    free(line);
                     break;
                 }
             }
-- 
2.43.0


From b597a3a3fc62354c82dad6abf00721e19f77f66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:51 +0000
Subject: [PATCH 063/180] fix: include address drops the last line of a file
 without a final newline

---
 src/extensions/includes.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/extensions/includes.c b/src/extensions/includes.c
index 65a5073..3f89a88 100644
--- a/src/extensions/includes.c
+++ b/src/extensions/includes.c
@@ -693,7 +693,7 @@ static char *extract_lines(const char *content, address_spec_t *spec) {
 
         /* Find line numbers matching regex patterns */
         int start_line = 1;
-        int end_line = total_lines;
+        int end_line = total_lines + 1;  /* exclusive */
         regmatch_t match;
         int line_num = 1;
         const char *line_start = content;
@@ -786,11 +786,9 @@ static char *extract_lines(const char *content, address_spec_t *spec) {
             return strdup("");
         }
 
-        int end = spec->end_line;
-        if (end == -1) {
-            end = total_lines;
-        } else if (end > total_lines) {
-            end = total_lines;
+        int end = spec->end_line;  /* exclusive */
+        if (end == -1 || end > total_lines + 1) {
+            end = total_lines + 1;
         }
         if (end < spec->start_line) {
             return strdup("");
-- 
2.43.0


From af166613dea4c7bd0e9276e36148421845976d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:51 +0000
Subject: [PATCH 064/180] fix: include address of a single line selects nothing

---
 src/extensions/includes.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/extensions/includes.c b/src/extensions/includes.c
index 3f89a88..64fd349 100644
--- a/src/extensions/includes.c
+++ b/src/extensions/includes.c
@@ -16,6 +16,7 @@
 #include <strings.h>
 #include <regex.h>
 #include <glob.h>
+#include <limits.h>
 
 /**
  * Read file contents
@@ -578,8 +579,8 @@ static address_spec_t *parse_address_spec(const char *address_str) {
                     pos = endptr;
                 }
             } else {
-                /* Just N - single line */
-                spec->end_line = spec->start_line;
+                /* Just N - single line (the end is exclusive) */
+                spec->end_line = spec->start_line < INT_MAX ? spec->start_line + 1 : spec->start_line;
             }
         }
     }
-- 
2.43.0


From b45eb878818b4b66e24d352d8130286e77bd0f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:51 +0000
Subject: [PATCH 065/180] fix: include address with a prefix drops lines of
 longer files

---
 src/extensions/includes.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/extensions/includes.c b/src/extensions/includes.c
index 64fd349..a8d4c7f 100644
--- a/src/extensions/includes.c
+++ b/src/extensions/includes.c
@@ -745,7 +745,8 @@ static char *extract_lines(const char *content, address_spec_t *spec) {
         /* Extract lines from start_line to end_line */
         line_num = 1;
         line_start = content;
-        size_t output_size = strlen(content) + 1024;
+        size_t output_size = strlen(content) + 1024 +
+                             (size_t)total_lines * ((spec->prefix ? strlen(spec->prefix) : 0) + 1);
         char *output = malloc(output_size);
         if (!output) return NULL;
         char *write = output;
@@ -798,7 +799,8 @@ static char *extract_lines(const char *content, address_spec_t *spec) {
         /* Extract lines */
         int line_num = 1;
         const char *line_start = content;
-        size_t output_size = strlen(content) + 1024;
+        size_t output_size = strlen(content) + 1024 +
+                             (size_t)total_lines * ((spec->prefix ? strlen(spec->prefix) : 0) + 1);
         char *output = malloc(output_size);
         if (!output) return NULL;
         char *write = output;
-- 
2.43.0


From e9ed64ad65273019279e467fa59717e600218aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:51 +0000
Subject: [PATCH 066/180] fix: bracketed text in a paragraph after a <<[file]
 include is taken for its address and lost

---
 src/extensions/includes.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/extensions/includes.c b/src/extensions/includes.c
index a8d4c7f..e55ba9e 100644
--- a/src/extensions/includes.c
+++ b/src/extensions/includes.c
@@ -1354,8 +1354,8 @@ char *apex_process_includes(const char *text, const char *base_dir, apex_metadat
 
                     /* Check for address specification [address] */
                     const char *address_start = filepath_end + 1;
-                    /* Skip whitespace */
-                    while (*address_start && isspace(*address_start)) address_start++;
+                    /* Skip whitespace (the address is on the same line) */
+                    while (*address_start == ' ' || *address_start == '\t') address_start++;
                     const char *address_end = NULL;
                     address_spec_t *address_spec = NULL;
 
-- 
2.43.0


From b8f6aa76c88a719acfa30c7f000ef96a6bac09d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:51 +0000
Subject: [PATCH 067/180] fix: {{file.*}} ignores the documented order of
 extensions

---
 src/extensions/includes.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/extensions/includes.c b/src/extensions/includes.c
index e55ba9e..a092043 100644
--- a/src/extensions/includes.c
+++ b/src/extensions/includes.c
@@ -863,8 +863,8 @@ char *apex_resolve_wildcard(const char *filepath, const char *base_dir) {
      * patterns like "*.c" or "{intro,part1}.md".
      */
     const char *wildcard = strstr(filepath, ".*");
-    bool has_other_glob = (strpbrk(filepath, "*?[{") != NULL &&
-                           !(wildcard && wildcard[1] == '\0'));
+    bool has_other_glob = !(wildcard && wildcard[2] == '\0' &&
+                            strpbrk(filepath, "*?[{") == wildcard + 1);
 
     if (wildcard && !has_other_glob) {
         /* Extract base filename (before .*) */
-- 
2.43.0


From d1b13de68899fb0c8e4a24d95145242cd1b52e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:51 +0000
Subject: [PATCH 068/180] fix: included files beyond a fixed buffer size are
 silently left out

---
 src/extensions/includes.c | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/extensions/includes.c b/src/extensions/includes.c
index a092043..e1be53c 100644
--- a/src/extensions/includes.c
+++ b/src/extensions/includes.c
@@ -1068,6 +1068,22 @@ static char *normalize_fence_delimiters(const char *text) {
     return output;
 }
 
+/**
+ * Make room for need more bytes (and the terminator) in the output
+ */
+static bool ensure_room(char **output, char **write_pos, size_t *remaining, size_t *capacity, size_t need) {
+    if (need < *remaining) return true;
+    size_t used = (size_t)(*write_pos - *output);
+    size_t new_capacity = (used + need + 1) * 2;
+    char *grown = realloc(*output, new_capacity);
+    if (!grown) return false;
+    *output = grown;
+    *write_pos = grown + used;
+    *capacity = new_capacity;
+    *remaining = new_capacity - used;
+    return true;
+}
+
 /**
  * Process file includes in text
  */
@@ -1085,8 +1101,7 @@ char *apex_process_includes(const char *text, const char *base_dir, apex_metadat
     const char *text_to_process = normalized_text;
 
     size_t text_len = strlen(text_to_process);
-    size_t output_capacity = text_len * 10;  /* Generous for includes */
-    if (output_capacity < 1024 * 1024) output_capacity = 1024 * 1024;  /* At least 1MB */
+    size_t output_capacity = text_len * 2 + 1024;  /* Grows as files are included */
     char *output = malloc(output_capacity);
     if (!output) {
         free(normalized_text);
@@ -1181,7 +1196,7 @@ char *apex_process_includes(const char *text, const char *base_dir, apex_metadat
 
                         if (to_insert) {
                             size_t insert_len = strlen(to_insert);
-                            if (insert_len < remaining) {
+                            if (ensure_room(&output, &write_pos, &remaining, &output_capacity, insert_len)) {
                                 memcpy(write_pos, to_insert, insert_len);
                                 write_pos += insert_len;
                                 remaining -= insert_len;
@@ -1288,7 +1303,7 @@ char *apex_process_includes(const char *text, const char *base_dir, apex_metadat
 
                         if (processed) {
                             size_t proc_len = strlen(processed);
-                            if (proc_len < remaining) {
+                            if (ensure_room(&output, &write_pos, &remaining, &output_capacity, proc_len)) {
                                 memcpy(write_pos, processed, proc_len);
                                 write_pos += proc_len;
                                 remaining -= proc_len;
@@ -1426,7 +1441,7 @@ char *apex_process_includes(const char *text, const char *base_dir, apex_metadat
 
                                 if (processed) {
                                     size_t proc_len = strlen(processed);
-                                    if (proc_len < remaining) {
+                                    if (ensure_room(&output, &write_pos, &remaining, &output_capacity, proc_len)) {
                                         memcpy(write_pos, processed, proc_len);
                                         write_pos += proc_len;
                                         remaining -= proc_len;
@@ -1456,7 +1471,7 @@ char *apex_process_includes(const char *text, const char *base_dir, apex_metadat
                                 const char *code_footer = "\n```\n";
 
                                 size_t total_len = strlen(code_header) + strlen(extracted_content) + strlen(code_footer);
-                                if (total_len < remaining) {
+                                if (ensure_room(&output, &write_pos, &remaining, &output_capacity, total_len)) {
                                     strcpy(write_pos, code_header);
                                     write_pos += strlen(code_header);
                                     strcpy(write_pos, extracted_content);
@@ -1471,7 +1486,7 @@ char *apex_process_includes(const char *text, const char *base_dir, apex_metadat
                                 char marker[1024];
                                 snprintf(marker, sizeof(marker), "<!--APEX_RAW_INCLUDE:%s-->", resolved_path);
                                 size_t marker_len = strlen(marker);
-                                if (marker_len < remaining) {
+                                if (ensure_room(&output, &write_pos, &remaining, &output_capacity, marker_len)) {
                                     memcpy(write_pos, marker, marker_len);
                                     write_pos += marker_len;
                                     remaining -= marker_len;
@@ -1498,7 +1513,7 @@ char *apex_process_includes(const char *text, const char *base_dir, apex_metadat
 
         /* Not an include, copy character */
         if (!processed_include) {
-            if (remaining > 0) {
+            if (ensure_room(&output, &write_pos, &remaining, &output_capacity, 1)) {
                 *write_pos++ = *read_pos;
                 remaining--;
             }
-- 
2.43.0


From 4e339883a8886cdca30f98de0b5b5e8415bdb31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:51 +0000
Subject: [PATCH 069/180] fix: a code include whose file contains a code fence
 ends early

---
 src/extensions/includes.c | 54 +++++++++++++++++++++++++++++----------
 1 file changed, 41 insertions(+), 13 deletions(-)

diff --git a/src/extensions/includes.c b/src/extensions/includes.c
index e1be53c..2a18881 100644
--- a/src/extensions/includes.c
+++ b/src/extensions/includes.c
@@ -1068,6 +1068,20 @@ static char *normalize_fence_delimiters(const char *text) {
     return output;
 }
 
+/**
+ * Length of a backtick fence that no run of backticks in the content can close.
+ * Always odd, for the toggle-based code detection.
+ */
+static int fence_length(const char *content) {
+    int longest = 0, run = 0;
+    for (const char *p = content; *p; p++) {
+        run = (*p == '`') ? run + 1 : 0;
+        if (run > longest) longest = run;
+    }
+    int length = longest < 3 ? 3 : longest + 1;
+    return length % 2 ? length : length + 1;
+}
+
 /**
  * Make room for need more bytes (and the terminator) in the output
  */
@@ -1170,9 +1184,16 @@ char *apex_process_includes(const char *text, const char *base_dir, apex_metadat
                             /* Code: wrap in fenced code block */
                             const char *ext = strrchr(filepath, '.');
                             const char *lang = ext ? ext + 1 : "";
-                            size_t buf_size = strlen(content) + strlen(lang) + 20;
-                            to_insert = malloc(buf_size);
-                            if (to_insert) snprintf(to_insert, buf_size, "\n```%s\n%s\n```\n", lang, content);
+                            int fence_len = fence_length(content);
+                            char *fence = malloc((size_t)fence_len + 1);
+                            size_t buf_size = strlen(content) + strlen(lang) + 2 * (size_t)fence_len + 20;
+                            to_insert = fence ? malloc(buf_size) : NULL;
+                            if (to_insert) {
+                                memset(fence, '`', (size_t)fence_len);
+                                fence[fence_len] = '\0';
+                                snprintf(to_insert, buf_size, "\n%s%s\n%s\n%s\n", fence, lang, content, fence);
+                            }
+                            free(fence);
                         } else {
                             /* Text/Markdown: process and include */
                             /* Extract metadata from transcluded file */
@@ -1466,18 +1487,25 @@ char *apex_process_includes(const char *text, const char *base_dir, apex_metadat
                                     else lang = ext;
                                 }
 
-                                char code_header[128];
-                                snprintf(code_header, sizeof(code_header), "\n```%s\n", lang);
-                                const char *code_footer = "\n```\n";
+                                char code_lang[128];
+                                snprintf(code_lang, sizeof(code_lang), "%s\n", lang);
+                                size_t lang_len = strlen(code_lang);
+                                size_t code_len = strlen(extracted_content);
+                                size_t fence_len = (size_t)fence_length(extracted_content);
 
-                                size_t total_len = strlen(code_header) + strlen(extracted_content) + strlen(code_footer);
+                                size_t total_len = lang_len + code_len + 2 * fence_len + 3;
                                 if (ensure_room(&output, &write_pos, &remaining, &output_capacity, total_len)) {
-                                    strcpy(write_pos, code_header);
-                                    write_pos += strlen(code_header);
-                                    strcpy(write_pos, extracted_content);
-                                    write_pos += strlen(extracted_content);
-                                    strcpy(write_pos, code_footer);
-                                    write_pos += strlen(code_footer);
+                                    *write_pos++ = '\n';
+                                    memset(write_pos, '`', fence_len);
+                                    write_pos += fence_len;
+                                    memcpy(write_pos, code_lang, lang_len);
+                                    write_pos += lang_len;
+                                    memcpy(write_pos, extracted_content, code_len);
+                                    write_pos += code_len;
+                                    *write_pos++ = '\n';
+                                    memset(write_pos, '`', fence_len);
+                                    write_pos += fence_len;
+                                    *write_pos++ = '\n';
                                     remaining -= total_len;
                                 }
                             } else if (bracket_type == '{') {
-- 
2.43.0


From ed9d028b31b2024241773abb6926556d2e326889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:51 +0000
Subject: [PATCH 070/180] fix: code and raw includes leak the metadata of the
 file

---
 src/extensions/includes.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/extensions/includes.c b/src/extensions/includes.c
index 2a18881..c8a3c9d 100644
--- a/src/extensions/includes.c
+++ b/src/extensions/includes.c
@@ -1521,6 +1521,10 @@ char *apex_process_includes(const char *text, const char *base_dir, apex_metadat
                                 }
                             }
 
+                            if (bracket_type != '[') {
+                                if (file_metadata) apex_free_metadata(file_metadata);
+                                free(file_content_for_metadata);
+                            }
                             if (free_extracted) free(extracted_content);
                             free(content);
                         }
-- 
2.43.0


From c77d98875beb0182e21e625033b6474de879c7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:22 +0000
Subject: [PATCH 071/180] fix: mmd-merge overruns its buffer for files indented
 by two or more levels

---
 cli/main.c | 35 +++++++++--------------------------
 1 file changed, 9 insertions(+), 26 deletions(-)

diff --git a/cli/main.c b/cli/main.c
index ca8e230..deb2f56 100644
--- a/cli/main.c
+++ b/cli/main.c
@@ -1056,34 +1056,17 @@ static char *apex_cli_shift_headers(const char *content, int indent) {
     if (!buffer) return NULL;
 
     char *out = buffer;
-    const char *in = content;
-
-    for (int level = 0; level < indent; level++) {
-        out = buffer;
-        in = (level == 0) ? content : buffer;
-
-        bool at_line_start = true;
-        while (*in) {
-            char c = *in;
-            if (at_line_start && c == '#') {
-                /* Duplicate initial '#' */
-                *out++ = '#';
-                *out++ = '#';
-                in++;
-                at_line_start = false;
-                continue;
-            }
-
-            *out++ = c;
-            if (c == '\n') {
-                at_line_start = true;
-            } else {
-                at_line_start = false;
-            }
-            in++;
+    bool at_line_start = true;
+    for (const char *in = content; *in; in++) {
+        if (at_line_start && *in == '#') {
+            /* One more '#' per level */
+            memset(out, '#', (size_t)indent);
+            out += indent;
         }
-        *out = '\0';
+        *out++ = *in;
+        at_line_start = (*in == '\n');
     }
+    *out = '\0';
 
     return buffer;
 }
-- 
2.43.0


From 7606cd03200906d57f4964a4227e80de01ee74b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:22 +0000
Subject: [PATCH 072/180] fix: --combine runs the file before a SUMMARY.md into
 its first page

---
 cli/main.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/cli/main.c b/cli/main.c
index deb2f56..922a926 100644
--- a/cli/main.c
+++ b/cli/main.c
@@ -1270,7 +1270,7 @@ static void apex_cli_write_combined_chunk(FILE *out, const char *chunk, bool *ne
  *
  * Returns 0 on success, non-zero on error.
  */
-static int apex_cli_combine_from_summary(const char *summary_path, FILE *out) {
+static int apex_cli_combine_from_summary(const char *summary_path, FILE *out, bool *needs_separator) {
     size_t len = 0;
     char *summary = read_file(summary_path, &len);
     if (!summary) {
@@ -1279,7 +1279,6 @@ static int apex_cli_combine_from_summary(const char *summary_path, FILE *out) {
     }
 
     char *base_dir = apex_cli_get_directory(summary_path);
-    bool needs_separator = false;
 
     char *cursor = summary;
     while (*cursor) {
@@ -1335,7 +1334,7 @@ static int apex_cli_combine_from_summary(const char *summary_path, FILE *out) {
                             snprintf(full_path, full_len, "%s/%s", base_dir ? base_dir : ".", start);
                             char *processed = apex_cli_combine_process_file(full_path);
                             if (processed) {
-                                apex_cli_write_combined_chunk(out, processed, &needs_separator);
+                                apex_cli_write_combined_chunk(out, processed, needs_separator);
                                 free(processed);
                             } else {
                                 fprintf(stderr, "Warning: Skipping unreadable file '%s' from SUMMARY\n", full_path);
@@ -2980,13 +2979,11 @@ int main(int argc, char *argv[]) {
             bool is_summary = (base && strcasecmp(base, "SUMMARY.md") == 0);
 
             if (is_summary) {
-                if (apex_cli_combine_from_summary(path, out) != 0) {
+                if (apex_cli_combine_from_summary(path, out, &needs_separator) != 0) {
                     rc = 1;
                     free(path_copy);
                     break;
                 }
-                /* SUMMARY already handles its own separation */
-                needs_separator = true;
             } else {
                 char *processed = apex_cli_combine_process_file(path);
                 if (!processed) {
-- 
2.43.0


From 5b79b73f5f9465cd0918d18237585e2e0e3f4efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:47 +0000
Subject: [PATCH 073/180] fix: --combine overlooks SUMMARY.md links with a
 title or after another bracket on the line

---
 cli/main.c | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/cli/main.c b/cli/main.c
index 922a926..a5cbb9f 100644
--- a/cli/main.c
+++ b/cli/main.c
@@ -1288,21 +1288,21 @@ static int apex_cli_combine_from_summary(const char *summary_path, FILE *out, bo
             line_end = cursor + strlen(cursor);
         }
 
-        /* Look for [Title](path) pattern on this line */
-        const char *lb = memchr(line_start, '[', (size_t)(line_end - line_start));
-        const char *rb = NULL;
-        const char *lp = NULL;
-        const char *rp = NULL;
-
-        if (lb) {
-            rb = memchr(lb, ']', (size_t)(line_end - lb));
+        /* Look for every [Title](path) pattern on this line */
+        const char *scan = line_start;
+        const char *lb;
+        while ((lb = memchr(scan, '[', (size_t)(line_end - scan))) != NULL) {
+            const char *lp = NULL;
+            const char *rp = NULL;
+            const char *rb = memchr(lb, ']', (size_t)(line_end - lb));
             if (rb && (rb + 1) < line_end && rb[1] == '(') {
                 lp = rb + 2;
                 rp = memchr(lp, ')', (size_t)(line_end - lp));
             }
-        }
+            bool is_link = lp && rp && rp > lp && !(lb > line_start && lb[-1] == '!');
+            scan = (lp && rp) ? rp + 1 : lb + 1;
+            if (!is_link) continue;
 
-        if (lp && rp && rp > lp) {
             size_t path_len = (size_t)(rp - lp);
             char *rel_path = malloc(path_len + 1);
             if (rel_path) {
@@ -1319,6 +1319,15 @@ static int apex_cli_combine_from_summary(const char *summary_path, FILE *out, bo
                 }
                 *end = '\0';
 
+                /* Strip a link title */
+                for (char *t = start; *t; t++) {
+                    if ((*t == ' ' || *t == '\t') && (t[1] == '"' || t[1] == '\'')) {
+                        while (t > start && (t[-1] == ' ' || t[-1] == '\t')) t--;
+                        *t = '\0';
+                        break;
+                    }
+                }
+
                 if (*start) {
                     /* Strip anchor (#section) if present */
                     char *hash = strchr(start, '#');
-- 
2.43.0


From d8108324fd68ec5e7e61b38032c8ec377e07d1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:17 +0000
Subject: [PATCH 074/180] fix: inline footnotes are confused with [^fn1] labels
 of the document

---
 src/extensions/inline_footnotes.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/extensions/inline_footnotes.c b/src/extensions/inline_footnotes.c
index 9ca141b..b18b956 100644
--- a/src/extensions/inline_footnotes.c
+++ b/src/extensions/inline_footnotes.c
@@ -29,7 +29,7 @@ char *apex_process_inline_footnotes(const char *text) {
     size_t len = strlen(text);
     /* Allocate generous buffer (inline footnotes become references + definitions) */
     /* Worst case "^[]": 3 bytes become "[^fnN]" plus "[^fnN]: \n" */
-    size_t capacity = len * 10 + 16;
+    size_t capacity = len * 12 + 16;
     char *output = malloc(capacity);
     if (!output) return strdup(text);
 
@@ -48,6 +48,12 @@ char *apex_process_inline_footnotes(const char *text) {
     footnote_def **footnote_tail = &footnotes;
     int footnote_count = 0;
 
+    /* Number the notes after any [^fnN] label of the document itself */
+    for (const char *p = text; (p = strstr(p, "[^fn")) != NULL; p += 4) {
+        int number = atoi(p + 4);
+        if (number > footnote_count && number < 1000000) footnote_count = number;
+    }
+
     bool in_code_block = false;
     bool in_code_span = false;
 
-- 
2.43.0


From 8a639dc0487c980f4bf6befa52e099e4cb08fbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:17 +0000
Subject: [PATCH 075/180] fix: inline footnotes are processed inside fences of
 four backticks

---
 src/extensions/inline_footnotes.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/extensions/inline_footnotes.c b/src/extensions/inline_footnotes.c
index b18b956..9c40e79 100644
--- a/src/extensions/inline_footnotes.c
+++ b/src/extensions/inline_footnotes.c
@@ -77,8 +77,12 @@ char *apex_process_inline_footnotes(const char *text) {
         /* Track code blocks (don't process footnotes inside) */
         if (strncmp(read, "```", 3) == 0 || strncmp(read, "~~~", 3) == 0) {
             in_code_block = !in_code_block;
-            WRITE_CHAR(*read);
-            read++;
+            /* The whole run is one fence */
+            char fence_char = *read;
+            while (*read == fence_char) {
+                WRITE_CHAR(*read);
+                read++;
+            }
             continue;
         }
 
-- 
2.43.0


From b4475c435d4998a234f3ea0e050e25b4c479645d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:17 +0000
Subject: [PATCH 076/180] fix: an unclosed ^[ swallows the following paragraphs

---
 src/extensions/inline_footnotes.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/extensions/inline_footnotes.c b/src/extensions/inline_footnotes.c
index 9c40e79..b1b3715 100644
--- a/src/extensions/inline_footnotes.c
+++ b/src/extensions/inline_footnotes.c
@@ -108,6 +108,7 @@ char *apex_process_inline_footnotes(const char *text) {
 
             /* Find matching ] */
             while (*end && bracket_depth > 0) {
+                if (*end == '\n' && (end[1] == '\n' || end[1] == '\r')) break; /* notes end with the paragraph */
                 if (*end == '[') bracket_depth++;
                 else if (*end == ']') bracket_depth--;
                 if (bracket_depth > 0) end++;
-- 
2.43.0


From ffa5d71e0bf2bce3f515e3374c94094b4e1da2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:17 +0000
Subject: [PATCH 077/180] fix: a lone backtick disables inline footnotes in the
 rest of the document

---
 src/extensions/inline_footnotes.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/extensions/inline_footnotes.c b/src/extensions/inline_footnotes.c
index b1b3715..e8926a0 100644
--- a/src/extensions/inline_footnotes.c
+++ b/src/extensions/inline_footnotes.c
@@ -88,7 +88,17 @@ char *apex_process_inline_footnotes(const char *text) {
 
         /* Track inline code spans */
         if (*read == '`' && !in_code_block) {
-            in_code_span = !in_code_span;
+            if (in_code_span) {
+                in_code_span = false;
+            } else {
+                /* A backtick with no partner in its paragraph is plain text */
+                const char *partner = read + 1;
+                while (*partner && *partner != '`' &&
+                       !(*partner == '\n' && (partner[1] == '\n' || partner[1] == '\r'))) {
+                    partner++;
+                }
+                in_code_span = (*partner == '`');
+            }
             WRITE_CHAR(*read);
             read++;
             continue;
-- 
2.43.0


From 37432cb061877af3a47a321dc0b02bb6b99c9469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:33 +0000
Subject: [PATCH 078/180] fix: manual header ids are taken from the middle of a
 heading and overlooked after emphasis

---
 src/extensions/header_ids.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/extensions/header_ids.c b/src/extensions/header_ids.c
index a24bf9f..7e6c904 100644
--- a/src/extensions/header_ids.c
+++ b/src/extensions/header_ids.c
@@ -696,8 +696,8 @@ bool apex_process_manual_header_id(cmark_node *heading_node) {
         return false;
     }
 
-    /* Get the text node inside the heading */
-    cmark_node *text_node = cmark_node_first_child(heading_node);
+    /* A manual ID is at the end of the heading, so in its last text node */
+    cmark_node *text_node = cmark_node_last_child(heading_node);
     if (!text_node || cmark_node_get_type(text_node) != CMARK_NODE_TEXT) {
         goto try_trailing_link;
     }
-- 
2.43.0


From 2c94d09f55d567ceae679419c409378bdfcd0a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:30 +0000
Subject: [PATCH 079/180] fix: attribute lists are taken from the middle of a
 heading and overlooked after emphasis

---
 src/extensions/ial.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/extensions/ial.c b/src/extensions/ial.c
index a0b5244..03d49f2 100644
--- a/src/extensions/ial.c
+++ b/src/extensions/ial.c
@@ -1241,8 +1241,8 @@ static bool process_span_ial(cmark_node *para, ald_entry *alds) {
 static bool extract_ial_from_heading(cmark_node *heading, apex_attributes **attrs_out, ald_entry *alds) {
     if (cmark_node_get_type(heading) != CMARK_NODE_HEADING) return false;
 
-    /* Get the text node inside the heading */
-    cmark_node *text_node = cmark_node_first_child(heading);
+    /* The IAL is at the end of the heading, so in its last text node */
+    cmark_node *text_node = cmark_node_last_child(heading);
     if (!text_node || cmark_node_get_type(text_node) != CMARK_NODE_TEXT) return false;
 
     const char *text = cmark_node_get_literal(text_node);
-- 
2.43.0


From 76d15cef8787791ede1f16a0857829313fc205a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:16 +0000
Subject: [PATCH 080/180] fix: JSON input keeps only the first inline of every
 paragraph, and emphasis is nested one array too deep

---
 src/ast_json.c | 88 +++++++++++++++++---------------------------------
 1 file changed, 30 insertions(+), 58 deletions(-)

diff --git a/src/ast_json.c b/src/ast_json.c
index d7abf5f..e46fc80 100644
--- a/src/ast_json.c
+++ b/src/ast_json.c
@@ -136,15 +136,15 @@ static int write_inline(apex_json_buf *b, cmark_node *node) {
         break;
     }
     case CMARK_NODE_EMPH: {
-        if (!apex_json_buf_append(b, "{\"t\":\"Emph\",\"c\":[")) return 0;
+        if (!apex_json_buf_append(b, "{\"t\":\"Emph\",\"c\":")) return 0;
         if (!write_inlines(b, cmark_node_first_child(node))) return 0;
-        if (!apex_json_buf_append(b, "]}")) return 0;
+        if (!apex_json_buf_append(b, "}")) return 0;
         break;
     }
     case CMARK_NODE_STRONG: {
-        if (!apex_json_buf_append(b, "{\"t\":\"Strong\",\"c\":[")) return 0;
+        if (!apex_json_buf_append(b, "{\"t\":\"Strong\",\"c\":")) return 0;
         if (!write_inlines(b, cmark_node_first_child(node))) return 0;
-        if (!apex_json_buf_append(b, "]}")) return 0;
+        if (!apex_json_buf_append(b, "}")) return 0;
         break;
     }
     case CMARK_NODE_LINK: {
@@ -577,8 +577,24 @@ static int json_skip_value(json_cursor *cur) {
     return 1;
 }
 
-/* Parse a Pandoc Inline array into a linked list of cmark nodes attached
- * under a temporary dummy parent; returns first child.
+/* Move all children of 'holder' to the end of 'parent' and free 'holder'.
+ * 'holder' may be NULL.
+ */
+static void move_children(cmark_node *parent, cmark_node *holder) {
+    if (!holder) return;
+    cmark_node *child;
+    while ((child = cmark_node_first_child(holder)) != NULL) {
+        if (!cmark_node_append_child(parent, child)) {
+            cmark_node_unlink(child);
+            cmark_node_free(child);
+        }
+    }
+    cmark_node_free(holder);
+}
+
+/* Parse a Pandoc Inline array into cmark nodes attached under a temporary
+ * dummy parent; returns the dummy (unlinking its children here would lose
+ * all but the first), or NULL on error. See move_children().
  */
 static cmark_node *parse_inlines_array(json_cursor *cur) {
     if (!json_match_char(cur, '[')) return NULL;
@@ -591,9 +607,7 @@ static cmark_node *parse_inlines_array(json_cursor *cur) {
     json_skip_ws(cur);
     if (*cur->s == ']') {
         cur->s++;
-        cmark_node *first = cmark_node_first_child(dummy);
-        cmark_node_free(dummy);
-        return first;
+        return dummy;
     }
 
     int ok = 1;
@@ -658,21 +672,13 @@ static cmark_node *parse_inlines_array(json_cursor *cur) {
         } else if (strcmp(tag, "LineBreak") == 0) {
             node = cmark_node_new(CMARK_NODE_LINEBREAK);
         } else if (strcmp(tag, "Emph") == 0 || strcmp(tag, "Strong") == 0) {
-            if (!json_match_char(&ccur, '[')) { free(tag); free(c_buf); ok = 0; break; }
             cmark_node *wrapper = cmark_node_new(strcmp(tag, "Emph") == 0
                                                  ? CMARK_NODE_EMPH
                                                  : CMARK_NODE_STRONG);
             if (!wrapper) { free(tag); free(c_buf); ok = 0; break; }
-            json_skip_ws(&ccur);
-            if (*ccur.s != ']') {
-                cmark_node *child_first = parse_inlines_array(&ccur);
-                cmark_node *child = child_first;
-                while (child) {
-                    cmark_node *next = cmark_node_next(child);
-                    cmark_node_append_child(wrapper, child);
-                    child = next;
-                }
-            }
+            cmark_node *inlines = parse_inlines_array(&ccur);
+            if (!inlines) { cmark_node_free(wrapper); free(tag); free(c_buf); ok = 0; break; }
+            move_children(wrapper, inlines);
             node = wrapper;
         } else if (strcmp(tag, "Code") == 0) {
             if (!json_match_char(&ccur, '[')) { free(tag); free(c_buf); ok = 0; break; }
@@ -689,18 +695,7 @@ static cmark_node *parse_inlines_array(json_cursor *cur) {
             if (!json_skip_value(&ccur)) { free(tag); free(c_buf); ok = 0; break; }
             if (!json_match_char(&ccur, ',')) { free(tag); free(c_buf); ok = 0; break; }
 
-            cmark_node *child_first = parse_inlines_array(&ccur);
-
-            cmark_node *child = child_first;
-            while (child) {
-                cmark_node *next = cmark_node_next(child);
-                if (!cmark_node_append_child(dummy, child)) {
-                    cmark_node_free(child);
-                    ok = 0;
-                    break;
-                }
-                child = next;
-            }
+            move_children(dummy, parse_inlines_array(&ccur));
             node = NULL;
         } else if (strcmp(tag, "Math") == 0) {
             if (!json_match_char(&ccur, '[')) { free(tag); free(c_buf); ok = 0; break; }
@@ -790,18 +785,7 @@ static cmark_node *parse_inlines_array(json_cursor *cur) {
         return NULL;
     }
 
-    cmark_node *first = cmark_node_first_child(dummy);
-    if (first) {
-        /* Detach children without freeing */
-        cmark_node *child = first;
-        while (child) {
-            cmark_node *next = cmark_node_next(child);
-            cmark_node_unlink(child);
-            child = next;
-        }
-    }
-    cmark_node_free(dummy);
-    return first;
+    return dummy;
 }
 
 /* Parse a single Block object {"t": "...", "c": ...} (any key order, e.g. dkjson "c" before "t") */
@@ -858,13 +842,7 @@ static cmark_node *parse_block_object(json_cursor *cur) {
     if (strcmp(tag, "Para") == 0) {
         cmark_node *para = cmark_node_new(CMARK_NODE_PARAGRAPH);
         if (!para) { free(tag); free(c_buf); return NULL; }
-        cmark_node *child_first = parse_inlines_array(&ccur);
-        cmark_node *child = child_first;
-        while (child) {
-            cmark_node *next = cmark_node_next(child);
-            cmark_node_append_child(para, child);
-            child = next;
-        }
+        move_children(para, parse_inlines_array(&ccur));
         node = para;
     } else if (strcmp(tag, "Header") == 0) {
         if (!json_match_char(&ccur, '[')) { free(tag); free(c_buf); return NULL; }
@@ -876,13 +854,7 @@ static cmark_node *parse_block_object(json_cursor *cur) {
         cmark_node *heading = cmark_node_new(CMARK_NODE_HEADING);
         if (!heading) { free(tag); free(c_buf); return NULL; }
         cmark_node_set_heading_level(heading, (int)level);
-        cmark_node *child_first = parse_inlines_array(&ccur);
-        cmark_node *child = child_first;
-        while (child) {
-            cmark_node *next = cmark_node_next(child);
-            cmark_node_append_child(heading, child);
-            child = next;
-        }
+        move_children(heading, parse_inlines_array(&ccur));
         json_skip_ws(&ccur);
         if (*ccur.s == ']')
             ccur.s++;
-- 
2.43.0


From 9b60e1e69a0f7db370d7e7449adeaf1a40aa8093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:16 +0000
Subject: [PATCH 081/180] fix: JSON for code blocks has one bracket too many,
 and reading them back loses the last newline

---
 src/ast_json.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/ast_json.c b/src/ast_json.c
index e46fc80..939e6e7 100644
--- a/src/ast_json.c
+++ b/src/ast_json.c
@@ -266,7 +266,7 @@ static int write_block(apex_json_buf *b, cmark_node *node) {
         if (lang && strcmp(lang, "inc") == 0) {
             if (!apex_json_buf_append(b, "]\x2c[[\"inc\",\"yes\"]]],")) return 0;
         } else {
-            if (!apex_json_buf_append(b, "],[]]],")) return 0;
+            if (!apex_json_buf_append(b, "],[]],")) return 0;
         }
         if (lit_len > 0) {
             char *lit_copy = (char *)malloc(lit_len + 1);
@@ -887,6 +887,10 @@ static cmark_node *parse_block_object(json_cursor *cur) {
         if (*ccur.s != ']') {
             lang = json_parse_string(&ccur);
         }
+        /* The first class is the language; further classes have no place in a fence */
+        while (json_match_char(&ccur, ',')) {
+            if (!json_skip_value(&ccur)) { free(tag); free(c_buf); free(lang); return NULL; }
+        }
         if (!json_match_char(&ccur, ']')) { free(tag); free(c_buf); free(lang); return NULL; }
         if (!json_match_char(&ccur, ',')) { free(tag); free(c_buf); free(lang); return NULL; }
         if (!json_skip_value(&ccur)) { free(tag); free(c_buf); free(lang); return NULL; }
@@ -896,6 +900,16 @@ static cmark_node *parse_block_object(json_cursor *cur) {
         if (!txt) { free(tag); free(c_buf); free(lang); return NULL; }
         node = cmark_node_new(CMARK_NODE_CODE_BLOCK);
         if (!node) { free(tag); free(c_buf); free(lang); free(txt); return NULL; }
+        /* Pandoc leaves out the newline that ends the last line; cmark has it */
+        size_t txt_len = strlen(txt);
+        if (txt_len > 0) {
+            char *with_nl = (char *)malloc(txt_len + 2);
+            if (!with_nl) { cmark_node_free(node); free(tag); free(c_buf); free(lang); free(txt); return NULL; }
+            memcpy(with_nl, txt, txt_len);
+            memcpy(with_nl + txt_len, "\n", 2);
+            free(txt);
+            txt = with_nl;
+        }
         cmark_node_set_literal(node, txt);
         if (lang && *lang) {
             cmark_node_set_fence_info(node, lang);
-- 
2.43.0


From 2f6919fe9d545ae82fd4926cfad5f3ffd4188736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:16 +0000
Subject: [PATCH 082/180] fix: lists and block quotes do not survive the JSON
 they are written to

---
 src/ast_json.c | 89 ++++++++++++++++++++++----------------------------
 1 file changed, 39 insertions(+), 50 deletions(-)

diff --git a/src/ast_json.c b/src/ast_json.c
index 939e6e7..c15ec95 100644
--- a/src/ast_json.c
+++ b/src/ast_json.c
@@ -218,7 +218,11 @@ static int write_block(apex_json_buf *b, cmark_node *node) {
 
     switch (t) {
     case CMARK_NODE_PARAGRAPH: {
-        if (!apex_json_buf_append(b, "{\"t\":\"Para\",\"c\":")) return 0;
+        /* As in Pandoc, the text of a tight list item is Plain, not Para */
+        cmark_node *item = cmark_node_parent(node);
+        cmark_node *list = item ? cmark_node_parent(item) : NULL;
+        int is_plain = list && cmark_node_get_type(list) == CMARK_NODE_LIST && cmark_node_get_list_tight(list);
+        if (!apex_json_buf_append(b, is_plain ? "{\"t\":\"Plain\",\"c\":" : "{\"t\":\"Para\",\"c\":")) return 0;
         if (!write_inlines(b, cmark_node_first_child(node))) return 0;
         if (!apex_json_buf_append(b, "}")) return 0;
         break;
@@ -291,12 +295,14 @@ static int write_block(apex_json_buf *b, cmark_node *node) {
             if (!apex_json_buf_append(b, "{\"t\":\"OrderedList\",\"c\":[")) return 0;
             /* Simple default list attributes: [start, style, delim] */
             int start = cmark_node_get_list_start(node);
-            if (start <= 0) start = 1;
+            if (start < 0) start = 1;
             char buf[32];
             snprintf(buf, sizeof(buf), "%d", start);
             if (!apex_json_buf_append(b, "[")) return 0;
             if (!apex_json_buf_append(b, buf)) return 0;
-            if (!apex_json_buf_append(b, ",\"Decimal\",\"Period\"],[")) return 0;
+            if (!apex_json_buf_append(b, cmark_node_get_list_delim(node) == CMARK_PAREN_DELIM
+                                         ? ",{\"t\":\"Decimal\"},{\"t\":\"OneParen\"}],["
+                                         : ",{\"t\":\"Decimal\"},{\"t\":\"Period\"}],[")) return 0;
         } else {
             if (!apex_json_buf_append(b, "{\"t\":\"BulletList\",\"c\":[")) return 0;
         }
@@ -324,7 +330,7 @@ static int write_block(apex_json_buf *b, cmark_node *node) {
             item = cmark_node_next(item);
         }
 
-        if (!apex_json_buf_append(b, "]}")) return 0;
+        if (!apex_json_buf_append(b, is_ordered ? "]]}" : "]}")) return 0;
         break;
     }
     case CMARK_NODE_BLOCK_QUOTE: {
@@ -410,6 +416,7 @@ error:
 
 typedef struct {
     const char *s;
+    int saw_para; /* set when a Para block was read from this cursor */
 } json_cursor;
 
 static void json_skip_ws(json_cursor *cur) {
@@ -657,7 +664,7 @@ static cmark_node *parse_inlines_array(json_cursor *cur) {
         }
 
         /* Parse "c" from buffer so we can dispatch by tag */
-        json_cursor ccur = { c_buf };
+        json_cursor ccur = { c_buf, 0 };
         cmark_node *node = NULL;
 
         if (strcmp(tag, "Str") == 0) {
@@ -836,10 +843,11 @@ static cmark_node *parse_block_object(json_cursor *cur) {
         return NULL;
     }
 
-    json_cursor ccur = { c_buf };
+    json_cursor ccur = { c_buf, 0 };
     cmark_node *node = NULL;
 
-    if (strcmp(tag, "Para") == 0) {
+    if (strcmp(tag, "Para") == 0 || strcmp(tag, "Plain") == 0) {
+        if (strcmp(tag, "Para") == 0) cur->saw_para = 1;
         cmark_node *para = cmark_node_new(CMARK_NODE_PARAGRAPH);
         if (!para) { free(tag); free(c_buf); return NULL; }
         move_children(para, parse_inlines_array(&ccur));
@@ -918,23 +926,31 @@ static cmark_node *parse_block_object(json_cursor *cur) {
         free(lang);
     } else if (strcmp(tag, "BulletList") == 0 || strcmp(tag, "OrderedList") == 0) {
         int is_ordered = (strcmp(tag, "OrderedList") == 0);
+        long start = 1;
+        int is_paren = 0;
         if (is_ordered) {
+            /* c = [[start, style, delim], items] */
+            if (!json_match_char(&ccur, '[')) { free(tag); free(c_buf); return NULL; }
             if (!json_match_char(&ccur, '[')) { free(tag); free(c_buf); return NULL; }
-            long start = json_parse_int(&ccur);
-            if (start <= 0) start = 1;
+            start = json_parse_int(&ccur);
+            if (start < 0) start = 1;
             if (!json_match_char(&ccur, ',')) { free(tag); free(c_buf); return NULL; }
             if (!json_skip_value(&ccur)) { free(tag); free(c_buf); return NULL; }
             if (!json_match_char(&ccur, ',')) { free(tag); free(c_buf); return NULL; }
+            const char *delim = ccur.s;
             if (!json_skip_value(&ccur)) { free(tag); free(c_buf); return NULL; }
+            const char *paren = strstr(delim, "Paren");
+            is_paren = paren && paren < ccur.s;
+            if (!json_match_char(&ccur, ']')) { free(tag); free(c_buf); return NULL; }
             if (!json_match_char(&ccur, ',')) { free(tag); free(c_buf); return NULL; }
-        } else {
-            if (!json_match_char(&ccur, '[')) { free(tag); free(c_buf); return NULL; }
         }
 
         cmark_node *list = cmark_node_new(CMARK_NODE_LIST);
         if (!list) { free(tag); free(c_buf); return NULL; }
         if (is_ordered) {
             cmark_node_set_list_type(list, CMARK_ORDERED_LIST);
+            cmark_node_set_list_start(list, (int)start);
+            cmark_node_set_list_delim(list, is_paren ? CMARK_PAREN_DELIM : CMARK_PERIOD_DELIM);
         } else {
             cmark_node_set_list_type(list, CMARK_BULLET_LIST);
         }
@@ -942,20 +958,11 @@ static cmark_node *parse_block_object(json_cursor *cur) {
         if (!json_match_char(&ccur, '[')) { cmark_node_free(list); free(tag); free(c_buf); return NULL; }
         json_skip_ws(&ccur);
         while (*ccur.s != ']') {
-            if (!json_match_char(&ccur, '[')) { cmark_node_free(list); free(tag); free(c_buf); return NULL; }
             cmark_node *item = cmark_node_new(CMARK_NODE_ITEM);
             if (!item) { cmark_node_free(list); free(tag); free(c_buf); return NULL; }
             cmark_node *blocks = parse_blocks_array(&ccur);
-            if (blocks) {
-                cmark_node *blk = cmark_node_first_child(blocks);
-                while (blk) {
-                    cmark_node *next = cmark_node_next(blk);
-                    cmark_node_append_child(item, blk);
-                    blk = next;
-                }
-                cmark_node_free(blocks);
-            }
-            if (!json_match_char(&ccur, ']')) { cmark_node_free(item); cmark_node_free(list); free(tag); free(c_buf); return NULL; }
+            if (!blocks) { cmark_node_free(item); cmark_node_free(list); free(tag); free(c_buf); return NULL; }
+            move_children(item, blocks);
 
             cmark_node_append_child(list, item);
 
@@ -970,23 +977,14 @@ static cmark_node *parse_block_object(json_cursor *cur) {
             }
         }
         if (!json_match_char(&ccur, ']')) { cmark_node_free(list); free(tag); free(c_buf); return NULL; }
-        if (!json_match_char(&ccur, ']')) { cmark_node_free(list); free(tag); free(c_buf); return NULL; }
+        cmark_node_set_list_tight(list, !ccur.saw_para);
         node = list;
     } else if (strcmp(tag, "BlockQuote") == 0) {
-        if (!json_match_char(&ccur, '[')) { free(tag); free(c_buf); return NULL; }
         cmark_node *bq = cmark_node_new(CMARK_NODE_BLOCK_QUOTE);
         if (!bq) { free(tag); free(c_buf); return NULL; }
         cmark_node *blocks = parse_blocks_array(&ccur);
-        if (blocks) {
-            cmark_node *blk = cmark_node_first_child(blocks);
-            while (blk) {
-                cmark_node *next = cmark_node_next(blk);
-                cmark_node_append_child(bq, blk);
-                blk = next;
-            }
-            cmark_node_free(blocks);
-        }
-        if (!json_match_char(&ccur, ']')) { cmark_node_free(bq); free(tag); free(c_buf); return NULL; }
+        if (!blocks) { cmark_node_free(bq); free(tag); free(c_buf); return NULL; }
+        move_children(bq, blocks);
         node = bq;
     } else if (strcmp(tag, "Div") == 0) {
         /* c = [Attr, blocks] – skip Attr, parse inner blocks and return chain so caller appends all */
@@ -1018,8 +1016,7 @@ static cmark_node *parse_blocks_array(json_cursor *cur) {
     json_skip_ws(cur);
     if (*cur->s == ']') {
         cur->s++;
-        cmark_node_free(dummy);
-        return NULL;
+        return dummy;
     }
 
     int ok = 1;
@@ -1027,10 +1024,10 @@ static cmark_node *parse_blocks_array(json_cursor *cur) {
         json_skip_ws(cur);
         cmark_node *blk = parse_block_object(cur);
         if (!blk) { ok = 0; break; }
-        while (blk) {
-            cmark_node *next = cmark_node_next(blk);
-            cmark_node_append_child(dummy, blk);
-            blk = next;
+        if (cmark_node_get_type(blk) == CMARK_NODE_DOCUMENT) {
+            move_children(dummy, blk); /* the blocks of a Div */
+        } else if (!cmark_node_append_child(dummy, blk)) {
+            cmark_node_free(blk);
         }
 
         json_skip_ws(cur);
@@ -1063,7 +1060,7 @@ cmark_node *apex_pandoc_json_to_cmark(const char *json,
     (void)options;
     if (!json) return NULL;
 
-    json_cursor cur = { json };
+    json_cursor cur = { json, 0 };
     json_skip_ws(&cur);
     if (!json_match_char(&cur, '{')) return NULL;
 
@@ -1083,15 +1080,7 @@ cmark_node *apex_pandoc_json_to_cmark(const char *json,
 
         if (strcmp(key, "blocks") == 0) {
             cmark_node *blocks = parse_blocks_array(&cur);
-            if (blocks) {
-                cmark_node *blk = cmark_node_first_child(blocks);
-                while (blk) {
-                    cmark_node *next = cmark_node_next(blk);
-                    cmark_node_append_child(doc, blk);
-                    blk = next;
-                }
-                cmark_node_free(blocks);
-            }
+            move_children(doc, blocks);
         } else {
             /* Skip other fields (pandoc-api-version, meta, etc.) */
             if (!json_skip_value(&cur)) { free(key); cmark_node_free(doc); return NULL; }
-- 
2.43.0


From e2b4ecdc68109eacd3e5cefef8740d7d8df2f17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:16 +0000
Subject: [PATCH 083/180] fix: JSON input drops links, images, spaces and
 breaks written by Pandoc filters

---
 src/ast_json.c | 50 ++++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 48 insertions(+), 2 deletions(-)

diff --git a/src/ast_json.c b/src/ast_json.c
index c15ec95..4ea0c1a 100644
--- a/src/ast_json.c
+++ b/src/ast_json.c
@@ -656,6 +656,7 @@ static cmark_node *parse_inlines_array(json_cursor *cur) {
             json_skip_ws(cur);
             if (*cur->s == ',') cur->s++;
         }
+        if (ok && tag && !c_buf) c_buf = strdup("[]"); /* Pandoc leaves "c" out of Space, LineBreak, ... */
         if (!ok || !tag || !c_buf) {
             free(tag);
             free(c_buf);
@@ -674,6 +675,9 @@ static cmark_node *parse_inlines_array(json_cursor *cur) {
             if (!node) { free(tag); free(c_buf); free(txt); ok = 0; break; }
             cmark_node_set_literal(node, txt);
             free(txt);
+        } else if (strcmp(tag, "Space") == 0) {
+            node = cmark_node_new(CMARK_NODE_TEXT);
+            if (node) cmark_node_set_literal(node, " ");
         } else if (strcmp(tag, "SoftBreak") == 0) {
             node = cmark_node_new(CMARK_NODE_SOFTBREAK);
         } else if (strcmp(tag, "LineBreak") == 0) {
@@ -697,6 +701,47 @@ static cmark_node *parse_inlines_array(json_cursor *cur) {
             if (!node) { free(tag); free(c_buf); free(txt); ok = 0; break; }
             cmark_node_set_literal(node, txt);
             free(txt);
+        } else if (strcmp(tag, "Link") == 0 || strcmp(tag, "Image") == 0) {
+            /* c = [Attr, inlines, [url, title]] */
+            if (!json_match_char(&ccur, '[')) { free(tag); free(c_buf); ok = 0; break; }
+            if (!json_skip_value(&ccur)) { free(tag); free(c_buf); ok = 0; break; }
+            if (!json_match_char(&ccur, ',')) { free(tag); free(c_buf); ok = 0; break; }
+            cmark_node *inlines = parse_inlines_array(&ccur);
+            if (!inlines) { free(tag); free(c_buf); ok = 0; break; }
+            char *url = NULL, *title = NULL;
+            if (json_match_char(&ccur, ',') && json_match_char(&ccur, '[')) {
+                url = json_parse_string(&ccur);
+                if (url && json_match_char(&ccur, ',')) title = json_parse_string(&ccur);
+            }
+            node = url ? cmark_node_new(strcmp(tag, "Link") == 0 ? CMARK_NODE_LINK : CMARK_NODE_IMAGE) : NULL;
+            if (!node) { cmark_node_free(inlines); free(url); free(title); free(tag); free(c_buf); ok = 0; break; }
+            cmark_node_set_url(node, url);
+            if (title) cmark_node_set_title(node, title);
+            move_children(node, inlines);
+            free(url);
+            free(title);
+        } else if (strcmp(tag, "Strikeout") == 0 || strcmp(tag, "Superscript") == 0 ||
+                   strcmp(tag, "Subscript") == 0 || strcmp(tag, "Underline") == 0) {
+            /* cmark has no node for these: keep the text between HTML tags */
+            const char *el = strcmp(tag, "Strikeout") == 0 ? "del" :
+                             strcmp(tag, "Superscript") == 0 ? "sup" :
+                             strcmp(tag, "Subscript") == 0 ? "sub" : "u";
+            char html_tag[16];
+            cmark_node *inlines = parse_inlines_array(&ccur);
+            cmark_node *open_tag = cmark_node_new(CMARK_NODE_HTML_INLINE);
+            node = cmark_node_new(CMARK_NODE_HTML_INLINE);
+            if (!inlines || !open_tag || !node) {
+                if (inlines) cmark_node_free(inlines);
+                if (open_tag) cmark_node_free(open_tag);
+                if (node) cmark_node_free(node);
+                free(tag); free(c_buf); ok = 0; break;
+            }
+            snprintf(html_tag, sizeof(html_tag), "<%s>", el);
+            cmark_node_set_literal(open_tag, html_tag);
+            snprintf(html_tag, sizeof(html_tag), "</%s>", el);
+            cmark_node_set_literal(node, html_tag);
+            cmark_node_append_child(dummy, open_tag);
+            move_children(dummy, inlines);
         } else if (strcmp(tag, "Span") == 0) {
             if (!json_match_char(&ccur, '[')) { free(tag); free(c_buf); ok = 0; break; }
             if (!json_skip_value(&ccur)) { free(tag); free(c_buf); ok = 0; break; }
@@ -804,7 +849,8 @@ static cmark_node *parse_block_object(json_cursor *cur) {
     while (1) {
         json_skip_ws(cur);
         if (*cur->s == '}') {
-            /* Only leave the loop when we have both "t" and "c" (handles dkjson "c" before "t") */
+            /* Only leave the loop when we have "t" (handles dkjson "c" before "t") */
+            if (tag && !c_buf) c_buf = strdup("[]"); /* Pandoc writes {"t":"HorizontalRule"} */
             if (tag && c_buf) {
                 cur->s++;
                 break;
@@ -814,7 +860,7 @@ static cmark_node *parse_block_object(json_cursor *cur) {
             return NULL;
         }
         char *key = json_parse_string(cur);
-        if (!key) return NULL;
+        if (!key) { free(tag); free(c_buf); return NULL; }
         if (!json_match_char(cur, ':')) { free(key); free(tag); free(c_buf); return NULL; }
         if (strcmp(key, "t") == 0) {
             tag = json_parse_string(cur);
-- 
2.43.0


From ebfd0e18abbda23f1e2e401ebfba2d4bc3e2f980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:16 +0000
Subject: [PATCH 084/180] fix: \uXXXX escapes in JSON become question marks

---
 src/ast_json.c | 61 +++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 48 insertions(+), 13 deletions(-)

diff --git a/src/ast_json.c b/src/ast_json.c
index 4ea0c1a..880a20e 100644
--- a/src/ast_json.c
+++ b/src/ast_json.c
@@ -432,11 +432,20 @@ static int json_match_char(json_cursor *cur, char ch) {
     return 1;
 }
 
+/* Read four hexadecimal digits; returns -1 when they are not there */
+static long json_hex4(const char *s) {
+    long v = 0;
+    for (int i = 0; i < 4; i++) {
+        if (!isxdigit((unsigned char)s[i])) return -1;
+        v = v * 16 + (isdigit((unsigned char)s[i]) ? s[i] - '0' : tolower((unsigned char)s[i]) - 'a' + 10);
+    }
+    return v;
+}
+
 static char *json_parse_string(json_cursor *cur) {
     json_skip_ws(cur);
     if (*cur->s != '"') return NULL;
     cur->s++; /* skip quote */
-    const char *start = cur->s;
     size_t cap = 64;
     size_t len = 0;
     char *out = (char *)malloc(cap);
@@ -444,6 +453,42 @@ static char *json_parse_string(json_cursor *cur) {
 
     while (*cur->s && *cur->s != '"') {
         unsigned char c = (unsigned char)*cur->s;
+        if (c == '\\' && cur->s[1] == 'u') {
+            /* \uXXXX, or a surrogate pair: store as UTF-8 */
+            long cp = json_hex4(cur->s + 2);
+            if (cp < 0) { free(out); return NULL; }
+            cur->s += 6;
+            if (cp >= 0xD800 && cp <= 0xDBFF && cur->s[0] == '\\' && cur->s[1] == 'u') {
+                long low = json_hex4(cur->s + 2);
+                if (low >= 0xDC00 && low <= 0xDFFF) {
+                    cp = 0x10000 + ((cp - 0xD800) << 10) + (low - 0xDC00);
+                    cur->s += 6;
+                }
+            }
+            if (cp == 0 || (cp >= 0xD800 && cp <= 0xDFFF)) cp = 0xFFFD;
+            if (len + 5 >= cap) {
+                cap *= 2;
+                char *nb = (char *)realloc(out, cap);
+                if (!nb) { free(out); return NULL; }
+                out = nb;
+            }
+            if (cp < 0x80) {
+                out[len++] = (char)cp;
+            } else if (cp < 0x800) {
+                out[len++] = (char)(0xC0 | (cp >> 6));
+                out[len++] = (char)(0x80 | (cp & 0x3F));
+            } else if (cp < 0x10000) {
+                out[len++] = (char)(0xE0 | (cp >> 12));
+                out[len++] = (char)(0x80 | ((cp >> 6) & 0x3F));
+                out[len++] = (char)(0x80 | (cp & 0x3F));
+            } else {
+                out[len++] = (char)(0xF0 | (cp >> 18));
+                out[len++] = (char)(0x80 | ((cp >> 12) & 0x3F));
+                out[len++] = (char)(0x80 | ((cp >> 6) & 0x3F));
+                out[len++] = (char)(0x80 | (cp & 0x3F));
+            }
+            continue;
+        }
         if (c == '\\') {
             cur->s++;
             c = (unsigned char)*cur->s;
@@ -457,21 +502,12 @@ static char *json_parse_string(json_cursor *cur) {
             case 'n':  c = '\n'; break;
             case 'r':  c = '\r'; break;
             case 't':  c = '\t'; break;
-            case 'u':
-                /* For simplicity, skip \uXXXX and store as '?' */
-                cur->s++;
-                for (int i = 0; i < 4 && *cur->s; i++) {
-                    cur->s++;
-                }
-                c = '?';
-                break;
             default:
                 /* Unknown escape; keep as-is */
                 break;
             }
-            /* Advance past the escaped character (for \u we already advanced in the case) */
-            if (c != '?')
-                cur->s++;
+            /* Advance past the escaped character */
+            cur->s++;
         } else {
             cur->s++;
         }
@@ -494,7 +530,6 @@ static char *json_parse_string(json_cursor *cur) {
     }
     cur->s++; /* closing quote */
     out[len] = '\0';
-    (void)start;
     return out;
 }
 
-- 
2.43.0


From a13ba2720c52df01460f8156892d66ad29e8136f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:36 +0000
Subject: [PATCH 085/180] fix: a line before a code block is lost when the
 document has a definition list

---
 src/extensions/definition_list.c | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/extensions/definition_list.c b/src/extensions/definition_list.c
index b5cf41d..02a9015 100644
--- a/src/extensions/definition_list.c
+++ b/src/extensions/definition_list.c
@@ -577,6 +577,14 @@ static int can_contain(cmark_syntax_extension *ext,
  * Process definition lists - convert : syntax to HTML
  * This is a preprocessing approach
  */
+/* Whether the line [start, end) contains "{:" */
+static bool line_has_ial(const char *start, const char *end) {
+    for (const char *c = start; c + 1 < end; c++) {
+        if (c[0] == '{' && c[1] == ':') return true;
+    }
+    return false;
+}
+
 char *apex_process_definition_lists(const char *text, bool unsafe) {
     if (!text) return NULL;
 
@@ -759,6 +767,19 @@ char *apex_process_definition_lists(const char *text, bool unsafe) {
                         remaining -= dl_end_len;
                     }
                     in_def_list = false;
+                    /* A buffered line was no term after all: write it */
+                    if (term_len > 0) {
+                        ENSURE_SPACE((size_t)term_len + 3);
+                        memcpy(write, term_buffer, term_len);
+                        write += term_len;
+                        remaining -= (size_t)term_len;
+                        *write++ = '\n';
+                        remaining--;
+                        if (skipped_blank_after_term) {
+                            *write++ = '\n';
+                            remaining--;
+                        }
+                    }
                     term_len = 0;
                     term_has_blockquote = false;
                     term_blockquote_depth = 0;
@@ -1522,7 +1543,7 @@ char *apex_process_definition_lists(const char *text, bool unsafe) {
                 continue;
             }
             /* Check if line contains IAL syntax - if so, write immediately without buffering */
-            else if (strstr(line_start, "{:") != NULL) {
+            else if (line_has_ial(line_start, line_end)) {
                 /* Contains IAL - don't buffer it */
                 size_t needed = line_length + (*line_end == '\n' ? 1 : 0);
                 /* Need needed + 1 for null terminator */
-- 
2.43.0


From ac2c1faf7c6c5f48733a87577b86d085d3228bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:00 +0000
Subject: [PATCH 086/180] fix: JSON output leaves out strikethrough text,
 tables and footnotes

---
 src/ast_json.c | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/ast_json.c b/src/ast_json.c
index 880a20e..a0818f8 100644
--- a/src/ast_json.c
+++ b/src/ast_json.c
@@ -183,12 +183,19 @@ static int write_inline(apex_json_buf *b, cmark_node *node) {
         break;
     }
     default: {
-        /* Fallback: treat as plain string of its literal (if any) */
-        const char *lit = cmark_node_get_literal(node);
-        if (!lit) lit = "";
-        if (!apex_json_buf_append(b, "{\"t\":\"Str\",\"c\":")) return 0;
-        if (!apex_json_buf_append_escaped_string(b, lit)) return 0;
-        if (!apex_json_buf_append(b, "}")) return 0;
+        if (strcmp(cmark_node_get_type_string(node), "strikethrough") == 0) {
+            if (!apex_json_buf_append(b, "{\"t\":\"Strikeout\",\"c\":")) return 0;
+            if (!write_inlines(b, cmark_node_first_child(node))) return 0;
+            if (!apex_json_buf_append(b, "}")) return 0;
+            break;
+        }
+        /* Fallback: nodes without a Pandoc counterpart are kept as the HTML they render to */
+        char *html = cmark_render_html(node, CMARK_OPT_UNSAFE, NULL);
+        int ok = apex_json_buf_append(b, "{\"t\":\"RawInline\",\"c\":[\"html\",") &&
+                 apex_json_buf_append_escaped_string(b, html ? html : "") &&
+                 apex_json_buf_append(b, "]}");
+        free(html);
+        if (!ok) return 0;
         break;
     }
     }
@@ -349,12 +356,13 @@ static int write_block(apex_json_buf *b, cmark_node *node) {
         break;
     }
     default: {
-        /* Fallback: render paragraph of plain text from this node's literal (if any) */
-        const char *lit = cmark_node_get_literal(node);
-        if (!apex_json_buf_append(b, "{\"t\":\"Para\",\"c\":[")) return 0;
-        if (!apex_json_buf_append(b, "{\"t\":\"Str\",\"c\":")) return 0;
-        if (!apex_json_buf_append_escaped_string(b, lit ? lit : "")) return 0;
-        if (!apex_json_buf_append(b, "}]}")) return 0;
+        /* Fallback: nodes without a counterpart here (tables, footnotes) are kept as the HTML they render to */
+        char *html = cmark_render_html(node, CMARK_OPT_UNSAFE, NULL);
+        int ok = apex_json_buf_append(b, "{\"t\":\"RawBlock\",\"c\":[\"html\",") &&
+                 apex_json_buf_append_escaped_string(b, html ? html : "") &&
+                 apex_json_buf_append(b, "]}");
+        free(html);
+        if (!ok) return 0;
         break;
     }
     }
-- 
2.43.0


From ecd2d458ec87bc5e119d38d4cee458b22821be0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:59 +0000
Subject: [PATCH 087/180] fix: large documents hang in AST filters, and filters
 that do not read them kill apex

---
 src/filters_ast.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/filters_ast.c b/src/filters_ast.c
index 394b543..f86268b 100644
--- a/src/filters_ast.c
+++ b/src/filters_ast.c
@@ -57,16 +57,20 @@ static char *run_single_ast_filter(const char *cmd,
     close(in_pipe[0]);
     close(out_pipe[1]);
 
-    /* Write JSON to child stdin */
+    /* Write JSON to child stdin, from a process of its own: the filter may
+     * write before it has read everything, or exit without reading at all. */
+    pid_t feeder = fork();
+    if (feeder == 0) close(out_pipe[0]);
     size_t json_len = strlen(json_input);
     const char *p = json_input;
     ssize_t remaining = (ssize_t)json_len;
-    while (remaining > 0) {
+    while (feeder <= 0 && remaining > 0) {
         ssize_t written = write(in_pipe[1], p, (size_t)remaining);
         if (written <= 0) break;
         p += written;
         remaining -= written;
     }
+    if (feeder == 0) _exit(0);
     close(in_pipe[1]);
 
     /* Read child's stdout into a growable buffer */
@@ -76,6 +80,7 @@ static char *run_single_ast_filter(const char *cmd,
     if (!buf) {
         close(out_pipe[0]);
         int status;
+        if (feeder > 0) waitpid(feeder, &status, 0);
         waitpid(pid, &status, 0);
         return NULL;
     }
@@ -88,6 +93,7 @@ static char *run_single_ast_filter(const char *cmd,
                 free(buf);
                 close(out_pipe[0]);
                 int status;
+                if (feeder > 0) waitpid(feeder, &status, 0);
                 waitpid(pid, &status, 0);
                 return NULL;
             }
@@ -99,6 +105,7 @@ static char *run_single_ast_filter(const char *cmd,
             free(buf);
             close(out_pipe[0]);
             int status;
+            if (feeder > 0) waitpid(feeder, &status, 0);
             waitpid(pid, &status, 0);
             return NULL;
         }
@@ -108,6 +115,7 @@ static char *run_single_ast_filter(const char *cmd,
     close(out_pipe[0]);
 
     int status;
+    if (feeder > 0) waitpid(feeder, &status, 0);
     if (waitpid(pid, &status, 0) == -1) {
         free(buf);
         return NULL;
-- 
2.43.0


From 148ef7942384278852d7f355286240e819523ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:59 +0000
Subject: [PATCH 088/180] fix: large documents hang in plugins, and plugins
 that do not read them kill apex

---
 src/plugins_env.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/plugins_env.c b/src/plugins_env.c
index 8341695..78e49ff 100644
--- a/src/plugins_env.c
+++ b/src/plugins_env.c
@@ -112,15 +112,19 @@ char *apex_run_external_plugin_command(const char *cmd,
     close(in_pipe[0]);
     close(out_pipe[1]);
 
-    /* Write JSON to child stdin */
+    /* Write JSON to child stdin, from a process of its own: the plugin may
+     * write before it has read everything, or exit without reading at all. */
+    pid_t feeder = fork();
+    if (feeder == 0) close(out_pipe[0]);
     ssize_t to_write = (ssize_t)json_len;
     const char *p = json;
-    while (to_write > 0) {
+    while (feeder <= 0 && to_write > 0) {
         ssize_t written = write(in_pipe[1], p, (size_t)to_write);
         if (written <= 0) break;
         p += written;
         to_write -= written;
     }
+    if (feeder == 0) _exit(0);
     close(in_pipe[1]);
     free(json);
 
@@ -132,6 +136,7 @@ char *apex_run_external_plugin_command(const char *cmd,
         close(out_pipe[0]);
         /* Reap child */
         int status;
+        if (feeder > 0) waitpid(feeder, &status, 0);
         waitpid(pid, &status, 0);
         return NULL;
     }
@@ -144,6 +149,7 @@ char *apex_run_external_plugin_command(const char *cmd,
                 free(buf);
                 close(out_pipe[0]);
                 int status;
+                if (feeder > 0) waitpid(feeder, &status, 0);
                 waitpid(pid, &status, 0);
                 return NULL;
             }
@@ -155,6 +161,7 @@ char *apex_run_external_plugin_command(const char *cmd,
             free(buf);
             close(out_pipe[0]);
             int status;
+            if (feeder > 0) waitpid(feeder, &status, 0);
             waitpid(pid, &status, 0);
             return NULL;
         }
@@ -165,6 +172,7 @@ char *apex_run_external_plugin_command(const char *cmd,
 
     /* Reap child; ignore status for now but ensure no zombies */
     int status;
+    if (feeder > 0) waitpid(feeder, &status, 0);
     waitpid(pid, &status, 0);
 
     buf[size] = '\0';
-- 
2.43.0


From ff1012b8bec69a81923325502a57afc2d262221e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:17 +0000
Subject: [PATCH 089/180] fix: a link at the end of a heading loses its address

---
 src/extensions/header_ids.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/extensions/header_ids.c b/src/extensions/header_ids.c
index 7e6c904..95bcd94 100644
--- a/src/extensions/header_ids.c
+++ b/src/extensions/header_ids.c
@@ -771,6 +771,13 @@ try_trailing_link: {
         return false;
     }
 
+    /* Only [id] itself: in [id](url) and [id][ref] the author asks for a link */
+    int source_len = cmark_node_get_end_column(last) - cmark_node_get_start_column(last) + 1;
+    if (source_len != (int)strlen(link_text) + 2) {
+        free(link_text);
+        return false;
+    }
+
     /* Replace link with text node, set heading id */
     cmark_node *text_replacement = cmark_node_new(CMARK_NODE_TEXT);
     if (!text_replacement) {
-- 
2.43.0


From 91a2253e0318c97dedaaa7ab8e6b21b5ba75919a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:17 +0000
Subject: [PATCH 090/180] fix: strikethrough read from JSON is left out when
 raw HTML is not allowed

---
 src/ast_json.c | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/ast_json.c b/src/ast_json.c
index a0818f8..8d3cb9a 100644
--- a/src/ast_json.c
+++ b/src/ast_json.c
@@ -765,26 +765,23 @@ static cmark_node *parse_inlines_array(json_cursor *cur) {
             free(title);
         } else if (strcmp(tag, "Strikeout") == 0 || strcmp(tag, "Superscript") == 0 ||
                    strcmp(tag, "Subscript") == 0 || strcmp(tag, "Underline") == 0) {
-            /* cmark has no node for these: keep the text between HTML tags */
+            /* cmark has no node for these: a custom node writes the HTML tags */
             const char *el = strcmp(tag, "Strikeout") == 0 ? "del" :
                              strcmp(tag, "Superscript") == 0 ? "sup" :
                              strcmp(tag, "Subscript") == 0 ? "sub" : "u";
             char html_tag[16];
             cmark_node *inlines = parse_inlines_array(&ccur);
-            cmark_node *open_tag = cmark_node_new(CMARK_NODE_HTML_INLINE);
-            node = cmark_node_new(CMARK_NODE_HTML_INLINE);
-            if (!inlines || !open_tag || !node) {
+            node = cmark_node_new(CMARK_NODE_CUSTOM_INLINE);
+            if (!inlines || !node) {
                 if (inlines) cmark_node_free(inlines);
-                if (open_tag) cmark_node_free(open_tag);
                 if (node) cmark_node_free(node);
                 free(tag); free(c_buf); ok = 0; break;
             }
             snprintf(html_tag, sizeof(html_tag), "<%s>", el);
-            cmark_node_set_literal(open_tag, html_tag);
+            cmark_node_set_on_enter(node, html_tag);
             snprintf(html_tag, sizeof(html_tag), "</%s>", el);
-            cmark_node_set_literal(node, html_tag);
-            cmark_node_append_child(dummy, open_tag);
-            move_children(dummy, inlines);
+            cmark_node_set_on_exit(node, html_tag);
+            move_children(node, inlines);
         } else if (strcmp(tag, "Span") == 0) {
             if (!json_match_char(&ccur, '[')) { free(tag); free(c_buf); ok = 0; break; }
             if (!json_skip_value(&ccur)) { free(tag); free(c_buf); ok = 0; break; }
-- 
2.43.0


From 5319d8c5019b613341a95b9dd2fbce1ac30c7903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:49 +0000
Subject: [PATCH 091/180] fix: strikethrough is lost between two AST filters
 when raw HTML is not allowed

---
 src/ast_json.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/ast_json.c b/src/ast_json.c
index 8d3cb9a..40feab6 100644
--- a/src/ast_json.c
+++ b/src/ast_json.c
@@ -183,8 +183,18 @@ static int write_inline(apex_json_buf *b, cmark_node *node) {
         break;
     }
     default: {
-        if (strcmp(cmark_node_get_type_string(node), "strikethrough") == 0) {
-            if (!apex_json_buf_append(b, "{\"t\":\"Strikeout\",\"c\":")) return 0;
+        /* Strikethrough, or what the reader below makes of these Pandoc elements */
+        const char *enter = t == CMARK_NODE_CUSTOM_INLINE ? cmark_node_get_on_enter(node) : NULL;
+        const char *pandoc = NULL;
+        if (strcmp(cmark_node_get_type_string(node), "strikethrough") == 0) pandoc = "Strikeout";
+        else if (enter && strcmp(enter, "<del>") == 0) pandoc = "Strikeout";
+        else if (enter && strcmp(enter, "<sup>") == 0) pandoc = "Superscript";
+        else if (enter && strcmp(enter, "<sub>") == 0) pandoc = "Subscript";
+        else if (enter && strcmp(enter, "<u>") == 0) pandoc = "Underline";
+        if (pandoc) {
+            if (!apex_json_buf_append(b, "{\"t\":\"")) return 0;
+            if (!apex_json_buf_append(b, pandoc)) return 0;
+            if (!apex_json_buf_append(b, "\",\"c\":")) return 0;
             if (!write_inlines(b, cmark_node_first_child(node))) return 0;
             if (!apex_json_buf_append(b, "}")) return 0;
             break;
-- 
2.43.0


From a723f4b14c9fedbc3bd0208661c03b2ed6c97ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:05 +0000
Subject: [PATCH 092/180] fix: a heading that is only bracketed text comes out
 empty

---
 src/extensions/header_ids.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/extensions/header_ids.c b/src/extensions/header_ids.c
index 95bcd94..d543098 100644
--- a/src/extensions/header_ids.c
+++ b/src/extensions/header_ids.c
@@ -712,6 +712,14 @@ bool apex_process_manual_header_id(cmark_node *heading_node) {
     char *manual_id = NULL;
     bool found = apex_extract_manual_header_id(&text_copy, &manual_id);
 
+    /* A heading that is nothing but [text], as in "## [Unreleased]", has that text and no ID */
+    if (found && text_node == cmark_node_first_child(heading_node) &&
+        text[strspn(text, " \t")] == '[' && text_copy && text_copy[strspn(text_copy, " \t")] == '\0') {
+        free(text_copy);
+        free(manual_id);
+        return false;
+    }
+
     if (found && manual_id) {
         /* Store ID in user_data as id="..." */
         char *id_attr = malloc(strlen(manual_id) + 6);  /* id="" + null */
-- 
2.43.0


From 887dc98d097e66c3a4b70c1d5c72c6f5d4080aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:20 +0000
Subject: [PATCH 093/180] fix: a directory is taken for an included file, so a
 line such as "// text" loses its start

---
 src/extensions/includes.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/extensions/includes.c b/src/extensions/includes.c
index c8a3c9d..2be4cc5 100644
--- a/src/extensions/includes.c
+++ b/src/extensions/includes.c
@@ -22,6 +22,10 @@
  * Read file contents
  */
 static char *read_file_contents(const char *filepath) {
+    /* fopen() also succeeds on directories */
+    struct stat st;
+    if (stat(filepath, &st) == 0 && S_ISDIR(st.st_mode)) return NULL;
+
     FILE *fp = fopen(filepath, "rb");
     if (!fp) return NULL;
 
@@ -95,7 +99,7 @@ static char *get_directory(const char *filepath) {
 bool apex_file_exists(const char *filepath) {
     if (!filepath) return false;
     struct stat st;
-    return (stat(filepath, &st) == 0);
+    return (stat(filepath, &st) == 0 && !S_ISDIR(st.st_mode));
 }
 
 /**
-- 
2.43.0


From 3c1f0617701f10a722dc08bdabd5d52c95d6eabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:35 +0000
Subject: [PATCH 094/180] fix: relaxed tables change code, lists, quotes and
 regular tables; tables with one body row lose their header

The pass took fenced and indented code, list items, block quotes, headings,
definitions and footnotes with a pipe in them for table rows, counted escaped
pipes and pipes in code spans, and could not tell its own tables from those
with a header, so that the header of a table with a single body row became a
body row. Headerless tables without a leading pipe were not recognised.
---
 src/apex.c                      |    9 +-
 src/extensions/relaxed_tables.c | 1094 ++++++-------------------------
 src/extensions/relaxed_tables.h |   12 +
 src/html_renderer.c             |   93 +--
 4 files changed, 247 insertions(+), 961 deletions(-)

diff --git a/src/apex.c b/src/apex.c
index 918154d..7b0ff35 100644
--- a/src/apex.c
+++ b/src/apex.c
@@ -5073,6 +5073,12 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
         return NULL;
     }
 
+    /* Only the HTML post-processing knows about the marks of relaxed tables */
+    if (options->relaxed_tables && options->enable_tables &&
+        (options->output_format != APEX_OUTPUT_HTML || options->ast_filter_count > 0)) {
+        apex_clear_relaxed_table_marks(document);
+    }
+
     /* If output format is JSON, emit JSON right after parsing (before AST filters) */
     if (options->output_format == APEX_OUTPUT_JSON) {
         char *json = apex_cmark_to_pandoc_json(document, options);
@@ -5674,8 +5680,7 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
     }
 
     /* Convert thead to tbody for relaxed tables and remove empty thead from headerless tables */
-    /* Only run this when relaxed_tables is enabled, otherwise keep thead as-is */
-    if (html && options->enable_tables && options->relaxed_tables) {
+    if (html && options->enable_tables) {
         PROFILE_START(relaxed_tables_convert);
         char *converted = apex_convert_relaxed_table_headers(html);
         PROFILE_END(relaxed_tables_convert);
diff --git a/src/extensions/relaxed_tables.c b/src/extensions/relaxed_tables.c
index 1fa9cf1..fcdc00a 100644
--- a/src/extensions/relaxed_tables.c
+++ b/src/extensions/relaxed_tables.c
@@ -7,6 +7,8 @@
  */
 
 #include "relaxed_tables.h"
+#include "cmark-gfm-core-extensions.h"
+#include <stdio.h>
 #include <string.h>
 #include <stdlib.h>
 #include <stdbool.h>
@@ -21,59 +23,59 @@
 static int count_columns(const char *line, size_t len) {
     if (!line || len == 0) return -1;
 
-    bool has_pipe = false;
-    int pipe_count = 0;
-
-    /* Skip leading whitespace */
+    /* Skip surrounding whitespace */
     size_t start = 0;
     while (start < len && (line[start] == ' ' || line[start] == '\t')) {
         start++;
     }
+    while (len > start && isspace((unsigned char)line[len - 1])) {
+        len--;
+    }
 
     bool starts_with_pipe = (start < len && line[start] == '|');
+    bool ends_with_pipe = false;
+    int pipe_count = 0;
 
-    /* Count pipes */
     for (size_t i = start; i < len; i++) {
-        if (line[i] == '|') {
-            has_pipe = true;
+        if (line[i] == '\\') {
+            i++;  /* An escaped pipe is cell content */
+        } else if (line[i] == '|') {
             pipe_count++;
-            if (i == start) {
-                starts_with_pipe = true;
+            ends_with_pipe = (i == len - 1 && i > start);
+        } else if (line[i] == '`' || (line[i] == '[' && i + 1 < len && line[i + 1] == '[')) {
+            /* A pipe inside a code span or wiki link: not a table row */
+            char close = line[i] == '`' ? '`' : ']';
+            size_t run = 0;
+            while (i < len && line[i] == (close == '`' ? '`' : '[')) {
+                run++;
+                i++;
             }
-            /* Check if this is the last non-whitespace character */
-            /* Note: ends_with_pipe was set but never used, removed to fix warning */
+            bool has_pipe = false;
+            size_t j = i;
+            while (j < len) {
+                size_t close_run = 0;
+                while (j < len && line[j] == close) {
+                    close_run++;
+                    j++;
+                }
+                if (close_run >= run && (close == ']' || close_run == run)) {
+                    if (has_pipe) return -1;
+                    i = j;
+                    break;
+                }
+                if (j < len && line[j] == '|' && line[j - 1] != '\\') has_pipe = true;
+                if (!close_run) j++;
+            }
+            i--;
         }
     }
 
-    if (!has_pipe) return -1;
-
-    /* Calculate number of columns:
-     * - If line starts with | and ends with |: columns = pipe_count - 1
-     * - If line starts with | but doesn't end with |: columns = pipe_count
-     * - If line doesn't start with | but ends with |: columns = pipe_count
-     * - If line doesn't start or end with |: columns = pipe_count + 1
-     *
-     * Actually, simpler: number of columns = number of pipe-separated segments
-     * | one | two | = 3 segments (empty, one, two, empty) but 2 data columns
-     * one | two = 2 segments = 2 columns
-     * | one | two = 3 segments (empty, one, two) but effectively 2 columns
-     *
-     * For GFM, we want the number of data columns, which is typically:
-     * - If starts with |: pipe_count - 1 (leading pipe creates empty first cell)
-     * - If doesn't start with |: pipe_count + 1
-     *
-     * But actually, for table parsing, we need the separator to match the structure.
-     * Let's use: if starts with |, columns = pipe_count - 1, else columns = pipe_count + 1
-     */
-    if (starts_with_pipe) {
-        /* Leading pipe: number of columns = number of pipes - 1 */
-        /* | one | two | has 3 pipes, 2 columns */
-        return pipe_count - 1;
-    } else {
-        /* No leading pipe: number of columns = number of pipes + 1 */
-        /* one | two has 1 pipe, 2 columns */
-        return pipe_count + 1;
-    }
+    if (pipe_count == 0) return -1;
+
+    /* Number of cells: leading and trailing pipes delimit no further one */
+    int columns = pipe_count + 1 - starts_with_pipe - ends_with_pipe;
+    if (columns < 2 && !starts_with_pipe) return -1;
+    return columns;
 }
 
 /**
@@ -226,36 +228,20 @@ static bool is_table_row(const char *line, size_t len) {
  * Generate a dummy header row (empty cells) for a given number of columns
  * This will be removed in post-processing
  * @param num_columns Number of columns
- * @param starts_with_pipe If true, generate header starting with | to match separator format
  */
-static char *generate_dummy_header_row(int num_columns, bool starts_with_pipe) {
+static char *generate_dummy_header_row(int num_columns) {
     if (num_columns < 1) return NULL;
 
-    /* Calculate size: need space for pipes and spaces */
-    size_t len;
-    if (starts_with_pipe) {
-        /* "| " + num_columns * " | " + "\n" + null */
-        len = 2 + num_columns * 4 + 1 + 1;
-    } else {
-        /* num_columns * " |" + "\n" + null */
-        len = num_columns * 3 + 1 + 1;
-    }
-
-    char *header = malloc(len);
+    /* "|" + num_columns * "  |" + "\n" + null */
+    char *header = malloc((size_t)num_columns * 3 + 3);
     if (!header) return NULL;
 
     char *p = header;
-    if (starts_with_pipe) {
-        *p++ = '|';
-        *p++ = ' ';
-    }
-
+    *p++ = '|';
     for (int i = 0; i < num_columns; i++) {
+        *p++ = ' ';
         *p++ = ' ';
         *p++ = '|';
-        if (i < num_columns - 1 || !starts_with_pipe) {
-            *p++ = ' ';
-        }
     }
 
     *p++ = '\n';
@@ -264,6 +250,54 @@ static char *generate_dummy_header_row(int num_columns, bool starts_with_pipe) {
     return header;
 }
 
+/**
+ * Check if a line opens or closes a fenced code block.
+ * Returns the length of the fence (0 if the line is none) and sets its character.
+ */
+static size_t fence_run(const char *line, size_t len, char *fence_char, bool *bare) {
+    size_t i = 0;
+    while (i < len && (line[i] == ' ' || line[i] == '\t')) i++;
+    if (i >= len || (line[i] != '`' && line[i] != '~')) return 0;
+    *fence_char = line[i];
+    size_t run = 0;
+    while (i < len && line[i] == *fence_char) {
+        run++;
+        i++;
+    }
+    if (run < 3) return 0;
+    *bare = is_blank_line(line + i, len - i);
+    /* The info string of a backtick fence has no backticks */
+    if (*fence_char == '`' && memchr(line + i, '`', len - i)) return 0;
+    return run;
+}
+
+/**
+ * Check if a line starts a block other than a paragraph or table
+ * (heading, block quote, list item, definition, footnote), or is indented code
+ */
+static bool starts_other_block(const char *line, size_t len, bool after_blank) {
+    size_t i = 0;
+    int indent = 0;
+    while (i < len && (line[i] == ' ' || line[i] == '\t')) {
+        indent += line[i] == '\t' ? 4 : 1;
+        i++;
+    }
+    if (i >= len) return false;
+    if (after_blank && indent >= 4) return true;
+    char c = line[i];
+    char next = i + 1 < len ? line[i + 1] : ' ';
+    if (c == '>' || c == '#') return true;
+    if (c == '[' && next == '^') return true;
+    if ((c == '-' || c == '*' || c == '+' || c == ':') && (next == ' ' || next == '\t')) return true;
+    size_t digits = 0;
+    while (i < len && isdigit((unsigned char)line[i])) {
+        digits++;
+        i++;
+    }
+    return digits > 0 && digits < 10 && i + 1 < len && (line[i] == '.' || line[i] == ')') &&
+           (line[i + 1] == ' ' || line[i + 1] == '\t');
+}
+
 /**
  * Process relaxed tables - detect tables without separator rows and insert them
  */
@@ -272,844 +306,144 @@ static char *apex_process_relaxed_tables_impl(const char *text,
                                                void *progress_user_data) {
     (void)progress_callback;
     (void)progress_user_data;
-    
+
     if (!text) return NULL;
 
     size_t text_len = strlen(text);
     if (text_len == 0) return NULL;
 
-    /* Check if input ends with a newline */
-    bool input_ends_with_newline = (text_len > 0 && text[text_len - 1] == '\n');
-
-    /* Allocate output buffer (may grow, but start with 2x input size) */
-    size_t output_capacity = text_len * 2;
-    char *output = malloc(output_capacity);
-    if (!output) return NULL;
-
-    const char *read = text;
-    char *write = output;
-    size_t remaining = output_capacity;
-    size_t output_len = 0;
-
-    /* Track potential table rows */
-    typedef struct {
-        const char *start;
-        size_t len;
-        int columns;
-        bool starts_with_pipe;
-    } table_row;
-
-    table_row *rows = NULL;
-    size_t rows_capacity = 0;
-    size_t rows_count = 0;
-
-    /* Track if we made any changes to avoid expensive strcmp */
-    bool made_changes = false;
-
-    /* Process line by line */
-    while (*read) {
-        const char *line_start = read;
-        const char *line_end = strchr(read, '\n');
-        if (!line_end) {
-            line_end = read + strlen(read);
-        }
-
-        size_t line_len = line_end - line_start;
-        bool has_newline = (*line_end == '\n');
-
-        /* Check if this is a blank line */
-        if (is_blank_line(line_start, line_len)) {
-            /* Blank line: if we have accumulated table rows, process them */
-            if (rows_count >= 2) {
-                /* We have a relaxed table - insert separator after first row */
-                /* First, write all rows except the last one */
-                for (size_t i = 0; i < rows_count; i++) {
-                    /* Write the row */
-                    if (rows[i].len < remaining) {
-                        memcpy(write, rows[i].start, rows[i].len);
-                        write += rows[i].len;
-                        remaining -= rows[i].len;
-                        output_len += rows[i].len;
-
-                        /* Write newline */
-                        if (has_newline && remaining > 0) {
-                            *write++ = '\n';
-                            remaining--;
-                            output_len++;
-                        }
-                    } else {
-                        /* Need to grow buffer */
-                        size_t new_capacity = output_capacity * 2;
-                        char *new_output = realloc(output, new_capacity);
-                        if (!new_output) {
-                            free(output);
-                            free(rows);
-                            return NULL;
-                        }
-                        write = new_output + output_len;
-                        output = new_output;
-                        remaining = new_capacity - output_len;
-                        output_capacity = new_capacity;
-
-                        memcpy(write, rows[i].start, rows[i].len);
-                        write += rows[i].len;
-                        remaining -= rows[i].len;
-                        output_len += rows[i].len;
-
-                        if (has_newline && remaining > 0) {
-                            *write++ = '\n';
-                            remaining--;
-                            output_len++;
-                        }
-                    }
-
-                    /* After first row, insert separator */
-                    if (i == 0) {
-                        made_changes = true;  /* We're inserting a separator, so output will differ */
-                        char *sep = generate_separator_row(rows[0].columns, rows[0].starts_with_pipe);
-                        if (sep) {
-                            size_t sep_len = strlen(sep);
-                            if (sep_len < remaining) {
-                                memcpy(write, sep, sep_len);
-                                write += sep_len;
-                                remaining -= sep_len;
-                                output_len += sep_len;
-                            } else {
-                                /* Need to grow buffer */
-                                size_t new_capacity = output_capacity * 2;
-                                char *new_output = realloc(output, new_capacity);
-                                if (!new_output) {
-                                    free(sep);
-                                    free(output);
-                                    free(rows);
-                                    return NULL;
-                                }
-                                write = new_output + output_len;
-                                output = new_output;
-                                remaining = new_capacity - output_len;
-                                output_capacity = new_capacity;
-
-                                memcpy(write, sep, sep_len);
-                                write += sep_len;
-                                remaining -= sep_len;
-                                output_len += sep_len;
-                            }
-                            free(sep);
-                        }
-                    }
-                }
-
-                /* Reset rows */
-                rows_count = 0;
-
-                /* After outputting table, also write the blank line */
-                if (remaining > 0) {
-                    *write++ = '\n';
-                    remaining--;
-                    output_len++;
-                }
-            } else {
-                /* No table accumulated, just write the blank line */
-                if (line_len < remaining) {
-                    memcpy(write, line_start, line_len);
-                    write += line_len;
-                    remaining -= line_len;
-                    output_len += line_len;
-
-                    if (has_newline && remaining > 0) {
-                        *write++ = '\n';
-                        remaining--;
-                        output_len++;
-                    }
-                } else {
-                    /* Need to grow buffer */
-                    size_t new_capacity = output_capacity * 2;
-                    char *new_output = realloc(output, new_capacity);
-                    if (!new_output) {
-                        free(output);
-                        free(rows);
-                        return NULL;
-                    }
-                    write = new_output + output_len;
-                    output = new_output;
-                    remaining = new_capacity - output_len;
-                    output_capacity = new_capacity;
-
-                    memcpy(write, line_start, line_len);
-                    write += line_len;
-                    remaining -= line_len;
-                    output_len += line_len;
-
-                    if (has_newline && remaining > 0) {
-                        *write++ = '\n';
-                        remaining--;
-                        output_len++;
-                    }
-                }
-            }
-
-            /* Move to next line */
-            read = line_end;
-            if (has_newline) read++;
-            continue;
-        }
-
-        /* Check if this is a separator row */
-        if (is_separator_row(line_start, line_len)) {
-            /* Separator row: if we have accumulated rows, write them as-is */
-            if (rows_count > 0) {
-                for (size_t i = 0; i < rows_count; i++) {
-                    if (rows[i].len < remaining) {
-                        memcpy(write, rows[i].start, rows[i].len);
-                        write += rows[i].len;
-                        remaining -= rows[i].len;
-                        output_len += rows[i].len;
-
-                        if (has_newline && remaining > 0) {
-                            *write++ = '\n';
-                            remaining--;
-                            output_len++;
-                        }
-                    } else {
-                        /* Need to grow buffer */
-                        size_t new_capacity = output_capacity * 2;
-                        char *new_output = realloc(output, new_capacity);
-                        if (!new_output) {
-                            free(output);
-                            free(rows);
-                            return NULL;
-                        }
-                        write = new_output + output_len;
-                        output = new_output;
-                        remaining = new_capacity - output_len;
-                        output_capacity = new_capacity;
-
-                        memcpy(write, rows[i].start, rows[i].len);
-                        write += rows[i].len;
-                        remaining -= rows[i].len;
-                        output_len += rows[i].len;
-
-                        if (has_newline && remaining > 0) {
-                            *write++ = '\n';
-                            remaining--;
-                            output_len++;
-                        }
-                    }
-                }
-                rows_count = 0;
-            }
-
-            /* Write the separator row */
-            if (line_len < remaining) {
-                memcpy(write, line_start, line_len);
-                write += line_len;
-                remaining -= line_len;
-                output_len += line_len;
-
-                if (has_newline && remaining > 0) {
-                    *write++ = '\n';
-                    remaining--;
-                    output_len++;
-                }
-            } else {
-                /* Need to grow buffer */
-                size_t new_capacity = output_capacity * 2;
-                char *new_output = realloc(output, new_capacity);
-                if (!new_output) {
-                    free(output);
-                    free(rows);
-                    return NULL;
-                }
-                write = new_output + output_len;
-                output = new_output;
-                remaining = new_capacity - output_len;
-                output_capacity = new_capacity;
-
-                memcpy(write, line_start, line_len);
-                write += line_len;
-                remaining -= line_len;
-                output_len += line_len;
-
-                if (has_newline && remaining > 0) {
-                    *write++ = '\n';
-                    remaining--;
-                    output_len++;
-                }
-            }
-
-            read = line_end;
-            if (has_newline) read++;
-            continue;
-        }
-
-        /* Check if this is a horizontal rule - skip it entirely */
-        if (is_horizontal_rule(line_start, line_len)) {
-            /* Write horizontal rule as-is and reset accumulated rows */
-            if (rows_count > 0) {
-                /* Write accumulated rows first */
-                for (size_t i = 0; i < rows_count; i++) {
-                    if (rows[i].len < remaining) {
-                        memcpy(write, rows[i].start, rows[i].len);
-                        write += rows[i].len;
-                        remaining -= rows[i].len;
-                        output_len += rows[i].len;
-
-                        if (has_newline && remaining > 0) {
-                            *write++ = '\n';
-                            remaining--;
-                            output_len++;
-                        }
-                    } else {
-                        size_t new_capacity = output_capacity * 2;
-                        char *new_output = realloc(output, new_capacity);
-                        if (!new_output) {
-                            free(output);
-                            free(rows);
-                            return NULL;
-                        }
-                        write = new_output + output_len;
-                        output = new_output;
-                        remaining = new_capacity - output_len;
-                        output_capacity = new_capacity;
-
-                        memcpy(write, rows[i].start, rows[i].len);
-                        write += rows[i].len;
-                        remaining -= rows[i].len;
-                        output_len += rows[i].len;
-
-                        if (has_newline && remaining > 0) {
-                            *write++ = '\n';
-                            remaining--;
-                            output_len++;
-                        }
-                    }
-                }
-                rows_count = 0;
-            }
-
-            /* Write horizontal rule as-is */
-            if (line_len < remaining) {
-                memcpy(write, line_start, line_len);
-                write += line_len;
-                remaining -= line_len;
-                output_len += line_len;
-
-                if (has_newline && remaining > 0) {
-                    *write++ = '\n';
-                    remaining--;
-                    output_len++;
-                }
-            } else {
-                size_t new_capacity = output_capacity * 2;
-                char *new_output = realloc(output, new_capacity);
-                if (!new_output) {
-                    free(output);
-                    free(rows);
-                    return NULL;
-                }
-                write = new_output + output_len;
-                output = new_output;
-                remaining = new_capacity - output_len;
-                output_capacity = new_capacity;
-
-                memcpy(write, line_start, line_len);
-                write += line_len;
-                remaining -= line_len;
-                output_len += line_len;
-
-                if (has_newline && remaining > 0) {
-                    *write++ = '\n';
-                    remaining--;
-                    output_len++;
-                }
-            }
-
-            read = line_end;
-            if (has_newline) read++;
-            continue;
-        }
-
-        /* Check if this line contains a pipe (potential table row) */
-        const char *p = line_start;
-        while (p < line_end && (*p == ' ' || *p == '\t')) {
-            p++;
+    char *output = NULL;            /* allocated with the first table found */
+    size_t output_len = 0, output_capacity = 0;
+    const char *copied = text;      /* everything before is in the output */
+
+    /* The rows of the table that may be in progress */
+    const char *first_row = NULL;
+    const char *second_row = NULL;
+    int columns = 0;
+
+    bool in_regular_table = false;
+    bool prev_blank = true;
+    size_t fence_len = 0;
+    char fence_char = 0;
+
+    const char *line = text;
+    while (first_row || *line) {
+        const char *line_end = strchr(line, '\n');
+        if (!line_end) line_end = line + strlen(line);
+        const char *next_line = *line_end == '\n' ? line_end + 1 : line_end;
+        size_t line_len = line_end - line;
+        bool end_of_text = *line == '\0';
+        bool blank = end_of_text || is_blank_line(line, line_len);
+        int line_columns = -1;
+        bool plain_rows = false;    /* the rows so far are not a relaxed table */
+
+        char run_char = 0;
+        bool bare = false;
+        size_t run = blank ? 0 : fence_run(line, line_len, &run_char, &bare);
+
+        if (fence_len) {
+            if (run >= fence_len && run_char == fence_char && bare) fence_len = 0;
+        } else if (run) {
+            fence_len = run;
+            fence_char = run_char;
+            in_regular_table = false;
+        } else if (blank) {
+            in_regular_table = false;
+        } else if (is_separator_row(line, line_len)) {
+            /* The rows before have their separator */
+            in_regular_table = true;
+            plain_rows = true;
+        } else if (is_horizontal_rule(line, line_len)) {
+            plain_rows = true;
+        } else if (!in_regular_table && !starts_other_block(line, line_len, prev_blank)) {
+            line_columns = count_columns(line, line_len);
         }
-        bool starts_with_pipe = (p < line_end && *p == '|');
-
-        /* Check if this is a separator row - if so, skip relaxed table processing for previous rows */
-        if (is_separator_row(line_start, line_len)) {
-            /* Separator row found - if we have accumulated rows, they're already a valid table */
-            /* Write them as-is and reset */
-            if (rows_count > 0) {
-                for (size_t i = 0; i < rows_count; i++) {
-                    if (rows[i].len < remaining) {
-                        memcpy(write, rows[i].start, rows[i].len);
-                        write += rows[i].len;
-                        remaining -= rows[i].len;
-                        output_len += rows[i].len;
-
-                        if (has_newline && remaining > 0) {
-                            *write++ = '\n';
-                            remaining--;
-                            output_len++;
-                        }
-                    } else {
-                        size_t new_capacity = output_capacity * 2;
-                        char *new_output = realloc(output, new_capacity);
-                        if (!new_output) {
-                            free(output);
-                            free(rows);
-                            return NULL;
-                        }
-                        write = new_output + output_len;
-                        output = new_output;
-                        remaining = new_capacity - output_len;
-                        output_capacity = new_capacity;
-
-                        memcpy(write, rows[i].start, rows[i].len);
-                        write += rows[i].len;
-                        remaining -= rows[i].len;
-                        output_len += rows[i].len;
-
-                        if (has_newline && remaining > 0) {
-                            *write++ = '\n';
-                            remaining--;
-                            output_len++;
-                        }
-                    }
-                }
-                rows_count = 0;
-            }
-
-            /* Write the separator row */
-            if (line_len < remaining) {
-                memcpy(write, line_start, line_len);
-                write += line_len;
-                remaining -= line_len;
-                output_len += line_len;
-
-                if (has_newline && remaining > 0) {
-                    *write++ = '\n';
-                    remaining--;
-                    output_len++;
-                }
-            } else {
-                size_t new_capacity = output_capacity * 2;
-                char *new_output = realloc(output, new_capacity);
-                if (!new_output) {
-                    free(output);
-                    free(rows);
-                    return NULL;
-                }
-                write = new_output + output_len;
-                output = new_output;
-                remaining = new_capacity - output_len;
-                output_capacity = new_capacity;
-
-                memcpy(write, line_start, line_len);
-                write += line_len;
-                remaining -= line_len;
-                output_len += line_len;
-
-                if (has_newline && remaining > 0) {
-                    *write++ = '\n';
-                    remaining--;
-                    output_len++;
-                }
-            }
-
-            read = line_end;
-            if (has_newline) read++;
-            continue;
-        }
-
-        /* Process rows with or without leading pipes - both need separators if missing */
-        int columns = count_columns(line_start, line_len);
-        if (columns > 0) {
-            /* Potential table row - add to accumulator */
-            if (rows_count == 0) {
-                /* First row - allocate array */
-                rows_capacity = 16;
-                rows = malloc(sizeof(table_row) * rows_capacity);
-                if (!rows) {
-                    free(output);
-                    return NULL;
-                }
-            } else if (rows_count >= rows_capacity) {
-                /* Grow array */
-                rows_capacity *= 2;
-                table_row *new_rows = realloc(rows, sizeof(table_row) * rows_capacity);
-                if (!new_rows) {
-                    free(output);
-                    free(rows);
-                    return NULL;
-                }
-                rows = new_rows;
-            }
 
-            /* Check if columns match previous rows */
-            if (rows_count > 0 && rows[0].columns != columns) {
-                /* Column count mismatch - write accumulated rows and start fresh */
-                for (size_t i = 0; i < rows_count; i++) {
-                    if (rows[i].len < remaining) {
-                        memcpy(write, rows[i].start, rows[i].len);
-                        write += rows[i].len;
-                        remaining -= rows[i].len;
-                        output_len += rows[i].len;
-
-                        if (has_newline && remaining > 0) {
-                            *write++ = '\n';
-                            remaining--;
-                            output_len++;
-                        }
-                    } else {
-                        /* Need to grow buffer */
-                        size_t new_capacity = output_capacity * 2;
-                        char *new_output = realloc(output, new_capacity);
-                        if (!new_output) {
-                            free(output);
-                            free(rows);
-                            return NULL;
-                        }
-                        write = new_output + output_len;
-                        output = new_output;
-                        remaining = new_capacity - output_len;
-                        output_capacity = new_capacity;
-
-                        memcpy(write, rows[i].start, rows[i].len);
-                        write += rows[i].len;
-                        remaining -= rows[i].len;
-                        output_len += rows[i].len;
-
-                        if (has_newline && remaining > 0) {
-                            *write++ = '\n';
-                            remaining--;
-                            output_len++;
-                        }
-                    }
+        if (first_row && line_columns != columns) {
+            if (second_row && !plain_rows) {
+                /* A relaxed table: mark its first row and insert a separator after it */
+                const char *cell = first_row;
+                while (*cell == ' ' || *cell == '\t') cell++;
+                bool starts_with_pipe = *cell == '|';
+                int indent = (int)(cell - first_row);
+                if (starts_with_pipe) {
+                    cell++;
+                    while (*cell == ' ' || *cell == '\t') cell++;
                 }
-                rows_count = 0;
-            }
-
-            /* Add this row to accumulator */
-            rows[rows_count].start = line_start;
-            rows[rows_count].len = line_len;
-            rows[rows_count].columns = columns;
-            rows[rows_count].starts_with_pipe = starts_with_pipe;
-            rows_count++;
-
-            /* Don't write yet - wait for blank line or separator */
-            read = line_end;
-            if (has_newline) read++;
-            continue;
-        }
-
-        /* Not a table row - if we have accumulated rows, write them first */
-        if (rows_count >= 2) {
-            /* We have a relaxed table - insert separator after first row */
-            for (size_t i = 0; i < rows_count; i++) {
-                if (rows[i].len < remaining) {
-                    memcpy(write, rows[i].start, rows[i].len);
-                    write += rows[i].len;
-                    remaining -= rows[i].len;
-                    output_len += rows[i].len;
-
-                    if (has_newline && remaining > 0) {
-                        *write++ = '\n';
-                        remaining--;
-                        output_len++;
-                    }
-                } else {
-                    /* Need to grow buffer */
-                    size_t new_capacity = output_capacity * 2;
-                    char *new_output = realloc(output, new_capacity);
-                    if (!new_output) {
+                char *sep = generate_separator_row(columns, starts_with_pipe);
+                size_t needed = output_len + (size_t)(second_row - copied) + indent +
+                                sizeof(APEX_RELAXED_TABLE_MARK) + (sep ? strlen(sep) : 0) + 4;
+                if (sep && (!output || needed > output_capacity)) {
+                    output_capacity = needed * 2 + text_len;
+                    char *grown = realloc(output, output_capacity);
+                    if (!grown) {
+                        free(sep);
                         free(output);
-                        free(rows);
                         return NULL;
                     }
-                    write = new_output + output_len;
-                    output = new_output;
-                    remaining = new_capacity - output_len;
-                    output_capacity = new_capacity;
-
-                    memcpy(write, rows[i].start, rows[i].len);
-                    write += rows[i].len;
-                    remaining -= rows[i].len;
-                    output_len += rows[i].len;
-
-                    if (has_newline && remaining > 0) {
-                        *write++ = '\n';
-                        remaining--;
-                        output_len++;
-                    }
-                }
-
-                /* After first row, insert separator */
-                if (i == 0) {
-                    made_changes = true;  /* We're inserting a separator, so output will differ */
-                    char *sep = generate_separator_row(rows[0].columns, rows[0].starts_with_pipe);
-                    if (sep) {
-                        size_t sep_len = strlen(sep);
-                        if (sep_len < remaining) {
-                            memcpy(write, sep, sep_len);
-                            write += sep_len;
-                            remaining -= sep_len;
-                            output_len += sep_len;
-                        } else {
-                            /* Need to grow buffer */
-                            size_t new_capacity = output_capacity * 2;
-                            char *new_output = realloc(output, new_capacity);
-                            if (!new_output) {
-                                free(sep);
-                                free(output);
-                                free(rows);
-                                return NULL;
-                            }
-                            write = new_output + output_len;
-                            output = new_output;
-                            remaining = new_capacity - output_len;
-                            output_capacity = new_capacity;
-
-                            memcpy(write, sep, sep_len);
-                            write += sep_len;
-                            remaining -= sep_len;
-                            output_len += sep_len;
-                        }
-                        free(sep);
-                    }
-                }
-            }
-            rows_count = 0;
-        } else if (rows_count > 0) {
-            /* Only one row - not a table, write it as-is */
-            if (rows[0].len < remaining) {
-                memcpy(write, rows[0].start, rows[0].len);
-                write += rows[0].len;
-                remaining -= rows[0].len;
-                output_len += rows[0].len;
-
-                if (has_newline && remaining > 0) {
-                    *write++ = '\n';
-                    remaining--;
-                    output_len++;
-                }
-            } else {
-                /* Need to grow buffer */
-                size_t new_capacity = output_capacity * 2;
-                char *new_output = realloc(output, new_capacity);
-                if (!new_output) {
-                    free(output);
-                    free(rows);
-                    return NULL;
-                }
-                write = new_output + output_len;
-                output = new_output;
-                remaining = new_capacity - output_len;
-                output_capacity = new_capacity;
-
-                memcpy(write, rows[0].start, rows[0].len);
-                write += rows[0].len;
-                remaining -= rows[0].len;
-                output_len += rows[0].len;
-
-                if (has_newline && remaining > 0) {
-                    *write++ = '\n';
-                    remaining--;
-                    output_len++;
+                    output = grown;
                 }
-            }
-            rows_count = 0;
-        }
-
-        /* Write this line as-is */
-        if (line_len < remaining) {
-            memcpy(write, line_start, line_len);
-            write += line_len;
-            remaining -= line_len;
-            output_len += line_len;
-
-            if (has_newline && remaining > 0) {
-                *write++ = '\n';
-                remaining--;
-                output_len++;
-            }
-        } else {
-            /* Need to grow buffer */
-            size_t new_capacity = output_capacity * 2;
-            char *new_output = realloc(output, new_capacity);
-            if (!new_output) {
-                free(output);
-                free(rows);
-                return NULL;
-            }
-            write = new_output + output_len;
-            output = new_output;
-            remaining = new_capacity - output_len;
-            output_capacity = new_capacity;
-
-            memcpy(write, line_start, line_len);
-            write += line_len;
-            remaining -= line_len;
-            output_len += line_len;
-
-            if (has_newline && remaining > 0) {
-                *write++ = '\n';
-                remaining--;
-                output_len++;
-            }
-        }
-
-        read = line_end;
-        if (has_newline) read++;
-    }
-
-    /* Handle any remaining accumulated rows at end of file */
-    if (rows_count >= 2) {
-        /* We have a relaxed table - insert separator after first row */
-        for (size_t i = 0; i < rows_count; i++) {
-            if (rows[i].len < remaining) {
-                memcpy(write, rows[i].start, rows[i].len);
-                write += rows[i].len;
-                remaining -= rows[i].len;
-                output_len += rows[i].len;
-
-                *write++ = '\n';
-                remaining--;
-                output_len++;
-            } else {
-                /* Need to grow buffer */
-                size_t new_capacity = output_capacity * 2;
-                char *new_output = realloc(output, new_capacity);
-                if (!new_output) {
-                    free(output);
-                    free(rows);
-                    return NULL;
-                }
-                write = new_output + output_len;
-                output = new_output;
-                remaining = new_capacity - output_len;
-                output_capacity = new_capacity;
-
-                memcpy(write, rows[i].start, rows[i].len);
-                write += rows[i].len;
-                remaining -= rows[i].len;
-                output_len += rows[i].len;
-
-                *write++ = '\n';
-                remaining--;
-                output_len++;
-            }
-
-            /* After first row, insert separator */
-            if (i == 0) {
-                char *sep = generate_separator_row(rows[0].columns, rows[0].starts_with_pipe);
                 if (sep) {
-                    size_t sep_len = strlen(sep);
-                    if (sep_len < remaining) {
-                        memcpy(write, sep, sep_len);
-                        write += sep_len;
-                        remaining -= sep_len;
-                        output_len += sep_len;
-                    } else {
-                        /* Need to grow buffer */
-                        size_t new_capacity = output_capacity * 2;
-                        char *new_output = realloc(output, new_capacity);
-                        if (!new_output) {
-                            free(sep);
-                            free(output);
-                            free(rows);
-                            return NULL;
-                        }
-                        write = new_output + output_len;
-                        output = new_output;
-                        remaining = new_capacity - output_len;
-                        output_capacity = new_capacity;
-
-                        memcpy(write, sep, sep_len);
-                        write += sep_len;
-                        remaining -= sep_len;
-                        output_len += sep_len;
-                    }
+                    output_len += sprintf(output + output_len, "%.*s%s %.*s%.*s%s",
+                                          (int)(cell - copied), copied, APEX_RELAXED_TABLE_MARK,
+                                          (int)(second_row - cell), cell, indent, first_row, sep);
+                    copied = second_row;
                     free(sep);
                 }
             }
+            first_row = second_row = NULL;
         }
-    } else if (rows_count == 1) {
-        /* Only one row - not a table, write it as-is */
-        if (rows[0].len < remaining) {
-            memcpy(write, rows[0].start, rows[0].len);
-            write += rows[0].len;
-            remaining -= rows[0].len;
-            output_len += rows[0].len;
-
-            /* Only add newline if input ended with one */
-            if (input_ends_with_newline && remaining > 0) {
-                *write++ = '\n';
-                remaining--;
-                output_len++;
-            }
-        } else {
-            /* Need to grow buffer */
-            size_t new_capacity = output_capacity * 2;
-            char *new_output = realloc(output, new_capacity);
-            if (!new_output) {
-                free(output);
-                free(rows);
-                return NULL;
-            }
-            write = new_output + output_len;
-            output = new_output;
-            remaining = new_capacity - output_len;
-            output_capacity = new_capacity;
-
-            memcpy(write, rows[0].start, rows[0].len);
-            write += rows[0].len;
-            remaining -= rows[0].len;
-            output_len += rows[0].len;
-
-            /* Only add newline if input ended with one */
-            if (input_ends_with_newline && remaining > 0) {
-                *write++ = '\n';
-                remaining--;
-                output_len++;
+
+        if (line_columns > 0) {
+            if (!first_row) {
+                first_row = line;
+                columns = line_columns;
+            } else if (!second_row) {
+                second_row = line;
             }
         }
-    }
 
-    free(rows);
-
-    /* Null-terminate */
-    if (remaining > 0) {
-        *write = '\0';
-    } else {
-        /* Need one more byte */
-        size_t new_capacity = output_capacity + 1;
-        char *new_output = realloc(output, new_capacity);
-        if (!new_output) {
-            free(output);
-            return NULL;
-        }
-        new_output[output_len] = '\0';
-        output = new_output;
+        prev_blank = blank;
+        line = next_line;
     }
 
-    /* Check if we made any changes */
-    /* Fast path: if we made no changes and lengths match, skip expensive strcmp */
-    if (!made_changes && text_len == output_len) {
-        free(output);
-        return NULL;  /* No changes */
-    }
-    
-    /* If we made changes, output definitely differs, return it */
-    /* If lengths differ, output definitely differs, return it */
-    /* Only do strcmp if we're not sure (shouldn't happen with proper made_changes tracking) */
-    if (text_len == output_len && strcmp(text, output) == 0) {
+    if (!output) return NULL;  /* No changes */
+
+    size_t rest = strlen(copied);
+    char *grown = realloc(output, output_len + rest + 1);
+    if (!grown) {
         free(output);
-        return NULL;  /* No changes */
+        return NULL;
     }
+    memcpy(grown + output_len, copied, rest + 1);
+    return grown;
+}
 
-    return output;
+/**
+ * Remove the marks of relaxed tables from a parsed document
+ */
+void apex_clear_relaxed_table_marks(cmark_node *document) {
+    if (!document) return;
+
+    size_t mark_len = strlen(APEX_RELAXED_TABLE_MARK);
+    cmark_iter *iter = cmark_iter_new(document);
+    cmark_event_type event;
+    while ((event = cmark_iter_next(iter)) != CMARK_EVENT_DONE) {
+        cmark_node *row = cmark_iter_get_node(iter);
+        if (event != CMARK_EVENT_ENTER || strcmp(cmark_node_get_type_string(row), "table_row") != 0) continue;
+        cmark_node *cell = cmark_node_first_child(row);
+        cmark_node *text = cell ? cmark_node_first_child(cell) : NULL;
+        if (!text || cmark_node_get_type(text) != CMARK_NODE_TEXT) continue;
+        const char *literal = cmark_node_get_literal(text);
+        if (!literal || strncmp(literal, APEX_RELAXED_TABLE_MARK, mark_len) != 0) continue;
+        literal += mark_len;
+        if (*literal == ' ') literal++;
+        char *rest = strdup(literal);
+        if (rest) cmark_node_set_literal(text, rest);
+        free(rest);
+        cmark_gfm_extensions_set_table_row_is_header(row, 0);
+    }
+    cmark_iter_free(iter);
 }
 
 /**
@@ -1190,13 +524,7 @@ char *apex_process_headerless_tables(const char *text) {
                 /* We need to insert a dummy header row before the separator */
                 int num_columns = count_columns(line_start, line_len);
                 if (num_columns > 0) {
-                    /* Check if separator starts with pipe to match format */
-                    size_t start = 0;
-                    while (start < line_len && (line_start[start] == ' ' || line_start[start] == '\t')) {
-                        start++;
-                    }
-                    bool starts_with_pipe = (start < line_len && line_start[start] == '|');
-                    char *dummy_header = generate_dummy_header_row(num_columns, starts_with_pipe);
+                    char *dummy_header = generate_dummy_header_row(num_columns);
 
                     if (dummy_header) {
                         made_changes = true;  /* We're inserting a header, so output will differ */
@@ -1229,8 +557,8 @@ char *apex_process_headerless_tables(const char *text) {
         }
 
         /* Copy the current line to output */
-        if (line_len + 1 > remaining) {
-            output_capacity *= 2;
+        if (line_len + 2 > remaining) {
+            output_capacity = output_capacity * 2 + line_len;
             char *new_output = realloc(output, output_capacity);
             if (!new_output) {
                 free(output);
diff --git a/src/extensions/relaxed_tables.h b/src/extensions/relaxed_tables.h
index f47e3f2..66d0e19 100644
--- a/src/extensions/relaxed_tables.h
+++ b/src/extensions/relaxed_tables.h
@@ -12,10 +12,16 @@
 #ifndef APEX_RELAXED_TABLES_H
 #define APEX_RELAXED_TABLES_H
 
+#include "cmark-gfm.h"
+
 #ifdef __cplusplus
 extern "C" {
 #endif
 
+/* Put in the first cell of a relaxed table (a Unicode noncharacter), so that its first row
+ * can be told from the header row of a regular table later on */
+#define APEX_RELAXED_TABLE_MARK "\xEF\xB7\x90"
+
 /**
  * Process relaxed tables - detect tables without separator rows and insert them
  * @param text Input markdown text
@@ -23,6 +29,12 @@ extern "C" {
  */
 char *apex_process_relaxed_tables(const char *text);
 
+/**
+ * Remove the marks of relaxed tables from a parsed document and make their first rows
+ * ordinary ones (for everything but HTML output, where apex_convert_relaxed_table_headers does)
+ */
+void apex_clear_relaxed_table_marks(cmark_node *document);
+
 /**
  * Process headerless tables - detect separator rows without header rows and insert dummy headers
  * This allows alignment to be applied to tables that start with a separator row
diff --git a/src/html_renderer.c b/src/html_renderer.c
index 23314c8..da5dffa 100644
--- a/src/html_renderer.c
+++ b/src/html_renderer.c
@@ -3,6 +3,7 @@
  * Implementation
  */
 
+#include "extensions/relaxed_tables.h"
 #include "html_renderer.h"
 #include "table.h"  /* For CMARK_NODE_TABLE */
 #include "extensions/header_ids.h"
@@ -1622,14 +1623,7 @@ static bool cell_contains_only_dashes(const char *cell_start, const char *cell_e
  * Converts <thead><tr><th>...</th></tr></thead> to <tbody><tr><td>...</td></tr></tbody>
  * ONLY for tables that were created from relaxed table input (no separator rows in original)
  *
- * Strategy: Check if there's a separator row (with em dashes) in the tbody.
- * - If there IS a separator row in tbody → regular table (keep thead)
- * - If there is NO separator row in tbody → relaxed table (convert thead to tbody)
- *
- * This works because:
- * - Regular tables: separator row is in tbody (between header and data)
- * - Relaxed tables: separator row was inserted by preprocessing, but we removed it
- *   (or it was converted to em dashes and removed)
+ * Strategy: apex_process_relaxed_tables() puts a mark in the first cell of the tables it makes.
  */
 char *apex_convert_relaxed_table_headers(const char *html) {
     if (!html) return NULL;
@@ -1672,14 +1666,12 @@ char *apex_convert_relaxed_table_headers(const char *html) {
             if (thead_end) {
                 /* Check if thead contains only empty cells (dummy headers from headerless tables) */
                 bool all_cells_empty = true;
-                bool found_any_th = false;
 
                 /* Search for all <th> or <th ...> tags in thead */
                 const char *search = after_thead;
                 while (search < thead_end) {
                     /* Check for <th> without attributes */
                     if (strncmp(search, "<th>", 4) == 0) {
-                        found_any_th = true;
                         const char *th_end = strstr(search, "</th>");
                         if (!th_end || th_end >= thead_end) {
                             all_cells_empty = false;
@@ -1703,7 +1695,6 @@ char *apex_convert_relaxed_table_headers(const char *html) {
                     /* Check for <th with attributes */
                     else if (strncmp(search, "<th", 3) == 0 &&
                              (search[3] == ' ' || search[3] == '\t' || search[3] == '>')) {
-                        found_any_th = true;
                         /* Find the closing > of opening tag */
                         const char *tag_end = strchr(search, '>');
                         if (!tag_end || tag_end >= thead_end) {
@@ -1734,76 +1725,23 @@ char *apex_convert_relaxed_table_headers(const char *html) {
                     }
                 }
 
-                /* If we found th cells and they're all empty, remove the entire thead */
-                if (found_any_th && all_cells_empty) {
+                /* If we found no th cell with content, remove the entire thead */
+                if (all_cells_empty) {
                     read = thead_end + 8; /* Skip <thead>...</thead> */
                     continue;
                 }
             }
 
             if (thead_end && tbody_start && thead_end < tbody_start) {
-                /* Check if tbody contains a separator row (row with only em dashes) */
-                bool has_separator_row = false;
-                const char *tbody_end = strstr(tbody_start, "</tbody>");
-                const char *table_end = strstr(tbody_start, "</table>");
-
-                if (tbody_end && (!table_end || tbody_end < table_end)) {
-                    /* Look for rows with only em dashes in tbody */
-                    const char *search = tbody_start;
-                    while (search < tbody_end) {
-                        if (strncmp(search, "<tr>", 4) == 0) {
-                            const char *tr_end = strstr(search, "</tr>");
-                            if (tr_end && tr_end < tbody_end) {
-                                /* Check if this row contains only em dashes */
-                                bool row_is_separator = true;
-                                const char *cell_start = search + 4;
-                                while (cell_start < tr_end) {
-                                    if (strncmp(cell_start, "<td", 3) == 0 || strncmp(cell_start, "<th", 3) == 0) {
-                                        const char *tag_end = strstr(cell_start, ">");
-                                        if (!tag_end) break;
-                                        tag_end++;
-
-                                        const char *cell_end = NULL;
-                                        if (strncmp(cell_start, "<td", 3) == 0) {
-                                            cell_end = strstr(tag_end, "</td>");
-                                            if (cell_end) cell_end += 5;
-                                        } else {
-                                            cell_end = strstr(tag_end, "</th>");
-                                            if (cell_end) cell_end += 5;
-                                        }
-
-                                        if (cell_end && cell_end <= tr_end) {
-                                            if (!cell_contains_only_dashes(tag_end, cell_end - 5)) {
-                                                row_is_separator = false;
-                                                break;
-                                            }
-                                            cell_start = cell_end;
-                                        } else {
-                                            break;
-                                        }
-                                    } else {
-                                        cell_start++;
-                                    }
-                                }
-
-                                if (row_is_separator) {
-                                    has_separator_row = true;
-                                    break;
-                                }
-
-                                search = tr_end + 5;
-                            } else {
-                                break;
-                            }
-                        } else {
-                            search++;
-                        }
-                    }
-                }
-
-                /* If there's a separator row, it's a regular table - keep thead */
-                /* If there's no separator row, it's a relaxed table - convert thead to tbody */
-                if (!has_separator_row) {
+                /* The first cell of a relaxed table carries a mark */
+                const char *mark = after_thead;
+                while (mark < thead_end && strncmp(mark, "<th", 3) != 0) mark++;
+                mark = strchr(mark, '>');
+                if (mark) mark++;
+                size_t mark_len = strlen(APEX_RELAXED_TABLE_MARK);
+
+                /* Without the mark, it's a regular table - keep thead */
+                if (mark && strncmp(mark, APEX_RELAXED_TABLE_MARK, mark_len) == 0) {
                     /* Convert thead to tbody */
                     memcpy(write, "<tbody>", 7);
                     write += 7;
@@ -1812,7 +1750,10 @@ char *apex_convert_relaxed_table_headers(const char *html) {
 
                     /* Convert <th> to <td> and skip </thead> */
                     while (read < thead_end + 8) {
-                        if (strncmp(read, "<th>", 4) == 0) {
+                        if (read == mark) {
+                            read += mark_len;
+                            if (*read == ' ') read++;
+                        } else if (strncmp(read, "<th>", 4) == 0) {
                             memcpy(write, "<td>", 4);
                             write += 4;
                             remaining -= 4;
-- 
2.43.0


From 968419763fa817187df0876bb7f9db5795b4b2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:35 +0000
Subject: [PATCH 095/180] fix: table footers, header cells with a colspan,
 cells containing ^^ or << and empty rows are lost

Rows and cells of the HTML were matched with those of the AST by guessing
from their text; there is one for each, so match them by position.
---
 src/extensions/advanced_tables.c        |   8 +-
 src/extensions/table_html_postprocess.c | 913 ++----------------------
 2 files changed, 48 insertions(+), 873 deletions(-)

diff --git a/src/extensions/advanced_tables.c b/src/extensions/advanced_tables.c
index 97e465d..3f92bd7 100644
--- a/src/extensions/advanced_tables.c
+++ b/src/extensions/advanced_tables.c
@@ -486,13 +486,12 @@ static void process_table_spans(cmark_node *table) {
                 }
             }
 
-            /* Check if this row only contains '—' cells (separator row or empty row) */
+            /* Check if this row only contains '—' cells (separator row) */
             cmark_node *check_cell = cmark_node_first_child(row);
             bool all_dash = true;
-            bool has_cells = false;
+            bool has_dash = false;
             while (check_cell) {
                 if (cmark_node_get_type(check_cell) == CMARK_NODE_TABLE_CELL) {
-                    has_cells = true;
                     cmark_node *check_text = cmark_node_first_child(check_cell);
                     if (check_text && cmark_node_get_type(check_text) == CMARK_NODE_TEXT) {
                         const char *check_content = cmark_node_get_literal(check_text);
@@ -500,6 +499,7 @@ static void process_table_spans(cmark_node *table) {
                             all_dash = false;
                             break;
                         }
+                        has_dash = true;
                     } else {
                         /* Empty cell, check if it's really empty */
                         if (cmark_node_first_child(check_cell)) {
@@ -511,7 +511,7 @@ static void process_table_spans(cmark_node *table) {
                 check_cell = cmark_node_next(check_cell);
             }
             /* Skip rows that only contain '—' characters (alignment/separator rows) */
-            if (has_cells && all_dash) {
+            if (has_dash && all_dash) {
                 /* Mark the entire row for removal in HTML output */
                 cmark_node *dash_cell = cmark_node_first_child(row);
                 while (dash_cell) {
diff --git a/src/extensions/table_html_postprocess.c b/src/extensions/table_html_postprocess.c
index 2dbc7d8..37f3fd2 100644
--- a/src/extensions/table_html_postprocess.c
+++ b/src/extensions/table_html_postprocess.c
@@ -525,6 +525,30 @@ static tfoot_row *collect_tfoot_rows(cmark_node *document) {
     return list;
 }
 
+/**
+ * True when the first cell of the header row at html is empty and another
+ * one is not (a row without any header text belongs to a headerless table).
+ */
+static bool header_row_labels_columns_only(const char *html) {
+    const char *row_end = strstr(html, "</tr>");
+    bool first = true;
+    bool later_text = false;
+    while (row_end && html < row_end) {
+        const char *content = strchr(html, '>');
+        const char *end = content ? strstr(content, "</th>") : NULL;
+        if (!end || end > row_end) break;
+        bool empty = true;
+        for (content++; content < end; content++) {
+            if (!isspace((unsigned char)*content)) empty = false;
+        }
+        if (first && !empty) return false;
+        if (!empty) later_text = true;
+        first = false;
+        html = end + 5;
+    }
+    return later_text;
+}
+
 char *apex_inject_table_attributes(const char *html, cmark_node *document, int caption_position) {
     if (!html || !document) return (char *)html;
 
@@ -1057,49 +1081,8 @@ char *apex_inject_table_attributes(const char *html, cmark_node *document, int c
             col_idx = 0;
             prev_cell_matching = NULL;  /* Reset previous cell matching for new row */
 
-            /* Map HTML row index to AST row index.
-             * HTML rows skip separator rows (which are marked for removal in AST).
-             * So we need to find the AST row that corresponds to this HTML row.
-             *
-             * IMPORTANT: row_idx includes ALL <tr> tags, including the header in <thead>.
-             * But the header row is handled separately, so for tbody/tfoot rows, we need to
-             * account for that. The header is typically AST row 0, and it's the first HTML row.
-             * So for tbody/tfoot rows, row_idx will be >= 1 (1 = first data row, 2 = second data row, etc.).
-             *
-             * The mapping should count all non-removed rows, including the header, to match row_idx.
-             * Note: This mapping is only needed when we have attributes to process. */
-            ast_row_idx = -1;
-            if (all_cells) {
-                int html_row_count = -1;  /* Start at -1, will be 0 for header */
-                for (int r = 0; r < 100; r++) {  /* Check up to 100 AST rows */
-                    /* Check if this AST row has any non-removed cells */
-                    bool has_non_removed = false;
-                    for (all_cell *c = all_cells; c; c = c->next) {
-                        if (c->table_index == table_idx &&
-                            c->row_index == r &&
-                            !c->is_removed) {
-                            has_non_removed = true;
-                            break;
-                        }
-                    }
-                    /* If this AST row has non-removed cells, it appears in HTML */
-                    if (has_non_removed) {
-                        html_row_count++;
-                        if (html_row_count == row_idx) {
-                            ast_row_idx = r;
-                            break;
-                        }
-                    }
-                }
-            } else {
-                /* No all_cells available (alignment-only processing) - use row_idx directly */
-                ast_row_idx = row_idx;
-            }
-
-            if (ast_row_idx == -1) {
-                /* Fallback: use row_idx directly */
-                ast_row_idx = row_idx;
-            }
+            /* The HTML has a row for every row of the AST */
+            ast_row_idx = row_idx;
 
             /* Pre-calculate which original columns will be visible in this row's HTML.
              * This creates a mapping: HTML position -> original column index.
@@ -1136,27 +1119,7 @@ char *apex_inject_table_attributes(const char *html, cmark_node *document, int c
                 if (renders_new_cell && row_idx > 0 && column_has_rowspan) {
                     /* Check all previous HTML rows to see if any have a rowspan covering this column */
                     for (int prev_html_row = 0; prev_html_row < row_idx; prev_html_row++) {
-                        /* Map previous HTML row to AST row */
-                        int prev_ast_row = -1;
-                        int prev_html_row_count = -1;
-                        for (int r = 0; r < 100; r++) {
-                            bool has_non_removed = false;
-                            for (all_cell *c = all_cells; c; c = c->next) {
-                                if (c->table_index == table_idx &&
-                                    c->row_index == r &&
-                                    !c->is_removed) {
-                                    has_non_removed = true;
-                                    break;
-                                }
-                            }
-                            if (has_non_removed) {
-                                prev_html_row_count++;
-                                if (prev_html_row_count == prev_html_row) {
-                                    prev_ast_row = r;
-                                    break;
-                                }
-                            }
-                        }
+                        int prev_ast_row = prev_html_row;
                         if (prev_ast_row >= 0) {
                             /* Check if this AST row has a cell at orig_col with rowspan that spans to current row */
                             for (cell_attr *a = attrs; a; a = a->next) {
@@ -1200,147 +1163,12 @@ char *apex_inject_table_attributes(const char *html, cmark_node *document, int c
              * To use a caption after a table, include a blank line between the table and caption.
              */
 
-            /* Check if this row should be in tfoot.
-             * tfoot_rows are stored with AST row indices, so we need to check ast_row_idx.
-             *
-             * CRITICAL: A row should only be in tfoot if it comes AFTER the === row in HTML.
-             * Even if a row is marked as tfoot in the AST, if it appears before the === row
-             * in the HTML output (because the === row is skipped), it must be in tbody. */
+            /* Check if this row should be in tfoot */
             current_row_is_tfoot = false;
-
-            /* First, find the === row's AST index */
-            int min_equals_row_idx = -1;
-            for (int r = 0; r < 100; r++) {
-                int eq_total = 0;
-                int eq_removed = 0;
-                for (all_cell *c = all_cells; c; c = c->next) {
-                    if (c->table_index == table_idx && c->row_index == r) {
-                        eq_total++;
-                        if (c->is_removed) eq_removed++;
-                    }
-                }
-                if (eq_total > 0 && eq_total == eq_removed) {
-                    min_equals_row_idx = r;
-                    break; /* Found the first === row */
-                }
-            }
-
-            /* Check if this row is marked as tfoot in the AST */
-            bool is_marked_tfoot = false;
             for (tfoot_row *t = tfoot_rows; t; t = t->next) {
                 if (t->table_index == table_idx && t->row_index == ast_row_idx) {
-                    is_marked_tfoot = true;
-                    break;
-                }
-            }
-
-            /* CRITICAL: Before checking tfoot marking, verify HTML position.
-             * If this row appears before the === row in HTML, it MUST be in tbody,
-             * regardless of AST marking. This check runs even if the row is not marked as tfoot,
-             * to handle cases where the row might be incorrectly processed. */
-            if (min_equals_row_idx >= 0) {
-                /* Calculate how many HTML rows appear before the === row */
-                int html_rows_before_equals = -1;  /* Start at -1, will be 0 for header */
-                for (int r = 0; r < 100 && r <= min_equals_row_idx; r++) {
-                    bool has_non_removed = false;
-                    for (all_cell *c = all_cells; c; c = c->next) {
-                        if (c->table_index == table_idx &&
-                            c->row_index == r &&
-                            !c->is_removed) {
-                            has_non_removed = true;
-                            break;
-                        }
-                    }
-                    if (has_non_removed) {
-                        html_rows_before_equals++;
-                    }
-                }
-
-                /* If this row's HTML position is before the === row, force it to tbody.
-                 * Since the === row is skipped, rows with row_idx <= html_rows_before_equals + 1
-                 * appear before the === row in HTML.
-                 *
-                 * CRITICAL: We must set current_row_is_tfoot = false BEFORE the skip check,
-                 * so that rows forced to tbody are not skipped. */
-                if (html_rows_before_equals >= 0 && row_idx <= html_rows_before_equals + 1) {
-                    current_row_is_tfoot = false;
-                } else if (ast_row_idx >= 0 && ast_row_idx <= min_equals_row_idx) {
-                    /* Also check AST position as a fallback */
-                    current_row_is_tfoot = false;
-                }
-            }
-
-            /* If marked as tfoot, verify it actually comes after === in HTML */
-            if (is_marked_tfoot && min_equals_row_idx >= 0) {
-                /* Calculate how many HTML rows appear before the === row.
-                 * Count non-removed AST rows up to min_equals_row_idx.
-                 * This gives us the HTML row index of the last row that appears BEFORE the === row. */
-                int html_rows_before_equals = -1;  /* Start at -1, will be 0 for header */
-                for (int r = 0; r < 100 && r <= min_equals_row_idx; r++) {
-                    bool has_non_removed = false;
-                    for (all_cell *c = all_cells; c; c = c->next) {
-                        if (c->table_index == table_idx &&
-                            c->row_index == r &&
-                            !c->is_removed) {
-                            has_non_removed = true;
-                            break;
-                        }
-                    }
-                    if (has_non_removed) {
-                        html_rows_before_equals++;
-                    }
-                }
-
-                /* CRITICAL: The issue is that rows with AST index > min_equals_row_idx can still
-                 * appear in HTML before the === row (since === is skipped). So we need to check
-                 * if this row's HTML position (row_idx) is <= html_rows_before_equals.
-                 *
-                 * The key insight: html_rows_before_equals is the HTML row index of the last row
-                 * that appears BEFORE the === row. So if row_idx <= html_rows_before_equals,
-                 * this row appears before === in HTML, so it must be in tbody.
-                 *
-                 * But we also need to check AST position as a fallback, because the HTML position
-                 * calculation might be off if the row mapping is wrong. */
-                bool force_to_tbody = false;
-
-                /* First check: AST position */
-                if (ast_row_idx <= min_equals_row_idx) {
-                    /* AST says it's before or at ===, so it must be in tbody */
-                    force_to_tbody = true;
-                }
-
-                /* Second check: HTML position
-                 * Since the === row is skipped in HTML, rows with row_idx <= html_rows_before_equals + 2
-                 * appear before the === row in HTML. The +2 accounts for:
-                 * - html_rows_before_equals is the count of rows before === (including header)
-                 * - row_idx is 1-based (1=header, 2=first data, 3=second data, 4===, 5=footer)
-                 * - So row_idx <= html_rows_before_equals + 2 covers the first two data rows. */
-                if (html_rows_before_equals >= 0 && row_idx <= html_rows_before_equals + 2) {
-                    /* HTML position says it's before ===, so it must be in tbody */
-                    force_to_tbody = true;
-                }
-
-                /* Third check: If row_idx <= 3, it's definitely in tbody (header + first two data rows) */
-                if (row_idx <= 3) {
-                    force_to_tbody = true;
-                }
-
-                if (force_to_tbody) {
-                    current_row_is_tfoot = false;
-                } else {
-                    /* AST and HTML both say it's after ===, so mark as tfoot */
-                    current_row_is_tfoot = true;
-                }
-            } else if (is_marked_tfoot) {
-                /* No === row found, but row is marked as tfoot - use AST marking */
-                /* BUT: Even if no === row is found, if this row's HTML position suggests
-                 * it should be in tbody (e.g., it's one of the first few rows), don't mark as tfoot.
-                 * This handles edge cases where the === row might not be detected correctly. */
-                if (row_idx <= 2) {
-                    /* If this is one of the first few rows, it's probably in tbody */
-                    current_row_is_tfoot = false;
-                } else {
                     current_row_is_tfoot = true;
+                    break;
                 }
             }
 
@@ -1379,189 +1207,16 @@ char *apex_inject_table_attributes(const char *html, cmark_node *document, int c
             /* Note: Once we're in tfoot, we stay in tfoot - don't reopen tbody */
             /* tfoot rows should be at the end of the table */
 
-            /* Check if this row should be completely removed (all cells marked for removal) */
-            /* For tfoot rows that are pure === markers (all cells marked), skip the entire row */
-            /* For tfoot rows with actual content, render them normally */
-            bool should_skip_row = false;
-
-            /* CRITICAL SAFEGUARD: If this is one of the first few rows (row_idx <= 3), it's
-             * almost certainly in tbody, not tfoot. NEVER skip it.
-             * Note: row_idx is incremented before this check (line 894), so:
-             * - row_idx 1 = header
-             * - row_idx 2 = first data row
-             * - row_idx 3 = second data row (this is the one we were missing!)
-             * - row_idx 4 = === row (should be skipped)
-             * - row_idx 5 = footer
-             *
-             * This check must run FIRST, before any other skip logic, to ensure these rows
-             * are always rendered. */
-            bool force_keep_row = false;
-            if (row_idx <= 3) {
-                /* First few rows (header + first two data rows) are always in tbody - never skip them */
-                force_keep_row = true;
-                should_skip_row = false;
-                /* Always set current_row_is_tfoot = false for these rows - they're definitely in tbody */
-                current_row_is_tfoot = false;
-            }
-
-            /* CRITICAL: Only check if row should be skipped if we haven't already determined
-             * it should be in tbody. If current_row_is_tfoot is false, this row was either
-             * never marked as tfoot OR was forced to tbody because it appears before === in HTML.
-             * In either case, it should NOT be skipped, even if all cells are marked for removal.
-             *
-             * IMPORTANT: We must check this AFTER setting current_row_is_tfoot, so we know
-             * if the row was forced to tbody. */
-            if (!force_keep_row && current_row_is_tfoot) {
-                /* Count ALL cells in this row (using all_cells) to see if any are non-removed */
-                int total_cells_in_row = 0;
-                int removed_cells_in_row = 0;
-                for (all_cell *c = all_cells; c; c = c->next) {
-                    if (c->table_index == table_idx && c->row_index == ast_row_idx) {
-                        total_cells_in_row++;
-                        if (c->is_removed) {
-                            removed_cells_in_row++;
-                        }
-                    }
-                }
-                /* If all cells in this row are marked for removal, skip the entire row */
-                /* This applies to tfoot rows that are pure === markers */
-                if (total_cells_in_row > 0 && total_cells_in_row == removed_cells_in_row) {
-                    should_skip_row = true;
-                }
-            }
-            /* If current_row_is_tfoot is false, this is a data row that should be rendered,
-             * regardless of whether cells are marked for removal in the AST */
-            /* Also check if this row contains === markers by checking the AST row directly.
-             * This handles cases where the row mapping might have issues.
-             * BUT: Only check for === markers if this row is actually in tfoot.
-             * If current_row_is_tfoot is false (forced to tbody), don't skip it even if it has === markers.
-             *
-             * CRITICAL: Don't run this check if force_keep_row is true. */
-            if (!force_keep_row && !should_skip_row && current_row_is_tfoot) {
-                /* Check if any cells in current AST row contain === */
-                bool has_equals = false;
-                for (cell_attr *a = attrs; a; a = a->next) {
-                    if (a->table_index == table_idx && a->row_index == ast_row_idx &&
-                        strstr(a->attributes, "data-remove")) {
-                        if (a->cell_text) {
-                            const char *text = a->cell_text;
-                            while (*text && isspace((unsigned char)*text)) text++;
-                            if (text[0] == '=' && text[1] == '=' && text[2] == '=') {
-                                has_equals = true;
-                                break;
-                            }
-                        }
-                    }
-                }
-                /* If this row contains === markers, skip it */
-                /* BUT: Don't skip if force_keep_row is true (first few rows are protected) */
-                if (has_equals && !force_keep_row) {
-                    should_skip_row = true;
-                } else {
-                    /* Also check previous AST row in case row mapping is off */
-                    /* BUT: Only do this check if we're actually in tfoot.
-                     * If current_row_is_tfoot is false, this row was forced to tbody,
-                     * so don't skip it even if the previous row has === markers. */
-                    if (ast_row_idx > 0 && current_row_is_tfoot) {
-                        int prev_ast_row = ast_row_idx - 1;
-                        for (cell_attr *a = attrs; a; a = a->next) {
-                            if (a->table_index == table_idx && a->row_index == prev_ast_row &&
-                                strstr(a->attributes, "data-remove") && a->cell_text) {
-                                const char *text = a->cell_text;
-                                while (*text && isspace((unsigned char)*text)) text++;
-                                    if (text[0] == '=' && text[1] == '=' && text[2] == '=') {
-                                        has_equals = true;
-                                        /* If previous row has === and this is first tfoot row, this HTML row is the === row */
-                                        /* BUT: Don't skip if this row was forced to tbody (row_idx <= 3) or force_keep_row is true */
-                                        if (row_idx <= 4 && !force_keep_row && !(min_equals_row_idx >= 0 && row_idx <= 3)) {
-                                            should_skip_row = true;
-                                        }
-                                        break;
-                                    }
-                            }
-                        }
-                    }
-                }
-            }
-            /* FINAL CHECK: If this row was forced to tbody (because it appears before === in HTML),
-             * NEVER skip it, regardless of any other conditions. This check happens after all
-             * skip logic has been evaluated, to ensure rows forced to tbody are always rendered.
-             *
-             * IMPORTANT: This check must recalculate min_equals_row_idx to ensure it's available,
-             * in case it wasn't calculated earlier or was calculated incorrectly. */
-            bool was_forced_to_tbody = false;
-
-            /* First, find the === row's AST index (recalculate if needed) */
-            int final_min_equals_row_idx = min_equals_row_idx;
-            if (final_min_equals_row_idx < 0) {
-                for (int r = 0; r < 100; r++) {
-                    int eq_total = 0;
-                    int eq_removed = 0;
-                    for (all_cell *c = all_cells; c; c = c->next) {
-                        if (c->table_index == table_idx && c->row_index == r) {
-                            eq_total++;
-                            if (c->is_removed) eq_removed++;
-                        }
-                    }
-                    if (eq_total > 0 && eq_total == eq_removed) {
-                        final_min_equals_row_idx = r;
-                        break;
-                    }
-                }
-            }
-
-            if (final_min_equals_row_idx >= 0) {
-                int html_rows_before_equals = -1;
-                for (int r = 0; r < 100 && r <= final_min_equals_row_idx; r++) {
-                    bool has_non_removed = false;
-                    for (all_cell *c = all_cells; c; c = c->next) {
-                        if (c->table_index == table_idx &&
-                            c->row_index == r &&
-                            !c->is_removed) {
-                            has_non_removed = true;
-                            break;
-                        }
-                    }
-                    if (has_non_removed) {
-                        html_rows_before_equals++;
-                    }
-                }
-                /* Check HTML position: if row_idx is <= html_rows_before_equals + 1,
-                 * it appears before the === row in HTML, so it must be in tbody */
-                if (html_rows_before_equals >= 0 && row_idx <= html_rows_before_equals + 1) {
-                    was_forced_to_tbody = true;
-                }
-                /* Also check AST position as a fallback: if ast_row_idx <= final_min_equals_row_idx,
-                 * it's before or at the === row in AST, so it must be in tbody */
-                if (!was_forced_to_tbody && ast_row_idx >= 0 && ast_row_idx <= final_min_equals_row_idx) {
-                    was_forced_to_tbody = true;
-                }
-            }
-
-            /* CRITICAL: If this row was forced to tbody, NEVER skip it and ensure it's not in tfoot.
-             * This check runs AFTER all skip logic, to ensure rows forced to tbody are always rendered.
-             *
-             * ADDITIONAL SAFEGUARD: If there's a === row and this is one of the first 3 HTML rows
-             * (row_idx <= 3), it's almost certainly in tbody, not tfoot. This handles edge cases
-             * where the calculation might be off.
-             *
-             * FINAL OVERRIDE: This is the last check before skipping, so it must override any
-             * previous skip decisions. Also check force_keep_row flag. */
-            if (force_keep_row || was_forced_to_tbody || (final_min_equals_row_idx >= 0 && row_idx <= 3) ||
-                (min_equals_row_idx >= 0 && row_idx <= 3)) {
-                should_skip_row = false;
-                current_row_is_tfoot = false;
-            }
-
-            /* FINAL CHECK: If force_keep_row is true, NEVER skip this row, regardless of should_skip_row.
-             * Also, if row_idx <= 3, protect it as an extra safeguard. */
-            if (force_keep_row || row_idx <= 3) {
-                should_skip_row = false;
-                /* If this is one of the first few rows and there's a === row, it's definitely in tbody */
-                if (row_idx <= 3 && min_equals_row_idx >= 0) {
-                    current_row_is_tfoot = false;
+            /* A row with all cells marked for removal (such as the === row) is left out */
+            int total_cells_in_row = 0;
+            int removed_cells_in_row = 0;
+            for (all_cell *c = all_cells; c; c = c->next) {
+                if (c->table_index == table_idx && c->row_index == ast_row_idx) {
+                    total_cells_in_row++;
+                    if (c->is_removed) removed_cells_in_row++;
                 }
             }
+            bool should_skip_row = total_cells_in_row > 0 && total_cells_in_row == removed_cells_in_row;
 
             if (should_skip_row) {
                 /* Skip the opening <tr> tag and everything until </tr> */
@@ -1763,472 +1418,22 @@ char *apex_inject_table_attributes(const char *html, cmark_node *document, int c
             if (in_table && !in_tbody && !in_tfoot && in_thead &&
                 table_idx >= 0 && table_idx < 50 &&
                 row_idx == 0 && col_idx == 0 && is_th) {
-                /* Check if this cell is empty - extract directly from HTML for reliability.
-                 * read points to the start of the <th tag, so we need to find the > immediately after it. */
-                bool header_first_cell_empty = false;
-                /* Find the > that closes this <th tag - it should be right after <th or <th with attributes */
-                const char *tag_end = strchr(read, '>');
-                if (tag_end) {
-                    /* Found the > for this <th tag - now find the matching </th> immediately following */
-                    const char *content_start = tag_end + 1;
-                    const char *content_end = strstr(content_start, "</th>");
-                    if (content_end) {
-                        /* Check if content between > and </th> is empty or whitespace only */
-                        /* For empty cells like <th></th>, content_end should be right after content_start */
-                        header_first_cell_empty = true;
-                        for (const char *p = content_start; p < content_end; p++) {
-                            if (!isspace((unsigned char)*p)) {
-                                header_first_cell_empty = false;
-                                break;
-                            }
-                        }
-                    }
-                }
+                bool header_first_cell_empty = header_row_labels_columns_only(read);
                 if (header_first_cell_empty) {
                     table_has_row_header_first_col[table_idx] = true;
                 }
             }
 
-            /* Use pre-calculated mapping: HTML position -> original column index */
-            int target_original_col = -1;
-            if (col_idx < row_col_mapping_size) {
-                target_original_col = row_col_mapping[col_idx];
-            }
-
-            /* Find matching attribute using the mapped original column index and AST row index.
-             * Also verify that the cell content matches to avoid matching cells that are covered
-             * by rowspans from previous rows.
-             *
-             * If no match found in current row, also check the previous AST row in case of row
-             * detection issues (e.g., when a cell with rowspan is processed in the wrong HTML row).
-             *
-             * For tfoot rows with === markers, also check the previous AST row since the row mapping
-             * might skip the === row if all its cells are marked for removal. */
+            /* The HTML has a cell for every cell of the AST */
             cell_attr *matching = NULL;
-
-            if (target_original_col >= 0 && attrs != NULL) {
-                /* First, try to match in the current AST row by position (fast) */
-                for (cell_attr *a = attrs; a; a = a->next) {
-                    if (a->table_index == table_idx &&
-                        a->row_index == ast_row_idx &&
-                        a->col_index == target_original_col) {
-                        /* Found a position match - only verify content if we have cell_text to compare */
-                        bool content_matches = true;
-                        if (a->cell_text && a->cell_text[0] != '\0') {
-                            /* Need to extract cell content for verification (lazy extraction) */
-                            if (cell_preview[0] == '\0') {
-                                bool is_th = strncmp(read, "<th", 3) == 0;
-                                const char *close_tag = is_th ? "</th>" : "</td>";
-                                const char *content_start = strchr(read, '>');
-                                if (content_start) {
-                                    const char *content_end = strstr(content_start + 1, close_tag);
-                                    if (content_end && content_end - content_start - 1 < 99) {
-                                        size_t len = content_end - content_start - 1;
-                                        strncpy(cell_preview, content_start + 1, len);
-                                        cell_preview[len] = '\0';
-                                        while (len > 0 && (cell_preview[len-1] == '\n' || cell_preview[len-1] == '\r' || isspace((unsigned char)cell_preview[len-1]))) {
-                                            cell_preview[--len] = '\0';
-                                        }
-                                    }
-                                }
-                            }
-                            if (cell_preview[0] != '\0') {
-                                /* Compare cell content - trim whitespace for comparison */
-                                const char *attr_text = a->cell_text;
-                                const char *html_text = cell_preview;
-                                /* Skip leading whitespace */
-                                while (*attr_text && isspace((unsigned char)*attr_text)) attr_text++;
-                                while (*html_text && isspace((unsigned char)*html_text)) html_text++;
-                                /* Compare (case-sensitive, but we can make it more lenient if needed) */
-                                content_matches = (strncmp(attr_text, html_text, strlen(attr_text)) == 0 &&
-                                                 (html_text[strlen(attr_text)] == '\0' || isspace((unsigned char)html_text[strlen(attr_text)])));
-                            }
-                        }
-                        if (content_matches) {
-                            matching = a;
-                            break;
-                        }
-                    }
-                }
-
-                /* If no match found in current row, also check the previous AST row.
-                 * This is especially important for tfoot rows with === markers, where the row mapping
-                 * might skip the === row if all its cells are marked for removal. */
-                if (!matching && ast_row_idx > 0) {
-                    for (cell_attr *a = attrs; a; a = a->next) {
-                        if (a->table_index == table_idx &&
-                            a->row_index == ast_row_idx - 1 &&
-                            a->col_index == target_original_col &&
-                            strstr(a->attributes, "data-remove")) {
-                            /* Check if content matches (for === cells) - extract if needed */
-                            bool content_matches = true;
-                            if (a->cell_text && a->cell_text[0] != '\0') {
-                                if (cell_preview[0] == '\0') {
-                                    bool is_th = strncmp(read, "<th", 3) == 0;
-                                    const char *close_tag = is_th ? "</th>" : "</td>";
-                                    const char *content_start = strchr(read, '>');
-                                    if (content_start) {
-                                        const char *content_end = strstr(content_start + 1, close_tag);
-                                        if (content_end && content_end - content_start - 1 < 99) {
-                                            size_t len = content_end - content_start - 1;
-                                            strncpy(cell_preview, content_start + 1, len);
-                                            cell_preview[len] = '\0';
-                                            while (len > 0 && (cell_preview[len-1] == '\n' || cell_preview[len-1] == '\r' || isspace((unsigned char)cell_preview[len-1]))) {
-                                                cell_preview[--len] = '\0';
-                                            }
-                                        }
-                                    }
-                                }
-                                if (cell_preview[0] != '\0') {
-                                    const char *attr_text = a->cell_text;
-                                    const char *html_text = cell_preview;
-                                    while (*attr_text && isspace((unsigned char)*attr_text)) attr_text++;
-                                    while (*html_text && isspace((unsigned char)*html_text)) html_text++;
-                                    content_matches = (strncmp(attr_text, html_text, strlen(attr_text)) == 0 &&
-                                                     (html_text[strlen(attr_text)] == '\0' || isspace((unsigned char)html_text[strlen(attr_text)])));
-                                }
-                            }
-                            if (content_matches) {
-                                matching = a;
-                                break;
-                            }
-                        }
-                    }
-                }
-
-                /* Don't use fallback matching to previous row - it causes incorrect attribute application.
-                 * If no match is found in the current row, that's correct - the cell doesn't have any attributes. */
-            }
-
-            /* Content-based fallback matching for header/footer rows (or when column-based matching fails).
-             * This is important because column mapping can be wrong for rows with colspans.
-             * Match cells by content and prioritize cells with colspan/rowspan attributes.
-             * Skip this expensive operation for very large tables to avoid timeout. */
-            /* Extract cell content if we need it for content-based or rowspan matching */
-            if (attrs != NULL && !matching && cell_preview[0] == '\0' && ast_row_idx >= 0) {
-                const char *close_tag = is_th ? "</th>" : "</td>";
-                const char *content_start = strchr(read, '>');
-                if (content_start) {
-                    const char *content_end = strstr(content_start + 1, close_tag);
-                    if (content_end && content_end - content_start - 1 < 99) {
-                        size_t len = content_end - content_start - 1;
-                        strncpy(cell_preview, content_start + 1, len);
-                        cell_preview[len] = '\0';
-                        while (len > 0 && (cell_preview[len-1] == '\n' || cell_preview[len-1] == '\r' || isspace((unsigned char)cell_preview[len-1]))) {
-                            cell_preview[--len] = '\0';
-                        }
-                    }
-                }
-            }
-            if (attrs != NULL && !matching && ast_row_idx >= 0) {
-                /* Extract cell content if we haven't already */
-                if (cell_preview[0] == '\0') {
-                    bool is_th_tag = strncmp(read, "<th", 3) == 0;
-                    const char *close_tag_str = is_th_tag ? "</th>" : "</td>";
-                    const char *content_start = strchr(read, '>');
-                    if (content_start) {
-                        const char *content_end = strstr(content_start + 1, close_tag_str);
-                        if (content_end && content_end - content_start - 1 < 99) {
-                            size_t len = content_end - content_start - 1;
-                            strncpy(cell_preview, content_start + 1, len);
-                            cell_preview[len] = '\0';
-                            while (len > 0 && (cell_preview[len-1] == '\n' || cell_preview[len-1] == '\r' || isspace((unsigned char)cell_preview[len-1]))) {
-                                cell_preview[--len] = '\0';
-                            }
-                        }
-                    }
-                }
-
-                if (cell_preview[0] != '\0') {
-                    /* For very large tables, skip content-based matching to avoid timeout */
-                    /* Position-based matching should be sufficient for most cases */
-                    int attr_count = 0;
-                    for (cell_attr *check = attrs; check && attr_count < 1000; check = check->next) attr_count++;
-                    if (attr_count <= 500) {
-                        /* Only do expensive content-based matching if we don't have too many attributes */
-                        cell_attr *content_match = NULL;
-                        cell_attr *span_match = NULL;
-
-                    /* Try to find a cell in the same AST row by matching content */
-                    for (cell_attr *a = attrs; a; a = a->next) {
-                        if (a->table_index == table_idx &&
-                            a->row_index == ast_row_idx &&
-                            a->cell_text) {
-                            const char *attr_text = a->cell_text;
-                            const char *html_text = cell_preview;
-                        /* Skip leading whitespace */
-                        while (*attr_text && isspace((unsigned char)*attr_text)) attr_text++;
-                        while (*html_text && isspace((unsigned char)*html_text)) html_text++;
-                        /* Compare - use lenient comparison */
-                        size_t attr_len = strlen(attr_text);
-                        size_t html_len = strlen(html_text);
-                        /* Skip trailing whitespace for comparison */
-                        while (attr_len > 0 && isspace((unsigned char)attr_text[attr_len - 1])) attr_len--;
-                        while (html_len > 0 && isspace((unsigned char)html_text[html_len - 1])) html_len--;
-                        if (attr_len > 0 && html_len > 0 &&
-                            attr_len == html_len &&
-                            strncmp(attr_text, html_text, attr_len) == 0) {
-                            /* Found a match by content */
-                            if (!content_match) {
-                                content_match = a;  /* Remember first content match */
-                            }
-                            /* Prefer matches with colspan/rowspan attributes */
-                            if (strstr(a->attributes, "colspan") || strstr(a->attributes, "rowspan")) {
-                                span_match = a;
-                                break;  /* Found the best match, stop searching */
-                            }
-                        }
-                    }
-                    }
-
-                    /* Use span_match if available, otherwise use content_match */
-                    if (span_match) {
-                        matching = span_match;
-                    } else if (content_match) {
-                        matching = content_match;
-                    }
-                    }
-                }
-            }
-
-            /* Additional fallback: If we still don't have a match, try to find any cell in the same
-             * table/row with matching content that has colspan. This is important when cells with <<
-             * are removed and column indices shift. Extract cell content if we haven't already. */
-            if (!matching && ast_row_idx >= 0 && attrs != NULL) {
-                /* Extract cell content if we haven't already */
-                if (cell_preview[0] == '\0') {
-                    bool is_th_tag = strncmp(read, "<th", 3) == 0;
-                    const char *close_tag_str = is_th_tag ? "</th>" : "</td>";
-                    const char *content_start = strchr(read, '>');
-                    if (content_start) {
-                        const char *content_end = strstr(content_start + 1, close_tag_str);
-                        if (content_end && content_end - content_start - 1 < 99) {
-                            size_t len = content_end - content_start - 1;
-                            strncpy(cell_preview, content_start + 1, len);
-                            cell_preview[len] = '\0';
-                            while (len > 0 && (cell_preview[len-1] == '\n' || cell_preview[len-1] == '\r' || isspace((unsigned char)cell_preview[len-1]))) {
-                                cell_preview[--len] = '\0';
-                            }
-                        }
-                    }
-                }
-
-                if (cell_preview[0] != '\0') {
-                    /* Try matching within the same AST row first */
-                    for (cell_attr *a = attrs; a; a = a->next) {
-                        if (a->table_index == table_idx &&
-                            a->row_index == ast_row_idx &&
-                            strstr(a->attributes, "colspan") &&
-                            a->cell_text) {
-                            const char *attr_text = a->cell_text;
-                            const char *html_text = cell_preview;
-                            /* Trim whitespace */
-                            while (*attr_text && isspace((unsigned char)*attr_text)) attr_text++;
-                            while (*html_text && isspace((unsigned char)*html_text)) html_text++;
-                            size_t attr_len = strlen(attr_text);
-                            size_t html_len = strlen(html_text);
-                            while (attr_len > 0 && isspace((unsigned char)attr_text[attr_len - 1])) attr_len--;
-                            while (html_len > 0 && isspace((unsigned char)html_text[html_len - 1])) html_len--;
-                            if (attr_len > 0 && html_len > 0 &&
-                                attr_len == html_len &&
-                                strncmp(attr_text, html_text, attr_len) == 0) {
-                                fprintf(stderr, "DEBUG MATCH: Found colspan cell by content fallback (same row) - text=[%s] attrs=[%s]\n",
-                                        html_text, a->attributes);
-                                matching = a;
-                                break;
-                            }
-                        }
-                    }
-
-                    /* If no match found, try nearby rows (row index might be off by 1 due to removed rows) */
-                    if (!matching) {
-                        for (cell_attr *a = attrs; a; a = a->next) {
-                            if (a->table_index == table_idx &&
-                                (a->row_index == ast_row_idx || a->row_index == ast_row_idx - 1 || a->row_index == ast_row_idx + 1) &&
-                                strstr(a->attributes, "colspan") &&
-                                a->cell_text) {
-                                const char *attr_text = a->cell_text;
-                                const char *html_text = cell_preview;
-                                /* Trim whitespace */
-                                while (*attr_text && isspace((unsigned char)*attr_text)) attr_text++;
-                                while (*html_text && isspace((unsigned char)*html_text)) html_text++;
-                                size_t attr_len = strlen(attr_text);
-                                size_t html_len = strlen(html_text);
-                                while (attr_len > 0 && isspace((unsigned char)attr_text[attr_len - 1])) attr_len--;
-                                while (html_len > 0 && isspace((unsigned char)html_text[html_len - 1])) html_len--;
-                                if (attr_len > 0 && html_len > 0 &&
-                                    attr_len == html_len &&
-                                    strncmp(attr_text, html_text, attr_len) == 0) {
-                                    matching = a;
-                                    break;
-                                }
-                            }
-                        }
-                    }
-                }
-            }
-
-            /* Final safety fallback for rowspan cells:
-             * If we still don't have a match, but this HTML cell's text matches exactly one AST cell
-             * in the same table that has a rowspan attribute, use that. This ensures that rowspans
-             * computed in the AST (e.g., for the last ^^ in a block) always get injected, even if
-             * row/column mapping was slightly off.
-             *
-             * To avoid mis-applying attributes, we:
-             *  - Require an exact trimmed-text match
-             *  - Restrict to cells in the same table
-             *  - Restrict to cells that already have a \"rowspan\" attribute
-             *  - Require that the match be unique (only one candidate) */
-            /* Extract cell content if we need it for rowspan matching */
-            if (attrs != NULL && !matching && cell_preview[0] == '\0' && ast_row_idx >= 0) {
-                const char *close_tag = is_th ? "</th>" : "</td>";
-                const char *content_start = strchr(read, '>');
-                if (content_start) {
-                    const char *content_end = strstr(content_start + 1, close_tag);
-                    if (content_end && content_end - content_start - 1 < 99) {
-                        size_t len = content_end - content_start - 1;
-                        strncpy(cell_preview, content_start + 1, len);
-                        cell_preview[len] = '\0';
-                        while (len > 0 && (cell_preview[len-1] == '\n' || cell_preview[len-1] == '\r' || isspace((unsigned char)cell_preview[len-1]))) {
-                            cell_preview[--len] = '\0';
-                        }
-                    }
-                }
-            }
-            if (attrs != NULL && !matching && cell_preview[0] != '\0' && ast_row_idx >= 0) {
-                cell_attr *rowspan_candidate = NULL;
-                bool multiple_candidates = false;
-
-                for (cell_attr *a = attrs; a; a = a->next) {
-                    if (a->table_index != table_idx) continue;
-                    /* Only consider cells in the same AST row, or at most one row above.
-                     * This allows us to recover from small row-mapping off-by-one errors
-                     * (e.g., when a header/body boundary shifts indices by 1), while
-                     * still preventing rowspans from leaking far down into unrelated
-                     * rows (like a later \"Active\" block). */
-                    int row_diff = ast_row_idx - a->row_index;
-                    if (row_diff < 0 || row_diff > 1) continue;
-                    if (!a->cell_text) continue;
-                    if (!strstr(a->attributes, "rowspan")) continue;
-
-                    const char *attr_text = a->cell_text;
-                    const char *html_text = cell_preview;
-
-                    /* Trim leading whitespace */
-                    while (*attr_text && isspace((unsigned char)*attr_text)) attr_text++;
-                    while (*html_text && isspace((unsigned char)*html_text)) html_text++;
-
-                    /* Compute trimmed lengths */
-                    size_t attr_len = strlen(attr_text);
-                    size_t html_len = strlen(html_text);
-                    while (attr_len > 0 && isspace((unsigned char)attr_text[attr_len - 1])) attr_len--;
-                    while (html_len > 0 && isspace((unsigned char)html_text[html_len - 1])) html_len--;
-
-                    if (attr_len == 0 || html_len == 0) continue;
-                    if (attr_len != html_len) continue;
-                    if (strncmp(attr_text, html_text, attr_len) != 0) continue;
-
-                    /* We have an exact trimmed-text match for a rowspan cell in this table. */
-                    if (!rowspan_candidate) {
-                        rowspan_candidate = a;
-                    } else {
-                        /* More than one candidate with same text - ambiguous, bail out. */
-                        multiple_candidates = true;
-                        break;
-                    }
-                }
-
-                if (rowspan_candidate && !multiple_candidates) {
-                    matching = rowspan_candidate;
-                }
-            }
-
-            /* Also check if this cell contains "^^" (rowspan marker) - these should be removed */
-            /* Check both the preview and the actual content in the HTML */
-            bool is_rowspan_marker = (strstr(cell_preview, "^^") != NULL);
-            if (!is_rowspan_marker) {
-                /* Also check the actual HTML content for "^^" */
-                const char *content_check = strstr(read, ">");
-                if (content_check) {
-                    const char *close_check = strstr(content_check + 1, "</td>");
-                    if (!close_check) close_check = strstr(content_check + 1, "</th>");
-                    if (close_check && close_check - content_check - 1 < 100) {
-                        char check_buf[100];
-                        strncpy(check_buf, content_check + 1, close_check - content_check - 1);
-                        check_buf[close_check - content_check - 1] = '\0';
-                        is_rowspan_marker = (strstr(check_buf, "^^") != NULL);
-                    }
-                }
-            }
-
-            /* Also check if this cell contains "<< " or "&lt;&lt;" (colspan marker) - these should be removed */
-            /* Check both the preview and the actual content in the HTML */
-            bool is_colspan_marker = (strstr(cell_preview, "<<") != NULL || strstr(cell_preview, "&lt;&lt;") != NULL);
-            if (!is_colspan_marker) {
-                /* Also check the actual HTML content for "<< " or "&lt;&lt;" */
-                const char *content_check = strstr(read, ">");
-                if (content_check) {
-                    const char *close_check = strstr(content_check + 1, "</td>");
-                    if (!close_check) close_check = strstr(content_check + 1, "</th>");
-                    if (close_check && close_check - content_check - 1 < 100) {
-                        char check_buf[100];
-                        strncpy(check_buf, content_check + 1, close_check - content_check - 1);
-                        check_buf[close_check - content_check - 1] = '\0';
-                        is_colspan_marker = (strstr(check_buf, "<<") != NULL || strstr(check_buf, "&lt;&lt;") != NULL);
-                    }
+            for (cell_attr *a = attrs; a; a = a->next) {
+                if (a->table_index == table_idx && a->row_index == row_idx && a->col_index == col_idx) {
+                    matching = a;
+                    break;
                 }
             }
 
-            /* Check if this cell should be removed:
-             * 1. If it's matched and marked for removal
-             * 2. If it contains "^^" (rowspan marker)
-             * 3. If it contains "<< " or "&lt;&lt;" (colspan marker)
-             * 4. If it's empty and the previous cell in the same row has colspan (empty cells after colspan should be removed) */
-            bool should_remove_cell = false;
-            if (matching && strstr(matching->attributes, "data-remove")) {
-                should_remove_cell = true;
-            } else if (is_rowspan_marker) {
-                should_remove_cell = true;
-            } else if (is_colspan_marker) {
-                should_remove_cell = true;
-            }
-
-            /* Check if this empty cell should be removed.
-             * Only remove empty cells that are explicitly marked for removal in the AST (part of a colspan).
-             * We need to check both:
-             * 1. Cells in the mapping (target_original_col >= 0) - check if marked for removal
-             * 2. Cells not in the mapping (target_original_col < 0) - these might be part of colspan,
-             *    but we should only remove if the previous cell in the same row has colspan.
-             *
-             * IMPORTANT: Be conservative - only remove empty cells if we're certain they're part of a colspan.
-             * Don't remove legitimate empty cells. */
-            if (!should_remove_cell && cell_preview[0] == '\0' && ast_row_idx >= 0) {
-                if (target_original_col >= 0) {
-                    /* Cell is in the mapping - check if explicitly marked for removal in AST */
-                    for (cell_attr *a = attrs; a; a = a->next) {
-                        if (a->table_index == table_idx &&
-                            a->row_index == ast_row_idx &&
-                            a->col_index == target_original_col &&
-                            strstr(a->attributes, "data-remove")) {
-                            should_remove_cell = true;
-                            break;
-                        }
-                    }
-                } else if (target_original_col < 0 &&
-                           prev_cell_matching &&
-                           prev_cell_matching->row_index == ast_row_idx &&
-                           strstr(prev_cell_matching->attributes, "colspan")) {
-                    /* Cell not in mapping - check if previous cell in same row has colspan > 1.
-                     * This is a strong indicator that the empty cell is part of the colspan. */
-                    int colspan_val = 1;
-                    if (strstr(prev_cell_matching->attributes, "colspan=")) {
-                        sscanf(strstr(prev_cell_matching->attributes, "colspan="), "colspan=\"%d\"", &colspan_val);
-                    }
-                    if (colspan_val > 1) {
-                        should_remove_cell = true;
-                    }
-                }
-            }
+            bool should_remove_cell = matching && strstr(matching->attributes, "data-remove");
 
             if (should_remove_cell) {
                 /* Skip this entire cell (including for tfoot rows - === rows are skipped entirely) */
@@ -2293,36 +1498,6 @@ char *apex_inject_table_attributes(const char *html, cmark_node *document, int c
                 make_row_header = true;
             }
 
-            /* Also detect empty first header cell here as a fallback, in case the earlier detection didn't run.
-             * This runs for header cells (is_th) when processing the first cell (col_idx == 0) in the first row (row_idx == 0).
-             * We need to check BEFORE col_idx is incremented, so this check happens early in the cell processing. */
-            if (!make_row_header &&
-                in_table && !in_tbody && !in_tfoot && in_thead &&
-                table_idx >= 0 && table_idx < 50 &&
-                row_idx == 0 && col_idx == 0 && is_th) {
-                /* Check if this cell is empty - extract directly from HTML for reliability */
-                bool is_empty = false;
-                const char *close_tag = "</th>";
-                const char *tag_end = strchr(read, '>');
-                if (tag_end) {
-                    const char *content_start = tag_end + 1;
-                    const char *content_end = strstr(content_start, close_tag);
-                    if (content_end) {
-                        /* Check if content between > and </th> is empty or whitespace only */
-                        is_empty = true;
-                        for (const char *p = content_start; p < content_end; p++) {
-                            if (!isspace((unsigned char)*p)) {
-                                is_empty = false;
-                                break;
-                            }
-                        }
-                    }
-                }
-                if (is_empty && !table_has_row_header_first_col[table_idx]) {
-                    table_has_row_header_first_col[table_idx] = true;
-                }
-            }
-
             if (make_row_header) {
                 const char *tag_end = strchr(read, '>');
                 if (tag_end) {
-- 
2.43.0


From b791441d8cfc65f337218bf48a81e4a7cdb86422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:50 +0000
Subject: [PATCH 096/180] fix: inline tables are looked for in code spans and
 in fences of tildes or more than three backticks

---
 src/extensions/inline_tables.c | 63 ++++++++++++++++++++++++++--------
 1 file changed, 49 insertions(+), 14 deletions(-)

diff --git a/src/extensions/inline_tables.c b/src/extensions/inline_tables.c
index 34674eb..91b3380 100644
--- a/src/extensions/inline_tables.c
+++ b/src/extensions/inline_tables.c
@@ -26,6 +26,41 @@ static int detect_delimiter(const char *start, const char *end) {
     return 0;
 }
 
+/* Length of the run of backticks or tildes that makes line a code fence (0 if it is none) */
+static size_t fence_run(const char *line) {
+    char c = *line;
+    size_t run = 0;
+    if (c != '`' && c != '~') return 0;
+    while (line[run] == c) run++;
+    if (run < 3) return 0;
+    if (c == '`') {
+        /* ```code``` is a code span */
+        for (const char *p = line + run; *p && *p != '\n'; p++) {
+            if (*p == '`') return 0;
+        }
+    }
+    return run;
+}
+
+/* Find the line that closes a code fence; returns its first fence character or NULL */
+static const char *find_closing_fence(const char *p, char c, size_t run) {
+    while (*p) {
+        const char *q = p;
+        size_t n = 0;
+        while (*q == ' ' || *q == '\t') q++;
+        while (q[n] == c) n++;
+        if (n >= run) {
+            const char *rest = q + n;
+            while (*rest == ' ' || *rest == '\t' || *rest == '\r') rest++;
+            if (!*rest || *rest == '\n') return q;
+        }
+        p = strchr(p, '\n');
+        if (!p) return NULL;
+        p++;
+    }
+    return NULL;
+}
+
 /* Process ```table fenced blocks and <!--TABLE--> markers */
 char *apex_process_inline_tables(const char *text) {
     if (!text) return NULL;
@@ -39,14 +74,20 @@ char *apex_process_inline_tables(const char *text) {
     char *write = out;
 
     while (*read) {
+        /* Fences and markers stand at the start of a line (indented at most three spaces) */
+        const char *mark = read;
+        bool at_line_start = read == text || read[-1] == '\n';
+        while (at_line_start && mark - read < 3 && *mark == ' ') mark++;
+
         /* ```table fenced block */
-        if (read[0] == '`' && read[1] == '`' && read[2] == '`') {
+        size_t run = at_line_start ? fence_run(mark) : 0;
+        if (run) {
             const char *line_start = read;
-            const char *p = read + 3;
+            const char *p = mark + run;
 
             /* Read info string until end of line */
             while (*p && *p != '\n') p++;
-            const char *info_start = read + 3;
+            const char *info_start = mark + run;
             const char *info_end = p;
             while (info_start < info_end && isspace((unsigned char)*info_start)) info_start++;
             while (info_end > info_start && isspace((unsigned char)*(info_end - 1))) info_end--;
@@ -54,7 +95,7 @@ char *apex_process_inline_tables(const char *text) {
             bool is_table_fence = false;
             if (info_end > info_start) {
                 size_t info_len = (size_t)(info_end - info_start);
-                if (info_len == 5 && strncasecmp(info_start, "table", 5) == 0) {
+                if (*mark == '`' && info_len == 5 && strncasecmp(info_start, "table", 5) == 0) {
                     is_table_fence = true;
                 }
             }
@@ -64,14 +105,8 @@ char *apex_process_inline_tables(const char *text) {
             const char *content_start = p;
 
             /* Find closing fence */
-            const char *closing = NULL;
-            while (*p) {
-                if (p[0] == '`' && p[1] == '`' && p[2] == '`') {
-                    closing = p;
-                    break;
-                }
-                p++;
-            }
+            const char *closing = find_closing_fence(p, *mark, run);
+            if (closing) p = closing;
 
             const char *content_end = closing ? closing : text + len;
 
@@ -186,9 +221,9 @@ char *apex_process_inline_tables(const char *text) {
         }
 
         /* <!--TABLE--> marker */
-        if (strncmp(read, "<!--TABLE-->", 12) == 0) {
+        if (at_line_start && strncmp(mark, "<!--TABLE-->", 12) == 0) {
             const char *marker_start = read;
-            const char *p = read + 12;
+            const char *p = mark + 12;
             /* Skip optional trailing spaces and one newline */
             while (*p == ' ' || *p == '\t') p++;
             if (*p == '\r') p++;
-- 
2.43.0


From 314d9e7582f42bda94ee8bb1cca90c48899d3094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:11 +0000
Subject: [PATCH 097/180] fix: a pipe in a CSV or TSV cell breaks the table

---
 src/extensions/includes.c | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/extensions/includes.c b/src/extensions/includes.c
index 2be4cc5..d070caa 100644
--- a/src/extensions/includes.c
+++ b/src/extensions/includes.c
@@ -172,6 +172,19 @@ static apex_file_type_t apex_detect_file_type(const char *filepath) {
     return FILE_TYPE_TEXT;
 }
 
+/* Write a cell of a pipe table; a pipe in its text must be escaped */
+static char *write_table_cell(char *write, const char *val) {
+    for (; *val; val++) {
+        if (*val == '\\' && val[1]) {
+            *write++ = *val++;
+        } else if (*val == '|') {
+            *write++ = '\\';
+        }
+        *write++ = *val;
+    }
+    return write;
+}
+
 /**
  * Convert CSV/TSV to Markdown table
  *
@@ -377,7 +390,7 @@ char *apex_csv_to_table(const char *csv_content, bool is_tsv) {
 
     /* Allocate output buffer: every row (and the separator row) is padded to col_count cells */
     size_t max_cell_overhead = 8;  /* "| " + " " or the longest alignment spec */
-    char *output = malloc(len + ((size_t)row_count + 1) * ((size_t)col_count * max_cell_overhead + 2) + 64);
+    char *output = malloc(len * 2 + ((size_t)row_count + 1) * ((size_t)col_count * max_cell_overhead + 2) + 64);
     if (!output) {
         if (align) free(align);
         for (int r = 0; r < row_count; r++) {
@@ -397,10 +410,7 @@ char *apex_csv_to_table(const char *csv_content, bool is_tsv) {
         for (int c = 0; c < col_count; c++) {
             *write++ = ' ';
             if (c < row->cell_count && row->cells[c]) {
-                const char *val = row->cells[c];
-                size_t vlen = strlen(val);
-                memcpy(write, val, vlen);
-                write += vlen;
+                write = write_table_cell(write, row->cells[c]);
             }
             *write++ = ' ';
             *write++ = '|';
@@ -435,10 +445,7 @@ char *apex_csv_to_table(const char *csv_content, bool is_tsv) {
         for (int c = 0; c < col_count; c++) {
             *write++ = ' ';
             if (c < row->cell_count && row->cells[c]) {
-                const char *val = row->cells[c];
-                size_t vlen = strlen(val);
-                memcpy(write, val, vlen);
-                write += vlen;
+                write = write_table_cell(write, row->cells[c]);
             }
             *write++ = ' ';
             *write++ = '|';
-- 
2.43.0


From dd7aa47495f09c1751322b097b2a51aaa04814ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:16 +0000
Subject: [PATCH 098/180] fix: text containing "table:" (such as "vegetable:
 x") is taken for a table caption

---
 src/apex.c | 42 +++++++++++++++++++++++++++++-------------
 1 file changed, 29 insertions(+), 13 deletions(-)

diff --git a/src/apex.c b/src/apex.c
index 7b0ff35..dd6d7a7 100644
--- a/src/apex.c
+++ b/src/apex.c
@@ -1207,6 +1207,13 @@ static char *apex_protect_liquid_tags(const char *text,
     return output;
 }
 
+/* True when the next non-blank line has a pipe */
+static bool table_row_follows(const char *p) {
+    while (*p && isspace((unsigned char)*p)) p++;
+    size_t line_len = strcspn(p, "\r\n");
+    return memchr(p, '|', line_len) != NULL;
+}
+
 /**
  * Preprocess table captions to normalize different syntaxes before parsing.
  *
@@ -1241,6 +1248,8 @@ static char *apex_preprocess_table_captions(const char *text) {
     bool prev_line_was_table_row = false;
     bool prev_line_was_blank = false;
     bool in_code_block = false;
+    char code_fence_char = 0;
+    size_t code_fence_len = 0;
     /* Track if we buffered a blank line that should be skipped if next line is a caption */
     bool buffered_blank_line = false;
     /* Track if we're in a table section (after a table, across blank lines and captions) */
@@ -1280,15 +1289,15 @@ static char *apex_preprocess_table_captions(const char *text) {
         }
 
         /* Track fenced code blocks (``` or ~~~) and skip caption transforms inside */
-        if (!in_code_block &&
-            (line_end - p) >= 3 &&
-            ((p[0] == '`' && p[1] == '`' && p[2] == '`') ||
-             (p[0] == '~' && p[1] == '~' && p[2] == '~'))) {
+        size_t fence_run = 0;
+        while (p + fence_run < line_end && (*p == '`' || *p == '~') && p[fence_run] == *p) {
+            fence_run++;
+        }
+        if (!in_code_block && fence_run >= 3) {
             in_code_block = true;
-        } else if (in_code_block &&
-                   (line_end - p) >= 3 &&
-                   ((p[0] == '`' && p[1] == '`' && p[2] == '`') ||
-                    (p[0] == '~' && p[1] == '~' && p[2] == '~'))) {
+            code_fence_char = *p;
+            code_fence_len = fence_run;
+        } else if (in_code_block && fence_run >= code_fence_len && *p == code_fence_char) {
             in_code_block = false;
         }
 
@@ -1310,17 +1319,24 @@ static char *apex_preprocess_table_captions(const char *text) {
             if (p >= line_end) {
                 is_blank_line = true;
             } else if (*p == '[') {
-                is_bracket_caption_line = true;
+                /* A pipe after the brackets makes it a table row */
+                const char *close = memchr(p, ']', (size_t)(line_end - p));
+                is_bracket_caption_line = !close || !memchr(close, '|', (size_t)(line_end - close));
             } else if ((size_t)(line_end - p) >= 6 &&
                        (strncmp(p, "Table:", 6) == 0 || strncmp(p, "table:", 6) == 0)) {
-                /* Table: at start of line (after whitespace) - always treat as caption */
-                is_pandoc_caption_line = true;
+                /* Table: at start of line (after whitespace) - a caption next to a table */
+                is_pandoc_caption_line = prev_line_was_table_row || in_table_section ||
+                                         table_row_follows(line_end);
             } else if (prev_line_was_table_row || prev_line_was_blank || in_table_section) {
                 /* Also check for Table: later in the line (when it appears immediately after a table row) */
                 const char *table_check = p;
-                while (table_check < line_end - 5) {
+                while (is_table_row_line && table_check < line_end - 5) {
                     if (strncmp(table_check, "Table:", 6) == 0 || strncmp(table_check, "table:", 6) == 0) {
-                        is_pandoc_caption_line = true;
+                        /* after the last pipe of the row */
+                        const char *before = table_check;
+                        while (before > p && (before[-1] == ' ' || before[-1] == '\t')) before--;
+                        is_pandoc_caption_line = before > p && before[-1] == '|' &&
+                                                 !memchr(table_check, '|', (size_t)(line_end - table_check));
                         break;
                     }
                     table_check++;
-- 
2.43.0


From dcb46748ade18a3a88de6a444472a81cef52d0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:45 +0000
Subject: [PATCH 099/180] fix: emoji names in code are replaced, :-1: becomes
 :+1:, clock times are taken for emoji, and many image emoji lose text

---
 src/extensions/emoji.c | 537 +++++++++++------------------------------
 1 file changed, 147 insertions(+), 390 deletions(-)

diff --git a/src/extensions/emoji.c b/src/extensions/emoji.c
index d2c3cd5..425d9f8 100644
--- a/src/extensions/emoji.c
+++ b/src/extensions/emoji.c
@@ -4,6 +4,8 @@
  */
 
 #include <string.h>
+#include <strings.h>
+#include <stdbool.h>
 #include <stdlib.h>
 #include <stdio.h>
 #include <ctype.h>
@@ -29,42 +31,6 @@ static const emoji_entry *find_emoji_entry(const char *name, int len) {
     return NULL;
 }
 
-/**
- * Check if we're inside a header tag (h1-h6)
- * Simple state machine to track if we're between <h1> and </h1> etc.
- */
-static int is_in_header(const char *pos, const char *start) {
-    /* Look backwards for opening header tag */
-    const char *p = pos;
-    int depth = 0;
-
-    while (p >= start) {
-        if (p[0] == '>' && p > start + 3) {
-            /* Check if this is a closing tag */
-            if (p[-1] == '/' && p[-2] == '<') {
-                /* Check for </h1> through </h6> */
-                if (p >= start + 5) {
-                    if ((p[-3] == 'h' || p[-3] == 'H') &&
-                        p[-4] >= '1' && p[-4] <= '6') {
-                        depth--;
-                        if (depth < 0) return 0; /* Outside header */
-                    }
-                }
-            } else if (p > start + 2) {
-                /* Check for <h1> through <h6> */
-                if (p[-1] == 'h' || p[-1] == 'H') {
-                    if (p >= start + 3 && p[-2] >= '1' && p[-2] <= '6' && p[-3] == '<') {
-                        depth++;
-                        if (depth > 0) return 1; /* Inside header */
-                    }
-                }
-            }
-        }
-        p--;
-    }
-    return 0;
-}
-
 /**
  * Check if we're inside an HTML tag attribute
  * Returns 1 if inside an attribute value, 0 otherwise
@@ -219,6 +185,69 @@ const char *apex_find_emoji_name(const char *unicode, size_t unicode_len) {
     return best_match;
 }
 
+/**
+ * Name between colons at read (":name:"): letters, digits, _, + and -.
+ * Returns the closing colon, or NULL if there is no such name.
+ */
+static const char *emoji_name_end(const char *read) {
+    const char *end = read + 1;
+    while (isalnum((unsigned char)*end) || *end == '_' || *end == '+' || *end == '-') end++;
+    if (*end != ':' || end == read + 1 || end - read >= 50) return NULL;
+    return is_table_alignment_pattern(read + 1, end) ? NULL : end;
+}
+
+/**
+ * Find the emoji with a name, ignoring case and taking hyphens for underscores
+ */
+static const emoji_entry *lookup_emoji(const char *name, size_t len) {
+    char normalized[64];
+    if (len >= sizeof(normalized)) return NULL;
+    for (size_t i = 0; i < len; i++) normalized[i] = (char)tolower((unsigned char)name[i]);
+    normalized[len] = '\0';
+    /* Some names contain a hyphen (-1) */
+    const emoji_entry *entry = find_emoji_entry(normalized, (int)len);
+    if (entry) return entry;
+    normalize_emoji_name(normalized);
+    return find_emoji_entry(normalized, (int)strlen(normalized));
+}
+
+/**
+ * End of the code element, script, style sheet or comment that starts at p; NULL if there is none
+ */
+static const char *skip_verbatim_html(const char *p) {
+    static const char *const names[] = {"code", "pre", "script", "style", "textarea"};
+    if (strncmp(p, "<!--", 4) == 0) {
+        const char *close = strstr(p + 4, "-->");
+        return close ? close + 3 : NULL;
+    }
+    for (size_t i = 0; i < sizeof(names) / sizeof(names[0]); i++) {
+        size_t n = strlen(names[i]);
+        if (strncasecmp(p + 1, names[i], n) != 0 || (p[n + 1] != '>' && !isspace((unsigned char)p[n + 1]))) continue;
+        for (const char *close = strstr(p, "</"); close; close = strstr(close + 2, "</")) {
+            if (strncasecmp(close + 2, names[i], n) == 0 && close[n + 2] == '>') return close + n + 3;
+        }
+    }
+    return NULL;
+}
+
+/**
+ * End of the tag that starts at p; NULL if there is none
+ */
+static const char *skip_tag(const char *p) {
+    if (!isalpha((unsigned char)p[1]) && p[1] != '/') return NULL;
+    char quote = 0;
+    for (p++; *p && (quote || *p != '<'); p++) {
+        if (quote) {
+            if (*p == quote) quote = 0;
+        } else if (*p == '"' || *p == '\'') {
+            quote = *p;
+        } else if (*p == '>') {
+            return p + 1;
+        }
+    }
+    return NULL;
+}
+
 /**
  * Replace :emoji: patterns in HTML
  * Handles both unicode and image-based emojis
@@ -226,214 +255,74 @@ const char *apex_find_emoji_name(const char *unicode, size_t unicode_len) {
 char *apex_replace_emoji(const char *html) {
     if (!html) return NULL;
 
-    size_t capacity = strlen(html) * 3;  /* Extra space for image tags */
+    size_t len = strlen(html);
+    size_t capacity = len + 1;
     char *output = malloc(capacity);
     if (!output) return strdup(html);
-
+    size_t out = 0;
     const char *read = html;
-    char *write = output;
-    size_t remaining = capacity;
+    bool in_header = false;
 
     while (*read) {
-        /* Check if we're inside an index placeholder <!--IDX:...--> - if so, skip emoji processing */
-        if (read >= html + 7 && strncmp(read - 7, "<!--IDX:", 8) == 0) {
-            /* Find the end of the placeholder */
-            const char *placeholder_end = strstr(read, "-->");
-            if (placeholder_end) {
-                /* Copy the entire placeholder as-is */
-                size_t placeholder_len = placeholder_end + 3 - read;
-                if (placeholder_len <= remaining) {
-                    memcpy(write, read, placeholder_len);
-                    write += placeholder_len;
-                    remaining -= placeholder_len;
-                    read = placeholder_end + 3;
-                    continue;
+        const char *piece = read;
+        size_t piece_len = 1;
+        const char *next = read + 1;
+        char image[512];
+
+        if (*read == '<') {
+            /* Names in code, comments and tags are no emoji */
+            const char *end = skip_verbatim_html(read);
+            if (!end) {
+                bool closing = read[1] == '/';
+                const char *name = read + 1 + (closing ? 1 : 0);
+                if ((*name == 'h' || *name == 'H') && name[1] >= '1' && name[1] <= '6' && !isalnum((unsigned char)name[2])) {
+                    in_header = !closing;
                 }
+                end = skip_tag(read);
             }
-        }
-
-        if (*read == ':') {
-            /* Check if we're inside an HTML tag attribute - if so, skip emoji processing */
-            if (is_inside_html_attribute(read, html)) {
-                /* Inside HTML attribute, copy as-is */
-                if (remaining > 0) {
-                    *write++ = *read++;
-                    remaining--;
-                } else {
-                    read++;
-                }
-                continue;
+            if (end) {
+                piece_len = (size_t)(end - read);
+                next = end;
             }
-
-            /* Also check if we're inside an <img> tag (even if not in an attribute) */
-            /* This prevents processing emoji patterns that are part of img tag content */
-            /* Handles both raw HTML (<img>) and HTML-encoded tags (&lt;img&gt;) */
-            const char *img_check = read - 1;
-            while (img_check >= html && img_check > read - 50) {
-                if (*img_check == '>') {
-                    break;  /* Hit tag end, we're outside */
-                } else if (*img_check == '<') {
-                    /* Check if this is an <img> tag */
-                    if (img_check + 4 < read &&
-                        (img_check[1] == 'i' || img_check[1] == 'I') &&
-                        (img_check[2] == 'm' || img_check[2] == 'M') &&
-                        (img_check[3] == 'g' || img_check[3] == 'G') &&
-                        (isspace((unsigned char)img_check[4]) || img_check[4] == '>')) {
-                        /* We're inside an <img> tag - skip emoji processing */
-                        if (remaining > 0) {
-                            *write++ = *read++;
-                            remaining--;
-                        } else {
-                            read++;
-                        }
-                        continue;
-                    }
-                    break;
-                } else if (img_check >= html + 3 && img_check[-2] == '&' && img_check[-1] == 'l' && *img_check == 't' && img_check[1] == ';') {
-                    /* Found &lt; (encoded <) - check if this is an &lt;img&gt; tag */
-                    const char *tag_start = img_check - 2;
-                    if (tag_start + 6 < read &&
-                        (tag_start[3] == 'i' || tag_start[3] == 'I') &&
-                        (tag_start[4] == 'm' || tag_start[4] == 'M') &&
-                        (tag_start[5] == 'g' || tag_start[5] == 'G') &&
-                        (isspace((unsigned char)tag_start[6]) || (tag_start + 6 < read && tag_start[6] == '&'))) {
-                        /* We're inside an &lt;img&gt; tag - skip emoji processing */
-                        if (remaining > 0) {
-                            *write++ = *read++;
-                            remaining--;
-                        } else {
-                            read++;
-                        }
-                        continue;
-                    }
-                    break;
-                }
-                img_check--;
-            }
-
-            /* Look for closing : */
-            const char *end = strchr(read + 1, ':');
-            if (end && (end - read) < 50) {  /* Reasonable emoji name length */
-                /* Extract emoji name */
-                int name_len = end - (read + 1);
-                const char *name_start = read + 1;
-
-                /* Validate: must have at least one character and no spaces */
-                if (name_len > 0) {
-                    /* Check for spaces in the name */
-                    int has_space = 0;
-                    for (int i = 0; i < name_len; i++) {
-                        if (name_start[i] == ' ' || name_start[i] == '\t' || name_start[i] == '\n') {
-                            has_space = 1;
-                            break;
-                        }
-                    }
-
-                    /* Skip if it contains only table alignment characters (pipes, dashes, colons) */
-                    if (!has_space && is_table_alignment_pattern(name_start, end)) {
-                        /* This is a table alignment pattern like :---:, :|:, :|---:, etc. */
-                        /* Copy the colon pair as-is */
-                        size_t pattern_len = end - read + 1;
-                        if (pattern_len < remaining) {
-                            memcpy(write, read, pattern_len);
-                            write += pattern_len;
-                            remaining -= pattern_len;
-                        }
-                        read = end + 1;
-                        continue;
-                    }
-
-                    if (!has_space) {
-                        /* Normalize the name for comparison */
-                        char normalized[64];
-                        if ((size_t)name_len >= sizeof(normalized)) {
-                            name_len = sizeof(normalized) - 1;
-                        }
-                        memcpy(normalized, name_start, name_len);
-                        normalized[name_len] = '\0';
-                        normalize_emoji_name(normalized);
-                        size_t normalized_len = strlen(normalized);
-
-                        const emoji_entry *entry = find_emoji_entry(normalized, (int)normalized_len);
-
-                        if (entry) {
-                            int in_header = is_in_header(read, html);
-
-                            if (entry->unicode) {
-                                /* Unicode emoji */
-                                size_t emoji_len = strlen(entry->unicode);
-                                if (emoji_len < remaining) {
-                                    memcpy(write, entry->unicode, emoji_len);
-                                    write += emoji_len;
-                                    remaining -= emoji_len;
-                                    read = end + 1;
-                                    continue;
-                                } else {
-                                    /* Not enough space, copy original pattern as-is */
-                                    size_t pattern_len = end - read + 1;
-                                    if (pattern_len < remaining) {
-                                        memcpy(write, read, pattern_len);
-                                        write += pattern_len;
-                                        remaining -= pattern_len;
-                                    }
-                                    read = end + 1;
-                                    continue;
-                                }
-                            } else if (entry->image_url) {
-                                /* Image-based emoji */
-                                const char *img_tag;
-                                if (in_header) {
-                                    /* In header: use em units for sizing */
-                                    img_tag = "<img class=\"emoji\" src=\"%s\" alt=\":%s:\" style=\"height: 1em; width: auto; vertical-align: middle;\">";
-                                } else {
-                                    /* Regular text: use fixed size */
-                                    img_tag = "<img class=\"emoji\" src=\"%s\" alt=\":%s:\" height=\"20\" width=\"20\" align=\"absmiddle\">";
-                                }
-
-                                int needed = snprintf(write, remaining, img_tag, entry->image_url, entry->name);
-                                if (needed > 0 && (size_t)needed < remaining) {
-                                    write += needed;
-                                    remaining -= needed;
-                                    read = end + 1;
-                                    continue;
-                                } else {
-                                    /* Not enough space, copy original pattern as-is */
-                                    size_t pattern_len = end - read + 1;
-                                    if (pattern_len < remaining) {
-                                        memcpy(write, read, pattern_len);
-                                        write += pattern_len;
-                                        remaining -= pattern_len;
-                                    }
-                                    read = end + 1;
-                                    continue;
-                                }
-                            }
-                        } else {
-                            /* No match found, copy the entire pattern as-is */
-                            size_t pattern_len = end - read + 1;
-                            if (pattern_len < remaining) {
-                                memcpy(write, read, pattern_len);
-                                write += pattern_len;
-                                remaining -= pattern_len;
-                            }
-                            read = end + 1;
-                            continue;
-                        }
-                    }
+        } else if (*read == ':') {
+            const char *end = emoji_name_end(read);
+            const emoji_entry *entry = end && !is_inside_html_attribute(read, html)
+                ? lookup_emoji(read + 1, (size_t)(end - read - 1)) : NULL;
+            if (entry && entry->unicode) {
+                piece = entry->unicode;
+                piece_len = strlen(piece);
+                next = end + 1;
+            } else if (entry && entry->image_url) {
+                /* In header: use em units for sizing; regular text: use fixed size */
+                const char *img_tag = in_header
+                    ? "<img class=\"emoji\" src=\"%s\" alt=\":%s:\" style=\"height: 1em; width: auto; vertical-align: middle;\">"
+                    : "<img class=\"emoji\" src=\"%s\" alt=\":%s:\" height=\"20\" width=\"20\" align=\"absmiddle\">";
+                int needed = snprintf(image, sizeof(image), img_tag, entry->image_url, entry->name);
+                if (needed > 0 && (size_t)needed < sizeof(image)) {
+                    piece = image;
+                    piece_len = (size_t)needed;
+                    next = end + 1;
                 }
             }
         }
 
-        /* Not an emoji pattern, copy character */
-        if (remaining > 0) {
-            *write++ = *read++;
-            remaining--;
-        } else {
-            read++;
+        /* Room for this piece and the rest of the text */
+        size_t rest = len - (size_t)(next - html);
+        if (out + piece_len + rest + 1 > capacity) {
+            capacity = out + piece_len + rest + 1 + capacity / 2;
+            char *grown = realloc(output, capacity);
+            if (!grown) {
+                free(output);
+                return strdup(html);
+            }
+            output = grown;
         }
+        memcpy(output + out, piece, piece_len);
+        out += piece_len;
+        read = next;
     }
 
-    *write = '\0';
+    output[out] = '\0';
     return output;
 }
 
@@ -458,62 +347,19 @@ char *apex_replace_emoji_text(const char *text) {
 
     while (*read) {
         if (*read == ':') {
-            /* Look for closing : */
-            const char *end = strchr(read + 1, ':');
-            if (end && (end - read) < 50) {  /* Reasonable emoji name length */
-                /* Extract emoji name */
-                int name_len = (int)(end - (read + 1));
-                const char *name_start = read + 1;
-
-                if (name_len > 0) {
-                    /* Reject names containing whitespace */
-                    int has_space = 0;
-                    for (int i = 0; i < name_len; i++) {
-                        char ch = name_start[i];
-                        if (ch == ' ' || ch == '\t' || ch == '\n' || ch == '\r') {
-                            has_space = 1;
-                            break;
-                        }
-                    }
-
-                    /* Skip common table alignment patterns like :---: */
-                    if (!has_space && is_table_alignment_pattern(name_start, end)) {
-                        size_t pattern_len = (size_t)(end - read + 1);
-                        if (pattern_len <= remaining) {
-                            memcpy(write, read, pattern_len);
-                            write += pattern_len;
-                            remaining -= pattern_len;
-                        }
-                        read = end + 1;
-                        continue;
-                    }
-
-                    if (!has_space) {
-                        /* Normalize name and look up in emoji table */
-                        char normalized[64];
-                        if ((size_t)name_len >= sizeof(normalized)) {
-                            name_len = (int)sizeof(normalized) - 1;
-                        }
-                        memcpy(normalized, name_start, (size_t)name_len);
-                        normalized[name_len] = '\0';
-                        normalize_emoji_name(normalized);
-                        size_t normalized_len = strlen(normalized);
-
-                        const emoji_entry *entry = find_emoji_entry(normalized, (int)normalized_len);
-                        if (entry && entry->unicode) {
-                            /* Substitute Unicode emoji */
-                            size_t emoji_len = strlen(entry->unicode);
-                            if (emoji_len <= remaining) {
-                                memcpy(write, entry->unicode, emoji_len);
-                                write += emoji_len;
-                                remaining -= emoji_len;
-                                read = end + 1;
-                                continue;
-                            }
-                            /* If not enough space, fall through and copy pattern as-is */
-                        }
-                    }
+            const char *end = emoji_name_end(read);
+            const emoji_entry *entry = end ? lookup_emoji(read + 1, (size_t)(end - read - 1)) : NULL;
+            if (entry && entry->unicode) {
+                /* Substitute Unicode emoji */
+                size_t emoji_len = strlen(entry->unicode);
+                if (emoji_len <= remaining) {
+                    memcpy(write, entry->unicode, emoji_len);
+                    write += emoji_len;
+                    remaining -= emoji_len;
+                    read = end + 1;
+                    continue;
                 }
+                /* If not enough space, fall through and copy pattern as-is */
             }
         }
 
@@ -684,112 +530,23 @@ char *apex_autocorrect_emoji_names(const char *text) {
 
     while (*read) {
         if (*read == ':') {
-            /* Look for closing : */
-            const char *end = strchr(read + 1, ':');
-            if (end && (end - read) < 50) {  /* Reasonable emoji name length */
-                /* Extract emoji name */
-                int name_len = end - (read + 1);
-                const char *name_start = read + 1;
-
-                    /* Validate: must have at least one character and no spaces */
-                if (name_len > 0) {
-                    /* Check for spaces in the name */
-                    int has_space = 0;
-                    for (int i = 0; i < name_len; i++) {
-                        if (name_start[i] == ' ' || name_start[i] == '\t' || name_start[i] == '\n') {
-                            has_space = 1;
-                            break;
-                        }
-                    }
-
-                    /* Skip if it contains only table alignment characters (pipes, dashes, colons) */
-                    if (!has_space && is_table_alignment_pattern(name_start, end)) {
-                        /* This is a table alignment pattern like :---:, :|:, :|---:, etc. */
-                        /* Copy the colon pair as-is */
-                        size_t pattern_len = end - read + 1;
-                        if (pattern_len < remaining) {
-                            memcpy(write, read, pattern_len);
-                            write += pattern_len;
-                            remaining -= pattern_len;
-                        }
-                        read = end + 1;
-                        continue;
-                    }
-
-                    if (!has_space) {
-                        /* Normalize the name for comparison */
-                        char normalized[64];
-                        if ((size_t)name_len >= sizeof(normalized)) {
-                            name_len = sizeof(normalized) - 1;
-                        }
-                        memcpy(normalized, name_start, name_len);
-                        normalized[name_len] = '\0';
-                        normalize_emoji_name(normalized);
-                        size_t normalized_len = strlen(normalized);
-
-                        /* Check if it's already correct (using normalized name) */
-                        const emoji_entry *entry = find_emoji_entry(normalized, (int)normalized_len);
-
-                        if (entry) {
-                            /* Already correct (after normalization), write normalized version */
-                            /* Check if we have enough space for :name: */
-                            if (normalized_len + 2 <= remaining) {
-                                *write++ = ':';
-                                remaining--;
-                                memcpy(write, normalized, normalized_len);
-                                write += normalized_len;
-                                remaining -= normalized_len;
-                                *write++ = ':';
-                                remaining--;
-                            } else {
-                                /* Not enough space, copy original pattern as-is */
-                                size_t pattern_len = end - read + 1;
-                                if (pattern_len < remaining) {
-                                    memcpy(write, read, pattern_len);
-                                    write += pattern_len;
-                                    remaining -= pattern_len;
-                                }
-                            }
-                            read = end + 1;
-                            continue;
-                        } else {
-                            /* Try fuzzy matching */
-                            const char *best_match = find_best_emoji_match(name_start, (size_t)name_len, 4);
-                            if (best_match) {
-                                /* Replace with corrected name */
-                                size_t match_len = strlen(best_match);
-                                /* Check if we have enough space for :name: */
-                                if (match_len + 2 <= remaining) {
-                                    *write++ = ':';
-                                    remaining--;
-                                    memcpy(write, best_match, match_len);
-                                    write += match_len;
-                                    remaining -= match_len;
-                                    *write++ = ':';
-                                    remaining--;
-                                } else {
-                                    /* Not enough space, copy original pattern as-is */
-                                    size_t pattern_len = end - read + 1;
-                                    if (pattern_len < remaining) {
-                                        memcpy(write, read, pattern_len);
-                                        write += pattern_len;
-                                        remaining -= pattern_len;
-                                    }
-                                }
-                                read = end + 1;
-                                continue;
-                            }
-                            /* No match found, copy the entire pattern as-is */
-                            size_t pattern_len = end - read + 1;
-                            if (pattern_len < remaining) {
-                                memcpy(write, read, pattern_len);
-                                write += pattern_len;
-                                remaining -= pattern_len;
-                            }
-                            read = end + 1;
-                            continue;
-                        }
-                    }
+            const char *end = emoji_name_end(read);
+            /* Colons within a word (10:30:45) do not enclose a name */
+            bool in_word = end && read > text && isalnum((unsigned char)read[-1]) && isalnum((unsigned char)end[1]);
+            if (end && !in_word) {
+                size_t name_len = (size_t)(end - read - 1);
+                const emoji_entry *entry = lookup_emoji(read + 1, name_len);
+                /* Without an emoji of that name, try fuzzy matching */
+                const char *name = entry ? entry->name : find_best_emoji_match(read + 1, name_len, 4);
+                size_t match_len = name ? strlen(name) : 0;
+                if (name && match_len + 2 < remaining) {
+                    *write++ = ':';
+                    memcpy(write, name, match_len);
+                    write += match_len;
+                    *write++ = ':';
+                    remaining -= match_len + 2;
+                    read = end + 1;
+                    continue;
                 }
             }
         }
-- 
2.43.0


From 26f28eea1eeb9c9a70f3e0dd2319dc34d00bbedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:45 +0000
Subject: [PATCH 100/180] fix: definition lists are looked for in code fences
 of tildes and in block quotes

---
 src/extensions/definition_list.c | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/extensions/definition_list.c b/src/extensions/definition_list.c
index 02a9015..e179c34 100644
--- a/src/extensions/definition_list.c
+++ b/src/extensions/definition_list.c
@@ -690,6 +690,9 @@ char *apex_process_definition_lists(const char *text, bool unsafe) {
     int term_blockquote_depth = 0;  /* Track blockquote depth of buffered term */
     bool found_any_def_list = false;  /* Track if we actually created any definition lists */
     bool in_code_block = false;  /* Track if we're inside a fenced code block */
+    char fence_char = 0;         /* Character and length of its opening fence */
+    size_t fence_len = 0;
+    bool fence_quoted = false;   /* In a block quote, with which it ends */
     bool skipped_blank_after_term = false;  /* Track if we skipped a blank line after a buffered term */
 
     const char *prev_read_pos = NULL;
@@ -726,18 +729,31 @@ char *apex_process_definition_lists(const char *text, bool unsafe) {
 
         size_t line_length = line_end - line_start;
 
-        /* Check for fenced code blocks (```) */
+        /* Check for fenced code blocks (``` or ~~~) */
         const char *code_check = line_start;
-        while (code_check < line_end && (*code_check == ' ' || *code_check == '\t')) code_check++;
+        while (code_check < line_end && (*code_check == ' ' || *code_check == '\t' || *code_check == '>')) code_check++;
         bool is_code_fence = false;
         bool is_closing_fence = false;  /* True if this is a closing fence (no language identifier) */
-        if (code_check + 3 <= line_end &&
-            code_check[0] == '`' && code_check[1] == '`' && code_check[2] == '`') {
+        size_t fence_run = 0;
+        while (code_check + fence_run < line_end && (*code_check == '`' || *code_check == '~') &&
+               code_check[fence_run] == *code_check) {
+            fence_run++;
+        }
+        if (fence_run >= 3 && (in_code_block ? *code_check == fence_char && fence_run >= fence_len
+                                             : !(*code_check == '`' && memchr(code_check + fence_run, '`', line_end - code_check - fence_run)))) {
             is_code_fence = true;
             /* Check if this is a closing fence (just ``` with optional whitespace, no language identifier) */
-            const char *after_fence = code_check + 3;
+            const char *after_fence = code_check + fence_run;
             while (after_fence < line_end && (*after_fence == ' ' || *after_fence == '\t')) after_fence++;
             is_closing_fence = (after_fence >= line_end || *after_fence == '\n' || *after_fence == '\r');
+            if (!in_code_block) {
+                fence_char = *code_check;
+                fence_len = fence_run;
+                fence_quoted = memchr(line_start, '>', code_check - line_start) != NULL;
+            }
+        } else if (in_code_block && fence_quoted && !memchr(line_start, '>', code_check - line_start)) {
+            /* The block quote with the code block has ended */
+            in_code_block = false;
         }
 
         /* If we're inside a code block OR this is a code fence line, just copy the line as-is */
-- 
2.43.0


From 17220d040aafae125b8554eb8a736c26c3df9d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:45 +0000
Subject: [PATCH 101/180] fix: code blocks and code spans are changed by the
 syntax of other extensions

---
 src/apex.c | 358 ++++++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 356 insertions(+), 2 deletions(-)

diff --git a/src/apex.c b/src/apex.c
index dd6d7a7..de5ff58 100644
--- a/src/apex.c
+++ b/src/apex.c
@@ -1010,6 +1010,321 @@ static char *apex_preprocess_autolinks(const char *text, const apex_options *opt
     return out;
 }
 
+/* ------------------------------------------------------------------------- */
+/* Code protection                                                           */
+/*                                                                           */
+/* The text passes that run before parsing must not touch code. The lines of */
+/* code blocks and the contents of code spans are replaced by tokens (a      */
+/* number between two U+FDD1) while they run.                                */
+/* ------------------------------------------------------------------------- */
+
+#define APEX_CODE_TOKEN_MARK "\xEF\xB7\x91"
+
+typedef struct {
+    char **items;
+    size_t count, capacity;
+    bool disabled;              /* the text uses the mark itself */
+} apex_code_store;
+
+typedef struct {
+    char *data;
+    size_t len, capacity;
+    bool failed;
+} apex_text_buffer;
+
+static void text_buffer_add(apex_text_buffer *buf, const char *text, size_t len) {
+    if (buf->failed) return;
+    if (buf->len + len + 1 > buf->capacity) {
+        size_t capacity = (buf->len + len + 1) * 2;
+        char *data = realloc(buf->data, capacity);
+        if (!data) {
+            buf->failed = true;
+            return;
+        }
+        buf->data = data;
+        buf->capacity = capacity;
+    }
+    memcpy(buf->data + buf->len, text, len);
+    buf->len += len;
+    buf->data[buf->len] = '\0';
+}
+
+/* Add a piece of code (within one line, without its indentation) as a token */
+static void add_code_token(apex_text_buffer *buf, apex_code_store *store, const char *code, size_t len) {
+    bool plain = true;
+    bool has_token = false;
+    for (size_t i = 0; i < len; i++) {
+        if (!isalnum((unsigned char)code[i]) && code[i] != ' ') plain = false;
+        if (strncmp(code + i, APEX_CODE_TOKEN_MARK, 3) == 0) has_token = true;
+    }
+    if (!plain && !has_token && store->count == store->capacity) {
+        size_t capacity = store->capacity ? store->capacity * 2 : 16;
+        char **items = realloc(store->items, capacity * sizeof(char *));
+        if (items) {
+            store->items = items;
+            store->capacity = capacity;
+        }
+    }
+    char *copy = plain || has_token || store->count == store->capacity ? NULL : strndup(code, len);
+    if (!copy) {
+        text_buffer_add(buf, code, len);
+        return;
+    }
+    char token[40];
+    int token_len = snprintf(token, sizeof(token), APEX_CODE_TOKEN_MARK "%zu" APEX_CODE_TOKEN_MARK, store->count);
+    store->items[store->count++] = copy;
+    text_buffer_add(buf, token, (size_t)token_len);
+}
+
+/* Add code line by line; the indentation and quote markers of its lines and
+ * (in code spans, for tables) its pipes stay as they are */
+static void add_code(apex_text_buffer *buf, apex_code_store *store, const char *code, size_t len, bool span) {
+    const char *end = code + len;
+    bool line_start = !span;
+    while (code < end) {
+        const char *p = code;
+        while (p < end && (*p == ' ' || *p == '\t' || *p == '\n' || *p == '\r' || (line_start && *p == '>') || (span && *p == '|'))) {
+            if (*p == '\n') line_start = true;
+            p++;
+        }
+        text_buffer_add(buf, code, (size_t)(p - code));
+        code = p;
+        while (p < end && *p != '\n' && !(span && *p == '|')) p++;
+        const char *piece_end = p;
+        while (piece_end > code && (isspace((unsigned char)piece_end[-1]) ||
+                                    (span && p < end && *p == '|' && piece_end[-1] == '\\'))) {
+            piece_end--;
+        }
+        if (piece_end > code) add_code_token(buf, store, code, (size_t)(piece_end - code));
+        text_buffer_add(buf, piece_end, (size_t)(p - piece_end));
+        line_start = false;
+        code = p;
+    }
+}
+
+/* Skip the indentation, quote markers and (unless content_only) list markers of a line */
+static const char *skip_line_prefix(const char *p, const char *end, bool content_only, bool *quoted) {
+    for (;;) {
+        while (p < end && (*p == ' ' || *p == '\t' || *p == '>')) {
+            if (*p == '>') *quoted = true;
+            p++;
+        }
+        if (content_only || p + 1 >= end) return p;
+        const char *m = p;
+        if (*m == '-' || *m == '*' || *m == '+') {
+            m++;
+        } else {
+            while (m < end && isdigit((unsigned char)*m) && m - p < 9) m++;
+            if (m == p || m >= end || (*m != '.' && *m != ')')) return p;
+            m++;
+        }
+        if (m >= end || (*m != ' ' && *m != '\t')) return p;
+        p = m;
+    }
+}
+
+/* End of raw HTML code, script, style, comment or Liquid tag at p; NULL if there is none.
+ * unclosed remembers the kinds that are not closed in the rest of the text. */
+static const char *skip_raw_region(const char *p, unsigned *unclosed) {
+    static const char *const names[] = {"pre", "code", "script", "style", "textarea"};
+    if (strncmp(p, "<!--", 4) == 0 || strncmp(p, "{%", 2) == 0) {
+        const char *end_mark = *p == '<' ? "-->" : "%}";
+        unsigned bit = *p == '<' ? 1 : 2;
+        const char *close = *unclosed & bit ? NULL : strstr(p + 2, end_mark);
+        if (!close) *unclosed |= bit;
+        return close ? close + strlen(end_mark) : NULL;
+    }
+    if (*p != '<') return NULL;
+    for (size_t i = 0; i < sizeof(names) / sizeof(names[0]); i++) {
+        size_t n = strlen(names[i]);
+        if (strncasecmp(p + 1, names[i], n) != 0 || (p[n + 1] != '>' && !isspace((unsigned char)p[n + 1]))) continue;
+        if (*unclosed & (4u << i)) return NULL;
+        for (const char *close = strstr(p, "</"); close; close = strstr(close + 2, "</")) {
+            if (strncasecmp(close + 2, names[i], n) == 0 && close[n + 2] == '>') return close + n + 3;
+        }
+        *unclosed |= 4u << i;
+    }
+    return NULL;
+}
+
+/* Replace code in text by tokens; NULL if there is nothing to do */
+static char *apex_protect_code(const char *text, apex_code_store *store) {
+    if (!text || store->disabled) return NULL;
+    if (store->count == 0 && strstr(text, APEX_CODE_TOKEN_MARK)) {
+        store->disabled = true;
+        return NULL;
+    }
+
+    apex_text_buffer buf = {0};
+    size_t first_token = store->count;
+    const char *p = text;
+    bool prev_blank = true;
+    bool in_list = false;
+    unsigned unclosed = 0;
+
+    while (*p && !buf.failed) {
+        /* At the start of a line */
+        const char *line_end = p + strcspn(p, "\n");
+        const char *next = *line_end ? line_end + 1 : line_end;
+        bool quoted = false;
+        const char *content = skip_line_prefix(p, line_end, true, &quoted);
+        if (content == line_end || (content + 1 == line_end && *content == '\r')) {
+            text_buffer_add(&buf, p, (size_t)(next - p));
+            p = next;
+            prev_blank = true;
+            continue;
+        }
+
+        /* Fenced code block */
+        const char *mark = skip_line_prefix(p, line_end, false, &quoted);
+        size_t run = 0;
+        while (mark + run < line_end && (*mark == '`' || *mark == '~') && mark[run] == *mark) run++;
+        if (run >= 3 && !(*mark == '`' && memchr(mark + run, '`', (size_t)(line_end - mark - run)))) {
+            const char *info = mark + run;
+            while (info < line_end && isspace((unsigned char)*info)) info++;
+            const char *info_end = line_end;
+            while (info_end > info && isspace((unsigned char)info_end[-1])) info_end--;
+            bool is_table = *mark == '`' && info_end - info == 5 && strncasecmp(info, "table", 5) == 0;
+            const char *code = next;
+            const char *code_end = code;
+            const char *after = NULL;
+            while (*code_end && !after) {
+                const char *eol = code_end + strcspn(code_end, "\n");
+                bool line_quoted = false;
+                const char *q = skip_line_prefix(code_end, eol, true, &line_quoted);
+                size_t n = 0;
+                while (q + n < eol && q[n] == *mark) n++;
+                const char *rest = q + n;
+                while (rest < eol && isspace((unsigned char)*rest)) rest++;
+                if (n >= run && rest == eol) {
+                    after = *eol ? eol + 1 : eol;
+                } else if (quoted && !line_quoted) {
+                    after = code_end;
+                } else {
+                    code_end = *eol ? eol + 1 : eol;
+                }
+            }
+            if (!after) after = code_end;
+            text_buffer_add(&buf, p, (size_t)(code - p));
+            if (is_table) {
+                text_buffer_add(&buf, code, (size_t)(code_end - code));
+            } else {
+                add_code(&buf, store, code, (size_t)(code_end - code), false);
+            }
+            text_buffer_add(&buf, code_end, (size_t)(after - code_end));
+            p = after;
+            prev_blank = false;
+            continue;
+        }
+
+        /* Indented code block (indented text after list items, notes and definitions is not) */
+        int indent = 0;
+        const char *q = p;
+        while (q < line_end && (*q == ' ' || *q == '\t')) indent += *q++ == '\t' ? 4 : 1;
+        if (indent < 4) {
+            bool item = mark != content || *content == ':' || (*content == '[' && content[1] == '^') ||
+                        (isalnum((unsigned char)*content) && (content[1] == '.' || content[1] == ')'));
+            if (item) {
+                in_list = true;
+            } else if (prev_blank && indent < 2) {
+                in_list = false;
+            }
+        } else if (prev_blank && !in_list) {
+            add_code(&buf, store, p, (size_t)(next - p), false);
+            p = next;
+            continue;
+        }
+        prev_blank = false;
+
+        /* Code spans; they may end on a later line of the same paragraph */
+        while (*p && p < next) {
+            size_t ticks = 0;
+            const char *skipped;
+            if (*p == '\\' && p[1] == '`') {
+                text_buffer_add(&buf, p, 2);
+                p += 2;
+            } else if (*p == '`') {
+                while (p[ticks] == '`') ticks++;
+                const char *close = NULL;
+                for (const char *s = p + ticks; *s && !close; ) {
+                    if (*s == '\n') {
+                        const char *eol = s + 1 + strcspn(s + 1, "\n");
+                        bool ignored = false;
+                        const char *c = skip_line_prefix(s + 1, eol, true, &ignored);
+                        if (c == eol || *c == '\r') break;
+                        s++;
+                    } else if (*s == '`') {
+                        size_t n = 0;
+                        while (s[n] == '`') n++;
+                        if (n == ticks) close = s;
+                        s += n;
+                    } else {
+                        s++;
+                    }
+                }
+                text_buffer_add(&buf, p, ticks);
+                p += ticks;
+                if (close) {
+                    add_code(&buf, store, p, (size_t)(close - p), true);
+                    text_buffer_add(&buf, close, ticks);
+                    p = close + ticks;
+                }
+            } else if ((skipped = skip_raw_region(p, &unclosed)) != NULL) {
+                text_buffer_add(&buf, p, (size_t)(skipped - p));
+                p = skipped;
+            } else {
+                text_buffer_add(&buf, p, 1);
+                p++;
+            }
+            if (p >= next && p[-1] != '\n') {
+                /* A span or raw region ended on a later line: go on with that line */
+                next = p + strcspn(p, "\n");
+                if (*next) next++;
+            }
+        }
+    }
+
+    if (buf.failed || store->count == first_token) {
+        free(buf.data);
+        return NULL;
+    }
+    return buf.data;
+}
+
+/* Replace the tokens of apex_protect_code by the code again; NULL if there are none */
+static char *apex_restore_code(const char *text, const apex_code_store *store) {
+    if (!text || store->count == 0) return NULL;
+    apex_text_buffer buf = {0};
+    for (const char *p = text; *p; ) {
+        const char *mark = strstr(p, APEX_CODE_TOKEN_MARK);
+        if (!mark) {
+            text_buffer_add(&buf, p, strlen(p));
+            break;
+        }
+        text_buffer_add(&buf, p, (size_t)(mark - p));
+        char *number_end = NULL;
+        unsigned long index = strtoul(mark + 3, &number_end, 10);
+        if (number_end > mark + 3 && strncmp(number_end, APEX_CODE_TOKEN_MARK, 3) == 0 && index < store->count) {
+            text_buffer_add(&buf, store->items[index], strlen(store->items[index]));
+            p = number_end + 3;
+        } else {
+            text_buffer_add(&buf, mark, 3);
+            p = mark + 3;
+        }
+    }
+    if (buf.failed) {
+        free(buf.data);
+        return NULL;
+    }
+    return buf.data;
+}
+
+static void apex_free_code_store(apex_code_store *store) {
+    for (size_t i = 0; i < store->count; i++) free(store->items[i]);
+    free(store->items);
+    memset(store, 0, sizeof(*store));
+}
+
 /* ------------------------------------------------------------------------- */
 /* Liquid tag protection                                                     */
 /*                                                                           */
@@ -4082,7 +4397,13 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
     char **liquid_tags = NULL;
     size_t liquid_tag_count = 0;
     char *liquid_protected = NULL;
-
+    /* Code is kept out of the text passes */
+    apex_code_store code_store = {0};
+    char *code_protected = NULL;
+    char *included_code_protected = NULL;
+    char *code_restored = NULL;
+    char *critic_code_protected = NULL;
+    char *critic_code_restored = NULL;
 
     if (getenv("APEX_DEBUG_PIPELINE")) {
         size_t len = strlen(text_ptr);
@@ -4106,6 +4427,9 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
                     len, text_ptr, len > 200 ? "..." : "");
         }
 
+        code_protected = apex_protect_code(text_ptr, &code_store);
+        if (code_protected) text_ptr = code_protected;
+
         /* Extract ALDs for Kramdown */
         if (options->mode == APEX_MODE_KRAMDOWN || options->mode == APEX_MODE_UNIFIED) {
             alds = apex_extract_alds(&text_ptr);
@@ -4327,6 +4651,10 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
         PROFILE_END(includes);
         if (includes_processed) {
             text_ptr = includes_processed;
+            if (code_protected) {
+                included_code_protected = apex_protect_code(text_ptr, &code_store);
+                if (included_code_protected) text_ptr = included_code_protected;
+            }
         }
     }
 
@@ -4585,6 +4913,9 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
         }
     }
 
+    code_restored = apex_restore_code(text_ptr, &code_store);
+    if (code_restored) text_ptr = code_restored;
+
     /* Process definition lists before parsing (preprocessing) */
     char *deflist_processed = NULL;
     if (options->enable_definition_lists) {
@@ -4601,7 +4932,15 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
     char *fenced_divs_processed = NULL;
     if (options->enable_divs && options->mode == APEX_MODE_UNIFIED) {
         PROFILE_START(fenced_divs);
-        fenced_divs_processed = apex_process_fenced_divs(text_ptr);
+        apex_free_code_store(&code_store);
+        char *without_code = apex_protect_code(text_ptr, &code_store);
+        fenced_divs_processed = apex_process_fenced_divs(without_code ? without_code : text_ptr);
+        char *with_code = apex_restore_code(fenced_divs_processed, &code_store);
+        if (with_code) {
+            free(fenced_divs_processed);
+            fenced_divs_processed = with_code;
+        }
+        free(without_code);
         PROFILE_END(fenced_divs);
         if (fenced_divs_processed) {
             text_ptr = fenced_divs_processed;
@@ -4619,6 +4958,13 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
         }
     }
 
+    /* Definition lists, divs and Markdown in HTML contain whole blocks; what follows changes text only */
+    if (options->mode != APEX_MODE_COMMONMARK) {
+        apex_free_code_store(&code_store);
+        critic_code_protected = apex_protect_code(text_ptr, &code_store);
+        if (critic_code_protected) text_ptr = critic_code_protected;
+    }
+
     /* Process hashtags: convert #tags to span-wrapped hashtags */
     char *hashtags_processed = NULL;
     if (options->enable_hashtags && text_ptr) {
@@ -4995,6 +5341,9 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
             text_ptr = critic_processed;
         }
     }
+    critic_code_restored = apex_restore_code(text_ptr, &code_store);
+    if (critic_code_restored) text_ptr = critic_code_restored;
+    apex_free_code_store(&code_store);
 
     /* Protect Liquid {% ... %} tags so they are not modified by later
      * processing (including parsing, math, and autolinks). We'll restore
@@ -5747,6 +6096,11 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
     if (inserts_processed) free(inserts_processed);
     if (alpha_lists_processed) free(alpha_lists_processed);
     if (relaxed_tables_processed) free(relaxed_tables_processed);
+    free(code_protected);
+    free(included_code_protected);
+    free(code_restored);
+    free(critic_code_protected);
+    free(critic_code_restored);
     if (headerless_tables_processed) free(headerless_tables_processed);
     if (table_captions_processed) free(table_captions_processed);
     if (deflist_processed) free(deflist_processed);
-- 
2.43.0


From 25300b1925b030c061dc0e6beaacb826c5f8823c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:09 +0000
Subject: [PATCH 102/180] fix: proofreader mode breaks setext headings, tilde
 fences, table rows and CriticMarkup

---
 src/apex.c | 161 ++++++++++++++++-------------------------------------
 1 file changed, 49 insertions(+), 112 deletions(-)

diff --git a/src/apex.c b/src/apex.c
index de5ff58..4af74f7 100644
--- a/src/apex.c
+++ b/src/apex.c
@@ -1010,6 +1010,25 @@ static char *apex_preprocess_autolinks(const char *text, const apex_options *opt
     return out;
 }
 
+/**
+ * For proofreader mode: the closing == or ~~ of the pair that opens at p, or NULL if none does.
+ * The pair encloses text of one paragraph; longer runs are underlines, fences and table rows,
+ * and pairs in braces are CriticMarkup already.
+ */
+static const char *proofreader_pair_end(const char *text, const char *p) {
+    char c = *p;
+    if ((c != '=' && c != '~') || p[1] != c || p[2] == c || p[2] == '\0' || isspace((unsigned char)p[2])) return NULL;
+    if (p > text && (p[-1] == c || p[-1] == '{' || p[-1] == '\\')) return NULL;
+    for (p += 2; *p; p++) {
+        if (p[0] == '\n' && (p[1] == '\n' || (p[1] == '\r' && p[2] == '\n'))) return NULL;
+        if (p[0] == c && p[1] == c) {
+            if (p[2] != c) return p;
+            while (p[1] == c) p++;
+        }
+    }
+    return NULL;
+}
+
 /* ------------------------------------------------------------------------- */
 /* Code protection                                                           */
 /*                                                                           */
@@ -4959,11 +4978,9 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
     }
 
     /* Definition lists, divs and Markdown in HTML contain whole blocks; what follows changes text only */
-    if (options->mode != APEX_MODE_COMMONMARK) {
-        apex_free_code_store(&code_store);
-        critic_code_protected = apex_protect_code(text_ptr, &code_store);
-        if (critic_code_protected) text_ptr = critic_code_protected;
-    }
+    apex_free_code_store(&code_store);
+    critic_code_protected = apex_protect_code(text_ptr, &code_store);
+    if (critic_code_protected) text_ptr = critic_code_protected;
 
     /* Process hashtags: convert #tags to span-wrapped hashtags */
     char *hashtags_processed = NULL;
@@ -5152,6 +5169,7 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
             bool in_code_block = false;
             bool in_inline_code = false;
             int backtick_count = 0;
+            const char *pair_end = NULL;
 
             while (*read) {
                 /* Track code blocks and inline code to skip processing inside them */
@@ -5190,116 +5208,35 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
                     }
                     *write++ = *read++;
                     remaining--;
-                } else if (read[0] == '=' && read[1] == '=') {
-                    /* Found ==, convert to {== */
-                    const char *start = read;
+                } else if ((pair_end = proofreader_pair_end(text_ptr, read)) != NULL) {
+                    /* ==text== becomes {==text==}, ~~text~~ becomes {--text--} */
+                    char mark = *read == '=' ? '=' : '-';
                     read += 2;
-                    /* Find matching == */
-                    const char *end = strstr(read, "==");
-                    if (end) {
-                        /* Found matching ==, wrap in {==...==} */
-                        size_t content_len = (size_t)(end - read);
-                        size_t needed = 2 + content_len + 2;  /* {== + content + ==} */
-                        if (needed >= remaining) {
-                            size_t written = (size_t)(write - output);
-                            capacity = (written + needed + 100) * 2;
-                            char *new_output = realloc(output, capacity);
-                            if (!new_output) {
-                                free(output);
-                                output = NULL;
-                                break;
-                            }
-                            output = new_output;
-                            write = output + written;
-                            remaining = capacity - written;
-                        }
-                        *write++ = '{';
-                        *write++ = '=';
-                        *write++ = '=';
-                        remaining -= 3;
-                        memcpy(write, read, content_len);
-                        write += content_len;
-                        remaining -= content_len;
-                        *write++ = '=';
-                        *write++ = '=';
-                        *write++ = '}';
-                        remaining -= 3;
-                        read = end + 2;
-                    } else {
-                        /* No matching ==, copy as-is */
-                        if (remaining < 10) {
-                            size_t written = (size_t)(write - output);
-                            capacity = (written + 100) * 2;
-                            char *new_output = realloc(output, capacity);
-                            if (!new_output) {
-                                free(output);
-                                output = NULL;
-                                break;
-                            }
-                            output = new_output;
-                            write = output + written;
-                            remaining = capacity - written;
-                        }
-                        *write++ = *start++;
-                        *write++ = *start;
-                        remaining -= 2;
-                        read = start + 1;
-                    }
-                } else if (read[0] == '~' && read[1] == '~') {
-                    /* Found ~~, convert to {-- */
-                    const char *start = read;
-                    read += 2;
-                    /* Find matching ~~ */
-                    const char *end = strstr(read, "~~");
-                    if (end) {
-                        /* Found matching ~~, wrap in {--...--} */
-                        size_t content_len = (size_t)(end - read);
-                        size_t needed = 2 + content_len + 2;  /* {-- + content + --} */
-                        if (needed >= remaining) {
-                            size_t written = (size_t)(write - output);
-                            capacity = (written + needed + 100) * 2;
-                            char *new_output = realloc(output, capacity);
-                            if (!new_output) {
-                                free(output);
-                                output = NULL;
-                                break;
-                            }
-                            output = new_output;
-                            write = output + written;
-                            remaining = capacity - written;
-                        }
-                        *write++ = '{';
-                        *write++ = '-';
-                        *write++ = '-';
-                        remaining -= 3;
-                        memcpy(write, read, content_len);
-                        write += content_len;
-                        remaining -= content_len;
-                        *write++ = '-';
-                        *write++ = '-';
-                        *write++ = '}';
-                        remaining -= 3;
-                        read = end + 2;
-                    } else {
-                        /* No matching ~~, copy as-is */
-                        if (remaining < 10) {
-                            size_t written = (size_t)(write - output);
-                            capacity = (written + 100) * 2;
-                            char *new_output = realloc(output, capacity);
-                            if (!new_output) {
-                                free(output);
-                                output = NULL;
-                                break;
-                            }
-                            output = new_output;
-                            write = output + written;
-                            remaining = capacity - written;
+                    size_t content_len = (size_t)(pair_end - read);
+                    size_t needed = 3 + content_len + 3;
+                    if (needed + 10 >= remaining) {
+                        size_t written = (size_t)(write - output);
+                        capacity = (written + needed + 100) * 2;
+                        char *new_output = realloc(output, capacity);
+                        if (!new_output) {
+                            free(output);
+                            output = NULL;
+                            break;
                         }
-                        *write++ = *start++;
-                        *write++ = *start;
-                        remaining -= 2;
-                        read = start + 1;
+                        output = new_output;
+                        write = output + written;
+                        remaining = capacity - written;
                     }
+                    *write++ = '{';
+                    *write++ = mark;
+                    *write++ = mark;
+                    memcpy(write, read, content_len);
+                    write += content_len;
+                    *write++ = mark;
+                    *write++ = mark;
+                    *write++ = '}';
+                    remaining -= needed;
+                    read = pair_end + 2;
                 } else {
                     /* Normal character, copy as-is */
                     if (remaining < 10) {
-- 
2.43.0


From 552be01f65a0e8fba4d3a87c59c7f1b22cc3ff37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:50 +0000
Subject: [PATCH 103/180] fix: lines of 1024 bytes or more are cut off;
 abbreviations change code, URLs and attributes, and long ones overflow a
 buffer

---
 src/extensions/abbreviations.c | 459 +++++++++++++++------------------
 1 file changed, 204 insertions(+), 255 deletions(-)

diff --git a/src/extensions/abbreviations.c b/src/extensions/abbreviations.c
index 8dacf92..c08f97b 100644
--- a/src/extensions/abbreviations.c
+++ b/src/extensions/abbreviations.c
@@ -5,6 +5,7 @@
 
 #include "abbreviations.h"
 #include <string.h>
+#include <strings.h>
 #include <stdlib.h>
 #include <ctype.h>
 #include <stdio.h>
@@ -24,67 +25,112 @@ void apex_free_abbreviations(abbr_item *abbrs) {
 }
 
 /**
- * Trim whitespace
+ * Growing output buffer
  */
-static char *trim(char *str) {
-    while (isspace((unsigned char)*str)) str++;
-    char *end = str + strlen(str) - 1;
-    while (end > str && isspace((unsigned char)*end)) *end-- = '\0';
-    return str;
+typedef struct {
+    char *data;
+    size_t len;
+    size_t capacity;
+    bool failed;
+} abbr_buffer;
+
+static void buffer_add(abbr_buffer *buf, const char *text, size_t len) {
+    if (buf->failed) return;
+    if (buf->len + len + 1 > buf->capacity) {
+        size_t capacity = (buf->len + len + 1) * 2;
+        char *data = realloc(buf->data, capacity);
+        if (!data) {
+            buf->failed = true;
+            return;
+        }
+        buf->data = data;
+        buf->capacity = capacity;
+    }
+    memcpy(buf->data + buf->len, text, len);
+    buf->len += len;
+    buf->data[buf->len] = '\0';
 }
 
 /**
- * Process MMD 6 inline abbreviations in text (before parsing)
- * Pattern: [>(abbr) expansion] → abbr (with definition added)
+ * Length of the HTML entity at p; 0 if there is none
  */
-static char *process_inline_abbreviations(const char *text, abbr_item **abbrs_list) {
-    if (!text) return NULL;
+static size_t entity_length(const char *p) {
+    if (*p != '&') return 0;
+    size_t n = 1;
+    if (p[n] == '#') n++;
+    size_t start = n;
+    while (isalnum((unsigned char)p[n]) && n < 34) n++;
+    return n > start && p[n] == ';' ? n + 1 : 0;
+}
+
+static void buffer_add_escaped(abbr_buffer *buf, const char *text) {
+    for (; *text; text++) {
+        if (*text == '&' && !entity_length(text)) buffer_add(buf, "&amp;", 5);
+        else if (*text == '<') buffer_add(buf, "&lt;", 4);
+        else if (*text == '>') buffer_add(buf, "&gt;", 4);
+        else if (*text == '"') buffer_add(buf, "&quot;", 6);
+        else buffer_add(buf, text, 1);
+    }
+}
 
-    size_t len = strlen(text);
-    char *output = malloc(len * 2);  /* Room for expansion */
-    if (!output) return strdup(text);
+static char *copy_trimmed(const char *text, size_t len) {
+    while (len > 0 && isspace((unsigned char)*text)) {
+        text++;
+        len--;
+    }
+    while (len > 0 && isspace((unsigned char)text[len - 1])) len--;
+    char *copy = malloc(len + 1);
+    if (!copy) return NULL;
+    memcpy(copy, text, len);
+    copy[len] = '\0';
+    return copy;
+}
 
+/**
+ * New list item; NULL if the abbreviation or its expansion is empty
+ */
+static abbr_item *new_abbreviation(const char *abbr, size_t abbr_len, const char *expansion, size_t expansion_len) {
+    abbr_item *item = malloc(sizeof(abbr_item));
+    if (!item) return NULL;
+    item->abbr = copy_trimmed(abbr, abbr_len);
+    item->expansion = copy_trimmed(expansion, expansion_len);
+    item->next = NULL;
+    if (!item->abbr || !item->expansion || !*item->abbr || !*item->expansion) {
+        free(item->abbr);
+        free(item->expansion);
+        free(item);
+        return NULL;
+    }
+    return item;
+}
+
+/**
+ * Process MMD 6 inline abbreviations in text (before parsing), in place
+ * Pattern: [>(abbr) expansion] → abbr (with definition added)
+ */
+static void process_inline_abbreviations(char *text, abbr_item **abbrs_list) {
     const char *read = text;
-    char *write = output;
+    char *write = text;
 
     while (*read) {
         /* Check for [>(abbr) expansion] */
         if (strncmp(read, "[>(", 3) == 0) {
             const char *abbr_start = read + 3;
-            const char *abbr_end = strchr(abbr_start, ')');
-
-            if (abbr_end) {
-                const char *exp_start = abbr_end + 1;
-                while (*exp_start == ' ') exp_start++;
-                const char *exp_end = strchr(exp_start, ']');
-
-                if (exp_end) {
-                    /* Extract abbreviation and expansion */
-                    size_t abbr_len = (size_t)(abbr_end - abbr_start);
-                    size_t exp_len = (size_t)(exp_end - exp_start);
-
-                    if (abbr_len > 0 && abbr_len < 256 && exp_len > 0 && exp_len < 1024) {
-                        char abbr_text[256], exp_text[1024];
-                        memcpy(abbr_text, abbr_start, abbr_len);
-                        abbr_text[abbr_len] = '\0';
-                        memcpy(exp_text, exp_start, exp_len);
-                        exp_text[exp_len] = '\0';
-
-                        /* Add to abbreviations list */
-                        abbr_item *item = malloc(sizeof(abbr_item));
-                        if (item) {
-                            item->abbr = strdup(trim(abbr_text));
-                            item->expansion = strdup(trim(exp_text));
-                            item->next = *abbrs_list;
-                            *abbrs_list = item;
-                        }
-
-                        /* Write just the abbreviation text */
-                        strcpy(write, abbr_text);
-                        write += abbr_len;
-                        read = exp_end + 1;
-                        continue;
-                    }
+            const char *abbr_end = abbr_start + strcspn(abbr_start, ")]\n");
+            const char *exp_end = *abbr_end == ')' ? abbr_end + strcspn(abbr_end, "]") : abbr_end;
+
+            if (*exp_end == ']') {
+                abbr_item *item = new_abbreviation(abbr_start, (size_t)(abbr_end - abbr_start),
+                                                   abbr_end + 1, (size_t)(exp_end - abbr_end - 1));
+                if (item) {
+                    /* Add to abbreviations list and write just the abbreviation text */
+                    item->next = *abbrs_list;
+                    *abbrs_list = item;
+                    size_t abbr_len = strlen(item->abbr);
+                    memcpy(write, item->abbr, abbr_len);
+                    write += abbr_len;
+                    read = exp_end + 1;
+                    continue;
                 }
             }
         }
@@ -94,7 +140,6 @@ static char *process_inline_abbreviations(const char *text, abbr_item **abbrs_li
     }
 
     *write = '\0';
-    return output;
 }
 
 /**
@@ -107,106 +152,84 @@ abbr_item *apex_extract_abbreviations(char **text_ptr) {
     char *text = *text_ptr;
     abbr_item *abbrs = NULL;
     abbr_item **tail = &abbrs;
-    
 
     /* First, process inline abbreviations [>(abbr) expansion] */
-    char *processed = process_inline_abbreviations(text, &abbrs);
-    if (processed) {
-        strcpy(text, processed);
-        free(processed);
-    }
+    process_inline_abbreviations(text, &abbrs);
 
     /* Tail must point to last node's next so reference-style defs append, not overwrite */
     while (*tail) tail = &((*tail)->next);
 
-    char *line_start = text;
-    char *line_end;
-    char *output = malloc(strlen(text) + 1);
-    char *output_write = output;
-
-    if (!output) return NULL;
+    /* Then remove the definitions, in place */
+    const char *line = text;
+    char *write = text;
 
-    while ((line_end = strchr(line_start, '\n')) != NULL || *line_start) {
-        if (!line_end) line_end = line_start + strlen(line_start);
+    while (*line) {
+        const char *line_end = line + strcspn(line, "\n");
+        const char *next = *line_end ? line_end + 1 : line_end;
 
-        size_t line_len = line_end - line_start;
-        char line[1024];
-        if (line_len >= sizeof(line)) line_len = sizeof(line) - 1;
-        memcpy(line, line_start, line_len);
-        line[line_len] = '\0';
-
-        /* Check for *[abbr]: expansion pattern (old MMD) */
-        if (line[0] == '*' && line[1] == '[') {
-            char *close_bracket = strchr(line + 2, ']');
+        /* *[abbr]: expansion (old MMD) or [>abbr]: expansion (MMD 6) */
+        if ((line[0] == '*' && line[1] == '[') || (line[0] == '[' && line[1] == '>')) {
+            const char *close_bracket = memchr(line + 2, ']', (size_t)(line_end - line - 2));
             if (close_bracket && close_bracket[1] == ':') {
-                /* Found abbreviation definition */
-                *close_bracket = '\0';
-                char *abbr = trim(line + 2);
-                char *expansion = trim(close_bracket + 2);
-
-                if (*abbr && *expansion) {
-                    abbr_item *item = malloc(sizeof(abbr_item));
-                    if (item) {
-                        item->abbr = strdup(abbr);
-                        item->expansion = strdup(expansion);
-                        item->next = NULL;
-
-                        *tail = item;
-                        tail = &item->next;
-                    }
+                abbr_item *item = new_abbreviation(line + 2, (size_t)(close_bracket - line - 2),
+                                                   close_bracket + 2, (size_t)(line_end - close_bracket - 2));
+                if (item) {
+                    *tail = item;
+                    tail = &item->next;
                 }
-
                 /* Skip this line in output */
-                line_start = *line_end ? line_end + 1 : line_end;
+                line = next;
                 continue;
             }
         }
 
-        /* Check for [>abbr]: expansion pattern (MMD 6) */
-        if (line[0] == '[' && line[1] == '>') {
-            char *close_bracket = strchr(line + 2, ']');
-            if (close_bracket && close_bracket[1] == ':') {
-                /* Found MMD 6 abbreviation definition */
-                *close_bracket = '\0';
-                char *abbr = trim(line + 2);
-                char *expansion = trim(close_bracket + 2);
-
-                if (*abbr && *expansion) {
-                    abbr_item *item = malloc(sizeof(abbr_item));
-                    if (item) {
-                        item->abbr = strdup(abbr);
-                        item->expansion = strdup(expansion);
-                        item->next = NULL;
+        /* Not an abbreviation, keep the line */
+        memmove(write, line, (size_t)(next - line));
+        write += next - line;
+        line = next;
+    }
 
-                        *tail = item;
-                        tail = &item->next;
-                    }
-                }
+    *write = '\0';
+    return abbrs;
+}
 
-                /* Skip this line in output */
-                line_start = *line_end ? line_end + 1 : line_end;
-                continue;
-            }
+/**
+ * End of the code element, script, style sheet, comment or tag that starts at p;
+ * NULL if there is none
+ */
+static const char *skip_markup(const char *p) {
+    static const char *const names[] = {"code", "pre", "script", "style", "textarea", "abbr", "title"};
+    if (strncmp(p, "<!--", 4) == 0) {
+        const char *close = strstr(p + 4, "-->");
+        return close ? close + 3 : NULL;
+    }
+    for (size_t i = 0; i < sizeof(names) / sizeof(names[0]); i++) {
+        size_t n = strlen(names[i]);
+        if (strncasecmp(p + 1, names[i], n) != 0 || (p[n + 1] != '>' && !isspace((unsigned char)p[n + 1]))) continue;
+        for (const char *close = strstr(p, "</"); close; close = strstr(close + 2, "</")) {
+            if (strncasecmp(close + 2, names[i], n) == 0 && close[n + 2] == '>') return close + n + 3;
         }
-
-        /* Not an abbreviation, copy line to output */
-        memcpy(output_write, line_start, line_len);
-        output_write += line_len;
-        if (*line_end) {
-            *output_write++ = '\n';
-            line_start = line_end + 1;
-        } else {
-            break;
+    }
+    if (!isalpha((unsigned char)p[1]) && p[1] != '/' && p[1] != '!' && p[1] != '?') return NULL;
+    char quote = 0;
+    for (p++; *p && (quote || *p != '<'); p++) {
+        if (quote) {
+            if (*p == quote) quote = 0;
+        } else if (*p == '"' || *p == '\'') {
+            quote = *p;
+        } else if (*p == '>') {
+            return p + 1;
         }
     }
+    return NULL;
+}
 
-    *output_write = '\0';
-
-    /* Update text pointer to cleaned text */
-    strcpy(text, output);
-    free(output);
-
-    return abbrs;
+static void buffer_add_abbreviation(abbr_buffer *buf, const char *abbr, const char *expansion) {
+    buffer_add(buf, "<abbr title=\"", 13);
+    buffer_add_escaped(buf, expansion);
+    buffer_add(buf, "\">", 2);
+    buffer_add_escaped(buf, abbr);
+    buffer_add(buf, "</abbr>", 7);
 }
 
 /**
@@ -217,149 +240,75 @@ char *apex_replace_abbreviations(const char *html, abbr_item *abbrs) {
         return html ? strdup(html) : NULL;
     }
 
-    size_t html_len = strlen(html);
-    /* Calculate max possible expansion:
-     * Each abbreviation could be replaced with <abbr title="expansion">abbr</abbr>
-     * Worst case: very long expansions. Use html_len * 5 to be safe. */
-    size_t capacity = html_len * 5;
-    char *output = malloc(capacity);
-    if (!output) return strdup(html);
-
+    abbr_buffer out = {0};
     const char *read = html;
-    char *write = output;
-    size_t remaining = capacity;
 
     while (*read) {
-        bool replaced = false;
+        if (*read == '<') {
+            /* Names in tags, code and comments are no abbreviations */
+            const char *end = skip_markup(read);
+            if (end) {
+                buffer_add(&out, read, (size_t)(end - read));
+                read = end;
+                continue;
+            }
+        }
 
-        /* Check for MMD 6 inline abbreviation (HTML-escaped): [&gt;abbr] or [&gt;(abbr) expansion] */
+        /* Check for MMD 6 reference (HTML-escaped): [&gt;abbr] */
         if (strncmp(read, "[&gt;", 5) == 0) {
             const char *start = read + 5;
-            const char *end = start;
-
-            /* Find closing ] */
-            while (*end && *end != ']' && *end != '\n' && *end != '<') end++;
-
+            const char *end = start + strcspn(start, "]\n<");
             if (*end == ']') {
-                /* Check for inline expansion: [&gt;(abbr) expansion] */
-                if (*start == '(') {
-                    const char *abbr_end = strchr(start + 1, ')');
-                    if (abbr_end && abbr_end < end) {
-                        /* Extract abbreviation and expansion */
-                        size_t abbr_len = (size_t)(abbr_end - (start + 1));
-                        size_t exp_len = (size_t)(end - (abbr_end + 1));
-
-                        if (abbr_len > 0 && exp_len > 0) {
-                            char abbr_text[256];
-                            char exp_text[1024];
-
-                            memcpy(abbr_text, start + 1, abbr_len);
-                            abbr_text[abbr_len] = '\0';
-
-                            memcpy(exp_text, abbr_end + 1, exp_len);
-                            exp_text[exp_len] = '\0';
-
-                            /* Trim whitespace */
-                            char *abbr_trimmed = trim(abbr_text);
-                            char *exp_trimmed = trim(exp_text);
-
-                            /* Generate abbr tag */
-                            char abbr_tag[2048];
-                            snprintf(abbr_tag, sizeof(abbr_tag),
-                                    "<abbr title=\"%s\">%s</abbr>",
-                                    exp_trimmed, abbr_trimmed);
-
-                            size_t tag_len = strlen(abbr_tag);
-                            if (tag_len < remaining) {
-                                memcpy(write, abbr_tag, tag_len);
-                                write += tag_len;
-                                remaining -= tag_len;
-                            }
-
-                            read = end + 1;
-                            replaced = true;
-                        }
-                    }
-                } else {
-                    /* Reference abbreviation: [&gt;MMD] */
-                    size_t ref_len = (size_t)(end - start);
-                    if (ref_len > 0 && ref_len < 256) {
-                        char ref[256];
-                        memcpy(ref, start, ref_len);
-                        ref[ref_len] = '\0';
-                        char *ref_trimmed = trim(ref);
-
-                        /* Look up in abbreviation list */
-                        for (abbr_item *item = abbrs; item; item = item->next) {
-                            if (strcmp(item->abbr, ref_trimmed) == 0) {
-                                /* Found match */
-                                char abbr_tag[2048];
-                                snprintf(abbr_tag, sizeof(abbr_tag),
-                                        "<abbr title=\"%s\">%s</abbr>",
-                                        item->expansion, item->abbr);
-
-                                size_t tag_len = strlen(abbr_tag);
-                                if (tag_len < remaining) {
-                                    memcpy(write, abbr_tag, tag_len);
-                                    write += tag_len;
-                                    remaining -= tag_len;
-                                }
-
-                                read = end + 1;
-                                replaced = true;
-                                break;
-                            }
-                        }
-                    }
+                char *name = copy_trimmed(start, (size_t)(end - start));
+                abbr_item *item = abbrs;
+                while (item && name && strcmp(item->abbr, name) != 0) item = item->next;
+                free(name);
+                if (item) {
+                    buffer_add_abbreviation(&out, item->abbr, item->expansion);
+                    read = end + 1;
+                    continue;
                 }
-
-                if (replaced) continue;
             }
         }
 
-        /* Try each abbreviation (automatic replacement) */
-        for (abbr_item *item = abbrs; item; item = item->next) {
-            size_t abbr_len = strlen(item->abbr);
-
-            /* Check if we have a match */
-            if (strncmp(read, item->abbr, abbr_len) == 0) {
+        /* Try each abbreviation (automatic replacement); the longest one matches */
+        abbr_item *match = NULL;
+        size_t match_len = 0;
+        if (read == html || !isalnum((unsigned char)read[-1])) {
+            for (abbr_item *item = abbrs; item; item = item->next) {
+                size_t abbr_len = 0;
+                const char *a = item->abbr;
+                while (*a) {
+                    /* Special characters are escaped in HTML */
+                    const char *escaped = *a == '&' && !entity_length(a) ? "&amp;"
+                                        : *a == '<' ? "&lt;" : *a == '>' ? "&gt;" : *a == '"' ? "&quot;" : NULL;
+                    size_t n = escaped ? strlen(escaped) : 1;
+                    if (strncmp(read + abbr_len, escaped ? escaped : a, n) != 0) break;
+                    abbr_len += n;
+                    a++;
+                }
                 /* Check it's a whole word (not part of larger word) */
-                bool word_boundary = true;
-                if (read > html && isalnum((unsigned char)*(read - 1))) word_boundary = false;
-                if (isalnum((unsigned char)read[abbr_len])) word_boundary = false;
-
-                if (word_boundary) {
-                    /* Replace with <abbr> tag */
-                    char abbr_tag[2048];
-                    snprintf(abbr_tag, sizeof(abbr_tag),
-                            "<abbr title=\"%s\">%s</abbr>",
-                            item->expansion, item->abbr);
-
-                    size_t tag_len = strlen(abbr_tag);
-                    if (tag_len < remaining) {
-                        memcpy(write, abbr_tag, tag_len);
-                        write += tag_len;
-                        remaining -= tag_len;
-                    }
-
-                    read += abbr_len;
-                    replaced = true;
-                    break;
+                if (!*a && !isalnum((unsigned char)read[abbr_len]) && abbr_len > match_len) {
+                    match = item;
+                    match_len = abbr_len;
                 }
             }
         }
-
-        if (!replaced) {
-            if (remaining > 0) {
-                *write++ = *read++;
-                remaining--;
-            } else {
-                read++;
-            }
+        if (match) {
+            buffer_add_abbreviation(&out, match->abbr, match->expansion);
+            read += match_len;
+            continue;
         }
+
+        size_t n = entity_length(read);
+        if (n == 0) n = 1;
+        buffer_add(&out, read, n);
+        read += n;
     }
 
-    *write = '\0';
-    return output;
+    if (out.failed || !out.data) {
+        free(out.data);
+        return strdup(html);
+    }
+    return out.data;
 }
-
-- 
2.43.0


From 7d004bd04471e9dbfdb0133f09fcb3acf032c415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:59 +0000
Subject: [PATCH 104/180] fix: lines of 2048 bytes or more are cut off in
 Kramdown and unified mode

---
 src/extensions/ial.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/extensions/ial.c b/src/extensions/ial.c
index 03d49f2..16a58c1 100644
--- a/src/extensions/ial.c
+++ b/src/extensions/ial.c
@@ -338,9 +338,9 @@ ald_entry *apex_extract_alds(char **text_ptr) {
 
         size_t line_len = line_end - line_start;
         char line[2048];
-        if (line_len >= sizeof(line)) line_len = sizeof(line) - 1;
-        memcpy(line, line_start, line_len);
-        line[line_len] = '\0';
+        size_t checked_len = line_len < sizeof(line) ? line_len : sizeof(line) - 1;
+        memcpy(line, line_start, checked_len);
+        line[checked_len] = '\0';
 
         /* Check if this is an ALD */
         char *ref_name = NULL;
-- 
2.43.0


From 7bf7cf5839f22a09cb2bba2be37f01adf17c1316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:30 +0000
Subject: [PATCH 105/180] fix: unknown words in attribute lists read past their
 end; CriticMarkup is taken for attributes

---
 src/extensions/advanced_tables.c |  2 +-
 src/extensions/ial.c             | 12 +++++++++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/extensions/advanced_tables.c b/src/extensions/advanced_tables.c
index 3f92bd7..468af42 100644
--- a/src/extensions/advanced_tables.c
+++ b/src/extensions/advanced_tables.c
@@ -1034,7 +1034,7 @@ static apex_attributes *parse_ial_from_text(const char *text) {
         }
 
         /* Unknown token, skip */
-        buf_p++;
+        if (*buf_p) buf_p++;
     }
 
     return attrs;
diff --git a/src/extensions/ial.c b/src/extensions/ial.c
index 16a58c1..14ad18e 100644
--- a/src/extensions/ial.c
+++ b/src/extensions/ial.c
@@ -86,6 +86,9 @@ apex_attributes *parse_ial_content(const char *content, int len) {
     apex_attributes *attrs = create_attributes();
     if (!attrs) return NULL;
 
+    /* CriticMarkup ({++, {--, {~~, {==, {>>) is no attribute list */
+    if (len >= 2 && content[0] && strchr("+-~=>", content[0]) && content[1] == content[0]) return attrs;
+
     char buffer[2048];
     if (len >= (int)sizeof(buffer)) len = (int)sizeof(buffer) - 1;
     memcpy(buffer, content, len);
@@ -197,7 +200,10 @@ apex_attributes *parse_ial_content(const char *content, int len) {
                 *p = saved_val;
             }
 
-            add_attribute(attrs, key, value);
+            /* An attribute has a name */
+            if (key && (isalpha((unsigned char)*key) || *key == '_' || *key == ':' || *key == '@' || (unsigned char)*key >= 0x80)) {
+                add_attribute(attrs, key, value);
+            }
             free(key);
             free(value);
             continue;
@@ -262,7 +268,7 @@ apex_attributes *parse_ial_content(const char *content, int len) {
         }
 
         /* Unknown token, skip */
-        p++;
+        if (*p) p++;
     }
 
     return attrs;
@@ -1886,7 +1892,7 @@ static apex_attributes *parse_image_attributes(const char *attr_str, int len) {
         }
 
         /* Unknown token, skip */
-        p++;
+        if (*p) p++;
     }
 
     return attrs;
-- 
2.43.0


From 898a8d7c8d022e0261963400d5caa19eebe62190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:29 +0000
Subject: [PATCH 106/180] fix: a paragraph in brackets before a table with a
 caption is removed

---
 src/extensions/table_html_postprocess.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/extensions/table_html_postprocess.c b/src/extensions/table_html_postprocess.c
index 37f3fd2..70f0bc6 100644
--- a/src/extensions/table_html_postprocess.c
+++ b/src/extensions/table_html_postprocess.c
@@ -1284,7 +1284,8 @@ char *apex_inject_table_attributes(const char *html, cmark_node *document, int c
                         const char *fingerprint_text = para_remove->text_fingerprint;
                         if (fingerprint_text && strlen(fingerprint_text) > 0) {
                             /* Simple substring match - check if fingerprint appears anywhere in paragraph content */
-                            if (strstr(para_start, fingerprint_text) != NULL) {
+                            const char *found = strstr(para_start, fingerprint_text);
+                            if (found && found < para_end) {
                                 /* Skip this entire paragraph */
                                 read = para_end + 4; /* Skip past </p> */
                                 continue; /* Skip normal copy */
-- 
2.43.0


From 05d379d7b47d80b7a5fe294c56f5684d21ee4107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:44 +0000
Subject: [PATCH 107/180] fix: code is changed in GFM mode, and CriticMarkup is
 applied in code of definitions

---
 src/apex.c | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/apex.c b/src/apex.c
index 4af74f7..07a587a 100644
--- a/src/apex.c
+++ b/src/apex.c
@@ -1166,8 +1166,8 @@ static const char *skip_raw_region(const char *p, unsigned *unclosed) {
     return NULL;
 }
 
-/* Replace code in text by tokens; NULL if there is nothing to do */
-static char *apex_protect_code(const char *text, apex_code_store *store) {
+/* Replace code in text (with html also that of pre and code elements) by tokens; NULL if there is nothing to do */
+static char *apex_protect_code(const char *text, apex_code_store *store, bool html) {
     if (!text || store->disabled) return NULL;
     if (store->count == 0 && strstr(text, APEX_CODE_TOKEN_MARK)) {
         store->disabled = true;
@@ -1289,7 +1289,11 @@ static char *apex_protect_code(const char *text, apex_code_store *store) {
                     p = close + ticks;
                 }
             } else if ((skipped = skip_raw_region(p, &unclosed)) != NULL) {
-                text_buffer_add(&buf, p, (size_t)(skipped - p));
+                if (html && (strncasecmp(p, "<pre", 4) == 0 || strncasecmp(p, "<code", 5) == 0)) {
+                    add_code(&buf, store, p, (size_t)(skipped - p), true);
+                } else {
+                    text_buffer_add(&buf, p, (size_t)(skipped - p));
+                }
                 p = skipped;
             } else {
                 text_buffer_add(&buf, p, 1);
@@ -4446,7 +4450,7 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
                     len, text_ptr, len > 200 ? "..." : "");
         }
 
-        code_protected = apex_protect_code(text_ptr, &code_store);
+        code_protected = apex_protect_code(text_ptr, &code_store, false);
         if (code_protected) text_ptr = code_protected;
 
         /* Extract ALDs for Kramdown */
@@ -4461,6 +4465,9 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
 
         /* Extract abbreviations */
         abbreviations = apex_extract_abbreviations(&text_ptr);
+    } else {
+        code_protected = apex_protect_code(text_ptr, &code_store, false);
+        if (code_protected) text_ptr = code_protected;
     }
 
     /* Check metadata for bibliography and enable citations if found */
@@ -4671,7 +4678,7 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
         if (includes_processed) {
             text_ptr = includes_processed;
             if (code_protected) {
-                included_code_protected = apex_protect_code(text_ptr, &code_store);
+                included_code_protected = apex_protect_code(text_ptr, &code_store, false);
                 if (included_code_protected) text_ptr = included_code_protected;
             }
         }
@@ -4952,7 +4959,7 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
     if (options->enable_divs && options->mode == APEX_MODE_UNIFIED) {
         PROFILE_START(fenced_divs);
         apex_free_code_store(&code_store);
-        char *without_code = apex_protect_code(text_ptr, &code_store);
+        char *without_code = apex_protect_code(text_ptr, &code_store, false);
         fenced_divs_processed = apex_process_fenced_divs(without_code ? without_code : text_ptr);
         char *with_code = apex_restore_code(fenced_divs_processed, &code_store);
         if (with_code) {
@@ -4979,7 +4986,7 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
 
     /* Definition lists, divs and Markdown in HTML contain whole blocks; what follows changes text only */
     apex_free_code_store(&code_store);
-    critic_code_protected = apex_protect_code(text_ptr, &code_store);
+    critic_code_protected = apex_protect_code(text_ptr, &code_store, true);
     if (critic_code_protected) text_ptr = critic_code_protected;
 
     /* Process hashtags: convert #tags to span-wrapped hashtags */
-- 
2.43.0


From 080f2bf7f9af9c1b4b47b7f8d5a313237d1e8d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:59 +0000
Subject: [PATCH 108/180] fix: blank lines in indented code are lost in
 documents with a definition list

---
 src/extensions/definition_list.c | 40 +++++++++++++++++---------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/src/extensions/definition_list.c b/src/extensions/definition_list.c
index e179c34..d40ac2d 100644
--- a/src/extensions/definition_list.c
+++ b/src/extensions/definition_list.c
@@ -693,7 +693,7 @@ char *apex_process_definition_lists(const char *text, bool unsafe) {
     char fence_char = 0;         /* Character and length of its opening fence */
     size_t fence_len = 0;
     bool fence_quoted = false;   /* In a block quote, with which it ends */
-    bool skipped_blank_after_term = false;  /* Track if we skipped a blank line after a buffered term */
+    int skipped_blank_after_term = 0;  /* Blank lines skipped after a buffered term */
 
     const char *prev_read_pos = NULL;
     int iteration_count = 0;
@@ -791,15 +791,17 @@ char *apex_process_definition_lists(const char *text, bool unsafe) {
                         remaining -= (size_t)term_len;
                         *write++ = '\n';
                         remaining--;
-                        if (skipped_blank_after_term) {
+                        while (skipped_blank_after_term > 0) {
+                            ENSURE_SPACE(2);
                             *write++ = '\n';
                             remaining--;
+                            skipped_blank_after_term--;
                         }
                     }
                     term_len = 0;
                     term_has_blockquote = false;
                     term_blockquote_depth = 0;
-                    skipped_blank_after_term = false;
+                    skipped_blank_after_term = 0;
                 }
                 /* If we're exiting a code block, clear any pending definition list state */
                 if (!in_code_block && was_in_code_block) {
@@ -807,7 +809,7 @@ char *apex_process_definition_lists(const char *text, bool unsafe) {
                     term_len = 0;
                     term_has_blockquote = false;
                     term_blockquote_depth = 0;
-                    skipped_blank_after_term = false;
+                    skipped_blank_after_term = 0;
                 }
             }
             ENSURE_SPACE(line_length + 1);
@@ -998,7 +1000,7 @@ char *apex_process_definition_lists(const char *text, bool unsafe) {
                 }
 
                 /* Clear the skipped blank flag - we're using the term now, blank line is ignored */
-                skipped_blank_after_term = false;
+                skipped_blank_after_term = 0;
 
                 /* Start new definition list */
                 const char *dl_start = "<dl>\n";
@@ -1205,7 +1207,7 @@ char *apex_process_definition_lists(const char *text, bool unsafe) {
 
                     term_len = 0;
                     term_has_blockquote = false;
-                    skipped_blank_after_term = false;  /* Clear flag - we used the term */
+                    skipped_blank_after_term = 0;  /* Clear flag - we used the term */
                 }
 
                 in_def_list = true;
@@ -1394,7 +1396,7 @@ char *apex_process_definition_lists(const char *text, bool unsafe) {
                     /* Don't output the blank line yet - wait to see if next line is a definition */
                     /* If next line is a definition, we'll start the list and the blank line is effectively ignored */
                     /* If next line is not a definition, we'll output the term and blank line then */
-                    skipped_blank_after_term = true;
+                    skipped_blank_after_term++;
                 } else {
                     /* No buffered term - regular blank line */
                     ENSURE_SPACE(1);
@@ -1454,12 +1456,12 @@ char *apex_process_definition_lists(const char *text, bool unsafe) {
                 remaining -= (size_t)term_len;
                 *write++ = '\n';
                 remaining--;
-                /* If we skipped a blank line after the term, output it now */
-                if (skipped_blank_after_term) {
-                    ENSURE_SPACE(1);
+                /* Blank lines skipped after the term: output them now */
+                while (skipped_blank_after_term > 0) {
+                    ENSURE_SPACE(2);
                     *write++ = '\n';
                     remaining--;
-                    skipped_blank_after_term = false;
+                    skipped_blank_after_term--;
                 }
                 term_len = 0;
             }
@@ -1505,12 +1507,12 @@ char *apex_process_definition_lists(const char *text, bool unsafe) {
                     remaining -= (size_t)term_len;
                     *write++ = '\n';
                     remaining--;
-                    /* If we skipped a blank line after the term, output it now */
-                    if (skipped_blank_after_term) {
-                        ENSURE_SPACE(1);
+                    /* Blank lines skipped after the term: output them now */
+                    while (skipped_blank_after_term > 0) {
+                        ENSURE_SPACE(2);
                         *write++ = '\n';
                         remaining--;
-                        skipped_blank_after_term = false;
+                        skipped_blank_after_term--;
                     }
                     term_len = 0;
                 }
@@ -1676,12 +1678,12 @@ char *apex_process_definition_lists(const char *text, bool unsafe) {
         remaining -= (size_t)term_len;
         *write++ = '\n';
         remaining--;
-        /* If we skipped a blank line after the term, output it now */
-        if (skipped_blank_after_term) {
-            ENSURE_SPACE(1);
+        /* Blank lines skipped after the term: output them now */
+        while (skipped_blank_after_term > 0) {
+            ENSURE_SPACE(2);
             *write++ = '\n';
             remaining--;
-            skipped_blank_after_term = false;
+            skipped_blank_after_term--;
         }
     }
 
-- 
2.43.0


From 2e627824db64661d410c83ec3631217c0a56b3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:07 +0000
Subject: [PATCH 109/180] fix: text with many short emoji names is cut in
 plain-text output

---
 src/extensions/emoji.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extensions/emoji.c b/src/extensions/emoji.c
index 425d9f8..c8e62b1 100644
--- a/src/extensions/emoji.c
+++ b/src/extensions/emoji.c
@@ -337,7 +337,7 @@ char *apex_replace_emoji(const char *html) {
 char *apex_replace_emoji_text(const char *text) {
     if (!text) return NULL;
 
-    size_t capacity = strlen(text) * 2 + 16;  /* Enough for most unicode expansions */
+    size_t capacity = strlen(text) * 3 + 16;  /* The longest expansion is :a:, 3 bytes to 7 */
     char *output = malloc(capacity);
     if (!output) return strdup(text);
 
-- 
2.43.0


From 2cf5806b34a8ea2caed47886e2aba8cf90429ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:08 +0000
Subject: [PATCH 110/180] fix: references to an abbreviation with a special
 character are not resolved

---
 src/extensions/abbreviations.c | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/extensions/abbreviations.c b/src/extensions/abbreviations.c
index c08f97b..eda02b0 100644
--- a/src/extensions/abbreviations.c
+++ b/src/extensions/abbreviations.c
@@ -232,6 +232,22 @@ static void buffer_add_abbreviation(abbr_buffer *buf, const char *abbr, const ch
     buffer_add(buf, "</abbr>", 7);
 }
 
+/**
+ * Length of an abbreviation at the start of HTML, where special characters are
+ * escaped; 0 if it is not there
+ */
+static size_t match_abbreviation(const char *html, const char *abbr) {
+    size_t len = 0;
+    for (; *abbr; abbr++) {
+        const char *escaped = *abbr == '&' && !entity_length(abbr) ? "&amp;"
+                            : *abbr == '<' ? "&lt;" : *abbr == '>' ? "&gt;" : *abbr == '"' ? "&quot;" : NULL;
+        size_t n = escaped ? strlen(escaped) : 1;
+        if (strncmp(html + len, escaped ? escaped : abbr, n) != 0) return 0;
+        len += n;
+    }
+    return len;
+}
+
 /**
  * Replace abbreviations in HTML
  */
@@ -261,7 +277,7 @@ char *apex_replace_abbreviations(const char *html, abbr_item *abbrs) {
             if (*end == ']') {
                 char *name = copy_trimmed(start, (size_t)(end - start));
                 abbr_item *item = abbrs;
-                while (item && name && strcmp(item->abbr, name) != 0) item = item->next;
+                while (item && name && (!*name || match_abbreviation(name, item->abbr) != strlen(name))) item = item->next;
                 free(name);
                 if (item) {
                     buffer_add_abbreviation(&out, item->abbr, item->expansion);
@@ -276,19 +292,9 @@ char *apex_replace_abbreviations(const char *html, abbr_item *abbrs) {
         size_t match_len = 0;
         if (read == html || !isalnum((unsigned char)read[-1])) {
             for (abbr_item *item = abbrs; item; item = item->next) {
-                size_t abbr_len = 0;
-                const char *a = item->abbr;
-                while (*a) {
-                    /* Special characters are escaped in HTML */
-                    const char *escaped = *a == '&' && !entity_length(a) ? "&amp;"
-                                        : *a == '<' ? "&lt;" : *a == '>' ? "&gt;" : *a == '"' ? "&quot;" : NULL;
-                    size_t n = escaped ? strlen(escaped) : 1;
-                    if (strncmp(read + abbr_len, escaped ? escaped : a, n) != 0) break;
-                    abbr_len += n;
-                    a++;
-                }
+                size_t abbr_len = match_abbreviation(read, item->abbr);
                 /* Check it's a whole word (not part of larger word) */
-                if (!*a && !isalnum((unsigned char)read[abbr_len]) && abbr_len > match_len) {
+                if (!isalnum((unsigned char)read[abbr_len]) && abbr_len > match_len) {
                     match = item;
                     match_len = abbr_len;
                 }
-- 
2.43.0


From 149f8ac6a3218a1c44fe5f9873e752a5e7de46c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:57 +0000
Subject: [PATCH 111/180] fix: --pretty changes code, scripts, comments and
 attributes, drops long tags, and puts a space between an image and the text
 after it

---
 src/pretty_html.c | 218 +++++++++++++++++++++-------------------------
 1 file changed, 100 insertions(+), 118 deletions(-)

diff --git a/src/pretty_html.c b/src/pretty_html.c
index 53a7fa8..9ef952a 100644
--- a/src/pretty_html.c
+++ b/src/pretty_html.c
@@ -6,6 +6,7 @@
 #include "apex/apex.h"
 #include <stdlib.h>
 #include <string.h>
+#include <strings.h>
 #include <ctype.h>
 #include <stdbool.h>
 
@@ -54,6 +55,7 @@ static char *extract_tag_name(const char *tag_start, bool *is_closing, bool *is_
     if (*is_closing) p++;
 
     const char *name_start = p;
+    if (!isalpha((unsigned char)*p) && *p != '!' && *p != '?') return NULL;
     while (*p && !isspace((unsigned char)*p) && *p != '>' && *p != '/') p++;
 
     int len = p - name_start;
@@ -72,6 +74,48 @@ static char *extract_tag_name(const char *tag_start, bool *is_closing, bool *is_
     return name;
 }
 
+/**
+ * End of the tag that starts at p, after any quoted attribute values
+ */
+static const char *find_tag_end(const char *p) {
+    const char *plain = NULL;  /* First '>' within quotes */
+    char quote = 0;
+    for (; *p; p++) {
+        if (*p == '>') {
+            if (!quote) return p + 1;
+            if (!plain) plain = p + 1;
+        } else if (quote) {
+            if (*p == quote) quote = 0;
+        } else if ((*p == '"' || *p == '\'') && (p[-1] == '=' || isspace((unsigned char)p[-1]))) {
+            quote = *p;
+        }
+    }
+    return plain ? plain : p;
+}
+
+/**
+ * End of the element or comment at p if its content is to be kept as it is; NULL otherwise
+ */
+static const char *find_verbatim_end(const char *p, bool *is_pre) {
+    static const char *const names[] = {"pre", "code", "script", "style", "textarea"};
+    *is_pre = false;
+    if (strncmp(p, "<!--", 4) == 0) {
+        const char *close = strstr(p + 4, "-->");
+        return close ? close + 3 : NULL;
+    }
+    for (size_t i = 0; i < sizeof(names) / sizeof(names[0]); i++) {
+        size_t n = strlen(names[i]);
+        if (strncasecmp(p + 1, names[i], n) != 0 || (p[n + 1] != '>' && !isspace((unsigned char)p[n + 1]))) continue;
+        for (const char *close = strstr(p, "</"); close; close = strstr(close + 2, "</")) {
+            if (strncasecmp(close + 2, names[i], n) == 0 && close[n + 2] == '>') {
+                *is_pre = i == 0;
+                return close + n + 3;
+            }
+        }
+    }
+    return NULL;
+}
+
 /**
  * Pretty-print HTML
  */
@@ -79,58 +123,67 @@ char *apex_pretty_print_html(const char *html) {
     if (!html) return NULL;
 
     size_t input_len = strlen(html);
-    size_t capacity = input_len * 2;  /* Room for indentation */
+    size_t capacity = input_len * 2 + 1;  /* Room for indentation */
     char *output = malloc(capacity);
     if (!output) return strdup(html);
 
     const char *read = html;
     char *write = output;
-    size_t remaining = capacity;
     int indent_level = 0;
     bool at_line_start = true;
-    bool in_pre = false;
     bool in_inline = false;
     bool last_was_table_row = false;
 
-    #define WRITE_STR(str) do { \
-        size_t len = strlen(str); \
-        if (len < remaining) { \
-            memcpy(write, str, len); \
-            write += len; \
-            remaining -= len; \
+    #define WRITE_BYTES(str, n) do { \
+        size_t bytes = (n); \
+        size_t used = (size_t)(write - output); \
+        if (used + bytes + 1 > capacity) { \
+            size_t new_capacity = (used + bytes + 1) * 2; \
+            char *new_output = realloc(output, new_capacity); \
+            if (!new_output) { \
+                free(output); \
+                return strdup(html); \
+            } \
+            output = new_output; \
+            capacity = new_capacity; \
+            write = output + used; \
         } \
+        memcpy(write, (str), bytes); \
+        write += bytes; \
     } while(0)
 
-    #define WRITE_CHAR(c) do { \
-        if (remaining > 0) { \
-            *write++ = c; \
-            remaining--; \
+    /* At most one blank line in a row */
+    #define WRITE_NEWLINE() do { \
+        if (write - output < 2 || write[-1] != '\n' || write[-2] != '\n') { \
+            WRITE_BYTES("\n", 1); \
         } \
+        at_line_start = true; \
     } while(0)
 
     #define WRITE_INDENT() do { \
-        if (at_line_start && !in_pre) { \
+        if (at_line_start) { \
             for (int i = 0; i < indent_level; i++) { \
-                WRITE_STR("  "); \
+                WRITE_BYTES("  ", 2); \
             } \
             at_line_start = false; \
         } \
     } while(0)
 
     while (*read) {
-        /* Expand buffer if needed */
-        if (remaining < 100) {
-            size_t written = write - output;
-            capacity *= 2;
-            char *new_output = realloc(output, capacity);
-            if (!new_output) break;
-            output = new_output;
-            write = output + written;
-            remaining = capacity - written;
-        }
-
         /* Check for HTML tags */
         if (*read == '<') {
+            /* Code, scripts and comments are copied as they are */
+            bool is_pre = false;
+            const char *verbatim_end = find_verbatim_end(read, &is_pre);
+            if (verbatim_end) {
+                if (is_pre && !at_line_start) WRITE_NEWLINE();
+                WRITE_INDENT();
+                WRITE_BYTES(read, (size_t)(verbatim_end - read));
+                if (is_pre) WRITE_NEWLINE();
+                read = verbatim_end;
+                continue;
+            }
+
             bool is_closing = false;
             bool is_self_closing = false;
             char *tag_name = extract_tag_name(read, &is_closing, &is_self_closing);
@@ -139,17 +192,8 @@ char *apex_pretty_print_html(const char *html) {
                 bool is_block = is_tag_in_list(tag_name, block_tags);
                 bool is_inline = is_tag_in_list(tag_name, inline_tags);
                 bool is_void = is_tag_in_list(tag_name, void_tags);
-                bool is_pre_tag = strcmp(tag_name, "pre") == 0 || strcmp(tag_name, "code") == 0;
-
-                /* Track pre/code context */
-                if (is_pre_tag && !is_closing) {
-                    in_pre = true;
-                } else if (is_pre_tag && is_closing) {
-                    in_pre = false;
-                }
-
                 /* Handle block tags */
-                if (is_block && !in_pre) {
+                if (is_block) {
                     bool is_table_row = (strcmp(tag_name, "tr") == 0);
 
                     if (is_closing) {
@@ -161,8 +205,7 @@ char *apex_pretty_print_html(const char *html) {
                         /* But don't add blank lines for table rows */
                         if (!at_line_start && !in_inline) {
                             if (!is_table_row) {
-                                WRITE_CHAR('\n');
-                                at_line_start = true;
+                                WRITE_NEWLINE();
                             }
                         }
 
@@ -180,8 +223,7 @@ char *apex_pretty_print_html(const char *html) {
                                 /* Skip newline - no blank line between table rows */
                                 /* We're already at line start from the previous </tr> (which didn't add newline) */
                             } else if (!is_table_row) {
-                                WRITE_CHAR('\n');
-                                at_line_start = true;
+                                WRITE_NEWLINE();
                             }
                         }
                         /* If we're at line start and this is a table row after another table row,
@@ -195,9 +237,7 @@ char *apex_pretty_print_html(const char *html) {
                     }
 
                     /* Copy the tag */
-                    const char *tag_end = read;
-                    while (*tag_end && *tag_end != '>') tag_end++;
-                    if (*tag_end == '>') tag_end++;
+                    const char *tag_end = find_tag_end(read);
 
                     /* For closing table rows, check if next tag is also a table row or tbody closing BEFORE copying */
                     bool next_is_table_row = false;
@@ -219,12 +259,7 @@ char *apex_pretty_print_html(const char *html) {
                         }
                     }
 
-                    size_t tag_len = tag_end - read;
-                    if (tag_len < remaining) {
-                        memcpy(write, read, tag_len);
-                        write += tag_len;
-                        remaining -= tag_len;
-                    }
+                    WRITE_BYTES(read, (size_t)(tag_end - read));
                     /* Skip whitespace if next tag is a table row or tbody closing */
                     read = (next_is_table_row || next_is_tbody_close) ? whitespace_end : tag_end;
 
@@ -232,25 +267,21 @@ char *apex_pretty_print_html(const char *html) {
                     if (!is_closing && !is_self_closing && !is_void) {
                         indent_level++;
                         /* Always add newline after opening tag for proper indentation */
-                        WRITE_CHAR('\n');
-                        at_line_start = true;
+                        WRITE_NEWLINE();
                     } else if (is_closing || is_self_closing || is_void) {
                         /* For table rows, check if next tag is also a table row or tbody closing */
                         if (is_table_row && (next_is_table_row || next_is_tbody_close)) {
                             /* Next tag is <tr> or </tbody> - add single newline (no blank line) */
-                            WRITE_CHAR('\n');
-                            at_line_start = true;
+                            WRITE_NEWLINE();
                             if (next_is_table_row) {
                                 last_was_table_row = true;
                             }
                         } else if (is_table_row) {
                             /* Table row closing but next is not <tr> or </tbody> - add newline normally */
-                            WRITE_CHAR('\n');
-                            at_line_start = true;
+                            WRITE_NEWLINE();
                             last_was_table_row = true;
                         } else {
-                            WRITE_CHAR('\n');
-                            at_line_start = true;
+                            WRITE_NEWLINE();
                         }
                     }
 
@@ -267,16 +298,9 @@ char *apex_pretty_print_html(const char *html) {
                     }
 
                     /* Copy inline tag as-is */
-                    const char *tag_end = read;
-                    while (*tag_end && *tag_end != '>') tag_end++;
-                    if (*tag_end == '>') tag_end++;
-
-                    size_t tag_len = tag_end - read;
-                    if (tag_len < remaining) {
-                        memcpy(write, read, tag_len);
-                        write += tag_len;
-                        remaining -= tag_len;
-                    }
+                    const char *tag_end = find_tag_end(read);
+                    WRITE_INDENT();
+                    WRITE_BYTES(read, (size_t)(tag_end - read));
                     read = tag_end;
 
                     free(tag_name);
@@ -284,16 +308,9 @@ char *apex_pretty_print_html(const char *html) {
                 }
 
                 /* Unknown tag - copy as-is */
-                const char *tag_end = read;
-                while (*tag_end && *tag_end != '>') tag_end++;
-                if (*tag_end == '>') tag_end++;
-
-                size_t tag_len = tag_end - read;
-                if (tag_len < remaining) {
-                    memcpy(write, read, tag_len);
-                    write += tag_len;
-                    remaining -= tag_len;
-                }
+                const char *tag_end = find_tag_end(read);
+                WRITE_INDENT();
+                WRITE_BYTES(read, (size_t)(tag_end - read));
                 read = tag_end;
 
                 free(tag_name);
@@ -302,16 +319,11 @@ char *apex_pretty_print_html(const char *html) {
         }
 
         /* Regular content */
-        if (!at_line_start || in_pre || *read != '\n') {
-            WRITE_INDENT();
-        }
-
-        WRITE_CHAR(*read);
-
         if (*read == '\n') {
-            at_line_start = true;
-        } else if (!isspace((unsigned char)*read)) {
-            at_line_start = false;
+            WRITE_NEWLINE();
+        } else if (!at_line_start || (*read != ' ' && *read != '\t' && *read != '\r')) {
+            WRITE_INDENT();
+            WRITE_BYTES(read, 1);
         }
 
         read++;
@@ -319,38 +331,8 @@ char *apex_pretty_print_html(const char *html) {
 
     *write = '\0';
 
-    /* Collapse sequences of more than two consecutive newlines down to
-     * exactly two, so we never produce more than a single blank line
-     * between blocks in pretty-printed output.
-     */
-    size_t out_len = strlen(output);
-    char *collapsed = malloc(out_len + 1);
-    if (collapsed) {
-        const char *r = output;
-        char *w = collapsed;
-        int newline_run = 0;
-
-        while (*r) {
-            if (*r == '\n') {
-                newline_run++;
-                if (newline_run <= 2) {
-                    *w++ = *r++;
-                } else {
-                    /* Skip extra newlines beyond two */
-                    r++;
-                }
-            } else {
-                newline_run = 0;
-                *w++ = *r++;
-            }
-        }
-        *w = '\0';
-        free(output);
-        output = collapsed;
-    }
-
-    #undef WRITE_STR
-    #undef WRITE_CHAR
+    #undef WRITE_BYTES
+    #undef WRITE_NEWLINE
     #undef WRITE_INDENT
 
     return output;
-- 
2.43.0


From bade355a3cf39a18331c4ae96a2cc3437af368b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:19 +0000
Subject: [PATCH 112/180] fix: a code block after a definition list is not code

---
 src/extensions/definition_list.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extensions/definition_list.c b/src/extensions/definition_list.c
index d40ac2d..3cf9b46 100644
--- a/src/extensions/definition_list.c
+++ b/src/extensions/definition_list.c
@@ -775,7 +775,7 @@ char *apex_process_definition_lists(const char *text, bool unsafe) {
                 if (in_code_block && !was_in_code_block) {
                     if (in_def_list) {
                         /* Close any open definition list */
-                        const char *dl_end = "</dl>\n";
+                        const char *dl_end = "</dl>\n\n";
                         size_t dl_end_len = strlen(dl_end);
                         ENSURE_SPACE(dl_end_len + 1);
                         memcpy(write, dl_end, dl_end_len);
-- 
2.43.0


From e1279f42a6d35264e96308713bdbc2148451e527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:58 +0000
Subject: [PATCH 113/180] fix: use after free when the style sheet named in
 metadata is embedded

---
 src/apex.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/apex.c b/src/apex.c
index 07a587a..25b8b94 100644
--- a/src/apex.c
+++ b/src/apex.c
@@ -6181,10 +6181,6 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
                                                  language_metadata);
         PROFILE_END(standalone_wrap);
 
-        /* Free temporary metadata stylesheet array if we allocated it */
-        if (css_paths && css_paths[0] == css_metadata) {
-            free((void*)css_paths);
-        }
         if (document) {
             free(html);
             html = document;
@@ -6284,6 +6280,11 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
                 }
             }
         }
+
+        /* Free temporary metadata stylesheet array if we allocated it */
+        if (css_paths && css_paths != local_opts.stylesheet_paths) {
+            free((void*)css_paths);
+        }
     } else if (html && scripts_html) {
         /* Snippet mode: append scripts to the end of the HTML fragment */
         size_t html_len = strlen(html);
-- 
2.43.0


From 640e0503c0bbe66da68e4f0eb37068753ffc4372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:58 +0000
Subject: [PATCH 114/180] fix: a standalone document loses the text after raw
 </body></html>

---
 src/apex.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/apex.c b/src/apex.c
index 25b8b94..4c0abf0 100644
--- a/src/apex.c
+++ b/src/apex.c
@@ -6419,6 +6419,10 @@ char *apex_wrap_html_document(const char *content, const char *title, const char
                 }
                 between++;
             }
+            /* And that nothing follows them */
+            const char *after = html_end + 7;
+            while (isspace((unsigned char)*after)) after++;
+            if (*after) only_whitespace = false;
 
             if (only_whitespace) {
                 /* Strip everything from </body> to end */
-- 
2.43.0


From 694d24211f54a7e4f25c65f0d031ad330bf17786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:58 +0000
Subject: [PATCH 115/180] fix: the default style sheet has an invalid table
 width

---
 src/apex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/apex.c b/src/apex.c
index 4c0abf0..a7ce642 100644
--- a/src/apex.c
+++ b/src/apex.c
@@ -6750,7 +6750,7 @@ char *apex_wrap_html_document(const char *content, const char *title, const char
             "    pre { background: #f5f5f5; padding: 1rem; overflow-x: auto; }\n"
             "    code { background: #f0f0f0; padding: 0.2em 0.4em; border-radius: 3px; }\n"
             "    blockquote { border-left: 4px solid #ddd; margin: 0; padding-left: 1rem; color: #666; }\n"
-            "    table { border-collapse: collapse; width: 100%%; }\n"
+            "    table { border-collapse: collapse; width: 100%; }\n"
             "    th, td { border: 1px solid #ddd; padding: 0.5rem; }\n"
             "    th { background: #f5f5f5; }\n"
             "    tfoot td { background: #e8e8e8; }\n"
-- 
2.43.0


From fc4c6725e0414b7786cb01f99b1f4e14ca16c111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:12 +0000
Subject: [PATCH 116/180] fix: special characters in the title, language and
 style sheet names break a standalone document

---
 src/apex.c | 65 +++++++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 60 insertions(+), 5 deletions(-)

diff --git a/src/apex.c b/src/apex.c
index a7ce642..06810a5 100644
--- a/src/apex.c
+++ b/src/apex.c
@@ -3539,6 +3539,8 @@ static char *apex_add_poetry_class_to_code_blocks(const char *html) {
     return output;
 }
 
+static char *apex_escape_html_value(const char *text);
+
 /**
  * Extract text from the first H1 heading in HTML (strips HTML tags).
  * Returns a newly allocated string, or NULL if no H1 found or on error.
@@ -6235,9 +6237,11 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
                 if (css_content && css_len > 0) {
                     /* Build the exact link line we expect from apex_wrap_html_document */
                     char link_line[2048];
-                    int link_n = snprintf(link_line, sizeof(link_line),
-                                          "  <link rel=\"stylesheet\" href=\"%s\">\n",
-                                          css_path);
+                    char *href = apex_escape_html_value(css_path);
+                    int link_n = href ? snprintf(link_line, sizeof(link_line),
+                                                 "  <link rel=\"stylesheet\" href=\"%s\">\n",
+                                                 href) : -1;
+                    free(href);
                     if (link_n > 0 && (size_t)link_n < sizeof(link_line)) {
                         char *pos = strstr(html, link_line);
                         if (pos) {
@@ -6368,14 +6372,65 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
     return html;
 }
 
+/**
+ * Write text for an attribute or title: escape special characters, but keep entities
+ */
+static char *apex_escape_html_value(const char *text) {
+    char *escaped = malloc(strlen(text) * 6 + 1);
+    if (!escaped) return NULL;
+    char *write = escaped;
+    for (; *text; text++) {
+        const char *entity = NULL;
+        if (*text == '&') {
+            size_t n = strspn(text + 1, "#0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ");
+            if (n == 0 || n > 33 || text[n + 1] != ';') entity = "&amp;";
+        } else if (*text == '<') {
+            entity = "&lt;";
+        } else if (*text == '>') {
+            entity = "&gt;";
+        } else if (*text == '"') {
+            entity = "&quot;";
+        }
+        if (entity) {
+            size_t n = strlen(entity);
+            memcpy(write, entity, n);
+            write += n;
+        } else {
+            *write++ = *text;
+        }
+    }
+    *write = '\0';
+    return escaped;
+}
+
+static char *apex_wrap_escaped(const char *content, const char *doc_title, const char **stylesheet_paths, size_t stylesheet_count, const char *code_highlighter, const char *html_header, const char *html_footer, const char *lang);
+
 /**
  * Wrap HTML content in complete HTML5 document structure
  */
 char *apex_wrap_html_document(const char *content, const char *title, const char **stylesheet_paths, size_t stylesheet_count, const char *code_highlighter, const char *html_header, const char *html_footer, const char *language) {
     if (!content) return NULL;
 
-    const char *doc_title = title ? title : "Document";
-    const char *lang = language ? language : "en";
+    char *doc_title = apex_escape_html_value(title ? title : "Document");
+    char *lang = apex_escape_html_value(language ? language : "en");
+    size_t count = 0;
+    while (stylesheet_paths && count < stylesheet_count && stylesheet_paths[count]) count++;
+    char **paths = calloc(count + 1, sizeof(char *));
+    bool ok = doc_title && lang && paths;
+    for (size_t i = 0; ok && i < count; i++) {
+        paths[i] = apex_escape_html_value(stylesheet_paths[i]);
+        ok = paths[i] != NULL;
+    }
+    char *document = ok ? apex_wrap_escaped(content, doc_title, stylesheet_paths ? (const char **)paths : NULL, count,
+                                            code_highlighter, html_header, html_footer, lang) : strdup(content);
+    for (size_t i = 0; paths && i < count; i++) free(paths[i]);
+    free(paths);
+    free(doc_title);
+    free(lang);
+    return document;
+}
+
+static char *apex_wrap_escaped(const char *content, const char *doc_title, const char **stylesheet_paths, size_t stylesheet_count, const char *code_highlighter, const char *html_header, const char *html_footer, const char *lang) {
 
     /* Strip any existing </body></html> tags from end of content to avoid duplicates */
     size_t content_len = strlen(content);
-- 
2.43.0


From 64c537a7f0eb12a312c6edc8ab7b62e0adcfb222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:07 +0000
Subject: [PATCH 117/180] fix: </body></html> at the end of the content is not
 taken off before the page is wrapped

---
 src/apex.c | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/apex.c b/src/apex.c
index 06810a5..faaa2bf 100644
--- a/src/apex.c
+++ b/src/apex.c
@@ -6450,16 +6450,11 @@ static char *apex_wrap_escaped(const char *content, const char *doc_title, const
     /* If we found </html>, look for </body> before it */
     if (html_end) {
         search = html_end;
-        while (search > content) {
+        while (search > content && isspace((unsigned char)search[-1])) {
             search--;
-            if (strncmp(search, "</body>", 7) == 0) {
-                body_end = search;
-                break;
-            }
-            /* Stop if we hit a non-whitespace character before finding </body> */
-            if (!isspace((unsigned char)*search) && *search != '>') {
-                break;
-            }
+        }
+        if (search - content >= 7 && strncmp(search - 7, "</body>", 7) == 0) {
+            body_end = search - 7;
         }
 
         /* If we found both tags at the end, strip them */
-- 
2.43.0


From 472405eb6a2fde4d53bf209c5b47aa0bc94cb387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:07 +0000
Subject: [PATCH 118/180] fix: options on the command line are overridden by
 metadata, and lost when metadata names a mode

---
 cli/main.c | 86 ++++++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 86 insertions(+)

diff --git a/cli/main.c b/cli/main.c
index a5cbb9f..b4b6bcc 100644
--- a/cli/main.c
+++ b/cli/main.c
@@ -1408,6 +1408,7 @@ int main(int argc, char *argv[]) {
     apex_options options = apex_options_default();
     bool plugins_cli_override = false;
     bool plugins_cli_value = false;
+    bool mode_cli_override = false;
     bool list_plugins = false;
     const char *install_plugin_id = NULL;
     const char *uninstall_plugin_id = NULL;
@@ -1492,6 +1493,7 @@ int main(int argc, char *argv[]) {
                 fprintf(stderr, "Error: Unknown mode '%s'\n", argv[i]);
                 return 1;
             }
+            mode_cli_override = true;
         } else if (strcmp(argv[i], "-t") == 0 || strcmp(argv[i], "--to") == 0) {
             if (++i >= argc) {
                 fprintf(stderr, "Error: --to requires an argument\n");
@@ -3254,7 +3256,91 @@ int main(int argc, char *argv[]) {
     /* Apply metadata to options - allows per-document control of command-line options */
     /* Note: Bibliography file loading from metadata will be handled in citations extension */
     if (merged_metadata) {
+        apex_options cli = options;
+        apex_options defaults = mode_cli_override ? apex_options_for_mode(cli.mode) : apex_options_default();
         apex_apply_metadata_to_options(merged_metadata, &options);
+        if (mode_cli_override && options.mode != cli.mode) {
+            /* --mode wins over a mode in metadata: apply the other metadata to its defaults */
+            options = cli;
+            for (apex_metadata_item *item = merged_metadata; item; item = item->next) {
+                if (strcasecmp(item->key, "mode") != 0) {
+                    apex_metadata_item single = *item;
+                    single.next = NULL;
+                    apex_apply_metadata_to_options(&single, &options);
+                }
+            }
+        }
+        /* Options given on the command line win over metadata */
+#define KEEP(field) do { if (cli.field != defaults.field) options.field = cli.field; } while (0)
+        KEEP(output_format);
+        KEEP(theme_name);
+        KEEP(enable_plugins);
+        KEEP(enable_tables);
+        KEEP(enable_footnotes);
+        KEEP(enable_smart_typography);
+        KEEP(enable_math);
+        KEEP(enable_file_includes);
+        KEEP(hardbreaks);
+        KEEP(standalone);
+        KEEP(embed_stylesheet);
+        KEEP(document_title);
+        KEEP(pretty);
+        KEEP(enable_critic_markup);
+        KEEP(critic_mode);
+        KEEP(id_format);
+        KEEP(generate_header_ids);
+        KEEP(header_anchors);
+        KEEP(relaxed_tables);
+        KEEP(per_cell_alignment);
+        KEEP(caption_position);
+        KEEP(code_highlighter);
+        KEEP(code_line_numbers);
+        KEEP(highlight_language_only);
+        KEEP(allow_alpha_lists);
+        KEEP(allow_mixed_list_markers);
+        KEEP(unsafe);
+        KEEP(enable_sup_sub);
+        KEEP(enable_divs);
+        KEEP(enable_spans);
+        KEEP(enable_autolink);
+        KEEP(enable_strikethrough);
+        KEEP(obfuscate_emails);
+        KEEP(enable_aria);
+        KEEP(enable_wiki_links);
+        KEEP(enable_emoji_autocorrect);
+        KEEP(enable_widont);
+        KEEP(code_is_poetry);
+        KEEP(enable_markdown_in_html);
+        KEEP(random_footnote_ids);
+        KEEP(enable_hashtags);
+        KEEP(style_hashtags);
+        KEEP(proofreader_mode);
+        KEEP(hr_page_break);
+        KEEP(page_break_before_footnotes);
+        KEEP(wikilink_space);
+        KEEP(wikilink_extension);
+        KEEP(wikilink_sanitize);
+        KEEP(enable_metadata_transforms);
+        KEEP(embed_images);
+        KEEP(enable_image_captions);
+        KEEP(title_captions_only);
+        KEEP(enable_citations);
+        KEEP(csl_file);
+        KEEP(suppress_bibliography);
+        KEEP(link_citations);
+        KEEP(show_tooltips);
+        KEEP(enable_indices);
+        KEEP(enable_mmark_index_syntax);
+        KEEP(enable_textindex_syntax);
+        KEEP(enable_leanpub_index_syntax);
+        KEEP(suppress_index);
+#undef KEEP
+        if (!options.base_directory) options.base_directory = cli.base_directory;
+        if (!options.input_file_path) options.input_file_path = cli.input_file_path;
+        if (saved_stylesheet_files) {
+            options.stylesheet_paths = (const char **)saved_stylesheet_files;
+            options.stylesheet_count = stylesheet_count;
+        }
         /* Restore bibliography files if they were lost (e.g., if mode was set in metadata) */
         if (saved_bibliography_files && !options.bibliography_files) {
             options.bibliography_files = saved_bibliography_files;
-- 
2.43.0


From 16175b8ebf8fe98b3d006fbcc70a6ee89b26fdc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:55 +0000
Subject: [PATCH 119/180] fix: the index cuts and does not escape terms,
 indexes the whole phrase before {^}, leaves brackets of [term]{^}, and
 ignores terms with other letters than ASCII

---
 src/extensions/index.c | 181 +++++++++++++++++++++++------------------
 1 file changed, 103 insertions(+), 78 deletions(-)

diff --git a/src/extensions/index.c b/src/extensions/index.c
index 99c9c03..ce10959 100644
--- a/src/extensions/index.c
+++ b/src/extensions/index.c
@@ -19,7 +19,7 @@
  * Index terms can contain letters, digits, spaces, and common punctuation
  */
 static bool is_valid_index_char(char c) {
-    return isalnum(c) || c == ' ' || c == '-' || c == '_' || c == '/' ||
+    return isalnum((unsigned char)c) || (unsigned char)c >= 0x80 || c == ' ' || c == '-' || c == '_' || c == '/' ||
            c == '.' || c == ',' || c == ':' || c == ';' || c == '\'' || c == '"';
 }
 
@@ -29,14 +29,15 @@ static bool is_valid_index_char(char c) {
 static char *trim_string(char *str) {
     if (!str) return NULL;
 
-    /* Trim leading whitespace */
-    while (*str && isspace((unsigned char)*str)) str++;
+    /* Trim leading whitespace (callers keep the pointer they passed in) */
+    char *start = str;
+    while (*start && isspace((unsigned char)*start)) start++;
+    if (start != str) memmove(str, start, strlen(start) + 1);
 
     /* Trim trailing whitespace */
-    char *end = str + strlen(str) - 1;
-    while (end > str && isspace((unsigned char)*end)) {
-        *end = '\0';
-        end--;
+    size_t len = strlen(str);
+    while (len > 0 && isspace((unsigned char)str[len - 1])) {
+        str[--len] = '\0';
     }
 
     return str;
@@ -124,12 +125,12 @@ static int parse_mmark_index(const char *text, int pos, int len,
 
     /* Create index entry */
     apex_index_entry *entry = apex_index_entry_new(item, APEX_INDEX_MMARK);
+    free(item);
     if (entry) {
         entry->subitem = subitem;
         entry->primary = primary;
         *entry_out = entry;
     } else {
-        free(item);
         free(subitem);
     }
 
@@ -144,6 +145,7 @@ static int parse_mmark_index(const char *text, int pos, int len,
  * We look for {^ pattern and extract the term from before it
  */
 static int parse_textindex(const char *text, int pos, int len,
+                           const char *term_start, size_t term_len,
                            apex_index_entry **entry_out) {
     if (pos + 2 >= len) return 0;
 
@@ -176,28 +178,14 @@ static int parse_textindex(const char *text, int pos, int len,
     p++;  /* Skip } */
     int consumed = p - (text + pos);
 
-    /* Check for explicit term before {^: [term]{^} */
+    /* Explicit term before {^: [term]{^} */
     char *term = NULL;
-    if (brace_start > text && brace_start[-1] == ']') {
-        /* Look backwards for [ */
-        const char *bracket_start = brace_start - 1;
-        int lookback = 0;
-        while (bracket_start > text && *bracket_start != '[' && lookback < 200) {
-            bracket_start--;
-            lookback++;
-        }
-
-        if (*bracket_start == '[') {
-            /* Term is content between [ and ], excluding the brackets */
-            size_t term_len = (brace_start - 1) - (bracket_start + 1);
-            if (term_len > 0 && term_len < 200) {
-                term = malloc(term_len + 1);
-                if (term) {
-                    memcpy(term, bracket_start + 1, term_len);
-                    term[term_len] = '\0';
-                    trim_string(term);
-                }
-            }
+    if (term_len > 0) {
+        term = malloc(term_len + 1);
+        if (term) {
+            memcpy(term, term_start, term_len);
+            term[term_len] = '\0';
+            trim_string(term);
         }
     }
 
@@ -209,34 +197,30 @@ static int parse_textindex(const char *text, int pos, int len,
             word_end--;
         }
 
-        /* Extract word/phrase (up to 50 chars backwards) */
+        /* Extract the word before it */
         const char *word_start = word_end;
-        int word_chars = 0;
-        while (word_start > text && word_chars < 50) {
-            char c = word_start[-1];
-            if (isalnum(c) || c == ' ' || c == '-' || c == '_') {
+        while (word_start > text) {
+            unsigned char c = (unsigned char)word_start[-1];
+            if (isalnum(c) || c >= 0x80 || c == '-' || c == '_') {
                 word_start--;
-                word_chars++;
             } else {
                 break;
             }
         }
 
-        if (word_chars > 0) {
-            size_t term_len = word_end - word_start;
-            if (term_len > 0) {
-                free(term);  /* Free if we allocated empty term above */
-                term = malloc(term_len + 1);
-                if (term) {
-                    memcpy(term, word_start, term_len);
-                    term[term_len] = '\0';
-                    trim_string(term);
-                }
+        if (word_start < word_end) {
+            size_t word_len = word_end - word_start;
+            free(term);  /* Free if we allocated empty term above */
+            term = malloc(word_len + 1);
+            if (term) {
+                memcpy(term, word_start, word_len);
+                term[word_len] = '\0';
             }
         }
     }
 
     if (!term || strlen(term) == 0) {
+        free(term);
         free(params);
         return 0;  /* No term found */
     }
@@ -259,11 +243,11 @@ static int parse_textindex(const char *text, int pos, int len,
 
     /* Create index entry */
     apex_index_entry *entry = apex_index_entry_new(term, APEX_INDEX_TEXTINDEX);
+    free(term);
     if (entry) {
         entry->subitem = subitem;
         *entry_out = entry;
     } else {
-        free(term);
         free(subitem);
     }
 
@@ -394,11 +378,11 @@ static int parse_leanpub_index(const char *text, int pos, int len,
     p++;  /* Skip } */
 
     apex_index_entry *entry = apex_index_entry_new(item, APEX_INDEX_LEANPUB);
+    free(item);
     if (entry) {
         entry->subitem = subitem;
         *entry_out = entry;
     } else {
-        free(item);
         free(subitem);
     }
 
@@ -528,10 +512,22 @@ char *apex_process_index_entries(const char *text, apex_index_registry *registry
             consumed = parse_mmark_index(text, read - text, text_len, &entry);
         }
 
-        /* Try TextIndex syntax if mmark didn't match and TextIndex is enabled */
-        /* TextIndex uses {^} which we need to scan forward for */
+        /* Try TextIndex syntax if mmark didn't match and TextIndex is enabled:
+         * [term]{^}, of which the term stays in the text, or {^} after a word */
+        const char *term = NULL;
+        size_t term_len = 0;
+        if (!entry && options->enable_textindex_syntax && *read == '[') {
+            size_t span = strcspn(read + 1, "[]\n");
+            if (span > 0 && strncmp(read + 1 + span, "]{^", 3) == 0) {
+                term = read + 1;
+                term_len = span;
+                consumed = parse_textindex(text, term + term_len + 1 - text, text_len, term, term_len, &entry);
+                if (consumed > 0) consumed += term_len + 2;
+            }
+        }
         if (!entry && options->enable_textindex_syntax && *read == '{' && read + 1 < text + text_len && read[1] == '^') {
-            consumed = parse_textindex(text, read - text, text_len, &entry);
+            term_len = 0;
+            consumed = parse_textindex(text, read - text, text_len, NULL, 0, &entry);
         }
 
         /* Try Leanpub syntax if no match yet and Leanpub is enabled */
@@ -540,6 +536,14 @@ char *apex_process_index_entries(const char *text, apex_index_registry *registry
             consumed = parse_leanpub_index(text, read - text, text_len, &entry);
         }
 
+        if (entry && consumed > 0) {
+            if (!entry->item || !*entry->item) {
+                /* An empty term is no entry */
+                apex_index_entry_free(entry);
+                entry = NULL;
+                term_len = 0;
+            }
+        }
         if (entry && consumed > 0) {
             /* Add entry to registry */
             entry->position = read - text;
@@ -552,7 +556,7 @@ char *apex_process_index_entries(const char *text, apex_index_registry *registry
             registry->next_ref_id++;
 
             /* Replace with placeholder */
-            size_t placeholder_len = strlen(INDEX_PLACEHOLDER_PREFIX) +
+            size_t placeholder_len = term_len + strlen(INDEX_PLACEHOLDER_PREFIX) +
                                    strlen(anchor_id) +
                                    strlen(INDEX_PLACEHOLDER_SUFFIX);
 
@@ -571,7 +575,7 @@ char *apex_process_index_entries(const char *text, apex_index_registry *registry
                 remaining = capacity - used;
             }
 
-            snprintf(write, remaining, "%s%s%s",
+            snprintf(write, remaining, "%.*s%s%s%s", (int)term_len, term_len ? term : "",
                     INDEX_PLACEHOLDER_PREFIX, anchor_id, INDEX_PLACEHOLDER_SUFFIX);
             write += placeholder_len;
             remaining -= placeholder_len;
@@ -683,6 +687,24 @@ char *apex_render_index_markers(const char *html, apex_index_registry *registry,
     return output;
 }
 
+/**
+ * Get first letter of index term (for grouping)
+ */
+static char get_first_letter(const char *term) {
+    if (!term || *term == '\0') return '?';
+
+    /* Skip leading whitespace and punctuation */
+    while (*term && (!isalnum((unsigned char)*term))) {
+        term++;
+    }
+
+    if (*term) {
+        return toupper((unsigned char)*term);
+    }
+
+    return '?';
+}
+
 /**
  * Compare function for sorting index entries
  */
@@ -690,38 +712,34 @@ static int compare_index_entries(const void *a, const void *b) {
     const apex_index_entry *entry_a = *(const apex_index_entry **)a;
     const apex_index_entry *entry_b = *(const apex_index_entry **)b;
 
+    /* The entries of a letter stay together */
+    int letter_cmp = (unsigned char)get_first_letter(entry_a->item) - (unsigned char)get_first_letter(entry_b->item);
+    if (letter_cmp != 0) return letter_cmp;
+
     /* Compare items (case-insensitive) */
     int item_cmp = strcasecmp(entry_a->item, entry_b->item);
     if (item_cmp != 0) return item_cmp;
 
     /* If items are equal, compare subitems */
     if (entry_a->subitem && entry_b->subitem) {
-        return strcasecmp(entry_a->subitem, entry_b->subitem);
+        int subitem_cmp = strcasecmp(entry_a->subitem, entry_b->subitem);
+        if (subitem_cmp != 0) return subitem_cmp;
     } else if (entry_a->subitem) {
         return 1;  /* Entry with subitem comes after entry without */
     } else if (entry_b->subitem) {
         return -1;
     }
 
-    return 0;
+    /* The same entry: in the order of the document */
+    return (entry_a->position > entry_b->position) - (entry_a->position < entry_b->position);
 }
 
-/**
- * Get first letter of index term (for grouping)
- */
-static char get_first_letter(const char *term) {
-    if (!term || *term == '\0') return '?';
-
-    /* Skip leading whitespace and punctuation */
-    while (*term && (!isalnum((unsigned char)*term))) {
-        term++;
-    }
-
-    if (*term) {
-        return toupper((unsigned char)*term);
-    }
-
-    return '?';
+/** Whether text starts with an HTML entity */
+static bool is_entity(const char *text) {
+    const char *p = text + 1;
+    if (*p == '#') p++;
+    while (isalnum((unsigned char)*p)) p++;
+    return *p == ';' && p > text + 1;
 }
 
 /**
@@ -755,6 +773,14 @@ char *apex_generate_index_html(apex_index_registry *registry, const apex_options
     char *write = html;
     size_t remaining = capacity;
 
+    #define APPEND_ESCAPED(str) do { \
+        for (const char *c = (str); *c; c++) { \
+            char single[2] = {*c, '\0'}; \
+            const char *out = *c == '&' && !is_entity(c) ? "&amp;" : *c == '<' ? "&lt;" : *c == '>' ? "&gt;" : single; \
+            APPEND(out); \
+        } \
+    } while(0)
+
     #define APPEND(str) do { \
         size_t len = strlen(str); \
         if (len < remaining) { \
@@ -805,9 +831,8 @@ char *apex_generate_index_html(apex_index_registry *registry, const apex_options
             }
 
             /* Collect all entries with same item */
-            char item_html[2048];
-            snprintf(item_html, sizeof(item_html), "<li>\n%s", entry->item);
-            APPEND(item_html);
+            APPEND("<li>\n");
+            APPEND_ESCAPED(entry->item);
 
             if (entry->primary) {
                 APPEND(" <strong>");
@@ -826,7 +851,7 @@ char *apex_generate_index_html(apex_index_registry *registry, const apex_options
             /* Add subitems if any */
             if (entry->subitem) {
                 APPEND("<ul>\n<li>\n");
-                APPEND(entry->subitem);
+                APPEND_ESCAPED(entry->subitem);
                 snprintf(link_html, sizeof(link_html), " <a class=\"index-return\" href=\"#%s\"><sup>[go]</sup></a>",
                         entry->anchor_id ? entry->anchor_id : "");
                 APPEND(link_html);
@@ -846,9 +871,8 @@ char *apex_generate_index_html(apex_index_registry *registry, const apex_options
         for (size_t i = 0; i < registry->count; i++) {
             apex_index_entry *entry = entries[i];
 
-            char item_html[2048];
-            snprintf(item_html, sizeof(item_html), "<li>\n%s", entry->item);
-            APPEND(item_html);
+            APPEND("<li>\n");
+            APPEND_ESCAPED(entry->item);
 
             if (entry->primary) {
                 APPEND(" <strong>");
@@ -865,7 +889,7 @@ char *apex_generate_index_html(apex_index_registry *registry, const apex_options
 
             if (entry->subitem) {
                 APPEND("<ul>\n<li>\n");
-                APPEND(entry->subitem);
+                APPEND_ESCAPED(entry->subitem);
                 snprintf(link_html, sizeof(link_html), " <a class=\"index-return\" href=\"#%s\"><sup>[go]</sup></a>",
                         entry->anchor_id ? entry->anchor_id : "");
                 APPEND(link_html);
@@ -880,6 +904,7 @@ char *apex_generate_index_html(apex_index_registry *registry, const apex_options
 
     APPEND("</div>\n");
 
+    #undef APPEND_ESCAPED
     #undef APPEND
 
     *write = '\0';
-- 
2.43.0


From 5da4282df546a5d62a4295493f0f72e4093f87c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:55 +0000
Subject: [PATCH 120/180] fix: citations overflow their buffer, lose text, eat
 the space after them, take e-mail addresses and the rest of a document, mix
 up styles and are not escaped

---
 src/extensions/citations.c | 806 +++++++++++++++++--------------------
 1 file changed, 370 insertions(+), 436 deletions(-)

diff --git a/src/extensions/citations.c b/src/extensions/citations.c
index b7c1327..5ca212a 100644
--- a/src/extensions/citations.c
+++ b/src/extensions/citations.c
@@ -15,6 +15,80 @@
 #define CITATION_PLACEHOLDER_PREFIX "<!--CITE:"
 #define CITATION_PLACEHOLDER_SUFFIX "-->"
 
+/* Growing output buffer */
+typedef struct {
+    char *text;
+    size_t len;
+    size_t capacity;
+    bool failed;
+} cite_buffer;
+
+static void cite_add(cite_buffer *buf, const char *text, size_t len) {
+    if (buf->failed) return;
+    if (buf->len + len + 1 > buf->capacity) {
+        size_t capacity = (buf->len + len + 1) * 2;
+        char *grown = realloc(buf->text, capacity);
+        if (!grown) {
+            buf->failed = true;
+            return;
+        }
+        buf->text = grown;
+        buf->capacity = capacity;
+    }
+    memcpy(buf->text + buf->len, text, len);
+    buf->len += len;
+    buf->text[buf->len] = '\0';
+}
+
+static void cite_puts(cite_buffer *buf, const char *text) {
+    cite_add(buf, text, strlen(text));
+}
+
+/**
+ * Add a key or a bibliography field as HTML text. Entities and the simple
+ * formatting tags that CSL allows in fields stay as they are.
+ */
+static void cite_escape(cite_buffer *buf, const char *text) {
+    static const char *const tags[] = {"<i>", "</i>", "<b>", "</b>", "<sup>", "</sup>", "<sub>", "</sub>"};
+    for (const char *p = text; *p; p++) {
+        if (*p == '&') {
+            const char *e = p + 1;
+            if (*e == '#') e++;
+            while (isalnum((unsigned char)*e)) e++;
+            if (*e == ';' && e > p + 1) cite_add(buf, p, 1);
+            else cite_puts(buf, "&amp;");
+        } else if (*p == '<') {
+            size_t tag_len = 0;
+            for (size_t i = 0; i < sizeof(tags) / sizeof(tags[0]) && !tag_len; i++) {
+                if (strncmp(p, tags[i], strlen(tags[i])) == 0) tag_len = strlen(tags[i]);
+            }
+            if (tag_len) {
+                cite_add(buf, p, tag_len);
+                p += tag_len - 1;
+            } else {
+                cite_puts(buf, "&lt;");
+            }
+        } else if (*p == '>') {
+            cite_puts(buf, "&gt;");
+        } else {
+            cite_add(buf, p, 1);
+        }
+    }
+}
+
+/** Add a key as (part of) an attribute value */
+static void cite_attribute(cite_buffer *buf, const char *text) {
+    for (const char *p = text; *p; p++) {
+        switch (*p) {
+            case '&': cite_puts(buf, "&amp;"); break;
+            case '<': cite_puts(buf, "&lt;"); break;
+            case '>': cite_puts(buf, "&gt;"); break;
+            case '"': cite_puts(buf, "&quot;"); break;
+            default: cite_add(buf, p, 1);
+        }
+    }
+}
+
 /**
  * Check if character is valid in citation key
  * Citation keys can contain: alphanumerics, _, and internal punctuation (:.#$%&-+?<>~/)
@@ -28,8 +102,10 @@ static bool is_valid_citation_char(char c) {
 /**
  * Extract citation key from text starting at pos
  * Returns length of key, or 0 if not valid
+ * Unless the key extends to a closing bracket, punctuation belongs to it only
+ * between letters and digits (a full stop after it ends the sentence).
  */
-static int extract_citation_key(const char *text, int pos, int len, char **key_out) {
+static int extract_citation_key(const char *text, int pos, int len, bool to_bracket, char **key_out) {
     if (pos >= len) return 0;
 
     const char *start = text + pos;
@@ -57,6 +133,10 @@ static int extract_citation_key(const char *text, int pos, int len, char **key_o
     /* Collect key characters */
     const char *key_start = start;
     while (p - text < len && is_valid_citation_char(*p)) {
+        if (!to_bracket && !isalnum((unsigned char)*p) && *p != '_' &&
+            !isalnum((unsigned char)p[1]) && p[1] != '_') {
+            break;
+        }
         p++;
     }
 
@@ -96,7 +176,31 @@ static bool is_mmark_pattern(const char *text, int pos, int len) {
 }
 
 /**
- * Parse Pandoc citation: [@key] or @key or [see @key, pp. 33-35]
+ * Find the end of a bracket: the next ] in the same paragraph, or NULL
+ */
+static const char *find_bracket_end(const char *p, const char *end) {
+    for (; p < end && *p != ']'; p++) {
+        if (*p == '\n') {
+            const char *next = p + 1;
+            while (next < end && (*next == ' ' || *next == '\t')) next++;
+            if (next < end && *next == '\n') return NULL;
+        }
+    }
+    return p < end ? p : NULL;
+}
+
+static char *copy_range(const char *start, const char *end) {
+    char *copy = malloc(end - start + 1);
+    if (copy) {
+        memcpy(copy, start, end - start);
+        copy[end - start] = '\0';
+    }
+    return copy;
+}
+
+/**
+ * Parse Pandoc citation: [@key], [@key; @other, pp. 33-35] or @key
+ * The citations of one bracket are linked by their next pointers.
  */
 static int parse_pandoc_citation(const char *text, int pos, int len,
                                   apex_citation **citation_out, const apex_options *options) {
@@ -104,163 +208,95 @@ static int parse_pandoc_citation(const char *text, int pos, int len,
     if (pos >= len) return 0;
 
     const char *p = text + pos;
-    bool in_brackets = false;
-    bool author_suppressed = false;
-    char *prefix = NULL;
-    char *locator = NULL;
-    char *suffix = NULL;
-    char *key = NULL;
+    const char *end = text + len;
 
     /* Check for @key (author-in-text, no brackets) */
     if (*p == '@') {
+        char *key = NULL;
+        unsigned char before = pos > 0 ? (unsigned char)p[-1] : ' ';
+
+        /* E-mail addresses, paths and escaped signs are no citations */
+        if (isalnum(before) || before >= 0x80 || before == '_' || before == '/' || before == '\\') return 0;
+
         p++;
-        int key_len = extract_citation_key(text, p - text, len, &key);
-        if (key_len > 0 && key) {
-            /* Check if there's a locator after: @key [p. 33] */
-            const char *after_key = p + key_len;
-            while (after_key < text + len && isspace(*after_key)) after_key++;
-            if (after_key < text + len && *after_key == '[') {
-                /* Extract locator from [p. 33] */
-                const char *loc_start = after_key + 1;
-                const char *loc_end = strchr(loc_start, ']');
-                if (loc_end) {
-                    size_t loc_len = loc_end - loc_start;
-                    locator = malloc(loc_len + 1);
-                    if (locator) {
-                        memcpy(locator, loc_start, loc_len);
-                        locator[loc_len] = '\0';
-                    }
-                    after_key = loc_end + 1;
-                }
-            }
+        int key_len = extract_citation_key(text, p - text, len, false, &key);
+        if (key_len <= 0 || !key) return 0;
+        p += key_len;
 
-            apex_citation *cite = apex_citation_new(key, APEX_CITATION_PANDOC);
-            if (cite) {
-                cite->author_in_text = true;
-                cite->locator = locator;
-                *citation_out = cite;
-                free(key);
-                return after_key - (text + pos);
+        apex_citation *cite = apex_citation_new(key, APEX_CITATION_PANDOC);
+        free(key);
+        if (!cite) return 0;
+        cite->author_in_text = true;
+
+        /* Check if there's a locator after: @key [p. 33] (not a link, note or citation) */
+        const char *bracket = p;
+        while (bracket < end && (*bracket == ' ' || *bracket == '\t')) bracket++;
+        if (bracket < end && *bracket == '[' && !strchr("@#^-!>%", bracket[1])) {
+            const char *loc_end = find_bracket_end(bracket + 1, end);
+            if (loc_end && !(loc_end + 1 < end && strchr("([{:", loc_end[1]))) {
+                cite->locator = copy_range(bracket + 1, loc_end);
+                p = loc_end + 1;
             }
-            free(key);
-            free(locator);
-            return 0;
         }
-        return 0;
-    }
-
-    /* Check for [-@key] (author suppressed) */
-    if (*p == '[' && p + 1 < text + len && p[1] == '-' && p[2] == '@') {
-        author_suppressed = true;
-        in_brackets = true;
-        p += 3;  /* Skip [-@ */
-    }
-    /* Check for [@key] (normal citation) */
-    else if (*p == '[' && p + 1 < text + len && p[1] == '@') {
-        in_brackets = true;
-        p += 2;  /* Skip [@ */
-    } else {
-        return 0;  /* Not a Pandoc citation */
-    }
-
-    /* Extract key */
-    int key_len = extract_citation_key(text, p - text, len, &key);
-    if (key_len == 0 || !key) {
-        return 0;
+        *citation_out = cite;
+        return p - (text + pos);
     }
-    p += key_len;
 
-    /* If we're in brackets, look for prefix, locator, suffix */
-    if (in_brackets) {
-        /* Skip whitespace */
-        while (p < text + len && isspace(*p)) p++;
-
-        /* Check for prefix before @ (e.g., "see @key") */
-        if (p > text + pos + 2) {
-            const char *prefix_start = text + pos + 1;
-            const char *at_pos = strchr(prefix_start, '@');
-            if (at_pos && at_pos < p) {
-                size_t prefix_len = at_pos - prefix_start;
-                while (prefix_len > 0 && isspace(prefix_start[prefix_len - 1])) prefix_len--;
-                if (prefix_len > 0) {
-                    prefix = malloc(prefix_len + 1);
-                    if (prefix) {
-                        memcpy(prefix, prefix_start, prefix_len);
-                        prefix[prefix_len] = '\0';
-                    }
-                }
-            }
+    if (*p != '[') return 0;
+    p++;
+    const char *close = find_bracket_end(p, end);
+    if (!close) return 0;
+
+    apex_citation *first = NULL;
+    apex_citation **link = &first;
+    while (p < close) {
+        /* @key or -@key (author suppressed); the first one directly after the bracket */
+        const char *item = p;
+        if (first) {
+            while (item < close && isspace((unsigned char)*item)) item++;
         }
-
-        /* Look for locator and suffix after key */
-        while (p < text + len && *p != ']') {
-            if (*p == ',') {
-                p++;
-                while (p < text + len && isspace(*p)) p++;
-
-                /* Try to extract locator (e.g., "pp. 33-35") */
-                const char *loc_start = p;
-                while (p < text + len && *p != ']' && *p != ';') p++;
-
-                if (p > loc_start) {
-                    size_t loc_len = p - loc_start;
-                    /* Check if this looks like a locator (contains page/chapter indicators) */
-                    const char *loc_test = loc_start;
-                    bool looks_like_locator = false;
-                    while (loc_test < loc_start + loc_len) {
-                        if (strncmp(loc_test, "p.", 2) == 0 || strncmp(loc_test, "pp.", 3) == 0 ||
-                            strncmp(loc_test, "chap.", 5) == 0 || strncmp(loc_test, "chapter", 7) == 0 ||
-                            strncmp(loc_test, "sec.", 4) == 0 || strncmp(loc_test, "section", 7) == 0) {
-                            looks_like_locator = true;
-                            break;
-                        }
-                        loc_test++;
-                    }
-
-                    if (looks_like_locator || isdigit(*loc_start)) {
-                        locator = malloc(loc_len + 1);
-                        if (locator) {
-                            memcpy(locator, loc_start, loc_len);
-                            locator[loc_len] = '\0';
-                        }
-                    } else {
-                        /* Might be suffix */
-                        suffix = malloc(loc_len + 1);
-                        if (suffix) {
-                            memcpy(suffix, loc_start, loc_len);
-                            suffix[loc_len] = '\0';
-                        }
-                    }
+        bool author_suppressed = false;
+        if (*item == '-') {
+            author_suppressed = true;
+            item++;
+        }
+        char *key = NULL;
+        int key_len = 0;
+        if (item < close && *item == '@') {
+            item++;
+            if (first && (*item == '!' || *item == '?')) item++;
+            key_len = extract_citation_key(text, item - text, len, false, &key);
+        }
+        if (key_len <= 0 || !key) {
+            if (!first) return 0;  /* Not a Pandoc citation */
+            key_len = 0;
+        } else {
+            apex_citation *cite = apex_citation_new(key, is_mmark_pattern(text, item - text, len) ? APEX_CITATION_MMARK : APEX_CITATION_PANDOC);
+            free(key);
+            if (!cite) break;
+            cite->author_suppressed = author_suppressed;
+            item += key_len;
+            const char *item_end = item;
+            while (item_end < close && *item_end != ';') item_end++;
+            while (item < item_end && (isspace((unsigned char)*item) || *item == ',')) item++;
+            if (item < item_end) {
+                /* A locator (e.g., "pp. 33-35") or a suffix */
+                char *rest = copy_range(item, item_end);
+                if (rest && (isdigit((unsigned char)*rest) || strstr(rest, "p.") || strstr(rest, "chap") || strstr(rest, "sec"))) {
+                    cite->locator = rest;
+                } else {
+                    cite->suffix = rest;
                 }
-            } else if (*p == ';') {
-                /* Multiple citations - for now, just handle first one */
-                break;
-            } else {
-                p++;
             }
+            *link = cite;
+            link = &cite->next;
         }
-
-        if (p < text + len && *p == ']') {
-            p++;  /* Skip closing ] */
-        }
+        while (p < close && *p != ';') p++;
+        if (p < close) p++;
     }
 
-    apex_citation *cite = apex_citation_new(key, APEX_CITATION_PANDOC);
-    if (cite) {
-        cite->author_suppressed = author_suppressed;
-        cite->prefix = prefix;
-        cite->locator = locator;
-        cite->suffix = suffix;
-        *citation_out = cite;
-        free(key);
-        return p - (text + pos);
-    }
-
-    free(key);
-    free(prefix);
-    free(locator);
-    free(suffix);
-    return 0;
+    *citation_out = first;
+    return first ? close + 1 - (text + pos) : 0;
 }
 
 /**
@@ -280,7 +316,7 @@ static int parse_mmd_citation(const char *text, int pos, int len,
 
     /* Extract key */
     char *key = NULL;
-    int key_len = extract_citation_key(text, p - text, len, &key);
+    int key_len = extract_citation_key(text, p - text, len, true, &key);
     if (key_len == 0 || !key) {
         return 0;
     }
@@ -439,34 +475,30 @@ char *apex_process_citations(const char *text, apex_citation_registry *registry,
         return NULL;
     }
 
-    size_t capacity = len * 2;  /* Room for placeholders */
-    char *output = malloc(capacity);
-    if (!output) return NULL;
+    cite_buffer output = {0};
+    cite_puts(&output, "");
 
     const char *read = text;
-    char *write = output;
-    size_t remaining = capacity;
-    bool in_code_block = false;
-    bool in_inline_code = false;
+    const char *end = text + len;
 
-    while (*read && read - text < (int)len) {
-        /* Track code blocks */
+    while (read < end) {
+        /* Code is copied as it is: a run of backticks up to the next run of the same length
+         * (a fence without an end extends to the end of the text) */
         if (*read == '`') {
-            if (read[1] == '`' && read[2] == '`') {
-                in_code_block = !in_code_block;
-            } else if (!in_code_block) {
-                in_inline_code = !in_inline_code;
+            size_t run = strspn(read, "`");
+            const char *code_end = read + run;
+            bool closed = false;
+            while (code_end < end && !closed) {
+                size_t next = strspn(code_end, "`");
+                if (next == run || (run >= 3 && next > run)) closed = true;
+                code_end += next ? next : 1;
             }
-        }
-
-        /* Skip citations inside code */
-        if (in_code_block || in_inline_code) {
-            if (remaining > 0) {
-                *write++ = *read++;
-                remaining--;
-            } else {
-                read++;
+            if (!closed) {
+                bool fence = run >= 3 && (read == text || read[-1] == '\n');
+                code_end = fence ? end : read + run;
             }
+            cite_add(&output, read, code_end - read);
+            read = code_end;
             continue;
         }
 
@@ -490,38 +522,92 @@ char *apex_process_citations(const char *text, apex_citation_registry *registry,
         }
 
         if (citation && consumed > 0) {
-            /* Add citation to registry */
-            citation->position = pos;
-            citation->next = registry->citations;
-            registry->citations = citation;
-            registry->count++;
-
-            /* Insert placeholder */
-            char placeholder[256];
-            snprintf(placeholder, sizeof(placeholder), "%s%s%s",
-                    CITATION_PLACEHOLDER_PREFIX, citation->key, CITATION_PLACEHOLDER_SUFFIX);
-            size_t placeholder_len = strlen(placeholder);
+            /* Add the citations to the registry */
+            size_t first = registry->count;
+            bool separate = citation->syntax_type == APEX_CITATION_MMARK;
+            while (citation) {
+                apex_citation *next = citation->next;
+                citation->position = pos;
+                citation->next = registry->citations;
+                registry->citations = citation;
+                registry->count++;
+                citation = next;
+            }
 
-            if (placeholder_len < remaining) {
-                memcpy(write, placeholder, placeholder_len);
-                write += placeholder_len;
-                remaining -= placeholder_len;
+            /* Insert a placeholder with the numbers of the citations: one for all of
+             * them, or one for each mmark citation */
+            size_t count = registry->count - first;
+            for (size_t i = 0; i < (separate ? count : 1); i++) {
+                char placeholder[64];
+                snprintf(placeholder, sizeof(placeholder), "%s%s%zu+%zu%s", i ? ";" : "",
+                        CITATION_PLACEHOLDER_PREFIX, first + i, separate ? (size_t)1 : count, CITATION_PLACEHOLDER_SUFFIX);
+                cite_puts(&output, placeholder);
             }
 
             read += consumed;
         } else {
             /* Copy character */
-            if (remaining > 0) {
-                *write++ = *read++;
-                remaining--;
-            } else {
-                read++;
-            }
+            cite_add(&output, read++, 1);
         }
     }
 
-    *write = '\0';
-    return output;
+    if (output.failed) {
+        free(output.text);
+        return NULL;
+    }
+    return output.text;
+}
+
+/**
+ * Add the text of a citation without its parentheses. after is the citation before
+ * it in the same parentheses: the same author is not repeated.
+ */
+static void add_citation_text(cite_buffer *buf, apex_citation *cite, apex_citation *after, apex_citation_registry *registry) {
+    apex_bibliography_entry *entry = registry->bibliography ? apex_find_bibliography_entry(registry->bibliography, cite->key) : NULL;
+
+    if (after) {
+        apex_bibliography_entry *last = registry->bibliography ? apex_find_bibliography_entry(registry->bibliography, after->key) : NULL;
+        if (entry && last && entry->author && entry->year && last->author && last->year &&
+            !cite->author_suppressed && !after->author_suppressed && strcmp(entry->author, last->author) == 0) {
+            cite_puts(buf, ", ");
+            cite_escape(buf, entry->year);
+            return;
+        }
+        cite_puts(buf, "; ");
+    }
+    if (!entry || (!entry->year && !(cite->author_in_text && entry->author))) {
+        cite_escape(buf, cite->key);
+        return;
+    }
+    if (cite->author_in_text) {
+        if (!entry->author) {
+            cite_escape(buf, cite->key);
+            return;
+        }
+        cite_escape(buf, entry->author);
+        if (entry->year) {
+            cite_puts(buf, " (");
+            cite_escape(buf, entry->year);
+            cite_puts(buf, ")");
+        }
+        return;
+    }
+    if (entry->author && !cite->author_suppressed) {
+        cite_escape(buf, entry->author);
+        cite_puts(buf, " ");
+    }
+    cite_escape(buf, entry->year);
+}
+
+/** The citations of a registry in document order (NULL if there are none) */
+static apex_citation **citations_in_order(apex_citation_registry *registry) {
+    apex_citation **list = registry->count ? malloc(registry->count * sizeof(*list)) : NULL;
+    if (!list) return NULL;
+    size_t i = registry->count;
+    for (apex_citation *cite = registry->citations; cite && i > 0; cite = cite->next) {
+        list[--i] = cite;
+    }
+    return list;
 }
 
 /**
@@ -535,129 +621,70 @@ char *apex_render_citations(const char *html, apex_citation_registry *registry,
         return NULL;
     }
 
-    /* For now, just replace placeholders with simple formatted citations */
-    size_t len = strlen(html);
-    size_t capacity = len * 3 + 1;  /* Room for HTML tags + null terminator */
-    char *output = malloc(capacity);
-    if (!output) return NULL;
+    apex_citation **citations = citations_in_order(registry);
+    if (!citations) return NULL;
+
+    cite_buffer output = {0};
+    cite_puts(&output, "");
 
     const char *read = html;
-    char *write = output;
-    size_t remaining = capacity;
     size_t prefix_len = strlen(CITATION_PLACEHOLDER_PREFIX);
     size_t suffix_len = strlen(CITATION_PLACEHOLDER_SUFFIX);
 
     while (*read) {
-        if (strncmp(read, CITATION_PLACEHOLDER_PREFIX, prefix_len) == 0) {
-            /* Found placeholder */
-            const char *key_start = read + prefix_len;
-            const char *key_end = strstr(key_start, CITATION_PLACEHOLDER_SUFFIX);
-
-            if (key_end) {
-                size_t key_len = key_end - key_start;
-                char *key = malloc(key_len + 1);
-                if (key) {
-                    memcpy(key, key_start, key_len);
-                    key[key_len] = '\0';
-
-                    /* Find citation in registry */
-                    apex_citation *cite = registry->citations;
-                    while (cite) {
-                        if (cite->key && strcmp(cite->key, key) == 0) {
-                            /* Try to find bibliography entry for better formatting */
-                            apex_bibliography_entry *bib_entry = NULL;
-                            if (registry->bibliography) {
-                                bib_entry = apex_find_bibliography_entry(registry->bibliography, key);
-                            }
-
-                            /* Format citation HTML */
-                            char citation_html[512];
-                            char citation_text[256] = "";
-
-                            if (bib_entry) {
-                                /* Use bibliography data for formatting */
-                                if (cite->author_in_text) {
-                                    if (bib_entry->author && bib_entry->year) {
-                                        snprintf(citation_text, sizeof(citation_text), "%s (%s)",
-                                                bib_entry->author, bib_entry->year);
-                                    } else if (bib_entry->author) {
-                                        strncpy(citation_text, bib_entry->author, sizeof(citation_text) - 1);
-                                    } else {
-                                        strncpy(citation_text, cite->key, sizeof(citation_text) - 1);
-                                    }
-                                } else if (cite->author_suppressed) {
-                                    if (bib_entry->year) {
-                                        snprintf(citation_text, sizeof(citation_text), "(%s)", bib_entry->year);
-                                    } else {
-                                        snprintf(citation_text, sizeof(citation_text), "(%s)", cite->key);
-                                    }
-                                } else {
-                                    if (bib_entry->author && bib_entry->year) {
-                                        snprintf(citation_text, sizeof(citation_text), "(%s %s)",
-                                                bib_entry->author, bib_entry->year);
-                                    } else if (bib_entry->year) {
-                                        snprintf(citation_text, sizeof(citation_text), "(%s)", bib_entry->year);
-                                    } else {
-                                        snprintf(citation_text, sizeof(citation_text), "(%s)", cite->key);
-                                    }
-                                }
-                            } else {
-                                /* No bibliography entry, use simple format */
-                                if (cite->author_in_text) {
-                                    strncpy(citation_text, cite->key, sizeof(citation_text) - 1);
-                                } else {
-                                    snprintf(citation_text, sizeof(citation_text), "(%s)", cite->key);
-                                }
-                            }
-
-                            /* Generate HTML with or without link */
-                            if (options->link_citations) {
-                                snprintf(citation_html, sizeof(citation_html),
-                                        "<a href=\"#ref-%s\" class=\"citation\" data-cites=\"%s\">%s</a>",
-                                        cite->key, cite->key, citation_text);
-                            } else {
-                                snprintf(citation_html, sizeof(citation_html),
-                                        "<span class=\"citation\" data-cites=\"%s\">%s</span>",
-                                        cite->key, citation_text);
-                            }
-
-                            size_t html_len = strlen(citation_html);
-                            if (html_len < remaining) {
-                                memcpy(write, citation_html, html_len);
-                                write += html_len;
-                                remaining -= html_len;
-                            }
-                            break;
-                        }
-                        cite = cite->next;
-                    }
-
-                    free(key);
-                }
-
-                read = key_end + suffix_len;
-                continue;
+        const char *mark = strstr(read, CITATION_PLACEHOLDER_PREFIX);
+        if (!mark) {
+            cite_puts(&output, read);
+            break;
+        }
+        cite_add(&output, read, mark - read);
+
+        /* Numbers of the citations */
+        char *number_end = NULL;
+        unsigned long first = 0, count = 0;
+        const char *p = mark + prefix_len;
+        if (isdigit((unsigned char)*p)) {
+            first = strtoul(p, &number_end, 10);
+            if (*number_end == '+' && isdigit((unsigned char)number_end[1])) {
+                count = strtoul(number_end + 1, &number_end, 10);
             }
         }
+        if (count == 0 || first >= registry->count || count > registry->count - first ||
+            strncmp(number_end, CITATION_PLACEHOLDER_SUFFIX, suffix_len) != 0) {
+            cite_add(&output, mark, prefix_len);  /* A comment of the document */
+            read = mark + prefix_len;
+            continue;
+        }
 
-        /* Copy character */
-        if (remaining > 1) {  /* Reserve 1 byte for null terminator */
-            *write++ = *read++;
-            remaining--;
+        apex_citation *cite = citations[first];
+        if (options->link_citations) {
+            cite_puts(&output, "<a href=\"#ref-");
+            cite_attribute(&output, cite->key);
+            cite_puts(&output, "\" class=\"citation\" data-cites=\"");
         } else {
-            read++;
+            cite_puts(&output, "<span class=\"citation\" data-cites=\"");
         }
+        for (size_t i = 0; i < count; i++) {
+            if (i) cite_puts(&output, " ");
+            cite_attribute(&output, citations[first + i]->key);
+        }
+        cite_puts(&output, "\">");
+        if (!cite->author_in_text) cite_puts(&output, "(");
+        for (size_t i = 0; i < count; i++) {
+            add_citation_text(&output, citations[first + i], i ? citations[first + i - 1] : NULL, registry);
+        }
+        if (!cite->author_in_text) cite_puts(&output, ")");
+        cite_puts(&output, options->link_citations ? "</a>" : "</span>");
+
+        read = number_end + suffix_len;
     }
 
-    /* Null terminate - ensure we have space */
-    if (remaining > 0) {
-        *write = '\0';
-    } else {
-        /* Should never happen, but be safe */
-        free(output);
-        return strdup(html);
+    free(citations);
+    if (output.failed) {
+        free(output.text);
+        return NULL;
     }
-    return output;
+    return output.text;
 }
 
 /**
@@ -666,146 +693,41 @@ char *apex_render_citations(const char *html, apex_citation_registry *registry,
 static char *format_bibliography_entry(apex_bibliography_entry *entry) {
     if (!entry) return NULL;
 
-    size_t capacity = 2048;  /* Larger capacity for full entries */
-    char *html = malloc(capacity);
-    if (!html) return NULL;
-
-    char *write = html;
-    size_t remaining = capacity;
-    int written;
+    cite_buffer html = {0};
 
     /* Start entry div */
-    written = snprintf(write, remaining, "<div id=\"ref-%s\" class=\"csl-entry\">", entry->id ? entry->id : "");
-    if (written < 0 || (size_t)written >= remaining) {
-        free(html);
-        return NULL;
-    }
-    write += written;
-    remaining -= written;
+    cite_puts(&html, "<div id=\"ref-");
+    cite_attribute(&html, entry->id ? entry->id : "");
+    cite_puts(&html, "\" class=\"csl-entry\">");
 
     /* Format entry content - author-date style */
+    const struct { const char *value, *before, *open, *close; } fields[] = {
+        {entry->author, "", "", ""},
+        {entry->year, " ", "", ""},
+        {entry->title, ". ", "<em>", "</em>"},
+        {entry->container_title, ". ", "<em>", "</em>"},
+        {entry->volume, " ", "", ""},
+        {entry->page, ": ", "", ""},
+        {entry->publisher, ". ", "", ""},
+    };
     bool has_content = false;
-
-    /* Author */
-    if (entry->author && entry->author[0] != '\0') {
-        written = snprintf(write, remaining, "%s", entry->author);
-        if (written > 0 && (size_t)written < remaining) {
-            write += written;
-            remaining -= written;
-            has_content = true;
-        }
-    }
-
-    /* Year */
-    if (entry->year && entry->year[0] != '\0') {
-        if (has_content) {
-            written = snprintf(write, remaining, " %s", entry->year);
-        } else {
-            written = snprintf(write, remaining, "%s", entry->year);
-        }
-        if (written > 0 && (size_t)written < remaining) {
-            write += written;
-            remaining -= written;
-            has_content = true;
-        }
-    }
-
-    /* Title */
-    if (entry->title && entry->title[0] != '\0') {
-        if (has_content) {
-            written = snprintf(write, remaining, ". ");
-        } else {
-            written = snprintf(write, remaining, "");
-        }
-        if (written > 0 && (size_t)written < remaining) {
-            write += written;
-            remaining -= written;
-        }
-        written = snprintf(write, remaining, "<em>%s</em>", entry->title);
-        if (written > 0 && (size_t)written < remaining) {
-            write += written;
-            remaining -= written;
-            has_content = true;
-        }
-    }
-
-    /* Container title (journal) */
-    if (entry->container_title && entry->container_title[0] != '\0') {
-        if (has_content) {
-            written = snprintf(write, remaining, ". ");
-        } else {
-            written = snprintf(write, remaining, "");
-        }
-        if (written > 0 && (size_t)written < remaining) {
-            write += written;
-            remaining -= written;
-        }
-        written = snprintf(write, remaining, "<em>%s</em>", entry->container_title);
-        if (written > 0 && (size_t)written < remaining) {
-            write += written;
-            remaining -= written;
-            has_content = true;
-        }
-    }
-
-    /* Volume and pages */
-    if (entry->volume && entry->volume[0] != '\0') {
-        if (has_content) {
-            written = snprintf(write, remaining, " ");
-        } else {
-            written = snprintf(write, remaining, "");
-        }
-        if (written > 0 && (size_t)written < remaining) {
-            write += written;
-            remaining -= written;
-        }
-        written = snprintf(write, remaining, "%s", entry->volume);
-        if (written > 0 && (size_t)written < remaining) {
-            write += written;
-            remaining -= written;
-            has_content = true;
-        }
-    }
-
-    if (entry->page && entry->page[0] != '\0') {
-        if (has_content) {
-            written = snprintf(write, remaining, ": %s", entry->page);
-        } else {
-            written = snprintf(write, remaining, "%s", entry->page);
-        }
-        if (written > 0 && (size_t)written < remaining) {
-            write += written;
-            remaining -= written;
-            has_content = true;
-        }
-    }
-
-    /* Publisher */
-    if (entry->publisher && entry->publisher[0] != '\0') {
-        if (has_content) {
-            written = snprintf(write, remaining, ". ");
-        } else {
-            written = snprintf(write, remaining, "");
-        }
-        if (written > 0 && (size_t)written < remaining) {
-            write += written;
-            remaining -= written;
-        }
-        written = snprintf(write, remaining, "%s", entry->publisher);
-        if (written > 0 && (size_t)written < remaining) {
-            write += written;
-            remaining -= written;
-            has_content = true;
-        }
+    for (size_t i = 0; i < sizeof(fields) / sizeof(fields[0]); i++) {
+        if (!fields[i].value || !*fields[i].value) continue;
+        if (has_content) cite_puts(&html, fields[i].before);
+        cite_puts(&html, fields[i].open);
+        cite_escape(&html, fields[i].value);
+        cite_puts(&html, fields[i].close);
+        has_content = true;
     }
 
     /* Close entry div */
-    written = snprintf(write, remaining, "</div>\n");
-    if (written > 0 && (size_t)written < remaining) {
-        write += written;
-    }
+    cite_puts(&html, "</div>\n");
 
-    return html;
+    if (html.failed) {
+        free(html.text);
+        return NULL;
+    }
+    return html.text;
 }
 
 /**
@@ -834,9 +756,10 @@ char *apex_generate_bibliography(apex_citation_registry *registry, const apex_op
         return NULL;
     }
 
-    /* Build list of cited entries */
-    apex_citation *cite = registry->citations;
-    while (cite) {
+    /* Build list of cited entries, in the order in which they are cited */
+    apex_citation **citations = citations_in_order(registry);
+    for (size_t n = 0; citations && n < registry->count; n++) {
+        apex_citation *cite = citations[n];
         if (cite->key) {
             apex_bibliography_entry *entry = apex_find_bibliography_entry(registry->bibliography, cite->key);
             if (entry) {
@@ -855,6 +778,7 @@ char *apex_generate_bibliography(apex_citation_registry *registry, const apex_op
                         apex_bibliography_entry **new_entries = realloc(cited_entries, cited_capacity * sizeof(apex_bibliography_entry*));
                         if (!new_entries) {
                             free(cited_entries);
+                            free(citations);
                             return NULL;
                         }
                         cited_entries = new_entries;
@@ -863,8 +787,8 @@ char *apex_generate_bibliography(apex_citation_registry *registry, const apex_op
                 }
             }
         }
-        cite = cite->next;
     }
+    free(citations);
 
     if (cited_count == 0) {
         if (cited_entries) free(cited_entries);
@@ -920,8 +844,18 @@ char *apex_generate_bibliography(apex_citation_registry *registry, const apex_op
     }
 
     /* Close bibliography div */
-    snprintf(write, remaining, "</div>\n");
-    write += strlen(write);
+    if (remaining < 16) {
+        size_t used = write - html;
+        char *new_html = realloc(html, used + 16);
+        if (!new_html) {
+            free(html);
+            free(cited_entries);
+            return NULL;
+        }
+        html = new_html;
+        write = html + used;
+    }
+    strcpy(write, "</div>\n");
 
     free(cited_entries);
     return html;
-- 
2.43.0


From c265f9d2e0a2d066ed93c09b08aa354774fcb504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:55 +0000
Subject: [PATCH 121/180] fix: quoted values in BibTeX files are cut at commas

---
 src/extensions/citations.c | 38 ++++++++++++++++++++++++++++++++------
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/src/extensions/citations.c b/src/extensions/citations.c
index 5ca212a..5e1a711 100644
--- a/src/extensions/citations.c
+++ b/src/extensions/citations.c
@@ -1231,12 +1231,12 @@ static const char *parse_bibtex_entry_type(const char *text, const char **entry_
 
     /* Extract entry type (between @ and {) */
     const char *type_start = p;
-    while (*p && *p != '{' && !isspace(*p)) p++;
-
-    if (*p != '{') return NULL;
+    while (*p && *p != '{' && !isspace((unsigned char)*p)) p++;
 
     /* Extract entry type */
-    const char *type_end = p;  /* At { */
+    const char *type_end = p;
+    while (isspace((unsigned char)*p)) p++;
+    if (*p != '{') return NULL;
 
     size_t type_len = type_end - type_start;
     if (type_len == 0) return NULL;
@@ -1321,8 +1321,36 @@ static bool parse_bibtex_field(const char *text, char **key_out, char **value_ou
         } else {
             /* Unmatched braces, return failure */
             if (end_pos) *end_pos = NULL;
+            free(*key_out);
+            *key_out = NULL;
             return false;
         }
+    } else if (*p == '"') {
+        /* Quoted value (until the next quotation mark outside braces) */
+        p++;
+        const char *value_start = p;
+        int brace_depth = 0;
+
+        while (*p && (*p != '"' || brace_depth > 0)) {
+            if (*p == '{') brace_depth++;
+            else if (*p == '}') brace_depth--;
+            p++;
+        }
+        if (!*p) {
+            if (end_pos) *end_pos = NULL;
+            free(*key_out);
+            *key_out = NULL;
+            return false;
+        }
+
+        char *quoted = copy_range(value_start, p);
+        if (quoted) {
+            *value_out = remove_braces(quoted);
+            free(quoted);
+        }
+        if (end_pos) {
+            *end_pos = p + 1;  /* Position after closing quotation mark */
+        }
     } else {
         /* Unbraced value (until comma or closing brace) */
         const char *value_start = p;
@@ -1343,8 +1371,6 @@ static bool parse_bibtex_field(const char *text, char **key_out, char **value_ou
     }
 
     return (*value_out != NULL);
-
-    return (*value_out != NULL);
 }
 
 /**
-- 
2.43.0


From 2cb4747d8c488129fdf710e379bc360a8c0b4229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:55 +0000
Subject: [PATCH 122/180] fix: CSL YAML bibliographies in the documented form
 are not read

---
 src/extensions/citations.c | 269 ++++++++++++++-----------------------
 1 file changed, 100 insertions(+), 169 deletions(-)

diff --git a/src/extensions/citations.c b/src/extensions/citations.c
index 5e1a711..0ba5189 100644
--- a/src/extensions/citations.c
+++ b/src/extensions/citations.c
@@ -1592,7 +1592,8 @@ static char *extract_yaml_value(const char *value_str) {
         }
     } else {
         /* Find end of value (newline or comment) */
-        while (*value_end && *value_end != '\n' && *value_end != '\r' && *value_end != '#') {
+        while (*value_end && *value_end != '\n' && *value_end != '\r' &&
+               !(*value_end == '#' && value_end > value_start && isspace((unsigned char)value_end[-1]))) {
             value_end++;
         }
         /* Trim trailing whitespace */
@@ -1610,171 +1611,94 @@ static char *extract_yaml_value(const char *value_str) {
     return trim_string(value);
 }
 
+/** End of the lines of a block that are indented more than base_indent */
+static const char *yaml_block_end(const char *p, int base_indent) {
+    while (*p) {
+        const char *line_end = strchr(p, '\n');
+        if (!line_end) line_end = p + strlen(p);
+        const char *first = p + strspn(p, " \t\r");
+        if (first < line_end && get_indent_level(p) <= base_indent) break;
+        p = *line_end ? line_end + 1 : line_end;
+    }
+    return p;
+}
+
 /**
- * Parse author from YAML structure
- * Handles: author: {family: Doe, given: John} or author: [{family: Doe, given: John}]
+ * Parse authors from a YAML structure
+ * Handles: {family: Doe, given: John} and [{family: Doe, given: John}, ...]
  * Also handles multi-line format:
  *   author:
  *     - family: Doe
  *       given: John
+ * Several authors are joined as in BibTeX, by " and ".
  */
-static char *parse_yaml_author(const char *content, int base_indent) {
-    if (!content) return NULL;
-
-    const char *p = content;
+static char *parse_yaml_author(const char *content, const char *end) {
+    cite_buffer result = {0};
     char *family = NULL;
     char *given = NULL;
 
-    /* Skip whitespace and opening brace/bracket */
-    while (*p && (isspace(*p) || *p == '{' || *p == '[')) p++;
-
-    /* Look for family: and given: fields */
-    while (*p) {
-        /* Check for list item marker */
-        if (*p == '-' && isspace(p[1])) {
-            p++;
-            while (*p && isspace(*p)) p++;
-        }
-
-        if (strncmp(p, "family:", 7) == 0) {
-            p += 7;
-            while (*p && isspace(*p)) p++;
-            family = extract_yaml_value(p);
-            if (family) {
-                /* Find end of this line */
-                while (*p && *p != '\n') p++;
-                if (*p == '\n') p++;
+    for (const char *p = content; p <= end; ) {
+        bool at_end = p >= end;
+        bool is_family = !at_end && strncmp(p, "family:", 7) == 0;
+        bool is_given = !at_end && strncmp(p, "given:", 6) == 0;
+
+        /* A name is complete at the next one of its kind and at the end */
+        if (at_end || (is_family && family) || (is_given && given)) {
+            if (family || given) {
+                if (result.len) cite_puts(&result, " and ");
+                if (family) cite_puts(&result, family);
+                if (family && given) cite_puts(&result, ", ");
+                if (given) cite_puts(&result, given);
             }
-        } else if (strncmp(p, "given:", 6) == 0) {
-            p += 6;
-            while (*p && isspace(*p)) p++;
-            given = extract_yaml_value(p);
-            if (given) {
-                while (*p && *p != '\n') p++;
-                if (*p == '\n') p++;
-            }
-        } else if (*p == '\n') {
-            /* Check next line for continuation */
-            p++;
-            int next_indent = get_indent_level(p);
-            if (next_indent <= base_indent) {
-                break;  /* End of author block */
-            }
-            /* Continue parsing on next line */
-        } else if (*p == '}' || *p == ']') {
-            break;  /* End of structure */
-        } else {
-            p++;
+            free(family);
+            free(given);
+            family = given = NULL;
+            if (at_end) break;
         }
-    }
-
-    /* Format author name */
-    if (family || given) {
-        size_t len = (family ? strlen(family) : 0) + (given ? strlen(given) : 0) + 3;
-        char *author = malloc(len);
-        if (author) {
-            if (family && given) {
-                snprintf(author, len, "%s, %s", family, given);
-            } else if (family) {
-                strcpy(author, family);
+        if (is_family || is_given) {
+            p += is_family ? 7 : 6;
+            const char *value_end = p;
+            while (value_end < end && (*value_end == ' ' || *value_end == '\t')) value_end++;
+            if (value_end < end && (*value_end == '"' || *value_end == '\'')) {
+                char quote = *value_end++;
+                while (value_end < end && *value_end != quote) value_end++;
+                if (value_end < end) value_end++;
             } else {
-                strcpy(author, given);
+                while (value_end < end && !strchr(",}]\n", *value_end)) value_end++;
             }
+            char *raw = copy_range(p, value_end);
+            char *value = extract_yaml_value(raw);
+            free(raw);
+            if (is_family) family = value;
+            else given = value;
+            p = value_end;
+        } else {
+            /* Go on to the next word */
+            while (p < end && isalpha((unsigned char)*p)) p++;
+            while (p < end && !isalpha((unsigned char)*p)) p++;
         }
-        free(family);
-        free(given);
-        return author;
     }
 
-    free(family);
-    free(given);
-    return NULL;
+    if (result.failed) {
+        free(result.text);
+        return NULL;
+    }
+    return result.text;
 }
 
 /**
- * Parse date from YAML structure
- * Handles: issued: {date-parts: [[1999]]} or year: 1999
- * Also handles multi-line format:
+ * Parse a year from YAML structure: the first number
+ * Handles: {date-parts: [[1999]]}, 1999 and the multi-line format
  *   issued:
  *     date-parts:
  *       - - 1999
  */
-static char *parse_yaml_date(const char *content, int base_indent) {
-    if (!content) return NULL;
-
+static char *parse_yaml_date(const char *content, const char *end) {
     const char *p = content;
-    bool in_date_parts = false;
-    int list_depth = 0;
-
-    /* Look for date-parts: */
-    while (*p) {
-        if (strncmp(p, "date-parts:", 11) == 0) {
-            in_date_parts = true;
-            p += 11;
-            while (*p && isspace(*p) && *p != '\n') p++;
-            if (*p == '\n') {
-                p++;
-                /* Multi-line format, continue on next line */
-            }
-        } else if (in_date_parts) {
-            if (*p == '[') {
-                list_depth++;
-                p++;
-            } else if (*p == ']') {
-                list_depth--;
-                p++;
-                if (list_depth == 0) break;
-            } else if (*p == '-' && isspace(p[1]) && list_depth >= 1) {
-                /* List item in date-parts */
-                p++;
-                while (*p && isspace(*p)) p++;
-                if (*p == '-') {
-                    /* Nested list item (year) */
-                    p++;
-                    while (*p && isspace(*p)) p++;
-                    const char *year_start = p;
-                    while (*p && isdigit(*p)) p++;
-                    size_t year_len = p - year_start;
-                    if (year_len > 0) {
-                        char *year = malloc(year_len + 1);
-                        if (year) {
-                            memcpy(year, year_start, year_len);
-                            year[year_len] = '\0';
-                            return year;
-                        }
-                    }
-                }
-            } else if (*p == '\n') {
-                p++;
-                int next_indent = get_indent_level(p);
-                if (next_indent <= base_indent && list_depth == 0) {
-                    break;  /* End of date block */
-                }
-            } else {
-                p++;
-            }
-        } else if (strncmp(p, "year:", 5) == 0) {
-            /* Simple year field */
-            p += 5;
-            while (*p && isspace(*p)) p++;
-            const char *year_start = p;
-            while (*p && isdigit(*p)) p++;
-            size_t year_len = p - year_start;
-            if (year_len > 0) {
-                char *year = malloc(year_len + 1);
-                if (year) {
-                    memcpy(year, year_start, year_len);
-                    year[year_len] = '\0';
-                    return year;
-                }
-            }
-            break;
-        } else {
-            p++;
-        }
-    }
-
-    return NULL;
+    while (p < end && !isdigit((unsigned char)*p)) p++;
+    const char *year_start = p;
+    while (p < end && isdigit((unsigned char)*p)) p++;
+    return p > year_start ? copy_range(year_start, p) : NULL;
 }
 
 /**
@@ -1791,6 +1715,7 @@ apex_bibliography_registry *apex_parse_csl_yaml(const char *content) {
     const char *p = content;
     apex_bibliography_entry *current_entry = NULL;
     bool in_entry = false;
+    int entry_indent = -1;
 
     /* Parse line by line */
     while (*p) {
@@ -1799,22 +1724,20 @@ apex_bibliography_registry *apex_parse_csl_yaml(const char *content) {
         if (!line_end) line_end = p + strlen(p);
         const char *next_start = *line_end ? line_end + 1 : line_end;
 
-        size_t line_len = line_end - line_start;
-        char line[1024];
-        if (line_len >= sizeof(line)) line_len = sizeof(line) - 1;
-        memcpy(line, line_start, line_len);
-        line[line_len] = '\0';
+        int indent = get_indent_level(line_start);
+        char *line = copy_range(line_start, line_end);
+        if (!line) break;
 
         char *trimmed = trim_string(line);
         if (!trimmed || *trimmed == '\0' || *trimmed == '#') {
+            free(line);
             p = next_start;
             continue;
         }
 
-        int indent = get_indent_level(line);
-
         /* Check for list item start (new entry) */
-        if (trimmed[0] == '-' && indent == 0) {
+        if (trimmed[0] == '-' && (trimmed[1] == '\0' || isspace((unsigned char)trimmed[1])) &&
+            (entry_indent < 0 || indent <= entry_indent)) {
             /* Start new entry */
             if (current_entry && current_entry->id) {
                 /* Add previous entry to registry */
@@ -1824,11 +1747,24 @@ apex_bibliography_registry *apex_parse_csl_yaml(const char *content) {
             }
             current_entry = NULL;
             in_entry = true;
-            p = next_start;
-            continue;
+            entry_indent = indent;
+
+            /* The first field may stand on the same line */
+            indent++;
+            trimmed[0] = ' ';
+            while (*trimmed == ' ' || *trimmed == '\t') {
+                trimmed++;
+                indent++;
+            }
+            if (*trimmed == '\0') {
+                free(line);
+                p = next_start;
+                continue;
+            }
         }
 
         if (!in_entry) {
+            free(line);
             p = next_start;
             continue;
         }
@@ -1839,6 +1775,9 @@ apex_bibliography_registry *apex_parse_csl_yaml(const char *content) {
             *colon = '\0';
             char *key = trim_string(trimmed);
             char *value_str = trim_string(colon + 1);
+            /* A value without text on this line extends over the lines indented more */
+            const char *block = *value_str ? value_str : next_start;
+            const char *block_end = *value_str ? value_str + strlen(value_str) : yaml_block_end(next_start, indent);
 
             if (!current_entry && strcmp(key, "id") == 0) {
                 /* Create new entry with ID */
@@ -1861,29 +1800,16 @@ apex_bibliography_registry *apex_parse_csl_yaml(const char *content) {
                     }
                 } else if (strcmp(key, "author") == 0) {
                     /* Parse author structure - may be multi-line */
-                    const char *author_start = value_str;
-                    if (*author_start == '\0' && *next_start) {
-                        /* Multi-line author, look at next line */
-                        const char *next_line = next_start;
-                        if (*next_line == '-' || (*next_line == ' ' && next_line[1] == ' ')) {
-                            author_start = next_line;
-                        }
-                    }
-                    char *author = parse_yaml_author(author_start, indent);
+                    char *author = parse_yaml_author(block, block_end);
                     if (author) {
+                        free(current_entry->author);
                         current_entry->author = author;
                     }
                 } else if (strcmp(key, "issued") == 0 || strcmp(key, "year") == 0) {
                     /* Parse date - may be multi-line */
-                    const char *date_start = value_str;
-                    if (*date_start == '\0' && *next_start) {
-                        const char *next_line = next_start;
-                        if (*next_line == ' ' || *next_line == '-') {
-                            date_start = next_line;
-                        }
-                    }
-                    char *year = parse_yaml_date(date_start, indent);
+                    char *year = parse_yaml_date(block, block_end);
                     if (year) {
+                        free(current_entry->year);
                         current_entry->year = year;
                     }
                 } else if (strcmp(key, "container-title") == 0) {
@@ -1908,8 +1834,13 @@ apex_bibliography_registry *apex_parse_csl_yaml(const char *content) {
                     }
                 }
             }
+            /* The lines of an author or date are read */
+            if (!*value_str && (strcmp(key, "author") == 0 || strcmp(key, "issued") == 0)) {
+                next_start = block_end;
+            }
         }
 
+        free(line);
         p = next_start;
     }
 
-- 
2.43.0


From b716a0d8dd49f73ac8d0d2d8188b479788283817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:55 +0000
Subject: [PATCH 123/180] fix: a paragraph that starts with a citation or index
 entry is not Markdown, and both are lost in safe mode

---
 src/apex.c | 93 ++++++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 93 insertions(+)

diff --git a/src/apex.c b/src/apex.c
index faaa2bf..20c3542 100644
--- a/src/apex.c
+++ b/src/apex.c
@@ -1068,6 +1068,81 @@ static void text_buffer_add(apex_text_buffer *buf, const char *text, size_t len)
     buf->data[buf->len] = '\0';
 }
 
+/* ------------------------------------------------------------------------- */
+/* Marks of citations and index entries                                      */
+/*                                                                           */
+/* Citations and index entries leave comments in the text. The Markdown      */
+/* parser would take a comment at the start of a paragraph for a block of    */
+/* HTML, and drops it in safe mode, so that they are text between two        */
+/* brackets (U+2E28 U+FDD2 and U+2E29) while the document is parsed.         */
+/* ------------------------------------------------------------------------- */
+
+#define APEX_MARK_OPEN "\xE2\xB8\xA8\xEF\xB7\x92"
+#define APEX_MARK_CLOSE "\xE2\xB8\xA9"
+
+/* Length of the name of a mark (CITE:0+1 or IDX:idxref-0) at text, or 0 */
+static size_t apex_mark_length(const char *text) {
+    const char *p = text;
+    if (strncmp(p, "CITE:", 5) == 0) {
+        p += 5;
+        if (!isdigit((unsigned char)*p)) return 0;
+        while (isdigit((unsigned char)*p)) p++;
+        if (*p != '+') return 0;
+        p++;
+    } else if (strncmp(p, "IDX:idxref-", 11) == 0) {
+        p += 11;
+    } else {
+        return 0;
+    }
+    if (!isdigit((unsigned char)*p)) return 0;
+    while (isdigit((unsigned char)*p)) p++;
+    return (size_t)(p - text);
+}
+
+/* Replace the comments of marks by text (hide), or the text by comments. In tags
+ * (the description of an image) there are no comments: there the text is removed. */
+static char *apex_swap_marks(const char *text, bool hide) {
+    const char *open = hide ? "<!--" : APEX_MARK_OPEN;
+    const char *close = hide ? "-->" : APEX_MARK_CLOSE;
+    size_t open_len = strlen(open), close_len = strlen(close);
+    apex_text_buffer buf = {0};
+    bool in_tag = false;
+    char quote = '\0';
+
+    text_buffer_add(&buf, "", 0);
+    for (const char *p = text; *p; ) {
+        size_t mark_len = strncmp(p, open, open_len) == 0 ? apex_mark_length(p + open_len) : 0;
+        if (mark_len && strncmp(p + open_len + mark_len, close, close_len) == 0) {
+            if (!in_tag) {
+                const char *new_open = hide ? APEX_MARK_OPEN : "<!--";
+                const char *new_close = hide ? APEX_MARK_CLOSE : "-->";
+                text_buffer_add(&buf, new_open, strlen(new_open));
+                text_buffer_add(&buf, p + open_len, mark_len);
+                text_buffer_add(&buf, new_close, strlen(new_close));
+            }
+            p += open_len + mark_len + close_len;
+            continue;
+        }
+        if (!hide) {
+            if (!in_tag) {
+                in_tag = *p == '<' && (isalpha((unsigned char)p[1]) || p[1] == '/');
+            } else if (quote) {
+                if (*p == quote) quote = '\0';
+            } else if (*p == '"' || *p == '\'') {
+                quote = *p;
+            } else if (*p == '>') {
+                in_tag = false;
+            }
+        }
+        text_buffer_add(&buf, p++, 1);
+    }
+    if (buf.failed) {
+        free(buf.data);
+        return NULL;
+    }
+    return buf.data;
+}
+
 /* Add a piece of code (within one line, without its indentation) as a token */
 static void add_code_token(apex_text_buffer *buf, apex_code_store *store, const char *code, size_t len) {
     bool plain = true;
@@ -4625,6 +4700,15 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
         }
     }
 
+    /* Hide the comments of citations and index entries from the Markdown parser */
+    char *marks_hidden = NULL;
+    if (options->output_format == APEX_OUTPUT_HTML && (citation_registry.count > 0 || index_registry.count > 0)) {
+        marks_hidden = apex_swap_marks(text_ptr, true);
+        if (marks_hidden) {
+            text_ptr = marks_hidden;
+        }
+    }
+
     /* Preprocess image attributes and URL-encode all link URLs */
     image_attr_entry *img_attrs = NULL;
     char *image_attrs_processed = NULL;
@@ -5556,6 +5640,14 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
     }
     PROFILE_END(rendering);
 
+    if (html && marks_hidden) {
+        char *marked_html = apex_swap_marks(html, false);
+        if (marked_html) {
+            free(html);
+            html = marked_html;
+        }
+    }
+
     if (getenv("APEX_DEBUG_PIPELINE")) {
         size_t html_len = html ? strlen(html) : 0;
         fprintf(stderr, "[APEX_DEBUG] rendered html len=%zu\n", html_len);
@@ -6053,6 +6145,7 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
     if (fenced_divs_processed) free(fenced_divs_processed);
     if (metadata_replaced) free(metadata_replaced);
     if (autolinks_processed) free(autolinks_processed);
+    free(marks_hidden);
     if (html_markdown_processed) free(html_markdown_processed);
     if (hashtags_processed) free(hashtags_processed);
     if (critic_processed) free(critic_processed);
-- 
2.43.0


From 19371e9d24ee6556300f062f744358fdd4b5f5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:55 +0000
Subject: [PATCH 124/180] fix: lists and absolute names of bibliographies in
 metadata are not found

---
 src/apex.c | 40 +++++++++++++++++++++-------------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/src/apex.c b/src/apex.c
index 20c3542..a90d016 100644
--- a/src/apex.c
+++ b/src/apex.c
@@ -4591,26 +4591,27 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
         const char *bib_value = apex_metadata_get(metadata, "bibliography");
         if (bib_value) {
             PROFILE_START(bibliography_load_meta);
-            /* Load bibliography from metadata */
-            char *resolved_path = NULL;
-            if (options->base_directory) {
-                size_t base_len = strlen(options->base_directory);
-                size_t bib_len = strlen(bib_value);
-                resolved_path = malloc(base_len + bib_len + 2);
-                if (resolved_path) {
-                    strcpy(resolved_path, options->base_directory);
-                    if (resolved_path[base_len - 1] != '/') {
-                        resolved_path[base_len] = '/';
-                        base_len++;
+            /* Load bibliography from metadata: one file or a list of files */
+            char *names = strdup(bib_value);
+            for (char *name = names; name; ) {
+                char *comma = strchr(name, ',');
+                if (comma) *comma = '\0';
+                while (isspace((unsigned char)*name)) name++;
+                size_t name_len = strlen(name);
+                while (name_len > 0 && isspace((unsigned char)name[name_len - 1])) name[--name_len] = '\0';
+
+                char *resolved_path = NULL;
+                if (name_len > 0) {
+                    bool relative = options->base_directory && *options->base_directory && name[0] != '/';
+                    size_t base_len = relative ? strlen(options->base_directory) : 0;
+                    resolved_path = malloc(base_len + name_len + 2);
+                    if (resolved_path) {
+                        sprintf(resolved_path, "%s%s%s", relative ? options->base_directory : "",
+                                relative && options->base_directory[base_len - 1] != '/' ? "/" : "", name);
                     }
-                    strcpy(resolved_path + base_len, bib_value);
                 }
-            } else {
-                resolved_path = strdup(bib_value);
-            }
-
-            if (resolved_path) {
-                apex_bibliography_registry *meta_bib = apex_load_bibliography_file(resolved_path);
+                apex_bibliography_registry *meta_bib = resolved_path ? apex_load_bibliography_file(resolved_path) : NULL;
+                free(resolved_path);
                 if (meta_bib) {
                     if (bibliography) {
                         /* Merge with existing bibliography */
@@ -4632,8 +4633,9 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
                         bibliography = meta_bib;
                     }
                 }
-                free(resolved_path);
+                name = comma ? comma + 1 : NULL;
             }
+            free(names);
             PROFILE_END(bibliography_load_meta);
         }
     }
-- 
2.43.0


From 911a471f9df966cf517ba33d3fb0fcca074b38ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:55 +0000
Subject: [PATCH 125/180] fix: marks of citations and index entries are part of
 heading ids, and [-@key] or a citation after other punctuation alone are not
 seen

---
 src/extensions/citations.c  | 4 +---
 src/extensions/header_ids.c | 8 ++++++++
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/extensions/citations.c b/src/extensions/citations.c
index 0ba5189..59349bd 100644
--- a/src/extensions/citations.c
+++ b/src/extensions/citations.c
@@ -461,9 +461,7 @@ char *apex_process_citations(const char *text, apex_citation_registry *registry,
     bool has_citation_pattern = false;
     const char *p = text;
     while (*p && p < text + len - 1) {
-        if ((*p == '[' && p[1] == '@') ||  /* Pandoc [@...] */
-            (*p == '[' && p[1] == '#') ||  /* MultiMarkdown [#...] */
-            (*p == '@' && (p == text || isspace((unsigned char)p[-1]) || p[-1] == '('))) {  /* Author-in-text @... */
+        if (*p == '@' || (*p == '[' && p[1] == '#')) {  /* Pandoc, mmark or MultiMarkdown */
             has_citation_pattern = true;
             break;
         }
diff --git a/src/extensions/header_ids.c b/src/extensions/header_ids.c
index d543098..0b82153 100644
--- a/src/extensions/header_ids.c
+++ b/src/extensions/header_ids.c
@@ -448,6 +448,14 @@ char *apex_extract_heading_text(cmark_node *heading_node) {
     cmark_iter_free(iter);
 
     *write = '\0';
+
+    /* Marks of citations and index entries (see apex.c) are no text */
+    char *mark;
+    while ((mark = strstr(text, "\xE2\xB8\xA8\xEF\xB7\x92")) != NULL) {
+        char *mark_end = strstr(mark, "\xE2\xB8\xA9");
+        if (!mark_end) break;
+        memmove(mark, mark_end + 3, strlen(mark_end + 3) + 1);
+    }
     return text;
 }
 
-- 
2.43.0


From 6245ace36894d2eed0a684a695fbaa5f4004bfdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:58 +0000
Subject: [PATCH 126/180] fix: @comment, @string and @preamble in BibTeX files
 are read as entries

---
 src/extensions/citations.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/extensions/citations.c b/src/extensions/citations.c
index 59349bd..74c903c 100644
--- a/src/extensions/citations.c
+++ b/src/extensions/citations.c
@@ -1415,6 +1415,18 @@ apex_bibliography_registry *apex_parse_bibtex(const char *content) {
             continue;
         }
 
+        /* Comments, abbreviations and preambles are not entries */
+        if (strcmp(type_str, "comment") == 0 || strcmp(type_str, "string") == 0 ||
+            strcmp(type_str, "preamble") == 0) {
+            int depth = 1;
+            free((void*)type_str);
+            for (p = entry_start; *p && depth > 0; p++) {
+                if (*p == '{') depth++;
+                else if (*p == '}') depth--;
+            }
+            continue;
+        }
+
         /* Find entry key (after {) */
         const char *key_start = entry_start;
         while (*key_start && (isspace(*key_start) || *key_start == ',')) key_start++;
-- 
2.43.0


From 83181270577f01c95ffe185ef45323382296add7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:03 +0000
Subject: [PATCH 127/180] fix: citations between escaped backticks are not seen

---
 src/extensions/citations.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/extensions/citations.c b/src/extensions/citations.c
index 74c903c..3d560dd 100644
--- a/src/extensions/citations.c
+++ b/src/extensions/citations.c
@@ -482,6 +482,11 @@ char *apex_process_citations(const char *text, apex_citation_registry *registry,
     while (read < end) {
         /* Code is copied as it is: a run of backticks up to the next run of the same length
          * (a fence without an end extends to the end of the text) */
+        if (*read == '\\' && read[1] == '`') {
+            cite_add(&output, read, 2);
+            read += 2;
+            continue;
+        }
         if (*read == '`') {
             size_t run = strspn(read, "`");
             const char *code_end = read + run;
-- 
2.43.0


From 94aab2f50c05acc01843e70f0bf83170bea7e11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:06 +0000
Subject: [PATCH 128/180] fix: indices in metadata does not enable the Leanpub
 syntax, as --indices does

---
 src/extensions/metadata.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/extensions/metadata.c b/src/extensions/metadata.c
index d754486..f216a05 100644
--- a/src/extensions/metadata.c
+++ b/src/extensions/metadata.c
@@ -2569,6 +2569,7 @@ void apex_apply_metadata_to_options(apex_metadata_item *metadata, apex_options *
                 options->enable_indices = true;
                 options->enable_mmark_index_syntax = true;
                 options->enable_textindex_syntax = true;
+                options->enable_leanpub_index_syntax = true;
             } else if (is_false_value(value)) {
                 options->enable_indices = false;
             }
-- 
2.43.0


From 2e372c98b4df545273547af1c3e5ee0387c66ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:43 +0000
Subject: [PATCH 129/180] fix: plugins whose id is taken or whose pattern is
 invalid are leaked

---
 src/plugins.c | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/plugins.c b/src/plugins.c
index 07908d2..4909f1c 100644
--- a/src/plugins.c
+++ b/src/plugins.c
@@ -390,13 +390,7 @@ static void load_plugins_from_dir(apex_plugin_manager *manager,
                         cflags |= REG_ICASE;
                     }
                     if (regcomp(&p->regex, pattern_str, cflags) != 0) {
-                        free(p->id);
-                        free(p->title);
-                        free(p->author);
-                        free(p->description);
-                        free(p->homepage);
-                        free(p->repo);
-                        free(p);
+                        free_plugin(p);
                         apex_free_metadata(merged);
                         continue;
                     }
@@ -409,11 +403,15 @@ static void load_plugins_from_dir(apex_plugin_manager *manager,
                 if (phase_mask & APEX_PLUGIN_PHASE_PRE_PARSE) {
                     if (!plugin_id_exists(manager->pre_parse, id)) {
                         append_plugin_sorted(&manager->pre_parse, p);
+                    } else {
+                        free_plugin(p);
                     }
                 }
                 if (phase_mask & APEX_PLUGIN_PHASE_POST_RENDER) {
                     if (!plugin_id_exists(manager->post_render, id)) {
                         append_plugin_sorted(&manager->post_render, p);
+                    } else {
+                        free_plugin(p);
                     }
                 }
 
@@ -512,13 +510,7 @@ static void load_plugins_from_dir(apex_plugin_manager *manager,
             }
             if (regcomp(&p->regex, pattern_str, cflags) != 0) {
                 /* Invalid regex, skip this plugin */
-                free(p->id);
-                free(p->title);
-                free(p->author);
-                free(p->description);
-                free(p->homepage);
-                free(p->repo);
-                free(p);
+                free_plugin(p);
                 apex_free_metadata(meta);
                 continue;
             }
@@ -531,11 +523,15 @@ static void load_plugins_from_dir(apex_plugin_manager *manager,
         if (phase_mask & APEX_PLUGIN_PHASE_PRE_PARSE) {
             if (!plugin_id_exists(manager->pre_parse, final_id)) {
                 append_plugin_sorted(&manager->pre_parse, p);
+            } else {
+                free_plugin(p);
             }
         }
         if (phase_mask & APEX_PLUGIN_PHASE_POST_RENDER) {
             if (!plugin_id_exists(manager->post_render, final_id)) {
                 append_plugin_sorted(&manager->post_render, p);
+            } else {
+                free_plugin(p);
             }
         }
 
-- 
2.43.0


From 088b770bfdbc0561a07cfa4bb5683299ca9ba3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:43 +0000
Subject: [PATCH 130/180] fix: the support directory of plugins is not created
 when its parents are missing

---
 src/plugins.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/plugins.c b/src/plugins.c
index 4909f1c..d15d3b0 100644
--- a/src/plugins.c
+++ b/src/plugins.c
@@ -229,15 +229,14 @@ static char *apex_get_support_base_dir(void) {
         snprintf(buf, sizeof(buf), "%s/.config/apex/support", home);
     }
 
-    /* Ensure directory exists (mkdir -p style for two levels) */
+    /* Ensure directory exists (mkdir -p style) */
     char *path = strdup(buf);
     if (!path) return NULL;
 
-    /* Create parent ~/.config/apex if needed when using HOME path */
-    if (!xdg || !*xdg) {
-        char parent[1024];
-        snprintf(parent, sizeof(parent), "%s/.config/apex", getenv("HOME"));
-        mkdir(parent, 0700);
+    for (char *slash = strchr(path + 1, '/'); slash; slash = strchr(slash + 1, '/')) {
+        *slash = '\0';
+        mkdir(path, 0700);
+        *slash = '/';
     }
 
     mkdir(path, 0700);
-- 
2.43.0


From 2b33446a9cd3246a89b2351f76f456ca01d5ba6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:43 +0000
Subject: [PATCH 131/180] fix: ^ and $ in the pattern of a plugin match after
 every replacement, and flag m has no effect

---
 src/plugins.c | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/src/plugins.c b/src/plugins.c
index d15d3b0..975f0df 100644
--- a/src/plugins.c
+++ b/src/plugins.c
@@ -108,6 +108,7 @@ struct apex_plugin {
     char *replacement;
     regex_t regex;
     int has_regex;
+    int multi_line;
     /* Owning directory for this plugin (used for APEX_PLUGIN_DIR) */
     char *dir_path;
     /* Per-plugin support directory (used for APEX_SUPPORT_DIR) */
@@ -388,6 +389,10 @@ static void load_plugins_from_dir(apex_plugin_manager *manager,
                     if (flags_str && strchr(flags_str, 'i')) {
                         cflags |= REG_ICASE;
                     }
+                    if (flags_str && strchr(flags_str, 'm')) {
+                        cflags |= REG_NEWLINE;
+                        p->multi_line = 1;
+                    }
                     if (regcomp(&p->regex, pattern_str, cflags) != 0) {
                         free_plugin(p);
                         apex_free_metadata(merged);
@@ -507,6 +512,10 @@ static void load_plugins_from_dir(apex_plugin_manager *manager,
             if (flags_str && strchr(flags_str, 'i')) {
                 cflags |= REG_ICASE;
             }
+            if (flags_str && strchr(flags_str, 'm')) {
+                cflags |= REG_NEWLINE;
+                p->multi_line = 1;
+            }
             if (regcomp(&p->regex, pattern_str, cflags) != 0) {
                 /* Invalid regex, skip this plugin */
                 free_plugin(p);
@@ -649,8 +658,11 @@ static char *apply_regex_replacement(struct apex_plugin *p, const char *input) {
     int rc;
     int any_match = 0;
 
-    while ((rc = regexec(&p->regex, cursor, 10, matches, 0)) == 0) {
-        if (matches[0].rm_so < 0) {
+    for (;;) {
+        /* ^ matches where the text (or, with flag m, a line) starts, not after each replacement */
+        int at_start = cursor == input || (p->multi_line && cursor[-1] == '\n');
+        rc = regexec(&p->regex, cursor, 10, matches, at_start ? 0 : REG_NOTBOL);
+        if (rc != 0 || matches[0].rm_so < 0) {
             break;
         }
         any_match = 1;
@@ -704,10 +716,11 @@ static char *apply_regex_replacement(struct apex_plugin *p, const char *input) {
             }
         }
 
-        size_t adv = (size_t)matches[0].rm_eo;
-        if (adv == 0) {
-            /* Avoid infinite loop on zero-length matches */
-            if (*cursor) {
+        cursor += (size_t)matches[0].rm_eo;
+        if (matches[0].rm_eo == matches[0].rm_so) {
+            /* Zero-length match: go on after the next character */
+            if (!*cursor) break;
+            do {
                 if (out_len + 2 > cap) {
                     cap = (out_len + 2) * 2;
                     char *nb = realloc(out, cap);
@@ -717,13 +730,8 @@ static char *apply_regex_replacement(struct apex_plugin *p, const char *input) {
                     }
                     out = nb;
                 }
-                out[out_len++] = *cursor;
-                cursor++;
-            } else {
-                break;
-            }
-        } else {
-            cursor += adv;
+                out[out_len++] = *cursor++;
+            } while (((unsigned char)*cursor & 0xC0) == 0x80);
         }
     }
 
-- 
2.43.0


From 20d39665c255f73782aabdffa196bc9462d6afcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:43 +0000
Subject: [PATCH 132/180] fix: plugin commands do not run in the directory of
 the plugin

---
 src/plugins.c     | 4 ++--
 src/plugins_env.c | 4 ++++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/plugins.c b/src/plugins.c
index 975f0df..174f478 100644
--- a/src/plugins.c
+++ b/src/plugins.c
@@ -371,7 +371,7 @@ static void load_plugins_from_dir(apex_plugin_manager *manager,
                 p->priority = priority_str ? atoi(priority_str) : 100;
                 p->timeout_ms = timeout_str ? atoi(timeout_str) : 0;
                 p->has_regex = 0;
-                p->dir_path = strdup(plugin_dir);
+                p->dir_path = realpath(plugin_dir, NULL);
 
                 /* Compute per-plugin support directory */
                 char *support_base = apex_get_support_base_dir();
@@ -496,7 +496,7 @@ static void load_plugins_from_dir(apex_plugin_manager *manager,
         p->priority = priority_str ? atoi(priority_str) : 100;
         p->timeout_ms = timeout_str ? atoi(timeout_str) : 0;
         p->has_regex = 0;
-        p->dir_path = strdup(S_ISDIR(st.st_mode) ? plugin_dir : dirpath);
+        p->dir_path = realpath(S_ISDIR(st.st_mode) ? plugin_dir : dirpath, NULL);
 
         /* Compute per-plugin support directory, if we have a base and id */
         if (support_base && final_id) {
diff --git a/src/plugins_env.c b/src/plugins_env.c
index 78e49ff..0eedc44 100644
--- a/src/plugins_env.c
+++ b/src/plugins_env.c
@@ -103,6 +103,10 @@ char *apex_run_external_plugin_command(const char *cmd,
         close(in_pipe[0]); close(in_pipe[1]);
         close(out_pipe[0]); close(out_pipe[1]);
 
+        /* Commands run in the directory of the plugin */
+        const char *plugin_dir = getenv("APEX_PLUGIN_DIR");
+        if (plugin_dir && *plugin_dir && chdir(plugin_dir) != 0) _exit(127);
+
         execl("/bin/sh", "sh", "-c", cmd, (char *)NULL);
         /* If exec fails */
         _exit(127);
-- 
2.43.0


From ad885360278d3941416f0f11a53c920110fc1fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:43 +0000
Subject: [PATCH 133/180] fix: a plugin that fails or prints nothing empties
 the document

---
 src/plugins_env.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/plugins_env.c b/src/plugins_env.c
index 0eedc44..7f5d14e 100644
--- a/src/plugins_env.c
+++ b/src/plugins_env.c
@@ -174,10 +174,16 @@ char *apex_run_external_plugin_command(const char *cmd,
     }
     close(out_pipe[0]);
 
-    /* Reap child; ignore status for now but ensure no zombies */
-    int status;
+    /* Reap child */
+    int status = 0;
     if (feeder > 0) waitpid(feeder, &status, 0);
-    waitpid(pid, &status, 0);
+    if (waitpid(pid, &status, 0) != pid) status = 0;
+
+    /* A plugin that fails or prints nothing changes nothing */
+    if (size == 0 || !WIFEXITED(status) || WEXITSTATUS(status) != 0) {
+        free(buf);
+        return NULL;
+    }
 
     buf[size] = '\0';
     return buf;
-- 
2.43.0


From 3f04b018531acf21ef56cc0b22413d32071788a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:43 +0000
Subject: [PATCH 134/180] fix: the id of a plugin is not escaped in its JSON
 request

---
 src/plugins_env.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/plugins_env.c b/src/plugins_env.c
index 7f5d14e..a878b1a 100644
--- a/src/plugins_env.c
+++ b/src/plugins_env.c
@@ -64,22 +64,29 @@ char *apex_run_external_plugin_command(const char *cmd,
     /* Build JSON request */
     char *escaped = apex_json_escape(text);
     if (!escaped) return NULL;
+    char *escaped_id = apex_json_escape(plugin_id);
+    if (!escaped_id) {
+        free(escaped);
+        return NULL;
+    }
 
     const char *prefix = "{ \"version\": 1, \"plugin_id\": \"";
     const char *mid1   = "\", \"phase\": \"";
     const char *mid2   = "\", \"text\": \"";
     const char *suffix = "\" }\n";
-    size_t json_len = strlen(prefix) + strlen(plugin_id) +
+    size_t json_len = strlen(prefix) + strlen(escaped_id) +
                       strlen(mid1) + strlen(phase) +
                       strlen(mid2) + strlen(escaped) + strlen(suffix);
     char *json = malloc(json_len + 1);
     if (!json) {
         free(escaped);
+        free(escaped_id);
         return NULL;
     }
     snprintf(json, json_len + 1, "%s%s%s%s%s%s%s",
-             prefix, plugin_id, mid1, phase, mid2, escaped, suffix);
+             prefix, escaped_id, mid1, phase, mid2, escaped, suffix);
     free(escaped);
+    free(escaped_id);
 
     int in_pipe[2];
     int out_pipe[2];
-- 
2.43.0


From 66c495218b610ecc99fa1a12bd0f85f44494a1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:27 +0000
Subject: [PATCH 135/180] fix: braces, quotes, escapes and key names in the
 values of the plugin directory break its entries, which are listed in reverse

---
 src/plugins_remote.c | 125 +++++++++++++++++++++++++++++++++----------
 1 file changed, 98 insertions(+), 27 deletions(-)

diff --git a/src/plugins_remote.c b/src/plugins_remote.c
index c634ce6..a8b80e4 100644
--- a/src/plugins_remote.c
+++ b/src/plugins_remote.c
@@ -82,36 +82,102 @@ char *apex_remote_fetch_json(const char *url) {
     return buf;
 }
 
+/* Skip the JSON string that starts at p; returns the closing quote, or NULL if there is none */
+static const char *apex_remote_string_end(const char *p) {
+    for (p++; *p && *p != '\"'; p++) {
+        if (*p == '\\' && p[1] != '\0') p++;
+    }
+    return *p ? p : NULL;
+}
+
+/* Copy the JSON string between start and end, with its escapes decoded */
+static char *apex_remote_decode_string(const char *start, const char *end) {
+    char *out = malloc((size_t)(end - start) + 1);
+    if (!out) return NULL;
+    char *w = out;
+    for (const char *p = start; p < end; p++) {
+        unsigned int code = 0;
+        if (*p != '\\') {
+            *w++ = *p;
+            continue;
+        }
+        p++;
+        switch (*p) {
+            case 'n': *w++ = '\n'; break;
+            case 't': *w++ = '\t'; break;
+            case 'r': *w++ = '\r'; break;
+            case 'b': *w++ = '\b'; break;
+            case 'f': *w++ = '\f'; break;
+            case 'u':
+                if (end - p > 4 && sscanf(p + 1, "%4x", &code) == 1 && code) {
+                    unsigned int low = 0;
+                    p += 4;
+                    if (code >= 0xD800 && code < 0xDC00 && end - p > 6 && p[1] == '\\' && p[2] == 'u' &&
+                        sscanf(p + 3, "%4x", &low) == 1 && low >= 0xDC00 && low < 0xE000) {
+                        code = 0x10000 + ((code - 0xD800) << 10) + (low - 0xDC00);
+                        p += 6;
+                    }
+                    if (code < 0x80) {
+                        *w++ = (char)code;
+                    } else if (code < 0x800) {
+                        *w++ = (char)(0xC0 | (code >> 6));
+                        *w++ = (char)(0x80 | (code & 0x3F));
+                    } else if (code < 0x10000) {
+                        *w++ = (char)(0xE0 | (code >> 12));
+                        *w++ = (char)(0x80 | ((code >> 6) & 0x3F));
+                        *w++ = (char)(0x80 | (code & 0x3F));
+                    } else {
+                        *w++ = (char)(0xF0 | (code >> 18));
+                        *w++ = (char)(0x80 | ((code >> 12) & 0x3F));
+                        *w++ = (char)(0x80 | ((code >> 6) & 0x3F));
+                        *w++ = (char)(0x80 | (code & 0x3F));
+                    }
+                }
+                break;
+            default: *w++ = *p; break;
+        }
+    }
+    *w = '\0';
+    return out;
+}
+
 /* Very small JSON helper: extract string value for a key from an object snippet.
- * Assumes JSON is well-formed and keys/values are double-quoted.
+ * Assumes JSON is well-formed and keys/values are double-quoted. Only keys of the
+ * object itself count, not text in values or the keys of other objects.
  */
 char *apex_remote_extract_string(const char *obj, const char *key) {
     if (!obj || !key) return NULL;
-    char pattern[128];
-    snprintf(pattern, sizeof(pattern), "\"%s\"", key);
-    const char *p = strstr(obj, pattern);
-    if (!p) return NULL;
-    p = strchr(p + strlen(pattern), ':');
-    if (!p) return NULL;
-    p++;
-    while (*p == ' ' || *p == '\t') p++;
-    if (*p != '\"') return NULL;
-    p++;
-    const char *start = p;
-    while (*p && *p != '\"') {
-        if (*p == '\\' && p[1] != '\0') {
-            p += 2;
-        } else {
-            p++;
+    size_t key_len = strlen(key);
+    int depth = 0;
+    const char *p = obj;
+    while (*p == ' ' || *p == '\t' || *p == '\n' || *p == '\r') p++;
+    if (*p == '{') p++;
+    for (; *p && depth >= 0; p++) {
+        if (*p == '{' || *p == '[') depth++;
+        else if (*p == '}' || *p == ']') depth--;
+        if (*p != '\"') continue;
+
+        const char *name = p + 1;
+        const char *name_end = apex_remote_string_end(p);
+        if (!name_end) return NULL;
+        p = name_end;
+        const char *value = p + 1;
+        while (*value == ' ' || *value == '\t' || *value == '\n' || *value == '\r') value++;
+        if (*value != ':') continue;
+        value++;
+        while (*value == ' ' || *value == '\t' || *value == '\n' || *value == '\r') value++;
+        if (*value != '\"') {
+            p = value - 1;
+            continue;
+        }
+        const char *value_end = apex_remote_string_end(value);
+        if (!value_end) return NULL;
+        if (depth == 0 && (size_t)(name_end - name) == key_len && strncmp(name, key, key_len) == 0) {
+            return apex_remote_decode_string(value + 1, value_end);
         }
+        p = value_end;
     }
-    if (*p != '\"') return NULL;
-    size_t len = (size_t)(p - start);
-    char *out = malloc(len + 1);
-    if (!out) return NULL;
-    memcpy(out, start, len);
-    out[len] = '\0';
-    return out;
+    return NULL;
 }
 
 /* Parse array of objects from JSON; array_key is e.g. "\"plugins\"" or "\"filters\"" */
@@ -125,6 +191,7 @@ static apex_remote_plugin_list *apex_remote_parse_array(const char *json, const
 
     apex_remote_plugin_list *list = calloc(1, sizeof(apex_remote_plugin_list));
     if (!list) return NULL;
+    apex_remote_plugin **tail = &list->head;
 
     while (*p) {
         while (*p && (*p == ' ' || *p == '\t' || *p == '\n' || *p == '\r' || *p == ',')) p++;
@@ -135,7 +202,11 @@ static apex_remote_plugin_list *apex_remote_parse_array(const char *json, const
         const char *obj_start = p;
         int depth = 0;
         while (*p) {
-            if (*p == '{') depth++;
+            if (*p == '\"') {
+                const char *string_end = apex_remote_string_end(p);
+                if (!string_end) break;
+                p = string_end;
+            } else if (*p == '{') depth++;
             else if (*p == '}') {
                 depth--;
                 if (depth == 0) {
@@ -184,8 +255,8 @@ static apex_remote_plugin_list *apex_remote_parse_array(const char *json, const
             continue;
         }
 
-        rp->next = list->head;
-        list->head = rp;
+        *tail = rp;
+        tail = &rp->next;
     }
 
     return list;
-- 
2.43.0


From 7b5403e461401bb901d8bd91c12915c54a247307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:27 +0000
Subject: [PATCH 136/180] fix: --uninstall-plugin and --uninstall-filter remove
 directories outside of the install directory

---
 cli/main.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/cli/main.c b/cli/main.c
index b4b6bcc..a705251 100644
--- a/cli/main.c
+++ b/cli/main.c
@@ -826,6 +826,13 @@ static char *wrap_ansi_to_width(const char *input, int width) {
     return out;
 }
 
+/**
+ * Whether a plugin or filter id names a directory of its own below the install directory
+ */
+static bool is_safe_install_id(const char *id) {
+    return id && *id && *id != '.' && !strpbrk(id, "/\"`$\\\n");
+}
+
 /**
  * Normalize a plugin identifier to a Git repository URL.
  * Returns a newly allocated string that must be freed by caller, or NULL on error.
@@ -2174,6 +2181,10 @@ int main(int argc, char *argv[]) {
 
         /* Uninstall plugin: local only, no remote directory needed */
         if (uninstall_plugin_id) {
+            if (!is_safe_install_id(uninstall_plugin_id)) {
+                fprintf(stderr, "Error: '%s' is not a plugin id\n", uninstall_plugin_id);
+                return 1;
+            }
             char target[1200];
             snprintf(target, sizeof(target), "%s/%s", root, uninstall_plugin_id);
 
@@ -2585,6 +2596,10 @@ int main(int argc, char *argv[]) {
 
         /* Uninstall filter */
         if (uninstall_filter_id) {
+            if (!is_safe_install_id(uninstall_filter_id)) {
+                fprintf(stderr, "Error: '%s' is not a filter id\n", uninstall_filter_id);
+                return 1;
+            }
             char target[1200];
             snprintf(target, sizeof(target), "%s/%s", root, uninstall_filter_id);
 
-- 
2.43.0


From 4d74221348ef92d769bd65d9b0cb690c3d07e03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:46 +0000
Subject: [PATCH 137/180] fix: ids of plugins and addresses of repositories can
 make --install-plugin write elsewhere or run commands

---
 cli/main.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/cli/main.c b/cli/main.c
index a705251..6e0fcaf 100644
--- a/cli/main.c
+++ b/cli/main.c
@@ -2396,6 +2396,14 @@ int main(int argc, char *argv[]) {
                 final_plugin_id = strdup(install_plugin_id);
             }
 
+            if (strpbrk(repo, "\"`$\\\n") || (final_plugin_id && !is_safe_install_id(final_plugin_id))) {
+                fprintf(stderr, "Error: invalid plugin id or repository '%s'.\n", repo);
+                if (normalized_repo) free(normalized_repo);
+                if (final_plugin_id) free(final_plugin_id);
+                apex_remote_free_plugins(plist);
+                return 1;
+            }
+
             /* Determine plugins root: $XDG_CONFIG_HOME/apex/plugins or ~/.config/apex/plugins */
             const char *xdg = getenv("XDG_CONFIG_HOME");
             char root[1024];
@@ -2479,6 +2487,10 @@ int main(int argc, char *argv[]) {
             /* Extract plugin ID from cloned repo if we don't have it yet */
             if (!final_plugin_id) {
                 final_plugin_id = extract_plugin_id_from_repo(temp_target);
+                if (final_plugin_id && !is_safe_install_id(final_plugin_id)) {
+                    free(final_plugin_id);
+                    final_plugin_id = NULL;
+                }
                 if (!final_plugin_id) {
                     fprintf(stderr, "Error: could not determine plugin ID from repository. Make sure plugin.yml exists with an 'id' field.\n");
                     /* Clean up temp directory */
-- 
2.43.0


From fdbcb4059655dd50f349eb8fae02e6c457e8b001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:32 +0000
Subject: [PATCH 138/180] fix: Markdown output loses raw HTML, image texts,
 footnotes and strikethrough, and code spans, URLs and titles with special
 characters

---
 src/ast_markdown.c | 285 +++++++++++++++++++++++++++++++++++++--------
 1 file changed, 236 insertions(+), 49 deletions(-)

diff --git a/src/ast_markdown.c b/src/ast_markdown.c
index 9d9e6d3..f174efb 100644
--- a/src/ast_markdown.c
+++ b/src/ast_markdown.c
@@ -7,6 +7,7 @@
 #include "apex/ast_markdown.h"
 #include "apex/apex.h"
 #include "cmark-gfm.h"
+#include <ctype.h>
 #include <stdlib.h>
 #include <string.h>
 #include <stdio.h>
@@ -50,6 +51,13 @@ static void buffer_append_str(markdown_buffer *buf, const char *str) {
 }
 
 
+/* Append a numeric character reference for a single byte */
+static void append_char_ref(markdown_buffer *buf, unsigned char c) {
+    char ref[16];
+    snprintf(ref, sizeof(ref), "&#%d;", c);
+    buffer_append_str(buf, ref);
+}
+
 /* Escape special characters in markdown */
 static void escape_markdown(markdown_buffer *buf, const char *text, size_t len, apex_markdown_dialect_t dialect) {
     if (!text) return;
@@ -57,6 +65,13 @@ static void escape_markdown(markdown_buffer *buf, const char *text, size_t len,
     for (size_t i = 0; i < len; i++) {
         char c = text[i];
         bool should_escape = false;
+        bool line_start = buf->len == 0 || buf->buf[buf->len - 1] == '\n';
+        
+        /* Whitespace that the parser would strip */
+        if (c == '\n' || c == '\r' || ((c == ' ' || c == '\t') && line_start)) {
+            append_char_ref(buf, (unsigned char)c);
+            continue;
+        }
         
         switch (c) {
             case '\\':
@@ -71,8 +86,23 @@ static void escape_markdown(markdown_buffer *buf, const char *text, size_t len,
             case '+':
             case '.':
             case '!':
+            case '<':
+            case '>':
+            case '~':
                 should_escape = true;
                 break;
+            case '=':
+                /* Setext underlines; elsewhere only as part of == */
+                should_escape = line_start;
+                break;
+            case '&':
+                /* Only where it could begin a character reference */
+                should_escape = i + 1 < len && (text[i + 1] == '#' || isalpha((unsigned char)text[i + 1]));
+                break;
+            case ':':
+                /* Bare URLs must not become links, nor lines definitions */
+                should_escape = line_start || (i + 1 < len && text[i + 1] == '/');
+                break;
             case '{':
             case '}':
                 /* Don't escape braces for MMD (used in {{TOC}} syntax) */
@@ -82,7 +112,7 @@ static void escape_markdown(markdown_buffer *buf, const char *text, size_t len,
                 break;
             case '-':
                 /* Don't escape dashes for MMD (used in TOC parameters like {{TOC:2-4}}) */
-                if (dialect != APEX_MD_DIALECT_MMD) {
+                if (dialect != APEX_MD_DIALECT_MMD || line_start) {
                     should_escape = true;
                 }
                 break;
@@ -97,6 +127,158 @@ static void escape_markdown(markdown_buffer *buf, const char *text, size_t len,
     }
 }
 
+/* Write "url" or "url "title"" the way it can be read back */
+static void append_destination(markdown_buffer *buf, const char *url, const char *title) {
+    if (!url) url = "";
+    bool pointy = !*url && title && *title;
+    for (const char *p = url; *p; p++) {
+        if (*p == ' ' || *p == '\t' || *p == '<') pointy = true;
+    }
+    if (pointy) buffer_append_str(buf, "<");
+    for (const char *p = url; *p; p++) {
+        if ((unsigned char)*p < 32 || *p == 127) {
+            append_char_ref(buf, (unsigned char)*p);
+            continue;
+        }
+        if (*p == '\\' || *p == '<' || *p == '>' || (!pointy && (*p == '(' || *p == ')')) ||
+            (*p == '&' && (p[1] == '#' || isalpha((unsigned char)p[1])))) {
+            buffer_append(buf, "\\", 1);
+        }
+        buffer_append(buf, p, 1);
+    }
+    if (pointy) buffer_append_str(buf, ">");
+    if (title && *title) {
+        buffer_append_str(buf, " \"");
+        for (const char *p = title; *p; p++) {
+            if (*p == '\n' || *p == '\r') {
+                append_char_ref(buf, (unsigned char)*p);
+                continue;
+            }
+            if (*p == '\\' || *p == '"' || (*p == '&' && (p[1] == '#' || isalpha((unsigned char)p[1])))) {
+                buffer_append(buf, "\\", 1);
+            }
+            buffer_append(buf, p, 1);
+        }
+        buffer_append_str(buf, "\"");
+    }
+}
+
+/* A code span needs a fence that does not occur in its text */
+static void append_code_span(markdown_buffer *buf, const char *literal) {
+    size_t len = strlen(literal);
+    size_t fence = 1;
+    for (bool found = true; found;) {
+        found = false;
+        for (const char *p = literal; *p;) {
+            size_t run = strspn(p, "`");
+            if (run == fence) {
+                found = true;
+                fence++;
+                break;
+            }
+            p += run ? run : 1;
+        }
+    }
+    bool pad = len && (literal[0] == '`' || literal[len - 1] == '`' ||
+                       (literal[0] == ' ' && literal[len - 1] == ' ' && strspn(literal, " ") != len));
+    for (size_t i = 0; i < fence; i++) buffer_append_str(buf, "`");
+    if (pad) buffer_append_str(buf, " ");
+    buffer_append_str(buf, literal);
+    if (pad) buffer_append_str(buf, " ");
+    for (size_t i = 0; i < fence; i++) buffer_append_str(buf, "`");
+}
+
+static bool is_emphasis(cmark_node *node) {
+    return node && (cmark_node_get_type(node) == CMARK_NODE_EMPH || cmark_node_get_type(node) == CMARK_NODE_STRONG);
+}
+
+/* Emphasis delimiter that does not run into that of a parent or sibling */
+static char emphasis_char(cmark_node *node) {
+    cmark_node *previous = cmark_node_previous(node);
+    if (is_emphasis(previous)) return emphasis_char(previous) == '*' ? '_' : '*';
+    for (cmark_node *parent = cmark_node_parent(node); parent; parent = cmark_node_parent(parent)) {
+        if (is_emphasis(parent)) return emphasis_char(parent) == '*' ? '_' : '*';
+    }
+    return '*';
+}
+
+static bool is_autolink(cmark_node *node) {
+    cmark_node *child = cmark_node_first_child(node);
+    const char *url = cmark_node_get_url(node);
+    const char *title = cmark_node_get_title(node);
+    if (!url || (title && *title) || !child || cmark_node_next(child) ||
+        cmark_node_get_type(child) != CMARK_NODE_TEXT) {
+        return false;
+    }
+    const char *text = cmark_node_get_literal(child);
+    if (text && strncmp(url, "mailto:", 7) == 0 && strcmp(text, url + 7) == 0) {
+        return *text && strchr(text, '@') && strspn(text, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789.@-") == strlen(text);
+    }
+    if (!text || strcmp(text, url) != 0 || !isalpha((unsigned char)*url)) return false;
+    size_t scheme = 0;
+    while (isalnum((unsigned char)url[scheme]) || (url[scheme] && strchr("+.-", url[scheme]))) scheme++;
+    if (scheme < 2 || scheme > 32 || url[scheme] != ':') return false;
+    for (const char *p = url; *p; p++) {
+        if ((unsigned char)*p <= 32 || strchr("<>&\\", *p)) return false;
+    }
+    return true;
+}
+
+static void serialize_inline(markdown_buffer *buf, cmark_node *node, apex_markdown_dialect_t dialect);
+
+static void serialize_inlines(markdown_buffer *buf, cmark_node *node, apex_markdown_dialect_t dialect) {
+    for (cmark_node *child = cmark_node_first_child(node); child; child = cmark_node_next(child)) {
+        serialize_inline(buf, child, dialect);
+    }
+}
+
+/* Replace the byte at pos with its character reference */
+static void reference_at(markdown_buffer *buf, size_t pos) {
+    char *rest = strdup(buf->buf + pos + 1);
+    unsigned char c = (unsigned char)buf->buf[pos];
+    if (!rest) return;
+    buf->len = pos;
+    append_char_ref(buf, c);
+    buffer_append_str(buf, rest);
+    free(rest);
+}
+
+/* Content between delimiters, which must not have white space inside them */
+static void serialize_delimited(markdown_buffer *buf, cmark_node *node, apex_markdown_dialect_t dialect, const char *delimiter) {
+    markdown_buffer inner;
+    buffer_init(&inner);
+    serialize_inlines(&inner, node, dialect);
+    const char *content = inner.buf ? inner.buf : "";
+    buffer_append_str(buf, delimiter);
+    if (strncmp(content, "\xC2\xA0", 2) == 0) {
+        buffer_append_str(buf, "&nbsp;");
+        content += 2;
+    }
+    size_t len = strlen(content);
+    if (len >= 2 && strcmp(content + len - 2, "\xC2\xA0") == 0) {
+        buffer_append(buf, content, len - 2);
+        buffer_append_str(buf, "&nbsp;");
+    } else {
+        buffer_append_str(buf, content);
+        if (len && content[len - 1] == ' ') reference_at(buf, buf->len - 1);
+    }
+    buffer_append_str(buf, delimiter);
+    free(inner.buf);
+}
+
+/* Name of the nth footnote definition, as references hold its number */
+static const char *footnote_name(cmark_node *node, const char *number) {
+    int n = atoi(number);
+    while (cmark_node_parent(node)) node = cmark_node_parent(node);
+    for (cmark_node *child = cmark_node_first_child(node); child; child = cmark_node_next(child)) {
+        if (cmark_node_get_type(child) == CMARK_NODE_FOOTNOTE_DEFINITION && --n == 0) {
+            const char *name = cmark_node_get_literal(child);
+            return name && *name ? name : number;
+        }
+    }
+    return number;
+}
+
 /* Serialize inline nodes */
 static void serialize_inline(markdown_buffer *buf, cmark_node *node, apex_markdown_dialect_t dialect) {
     if (!node) return;
@@ -107,17 +289,22 @@ static void serialize_inline(markdown_buffer *buf, cmark_node *node, apex_markdo
     switch (type) {
         case CMARK_NODE_TEXT:
             if (literal) {
+                /* "_" does not close emphasis inside a word */
+                if (is_emphasis(cmark_node_previous(node)) && emphasis_char(cmark_node_previous(node)) == '_' &&
+                    isalnum((unsigned char)*literal)) {
+                    append_char_ref(buf, (unsigned char)*literal);
+                    literal++;
+                }
                 /* For MMD, check if this text contains a TOC marker and convert it */
                 if (dialect == APEX_MD_DIALECT_MMD) {
                     const char *toc_start = strstr(literal, "{{TOC");
                     if (toc_start) {
                         /* Found TOC marker - output text before it */
-                        if (toc_start > literal) {
-                            escape_markdown(buf, literal, (size_t)(toc_start - literal), dialect);
-                        }
-                        /* Find the end of the TOC marker */
                         const char *toc_end = strstr(toc_start, "}}");
                         if (toc_end) {
+                            if (toc_start > literal) {
+                                escape_markdown(buf, literal, (size_t)(toc_start - literal), dialect);
+                            }
                             /* Found complete TOC marker - output just {{TOC}} for MMD (no parameters) */
                             buffer_append_str(buf, "{{TOC}}");
                             /* Output any remaining text after the marker */
@@ -135,77 +322,77 @@ static void serialize_inline(markdown_buffer *buf, cmark_node *node, apex_markdo
             break;
             
         case CMARK_NODE_SOFTBREAK:
-            buffer_append_str(buf, "\n");
-            break;
-            
         case CMARK_NODE_LINEBREAK:
-            buffer_append_str(buf, "  \n");
+            /* Spaces before a line ending would be dropped or make a break */
+            if (buf->len && buf->buf[buf->len - 1] == ' ') {
+                reference_at(buf, buf->len - 1);
+            }
+            if (type == CMARK_NODE_LINEBREAK) {
+                /* Two spaces are understood everywhere, but need not be right after a tag or delimiter */
+                bool backslash = dialect == APEX_MD_DIALECT_COMMONMARK || dialect == APEX_MD_DIALECT_GFM;
+                buffer_append_str(buf, backslash ? "\\" : "  ");
+            }
+            buffer_append_str(buf, "\n");
             break;
             
         case CMARK_NODE_CODE:
             if (literal) {
-                buffer_append_str(buf, "`");
-                buffer_append_str(buf, literal);
-                buffer_append_str(buf, "`");
+                append_code_span(buf, literal);
             }
             break;
             
-        case CMARK_NODE_EMPH:
-            buffer_append_str(buf, "*");
-            for (cmark_node *child = cmark_node_first_child(node); child; child = cmark_node_next(child)) {
-                serialize_inline(buf, child, dialect);
-            }
-            buffer_append_str(buf, "*");
+        case CMARK_NODE_HTML_INLINE:
+            buffer_append_str(buf, literal);
             break;
             
-        case CMARK_NODE_STRONG:
-            buffer_append_str(buf, "**");
-            for (cmark_node *child = cmark_node_first_child(node); child; child = cmark_node_next(child)) {
-                serialize_inline(buf, child, dialect);
+        case CMARK_NODE_EMPH:
+        case CMARK_NODE_STRONG: {
+            char mark = emphasis_char(node);
+            char delimiter[3] = { mark, type == CMARK_NODE_STRONG ? mark : '\0', '\0' };
+            /* "_" does not open emphasis inside a word */
+            if (mark == '_' && buf->len && isalnum((unsigned char)buf->buf[buf->len - 1]) &&
+                !(buf->len > 1 && buf->buf[buf->len - 2] == '\\')) {
+                reference_at(buf, buf->len - 1);
             }
-            buffer_append_str(buf, "**");
+            serialize_delimited(buf, node, dialect, delimiter);
             break;
+        }
             
         case CMARK_NODE_LINK:
-            buffer_append_str(buf, "[");
-            for (cmark_node *child = cmark_node_first_child(node); child; child = cmark_node_next(child)) {
-                if (cmark_node_get_type(child) != CMARK_NODE_LINK) {
-                    serialize_inline(buf, child, dialect);
-                }
+            if (is_autolink(node)) {
+                buffer_append_str(buf, "<");
+                buffer_append_str(buf, cmark_node_get_literal(cmark_node_first_child(node)));
+                buffer_append_str(buf, ">");
+                break;
             }
+            buffer_append_str(buf, "[");
+            serialize_inlines(buf, node, dialect);
             buffer_append_str(buf, "](");
-            const char *url = cmark_node_get_url(node);
-            if (url) buffer_append_str(buf, url);
-            const char *title = cmark_node_get_title(node);
-            if (title) {
-                buffer_append_str(buf, " \"");
-                buffer_append_str(buf, title);
-                buffer_append_str(buf, "\"");
-            }
+            append_destination(buf, cmark_node_get_url(node), cmark_node_get_title(node));
             buffer_append_str(buf, ")");
             break;
             
         case CMARK_NODE_IMAGE:
             buffer_append_str(buf, "![");
-            const char *alt = cmark_node_get_literal(node);
-            if (alt) buffer_append_str(buf, alt);
+            serialize_inlines(buf, node, dialect);
             buffer_append_str(buf, "](");
-            url = cmark_node_get_url(node);
-            if (url) buffer_append_str(buf, url);
-            title = cmark_node_get_title(node);
-            if (title) {
-                buffer_append_str(buf, " \"");
-                buffer_append_str(buf, title);
-                buffer_append_str(buf, "\"");
-            }
+            append_destination(buf, cmark_node_get_url(node), cmark_node_get_title(node));
             buffer_append_str(buf, ")");
             break;
             
+        case CMARK_NODE_FOOTNOTE_REFERENCE:
+            buffer_append_str(buf, "[^");
+            if (literal) buffer_append_str(buf, footnote_name(node, literal));
+            buffer_append_str(buf, "]");
+            break;
+            
         default:
-            /* For other inline types, serialize children */
-            for (cmark_node *child = cmark_node_first_child(node); child; child = cmark_node_next(child)) {
-                serialize_inline(buf, child, dialect);
+            if (strcmp(cmark_node_get_type_string(node), "strikethrough") == 0) {
+                serialize_delimited(buf, node, dialect, "~~");
+                break;
             }
+            /* For other inline types, serialize children */
+            serialize_inlines(buf, node, dialect);
             break;
     }
 }
-- 
2.43.0


From 9f951b29985d37bb4f628a97696e21f56f7b8b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:32 +0000
Subject: [PATCH 139/180] fix: Markdown output loses tables, task lists, and
 the nesting and looseness of lists and quotes

---
 src/ast_markdown.c | 284 +++++++++++++++++++++++++++++----------------
 1 file changed, 184 insertions(+), 100 deletions(-)

diff --git a/src/ast_markdown.c b/src/ast_markdown.c
index f174efb..4d31f55 100644
--- a/src/ast_markdown.c
+++ b/src/ast_markdown.c
@@ -7,6 +7,7 @@
 #include "apex/ast_markdown.h"
 #include "apex/apex.h"
 #include "cmark-gfm.h"
+#include "cmark-gfm-core-extensions.h"
 #include <ctype.h>
 #include <stdlib.h>
 #include <string.h>
@@ -397,21 +398,117 @@ static void serialize_inline(markdown_buffer *buf, cmark_node *node, apex_markdo
     }
 }
 
-/* Serialize block nodes */
-static void serialize_block(markdown_buffer *buf, cmark_node *node, apex_markdown_dialect_t dialect, int indent_level) {
+static void serialize_block(markdown_buffer *buf, cmark_node *node, apex_markdown_dialect_t dialect);
+
+/* Append a nested block's lines, each after the container's prefix */
+static void append_prefixed(markdown_buffer *buf, const markdown_buffer *inner, const char *first, const char *rest) {
+    const char *line = inner->buf ? inner->buf : "";
+    const char *prefix = first;
+    do {
+        size_t len = strcspn(line, "\n");
+        size_t plen = strlen(prefix);
+        if (len == 0) {
+            while (plen && prefix[plen - 1] == ' ') plen--;
+        }
+        buffer_append(buf, prefix, plen);
+        buffer_append(buf, line, len);
+        buffer_append_str(buf, "\n");
+        line += len + (line[len] ? 1 : 0);
+        prefix = rest;
+    } while (*line);
+}
+
+/* Serialize child blocks, with blank lines between them unless they are tight */
+static void serialize_blocks(markdown_buffer *buf, cmark_node *node, apex_markdown_dialect_t dialect, bool tight) {
+    for (cmark_node *child = cmark_node_first_child(node); child; child = cmark_node_next(child)) {
+        size_t start = buf->len;
+        if (start && !tight) buffer_append_str(buf, "\n");
+        size_t before = buf->len;
+        serialize_block(buf, child, dialect);
+        if (buf->len == before && start) {
+            buf->len = start;
+            buf->buf[start] = '\0';
+        }
+    }
+}
+
+/* Number of lists of the same kind directly before this one */
+static int adjacent_lists(cmark_node *node) {
+    int count = 0;
+    for (cmark_node *previous = cmark_node_previous(node);
+         previous && cmark_node_get_type(previous) == CMARK_NODE_LIST &&
+         cmark_node_get_list_type(previous) == cmark_node_get_list_type(node);
+         previous = cmark_node_previous(previous)) {
+        count++;
+    }
+    return count;
+}
+
+static void serialize_list(markdown_buffer *buf, cmark_node *node, apex_markdown_dialect_t dialect) {
+    bool tight = cmark_node_get_list_tight(node) != 0;
+    bool other = adjacent_lists(node) % 2 != 0;
+    int number = cmark_node_get_list_start(node);
+    for (cmark_node *item = cmark_node_first_child(node); item; item = cmark_node_next(item), number++) {
+        char marker[32], indent[32];
+        if (cmark_node_get_list_type(node) == CMARK_ORDERED_LIST) {
+            snprintf(marker, sizeof(marker), "%d%c ", number, other ? ')' : '.');
+        } else {
+            snprintf(marker, sizeof(marker), "%c ", other ? '+' : '-');
+        }
+        size_t width = strlen(marker);
+        memset(indent, ' ', width);
+        indent[width] = '\0';
+        
+        markdown_buffer inner;
+        buffer_init(&inner);
+        serialize_blocks(&inner, item, dialect, tight);
+        if (strcmp(cmark_node_get_type_string(item), "tasklist") == 0) {
+            strcat(marker, cmark_gfm_extensions_get_tasklist_item_checked(item) ? "[x] " : "[ ] ");
+        }
+        append_prefixed(buf, &inner, marker, indent);
+        free(inner.buf);
+        if (!tight && cmark_node_next(item)) buffer_append_str(buf, "\n");
+    }
+}
+
+static void serialize_table(markdown_buffer *buf, cmark_node *node, apex_markdown_dialect_t dialect) {
+    uint16_t columns = cmark_gfm_extensions_get_table_columns(node);
+    uint8_t *alignments = cmark_gfm_extensions_get_table_alignments(node);
+    for (cmark_node *row = cmark_node_first_child(node); row; row = cmark_node_next(row)) {
+        for (cmark_node *cell = cmark_node_first_child(row); cell; cell = cmark_node_next(cell)) {
+            markdown_buffer inner;
+            buffer_init(&inner);
+            serialize_inlines(&inner, cell, dialect);
+            if (inner.len && inner.buf[inner.len - 1] == ' ') reference_at(&inner, inner.len - 1);
+            buffer_append_str(buf, "| ");
+            for (size_t i = 0; i < inner.len; i++) {
+                if (inner.buf[i] == '|') buffer_append_str(buf, "\\");
+                buffer_append(buf, inner.buf[i] == '\n' ? " " : &inner.buf[i], 1);
+            }
+            buffer_append_str(buf, " ");
+            free(inner.buf);
+        }
+        buffer_append_str(buf, "|\n");
+        if (row == cmark_node_first_child(node)) {
+            for (uint16_t i = 0; i < columns; i++) {
+                char align = alignments ? (char)alignments[i] : 0;
+                buffer_append_str(buf, align == 'c' ? "| :---: " : align == 'l' ? "| :--- " :
+                                       align == 'r' ? "| ---: " : "| --- ");
+            }
+            buffer_append_str(buf, "|\n");
+        }
+    }
+}
+
+/* Serialize block nodes, each ending with a line break */
+static void serialize_block(markdown_buffer *buf, cmark_node *node, apex_markdown_dialect_t dialect) {
     if (!node) return;
     
     cmark_node_type type = cmark_node_get_type(node);
     
     switch (type) {
         case CMARK_NODE_DOCUMENT:
-            for (cmark_node *child = cmark_node_first_child(node); child; child = cmark_node_next(child)) {
-                serialize_block(buf, child, dialect, indent_level);
-                if (cmark_node_get_type(child) != CMARK_NODE_LIST &&
-                    cmark_node_get_type(child) != CMARK_NODE_ITEM) {
-                    buffer_append_str(buf, "\n");
-                }
-            }
+            serialize_blocks(buf, node, dialect, false);
             break;
             
         case CMARK_NODE_PARAGRAPH: {
@@ -426,121 +523,103 @@ static void serialize_block(markdown_buffer *buf, cmark_node *node, apex_markdow
                     if (text && strstr(text, "{{TOC") == text) {
                         /* This is a TOC marker paragraph - convert to {{TOC}} for MMD */
                         is_toc_paragraph = true;
-                        buffer_append_str(buf, "{{TOC}}\n\n");
+                        buffer_append_str(buf, "{{TOC}}\n");
                     }
                 }
             }
             if (!is_toc_paragraph) {
-                for (cmark_node *child = cmark_node_first_child(node); child; child = cmark_node_next(child)) {
-                    serialize_inline(buf, child, dialect);
-                }
-                buffer_append_str(buf, "\n\n");
+                markdown_buffer inner;
+                buffer_init(&inner);
+                serialize_inlines(&inner, node, dialect);
+                if (inner.len && inner.buf[inner.len - 1] == ' ') reference_at(&inner, inner.len - 1);
+                buffer_append_str(buf, inner.buf);
+                buffer_append_str(buf, "\n");
+                free(inner.buf);
             }
             break;
         }
             
         case CMARK_NODE_HEADING: {
             int level = cmark_node_get_heading_level(node);
-            for (int i = 0; i < level; i++) {
-                buffer_append_str(buf, "#");
-            }
-            buffer_append_str(buf, " ");
-            for (cmark_node *child = cmark_node_first_child(node); child; child = cmark_node_next(child)) {
-                serialize_inline(buf, child, dialect);
+            markdown_buffer inner;
+            buffer_init(&inner);
+            serialize_inlines(&inner, node, dialect);
+            if (inner.len && inner.buf[inner.len - 1] == ' ') reference_at(&inner, inner.len - 1);
+            if (inner.buf && strchr(inner.buf, '\n') && level <= 2) {
+                /* Only underlined headings may have several lines */
+                buffer_append_str(buf, inner.buf);
+                buffer_append_str(buf, level == 1 ? "\n===\n" : "\n---\n");
+            } else {
+                for (int i = 0; i < level; i++) {
+                    buffer_append_str(buf, "#");
+                }
+                if (inner.len) buffer_append_str(buf, " ");
+                buffer_append_str(buf, inner.buf);
+                buffer_append_str(buf, "\n");
             }
-            buffer_append_str(buf, "\n\n");
+            free(inner.buf);
             break;
         }
         
         case CMARK_NODE_CODE_BLOCK: {
             const char *info = cmark_node_get_fence_info(node);
-            buffer_append_str(buf, "```");
-            if (info) buffer_append_str(buf, info);
-            buffer_append_str(buf, "\n");
             const char *literal = cmark_node_get_literal(node);
-            if (literal) buffer_append_str(buf, literal);
-            buffer_append_str(buf, "\n```\n\n");
-            break;
-        }
-        
-        case CMARK_NODE_BLOCK_QUOTE: {
-            /* Serialize blockquote with > on same line as content */
-            for (cmark_node *child = cmark_node_first_child(node); child; child = cmark_node_next(child)) {
-                cmark_node_type child_type = cmark_node_get_type(child);
-                
-                if (child_type == CMARK_NODE_PARAGRAPH) {
-                    /* For paragraphs, serialize inline content directly on same line as > */
-                    cmark_node *inline_child = cmark_node_first_child(child);
-                    bool first_item = true;
-                    
-                    while (inline_child) {
-                        cmark_node_type inline_type = cmark_node_get_type(inline_child);
-                        
-                        if (inline_type == CMARK_NODE_SOFTBREAK) {
-                            /* For soft breaks in blockquotes, continue on next line with > */
-                            buffer_append_str(buf, "\n> ");
-                            first_item = false;
-                        } else {
-                            /* For first non-softbreak item, add > prefix */
-                            if (first_item) {
-                                buffer_append_str(buf, "> ");
-                                first_item = false;
-                            }
-                            serialize_inline(buf, inline_child, dialect);
-                        }
-                        inline_child = cmark_node_next(inline_child);
-                    }
-                    
-                    if (cmark_node_next(child)) {
-                        buffer_append_str(buf, "\n");
-                    } else {
-                        buffer_append_str(buf, "\n\n");
-                    }
-                } else {
-                    /* For other block types, prefix with > */
-                    buffer_append_str(buf, "> ");
-                    serialize_block(buf, child, dialect, indent_level);
-                    /* Remove trailing newlines and add appropriate spacing */
-                    if (cmark_node_next(child)) {
-                        /* Ensure single newline between blockquote items */
-                        if (buf->len > 0 && buf->buf[buf->len - 1] == '\n') {
-                            buf->len--; /* Remove one newline */
-                            buf->buf[buf->len] = '\0';
-                        }
-                        buffer_append_str(buf, "\n");
-                    }
+            if (!literal) literal = "";
+            char mark = info && strchr(info, '`') ? '~' : '`';
+            /* The fence is longer than any run of its character inside */
+            size_t fence = 3, run = 0;
+            for (const char *p = literal; *p; p++) {
+                run = *p == mark ? run + 1 : 0;
+                if (run >= fence) fence = run + 1;
+            }
+            for (size_t i = 0; i < fence; i++) buffer_append(buf, &mark, 1);
+            for (const char *p = info ? info : ""; *p; p++) {
+                if (*p == '\\' || (*p == '&' && (p[1] == '#' || isalpha((unsigned char)p[1])))) {
+                    buffer_append_str(buf, "\\");
                 }
+                buffer_append(buf, p, 1);
             }
+            buffer_append_str(buf, "\n");
+            buffer_append_str(buf, literal);
+            if (*literal && buf->buf[buf->len - 1] != '\n') buffer_append_str(buf, "\n");
+            for (size_t i = 0; i < fence; i++) buffer_append(buf, &mark, 1);
+            buffer_append_str(buf, "\n");
             break;
         }
         
-        case CMARK_NODE_LIST: {
-            cmark_list_type list_type = cmark_node_get_list_type(node);
-            int item_index = 0;
-            for (cmark_node *item = cmark_node_first_child(node); item; item = cmark_node_next(item), item_index++) {
-                if (list_type == CMARK_ORDERED_LIST) {
-                    int start = cmark_node_get_list_start(node);
-                    char num[32];
-                    snprintf(num, sizeof(num), "%d", start + item_index);
-                    buffer_append_str(buf, num);
-                    buffer_append_str(buf, ". ");
-                } else {
-                    buffer_append_str(buf, "- ");
+        case CMARK_NODE_BLOCK_QUOTE:
+        case CMARK_NODE_FOOTNOTE_DEFINITION: {
+            markdown_buffer inner;
+            buffer_init(&inner);
+            serialize_blocks(&inner, node, dialect, false);
+            if (type == CMARK_NODE_BLOCK_QUOTE) {
+                append_prefixed(buf, &inner, "> ", "> ");
+            } else {
+                /* References carry the number of their definition */
+                int number = 1;
+                char digits[32];
+                for (cmark_node *n = cmark_node_previous(node); n; n = cmark_node_previous(n)) {
+                    if (cmark_node_get_type(n) == CMARK_NODE_FOOTNOTE_DEFINITION) number++;
                 }
-                serialize_block(buf, item, dialect, indent_level);
+                snprintf(digits, sizeof(digits), "%d", number);
+                buffer_append_str(buf, "[^");
+                buffer_append_str(buf, footnote_name(node, digits));
+                append_prefixed(buf, &inner, "]: ", "    ");
             }
-            buffer_append_str(buf, "\n");
+            free(inner.buf);
             break;
         }
         
+        case CMARK_NODE_LIST:
+            serialize_list(buf, node, dialect);
+            break;
+        
         case CMARK_NODE_ITEM:
-            for (cmark_node *child = cmark_node_first_child(node); child; child = cmark_node_next(child)) {
-                serialize_block(buf, child, dialect, indent_level);
-            }
+            serialize_blocks(buf, node, dialect, false);
             break;
         
         case CMARK_NODE_THEMATIC_BREAK:
-            buffer_append_str(buf, "---\n\n");
+            buffer_append_str(buf, "***\n");
             break;
         
         case CMARK_NODE_HTML_BLOCK: {
@@ -552,22 +631,27 @@ static void serialize_block(markdown_buffer *buf, cmark_node *node, apex_markdow
                     if (toc_start) {
                         /* For MMD, convert HTML comment TOC marker to {{TOC}} format */
                         /* Always output just {{TOC}} (no parameters) for MMD compatibility */
-                        buffer_append_str(buf, "{{TOC}}\n\n");
+                        buffer_append_str(buf, "{{TOC}}\n");
                         break;
                     }
                 }
                 /* For other dialects or non-TOC HTML, output as-is */
-                buffer_append_str(buf, literal);
-                buffer_append_str(buf, "\n\n");
+                literal += strspn(literal, " ");
+                size_t len = strlen(literal);
+                while (len && literal[len - 1] == '\n') len--;
+                buffer_append(buf, literal, len);
+                buffer_append_str(buf, "\n");
             }
             break;
         }
         
         default:
-            /* For unknown types, serialize children */
-            for (cmark_node *child = cmark_node_first_child(node); child; child = cmark_node_next(child)) {
-                serialize_block(buf, child, dialect, indent_level);
+            if (strcmp(cmark_node_get_type_string(node), "table") == 0) {
+                serialize_table(buf, node, dialect);
+                break;
             }
+            /* For unknown types, serialize children */
+            serialize_blocks(buf, node, dialect, false);
             break;
     }
 }
@@ -583,7 +667,7 @@ char *apex_cmark_to_markdown(cmark_node *document,
     markdown_buffer buf;
     buffer_init(&buf);
     
-    serialize_block(&buf, document, dialect, 0);
+    serialize_block(&buf, document, dialect);
     
     if (buf.buf) {
         return buf.buf;
-- 
2.43.0


From 81804065759f5412ddcb727e9bfc2cbd84d731c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:32 +0000
Subject: [PATCH 140/180] fix: escaped ^ and ~ still make superscripts and
 subscripts

---
 src/extensions/sup_sub.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/extensions/sup_sub.c b/src/extensions/sup_sub.c
index c94cdf5..414b7d6 100644
--- a/src/extensions/sup_sub.c
+++ b/src/extensions/sup_sub.c
@@ -106,6 +106,19 @@ char *apex_process_sup_sub(const char *text) {
             }
         }
 
+        /* Escaped markers are literal */
+        if (*read == '\\' && (read[1] == '^' || read[1] == '~') &&
+            !in_code_block && !in_inline_code && !in_indented_code_block && !in_math_inline && !in_math_display) {
+            if (remaining > 1) {
+                *write++ = *read++;
+                *write++ = *read++;
+                remaining -= 2;
+            } else {
+                read += 2;
+            }
+            continue;
+        }
+
         /* Track math spans (skip processing inside them) */
         bool handled_math = false;
         if (!in_code_block && !in_inline_code && !in_indented_code_block) {
-- 
2.43.0


From 191f3dcf2b22ae85aabf90b163f6c0cd43e05536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:17 +0000
Subject: [PATCH 141/180] fix: autolinks take in the punctuation and markup
 around them, break links whose text holds a URL, and rewrite raw HTML

---
 src/apex.c | 199 +++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 141 insertions(+), 58 deletions(-)

diff --git a/src/apex.c b/src/apex.c
index a90d016..4d25b52 100644
--- a/src/apex.c
+++ b/src/apex.c
@@ -491,6 +491,110 @@ static char *apex_embed_images(const char *html, const apex_options *options, co
  * custom rendering paths.
  * Skips processing inside code spans (`...`) and code blocks (```...```).
  */
+static bool is_email_char(char c) {
+    return isalnum((unsigned char)c) || (c && strchr(".+-_", c));
+}
+
+/* End of the e-mail address that begins at p, NULL if none does */
+static const char *email_end(const char *p) {
+    const char *at = p;
+    while (is_email_char(*at)) at++;
+    if (at == p || *at != '@' || !isalnum((unsigned char)at[-1])) return NULL;
+    const char *end = at + 1;
+    while (isalnum((unsigned char)*end) || *end == '.' || *end == '-' || *end == '_') end++;
+    while (end > at && !isalnum((unsigned char)end[-1])) end--;
+    const char *dot = memchr(at, '.', (size_t)(end - at));
+    return dot && dot > at + 1 ? end : NULL;
+}
+
+/* End of the bare URL that begins at p: without the punctuation, markup and
+ * closing parenthesis of the text around it */
+static const char *bare_url_end(const char *p) {
+    const char *end = p;
+    while (*end && !isspace((unsigned char)*end) && !strchr("<>|`", *end) && !(end[0] == '[' && end[1] == '^')) end++;
+    while (end > p) {
+        if (strchr("?!.,:;*_~'\"", end[-1])) {
+            end--;
+        } else if (end - p > 1 && end[-1] == '=' && end[-2] == '=') {
+            end -= 2;
+        } else if (end[-1] == ')' || end[-1] == ']') {
+            char open = end[-1] == ')' ? '(' : '[';
+            int depth = 0;
+            for (const char *q = p; q < end; q++) {
+                if (*q == open) depth++;
+                if (*q == end[-1]) depth--;
+            }
+            if (depth >= 0) break;
+            end--;
+        } else {
+            break;
+        }
+    }
+    return end;
+}
+
+/* End of the HTML tag that begins at p, NULL if none does */
+static const char *html_tag_end(const char *p) {
+    if (*p != '<' || !(isalpha((unsigned char)p[1]) || (p[1] == '/' && isalpha((unsigned char)p[2])))) return NULL;
+    char quote = 0;
+    for (p++; *p && !(p[0] == '\n' && p[1] == '\n'); p++) {
+        if (quote) {
+            if (*p == quote) quote = 0;
+        } else if (*p == '"' || *p == '\'') {
+            if (p[-1] == '=') quote = *p;
+        } else if (*p == '<') {
+            return NULL;
+        } else if (*p == '>') {
+            return p + 1;
+        }
+    }
+    return NULL;
+}
+
+/* Whether a raw HTML block, whose lines are not Markdown, begins at this line */
+static bool begins_html_block(const char *text, const char *line) {
+    static const char *const names[] = {
+        "address", "article", "aside", "blockquote", "body", "center", "details", "dialog", "dd", "dir", "div", "dl", "dt",
+        "fieldset", "figcaption", "figure", "footer", "form", "h1", "h2", "h3", "h4", "h5", "h6", "head", "header", "hr",
+        "html", "iframe", "legend", "li", "link", "main", "menu", "nav", "ol", "option", "p", "param", "section", "summary",
+        "table", "tbody", "td", "tfoot", "th", "thead", "title", "tr", "ul", NULL
+    };
+    const char *p = line + strspn(line, " ");
+    if (p - line > 3) return false;
+    const char *end = html_tag_end(p);
+    const char *name = p + (p[1] == '/' ? 2 : 1);
+    size_t len = end ? strcspn(name, " \t\n/>") : 0;
+    for (int i = 0; len && names[i]; i++) {
+        if (strlen(names[i]) == len && strncasecmp(name, names[i], len) == 0) {
+            /* markdown="1" */
+            const char *attr = strstr(p, "markdown=");
+            return !(attr && attr < end);
+        }
+    }
+    /* Any other tag, alone on its line after a blank line */
+    for (size_t i = 0; i < len; i++) {
+        if (!isalnum((unsigned char)name[i]) && name[i] != '-') return false;
+    }
+    if (!len || (line > text && !(line - text > 1 && line[-2] == '\n'))) return false;
+    end += strspn(end, " \t");
+    return *end == '\n' || *end == '\0';
+}
+
+/* Closing bracket of the link text that begins at p, NULL if p does not begin one */
+static const char *link_text_end(const char *p) {
+    int depth = 0;
+    for (; *p && !(p[0] == '\n' && p[1] == '\n'); p++) {
+        if (*p == '\\' && p[1]) {
+            p++;
+        } else if (*p == '[') {
+            depth++;
+        } else if (*p == ']' && --depth == 0) {
+            return p[1] == '(' || p[1] == '[' ? p : NULL;
+        }
+    }
+    return NULL;
+}
+
 static char *apex_preprocess_autolinks(const char *text, const apex_options *options) {
     if (!text || !options || !options->enable_autolink) return NULL;
 
@@ -559,6 +663,14 @@ static char *apex_preprocess_autolinks(const char *text, const apex_options *opt
                 continue;
             }
 
+            /* Raw HTML goes on up to a blank line */
+            if (!in_code_block && begins_html_block(text, r)) {
+                while (*r && !(r[0] == '\n' && r[1] == '\n')) {
+                    *w++ = *r++;
+                }
+                continue;
+            }
+
             /* Then: check for reference link definitions: [id]: URL */
             line_start = r;
             /* Skip leading whitespace */
@@ -634,7 +746,16 @@ static char *apex_preprocess_autolinks(const char *text, const apex_options *opt
         }
 
         /* Track markdown links: [text](url) - skip autolinking inside URL part */
-        if (*r == '[' && !in_markdown_link_url) {
+        if (*r == '[' && !in_markdown_link_url && !(r > text && r[-1] == '\\')) {
+            const char *close = link_text_end(r);
+            if (close) {
+                /* The text of a link has no links in it */
+                memcpy(w, r, (size_t)(close - r));
+                w += close - r;
+                r = close;
+                bracket_count++;
+                continue;
+            }
             bracket_count++;
         } else if (*r == ']' && bracket_count > 0) {
             /* Check if next character is '(' - if so, we're entering a link URL */
@@ -781,6 +902,15 @@ static char *apex_preprocess_autolinks(const char *text, const apex_options *opt
             }
         }
 
+        /* Skip HTML tags and <me@example.com> */
+        const char *tag_close = html_tag_end(r);
+        if (tag_close) {
+            memcpy(w, r, (size_t)(tag_close - r));
+            w += tag_close - r;
+            r = tag_close;
+            continue;
+        }
+
         /* Skip HTML comments (like citation placeholders <!--CITE:key-->) */
         if (*r == '<' && r[1] == '!' && r[2] == '-' && r[3] == '-') {
             /* Find end of comment --> */
@@ -891,67 +1021,20 @@ static char *apex_preprocess_autolinks(const char *text, const apex_options *opt
             if (strncmp(r, "http://", 7) == 0 || strncmp(r, "https://", 8) == 0 || strncmp(r, "mailto:", 7) == 0) {
                 is_url_start = true;
             }
-            /* Check for email address: must start at word boundary and have @ in current token */
-            /* Skip if @ is part of a citation placeholder (<!--CITE:...) or citation syntax [@ */
-            else if ((r == text || isspace((unsigned char)r[-1]) || r[-1] == '(' || r[-1] == '[') &&
-                     !(r > text && r[-1] == '[' && *r == '@')) {  /* Skip [@ which is citation syntax */
-                /* Scan forward to find end of current token */
-                const char *token_end = r;
-                while (*token_end && !isspace((unsigned char)*token_end) && *token_end != '<' && *token_end != '>') {
-                    token_end++;
-                }
-                /* Check if @ exists within this token (not just anywhere in text) */
-                const char *at_pos = r;
-                while (at_pos < token_end && *at_pos != '@') {
-                    at_pos++;
-                }
-                /* If @ found within token, and it's not at start/end, it might be an email */
-                /* Also skip if @ is immediately after [ (citation syntax) */
-                if (at_pos < token_end && at_pos > r && (at_pos + 1) < token_end &&
-                    !(at_pos > text && at_pos[-1] == '[')) {  /* Not [@ */
-                    /* Require that the character immediately before @ is alphanumeric.
-                     * This prevents matching @ in URLs like https://example.com/@user */
-                    if (at_pos > r && isalnum((unsigned char)at_pos[-1])) {
-                        /* Validate that email has a TLD (at least one dot followed by alphanumeric) */
-                        const char *after_at = at_pos + 1;
-                        bool has_tld = false;
-                        while (after_at < token_end) {
-                            if (*after_at == '.' && (after_at + 1) < token_end &&
-                                isalnum((unsigned char)after_at[1])) {
-                                has_tld = true;
-                                break;
-                            }
-                            if (!isalnum((unsigned char)*after_at) && *after_at != '-' && *after_at != '_') {
-                                break;
-                            }
-                            after_at++;
-                        }
-
-                        if (has_tld) {
-                            /* Basic validation passed: has chars before @, @, and TLD after @ */
-                            is_email_start = true;
-                        }
-                    }
-                }
+            /* Check for email address: must start at a word boundary, and not in a citation ([@...]) */
+            else if (is_email_char(*r) && *r != '.' && (r == text || !(is_email_char(r[-1]) || strchr("/:@=%&\\", r[-1])))) {
+                is_email_start = email_end(r) != NULL;
             }
         }
+        /* An escaped URL is text */
+        if (r > text && r[-1] == '\\') is_url_start = false;
 
         if (is_url_start || is_email_start) {
             const char *start = r;
-            /* simple token end: whitespace or angle bracket */
-            const char *end = start;
-            while (*end && !isspace((unsigned char)*end) && *end != '<' && *end != '>') end++;
+            const char *end = is_email_start ? email_end(r) : bare_url_end(r);
             size_t url_len = (size_t)(end - start);
-
-            /* Trim trailing punctuation that should not be part of the link */
-            while (url_len > 0 &&
-                   (start[url_len - 1] == '.' ||
-                    start[url_len - 1] == ',' ||
-                    start[url_len - 1] == ';' ||
-                    start[url_len - 1] == ':')) {
-                url_len--;
-                end--;
-            }
+            /* A scheme alone is no URL */
+            if (is_url_start && url_len <= (size_t)(strchr(start, ':') - start) + 3 && strncmp(start, "http", 4) == 0) url_len = 0;
 
             /* Prepare link and href text */
             const char *link_text = start;
@@ -973,10 +1056,10 @@ static char *apex_preprocess_autolinks(const char *text, const apex_options *opt
                 }
             }
 
-            /* Heuristic: skip if preceded by '(' or '[' (likely already a link) */
+            /* Heuristic: skip if preceded by '](' or '[' (likely already a link) */
             /* Also skip if this is a single '#' at start of line (header marker) */
             if (url_len > 0 &&
-                !(r > text && (r[-1] == '(' || r[-1] == '[')) &&
+                !(r > text && (r[-1] == '[' || (r[-1] == '(' && r - 1 > text && r[-2] == ']'))) &&
                 !(r == text && *r == '#' && (r[1] == ' ' || r[1] == '\t' || r[1] == '\n'))) {
                 size_t needed = 2 + link_text_len + 3 + href_len + 2; /* [text](href) */
                 if ((size_t)(w - out) + needed + 1 > cap) {
-- 
2.43.0


From 9587e016d5e5395f395e4e6896a249c2b916ed1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:49 +0000
Subject: [PATCH 142/180] fix: link and image destinations in <> or with
 escapes, empty ones and Kramdown image titles are garbled

---
 src/extensions/ial.c | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/src/extensions/ial.c b/src/extensions/ial.c
index 14ad18e..1333e4a 100644
--- a/src/extensions/ial.c
+++ b/src/extensions/ial.c
@@ -1720,6 +1720,8 @@ static char *url_encode(const char *url) {
 
     /* Calculate size needed (worst case: 3 chars per byte) */
     size_t len = strlen(url);
+    /* <url> is read by the parser */
+    if (len > 1 && url[0] == '<' && url[len - 1] == '>') return strdup(url);
     size_t capacity = len * 3 + 1;
     char *encoded = malloc(capacity);
     if (!encoded) return NULL;
@@ -1727,6 +1729,12 @@ static char *url_encode(const char *url) {
     char *out = encoded;
     for (const char *p = url; *p; p++) {
         unsigned char c = (unsigned char)*p;
+        /* Backslash escapes are read by the parser, too */
+        if (c == '\\' && ispunct((unsigned char)p[1])) {
+            *out++ = c;
+            *out++ = *++p;
+            continue;
+        }
         /* Unreserved characters (always safe): A-Z, a-z, 0-9, -, _, ., ~ */
         /* Reserved characters that are safe in URL paths: /, :, ?, #, [, ], @, !, $, &, ', (, ), *, +, ,, ;, = */
         /* Also preserve % if it's part of already-encoded content */
@@ -2643,7 +2651,11 @@ char *apex_preprocess_image_attributes(const char *text, image_attr_entry **img_
                 if (*p == ')') {
                     paren_end = p;
                 } else {
-                    /* Malformed - skip just the ! and continue */
+                    /* Malformed - copy just the ! and continue */
+                    if (remaining > 0) {
+                        *write++ = *read;
+                        remaining--;
+                    }
                     read = img_start + 1;
                     continue;
                 }
@@ -2672,6 +2684,8 @@ char *apex_preprocess_image_attributes(const char *text, image_attr_entry **img_
                  * cmark can parse it.
                  */
                 p = url_start;
+                const char *angle_end = *p == '<' ? memchr(p, '>', (size_t)(paren_end - p)) : NULL;
+                if (angle_end) p = angle_end + 1;
                 while (p < paren_end) {
                     if (*p == ' ' || *p == '\t') {
                         /* Found a space - check what follows */
@@ -2714,7 +2728,7 @@ char *apex_preprocess_image_attributes(const char *text, image_attr_entry **img_
                                 if (*after_space == '"' || *after_space == '\'') {
                                     char qc = *after_space;
                                     const char *tail = after_space + 1;
-                                    while (tail < paren_end && *tail != qc) tail++;
+                                    while (tail < paren_end && *tail != qc) tail += *tail == '\\' && tail + 1 < paren_end ? 2 : 1;
                                     if (tail < paren_end) tail++; /* skip closing quote */
                                     while (tail < paren_end && (*tail == ' ' || *tail == '\t')) tail++;
                                     if (tail == paren_end) {
@@ -2757,12 +2771,6 @@ char *apex_preprocess_image_attributes(const char *text, image_attr_entry **img_
                     url_end = paren_end;
                 }
 
-                /* If image attributes disabled and we didn't split on known attributes, treat everything as URL */
-                if (!do_image_attrs && !attr_start) {
-                    attr_start = NULL;
-                    url_end = paren_end;
-                }
-
                 if (url_end && url_end > url_start) {
                     /* Extract URL */
                     size_t url_len = url_end - url_start;
@@ -2980,8 +2988,13 @@ char *apex_preprocess_image_attributes(const char *text, image_attr_entry **img_
                         continue;
                     }
                 } else {
-                    /* Malformed inline image - skip just the ! and continue */
-                    read = img_start + 1;
+                    /* Empty destination - nothing to process */
+                    if (remaining > 0) {
+                        *write++ = *read++;
+                        remaining--;
+                    } else {
+                        read++;
+                    }
                     continue;
                 }
             } else {
-- 
2.43.0


From f8762447945b6165dbaca8f83553e322952d05e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:33 +0000
Subject: [PATCH 143/180] fix: a line break in the info of a code block breaks
 it in Markdown output

---
 src/ast_markdown.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ast_markdown.c b/src/ast_markdown.c
index 4d31f55..240d028 100644
--- a/src/ast_markdown.c
+++ b/src/ast_markdown.c
@@ -577,7 +577,8 @@ static void serialize_block(markdown_buffer *buf, cmark_node *node, apex_markdow
                 if (*p == '\\' || (*p == '&' && (p[1] == '#' || isalpha((unsigned char)p[1])))) {
                     buffer_append_str(buf, "\\");
                 }
-                buffer_append(buf, p, 1);
+                if (*p == '\n' || *p == '\r') append_char_ref(buf, (unsigned char)*p);
+                else buffer_append(buf, p, 1);
             }
             buffer_append_str(buf, "\n");
             buffer_append_str(buf, literal);
-- 
2.43.0


From e552e89d26d60f2423a24c0152421670469cd19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:07 +0000
Subject: [PATCH 144/180] fix: base64 data is not padded

---
 src/apex.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/apex.c b/src/apex.c
index 4d25b52..4a6163f 100644
--- a/src/apex.c
+++ b/src/apex.c
@@ -94,6 +94,7 @@ static char *apex_base64_encode(const unsigned char *data, size_t len) {
     size_t i = 0;
 
     while (i < len) {
+        size_t left = len - i;
         unsigned char byte1 = data[i++];
         unsigned char byte2 = (i < len) ? data[i++] : 0;
         unsigned char byte3 = (i < len) ? data[i++] : 0;
@@ -104,14 +105,14 @@ static char *apex_base64_encode(const unsigned char *data, size_t len) {
         *out++ = base64_chars[(combined >> 12) & 0x3F];
 
         /* Check if we have at least 2 bytes (byte1 and byte2) */
-        if (i >= 2) {
+        if (left >= 2) {
             *out++ = base64_chars[(combined >> 6) & 0x3F];
         } else {
             *out++ = '=';
         }
 
         /* Check if we have all 3 bytes */
-        if (i >= 3) {
+        if (left >= 3) {
             *out++ = base64_chars[combined & 0x3F];
         } else {
             *out++ = '=';
-- 
2.43.0


From 8d75351c1b473f026597f982d74cafe84e863105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:07 +0000
Subject: [PATCH 145/180] fix: the text after an embedded image is cut off

---
 src/apex.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/apex.c b/src/apex.c
index 4a6163f..d0f37a3 100644
--- a/src/apex.c
+++ b/src/apex.c
@@ -404,7 +404,7 @@ static char *apex_embed_images(const char *html, const apex_options *options, co
                             size_t after_url = img_end - url_end;
 
                             /* Calculate new size needed */
-                            size_t new_len = before_src + strlen("src=\"") + strlen(data_url) + 1 + after_url + 1;
+                            size_t new_len = before_src + strlen("src=\"") + strlen(data_url) + 1 + after_url + 1 + strlen(img_end);
                             if (new_len > remaining) {
                                 size_t written = write - output;
                                 cap = (written + new_len + 1) * 2;
@@ -455,7 +455,7 @@ static char *apex_embed_images(const char *html, const apex_options *options, co
 
             /* No replacement, copy tag as-is */
             size_t tag_len = img_end - img_start + 1;
-            if (tag_len > remaining) {
+            if (tag_len >= remaining) {
                 size_t written = write - output;
                 cap = (written + tag_len + 1) * 2;
                 char *new_output = realloc(output, cap);
@@ -473,7 +473,7 @@ static char *apex_embed_images(const char *html, const apex_options *options, co
             read = img_end + 1;
         } else {
             /* Copy character */
-            if (remaining > 0) {
+            if (remaining > 1) {
                 *write++ = *read++;
                 remaining--;
             } else {
-- 
2.43.0


From 5450645a72c26b5ca0a7b923233ed4d6774b7747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:07 +0000
Subject: [PATCH 146/180] fix: images whose names need escapes in URLs are not
 embedded

---
 src/apex.c | 36 +++++++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/src/apex.c b/src/apex.c
index d0f37a3..92c691b 100644
--- a/src/apex.c
+++ b/src/apex.c
@@ -316,6 +316,29 @@ static char *apex_read_and_encode_image(const char *filepath) {
     return encoded;
 }
 
+/* Undo the escapes of a URL in an HTML attribute, in place */
+static void apex_decode_url(char *url) {
+    static const char *const entities[] = {"&amp;", "&#x27;", "&quot;", "&lt;", "&gt;"};
+    char *w = url;
+    for (const char *p = url; *p;) {
+        if (p[0] == '%' && isxdigit((unsigned char)p[1]) && isxdigit((unsigned char)p[2])) {
+            char hex[3] = {p[1], p[2], '\0'};
+            *w++ = (char)strtol(hex, NULL, 16);
+            p += 3;
+            continue;
+        }
+        size_t i = 0;
+        while (i < 5 && strncmp(p, entities[i], strlen(entities[i])) != 0) i++;
+        if (i < 5) {
+            *w++ = "&'\"<>"[i];
+            p += strlen(entities[i]);
+        } else {
+            *w++ = *p++;
+        }
+    }
+    *w = '\0';
+}
+
 /**
  * Embed images as base64 data URLs in HTML
  * Only supports local images - remote images are not embedded
@@ -352,10 +375,11 @@ static char *apex_embed_images(const char *html, const apex_options *options, co
             }
 
             /* Check if already a data URL */
-            const char *src_attr = strstr(img_start, "src=\"");
+            const char *src_attr = strstr(img_start, " src=\"");
             if (!src_attr || src_attr > img_end) {
-                src_attr = strstr(img_start, "src='");
+                src_attr = strstr(img_start, " src='");
             }
+            if (src_attr) src_attr++;
 
             if (src_attr && src_attr < img_end) {
                 const char quote_char = (src_attr[4] == '"') ? '"' : '\'';
@@ -379,9 +403,15 @@ static char *apex_embed_images(const char *html, const apex_options *options, co
 
                         if (!is_data_url && !is_remote && options->embed_images) {
                             /* Local image */
+                            struct stat st;
                             char *resolved_path = apex_resolve_image_path(url, base_directory);
+                            if (resolved_path && stat(resolved_path, &st) != 0) {
+                                /* The name of the file, as it was before it became a URL in HTML */
+                                apex_decode_url(url);
+                                free(resolved_path);
+                                resolved_path = apex_resolve_image_path(url, base_directory);
+                            }
                             if (resolved_path) {
-                                struct stat st;
                                 if (stat(resolved_path, &st) == 0 && S_ISREG(st.st_mode)) {
                                     char *encoded = apex_read_and_encode_image(resolved_path);
                                     if (encoded) {
-- 
2.43.0


From 3029f9c6c587c5481050f06c2867e7f70f78d8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:07 +0000
Subject: [PATCH 147/180] fix: obfuscated e-mail links with entities or
 non-ASCII text are garbled

---
 src/apex.c | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/apex.c b/src/apex.c
index 92c691b..d8dc7ff 100644
--- a/src/apex.c
+++ b/src/apex.c
@@ -57,14 +57,32 @@
  */
 static char *apex_encode_hex_entities(const char *text, size_t len) {
     if (!text || len == 0) return NULL;
-    /* Each char becomes &#xNN; => up to 6 chars */
+    /* Each char becomes &#xNN; => up to 6 chars per byte, &#x10FFFF; for four */
     size_t cap = len * 6 + 1;
     char *out = malloc(cap);
     if (!out) return NULL;
 
     char *w = out;
     for (size_t i = 0; i < len; i++) {
-        int written = snprintf(w, cap - (size_t)(w - out), "&#x%02X;", (unsigned char)text[i]);
+        unsigned char c = (unsigned char)text[i];
+        unsigned code = c;
+        size_t extra = c >= 0xF0 ? 3 : c >= 0xE0 ? 2 : c >= 0xC0 ? 1 : 0;
+        if (c == '&') {
+            /* Character references stay as they are */
+            size_t end = i + 1;
+            while (end < len && (isalnum((unsigned char)text[end]) || text[end] == '#')) end++;
+            if (end < len && end > i + 1 && text[end] == ';') {
+                memcpy(w, text + i, end + 1 - i);
+                w += end + 1 - i;
+                i = end;
+                continue;
+            }
+        } else if (extra && i + extra < len) {
+            code = c & (0x3F >> extra);
+            for (size_t k = 1; k <= extra; k++) code = (code << 6) | ((unsigned char)text[i + k] & 0x3F);
+            i += extra;
+        }
+        int written = snprintf(w, cap - (size_t)(w - out), "&#x%02X;", code);
         if (written <= 0 || (size_t)written >= cap - (size_t)(w - out)) {
             free(out);
             return NULL;
-- 
2.43.0


From 346f469df33ac12a26125648d83a9435fa8b2a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:18 +0000
Subject: [PATCH 148/180] fix: autolinked addresses with * or _ lose them to
 emphasis, and the line of an HTML comment is autolinked

---
 src/apex.c | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/apex.c b/src/apex.c
index d8dc7ff..b51fca9 100644
--- a/src/apex.c
+++ b/src/apex.c
@@ -644,12 +644,21 @@ static const char *link_text_end(const char *p) {
     return NULL;
 }
 
+/* Write an address as the text of a link: its marks of emphasis are escaped. Returns the end. */
+static char *write_link_text(char *w, const char *url, size_t len) {
+    for (size_t i = 0; i < len; i++) {
+        if (url[i] == '*' || url[i] == '_') *w++ = '\\';
+        *w++ = url[i];
+    }
+    return w;
+}
+
 static char *apex_preprocess_autolinks(const char *text, const apex_options *options) {
     if (!text || !options || !options->enable_autolink) return NULL;
 
     size_t len = strlen(text);
     /* Worst case: every character becomes part of a [url](url) */
-    size_t cap = len * 4 + 1;
+    size_t cap = len * 6 + 1;
     char *out = malloc(cap);
     if (!out) return NULL;
 
@@ -931,7 +940,7 @@ static char *apex_preprocess_autolinks(const char *text, const apex_options *opt
                 if ((url_len > 6 && strncmp(start, "http://", 7) == 0) ||
                     (url_len > 7 && strncmp(start, "https://", 8) == 0) ||
                     (url_len > 7 && strncmp(start, "mailto:", 7) == 0)) {
-                    size_t needed = 2 + url_len + 3 + url_len + 2; /* [url](url) */
+                    size_t needed = 2 + 2 * url_len + 3 + url_len + 2; /* [url](url) */
                     if ((size_t)(w - out) + needed + 1 > cap) {
                         size_t used = (size_t)(w - out);
                         cap = (used + needed + 1) * 2;
@@ -941,7 +950,7 @@ static char *apex_preprocess_autolinks(const char *text, const apex_options *opt
                         w = out + used;
                     }
                     *w++ = '[';
-                    memcpy(w, start, url_len); w += url_len;
+                    w = write_link_text(w, start, url_len);
                     *w++ = ']'; *w++ = '(';
                     memcpy(w, start, url_len); w += url_len;
                     *w++ = ')';
@@ -976,7 +985,10 @@ static char *apex_preprocess_autolinks(const char *text, const apex_options *opt
                 }
                 memcpy(w, r, comment_len);
                 w += comment_len;
+                /* A comment that begins a line makes the rest of it raw HTML, but a placeholder does not */
+                bool raw_line = (r == text || r[-1] == '\n') && strncmp(r, "<!--CITE:", 9) != 0 && strncmp(r, "<!--IDX:", 8) != 0;
                 r = comment_end + 3;
+                while (raw_line && *r && *r != '\n') *w++ = *r++;
                 continue;
             }
         }
@@ -1110,7 +1122,7 @@ static char *apex_preprocess_autolinks(const char *text, const apex_options *opt
             if (url_len > 0 &&
                 !(r > text && (r[-1] == '[' || (r[-1] == '(' && r - 1 > text && r[-2] == ']'))) &&
                 !(r == text && *r == '#' && (r[1] == ' ' || r[1] == '\t' || r[1] == '\n'))) {
-                size_t needed = 2 + link_text_len + 3 + href_len + 2; /* [text](href) */
+                size_t needed = 2 + 2 * link_text_len + 3 + href_len + 2; /* [text](href) */
                 if ((size_t)(w - out) + needed + 1 > cap) {
                     size_t used = (size_t)(w - out);
                     cap = (used + needed + 1) * 2;
@@ -1120,7 +1132,7 @@ static char *apex_preprocess_autolinks(const char *text, const apex_options *opt
                     w = out + used;
                 }
                 *w++ = '[';
-                memcpy(w, link_text, link_text_len); w += link_text_len;
+                w = write_link_text(w, link_text, link_text_len);
                 *w++ = ']'; *w++ = '(';
                 memcpy(w, href_text, href_len); w += href_len;
                 *w++ = ')';
-- 
2.43.0


From a3a9019133b664ecc5b7b9d4a3a4229f0f8c80a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:44 +0000
Subject: [PATCH 149/180] fix: ^, ~, == and ++ in addresses and HTML tags are
 taken for markup

---
 src/apex.c | 79 ++++++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 79 insertions(+)

diff --git a/src/apex.c b/src/apex.c
index b51fca9..3bd3c55 100644
--- a/src/apex.c
+++ b/src/apex.c
@@ -1533,6 +1533,81 @@ static char *apex_protect_code(const char *text, apex_code_store *store, bool ht
     return buf.data;
 }
 
+/* End of the address or HTML tag that begins at p, NULL if none does: the destination of
+ * a link, image or definition, an autolink and its text, a tag with its attributes, a comment */
+static const char *address_end(const char *text, const char *p) {
+    bool at_link = p > text + 1 && p[-1] == '(' && p[-2] == ']';
+    bool at_definition = false;
+    if (p > text + 2 && (p[-1] == ' ' || p[-1] == '\t')) {
+        const char *line = p - 1;
+        while (line > text && line[-1] != '\n') line--;
+        line += strspn(line, " ");
+        const char *label = *line == '[' && line[1] != '^' ? strstr(line, "]:") : NULL;
+        at_definition = label && label < p && label + 2 + strspn(label + 2, " \t") == p;
+    }
+    if (at_link || at_definition) {
+        if (*p == '<') {
+            const char *close = p + 1 + strcspn(p + 1, ">\n");
+            if (*close == '>') return close + 1;
+        }
+        int depth = 0;
+        while (*p && !isspace((unsigned char)*p)) {
+            if (*p == '\\' && p[1] && !isspace((unsigned char)p[1])) p++;
+            else if (*p == '(') depth++;
+            else if (*p == ')' && --depth < 0 && at_link) break;
+            p++;
+        }
+        return p;
+    }
+    if (p > text && p[-1] == '[' && (strncmp(p, "http://", 7) == 0 || strncmp(p, "https://", 8) == 0)) {
+        const char *close = strstr(p, "](");
+        return close && close < p + strcspn(p, " \t\n") ? close : NULL;
+    }
+    if (strncmp(p, "<http://", 8) == 0 || strncmp(p, "<https://", 9) == 0) {
+        const char *close = p + strcspn(p, "> \t\n");
+        return *close == '>' ? close + 1 : NULL;
+    }
+    if (strncmp(p, "<!--", 4) == 0) {
+        const char *close = strstr(p, "-->");
+        return close ? close + 3 : NULL;
+    }
+    return html_tag_end(p);
+}
+
+/* Replace the addresses and HTML tags that contain marks of the inline syntaxes by tokens; NULL if there are none */
+static char *apex_protect_addresses(const char *text, apex_code_store *store) {
+    if (!text || store->disabled || !strpbrk(text, "^~=+")) return NULL;
+    if (store->count == 0 && strstr(text, APEX_CODE_TOKEN_MARK)) return NULL;
+
+    apex_text_buffer buf = {0};
+    size_t first_token = store->count;
+    for (const char *p = text; *p && !buf.failed; ) {
+        const char *end = strchr("<", *p) || (p > text && strchr("([ \t", p[-1])) ? address_end(text, p) : NULL;
+        if (end && end > p) {
+            /* Line by line, for the passes that work on lines */
+            for (const char *line; p < end; p = line) {
+                line = p;
+                while (line < end && *line != '\n') line++;
+                size_t marks = 0, len = (size_t)(line - p);
+                while (marks < len && !strchr("^~=+", p[marks])) marks++;
+                if (marks < len) {
+                    add_code_token(&buf, store, p, len);
+                } else {
+                    text_buffer_add(&buf, p, len);
+                }
+                if (line < end) text_buffer_add(&buf, line++, 1);
+            }
+        } else {
+            text_buffer_add(&buf, p++, 1);
+        }
+    }
+    if (buf.failed || store->count == first_token) {
+        free(buf.data);
+        return NULL;
+    }
+    return buf.data;
+}
+
 /* Replace the tokens of apex_protect_code by the code again; NULL if there are none */
 static char *apex_restore_code(const char *text, const apex_code_store *store) {
     if (!text || store->count == 0) return NULL;
@@ -4973,6 +5048,9 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
         }
     }
 
+    char *addresses_protected = apex_protect_addresses(text_ptr, &code_store);
+    if (addresses_protected) text_ptr = addresses_protected;
+
     /* Process ==highlight== syntax before parsing
      * Skip if proofreader mode is enabled (proofreader will handle it via CriticMarkup) */
     char *highlights_processed = NULL;
@@ -6282,6 +6360,7 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
     if (relaxed_tables_processed) free(relaxed_tables_processed);
     free(code_protected);
     free(included_code_protected);
+    free(addresses_protected);
     free(code_restored);
     free(critic_code_protected);
     free(critic_code_restored);
-- 
2.43.0


From 937584068cbb92d9014bc926ffdd2d16a22a62de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:49 +0000
Subject: [PATCH 150/180] fix: parentheses in link and image destinations and
 titles end them, and unclosed ones change the text

---
 src/extensions/ial.c | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/src/extensions/ial.c b/src/extensions/ial.c
index 1333e4a..bc5e42d 100644
--- a/src/extensions/ial.c
+++ b/src/extensions/ial.c
@@ -2583,6 +2583,30 @@ static bool looks_like_attr_key_equals(const char *p, const char *end) {
     return (p > key_start && p < end && *p == '=');
 }
 
+/* End of the part in parentheses of an inline link or image: its closing parenthesis
+ * (not one in <...>, in a title or with an opening one), or the end of the line */
+static const char *find_link_paren(const char *p) {
+    int depth = 0;
+    if (*p == '<') {
+        const char *close = p + strcspn(p, ">\n");
+        if (*close == '>') p = close;
+    }
+    for (; *p && *p != '\n'; p++) {
+        if (*p == '\\' && p[1] && p[1] != '\n') {
+            p++;
+        } else if ((*p == '"' || *p == '\'') && (p[-1] == ' ' || p[-1] == '\t')) {
+            const char *close = p + 1;
+            while (*close && *close != '\n' && *close != *p) close += close[0] == '\\' && close[1] && close[1] != '\n' ? 2 : 1;
+            if (*close == *p) p = close;
+        } else if (*p == '(') {
+            depth++;
+        } else if (*p == ')' && depth-- == 0) {
+            break;
+        }
+    }
+    return p;
+}
+
 /**
  * Preprocess markdown to extract image attributes and URL-encode all link URLs
  */
@@ -2646,8 +2670,7 @@ char *apex_preprocess_image_attributes(const char *text, image_attr_entry **img_
                 const char *paren_end = NULL;
 
                 /* Find the closing paren first */
-                p = url_start;
-                while (*p && *p != ')' && *p != '\n') p++;
+                p = find_link_paren(url_start);
                 if (*p == ')') {
                     paren_end = p;
                 } else {
@@ -3548,16 +3571,18 @@ char *apex_preprocess_image_attributes(const char *text, image_attr_entry **img_
                 const char *paren_end = NULL;
 
                 /* Find the closing paren first */
-                while (*p && *p != ')' && *p != '\n') p++;
+                p = find_link_paren(p);
                 if (*p == ')') {
                     paren_end = p;
                 } else {
-                    paren_end = p; /* End at newline or end of string */
+                    paren_end = url_start; /* Not closed on this line: leave it to the parser */
                 }
 
                 /* Scan forward looking for titles: "title", 'title', or (title) */
                 /* Key insight: (title) has a space before the '(', while URL parentheses don't */
                 p = url_start;
+                const char *link_angle_end = *p == '<' ? memchr(p, '>', (size_t)(paren_end - p)) : NULL;
+                if (link_angle_end) p = link_angle_end + 1;
                 while (p < paren_end) {
                     if (*p == ' ' || *p == '\t') {
                         /* Found a space - check what follows */
-- 
2.43.0


From 7dff7d61c22a2f187766e379a7a101c56ecd0cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:24 +0000
Subject: [PATCH 151/180] fix: spaces in the <destination> of a reference
 definition begin attributes

---
 src/extensions/ial.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/extensions/ial.c b/src/extensions/ial.c
index bc5e42d..7b2d05e 100644
--- a/src/extensions/ial.c
+++ b/src/extensions/ial.c
@@ -3062,6 +3062,8 @@ char *apex_preprocess_image_attributes(const char *text, image_attr_entry **img_
                  * We should stop at whichever comes first (attributes or title)
                  */
                 p = url_start;
+                const char *definition_angle_end = *p == '<' ? memchr(p, '>', (size_t)(line_end - p)) : NULL;
+                if (definition_angle_end) p = definition_angle_end + 1;
                 while (p < line_end) {
                     if (*p == ' ' || *p == '\t') {
                         const char *after_space = p;
-- 
2.43.0


From dfb0589cee531869a72910ebbc6220ae53d4f2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:05 +0000
Subject: [PATCH 152/180] fix: the autolinker reads past the end of a text of
 spaces

---
 src/apex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/apex.c b/src/apex.c
index 3bd3c55..ebf047b 100644
--- a/src/apex.c
+++ b/src/apex.c
@@ -609,7 +609,7 @@ static bool begins_html_block(const char *text, const char *line) {
         "table", "tbody", "td", "tfoot", "th", "thead", "title", "tr", "ul", NULL
     };
     const char *p = line + strspn(line, " ");
-    if (p - line > 3) return false;
+    if (p - line > 3 || *p != '<') return false;
     const char *end = html_tag_end(p);
     const char *name = p + (p[1] == '/' ? 2 : 1);
     size_t len = end ? strcspn(name, " \t\n/>") : 0;
-- 
2.43.0


From 848825b673a1e5ac3b22c0bae45589157333920e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:03 +0000
Subject: [PATCH 153/180] fix: an inline abbreviation without a closing
 parenthesis crashes

---
 src/extensions/abbreviations.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extensions/abbreviations.c b/src/extensions/abbreviations.c
index eda02b0..8888eb9 100644
--- a/src/extensions/abbreviations.c
+++ b/src/extensions/abbreviations.c
@@ -119,7 +119,7 @@ static void process_inline_abbreviations(char *text, abbr_item **abbrs_list) {
             const char *abbr_end = abbr_start + strcspn(abbr_start, ")]\n");
             const char *exp_end = *abbr_end == ')' ? abbr_end + strcspn(abbr_end, "]") : abbr_end;
 
-            if (*exp_end == ']') {
+            if (*abbr_end == ')' && *exp_end == ']') {
                 abbr_item *item = new_abbreviation(abbr_start, (size_t)(abbr_end - abbr_start),
                                                    abbr_end + 1, (size_t)(exp_end - abbr_end - 1));
                 if (item) {
-- 
2.43.0


From 798339c75aac3878e3e909be010bd095fcde0023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:52 +0000
Subject: [PATCH 154/180] fix: CR and CR LF line endings and a missing final
 one change the result

---
 cli/main.c                | 12 ++++++++++++
 src/apex.c                | 32 ++++++++++++++++++++++++++++++++
 src/extensions/includes.c | 12 ++++++++++++
 3 files changed, 56 insertions(+)

diff --git a/cli/main.c b/cli/main.c
index 6e0fcaf..06e6159 100644
--- a/cli/main.c
+++ b/cli/main.c
@@ -3088,6 +3088,18 @@ int main(int argc, char *argv[]) {
         return 1;
     }
 
+    /* CR LF and CR end lines, too */
+    size_t text_len = 0;
+    for (size_t i = 0; i < input_len; i++) {
+        if (markdown[i] != '\r') {
+            markdown[text_len++] = markdown[i];
+        } else if (i + 1 >= input_len || markdown[i + 1] != '\n') {
+            markdown[text_len++] = '\n';
+        }
+    }
+    markdown[text_len] = '\0';
+    input_len = text_len;
+
     /* Load metadata from:
      *   - Global config:   $XDG_CONFIG_HOME/apex/config.yml or ~/.config/apex/config.yml
      *   - Project config:  .apex/config.yml (CWD/base_directory/git root)
diff --git a/src/apex.c b/src/apex.c
index ebf047b..5c80f02 100644
--- a/src/apex.c
+++ b/src/apex.c
@@ -1608,6 +1608,30 @@ static char *apex_protect_addresses(const char *text, apex_code_store *store) {
     return buf.data;
 }
 
+/* Text with CR LF and CR written as LF, and with an LF at its end; NULL if that is so already */
+static char *apex_normalize_line_endings(const char *text) {
+    size_t len = strlen(text);
+    if (len == 0 || (text[len - 1] == '\n' && !strchr(text, '\r'))) return NULL;
+    char *out = malloc(len + 2);
+    if (!out) return NULL;
+    char *w = out;
+    for (const char *p = text; *p; p++) {
+        if (*p == '\r') {
+            if (p[1] == '\n') p++;
+            *w++ = '\n';
+        } else {
+            *w++ = *p;
+        }
+    }
+    /* A single line may be a fragment of text, which is no metadata without the line ending */
+    *w = '\0';
+    if (w[-1] != '\n' && strchr(out, '\n')) {
+        *w++ = '\n';
+        *w = '\0';
+    }
+    return out;
+}
+
 /* Replace the tokens of apex_protect_code by the code again; NULL if there are none */
 static char *apex_restore_code(const char *text, const apex_code_store *store) {
     if (!text || store->count == 0) return NULL;
@@ -4708,6 +4732,14 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
         }
     }
 
+    /* The passes work on lines that end in a line feed, the last one included */
+    char *normalized_text = apex_normalize_line_endings(working_text);
+    if (normalized_text) {
+        free(working_text);
+        working_text = normalized_text;
+        len = strlen(working_text);
+    }
+
     apex_metadata_item *metadata = NULL;
     abbr_item *abbreviations = NULL;
     ald_entry *alds = NULL;
diff --git a/src/extensions/includes.c b/src/extensions/includes.c
index d070caa..0993db9 100644
--- a/src/extensions/includes.c
+++ b/src/extensions/includes.c
@@ -50,6 +50,18 @@ static char *read_file_contents(const char *filepath) {
     content[read] = '\0';
     fclose(fp);
 
+    /* CR LF and CR end lines, too */
+    char *write = content;
+    for (const char *p = content; *p; p++) {
+        if (*p == '\r') {
+            if (p[1] == '\n') continue;
+            *write++ = '\n';
+        } else {
+            *write++ = *p;
+        }
+    }
+    *write = '\0';
+
     return content;
 }
 
-- 
2.43.0


From 9c3d23079665c21e87b248cd5be7bbfc6cea3294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:52 +0000
Subject: [PATCH 155/180] fix: attribute values are not escaped, and long ones
 are cut off

---
 src/extensions/ial.c | 223 ++++++++++++++++---------------------------
 1 file changed, 83 insertions(+), 140 deletions(-)

diff --git a/src/extensions/ial.c b/src/extensions/ial.c
index 7b2d05e..56d2103 100644
--- a/src/extensions/ial.c
+++ b/src/extensions/ial.c
@@ -591,6 +591,58 @@ static bool extract_ial_from_text(const char *text, apex_attributes **attrs_out,
     return *attrs_out != NULL;
 }
 
+/* Text that grows as it is written */
+typedef struct {
+    char *data;
+    size_t len, capacity;
+} attr_buffer;
+
+static void attr_append_len(attr_buffer *buf, const char *str, size_t len) {
+    if (buf->len + len + 1 > buf->capacity) {
+        size_t capacity = (buf->len + len + 1) * 2;
+        char *data = realloc(buf->data, capacity);
+        if (!data) return;
+        buf->data = data;
+        buf->capacity = capacity;
+    }
+    memcpy(buf->data + buf->len, str, len);
+    buf->len += len;
+    buf->data[buf->len] = '\0';
+}
+
+static void attr_append(attr_buffer *buf, const char *str) {
+    attr_append_len(buf, str, strlen(str));
+}
+
+/* Append the value of an attribute, escaped (entities stay as they are) */
+static void attr_append_value(attr_buffer *buf, const char *val) {
+    for (; *val; val++) {
+        if (*val == '"') {
+            attr_append(buf, "&quot;");
+        } else if (*val == '<') {
+            attr_append(buf, "&lt;");
+        } else if (*val == '>') {
+            attr_append(buf, "&gt;");
+        } else if (*val == '&') {
+            const char *end = val + 1 + (val[1] == '#');
+            const char *name = end;
+            while (isalnum((unsigned char)*end)) end++;
+            attr_append(buf, end > name && *end == ';' ? "&" : "&amp;");
+        } else {
+            attr_append_len(buf, val, 1);
+        }
+    }
+}
+
+/* Append key="value", after a space unless it is the first */
+static void attr_append_pair(attr_buffer *buf, const char *key, const char *val) {
+    if (buf->len > 0) attr_append(buf, " ");
+    attr_append(buf, key);
+    attr_append(buf, "=\"");
+    attr_append_value(buf, val);
+    attr_append(buf, "\"");
+}
+
 /**
  * Apply attributes to HTML tag
  * Helper function to generate attribute string
@@ -598,160 +650,61 @@ static bool extract_ial_from_text(const char *text, apex_attributes **attrs_out,
 char *attributes_to_html(apex_attributes *attrs) {
     if (!attrs) return strdup("");
 
-    char buffer[4096];
-    char *p = buffer;
-    size_t remaining = sizeof(buffer);
-
-    #define APPEND(str) do { \
-        size_t len = strlen(str); \
-        if (len < remaining) { \
-            memcpy(p, str, len); \
-            p += len; \
-        remaining -= len; \
-        } \
-    } while(0)
-
-    bool first_attr = true;
+    attr_buffer out = {0};
+    attr_buffer style = {0};
+    attr_append(&out, "");
+    attr_append(&style, "");
 
     /* Add ID */
-    if (attrs->id) {
-        char id_str[512];
-        if (first_attr) {
-            snprintf(id_str, sizeof(id_str), "id=\"%s\"", attrs->id);
-            first_attr = false;
-        } else {
-            snprintf(id_str, sizeof(id_str), " id=\"%s\"", attrs->id);
-        }
-        APPEND(id_str);
-    }
+    if (attrs->id) attr_append_pair(&out, "id", attrs->id);
 
     /* Add classes */
     if (attrs->class_count > 0) {
-        if (first_attr) {
-            APPEND("class=\"");
-            first_attr = false;
-        } else {
-            APPEND(" class=\"");
-        }
+        attr_append(&out, out.len > 0 ? " class=\"" : "class=\"");
         for (int i = 0; i < attrs->class_count; i++) {
-            if (i > 0) APPEND(" ");
-            APPEND(attrs->classes[i]);
+            if (i > 0) attr_append(&out, " ");
+            attr_append_value(&out, attrs->classes[i]);
         }
-        APPEND("\"");
+        attr_append(&out, "\"");
     }
 
-    /* Check for existing style attribute to merge with */
-    const char *existing_style = NULL;
+    /* Start the style with an existing style attribute */
     for (int i = 0; i < attrs->attr_count; i++) {
         if (strcmp(attrs->keys[i], "style") == 0) {
-            existing_style = attrs->values[i];
+            attr_append(&style, attrs->values[i]);
             break;
         }
     }
 
-    /* Build style string for width/height that need to be in style */
-    char style_buffer[1024] = {0};
-    bool has_style = false;
-
-    /* Start with existing style if present */
-    if (existing_style && *existing_style) {
-        strncpy(style_buffer, existing_style, sizeof(style_buffer) - 1);
-        style_buffer[sizeof(style_buffer) - 1] = '\0';
-        has_style = true;
-    }
-
     /* Process width and height attributes */
     for (int i = 0; i < attrs->attr_count; i++) {
         const char *key = attrs->keys[i];
         const char *val = attrs->values[i];
-
-        /* Skip style attribute - we'll handle it separately */
-        if (strcmp(key, "style") == 0) {
-            continue;
-        }
-
-        if (strcmp(key, "width") == 0 || strcmp(key, "height") == 0) {
-            size_t val_len = strlen(val);
-            bool is_px = (val_len >= 2 && val[val_len - 2] == 'p' && val[val_len - 1] == 'x');
-            bool is_percent = (val_len >= 1 && val[val_len - 1] == '%');
-            bool is_integer = true;
-            bool is_decimal_px = false;
-
-            /* Check if it's a bare integer or integer pixel value */
-            if (is_px) {
-                /* Check if the part before 'px' is a pure integer (no decimal) */
-                for (size_t j = 0; j < val_len - 2; j++) {
-                    if (val[j] == '.' || val[j] == ',') {
-                        is_decimal_px = true;
-                        is_integer = false;
-                        break;
-                    }
-                    if (!isdigit((unsigned char)val[j])) {
-                        is_integer = false;
-                        break;
-                    }
-                }
-            } else if (is_percent) {
-                is_integer = false;
-            } else {
-                /* Check if all characters are digits */
-                for (const char *c = val; *c; c++) {
-                    if (!isdigit((unsigned char)*c)) {
-                        is_integer = false;
-                        break;
-                    }
-                }
-            }
-
-            if (is_px && !is_decimal_px && is_integer) {
-                /* Convert integer Xpx to integer X for width/height attributes */
-                char int_val[64];
-                snprintf(int_val, sizeof(int_val), "%.*s", (int)(val_len - 2), val);
-
-                char attr_str[1024];
-                if (first_attr) {
-                    snprintf(attr_str, sizeof(attr_str), "%s=\"%s\"", key, int_val);
-                    first_attr = false;
-                } else {
-                    snprintf(attr_str, sizeof(attr_str), " %s=\"%s\"", key, int_val);
-                }
-                APPEND(attr_str);
-            } else if (is_integer && !is_px && !is_percent) {
-                /* Bare integer - use as width/height attribute */
-                char attr_str[1024];
-                if (first_attr) {
-                    snprintf(attr_str, sizeof(attr_str), "%s=\"%s\"", key, val);
-                    first_attr = false;
-                } else {
-                    snprintf(attr_str, sizeof(attr_str), " %s=\"%s\"", key, val);
-                }
-                APPEND(attr_str);
-            } else {
-                /* Percentage, decimal pixel, or other non-integer - add to style */
-                size_t style_len = strlen(style_buffer);
-                snprintf(style_buffer + style_len, sizeof(style_buffer) - style_len,
-                         "%s%s: %s", has_style ? "; " : "", key, val);
-                has_style = true;
-            }
+        if (strcmp(key, "width") != 0 && strcmp(key, "height") != 0) continue;
+
+        size_t val_len = strlen(val);
+        bool is_px = (val_len >= 2 && val[val_len - 2] == 'p' && val[val_len - 1] == 'x');
+        size_t digits = strspn(val, "0123456789");
+        if (digits == (is_px ? val_len - 2 : val_len)) {
+            /* An integer, with or without px, is a width/height attribute */
+            char *int_val = strndup(val, digits);
+            attr_append_pair(&out, key, int_val ? int_val : "");
+            free(int_val);
+        } else {
+            /* Percentage, decimal pixel, or other non-integer - add to style */
+            if (style.len > 0) attr_append(&style, "; ");
+            attr_append(&style, key);
+            attr_append(&style, ": ");
+            attr_append(&style, val);
         }
     }
 
     /* Add style attribute if we have width/height in style or existing style */
-    if (has_style) {
-        char style_str[1024];
-        if (first_attr) {
-            snprintf(style_str, sizeof(style_str), "style=\"%s\"", style_buffer);
-            first_attr = false;
-        } else {
-            snprintf(style_str, sizeof(style_str), " style=\"%s\"", style_buffer);
-        }
-        APPEND(style_str);
-    }
+    if (style.len > 0) attr_append_pair(&out, "style", style.data);
 
     /* Add other attributes (excluding width/height/style and internal srcset markers) */
     for (int i = 0; i < attrs->attr_count; i++) {
         const char *key = attrs->keys[i];
-        const char *val = attrs->values[i];
 
         /* Skip width, height, style - we already processed them */
         if (strcmp(key, "width") == 0 || strcmp(key, "height") == 0 || strcmp(key, "style") == 0) {
@@ -773,21 +726,11 @@ char *attributes_to_html(apex_attributes *attrs) {
             strcmp(key, "data-apex-auto") == 0) {
             continue;
         }
-
-        char attr_str[1024];
-        if (first_attr) {
-            snprintf(attr_str, sizeof(attr_str), "%s=\"%s\"", key, val);
-            first_attr = false;
-        } else {
-            snprintf(attr_str, sizeof(attr_str), " %s=\"%s\"", key, val);
-        }
-        APPEND(attr_str);
+        attr_append_pair(&out, key, attrs->values[i]);
     }
 
-    #undef APPEND
-
-    *p = '\0';
-    return strdup(buffer);
+    free(style.data);
+    return out.data ? out.data : strdup("");
 }
 
 /**
-- 
2.43.0


From e684bc7b4a3e736016e9896c4a722833e3006362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:52 +0000
Subject: [PATCH 156/180] fix: white space in scripts, comments and attribute
 values is changed

---
 src/html_renderer.c | 56 +++++++++++++++++++++++++++++++++++++++------
 1 file changed, 49 insertions(+), 7 deletions(-)

diff --git a/src/html_renderer.c b/src/html_renderer.c
index da5dffa..7266039 100644
--- a/src/html_renderer.c
+++ b/src/html_renderer.c
@@ -1446,6 +1446,30 @@ char *apex_inject_header_ids(const char *html, cmark_node *document, bool genera
     return output;
 }
 
+/**
+ * End of the element or comment at html whose content must be kept as it is
+ * (scripts, styles, preformatted text and comments), or NULL if none starts here.
+ */
+static const char *verbatim_html_end(const char *html) {
+    static const char *names[] = {"pre", "script", "style", "textarea", NULL};
+    if (strncmp(html, "<!--", 4) == 0) {
+        const char *end = strstr(html + 4, "-->");
+        return end ? end + 3 : html + strlen(html);
+    }
+    for (int i = 0; names[i]; i++) {
+        size_t n = strlen(names[i]);
+        if (strncasecmp(html + 1, names[i], n) != 0 ||
+            (html[n + 1] != '>' && !isspace((unsigned char)html[n + 1]))) {
+            continue;
+        }
+        for (const char *p = html + n + 1; *p; p++) {
+            if (p[0] == '<' && p[1] == '/' && strncasecmp(p + 2, names[i], n) == 0) return p;
+        }
+        return html + strlen(html);
+    }
+    return NULL;
+}
+
 /**
  * Clean up HTML tag spacing
  * - Compresses multiple spaces in tags to single spaces
@@ -1462,9 +1486,27 @@ char *apex_clean_html_tag_spacing(const char *html) {
     char *write = output;
     bool in_tag = false;
     bool last_was_space = false;
+    char quote = 0;                     /* Quote of the attribute value being copied */
 
     while (*read) {
-        if (*read == '<' && (read[1] != '/' && read[1] != '!' && read[1] != '?')) {
+        const char *verbatim = *read == '<' && !quote ? verbatim_html_end(read) : NULL;
+        if (verbatim) {
+            memcpy(write, read, (size_t)(verbatim - read));
+            write += verbatim - read;
+            read = verbatim;
+            in_tag = false;
+            quote = 0;
+            last_was_space = false;
+        } else if (in_tag && quote) {
+            /* Attribute values stay as they are */
+            if (*read == quote) quote = 0;
+            *write++ = *read++;
+        } else if (in_tag && (*read == '"' || *read == '\'') && read > html && read[-1] == '=' &&
+                   strchr(read + 1, *read)) {
+            quote = *read;
+            last_was_space = false;
+            *write++ = *read++;
+        } else if (*read == '<' && isalpha((unsigned char)read[1])) {
             /* Entering a tag */
             in_tag = true;
             last_was_space = false;
@@ -1526,12 +1568,12 @@ char *apex_collapse_intertag_newlines(const char *html) {
     char *write = output;
 
     while (*read) {
-        /* Whitespace is content inside <pre>: copy such elements as they are */
-        if (*read == '<' && strncasecmp(read, "<pre", 4) == 0 &&
-            (read[4] == '>' || isspace((unsigned char)read[4]))) {
-            while (*read && strncasecmp(read, "</pre", 5) != 0) {
-                *write++ = *read++;
-            }
+        /* Whitespace is content inside <pre>, scripts and comments: copy such elements as they are */
+        const char *verbatim = *read == '<' ? verbatim_html_end(read) : NULL;
+        if (verbatim) {
+            memcpy(write, read, (size_t)(verbatim - read));
+            write += verbatim - read;
+            read = verbatim;
             continue;
         }
         if (*read == '>') {
-- 
2.43.0


From ded52470608926fc2167f476bbdc2a07328d2885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:53 +0000
Subject: [PATCH 157/180] fix: output that cannot be written is not reported

---
 cli/main.c | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/cli/main.c b/cli/main.c
index 06e6159..fdcb61a 100644
--- a/cli/main.c
+++ b/cli/main.c
@@ -2983,8 +2983,9 @@ int main(int argc, char *argv[]) {
             }
         }
 
-        if (out != stdout) {
-            fclose(out);
+        if ((out != stdout ? fclose(out) : fflush(out)) != 0) {
+            fprintf(stderr, "Error: Cannot write output\n");
+            rc = 1;
         }
         return rc;
     }
@@ -3035,8 +3036,9 @@ int main(int argc, char *argv[]) {
             free(path_copy);
         }
 
-        if (out != stdout) {
-            fclose(out);
+        if ((out != stdout ? fclose(out) : fflush(out)) != 0) {
+            fprintf(stderr, "Error: Cannot write output\n");
+            rc = 1;
         }
         return rc;
     }
@@ -3714,12 +3716,19 @@ int main(int argc, char *argv[]) {
             return 1;
         }
         size_t html_len = strlen(html);
-        fwrite(html, 1, html_len, fp);
-        fclose(fp);
+        bool written = fwrite(html, 1, html_len, fp) == html_len;
+        if (fclose(fp) != 0 || !written) {
+            fprintf(stderr, "Error: Cannot write output file '%s'\n", output_file);
+            apex_free_string(html);
+            return 1;
+        }
     } else {
         size_t html_len = strlen(html);
-        fwrite(html, 1, html_len, stdout);
-        /* Don't fflush - let the system buffer for better performance */
+        if (fwrite(html, 1, html_len, stdout) != html_len || fflush(stdout) != 0) {
+            fprintf(stderr, "Error: Cannot write output\n");
+            apex_free_string(html);
+            return 1;
+        }
     }
     PROFILE_END(file_write);
 
-- 
2.43.0


From 202e4c5bfc0928f050d63b7971b03b5828d26ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:53 +0000
Subject: [PATCH 158/180] fix: flags before --mode are ignored

---
 cli/main.c | 42 ++++++++++++++++++++++++++++++------------
 1 file changed, 30 insertions(+), 12 deletions(-)

diff --git a/cli/main.c b/cli/main.c
index fdcb61a..560e59d 100644
--- a/cli/main.c
+++ b/cli/main.c
@@ -1408,6 +1408,24 @@ static apex_metadata_item *merge_metadata3(apex_metadata_item *a, apex_metadata_
     return abc;
 }
 
+/* Mode for the argument of --mode */
+static bool parse_mode_name(const char *name, apex_mode_t *mode) {
+    if (strcmp(name, "commonmark") == 0) {
+        *mode = APEX_MODE_COMMONMARK;
+    } else if (strcmp(name, "gfm") == 0) {
+        *mode = APEX_MODE_GFM;
+    } else if (strcmp(name, "mmd") == 0 || strcmp(name, "multimarkdown") == 0) {
+        *mode = APEX_MODE_MULTIMARKDOWN;
+    } else if (strcmp(name, "kramdown") == 0) {
+        *mode = APEX_MODE_KRAMDOWN;
+    } else if (strcmp(name, "unified") == 0) {
+        *mode = APEX_MODE_UNIFIED;
+    } else {
+        return false;
+    }
+    return true;
+}
+
 int main(int argc, char *argv[]) {
     /* Initialize progress reporting */
     init_progress();
@@ -1473,6 +1491,15 @@ int main(int argc, char *argv[]) {
     /* Optional fixed-width wrapping for terminal output */
     int width_override = 0;
 
+    /* A mode sets the defaults of all other options, wherever it stands among them */
+    for (int i = 1; i + 1 < argc; i++) {
+        apex_mode_t mode;
+        if ((strcmp(argv[i], "-m") == 0 || strcmp(argv[i], "--mode") == 0) && parse_mode_name(argv[i + 1], &mode)) {
+            options = apex_options_for_mode(mode);
+            mode_cli_override = true;
+        }
+    }
+
     /* Parse command-line arguments */
     for (int i = 1; i < argc; i++) {
         if (strcmp(argv[i], "-h") == 0 || strcmp(argv[i], "--help") == 0) {
@@ -1486,21 +1513,12 @@ int main(int argc, char *argv[]) {
                 fprintf(stderr, "Error: --mode requires an argument\n");
                 return 1;
             }
-            if (strcmp(argv[i], "commonmark") == 0) {
-                options = apex_options_for_mode(APEX_MODE_COMMONMARK);
-            } else if (strcmp(argv[i], "gfm") == 0) {
-                options = apex_options_for_mode(APEX_MODE_GFM);
-            } else if (strcmp(argv[i], "mmd") == 0 || strcmp(argv[i], "multimarkdown") == 0) {
-                options = apex_options_for_mode(APEX_MODE_MULTIMARKDOWN);
-            } else if (strcmp(argv[i], "kramdown") == 0) {
-                options = apex_options_for_mode(APEX_MODE_KRAMDOWN);
-            } else if (strcmp(argv[i], "unified") == 0) {
-                options = apex_options_for_mode(APEX_MODE_UNIFIED);
-            } else {
+            /* Valid modes were applied before this loop */
+            apex_mode_t mode;
+            if (!parse_mode_name(argv[i], &mode)) {
                 fprintf(stderr, "Error: Unknown mode '%s'\n", argv[i]);
                 return 1;
             }
-            mode_cli_override = true;
         } else if (strcmp(argv[i], "-t") == 0 || strcmp(argv[i], "--to") == 0) {
             if (++i >= argc) {
                 fprintf(stderr, "Error: --to requires an argument\n");
-- 
2.43.0


From e6570759ab479f907f073ee2b5db757e2d7e4fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:53 +0000
Subject: [PATCH 159/180] fix: flags that ask for a default do not win over
 metadata

---
 cli/main.c | 238 ++++++++++++++++++++++++++++-------------------------
 1 file changed, 124 insertions(+), 114 deletions(-)

diff --git a/cli/main.c b/cli/main.c
index 560e59d..a821df0 100644
--- a/cli/main.c
+++ b/cli/main.c
@@ -1500,6 +1500,11 @@ int main(int argc, char *argv[]) {
         }
     }
 
+    /* Options given on the command line, which win over metadata (fields with bits set) */
+    apex_options given;
+    memset(&given, 0, sizeof(given));
+#define SET_OPTION(field, value) do { options.field = (value); memset(&given.field, 0xff, sizeof(given.field)); } while (0)
+
     /* Parse command-line arguments */
     for (int i = 1; i < argc; i++) {
         if (strcmp(argv[i], "-h") == 0 || strcmp(argv[i], "--help") == 0) {
@@ -1525,29 +1530,29 @@ int main(int argc, char *argv[]) {
                 return 1;
             }
             if (strcmp(argv[i], "html") == 0) {
-                options.output_format = APEX_OUTPUT_HTML;
+                SET_OPTION(output_format, APEX_OUTPUT_HTML);
             } else if (strcmp(argv[i], "json") == 0) {
-                options.output_format = APEX_OUTPUT_JSON;
+                SET_OPTION(output_format, APEX_OUTPUT_JSON);
             } else if (strcmp(argv[i], "json-filtered") == 0 || strcmp(argv[i], "ast-json") == 0 || strcmp(argv[i], "ast") == 0) {
-                options.output_format = APEX_OUTPUT_JSON_FILTERED;
+                SET_OPTION(output_format, APEX_OUTPUT_JSON_FILTERED);
             } else if (strcmp(argv[i], "markdown") == 0 || strcmp(argv[i], "md") == 0) {
-                options.output_format = APEX_OUTPUT_MARKDOWN;
+                SET_OPTION(output_format, APEX_OUTPUT_MARKDOWN);
             } else if (strcmp(argv[i], "mmd") == 0) {
-                options.output_format = APEX_OUTPUT_MMD;
+                SET_OPTION(output_format, APEX_OUTPUT_MMD);
             } else if (strcmp(argv[i], "commonmark") == 0 || strcmp(argv[i], "cmark") == 0) {
-                options.output_format = APEX_OUTPUT_COMMONMARK;
+                SET_OPTION(output_format, APEX_OUTPUT_COMMONMARK);
             } else if (strcmp(argv[i], "kramdown") == 0) {
-                options.output_format = APEX_OUTPUT_KRAMDOWN;
+                SET_OPTION(output_format, APEX_OUTPUT_KRAMDOWN);
             } else if (strcmp(argv[i], "gfm") == 0) {
-                options.output_format = APEX_OUTPUT_GFM;
+                SET_OPTION(output_format, APEX_OUTPUT_GFM);
             } else if (strcmp(argv[i], "terminal") == 0 || strcmp(argv[i], "cli") == 0) {
-                options.output_format = APEX_OUTPUT_TERMINAL;
+                SET_OPTION(output_format, APEX_OUTPUT_TERMINAL);
             } else if (strcmp(argv[i], "terminal256") == 0) {
-                options.output_format = APEX_OUTPUT_TERMINAL256;
+                SET_OPTION(output_format, APEX_OUTPUT_TERMINAL256);
             } else if (strcmp(argv[i], "man") == 0) {
-                options.output_format = APEX_OUTPUT_MAN;
+                SET_OPTION(output_format, APEX_OUTPUT_MAN);
             } else if (strcmp(argv[i], "man-html") == 0) {
-                options.output_format = APEX_OUTPUT_MAN_HTML;
+                SET_OPTION(output_format, APEX_OUTPUT_MAN_HTML);
             } else {
                 fprintf(stderr, "Error: Unknown output format '%s'\n", argv[i]);
                 fprintf(stderr, "Supported formats: html, json, json-filtered/ast-json/ast, markdown/md, mmd, commonmark/cmark, kramdown, gfm, terminal/cli, terminal256, man, man-html\n");
@@ -1558,7 +1563,7 @@ int main(int argc, char *argv[]) {
                 fprintf(stderr, "Error: --theme requires a name argument\n");
                 return 1;
             }
-            options.theme_name = argv[i];
+            SET_OPTION(theme_name, argv[i]);
         } else if (strcmp(argv[i], "--width") == 0) {
             if (++i >= argc) {
                 fprintf(stderr, "Error: --width requires a column width argument\n");
@@ -1575,11 +1580,11 @@ int main(int argc, char *argv[]) {
             }
             output_file = argv[i];
         } else if (strcmp(argv[i], "--plugins") == 0) {
-            options.enable_plugins = true;
+            SET_OPTION(enable_plugins, true);
             plugins_cli_override = true;
             plugins_cli_value = true;
         } else if (strcmp(argv[i], "--no-plugins") == 0) {
-            options.enable_plugins = false;
+            SET_OPTION(enable_plugins, false);
             plugins_cli_override = true;
             plugins_cli_value = false;
         } else if (strcmp(argv[i], "--list-plugins") == 0) {
@@ -1660,27 +1665,27 @@ int main(int argc, char *argv[]) {
             }
             uninstall_plugin_id = argv[i];
         } else if (strcmp(argv[i], "--no-tables") == 0) {
-            options.enable_tables = false;
+            SET_OPTION(enable_tables, false);
         } else if (strcmp(argv[i], "--no-footnotes") == 0) {
-            options.enable_footnotes = false;
+            SET_OPTION(enable_footnotes, false);
         } else if (strcmp(argv[i], "--no-smart") == 0) {
-            options.enable_smart_typography = false;
+            SET_OPTION(enable_smart_typography, false);
         } else if (strcmp(argv[i], "--no-math") == 0) {
-            options.enable_math = false;
+            SET_OPTION(enable_math, false);
         } else if (strcmp(argv[i], "--includes") == 0) {
-            options.enable_file_includes = true;
+            SET_OPTION(enable_file_includes, true);
         } else if (strcmp(argv[i], "--no-includes") == 0) {
-            options.enable_file_includes = false;
+            SET_OPTION(enable_file_includes, false);
         } else if (strcmp(argv[i], "--hardbreaks") == 0) {
-            options.hardbreaks = true;
+            SET_OPTION(hardbreaks, true);
         } else if (strcmp(argv[i], "-s") == 0 || strcmp(argv[i], "--standalone") == 0) {
-            options.standalone = true;
+            SET_OPTION(standalone, true);
         } else if (strcmp(argv[i], "--css") == 0 || strcmp(argv[i], "--style") == 0) {
             if (++i >= argc) {
                 fprintf(stderr, "Error: %s requires an argument\n", argv[i-1]);
                 return 1;
             }
-            options.standalone = true;  /* Imply standalone if CSS is specified */
+            SET_OPTION(standalone, true);  /* Imply standalone if CSS is specified */
 
             /* Parse comma-separated stylesheet paths */
             const char *arg = argv[i];
@@ -1744,7 +1749,7 @@ int main(int argc, char *argv[]) {
                 }
             }
         } else if (strcmp(argv[i], "--embed-css") == 0) {
-            options.embed_stylesheet = true;
+            SET_OPTION(embed_stylesheet, true);
         } else if (strcmp(argv[i], "--script") == 0) {
             if (++i >= argc) {
                 fprintf(stderr, "Error: --script requires an argument\n");
@@ -1855,51 +1860,51 @@ int main(int argc, char *argv[]) {
                 fprintf(stderr, "Error: --title requires an argument\n");
                 return 1;
             }
-            options.document_title = argv[i];
+            SET_OPTION(document_title, argv[i]);
         } else if (strcmp(argv[i], "--pretty") == 0) {
-            options.pretty = true;
+            SET_OPTION(pretty, true);
         } else if (strcmp(argv[i], "--accept") == 0) {
-            options.enable_critic_markup = true;
-            options.critic_mode = 0;  /* CRITIC_ACCEPT */
+            SET_OPTION(enable_critic_markup, true);
+            SET_OPTION(critic_mode, 0);  /* CRITIC_ACCEPT */
         } else if (strcmp(argv[i], "--reject") == 0) {
-            options.enable_critic_markup = true;
-            options.critic_mode = 1;  /* CRITIC_REJECT */
+            SET_OPTION(enable_critic_markup, true);
+            SET_OPTION(critic_mode, 1);  /* CRITIC_REJECT */
         } else if (strcmp(argv[i], "--id-format") == 0) {
             if (++i >= argc) {
                 fprintf(stderr, "Error: --id-format requires an argument (gfm, mmd, or kramdown)\n");
                 return 1;
             }
             if (strcmp(argv[i], "gfm") == 0) {
-                options.id_format = 0;  /* GFM format */
+                SET_OPTION(id_format, 0);  /* GFM format */
             } else if (strcmp(argv[i], "mmd") == 0) {
-                options.id_format = 1;  /* MMD format */
+                SET_OPTION(id_format, 1);  /* MMD format */
             } else if (strcmp(argv[i], "kramdown") == 0) {
-                options.id_format = 2;  /* Kramdown format */
+                SET_OPTION(id_format, 2);  /* Kramdown format */
             } else {
                 fprintf(stderr, "Error: --id-format must be 'gfm', 'mmd', or 'kramdown'\n");
                 return 1;
             }
         } else if (strcmp(argv[i], "--no-ids") == 0) {
-            options.generate_header_ids = false;
+            SET_OPTION(generate_header_ids, false);
         } else if (strcmp(argv[i], "--header-anchors") == 0) {
-            options.header_anchors = true;
+            SET_OPTION(header_anchors, true);
         } else if (strcmp(argv[i], "--relaxed-tables") == 0) {
-            options.relaxed_tables = true;
+            SET_OPTION(relaxed_tables, true);
         } else if (strcmp(argv[i], "--no-relaxed-tables") == 0) {
-            options.relaxed_tables = false;
+            SET_OPTION(relaxed_tables, false);
         } else if (strcmp(argv[i], "--per-cell-alignment") == 0) {
-            options.per_cell_alignment = true;
+            SET_OPTION(per_cell_alignment, true);
         } else if (strcmp(argv[i], "--no-per-cell-alignment") == 0) {
-            options.per_cell_alignment = false;
+            SET_OPTION(per_cell_alignment, false);
         } else if (strcmp(argv[i], "--captions") == 0) {
             if (++i >= argc) {
                 fprintf(stderr, "Error: --captions requires an argument (above or below)\n");
                 return 1;
             }
             if (strcmp(argv[i], "above") == 0) {
-                options.caption_position = 0;
+                SET_OPTION(caption_position, 0);
             } else if (strcmp(argv[i], "below") == 0) {
-                options.caption_position = 1;
+                SET_OPTION(caption_position, 1);
             } else {
                 fprintf(stderr, "Error: --captions must be 'above' or 'below'\n");
                 return 1;
@@ -1911,107 +1916,107 @@ int main(int argc, char *argv[]) {
             }
             /* Accept full names and abbreviations */
             if (strcmp(argv[i], "pygments") == 0 || strcmp(argv[i], "p") == 0 || strcmp(argv[i], "pyg") == 0) {
-                options.code_highlighter = "pygments";
+                SET_OPTION(code_highlighter, "pygments");
             } else if (strcmp(argv[i], "skylighting") == 0 || strcmp(argv[i], "s") == 0 || strcmp(argv[i], "sky") == 0) {
-                options.code_highlighter = "skylighting";
+                SET_OPTION(code_highlighter, "skylighting");
             } else if (strcmp(argv[i], "shiki") == 0 || strcmp(argv[i], "sh") == 0) {
-                options.code_highlighter = "shiki";
+                SET_OPTION(code_highlighter, "shiki");
             } else {
                 fprintf(stderr, "Error: --code-highlight tool must be 'pygments' (p), 'skylighting' (s), or 'shiki' (sh)\n");
                 return 1;
             }
         } else if (strcmp(argv[i], "--code-line-numbers") == 0) {
-            options.code_line_numbers = true;
+            SET_OPTION(code_line_numbers, true);
         } else if (strcmp(argv[i], "--highlight-language-only") == 0) {
-            options.highlight_language_only = true;
+            SET_OPTION(highlight_language_only, true);
         } else if (strcmp(argv[i], "--alpha-lists") == 0) {
-            options.allow_alpha_lists = true;
+            SET_OPTION(allow_alpha_lists, true);
         } else if (strcmp(argv[i], "--no-alpha-lists") == 0) {
-            options.allow_alpha_lists = false;
+            SET_OPTION(allow_alpha_lists, false);
         } else if (strcmp(argv[i], "--mixed-lists") == 0) {
-            options.allow_mixed_list_markers = true;
+            SET_OPTION(allow_mixed_list_markers, true);
         } else if (strcmp(argv[i], "--no-mixed-lists") == 0) {
-            options.allow_mixed_list_markers = false;
+            SET_OPTION(allow_mixed_list_markers, false);
         } else if (strcmp(argv[i], "--unsafe") == 0) {
-            options.unsafe = true;
+            SET_OPTION(unsafe, true);
         } else if (strcmp(argv[i], "--no-unsafe") == 0) {
-            options.unsafe = false;
+            SET_OPTION(unsafe, false);
         } else if (strcmp(argv[i], "--sup-sub") == 0) {
-            options.enable_sup_sub = true;
+            SET_OPTION(enable_sup_sub, true);
         } else if (strcmp(argv[i], "--no-sup-sub") == 0) {
-            options.enable_sup_sub = false;
+            SET_OPTION(enable_sup_sub, false);
         } else if (strcmp(argv[i], "--divs") == 0) {
-            options.enable_divs = true;
+            SET_OPTION(enable_divs, true);
         } else if (strcmp(argv[i], "--no-divs") == 0) {
-            options.enable_divs = false;
+            SET_OPTION(enable_divs, false);
         } else if (strcmp(argv[i], "--spans") == 0) {
-            options.enable_spans = true;
+            SET_OPTION(enable_spans, true);
         } else if (strcmp(argv[i], "--no-spans") == 0) {
-            options.enable_spans = false;
+            SET_OPTION(enable_spans, false);
         } else if (strcmp(argv[i], "--autolink") == 0) {
-            options.enable_autolink = true;
+            SET_OPTION(enable_autolink, true);
         } else if (strcmp(argv[i], "--no-autolink") == 0) {
-            options.enable_autolink = false;
+            SET_OPTION(enable_autolink, false);
         } else if (strcmp(argv[i], "--strikethrough") == 0) {
-            options.enable_strikethrough = true;
+            SET_OPTION(enable_strikethrough, true);
         } else if (strcmp(argv[i], "--no-strikethrough") == 0) {
-            options.enable_strikethrough = false;
+            SET_OPTION(enable_strikethrough, false);
         } else if (strcmp(argv[i], "--obfuscate-emails") == 0) {
-            options.obfuscate_emails = true;
+            SET_OPTION(obfuscate_emails, true);
         } else if (strcmp(argv[i], "--progress") == 0) {
             progress_enabled = true;
         } else if (strcmp(argv[i], "--no-progress") == 0) {
             progress_enabled = false;
         } else if (strcmp(argv[i], "--aria") == 0) {
-            options.enable_aria = true;
+            SET_OPTION(enable_aria, true);
         } else if (strcmp(argv[i], "--no-plugins") == 0) {
-            options.enable_plugins = false;
+            SET_OPTION(enable_plugins, false);
         } else if (strcmp(argv[i], "--wikilinks") == 0) {
-            options.enable_wiki_links = true;
+            SET_OPTION(enable_wiki_links, true);
         } else if (strcmp(argv[i], "--no-wikilinks") == 0) {
-            options.enable_wiki_links = false;
+            SET_OPTION(enable_wiki_links, false);
         } else if (strcmp(argv[i], "--emoji-autocorrect") == 0) {
-            options.enable_emoji_autocorrect = true;
+            SET_OPTION(enable_emoji_autocorrect, true);
         } else if (strcmp(argv[i], "--no-emoji-autocorrect") == 0) {
-            options.enable_emoji_autocorrect = false;
+            SET_OPTION(enable_emoji_autocorrect, false);
         } else if (strcmp(argv[i], "--widont") == 0) {
-            options.enable_widont = true;
+            SET_OPTION(enable_widont, true);
         } else if (strcmp(argv[i], "--code-is-poetry") == 0) {
-            options.code_is_poetry = true;
-            options.highlight_language_only = true;
+            SET_OPTION(code_is_poetry, true);
+            SET_OPTION(highlight_language_only, true);
         } else if (strcmp(argv[i], "--markdown-in-html") == 0) {
-            options.enable_markdown_in_html = true;
+            SET_OPTION(enable_markdown_in_html, true);
         } else if (strcmp(argv[i], "--no-markdown-in-html") == 0) {
-            options.enable_markdown_in_html = false;
+            SET_OPTION(enable_markdown_in_html, false);
         } else if (strcmp(argv[i], "--random-footnote-ids") == 0) {
-            options.random_footnote_ids = true;
+            SET_OPTION(random_footnote_ids, true);
         } else if (strcmp(argv[i], "--hashtags") == 0) {
-            options.enable_hashtags = true;
+            SET_OPTION(enable_hashtags, true);
         } else if (strcmp(argv[i], "--style-hashtags") == 0) {
-            options.style_hashtags = true;
+            SET_OPTION(style_hashtags, true);
         } else if (strcmp(argv[i], "--proofreader") == 0) {
-            options.proofreader_mode = true;
-            options.enable_critic_markup = true;
-            options.critic_mode = 2;  /* Ensure markup mode */
+            SET_OPTION(proofreader_mode, true);
+            SET_OPTION(enable_critic_markup, true);
+            SET_OPTION(critic_mode, 2);  /* Ensure markup mode */
         } else if (strcmp(argv[i], "--hr-page-break") == 0) {
-            options.hr_page_break = true;
+            SET_OPTION(hr_page_break, true);
         } else if (strcmp(argv[i], "--title-from-h1") == 0) {
-            options.title_from_h1 = true;
+            SET_OPTION(title_from_h1, true);
         } else if (strcmp(argv[i], "--page-break-before-footnotes") == 0) {
-            options.page_break_before_footnotes = true;
+            SET_OPTION(page_break_before_footnotes, true);
         } else if (strcmp(argv[i], "--wikilink-space") == 0) {
             if (++i >= argc) {
                 fprintf(stderr, "Error: --wikilink-space requires an argument (dash, none, underscore, or space)\n");
                 return 1;
             }
             if (strcmp(argv[i], "dash") == 0) {
-                options.wikilink_space = 0;
+                SET_OPTION(wikilink_space, 0);
             } else if (strcmp(argv[i], "none") == 0) {
-                options.wikilink_space = 1;
+                SET_OPTION(wikilink_space, 1);
             } else if (strcmp(argv[i], "underscore") == 0) {
-                options.wikilink_space = 2;
+                SET_OPTION(wikilink_space, 2);
             } else if (strcmp(argv[i], "space") == 0) {
-                options.wikilink_space = 3;
+                SET_OPTION(wikilink_space, 3);
             } else {
                 fprintf(stderr, "Error: --wikilink-space must be one of: dash, none, underscore, space\n");
                 return 1;
@@ -2021,32 +2026,32 @@ int main(int argc, char *argv[]) {
                 fprintf(stderr, "Error: --wikilink-extension requires an argument\n");
                 return 1;
             }
-            options.wikilink_extension = argv[i];
+            SET_OPTION(wikilink_extension, argv[i]);
         } else if (strcmp(argv[i], "--wikilink-sanitize") == 0) {
-            options.wikilink_sanitize = true;
+            SET_OPTION(wikilink_sanitize, true);
         } else if (strcmp(argv[i], "--no-wikilink-sanitize") == 0) {
-            options.wikilink_sanitize = false;
+            SET_OPTION(wikilink_sanitize, false);
         } else if (strcmp(argv[i], "--transforms") == 0) {
-            options.enable_metadata_transforms = true;
+            SET_OPTION(enable_metadata_transforms, true);
         } else if (strcmp(argv[i], "--no-transforms") == 0) {
-            options.enable_metadata_transforms = false;
+            SET_OPTION(enable_metadata_transforms, false);
         } else if (strcmp(argv[i], "--embed-images") == 0) {
-            options.embed_images = true;
+            SET_OPTION(embed_images, true);
         } else if (strcmp(argv[i], "--image-captions") == 0) {
-            options.enable_image_captions = true;
+            SET_OPTION(enable_image_captions, true);
         } else if (strcmp(argv[i], "--no-image-captions") == 0) {
-            options.enable_image_captions = false;
+            SET_OPTION(enable_image_captions, false);
         } else if (strcmp(argv[i], "--title-captions-only") == 0) {
-            options.title_captions_only = true;
-            options.enable_image_captions = true;  /* implied when title-captions-only is set */
+            SET_OPTION(title_captions_only, true);
+            SET_OPTION(enable_image_captions, true);  /* implied when title-captions-only is set */
         } else if (strcmp(argv[i], "--no-title-captions-only") == 0) {
-            options.title_captions_only = false;
+            SET_OPTION(title_captions_only, false);
         } else if (strcmp(argv[i], "--base-dir") == 0) {
             if (++i >= argc) {
                 fprintf(stderr, "Error: --base-dir requires an argument\n");
                 return 1;
             }
-            options.base_directory = argv[i];
+            SET_OPTION(base_directory, argv[i]);
         } else if (strcmp(argv[i], "--bibliography") == 0) {
             if (++i >= argc) {
                 fprintf(stderr, "Error: --bibliography requires an argument\n");
@@ -2069,29 +2074,29 @@ int main(int argc, char *argv[]) {
                 bibliography_files = new_files;
             }
             bibliography_files[bibliography_count++] = argv[i];
-            options.enable_citations = true;  /* Enable citations when bibliography is provided */
+            SET_OPTION(enable_citations, true);  /* Enable citations when bibliography is provided */
         } else if (strcmp(argv[i], "--csl") == 0) {
             if (++i >= argc) {
                 fprintf(stderr, "Error: --csl requires an argument\n");
                 return 1;
             }
-            options.csl_file = argv[i];
-            options.enable_citations = true;  /* Enable citations when CSL is provided */
+            SET_OPTION(csl_file, argv[i]);
+            SET_OPTION(enable_citations, true);  /* Enable citations when CSL is provided */
         } else if (strcmp(argv[i], "--no-bibliography") == 0) {
-            options.suppress_bibliography = true;
+            SET_OPTION(suppress_bibliography, true);
         } else if (strcmp(argv[i], "--link-citations") == 0) {
-            options.link_citations = true;
+            SET_OPTION(link_citations, true);
         } else if (strcmp(argv[i], "--show-tooltips") == 0) {
-            options.show_tooltips = true;
+            SET_OPTION(show_tooltips, true);
         } else if (strcmp(argv[i], "--indices") == 0) {
-            options.enable_indices = true;
-            options.enable_mmark_index_syntax = true;
-            options.enable_textindex_syntax = true;
-            options.enable_leanpub_index_syntax = true;
+            SET_OPTION(enable_indices, true);
+            SET_OPTION(enable_mmark_index_syntax, true);
+            SET_OPTION(enable_textindex_syntax, true);
+            SET_OPTION(enable_leanpub_index_syntax, true);
         } else if (strcmp(argv[i], "--no-indices") == 0) {
-            options.enable_indices = false;
+            SET_OPTION(enable_indices, false);
         } else if (strcmp(argv[i], "--no-index") == 0) {
-            options.suppress_index = true;
+            SET_OPTION(suppress_index, true);
         } else if (strcmp(argv[i], "--meta-file") == 0) {
             if (++i >= argc) {
                 fprintf(stderr, "Error: --meta-file requires an argument\n");
@@ -3316,7 +3321,8 @@ int main(int argc, char *argv[]) {
     /* Note: Bibliography file loading from metadata will be handled in citations extension */
     if (merged_metadata) {
         apex_options cli = options;
-        apex_options defaults = mode_cli_override ? apex_options_for_mode(cli.mode) : apex_options_default();
+        apex_options none;
+        memset(&none, 0, sizeof(none));
         apex_apply_metadata_to_options(merged_metadata, &options);
         if (mode_cli_override && options.mode != cli.mode) {
             /* --mode wins over a mode in metadata: apply the other metadata to its defaults */
@@ -3330,7 +3336,9 @@ int main(int argc, char *argv[]) {
             }
         }
         /* Options given on the command line win over metadata */
-#define KEEP(field) do { if (cli.field != defaults.field) options.field = cli.field; } while (0)
+#define KEEP(field) do { \
+        if (memcmp(&given.field, &none.field, sizeof(none.field)) != 0) options.field = cli.field; \
+    } while (0)
         KEEP(output_format);
         KEEP(theme_name);
         KEEP(enable_plugins);
@@ -3375,6 +3383,8 @@ int main(int argc, char *argv[]) {
         KEEP(style_hashtags);
         KEEP(proofreader_mode);
         KEEP(hr_page_break);
+        KEEP(title_from_h1);
+        KEEP(base_directory);
         KEEP(page_break_before_footnotes);
         KEEP(wikilink_space);
         KEEP(wikilink_extension);
-- 
2.43.0


From bc3fa24b6ac85b5de98126257e50bcc7840507ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:28 +0000
Subject: [PATCH 160/180] fix: callout titles lose their markup and their end,
 and nested callouts are not converted

---
 src/extensions/callouts.c | 112 +++++++++++++++++++++++---------------
 1 file changed, 67 insertions(+), 45 deletions(-)

diff --git a/src/extensions/callouts.c b/src/extensions/callouts.c
index 0724b3a..c85047d 100644
--- a/src/extensions/callouts.c
+++ b/src/extensions/callouts.c
@@ -67,7 +67,7 @@ static const char *callout_type_name(callout_type_t type) {
  * Pattern: > [!TYPE] Title or > [!TYPE]+ Title or > [!TYPE]- Title
  */
 static bool is_bear_callout(cmark_node *blockquote, callout_type_t *type,
-                            char **title, bool *collapsible, bool *default_open) {
+                            const char **marker_end, bool *collapsible, bool *default_open) {
     if (cmark_node_get_type(blockquote) != CMARK_NODE_BLOCK_QUOTE) return false;
 
     /* Get first child (should be paragraph) */
@@ -109,70 +109,94 @@ static bool is_bear_callout(cmark_node *blockquote, callout_type_t *type,
         type_end++;
     }
 
-    /* Extract title (rest of the line after ] or +/-) */
-    const char *title_start = type_end + 1;
-    while (*title_start == ' ' || *title_start == '\t') title_start++;
-
-    if (*title_start) {
-        /* Find end of line */
-        const char *title_end = strchr(title_start, '\n');
-        if (title_end) {
-            *title = strndup(title_start, title_end - title_start);
-        } else {
-            *title = strdup(title_start);
+    /* What follows on the line is the title */
+    *marker_end = type_end + 1;
+
+    return true;
+}
+
+/**
+ * Take the first line of a callout out of its first paragraph, and render it as the title
+ * (NULL if there is no title). The paragraph is removed when nothing is left of it.
+ */
+static char *take_callout_title(cmark_node *first_para, const char *marker_end) {
+    cmark_node *marker = cmark_node_first_child(first_para);
+    while (*marker_end == ' ' || *marker_end == '\t') marker_end++;
+    char *rest = strdup(marker_end);
+    if (rest) {
+        cmark_node_set_literal(marker, rest);
+        free(rest);
+    }
+
+    cmark_node *doc = cmark_node_new(CMARK_NODE_DOCUMENT);
+    cmark_node *line = cmark_node_new(CMARK_NODE_PARAGRAPH);
+    cmark_node_append_child(doc, line);
+    cmark_node *inl;
+    while ((inl = cmark_node_first_child(first_para))) {
+        cmark_node_type type = cmark_node_get_type(inl);
+        cmark_node_unlink(inl);
+        if (type == CMARK_NODE_SOFTBREAK || type == CMARK_NODE_LINEBREAK) {
+            cmark_node_free(inl);
+            break;
         }
+        cmark_node_append_child(line, inl);
     }
 
-    return true;
+    /* Render, without the paragraph around it */
+    char *html = cmark_render_html(doc, CMARK_OPT_UNSAFE, NULL);
+    cmark_node_free(doc);
+    char *title = NULL;
+    if (html && strncmp(html, "<p>", 3) == 0) {
+        size_t len = strlen(html);
+        if (len >= 8 && strcmp(html + len - 5, "</p>\n") == 0) len -= 5;
+        while (len > 3 && (html[len - 1] == ' ' || html[len - 1] == '\t')) len--;
+        if (len > 3) title = strndup(html + 3, len - 3);
+    }
+    free(html);
+
+    /* The nodes of the title may refer to the text of the paragraph, so it goes last */
+    if (!cmark_node_first_child(first_para)) {
+        cmark_node_unlink(first_para);
+        cmark_node_free(first_para);
+    }
+    return title;
 }
 
 /**
  * Convert blockquote to callout HTML
  */
 static void convert_blockquote_to_callout(cmark_node *blockquote, callout_type_t type,
-                                         const char *title, bool collapsible, bool default_open) {
+                                         const char *marker_end, bool collapsible, bool default_open) {
     const char *type_name = callout_type_name(type);
+    char *title = take_callout_title(cmark_node_first_child(blockquote), marker_end);
+    const char *title_html = title ? title : type_name;
 
     /* Build callout HTML */
-    char html_start[1024];
+    size_t size = strlen(title_html) + 256;
+    char *html_start = malloc(size);
     char html_end[256];
+    if (!html_start) {
+        free(title);
+        return;
+    }
 
     if (collapsible) {
-        snprintf(html_start, sizeof(html_start),
+        snprintf(html_start, size,
                 "<details class=\"callout callout-%s\"%s>\n<summary>%s</summary>\n<div class=\"callout-content\">\n",
-                type_name, default_open ? " open" : "", title ? title : type_name);
+                type_name, default_open ? " open" : "", title_html);
         strcpy(html_end, "\n</div>\n</details>");
     } else {
-        snprintf(html_start, sizeof(html_start),
+        snprintf(html_start, size,
                 "<div class=\"callout callout-%s\">\n<div class=\"callout-title\">%s</div>\n<div class=\"callout-content\">\n",
-                type_name, title ? title : type_name);
+                type_name, title_html);
         strcpy(html_end, "\n</div>\n</div>");
     }
-
-    /* Get blockquote content (skip first paragraph with [!TYPE]) */
-    cmark_node *first_para = cmark_node_first_child(blockquote);
-    if (first_para) {
-        /* Remove the [!TYPE] line from first paragraph */
-        cmark_node *first_text = cmark_node_first_child(first_para);
-        if (first_text && cmark_node_get_type(first_text) == CMARK_NODE_TEXT) {
-            const char *text = cmark_node_get_literal(first_text);
-            if (text) {
-                /* Skip to content after the title line */
-                const char *newline = strchr(text, '\n');
-                if (newline && *(newline + 1)) {
-                    cmark_node_set_literal(first_text, newline + 1);
-                } else {
-                    /* Remove the text node entirely if it's just the [!TYPE] line */
-                    cmark_node_unlink(first_text);
-                    cmark_node_free(first_text);
-                }
-            }
-        }
-    }
+    free(title);
 
     /* Create HTML wrapper */
     cmark_node *html_before = cmark_node_new(CMARK_NODE_HTML_BLOCK);
     cmark_node_set_literal(html_before, html_start);
+    free(html_start);
 
     cmark_node *html_after = cmark_node_new(CMARK_NODE_HTML_BLOCK);
     cmark_node_set_literal(html_after, html_end);
@@ -194,13 +218,11 @@ void apex_process_callouts_in_tree(cmark_node *node) {
     /* Check if current node is a blockquote callout */
     if (cmark_node_get_type(node) == CMARK_NODE_BLOCK_QUOTE) {
         callout_type_t type;
-        char *title = NULL;
+        const char *marker_end = NULL;
         bool collapsible, default_open;
 
-        if (is_bear_callout(node, &type, &title, &collapsible, &default_open)) {
-            convert_blockquote_to_callout(node, type, title, collapsible, default_open);
-            free(title);
-            return;  /* Don't recurse into modified node */
+        if (is_bear_callout(node, &type, &marker_end, &collapsible, &default_open)) {
+            convert_blockquote_to_callout(node, type, marker_end, collapsible, default_open);
         }
     }
 
-- 
2.43.0


From 3457d25d7f0acad809154aa7990b97879028829a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:01 +0000
Subject: [PATCH 161/180] fix: quotes and angle brackets in attributes of
 fenced divs are not escaped

---
 src/extensions/fenced_divs.c | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/extensions/fenced_divs.c b/src/extensions/fenced_divs.c
index 8b31d95..92aaf13 100644
--- a/src/extensions/fenced_divs.c
+++ b/src/extensions/fenced_divs.c
@@ -168,6 +168,26 @@ static char *parse_block_type(const char **attr_text, size_t *attr_len) {
     return strdup("div");
 }
 
+/**
+ * Copy of an attribute value that can stand between double quotes
+ */
+static char *escape_attribute_value(const char *value) {
+    char *escaped = malloc(strlen(value) * 6 + 1);
+    if (!escaped) return NULL;
+    char *w = escaped;
+    for (; *value; value++) {
+        const char *entity = *value == '"' ? "&quot;" : *value == '<' ? "&lt;" : *value == '>' ? "&gt;" : NULL;
+        if (entity) {
+            strcpy(w, entity);
+            w += strlen(entity);
+        } else {
+            *w++ = *value;
+        }
+    }
+    *w = '\0';
+    return escaped;
+}
+
 /**
  * Parse attributes from fenced div info string
  * Format: {#id .class .class2 key="value" key2='value2'}
@@ -296,7 +316,7 @@ static char *parse_attributes(const char *attr_text, size_t attr_len) {
                     }
                     if (*p == quote) {
                         *p = '\0';
-                        value = strdup(value_start);
+                        value = escape_attribute_value(value_start);
                         p++; /* Skip closing quote */
                     }
                 } else {
@@ -304,7 +324,7 @@ static char *parse_attributes(const char *attr_text, size_t attr_len) {
                     while (*p && !isspace((unsigned char)*p) && *p != '}') p++;
                     char saved_val = *p;
                     *p = '\0';
-                    value = strdup(value_start);
+                    value = escape_attribute_value(value_start);
                     *p = saved_val;
                 }
 
-- 
2.43.0


From 578a92419123fcc4be36647a5a1db6fda2d084a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:52 +0000
Subject: [PATCH 162/180] fix: markdown attributes of HTML tags in code are
 processed

---
 src/apex.c                     | 28 ++++++++++++++++++++++++----
 src/extensions/html_markdown.c | 18 +++++++++++++-----
 src/extensions/html_markdown.h |  6 ++++++
 3 files changed, 43 insertions(+), 9 deletions(-)

diff --git a/src/apex.c b/src/apex.c
index 5c80f02..4a184e4 100644
--- a/src/apex.c
+++ b/src/apex.c
@@ -1187,6 +1187,7 @@ typedef struct {
     char **items;
     size_t count, capacity;
     bool disabled;              /* the text uses the mark itself */
+    bool mask;                  /* replace code by spaces of the same length instead of tokens */
 } apex_code_store;
 
 typedef struct {
@@ -1289,6 +1290,10 @@ static char *apex_swap_marks(const char *text, bool hide) {
 
 /* Add a piece of code (within one line, without its indentation) as a token */
 static void add_code_token(apex_text_buffer *buf, apex_code_store *store, const char *code, size_t len) {
+    if (store->mask) {
+        for (size_t i = 0; i < len; i++) text_buffer_add(buf, " ", 1);
+        return;
+    }
     bool plain = true;
     bool has_token = false;
     for (size_t i = 0; i < len; i++) {
@@ -1388,7 +1393,7 @@ static const char *skip_raw_region(const char *p, unsigned *unclosed) {
 /* Replace code in text (with html also that of pre and code elements) by tokens; NULL if there is nothing to do */
 static char *apex_protect_code(const char *text, apex_code_store *store, bool html) {
     if (!text || store->disabled) return NULL;
-    if (store->count == 0 && strstr(text, APEX_CODE_TOKEN_MARK)) {
+    if (store->count == 0 && !store->mask && strstr(text, APEX_CODE_TOKEN_MARK)) {
         store->disabled = true;
         return NULL;
     }
@@ -1508,7 +1513,18 @@ static char *apex_protect_code(const char *text, apex_code_store *store, bool ht
                     p = close + ticks;
                 }
             } else if ((skipped = skip_raw_region(p, &unclosed)) != NULL) {
-                if (html && (strncasecmp(p, "<pre", 4) == 0 || strncasecmp(p, "<code", 5) == 0)) {
+                if (store->mask) {
+                    /* The contents of the element, or all of a comment or Liquid tag */
+                    const char *inner = p;
+                    const char *inner_end = skipped;
+                    if (isalpha((unsigned char)p[1])) {
+                        do inner++; while (inner < skipped && inner[-1] != '>');
+                        do inner_end--; while (inner_end > inner && *inner_end != '<');
+                    }
+                    text_buffer_add(&buf, p, (size_t)(inner - p));
+                    add_code_token(&buf, store, inner, (size_t)(inner_end - inner));
+                    text_buffer_add(&buf, inner_end, (size_t)(skipped - inner_end));
+                } else if (html && (strncasecmp(p, "<pre", 4) == 0 || strncasecmp(p, "<code", 5) == 0)) {
                     add_code(&buf, store, p, (size_t)(skipped - p), true);
                 } else {
                     text_buffer_add(&buf, p, (size_t)(skipped - p));
@@ -1526,7 +1542,7 @@ static char *apex_protect_code(const char *text, apex_code_store *store, bool ht
         }
     }
 
-    if (buf.failed || store->count == first_token) {
+    if (buf.failed || (store->count == first_token && !store->mask)) {
         free(buf.data);
         return NULL;
     }
@@ -5319,7 +5335,11 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
     char *html_markdown_processed = NULL;
     if (options->enable_markdown_in_html) {
         PROFILE_START(html_markdown);
-        html_markdown_processed = apex_process_html_markdown(text_ptr, img_attrs);
+        apex_code_store mask_store = {0};
+        mask_store.mask = true;
+        char *mask = apex_protect_code(text_ptr, &mask_store, false);
+        html_markdown_processed = apex_process_html_markdown_masked(text_ptr, mask ? mask : text_ptr, img_attrs);
+        free(mask);
         PROFILE_END(html_markdown);
         if (html_markdown_processed) {
             text_ptr = html_markdown_processed;
diff --git a/src/extensions/html_markdown.c b/src/extensions/html_markdown.c
index fcfcc9a..b73422e 100644
--- a/src/extensions/html_markdown.c
+++ b/src/extensions/html_markdown.c
@@ -144,7 +144,11 @@ static const char *find_closing_tag(const char *text, const char *tag_name) {
  * If img_attrs is non-NULL, image attributes (e.g. width/height from ref defs) are applied to images in markdown="1" regions.
  */
 char *apex_process_html_markdown(const char *text, void *img_attrs) {
-    if (!text) return NULL;
+    return apex_process_html_markdown_masked(text, text, img_attrs);
+}
+
+char *apex_process_html_markdown_masked(const char *text, const char *mask, void *img_attrs) {
+    if (!text || !mask) return NULL;
 
     image_attr_entry *attrs = (image_attr_entry *)img_attrs;
 
@@ -177,10 +181,10 @@ char *apex_process_html_markdown(const char *text, void *img_attrs) {
         size_t tag_length;
 
         /* Find next HTML tag with markdown attribute */
-        const char *tag_start = find_markdown_tag(read_pos, tag_name, sizeof(tag_name),
+        const char *mask_tag = find_markdown_tag(mask + (read_pos - text), tag_name, sizeof(tag_name),
                                                    markdown_attr, sizeof(markdown_attr), &tag_length);
 
-        if (!tag_start) {
+        if (!mask_tag) {
             /* No more markdown tags, copy rest */
             size_t rest_len = strlen(read_pos);
             ENSURE_SPACE(rest_len);
@@ -193,6 +197,7 @@ char *apex_process_html_markdown(const char *text, void *img_attrs) {
         }
 
         /* Copy text before tag */
+        const char *tag_start = text + (mask_tag - mask);
         size_t prefix_len = tag_start - read_pos;
         ENSURE_SPACE(prefix_len);
         if (prefix_len < remaining) {
@@ -203,7 +208,8 @@ char *apex_process_html_markdown(const char *text, void *img_attrs) {
 
         /* Find content between tags */
         const char *content_start = tag_start + tag_length;
-        const char *closing_tag = find_closing_tag(content_start, tag_name);
+        const char *mask_closing = find_closing_tag(mask_tag + tag_length, tag_name);
+        const char *closing_tag = mask_closing ? text + (mask_closing - mask) : NULL;
 
         if (!closing_tag) {
             /* No closing tag, just copy the opening tag */
@@ -253,7 +259,9 @@ char *apex_process_html_markdown(const char *text, void *img_attrs) {
 
                 /* Recursively process nested divs with markdown="1" BEFORE parsing */
                 /* This ensures nested divs are processed before cmark-gfm sees them */
-                char *processed_content = apex_process_html_markdown(content, img_attrs);
+                char *content_mask = strndup(mask + (content_start - text), content_len);
+                char *processed_content = apex_process_html_markdown_masked(content, content_mask, img_attrs);
+                free(content_mask);
                 if (processed_content) {
                     free(content);
                     content = processed_content;
diff --git a/src/extensions/html_markdown.h b/src/extensions/html_markdown.h
index 9cb44f1..ab71e89 100644
--- a/src/extensions/html_markdown.h
+++ b/src/extensions/html_markdown.h
@@ -34,6 +34,12 @@ struct image_attr_entry;
  */
 char *apex_process_html_markdown(const char *text, void *img_attrs);
 
+/**
+ * The same, for text with code: mask is the text with its code blanked out (of the same
+ * length), in which the tags are looked for.
+ */
+char *apex_process_html_markdown_masked(const char *text, const char *mask, void *img_attrs);
+
 #ifdef __cplusplus
 }
 #endif
-- 
2.43.0


From 44c250e2108ec83dc7fe945fc1ae51e80225c9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:18 +0000
Subject: [PATCH 163/180] fix: code of included files is changed when the
 document has no code itself

---
 src/apex.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/apex.c b/src/apex.c
index 4a184e4..9fb978e 100644
--- a/src/apex.c
+++ b/src/apex.c
@@ -5032,10 +5032,8 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
         PROFILE_END(includes);
         if (includes_processed) {
             text_ptr = includes_processed;
-            if (code_protected) {
-                included_code_protected = apex_protect_code(text_ptr, &code_store, false);
-                if (included_code_protected) text_ptr = included_code_protected;
-            }
+            included_code_protected = apex_protect_code(text_ptr, &code_store, false);
+            if (included_code_protected) text_ptr = included_code_protected;
         }
     }
 
-- 
2.43.0


From 461123b38d613b956ecfa6a36f32744f7848801a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:39 +0000
Subject: [PATCH 164/180] fix: Liquid tags are changed by the text passes,
 unescaped in code and lost in other formats

---
 src/apex.c | 449 ++++++++++++++---------------------------------------
 1 file changed, 114 insertions(+), 335 deletions(-)

diff --git a/src/apex.c b/src/apex.c
index 9fb978e..d123449 100644
--- a/src/apex.c
+++ b/src/apex.c
@@ -1688,195 +1688,105 @@ static void apex_free_code_store(apex_code_store *store) {
 /* Any text between {% and %} is Liquid templating syntax and should be      */
 /* ignored by Apex processing (math, autolinks, etc.). We implement this by  */
 /* temporarily replacing Liquid tags with unique placeholder tokens before   */
-/* parsing, then restoring the original tags in the final HTML.              */
+/* the text passes (while code is protected), then restoring the original    */
+/* tags in the output.                                                       */
 /* ------------------------------------------------------------------------- */
 
-static char *apex_protect_liquid_tags(const char *text,
-                                      char ***out_tags,
-                                      size_t *out_count) {
-    if (!text || !out_tags || !out_count) {
-        return NULL;
-    }
+#define APEX_LIQUID_PREFIX "APEXLIQUIDTAG"
+#define APEX_LIQUID_SUFFIX "X"
 
-    size_t len = strlen(text);
-    /* Start with a modest expansion factor; we can grow as needed. */
-    size_t capacity = (len > 0) ? len + 64 : 64;
-    char *output = malloc(capacity);
-    if (!output) {
+/* Replace Liquid tags by placeholders; NULL if there are none */
+static char *apex_protect_liquid_tags(const char *text, apex_code_store *store) {
+    if (!text || store->disabled) return NULL;
+    if (store->count == 0 && strstr(text, APEX_LIQUID_PREFIX)) {
+        store->disabled = true;
         return NULL;
     }
 
+    apex_text_buffer buf = {0};
+    size_t first_tag = store->count;
     const char *read = text;
-    char *write = output;
-    size_t remaining = capacity;
-
-    char **tags = NULL;
-    size_t tag_count = 0;
-    size_t tag_capacity = 0;
-
-    const char *ph_prefix = "APEX_LIQUID_TAG_";
-    size_t ph_prefix_len = strlen(ph_prefix);
-
-    while (*read) {
+    for (;;) {
         const char *start = strstr(read, "{%");
-        if (!start) {
-            /* No more Liquid tags, copy remainder */
-            size_t chunk_len = strlen(read);
-            if (chunk_len >= remaining) {
-                size_t used = (size_t)(write - output);
-                capacity = used + chunk_len + 1;
-                char *new_output = realloc(output, capacity);
-                if (!new_output) {
-                    /* Cleanup on failure */
-                    for (size_t i = 0; i < tag_count; i++) {
-                        free(tags[i]);
-                    }
-                    free(tags);
-                    free(output);
-                    return NULL;
-                }
-                output = new_output;
-                write = output + used;
-                remaining = capacity - used;
-            }
-            memcpy(write, read, chunk_len);
-            write += chunk_len;
-            remaining -= chunk_len;
+        const char *end = start ? strstr(start + 2, "%}") : NULL;
+        if (!end) break;
+        end += 2;
+        text_buffer_add(&buf, read, (size_t)(start - read));
+        if (store->count == store->capacity) {
+            size_t capacity = store->capacity ? store->capacity * 2 : 8;
+            char **items = realloc(store->items, capacity * sizeof(char *));
+            if (!items) buf.failed = true;
+            else {
+                store->items = items;
+                store->capacity = capacity;
+            }
+        }
+        char *tag = buf.failed ? NULL : strndup(start, (size_t)(end - start));
+        if (!tag) {
+            buf.failed = true;
             break;
         }
-
-        /* Copy text before the tag */
-        size_t prefix_copy_len = (size_t)(start - read);
-        if (prefix_copy_len >= remaining) {
-            size_t used = (size_t)(write - output);
-            capacity = used + prefix_copy_len + 64;
-            char *new_output = realloc(output, capacity);
-            if (!new_output) {
-                for (size_t i = 0; i < tag_count; i++) {
-                    free(tags[i]);
-                }
-                free(tags);
-                free(output);
-                return NULL;
-            }
-            output = new_output;
-            write = output + used;
-            remaining = capacity - used;
-        }
-        memcpy(write, read, prefix_copy_len);
-        write += prefix_copy_len;
-        remaining -= prefix_copy_len;
-
-        /* Find end of Liquid tag */
-        const char *end = strstr(start + 2, "%}");
-        if (!end) {
-            /* No closing %}; copy rest as-is and stop */
-            size_t chunk_len = strlen(start);
-            if (chunk_len >= remaining) {
-                size_t used = (size_t)(write - output);
-                capacity = used + chunk_len + 1;
-                char *new_output = realloc(output, capacity);
-                if (!new_output) {
-                    for (size_t i = 0; i < tag_count; i++) {
-                        free(tags[i]);
-                    }
-                    free(tags);
-                    free(output);
-                    return NULL;
-                }
-                output = new_output;
-                write = output + used;
-                remaining = capacity - used;
-            }
-            memcpy(write, start, chunk_len);
-            write += chunk_len;
-            remaining -= chunk_len;
-            break;
-        }
-
-        size_t tag_len = (size_t)((end + 2) - start);
-
-        /* Store original Liquid tag */
-        if (tag_count == tag_capacity) {
-            size_t new_cap = tag_capacity ? tag_capacity * 2 : 8;
-            char **new_tags = realloc(tags, new_cap * sizeof(char *));
-            if (!new_tags) {
-                for (size_t i = 0; i < tag_count; i++) {
-                    free(tags[i]);
-                }
-                free(tags);
-                free(output);
-                return NULL;
-            }
-            tags = new_tags;
-            tag_capacity = new_cap;
-        }
-
-        tags[tag_count] = malloc(tag_len + 1);
-        if (!tags[tag_count]) {
-            for (size_t i = 0; i < tag_count; i++) {
-                free(tags[i]);
-            }
-            free(tags);
-            free(output);
-            return NULL;
-        }
-        memcpy(tags[tag_count], start, tag_len);
-        tags[tag_count][tag_len] = '\0';
-
-        /* Build placeholder: APEX_LIQUID_TAG_<index> */
         char placeholder[64];
-        int ph_len = snprintf(placeholder, sizeof(placeholder), "%s%zu", ph_prefix, tag_count);
-        if (ph_len <= 0 || (size_t)ph_len >= sizeof(placeholder)) {
-            /* Cleanup on formatting error */
-            for (size_t i = 0; i <= tag_count; i++) {
-                free(tags[i]);
-            }
-            free(tags);
-            free(output);
-            return NULL;
-        }
-
-        size_t placeholder_len = (size_t)ph_len;
-        if (placeholder_len >= remaining) {
-            size_t used = (size_t)(write - output);
-            capacity = used + placeholder_len + 64;
-            char *new_output = realloc(output, capacity);
-            if (!new_output) {
-                for (size_t i = 0; i <= tag_count; i++) {
-                    free(tags[i]);
-                }
-                free(tags);
-                free(output);
-                return NULL;
-            }
-            output = new_output;
-            write = output + used;
-            remaining = capacity - used;
-        }
-
-        memcpy(write, placeholder, placeholder_len);
-        write += placeholder_len;
-        remaining -= placeholder_len;
-
-        tag_count++;
-        read = end + 2;
+        int len = snprintf(placeholder, sizeof(placeholder), APEX_LIQUID_PREFIX "%zu" APEX_LIQUID_SUFFIX, store->count);
+        store->items[store->count++] = tag;
+        text_buffer_add(&buf, placeholder, (size_t)len);
+        read = end;
     }
+    if (buf.failed || store->count == first_tag) {
+        free(buf.data);
+        return NULL;
+    }
+    text_buffer_add(&buf, read, strlen(read));
+    return buf.data;
+}
 
-    *write = '\0';
-    *out_tags = tags;
-    *out_count = tag_count;
+/* Replace the placeholders by the Liquid tags again; NULL if there are none */
+static char *apex_restore_liquid_tags(const char *text, const apex_code_store *store) {
+    if (!text || store->count == 0 || !strstr(text, APEX_LIQUID_PREFIX)) return NULL;
 
-    /* If we didn't actually find any Liquid tags, clean up and signal no-op */
-    if (tag_count == 0) {
-        free(output);
-        *out_tags = NULL;
-        *out_count = 0;
+    apex_text_buffer buf = {0};
+    size_t prefix_len = strlen(APEX_LIQUID_PREFIX);
+    const char *read = text;
+    for (;;) {
+        const char *mark = strstr(read, APEX_LIQUID_PREFIX);
+        if (!mark) break;
+        text_buffer_add(&buf, read, (size_t)(mark - read));
+        char *number_end = NULL;
+        unsigned long index = strtoul(mark + prefix_len, &number_end, 10);
+        if (number_end > mark + prefix_len && *number_end == *APEX_LIQUID_SUFFIX && index < store->count) {
+            text_buffer_add(&buf, store->items[index], strlen(store->items[index]));
+            read = number_end + 1;
+        } else {
+            text_buffer_add(&buf, mark, prefix_len);
+            read = mark + prefix_len;
+        }
+    }
+    text_buffer_add(&buf, read, strlen(read));
+    if (buf.failed) {
+        free(buf.data);
         return NULL;
     }
+    return buf.data;
+}
 
-    (void)ph_prefix_len; /* silence unused warning */
-    return output;
+/* Replace the placeholders in the tree, for the output formats other than HTML and Markdown */
+static void apex_restore_liquid_tags_in_tree(cmark_node *document, const apex_code_store *store) {
+    cmark_iter *iter = cmark_iter_new(document);
+    cmark_event_type event;
+    while ((event = cmark_iter_next(iter)) != CMARK_EVENT_DONE) {
+        cmark_node *node = cmark_iter_get_node(iter);
+        if (event != CMARK_EVENT_ENTER) continue;
+        char *literal = apex_restore_liquid_tags(cmark_node_get_literal(node), store);
+        if (literal) cmark_node_set_literal(node, literal);
+        free(literal);
+        char *url = apex_restore_liquid_tags(cmark_node_get_url(node), store);
+        if (url) cmark_node_set_url(node, url);
+        free(url);
+        char *title = apex_restore_liquid_tags(cmark_node_get_title(node), store);
+        if (title) cmark_node_set_title(node, title);
+        free(title);
+    }
+    cmark_iter_free(iter);
 }
 
 /* True when the next non-blank line has a pipe */
@@ -2319,139 +2229,6 @@ static char *apex_preprocess_table_captions(const char *text) {
     return out;
 }
 
-static char *apex_restore_liquid_tags(const char *html,
-                                      char **tags,
-                                      size_t tag_count) {
-    if (!html || !tags || tag_count == 0) {
-        return NULL;
-    }
-
-    const char *ph_prefix = "APEX_LIQUID_TAG_";
-    size_t ph_prefix_len = strlen(ph_prefix);
-    size_t html_len = strlen(html);
-
-    /* Allocate generously: HTML + space for tags being longer than placeholders */
-    size_t capacity = html_len + tag_count * 64;
-    if (capacity < html_len + 1) {
-        capacity = html_len + 1;
-    }
-
-    char *output = malloc(capacity);
-    if (!output) {
-        return NULL;
-    }
-
-    const char *read = html;
-    char *write = output;
-    size_t remaining = capacity;
-
-    while (*read) {
-        const char *ph_start = strstr(read, ph_prefix);
-        if (!ph_start) {
-            /* Copy remainder */
-            size_t chunk_len = strlen(read);
-            if (chunk_len >= remaining) {
-                size_t used = (size_t)(write - output);
-                capacity = used + chunk_len + 1;
-                char *new_output = realloc(output, capacity);
-                if (!new_output) {
-                    free(output);
-                    return NULL;
-                }
-                output = new_output;
-                write = output + used;
-                remaining = capacity - used;
-            }
-            memcpy(write, read, chunk_len);
-            write += chunk_len;
-            remaining -= chunk_len;
-            break;
-        }
-
-        /* Copy text before the placeholder */
-        size_t prefix_copy_len = (size_t)(ph_start - read);
-        if (prefix_copy_len >= remaining) {
-            size_t used = (size_t)(write - output);
-            capacity = used + prefix_copy_len + 64;
-            char *new_output = realloc(output, capacity);
-            if (!new_output) {
-                free(output);
-                return NULL;
-            }
-            output = new_output;
-            write = output + used;
-            remaining = capacity - used;
-        }
-        memcpy(write, read, prefix_copy_len);
-        write += prefix_copy_len;
-        remaining -= prefix_copy_len;
-
-        /* Parse index after prefix */
-        const char *idx_start = ph_start + ph_prefix_len;
-        size_t idx = 0;
-        const char *p = idx_start;
-        if (!(*p >= '0' && *p <= '9')) {
-            /* Not actually a placeholder, copy prefix char and continue */
-            if (remaining > 0) {
-                *write++ = *ph_start;
-                remaining--;
-            }
-            read = ph_start + 1;
-            continue;
-        }
-        while (*p >= '0' && *p <= '9') {
-            idx = idx * 10 + (size_t)(*p - '0');
-            p++;
-        }
-
-        if (idx >= tag_count) {
-            /* Out-of-range index, treat as normal text */
-            size_t placeholder_len = (size_t)(p - ph_start);
-            if (placeholder_len >= remaining) {
-                size_t used = (size_t)(write - output);
-                capacity = used + placeholder_len + 64;
-                char *new_output = realloc(output, capacity);
-                if (!new_output) {
-                    free(output);
-                    return NULL;
-                }
-                output = new_output;
-                write = output + used;
-                remaining = capacity - used;
-            }
-            memcpy(write, ph_start, placeholder_len);
-            write += placeholder_len;
-            remaining -= placeholder_len;
-            read = p;
-            continue;
-        }
-
-        /* Insert original Liquid tag */
-        size_t tag_len = strlen(tags[idx]);
-        if (tag_len >= remaining) {
-            size_t used = (size_t)(write - output);
-            capacity = used + tag_len + 64;
-            char *new_output = realloc(output, capacity);
-            if (!new_output) {
-                free(output);
-                return NULL;
-            }
-            output = new_output;
-            write = output + used;
-            remaining = capacity - used;
-        }
-        memcpy(write, tags[idx], tag_len);
-        write += tag_len;
-        remaining -= tag_len;
-
-        read = p;
-    }
-
-    *write = '\0';
-    (void)ph_prefix_len; /* silence unused warning */
-    return output;
-}
-
 /**
  * Check whether the run of non-blank lines starting at text contains a table
  * separator row (only pipes, dashes, colons, plus, equals and whitespace).
@@ -4761,9 +4538,9 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
     ald_entry *alds = NULL;
     char *text_ptr = working_text;
     /* Liquid tag placeholders (for {% ... %} tags) */
-    char **liquid_tags = NULL;
-    size_t liquid_tag_count = 0;
+    apex_code_store liquid_store = {0};
     char *liquid_protected = NULL;
+    char *included_liquid_protected = NULL;
     /* Code is kept out of the text passes */
     apex_code_store code_store = {0};
     char *code_protected = NULL;
@@ -4796,6 +4573,8 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
 
         code_protected = apex_protect_code(text_ptr, &code_store, false);
         if (code_protected) text_ptr = code_protected;
+        liquid_protected = apex_protect_liquid_tags(text_ptr, &liquid_store);
+        if (liquid_protected) text_ptr = liquid_protected;
 
         /* Extract ALDs for Kramdown */
         if (options->mode == APEX_MODE_KRAMDOWN || options->mode == APEX_MODE_UNIFIED) {
@@ -4812,6 +4591,8 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
     } else {
         code_protected = apex_protect_code(text_ptr, &code_store, false);
         if (code_protected) text_ptr = code_protected;
+        liquid_protected = apex_protect_liquid_tags(text_ptr, &liquid_store);
+        if (liquid_protected) text_ptr = liquid_protected;
     }
 
     /* Check metadata for bibliography and enable citations if found */
@@ -5034,6 +4815,8 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
             text_ptr = includes_processed;
             included_code_protected = apex_protect_code(text_ptr, &code_store, false);
             if (included_code_protected) text_ptr = included_code_protected;
+            included_liquid_protected = apex_protect_liquid_tags(text_ptr, &liquid_store);
+            if (included_liquid_protected) text_ptr = included_liquid_protected;
         }
     }
 
@@ -5649,15 +5432,6 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
     if (critic_code_restored) text_ptr = critic_code_restored;
     apex_free_code_store(&code_store);
 
-    /* Protect Liquid {% ... %} tags so they are not modified by later
-     * processing (including parsing, math, and autolinks). We'll restore
-     * them after rendering the final HTML.
-     */
-    liquid_protected = apex_protect_liquid_tags(text_ptr, &liquid_tags, &liquid_tag_count);
-    if (liquid_protected) {
-        text_ptr = liquid_protected;
-    }
-
     /* Normalize input after ALL preprocessing: ensure it ends with a newline.
      * This is critical because various preprocessing steps (definition lists,
      * HTML markdown, critic markup, liquid protection) might remove the trailing
@@ -5748,6 +5522,15 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
         apex_clear_relaxed_table_marks(document);
     }
 
+    bool markdown_output = options->output_format == APEX_OUTPUT_MARKDOWN ||
+                           options->output_format == APEX_OUTPUT_MMD ||
+                           options->output_format == APEX_OUTPUT_COMMONMARK ||
+                           options->output_format == APEX_OUTPUT_KRAMDOWN ||
+                           options->output_format == APEX_OUTPUT_GFM;
+    if (liquid_store.count > 0 && options->output_format != APEX_OUTPUT_HTML && !markdown_output) {
+        apex_restore_liquid_tags_in_tree(document, &liquid_store);
+    }
+
     /* If output format is JSON, emit JSON right after parsing (before AST filters) */
     if (options->output_format == APEX_OUTPUT_JSON) {
         char *json = apex_cmark_to_pandoc_json(document, options);
@@ -5859,11 +5642,7 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
     }
 
     /* If output format is Markdown, serialize AST to Markdown and return */
-    if (options->output_format == APEX_OUTPUT_MARKDOWN ||
-        options->output_format == APEX_OUTPUT_MMD ||
-        options->output_format == APEX_OUTPUT_COMMONMARK ||
-        options->output_format == APEX_OUTPUT_KRAMDOWN ||
-        options->output_format == APEX_OUTPUT_GFM) {
+    if (markdown_output) {
         apex_markdown_dialect_t dialect;
         if (options->output_format == APEX_OUTPUT_MARKDOWN) {
             dialect = APEX_MD_DIALECT_UNIFIED;
@@ -5877,6 +5656,11 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
             dialect = APEX_MD_DIALECT_GFM;
         }
         char *markdown = apex_cmark_to_markdown(document, options, dialect);
+        char *restored_markdown = apex_restore_liquid_tags(markdown, &liquid_store);
+        if (restored_markdown) {
+            free(markdown);
+            markdown = restored_markdown;
+        }
         /* Note: Cleanup happens at end of function - document and other resources
          * will be freed there. We return the markdown string here. */
         return markdown;
@@ -5930,15 +5714,6 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
         }
     }
 
-    /* Restore any protected Liquid tags in the rendered HTML */
-    if (html && liquid_tags && liquid_tag_count > 0) {
-        char *restored_html = apex_restore_liquid_tags(html, liquid_tags, liquid_tag_count);
-        if (restored_html) {
-            free(html);
-            html = restored_html;
-        }
-    }
-
     /* Restore custom element tags from fenced-div wrappers (fixes out-of-order HTML) */
     if (html && options->enable_divs && options->mode == APEX_MODE_UNIFIED) {
         char *fenced_divs_html = apex_postprocess_fenced_divs_html(html);
@@ -6425,13 +6200,17 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
     if (hashtags_processed) free(hashtags_processed);
     if (critic_processed) free(critic_processed);
     if (proofreader_processed) free(proofreader_processed);
-    if (liquid_protected) free(liquid_protected);
-    if (liquid_tags) {
-        for (size_t i = 0; i < liquid_tag_count; i++) {
-            free(liquid_tags[i]);
+    /* Restore any protected Liquid tags in the rendered HTML: no pass may change them */
+    if (html) {
+        char *restored_html = apex_restore_liquid_tags(html, &liquid_store);
+        if (restored_html) {
+            free(html);
+            html = restored_html;
         }
-        free(liquid_tags);
     }
+    free(liquid_protected);
+    free(included_liquid_protected);
+    apex_free_code_store(&liquid_store);
     apex_free_metadata(metadata);
     apex_free_abbreviations(abbreviations);
     apex_free_alds(alds);
-- 
2.43.0


From 83ac6cb8d5fe324c9db3524db9133523def4c168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:12 +0000
Subject: [PATCH 165/180] fix: include syntax in tilde-fenced and indented code
 of included files is processed

---
 src/apex.c                | 13 +++++++++----
 src/code_mask.h           | 25 +++++++++++++++++++++++++
 src/extensions/includes.c | 19 +++++++------------
 3 files changed, 41 insertions(+), 16 deletions(-)
 create mode 100644 src/code_mask.h

diff --git a/src/apex.c b/src/apex.c
index d123449..e9adf19 100644
--- a/src/apex.c
+++ b/src/apex.c
@@ -42,6 +42,7 @@
 #include "extensions/fenced_divs.h"
 #include "extensions/syntax_highlight.h"
 #include "plugins.h"
+#include "code_mask.h"
 #include "ast_json.h"
 #include "apex/ast_markdown.h"
 #include "apex/ast_terminal.h"
@@ -1513,7 +1514,7 @@ static char *apex_protect_code(const char *text, apex_code_store *store, bool ht
                     p = close + ticks;
                 }
             } else if ((skipped = skip_raw_region(p, &unclosed)) != NULL) {
-                if (store->mask) {
+                if (store->mask && html) {
                     /* The contents of the element, or all of a comment or Liquid tag */
                     const char *inner = p;
                     const char *inner_end = skipped;
@@ -1549,6 +1550,12 @@ static char *apex_protect_code(const char *text, apex_code_store *store, bool ht
     return buf.data;
 }
 
+char *apex_mask_code(const char *text, bool raw_html) {
+    apex_code_store store = {0};
+    store.mask = true;
+    return apex_protect_code(text, &store, raw_html);
+}
+
 /* End of the address or HTML tag that begins at p, NULL if none does: the destination of
  * a link, image or definition, an autolink and its text, a tag with its attributes, a comment */
 static const char *address_end(const char *text, const char *p) {
@@ -5116,9 +5123,7 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
     char *html_markdown_processed = NULL;
     if (options->enable_markdown_in_html) {
         PROFILE_START(html_markdown);
-        apex_code_store mask_store = {0};
-        mask_store.mask = true;
-        char *mask = apex_protect_code(text_ptr, &mask_store, false);
+        char *mask = apex_mask_code(text_ptr, true);
         html_markdown_processed = apex_process_html_markdown_masked(text_ptr, mask ? mask : text_ptr, img_attrs);
         free(mask);
         PROFILE_END(html_markdown);
diff --git a/src/code_mask.h b/src/code_mask.h
new file mode 100644
index 0000000..44a9a7f
--- /dev/null
+++ b/src/code_mask.h
@@ -0,0 +1,25 @@
+/**
+ * Code in Markdown text
+ */
+
+#ifndef APEX_CODE_MASK_H
+#define APEX_CODE_MASK_H
+
+#include <stdbool.h>
+
+#ifdef __cplusplus
+extern "C" {
+#endif
+
+/**
+ * Copy of the text, of the same length, with spaces for the contents of its code blocks and
+ * code spans (with raw_html also of comments, Liquid tags and pre, code, script, style and
+ * textarea elements). Indentation, quote markers and pipes stay.
+ */
+char *apex_mask_code(const char *text, bool raw_html);
+
+#ifdef __cplusplus
+}
+#endif
+
+#endif /* APEX_CODE_MASK_H */
diff --git a/src/extensions/includes.c b/src/extensions/includes.c
index 0993db9..a7c4da8 100644
--- a/src/extensions/includes.c
+++ b/src/extensions/includes.c
@@ -4,6 +4,7 @@
  */
 
 #include "includes.h"
+#include "../code_mask.h"
 #include "metadata.h"
 #include <stdio.h>
 #include <stdlib.h>
@@ -1130,8 +1131,7 @@ char *apex_process_includes(const char *text, const char *base_dir, apex_metadat
         return strdup(text);  /* Silently return original text */
     }
 
-    /* Normalize fenced code block delimiters to odd numbers of backticks
-     * so our toggle-based code span detection works correctly */
+    /* Normalize fenced code block delimiters to odd numbers of backticks */
     char *normalized_text = normalize_fence_delimiters(text);
     if (!normalized_text) return NULL;
 
@@ -1154,20 +1154,14 @@ char *apex_process_includes(const char *text, const char *base_dir, apex_metadat
     const char *read_pos = text_to_process;
     char *write_pos = output;
     size_t remaining = output_capacity;
-    bool in_code_span = false; /* Tracks inline/fenced code spans delimited by backticks */
+    char *code_mask = apex_mask_code(text_to_process, false); /* Include syntax in code is not processed */
 
     while (*read_pos) {
         bool processed_include = false;
 
-        /* Toggle code-span state on backticks so we can avoid
-         * processing include syntax that appears inside inline
-         * or fenced code (e.g. `<<[path/file]`). This is a simple
-         * state machine that treats all backticks as paired; it
-         * correctly covers common cases like single backtick code
-         * spans and triple-backtick fences. */
-        if (*read_pos == '`') {
-            in_code_span = !in_code_span;
-        }
+        /* Avoid processing include syntax that appears inside
+         * code (e.g. `<<[path/file]`), which the mask leaves blank */
+        bool in_code_span = code_mask && code_mask[read_pos - text_to_process] != *read_pos;
 
         /* Look for iA Writer transclusion /filename (at start of line only) */
         if (!in_code_span && read_pos[0] == '/' && (read_pos == text_to_process || read_pos[-1] == '\n')) {
@@ -1580,6 +1574,7 @@ char *apex_process_includes(const char *text, const char *base_dir, apex_metadat
 
     /* Cleanup */
     if (effective_base_dir) free(effective_base_dir);
+    free(code_mask);
     if (normalized_text) free(normalized_text);
 
     return output;
-- 
2.43.0


From 408af8a572f922d7b83c6864899f8b0239bd1638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:40 +0000
Subject: [PATCH 166/180] fix: formulas are not escaped and are changed by
 other syntaxes

---
 src/apex.c                     | 28 +++++++++++++++++++--
 src/extensions/abbreviations.c |  6 ++++-
 src/extensions/emoji.c         |  6 ++++-
 src/extensions/math.c          | 45 +++++++++++++++++-----------------
 4 files changed, 59 insertions(+), 26 deletions(-)

diff --git a/src/apex.c b/src/apex.c
index e9adf19..8e0f323 100644
--- a/src/apex.c
+++ b/src/apex.c
@@ -1188,6 +1188,7 @@ typedef struct {
     char **items;
     size_t count, capacity;
     bool disabled;              /* the text uses the mark itself */
+    bool math;                  /* formulas are code, too */
     bool mask;                  /* replace code by spaces of the same length instead of tokens */
 } apex_code_store;
 
@@ -1391,6 +1392,20 @@ static const char *skip_raw_region(const char *p, unsigned *unclosed) {
     return NULL;
 }
 
+/* End of the contents of the formula that begins at p ($...$ or $$...$$, in one paragraph); NULL if there is none */
+static const char *formula_end(const char *p) {
+    bool display = p[1] == '$';
+    if (!display && (p[1] == ' ' || p[1] == '\t' || p[1] == '\n')) return NULL;
+    const char *start = p + (display ? 2 : 1);
+    for (p = start; *p; p++) {
+        if (*p == '\n' && p[1 + strspn(p + 1, " \t>")] == '\n') return NULL;
+        if (*p != '$' || (display ? p[1] != '$' : p[-1] == '\\')) continue;
+        if (p == start || (!display && (p[-1] == ' ' || p[-1] == '\t' || p[-1] == '\n'))) return NULL;
+        return p;
+    }
+    return NULL;
+}
+
 /* Replace code in text (with html also that of pre and code elements) by tokens; NULL if there is nothing to do */
 static char *apex_protect_code(const char *text, apex_code_store *store, bool html) {
     if (!text || store->disabled) return NULL;
@@ -1484,9 +1499,15 @@ static char *apex_protect_code(const char *text, apex_code_store *store, bool ht
         while (*p && p < next) {
             size_t ticks = 0;
             const char *skipped;
-            if (*p == '\\' && p[1] == '`') {
+            if (*p == '\\' && (p[1] == '`' || (store->math && p[1] == '$'))) {
                 text_buffer_add(&buf, p, 2);
                 p += 2;
+            } else if (*p == '$' && store->math && (skipped = formula_end(p)) != NULL) {
+                size_t marks = p[1] == '$' ? 2 : 1;
+                text_buffer_add(&buf, p, marks);
+                add_code(&buf, store, p + marks, (size_t)(skipped - p - marks), true);
+                text_buffer_add(&buf, skipped, marks);
+                p = skipped + marks;
             } else if (*p == '`') {
                 while (p[ticks] == '`') ticks++;
                 const char *close = NULL;
@@ -1686,7 +1707,9 @@ static char *apex_restore_code(const char *text, const apex_code_store *store) {
 static void apex_free_code_store(apex_code_store *store) {
     for (size_t i = 0; i < store->count; i++) free(store->items[i]);
     free(store->items);
-    memset(store, 0, sizeof(*store));
+    store->items = NULL;
+    store->count = store->capacity = 0;
+    store->disabled = false;
 }
 
 /* ------------------------------------------------------------------------- */
@@ -4550,6 +4573,7 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
     char *included_liquid_protected = NULL;
     /* Code is kept out of the text passes */
     apex_code_store code_store = {0};
+    code_store.math = options->enable_math;
     char *code_protected = NULL;
     char *included_code_protected = NULL;
     char *code_restored = NULL;
diff --git a/src/extensions/abbreviations.c b/src/extensions/abbreviations.c
index 8888eb9..15f5012 100644
--- a/src/extensions/abbreviations.c
+++ b/src/extensions/abbreviations.c
@@ -194,7 +194,7 @@ abbr_item *apex_extract_abbreviations(char **text_ptr) {
 }
 
 /**
- * End of the code element, script, style sheet, comment or tag that starts at p;
+ * End of the code element, formula, script, style sheet, comment or tag that starts at p;
  * NULL if there is none
  */
 static const char *skip_markup(const char *p) {
@@ -203,6 +203,10 @@ static const char *skip_markup(const char *p) {
         const char *close = strstr(p + 4, "-->");
         return close ? close + 3 : NULL;
     }
+    if (strncmp(p, "<span class=\"math ", 18) == 0) {
+        const char *close = strstr(p, "</span>");
+        return close ? close + 7 : NULL;
+    }
     for (size_t i = 0; i < sizeof(names) / sizeof(names[0]); i++) {
         size_t n = strlen(names[i]);
         if (strncasecmp(p + 1, names[i], n) != 0 || (p[n + 1] != '>' && !isspace((unsigned char)p[n + 1]))) continue;
diff --git a/src/extensions/emoji.c b/src/extensions/emoji.c
index c8e62b1..eb0059a 100644
--- a/src/extensions/emoji.c
+++ b/src/extensions/emoji.c
@@ -212,7 +212,7 @@ static const emoji_entry *lookup_emoji(const char *name, size_t len) {
 }
 
 /**
- * End of the code element, script, style sheet or comment that starts at p; NULL if there is none
+ * End of the code element, formula, script, style sheet or comment that starts at p; NULL if there is none
  */
 static const char *skip_verbatim_html(const char *p) {
     static const char *const names[] = {"code", "pre", "script", "style", "textarea"};
@@ -220,6 +220,10 @@ static const char *skip_verbatim_html(const char *p) {
         const char *close = strstr(p + 4, "-->");
         return close ? close + 3 : NULL;
     }
+    if (strncmp(p, "<span class=\"math ", 18) == 0) {
+        const char *close = strstr(p, "</span>");
+        return close ? close + 7 : NULL;
+    }
     for (size_t i = 0; i < sizeof(names) / sizeof(names[0]); i++) {
         size_t n = strlen(names[i]);
         if (strncasecmp(p + 1, names[i], n) != 0 || (p[n + 1] != '>' && !isspace((unsigned char)p[n + 1]))) continue;
diff --git a/src/extensions/math.c b/src/extensions/math.c
index a335dcc..ae5dcf2 100644
--- a/src/extensions/math.c
+++ b/src/extensions/math.c
@@ -6,6 +6,7 @@
  */
 
 #include "math.h"
+#include <stdio.h>
 #include <string.h>
 #include <stdlib.h>
 #include <stdbool.h>
@@ -129,6 +130,26 @@ static int scan_latex_math(const char *input, int len, bool *is_display) {
     return 0;
 }
 
+/**
+ * HTML of a formula: a span with its text, which is escaped
+ */
+static char *math_html(const char *content, int len, bool is_display) {
+    const char *open = is_display ? "<span class=\"math display\">\\[" : "<span class=\"math inline\">\\(";
+    const char *close = is_display ? "\\]</span>" : "\\)</span>";
+    char *html = malloc((size_t)len * 5 + strlen(open) + strlen(close) + 1);
+    if (!html) return NULL;
+    char *write = html;
+    write += sprintf(write, "%s", open);
+    for (int i = 0; i < len; i++) {
+        if (content[i] == '<') write += sprintf(write, "&lt;");
+        else if (content[i] == '>') write += sprintf(write, "&gt;");
+        else if (content[i] == '&') write += sprintf(write, "&amp;");
+        else *write++ = content[i];
+    }
+    strcpy(write, close);
+    return html;
+}
+
 /**
  * Match function for $ character
  */
@@ -166,19 +187,9 @@ static cmark_node *match_math_dollar(cmark_syntax_extension *self,
     cmark_node *node = cmark_node_new_with_mem(CMARK_NODE_HTML_INLINE, parser->mem);
 
     /* Build HTML string */
-    char *html = malloc(content_len + 100);
+    char *html = math_html(input + start_offset, content_len, is_display);
     if (!html) return NULL;
 
-    if (is_display) {
-        snprintf(html, content_len + 100,
-                "<span class=\"math display\">\\[%.*s\\]</span>",
-                content_len, input + start_offset);
-    } else {
-        snprintf(html, content_len + 100,
-                "<span class=\"math inline\">\\(%.*s\\)</span>",
-                content_len, input + start_offset);
-    }
-
     cmark_node_set_literal(node, html);
     free(html);
 
@@ -231,19 +242,9 @@ static cmark_node *match_math_backslash(cmark_syntax_extension *self,
     cmark_node *node = cmark_node_new_with_mem(CMARK_NODE_HTML_INLINE, parser->mem);
 
     /* Build HTML string */
-    char *html = malloc(content_len + 100);
+    char *html = math_html(input + start_offset, content_len, is_display);
     if (!html) return NULL;
 
-    if (is_display) {
-        snprintf(html, content_len + 100,
-                "<span class=\"math display\">\\[%.*s\\]</span>",
-                content_len, input + start_offset);
-    } else {
-        snprintf(html, content_len + 100,
-                "<span class=\"math inline\">\\(%.*s\\)</span>",
-                content_len, input + start_offset);
-    }
-
     cmark_node_set_literal(node, html);
     free(html);
 
-- 
2.43.0


From 23e0c953054510ac43be09001152468502eb7b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:46 +0000
Subject: [PATCH 167/180] fix: text right after a fenced div is not converted

---
 src/extensions/fenced_divs.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/extensions/fenced_divs.c b/src/extensions/fenced_divs.c
index 92aaf13..d1971a0 100644
--- a/src/extensions/fenced_divs.c
+++ b/src/extensions/fenced_divs.c
@@ -659,7 +659,7 @@ char *apex_process_fenced_divs(const char *text) {
             /* Write closing tag: </div> when we wrapped for cmark, else </block_type> */
             const char *close_tag = was_wrapped ? "div" : (block_type ? block_type : "div");
             size_t tag_name_len = strlen(close_tag);
-            size_t needed = 2 + tag_name_len + 2; /* </tag> and NUL */
+            size_t needed = 2 + tag_name_len + 3; /* </tag>, newline (what follows is a new block) and NUL */
             if (remaining < needed) {
                 size_t written = write - output;
                 output_capacity = (written + needed) * 2;
@@ -680,7 +680,7 @@ char *apex_process_fenced_divs(const char *text) {
                 remaining = output_capacity - written;
             }
 
-            write += snprintf(write, remaining, "</%s>", close_tag);
+            write += snprintf(write, remaining, "</%s>\n", close_tag);
             if (block_type) free(block_type);
             remaining = output_capacity - (write - output);
 
-- 
2.43.0


From 35c7824ad4f329d7a9dcfbb199464071b720d5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:52 +0000
Subject: [PATCH 168/180] fix: custom elements in custom elements of fenced
 divs are not restored

---
 src/extensions/fenced_divs.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/extensions/fenced_divs.c b/src/extensions/fenced_divs.c
index d1971a0..86c9041 100644
--- a/src/extensions/fenced_divs.c
+++ b/src/extensions/fenced_divs.c
@@ -866,13 +866,24 @@ char *apex_postprocess_fenced_divs_html(const char *html) {
             if (strncmp(scan, "</div>", 6) == 0) {
                 depth--;
                 if (depth == 0) {
-                    /* Copy content from read to scan */
-                    size_t content_len = (size_t)(scan - read);
+                    /* Copy content from read to scan (it may contain such elements itself) */
+                    char *content = strndup(read, (size_t)(scan - read));
+                    char *inner = content ? apex_postprocess_fenced_divs_html(content) : NULL;
+                    if (inner) {
+                        free(content);
+                        content = inner;
+                    }
+                    if (!content) {
+                        free(out);
+                        return NULL;
+                    }
+                    size_t content_len = strlen(content);
                     if (content_len >= remaining) {
                         size_t written = (size_t)(write - out);
                         cap = written + content_len + tagname_len + 16;
                         char *new_out = realloc(out, cap);
                         if (!new_out) {
+                            free(content);
                             free(out);
                             return NULL;
                         }
@@ -880,7 +891,8 @@ char *apex_postprocess_fenced_divs_html(const char *html) {
                         write = out + written;
                         remaining = cap - written;
                     }
-                    memcpy(write, read, content_len);
+                    memcpy(write, content, content_len);
+                    free(content);
                     write += content_len;
                     remaining -= content_len;
 
-- 
2.43.0


From d14b3d507d9ac36544c567d284645bf1abbcf69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:30 +0000
Subject: [PATCH 169/180] fix: references to attribute list definitions with
 further attributes are not resolved

---
 src/extensions/ial.c | 38 +++++++++++---------------------------
 1 file changed, 11 insertions(+), 27 deletions(-)

diff --git a/src/extensions/ial.c b/src/extensions/ial.c
index 56d2103..dd8555d 100644
--- a/src/extensions/ial.c
+++ b/src/extensions/ial.c
@@ -293,7 +293,7 @@ static bool is_ald_line(const char *line, char **ref_name, apex_attributes **att
 
     /* Extract reference name */
     const char *name_start = p;
-    while (*p && *p != ':' && *p != '}') p++;
+    while (*p && *p != ':' && *p != '}' && *p != '=' && !isspace((unsigned char)*p)) p++;
 
     if (*p != ':') return false; /* Not an ALD, maybe regular IAL */
 
@@ -543,20 +543,12 @@ static bool extract_ial_from_text(const char *text, apex_attributes **attrs_out,
             }
         }
 
-        *p = saved; /* Restore */
-
-        if (is_ref && *token_start) {
-            /* Trim the token */
-            char *trimmed = token_start;
-            while (isspace((unsigned char)*trimmed)) trimmed++;
-            char *end = trimmed + strlen(trimmed) - 1;
-            while (end > trimmed && isspace((unsigned char)*end)) *end-- = '\0';
-
-            /* Look up ALD */
-            if (*trimmed) {
-                ald_attrs = find_ald(alds, trimmed);
-            }
+        /* Look up ALD (a key is no reference) */
+        if (is_ref && saved != '=') {
+            ald_attrs = find_ald(alds, token_start);
         }
+
+        *p = saved; /* Restore */
     }
 
     /* If we found an ALD, check for remaining content */
@@ -935,20 +927,12 @@ static bool process_span_ial_in_container(cmark_node *container, ald_entry *alds
                 }
             }
 
-            *p = saved; /* Restore */
-
-            if (is_ref && *token_start) {
-                /* Trim the token */
-                char *trimmed = token_start;
-                while (isspace((unsigned char)*trimmed)) trimmed++;
-                char *end = trimmed + strlen(trimmed) - 1;
-                while (end > trimmed && isspace((unsigned char)*end)) *end-- = '\0';
-
-                /* Look up ALD */
-                if (*trimmed) {
-                    ald_attrs = find_ald(alds, trimmed);
-                }
+            /* Look up ALD (a key is no reference) */
+            if (is_ref && saved != '=') {
+                ald_attrs = find_ald(alds, token_start);
             }
+
+            *p = saved; /* Restore */
         }
 
         /* If we found an ALD, check for remaining content */
-- 
2.43.0


From 931aa290afa27fddc6d77ce00ca316c77c5b4367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:34 +0000
Subject: [PATCH 170/180] fix: attribute list definitions referenced by images
 are ignored in unified mode

---
 src/extensions/ial.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/extensions/ial.c b/src/extensions/ial.c
index dd8555d..6a2d5e4 100644
--- a/src/extensions/ial.c
+++ b/src/extensions/ial.c
@@ -2534,6 +2534,20 @@ static const char *find_link_paren(const char *p) {
     return p;
 }
 
+/* True for "{:name ...}": the attributes of a definition, which are looked up in the tree */
+static bool is_ald_reference(const char *ial) {
+    static const char *const words[] = { "webp", "avif", "webm", "ogg", "mp4", "mov", "m4v", "auto" };
+    if (ial[0] != '{' || ial[1] != ':') return false;
+    const char *name = ial + 2;
+    while (*name == ' ' || *name == '\t') name++;
+    size_t len = strcspn(name, " \t\r\n}=.#@");
+    if (len == 0 || name[len] == '=') return false;
+    for (size_t i = 0; i < sizeof(words) / sizeof(words[0]); i++) {
+        if (strlen(words[i]) == len && strncmp(words[i], name, len) == 0) return false;
+    }
+    return true;
+}
+
 /**
  * Preprocess markdown to extract image attributes and URL-encode all link URLs
  */
@@ -2742,7 +2756,7 @@ char *apex_preprocess_image_attributes(const char *text, image_attr_entry **img_
                         /* Skip whitespace before checking for IAL, but keep original position for skipping */
                         const char *check_pos = after_paren;
                         while (check_pos[0] == ' ' || check_pos[0] == '\t') check_pos++;
-                        if (do_image_attrs && check_pos[0] == '{') {
+                        if (do_image_attrs && check_pos[0] == '{' && !is_ald_reference(check_pos)) {
                             /* Find the closing brace */
                             const char *ial_end = strchr(check_pos + 1, '}');
                             if (ial_end) {
-- 
2.43.0


From 35a34afe6bdcd3286b912e26c4ec2e36e0c9f6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:43 +0000
Subject: [PATCH 171/180] fix: values of attribute lists are changed by other
 syntaxes

---
 src/apex.c           |   8 +++
 src/extensions/ial.c | 129 ++++++++++++++++++++++++++++++++++++++++++-
 src/extensions/ial.h |  16 ++++++
 3 files changed, 150 insertions(+), 3 deletions(-)

diff --git a/src/apex.c b/src/apex.c
index 8e0f323..faebd60 100644
--- a/src/apex.c
+++ b/src/apex.c
@@ -4571,6 +4571,7 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
     apex_code_store liquid_store = {0};
     char *liquid_protected = NULL;
     char *included_liquid_protected = NULL;
+    char *attribute_values_encoded = NULL;
     /* Code is kept out of the text passes */
     apex_code_store code_store = {0};
     code_store.math = options->enable_math;
@@ -4609,6 +4610,11 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
 
         /* Extract ALDs for Kramdown */
         if (options->mode == APEX_MODE_KRAMDOWN || options->mode == APEX_MODE_UNIFIED) {
+            /* Values of attributes are no Markdown */
+            if (options->output_format == APEX_OUTPUT_HTML && options->ast_filter_count == 0) {
+                attribute_values_encoded = apex_encode_attribute_values(text_ptr);
+                if (attribute_values_encoded) text_ptr = attribute_values_encoded;
+            }
             alds = apex_extract_alds(&text_ptr);
             if (getenv("APEX_DEBUG_PIPELINE")) {
                 size_t len = strlen(text_ptr);
@@ -5647,6 +5653,7 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
             PROFILE_END(ial);
         }
     }
+    if (attribute_values_encoded) apex_decode_attribute_values_in_tree(document);
 
     /* Apply image attributes to image nodes */
     if (img_attrs) {
@@ -6238,6 +6245,7 @@ char *apex_markdown_to_html(const char *markdown, size_t len, const apex_options
         }
     }
     free(liquid_protected);
+    free(attribute_values_encoded);
     free(included_liquid_protected);
     apex_free_code_store(&liquid_store);
     apex_free_metadata(metadata);
diff --git a/src/extensions/ial.c b/src/extensions/ial.c
index 6a2d5e4..fd37222 100644
--- a/src/extensions/ial.c
+++ b/src/extensions/ial.c
@@ -55,6 +55,128 @@ static apex_attributes *create_attributes(void) {
     return attrs;
 }
 
+/* Characters of attribute values that other syntaxes would take for theirs are written as
+ * APEXCHxxX (two hexadecimal digits) until the value is stored */
+#define ATTR_CHAR_PREFIX "APEXCH"
+
+static int attr_char(const char *p) {
+    size_t n = strlen(ATTR_CHAR_PREFIX);
+    if (strncmp(p, ATTR_CHAR_PREFIX, n) != 0 || !isxdigit((unsigned char)p[n]) || !isxdigit((unsigned char)p[n + 1]) || p[n + 2] != 'X') return -1;
+    char hex[3] = { p[n], p[n + 1], '\0' };
+    return (int)strtol(hex, NULL, 16);
+}
+
+char *apex_decode_attribute_value(const char *value) {
+    char *out = malloc(strlen(value) + 1);
+    if (!out) return NULL;
+    char *w = out;
+    while (*value) {
+        int c = attr_char(value);
+        if (c > 0) {
+            *w++ = (char)c;
+            value += strlen(ATTR_CHAR_PREFIX) + 3;
+        } else {
+            *w++ = *value++;
+        }
+    }
+    *w = '\0';
+    return out;
+}
+
+/* The end of the attribute list that starts here ("{: ...}", "{#...}" or "{...}"), or NULL */
+static const char *attribute_list_end(const char *p) {
+    if (*p != '{' || (p[1] != ':' && p[1] != '#' && p[1] != '.')) return NULL;
+    p += p[1] == ':' ? 2 : 1;
+    for (;;) {
+        while (*p == ' ' || *p == '\t') p++;
+        if (*p == '}') return p + 1;
+        size_t len = strcspn(p, " \t\r\n}={<>\"'");
+        p += len;
+        if (*p == '=' && len > 0) {
+            p++;
+            if (*p == '"' || *p == '\'') {
+                char quote = *p++;
+                while (*p && *p != '\n' && *p != quote) {
+                    if (*p == '\\' && (p[1] == quote || p[1] == '\\')) p++;
+                    p++;
+                }
+                if (*p != quote) return NULL;
+                p++;
+            } else {
+                p += strcspn(p, " \t\r\n}");
+            }
+        } else if (len == 0) {
+            return NULL;
+        }
+    }
+}
+
+char *apex_encode_attribute_values(const char *text) {
+    if (!text || !strchr(text, '=') || !strchr(text, '{') || strstr(text, ATTR_CHAR_PREFIX)) return NULL;
+
+    char *out = malloc(strlen(text) * (strlen(ATTR_CHAR_PREFIX) + 3) + 1);
+    if (!out) return NULL;
+    char *w = out;
+    bool found = false, line_start = true, skip_line = false;
+    const char *p = text;
+    while (*p) {
+        if (line_start) {
+            /* Fenced divs and captions read their attributes themselves */
+            const char *q = p + strspn(p, " \t>");
+            const char *bracket = *q == '[' ? q + strcspn(q, "]\n") : NULL;
+            skip_line = *q == ':' || strncmp(q, "Table:", 6) == 0 || (bracket && *bracket == ']' && bracket[1] == ' ');
+        }
+        line_start = *p == '\n';
+        const char *end = (*p == '{' && !skip_line) ? attribute_list_end(p) : NULL;
+        if (!end) {
+            *w++ = *p++;
+            continue;
+        }
+        while (p < end) {
+            if (*p != '=') {
+                *w++ = *p++;
+                continue;
+            }
+            *w++ = *p++;
+            char quote = (*p == '"' || *p == '\'') ? *p : '\0';
+            if (quote) *w++ = *p++;
+            while (quote ? *p != quote : (*p != ' ' && *p != '\t' && *p != '}')) {
+                if (quote && *p == '\\' && (p[1] == quote || p[1] == '\\')) p++;
+                bool entity = (*p == '#' && p[-1] == '&');
+                bool repeated = (*p == '-' || *p == '.') && p[-1] == *p;
+                if ((strchr("<>*_[]^~=+:$@{}|\\!\"'#", *p) && !entity) || repeated) {
+                    w += sprintf(w, ATTR_CHAR_PREFIX "%02XX", (unsigned char)*p++);
+                    found = true;
+                } else {
+                    *w++ = *p++;
+                }
+            }
+            if (quote) *w++ = *p++;
+        }
+    }
+    *w = '\0';
+    if (!found) {
+        free(out);
+        return NULL;
+    }
+    return out;
+}
+
+void apex_decode_attribute_values_in_tree(cmark_node *document) {
+    cmark_iter *iter = cmark_iter_new(document);
+    cmark_event_type event;
+    while ((event = cmark_iter_next(iter)) != CMARK_EVENT_DONE) {
+        cmark_node *node = cmark_iter_get_node(iter);
+        const char *literal = event == CMARK_EVENT_ENTER ? cmark_node_get_literal(node) : NULL;
+        if (literal && strstr(literal, ATTR_CHAR_PREFIX)) {
+            char *decoded = apex_decode_attribute_value(literal);
+            if (decoded) cmark_node_set_literal(node, decoded);
+            free(decoded);
+        }
+    }
+    cmark_iter_free(iter);
+}
+
 /**
  * Add class to attributes
  */
@@ -74,7 +196,7 @@ static void add_attribute(apex_attributes *attrs, const char *key, const char *v
     attrs->keys = realloc(attrs->keys, sizeof(char*) * (attrs->attr_count + 1));
     attrs->values = realloc(attrs->values, sizeof(char*) * (attrs->attr_count + 1));
     attrs->keys[attrs->attr_count] = strdup(key);
-    attrs->values[attrs->attr_count] = value ? strdup(value) : strdup("");
+    attrs->values[attrs->attr_count] = apex_decode_attribute_value(value ? value : "");
     attrs->attr_count++;
 }
 
@@ -89,8 +211,8 @@ apex_attributes *parse_ial_content(const char *content, int len) {
     /* CriticMarkup ({++, {--, {~~, {==, {>>) is no attribute list */
     if (len >= 2 && content[0] && strchr("+-~=>", content[0]) && content[1] == content[0]) return attrs;
 
-    char buffer[2048];
-    if (len >= (int)sizeof(buffer)) len = (int)sizeof(buffer) - 1;
+    char *buffer = malloc((size_t)len + 1);
+    if (!buffer) return attrs;
     memcpy(buffer, content, len);
     buffer[len] = '\0';
 
@@ -271,6 +393,7 @@ apex_attributes *parse_ial_content(const char *content, int len) {
         if (*p) p++;
     }
 
+    free(buffer);
     return attrs;
 }
 
diff --git a/src/extensions/ial.h b/src/extensions/ial.h
index bafe15e..31ddd62 100644
--- a/src/extensions/ial.h
+++ b/src/extensions/ial.h
@@ -87,6 +87,22 @@ void apex_free_attributes(apex_attributes *attrs);
  */
 apex_attributes *parse_ial_content(const char *content, int len);
 
+/**
+ * Keep the values in attribute lists out of reach of other syntaxes: writes their special
+ * characters as tokens. Returns NULL if there are none.
+ */
+char *apex_encode_attribute_values(const char *text);
+
+/**
+ * A value with its tokens replaced by the characters (caller must free)
+ */
+char *apex_decode_attribute_value(const char *value);
+
+/**
+ * Replace the tokens of attribute lists that are text of the document
+ */
+void apex_decode_attribute_values_in_tree(cmark_node *document);
+
 /**
  * Convert attributes to HTML string
  * Returns a newly allocated string with HTML attributes (e.g., ' id="foo" class="bar"')
-- 
2.43.0


From 7a5e603cf4be473fbf517566c7954d711614b729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:47 +0000
Subject: [PATCH 172/180] fix: image attributes get lost when an earlier image
 has none

---
 src/extensions/ial.c | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/src/extensions/ial.c b/src/extensions/ial.c
index fd37222..5ec6939 100644
--- a/src/extensions/ial.c
+++ b/src/extensions/ial.c
@@ -2951,7 +2951,14 @@ char *apex_preprocess_image_attributes(const char *text, image_attr_entry **img_
                         if (encoded_url) {
                             /* Store attributes with URL - create entry when we have attrs, or when URL is a video (needs replacement), or when URL is wildcard (.*) */
                             image_attr_entry *entry = NULL;
-                            if (attrs || is_video_url(url) || url_is_wildcard) {
+                            if (!attrs && !is_video_url(url) && !url_is_wildcard) {
+                                /* Without attributes, it still takes its place among the images of this URL */
+                                entry = create_image_attr_entry(&local_img_attrs, encoded_url, image_index);
+                                if (entry) {
+                                    apex_free_attributes(entry->attrs);
+                                    entry->attrs = NULL;
+                                }
+                            } else {
                                 /* Use the running image_index so attributes are
                                  * bound to the correct inline image position,
                                  * even when some images have no attributes.
@@ -4099,6 +4106,16 @@ char *apex_preprocess_image_attributes(const char *text, image_attr_entry **img_
     }
 
     /* Return the image attributes list */
+    /* Images without attributes alone are nothing to apply */
+    bool any_attributes = false;
+    for (image_attr_entry *e = local_img_attrs; e; e = e->next) {
+        if (e->attrs) any_attributes = true;
+    }
+    if (!any_attributes) {
+        apex_free_image_attributes(local_img_attrs);
+        local_img_attrs = NULL;
+    }
+
     *img_attrs = local_img_attrs;
 
     if (getenv("APEX_DEBUG_PIPELINE") && output) {
@@ -4125,9 +4142,8 @@ void apex_apply_image_attributes(cmark_node *document, image_attr_entry *img_att
     cmark_event_type event;
 
     /* Preprocessing assigns index 0, 1, 2... to inline images only (ref-style get -1).
-     * Use inline_image_position to match so that same-URL images (e.g. webp vs avif)
-     * get correct attrs, while ref-style images are matched by URL. */
-    int inline_image_position = 0;
+     * Images of the same URL (e.g. webp vs avif) take the entries of this URL in that order;
+     * ref-style images are matched by URL. */
 
     while ((event = cmark_iter_next(iter)) != CMARK_EVENT_DONE) {
         cmark_node *node = cmark_iter_get_node(iter);
@@ -4135,15 +4151,16 @@ void apex_apply_image_attributes(cmark_node *document, image_attr_entry *img_att
             const char *url = cmark_node_get_url(node);
             image_attr_entry *matching = NULL;
 
-            /* First, try inline entry with index == inline_image_position and URL match. */
+            /* First, try the first unused inline entry with this URL. */
             for (image_attr_entry *e = img_attrs; e; e = e->next) {
-                if (e->index == inline_image_position && e->url && url && strcmp(e->url, url) == 0 && e->attrs) {
+                if (e->index >= 0 && e->url && url && strcmp(e->url, url) == 0 &&
+                    (!matching || e->index < matching->index)) {
                     matching = e;
-                    e->index = -2; /* mark as used */
-                    inline_image_position++;
-                    break;
                 }
             }
+            if (matching) {
+                matching->index = -2; /* mark as used */
+            }
 
             /* If no inline match, try reference-style entries (index == -1) by URL. */
             if (!matching && url) {
-- 
2.43.0


From 94d8e796c49d5bd764f88dc694f8402ffce5a2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:52 +0000
Subject: [PATCH 173/180] fix: block attribute list is ignored when the
 paragraph has inline lists

---
 src/extensions/ial.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/extensions/ial.c b/src/extensions/ial.c
index 5ec6939..3f48312 100644
--- a/src/extensions/ial.c
+++ b/src/extensions/ial.c
@@ -1463,10 +1463,8 @@ static cmark_node *process_node_ial(cmark_node *node, ald_entry *alds) {
 
     /* Handle span-level IAL (links, images, emphasis, etc. with inline attributes) */
     if (type == CMARK_NODE_PARAGRAPH) {
-        if (process_span_ial(node, alds)) {
-            return NULL;  /* Span IAL processed, no node to free */
-        }
-        /* No span IAL found, fall through to check for next-line IAL */
+        process_span_ial(node, alds);
+        /* The paragraph itself may have a next-line IAL */
     }
 
     /* Only certain block types can have IAL after them */
-- 
2.43.0


From dde8c32ac324a5538d7920110d12133965fec8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:57 +0000
Subject: [PATCH 174/180] fix: attributes go to another element with the same
 text

---
 src/html_renderer.c | 94 ++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 88 insertions(+), 6 deletions(-)

diff --git a/src/html_renderer.c b/src/html_renderer.c
index 7266039..2948ff2 100644
--- a/src/html_renderer.c
+++ b/src/html_renderer.c
@@ -43,6 +43,7 @@ typedef struct attr_node {
     int element_index;  /* nth element of this type (0=first p, 1=second p, etc.) */
     char *text_fingerprint;  /* First 50 chars of text content for matching */
     struct attr_node *next;
+    bool mark;                   /* a mark stands before the element */
 } attr_node;
 
 /**
@@ -449,20 +450,69 @@ static void collect_nodes_with_attrs(cmark_node *node, attr_node **list) {
     *list = reversed;
 }
 
+/* Marks before the elements with attributes: \x02APEXATTRn\x03 for the n-th of the list */
+#define ATTR_MARK "\x02" "APEXATTR"
+
+/* Tables and items are found by their order; the paragraphs of tight lists are no elements */
+static bool has_attr_mark(cmark_node *node) {
+    cmark_node_type type = cmark_node_get_type(node);
+    if (type == CMARK_NODE_PARAGRAPH) {
+        cmark_node *item = cmark_node_parent(node);
+        cmark_node *list = item ? cmark_node_parent(item) : NULL;
+        return !(list && cmark_node_get_type(list) == CMARK_NODE_LIST && cmark_node_get_list_tight(list));
+    }
+    return type == CMARK_NODE_HEADING || type == CMARK_NODE_BLOCK_QUOTE || type == CMARK_NODE_LIST ||
+           type == CMARK_NODE_CODE_BLOCK || type == CMARK_NODE_LINK || type == CMARK_NODE_IMAGE ||
+           type == CMARK_NODE_STRONG || type == CMARK_NODE_EMPH || type == CMARK_NODE_CODE;
+}
+
+/* Returns the nodes inserted, ended by NULL */
+static cmark_node **insert_attr_marks(attr_node *list) {
+    size_t count = 0;
+    for (attr_node *a = list; a; a = a->next) count++;
+    cmark_node **marks = calloc(count + 1, sizeof(cmark_node *));
+    if (!marks) return NULL;
+
+    size_t inserted = 0;
+    int number = 0;
+    for (attr_node *a = list; a; a = a->next, number++) {
+        a->mark = false;
+        cmark_node_type type = cmark_node_get_type(a->node);
+        if (!has_attr_mark(a->node)) continue;
+        bool block = type == CMARK_NODE_PARAGRAPH || type == CMARK_NODE_HEADING || type == CMARK_NODE_BLOCK_QUOTE ||
+                     type == CMARK_NODE_LIST || type == CMARK_NODE_CODE_BLOCK;
+        cmark_node *mark = cmark_node_new(block ? CMARK_NODE_CUSTOM_BLOCK : CMARK_NODE_CUSTOM_INLINE);
+        char text[48];
+        snprintf(text, sizeof(text), ATTR_MARK "%d\x03", number);
+        if (mark && cmark_node_set_on_enter(mark, text) && cmark_node_insert_before(a->node, mark)) {
+            marks[inserted++] = mark;
+            a->mark = true;
+        } else if (mark) {
+            cmark_node_free(mark);
+        }
+    }
+    return marks;
+}
+
 /**
  * Enhanced HTML rendering with attribute support
  */
 char *apex_render_html_with_attributes(cmark_node *document, int options) {
     if (!document) return NULL;
 
-    /* First, render normally */
-    char *html = cmark_render_html(document, options, NULL);
-    if (!html) return NULL;
-
     /* Collect all nodes with attributes */
     attr_node *attr_list = NULL;
     collect_nodes_with_attrs(document, &attr_list);
 
+    /* Render with a mark before each of them */
+    cmark_node **marks = insert_attr_marks(attr_list);
+    char *html = cmark_render_html(document, options, NULL);
+    for (size_t i = 0; marks && marks[i]; i++) {
+        cmark_node_free(marks[i]);
+    }
+    free(marks);
+    if (!html) return NULL;
+
     if (!attr_list) {
         return html; /* No attributes to inject */
     }
@@ -499,8 +549,26 @@ char *apex_render_html_with_attributes(cmark_node *document, int options) {
     /* Track element counts in HTML (same as AST walker) */
     element_counters html_counters = {0};
 
+    attr_node *marked = NULL;
+    int marked_idx = -1;
+
     /* Process HTML, injecting attributes */
     while (*read) {
+        /* The mark of the element that follows */
+        if (*read == '\x02' && strncmp(read, ATTR_MARK, strlen(ATTR_MARK)) == 0) {
+            char *number_end = NULL;
+            long number = strtol(read + strlen(ATTR_MARK), &number_end, 10);
+            if (number_end && *number_end == '\x03' && number >= 0 && number < attr_count) {
+                marked = attr_list;
+                for (long n = 0; n < number; n++) marked = marked->next;
+                marked_idx = (int)number;
+                read = number_end + 1;
+                bool at_line_start = write == output || write[-1] == '\n';
+                if (at_line_start && *read == '\n') read++;
+                continue;
+            }
+        }
+
         /* Check if we're at an opening tag */
         if (*read == '<' && read[1] != '/' && read[1] != '!') {
             const char *tag_start = read + 1;
@@ -573,6 +641,14 @@ char *apex_render_html_with_attributes(cmark_node *document, int options) {
             if (elem_type != 0) {
                 int check_idx = 0;
                 for (attr_node *a = attr_list; a; a = a->next, check_idx++) {
+                    if (a->mark) {
+                        if (a != marked || a->node_type != elem_type) continue;
+                        if (strstr(a->attrs, "data-remove")) {
+                            should_remove = true;
+                            removal_idx = check_idx;
+                        }
+                        break;
+                    }
                     /* Check by element type and index for removal */
                     if (!used[check_idx] &&
                         (a->node_type == elem_type ||
@@ -694,6 +770,12 @@ char *apex_render_html_with_attributes(cmark_node *document, int options) {
                 attr_node *matching = NULL;
                 int idx = 0;
 
+                /* The mark tells which element has attributes */
+                if (marked && marked->node_type == elem_type) {
+                    matching = marked;
+                    used[marked_idx] = true;
+                    marked = NULL;
+                } else
                 /* For tables, use sequential matching (first unused table) since index may not match */
                 if (elem_type == CMARK_NODE_TABLE) {
                     for (attr_node *a = attr_list; a; a = a->next, idx++) {
@@ -707,7 +789,7 @@ char *apex_render_html_with_attributes(cmark_node *document, int options) {
                 } else if (elem_type == CMARK_NODE_IMAGE) {
                     /* Images: match by element_index (document order). */
                     for (attr_node *a = attr_list; a; a = a->next, idx++) {
-                        if (used[idx]) continue;
+                        if (used[idx] || a->mark) continue;
                         if (a->node_type != CMARK_NODE_IMAGE) continue;
                         if (a->element_index == elem_idx) {
                             matching = a;
@@ -718,7 +800,7 @@ char *apex_render_html_with_attributes(cmark_node *document, int options) {
                 } else {
                     /* For other elements, use the existing matching logic */
                     for (attr_node *a = attr_list; a; a = a->next, idx++) {
-                        if (used[idx]) continue;
+                        if (used[idx] || a->mark) continue;
 
                         /* Check type match (including inline elements) */
                         bool type_match = (a->node_type == elem_type ||
-- 
2.43.0


From 2d5d474ec9937cfb6ba8a692cd55b31d2a93c57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:02 +0000
Subject: [PATCH 175/180] fix: attributes go to an earlier table without a list

---
 src/html_renderer.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/html_renderer.c b/src/html_renderer.c
index 2948ff2..0e8b73a 100644
--- a/src/html_renderer.c
+++ b/src/html_renderer.c
@@ -453,7 +453,7 @@ static void collect_nodes_with_attrs(cmark_node *node, attr_node **list) {
 /* Marks before the elements with attributes: \x02APEXATTRn\x03 for the n-th of the list */
 #define ATTR_MARK "\x02" "APEXATTR"
 
-/* Tables and items are found by their order; the paragraphs of tight lists are no elements */
+/* Items are found by their order; the paragraphs of tight lists are no elements */
 static bool has_attr_mark(cmark_node *node) {
     cmark_node_type type = cmark_node_get_type(node);
     if (type == CMARK_NODE_PARAGRAPH) {
@@ -461,7 +461,7 @@ static bool has_attr_mark(cmark_node *node) {
         cmark_node *list = item ? cmark_node_parent(item) : NULL;
         return !(list && cmark_node_get_type(list) == CMARK_NODE_LIST && cmark_node_get_list_tight(list));
     }
-    return type == CMARK_NODE_HEADING || type == CMARK_NODE_BLOCK_QUOTE || type == CMARK_NODE_LIST ||
+    return type == CMARK_NODE_TABLE || type == CMARK_NODE_HEADING || type == CMARK_NODE_BLOCK_QUOTE || type == CMARK_NODE_LIST ||
            type == CMARK_NODE_CODE_BLOCK || type == CMARK_NODE_LINK || type == CMARK_NODE_IMAGE ||
            type == CMARK_NODE_STRONG || type == CMARK_NODE_EMPH || type == CMARK_NODE_CODE;
 }
@@ -480,7 +480,7 @@ static cmark_node **insert_attr_marks(attr_node *list) {
         cmark_node_type type = cmark_node_get_type(a->node);
         if (!has_attr_mark(a->node)) continue;
         bool block = type == CMARK_NODE_PARAGRAPH || type == CMARK_NODE_HEADING || type == CMARK_NODE_BLOCK_QUOTE ||
-                     type == CMARK_NODE_LIST || type == CMARK_NODE_CODE_BLOCK;
+                     type == CMARK_NODE_LIST || type == CMARK_NODE_CODE_BLOCK || type == CMARK_NODE_TABLE;
         cmark_node *mark = cmark_node_new(block ? CMARK_NODE_CUSTOM_BLOCK : CMARK_NODE_CUSTOM_INLINE);
         char text[48];
         snprintf(text, sizeof(text), ATTR_MARK "%d\x03", number);
@@ -779,7 +779,7 @@ char *apex_render_html_with_attributes(cmark_node *document, int options) {
                 /* For tables, use sequential matching (first unused table) since index may not match */
                 if (elem_type == CMARK_NODE_TABLE) {
                     for (attr_node *a = attr_list; a; a = a->next, idx++) {
-                        if (used[idx]) continue;
+                        if (used[idx] || a->mark) continue;
                         if (a->node_type == CMARK_NODE_TABLE) {
                             matching = a;
                             used[idx] = true;
-- 
2.43.0


From 4a9973a97126d449645bf66c8caf022e659bef11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:07 +0000
Subject: [PATCH 176/180] fix: long attribute lists are cut off

---
 src/extensions/ial.c | 99 ++++++++++++++------------------------------
 1 file changed, 31 insertions(+), 68 deletions(-)

diff --git a/src/extensions/ial.c b/src/extensions/ial.c
index 3f48312..d98f947 100644
--- a/src/extensions/ial.c
+++ b/src/extensions/ial.c
@@ -466,10 +466,10 @@ ald_entry *apex_extract_alds(char **text_ptr) {
         if (!line_end) line_end = line_start + strlen(line_start);
 
         size_t line_len = line_end - line_start;
-        char line[2048];
-        size_t checked_len = line_len < sizeof(line) ? line_len : sizeof(line) - 1;
-        memcpy(line, line_start, checked_len);
-        line[checked_len] = '\0';
+        char *line = malloc(line_len + 1);
+        if (!line) break;
+        memcpy(line, line_start, line_len);
+        line[line_len] = '\0';
 
         /* Check if this is an ALD */
         char *ref_name = NULL;
@@ -488,9 +488,11 @@ ald_entry *apex_extract_alds(char **text_ptr) {
             }
 
             /* Skip this line in output */
+            free(line);
             line_start = *line_end ? line_end + 1 : line_end;
             continue;
         }
+        free(line);
 
         /* Not an ALD, copy line to output */
         memcpy(output_write, line_start, line_len);
@@ -630,11 +632,11 @@ static bool extract_ial_from_text(const char *text, apex_attributes **attrs_out,
         return false;
     }
 
-    /* Copy content to work with */
+    /* Copy the start of the content, for the name of a definition */
     char buffer[2048];
-    if (content_len >= (int)sizeof(buffer)) content_len = (int)sizeof(buffer) - 1;
-    memcpy(buffer, content_start, content_len);
-    buffer[content_len] = '\0';
+    int start_len = content_len < (int)sizeof(buffer) ? content_len : (int)sizeof(buffer) - 1;
+    memcpy(buffer, content_start, start_len);
+    buffer[start_len] = '\0';
 
     char *p = buffer;
 
@@ -1014,11 +1016,11 @@ static bool process_span_ial_in_container(cmark_node *container, ald_entry *alds
             continue;
         }
 
-        /* Copy content to work with */
+        /* Copy the start of the content, for the name of a definition */
         char buffer[2048];
-        if (content_len >= (int)sizeof(buffer)) content_len = (int)sizeof(buffer) - 1;
-        memcpy(buffer, content_start, content_len);
-        buffer[content_len] = '\0';
+        int start_len = content_len < (int)sizeof(buffer) ? content_len : (int)sizeof(buffer) - 1;
+        memcpy(buffer, content_start, start_len);
+        buffer[start_len] = '\0';
 
         char *p = buffer;
 
@@ -1816,8 +1818,8 @@ static apex_attributes *parse_image_attributes(const char *attr_str, int len) {
 
     if (len <= 0 || !attr_str) return attrs;
 
-    char buffer[2048];
-    if (len >= (int)sizeof(buffer)) len = (int)sizeof(buffer) - 1;
+    char *buffer = malloc((size_t)len + 1);
+    if (!buffer) return attrs;
     memcpy(buffer, attr_str, len);
     buffer[len] = '\0';
 
@@ -1951,6 +1953,7 @@ static apex_attributes *parse_image_attributes(const char *attr_str, int len) {
         if (*p) p++;
     }
 
+    free(buffer);
     return attrs;
 }
 
@@ -2450,78 +2453,38 @@ static char *attributes_to_inline_format(apex_attributes *attrs) {
         return strdup("");
     }
 
-    char buffer[4096];
-    char *p = buffer;
-    size_t remaining = sizeof(buffer);
-
-    #define APPEND_INLINE(str) do { \
-        size_t len = strlen(str); \
-        if (len < remaining) { \
-            memcpy(p, str, len); \
-            p += len; \
-            remaining -= len; \
-        } \
-    } while(0)
-
-    bool first = true;
+    attr_buffer out = {0};
 
     /* Add ID as id="value" */
     if (attrs->id) {
-        char id_str[512];
-        snprintf(id_str, sizeof(id_str), "%sid=\"%s\"", first ? "" : " ", attrs->id);
-        first = false;
-        APPEND_INLINE(id_str);
+        attr_append(&out, "id=\"");
+        attr_append(&out, attrs->id);
+        attr_append(&out, "\"");
     }
 
     /* Add classes as class="class1 class2" */
     if (attrs->class_count > 0) {
-        char class_str[1024];
-        char *class_p = class_str;
-        size_t class_remaining = sizeof(class_str);
-        snprintf(class_p, class_remaining, "%sclass=\"", first ? "" : " ");
-        class_p += strlen(class_p);
-        class_remaining -= strlen(class_p);
-
+        attr_append(&out, out.len > 0 ? " class=\"" : "class=\"");
         for (int i = 0; i < attrs->class_count; i++) {
-            if (i > 0 && class_remaining > 0) {
-                *class_p++ = ' ';
-                class_remaining--;
-            }
-            size_t class_len = strlen(attrs->classes[i]);
-            if (class_len < class_remaining) {
-                memcpy(class_p, attrs->classes[i], class_len);
-                class_p += class_len;
-                class_remaining -= class_len;
-            }
-        }
-        if (class_remaining > 0) {
-            *class_p++ = '"';
-            class_remaining--;
+            if (i > 0) attr_append(&out, " ");
+            attr_append(&out, attrs->classes[i]);
         }
-        *class_p = '\0';
-        first = false;
-        APPEND_INLINE(class_str);
+        attr_append(&out, "\"");
     }
 
     /* Add other attributes - format as key=value or key="value" */
     for (int i = 0; i < attrs->attr_count; i++) {
-        char attr_str[1024];
         const char *val = attrs->values[i];
         /* Quote value if it contains spaces, semicolons, or special characters */
         bool need_quotes = (strchr(val, ' ') != NULL || strchr(val, ';') != NULL || strchr(val, '"') != NULL);
-        if (need_quotes) {
-            snprintf(attr_str, sizeof(attr_str), "%s%s=\"%s\"", first ? "" : " ", attrs->keys[i], val);
-        } else {
-            snprintf(attr_str, sizeof(attr_str), "%s%s=%s", first ? "" : " ", attrs->keys[i], val);
-        }
-        first = false;
-        APPEND_INLINE(attr_str);
+        if (out.len > 0) attr_append(&out, " ");
+        attr_append(&out, attrs->keys[i]);
+        attr_append(&out, need_quotes ? "=\"" : "=");
+        attr_append(&out, val);
+        if (need_quotes) attr_append(&out, "\"");
     }
 
-    #undef APPEND_INLINE
-
-    *p = '\0';
-    return strdup(buffer);
+    return out.data ? out.data : strdup("");
 }
 
 /**
-- 
2.43.0


From 9bfdb30e68f447e0a62b0460100dd1c2f97081d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:37 +0000
Subject: [PATCH 177/180] fix: attribute lists that start with a colon are
 ignored after inserted text and spans

---
 src/extensions/ial.c    | 5 +++--
 src/extensions/insert.c | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/extensions/ial.c b/src/extensions/ial.c
index d98f947..5fee965 100644
--- a/src/extensions/ial.c
+++ b/src/extensions/ial.c
@@ -4397,8 +4397,9 @@ char *apex_preprocess_bracketed_spans(const char *text) {
                             if (!is_reference_link) {
                                 /* This is a bracketed span - convert to <span> */
                                 /* Parse IAL attributes */
-                                size_t ial_len = ial_end - (ial_start + 1);
-                                apex_attributes *attrs = parse_ial_content(ial_start + 1, ial_len);
+                                const char *ial_content = ial_start[1] == ':' ? ial_start + 2 : ial_start + 1;
+                                size_t ial_len = ial_end - ial_content;
+                                apex_attributes *attrs = parse_ial_content(ial_content, ial_len);
 
                                 /* Braces without any attribute are text, not an IAL */
                                 if (attrs && !attrs->id && attrs->class_count == 0 && attrs->attr_count == 0) {
diff --git a/src/extensions/insert.c b/src/extensions/insert.c
index 838cf3f..3bfa50f 100644
--- a/src/extensions/insert.c
+++ b/src/extensions/insert.c
@@ -126,10 +126,11 @@ char *apex_process_inserts(const char *text) {
 
                     if (ial_start) {
                         /* Has IAL - convert to <ins markdown="span" ...>text</ins> */
-                        size_t ial_len = (ial_end - 1) - (ial_start + 1);  /* Content inside {} */
+                        const char *ial_content = ial_start[1] == ':' ? ial_start + 2 : ial_start + 1;
+                        size_t ial_len = (ial_end - 1) - ial_content;  /* Content inside {} or {:} */
 
                         /* Parse IAL attributes */
-                        apex_attributes *attrs = parse_ial_content(ial_start + 1, ial_len);
+                        apex_attributes *attrs = parse_ial_content(ial_content, ial_len);
 
                         /* Braces without any attribute are text ({note}, {++critic++}) */
                         if (attrs && !attrs->id && attrs->class_count == 0 && attrs->attr_count == 0) {
-- 
2.43.0


From 8ab0e03b82ec14cab989c96a81bab7b34e6de8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:43 +0000
Subject: [PATCH 178/180] fix: inline elements with markdown=span make lists
 loose

---
 src/extensions/html_markdown.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/extensions/html_markdown.c b/src/extensions/html_markdown.c
index b73422e..e73a0e6 100644
--- a/src/extensions/html_markdown.c
+++ b/src/extensions/html_markdown.c
@@ -404,9 +404,10 @@ char *apex_process_html_markdown_masked(const char *text, const char *mask, void
                 remaining -= closing_len;
             }
 
-            /* Ensure newline after closing tag so following markdown is parsed correctly */
+            /* Ensure newline after closing tag so following markdown is parsed correctly
+             * (an inline element stays in its line) */
             /* Check if closing tag ends with newline */
-            bool needs_newline = true;
+            bool needs_newline = !parse_inline;
             if (closing_len > 0) {
                 const char *last_char = closing_tag_start + closing_len - 1;
                 if (*last_char == '\n' || (*last_char == '\r' && closing_len > 1 && *(last_char - 1) == '\n')) {
-- 
2.43.0


From 93218c6638e3e9466eb1ceadc35b355385c5920f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:57 +0000
Subject: [PATCH 179/180] fix: --width breaks lines within UTF-8 characters

---
 cli/main.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cli/main.c b/cli/main.c
index a821df0..b5169f4 100644
--- a/cli/main.c
+++ b/cli/main.c
@@ -793,8 +793,11 @@ static char *wrap_ansi_to_width(const char *input, int width) {
             continue;
         }
 
+        /* The continuation bytes of a UTF-8 character belong to its first byte. */
+        bool continuation = ((unsigned char)c & 0xC0) == 0x80;
+
         /* Insert a newline before adding another visible char if we've hit width. */
-        if (col >= width) {
+        if (col >= width && !continuation) {
             if (oi + 1 >= cap) {
                 cap *= 2;
                 char *nb = realloc(out, cap);
@@ -818,7 +821,7 @@ static char *wrap_ansi_to_width(const char *input, int width) {
             out = nb;
         }
         out[oi++] = c;
-        col++;
+        if (!continuation) col++;
         i++;
     }
 
-- 
2.43.0


From d9623cd7b2f457463cd7f961111e12f99756e218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:38 +0000
Subject: [PATCH 180/180] fix: quotation marks in headings are lost in man
 output

---
 src/ast_man.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ast_man.c b/src/ast_man.c
index 147c30b..6fc22d1 100644
--- a/src/ast_man.c
+++ b/src/ast_man.c
@@ -66,6 +66,11 @@ static void man_buf_append_roff_safe(man_buffer *b, const char *str, size_t len)
             man_buf_append(b, (const char *)&c, 1);
             i++;
             at_line_start = false;
+        } else if (c == '"') {
+            /* a plain quote would be taken away from the arguments of .TH, .SH and .SS */
+            man_buf_append_str(b, "\\(dq");
+            i++;
+            at_line_start = false;
         } else if (c == 0x2D) {
             /* hyphen-minus: use \- so man doesn't break line on it; keeps -- visible */
             man_buf_append_str(b, "\\-");
-- 
2.43.0

