From 925fbc98173934da7321e25b31adc924bf502047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:00 +0000
Subject: [PATCH 01/34] fix: an ESC that starts no escape sequence must not
 swallow the following character

---
 src/unicode.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/unicode.c b/src/unicode.c
index a3b2b7d..3a5b443 100644
--- a/src/unicode.c
+++ b/src/unicode.c
@@ -195,6 +195,10 @@ uint32_t *advance_next32(const uint32_t *s, size_t *invis)
                 break;
             }
         } else {
+            if (ansipos > 0) {
+                /* The ESC did not start an escape sequence, so `c` is the next visible char. Leave it to be read later. */
+                --rest;
+            }
             break;
         }
     }
-- 
2.43.0


From 7c53b1022e99801e493d74134b8125adee71691e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:05 +0000
Subject: [PATCH 02/34] fix: keep the string terminated when inserting spaces
 into it

---
 src/unicode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/unicode.c b/src/unicode.c
index 3a5b443..0697db4 100644
--- a/src/unicode.c
+++ b/src/unicode.c
@@ -358,7 +358,7 @@ void u32_insert_space_at(uint32_t **s, const size_t idx, const size_t n)
     }
 
     *s = (uint32_t *) realloc(*s, (len + 1 + n) * sizeof(uint32_t));
-    u32_move(*s + x + n, *s + x, len - x);
+    u32_move(*s + x + n, *s + x, len - x + 1);  /* including the terminator */
     u32_set(*s + x, char_space, n);
 }
 
-- 
2.43.0


From f6500bf1356f919921a89ee7fb5d7d58662214c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:10 +0000
Subject: [PATCH 03/34] fix: do not look before the start of an empty line when
 trimming line breaks

---
 src/input.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/input.c b/src/input.c
index 1442d6e..ba640a6 100644
--- a/src/input.c
+++ b/src/input.c
@@ -196,11 +196,11 @@ static void trim_trailing_ws_carefully(uint32_t *mbtemp, size_t *len_chars)
 {
     if (opt.r) {
         /* remove only trailing line breaks, but keep the space */
-        if (is_char_at(mbtemp, *len_chars - 1, char_newline)) {
+        if (*len_chars > 0 && is_char_at(mbtemp, *len_chars - 1, char_newline)) {
             set_char_at(mbtemp, *len_chars - 1, char_nul);
             --(*len_chars);
         }
-        if (is_char_at(mbtemp, *len_chars - 1, char_cr)) {
+        if (*len_chars > 0 && is_char_at(mbtemp, *len_chars - 1, char_cr)) {
             set_char_at(mbtemp, *len_chars - 1, char_nul);
             --(*len_chars);
         }
-- 
2.43.0


From d19dcf9e1d531e4b428c72a91b4df5a16bb78ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:39 +0000
Subject: [PATCH 04/34] fix: reserve room for tabs in the ASCII form of a
 string

---
 src/bxstring.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bxstring.c b/src/bxstring.c
index 27abdea..5873d56 100644
--- a/src/bxstring.c
+++ b/src/bxstring.c
@@ -90,7 +90,7 @@ bxstr_t *bxs_from_unicode(uint32_t *pInput)
     bxstr_t *result = (bxstr_t *) calloc(1, sizeof(bxstr_t));
     result->memory = u32_strdup(pInput);
     result->num_chars = u32_strlen(pInput);
-    size_t ascii_len = ((size_t) u32_strwidth(pInput, encoding)) + 1;
+    size_t ascii_len = 2 * result->num_chars + 1;   /* no character, including tab, is wider than two columns */
     result->ascii = (char *) calloc(ascii_len, sizeof(char));
     size_t map_size = 5;
     result->first_char = (size_t *) calloc(map_size, sizeof(size_t));
-- 
2.43.0


From fbdec1b4b6a62c6bc471c2c9bf23f62cbf15e878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:08 +0000
Subject: [PATCH 05/34] fix: count indentation in characters so that
 double-wide blanks do not eat text

---
 src/bxstring.c | 2 +-
 src/input.c    | 8 +++-----
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/bxstring.c b/src/bxstring.c
index 5873d56..c1cf341 100644
--- a/src/bxstring.c
+++ b/src/bxstring.c
@@ -144,7 +144,7 @@ bxstr_t *bxs_from_unicode(uint32_t *pInput)
             }
             if (is_blank(c)) {
                 if (indent_active) {
-                    result->indent += cols;
+                    result->indent++;
                 }
                 blank_streak++;
             }
diff --git a/src/input.c b/src/input.c
index ba640a6..7059a78 100644
--- a/src/input.c
+++ b/src/input.c
@@ -308,16 +308,15 @@ int analyze_input(input_t *result)
      *  a box or if the user wants to retain it inside the box)
      */
     if (opt.design->indentmode != 't' && opt.r == 0) {
+        result->maxline = 0;
         for (size_t i = 0; i < result->num_lines; ++i) {
             if (result->lines[i].text->num_columns >= result->indent) {
-                /*
-                 * We should really remove *columns* rather than *characters*, but since the removed characters are
-                 * spaces (indentation), and there are no double-wide spaces in Unicode, both actions are equivalent.
-                 */
+                /* The indent counts characters. Some of them may be double-wide, such as U+3000. */
                 bxstr_t *unindented = bxs_cut_front(result->lines[i].text, result->indent);
                 bxs_free(result->lines[i].text);
                 result->lines[i].text = unindented;
             }
+            analyze_line_ascii(result, result->lines + i);   /* update maxline value */
             if (is_debug_logging(MAIN)) {
                 char *outtext = bxs_to_output(result->lines[i].text);
                 log_debug(__FILE__, MAIN, "%2d: text = \"%s\" (%d chars, %d visible, %d invisible, %d columns)\n",
@@ -328,7 +327,6 @@ int analyze_input(input_t *result)
                 BFREE(outtext);
             }
         }
-        result->maxline -= result->indent;
     }
 
     /*
-- 
2.43.0


From e980a0c97a789fc5c21418f8be97860e8d861880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:13 +0000
Subject: [PATCH 06/34] fix: refuse input with illegal characters instead of
 crashing on it

---
 src/input.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/input.c b/src/input.c
index 7059a78..6c4803d 100644
--- a/src/input.c
+++ b/src/input.c
@@ -159,6 +159,9 @@ int apply_substitutions(input_t *result, const int mode)
 
             bxs_free(result->lines[k].text);
             result->lines[k].text = bxs_from_unicode(newtext);
+            if (result->lines[k].text == NULL) {
+                return 1;   /* illegal character, already reported */
+            }
 
             analyze_line_ascii(result, result->lines + k);   /* update maxline value */
 
@@ -254,6 +257,9 @@ input_t *read_all_input()
             }
             result->lines[result->num_lines].text = bxs_from_unicode(temp);
             BFREE(temp);
+            if (result->lines[result->num_lines].text == NULL) {
+                return NULL;   /* illegal character, already reported */
+            }
         }
         else {
             result->lines[result->num_lines].text = bxs_new_empty_string();
-- 
2.43.0


From 789e61cbb30e7ac7231753744cd359bed7fb2f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:41 +0000
Subject: [PATCH 07/34] fix: blanks of an all-blank ASCII string are
 indentation, not trailing space

---
 src/bxstring.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bxstring.c b/src/bxstring.c
index c1cf341..1efa1f9 100644
--- a/src/bxstring.c
+++ b/src/bxstring.c
@@ -66,7 +66,7 @@ bxstr_t *bxs_from_ascii(char *pAscii)
     result->num_chars_visible = result->num_chars - result->num_chars_invisible;
 
     result->indent = strspn(pAscii, " ");
-    result->trailing = my_strrspn(pAscii, " ");
+    result->trailing = result->indent < result->num_chars ? my_strrspn(pAscii, " ") : 0;
 
     result->first_char = calloc(result->num_chars_visible + 1, sizeof(size_t));
     result->visible_char = calloc(result->num_chars_visible + 1, sizeof(size_t));
-- 
2.43.0


From b9d1e60d17c91760f1a2a8db1c9cd33f75a8ca68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:41 +0000
Subject: [PATCH 08/34] fix: cut trailing space of an indented, colored shape
 line at the right place

---
 src/detect.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/detect.c b/src/detect.c
index aad1fe5..f648934 100644
--- a/src/detect.c
+++ b/src/detect.c
@@ -166,8 +166,9 @@ uint32_t *prepare_comp_shape(
         result = u32_strdup(trim_left ? bxs_unindent_ptr(shape_line) : shape_line->memory);
 
         if (trim_right && shape_line->trailing > 0) {
-            size_t x = shape_line->num_chars_visible - (trim_left ? shape_line->indent : 0) - shape_line->trailing;
-            set_char_at(result, shape_line->first_char[x], char_nul);
+            size_t x = shape_line->first_char[shape_line->num_chars_visible - shape_line->trailing]
+                     - (trim_left ? shape_line->first_char[shape_line->indent] : 0);
+            set_char_at(result, x, char_nul);
         }
     }
     return result;
-- 
2.43.0


From 16b79727546a6f68dc4a3ed13f0132b706c14079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:11 +0000
Subject: [PATCH 09/34] fix: keep the right padding when one column is free and
 text is aligned right

---
 src/generate.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generate.c b/src/generate.c
index ea937d7..08d92f5 100644
--- a/src/generate.c
+++ b/src/generate.c
@@ -957,7 +957,7 @@ int output_box(const sentry_t *thebox)
     hpl = 0;
     hpr = 0;
     if (hfill == 1) {
-        if (opt.halign == 'r'
+        if ((opt.halign == 'r' && opt.design->padding[BRIG] == 0)
                 || opt.design->padding[BLEF] > opt.design->padding[BRIG]) {
             hpl = 1;
             hpr = 0;
-- 
2.43.0


From 5b17647b0a47dac0936452fa9913fd95e973a15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:11 +0000
Subject: [PATCH 10/34] fix: restore second and later tabs of an indentation at
 the right place (-t 8k)

---
 src/tools.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tools.c b/src/tools.c
index 2960f62..6c3554a 100644
--- a/src/tools.c
+++ b/src/tools.c
@@ -267,6 +267,7 @@ size_t expand_tabs_into(const uint32_t *input_buffer, const int tabstop, uint32_
         }
     }
     temp[io] = 0;
+    *tabpos_len = tabnum;                       /* less if the line was too long */
 
     *text = u32_strdup(temp);
     if (*text == NULL) {
@@ -391,7 +392,8 @@ uint32_t *tabbify_indent(const size_t lineno, uint32_t *indentspc, const size_t
         if (tpos + nspc > input.indent) {
             break;
         }
-        set_char_at(result, tpos, char_tab);
+        /* earlier tabs have already shortened the result */
+        set_char_at(result, tpos - (indentspc_len - result_len), char_tab);
         result_len -= nspc - 1;
         set_char_at(result, result_len, char_nul);
     }
-- 
2.43.0


From c6a3020aaec798007399620bed426bf754b37db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:42 +0000
Subject: [PATCH 11/34] fix: keep the indentation of lines whose west shape was
 not removed

---
 src/remove.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/remove.c b/src/remove.c
index 3081894..c90116d 100644
--- a/src/remove.c
+++ b/src/remove.c
@@ -1023,15 +1023,15 @@ static void remove_vertical_from_input(remove_ctx_t *ctx)
                 (int) input.indent);
 
         bxstr_t *temp2 = bxs_substr(org_line, s_idx, e_idx);
-        if (opt.indentmode == 'b' || opt.indentmode == '\0') {
-            /* restore indentation */
+        if ((opt.indentmode == 'b' || opt.indentmode == '\0') && ctx->body[body_line_idx].west_quality > 0) {
+            /* restore indentation, which was removed along with the west shape */
             bxstr_t *temp = bxs_prepend_spaces(temp2, input.indent);
             free_line_text(input.lines + input_line_idx);
             input.lines[input_line_idx].text = temp;
             bxs_free(temp2);
         }
         else {
-            /* remove indentation */
+            /* remove indentation, or keep the line's own if no west shape was cut off */
             free_line_text(input.lines + input_line_idx);
             input.lines[input_line_idx].text = temp2;
         }
-- 
2.43.0


From 59e7321af49c43df3687b6b27253e8b42a554fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:15 +0000
Subject: [PATCH 12/34] fix: do not remove text in front of a shortened west
 shape

---
 src/remove.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/remove.c b/src/remove.c
index c90116d..e278d3f 100644
--- a/src/remove.c
+++ b/src/remove.c
@@ -720,8 +720,7 @@ static void match_vertical_side(remove_ctx_t *ctx, int vside, shape_line_ctx_t *
             continue;
         }
 
-        size_t max_quality = (*shape_line_ctx)->text->num_chars;
-        size_t quality = max_quality;
+        size_t quality = (*shape_line_ctx)->text->num_chars;
         uint32_t *shape_text = (*shape_line_ctx)->text->memory;
         uint32_t *to_free = NULL;
         while(shape_text != NULL) {
@@ -736,7 +735,7 @@ static void match_vertical_side(remove_ctx_t *ctx, int vside, shape_line_ctx_t *
             shape_text = NULL;
 
             if ((p == NULL)
-                    || (vside == BLEF && ((size_t) (p - input_line) > input_indent + (max_quality - quality)))
+                    || (vside == BLEF && ((size_t) (p - input_line) > input_indent))
                     || (vside == BRIG && ((size_t) (p - input_line) < input_length - input_trailing - quality))) {
                 shape_text = shorten(*shape_line_ctx, &quality, vside == BLEF, 1, 1);
                 to_free = shape_text;
-- 
2.43.0


From e37f96bf2b30a0f3191aca81ed7321bf3dc37910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:17 +0000
Subject: [PATCH 13/34] fix: do not crash when west and east shape match the
 same blanks

---
 src/remove.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/remove.c b/src/remove.c
index e278d3f..e8b0b23 100644
--- a/src/remove.c
+++ b/src/remove.c
@@ -1016,7 +1016,7 @@ static void remove_vertical_from_input(remove_ctx_t *ctx)
         size_t input_line_idx = ctx->top_end_idx + body_line_idx;
         bxstr_t *org_line = input.lines[input_line_idx].text;
         size_t s_idx = calculate_start_idx(ctx, body_line_idx);
-        size_t e_idx = calculate_end_idx(ctx, body_line_idx);
+        size_t e_idx = BMAX(s_idx, calculate_end_idx(ctx, body_line_idx));  /* blank matches may overlap */
         log_debug(__FILE__, MAIN, "remove_vertical_from_input(): body_line_idx=%d, input_line_idx=%d, s_idx=%d, "
                 "e_idx=%d, input.indent=%d\n", (int) body_line_idx, (int) input_line_idx, (int) s_idx, (int) e_idx,
                 (int) input.indent);
-- 
2.43.0


From 1a279273a9819face7b69dac1d4722d6924134b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:42 +0000
Subject: [PATCH 14/34] fix: decide on killing blank lines by the detected
 design, not the first one

---
 src/boxes.c  | 7 -------
 src/remove.c | 4 ++++
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/boxes.c b/src/boxes.c
index 90f046e..801ec0f 100644
--- a/src/boxes.c
+++ b/src/boxes.c
@@ -384,13 +384,6 @@ static void handle_remove_box()
 {
     log_debug(__FILE__, MAIN, "Removing Box ...\n");
 
-    if (opt.killblank == -1) {
-        if (empty_side(opt.design->shape, BTOP) && empty_side(opt.design->shape, BBOT)) {
-            opt.killblank = 0;
-        } else {
-            opt.killblank = 1;
-        }
-    }
     int rc = remove_box();
     if (rc) {
         exit(EXIT_FAILURE);
diff --git a/src/remove.c b/src/remove.c
index e8b0b23..b5f513b 100644
--- a/src/remove.c
+++ b/src/remove.c
@@ -1120,6 +1120,10 @@ int remove_box()
     log_debug(__FILE__, MAIN, "Empty sides? Top: %d, Right: %d, Bottom: %d, Left: %d\n",
             ctx->empty_side[BTOP], ctx->empty_side[BRIG], ctx->empty_side[BBOT], ctx->empty_side[BLEF]);
 
+    if (opt.killblank == -1) {
+        opt.killblank = ctx->empty_side[BTOP] && ctx->empty_side[BBOT] ? 0 : 1;
+    }
+
     ctx->design_is_mono = design_is_mono(opt.design);
     ctx->input_is_mono = input_is_mono();
 
-- 
2.43.0


From 12dc0463c9c28399753dacff493e207a8c46010d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:00 +0000
Subject: [PATCH 15/34] fix: redraw a mended box with the settings of the
 detected design

---
 src/boxes.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/boxes.c b/src/boxes.c
index 801ec0f..e9f37d5 100644
--- a/src/boxes.c
+++ b/src/boxes.c
@@ -526,6 +526,7 @@ int main(int argc, char *argv[])
         exit(rc);
     }
 
+    design_t *adjusted_design = opt.design;
     apply_expected_size();
     if (opt.indentmode) {
         opt.design->indentmode = opt.indentmode;
@@ -538,6 +539,15 @@ int main(int argc, char *argv[])
             opt.r = 0;        /* opt.mend == 2: remove box          */
         }
         --opt.mend;           /* opt.mend == 1: add it back         */
+        if (opt.design != adjusted_design) {  /* removing the box detected a different design */
+            adjusted_design = opt.design;
+            apply_expected_size();
+            if (opt.indentmode) {
+                opt.design->indentmode = opt.indentmode;
+            }
+            saved_designwidth = opt.design->minwidth;
+            saved_designheight = opt.design->minheight;
+        }
         opt.design->minwidth = saved_designwidth;
         opt.design->minheight = saved_designheight;
 
-- 
2.43.0


From 08e0444359b9b91bd455e6abdfffd9d6e74d7941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:22 +0000
Subject: [PATCH 16/34] fix: detect designs which have only a top or only a
 bottom

---
 src/detect.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/detect.c b/src/detect.c
index f648934..ec7316e 100644
--- a/src/detect.c
+++ b/src/detect.c
@@ -355,7 +355,7 @@ static size_t find_east_corner(design_t *current_design, comparison_t comp_type,
 static size_t find_horizontal_shape(design_t *current_design, comparison_t comp_type, int *empty, shape_t hshape)
 {
     size_t hits = 0;
-    if (empty[BTOP] || empty[BBOT]) {
+    if (hshape >= SSE && hshape <= SSW ? empty[BBOT] : empty[BTOP]) {
         /* horizontal box part is empty */
         log_debug(__FILE__, MAIN, "Checking %-3s shape produced %d hits.\n", shape_name[hshape], (int) hits);
         return hits;
-- 
2.43.0


From 3ac2981ce30825fd08c3f5593f99f45371a4fa2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:34 +0000
Subject: [PATCH 17/34] fix: do not parse the first config file again when a
 parent refers back to it

---
 src/parsing.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parsing.c b/src/parsing.c
index 65d21be..a5c5d13 100644
--- a/src/parsing.c
+++ b/src/parsing.c
@@ -219,7 +219,8 @@ static int record_parent_config_files(pass_to_bison *bison_args)
     if (bison_args->num_parent_configs > 0) {
         for (int parent_idx = bison_args->num_parent_configs - 1; parent_idx >= 0; parent_idx--) {
             bxstr_t *parent_file = bison_args->parent_configs[parent_idx];
-            int is_new = !array_contains_bxs(parent_configs, num_parent_configs, parent_file);
+            int is_new = !array_contains_bxs(parent_configs, num_parent_configs, parent_file)
+                    && bxs_strcmp(parent_file, first_config_file) != 0;
             if (is_new) {
                 parent_configs = (bxstr_t **) realloc(parent_configs, (num_parent_configs + 1) * sizeof(bxstr_t *));
                 if (parent_configs == NULL) {
-- 
2.43.0


From d8ec2f45c23c0ecb95ca994c84fc4ff29cecdbea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:52 +0000
Subject: [PATCH 18/34] fix: take the size of a missing SW corner from the west
 side

---
 src/parsecode.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/parsecode.c b/src/parsecode.c
index 9d5eb1c..fd89800 100644
--- a/src/parsecode.c
+++ b/src/parsecode.c
@@ -467,27 +467,27 @@ int action_finalize_shapes(pass_to_bison *bison_args)
     }
 
     for (sc = 0, side = fside; sc < NUM_SIDES; ++sc, side = (side + 1) % NUM_SIDES) {
-        shape_t nshape; /* next shape */
         sentry_t *c;    /* corner to be processed */
         c = curdes.shape + sides[side][SHAPES_PER_SIDE - 1];
 
         if (isempty(c)) {
-            nshape = findshape(c, SHAPES_PER_SIDE);
+            const shape_t *next_side = sides[(side + 1) % NUM_SIDES];   /* starts with this corner */
+            for (i = 0; i < SHAPES_PER_SIDE && isempty(curdes.shape + next_side[i]); ++i);
             if (side == BLEF || side == BRIG) {
-                if (nshape == SHAPES_PER_SIDE) {
+                if (i == SHAPES_PER_SIDE) {
                     c->height = 1;
                 }
                 else {
-                    c->height = c[nshape].height;
+                    c->height = curdes.shape[next_side[i]].height;
                 }
                 c->width = curdes.shape[fshape].width;
             }
             else {
-                if (nshape == SHAPES_PER_SIDE) {
+                if (i == SHAPES_PER_SIDE) {
                     c->width = 1;
                 }
                 else {
-                    c->width = c[nshape].width;
+                    c->width = curdes.shape[next_side[i]].width;
                 }
                 c->height = curdes.shape[fshape].height;
             }
-- 
2.43.0


From a59b5f9afd3d79e0be835f1bdeb8d86fc4fe5db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:16 +0000
Subject: [PATCH 19/34] fix: box width follows the substituted lines, not the
 ones before substitution

---
 src/input.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/input.c b/src/input.c
index 6c4803d..fc1c423 100644
--- a/src/input.c
+++ b/src/input.c
@@ -135,6 +135,7 @@ int apply_substitutions(input_t *result, const int mode)
     /*
      *  Apply regular expression substitutions to input lines
      */
+    result->maxline = 0;
     for (k = 0; k < result->num_lines; ++k) {
         opt.design->current_rule = rules;
         for (j = 0; j < num_rules; ++j, ++(opt.design->current_rule)) {
@@ -163,8 +164,6 @@ int apply_substitutions(input_t *result, const int mode)
                 return 1;   /* illegal character, already reported */
             }
 
-            analyze_line_ascii(result, result->lines + k);   /* update maxline value */
-
             if (is_debug_logging(REGEXP)) {
                 char *outtext2 = bxs_to_output(result->lines[k].text);
                 log_debug(__FILE__, REGEXP, "result->lines[%d] == {%d, \"%s\"}\n",
@@ -173,6 +172,7 @@ int apply_substitutions(input_t *result, const int mode)
             }
         }
         opt.design->current_rule = NULL;
+        analyze_line_ascii(result, result->lines + k);   /* update maxline value */
     }
 
     /*
-- 
2.43.0


From 9ad0cda30616080b881fcbfeb90395321029b013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:01 +0000
Subject: [PATCH 20/34] fix: the bottom side of a box was looked for in its top
 side, removing crashed if both are the same line

---
 src/remove.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/remove.c b/src/remove.c
index b5f513b..a6002d8 100644
--- a/src/remove.c
+++ b/src/remove.c
@@ -623,7 +623,8 @@ static size_t find_bottom_side(remove_ctx_t *ctx)
     size_t result = ctx->bottom_end_idx;
     sentry_t *shapes = opt.design->shape;
     for (long input_line_idx = (long) ctx->bottom_end_idx - 1;
-            input_line_idx >= 0 && input_line_idx >= (long) ctx->bottom_end_idx - (long) shapes[SE].height;
+            input_line_idx >= (long) ctx->top_end_idx
+                    && input_line_idx >= (long) ctx->bottom_end_idx - (long) shapes[SE].height;
             input_line_idx--)
     {
         int matched = 0;
-- 
2.43.0


From f7c619d0a19c3bdef41170e650be826d9339713d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:19 +0000
Subject: [PATCH 21/34] fix: blanks at the start of a left corner were not cut
 off when looking for it, another character was

---
 src/remove.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/remove.c b/src/remove.c
index a6002d8..de1ea8b 100644
--- a/src/remove.c
+++ b/src/remove.c
@@ -478,7 +478,7 @@ match_result_t *match_outer_shape(int vside, bxstr_t *input_line, bxstr_t *shape
         if (bxs_is_blank(shape_line)) {
             return new_match_result(input_line->memory, 0, 0, 1);
         }
-        for (uint32_t *s = shape_line->memory; s == shape_line->memory || is_blank(*s); s++) {
+        for (uint32_t *s = shape_line->memory; s == shape_line->memory || is_blank(*(s - 1)); s++) {
             uint32_t *p = u32_strstr(input_line->memory, s);
             size_t p_idx = p != NULL ? p - input_line->memory : 0;
             if (p == NULL || p_idx > input_line->first_char[input_line->indent]) {
-- 
2.43.0


From debf9a1513769427ac638e727afe9ca252b5740c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:01 +0000
Subject: [PATCH 22/34] fix: padding option takes only a letter followed by a
 number that fits (ht2 set h to 0, huge numbers wrapped)

---
 src/cmdline.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/cmdline.c b/src/cmdline.c
index 2f98398..6e48c59 100644
--- a/src/cmdline.c
+++ b/src/cmdline.c
@@ -19,6 +19,7 @@
 
 #include "config.h"
 #include <errno.h>
+#include <limits.h>
 #include <getopt.h>
 #include <stdio.h>
 #include <string.h>
@@ -365,17 +366,18 @@ static int padding(opt_t *result, char *optarg)
 
     while (*p) {
         errfl = 0;
-        if (p[1] == '\0') {
+        if (p[1] < '0' || p[1] > '9') {
             errfl = 1;
             break;
         }
         char c = *p;
         errno = 0;
-        int size = (int) strtol(p + 1, &p, 10);
-        if (errno || size < 0) {
+        long num = strtol(p + 1, &p, 10);
+        if (errno || num > INT_MAX) {
             errfl = 1;
             break;
         }
+        int size = (int) num;
         switch (c) {
             case 'a': case 'A':
                 result->padding[BTOP] = size;
-- 
2.43.0


From f7f200f58a3958ce44393a0c5e8f1700a0162bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:01 +0000
Subject: [PATCH 23/34] fix: size option rejects trailing characters and a lone
 x instead of ignoring them (10abc, 5x5x5)

---
 src/cmdline.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/cmdline.c b/src/cmdline.c
index 6e48c59..00a223e 100644
--- a/src/cmdline.c
+++ b/src/cmdline.c
@@ -453,14 +453,18 @@ static int size_of_box(opt_t *result, char *optarg)
         *p = '\0';
     }
     errno = 0;
+    char *end = optarg;
+    int garbage = 0;
     if (optarg != p) {
-        result->reqwidth = strtol(optarg, NULL, 10);
+        result->reqwidth = strtol(optarg, &end, 10);
+        garbage = end == optarg || *end != '\0';
     }
     if (p) {
-        result->reqheight = strtol(p + 1, NULL, 10);
+        result->reqheight = strtol(p + 1, &end, 10);
+        garbage = garbage || *end != '\0' || (optarg == p && end == p + 1);
         *p = 'x';
     }
-    if (errno || (result->reqwidth == 0 && result->reqheight == 0) || result->reqwidth < 0 || result->reqheight < 0) {
+    if (errno || garbage || (result->reqwidth == 0 && result->reqheight == 0) || result->reqwidth < 0 || result->reqheight < 0) {
         bx_fprintf(stderr, "%s: invalid box size specification -- %s\n", PROJECT, optarg);
         return 1;
     }
-- 
2.43.0


From 670ae9857dd3a157b4b5ab57044fde1501575221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:01 +0000
Subject: [PATCH 24/34] fix: tab distance beyond int is rejected, not truncated
 to a valid one

---
 src/cmdline.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cmdline.c b/src/cmdline.c
index 00a223e..6dc3a5a 100644
--- a/src/cmdline.c
+++ b/src/cmdline.c
@@ -530,12 +530,12 @@ static int debug_areas(opt_t *result, char *optarg)
 static int tab_handling(opt_t *result, char *optarg)
 {
     char *p;
-    int width = (int) strtol(optarg, &p, 10);
+    long width = strtol(optarg, &p, 10);
     if (width < 1 || width > MAX_TABSTOP) {
-        bx_fprintf(stderr, "%s: invalid tab stop distance -- %d\n", PROJECT, width);
+        bx_fprintf(stderr, "%s: invalid tab stop distance -- %ld\n", PROJECT, width);
         return 1;
     }
-    result->tabstop = width;
+    result->tabstop = (int) width;
 
     int errfl = 0;
     if (*p != '\0') {
-- 
2.43.0


From 1641829a7708af51d359f91623563a4435128702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:01 +0000
Subject: [PATCH 25/34] fix: an invalid value of -k is rejected even if the
 setting was made before

---
 src/cmdline.c | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/cmdline.c b/src/cmdline.c
index 6dc3a5a..cf4abd0 100644
--- a/src/cmdline.c
+++ b/src/cmdline.c
@@ -336,17 +336,12 @@ static int indentation_mode(opt_t *result, char *optarg)
  */
 static int killblank(opt_t *result, char *optarg)
 {
+    if (!strisyes(optarg) && !strisno(optarg)) {
+        bx_fprintf(stderr, "%s: -k: invalid parameter\n", PROJECT);
+        return 1;
+    }
     if (result->killblank == -1) {
-        if (strisyes(optarg)) {
-            result->killblank = 1;
-        }
-        else if (strisno(optarg)) {
-            result->killblank = 0;
-        }
-        else {
-            bx_fprintf(stderr, "%s: -k: invalid parameter\n", PROJECT);
-            return 1;
-        }
+        result->killblank = strisyes(optarg) ? 1 : 0;
     }
     return 0;
 }
-- 
2.43.0


From ffafd6950269fc82a1a40a541c08f181feff0c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:06 +0000
Subject: [PATCH 26/34] fix: removing a box with --no-color still printed
 escape sequences

---
 src/remove.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/remove.c b/src/remove.c
index de1ea8b..ce789c5 100644
--- a/src/remove.c
+++ b/src/remove.c
@@ -1218,7 +1218,9 @@ void output_input(const int trim_only)
             indent = 0;
         }
 
-        char *outtext = u32_strconv_to_output(bxs_first_char_ptr(input.lines[j].text, indent));
+        bxstr_t *unindented = bxs_cut_front(input.lines[j].text, indent);
+        char *outtext = bxs_to_output(unindented);
+        bxs_free(unindented);
         fprintf(opt.outfile, "%s%s%s", indentspc, outtext,
                 (input.final_newline || j < input.num_lines - 1 ? opt.eol : ""));
         BFREE(outtext);
-- 
2.43.0


From fa59fc1dd102dab8677612053b5763f5caf08823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:06 +0000
Subject: [PATCH 27/34] fix: a tag query term ending in a line feed was
 accepted as a tag

---
 src/tools.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools.c b/src/tools.c
index 6c3554a..d3a5aaa 100644
--- a/src/tools.c
+++ b/src/tools.c
@@ -58,13 +58,13 @@ static pcre2_code *get_pattern_ascii_id(int strict)
     pcre2_code *result = NULL;
     if (strict) {
         if (pattern_ascii_id_strict == NULL) {
-            pattern_ascii_id_strict = compile_pattern("^(?!.*?--|none)[a-z][a-z0-9-]*(?<!-)$");
+            pattern_ascii_id_strict = compile_pattern("^(?!.*?--|none)[a-z][a-z0-9-]*(?<!-)\\z");
         }
         result = pattern_ascii_id_strict;
     }
     else {
         if (pattern_ascii_id == NULL) {
-            pattern_ascii_id = compile_pattern("^(?!.*?[-_]{2,}|none)[a-zA-Z][a-zA-Z0-9_-]*(?<![-_])$");
+            pattern_ascii_id = compile_pattern("^(?!.*?[-_]{2,}|none)[a-zA-Z][a-zA-Z0-9_-]*(?<![-_])\\z");
         }
         result = pattern_ascii_id;
     }
-- 
2.43.0


From dfb62230633853aec38afc72fbbc2881b291c0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:45 +0000
Subject: [PATCH 28/34] fix: removing a box dropped blank lines in spite of -k
 false

---
 src/remove.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/remove.c b/src/remove.c
index ce789c5..ea2cf2d 100644
--- a/src/remove.c
+++ b/src/remove.c
@@ -1076,7 +1076,7 @@ static void apply_results_to_input(remove_ctx_t *ctx)
 {
     remove_vertical_from_input(ctx);
 
-    if (opt.killblank || opt.mend) {
+    if (opt.killblank || opt.mend > 0) {
         killblank(ctx);
     }
     remove_bottom_from_input(ctx);
-- 
2.43.0


From 3d12aa1d8ec064b216837962eaf6c2a1474c6b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:02 +0000
Subject: [PATCH 29/34] fix: mending a box with an empty line in it made the
 box wider every time

---
 src/remove.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/remove.c b/src/remove.c
index ea2cf2d..435bf6f 100644
--- a/src/remove.c
+++ b/src/remove.c
@@ -1186,7 +1186,8 @@ void output_input(const int trim_only)
         if (input.lines[j].text == NULL) {
             continue;
         }
-        bxstr_t *temp = bxs_rtrim(input.lines[j].text);
+        bxstr_t *temp = trim_only && bxs_is_blank(input.lines[j].text)
+                ? bxs_new_empty_string() : bxs_rtrim(input.lines[j].text);
         bxs_free(input.lines[j].text);
         input.lines[j].text = temp;
         if (trim_only) {
-- 
2.43.0


From 8dd52433143fc1acd13dbe5ee9dff95d66430bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:24:32 +0000
Subject: [PATCH 30/34] fix: refuse a design without SAMPLE even if another
 entry was given twice

---
 src/parsecode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsecode.c b/src/parsecode.c
index fd89800..3eb4fee 100644
--- a/src/parsecode.c
+++ b/src/parsecode.c
@@ -695,7 +695,7 @@ int action_add_design(pass_to_bison *bison_args, char *design_primary_name, char
         yyerror(bison_args, "box design name differs at BOX and END");
         return RC_ERROR;
     }
-    if (bison_args->num_mandatory < 3) {
+    if (bison_args->num_mandatory < 3 || curdes.sample == NULL) {
         yyerror(bison_args, "entries SAMPLE, SHAPES, and ELASTIC are mandatory");
         return RC_ERROR;
     }
-- 
2.43.0


From f3c9837767af673028789764ef38d0af10612695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:24:32 +0000
Subject: [PATCH 31/34] fix: recognize upper case values of the indent keyword

---
 src/parsecode.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parsecode.c b/src/parsecode.c
index 3eb4fee..e854c06 100644
--- a/src/parsecode.c
+++ b/src/parsecode.c
@@ -19,6 +19,7 @@
 
 #include "config.h"
 
+#include <ctype.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -767,7 +768,7 @@ int action_record_keyword(pass_to_bison *bison_args, char *keyword, bxstr_t *val
     else if (strcasecmp(keyword, "indent") == 0) {
         char *val = value->ascii;
         if (strcasecmp(val, "text") == 0 || strcasecmp(val, "box") == 0 || strcasecmp(val, "none") == 0) {
-            curdes.indentmode = val[0];
+            curdes.indentmode = (char) tolower((unsigned char) val[0]);
         }
         else {
             yyerror(bison_args, "indent keyword must be followed by \"text\", \"box\", or \"none\"");
-- 
2.43.0


From 0afd6c1320c7096584282dc2b8d97e2ced5acf50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:24:32 +0000
Subject: [PATCH 32/34] fix: buffer overflow for multi-byte characters in a
 design given by -c

---
 src/boxes.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/boxes.c b/src/boxes.c
index e9f37d5..067f651 100644
--- a/src/boxes.c
+++ b/src/boxes.c
@@ -122,7 +122,12 @@ static int build_design(design_t **adesigns, const char *cld)
     }
     bxs_free(dp->shape[W].mbcs[0]);
     dp->shape[W].mbcs[0] = cldW;
-    strcpy(dp->shape[W].chars[0], cld);
+    BFREE(dp->shape[W].chars[0]);
+    dp->shape[W].chars[0] = (char *) strdup(cldW->ascii);
+    if (dp->shape[W].chars[0] == NULL) {
+        perror(PROJECT);
+        return 1;
+    }
 
     for (i = 0; i < NUM_SHAPES; ++i) {
         c = dp->shape + i;
-- 
2.43.0


From 1de199d65877b74d76cf2d303e6621f0c221aadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:24:32 +0000
Subject: [PATCH 33/34] fix: crash on an illegal character in a design given by
 -c

---
 src/boxes.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/boxes.c b/src/boxes.c
index 067f651..c278267 100644
--- a/src/boxes.c
+++ b/src/boxes.c
@@ -111,6 +111,9 @@ static int build_design(design_t **adesigns, const char *cld)
     uint32_t *cld_u32 = u32_strconv_from_arg(cld, "UTF-8");
     bxstr_t *cldW = bxs_from_unicode(cld_u32);
     BFREE(cld_u32);
+    if (cldW == NULL) {
+        return 1;
+    }
 
     dp->shape[W].name = W;
     dp->shape[W].height = 1;
-- 
2.43.0


From 3528422c8aff46dbff26e9f4501a856e863e01fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:24:32 +0000
Subject: [PATCH 34/34] fix: crash on an illegal character in a string of a
 configuration file

---
 src/lexer.l | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lexer.l b/src/lexer.l
index e8f14f1..0402f5b 100644
--- a/src/lexer.l
+++ b/src/lexer.l
@@ -188,6 +188,9 @@ PFILENAME [^\r\n]+
             yylval->s = bxs_from_unicode(utf8);
             BFREE(utf8);
             BFREE(str);
+            if (yylval->s == NULL) {
+                return YUNREC;           /* illegal character, which was already reported */
+            }
             return STRING;
         }
         --rest_len;
-- 
2.43.0

