//@title removing a box: where box parts are found
//@variants vside outer topside botside vshapes apply box out
//@src remove.c
//@link unicode.c shape.c
//@prop C14
//@prop.out C14 C13 C16
//@funcs.vside match_vertical_side
//@funcs.outer match_outer_shape new_match_result
//@funcs.topside find_top_side
//@funcs.botside find_bottom_side
//@funcs.vshapes find_vertical_shapes
//@funcs.apply apply_results_to_input
//@funcs.box remove_box
//@funcs.out output_input
//@loops.vside match_vertical_side:0 match_vertical_side:1
//@loops.outer match_outer_shape:0 match_outer_shape:1
//@loops.topside find_top_side:0 find_top_side:1
//@loops.botside find_bottom_side:0 find_bottom_side:1
//@loops.vshapes find_vertical_shapes:0 find_vertical_shapes:1
//@loops.apply apply_results_to_input:0
//@loops.box remove_box:0
//@loops.out output_input:0
//@replace.vside u32_strstr=strstr_c u32_strnrstr=strnrstr_c shorten=shorten_c u32_strdup=dup_c free=free_c
//@replace.outer u32_strstr=ostrstr_c u32_strnrstr=ostrnrstr_c u32_strdup=odup_c free=free_c bxs_is_blank=oblank_c bxs_last_char_ptr=olast_c
//@replace.topside match_horiz_line=hline_c
//@replace.botside match_horiz_line=hline_c
//@replace.vshapes comp_type_is_viable=viable_c reset_body=reset_c prepare_comp_shapes_vert=pvert_c prepare_comp_input=pinput_c u32_strlen=slen_c match_vertical_side=mvs_c free_shape_lines=fsl_c sufficient_body_quality=suff_c
//@replace.apply remove_vertical_from_input=rvert_c killblank=kill_c remove_bottom_from_input=rbot_c remove_top_from_input=rtop_c remove_default_padding=rpad_c is_debug_logging=debug_c
//@replace.box detect_design_if_needed=detect_c empty_side=eside_c design_is_mono=dmono_c input_is_mono=imono_c find_first_line=first_c find_last_line=last_c find_top_side=ftop_c find_bottom_side=fbot_c find_vertical_shapes=fvert_c apply_results_to_input=results_c debug_print_remove_ctx=dprint_c free=free_c
//@replace.out bxs_rtrim=rtrim_c bxs_is_blank=ublank_c bxs_new_empty_string=uempty_c bxs_free=ofree_c tabbify_indent=tabbify_c u32_strconv_to_output=conv_c bxs_cut_front=cut_c bxs_to_output=toout_c fprintf=fprintf_c free=free_c
//@assume callees by their contracts (units remove_parts, shapes, detect_parts, bxs_build, bxs_query, tabs); u32_strstr and u32_strdup as documented in libunistring
//@noeffect bx_fprintf log_debug log_debug_cont is_debug_logging
//@nonative removing is run by the whole-program units e2e_remove
#include "common.h"
#include "texts.h"
#include "boxes.h"
#include "shape.h"
#include "detect.h"
#include "remove.h"
static size_t g_n, g_m, g_j, g_k, g_o, g_qn, g_ind, g_tr, g_bq, g_bo, g_q0, g_s0, g_e0, g_seen, g_s, g_e, g_h, g_full;
static uint32_t *g_line, *g_cur, *g_pool;
static int g_v[4], g_tt, g_first, g_vs, g_t, g_hit, g_ct, g_last;
static bxstr_t *g_tb;
#ifdef GVC
void free_c(void *p) {}
int debug_c(int a) { return 0; }
#endif
/* vside: shape line g_k is arbitrary; the first longest acceptable match wins */
#define BESTQ (g_vs ? line_ctx->west_quality : line_ctx->east_quality)
#define BESTS (g_vs ? line_ctx->west_start : line_ctx->east_start)
#define BESTE (g_vs ? line_ctx->west_end : line_ctx->east_end)
#define BESTOK (BESTQ == g_bq && g_bq >= g_q0 && (g_bq == g_q0 ? BESTS == g_s0 && BESTE == g_e0 : BESTS == g_bo && BESTE == g_bo + g_bq && g_bo + g_bq <= g_n && (g_vs ? g_bo <= g_ind : g_bo + g_bq + g_tr >= g_n)))
#define LCKEEP(n) vc_w(n, line_ctx), g_vs ? vc_keep(n, &line_ctx->east_quality), vc_keep(n, &line_ctx->east_start), vc_keep(n, &line_ctx->east_end) : 0
#define OTHER (g_vs ? line_ctx->east_quality == g_oq && line_ctx->east_start == g_os && line_ctx->east_end == g_oe : line_ctx->west_quality == g_oq && line_ctx->west_start == g_os && line_ctx->west_end == g_oe)
static size_t g_oq, g_os, g_oe;
#define LOOP_match_vertical_side_0 vc_w(0, line_ctx), vc_inv(0, shape_line_ctx == g_sl + (shape_line_ctx - g_sl) && shape_line_ctx >= g_sl && (size_t) (shape_line_ctx - g_sl) <= g_m && BESTOK && OTHER \
    && ((size_t) (shape_line_ctx - g_sl) > g_k ? g_seen == (g_sc[g_k].empty ? 0 : 1) : g_seen == 0))
#define BODY_match_vertical_side_0 g_j = (size_t) (shape_line_ctx - g_sl); ASSUME(g_j < g_m && g_sl[g_j] == g_sc + g_j && g_sc[g_j].text == g_tb + g_j); g_cur = g_tb[g_j].memory; g_qn = g_tb[g_j].num_chars; g_first = 1; g_full = g_qn; ASSUME(g_qn <= (1UL << 30) && g_cur != NULL)
#define LOOP_match_vertical_side_1 vc_w(1, line_ctx), vc_w(1, &quality), vc_inv(1, (shape_text == NULL || shape_text == g_cur) && quality == g_qn && g_qn <= g_full && BESTOK && OTHER && (!g_first || shape_text != NULL) \
    && (g_j > g_k ? g_seen == (g_sc[g_k].empty ? 0 : 1) : g_j == g_k ? g_seen == (g_first ? 0 : 1) : g_seen == 0))
static shape_line_ctx_t **g_sl, *g_sc;
#define LOOP_match_outer_shape_0 vc_inv(0, s == g_cur + (s - g_cur) && s >= g_cur && (size_t) (s - g_cur) <= g_o + 1 && ALL(k_, 0, s > g_cur ? s - g_cur - 1 : 0, BLANKP(g_cur[k_])))
#define BODY_match_outer_shape_0 g_j = (size_t) (s - g_cur)
#define LOOP_match_outer_shape_1 vc_w(1, g_pool), vc_inv(1, s == g_pool && slen >= (int) g_o && slen <= (int) g_m && ALL(k_, slen + 1, g_m, BLANKP(g_cur[k_])) && ALL(k_, 0, slen + 1, g_pool[k_] == g_cur[k_]))
#define BODY_match_outer_shape_1 g_j = (size_t) slen
#define LOOP_find_top_side_0 vc_inv(0, input_line_idx >= g_s && input_line_idx <= g_s + g_h && (input_line_idx <= g_n || input_line_idx == g_s) && result == input_line_idx && g_bq == input_line_idx)
#define BODY_find_top_side_0 g_j = input_line_idx; g_q0 = 0
#define LOOP_find_top_side_1 vc_inv(1, matched == 0 && shape_lines_tested <= g_h && shape_line_idx < g_h && g_q0 == shape_lines_tested && g_bq == g_j && shape_line_idx == (g_j - g_s + shape_lines_tested < g_h ? g_j - g_s + shape_lines_tested : g_j - g_s + shape_lines_tested - g_h))
#define LOOP_find_bottom_side_0 vc_inv(0, input_line_idx <= (long) g_e - 1 && (input_line_idx >= (long) g_s - 1 || input_line_idx == (long) g_e - 1) && input_line_idx >= (long) g_e - 1 - (long) g_h && result == g_bq && (long) g_bq == input_line_idx + 1)
#define BODY_find_bottom_side_0 g_j = (size_t) input_line_idx; g_q0 = 0
#define LOOP_find_bottom_side_1 vc_inv(1, matched == 0 && shape_lines_tested <= g_h && shape_line_idx >= 0 && shape_line_idx < (long) g_h && g_q0 == shape_lines_tested && g_bq == g_j + 1)
/* line g_k of the result is arbitrary: it counts for width and indentation */
#define LOOP_apply_results_to_input_0 vc_w(0, &input), vc_keep(0, &input.num_lines), vc_keep(0, &input.lines), vc_inv(0, j <= input.num_lines && (g_k >= j || g_k >= input.num_lines || (input.maxline >= g_tb[g_k].num_columns && input.indent <= g_tb[g_k].indent)) \
    && (j == 0 ? input.maxline == 0 && input.indent == SIZE_MAX : g_tb[g_bq].num_columns == input.maxline && g_tb[g_bo].indent == input.indent && g_bq < j && g_bo < j && input.indent < (1UL << 30)))
#define BODY_apply_results_to_input_0 ASSUME(input.lines[j].text == g_tb + j && g_tb[j].indent < (1UL << 30)); if (j == 0 || g_tb[j].num_columns > input.maxline) g_bq = j; if (j == 0 || g_tb[j].indent < input.indent) g_bo = j
#define LOOP_remove_box_0 vc_w(0, ctx->body), vc_inv(0, i <= ctx->body_num_lines)
#define LOOP_find_vertical_shapes_0 vc_w(0, ctx), vc_keep(0, &ctx->top_end_idx), vc_keep(0, &ctx->bottom_start_idx), vc_keep(0, &ctx->input_is_mono), vc_keep(0, &ctx->design_is_mono), vc_keep(0, &ctx->empty_side[BLEF]), vc_keep(0, &ctx->empty_side[BRIG]), \
    vc_inv(0, (int) comp_type >= 0 && (int) comp_type <= 4 && (!g_v[g_tt] || g_tt >= (int) comp_type || g_ct >= g_tt) && (g_ct == -1 || (g_ct == (int) ctx->comp_type && g_ct >= 0 && g_ct < (int) comp_type && g_v[g_ct] && g_last == 0 && SEENALL)))
/* line g_k is arbitrary; texts not yet printed are still the old ones (invariant for every g_k) */
/* before a box is drawn again, a blank line must not be as wide as the box was */
#define NEWTEXT(k) (g_null[k] ? NULL : g_hit && g_bln[k] ? g_et + (k) : g_rt + (k))
#define LOOP_output_input_0 vc_w(0, input.lines), vc_inv(0, j <= g_n && (g_k < j ? input.lines[g_k].text == NEWTEXT(g_k) && g_seen == (g_null[g_k] || g_hit ? 0 : 1) : input.lines[g_k].text == (g_null[g_k] ? NULL : g_tb + g_k) && g_seen == 0))
#define BODY_output_input_0 g_j = j; g_conv = NULL; ASSUME(input.lines[j].text == (g_null[j] ? NULL : g_tb + j)); ASSUME(g_rt[j].indent <= (1UL << 20))
static unsigned char *g_null, *g_bln;
static bxstr_t *g_rt, *g_et;
static uint32_t *g_conv;
static char *g_tabs, *g_outt;
static size_t g_i2;
#define SEENALL (g_seen == (ctx->empty_side[BLEF] ? 0 : 1) && g_full == (ctx->empty_side[BRIG] ? 0 : 1))
#define LOOP_find_vertical_shapes_1 vc_inv(1, input_line_idx >= g_s && input_line_idx <= g_e && (input_line_idx > g_k ? SEENALL : g_seen == 0 && g_full == 0))
#define BODY_find_vertical_shapes_1 g_j = input_line_idx
#ifdef GVC
uint32_t *strstr_c(const uint32_t *a, const uint32_t *b)
{
    CHECK(a == g_line && b == g_cur && g_vs, "the west shape is looked for in the line, from its beginning");
    if (g_first && g_j == g_k) g_seen++;
    g_first = 0;
    if (nondet_bool()) return NULL;
    size_t o = nondet_size_t();
    ASSUME(o <= g_n && g_qn <= g_n - o);
    if (o <= g_ind && g_qn > g_bq) { g_bq = g_qn; g_bo = o; }
    return g_line + o;
}
uint32_t *strnrstr_c(const uint32_t *a, const uint32_t *b, const size_t n)
{
    CHECK(a == g_line && b == g_cur && !g_vs && n == g_qn, "the east shape is looked for in the line, from its end");
    if (g_first && g_j == g_k) g_seen++;
    g_first = 0;
    if (nondet_bool()) return NULL;
    size_t o = nondet_size_t();
    ASSUME(o <= g_n && g_qn <= g_n - o);
    if (g_qn + g_tr <= g_n && o + g_qn + g_tr >= g_n && g_qn > g_bq) { g_bq = g_qn; g_bo = o; }
    return g_line + o;
}
uint32_t *shorten_c(shape_line_ctx_t *sl, size_t *q, int pl, int al, int ar)
{
    CHECK(sl == g_sc + g_j && *q == g_qn && (pl != 0) == (g_vs != 0) && al && ar, "the shape line in hand is shortened, on the outer side first");
    if (g_qn == 0 || nondet_bool()) return NULL;
    g_qn--;
    *q = g_qn;
    g_cur = g_pool;
    return g_cur;
}
uint32_t *dup_c(const uint32_t *s) { CHECK(s == g_line, "the line that was searched"); return g_pool; }
uint32_t *ostrstr_c(const uint32_t *a, const uint32_t *b)
{
    CHECK(a == g_line && b == g_cur + g_j, "the rest of the shape line is looked for in the input line");
    if (nondet_bool()) return NULL;
    size_t o = nondet_size_t();
    ASSUME(o <= g_n && g_m - g_j <= g_n - o);
    size_t t = g_k < g_m - g_j ? g_k : 0;
    if (g_k < g_m - g_j) ASSUME(g_line[o + g_k] == b[g_k]);
    return g_line + o;
}
uint32_t *ostrnrstr_c(const uint32_t *a, const uint32_t *b, const size_t n)
{
    CHECK(a == g_line && b == g_pool && n == g_j && g_pool[g_j] == 0, "the first part of the shape line is looked for in the input line");
    if (nondet_bool()) return NULL;
    size_t o = nondet_size_t();
    ASSUME(o <= g_n && g_j <= g_n - o);
    if (g_k < g_j) ASSUME(g_line[o + g_k] == b[g_k]);
    return g_line + o;
}
uint32_t *odup_c(const uint32_t *s) { CHECK(s == g_cur, "the shape line"); ASSUME(ALL(k_, 0, g_m, g_pool[k_] == g_cur[k_]) && g_pool[g_m] == 0); return g_pool; }
int oblank_c(bxstr_t *s) { return g_hit; }
uint32_t *olast_c(bxstr_t *s) { return g_line + g_n; }
#endif
#include VC_SRC
#ifdef GVC
opt_t opt; input_t input; int num_designs; design_t *designs; int color_output_enabled;
static remove_ctx_t g_ctx;
static design_t g_d;
int hline_c(remove_ctx_t *ctx, int side, size_t il, size_t sl)
{
    CHECK(ctx == &g_ctx && il == g_j && sl < g_h, "an existing shape line is looked for in the line in hand");
#ifdef V_topside
    CHECK(side == BTOP && il < g_n, "at the top");
    CHECK(sl == (il - g_s + g_q0 < g_h ? il - g_s + g_q0 : il - g_s + g_q0 - g_h), "each shape line once, the expected one first");
#else
    CHECK(side == BBOT && il >= g_s && il < g_e, "at the bottom, below the top side");
#endif
    g_q0++;
    int r = nondet_int();
#ifdef V_topside
    if (r) g_bq = il + 1;
#else
    if (r) g_bq = il;
#endif
    return r;
}
/* apply */
static int g_step;
static size_t g_rows, g_cnt;
static long g_min;
void rvert_c(remove_ctx_t *ctx) { CHECK(g_step == 0, "first the sides are cut off"); g_step = 1; }
void kill_c(remove_ctx_t *ctx)
{
    CHECK(g_step == 1 && (opt.killblank || opt.mend > 0), "blank lines are killed only if that is wanted");
    g_step = 2;
    size_t t = nondet_size_t(), b = nondet_size_t();
    ASSUME(ctx->bottom_start_idx >= ctx->top_end_idx ? t >= ctx->top_end_idx && b >= t && b <= ctx->bottom_start_idx : t == ctx->top_end_idx && b == ctx->bottom_start_idx);
    ctx->top_end_idx = t; ctx->bottom_start_idx = b;
    ctx->body_num_lines = b >= t ? b - t : 0;
}
void rbot_c(remove_ctx_t *ctx)
{
    CHECK((opt.killblank || opt.mend > 0) ? g_step == 2 : g_step == 1, "then blank lines, then the bottom");
    g_step = 3;
    CHECK(ctx->bottom_end_idx <= input.num_lines, "inside the input");
    if (ctx->bottom_end_idx > ctx->bottom_start_idx) input.num_lines -= ctx->bottom_end_idx - ctx->bottom_start_idx;
}
void rtop_c(remove_ctx_t *ctx)
{
    CHECK(g_step == 3, "then the top");
    g_step = 4;
    CHECK(ctx->top_end_idx <= input.num_lines || ctx->top_end_idx <= ctx->top_start_idx, "inside the input");
    if (ctx->top_end_idx > ctx->top_start_idx) input.num_lines -= ctx->top_end_idx - ctx->top_start_idx;
}
void rpad_c(remove_ctx_t *ctx, int n)
{
    CHECK(g_step == 4 && ctx->empty_side[BLEF], "the padding goes separately only if there is no west side");
    CHECK(n <= g_d.padding[BLEF] && (n <= 0 || (size_t) n <= input.indent), "no more than the padding, and no more than the common indentation");
    CHECK(input.num_lines == 0 || n == g_d.padding[BLEF] || (long) n == (long) input.indent, "as much as there is");
    g_step = 5;
}
/* whole */
int eside_c(sentry_t *s, const int side) { CHECK(s == g_d.shape && side >= 0 && side < 4, "a side of the design"); return (g_hit >> side) & 1; }
void detect_c(void) { CHECK(g_step == 0, "first the design is known"); opt.design = &g_d; g_step = 1; }
int dmono_c(design_t *d) { CHECK(d == &g_d, "the design"); return g_t; }
int imono_c(void) { return g_vs; }
size_t first_c(void) { return g_s; }
size_t last_c(void) { return g_e; }
size_t ftop_c(remove_ctx_t *c) { CHECK(!((g_hit >> BTOP) & 1) && c->top_start_idx == g_s, "the top is looked for from the first line that is not blank"); CHECK(c->empty_side[BLEF] == ((g_hit >> BLEF) & 1) && c->empty_side[BRIG] == ((g_hit >> BRIG) & 1), "sides"); return g_o; }
size_t fbot_c(remove_ctx_t *c) { CHECK(!((g_hit >> BBOT) & 1) && c->bottom_end_idx == g_e + 1 && c->top_end_idx == g_bo, "the bottom ends at the last line that is not blank"); return g_q0; }
void fvert_c(remove_ctx_t *c)
{
    CHECK(c->top_end_idx == g_bo && c->bottom_start_idx == g_bq && c->bottom_end_idx == g_e + 1, "the body lies between top and bottom");
    CHECK(g_bq > g_bo && c->body_num_lines == g_bq - g_bo && c->body != NULL, "one entry for every line of the body");
    g_step = 2;
}
void results_c(remove_ctx_t *c)
{
    CHECK((g_bq > g_bo) == (g_step == 2), "the sides are looked for if there is a body");
    CHECK(c->top_start_idx == g_s && c->top_end_idx == g_bo && c->bottom_start_idx == g_bq && c->bottom_end_idx == g_e + 1 && c->body_num_lines == (g_bq > g_bo ? g_bq - g_bo : 0), "the parts of the box");
    CHECK(c->design_is_mono == g_t && c->input_is_mono == g_vs, "the colour situation");
    CHECK(opt.killblank == (g_tr == 0 ? (((g_hit >> BTOP) & 1) && ((g_hit >> BBOT) & 1) ? 0 : 1) : (int) g_tr - 1), "blank lines are killed by default if the box has a top or a bottom");
    g_step = 3;
    size_t k = nondet_size_t();
    ASSUME(k <= c->body_num_lines);
    c->body_num_lines = k;
}
void dprint_c(remove_ctx_t *c, char *h) {}
/* vertical shapes */
static shape_line_ctx_t *g_w[2], *g_ea[2];
int viable_c(comparison_t t, int mi, int md) { CHECK(mi == g_ctx.input_is_mono && md == g_ctx.design_is_mono, "the colour situation"); return g_v[(int) t]; }
void reset_c(remove_ctx_t *c) { CHECK(c == &g_ctx && g_v[(int) c->comp_type], "a comparison that is viable"); g_ct = (int) c->comp_type; g_seen = 0; g_full = 0; }
shape_line_ctx_t **pvert_c(int side, comparison_t t) { CHECK((int) t == g_ct && (side == BLEF || side == BRIG), "the shapes of a side, for this comparison"); return side == BLEF ? g_w : g_ea; }
uint32_t *pinput_c(size_t i, int tl, comparison_t t, size_t off, size_t *ind, size_t *tr)
{
    CHECK(i == g_j && !tl && (int) t == g_ct && off == 0 && ind != NULL && tr != NULL, "the whole line, for this comparison");
    *ind = g_ind = nondet_size_t(); *tr = g_tr = nondet_size_t();
    return g_line;
}
size_t slen_c(const uint32_t *s) { CHECK(s == g_line, "the line"); return g_n; }
void mvs_c(remove_ctx_t *c, int side, shape_line_ctx_t **sl, uint32_t *line, size_t i, size_t len, size_t ind, size_t tr)
{
    CHECK(c == &g_ctx && line == g_line && i == g_j && len == g_n && ind == g_ind && tr == g_tr, "the line in hand");
    CHECK(side == BLEF ? sl == g_w && !c->empty_side[BLEF] : side == BRIG && sl == g_ea && !c->empty_side[BRIG], "the shapes of that side");
    if (i == g_k) { if (side == BLEF) g_seen++; else g_full++; }
}
void fsl_c(shape_line_ctx_t **s) {}
/* output */
bxstr_t *rtrim_c(bxstr_t *s) { CHECK(s == g_tb + g_j, "the line in hand is trimmed at its end"); return g_rt + g_j; }
int ublank_c(bxstr_t *s) { CHECK(s == g_tb + g_j, "the line in hand"); return g_bln[g_j]; }
bxstr_t *uempty_c(void) { return g_et + g_j; }
static bxstr_t g_cutstr;
void ofree_c(bxstr_t *s) { CHECK(s == g_tb + g_j || s == &g_cutstr, "the old text"); }
uint32_t *tabbify_c(const size_t i, uint32_t *p, const size_t n) { CHECK(i == g_j && p == NULL && n == input.indent && opt.tabexp == 'k', "the common indentation gets its tabs back"); return g_line; }
bxstr_t *cut_c(bxstr_t *s, size_t n)
{
    CHECK(s == g_rt + g_j, "the trimmed line");
    CHECK(n == (opt.tabexp == 'u' ? g_rt[g_j].indent : opt.tabexp == 'k' ? input.indent : 0), "what is not printed as indentation");
    g_conv = g_pool;
    return &g_cutstr;
}
char *conv_c(const uint32_t *s) { CHECK(s == g_line, "the indentation"); return g_tabs; }
char *toout_c(bxstr_t *s) { CHECK(s == &g_cutstr && g_conv == g_pool, "the text, with or without escape sequences as asked for"); return g_outt; }
int fprintf_c(FILE *f, const char *fmt, char *a, char *b, char *c)
{
    CHECK(f == opt.outfile && b == g_outt, "every line is printed in its order");
    CHECK((input.final_newline || g_j + 1 < g_n) ? c == opt.eol : c[0] == 0, "with its line end, the last one only if it had one");
    if (opt.tabexp == 'k') CHECK(a == g_tabs, "with the tabs it had");
    else if (opt.tabexp == 'u') {
        size_t in = g_rt[g_j].indent, nt = in / (size_t) opt.tabstop, ns = in % (size_t) opt.tabstop;
        CHECK(a[nt + ns] == 0, "the indentation as tabs and blanks");
        if (g_i2 < nt + ns) CHECK(a[g_i2] == (g_i2 < nt ? '\t' : ' '), "the indentation as tabs and blanks");
    }
    else CHECK(a[0] == 0, "nothing in front");
    if (g_j == g_k) g_seen++;
    return 0;
}
int suff_c(remove_ctx_t *c) { g_last = nondet_int(); return g_last; }

void harness(void)
{
#if defined(V_vside)
    vc_havoc_obj(&input); vc_havoc_obj(&g_ctx);
    g_vs = in_int(0, 1);
    g_n = in_size(0, 1UL << 30); g_m = in_size(1, 1UL << 20);
    g_line = malloc((g_n + 1) * 4); g_pool = malloc(4);
    g_sl = malloc((g_m + 1) * sizeof(shape_line_ctx_t *)); g_sc = malloc(g_m * sizeof(shape_line_ctx_t)); g_tb = malloc(g_m * sizeof(bxstr_t));
    g_sl[g_m] = NULL;
    ASSUME(ALL(k_, 0, g_m, g_sl[k_] == g_sc + k_));
    g_k = in_size(0, 1UL << 20);
    ASSUME(g_k < g_m);
    g_ctx.top_end_idx = in_size(0, 10);
    size_t b = in_size(0, 5);
    line_ctx_t *body = malloc(6 * sizeof(line_ctx_t));
    g_ctx.body = body;
    g_q0 = in_size(0, 1UL << 30); g_s0 = in_size(0, 1UL << 30); g_e0 = in_size(0, 1UL << 30); g_oq = in_size(0, 1UL << 30); g_os = in_size(0, 1UL << 30); g_oe = in_size(0, 1UL << 30);
    if (g_vs) { ASSUME(body[b].west_quality == g_q0 && body[b].west_start == g_s0 && body[b].west_end == g_e0 && body[b].east_quality == g_oq && body[b].east_start == g_os && body[b].east_end == g_oe); }
    else ASSUME(body[b].east_quality == g_q0 && body[b].east_start == g_s0 && body[b].east_end == g_e0 && body[b].west_quality == g_oq && body[b].west_start == g_os && body[b].west_end == g_oe);
    g_bq = g_q0; g_seen = 0;
    g_ind = in_size(0, 1UL << 30); g_tr = in_size(0, 1UL << 30);
    ASSUME(g_ind <= g_n && g_tr <= g_n);
    match_vertical_side(&g_ctx, g_vs ? BLEF : BRIG, g_sl, g_line, g_ctx.top_end_idx + b, g_n, g_ind, g_tr);
    COVER("vside");
    CHECK(g_seen == (g_sc[g_k].empty ? 0 : 1), "every shape line that is not empty is looked for");
    size_t q = g_vs ? body[b].west_quality : body[b].east_quality, s = g_vs ? body[b].west_start : body[b].east_start, e = g_vs ? body[b].west_end : body[b].east_end;
    CHECK(q == g_bq, "the longest match counts");
    CHECK(g_bq == g_q0 ? s == g_s0 && e == g_e0 : s == g_bo && e == g_bo + g_bq, "the first of several");
    if (g_bq > g_q0) CHECK(g_vs ? s <= g_ind : e + g_tr >= g_n, "box parts are at the beginning or the end of the line, with nothing but blanks outside");
    CHECK(e <= g_n || g_bq == g_q0, "inside the line");
    CHECK(g_vs ? body[b].east_quality == g_oq && body[b].east_start == g_os && body[b].east_end == g_oe : body[b].west_quality == g_oq && body[b].west_start == g_os && body[b].west_end == g_oe, "the other side is left alone");
#elif defined(V_outer)
    static bxstr_t in, sh;
    vc_havoc_obj(&in); vc_havoc_obj(&sh);
    g_vs = in_int(0, 1); g_hit = in_int(0, 1);
    g_n = in_size(0, 1UL << 29); g_m = in_size(0, 1UL << 29);
    size_t nv = in_size(0, 1UL << 29);
    ASSUME(nv <= g_n);
    g_line = malloc((g_n + 1) * 4); g_cur = malloc((g_m + 1) * 4); g_pool = malloc((g_m + 1) * 4);
    g_cur[g_m] = 0;
    in.memory = g_line; in.num_chars = g_n; in.num_chars_visible = nv;
    in.first_char = malloc((nv + 1) * sizeof(size_t));
    ASSUME(in.indent + in.trailing <= nv && in.indent <= nv && in.trailing <= nv);
    size_t fi = in.first_char[in.indent], ft = in.first_char[nv - in.trailing];
    sh.memory = g_cur; sh.num_chars = g_m;
    /* a shape line that is not blank has a character that is not */
    size_t nb = in_size(0, 1UL << 29);
    ASSUME(g_hit || g_m == 0 || (nb < g_m && !BLANKP(g_cur[nb])));
    g_o = nb;
    g_k = in_size(0, 1UL << 29);
    bxstr_t *ip = in_int(0, 5) ? &in : NULL, *sp = in_int(0, 5) ? &sh : NULL;
    match_result_t *r = match_outer_shape(g_vs ? BLEF : BRIG, ip, sp);
    if (ip == NULL || sp == NULL || g_n == 0 || g_m == 0) { CHECK(r == NULL, "nothing to match"); return; }
    if (r == NULL) { CHECK(!g_hit, "a blank shape always fits"); return; }
    COVER("outer");
    CHECK(r->p == g_line + r->p_idx && r->p_idx + r->len <= g_n, "a place in the line");
    if (g_hit) CHECK(r->shiftable && r->len == 0 && (g_vs ? r->p_idx == 0 : r->p_idx == g_n), "blanks match nothing at the end of the line");
    else {
        size_t off = g_vs ? g_m - r->len : 0;
        CHECK(!r->shiftable && r->len <= g_m, "a part of the shape line");
        if (g_k < r->len) CHECK(g_line[r->p_idx + g_k] == g_cur[off + g_k], "the characters of the shape line");
        CHECK(g_vs ? ALL(k_, 0, off, BLANKP(g_cur[k_])) : ALL(k_, r->len, g_m, BLANKP(g_cur[k_])), "only blanks on the outer side may be missing");
        CHECK(g_vs ? r->p_idx <= fi : r->p_idx + r->len >= ft, "with nothing but blanks outside");
    }
#elif defined(V_topside) || defined(V_botside)
    vc_havoc_obj(&input); vc_havoc_obj(&g_ctx); vc_havoc_obj(&g_d); vc_havoc_obj(&opt);
    opt.design = &g_d;
    g_n = in_size(1, 1UL << 20); g_h = in_size(1, 1UL << 20);
    input.num_lines = g_n;
    g_s = in_size(0, 1UL << 20); g_e = in_size(0, 1UL << 20);
#ifdef V_topside
    ASSUME(g_s < g_n);
    g_d.shape[NE].height = g_h;
    g_ctx.top_start_idx = g_s;
    g_bq = g_s;
    size_t r = find_top_side(&g_ctx);
    COVER("topside");
    CHECK(r == g_bq && r >= g_s && r <= g_s + g_h && r <= g_n, "the top side are the lines from the first one on that match, at most the height of the design");
#else
    ASSUME(g_e <= g_n && g_e >= 1);
    g_d.shape[SE].height = g_h;
    g_ctx.bottom_end_idx = g_e; g_ctx.top_end_idx = g_s;
    g_bq = g_e;
    size_t r = find_bottom_side(&g_ctx);
    COVER("botside");
    CHECK(r <= g_e && (r >= g_s || r == g_e) && g_e - r <= g_h, "at most the height of the design, and below the top");
    CHECK(r == g_bq, "the bottom side are the lines up to the last one that match");
#endif
#elif defined(V_vshapes)
    vc_havoc_obj(&input); vc_havoc_obj(&g_ctx); vc_havoc_obj(&opt);
    g_line = malloc(4); g_n = in_size(0, 1UL << 30);
    g_ctx.empty_side[BLEF] = in_int(0, 1); g_ctx.empty_side[BRIG] = in_int(0, 1);
    g_s = in_size(0, 1UL << 20); g_e = in_size(0, 1UL << 20); g_k = in_size(0, 1UL << 20);
    ASSUME(g_s <= g_k && g_k < g_e);
    g_ctx.top_end_idx = g_s; g_ctx.bottom_start_idx = g_e;
    for (int k = 0; k < 4; k++) g_v[k] = in_int(0, 1);
    g_tt = in_int(0, 3); ASSUME(g_v[g_tt]);
    g_ct = -1;
    find_vertical_shapes(&g_ctx);
    COVER("vshapes");
    if (!g_ctx.empty_side[BLEF] || !g_ctx.empty_side[BRIG]) {
        CHECK(g_ct == (int) g_ctx.comp_type, "the results belong to the comparison that was used last");
        CHECK(g_seen == (g_ctx.empty_side[BLEF] ? 0 : 1) && g_full == (g_ctx.empty_side[BRIG] ? 0 : 1), "every line of the body is looked at once for each side that is not empty");
        CHECK(g_last != 0 || g_tt <= g_ct, "further comparisons are tried as long as the match is not good");
    }
    else CHECK(g_ct == -1, "no sides, nothing to look for");
#elif defined(V_apply)
    vc_havoc_obj(&input); vc_havoc_obj(&g_ctx); vc_havoc_obj(&g_d); vc_havoc_obj(&opt);
    opt.design = &g_d;
    g_n = in_size(1, 1UL << 30);
    input.num_lines = g_n;
    input.lines = malloc(g_n * sizeof(line_t));
    g_tb = malloc(g_n * sizeof(bxstr_t));
    size_t ts = in_size(0, 1UL << 30), te = in_size(0, 1UL << 30), bs = in_size(0, 1UL << 30), be = in_size(0, 1UL << 30);
    /* what remove_box() establishes: top and bottom do not overlap (units topside, botside) */
    ASSUME(ts <= te && te <= g_n && bs <= be && be <= g_n && (bs >= te || bs == be));
    g_ctx.top_start_idx = ts; g_ctx.top_end_idx = te; g_ctx.bottom_start_idx = bs; g_ctx.bottom_end_idx = be;
    g_ctx.body_num_lines = bs > te ? bs - te : 0;
    g_d.padding[BLEF] = in_int(-1, 1000);
    g_ctx.empty_side[BLEF] = in_int(0, 1);
    g_step = 0;
    g_k = in_size(0, 1UL << 30);
    apply_results_to_input(&g_ctx);
    COVER("apply");
    CHECK(g_step == (g_ctx.empty_side[BLEF] ? 5 : 4), "all steps");
    size_t t2 = g_ctx.top_end_idx - ts, b2 = be - g_ctx.bottom_start_idx;
    CHECK(input.num_lines == g_n - t2 - b2, "the lines of top and bottom are gone");
#elif defined(V_out)
    vc_havoc_obj(&input); vc_havoc_obj(&opt);
    g_n = in_size(1, 1UL << 30);
    input.num_lines = g_n;
    input.lines = malloc(g_n * sizeof(line_t));
    g_tb = malloc(g_n * sizeof(bxstr_t)); g_rt = malloc(g_n * sizeof(bxstr_t)); g_null = malloc(g_n); g_bln = malloc(g_n); g_et = malloc(g_n * sizeof(bxstr_t)); g_line = malloc(4); g_pool = malloc(4); g_tabs = malloc(1); g_outt = malloc(1);
    opt.eol = malloc(3);
    ASSUME(opt.eol[0] != 0);
    opt.outfile = malloc(8);
    opt.tabstop = in_int(1, 16);
    g_k = in_size(0, 1UL << 30); g_i2 = in_size(0, 1UL << 30); g_hit = in_int(0, 1);
    ASSUME(g_k < g_n && input.lines[g_k].text == (g_null[g_k] ? NULL : g_tb + g_k));
    g_seen = 0;
    output_input(g_hit);
    COVER("out");
    CHECK(g_seen == (g_null[g_k] || g_hit ? 0 : 1), "every line is printed once, unless only trimming was asked for");
    CHECK(input.lines[g_k].text == NEWTEXT(g_k) && input.num_lines == g_n, "every line is trimmed");
#elif defined(V_box)
    vc_havoc_obj(&input); vc_havoc_obj(&g_d); vc_havoc_obj(&opt);
    g_n = in_size(1, 1UL << 30);
    input.num_lines = g_n;
    g_hit = in_int(0, 15); g_t = in_int(0, 1); g_vs = in_int(0, 1); g_tr = in_size(0, 2);
    opt.killblank = (int) g_tr - 1;
    opt.design = NULL;
    g_s = in_size(0, 1UL << 30); g_e = in_size(0, 1UL << 30);
    ASSUME(g_s <= g_n && g_e < g_n && (g_s == g_n || g_s <= g_e));
    g_o = in_size(0, 1UL << 30); g_q0 = in_size(0, 1UL << 30);
    ASSUME(g_o >= g_s && g_o <= g_n && g_q0 <= g_e + 1);
    g_bo = ((g_hit >> BTOP) & 1) ? g_s : g_o;
    g_bq = ((g_hit >> BBOT) & 1) ? g_e + 1 : g_q0;
    g_step = 0;
    int r = remove_box();
    CHECK(r == 0, "success");
    if (g_s == g_n) { CHECK(g_step == 1, "blank input is left alone"); return; }
    COVER("box");
    CHECK(g_step == 3, "the parts found are removed");
#endif
}
#else
void harness(void) { }
#endif
