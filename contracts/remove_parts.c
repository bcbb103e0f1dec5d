//@title removing a box: what is cut off the lines and which lines go away
//@variants blankb first last shorten pad start end kill top bottom defpad vert
//@src remove.c
//@link unicode.c
//@prop C14
//@funcs.blankb is_blank_between
//@funcs.first find_first_line
//@funcs.last find_last_line
//@funcs.shorten shorten
//@funcs.pad confirmed_padding org_is_not_blank max_chars_line
//@funcs.start calculate_start_idx
//@funcs.end calculate_end_idx
//@funcs.kill killblank
//@funcs.top remove_top_from_input
//@funcs.bottom remove_bottom_from_input
//@funcs.defpad remove_default_padding
//@funcs.vert remove_vertical_from_input
//@loops.blankb is_blank_between:0
//@loops.first find_first_line:0
//@loops.last find_last_line:0
//@loops.shorten shorten:0
//@loops.pad confirmed_padding:0
//@loops.kill killblank:0 killblank:1
//@loops.top remove_top_from_input:0
//@loops.bottom remove_bottom_from_input:0
//@loops.defpad remove_default_padding:0
//@loops.vert remove_vertical_from_input:0
//@replace.first bxs_is_blank=isblank_c
//@replace.last bxs_is_blank=isblank_c
//@replace.shorten u32_strdup=strdup_c
//@replace.start confirmed_padding=padding_c
//@replace.kill empty_line=empty_c
//@replace.top free_line=free_line_c
//@replace.bottom free_line=free_line_c
//@replace.defpad bxs_cut_front=cut_c free_line_text=free_text_c
//@replace.vert calculate_start_idx=start_c calculate_end_idx=end_c bxs_substr=substr_c bxs_prepend_spaces=prepend_c free_line_text=free_text_c bxs_free=bxs_free_c
//@assume bxs_substr, bxs_prepend_spaces, bxs_cut_front, bxs_is_blank by their contracts (units bxs_sub, bxs_build, bxs_query); u32_strdup as documented
//@noeffect bx_fprintf log_debug log_debug_cont is_debug_logging
//@nonative removing is run by the whole-program units e2e_remove
#include "common.h"
#include "texts.h"
#include "boxes.h"
#include "shape.h"
#include "detect.h"
#include "remove.h"
static size_t g_n, g_j, g_k, g_o, g_len, g_s, g_e, g_a, g_r, g_top, g_bot, g_lines, g_pad, g_body;
static uint32_t *g_t, *g_dup;
static bxstr_t *g_b, *g_pool;
static unsigned char *g_bl;
static int g_type, g_nb, g_al, g_ar;
static line_t *g_l;
#define LOOP_is_blank_between_0 vc_inv(0, p == g_t + (p - g_t) && p >= g_t && p <= g_t + g_n && ALL(k_, 0, p - g_t, BLANKP(g_t[k_])))
#define LOOP_find_first_line_0 vc_inv(0, line_idx <= g_n && result == g_n && ALL(k_, 0, line_idx, g_bl[k_]))
#define BODY_find_first_line_0 ASSUME(input.lines[line_idx].text == g_b + line_idx)
#define LOOP_find_last_line_0 vc_inv(0, line_idx >= -1 && line_idx < (long) g_n && result == g_n - 1 && ALL(k_, line_idx + 1, g_n, g_bl[k_]))
#define BODY_find_last_line_0 ASSUME(input.lines[line_idx].text == g_b + line_idx)
#define LOOP_shorten_0 vc_inv(0, s == g_t + (s - g_t) && e == g_t + (e - g_t) && s >= g_t && s <= e && e <= g_t + g_n && (g_al || s == g_t) && (g_ar || e == g_t + g_n) && (size_t) (s - g_t) + (g_n - (size_t) (e - g_t)) == i && i <= reduction_steps \
    && ALL(k_, 0, s - g_t, BLANKP(g_t[k_])) && ALL(k_, e - g_t, g_n, BLANKP(g_t[k_])))
#define ATX(k) (g_type == 0 || g_type == 2 ? (k) : g_b->visible_char[k])
#define LOOP_confirmed_padding_0 vc_inv(0, i >= g_s && (i <= g_s + g_pad) && (i <= max_chars || i == g_s) && result == i - g_s && ALL(k_, g_s, i, BLANKP(g_t[ATX(k_)])))
#define BODY_confirmed_padding_0 if (g_type == 1 || g_type == 3) ASSUME(g_b->visible_char[i] < g_b->num_chars)
#define CTXKEEP(n) vc_w(n, ctx), vc_keep(n, &ctx->top_start_idx), vc_keep(n, &ctx->bottom_end_idx)
#define LOOP_killblank_0 CTXKEEP(0), vc_keep(0, &ctx->bottom_start_idx), vc_inv(0, ctx->top_end_idx >= g_top && ctx->top_end_idx - g_top == lines_removed && ctx->top_end_idx <= g_bot && lines_removed <= max_lines_removable \
    && ctx->body_num_lines == g_body - lines_removed && ALL(k_, g_top, ctx->top_end_idx, g_bl[k_]))
#define LOOP_killblank_1 CTXKEEP(1), vc_keep(1, &ctx->top_end_idx), vc_inv(1, ctx->bottom_start_idx <= g_bot && g_bot - ctx->bottom_start_idx == lines_removed && ctx->bottom_start_idx >= ctx->top_end_idx && lines_removed <= max_lines_removable \
    && ctx->body_num_lines == g_body - (ctx->top_end_idx - g_top) - lines_removed && ALL(k_, ctx->bottom_start_idx, g_bot, g_bl[k_]))
#define LOOP_remove_top_from_input_0 vc_inv(0, j >= g_s && j <= g_e && g_o == j)
#define LOOP_remove_bottom_from_input_0 vc_inv(0, j >= g_s && j <= g_e && g_o == j)
/* line g_k of the body and line g_q outside of it are arbitrary; that a line is still the old one before its turn is an invariant for
 * every choice of g_k, so it may be assumed for the line in hand */
static size_t g_q;
#define WANTB ((opt.indentmode == 'b' || opt.indentmode == 0) && ctx->body[g_k].west_quality > 0)
#define LOOP_remove_default_padding_0 vc_w(0, input.lines), vc_inv(0, body_line_idx <= g_body && input.lines[g_q].text == g_b + g_q \
    && (g_k < body_line_idx ? g_lines == 1 && input.lines[g_top + g_k].text == g_pool : g_lines == 0 && input.lines[g_top + g_k].text == g_b + (g_top + g_k)))
#define BODY_remove_default_padding_0 g_j = body_line_idx; ASSUME(input.lines[g_top + g_j].text == g_b + (g_top + g_j))
#define LOOP_remove_vertical_from_input_0 vc_w(0, input.lines), vc_inv(0, body_line_idx <= g_body && input.lines[g_q].text == g_b + g_q \
    && (g_k < body_line_idx ? g_lines == 1 && input.lines[g_top + g_k].text == (g_nb ? g_pool + 1 : g_pool) && g_nb == (WANTB ? 1 : 0) : g_lines == 0 && g_nb == 0 && input.lines[g_top + g_k].text == g_b + (g_top + g_k)))
#define BODY_remove_vertical_from_input_0 g_j = body_line_idx; g_a = 0; ASSUME(input.lines[g_top + g_j].text == g_b + (g_top + g_j))
#ifdef GVC
int isblank_c(bxstr_t *s) { return g_bl[s - g_b] != 0; }
int empty_c(const line_t *l)
{
    size_t k = (size_t) (l - g_l);
    CHECK(k >= g_top && k < g_bot, "only lines of the box body are looked at");
    return g_bl[k] != 0;
}
uint32_t *strdup_c(const uint32_t *p)
{
    CHECK(p >= g_t && p <= g_t + g_n, "a part of the shape line");
    g_o = (size_t) (p - g_t);
    g_len = g_n - g_o;
    g_dup = malloc((g_len + 1) * 4);
    ASSUME(g_dup[g_len] == 0);
    uint32_t t = p[g_k <= g_len ? g_k : 0];
    if (g_k <= g_len) ASSUME(g_dup[g_k] == t);
    return g_dup;
}
static bxstr_t *g_org;
#endif
#include VC_SRC
#ifdef GVC
opt_t opt; input_t input; int num_designs; design_t *designs; int color_output_enabled;
static remove_ctx_t g_ctx;
static design_t g_d;
size_t padding_c(bxstr_t *org, comparison_t c, size_t start, size_t pad)
{
    CHECK(org == g_b && (int) c == g_type && start == g_s && pad == (size_t) g_d.padding[BLEF], "the padding of the design is looked for behind the west shape");
    ASSUME(g_r <= pad && (g_r == 0 || g_s + g_r <= g_n));
    return g_r;
}
void free_line_c(line_t *line)
{
    CHECK(line == input.lines + g_o && g_o >= g_s && g_o < g_e, "only lines of the box are thrown away");
    g_o++;
}
void free_text_c(line_t *line) { CHECK(line == input.lines + (g_top + g_j) && g_j < g_body, "the old text of the line in hand"); }
bxstr_t *cut_c(bxstr_t *s, size_t n)
{
    CHECK(s == g_b + (g_top + g_j) && n == g_pad, "the padding is cut off every line of the body");
    if (g_j == g_k) { g_lines++; return g_pool; }
    return g_pool + 2;
}
size_t start_c(remove_ctx_t *ctx, size_t k) { CHECK(ctx == &g_ctx && k == g_j, "the line in hand"); g_s = nondet_size_t(); return g_s; }
size_t end_c(remove_ctx_t *ctx, size_t k) { CHECK(ctx == &g_ctx && k == g_j, "the line in hand"); g_e = nondet_size_t(); return g_e; }
bxstr_t *substr_c(bxstr_t *s, size_t a, size_t b)
{
    CHECK(s == g_b + (g_top + g_j), "the line in hand");
    CHECK(a == g_s && b == (g_e > g_s ? g_e : g_s), "the text between the box parts is kept");
    if (g_j == g_k) { g_lines++; return g_pool; }
    return g_pool + 2;
}
bxstr_t *prepend_c(bxstr_t *s, const size_t n)
{
    CHECK(s == (g_j == g_k ? g_pool : g_pool + 2), "the text that is kept");
    CHECK(n == input.indent && (opt.indentmode == 'b' || opt.indentmode == 0) && g_ctx.body[g_j].west_quality > 0, "the indentation comes back where it was removed together with the box");
    if (g_j == g_k) { g_nb = 1; return g_pool + 1; }
    return g_pool + 2;
}
void bxs_free_c(bxstr_t *s) { CHECK(s == (g_j == g_k ? g_pool : g_pool + 2), "the text without indentation"); }

void harness(void)
{
#if defined(V_blankb)
    g_n = in_size(0, 1UL << 30);
    g_t = malloc((g_n + 1) * 4);
    size_t d = in_size(0, 1UL << 30);
    ASSUME(d <= g_n);
    int r = is_blank_between(g_t, g_t + g_n);
    COVER("blankb");
    if (r != 0) CHECK(ALL(k_, 0, g_n, BLANKP(g_t[k_])), "every character in between is blank");
    else CHECK(!ALL(k_, 0, g_n, BLANKP(g_t[k_])), "some character in between is not blank");
#elif defined(V_first) || defined(V_last)
    g_n = in_size(1, 1UL << 30);
    vc_havoc_obj(&input);
    input.num_lines = g_n;
    input.lines = malloc(g_n * sizeof(line_t));
    g_b = malloc(g_n * sizeof(bxstr_t)); g_bl = malloc(g_n);
    g_k = in_size(0, 1UL << 30);
    ASSUME(g_k < g_n);
#ifdef V_first
    size_t r = find_first_line();
    COVER("first");
    CHECK(r <= g_n && (r == g_n || g_bl[r] == 0), "a line that is not blank");
    if (g_k < r) CHECK(g_bl[g_k] != 0, "all lines before it are blank");
#else
    size_t r = find_last_line();
    COVER("last");
    CHECK(r < g_n, "a line of the input");
    if (g_bl[r] != 0) CHECK(g_bl[g_k] != 0 && r == g_n - 1, "all lines are blank");
    else if (g_k > r) CHECK(g_bl[g_k] != 0, "all lines after it are blank");
#endif
#elif defined(V_shorten)
    shape_line_ctx_t sl;
    static bxstr_t b;
    vc_havoc_obj(&b);
    g_n = in_size(0, 1UL << 30);
    g_t = malloc((g_n + 1) * 4);
    g_t[g_n] = 0;
    b.memory = g_t; b.num_chars = g_n;
    sl.text = in_int(0, 1) ? &b : NULL;
    size_t q0 = in_size(0, 1UL << 31), q = q0;
    int pl = in_int(0, 1); g_al = in_int(0, 1); g_ar = in_int(0, 1);
    g_k = in_size(0, 1UL << 30);
    uint32_t *r = shorten(&sl, &q, pl, g_al, g_ar);
    if (r == NULL) { CHECK(q == q0, "quality stays"); return; }
    COVER("shorten");
    CHECK(sl.text == &b && q + 1 == q0 && q0 <= g_n && r == g_dup, "shortened by one character");
    CHECK(g_o + q <= g_n && r[q] == 0, "a part of the shape line, terminated");
    if (g_k < q) CHECK(r[g_k] == g_t[g_o + g_k], "and unchanged in between");
    CHECK((g_o == 0 || g_al) && (g_o + q == g_n || g_ar), "cut only where that is allowed");
    CHECK(ALL(k_, 0, g_o, BLANKP(g_t[k_])) && ALL(k_, g_o + q, g_n, BLANKP(g_t[k_])), "only blanks are cut off");
#elif defined(V_pad) || defined(V_start) || defined(V_end)
    static bxstr_t b;
    vc_havoc_obj(&b); vc_havoc_obj(&input); vc_havoc_obj(&g_ctx); vc_havoc_obj(&g_d); vc_havoc_obj(&opt);
    opt.design = &g_d;
    g_type = in_int(0, 3);
    size_t n = in_size(0, 1UL << 30), nv = in_size(0, 1UL << 30);
    ASSUME(nv <= n);
    b.num_chars = n; b.num_chars_visible = nv;
    g_t = b.memory = malloc((n + 1) * 4);
    b.first_char = malloc((nv + 1) * sizeof(size_t)); b.visible_char = malloc((nv + 1) * sizeof(size_t));
    g_b = &b;
    int vis = g_type == 1 || g_type == 3;
    g_n = vis ? nv : n;
    g_s = in_size(0, 1UL << 30); g_pad = in_size(0, 1UL << 20);
#ifdef V_pad
    ASSUME(g_s <= g_n);
    size_t r = confirmed_padding(&b, (comparison_t) g_type, g_s, g_pad);
    COVER("pad");
    CHECK(r <= g_pad && g_s + r <= g_n, "no more than the padding, and inside the line");
    CHECK(ALL(k_, g_s, g_s + r, BLANKP(g_t[ATX(k_)])), "only blanks count as padding");
    CHECK(r == g_pad || g_s + r == g_n || !BLANKP(g_t[ATX(g_s + r)]), "all of the padding that is there");
#else
    size_t k = in_size(0, 5);
    input.lines = malloc(20 * sizeof(line_t)); input.num_lines = 20;
    g_ctx.body = malloc(6 * sizeof(line_ctx_t)); g_ctx.body_num_lines = 6;
    g_ctx.top_end_idx = in_size(0, 10);
    g_ctx.comp_type = (comparison_t) g_type;
    input.lines[g_ctx.top_end_idx + k].text = &b;
#ifdef V_start
    g_d.padding[BLEF] = in_int(0, 1000000);
    ASSUME(g_s <= g_n);
    g_ctx.body[k].west_end = g_s;
    size_t wq = in_size(0, 1UL << 30);
    g_ctx.body[k].west_quality = wq;
    g_r = in_size(0, 1UL << 20);
    size_t r = calculate_start_idx(&g_ctx, k);
    COVER("start");
    size_t x = wq > 0 ? g_s + g_r : 0;
    CHECK(r == (vis ? b.first_char[x] : x), "the text begins behind the west shape and its padding, or at the beginning of the line");
#else
    g_ctx.body[k].east_start = g_s;
    ASSUME(g_s <= g_n);
    size_t eq = in_size(0, 1UL << 30);
    g_ctx.body[k].east_quality = eq;
    size_t r = calculate_end_idx(&g_ctx, k);
    COVER("end");
    size_t x = eq > 0 ? g_s : g_n;
    CHECK(r == (vis ? b.first_char[x] : x), "the text ends in front of the east shape, or at the end of the line");
#endif
#endif
#elif defined(V_kill)
    vc_havoc_obj(&input); vc_havoc_obj(&g_ctx); vc_havoc_obj(&g_d); vc_havoc_obj(&opt);
    opt.design = &g_d;
    g_n = in_size(1, 1UL << 30);
    g_l = input.lines = malloc(g_n * sizeof(line_t)); input.num_lines = g_n;
    g_bl = malloc(g_n);
    g_top = in_size(0, 1UL << 30); g_bot = in_size(0, 1UL << 30);
    ASSUME(g_top <= g_bot && g_bot <= g_n);
    g_body = g_bot - g_top;
    g_ctx.top_end_idx = g_top; g_ctx.bottom_start_idx = g_bot; g_ctx.body_num_lines = g_body;
    int mend = in_int(0, 1), kb = in_int(0, 1), pt = in_int(-1, 1000), pb = in_int(-1, 1000);
    opt.mend = mend; opt.killblank = kb; g_d.padding[BTOP] = pt; g_d.padding[BBOT] = pb;
    killblank(&g_ctx);
    COVER("kill");
    size_t t = g_ctx.top_end_idx, o = g_ctx.bottom_start_idx;
    CHECK(t >= g_top && t <= o && o <= g_bot && g_ctx.body_num_lines == o - t, "lines go away at the two ends of the body only");
    CHECK(ALL(k_, g_top, t, g_bl[k_]) && ALL(k_, o, g_bot, g_bl[k_]), "only blank lines go away");
    size_t mt = mend && !kb ? (size_t) (pt > 0 ? pt : 0) : SIZE_MAX, mb = mend && !kb ? (size_t) (pb > 0 ? pb : 0) : SIZE_MAX;
    CHECK(t - g_top <= mt && g_bot - o <= mb, "when mending, no more than the padding of the design");
    CHECK(t == o || ((t - g_top == mt || g_bl[t] == 0) && (g_bot - o == mb || g_bl[o - 1] == 0)), "and all of those");
#elif defined(V_top) || defined(V_bottom)
    vc_havoc_obj(&input); vc_havoc_obj(&g_ctx);
    g_n = in_size(1, 1UL << 30);
    input.lines = malloc(g_n * sizeof(line_t)); input.num_lines = g_n;
    g_b = malloc(g_n * sizeof(bxstr_t));
    g_s = in_size(0, 1UL << 30); g_e = in_size(0, 1UL << 30); g_k = in_size(0, 1UL << 30);
    ASSUME(g_s <= g_e && g_e <= g_n && g_k < g_n);
    g_o = g_s;
    bxstr_t *t = input.lines[g_k].text; size_t tl = input.lines[g_k].tabpos_len; size_t *tp = input.lines[g_k].tabpos;
#ifdef V_top
    g_ctx.top_start_idx = g_s; g_ctx.top_end_idx = g_e;
    remove_top_from_input(&g_ctx);
    COVER("top");
#else
    g_ctx.bottom_start_idx = g_s; g_ctx.bottom_end_idx = g_e;
    remove_bottom_from_input(&g_ctx);
    COVER("bottom");
#endif
    CHECK(g_o == g_e && input.num_lines == g_n - (g_e - g_s), "the lines of the box part are gone");
    size_t at = g_k < g_s ? g_k : g_k - (g_e - g_s);
    if (g_k < g_s || g_k >= g_e) CHECK(input.lines[at].text == t && input.lines[at].tabpos_len == tl && input.lines[at].tabpos == tp, "all other lines stay, in their order");
#elif defined(V_defpad) || defined(V_vert)
    vc_havoc_obj(&input); vc_havoc_obj(&g_ctx); vc_havoc_obj(&opt);
    g_n = in_size(1, 1UL << 30);
    input.lines = malloc(g_n * sizeof(line_t)); input.num_lines = g_n;
    g_b = malloc(g_n * sizeof(bxstr_t)); g_pool = malloc(3 * sizeof(bxstr_t));
    g_top = in_size(0, 1UL << 30); g_body = in_size(0, 1UL << 30); g_k = in_size(0, 1UL << 30);
    g_q = in_size(0, 1UL << 30);
    ASSUME(g_top + g_body <= g_n && g_k < g_body);
    ASSUME(g_q < g_top || (g_q >= g_top + g_body && g_q < g_n));
    ASSUME(input.lines[g_q].text == g_b + g_q && input.lines[g_top + g_k].text == g_b + (g_top + g_k));
    g_ctx.body_num_lines = g_body;
    g_lines = 0; g_nb = 0;
    size_t ind = in_size(0, 1UL << 29), ml = in_size(0, 1UL << 29);
    input.indent = ind; input.maxline = ml;
    #ifdef V_defpad
    g_ctx.top_start_idx = g_top;
    int nb = in_int(-1, 1 << 28);
    g_pad = (size_t) nb;
    ASSUME(nb < 0 || (size_t) nb <= ind);
    ASSUME(ind <= ml);
    remove_default_padding(&g_ctx, nb);
    COVER("defpad");
    if (nb > 0) {
        CHECK(g_lines == 1 && input.lines[g_top + g_k].text == g_pool, "the padding is cut off every line of the body once");
        CHECK(input.indent == ind - nb && input.maxline == ml - nb, "and the statistics follow");
    }
    else CHECK(g_lines == 0 && input.indent == ind && input.maxline == ml, "no padding, nothing to cut");
#else
    g_ctx.top_end_idx = g_top;
    g_ctx.body = malloc(g_body * sizeof(line_ctx_t));
    int im = in_int(0, 127);
    opt.indentmode = (char) im;
    remove_vertical_from_input(&g_ctx);
    COVER("vert");
    CHECK(g_lines == 1, "every line of the body is cut once");
    CHECK(g_nb == (((im == 'b' || im == 0) && g_ctx.body[g_k].west_quality > 0) ? 1 : 0), "the indentation comes back exactly where it was removed together with the box");
    CHECK(input.lines[g_top + g_k].text == (g_nb ? g_pool + 1 : g_pool), "the result becomes the line");
#endif
    CHECK(input.lines[g_q].text == g_b + g_q && input.num_lines == g_n, "the other lines are left alone");
#endif
}
#else
void harness(void) { }
#endif
