//@title removing a box: the top and bottom side are matched shape by shape
//@variants mid shift empty after count prep between hline
//@src remove.c
//@link unicode.c shape.c
//@prop C14
//@funcs.mid hmm
//@funcs.shift hmm_shiftable
//@funcs.empty is_shape_line_empty
//@funcs.after non_empty_shapes_after
//@funcs.count count_shape_lines
//@funcs.prep prepare_comp_shapes_horiz
//@funcs.hline match_horiz_line
//@funcs.between is_blank_between
//@loops.mid hmm:0
//@loops.shift hmm_shiftable:0 hmm_shiftable:1
//@loops.hline match_horiz_line:0
//@loops.between is_blank_between:0
//@unwind 7
//@replace.mid hmm=hmm_rec hmm_shiftable=shift_c non_empty_shapes_after=after_c bxs_is_blank=blank_c u32_strdup=dup_c u32_strncmp=ncmp_c shorten=shorten_c u32_is_blank=rest_c is_debug_logging=debug_c free=free_c
//@replace.shift hmm=hmms_c is_shape_line_empty=isempty_tab non_empty_shapes_after=after_c u32_strstr=strstr_c is_blank_between=between_c shorten=shorts_c free=free_c
//@replace.empty bxs_is_blank=blank_c
//@replace.after is_shape_line_empty=isempty_tab
//@replace.count isempty=shempty_c
//@replace.hline comp_type_is_viable=viable_c prepare_comp_shapes_horiz=preph_c debug_print_shapes_relevant=dps_c prepare_comp_input=pinp_c bxs_from_unicode=fromh_c bxs_rtrim=rtr_c bxs_append_spaces=app_c match_outer_shape=outer_c bxs_last_char_ptr=last_c hmm=hmmh_c bxs_free=bfree_c is_debug_logging=debug_c free=free_c
//@replace.prep isempty=shempty_c prepare_comp_shape=comp_c bxs_from_unicode=from_c free=free_c
//@assume callees by their contracts (units remove_parts, detect_parts, bxs_query, u32utils, shapes); u32_strncmp, u32_strstr, u32_strdup as documented in libunistring
//@noeffect bx_fprintf log_debug log_debug_cont
//@nonative removing is run by the whole-program units e2e_remove and e2e_mend
#include "common.h"
#include "texts.h"
#include "boxes.h"
#include "shape.h"
#include "detect.h"
#include "remove.h"
#ifdef GVC
static uint32_t *g_line, *g_pool, *g_mem;
static size_t g_p, g_e, g_n, g_q, g_qm, g_N, g_idx, g_calls, g_w;
static int g_ar, g_al, g_ne, g_r1, g_r2, g_bl[5], g_emp[5], g_cut, g_miss, g_hit, g_sh, g_rest, g_can, g_el, g_btw;
static shape_line_ctx_t *g_sc;
static bxstr_t *g_tb;
int debug_c(int a) { return 0; }
void free_c(void *p) {}
#define EMPTYL(i) ((i) >= 5 || g_sc[i].empty || g_bl[i])
int blank_c(bxstr_t *s)
{
    size_t k = (size_t) (s - g_tb);
    CHECK(k < 5, "a shape line");
    return g_bl[k];
}
int after_c(shape_line_ctx_t *s, size_t i) { CHECK(s == g_sc && i == g_idx, "the shapes after the one in hand"); return g_ne; }
int isempty_tab(shape_line_ctx_t *s, size_t i) { CHECK(s == g_sc && i < 5, "a shape of the side"); return g_emp[i]; }
/* mid ---------------------------------------------------------------------------------------------------------- */
#define HMM_LOOP (g_q <= g_N && (shape_line == NULL || shape_line == g_pool) \
    && (shape_line != NULL ? result == 0 && g_calls == 0 && g_hit == 0 && cur_pos == g_line + g_p && quality == g_q && g_q <= g_N && (g_q == g_N || !g_ar) \
        && ALL(k_, g_q, g_N, BLANKP(g_mem[k_])) && ALL(k_, 0, g_q, g_pool[k_] == g_mem[k_]) && g_tried == g_N - g_q \
      : (g_hit ? g_tried == g_N - g_q + 1 && g_q >= 1 && g_q <= g_N && (g_q == g_N || !g_ar) && ALL(k_, g_q, g_N, BLANKP(g_mem[k_])) && g_p + g_q <= g_n && (g_k >= g_q || g_line[g_p + g_k] == g_mem[g_k]) && result == RES \
         : result == 0 && g_calls == 0 && (g_ar ? g_tried == 1 : g_tried == g_N - g_q + 1 && (g_q == 0 || !BLANKP(g_mem[g_q - 1]))))))
static size_t g_tried, g_k;
/* the result after the shape line has matched g_q characters */
#define ATEND (g_p + g_q == g_e && !g_ne)
#define RES (ATEND ? 1 : g_el && g_r1 != 0 ? g_r1 : g_r2)
#define LOOP_hmm_0 vc_w(0, g_pool), vc_w(0, &quality), vc_inv(0, HMM_LOOP)
uint32_t *dup_c(const uint32_t *s) { CHECK(s == g_mem, "the shape line in hand"); ASSUME(ALL(k_, 0, g_N, g_pool[k_] == g_mem[k_])); return g_pool; }
int ncmp_c(const uint32_t *a, const uint32_t *b, size_t n)
{
    CHECK(a == g_line + g_p && b == g_pool && n == g_q, "the shape line is compared with the line, at the current position");
    g_tried++;
    int r = nondet_int();
    if (r == 0) {
        /* equal characters, none of them the terminator */
        ASSUME(g_p + n <= g_n);
        if (g_k < n) ASSUME(a[g_k] == b[g_k]);
        g_hit = 1;
    }
    return r;
}
uint32_t *shorten_c(shape_line_ctx_t *sl, size_t *q, int pl, int al, int ar)
{
    CHECK(!g_ar, "shape lines are shortened only if the east corner is blank");
    CHECK(sl == g_sc + g_idx && *q == g_q && pl == 0 && al == 0 && ar, "the shape line in hand is shortened at its end");
    if (g_q == 0 || !BLANKP(g_mem[g_q - 1])) return NULL;
    g_q--;
    *q = g_q;
    return g_pool;
}
int rest_c(const uint32_t *s) { CHECK(s == g_line + g_p, "the rest of the line"); return g_rest; }
int shift_c(shape_line_ctx_t *s, uint32_t *c, size_t i, uint32_t *e, int ar)
{
    CHECK(s == g_sc && c == g_line + g_p && i == g_idx && e == g_line + g_e && ar == g_ar, "not anchored yet: the same question");
    g_calls++;
    return g_sh;
}
int hmm_rec(shape_line_ctx_t *s, uint32_t *c, size_t i, uint32_t *e, int al, int ar)
{
    CHECK(s == g_sc && e == g_line + g_e && al == 1 && ar == g_ar && g_al, "the same line and side");
    size_t off = g_hit ? g_q : 0;
    CHECK(c == g_line + g_p + off, "goes on after the characters that matched");
    CHECK(i <= 4, "a shape of the side");
    int again = g_hit && i == g_idx;
    CHECK(again || i == g_idx + 1, "goes on with the next shape, or with the same if it is elastic");
    CHECK(!again || (g_el && g_calls == 0), "only elastic shapes are repeated");
    CHECK(again || !g_hit || !g_el || (g_calls == 1 && g_r1 == 0), "an elastic shape is repeated as long as that leads to success");
    g_calls++;
    return again ? g_r1 : g_r2;
}
/* shift -------------------------------------------------------------------------------------------------------- */
static size_t g_i;   /* the first shape that is not empty */
#define SHIFT_LOOP (i == g_i && result == 0 && g_calls == 0 && (shape_line == NULL || shape_line == (g_cut ? g_pool : g_mem)) && (shape_line == NULL || g_hit || quality == g_q) && g_q <= g_N && (can_shorten_right == -1 || can_shorten_right == CANR) && shapes_are_empty == 0 && g_hit == 0 \
    && (g_cut ? g_tried >= 1 : shape_line != NULL && g_tried == 0) && g_tried <= g_N - g_q + (shape_line == NULL ? 1 : 0))
#define CANR (!g_ne && g_emp[4] ? 1 : 0)
#define LOOP_hmm_shiftable_0 vc_inv(0, i >= g_p0 && i <= (g_i < 4 ? g_i : 4) && shapes_are_empty == 1 && result == 0 && g_calls == 0 && g_hit == 0 && !g_cut && g_tried == 0 && g_q == g_N)
#define LOOP_hmm_shiftable_1 vc_w(1, &quality), vc_inv(1, SHIFT_LOOP)
static size_t g_p0, g_o;
uint32_t *strstr_c(const uint32_t *a, const uint32_t *b)
{
    CHECK(a == g_line + g_p && b == (g_cut ? g_pool : g_mem), "the shape line is looked for from the current position on");
    g_tried++;
    if (nondet_bool()) return NULL;
    g_o = nondet_size_t();
    ASSUME(g_o <= g_n - g_p && g_q <= g_n - g_p - g_o);
    return g_line + g_p + g_o;
}
int between_c(uint32_t *a, uint32_t *b)
{
    if (b == g_line + g_e && g_i >= 4) { CHECK(a == g_line + g_p, "the whole rest must be blank if there are no shapes"); return g_rest; }
    CHECK(a == g_line + g_p && b == g_line + g_p + g_o && g_p + g_o < g_e, "nothing but blanks before the shape");
    int r = nondet_int();
    if (r) g_hit = 1;
    return r;
}
uint32_t *shorts_c(shape_line_ctx_t *sl, size_t *q, int pl, int al, int ar)
{
    CHECK(sl == g_sc + g_i && *q == g_q && pl == 0 && al == 1 && ar == CANR, "the shape line in hand; at its end only if nothing but blanks follows");
    g_cut = 1;
    if (g_q == 0 || nondet_bool()) return NULL;
    size_t n = nondet_size_t();
    ASSUME(n < g_q);
    *q = g_q = n;
    return g_pool;
}
int hmms_c(shape_line_ctx_t *s, uint32_t *c, size_t i, uint32_t *e, int al, int ar)
{
    CHECK(s == g_sc && e == g_line + g_e && al == 1 && ar == g_ar, "the same line and side, now anchored");
    CHECK(g_hit && c == g_line + g_p + g_o + g_q, "goes on after the shape line found");
    CHECK(i == (g_el && g_calls == 0 ? g_i : g_i + 1), "an elastic shape may be repeated, otherwise the next one follows");
    CHECK(g_calls == 0 || (g_el && g_calls == 1 && g_r1 == 0), "until one way leads to success");
    g_calls++;
    return g_calls == 1 ? g_r1 : g_r2;
}
/* count, prep --------------------------------------------------------------------------------------------------- */
static design_t g_d;
static int g_se[16], g_side, g_ct;
static size_t g_line_idx;
static uint32_t *g_ps;
static size_t g_made[5];
int shempty_c(const sentry_t *s)
{
    size_t k = (size_t) (s - g_d.shape);
    CHECK(k < 16, "a shape of the design");
    return g_se[k];
}
uint32_t *comp_c(design_t *d, shape_t sh, size_t line, comparison_t ct, size_t off, int is_east)
{
    CHECK(d == &g_d && line == g_line_idx && (int) ct == g_ct && off == 0, "the line of the shape, for this comparison");
    CHECK((int) sh >= 0 && (int) sh < 16 && !g_se[sh], "shapes that are there");
    CHECK((is_east != 0) == (sh == NE || sh == SE), "the east corner is the last");
    return g_ps + sh;
}
bxstr_t *from_c(const uint32_t *s) { return g_tb + (s - g_ps); }
/* hline -------------------------------------------------------------------------------------------------------- */
static int g_v[4], g_tt, g_hs, g_esl, g_esr, g_ml, g_mr, g_step, g_asked[4], g_last, g_res, g_lines, g_any;
static match_result_t *g_rl, *g_rr, *g_rlp, *g_rrp;
static bxstr_t g_raw, g_trim;
static size_t g_pl, g_ll, g_pr;
#define LOOP_match_horiz_line_0 vc_w(0, ctx), vc_keep(0, &ctx->input_is_mono), vc_keep(0, &ctx->design_is_mono), vc_keep(0, &ctx->empty_side[BLEF]), vc_keep(0, &ctx->empty_side[BRIG]), vc_w(0, &g_trim), \
    vc_inv(0, (int) comp_type >= 0 && (int) comp_type <= 4 && result == 0 && (!g_v[g_tt] || g_tt >= (int) comp_type || g_any) && g_last < (int) comp_type && g_last >= -1)
#define LOOP_is_blank_between_0 vc_inv(0, p == g_line + (p - g_line) && p >= g_line + g_p && (size_t) (p - g_line) <= (g_e > g_p ? g_e : g_p) && ALL(k_, g_p, (size_t) (p - g_line), BLANKP(g_line[k_])))
#include VC_SRC
opt_t opt; input_t input; int num_designs; design_t *designs; int color_output_enabled;
static remove_ctx_t g_ctx;
int viable_c(comparison_t t, int im, int dm) { CHECK((int) t >= 0 && (int) t < 4 && im == g_ctx.input_is_mono && dm == g_ctx.design_is_mono, "a comparison that suits input and design"); if (g_v[t]) { g_ct = (int) t; g_step = 0; g_ml = g_mr = 0; } return g_v[t]; }
shape_line_ctx_t *preph_c(int hs, comparison_t t, size_t l) { CHECK(hs == g_hs && (int) t == g_ct && l == g_line_idx && (int) g_ctx.comp_type == g_ct, "the shape line asked for, for this comparison"); return g_sc; }
void dps_c(shape_line_ctx_t *s) {}
void bfree_c(bxstr_t *s) {}
uint32_t *pinp_c(size_t i, int trim, comparison_t t, size_t off, size_t *a, size_t *b) { CHECK(i == g_idx && trim == 0 && (int) t == g_ct && off == 0, "the input line asked for, for this comparison"); return g_pool; }
bxstr_t *fromh_c(const uint32_t *s) { CHECK(s == g_pool, "the input line"); return &g_raw; }
bxstr_t *rtr_c(bxstr_t *s) { CHECK(s == &g_raw, "without trailing blanks"); g_trim.memory = g_mem; return &g_trim; }
void app_c(bxstr_t *s, size_t n) { CHECK(s == &g_trim && n == g_d.shape[NW].width + g_d.shape[NE].width, "room for blank corners at the end"); g_trim.memory = g_line; g_step = 1; }
match_result_t *outer_c(int side, bxstr_t *in, bxstr_t *sl)
{
    CHECK(g_step == 1 && in == &g_trim && g_trim.memory == g_line, "the prepared line");
    CHECK(side == BLEF ? !g_esl && sl == g_sc[0].text : side == BRIG && !g_esr && sl == g_sc[4].text, "the corners, unless the side is empty");
    if (side == BLEF) { g_ml++; if (nondet_bool()) { g_rl = NULL; return NULL; } }
    else { g_mr++; if (nondet_bool()) { g_rr = NULL; return NULL; } }
    match_result_t *r = side == BLEF ? g_rlp : g_rrp;
    if (side == BLEF) g_rl = r; else g_rr = r;
    return r;
}
uint32_t *last_c(bxstr_t *s) { CHECK(s == &g_trim, "the end of the prepared line"); return g_line + g_n; }
int hmmh_c(shape_line_ctx_t *s, uint32_t *c, size_t i, uint32_t *e, int al, int ar)
{
    CHECK(s == g_sc && i == 1 && g_step == 1, "the shapes between the corners");
    CHECK(g_ml == (g_esl ? 0 : 1) && g_mr == (g_esr ? 0 : 1), "both corners were looked for");
    CHECK(!g_esl && g_rl ? c == g_rl->p + g_rl->len && (al != 0) == (g_rl->shiftable == 0) : c == g_line && al == 0, "from the end of the west corner");
    CHECK(!g_esr && g_rr ? e == g_rr->p && (ar != 0) == (g_rr->shiftable == 0) : e == g_line + g_n && ar == 0, "up to the east corner");
    g_last = g_ct;
    if (g_ct == g_tt) g_any = 1;
    g_res = nondet_int();
    return g_res;
}
static void gen(void)
{
    g_n = in_size(0, 1UL << 30);
    g_line = malloc((g_n + 1) * 4);
    g_p = in_size(0, 1UL << 30); g_e = in_size(0, 1UL << 30);
    ASSUME(g_p <= g_n && g_e <= g_n);
    g_sc = malloc(5 * sizeof(shape_line_ctx_t));
    g_tb = malloc(16 * sizeof(bxstr_t));
    for (int k = 0; k < 5; k++) {
        g_sc[k].text = g_tb + k; g_sc[k].empty = in_int(0, 1); g_sc[k].elastic = in_int(0, 1);
        g_bl[k] = in_int(0, 1); g_emp[k] = in_int(0, 1);
    }
    g_ar = in_int(0, 1); g_al = in_int(0, 1); g_ne = in_int(0, 1); g_r1 = in_int(0, 1); g_r2 = in_int(0, 1); g_sh = in_int(0, 1); g_rest = in_int(0, 1);
    g_calls = 0; g_tried = 0; g_hit = 0; g_cut = 0;
    g_N = in_size(0, 1UL << 30); g_k = in_size(0, 1UL << 30);
    g_mem = malloc((g_N + 1) * 4); g_pool = malloc((g_N + 1) * 4);
}
void harness(void)
{
    gen();
#if defined(V_mid)
    g_idx = in_size(0, 4);
    g_el = (int) g_sc[g_idx].elastic;
    g_tb[g_idx].memory = g_mem; g_tb[g_idx].num_chars = g_N; g_q = g_N;
    int r = hmm(g_sc, g_line + g_p, g_idx, g_line + g_e, g_al, g_ar);
    if (!g_al) { CHECK(g_calls == 1 && r == g_sh, "not anchored: the shape may be found further to the right"); return; }
    if (g_p > g_e) { CHECK(r == 0 && g_calls == 0, "beyond the end nothing matches"); return; }
    if (g_p == g_e) {
        CHECK(g_calls == 0 && (r != 0) == ((g_idx == 4 && g_ar) || (EMPTYL(g_idx) && !g_ne)), "at the end it matches exactly if nothing but blanks is left over");
        return;
    }
    if (g_idx == 4) { CHECK(g_calls == 0 && (r != 0) == (g_rest != 0), "after the last shape only blanks may follow"); return; }
    if (g_sc[g_idx].empty) { CHECK(g_calls == 1 && r == g_r2, "an empty shape is skipped"); return; }
    COVER("mid");
    if (g_hit) CHECK(r == RES, "the shape line fits and the rest fits");
    else {
        CHECK(r == 0, "nothing fits");
        CHECK(g_N == 0 || (g_ar ? g_tried == 1 : g_tried >= 1), "the shape line is tried");
        CHECK(g_N == 0 || g_ar || g_q == 0 || !BLANKP(g_mem[g_q - 1]), "a blank end may be missing if the east corner is blank");
    }
#elif defined(V_shift)
    g_p0 = in_size(0, 4);
    g_i = 4;
    for (int k = 3; k >= 0; k--) if ((size_t) k >= g_p0 && !g_emp[k]) g_i = (size_t) k;
    g_idx = g_i;
    g_el = (int) g_sc[g_i].elastic;
    g_tb[g_i].memory = g_mem; g_tb[g_i].num_chars = g_N; g_q = g_N;
    int r = hmm_shiftable(g_sc, g_line + g_p, g_p0, g_line + g_e, g_ar);
    COVER("shift");
    if (g_i >= 4) { CHECK(g_calls == 0 && (r != 0) == (g_rest != 0), "no shapes: the rest must be blank"); return; }
    CHECK(g_tried >= 1, "the first shape that is not blank is looked for");
    CHECK(g_hit ? r == (g_el && !g_r1 ? g_r2 : g_r1) && g_calls == (g_el && !g_r1 ? 2 : 1) : r == 0 && g_calls == 0, "it is there after nothing but blanks, and the rest fits");
#elif defined(V_empty)
    size_t i = in_size(0, 1000);
    int r = is_shape_line_empty(g_sc, i);
    COVER("empty");
    CHECK((r != 0) == (i >= 5 || g_sc[i].empty || g_bl[i]), "missing, or blank");
#elif defined(V_after)
    size_t i = in_size(0, 4);
    int r = non_empty_shapes_after(g_sc, i);
    COVER("after");
    CHECK((r != 0) == ((i < 1 && !g_emp[1]) || (i < 2 && !g_emp[2]) || (i < 3 && !g_emp[3])), "shapes between this one and the east corner");
#elif defined(V_hline)
    vc_havoc_obj(&g_d); vc_havoc_obj(&opt); vc_havoc_obj(&g_ctx);
    opt.design = &g_d;
    ASSUME(g_d.shape[NW].width < (1UL << 30) && g_d.shape[NE].width < (1UL << 30));
    for (int k = 0; k < 4; k++) g_v[k] = in_int(0, 1);
    g_tt = in_int(0, 3); g_last = -1; g_any = 0;
    g_hs = in_int(0, 1) ? BTOP : BBOT;
    g_esl = in_int(0, 1); g_esr = in_int(0, 1);
    g_ctx.empty_side[BLEF] = g_esl; g_ctx.empty_side[BRIG] = g_esr;
    g_idx = in_size(0, 1000); g_line_idx = in_size(0, 1000);
    g_rlp = malloc(sizeof(match_result_t)); g_rrp = malloc(sizeof(match_result_t));
    g_pl = in_size(0, 1UL << 30); g_ll = in_size(0, 1UL << 30); g_pr = in_size(0, 1UL << 30);
    ASSUME(g_pl + g_ll <= g_n && g_pr <= g_n);
    g_rlp->p = g_line + g_pl; g_rlp->len = g_ll; g_rlp->shiftable = in_int(0, 1);
    g_rrp->p = g_line + g_pr; g_rrp->shiftable = in_int(0, 1);
    int r = match_horiz_line(&g_ctx, g_hs, g_idx, g_line_idx);
    COVER("hline");
    if (r) CHECK(g_last == (int) g_ctx.comp_type && r == g_res, "the comparison that succeeded");
    else CHECK(!g_v[g_tt] || g_any, "every suitable comparison is tried before giving up");
#elif defined(V_between)
    int r = is_blank_between(g_line + g_p, g_line + g_e);
    COVER("between");
    if (r) CHECK(ALL(k_, g_p, g_e, BLANKP(g_line[k_])), "only blanks in between");
    else CHECK(g_e > g_p && !ALL(k_, g_p, g_e, BLANKP(g_line[k_])), "something else in between");
#elif defined(V_count) || defined(V_prep)
    vc_havoc_obj(&g_d); vc_havoc_obj(&opt);
    opt.design = &g_d;
    for (int k = 0; k < 16; k++) g_se[k] = in_int(0, 1);
#ifdef V_count
    shape_t s[3] = {WNW, W, WSW};
    int vs = in_int(0, 1);
    if (vs) { s[0] = ENE; s[1] = E; s[2] = ESE; }
    for (int k = 0; k < 16; k++) ASSUME(g_d.shape[k].height < (1UL << 40));
    size_t r = count_shape_lines(s);
    COVER("count");
    CHECK(r == (g_se[s[0]] ? 0 : g_d.shape[s[0]].height) + (g_se[s[1]] ? 0 : g_d.shape[s[1]].height) + (g_se[s[2]] ? 0 : g_d.shape[s[2]].height), "the lines of the shapes that are there");
#else
    g_ct = in_int(0, 3); g_line_idx = in_size(0, 1000);
    g_ps = malloc(16 * 4);
    int hs = in_int(0, 1) ? BTOP : BBOT;
    shape_line_ctx_t *r = prepare_comp_shapes_horiz(hs, (comparison_t) g_ct, g_line_idx);
    COVER("prep");
    shape_t top[5] = {NW, NNW, N, NNE, NE}, bot[5] = {SW, SSW, S, SSE, SE};
    for (int k = 0; k < 5; k++) {
        shape_t w = hs == BTOP ? top[k] : bot[k];
        CHECK((r[k].empty != 0) == (g_se[w] != 0) && (r[k].elastic != 0) == (g_d.shape[w].elastic != 0), "the shapes of the side from left to right");
        CHECK(g_se[w] ? r[k].text == NULL : r[k].text == g_tb + w, "with the text to compare");
    }
#endif
#endif
}
#else
#include VC_SRC
void harness(void) { }
#endif
