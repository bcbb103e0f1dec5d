//@title design detection: colour situation, comparison texts, hits at the right places, best match
//@variants mono_input mono_design viable cshape cinput west east hor vwest veast match auto
//@src detect.c
//@link shape.c unicode.c
//@prop C15
//@prop.cshape C15 C14
//@prop.cinput C15 C14
//@prop.mono_input C15 C14
//@prop.mono_design C15 C14
//@prop.viable C15 C14
//@funcs.mono_input input_is_mono
//@funcs.mono_design design_is_mono
//@funcs.viable comp_type_is_viable
//@funcs.cshape prepare_comp_shape
//@funcs.cinput prepare_comp_input get_visible_text
//@funcs.west find_west_corner
//@funcs.east find_east_corner
//@funcs.hor find_horizontal_shape
//@funcs.vwest find_vertical_west
//@funcs.veast find_vertical_east
//@funcs.match match_design determine_empty_sides
//@funcs.auto autodetect_design
//@loops.mono_input input_is_mono:0
//@loops.mono_design design_is_mono:0 design_is_mono:1
//@loops.auto autodetect_design:0 autodetect_design:1
//@loops.west find_west_corner:0 find_west_corner:1
//@loops.east find_east_corner:0 find_east_corner:1
//@loops.hor find_horizontal_shape:0 find_horizontal_shape:1
//@loops.vwest find_vertical_west:0 find_vertical_west:1
//@loops.veast find_vertical_east:0 find_vertical_east:1
//@replace.mono_design isempty=isempty_c
//@replace.cshape bxs_filter_visible=filter_c u32_strdup=strdup_c bxs_unindent_ptr=unindent_c
//@replace.cinput bxs_filter_visible=filter_c bxs_unindent_ptr=unindent_c is_debug_logging=debug_c
//@replace.west prepare_comp_shape=cshape_c prepare_comp_input=cinput_c u32_strncmp=strncmp_c bxs_is_blank=blank_c u32_strlen=strlen_c
//@replace.east prepare_comp_shape=cshape_c prepare_comp_input=cinput_c u32_strncmp=strncmp_c bxs_is_blank=blank_c u32_strlen=strlen_c
//@replace.hor prepare_comp_shape=cshape_c prepare_comp_input=cinput_c u32_strncmp=strncmp_c bxs_is_blank=blank_c u32_strlen=strlen_c u32_strstr=strstr_c is_blankward=bw_c
//@replace.vwest prepare_comp_shape=cshape_c prepare_comp_input=cinput_c u32_strncmp=strncmp_c bxs_is_blank=blank_c u32_strlen=strlen_c isempty=isempty_c
//@replace.veast prepare_comp_shape=cshape_c prepare_comp_input=cinput_c u32_strncmp=strncmp_c bxs_is_blank=blank_c u32_strlen=strlen_c isempty=isempty_c
//@replace.match empty_side=empty_c find_west_corner=fwest_c find_east_corner=feast_c find_horizontal_shape=fhor_c find_vertical_west=fvwest_c find_vertical_east=fveast_c
//@replace.auto match_design=match_c design_is_mono=dmono_c input_is_mono=imono_c is_debug_logging=debug_c
//@assume callees by their contracts: isempty, empty_side (shapes.*), bxs_filter_visible (bxs_build.filter), bxs_unindent_ptr, bxs_is_blank (bxs_query), is_blankward; u32_strdup, u32_strncmp, u32_strlen, u32_strstr as documented in libunistring
//@noeffect bx_fprintf fprintf log_debug log_debug_cont is_debug_logging
//@unwind 17
#include "common.h"
#include "texts.h"
#include "boxes.h"
#include "shape.h"
#include "detect.h"
static size_t g_n, g_j, g_k, g_o, g_len, g_cnt, g_a, g_h, g_vis, g_tj, g_tk, g_lr;
static int g_c, g_s, g_f1, g_f2, g_in, g_sh, g_e[4], g_cmp, g_cmp2, g_tl, g_tr, g_q, g_seen;
static design_t *g_d;
static bxstr_t *g_b;
static uint32_t *g_visible, *g_dup, *g_it;
static sentry_t *g_sp;
#define THERE(x) ((x).chars != NULL && (x).mbcs != NULL && (x).width != 0 && (x).height != 0)
int isempty_c(const sentry_t *s) { return s == NULL || !THERE(*s); }
int debug_c(int a) { return 0; }
#ifdef GVC
/* comparison texts, by their contracts */
uint32_t *filter_c(bxstr_t *s) { CHECK(s == g_b, "the text in hand"); return g_visible; }
uint32_t *unindent_c(bxstr_t *s) { CHECK(s == g_b, "the text in hand"); return g_b->memory + g_b->first_char[g_b->indent]; }
uint32_t *strdup_c(const uint32_t *p)
{
    CHECK(__CPROVER_POINTER_OBJECT(p) == __CPROVER_POINTER_OBJECT(g_in ? g_visible : g_b->memory), "the characters of the shape line");
    g_o = (size_t) (p - (g_in ? g_visible : g_b->memory));
    size_t n = g_in ? g_b->num_chars_visible : g_b->num_chars;
    CHECK(g_o <= n, "a part of the text");
    g_len = n - g_o;
    CHECK(p[g_len] == 0, "a terminated text");
    g_dup = malloc((g_len + 1) * 4);
    ASSUME(g_dup[g_len] == 0);
    uint32_t t = p[g_k <= g_len ? g_k : 0];
    if (g_k <= g_len) ASSUME(g_dup[g_k] == t);
    return g_dup;
}
#endif
/* the search functions: lines, trimming and order of comparison are fixed, the outcome of each comparison is arbitrary */
#ifdef GVC
static uint32_t *g_shape, *g_line, *g_found;
static int g_must, g_low, g_hit;
static int g_l0, g_r0, g_lead, g_any, g_bw;
static size_t g_nl, g_m, g_last;
int blank_c(bxstr_t *s) { return s == g_b; }
uint32_t *cshape_c(design_t *d, shape_t shape, size_t line, comparison_t c, int tl, int tr)
{
    CHECK(d == g_d && (int) shape == g_s && line == g_j && (int) c == g_c, "the shape line in hand");
    CHECK((tl != 0) == (g_tl != 0) && (tr != 0) == (g_tr != 0), "trimmed on the side of the box part");
    g_shape = malloc(4);
    return g_shape;
}
uint32_t *cinput_c(size_t idx, int tl, comparison_t c, size_t off, size_t *o1, size_t *o2)
{
    CHECK((int) c == g_c && o1 == NULL && o2 == NULL, "the same comparison");
    CHECK(idx == g_a && idx < input.num_lines, "the input line in hand");
    CHECK((off > 0 ? off == g_lr : 1) && (g_l0 ? tl != 0 && off == 0 : off == g_lr), "compared at the beginning or at the end of the line");
    g_line = nondet_bool() && !g_l0 ? NULL : g_it;
    return g_line;
}
size_t strlen_c(const uint32_t *s) { if (s == g_shape) return g_lr; return g_m; }
int strncmp_c(const uint32_t *a, const uint32_t *b, size_t n)
{
    CHECK(a == (g_found ? g_found + g_lr : g_line) && b == g_shape && n == g_lr, "input line and shape line are compared over the length of the shape line");
    int r = nondet_int();
    if (r == 0) { g_cnt++; if (g_j == g_tj) g_hit = 1; }
    return r;
}
uint32_t *strstr_c(const uint32_t *a, const uint32_t *b)
{
    CHECK(a == g_line && b == g_shape, "the shape line is looked for in the input line");
    if (nondet_bool()) { g_found = NULL; return NULL; }
    size_t k = nondet_size_t();
    ASSUME(k <= g_m - g_lr && g_lr <= g_m);
    g_found = (uint32_t *) a + k;
    if (!g_d->shape[g_s].elastic) g_cnt++;
    return g_found;
}
int bw_c(design_t *d, const shape_t s, const size_t line, const int left)
{
    CHECK(d == g_d && (int) s == g_s && line == g_j, "the shape line in hand");
    return left ? g_tl : g_tr;
}
int empty_c(sentry_t *s, const int side) { CHECK(s == g_d->shape && side >= 0 && side < 4, "a side of the design"); return g_e[side]; }
#define FSTUB(name, okset) size_t name(design_t *d, comparison_t c, int *e, shape_t s) { \
    CHECK(d == g_d && (int) c == g_c && (int) s == g_s && (okset), "every shape is searched for once, where it belongs"); \
    CHECK((e[0] != 0) == (g_e[0] != 0) && (e[1] != 0) == (g_e[1] != 0) && (e[2] != 0) == (g_e[2] != 0) && (e[3] != 0) == (g_e[3] != 0), "with the empty sides of the design"); \
    g_s++; size_t r = nondet_size_t(); ASSUME(r < (1UL << 40)); g_cnt += r; return r; }
FSTUB(fwest_c, s == NW || s == SW)
FSTUB(feast_c, s == NE || s == SE)
FSTUB(fhor_c, s == NNW || s == N || s == NNE || s == SSE || s == S || s == SSW)
FSTUB(fveast_c, s == ENE || s == E || s == ESE)
FSTUB(fvwest_c, s == WSW || s == W || s == WNW)
/* choosing: the pair (comparison g_ct, design g_tk) is arbitrary; g_rt, g_rd is where the running maximum was reached first */
static int g_mi, g_ct, g_rt;
static size_t g_rd, g_dn, g_cd;
static long g_max, g_th;
static unsigned char *g_mono;
int imono_c(void) { return g_mi; }
int dmono_c(design_t *d) { CHECK(d == designs + g_cd, "designs in their order"); return g_mono[g_cd] != 0; }
#define VIABLE(t, m) ((t) == 0 ? (g_mi != 0) == (m) : (t) == 1 ? !g_mi && (m) : (t) == 2 ? g_mi && !(m) : !g_mi && !(m))
long match_c(design_t *d, comparison_t c)
{
    CHECK(d == designs + g_cd && (int) c == g_c, "the design in hand");
    CHECK(VIABLE(g_c, g_mono[g_cd] != 0), "compared in a way made for the colours there are");
    long h = nondet_long();
    ASSUME(h >= 0);
    if (g_c == g_ct && g_cd == g_tk) { g_th = h; g_seen++; }
    if (h > g_max) { g_max = h; g_rt = g_c; g_rd = g_cd; }
    return h;
}
#endif
#define LOOP_input_is_mono_0 vc_inv(0, line_no <= g_n && result == 1 && ALL(k_, 0, line_no, g_b[k_].num_chars_invisible == 0))
#define BODY_input_is_mono_0 ASSUME(input.lines[line_no].text == g_b + line_no); g_k = line_no
/* line g_tj of shape g_q is arbitrary */
#define LOOP_design_is_mono_0 vc_inv(0, (int) scnt >= 0 && (int) scnt <= 16 && ((int) scnt <= g_q || g_seen == 0))
#define LOOP_design_is_mono_1 vc_inv(1, line_no <= design->shape[scnt].height && ((int) scnt < g_q || ((int) scnt == g_q && line_no <= g_tj) || g_seen == 0))
#define BODY_design_is_mono_1 if ((int) scnt == g_q) ASSUME(design->shape[scnt].mbcs[line_no] == g_b + line_no); else { g_b2 = design->shape[scnt].mbcs[line_no]; ASSUME(g_b2 == g_bb); } g_c = (int) scnt; g_k = line_no
static bxstr_t *g_b2, *g_bb;
#define LOOP_autodetect_design_0 vc_inv(0, (int) comp_type >= 0 && (int) comp_type <= 4 && maxhits == g_max && g_max >= 0 && (comp_type == 0 || g_max <= 2) && (g_max > 0 ? (g_rt >= 0 && g_rt < (int) comp_type && g_rd < g_dn && result == designs + g_rd) : result == NULL) \
    && g_seen == ((int) comp_type > g_ct && VIABLE(g_ct, g_mono[g_tk] != 0) ? 1 : 0) && (g_seen == 0 || g_th < g_max || (g_th == g_max && (g_max == 0 || g_rt < g_ct || (g_rt == g_ct && g_rd <= g_tk)))))
#define BODY_autodetect_design_0 g_c = (int) comp_type
#define LOOP_autodetect_design_1 vc_inv(1, dcnt <= g_dn && current_design == designs + dcnt && maxhits == g_max && g_max >= 0 && (g_max > 0 ? (g_rt >= 0 && g_rt <= (int) comp_type && g_rd < g_dn && (g_rt < (int) comp_type || g_rd < dcnt) && result == designs + g_rd) : result == NULL) \
    && g_seen == (((int) comp_type > g_ct || ((int) comp_type == g_ct && dcnt > g_tk)) && VIABLE(g_ct, g_mono[g_tk] != 0) ? 1 : 0) && (g_seen == 0 || g_th < g_max || (g_th == g_max && (g_max == 0 || g_rt < g_ct || (g_rt == g_ct && g_rd <= g_tk)))))
#define BODY_autodetect_design_1 g_cd = dcnt; g_c = (int) comp_type
#define HS (current_design->shape[g_s].height)
#define LINE_OF(k, low) ((low) ? (k) + input.num_lines - HS : (k))
#define SLINE(j) ASSUME(current_design->shape[g_s].mbcs[j] == g_b || current_design->shape[g_s].mbcs[j] == g_b + 1); g_j = j
/* the pair (shape line g_tj, input offset g_tk) is arbitrary: it is compared if it has to be */
#define PAIRS(j, k) (g_seen <= 1 && ((j) > g_tj || ((j) == g_tj && (k) > g_tk) || g_seen == 0))
#define LOOP_find_west_corner_0 vc_inv(0, j <= HS && hits == g_cnt && DUE(j))
#define LOOP_find_west_corner_1 vc_inv(1, k <= HS && hits == g_cnt && DUE2(j, k) && (!g_low || HS <= input.num_lines || k == 0))
#define DUE(j) ((j) > g_tj ? g_seen == g_must : g_seen == 0)
#define DUE2(j, k) ((j) == g_tj ? ((k) > g_tk ? g_seen == g_must : g_seen == 0) : DUE(j))
#define SEE(j, k) if (j == g_tj && k == g_tk && g_a < input.num_lines) g_seen++
#define BODY_find_west_corner_0 SLINE(j)
#define BODY_find_west_corner_1 g_a = LINE_OF(k, corner == SW); SEE(j, k)
#define LOOP_find_east_corner_0 vc_inv(0, j <= HS && hits == g_cnt && DUE(j))
#define LOOP_find_east_corner_1 vc_inv(1, k <= HS && hits == g_cnt && DUE2(j, k) && (!g_low || HS <= input.num_lines || k == 0))
#define BODY_find_east_corner_0 SLINE(j)
#define BODY_find_east_corner_1 g_a = LINE_OF(k, corner == SE); SEE(j, k)
#define LOOP_find_horizontal_shape_0 vc_inv(0, j <= HS && hits == g_cnt && DUE(j))
#define LOOP_find_horizontal_shape_1 vc_inv(1, k <= HS && hits == g_cnt && DUE2(j, k) && (!g_low || HS <= input.num_lines || k == 0))
#define BODY_find_horizontal_shape_0 SLINE(j)
#define BODY_find_horizontal_shape_1 g_found = NULL; g_a = LINE_OF(k, g_s >= (int) SSE && g_s <= (int) SSW); SEE(j, k)
#define VLO (empty[BTOP] ? 0 : current_design->shape[NW].height)
#define VHI (input.num_lines - (empty[BBOT] ? 0 : current_design->shape[SW].height))
#define LOOP_find_vertical_west_0 vc_inv(0, k >= VLO && k <= VHI && hits == g_cnt && g_seen == (k > g_tk && g_tk >= VLO ? 1 : 0))
#define LOOP_find_vertical_west_1 vc_inv(1, j <= HS && hits == g_cnt && g_seen == (k >= g_tk && g_tk >= VLO ? 1 : 0))
#define BODY_find_vertical_west_0 g_a = k; if (k == g_tk) g_seen++
#define BODY_find_vertical_west_1 SLINE(j)
#define LOOP_find_vertical_east_0 vc_inv(0, j <= HS && hits == g_cnt && g_hit <= 1 && (j > g_tj ? g_seen == 1 || g_hit == 1 || !g_must : g_seen == 0 && g_hit == 0))
#define LOOP_find_vertical_east_1 vc_inv(1, k >= VLO && k <= VHI && hits == g_cnt && g_hit <= 1 && (j > g_tj ? g_seen == 1 || g_hit == 1 || !g_must : j == g_tj ? g_hit == 0 && g_seen == (k > g_tk && g_tk >= VLO ? 1 : 0) : g_seen == 0 && g_hit == 0))
#define BODY_find_vertical_east_0 SLINE(j)
#define BODY_find_vertical_east_1 g_a = k; if (j == g_tj && k == g_tk) g_seen++
#include VC_SRC
#ifdef GVC
opt_t opt; input_t input; int num_designs; design_t *designs; int color_output_enabled;
#endif
#ifdef GVC
#define BIG (1UL << 20)
#else
#define BIG 5
#endif
#ifndef GVC
static bxstr_t *rndtext(int color)
{
    uint32_t m[64]; size_t o = 0;
    int n = in_int(1, 6);
    for (int i = 0; i < n; i++) {
        if (color && in_int(0, 2) == 0) { uint32_t e[] = {27, '[', '3', '1', 'm'}; for (int k = 0; k < 5; k++) m[o++] = e[k]; }
        m[o++] = in_int(0, 1) ? ' ' : 'a' + in_u32(0, 2);
    }
    m[o] = 0;
    return bxs_from_unicode(m);
}
#endif

void harness(void)
{
#ifndef GVC
    encoding = "UTF-8";
#endif
#if defined(V_mono_input)
    size_t n = in_size(0, BIG);
    g_n = n;
    input.lines = malloc((n + 1) * sizeof(line_t)); input.num_lines = n;
    g_b = malloc((n + 1) * sizeof(bxstr_t));
#ifndef GVC
    for (size_t k = 0; k < n; k++) { memset(g_b + k, 0, sizeof(bxstr_t)); g_b[k].num_chars_invisible = in_int(0, 3) ? 0 : in_size(0, 9); input.lines[k].text = g_b + k; }
#endif
    int r = input_is_mono();
    COVER("mono_input");
    if (r != 0) CHECK(ALL(k_, 0, n, g_b[k_].num_chars_invisible == 0), "no line of monochrome input has invisible characters");
    else {
#ifndef GVC
        for (g_k = 0; g_k < n && g_b[g_k].num_chars_invisible == 0; g_k++);
#endif
        CHECK(g_k < n && g_b[g_k].num_chars_invisible > 0, "input is coloured only if one of its lines has invisible characters");
    }
#elif defined(V_mono_design)
    static design_t d;
#ifdef GVC
    vc_havoc_obj(&d);
    g_q = in_int(0, 15); g_tj = in_size(0, BIG);
    size_t h = in_size(1, BIG);
    g_b = malloc(h * sizeof(bxstr_t)); g_bb = malloc(sizeof(bxstr_t));
    bxstr_t **mb = malloc(h * sizeof(bxstr_t *)), **mb2 = malloc(BIG * sizeof(bxstr_t *));
    for (int k = 0; k < 16; k++) ASSUME((d.shape[k].mbcs == NULL || d.shape[k].mbcs == (k == g_q ? mb : mb2)) && d.shape[k].height < BIG);
    ASSUME(d.shape[g_q].height == h);
    ASSUME(g_tj < h);
    g_seen = THERE(d.shape[g_q]) && g_b[g_tj].num_chars_invisible > 0;
    int r = design_is_mono(&d);
    COVER("mono_design");
    if (r != 0) CHECK(!g_seen, "no shape line of a monochrome design has invisible characters");
    else CHECK(THERE(d.shape[g_c]) && g_k < d.shape[g_c].height && d.shape[g_c].mbcs[g_k]->num_chars_invisible > 0, "a design is coloured only if one of its shape lines has invisible characters");
#else
    static bxstr_t t[16][3]; static bxstr_t *p[16][3]; static char *dc[3];
    int mono = 1;
    for (int k = 0; k < 16; k++) {
        d.shape[k].height = in_size(0, 3); d.shape[k].width = 2; d.shape[k].chars = in_int(0, 3) ? dc : NULL; d.shape[k].mbcs = p[k];
        for (size_t q = 0; q < 3; q++) { p[k][q] = &t[k][q]; t[k][q].num_chars_invisible = in_int(0, 15) ? 0 : 4; if (q < d.shape[k].height && d.shape[k].chars && t[k][q].num_chars_invisible) mono = 0; }
    }
    int r = design_is_mono(&d);
    COVER("mono_design");
    CHECK((r != 0) == mono, "a design is monochrome exactly if no shape line has invisible characters");
#endif
#elif defined(V_viable)
    int t = in_int(0, 3), mi = in_int(0, 1), md = in_int(0, 1);
    int r = comp_type_is_viable((comparison_t) t, mi, md);
    COVER("viable");
    int want = t == literal ? mi == md : t == ignore_invisible_input ? !mi && md : t == ignore_invisible_shape ? mi && !md : !mi && !md;
    CHECK((r != 0) == want, "a comparison is for exactly one colour situation");
#elif defined(V_cshape) || defined(V_cinput)
    int t = in_int(0, 3), tl = in_int(0, 1), tr = in_int(0, 1);
    size_t j = in_size(0, 3);
#ifdef GVC
    bxstr_t b;
    size_t n = in_size(0, 1UL << 30), nv = in_size(0, 1UL << 30);
    vc_havoc_obj(&b);
    b.num_chars = n; b.num_chars_visible = nv; b.num_chars_invisible = n - nv;
    b.memory = malloc((n + 1) * 4); b.first_char = malloc((nv + 1) * sizeof(size_t)); b.visible_char = malloc((nv + 1) * sizeof(size_t));
    /* what bxs_from_unicode establishes (unit bxs_from_unicode) */
    ASSUME(nv <= n && b.memory[n] == 0 && b.first_char[nv] <= n && b.first_char[b.indent] <= n);
    ASSUME(b.indent <= nv && b.trailing <= nv);
    g_b = &b;
    g_visible = malloc((nv + 1) * 4);
    g_visible[nv] = 0;
#endif
#ifdef V_cshape
    static design_t d;
    size_t ln = in_size(0, 5), k = in_size(0, 1UL << 30);
    int s = in_int(0, 15);
#ifdef GVC
    /* not blank: then neither trimming overlaps the other */
    ASSUME(b.indent + b.trailing < nv && b.first_char[nv - b.trailing] >= b.first_char[b.indent] && b.first_char[nv - b.trailing] <= n && b.first_char[b.indent] <= n);
    bxstr_t **mb = malloc(4 * sizeof(bxstr_t *));
    mb[j] = &b;
    g_k = k;
#else
    k %= 8;
    bxstr_t *mb[4];
    for (int q = 0; q < 4; q++) mb[q] = rndtext(in_int(0, 1));
    g_b = mb[j];
    ASSUME(!bxs_is_blank(g_b));
#endif
    d.shape[s].mbcs = mb; d.shape[s].height = 4;
#ifdef GVC
    size_t ix = ln == 5 ? 4 : j;
#else
    size_t ix = j;
#endif
    g_in = (t == ignore_invisible_shape || t == ignore_invisible_all) && g_b->num_chars_invisible > 0;
    uint32_t *r = prepare_comp_shape(&d, (shape_t) s, ix, (comparison_t) t, tl, tr);
    COVER("cshape");
    if (ix == 4) { CHECK(r == NULL, "there is no such line"); return; }
    size_t lo = g_in ? (tl ? g_b->indent : 0) : (tl ? g_b->first_char[g_b->indent] : 0);
    size_t hi = g_in ? g_b->num_chars_visible - (tr ? g_b->trailing : 0) : tr && g_b->trailing > 0 ? g_b->first_char[g_b->num_chars_visible - g_b->trailing] : g_b->num_chars;
#ifdef GVC
    CHECK(r == g_dup && g_o == lo, "the text begins where the trimming ends");
    CHECK(hi >= lo && hi - lo <= g_len && r[hi - lo] == 0, "and ends where the trimming begins");
    if (k < hi - lo) CHECK(r[k] == (g_in ? g_visible : b.memory)[lo + k], "in between nothing changes");
#else
    uint32_t *v = g_in ? bxs_filter_visible(g_b) : g_b->memory;
    CHECK(u32_strlen(r) == hi - lo && u32_strncmp(r, v + lo, hi - lo) == 0, "the text without what is trimmed");
#endif
#else
    size_t off = in_int(0, 1) ? 0 : in_size(1, 1UL << 29), oi = 77, ot = 77;
#ifdef GVC
    vc_havoc_obj(&input);
    input.lines = malloc(4 * sizeof(line_t)); input.num_lines = 4;
    input.lines[j].text = &b;
    input.lines[j].cache_visible = NULL;
    ASSUME(b.first_char[nv - b.trailing] <= n && b.indent <= nv);
    size_t fi = b.first_char[b.indent], ft = b.first_char[nv - b.trailing];
    uint32_t *vis = g_visible, *mem = b.memory;
#else
    static line_t lines[4];
    for (int q = 0; q < 4; q++) { lines[q].text = rndtext(in_int(0, 1)); lines[q].cache_visible = NULL; }
    input.lines = lines; input.num_lines = 4;
    off %= 9; g_b = lines[j].text;
    size_t fi = g_b->first_char[g_b->indent], ft = g_b->first_char[g_b->num_chars_visible - g_b->trailing], nv = g_b->num_chars_visible, n = g_b->num_chars;
    uint32_t *vis = lines[j].cache_visible = bxs_filter_visible(g_b), *mem = g_b->memory;
#endif
    size_t ix = in_int(0, 5) == 0 ? 4 : j;
    int noin = t == ignore_invisible_input || t == ignore_invisible_all;
    uint32_t *r = prepare_comp_input(ix, tl, (comparison_t) t, off, off ? NULL : &oi, &ot);
    COVER("cinput");
    if (ix == 4) { CHECK(r == NULL, "there is no such line"); return; }
    uint32_t *base = noin ? vis : mem;
    size_t end = noin ? nv - g_b->trailing : ft;
    if (off == 0) {
        CHECK(r == base + (tl ? (noin ? g_b->indent : fi) : 0), "the line from its first character or from its indentation");
        CHECK(oi == (tl ? 0 : noin ? g_b->indent : fi), "the indentation that is left");
    }
    else CHECK(r == (end >= off ? base + (end - off) : NULL), "the end of the line, before its trailing blanks");
    CHECK(ot == (noin ? g_b->trailing : n - ft), "the trailing blanks");
#endif
#elif defined(V_auto)
#ifdef GVC
    g_dn = in_size(0, 1UL << 20); g_mi = in_int(0, 1); g_ct = in_int(0, 3); g_tk = in_size(0, 1UL << 20);
    designs = malloc((g_dn + 1) * sizeof(design_t)); num_designs = (int) g_dn;
    g_mono = malloc(g_dn + 1);
    ASSUME(g_tk < g_dn);   /* there is at least one design */
    g_max = 0; g_seen = 0; g_rt = -1;
    design_t *r = autodetect_design();
    COVER("auto");
    if (g_max <= 0) CHECK(r == NULL, "no hits, no design");
    else CHECK(r == designs + g_rd, "the design with the most hits");
    if (g_dn > 0 && VIABLE(g_ct, g_mono[g_tk] != 0)) {
        CHECK(IMPLIES(g_seen == 0, g_max > 2 && g_rt < g_ct), "a comparison is left out only if an earlier one has found enough");
        CHECK(IMPLIES(g_seen == 1, g_th <= g_max), "no design had more hits");
        CHECK(IMPLIES(g_seen == 1 && g_th == g_max && g_max > 0, g_rt < g_ct || (g_rt == g_ct && g_rd <= g_tk)), "of several the first");
    }
#endif
#elif defined(V_match)
#ifdef GVC
    static design_t d;
    vc_havoc_obj(&d);
    g_d = &d; g_c = in_int(0, 3); g_s = 0; g_cnt = 0;
    for (int k = 0; k < 4; k++) g_e[k] = in_int(0, 1);
    long h = match_design(&d, (comparison_t) g_c);
    COVER("match");
    CHECK(g_s == 16, "every shape is searched for");
    CHECK(h == (long) g_cnt, "the hits of all shapes together");
#endif
#else
#ifdef GVC
    static design_t d;
    vc_havoc_obj(&d); vc_havoc_obj(&input);
    g_d = &d; g_c = in_int(0, 3); g_cnt = 0; g_lr = in_size(1, 1UL << 20); g_seen = 0; g_found = NULL;
    g_m = in_size(0, 1UL << 20);
    g_it = malloc((g_m + 1) * 4);
    input.num_lines = in_size(1, 1UL << 20);
    g_b = malloc(2 * sizeof(bxstr_t));   /* a blank line and one that is not */
    g_tj = in_size(0, 1UL << 20); g_tk = in_size(0, 1UL << 20);
    for (int k = 0; k < 4; k++) g_e[k] = in_int(0, 1);
#if defined(V_west)
    g_s = in_int(0, 1) ? (int) NW : (int) SW; g_low = g_s == (int) SW; g_l0 = 1; g_tl = 1; g_tr = 0;
    int none = g_e[BLEF] || (g_low ? g_e[BBOT] : g_e[BTOP]);
#elif defined(V_east)
    g_s = in_int(0, 1) ? (int) NE : (int) SE; g_low = g_s == (int) SE; g_l0 = 0; g_tl = 0; g_tr = 1;
    int none = g_e[BRIG] || (g_low ? g_e[BBOT] : g_e[BTOP]);
#elif defined(V_hor)
    int hi = in_int(0, 5);
    g_s = hi == 0 ? (int) NNW : hi == 1 ? (int) N : hi == 2 ? (int) NNE : hi == 3 ? (int) SSE : hi == 4 ? (int) S : (int) SSW;
    g_low = hi >= 3; g_l0 = 1; g_tl = in_int(0, 1); g_tr = in_int(0, 1);
    int none = g_low ? g_e[BBOT] : g_e[BTOP];
#elif defined(V_vwest)
    int hi = in_int(0, 2);
    g_s = hi == 0 ? (int) WSW : hi == 1 ? (int) W : (int) WNW; g_l0 = 1; g_tl = 1; g_tr = 0;
#else
    int hi = in_int(0, 2);
    g_s = hi == 0 ? (int) ENE : hi == 1 ? (int) E : (int) ESE; g_l0 = 0; g_tl = 1; g_tr = 1;
#endif
    size_t h = in_size(0, 1UL << 20);
    bxstr_t **mb = malloc((h + 1) * sizeof(bxstr_t *));
    d.shape[g_s].mbcs = mb; d.shape[g_s].height = h;
    for (int k = 0; k < 16; k++) ASSUME(d.shape[k].height <= (1UL << 20));
    #if defined(V_vwest) || defined(V_veast)
    ASSUME(g_tj < h);
#else
    ASSUME(g_tj < h && g_tk < h);
#endif
    /* the chosen pair has to be compared if its shape line is not blank and its input line exists */
    g_must = (mb[g_tj] == g_b + 1) && (g_low ? h <= input.num_lines : g_tk < input.num_lines);
#if defined(V_vwest) || defined(V_veast)
    size_t lo = g_e[BTOP] ? 0 : d.shape[NW].height, below = g_e[BBOT] ? 0 : d.shape[SW].height;
    int none = lo + below >= input.num_lines || !THERE(d.shape[g_s]);
    g_hit = 0;
    g_must = (g_tk >= lo && g_tk < input.num_lines - below && mb[g_tj] == g_b + 1);
#endif
#if defined(V_west)
    size_t r = find_west_corner(&d, (comparison_t) g_c, g_e, (shape_t) g_s);
    COVER("west");
#elif defined(V_east)
    size_t r = find_east_corner(&d, (comparison_t) g_c, g_e, (shape_t) g_s);
    COVER("east");
#elif defined(V_hor)
    size_t r = find_horizontal_shape(&d, (comparison_t) g_c, g_e, (shape_t) g_s);
    COVER("hor");
#elif defined(V_vwest)
    size_t r = find_vertical_west(&d, (comparison_t) g_c, g_e, (shape_t) g_s);
    COVER("vwest");
#else
    size_t r = find_vertical_east(&d, (comparison_t) g_c, g_e, (shape_t) g_s);
    COVER("veast");
#endif
    CHECK(r == g_cnt, "one hit for every comparison that succeeds");
#if defined(V_vwest)
    if (none) CHECK(r == 0, "no hits on an empty side");
    else if (g_tk >= lo && g_tk < input.num_lines - below) CHECK(g_seen == 1, "every line between top and bottom is looked at");
#elif defined(V_veast)
    if (none) CHECK(r == 0, "no hits on an empty side");
    else if (g_must) CHECK(g_seen == 1 || g_hit == 1, "every line of the shape is looked for on every line between top and bottom until it is found");
#else
    if (none) CHECK(r == 0 && g_seen == 0, "no hits on an empty side");
    else CHECK(g_seen == g_must, "every line of the shape that is not blank is compared with every line where it could be");
#endif
#endif
#endif
}
