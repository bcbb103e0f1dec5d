//@title is_blankward: only blanks between a shape row and the left (right) end of the box, remembered correctly
//@variants left right cache
//@src shape.c
//@prop C15 C14
//@funcs is_blankward_calc is_west is_east find_in_horiz find_in_north find_in_south
//@funcs.cache is_blankward new_blankward_cache
//@loops.cache new_blankward_cache:0
//@replace bxs_is_blank=isblank_c
//@replace.cache is_blankward_calc=calc_c
//@assume bxs_is_blank by its contract (unit bxs_query.isblank); shapes on the top side are equally high, as are those on the bottom side (C09)
//@assume.cache is_blankward_calc by its contract (units blankward.left, blankward.right)
//@noeffect bx_fprintf perror fprintf log_debug log_debug_cont is_debug_logging
#include "common.h"
#include "texts.h"
#include "boxes.h"
#define LOOP_new_blankward_cache_0 vc_w(0, result), vc_inv(0, i <= shape_height && ALL(k_, 0, i, result[k_] == -1))
static bxstr_t g_bx[16];        /* row g_line of shape s is g_b[s]; other rows are anything */
static int g_isb[16];
static size_t g_line;
static int g_s, g_left, g_want, g_calls;
static design_t g_des;
#ifdef GVC
int isblank_c(bxstr_t *s)
{
    CHECK(__CPROVER_POINTER_OBJECT(s) == __CPROVER_POINTER_OBJECT(g_bx), "the same row of each shape is looked at");
    return g_isb[s - g_bx];
}
int calc_c(design_t *d, const shape_t shape, const size_t line, const int left)
{
    CHECK(d == &g_des && (int) shape == g_s && line == g_line && left == g_left, "calculated for the shape and row asked for");
    g_calls++;
    return g_want;
}
#define MANY 100000
#else
#define MANY 4
#endif
#include VC_SRC
#ifdef GVC
opt_t opt; input_t input; int num_designs; design_t *designs; int color_output_enabled;
#endif

/* written from the meaning: what lies on the same row of the top or bottom, further left or right; the left and right sides themselves reach to the end */
static int want_bw(int s, int left)
{
    static const int row[16] = {0, 1, 2, 3, 4, -1, -1, -1, 9, 8, 7, 6, 5, -1, -1, -1};      /* 0..4 top, 5..9 bottom, left to right */
    static const int at[10] = {NW, NNW, N, NNE, NE, SW, SSW, S, SSE, SE};
    if (row[s] < 0) return (s >= WSW) == (left != 0);
    int lo = row[s] - row[s] % 5, hi = lo + 5, r = 1;
    for (int k = lo; k < hi; k++)
        if (left ? k < row[s] : k > row[s]) r &= (g_des.shape[at[k]].mbcs == NULL) | (g_isb[at[k]] != 0);
    return r;
}

void harness(void)
{
    int s = in_int(0, 15);
#ifdef V_left
    const int left = 1;
#elif defined(V_right)
    const int left = 0;
#else
    const int left = in_int(0, 1);
#endif
    g_left = left;
    sentry_t *sh = g_des.shape;
    size_t ht = in_size(1, MANY), hb = in_size(1, MANY), hw = in_size(1, MANY), line = in_size(0, 2 * (size_t) MANY);
#ifndef V_cache
#define CASE(k) case k: s = k; break
    switch (s) { CASE(0); CASE(1); CASE(2); CASE(3); CASE(4); CASE(5); CASE(6); CASE(7); CASE(8); CASE(9); CASE(10); CASE(11); CASE(12); CASE(13); CASE(14); CASE(15); }
#endif
    g_s = s;
    size_t h0 = s <= NE ? ht : s >= SE && s <= SW ? hb : hw;
    g_line = line < h0 ? line : 0;
#if !defined(V_cache) || !defined(GVC)
    for (int i = 0; i < 16; i++) {
        int there = in_int(0, 2);
        const size_t h = i <= NE ? ht : i >= SE && i <= SW ? hb : hw;
        g_isb[i] = in_int(0, 1);
        sh[i].name = (shape_t) i;
        sh[i].mbcs = NULL;
#ifdef GVC
        if (i <= NE || (i >= SE && i <= SW)) {
            bxstr_t **m = malloc(h * sizeof(bxstr_t *));
            if (g_line < h) m[g_line] = g_bx + i;
            sh[i].mbcs = there ? m : NULL;
        }
#else
        sh[i].mbcs = there || i == s ? calloc(h, sizeof(bxstr_t *)) : NULL;
        for (size_t k = 0; sh[i].mbcs && k < h; k++) {
            int b = k == g_line ? g_isb[i] : in_int(0, 1);
            sh[i].mbcs[k] = bxs_from_ascii(b ? "  " : " x");
        }
        sh[i].height = sh[i].mbcs ? h : 0;
#endif
    }
#endif
#ifndef V_cache
    ASSUME(line < h0);
    int r = is_blankward_calc(&g_des, (shape_t) s, line, left);
    COVER("left");
    COVER("right");
    CHECK(r == want_bw(s, left), "blank exactly if everything further out on this row is blank or absent");
#else
#ifdef GVC
    g_want = in_int(0, 1);
    sh[s].height = h0;
#else
    g_want = want_bw(s, left);
#endif
    g_calls = 0;
    int cached = in_int(0, 2);          /* nothing remembered; something, but not this row; this row */
    int *cache = calloc(h0, sizeof(int)), *other = calloc(h0, sizeof(int));
    size_t q = in_size(0, h0 - 1);
    for (int once_ = 0; once_ < 1; once_++) { cache[q] = in_int(-1, 1); other[q] = in_int(-1, 1); }
    cache[g_line] = cached == 2 ? g_want : -1;
    int oldq = cache[q], ooldq = other[q];
    sh[s].blank_leftward = left ? (cached ? cache : NULL) : other;
    sh[s].blank_rightward = left ? other : (cached ? cache : NULL);
    int r = is_blankward(&g_des, (shape_t) s, line, left);
    COVER("cache");
    int *now = left ? sh[s].blank_leftward : sh[s].blank_rightward;
    CHECK((left ? sh[s].blank_rightward : sh[s].blank_leftward) == other && other[q] == ooldq, "the other direction is left alone");
    if (line >= h0) {
        CHECK(r == 0, "no such row");
        return;
    }
    COVER("cache row");
    CHECK(r == g_want, "the calculated or remembered answer");
    CHECK(now != NULL && now[line] == g_want, "the answer is remembered for this row");
    CHECK(IMPLIES(cached, now == cache), "the memory stays where it is");
    CHECK(q == line || now[q] == (cached ? oldq : -1), "other rows are not affected");
    CHECK(is_blankward(NULL, (shape_t) s, line, left) == 0, "no design");
#ifdef GVC
    CHECK(g_calls == (cached < 2), "calculated once");
#endif
#endif
}
