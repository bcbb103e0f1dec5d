//@title requested size: the box minimum counts drawn sides only; padding gives way alternately and never below zero
//@variants expected adjust
//@src boxes.c
//@prop C06
//@funcs.expected apply_expected_size
//@funcs.adjust adjust_size_and_padding
//@loops.adjust adjust_size_and_padding:1 adjust_size_and_padding:2
//@replace.expected empty_side=empty_side_c
//@noeffect bx_fprintf log_debug log_debug_cont is_debug_logging
//@assume.expected empty_side by its contract (unit shapes.empty_side)
#include "common.h"
#include "boxes.h"
static int g_es[4], g_p[4], g_i;
static size_t g_h, g_w;
#define MIN(a, b) ((a) < (b) ? (a) : (b))
#define MAX(a, b) ((a) > (b) ? (a) : (b))
/* what the first side has given after i steps */
#define GIVEN(a, b, i) MIN(a, MAX(((i) + 1) / 2, (i) - (b)))
#define PADINV(A, B, i) ((i) >= 0 && (i) <= g_p[A] + g_p[B] && opt.design->padding[A] == g_p[A] - GIVEN(g_p[A], g_p[B], i) \
    && opt.design->padding[B] == g_p[B] - ((i) - GIVEN(g_p[A], g_p[B], i)))
#define KEEPD(n) vc_w(n, opt.design), vc_keep(n, &opt.design->minwidth), vc_keep(n, &opt.design->minheight)
#define LOOP_adjust_size_and_padding_1 KEEPD(1), vc_keep(1, &opt.design->shape[NW].width), vc_keep(1, &opt.design->shape[NE].width), vc_keep(1, opt.design->padding + BLEF), vc_keep(1, opt.design->padding + BRIG), vc_inv(1, PADINV(BTOP, BBOT, i) && (size_t) i <= pad - opt.design->minheight)
#define LOOP_adjust_size_and_padding_2 KEEPD(2), vc_keep(2, opt.design->padding + BTOP), vc_keep(2, opt.design->padding + BBOT), vc_inv(2, PADINV(BLEF, BRIG, i) && (size_t) i <= pad - opt.design->minwidth)
static design_t des;
static sentry_t g_sa[NUM_SHAPES];
int empty_side_c(sentry_t *sarr, const int aside) { CHECK(sarr == des.shape && aside >= 0 && aside < 4, "sides of the design"); return g_es[aside]; }
#define main boxes_main
#include VC_SRC
#undef main
#ifdef GVC
input_t input;
#define BIG (1 << 30)
#define BIGP 100000
#else
#define BIG 60
#define BIGP 12
#endif

void harness(void)
{
    GEN_GLOBALS(&des);
    for (int k = 0; k < NUM_SHAPES; k++) { des.shape[k].height = in_size(0, MAXDIM); des.shape[k].width = in_size(0, MAXDIM); }
    for (int k = 0; k < 4; k++) { g_es[k] = in_int(0, 1); int p = in_int(0, 100000); des.padding[k] = p; opt.padding[k] = in_int(-1, BIGP); }
#ifndef GVC
    /* real shapes: blank or not, so that the sides have the wanted emptiness */
    static char *one[3][1]; static bxstr_t *dummy[60];
    one[0][0] = " "; one[1][0] = "x"; one[2][0] = NULL;
    for (int k = 0; k < NUM_SHAPES; k++) {
        des.shape[k].height = 1; des.shape[k].width = in_size(1, 12);
        int bl = in_int(0, 1);
        char *t = malloc(20);
        memset(t, bl ? ' ' : 'x', des.shape[k].width); t[des.shape[k].width] = 0;
        des.shape[k].chars = malloc(sizeof(char *)); des.shape[k].chars[0] = t;
        des.shape[k].mbcs = dummy;
    }
    int blank_side = in_int(0, 15);
    for (int k = 0; k < 4; k++) { if (blank_side >> k & 1) for (int q = 0; q < SHAPES_PER_SIDE; q++) memset(des.shape[sides[k][q]].chars[0], ' ', des.shape[sides[k][q]].width); }
    for (int k = 0; k < 4; k++) { g_es[k] = 1; for (int q = 0; q < SHAPES_PER_SIDE; q++) if (strchr(des.shape[sides[k][q]].chars[0], 'x')) g_es[k] = 0; }
#endif
    size_t mh = in_size(0, BIG), mw = in_size(0, BIG);
    des.minheight = mh; des.minwidth = mw;
    long rh = in_long(0, BIG), rw = in_long(0, BIG);
    opt.reqheight = rh; opt.reqwidth = rw;
    size_t nw_w = des.shape[NW].width, nw_h = des.shape[NW].height, se_w = des.shape[SE].width, se_h = des.shape[SE].height, ne_w = des.shape[NE].width, sw_h = des.shape[SW].height;
#ifdef V_expected
    int p[4];
    for (int k = 0; k < 4; k++) p[k] = des.padding[k];
    apply_expected_size();
    COVER("expected");
    CHECK(des.minheight == MAX((size_t) rh, mh) + (rh && g_es[BTOP] ? nw_h : 0) + (rh && g_es[BBOT] ? se_h : 0), "a requested height is met by what is drawn: sides that are not drawn come on top");
    CHECK(des.minwidth == MAX((size_t) rw, mw) + (rw && g_es[BLEF] ? nw_w : 0) + (rw && g_es[BRIG] ? se_w : 0), "a requested width is met by what is drawn: sides that are not drawn come on top");
    for (int k = 0; k < 4; k++) CHECK(des.padding[k] == p[k], "padding is unchanged");
    CHECK(opt.reqheight == rh && opt.reqwidth == rw, "the request is unchanged");
#else
    size_t n = in_size(0, BIG), m = in_size(0, BIG);
    input.num_lines = n; input.maxline = m;
    for (int k = 0; k < 4; k++) g_p[k] = opt.padding[k] > -1 ? opt.padding[k] : des.padding[k];
    adjust_size_and_padding();
    COVER("adjust");
    size_t vneed = n + (size_t) g_p[BTOP] + (size_t) g_p[BBOT] + nw_h + sw_h, hneed = m + (size_t) g_p[BLEF] + (size_t) g_p[BRIG] + nw_w + ne_w;
    for (int axis = 0; axis < 2; axis++) {
        int A = axis ? BLEF : BTOP, B = axis ? BRIG : BBOT, req = axis ? rw != 0 : rh != 0;
        size_t need = axis ? hneed : vneed, had = axis ? mw : mh, has = axis ? des.minwidth : des.minheight;
        int pa = g_p[A], pb = g_p[B], a = des.padding[A], b = des.padding[B];
        CHECK(a >= 0 && b >= 0 && a <= pa && b <= pb, "padding never grows and never falls below zero");
        if (pa + pb > 0 && !req) CHECK(has == MAX(need, had) && a == pa && b == pb, "without a requested size the box grows to hold the full padding");
        if (pa + pb == 0 || req) CHECK(has == had, "a requested size is not exceeded for the sake of padding");
        if (need <= had) CHECK(a == pa && b == pb, "padding that fits stays");
        if (req && need > had) {
            int k = need - had < (size_t) (pa + pb) ? (int) (need - had) : pa + pb;
            CHECK(pa - a + pb - b == k, "padding is reduced until the requested size fits or no padding is left, not further");
            CHECK(pa - a == GIVEN(pa, pb, k), "alternating between the two opposite sides");
        }
    }
    CHECK(input.num_lines == n && input.maxline == m, "the text is unchanged");
#endif
}
