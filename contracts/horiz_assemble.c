//@title horiz_assemble: left and right side list the corner, the shape rows cycling from their first row, and the corner, top to bottom
//@variants east west
//@src generate.c
//@prop C04
//@funcs horiz_assemble
//@loops horiz_assemble:0 horiz_assemble:1 horiz_assemble:2 horiz_assemble:3
//@link shape.c
//@noeffect bx_fprintf log_debug log_debug_cont is_debug_logging
//@budget 300
#include "common.h"
#include "boxes.h"
static size_t g_o[3], g_ht, g_hb, g_H, g_V;     /* rows per shape (top to bottom), corner heights, total height, rows between the corners */
static size_t *g_row;                            /* which row of its shape is at position t */
static sentry_t sa[NUM_SHAPES];
#ifdef V_east
#define TOPC NE
#define BOTC SE
#define FIRST ENE
#define SECOND E
#define THIRD ESE
#define SIDE east_side
#define REM(k) (iltf[k])
#define POS (cshape)
#else
#define TOPC NW
#define BOTC SW
#define FIRST WNW
#define SECOND W
#define THIRD WSW
#define SIDE west_side
#define REM(k) (iltf[2 - (k)])
#define POS (2 - cshape)
#endif
#define START(k) ((k) == 0 ? 0 : (k) == 1 ? g_o[0] : g_o[0] + g_o[1])
#define HGT(k) (sa[(k) == 0 ? FIRST : (k) == 1 ? SECOND : THIRD].height)
#define TOP_DONE ALL(q_, 0, g_ht, result->chars[q_] == sa[TOPC].chars[q_] && result->mbcs[q_] == sa[TOPC].mbcs[q_])
#define BOT_DONE(n) ALL(q_, g_H - g_hb, g_H - g_hb + (n), result->chars[q_] == sa[BOTC].chars[q_ - (g_H - g_hb)] && result->mbcs[q_] == sa[BOTC].mbcs[q_ - (g_H - g_hb)])
/* rows lo..hi between the corners come from shape s, at the rows the ghost table names */
#define SEG(s, lo, hi) ALL(q_, lo, hi, g_row[q_ - g_ht] < sa[s].height && result->chars[q_] == sa[s].chars[g_row[q_ - g_ht]] && result->mbcs[q_] == sa[s].mbcs[g_row[q_ - g_ht]])
/* the ghost table counts rows 0, 1, .. h-1, 0, 1, .. from the start of each segment */
#define CYC(s, lo, hi) (ALL(q_, (lo) + 1, hi, g_row[q_] == (g_row[q_ - 1] + 1 == sa[s].height ? 0 : g_row[q_ - 1] + 1)) && IMPLIES((lo) < (hi), g_row[lo] == 0))
#define LOW(a, b) ((a) < (b) ? (a) : (b))
#define T (j - g_ht)
#define LOOP_horiz_assemble_0 vc_w(0, result->chars), vc_w(0, result->mbcs), vc_inv(0, j <= g_ht && ALL(q_, 0, j, result->chars[q_] == sa[TOPC].chars[q_] && result->mbcs[q_] == sa[TOPC].mbcs[q_]))
#define LOOP_horiz_assemble_1 vc_w(1, result->chars), vc_w(1, result->mbcs), vc_inv(1, j <= g_hb && TOP_DONE && BOT_DONE(j))
/* what is left to do: shapes before the current one are used up, those after it untouched */
#define LEFT ((cshape >= 0 && cshape <= 2) && T <= g_V && IMPLIES(POS == 0, REM(0) == g_o[0] - T && T <= g_o[0] && REM(1) == g_o[1] && REM(2) == g_o[2]) \
    && IMPLIES(POS == 1, REM(1) == START(1) + g_o[1] - T && T >= START(1) && T <= START(2) && REM(2) == g_o[2]) \
    && IMPLIES(POS == 2, REM(2) == START(2) + g_o[2] - T && T >= START(2)))
#define DONE(t) (SEG(FIRST, g_ht, g_ht + LOW(t, g_o[0])) && SEG(SECOND, g_ht + g_o[0], g_ht + LOW(t, START(2))) && SEG(THIRD, g_ht + START(2), g_ht + (t)) \
    && CYC(FIRST, 0, LOW(t, g_o[0])) && CYC(SECOND, g_o[0], LOW(t, START(2))) && CYC(THIRD, START(2), t))
#define SCOK (IMPLIES(T == START(POS), sc == 0) && IMPLIES(T > START(POS), sc == g_row[T - 1] + 1 && sc <= HGT(POS)))
#define LOOP_horiz_assemble_2 vc_w(2, result->chars), vc_w(2, result->mbcs), vc_w(2, iltf), vc_w(2, g_row), \
    vc_inv(2, j >= g_ht && LEFT && SCOK && TOP_DONE && BOT_DONE(g_hb) && DONE(T))
#define LOOP_horiz_assemble_3 vc_inv(3, LEFT && SCOK && T < g_V)
/* ghost: the row that belongs here */
#define SEGNO (T < g_o[0] ? 0 : T < START(2) ? 1 : 2)
#define BODY_horiz_assemble_2 g_row[T] = T == START(SEGNO) ? 0 : g_row[T - 1] + 1 == HGT(SEGNO) ? 0 : g_row[T - 1] + 1;
#include VC_SRC
#ifdef GVC
opt_t opt; input_t input; int num_designs; design_t *designs; int color_output_enabled;
#define MAXC 100000
#define MAXS (1UL << 40)
#else
#define MAXC 4
#define MAXS 7
#endif

static void shape(int k, int optional)
{
    size_t h = in_size(1, MAXC);
    if (optional && in_int(0, 2) == 0) { sa[k].chars = NULL; sa[k].mbcs = NULL; sa[k].height = 0; sa[k].width = 0; return; }
    sa[k].height = h; sa[k].width = 1;
    sa[k].chars = malloc(h * sizeof(char *)); sa[k].mbcs = malloc(h * sizeof(bxstr_t *));
#ifndef GVC
    for (size_t q = 0; q < h; q++) { sa[k].chars[q] = (char *) (1000 * (size_t) (k + 1) + q); sa[k].mbcs[q] = (bxstr_t *) (1000 * (size_t) (k + 1) + q); }
#endif
}
void harness(void)
{
    shape(TOPC, 0); shape(BOTC, 0); shape(FIRST, 1); shape(SECOND, 1); shape(THIRD, 1);
    sentry_t res;
    size_t o0 = in_size(0, MAXS), o1 = in_size(0, MAXS), o2 = in_size(0, MAXS);
    if (sa[FIRST].height == 0) o0 = 0;
    if (sa[SECOND].height == 0) o1 = 0;
    if (sa[THIRD].height == 0) o2 = 0;
    g_o[0] = o0; g_o[1] = o1; g_o[2] = o2;
    g_ht = sa[TOPC].height; g_hb = sa[BOTC].height;
    g_V = o0 + o1 + o2; g_H = g_ht + g_V + g_hb;
    g_row = malloc((g_V + 1) * sizeof(size_t));
    res.height = g_H; res.width = 1; res.elastic = 0; res.name = NW;
    res.chars = malloc(g_H * sizeof(char *)); res.mbcs = malloc(g_H * sizeof(bxstr_t *));
    size_t iltf[3];
#ifdef V_east
    iltf[0] = o0; iltf[1] = o1; iltf[2] = o2;
#else
    iltf[0] = o2; iltf[1] = o1; iltf[2] = o0;
#endif
#ifndef GVC
    for (size_t t = 0; t < g_V; t++) g_row[t] = t == 0 || t == o0 || t == o0 + o1 ? 0 : (g_row[t - 1] + 1) % HGT(t < o0 ? 0 : t < o0 + o1 ? 1 : 2);
#endif
    horiz_assemble(sa, SIDE, iltf, &res);
    const sentry_t *result = &res;
    if (g_V > 3) COVER(
#ifdef V_east
    "east");
#else
    "west");
#endif
    CHECK(res.height == g_H, "height");
    CHECK(TOP_DONE, "the rows of the upper corner, in order, at the top");
    CHECK(BOT_DONE(g_hb), "the rows of the lower corner, in order, at the bottom");
    CHECK(SEG(FIRST, g_ht, g_ht + o0), "then the rows of the first shape");
    CHECK(SEG(SECOND, g_ht + o0, g_ht + o0 + o1), "then those of the second");
    CHECK(SEG(THIRD, g_ht + o0 + o1, g_ht + g_V), "then those of the third");
    CHECK(CYC(FIRST, 0, o0) && CYC(SECOND, o0, o0 + o1) && CYC(THIRD, o0 + o1, g_V), "each shape in row order, repeated from its first row");
}
