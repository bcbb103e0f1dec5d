//@title shape queries: empty shapes, empty sides, first shape, side of a shape, blank shapes, greatest extent
//@variants findshape on_side isempty deepempty empty_side genshape highest widest
//@src shape.c
//@prop C09
//@prop.isempty C03 C09
//@prop.deepempty C06 C05 C09
//@prop.empty_side C06 C05
//@prop.highest C04 C09
//@prop.widest C04 C09
//@prop.genshape C09
//@funcs.findshape findshape isempty
//@funcs.on_side on_side
//@funcs.isempty isempty
//@funcs.deepempty isdeepempty isempty
//@funcs.empty_side empty_side
//@funcs.genshape genshape
//@funcs.highest highest
//@funcs.widest widest
//@loops.findshape findshape:0
//@loops.deepempty isdeepempty:0
//@loops.genshape genshape:0
//@replace.highest isempty=isempty_c
//@replace.widest isempty=isempty_c
//@replace.deepempty strspn=strspn_c
//@replace.empty_side isdeepempty=isdeepempty_c
//@replace.genshape nspaces=nspaces_c bxs_from_ascii=from_ascii_c
//@assume.highest isempty by its contract (unit shapes.isempty)
//@assume.widest isempty by its contract (unit shapes.isempty)
//@assume.empty_side isdeepempty by its contract (unit shapes.deepempty)
//@assume.genshape nspaces by its contract (unit utils.nspaces), bxs_from_ascii by its contract (unit bxs_from_ascii)
//@assume.deepempty strspn as documented in C
//@assume.highest up to five shapes are passed (every call in the program passes five)
//@assume.widest up to five shapes are passed (every call in the program passes five)
//@noeffect bx_fprintf perror fprintf log_debug is_debug_logging
#include "common.h"
#include "texts.h"
#include "boxes.h"
static size_t g_j, g_k, g_w;
static size_t *g_sp;
static char *g_c;
static bxstr_t *g_b;
static int g_e[16];
static sentry_t g_sa[16];
#ifdef GVC
#define THERE(s) ((s)->chars != NULL && (s)->mbcs != NULL && (s)->width != 0 && (s)->height != 0)
#define LOOP_findshape_0 vc_inv(0, i >= 0 && i <= num && ALL(q_, 0, (size_t) i, !THERE(sarr + q_)))
#define LOOP_isdeepempty_0 vc_inv(0, j <= shape->height && ALL(q_, 0, j, IMPLIES(shape->chars[q_] != NULL, g_sp[q_] == shape->width)))
#define BODY_isdeepempty_0 g_j = j;
#define LOOP_genshape_0 vc_w(0, *chars), vc_w(0, *mbcs), vc_inv(0, j <= height && g_k == j && ALL(q_, 0, j, (*chars)[q_] == g_c + q_ && (*mbcs)[q_] == g_b + q_))
#define BODY_genshape_0 g_j = j;
size_t strspn_c(const char *s, const char *acc)
{
    CHECK(acc[0] == ' ' && acc[1] == '\t' && acc[2] == 0, "blanks are spaces and tabs");
    CHECK(s == g_c + g_j, "each row is looked at");
    return g_sp[g_j];
}
int isempty_c(const sentry_t *s) { int r = nondet_int(); ASSUME((r != 0) == !THERE(s)); return r; }
int isdeepempty_c(const sentry_t *s) { CHECK(s >= g_sa && s < g_sa + 16, "shapes of the design"); return g_e[s - g_sa]; }
char *nspaces_c(const size_t n) { CHECK(n == g_w, "rows of the wanted width"); return g_c + g_j; }
bxstr_t *from_ascii_c(const char *s) { CHECK(s == g_c + g_j, "both forms hold the same text"); g_k++; return g_b + g_j; }
#define MANY 1000
#else
#define THERE(s) ((s)->chars != NULL && (s)->mbcs != NULL && (s)->width != 0 && (s)->height != 0)
#define MANY 16
#endif
#include VC_SRC
#ifdef GVC
opt_t opt; input_t input; int num_designs; design_t *designs; int color_output_enabled;
#endif

static void gen(sentry_t *s, size_t n)
{
    static char *dc[1]; static bxstr_t *db[1];
    for (size_t k = 0; k < n; k++) {
        int a = in_int(0, 3), b = in_int(0, 3);
        s[k].chars = a ? dc : NULL; s[k].mbcs = b ? db : NULL;
        size_t w = in_size(0, MAXDIM), h = in_size(0, MAXDIM);
        s[k].width = w; s[k].height = h; s[k].elastic = in_int(0, 1); s[k].name = (shape_t) k;
    }
}
void harness(void)
{
#if defined(V_findshape)
    int n = in_int(0, MANY);
#ifdef GVC
    sentry_t *s = malloc((size_t) n * sizeof(sentry_t));
#else
    sentry_t s[16];
    gen(s, 16);
#endif
    int r = (int) findshape(s, n);
    COVER("findshape");
    CHECK(r >= 0 && r <= n && ALL(q_, 0, (size_t) r, !THERE(s + q_)), "no shape comes before the one found");
    CHECK(IMPLIES(r < n, THERE(s + r)), "the one found exists");
#elif defined(V_on_side)
    static const int first[16] = {0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3}, second[16] = {3, 4, 4, 4, 1, 4, 4, 4, 2, 4, 4, 4, 3, 4, 4, 4};
    int s = in_int(0, 15), idx = in_int(0, 2);
    int r = on_side((shape_t) s, idx);
    COVER("on_side");
    CHECK(r == (idx == 0 ? first[s] : idx == 1 ? second[s] : 4), "corners are on two sides, other shapes on one");
    static const int side[4][5] = {{NW, NNW, N, NNE, NE}, {NE, ENE, E, ESE, SE}, {SE, SSE, S, SSW, SW}, {SW, WSW, W, WNW, NW}};
    for (int a = 0; a < 4; a++) for (int b = 0; b < 5; b++) CHECK((int) sides[a][b] == side[a][b], "every side lists its five shapes clockwise");
    for (int b = 0; b < 5; b++) CHECK((int) south_side_rev[b] == side[2][4 - b], "the bottom from left to right");
#elif defined(V_isempty)
    sentry_t s[1];
    gen(s, 1);
    int r = isempty(s);
    COVER("isempty");
    CHECK((r != 0) == !THERE(s), "a shape is empty exactly if it has no rows or no columns");
    CHECK(isempty(NULL) != 0, "no shape at all is empty");
#elif defined(V_deepempty)
    sentry_t s[1];
    gen(s, 1);
#ifdef GVC
    size_t h = in_size(0, 1UL << 20), w = in_size(0, 1UL << 20);
#else
    size_t h = in_size(0, 3), w = in_size(0, 4);
#endif
    s->height = h; s->width = w;
    char **ch = malloc((h + 1) * sizeof(char *));
    g_sp = malloc((h + 1) * sizeof(size_t));
#ifdef GVC
    g_c = malloc(h + 1);
    ASSUME(ALL(q_, 0, h, ch[q_] == NULL || ch[q_] == g_c + q_));
#else
    for (size_t k = 0; k < h; k++) {
        char *t = malloc(w + 1);
        g_sp[k] = 0;
        int go = 1;
        for (size_t q = 0; q < w; q++) { t[q] = " \t x"[in_int(0, 3) ? 0 : in_int(0, 3)]; if (t[q] == 'x') go = 0; g_sp[k] += (size_t) go; }
        t[w] = 0;
        ch[k] = t;
    }
#endif
    if (s->chars) s->chars = ch;
    int r = isdeepempty(s);
    COVER("deepempty");
    CHECK((r != 0) == (!THERE(s) || ALL(q_, 0, h, IMPLIES(ch[q_] != NULL, g_sp[q_] == w))), "a shape is blank exactly if all its rows are");
    CHECK(isdeepempty(NULL) != 0, "no shape at all is blank");
#elif defined(V_empty_side)
    static const int side[4][5] = {{NW, NNW, N, NNE, NE}, {NE, ENE, E, ESE, SE}, {SE, SSE, S, SSW, SW}, {SW, WSW, W, WNW, NW}};
    int a = in_int(0, 3);
    for (int k = 0; k < 16; k++) g_e[k] = in_int(0, 3) != 0;
#ifndef GVC
    for (int k = 0; k < 16; k++) { static char *rows[2][1] = {{"x"}, {" "}}; static bxstr_t *db[1]; int there = in_int(0, 3);
        g_sa[k].chars = there || !g_e[k] ? rows[g_e[k]] : NULL; g_sa[k].mbcs = db; g_sa[k].width = g_sa[k].height = 1; }
#endif
    int r = empty_side(g_sa, a);
    COVER("empty_side");
    CHECK((r != 0) == (g_e[side[a][0]] && g_e[side[a][1]] && g_e[side[a][2]] && g_e[side[a][3]] && g_e[side[a][4]]), "a side is empty exactly if its five shapes are blank");
#elif defined(V_genshape)
#ifdef GVC
    size_t w = in_size(0, 1UL << 20), h = in_size(0, 1UL << 20);
    g_c = malloc(h + 1); g_b = malloc((h + 1) * sizeof(bxstr_t));
#else
    size_t w = in_size(0, 9), h = in_size(0, 4);
#endif
    g_w = w; g_k = 0;
    char **c = NULL;
    bxstr_t **m = NULL;
    int r = genshape(w, h, &c, &m);
    COVER("genshape");
    CHECK((r != 0) == (w == 0 || h == 0 || w > LINE_MAX_BYTES), "a blank shape of any size that fits into a line");
    if (r == 0) {
#ifdef GVC
        CHECK(ALL(q_, 0, h, c[q_] == g_c + q_ && m[q_] == g_b + q_), "every row is the row of blanks");
        CHECK(g_k == h, "one row each");
#else
        for (size_t q = 0; q < h; q++) CHECK(strlen(c[q]) == w && strspn(c[q], " ") == w && m[q]->num_columns == w && m[q]->num_chars == w && m[q]->indent == w && strcmp(m[q]->ascii, c[q]) == 0, "every row is the row of blanks");
#endif
    }
    else CHECK(c == NULL && m == NULL, "nothing is made otherwise");
#else
    sentry_t s[16];
    gen(s, 16);
    int l[5];
    for (int k = 0; k < 5; k++) l[k] = in_int(0, 15);
    int n = in_int(0, 5);
    size_t want = 0;
    for (int k = 0; k < n; k++) {
#ifdef V_highest
        size_t x = s[l[k]].height;
#else
        size_t x = s[l[k]].width;
#endif
        want = THERE(s + l[k]) && x > want ? x : want;
    }
#ifdef V_highest
    size_t r = highest(s, n, (shape_t) l[0], (shape_t) l[1], (shape_t) l[2], (shape_t) l[3], (shape_t) l[4]);
#else
    size_t r = widest(s, n, (shape_t) l[0], (shape_t) l[1], (shape_t) l[2], (shape_t) l[3], (shape_t) l[4]);
#endif
    CHECK(r == want, "the greatest extent of the shapes listed that exist");
#endif
}
