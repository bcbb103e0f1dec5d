//@title top and bottom side: whole copies of the shapes from left to right, row by row, in buffers that hold them
//@variants req_n req_s asm_n asm_s mono
//@src generate.c
//@prop C04
//@funcs.req_n horiz_chars_required
//@funcs.req_s horiz_chars_required
//@funcs.asm_n vert_assemble
//@funcs.asm_s vert_assemble
//@loops.req_n horiz_chars_required:0 horiz_chars_required:1 horiz_chars_required:2 horiz_chars_required:3
//@loops.req_s horiz_chars_required:0 horiz_chars_required:1 horiz_chars_required:2 horiz_chars_required:3
//@loops.asm_n vert_assemble:0 vert_assemble:2 vert_assemble:3 vert_assemble:4 vert_assemble:5
//@loops.asm_s vert_assemble:0 vert_assemble:2 vert_assemble:3 vert_assemble:4 vert_assemble:5
//@replace.asm_n horiz_chars_required=required_c calloc=calloc_c strcat=strcat_c u32_strcat=u32_strcat_c bxs_from_unicode=from_c
//@replace.asm_s horiz_chars_required=required_c calloc=calloc_c strcat=strcat_c u32_strcat=u32_strcat_c bxs_from_unicode=from_c
//@assume memory allocation succeeds; strcat and u32_strcat append; total text length below 2^60
//@assume.asm_n horiz_chars_required by its contract (unit vert_assemble.req_n), bxs_from_unicode by its contract
//@assume.asm_s horiz_chars_required by its contract (unit vert_assemble.req_s), bxs_from_unicode by its contract
//@link shape.c
//@noeffect bx_fprintf perror log_debug log_debug_cont is_debug_logging
//@budget 300
#include "common.h"
#include "texts.h"
#include "boxes.h"
#include "shape.h"
static size_t g_o[3], g_w[3], g_N, g_W, g_H, g_n, g_line, g_max;
static size_t *g_j;          /* the column at which copy n starts */
static sentry_t sa[NUM_SHAPES];
#if defined(V_req_n) || defined(V_asm_n) || defined(V_mono)
#define SH0 NNW
#define SH1 N
#define SH2 NNE
#define SIDE north_side
#define REM(a, k) ((a)[k])
#define POS (cshape)
#else
#define SH0 SSW
#define SH1 S
#define SH2 SSE
#define SIDE south_side
#define REM(a, k) ((a)[2 - (k)])
#define POS (2 - cshape)
#endif
#define E1 g_o[0]
#define E2 (g_o[0] + g_o[1])
/* per column position: width and end of the shape there */
#define WAT(x) ((x) < E1 ? g_w[0] : (x) < E2 ? g_w[1] : g_w[2])
#define EAT(x) ((x) < E1 ? E1 : (x) < E2 ? E2 : g_W)
#define SAT(x) ((x) < E1 ? SH0 : (x) < E2 ? SH1 : SH2)
/* precondition: the columns are made up of whole copies.  COPY(n) is its instance for copy n */
#define COPIES (g_j[0] == 0 && g_j[g_N] == g_W && ALL(q_, 0, g_N, g_j[q_] < g_W))
#define COPY(n) ASSUME(IMPLIES((n) < g_N, g_j[(n) + 1] == g_j[n] + WAT(g_j[n]) && g_j[(n) + 1] <= EAT(g_j[n]) && g_j[n] < g_W))
#define LEFT(a) (cshape >= 0 && cshape <= 2 && IMPLIES(POS == 0, REM(a, 0) == E1 - j && j <= E1 && REM(a, 1) == g_o[1] && REM(a, 2) == g_o[2]) \
    && IMPLIES(POS == 1, REM(a, 1) == E2 - j && j >= E1 && j <= E2 && REM(a, 2) == g_o[2]) && IMPLIES(POS == 2, REM(a, 2) == g_W - j && j >= E2 && j <= g_W))
#ifdef GVC
/* P(n, l): length of row l after n copies (defined by its two equations) */
extern size_t **vc_uf_p;
#define P(n, l) (vc_uf_p[n][l])
#define PSTEP ASSUME(P(g_n, line) == P(g_n - 1, line) + sa[SAT(g_j[g_n - 1])].mbcs[line]->num_chars && P(g_n, line) < (1UL << 60) && sa[SAT(g_j[g_n - 1])].mbcs[line]->num_chars < (1UL << 60))
#define LOOP_horiz_chars_required_0 vc_w(0, lens), vc_w(0, iltf_copy), vc_w(0, &g_n), vc_inv(0, g_n <= g_N && j == g_j[g_n] && LEFT(iltf_copy) \
    && ALL(l_, 0, g_H, lens[l_] == P(g_n, l_)))
#define BODY_horiz_chars_required_0 COPY(g_n); g_n++;
#define LOOP_horiz_chars_required_1 vc_inv(1, LEFT(iltf_copy) && j < g_W)
#define LOOP_horiz_chars_required_2 vc_w(2, lens), vc_inv(2, line <= g_H && ALL(l_, 0, line, lens[l_] == P(g_n, l_)) && ALL(l_, line, g_H, lens[l_] == P(g_n - 1, l_)))
#define BODY_horiz_chars_required_2 PSTEP;
#define LOOP_horiz_chars_required_3 vc_inv(3, i <= g_H && ALL(l_, 0, i, lens[l_] <= result))
static char *g_c;
static uint32_t *g_u;
static bxstr_t *g_r;
static int g_calls, g_got;
#define LOOP_vert_assemble_0 vc_w(0, result->chars), vc_w(0, mbcs_tmp), vc_keep(0, &mbcs_tmp), vc_inv(0, line <= g_H && g_calls == 1 && ALL(q_, 0, line, result->chars[q_] == g_c + q_ && mbcs_tmp[q_] == g_u + q_))
#define BODY_vert_assemble_0 g_line = line; g_got = 0;
#define ROWS ALL(q_, 0, g_H, result->chars[q_] == g_c + q_ && mbcs_tmp[q_] == g_u + q_)
#define LOOP_vert_assemble_2 vc_w(2, iltf), vc_w(2, &g_n), vc_inv(2, g_n <= g_N && j == g_j[g_n] && LEFT(iltf))
#define BODY_vert_assemble_2 COPY(g_n); g_n++; g_ap = 0; g_up = 0;
#define LOOP_vert_assemble_3 vc_inv(3, LEFT(iltf) && j < g_W)
#define LOOP_vert_assemble_4 vc_inv(4, line <= g_H && g_ap == line && g_up == line)
#define BODY_vert_assemble_4 g_line = line; PSTEP;
#define LOOP_vert_assemble_5 vc_w(5, result->mbcs), vc_inv(5, line <= g_H && ALL(q_, 0, line, result->mbcs[q_] == g_r + q_))
#define BODY_vert_assemble_5 g_line = line;
static size_t g_ap, g_up;
static sentry_t *g_res;
size_t required_c(const sentry_t *s, const shape_t *side, size_t *iltf, size_t tw, size_t th)
{
    CHECK(s == sa && side == SIDE && tw == g_W && th == g_H, "room is computed for this side");
    CHECK(iltf[0] + iltf[1] + iltf[2] == g_W, "and for these copies");
    return g_max;
}
void *calloc_c(size_t n, size_t size)
{
    if (g_calls == 0) { g_calls = 1; CHECK(n == g_H && size == sizeof(char *), "one entry per row"); return malloc(g_H * sizeof(char *)); }
    if (n == 1 && size == g_W + 1 && !g_got) { g_got = 1; return g_c + g_line; }      /* all columns of the side */
    CHECK(n >= g_max + 1 && size == 4, "a row holds all characters of the side");
    return g_u + g_line;
}
char *strcat_c(char *d, const char *s)
{
    CHECK(g_ap == g_line, "each row is extended once per copy");
    g_ap++;
    CHECK(d == g_c + g_line && s == sa[SAT(g_j[g_n - 1])].chars[g_line], "by the same row of the shape whose turn it is");
    CHECK(g_j[g_n] <= g_W, "the row has room for it");      /* shape rows are as wide as the shape (C09) */
    return d;
}
uint32_t *u32_strcat_c(uint32_t *d, const uint32_t *s)
{
    CHECK(g_up == g_line, "each row is extended once per copy (characters)");
    g_up++;
    CHECK(d == g_u + g_line && s == sa[SAT(g_j[g_n - 1])].mbcs[g_line]->memory, "by the same row of the shape whose turn it is (characters)");
    CHECK(P(g_n, g_line) <= g_max, "the row has room for it (characters)");
    return d;
}
bxstr_t *from_c(const uint32_t *p) { CHECK(p == g_u + g_line && g_n == g_N, "finished rows become the side"); return g_r + g_line; }
#endif
#include VC_SRC
#ifdef GVC
opt_t opt; input_t input; int num_designs; design_t *designs; int color_output_enabled;
#define MAXS (1UL << 40)
#endif

#ifdef GVC
static void shape(int k, size_t w)
{
    sa[k].height = g_H; sa[k].width = w;      /* one that does not exist is never looked at: none of its columns are planned */
    sa[k].chars = malloc(g_H * sizeof(char *)); sa[k].mbcs = malloc(g_H * sizeof(bxstr_t *));
    bxstr_t *b = malloc(g_H * sizeof(bxstr_t));
    ASSUME(ALL(q_, 0, g_H, sa[k].mbcs[q_] == b + q_));
}
void harness(void)
{
#ifdef V_mono
    /* lemma: a row is never longer than when it is finished */
    g_N = in_size(0, MAXS);
    g_H = in_size(1, MAXDIM);
    size_t l = in_size(0, MAXDIM), k = g_N;
    ASSUME(l < g_H && ALL(q_, 0, g_N, P(q_, l) <= P(q_ + 1, l)));
    while (vc_inv(0, k <= g_N && ALL(q_, k, g_N + 1, P(q_, l) <= P(g_N, l))), k > 0) k--;
    COVER("mono");
    CHECK(ALL(q_, 0, g_N + 1, P(q_, l) <= P(g_N, l)), "a row is never longer than when it is finished");
    return;
#endif
    size_t o0 = in_size(0, MAXS), o1 = in_size(0, MAXS), o2 = in_size(0, MAXS);
    for (int k = 0; k < 3; k++) g_w[k] = in_size(0, MAXDIM);
    ASSUME(IMPLIES(g_w[0] == 0, o0 == 0) && IMPLIES(g_w[1] == 0, o1 == 0) && IMPLIES(g_w[2] == 0, o2 == 0));
    g_o[0] = o0; g_o[1] = o1; g_o[2] = o2;
    g_W = o0 + o1 + o2;
    g_H = in_size(1, MAXDIM);
    shape(SH0, g_w[0]); shape(SH1, g_w[1]); shape(SH2, g_w[2]);
    g_N = in_size(0, MAXS);
    g_j = malloc((g_N + 1) * sizeof(size_t));
    ASSUME(COPIES);
    ASSUME(ALL(l_, 0, g_H, P(0, l_) == 0));
    size_t iltf[3];
    REM(iltf, 0) = o0; REM(iltf, 1) = o1; REM(iltf, 2) = o2;
    g_n = 0;
#if defined(V_req_n) || defined(V_req_s)
    size_t r = horiz_chars_required(sa, SIDE, iltf, g_W, g_H);
    if (g_N > 2 && g_H > 2) COVER(
#ifdef V_req_n
    "req_n");
#else
    "req_s");
#endif
    CHECK(ALL(l_, 0, g_H, P(g_N, l_) <= r), "room for every row of the side");
    CHECK(REM(iltf, 0) == o0 && REM(iltf, 1) == o1 && REM(iltf, 2) == o2, "the plan is unchanged");
#else
    sentry_t res;
    sentry_t *result = &res;
    res.height = g_H; res.width = g_W; res.elastic = 0; res.name = NW;
    res.chars = malloc(g_H * sizeof(char *)); res.mbcs = malloc(g_H * sizeof(bxstr_t *));
    g_c = malloc(g_H); g_u = malloc(g_H * 4); g_r = malloc(g_H * sizeof(bxstr_t)); g_calls = 0;
    g_max = in_size(0, 1UL << 60);
    /* contract of horiz_chars_required, and lemma mono: a row is never longer than when it is finished */
    ASSUME(ALL(q_, 0, (g_N + 1), ALL(l_, 0, g_H, P(q_, l_) <= g_max)));
    int rc = vert_assemble(sa, SIDE, iltf, &res);
    CHECK(rc == 0, "succeeds");
    if (g_N > 2 && g_H > 2) COVER(
#ifdef V_asm_n
    "asm_n");
#else
    "asm_s");
#endif
    CHECK(g_n == g_N, "every copy is placed, no more");
    CHECK(ALL(q_, 0, g_H, res.mbcs[q_] == g_r + q_ && res.chars[q_] == g_c + q_), "all rows, in order");
    CHECK(res.height == g_H && res.width == g_W, "size is unchanged");
#endif
}
#else
/* native: small designs with a different character in every cell, some rows of some shapes coloured */
#include "bxstring.h"
void harness(void)
{
#ifdef V_mono
    CHECK(1, "");
    return;
#endif
    static char names[3][4][40], colored[3][4][40];
    size_t h = in_size(1, 3), o[3], w[3];
    int sh[3] = {SH0, SH1, SH2};
    char want[3][400];
    static char wantc[3][1000];
    for (size_t l = 0; l < h; l++) want[l][0] = wantc[l][0] = 0;
    size_t W = 0, iltf[3];
    int c = 0;
    for (int k = 0; k < 3; k++) {
        w[k] = in_size(0, 4);
        size_t n = w[k] ? in_size(0, 4) : 0;
        o[k] = n * w[k];
        W += o[k];
        sa[sh[k]].width = w[k]; sa[sh[k]].height = w[k] ? h : 0;
        sa[sh[k]].chars = NULL; sa[sh[k]].mbcs = NULL;
        if (!w[k]) continue;
        sa[sh[k]].chars = malloc(h * sizeof(char *)); sa[sh[k]].mbcs = malloc(h * sizeof(bxstr_t *));
        for (size_t l = 0; l < h; l++) {
            for (size_t q = 0; q < w[k]; q++) names[k][l][q] = (char) ('A' + c++ % 50);
            names[k][l][w[k]] = 0;
            sa[sh[k]].chars[l] = strdup(names[k][l]);
            if (in_int(0, 2) == 0) sprintf(colored[k][l], "\033[3%dm%s\033[0m", k + 1, names[k][l]); else strcpy(colored[k][l], names[k][l]);
            uint32_t *cm = u32_strconv_from_arg(colored[k][l], "UTF-8");
            sa[sh[k]].mbcs[l] = bxs_from_unicode(cm);
            free(cm);
            for (size_t q = 0; q < n; q++) { strcat(want[l], names[k][l]); strcat(wantc[l], colored[k][l]); }
        }
    }
    REM(iltf, 0) = o[0]; REM(iltf, 1) = o[1]; REM(iltf, 2) = o[2];
    size_t keep[3];
    memcpy(keep, iltf, sizeof keep);
#if defined(V_req_n) || defined(V_req_s)
    size_t r = horiz_chars_required(sa, SIDE, iltf, W, h);
    for (size_t l = 0; l < h; l++) CHECK(r >= strlen(want[l]), "room for every row of the side");
    CHECK(memcmp(keep, iltf, sizeof keep) == 0, "the plan is unchanged");
#else
    sentry_t res;
    memset(&res, 0, sizeof res);
    res.height = h; res.width = W; res.chars = calloc(h, sizeof(char *)); res.mbcs = calloc(h, sizeof(bxstr_t *));
    int rc = vert_assemble(sa, SIDE, iltf, &res);
    CHECK(rc == 0 && res.height == h && res.width == W, "succeeds");
    for (size_t l = 0; l < h; l++) CHECK(strcmp(res.chars[l], want[l]) == 0 && strcmp(res.mbcs[l]->ascii, want[l]) == 0 && res.mbcs[l]->num_columns == W, "all rows, in order");
    for (size_t l = 0; l < h; l++) {
        size_t q = 0;
        while (wantc[l][q] && res.mbcs[l]->memory[q] == (uint32_t) wantc[l][q]) q++;
        CHECK(wantc[l][q] == 0 && res.mbcs[l]->memory[q] == 0, "every copy of a shape keeps its escape sequences");
    }
#endif
}
#endif
