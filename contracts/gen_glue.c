//@title horiz_generate, vert_generate, generate_box: every side gets its extent, its plan and its place in the box
//@variants horiz vert box
//@src generate.c
//@prop C04
//@prop.horiz C04 C03
//@prop.vert C04 C03
//@funcs.horiz horiz_generate
//@funcs.vert vert_generate
//@funcs.box generate_box
//@replace.horiz highest=extent_c horiz_precalc=precalc_c vert_assemble=assemble_c calloc=calloc_c bxs_to_output=bxs_to_output_c is_debug_logging=debug_c
//@replace.vert widest=extent_c vert_precalc=precalc_c horiz_assemble=assemble2_c calloc=calloc_c bxs_to_output=bxs_to_output_c is_debug_logging=debug_c
//@replace.box horiz_generate=horiz_c vert_generate=vert_c is_debug_logging=debug_c
//@noeffect bx_fprintf log_debug log_debug_cont debug_print_shape
//@assume.horiz highest (unit shapes.highest), horiz_precalc (unit horiz_precalc) and vert_assemble (unit vert_assemble) by their contracts; debug output off; allocation succeeds
//@assume.vert widest (unit shapes.widest), vert_precalc (unit vert_precalc) and horiz_assemble (unit horiz_assemble) by their contracts; debug output off; allocation succeeds
//@assume.box horiz_generate and vert_generate by their contracts (units gen_glue.horiz, gen_glue.vert)
//@link shape.c
//@nonative the whole program is run by e2e_draw.frame
#include "common.h"
#include "boxes.h"
#include "shape.h"
static int g_debug, g_pre, g_done[2], g_h, g_v, g_rc[2];
static size_t g_a[3], g_b[3], g_sp, g_ext[2];
static design_t des;
static sentry_t g_s1, g_s2;
int debug_c(int area) { return 0; }
size_t extent_c(const sentry_t *s, const int n, shape_t a, shape_t b, shape_t c, shape_t d, shape_t e)
{
    CHECK(s == des.shape && n == 5, "all five shapes of a side");
    const shape_t *w[2];
#ifdef V_horiz
    static const int sd[2][5] = {{NW, NNW, N, NNE, NE}, {SW, SSW, S, SSE, SE}};
#else
    static const int sd[2][5] = {{NW, WNW, W, WSW, SW}, {NE, ENE, E, ESE, SE}};
#endif
    int m[2];
    for (int k = 0; k < 2; k++) {
        m[k] = 1;
        for (int q = 0; q < 5; q++) m[k] = m[k] && (sd[k][q] == (int) a || sd[k][q] == (int) b || sd[k][q] == (int) c || sd[k][q] == (int) d || sd[k][q] == (int) e);
    }
    CHECK(m[0] || m[1], "of one and the same side");
    return m[0] ? g_ext[0] : g_ext[1];
}
int precalc_c(const sentry_t *s, size_t *a, size_t *b, size_t *sp)
{
    CHECK(s == des.shape, "the shapes of the design");
    for (int k = 0; k < 3; k++) { a[k] = g_a[k]; b[k] = g_b[k]; }
    *sp = g_sp;
    g_pre++;
    return g_rc[0];
}
static void assembled(const sentry_t *s, const shape_t *side, size_t *i, sentry_t *r)
{
    CHECK(s == des.shape && g_pre == 1, "the shapes of the design, after planning");
    int k = r == &g_s2;
    CHECK(r == &g_s1 || r == &g_s2, "into the side asked for");
    g_done[k]++;
    size_t *w = k ? g_b : g_a;
    CHECK(i[0] == w[0] && i[1] == w[1] && i[2] == w[2], "by the plan of this side");
#ifdef V_horiz
    CHECK(side == (k ? south_side : north_side), "shapes of this side");
    CHECK(r->height == g_ext[k] && r->width == g_sp, "with the extent of this side");
#else
    CHECK(side == (k ? east_side : west_side), "shapes of this side");
    CHECK(r->width == g_ext[k] && r->height == g_sp + (k ? des.shape[NE].height + des.shape[SE].height : des.shape[NW].height + des.shape[SW].height), "with the extent of this side, corners included");
#endif
    CHECK(r->chars != NULL && r->mbcs != NULL && vc_objsize(r->chars) >= r->height * sizeof(char *) && vc_objsize(r->mbcs) >= r->height * sizeof(bxstr_t *), "room for all its rows");
}
int assemble_c(const sentry_t *s, const shape_t *side, size_t *i, sentry_t *r) { assembled(s, side, i, r); return g_rc[1]; }
void assemble2_c(const sentry_t *s, const shape_t *side, size_t *i, sentry_t *r) { assembled(s, side, i, r); }
void *calloc_c(size_t n, size_t size) { CHECK(size == 8, "pointers"); return malloc(n * 8); }
char *bxs_to_output_c(bxstr_t *s) { return malloc(1); }
static sentry_t g_box[4];
int horiz_c(sentry_t *t, sentry_t *b) { CHECK(t == g_box && b == g_box + 2, "top and bottom have their places"); g_h++; t->name = N; b->name = S; return g_rc[0]; }
int vert_c(sentry_t *l, sentry_t *r) { CHECK(l == g_box + 3 && r == g_box + 1, "left and right have their places"); g_v++; l->name = W; r->name = E; return g_rc[1]; }
#include VC_SRC
opt_t opt; input_t input; int num_designs; design_t *designs; int color_output_enabled;
void harness(void)
{
    GEN_GLOBALS(&des);
    for (int k = 0; k < NUM_SHAPES; k++) { des.shape[k].height = in_size(0, MAXDIM); des.shape[k].width = in_size(0, MAXDIM); }
    for (int k = 0; k < 3; k++) { g_a[k] = in_size(0, 1UL << 40); g_b[k] = in_size(0, 1UL << 40); }
    g_sp = in_size(0, 1UL << 40);
    for (int k = 0; k < 2; k++) { g_ext[k] = in_size(0, MAXDIM); g_rc[k] = in_int(0, 1); }
    g_pre = g_h = g_v = g_done[0] = g_done[1] = 0;
#if defined(V_horiz)
    int rc = horiz_generate(&g_s1, &g_s2);
    COVER("horiz");
    CHECK(rc == (g_rc[0] || g_rc[1]), "fails only if planning or assembling fails");
    if (rc == 0) CHECK(g_done[0] == 1 && g_done[1] == 1, "both sides are assembled once");
#elif defined(V_vert)
    int rc = vert_generate(&g_s1, &g_s2);
    COVER("vert");
    CHECK(rc == g_rc[0], "fails only if planning fails");
    if (rc == 0) CHECK(g_done[0] == 1 && g_done[1] == 1, "both sides are assembled once");
#else
    int rc = generate_box(g_box);
    COVER("box");
    CHECK(rc == (g_rc[0] || g_rc[1]), "fails only if a side fails");
    if (rc == 0) CHECK(g_h == 1 && g_v == 1, "all four sides are made");
#endif
}
