//@title accepted designs: equal extents on a side, rigid corners, elastic shapes present, sufficient and not adjoining, blanks for what is missing
//@variants sizes corner missing elastic adjoin se_check finalize
//@src parsecode.c
//@link shape.c
//@prop C09
//@funcs.sizes check_sizes
//@funcs.corner corner_check
//@funcs.missing non_existent_elastics
//@funcs.elastic insufficient_elasticity
//@funcs.adjoin adjoining_elastics
//@funcs.se_check perform_se_check
//@loops.sizes check_sizes:0 check_sizes:1 check_sizes:2 check_sizes:3 check_sizes:4
//@loops.missing non_existent_elastics:0
//@loops.elastic insufficient_elasticity:0
//@loops.adjoin adjoining_elastics:0
//@replace isempty=isempty_c
//@replace.se_check isempty=isempty_c non_existent_elastics=missing_c corner_check=corner_c insufficient_elasticity=elastic_c adjoining_elastics=adjoin_c
//@assume isempty by its contract (unit shapes.isempty)
//@funcs.finalize action_finalize_shapes
//@loops.finalize action_finalize_shapes:0 action_finalize_shapes:1 action_finalize_shapes:2 action_finalize_shapes:3 action_finalize_shapes:4 action_finalize_shapes:5 action_finalize_shapes:6 action_finalize_shapes:7 action_finalize_shapes:8
//@replace.finalize isempty=isempty_c findshape=findshape_c genshape=genshape_c on_side=on_side_c check_sizes=sizes_c perform_se_check=se_check_c
//@assume.finalize isempty, findshape, genshape, on_side by their contracts (units shapes.*), check_sizes and perform_se_check by theirs (this file); shape extents below 2^40
//@unwind 17
//@noeffect yyerror log_debug log_debug_cont is_debug_logging bx_fprintf perror
#ifndef GVC
#define yyerror yyerror_n
#endif
#include "common.h"
#include "texts.h"
#include "boxes.h"
#include "shape.h"
#include "parsecode.h"
static int g_i, g_j, g_k, g_fi, g_fj, g_fk, g_n;
static size_t g_idx;
static design_t *g_d;
#define SHP(i, s) (g_d->shape[sides[i][s]])
#define THERE(x) ((x).chars != NULL && (x).mbcs != NULL && (x).width != 0 && (x).height != 0)
#define DIM(i, s) ((i) == 0 || (i) == 2 ? SHP(i, s).height : SHP(i, s).width)
#define BADP(i, j, k) (DIM(i, j) != 0 && DIM(i, k) != 0 && DIM(i, j) != DIM(i, k))
#define P_(i, s) (THERE(SHP(i, s)))
#define E_(i, s) (SHP(i, s).elastic != 0)
#define NEL_(i) (E_(i, 1) + E_(i, 2) + E_(i, 3))
#define PE_(i, s) (P_(i, s) && E_(i, s))
#define ADJ(i) ((PE_(i, 1) && PE_(i, 2)) || (PE_(i, 2) && PE_(i, 3)) || (PE_(i, 1) && !P_(i, 2) && PE_(i, 3)))
#define LOOP_check_sizes_0 vc_inv(0, i >= 0 && i <= 4 && (g_i >= i || !BADP(g_i, g_j, g_k)))
#define LOOP_check_sizes_1 vc_inv(1, j >= 0 && j <= 4 && (g_i != i || g_j >= j || !BADP(g_i, g_j, g_k)))
#define LOOP_check_sizes_2 vc_inv(2, k > j && k <= 5 && (g_i != i || g_j != j || g_k >= k || !BADP(g_i, g_j, g_k)))
#define LOOP_check_sizes_3 vc_inv(3, j >= 0 && j <= 4 && (g_i != i || g_j >= j || !BADP(g_i, g_j, g_k)))
#define LOOP_check_sizes_4 vc_inv(4, k > j && k <= 5 && (g_i != i || g_j != j || g_k >= k || !BADP(g_i, g_j, g_k)))
#define BODY_check_sizes_2 g_fi = i; g_fj = j; g_fk = k
#define BODY_check_sizes_4 g_fi = i; g_fj = j; g_fk = k
#define LOOP_non_existent_elastics_0 vc_inv(0, (int) i >= 0 && (int) i <= 16 && (g_i >= (int) i || !g_d->shape[g_i].elastic || THERE(g_d->shape[g_i])))
#define LOOP_insufficient_elasticity_0 vc_inv(0, i >= 0 && i <= 4 && (g_i >= i || NEL_(g_i) == 1 || NEL_(g_i) == 2))
#define BODY_insufficient_elasticity_0 g_fi = i
#define LOOP_adjoining_elastics_0 vc_inv(0, i >= 0 && i <= 4 && (g_i >= i || !ADJ(g_i)))
#define BODY_adjoining_elastics_0 g_fi = i

/* finalize: one arbitrary shape g_s is followed from beginning to end */
static int g_s, g_fs, g_was, g_el, g_gen;
static char **g_ch; static bxstr_t **g_mb; static size_t g_w, g_h, g_mw, g_mh, g_ms, g_gw, g_gh;
static char *g_genc[1]; static bxstr_t *g_genm[1];
static int g_q;   /* an arbitrary side */
#define ISCORNER(s) ((s) == (int) sides[0][4] || (s) == (int) sides[1][4] || (s) == (int) sides[2][4] || (s) == (int) sides[3][4])
/* a shape that was there is never touched */
#define KEPT_D (!g_was || (g_d->shape[g_s].chars == g_ch && g_d->shape[g_s].mbcs == g_mb && g_d->shape[g_s].width == g_w && g_d->shape[g_s].height == g_h && g_d->shape[g_s].elastic == g_el))
#define MIDNOW (P_(g_q, 1) || P_(g_q, 2) || P_(g_q, 3))
#define MID_OK (MIDNOW && (g_mid0 || (PE_(g_q, 2) && !P_(g_q, 1) && !P_(g_q, 3))))
#define CORNER_OK (P_(g_q, 4) && (g_cor0 || !E_(g_q, 4)))
#define DK(n) vc_w(n, bison_args->designs)
#define MINS(n) vc_keep(n, &g_d->minwidth), vc_keep(n, &g_d->minheight)
#define LOOP_action_finalize_shapes_0 DK(0), MINS(0), vc_keep(0, &g_d->maxshapeheight), vc_inv(0, sc >= 0 && sc <= 4 && side == (fside + sc) % 4 && (int) fshape >= 0 && (int) fshape < 16 \
    && KEPT_D && MIDNOW == g_mid0 && ((g_q - fside + 4) % 4 >= sc ? P_(g_q, 4) == g_cor0 : CORNER_OK))
#define LOOP_action_finalize_shapes_1 vc_inv(1, i >= 0 && i <= 5)
#define LOOP_action_finalize_shapes_2 DK(2), MINS(2), vc_keep(2, &g_d->maxshapeheight), vc_inv(2, side >= 0 && side <= 4 && KEPT_D && CORNER_OK && (g_q >= side ? MIDNOW == g_mid0 : MID_OK))
#define LOOP_action_finalize_shapes_3 vc_inv(3, i >= 1 && i <= 4 && found == ((i > 1 && P_(side, 1)) || (i > 2 && P_(side, 2)) || (i > 3 && P_(side, 3))))
#define PART(i, j, f) (((j) > 0 && P_(i, 0) ? SHP(i, 0).f : 0) + ((j) > 1 && P_(i, 1) ? SHP(i, 1).f : 0) + ((j) > 2 && P_(i, 2) ? SHP(i, 2).f : 0) + ((j) > 3 && P_(i, 3) ? SHP(i, 3).f : 0) + ((j) > 4 && P_(i, 4) ? SHP(i, 4).f : 0))
#define GREAT(i) (g_q >= i || (g_q % 2 ? g_d->minheight >= PART(g_q, 5, height) : g_d->minwidth >= PART(g_q, 5, width)))
#define TIGHT(i) ((g_d->minheight == g_mh || ((i) > 1 && g_d->minheight == PART(1, 5, height)) || ((i) > 3 && g_d->minheight == PART(3, 5, height))) \
    && (g_d->minwidth == g_mw || ((i) > 0 && g_d->minwidth == PART(0, 5, width)) || ((i) > 2 && g_d->minwidth == PART(2, 5, width))))
#define DONE (KEPT_D && CORNER_OK && MID_OK)
#define LOOP_action_finalize_shapes_4 DK(4), vc_keep(4, &g_d->maxshapeheight), vc_inv(4, i >= 0 && i <= 4 && DONE && GREAT(i) && TIGHT(i))
#define LOOP_action_finalize_shapes_5 vc_inv(5, j >= 0 && j <= 5 && c == PART(i, j, height))
#define LOOP_action_finalize_shapes_6 vc_inv(6, j >= 0 && j <= 5 && c == PART(i, j, width))
#define SMALL(x) ((x) < (1UL << 40))
#define BODY_action_finalize_shapes_4 ASSUME(SMALL(SHP(i, 0).width) && SMALL(SHP(i, 1).width) && SMALL(SHP(i, 2).width) && SMALL(SHP(i, 3).width) && SMALL(SHP(i, 4).width)); ASSUME(SMALL(SHP(i, 0).height) && SMALL(SHP(i, 1).height) && SMALL(SHP(i, 2).height) && SMALL(SHP(i, 3).height) && SMALL(SHP(i, 4).height))
#define LOOP_action_finalize_shapes_7 DK(7), MINS(7), vc_inv(7, i >= 0 && i <= 16 && DONE && GREAT(4) && TIGHT(4) && g_d->maxshapeheight >= g_ms && (g_s >= i || !THERE(g_d->shape[g_s]) || g_d->maxshapeheight >= g_d->shape[g_s].height) \
    && (g_d->maxshapeheight == g_ms || (g_wit >= 0 && g_wit < i && THERE(g_d->shape[g_wit]) && g_d->maxshapeheight == g_d->shape[g_wit].height)))
#define BODY_action_finalize_shapes_7 if (THERE(g_d->shape[i]) && g_d->shape[i].height > g_d->maxshapeheight) g_wit = i
#define LOOP_action_finalize_shapes_8 DK(8), MINS(8), vc_keep(8, &g_d->maxshapeheight), vc_inv(8, i >= 0 && i <= 16 && DONE && GREAT(4) && TIGHT(4) && (!THERE(g_d->shape[g_s]) || g_d->maxshapeheight >= g_d->shape[g_s].height) \
    && (g_d->maxshapeheight == g_ms || (g_wit >= 0 && g_wit < 16 && THERE(g_d->shape[g_wit]) && g_d->maxshapeheight == g_d->shape[g_wit].height)) && (g_s >= i || (int) g_d->shape[g_s].name == g_s))
static int g_mid0, g_cor0, g_wit;
int isempty_c(const sentry_t *shape) { return shape == NULL || !THERE(*shape); }
#ifdef GVC
static int g_rs, g_rc, g_calls, g_schk;
shape_t findshape_c(const sentry_t *sarr, const int num)
{
    CHECK(sarr == g_d->shape && num == 16, "among the shapes of the design");
    return (shape_t) g_fs;
}
int genshape_c(const size_t width, const size_t height, char ***chars, bxstr_t ***mbcs)
{
    if (width == 0 || height == 0) return 1;
    if (nondet_bool()) return 2;
    *chars = g_genc; *mbcs = g_genm;
    return 0;
}
int on_side_c(const shape_t s, const int idx)
{
    CHECK(idx == 0, "the first side of the shape");
    int r = nondet_int();
    ASSUME(r >= 0 && r <= 3 && ((int) sides[r][0] == (int) s || (int) sides[r][1] == (int) s || (int) sides[r][2] == (int) s || (int) sides[r][3] == (int) s || (int) sides[r][4] == (int) s));
    return r;
}
int sizes_c(pass_to_bison *b) { g_schk++; CHECK(KEPT_D && CORNER_OK && MID_OK, "the design is complete before its extents are compared"); g_rs = nondet_int(); return g_rs; }
int se_check_c(pass_to_bison *b) { g_calls++; g_rc = nondet_int(); return g_rc; }
static int g_a, g_b, g_c, g_dd;
shape_t missing_c(pass_to_bison *b) { return (shape_t) g_a; }
int corner_c(pass_to_bison *b) { return g_b; }
int elastic_c(pass_to_bison *b) { return g_c; }
int adjoin_c(pass_to_bison *b) { return g_dd; }
#endif
#ifndef GVC
int yyerror_n(pass_to_bison *b, const char *fmt, ...) { return 0; }
#endif
#include VC_SRC
#ifdef GVC
opt_t opt; input_t input; int num_designs; design_t *designs; int color_output_enabled;
#endif

static void gen(design_t *d)
{
#ifdef GVC
    vc_havoc_obj(d);
#else
    static char *dc[1]; static bxstr_t *db[1];
    memset(d, 0, sizeof(*d));
    size_t h0 = in_size(1, 3), h2 = in_size(1, 3), w1 = in_size(1, 3), w3 = in_size(1, 3);
    for (int k = 0; k < 16; k++) {
        int there = in_int(0, 3) != 0;
        sentry_t *s = d->shape + k;
        int f = on_side((shape_t) k, 0), f2 = on_side((shape_t) k, 1);
        s->name = (shape_t) k;
        if (there) { s->chars = dc; s->mbcs = db; }
        size_t w = in_size(1, 3), h = in_size(1, 3);
        if (in_int(0, 9)) { if (f == 0 || f2 == 0) h = h0; if (f == 2 || f2 == 2) h = h2; if (f == 1 || f2 == 1) w = w1; if (f == 3 || f2 == 3) w = w3; }
        s->width = there ? w : 0; s->height = there ? h : 0;
        s->elastic = there ? in_int(0, 2) == 0 : in_int(0, 9) == 0;
        if (f2 != 4 && in_int(0, 5)) s->elastic = 0;
    }
    if (in_int(0, 1)) for (int i = 0; i < 4; i++) { int p = in_int(1, 3); if (d->shape[sides[i][p]].chars) for (int q = 1; q < 4; q++) d->shape[sides[i][q]].elastic = q == p; }
#endif
}
void harness(void)
{
    pass_to_bison ba, *bison_args = &ba;
#ifdef GVC
    vc_havoc_obj(&ba);
    g_idx = in_size(0, 1000);
#else
    memset(&ba, 0, sizeof(ba));
    g_idx = in_size(0, 2);
#endif
    design_t *all = malloc((g_idx + 1) * sizeof(design_t));
    ba.designs = all; ba.design_idx = (int) g_idx;
    g_d = all + g_idx;
    gen(g_d);
    g_i = in_int(0, 3); g_j = in_int(0, 3); g_k = in_int(1, 4);
    ASSUME(g_j < g_k);
#if defined(V_sizes)
    int r = check_sizes(bison_args);
    COVER("sizes");
#ifdef GVC
    if (r == 0) CHECK(!BADP(g_i, g_j, g_k), "any two existing shapes of an accepted side are equally high or wide");
    else CHECK(g_fj < g_fk && BADP(g_fi, g_fj, g_fk), "a design is refused only for two different extents on one side");
#else
    int bad = 0;
    for (int a = 0; a < 4; a++) for (int b = 0; b < 5; b++) for (int c = b + 1; c < 5; c++) bad |= BADP(a, b, c);
    CHECK((r != 0) == bad, "refused exactly for different extents on one side");
#endif
#elif defined(V_corner)
    int r = corner_check(bison_args);
    COVER("corner");
    CHECK((r != 0) == (g_d->shape[NW].elastic || g_d->shape[NE].elastic || g_d->shape[SE].elastic || g_d->shape[SW].elastic), "refused exactly if a corner is elastic");
#elif defined(V_missing)
    g_i = in_int(0, 15);
    int r = (int) non_existent_elastics(bison_args);
    COVER("missing");
    CHECK(r >= 0 && r <= 16 && IMPLIES(r < 16, g_d->shape[r].elastic && !THERE(g_d->shape[r])), "the shape named is elastic and missing");
    CHECK(IMPLIES(r == 16 || g_i < r, !g_d->shape[g_i].elastic || THERE(g_d->shape[g_i])), "and it is the first such shape");
#elif defined(V_elastic)
    int r = insufficient_elasticity(bison_args);
    COVER("elastic");
    if (r == 0) CHECK(NEL_(g_i) == 1 || NEL_(g_i) == 2, "every side of an accepted design has one or two elastic shapes");
#ifdef GVC
    else CHECK(NEL_(g_fi) != 1 && NEL_(g_fi) != 2, "refused only for a side with none or three");
#else
    else { int bad = 0; for (int a = 0; a < 4; a++) bad |= NEL_(a) != 1 && NEL_(a) != 2; CHECK(bad, "refused only for a side with none or three"); }
#endif
#elif defined(V_adjoin)
    int r = adjoining_elastics(bison_args);
    COVER("adjoin");
    if (r == 0) CHECK(!ADJ(g_i), "no two adjoining shapes of an accepted side are elastic");
#ifdef GVC
    else CHECK(ADJ(g_fi), "refused only for adjoining elastic shapes");
#else
    else { int bad = 0; for (int a = 0; a < 4; a++) bad |= ADJ(a); CHECK(bad, "refused only for adjoining elastic shapes"); }
#endif
#elif defined(V_se_check)
#ifdef GVC
    g_a = in_int(0, 16); g_b = in_int(-1, 1); g_c = in_int(-1, 1); g_dd = in_int(-1, 1);
    int ok = g_a == 16 && g_b == 0 && g_c == 0 && g_dd == 0;
#else
    int ok = (int) non_existent_elastics(bison_args) == 16 && !corner_check(bison_args) && !insufficient_elasticity(bison_args) && !adjoining_elastics(bison_args);
#endif
    int r = perform_se_check(bison_args);
    COVER("se_check");
    CHECK((r == 0) == ok, "accepted exactly if all four conditions hold");
#elif defined(V_finalize)
    g_s = in_int(0, 15); g_q = in_int(0, 3); g_wit = -1;
    g_was = THERE(g_d->shape[g_s]);
    g_ch = g_d->shape[g_s].chars; g_mb = g_d->shape[g_s].mbcs; g_w = g_d->shape[g_s].width; g_h = g_d->shape[g_s].height; g_el = g_d->shape[g_s].elastic;
    g_mid0 = MIDNOW; g_cor0 = P_(g_q, 4);
    g_mw = g_d->minwidth; g_mh = g_d->minheight; g_ms = g_d->maxshapeheight;
    ba.num_shapespec = in_int(0, 16); ba.time_for_se_check = in_int(0, 3); ba.num_mandatory = in_int(0, 4);
    int spec = ba.num_shapespec, se = ba.time_for_se_check, mand = ba.num_mandatory;
#ifdef GVC
    g_fs = in_int(0, 16); g_calls = 0; g_schk = 0;
    ASSUME(g_fs == 16 || THERE(g_d->shape[g_fs]));
#else
    int any = 0;
    for (int k = 0; k < 16; k++) any |= THERE(g_d->shape[k]);
    if (!any) spec = ba.num_shapespec = 0;
#endif
    int r = action_finalize_shapes(bison_args);
    if (spec < 1) { CHECK(r == RC_ERROR, "no shape at all is an error"); return; }
    if (r != RC_SUCCESS) return;
    COVER("finalize");
    CHECK(KEPT_D, "a shape given is left as it is");
    CHECK(CORNER_OK, "every corner exists, made up ones are not elastic");
    CHECK(MID_OK, "every side has a shape between its corners, a made up one is elastic");
    CHECK(g_q % 2 ? g_d->minheight >= PART(g_q, 5, height) : g_d->minwidth >= PART(g_q, 5, width), "the least size has room for every side");
    CHECK(TIGHT(4), "and is that of a side");
    CHECK(!THERE(g_d->shape[g_s]) || g_d->maxshapeheight >= g_d->shape[g_s].height, "no shape is higher than the highest");
    CHECK((int) g_d->shape[g_s].name == g_s, "every shape knows its name");
    CHECK(ba.num_mandatory == mand + 1 && ba.time_for_se_check == se + 1, "the shapes entry is counted");
#ifdef GVC
    CHECK(g_schk == 1 && g_rs == 0, "equal extents are a condition");
    CHECK(g_d->maxshapeheight == g_ms || (g_wit >= 0 && THERE(g_d->shape[g_wit]) && g_d->maxshapeheight == g_d->shape[g_wit].height), "the height of the highest is that of a shape");
    CHECK((g_calls == 1) == (se >= 1) && (g_calls == 0 || g_rc == 0), "the conditions on elastic shapes are checked as soon as both entries are known");
#else
    int bad = 0;
    for (int a = 0; a < 4; a++) for (int b = 0; b < 5; b++) for (int c = b + 1; c < 5; c++) bad |= BADP(a, b, c);
    CHECK(!bad, "equal extents are a condition");
#endif
#endif
}
