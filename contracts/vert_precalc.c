//@title vert_precalc: vertical sides end up equally high, reach the target, use whole copies of every shape
//@src generate.c
//@link shape.c
//@prop C03
//@funcs vert_precalc isempty
//@loops vert_precalc:1
//@noeffect bx_fprintf log_debug is_debug_logging
//@assume side lengths stay below 2^62 (machine addition of side lengths does not wrap within 2^46 loop iterations)
#include "common.h"

#define MLI ((ltoggle == 1 || ltoggle == 3) && (rtoggle == 1 || rtoggle == 3) \
  && leftiltf[0] + leftiltf[1] + leftiltf[2] == lheight && rightiltf[0] + rightiltf[1] + rightiltf[2] == rheight \
  && SIDE_INV(sarr, west_side, height, leftiltf, ltoggle) && SIDE_INV(sarr, east_side, height, rightiltf, rtoggle))

#define SH(sa, side, i, dim) ((sa)[(side)[i]].dim)
#define PRES(sa, side, i) ((sa)[(side)[i]].chars != NULL)
#define EL(sa, side, i) ((sa)[(side)[i]].elastic != 0)

/* one entry of the result: 0 for a missing shape; whole copies; a fixed shape at most once */
#define ENT(sa, side, i, dim, v) ((PRES(sa, side, i) ? MULT(v, SH(sa, side, i, dim)) : (v) == 0) \
  && IMPLIES(PRES(sa, side, i) && !EL(sa, side, i), (v) == 0 || (v) == SH(sa, side, i, dim)) && ((v) == 0 || (v) >= SH(sa, side, i, dim)))
#define SIDE_INV(sa, side, dim, r, tog) (ENT(sa, side, 1, dim, (r)[0]) && ENT(sa, side, 2, dim, (r)[1]) && ENT(sa, side, 3, dim, (r)[2]) \
  && IMPLIES((r)[0] + (r)[1] + (r)[2] > 0, FIXED_DONE(sa, side, 1, dim, (r)[0]) && FIXED_DONE(sa, side, 2, dim, (r)[1]) && FIXED_DONE(sa, side, 3, dim, (r)[2])) \
  && IMPLIES(EL(sa, side, 1) && EL(sa, side, 3), IMPLIES((r)[2] == 0, (r)[0] <= SH(sa, side, 1, dim) && IMPLIES((r)[0] == SH(sa, side, 1, dim), (tog) == 3)) \
      && IMPLIES((r)[0] == 0, (r)[2] == 0 && (tog) == 1)))
/* after the first step on a side every fixed shape is placed, and every elastic one but the second of two */
#define FIXED_DONE(sa, side, i, dim, v) (IMPLIES(PRES(sa, side, i) && !EL(sa, side, i), (v) == SH(sa, side, i, dim)) \
  && IMPLIES(EL(sa, side, i) && !((i) == 3 && EL(sa, side, 1)), (v) > 0))

#define LOOP_vert_precalc_1 vc_w(1, leftiltf), vc_w(1, rightiltf), vc_w(1, &lheight), vc_w(1, &rheight), vc_w(1, &ltoggle), vc_w(1, &rtoggle), vc_inv(1, MLI)
#define BODY_vert_precalc_1 ASSUME(lheight < (1UL << 62) && rheight < (1UL << 62)); \
  MULT_STEP(leftiltf[0], SH(sarr, west_side, 1, height)); MULT_STEP(leftiltf[1], SH(sarr, west_side, 2, height)); MULT_STEP(leftiltf[2], SH(sarr, west_side, 3, height)); \
  MULT_STEP(rightiltf[0], SH(sarr, east_side, 1, height)); MULT_STEP(rightiltf[1], SH(sarr, east_side, 2, height)); MULT_STEP(rightiltf[2], SH(sarr, east_side, 3, height))

#include VC_SRC

opt_t opt;
input_t input;
int num_designs;
design_t *designs;
int color_output_enabled;

#include "design.h"

void harness(void)
{
    static design_t des;
    sentry_t sa[NUM_SHAPES];
    gen_shapes(sa);
    GEN_GLOBALS(&des);
    size_t mh = in_size(0, MAXDIM * 10);
    input.num_lines = in_size(0, MAXDIM * 10);
    size_t cw = sa[NW].height + sa[SW].height, sw = SUM3(sa, west_side, height), se = SUM3(sa, east_side, height);
#ifndef GVC
    mh += cw + (sw > se ? sw : se);
    /* the two sides can be made equal (otherwise the search runs for ever: known finding) */
    ASSUME(CANEQ(sa, west_side, east_side, height));
#endif
    des.minheight = mh;
    ASSUME(mh >= cw + sw && mh >= cw + se);
    MULT_DEF(SH(sa, west_side, 1, height)); MULT_DEF(SH(sa, west_side, 2, height)); MULT_DEF(SH(sa, west_side, 3, height));
    MULT_DEF(SH(sa, east_side, 1, height)); MULT_DEF(SH(sa, east_side, 2, height)); MULT_DEF(SH(sa, east_side, 3, height));
    size_t l[3], r[3], space;
    size_t target = des.minheight - cw;
    if (input.num_lines > target) target = input.num_lines;
    int rc = vert_precalc(sa, l, r, &space);
    COVER("vert_precalc returns");
    CHECK(rc == 0, "accepted designs are never an internal error");
    CHECK(l[0] + l[1] + l[2] == space, "left side has the reported height");
    CHECK(r[0] + r[1] + r[2] == space, "right side has the same height");
    CHECK(space >= target, "box is high enough for text and design");
    for (int i = 0; i < 3; i++) {
        CHECK(PRES(sa, west_side, i + 1) ? MULT(l[i], SH(sa, west_side, i + 1, height)) && l[i] >= SH(sa, west_side, i + 1, height) : l[i] == 0, "left: whole copies, each present shape at least once");
        CHECK(PRES(sa, east_side, i + 1) ? MULT(r[i], SH(sa, east_side, i + 1, height)) && r[i] >= SH(sa, east_side, i + 1, height) : r[i] == 0, "right: whole copies, each present shape at least once");
        CHECK(IMPLIES(PRES(sa, west_side, i + 1) && !EL(sa, west_side, i + 1), l[i] == SH(sa, west_side, i + 1, height)), "left: fixed shape exactly once");
        CHECK(IMPLIES(PRES(sa, east_side, i + 1) && !EL(sa, east_side, i + 1), r[i] == SH(sa, east_side, i + 1, height)), "right: fixed shape exactly once");
    }
}
