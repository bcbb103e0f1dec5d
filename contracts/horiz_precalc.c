//@title horiz_precalc: horizontal sides end up equally wide, reach the target, use whole copies of every shape
//@src generate.c
//@link shape.c
//@prop C03
//@funcs horiz_precalc isempty
//@loops horiz_precalc:1
//@noeffect bx_fprintf log_debug is_debug_logging
//@assume side lengths stay below 2^62 (machine addition of side lengths does not wrap within 2^46 loop iterations)
#include "common.h"

#define MLI ((ttoggle == 1 || ttoggle == 3) && (btoggle == 1 || btoggle == 3) \
  && topiltf[0] + topiltf[1] + topiltf[2] == twidth && botiltf[0] + botiltf[1] + botiltf[2] == bwidth \
  && SIDE_INV(sarr, north_side, width, topiltf, ttoggle) && SIDE_INV(sarr, south_side, width, botiltf, btoggle))

#define SH(sa, side, i, dim) ((sa)[(side)[i]].dim)
#define PRES(sa, side, i) ((sa)[(side)[i]].chars != NULL)
#define EL(sa, side, i) ((sa)[(side)[i]].elastic != 0)

/* one entry of the result: 0 for a missing shape; whole copies; a fixed shape at most once */
#define ENT(sa, side, i, dim, v) ((PRES(sa, side, i) ? MULT(v, SH(sa, side, i, dim)) : (v) == 0) \
  && IMPLIES(PRES(sa, side, i) && !EL(sa, side, i), (v) == 0 || (v) == SH(sa, side, i, dim)) && ((v) == 0 || (v) >= SH(sa, side, i, dim)))
#define SIDE_INV(sa, side, dim, r, tog) (ENT(sa, side, 1, dim, (r)[0]) && ENT(sa, side, 2, dim, (r)[1]) && ENT(sa, side, 3, dim, (r)[2]) \
  && IMPLIES((r)[0] + (r)[1] + (r)[2] > 0, FIXED_DONE(sa, side, 1, dim, (r)[0]) && FIXED_DONE(sa, side, 2, dim, (r)[1]) && FIXED_DONE(sa, side, 3, dim, (r)[2])) \
  && IMPLIES(EL(sa, side, 1) && EL(sa, side, 3), IMPLIES((r)[2] == 0, (r)[0] <= SH(sa, side, 1, dim) && IMPLIES((r)[0] == SH(sa, side, 1, dim), (tog) == 3)) \
      && IMPLIES((r)[0] == 0, (r)[2] == 0 && (tog) == 1)))
/* after the first step on a side every fixed shape is placed, and every elastic one but the second of two */
#define FIXED_DONE(sa, side, i, dim, v) (IMPLIES(PRES(sa, side, i) && !EL(sa, side, i), (v) == SH(sa, side, i, dim)) \
  && IMPLIES(EL(sa, side, i) && !((i) == 3 && EL(sa, side, 1)), (v) > 0))

#define LOOP_horiz_precalc_1 vc_w(1, topiltf), vc_w(1, botiltf), vc_w(1, &twidth), vc_w(1, &bwidth), vc_w(1, &ttoggle), vc_w(1, &btoggle), vc_inv(1, MLI)
#define BODY_horiz_precalc_1 ASSUME(twidth < (1UL << 62) && bwidth < (1UL << 62)); \
  MULT_STEP(topiltf[0], SH(sarr, north_side, 1, width)); MULT_STEP(topiltf[1], SH(sarr, north_side, 2, width)); MULT_STEP(topiltf[2], SH(sarr, north_side, 3, width)); \
  MULT_STEP(botiltf[0], SH(sarr, south_side, 1, width)); MULT_STEP(botiltf[1], SH(sarr, south_side, 2, width)); MULT_STEP(botiltf[2], SH(sarr, south_side, 3, width))

#include VC_SRC

opt_t opt;
input_t input;
int num_designs;
design_t *designs;
int color_output_enabled;

#include "design.h"

void harness(void)
{
    static design_t des;
    sentry_t sa[NUM_SHAPES];
    gen_shapes(sa);
    GEN_GLOBALS(&des);
    size_t mh = in_size(0, MAXDIM * 10);
    input.maxline = in_size(0, MAXDIM * 10);
    size_t cw = sa[NW].width + sa[NE].width, sw = SUM3(sa, north_side, width), se = SUM3(sa, south_side, width);
#ifndef GVC
    mh += cw + (sw > se ? sw : se);
    /* the two sides can be made equal (otherwise the search runs for ever: known finding) */
    ASSUME(CANEQ(sa, north_side, south_side, width));
#endif
    des.minwidth = mh;
    ASSUME(mh >= cw + sw && mh >= cw + se);
    MULT_DEF(SH(sa, north_side, 1, width)); MULT_DEF(SH(sa, north_side, 2, width)); MULT_DEF(SH(sa, north_side, 3, width));
    MULT_DEF(SH(sa, south_side, 1, width)); MULT_DEF(SH(sa, south_side, 2, width)); MULT_DEF(SH(sa, south_side, 3, width));
    size_t l[3], r[3], space;
    size_t target = des.minwidth - cw;
    if (input.maxline > target) target = input.maxline;
    int rc = horiz_precalc(sa, l, r, &space);
    COVER("horiz_precalc returns");
    CHECK(rc == 0, "accepted designs are never an internal error");
    CHECK(l[0] + l[1] + l[2] == space, "top side has the reported width");
    CHECK(r[0] + r[1] + r[2] == space, "bottom side has the same width");
    CHECK(space >= target, "box is wide enough for text and design");
    for (int i = 0; i < 3; i++) {
        CHECK(PRES(sa, north_side, i + 1) ? MULT(l[i], SH(sa, north_side, i + 1, width)) && l[i] >= SH(sa, north_side, i + 1, width) : l[i] == 0, "top: whole copies, each present shape at least once");
        CHECK(PRES(sa, south_side, i + 1) ? MULT(r[i], SH(sa, south_side, i + 1, width)) && r[i] >= SH(sa, south_side, i + 1, width) : r[i] == 0, "bottom: whole copies, each present shape at least once");
        CHECK(IMPLIES(PRES(sa, north_side, i + 1) && !EL(sa, north_side, i + 1), l[i] == SH(sa, north_side, i + 1, width)), "top: fixed shape exactly once");
        CHECK(IMPLIES(PRES(sa, south_side, i + 1) && !EL(sa, south_side, i + 1), r[i] == SH(sa, south_side, i + 1, width)), "bottom: fixed shape exactly once");
    }
}
