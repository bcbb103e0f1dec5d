/* the 16 shapes of a design: arbitrary values (verifier) / generated values (native), and what the configuration parser
 * guarantees about an accepted design (property C09).  Include after VC_SRC. */
#ifndef VERIF_DESIGN_H
#define VERIF_DESIGN_H

#define NEL(sa, side) (EL(sa, side, 1) + EL(sa, side, 2) + EL(sa, side, 3))
/* 1 or 2 elastic shapes, none of them missing, no two of them adjacent (an absent shape does not separate) */
#define SIDE_OK(sa, side) ((NEL(sa, side) == 1 || NEL(sa, side) == 2) \
   && IMPLIES(EL(sa, side, 1), PRES(sa, side, 1)) && IMPLIES(EL(sa, side, 2), PRES(sa, side, 2)) && IMPLIES(EL(sa, side, 3), PRES(sa, side, 3)) \
   && !(EL(sa, side, 1) && EL(sa, side, 2)) && !(EL(sa, side, 2) && EL(sa, side, 3)) && IMPLIES(EL(sa, side, 1) && EL(sa, side, 3), PRES(sa, side, 2)))
#define SUM3(sa, side, dim) (SH(sa, side, 1, dim) + SH(sa, side, 2, dim) + SH(sa, side, 3, dim))

#ifndef GVC
/* native: coerce a generated side into an acceptable one (the identity on acceptable sides) */
static void fix_side(sentry_t *sa, shape_t *side, char **dc, bxstr_t **db)
{
    if (SIDE_OK(sa, side)) return;
    int pat = 0;
    for (int i = 1; i <= 3; i++) pat += PRES(sa, side, i) << i;
    if (pat == 0) pat = 4;
    for (int i = 1; i <= 3; i++) {
        sentry_t *s = sa + side[i];
        if (pat >> i & 1) { s->chars = dc; s->mbcs = db; if (!s->height) s->height = 1; if (!s->width) s->width = 1; }
        s->elastic = 0;
    }
    if (pat == 14 && (sa[side[1]].height & 1)) { sa[side[1]].elastic = 1; sa[side[3]].elastic = 1; return; }
    for (int i = 1; i <= 3; i++) if ((pat >> i & 1) && (i == 3 || !(pat >> (i + 1)) || sa[side[i]].width % 2)) { sa[side[i]].elastic = 1; return; }
}
#endif

static void gen_shapes(sentry_t *sa)
{
    static char *dummy_c[1];
    static bxstr_t *dummy_b[1];
    for (int i = 0; i < NUM_SHAPES; i++) {
        int there = in_int(0, 1);
        sa[i].name = (shape_t) i;
        sa[i].chars = there ? dummy_c : NULL;
        sa[i].mbcs = there ? dummy_b : NULL;
        size_t h = in_size(1, MAXDIM), wd = in_size(1, MAXDIM);
        int e = in_int(0, 1);
        sa[i].height = there ? h : 0;
        sa[i].width = there ? wd : 0;
        sa[i].elastic = e;
        sa[i].blank_leftward = NULL;
        sa[i].blank_rightward = NULL;
    }
#ifndef GVC
    fix_side(sa, west_side, dummy_c, dummy_b); fix_side(sa, east_side, dummy_c, dummy_b);
    fix_side(sa, north_side, dummy_c, dummy_b); fix_side(sa, south_side, dummy_c, dummy_b);
    sa[NE].height = sa[NW].height; sa[SE].height = sa[SW].height;
    sa[SW].width = sa[NW].width; sa[SE].width = sa[NE].width;
#endif
    ASSUME(SIDE_OK(sa, west_side) && SIDE_OK(sa, east_side) && SIDE_OK(sa, north_side) && SIDE_OK(sa, south_side));
    ASSUME(sa[NW].height == sa[NE].height && sa[SW].height == sa[SE].height);
    ASSUME(sa[NW].width == sa[SW].width && sa[NE].width == sa[SE].width);
}
#endif
