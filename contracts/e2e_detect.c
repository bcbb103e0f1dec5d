//@title removing without naming a design, whole program: the first design with the most hits is chosen, no hits is an error (bounded)
//@variants mono color
//@src -
//@mode bounded
//@prop C15
//@funcs main autodetect_design match_design find_west_corner find_east_corner find_horizontal_shape find_vertical_west find_vertical_east
//@native 100000
//@secs 7
//@bound up to 4 designs with shapes up to 3x3, up to 6 lines of text; the real program is run in a child process
#include "e2edes.h"
static des_t d[4];
static row_t t;
void harness(void)
{
#if defined(V_mono)
    int style = 0;
#else
    int style = in_int(0, 3) ? 3 : 0;
#endif
    char cf[300], *args[40], nm[4][8];
    keepcells = 0;
    int n = in_int(1, 4), base = in_int(0, n - 1);
    gen_design(d + base, style);
    keepcells = 1;
    for (int i = 0; i < n; i++) {
        snprintf(nm[i], 8, "%c%d", in_int('a', 'z'), i);
        if (i != base) {
            int kind = in_int(0, 2);
            if (kind == 0) gen_design(d + i, n == 4 && i == 3 ? 0 : style);
            else {
                /* the same design again, behind the original, or with one corner changed, anywhere */
                static const int cor[4] = {xNW, xNE, xSE, xSW};
                des_t *b = d + base;
                d[i] = *b;
                int c = in_int(0, 3);
                int shown = c == 0 ? !b->etop && !b->elef : c == 1 ? !b->etop && !b->erig : c == 2 ? !b->ebot && !b->erig : !b->ebot && !b->elef;
                if (kind == 1 && shown) {
                    row_t *r = d[i].s[cor[c]].row + in_size(0, d[i].s[cor[c]].h - 1);
                    for (size_t k = 0; k < r->n; k++) {
                        if (r->c[k] == 0x1b) { while (r->c[k] != 'm') k++; continue; }
                        if (!isbl(r->c[k])) { r->c[k] = newcell(0); break; }
                    }
                }
                else if (i < base) gen_design(d + i, style);
            }
        }
        d[i].name = nm[i];
    }
    buf_t conf = {0};
    for (int i = 0; i < n; i++) des_config(d + i, &conf);
    snprintf(cf, sizeof cf, "%s/c.cfg", scratch());
    put_file(cf, conf.s, conf.n);
    buf_t txt = {0};
    size_t nl = in_size(1, 6);
    for (size_t i = 0; i < nl; i++) {
        t.n = 0;
        r_fill(&t, ' ', in_int(0, 3) ? 0 : in_int(0, 4));
        size_t k = in_int(0, 5) ? in_size(0, 12) : 0;
        for (; k > 0; k--) r_cp(&t, in_int(0, 6) ? (uint32_t) in_int('0', '9') : ' ');
        if (i == 0) r_fill(&t, '8', 9);       /* room for two copies of an elastic shape */
        r_rtrim(&t);
        b_row(&txt, &t);
        b_puts(&txt, "\n");
    }
    int boxed = in_int(0, 7) != 0, na = 0;
    run_t b = {0};
    if (boxed) {
        int can = 0;
        for (size_t w = 60; w < 120 && !can; w++) can = side_possible(d + base, xtop, 1, w) && side_possible(d + base, xbot, 1, w);
        ASSUME(can);
        can = 0;
        for (size_t h = 30; h < 90 && !can; h++) can = side_possible(d + base, xlef, 0, h) && side_possible(d + base, xrig, 0, h);
        ASSUME(can);
        args[na++] = "-f"; args[na++] = cf; args[na++] = "-d"; args[na++] = nm[base];
        args[na++] = style && in_int(0, 1) ? "--color" : "--no-color";
        if (in_int(0, 2) == 0) { args[na++] = "-a"; args[na++] = "c"; }
        args[na] = NULL;
        b = run_boxes(args, txt.s, txt.n);
        ASSUME(b.rc == 0);
    }
    else b_add(&b.out, txt.s, txt.n);
    na = 0;
    args[na++] = "-r"; args[na++] = "-f"; args[na++] = cf; args[na++] = "--no-color"; args[na++] = NULL;
    run_t r1 = run_boxes(args, b.out.s, b.out.n);
    if (!boxed) {
        int bad = r1.rc == 0 || r1.rc >= 1000 || r1.out.n > 0;
        if (bad) show_run(conf.s, args, b.out.s, b.out.n, &r1);
        CHECK(!bad, "without a single hit detection fails");
    }
    else {
        args[na - 1] = "-d"; args[na++] = nm[base]; args[na++] = NULL;
        run_t r2 = run_boxes(args, b.out.s, b.out.n);
        /* hits are possible unless two opposite open sides leave nothing to look for: then both runs may differ only in failing */
        int bad = r1.rc != r2.rc || r1.out.n != r2.out.n || memcmp(r1.out.s, r2.out.s, r1.out.n);
        if (bad) { fprintf(stderr, "drawn with %s; removed with the right design:\n%s\nbut:\n", nm[base], r2.out.s); args[4] = NULL; show_run(conf.s, args, b.out.s, b.out.n, &r1); }
        CHECK(!bad, "the design with the most hits is chosen");
        run_free(&r2);
    }
    run_free(&r1); run_free(&b); b_free(&conf); b_free(&txt);
}
