//@title mending an undamaged box gives the same box; blank lines at the ends of a removed box go only as asked, whole program (bounded)
//@variants mend kill
//@src -
//@mode bounded
//@prop C14
//@funcs main remove_box killblank apply_results_to_input output_input generate_box output_box
//@native 100000
//@secs 5
//@bound designs with visible shapes up to 3x3 on all four sides, up to 9 lines of up to 20 characters; the real program is run in a child process
#include "e2edes.h"
#define MAXR 120
static des_t d;
static row_t drawn[MAXR], out[MAXR], txt[12];
static int blankrow(const row_t *r) { for (size_t i = 0; i < r->n; i++) if (!isbl(r->c[i])) return 0; return 1; }
void harness(void)
{
    gen_design(&d, 0);
    ASSUME(!d.etop && !d.ebot && !d.elef && !d.erig);
    if (in_int(0, 2)) { d.pad[0] = in_int(0, 3); d.pad[2] = in_int(0, 3); }
    buf_t conf = {0};
    des_config(&d, &conf);
    char cf[300];
    snprintf(cf, sizeof cf, "%s/c.cfg", scratch());
    put_file(cf, conf.s, conf.n);
    {
        int can = 0;
        for (size_t w = 60; w < 120 && !can; w++) can = side_possible(&d, xtop, 1, w) && side_possible(&d, xbot, 1, w);
        ASSUME(can);
        can = 0;
        for (size_t h = 30; h < 90 && !can; h++) can = side_possible(&d, xlef, 0, h) && side_possible(&d, xrig, 0, h);
        ASSUME(can);
    }
    size_t b0 = in_size(0, 4), b1 = in_size(0, 4), nt = in_size(1, 3), nl = b0 + nt + b1;
    int lb = in_int(0, 4);
    buf_t t = {0};
    for (size_t i = 0; i < nl; i++) {
        txt[i].n = 0;
        if (i >= b0 && i < b0 + nt && !(i > b0 && i + 1 < b0 + nt && in_int(0, 2) == 0)) {
            r_fill(txt + i, ' ', lb + (in_int(0, 2) ? 0 : in_int(0, 4)));
            size_t n = in_size(1, 12);
            for (size_t k = 0; k < n; k++) {
                int q = in_int(0, 6);
                r_cp(txt + i, q == 0 && k > 0 && k + 1 < n ? ' ' : q == 1 ? 0xe9 : q == 2 ? 0x5100 + (uint32_t) in_int(0, 9) : (uint32_t) in_int('0', '9'));
            }
        }
        b_row(&t, txt + i);
        b_puts(&t, "\n");
    }
    char *args[20] = {"-n", "UTF-8", "-f", cf, "-d", "test", NULL};
    run_t b = run_boxes(args, t.s, t.n);
    ASSUME(b.rc == 0);
    int lo;
    size_t nd = split_rows(b.out.s, b.out.n, "\n", drawn, MAXR, &lo);
    size_t ht = d.s[xNW].h, hb = d.s[xSW].h;
    COVER("mend or kill");
#ifdef V_mend
    args[6] = "-m"; args[7] = NULL;
    run_t r = run_boxes(args, b.out.s, b.out.n);
    size_t no = split_rows(r.out.s, r.out.n, "\n", out, MAXR, &lo);
    int same = r.rc == 0 && no == nd;
    for (size_t i = 0; i < nd && same; i++) same = r_eq(drawn + i, out + i);
    if (!same) show_run(conf.s, args, b.out.s, b.out.n, &r);
    CHECK(same, "mending an undamaged box gives the same box");
#else
    int k = in_int(0, 2), n = 6;
    args[n++] = "-r";
    if (k) { args[n++] = "-k"; args[n++] = k == 1 ? "true" : "false"; }
    args[n] = NULL;
    run_t r = run_boxes(args, b.out.s, b.out.n);
    size_t no = split_rows(r.out.s, r.out.n, "\n", out, MAXR, &lo);
    int wrong = 0;
    if (r.rc != 0) wrong = 1;
    else if (k == 2) wrong = no != nd - ht - hb;                      /* every line between top and bottom stays */
    else wrong = no != nt || blankrow(out) || blankrow(out + no - 1);       /* and without blank lines at its ends */
    if (wrong) show_run(conf.s, args, b.out.s, b.out.n, &r);
    CHECK(!wrong, "removing a box keeps its lines, except for blank lines at the ends if these are to go");
#endif
    run_free(&b); run_free(&r); b_free(&conf); b_free(&t);
}
