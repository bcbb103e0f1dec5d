//@title removing a box, whole program: only box parts and blanks are dropped, the text stays complete and in order (bounded)
//@variants plain blanks color text
//@src -
//@mode bounded
//@prop C14
//@prop.text C14 C13
//@prop.color C14 C16
//@funcs main remove_box find_top_side find_bottom_side find_vertical_shapes apply_results_to_input output_input
//@native 100000
//@secs 6
//@bound designs with shapes up to 3x3, up to 8 lines of up to 40 characters, up to 4 damaged places; the real program is run in a child process
#include "e2edes.h"
#define MAXR 120
static des_t d;
static row_t in[MAXR], out[MAXR], drawn[MAXR];
/* box characters have their own alphabet; the text uses others */
static int boxch(uint32_t c) { return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || (c >= 0x100 && c < 0x1000) || (c >= 0x4e00 && c < 0x5000); }
static int textch(uint32_t c) { return !boxch(c) && !isbl(c); }
static int span(const row_t *r, size_t *a, size_t *b, int (*f)(uint32_t))
{
    *a = r->n;
    *b = 0;
    for (size_t i = 0; i < r->n; i++) if (f(r->c[i])) { if (*a == r->n) *a = i; *b = i + 1; }
    return *b > *a;
}
static int nonblank(uint32_t c) { return !isbl(c); }
static int same(const row_t *a, size_t ab, size_t ae, const row_t *b, size_t bb, size_t be)
{
    return ae - ab == be - bb && memcmp(a->c + ab, b->c + bb, (ae - ab) * 4) == 0;
}
/* [a,b) of r, without blanks at its ends, is part of a single row of one of the given shapes, or nothing */
static int part_of(const row_t *r, size_t a, size_t b, const int *side, size_t *trail, int *whole)
{
    while (a < b && isbl(r->c[a])) a++;
    while (b > a && isbl(r->c[b - 1])) b--;
    if (a == b) return 2;
    for (int i = 1; i < 4; i++) for (size_t k = 0; k < d.s[side[i]].h; k++) {
        row_t v = r_visible(d.s[side[i]].row + k);
        size_t x, y;
        if (!span(&v, &x, &y, nonblank)) continue;
        if (same(r, a, b, &v, x, y)) { *trail = v.n - y; *whole = 1; return 1; }
    }
    return 0;
}
void harness(void)
{
#if defined(V_plain) || defined(V_text)
    enum { style = 0, color = 0 };
#elif defined(V_blanks)
    enum { style = 1, color = 0 };
#else
    enum { style = 2, color = 1 };
#endif
    gen_design(&d, style);
    buf_t conf = {0};
    des_config(&d, &conf);
    char cf[300], arg[12][60], *args[40];
    snprintf(cf, sizeof cf, "%s/c.cfg", scratch());
    put_file(cf, conf.s, conf.n);
    size_t nin = 0;
    static row_t t;
    buf_t txt = {0};
    size_t nl = in_size(1, 6);
    int lb = in_int(0, 3) ? 0 : in_int(0, 6);
    for (size_t i = 0; i < nl; i++) {
        t.n = 0;
        size_t n = in_int(0, 5) ? in_size(0, 12) : 0;
        r_fill(&t, ' ', in_int(0, 3) ? lb : in_int(0, 8));
        for (size_t k = 0; k < n; k++) {
            int q = in_int(0, 8);
            if (q == 0) r_cp(&t, ' ');
            else if (q == 1) r_cp(&t, 0xe9);
            else if (q == 2) r_cp(&t, 0x5100 + (uint32_t) in_int(0, 9));
            else r_cp(&t, (uint32_t) in_int('0', '9'));
        }
        r_rtrim(&t);
        b_row(&txt, &t);
        b_puts(&txt, "\n");
    }
#if defined(V_text)
    /* no box at all: text in which no box character occurs */
    buf_t src = txt;
    char im0 = 'b';
#else
    int na = 0;
    char im0 = d.indent;
    args[na++] = "-f"; args[na++] = cf; args[na++] = "-d"; args[na++] = "test";
    if (in_int(0, 2) == 0) { static const char *al[6] = {"c", "hr", "hcvc", "jr", "vb", "l"}; args[na++] = "-a"; args[na++] = (char *) al[in_int(0, 5)]; }
    if (in_int(0, 3) == 0) { snprintf(arg[0], 60, "a%d", in_int(0, 3)); args[na++] = "-p"; args[na++] = arg[0]; }
    if (in_int(0, 3) == 0) { static const char *iv[3] = {"box", "text", "none"}; int k = in_int(0, 2); im0 = "btn"[k]; args[na++] = "-i"; args[na++] = (char *) iv[k]; }
    args[na++] = color && in_int(0, 1) ? "--color" : "--no-color";
    args[na] = NULL;
    /* parity of two elastic shapes can make a size unreachable (C21): only draw when some size is possible on both sides */
    {
        int can = 0;
        size_t w0 = 60;
        for (size_t w = w0; w < w0 + 60 && !can; w++) can = side_possible(&d, xtop, 1, w) && side_possible(&d, xbot, 1, w);
        ASSUME(can);
        can = 0;
        for (size_t h = 30; h < 90 && !can; h++) can = side_possible(&d, xlef, 0, h) && side_possible(&d, xrig, 0, h);
        ASSUME(can);
    }
    run_t b = run_boxes(args, txt.s, txt.n);
    ASSUME(b.rc == 0);
    buf_t src = {0};
    int lo;
    size_t nd = split_rows(b.out.s, b.out.n, "\n", drawn, MAXR, &lo);
    /* damage */
    for (int k = in_int(0, 1) ? in_int(0, 4) : 0; k > 0 && nd > 0; k--) {
        size_t y = in_size(0, nd - 1);
        row_t *r = drawn + y;
        if (r->n == 0) continue;
        size_t x = in_size(0, r->n - 1);
        int boxonly = 1;
        for (size_t i = 0; i < r->n; i++) if (textch(r->c[i])) boxonly = 0;
        if (color) {      /* leave the escape sequences whole */
            if (in_int(0, 1) && boxonly) { memmove(r, r + 1, (nd - y - 1) * sizeof *r); nd--; }
            else { t = r_visible(r); *r = t; }
            continue;
        }
        switch (in_int(0, 4)) {
            case 0: if (boxch(r->c[x])) r->c[x] = ' '; break;
            case 1: if (boxch(r->c[x]) || isbl(r->c[x])) { memmove(r->c + x, r->c + x + 1, (r->n - x - 1) * 4); r->n--; } break;
            case 2: if (boxonly) { memmove(r, r + 1, (nd - y - 1) * sizeof *r); nd--; } break;
            case 3: if (boxch(r->c[x])) r->c[x] = '#'; break;
            default: if (r->n < 500) { memmove(r->c + x + 1, r->c + x, (r->n - x) * 4); r->n++; r->c[x] = ' '; } break;
        }
    }
    int shift = in_int(0, 3) == 0 ? in_int(1, 5) : 0;
    for (size_t y = 0; y < nd; y++) {
        for (int k = 0; k < shift; k++) b_puts(&src, " ");
        b_row(&src, drawn + y);
        b_puts(&src, "\n");
    }
    run_free(&b);
#endif
    /* remove */
    int nr = 0, tab = 8, lo2;
    char texp = 'e', im = 'b';
    args[nr++] = "-r"; args[nr++] = "-f"; args[nr++] = cf; args[nr++] = "-d"; args[nr++] = "test";
    if (in_int(0, 2) == 0) { static const char *iv[3] = {"box", "text", "none"}; int k = in_int(0, 2); im = "btn"[k]; args[nr++] = "-i"; args[nr++] = (char *) iv[k]; }
    if (in_int(0, 2) == 0) { static const char *kv[2] = {"true", "false"}; args[nr++] = "-k"; args[nr++] = (char *) kv[in_int(0, 1)]; }
    if (in_int(0, 2) == 0) { tab = in_int(1, 9); texp = "eu"[in_int(0, 1)]; snprintf(arg[5], 60, "%d%c", tab, texp); args[nr++] = "-t"; args[nr++] = arg[5]; }
    const char *eol = "\n";
    if (in_int(0, 5) == 0) { args[nr++] = "-e"; args[nr++] = "CRLF"; eol = "\r\n"; }
    int plainout = !color || in_int(0, 1);
    if (color) args[nr++] = plainout ? "--no-color" : "--color";
    args[nr] = NULL;
    run_t r = run_boxes(args, src.s, src.n);
    if (plainout) for (size_t i = 0; i < r.out.n; i++) CHECK(r.out.s[i] != 27, "no escape sequences when colour is off");
    nin = split_rows(src.s, src.n, "\n", in, MAXR, &lo2);
    size_t nout = split_rows(r.out.s, r.out.n, eol, out, MAXR, &lo2);
    size_t ind = 10000;        /* common indentation of the lines that are not empty */
    for (size_t i = 0; i < nin; i++) {
        if (color) { t = r_visible(in + i); in[i] = t; }
        size_t l = 0;
        while (l < in[i].n && in[i].c[l] == ' ') l++;
        if (in[i].n > 0 && l < ind) ind = l;
    }
    if (ind == 10000) ind = 0;
    for (size_t i = 0; i < nout; i++) {
        t = color ? r_visible(out + i) : out[i];
        out[i].n = 0;
        size_t k = 0;
        for (; k < t.n && (t.c[k] == '\t' || t.c[k] == ' '); k++) {
            if (t.c[k] == ' ') r_cp(out + i, ' ');
            else do r_cp(out + i, ' '); while (out[i].n % (size_t) tab);
        }
        for (; k < t.n; k++) r_cp(out + i, t.c[k]);
    }
    const char *why = NULL;
    if (r.rc != 0) why = "exit status";
    /* rows that are not blank, as ranges */
    size_t i0 = 0, i1 = nin, o0 = 0, o1 = nout, a, b2, c, e;
    while (o0 < o1 && !span(out + o0, &a, &b2, nonblank)) o0++;
    while (o1 > o0 && !span(out + o1 - 1, &a, &b2, nonblank)) o1--;
    size_t badrow = 0;
    int nw = 0;
    long far = -1;
    static char farwhy[100];
    if (!why && o0 == o1) {
        for (size_t i = 0; i < nin; i++) if (span(in + i, &a, &b2, textch)) { why = "text line lost"; badrow = i; }
    }
    else if (!why) {
        int found = 0;
        for (i0 = 0; i0 + (o1 - o0) <= nin && !found; i0++) {
            i1 = i0 + (o1 - o0);
            why = NULL;
            for (size_t i = 0; i < nin && !why; i++) {
                int has = span(in + i, &a, &b2, textch);
                if (i < i0 || i >= i1) { if (has) { why = "text line lost"; badrow = i; } continue; }
                row_t *o = out + o0 + (i - i0);
                if (span(o, &c, &e, textch) != has || (has && !same(in + i, a, b2, o, c, e))) { why = "text changed"; badrow = i; continue; }
                /* what is left is a contiguous part of the line, and what is gone are parts of vertical shapes and blanks */
                size_t x, y, p = 0;
                if (!span(o, &x, &y, nonblank)) continue;
                if (has) p = a - (c - x);
                else while (p + (y - x) <= in[i].n && memcmp(in[i].c + p, o->c + x, (y - x) * 4)) p++;
                if (has && c - x > a) { why = "characters invented"; badrow = i; continue; }
                if (p + (y - x) > in[i].n || memcmp(in[i].c + p, o->c + x, (y - x) * 4)) { why = "line changed"; badrow = i; continue; }
                size_t tr = 0, dummy, q = p + (y - x), pb = p;
                int w = 0;
                int left = d.elef ? (pb == 0 || part_of(in + i, 0, pb, xlef, &tr, &w) == 2 ? 2 : 0) : part_of(in + i, 0, pb, xlef, &tr, &w);
                if (!left) { why = "something other than a west shape cut off at the left"; badrow = i; continue; }
                if (!part_of(in + i, q, in[i].n, xrig, &dummy, &w) || (d.erig && part_of(in + i, q, in[i].n, xrig, &dummy, &w) != 2)) { why = "something other than an east shape cut off at the right"; badrow = i; continue; }
#if defined(V_plain) || defined(V_text)
                /* every shape cell is a character here, so it is clear where the shape ends */
                size_t bl = 0;
                while (bl < p && isbl(in[i].c[p - 1 - bl])) bl++;
                size_t keep = left == 1 ? bl - (bl < (size_t) d.pad[3] ? bl : (size_t) d.pad[3]) + (im == 'b' ? ind : 0) : bl;
                if (!d.elef && x != keep) { why = "leading blanks of the rest of the line"; badrow = i; }
                nw += left == 1;
#endif
            }
            found = !why;
            if (why && (long) badrow > far) { far = (long) badrow; snprintf(farwhy, sizeof farwhy, "%s", why); }
        }
        if (!found) { why = far < 0 ? "more lines than before" : farwhy; badrow = (size_t) (far < 0 ? 0 : far); }
    }
    (void) im0; (void) nw;
    if (why) { fprintf(stderr, "input line %zu: %s\n", badrow + 1, why); show_run(conf.s, args, src.s, src.n, &r); }
    CHECK(!why, "removing a box drops nothing but box parts and blanks");
#if defined(V_text)
    if (!why) {
        /* blank first and last lines are all that may be missing */
        for (size_t i = 0; i < nin; i++) if (span(in + i, &a, &b2, nonblank)) CHECK(o1 > o0, "text without a box is left alone");
    }
#endif
    run_free(&r); b_free(&conf);
#if !defined(V_text)
    b_free(&src);
#endif
    b_free(&txt);
}
