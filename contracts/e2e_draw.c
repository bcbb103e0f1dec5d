//@title drawing a box, whole program: frame, text, placement, size, padding, tabs as specified (bounded)
//@variants frame place size tabs color
//@src -
//@mode bounded
//@prop.frame C03 C04
//@prop.place C05 C13
//@prop.size C06
//@prop.tabs C07
//@prop.color C16 C05
//@prop C04
//@funcs main handle_input handle_generate_box generate_box output_box
//@native 100000
//@secs 9
//@bound designs with shapes up to 3x3, up to 6 lines of up to 24 characters, requested sizes up to 40; the real program is run in a child process
#include "e2edes.h"
#if defined(V_frame)
enum { vary_frame = 1, vary_place = 0, vary_size = 0, vary_tabs = 0, style_max = 1, color = 0 };
#elif defined(V_place)
enum { vary_frame = 0, vary_place = 1, vary_size = 0, vary_tabs = 0, style_max = 1, color = 0 };
#elif defined(V_size)
enum { vary_frame = 0, vary_place = 0, vary_size = 1, vary_tabs = 0, style_max = 0, color = 0 };
#elif defined(V_tabs)
enum { vary_frame = 0, vary_place = 0, vary_size = 0, vary_tabs = 1, style_max = 0, color = 0 };
#else
enum { vary_frame = 1, vary_place = 1, vary_size = 0, vary_tabs = 0, style_max = 2, color = 1 };
#endif
#define MAXL 6
static des_t d;
static row_t raw[MAXL], txt[MAXL], rows[400], want;
static size_t nlead[MAXL];     /* length of the leading blanks of the raw line */
static long maxl(long a, long b) { return a > b ? a : b; }

static void expand(const row_t *r, int tab, row_t *o)
{
    o->n = 0;
    for (size_t i = 0; i < r->n; i++) {
        if (r->c[i] != '\t') { r_cp(o, r->c[i]); continue; }
        do r_cp(o, ' '); while (o->n % (size_t) tab);
    }
}
/* drops n leading visible characters (all blank) */
static void cut(row_t *r, size_t n) { memmove(r->c, r->c + n, (r->n - n) * 4); r->n -= n; }

void harness(void)
{
    char arg[12][60], *args[40];
    int na = 0, ns = 0;
    gen_design(&d, in_int(0, style_max));
    buf_t conf = {0};
    des_config(&d, &conf);
    char cf[300];
    snprintf(cf, sizeof cf, "%s/c.cfg", scratch());
    put_file(cf, conf.s, conf.n);
    args[na++] = "-f"; args[na++] = cf; args[na++] = "-d"; args[na++] = "test";
    /* input */
    int tab = 8;
    char texp = 'e';
    size_t nl = in_size(0, 3) ? in_size(1, MAXL) : in_size(1, 2);
    buf_t in = {0};
    int lb = in_int(0, 4);
    for (size_t i = 0; i < nl; i++) {
        raw[i].n = 0;
        size_t lead = in_int(0, 3) ? (size_t) lb : in_size(0, 6), n = in_int(0, 5) ? in_size(0, 14) : 0;
        int tabs = vary_tabs || in_int(0, 5) == 0, plain = 1;
        for (size_t k = 0; k < lead; k++) r_cp(raw + i, tabs && in_int(0, 2) == 0 ? '\t' : ' ');
        for (size_t k = 0; k < n; k++) {
            int q = in_int(0, 11);
            if (q == 0) r_cp(raw + i, ' ');
            else if (q == 1 && !vary_tabs) { r_cp(raw + i, 0x4e00 + (uint32_t) in_int(0, 40)); plain = 0; }
            else if (q == 2 && tabs && plain) r_cp(raw + i, '\t');
            else if (q == 3) r_cp(raw + i, 0xe9);
            else if (q == 4 && style_max == 2) { r_cp(raw + i, 0x1b); r_cp(raw + i, '['); r_cp(raw + i, '1'); r_cp(raw + i, 'm'); r_cp(raw + i, 'q'); plain = 0; }
            else r_cp(raw + i, (uint32_t) in_int('0', '9'));
        }
        b_row(&in, raw + i);
        int trail = in_int(0, 7);
        if (trail == 0) b_puts(&in, "  "); else if (trail == 1) b_puts(&in, "\t"); else if (trail == 2) b_puts(&in, "\r");
        r_rtrim(raw + i);
        nlead[i] = 0;
        while (nlead[i] < raw[i].n && (raw[i].c[nlead[i]] == ' ' || raw[i].c[nlead[i]] == '\t')) nlead[i]++;
        if (i + 1 < nl) b_puts(&in, "\n");
    }
    int final_nl = in_int(0, 3) != 0 || (in.n == 0 || in.s[in.n - 1] == '\n');   /* without it an empty last line would not be a line */
    if (!final_nl && in.s[in.n - 1] == '\r') { in.s[--in.n] = 0; if (in.n == 0 || in.s[in.n - 1] == '\n') final_nl = 1; }
    if (final_nl) b_puts(&in, "\n");
    /* options */
    char ha = 'l', va = 't', ju = 0, im = d.indent;
    const char *eol = "\n";
    if (vary_place || in_int(0, 3) == 0) {
        ha = "lcr"[in_int(0, 2)]; va = "tcb"[in_int(0, 2)];
        if (in_int(0, 1)) ju = "lcr"[in_int(0, 2)];
        int form = in_int(0, 3);
        if (form == 0) snprintf(arg[ns], 60, "v%ch%c", va, ha); else snprintf(arg[ns], 60, "h%cv%c", ha, va);
        if (form == 2) {      /* short for hXvcjX */
            va = 'c'; ju = ha;
            snprintf(arg[ns], 60, "%c", ha);
        }
        else if (ju) snprintf(arg[ns] + strlen(arg[ns]), 10, "j%c", ju);
        args[na++] = "-a"; args[na++] = arg[ns++];
    }
    if (in_int(0, 2) == 0) {
        im = "btn"[in_int(0, 2)];
        static const char *iv[3] = {"box", "text", "none"};
        args[na++] = "-i"; args[na++] = (char *) iv[im == 'b' ? 0 : im == 't' ? 1 : 2];
    }
    int pad[4];
    memcpy(pad, d.pad, sizeof pad);
    if (vary_size || vary_place || in_int(0, 3) == 0) {
        arg[ns][0] = 0;
        for (int k = in_int(0, 3); k > 0; k--) {
            int w = in_int(0, 6), v = in_int(0, 4);
            static const char pl[] = "trblahv";
            snprintf(arg[ns] + strlen(arg[ns]), 10, "%c%d", pl[w], v);
            for (int q = 0; q < 4; q++) if (q == w || w == 4 || (w == 5 && q % 2) || (w == 6 && q % 2 == 0)) pad[q] = v;
        }
        if (arg[ns][0]) { args[na++] = "-p"; args[na++] = arg[ns++]; }
    }
    long rw = 0, rh = 0;
    if (vary_size || vary_place || in_int(0, 3) == 0) {
        if (in_int(0, 2)) rw = in_int(1, 40);
        if (in_int(0, 2)) rh = in_int(1, 24);
        if (rw && rh) snprintf(arg[ns], 60, "%ldx%ld", rw, rh);
        else if (rw) snprintf(arg[ns], 60, "%ld", rw);
        else if (rh) snprintf(arg[ns], 60, "x%ld", rh);
        if (rw || rh) { args[na++] = "-s"; args[na++] = arg[ns++]; }
    }
    if (vary_tabs || in_int(0, 3) == 0) {
        tab = in_int(1, 10);
        texp = "eukE"[in_int(0, 3)];
        if (texp == 'E') { snprintf(arg[ns], 60, "%d", tab); texp = 'e'; } else snprintf(arg[ns], 60, "%d%c", tab, texp);
        args[na++] = "-t"; args[na++] = arg[ns++];
    }
    if (in_int(0, 7) == 0) {
        static const char *en[3] = {"CRLF", "LF", "CR"}, *ev[3] = {"\r\n", "\n", "\r"};
        int k = in_int(0, 2);
        eol = ev[k];
        args[na++] = "-e"; args[na++] = (char *) en[k];
    }
    if (color) args[na++] = in_int(0, 1) ? "--color" : "--no-color";
    args[na] = NULL;

    /* ---- what must come out ---- */
    size_t ind = 10000;
    for (size_t i = 0; i < nl; i++) {
        expand(raw + i, tab, txt + i);
        if (txt[i].n) {
            size_t l = 0;
            while (txt[i].c[l] == ' ') l++;
            if (l < ind) ind = l;
        }
    }
    if (ind == 10000) ind = 0;
    long M = 0;
    for (size_t i = 0; i < nl; i++) {
        if (im != 't' && txt[i].n) cut(txt + i, ind);
        M = maxl(M, (long) r_cols(txt + i));
    }
    long ht = (long) d.s[xNW].h, hb = (long) d.s[xSW].h, wl = (long) d.s[xNW].w, wr = (long) d.s[xNE].w;
    long minw = wl + wr + maxl((long) side_min(&d, xtop, 1), (long) side_min(&d, xbot, 1));
    long minh = ht + hb + maxl((long) side_min(&d, xlef, 0), (long) side_min(&d, xrig, 0));
    minw = maxl(minw, rw);
    minh = maxl(minh, rh);
    if (rw) minw += (d.erig ? wr : 0) + (d.elef ? wl : 0);
    if (rh) minh += (d.etop ? ht : 0) + (d.ebot ? hb : 0);
    for (int axis = 0; axis < 2; axis++) {      /* padding gives way to a requested size, alternating, never below zero */
        int *a = pad + (axis ? 0 : 3), *b = pad + (axis ? 2 : 1);
        long need = *a + *b + (axis ? (long) nl + ht + hb : M + wl + wr), have = axis ? minh : minw, req = axis ? rh : rw;
        if (*a + *b == 0 || need <= have) continue;
        if (!req) { if (axis) minh = need; else minw = need; continue; }
        for (long i = 0; i < need - have; i++) {
            int *f = i % 2 ? b : a, *s = i % 2 ? a : b;
            if (*f > 0) --*f; else if (*s > 0) --*s; else break;
        }
    }
    long Wmin = maxl(minw - wl - wr, M + pad[1] + pad[3]), Hmin = maxl(minh - ht - hb, (long) nl + pad[0] + pad[2]);
    int can = 0;
    for (long w = Wmin; w < Wmin + 120 && !can; w++) can = side_possible(&d, xtop, 1, (size_t) w) && side_possible(&d, xbot, 1, (size_t) w);
    ASSUME(can);
    can = 0;
    for (long h = Hmin; h < Hmin + 120 && !can; h++) can = side_possible(&d, xlef, 0, (size_t) h) && side_possible(&d, xrig, 0, (size_t) h);
    ASSUME(can);      /* otherwise the size search does not end (C21) */

    run_t r = run_boxes(args, in.s, in.n);
    int last_open;
    size_t nrows = split_rows(r.out.s, r.out.n, eol, rows, 400, &last_open);
    int ok = 0;
    long far = -1;
    static row_t farw;
    long H = (long) nrows - (d.etop ? 0 : ht) - (d.ebot ? 0 : hb);
    const char *why = "exit status";
    static row_t inner;
    if (r.rc == 0) {
        why = "number of rows";
        if (H >= Hmin && side_possible(&d, xlef, 0, (size_t) H) && side_possible(&d, xrig, 0, (size_t) H) && last_open == !final_nl) {
            why = "rows";
            for (long W = Wmin; W < Wmin + 120 && !ok; W++) for (int v = 0; v < 81 && !ok; v++) {
                size_t ct[3], cb[3], cl[3], cr[3];
                if (!side_copies(&d, xtop, 1, (size_t) W, v % 3, ct) || !side_copies(&d, xbot, 1, (size_t) W, v / 3 % 3, cb)) continue;
                if (!side_copies(&d, xlef, 0, (size_t) H, v / 9 % 3, cl) || !side_copies(&d, xrig, 0, (size_t) H, v / 27, cr)) continue;
                long hf = W - M - pad[1] - pad[3], vf = H - (long) nl - pad[0] - pad[2];
                long before = pad[3] + (ha == 'c' ? hf / 2 : ha == 'r' ? hf : 0);
                long above = pad[0] + (va == 'c' ? vf / 2 : va == 'b' ? vf : 0);
                long after = W - M - before;
                int all = 1;
                for (long y = 0; y < ht + H + hb && all; y++) {
                    if (y < ht && d.etop) continue;
                    if (y >= ht + H && d.ebot) continue;
                    long o = y - (d.etop ? ht : 0), body = y - ht, ti = body - above;
                    size_t li = body < 0 || ti < 0 ? 0 : (size_t) ti >= nl ? nl - 1 : (size_t) ti;   /* whose leading tabs are kept */
                    want.n = 0;
                    if (im == 'b') {
                        if (texp == 'u') { r_fill(&want, '\t', (long) ind / tab); r_fill(&want, ' ', (long) ind % tab); }
                        else if (texp == 'k') {      /* the leading blanks of the line itself, as far as they belong to the indentation */
                            size_t col = 0;
                            for (size_t k = 0; k < nlead[li] && col < ind; k++) {
                                size_t nx = raw[li].c[k] == '\t' ? (col / (size_t) tab + 1) * (size_t) tab : col + 1;
                                if (nx > ind) { r_fill(&want, ' ', (long) (ind - col)); col = ind; break; }
                                r_cp(&want, raw[li].c[k]);
                                col = nx;
                            }
                            r_fill(&want, ' ', (long) ind - (long) col);     /* empty line */
                        }
                        else r_fill(&want, ' ', (long) ind);
                    }
                    inner.n = 0;
                    if (body < 0 || body >= H) {
                        const int *side = body < 0 ? xtop : xbot;
                        size_t *c = body < 0 ? ct : cb;
                        size_t sr = (size_t) (body < 0 ? y : body - H);
                        for (int i = 0; i < 3; i++) for (size_t q = 0; q < c[i]; q++) r_row(&inner, d.s[side[i + 1]].row + sr);
                    }
                    else if (ti < 0 || ti >= (long) nl) r_fill(&inner, ' ', W);
                    else {
                        row_t *t = txt + ti;
                        size_t L = 0;
                        while (L < t->n && t->c[L] == ' ') L++;
                        long len = (long) r_cols(t) - (long) L, at = (long) L;
                        if (ju && t->n) {
                            long base = im == 't' ? (long) ind : 0, skew = after - before - base;
                            if (ju == 'l') at = base;
                            else if (ju == 'r') at = M - len;
                            else at = base + (M - base - len) / 2 + ((M - base - len) % 2 && skew == 1);
                        }
                        if (t->n == 0) at = 0;
                        r_fill(&inner, ' ', before + at);
                        for (size_t q = L; q < t->n; q++) r_cp(&inner, t->c[q]);
                        r_fill(&inner, ' ', W - before - at - len);
                    }
                    row_t *lp, *rp;
                    for (int e = 0; e < 2; e++) {
                        const int *side = e ? xrig : xlef;
                        size_t *c = e ? cr : cl;
                        row_t *p = NULL;
                        if (body < 0) p = d.s[side[0]].row + y;
                        else if (body >= H) p = d.s[side[4]].row + (body - H);
                        else {
                            size_t k = (size_t) body;
                            for (int i = 0; i < 3; i++) {
                                size_t hh = d.s[side[i + 1]].h * c[i];
                                if (k < hh) { p = d.s[side[i + 1]].row + k % d.s[side[i + 1]].h; break; }
                                k -= hh;
                            }
                        }
                        if (e) rp = p; else lp = p;
                    }
                    if (!d.elef) r_row(&want, lp);
                    r_row(&want, &inner);
                    r_row(&want, rp);
                    if (color) { row_t t = r_visible(&want); want = t; t = r_visible(rows + o); rows[o] = t; }
                    r_rtrim(&want);
                    r_rtrim(rows + o);
                    all = r_eq(&want, rows + o);
                    if (!all && o > far) { far = o; farw = want; }
                }
                ok = all;
            }
        }
    }
    if (!ok) {
        fprintf(stderr, "differs: %s; inner size at least %ldx%ld\n", why, Wmin, Hmin);
        if (far >= 0) { buf_t x = {0}, y = {0}; b_row(&x, &farw); b_row(&y, rows + far); fprintf(stderr, "row %ld: expected |%s|\n            found |%s|\n", far, x.s ? x.s : "", y.s ? y.s : ""); }
        show_run(conf.s, args, in.s, in.n, &r); }
    CHECK(ok, "the drawn box is the one specified by design, text and options");
    CHECK(!strchr(r.out.s, 0x1b) || strcmp(args[na - 1], "--color") == 0, "no escape sequences without colours");
    run_free(&r); b_free(&conf); b_free(&in);
}
