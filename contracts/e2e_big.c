//@title long inputs, whole program: several hundred lines, lines of thousands of characters, large sizes, many designs (bounded)
//@variants text conf
//@src -
//@mode bounded
//@prop.text C13 C05 C14
//@prop.conf C10 C18
//@prop C13
//@funcs main read_all_input analyze_input output_box horiz_generate vert_generate remove_box parse_config_files list_designs u32_regex_replace
//@native 100000
//@secs 8
//@bound up to 420 lines, lines of up to 8000 characters, boxes of up to 2000 columns and 600 lines, up to 160 designs; the real program is run in a child process
#include "e2e.h"
#include <strings.h>
static void pad(buf_t *b, char c, long n) { while (n-- > 0) b_add(b, &c, 1); }
#ifdef V_text
void harness(void)
{
    static size_t len[450], off[450];
    buf_t in = {0}, c = {0}, w = {0}, plain = {0};
    char cf[300], sz[40], rep[40] = "";
    size_t nl = in_int(0, 2) ? (size_t[]) {99, 100, 101, 199, 200, 201, 300, 301}[in_int(0, 7)] : in_size(1, 420), max = 0;
    int lng = in_int(0, 3), esc = in_int(0, 2) == 0, rule = in_int(0, 2) == 0, eol = in_int(0, 3) != 0;
    size_t grow = rule ? in_size(1, 30) : 0;
    for (size_t i = 0; i < nl; i++) {
        size_t l = lng && in_int(0, (int) nl) < 3 ? in_size(0, lng == 1 ? 8000 : 900) : in_size(0, 12);
        if (i == 0 || i + 1 == nl) l = l ? l : 1;
        off[i] = w.n;
        len[i] = l;
        for (size_t k = 0; k < l; k++) {
            char ch = (char) ('a' + (int) ((i * 7 + k * 3) % 20));
            if (esc && k % 50 == 7) b_puts(&in, "\033[31m");
            b_add(&in, &ch, 1);
            if (rule && ch == 'c') { len[i] += grow - 1; pad(&w, 'Z', (long) grow); }
            else b_add(&w, &ch, 1);
        }
        if (eol || i + 1 < nl) b_puts(&in, "\n");
        if (len[i] > max) max = len[i];
    }
    size_t wd = max, ht = nl;
    char *args[12] = {"-f", cf, "-d", "big", "--no-color"};
    int na = 5;
    if (in_int(0, 2) == 0) {
        size_t a = in_size(3, 2000), b = in_size(3, 600);
        snprintf(sz, sizeof sz, "%dx%d", (int) a, (int) b);
        args[na++] = "-s"; args[na++] = sz;
        if (a > wd + 2) wd = a - 2;
        if (b > ht + 2) ht = b - 2;
    }
    b_puts(&c, "BOX big\nsample\nx\nends\nshapes { nw (\"+\") n (\"-\") ne (\"+\") e (\"!\") se (\"+\") s (\"=\") sw (\"+\") w (\"|\") }\nelastic (n, e, s, w)\n");
    if (rule) {
        for (size_t k = 0; k < grow; k++) rep[k] = 'Z';
        b_fmt(&c, "replace \"c\" with \"%.*s\"\n", (int) grow, rep);
    }
    b_puts(&c, "END big\n");
    snprintf(cf, sizeof cf, "%s/big.cfg", scratch());
    put_file(cf, c.s, c.n);
    run_t r = run_boxes(args, in.s, in.n);
    b_puts(&plain, "+"); pad(&plain, '-', (long) wd); b_puts(&plain, "+\n");
    for (size_t i = 0; i < ht; i++) {
        b_puts(&plain, "|");
        if (i < nl) b_add(&plain, w.s + off[i], len[i]);
        pad(&plain, ' ', (long) (wd - (i < nl ? len[i] : 0)));
        b_puts(&plain, "!\n");
    }
    b_puts(&plain, "+"); pad(&plain, '=', (long) wd); b_puts(&plain, eol ? "+\n" : "+");
    int bad = r.rc != 0 || r.out.n != plain.n || memcmp(r.out.s, plain.s, plain.n);
    if (bad) {
        size_t d = 0;
        while (d < r.out.n && d < plain.n && r.out.s[d] == plain.s[d]) d++;
        fprintf(stderr, "exit %d; %zu bytes instead of %zu, first difference at byte %zu\n", r.rc, r.out.n, plain.n, d);
        show_run(c.s, args, in.s, in.n < 3000 ? in.n : 3000, &(run_t) {r.rc, {0}, r.err});
    }
    CHECK(!bad, "every line of a long text is in the box");
    run_free(&r);
    if (!rule && na == 5) {
        char *rm[] = {"-f", cf, "-d", "big", "--no-color", "-r", NULL};
        r = run_boxes(rm, plain.s, plain.n);
        buf_t t = {0};
        for (size_t i = 0; i < nl; i++) { if (len[i]) b_add(&t, w.s + off[i], len[i]); else pad(&t, ' ', (long) max);      /* blank lines keep their blanks */ if (eol || i + 1 < nl) b_puts(&t, "\n"); }
        bad = r.rc != 0 || r.out.n != t.n || memcmp(r.out.s, t.s, t.n);
        if (bad) { size_t d = 0; while (d < r.out.n && d < t.n && r.out.s[d] == t.s[d]) d++; show_run(c.s, rm, plain.s, plain.n < 3000 ? plain.n : 3000, &(run_t) {r.rc, {0}, r.err}); fprintf(stderr, "removing %zu lines up to %zu long: exit %d; %zu bytes instead of %zu, first difference at byte %zu: %.60s instead of %.60s\n", nl, max, r.rc, r.out.n, t.n, d, r.out.s + d, t.s + d); }
        CHECK(!bad, "every line of a long text is returned when the box is removed");
        run_free(&r);
        b_free(&t);
    }
    b_free(&in); b_free(&c); b_free(&w); b_free(&plain);
}
#else
static char nm[160][70];
static int ix[160];
static int cmp(const void *a, const void *b) { return strcasecmp(nm[*(const int *) a], nm[*(const int *) b]); }
void harness(void)
{
    int n = in_int(1, 160), tags = in_int(1, 40), count[40] = {0};
    buf_t c = {0}, w = {0}, al = {0};
    char cf[300], tg[40][20];
    for (int i = 0; i < tags; i++) snprintf(tg[i], 20, "t%02d", i);
    for (int i = 0; i < n; i++) {
        int l = in_int(0, 3) ? 4 : 60;
        snprintf(nm[i], 70, "%c%03d%.*s", in_int(0, 1) ? 'n' : 'N', (i * 37) % 997, l - 4, "xyxyxyxyxyxyxyxyxyxyxyxyxyxyxyxyxyxyxyxyxyxyxyxyxyxyxyxyxyxyxyxy");
        ix[i] = i;
    }
    qsort(ix, (size_t) n, sizeof *ix, cmp);
    snprintf(cf, sizeof cf, "%s/many.cfg", scratch());
    int star = in_int(0, n - 1), nal = in_int(0, 60), k = in_int(0, n - 1);
    for (int i = 0; i < n; i++) {
        b_fmt(&c, "BOX %s", nm[i]);
        if (i == star) for (int q = 0; q < nal; q++) { b_fmt(&c, ", alias-%d", q); b_fmt(&al, "%salias-%d", q ? ", " : "", q); }
        b_fmt(&c, "\ntags (\"%s\"", tg[i % tags]);
        count[i % tags]++;
        if (i == star) for (int q = 0; q < tags; q++) if (q != i % tags) { b_fmt(&c, ", \"%s\"", tg[q]); count[q]++; }
        b_fmt(&c, ")\nsample\nsmp %d\nends\nshapes { w (\"w%d\") }\nelastic (w)\nEND %s\n", i, i, nm[i]);
    }
    put_file(cf, c.s, c.n);
    b_fmt(&w, "%d Available Style%s in \"%s\":\n", n, n > 1 ? "s" : "", cf);
    size_t h = w.n - 1;
    pad(&w, '-', (long) h);
    b_puts(&w, "\n\n");
    for (int i = 0; i < n; i++) b_fmt(&w, "%s%s%s:\n\nsmp %d\n\n\n", nm[ix[i]], ix[i] == star && nal ? " alias " : "", ix[i] == star && nal ? al.s : "", ix[i]);
    int first = 1;
    for (int i = 0; i < tags; i++) if (count[i]) { b_fmt(&w, "%s%s (%d)", first ? "" : " | ", tg[i], count[i]); first = 0; }
    b_puts(&w, "\n");
    char *args[] = {"-f", cf, "-l", NULL};
    run_t r = run_boxes(args, "", 0);
    int bad = r.rc != 0 || r.out.n != w.n || memcmp(r.out.s, w.s, w.n);
    if (bad) { fprintf(stderr, "expected:\n%s\n", w.s); show_run(c.s, args, "", 0, &r); }
    CHECK(!bad, "all of many designs are listed in order");
    run_free(&r);
    char an[20], want[40], *da[] = {"-f", cf, "-d", nm[k], NULL};
    if (k == star && nal && in_int(0, 1)) { snprintf(an, 20, "alias-%d", in_int(0, nal - 1)); da[3] = an; }
    snprintf(want, sizeof want, "w%dtext\n", k);
    r = run_boxes(da, "text\n", 5);
    bad = r.rc != 0 || strcmp(r.out.s, want);
    if (bad) { fprintf(stderr, "expected: %s\n", want); show_run(c.s, da, "text\n", 5, &r); }
    CHECK(!bad, "one of many designs is found");
    run_free(&r);
    b_free(&c); b_free(&w); b_free(&al);
}
#endif
