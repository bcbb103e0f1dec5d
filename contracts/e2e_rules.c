//@title substitution rules, whole program: order, once/global, every line, width of the box, reversal, errors (bounded)
//@variants draw undo
//@src -
//@mode bounded
//@prop C17
//@funcs apply_substitutions u32_regex_replace u32_compile_pattern action_add_regex_rule main
//@native 100000
//@secs 8
//@bound up to 6 lines of up to 14 characters, up to 4 rules with literal, single-character-class, start and end patterns, optional group reference in the replacement; the real program is run in a child process
#include "e2e.h"
typedef struct { int kind, glob; uint32_t pat[3]; size_t np; uint32_t rep[6]; size_t nr; int grp; } rule_t;  /* kind 0 literal, 1 one of pat, 2 start, 3 end */
static uint32_t pick(void) { return (uint32_t[]) {'a', 'b', 'c', 'd', 0xe4, 0x4e2d}[in_int(0, 5)]; }
static void apply1(const rule_t *r, row_t *t)
{
    static row_t o;
    o.n = 0;
    int done = 0;
    if (r->kind == 2) { for (size_t k = 0; k < r->nr; k++) r_cp(&o, r->rep[k]); done = 1; }
    for (size_t i = 0; i < t->n; ) {
        size_t m = 0;
        if (!done || (r->glob && r->kind < 2)) {
            if (r->kind == 0) { m = r->np; if (i + m > t->n || memcmp(t->c + i, r->pat, m * 4)) m = 0; }
            if (r->kind == 1) for (size_t k = 0; k < r->np; k++) if (t->c[i] == r->pat[k]) m = 1;
        }
        if (m) {
            for (size_t k = 0; k < r->nr; k++) r_cp(&o, r->rep[k]);
            if (r->grp) for (size_t k = 0; k < m; k++) r_cp(&o, t->c[i + k]);
            i += m;
            done = 1;
        }
        else r_cp(&o, t->c[i++]);
    }
    if (r->kind == 3) for (size_t k = 0; k < r->nr; k++) r_cp(&o, r->rep[k]);
    *t = o;
}
static void conf_rule(buf_t *b, const rule_t *r, int rev, int err)
{
    b_fmt(b, "%s %s\"", rev ? "reverse" : "replace", r->glob ? (in_int(0, 1) ? "global " : "") : "once ");
    if (err == 1) b_puts(b, "(a");
    else if (r->kind == 2) b_puts(b, "^");
    else if (r->kind == 3) b_puts(b, "$");
    else {
        b_puts(b, r->grp ? "(" : "");
        if (r->kind == 1) b_puts(b, "[");
        for (size_t k = 0; k < r->np; k++) b_cp(b, r->pat[k]);
        if (r->kind == 1) b_puts(b, "]");
        b_puts(b, r->grp ? ")" : "");
    }
    b_fmt(b, "\" %s \"", rev ? "to" : "with");
    for (size_t k = 0; k < r->nr; k++) b_cp(b, r->rep[k]);
    if (err == 2) b_puts(b, "$7");
    else if (r->grp) b_puts(b, "$1");
    b_puts(b, "\"\n");
}
void harness(void)
{
    static row_t in[8], want[8], got[20];
    rule_t ru[4], other[2];
#ifdef V_draw
    int rev = 0;
#else
    int rev = 1;
#endif
    size_t nl = in_size(1, 6);
    int tmode = !rev && in_int(0, 2) == 0, jl = tmode && in_int(0, 1);      /* text indented inside the box, and moved to that indentation */
    for (size_t i = 0; i < nl; i++) {
        in[i].n = 0;
        if (tmode) r_fill(in + i, ' ', in_int(0, 3));
        size_t l = in_int(0, 6) ? in_size(1, 14) : 0;
        for (size_t k = 0; k < l; k++) r_cp(in + i, k > 0 && k + 1 < l && in_int(0, 7) == 0 ? ' ' : pick());
    }
    if (in[0].n == 0 && nl == 1) r_cp(in, 'a');
    if (rev) for (size_t i = 0; i < nl; i++) if (in[i].n == 0) r_cp(in + i, 'c');      /* blank lines may be killed */
    int nr = in_int(0, 4), err = in_int(0, 9) == 0 ? in_int(1, 2) : 0;
    if (err && nr == 0) nr = 1;
    int errat = in_int(0, nr ? nr - 1 : 0), fired = 0;
    for (int i = 0; i < nr + 2; i++) {
        rule_t *r = i < nr ? ru + i : other + (i - nr);
        r->kind = in_int(0, 5);
        if (r->kind > 3) r->kind = 0;
        r->glob = in_int(0, 1);
        r->np = in_size(1, r->kind == 0 ? 2 : 3);
        for (size_t k = 0; k < r->np; k++) r->pat[k] = pick();
        r->nr = in_size(0, 4);
        for (size_t k = 0; k < r->nr; k++) r->rep[k] = in_int(0, 5) == 0 ? 'x' : pick();
        if (tmode && r->kind == 2 && in_int(0, 1)) { r->nr = in_size(1, 4); for (size_t k = 0; k < r->nr; k++) r->rep[k] = ' '; }
        r->grp = r->kind < 2 && in_int(0, 3) == 0;
        if (err && i == errat && i < nr) { r->kind = 0; }
    }
    if (rev) for (int i = 0; i < nr; i++) if (ru[i].nr == 0) ru[i].rep[ru[i].nr++] = 'y';
    buf_t cf = {0};
    b_puts(&cf, "BOX test\nsample\nx\nends\nshapes {\nnw (\"+\") n (\"-\") ne (\"+\") e (\"|\") se (\"+\") s (\"-\") sw (\"+\") w (\"|\")\n}\nelastic (n,e,s,w)\n");
    if (tmode) b_puts(&cf, "indent \"text\"\n");
    int no = in_int(0, 2);
    int k = 0;
    for (int i = 0; i < nr; i++) {
        while (k < no && in_int(0, 1)) conf_rule(&cf, other + k++, !rev, 0);
        conf_rule(&cf, ru + i, rev, err && i == errat ? err : 0);
    }
    while (k < no) conf_rule(&cf, other + k++, !rev, 0);
    b_puts(&cf, "END test\n");
    char path[300];
    snprintf(path, sizeof path, "%s/r.cfg", scratch());
    put_file(path, cf.s, cf.n);
    /* expectation */
    size_t maxw = 0, inw = 0;
    for (size_t i = 0; i < nl; i++) if (r_cols(in + i) > inw) inw = r_cols(in + i);
    for (size_t i = 0; i < nl; i++) {
        want[i] = in[i];
        if (rev) r_fill(want + i, ' ', (long) inw - (long) r_cols(in + i));      /* the fill is cut at the very end */
        for (int j = 0; j < nr; j++) {
            if (err == 2 && j == errat) {      /* the bad reference is noticed when the pattern matches */
                row_t t = want[i];
                rule_t m = ru[j];
                m.rep[0] = 0x1234; m.nr = 1; m.grp = 0;
                apply1(&m, &t);
                for (size_t q = 0; q < t.n; q++) if (t.c[q] == 0x1234) fired = 1;
            }
            apply1(ru + j, want + i);
        }
        size_t w = r_cols(want + i);
        if (w > maxw) maxw = w;
    }
    if (tmode) for (size_t i = 0; i < nl; i++) if (r_cols(in + i) == in[i].n && in[i].n > 0) {
        int blank = 1;
        for (size_t q = 0; q < in[i].n; q++) if (in[i].c[q] != ' ') blank = 0;
        if (blank) return;      /* blank lines are trimmed when read (C13) */
    }
    if (jl) {      /* every line starts where the leftmost one does */
        size_t ind = 10000, l[8];
        for (size_t i = 0; i < nl; i++) {
            l[i] = 0;
            while (l[i] < want[i].n && want[i].c[l[i]] == ' ') l[i]++;
            if (want[i].n > 0 && l[i] < ind) ind = l[i];
        }
        for (size_t i = 0; i < nl; i++) if (l[i] < want[i].n && l[i] > ind) {
            memmove(want[i].c + ind, want[i].c + l[i], (want[i].n - l[i]) * 4);
            want[i].n -= l[i] - ind;
        }
    }
    int bad = err == 1 || (err == 2 && fired);
    if (err == 2 && !fired) return;
    /* the box */
    buf_t inp = {0};
    if (rev) { b_puts(&inp, "+"); for (size_t q = 0; q < inw; q++) b_puts(&inp, "-"); b_puts(&inp, "+\n"); }
    for (size_t i = 0; i < nl; i++) {
        if (rev) b_puts(&inp, "|");
        b_row(&inp, in + i);
        if (rev) { for (size_t q = r_cols(in + i); q < inw; q++) b_puts(&inp, " "); b_puts(&inp, "|"); }
        b_puts(&inp, "\n");
    }
    if (rev) { b_puts(&inp, "+"); for (size_t q = 0; q < inw; q++) b_puts(&inp, "-"); b_puts(&inp, "+\n"); }
    char *args[] = {"-n", "UTF-8", "-f", path, "-d", "test", rev ? "-r" : jl ? "-a" : NULL, jl ? "jl" : NULL, NULL};
    run_t r = run_boxes(args, inp.s, inp.n);
    int open_, wrong = 0;
    size_t n = split_rows(r.out.s, r.out.n, "\n", got, 20, &open_);
    const char *what = "";
    if (bad) { if (r.rc == 0 || r.rc > 100) { wrong = 1; what = "an invalid rule stops the run"; } }
    else if (r.rc != 0) { wrong = 1; what = "valid rules are no error"; }
    else if (!rev) {
        size_t w = maxw < 1 ? 1 : maxw;
        if (n != nl + 2) { wrong = 1; what = "every line is drawn"; }
        for (size_t i = 0; i < n && !wrong; i++) {
            static row_t e;
            e.n = 0;
            if (i == 0 || i == n - 1) { r_cp(&e, '+'); r_fill(&e, '-', (long) w); r_cp(&e, '+'); }
            else { r_cp(&e, '|'); r_row(&e, want + i - 1); r_fill(&e, ' ', (long) w - (long) r_cols(want + i - 1)); r_cp(&e, '|'); }
            if (!r_eq(&e, got + i)) { wrong = 1; what = "rules are applied in order to every line, and the box has the width of the result"; }
        }
    }
    else {
        if (n != nl) { wrong = 1; what = "every line is kept"; }
        for (size_t i = 0; i < n && !wrong; i++) {
            r_rtrim(got + i); r_rtrim(want + i);
            if (!r_eq(want + i, got + i)) { wrong = 1; what = "reversion rules are applied in order to every line"; }
        }
    }
    if (wrong) {
        show_run(cf.s, args, inp.s, inp.n, &r);
        buf_t b = {0};
        for (size_t i = 0; i < nl; i++) { b_row(&b, want + i); b_puts(&b, "\n"); }
        fprintf(stderr, "expected lines:\n%s", b.s);
    }
    COVER("rules");
    if (what[0]) CHECK(!wrong, what);
    else CHECK(1, "rules applied");
    b_free(&cf); b_free(&inp); run_free(&r);
}
