//@title definitions of designs, whole program: which are accepted, and what is stored (bounded)
//@variants accept details line
//@src -
//@mode bounded
//@prop.accept C09
//@prop.details C18 C09
//@prop.line C05 C04
//@prop C09
//@funcs main yyparse yylex action_first_shape_line action_add_shape_line action_finalize_shapes check_sizes perform_se_check action_add_design action_padding_entry action_record_keyword action_add_regex_rule change_string_delimiters print_design_details escape build_design genshape
//@native 100000
//@secs 8
//@bound up to 3 designs per configuration file with shapes of up to 4 by 4 characters, up to 3 deviations from a well-formed design each; the real program is run in a child process
#include "e2edes.h"
#include <ctype.h>
/* a design as it is written down, and what is to become of it */
typedef struct {
    des_t d;
    int user[16];             /* named in the elastic list */
    int form[16];             /* 0 as given, 1 "()", 2 ("") */
    int dup;                  /* this shape is specified twice, or -1 */
    int nosample, noshapes, noelastic, sample2, elastic2;
    int ctl;                  /* a control character in: 1 shape, 2 tag, 3 author */
    char esc, quo;
    int ok;
    int ex[16], el[16];
    size_t H[16], W[16];
} def_t;
static const int *dsides[4] = {xtop, xrig, xbot, xlef};

static void oracle(def_t *f)
{
    const des_t *d = &f->d;
    size_t ext[4];
    int visible = 0;
    f->ok = 1;
    for (int i = 0; i < 16; i++) {
        f->ex[i] = d->s[i].given && !f->form[i];
        f->H[i] = f->W[i] = 0;
        if (f->form[i] == 2 && d->s[i].given) f->ok = 0;
        if (!f->ex[i]) continue;
        f->H[i] = d->s[i].h;
        f->W[i] = r_cols(d->s[i].row);
        for (size_t r = 1; r < d->s[i].h; r++) if (r_cols(d->s[i].row + r) != f->W[i]) f->ok = 0;
        if (!shape_blank(d->s + i)) visible = 1;
        if (i == f->dup) f->ok = 0;
    }
    if (f->ctl || f->nosample || f->noshapes || f->noelastic || f->sample2 || !visible) f->ok = 0;
    if (!f->ok) return;
    for (int k = 0; k < 4; k++) {
        ext[k] = 0;
        for (int i = 0; i < 5; i++) {
            int s = dsides[k][i];
            size_t e = k % 2 ? f->W[s] : f->H[s];
            if (!f->ex[s]) continue;
            if (ext[k] && ext[k] != e) f->ok = 0;
            ext[k] = e;
        }
        if (!ext[k]) ext[k] = 1;
    }
    if (!f->ok) return;
    static const int cn[4] = {xNW, xNE, xSW, xSE}, ch[4] = {0, 0, 2, 2}, cw[4] = {3, 1, 3, 1};
    for (int i = 0; i < 4; i++) if (!f->ex[cn[i]]) { f->ex[cn[i]] = 1; f->H[cn[i]] = ext[ch[i]]; f->W[cn[i]] = ext[cw[i]]; }
    for (int i = 0; i < 16; i++) f->el[i] = 0;
    for (int k = 0; k < 4; k++) {
        int m = dsides[k][2];
        if (f->ex[dsides[k][1]] || f->ex[m] || f->ex[dsides[k][3]]) continue;
        f->ex[m] = f->el[m] = 1;
        f->H[m] = k % 2 ? 1 : ext[k];
        f->W[m] = k % 2 ? ext[k] : 1;
    }
    for (int i = 0; i < 16; i++) {
        if (f->user[i]) f->el[i] = 1;
        if (f->el[i] && !f->ex[i]) f->ok = 0;
    }
    for (int i = 0; i < 4; i++) if (f->el[cn[i]]) f->ok = 0;
    for (int k = 0; k < 4; k++) {
        int n = 0, last = 0;
        for (int i = 1; i < 4; i++) {
            int s = dsides[k][i];
            if (!f->ex[s]) continue;
            if (f->el[s] && last) f->ok = 0;
            last = f->el[s];
            n += f->el[s];
        }
        if (n < 1 || n > 2) f->ok = 0;
    }
}
static void word(buf_t *b, const char *s)
{
    int k = in_int(0, 3);
    for (; *s; s++) { char c = (char) (k == 0 ? toupper((unsigned char) *s) : k == 1 ? (in_int(0, 1) ? toupper((unsigned char) *s) : *s) : *s); b_add(b, &c, 1); }
}
static void str(const def_t *f, buf_t *b, const row_t *r)
{
    b_add(b, &f->quo, 1);
    for (size_t k = 0; k < r->n; k++) {
        if (r->c[k] == (uint32_t) f->quo || r->c[k] == (uint32_t) f->esc || (f->esc < 'a' && r->c[k] > 0x20 && r->c[k] < 0x80 && in_int(0, 20) == 0)) b_add(b, &f->esc, 1);
        b_cp(b, r->c[k]);
    }
    b_add(b, &f->quo, 1);
}
static void cstr(const def_t *f, buf_t *b, const char *s)
{
    static row_t r;
    r.n = decode(s, strlen(s), r.c, 600);
    str(f, b, &r);
}
static void perm16(int *p) { for (int i = 0; i < 16; i++) { int j = in_int(0, i); p[i] = p[j]; p[j] = i; } }
static void b_shapes(const def_t *f, buf_t *b)
{
    const des_t *d = &f->d;
    int p[16];
    if (f->noshapes) return;
    word(b, "shapes");
    b_puts(b, in_int(0, 1) ? " {\n" : "{ ");
    perm16(p);
    if (in_int(0, 1)) for (int i = 0; i < 16; i++) p[i] = i;
    int any = 0;
    for (int i = 0; i < 16; i++) any |= d->s[i].given;
    if (!any) b_puts(b, "n()");
    for (int j = 0; j < 16; j++) {
        const shp_t *s = d->s + p[j];
        if (!s->given) continue;
        for (int t = 0; t < (f->dup == p[j] ? 2 : 1); t++) {
            b_puts(b, " ");
            word(b, xname[p[j]]);
            b_puts(b, in_int(0, 1) ? " (" : "(");
            if (f->ctl == 1 && f->form[p[j]] == 0) { b_fmt(b, "%c\x01z%c, ", f->quo, f->quo); }
            if (f->form[p[j]] == 2) str(f, b, &(row_t) {.n = 0});
            if (!f->form[p[j]]) for (size_t r = 0; r < s->h; r++) {
                if (r) b_puts(b, in_int(0, 1) ? ", " : ",\n");
                str(f, b, s->row + r);
            }
            b_puts(b, in_int(0, 5) ? ")\n" : ") # note\n");
        }
    }
    b_puts(b, "}\n");
}
static void b_elastic(const def_t *f, buf_t *b)
{
    int p[16], first = 1;
    if (f->noelastic) return;
    perm16(p);
    for (int t = 0; t <= f->elastic2; t++) {
        word(b, "elastic");
        b_puts(b, in_int(0, 1) ? " (" : "(");
        for (int j = 0; j < 16; j++) if (f->user[p[j]]) { b_puts(b, first ? "" : in_int(0, 1) ? "," : ", "); word(b, xname[p[j]]); first = 0; }
        b_puts(b, ")\n");
        first = 1;
    }
}
static void b_sample(const def_t *f, buf_t *b)
{
    for (int t = 0; t <= f->sample2 && !f->nosample; t++) { word(b, "sample"); b_fmt(b, "\n  smp-%s\n", f->d.name); b_puts(b, in_int(0, 1) ? "ends\n" : "  ENDS \n"); }
}
static void special(def_t *f)
{
    static const char sp[] = "\"\\'/#~!(){}:;,*|`";
    for (int i = 0; i < 16; i++) for (size_t r = 0; r < f->d.s[i].h; r++) {
        row_t *o = f->d.s[i].row + r;
        int in = 0;
        for (size_t k = 0; k < o->n; k++) {
            if (o->c[k] == 0x1b) in = 1;
            if (!in && o->c[k] < 0x300 && o->c[k] != ' ' && in_int(0, 5) == 0) o->c[k] = (uint32_t) sp[in_int(0, (int) sizeof sp - 2)];
            if (o->c[k] == 'm') in = 0;
        }
    }
}
static void gen_def(def_t *f, const char *name, int bends, int style)
{
    memset(f, 0, sizeof *f);
    gen_design(&f->d, style);
    f->d.name = name;
    f->dup = -1;
    f->esc = '\\'; f->quo = '"';
    if (in_int(0, 3) == 0) { f->quo = "\"~'!|/"[in_int(0, 5)]; do f->esc = "\\/%'+"[in_int(0, 4)]; while (f->esc == f->quo); }
    if (in_int(0, 1)) special(f);
    for (int i = 0; i < 16; i++) f->user[i] = f->d.s[i].el && (f->d.s[i].given || in_int(0, 1));
    while (bends-- > 0) {
        int s = in_int(0, 15);
        for (int t = 0; t < 8 && !f->d.s[s].given; t++) s = in_int(0, 15);
        shp_t *p = f->d.s + s;
        switch (in_int(0, 15)) {
            case 0: if (p->h && p->h < 4) { r_fill(p->row + p->h, 'q', (long) r_cols(p->row)); p->row[p->h].n = r_cols(p->row); p->h++; } break;
            case 1: for (size_t r = 0; r < p->h; r++) r_cp(p->row + r, 'q'); break;
            case 2: if (p->h) r_cp(p->row + in_int(0, (int) p->h - 1), 'q'); break;
            case 3: p->given = 0; p->h = 0; break;
            case 4: p->given = 0; p->h = 0; f->user[s] = 0; break;
            case 5: f->user[s] = !f->user[s]; break;
            case 6: { int q = in_int(0, 15); f->user[q] = !f->user[q]; break; }
            case 7: f->form[s] = in_int(0, 2) ? 1 : 2; break;
            case 8: f->dup = s; break;
            case 9: f->nosample = 1; break;
            case 10: f->noelastic = 1; break;
            case 11: f->sample2 = 1; break;
            case 12: f->elastic2 = 1; f->nosample = in_int(0, 1); break;
            case 13: if (in_int(0, 3) == 0) f->noshapes = 1; break;
            case 14: f->ctl = in_int(1, 3); break;
            default: {      /* make a shape blank */
                for (size_t r = 0; r < p->h; r++) { size_t c = r_cols(p->row + r); p->row[r].n = 0; r_fill(p->row + r, ' ', (long) c); }
            }
        }
    }
    int any = 0;
    for (int i = 0; i < 16; i++) any |= f->user[i];
    if (!any) f->noelastic = 1;      /* there is no empty list */
    oracle(f);
}
#ifdef V_accept
void harness(void)
{
    static def_t f[3];
    static char nm[3][8];
    int n = in_int(1, 3), nok = 0, bad = 0;
    char cf[300], lst[3][20];
    buf_t c = {0};
    for (int i = 0; i < n; i++) {
        snprintf(nm[i], 8, "d%d", i);
        gen_def(f + i, nm[i], in_int(0, 3) ? in_int(1, 3) : 0, in_int(0, 2));
        nok += f[i].ok;
        b_fmt(&c, "BOX %s\n", nm[i]);
        if (f[i].esc != '\\' || f[i].quo != '"') b_fmt(&c, "%s %c%c\n", in_int(0, 1) ? "delimiter" : "delim", f[i].esc, f[i].quo);
        if (f[i].ctl > 1) b_fmt(&c, f[i].ctl == 2 ? "tags (%ca%c, %cb\x02%c)\n" : "author %cx%c tags %c\x07%c\n", f[i].quo, f[i].quo, f[i].quo, f[i].quo);
        int o = in_int(0, 2);
        if (o == 0) b_sample(f + i, &c);
        b_shapes(f + i, &c);
        if (o == 1) b_sample(f + i, &c);
        b_elastic(f + i, &c);
        if (o == 2) b_sample(f + i, &c);
        b_fmt(&c, "END %s\n\n", nm[i]);
        snprintf(lst[i], 20, "\n%s:\n\n  smp-", nm[i]);
    }
    snprintf(cf, sizeof cf, "%s/d.cfg", scratch());
    put_file(cf, c.s, c.n);
    char *la[] = {"-f", cf, "-l", NULL};
    run_t r = run_boxes(la, "", 0);
    bad = nok ? r.rc != 0 : r.rc != 1 || r.out.n;
    for (int i = 0; i < n && !bad; i++) if (!!strstr(r.out.s, lst[i]) != f[i].ok) { fprintf(stderr, "design %s is %s\n", nm[i], f[i].ok ? "well-formed" : "not well-formed"); bad = 1; }
    if (bad) show_run(c.s, la, "", 0, &r);
    CHECK(!bad, "exactly the well-formed designs are accepted");
    run_free(&r);
    int k = in_int(0, n - 1), pos = 1;
    size_t rows = 0, cols = 0;
    char *da[] = {"-f", cf, "-d", nm[k], "-p", "a0", NULL};
    if (f[k].ok) {
        /* a text of one line, one column: only draw when the sides can be that long */
        for (int q = 0; q < 4; q++) {
            size_t t = 0;
            for (int i = 0; i < 5; i++) t += q % 2 ? f[k].H[dsides[q][i]] : f[k].W[dsides[q][i]];
            if (q % 2 ? t > rows : t > cols) *(q % 2 ? &rows : &cols) = t;
        }
        for (int i = 0; i < 16; i++) if (f[k].el[i] && (f[k].H[i] > 1 && f[k].W[i] > 1)) pos = 0;
        for (int q = 0; q < 4; q++) for (int i = 1; i < 4; i++) if (f[k].el[dsides[q][i]] && (q % 2 ? f[k].H : f[k].W)[dsides[q][i]] > 1) pos = 0;
    }
    if (pos) {
        r = run_boxes(da, "\xc3\x9f\n", 3);
        bad = f[k].ok ? r.rc != 0 || !strstr(r.out.s, "\xc3\x9f") : r.rc != 1 || r.out.n;
        if (bad) show_run(c.s, da, "\xc3\x9f\n", 3, &r);
        CHECK(!bad, "an accepted design can be used, a refused one cannot");
        run_free(&r);
    }
    b_free(&c);
}
#elif defined(V_line)
/* a design made of one text given with -c: it stands left of every line, one blank away */
void harness(void)
{
    static row_t t, in[6], want, got[20];
    buf_t a = {0}, b = {0};
    char cf[300];
    t.n = 0;
    int bad = in_int(0, 7) == 0, nl = in_int(1, 5), open, esc = in_int(0, 2);
    for (int n = in_int(1, 8); n > 0; n--) {
        int k = in_int(0, 5 + 4 * (esc == 0));
        if (k == 9) { uint32_t e[] = {0x1b, '[', '3', '1', 'm', 'x', 0x1b, '[', '0', 'm'}; for (int i = 0; i < 10; i++) r_cp(&t, e[i]); }
        else r_cp(&t, (uint32_t[]) {'#', '/', '*', ' ', 0xe4, 0x4e00, '"', '\\', 0x1f600}[k]);
    }
    if (bad) r_cp(&t, (uint32_t[]) {1, 7, 0x1f}[in_int(0, 2)]);
    ASSUME(!row_blank(&t));
    b_row(&a, &t);
    for (int i = 0; i < nl; i++) {
        in[i].n = 0;
        for (int n = in_int(0, 6); n > 0; n--) r_cp(in + i, (uint32_t[]) {'a', 'b', ' ', 0xdf, 0x4e01}[in[i].n ? in_int(0, 4) : 0]);
        b_row(&b, in + i);
        b_puts(&b, "\n");
    }
    if (in[0].n == 0) return;
    snprintf(cf, sizeof cf, "%s/empty.cfg", scratch());
    put_file(cf, "", 0);
    char *args[] = {"-f", cf, "-c", a.s, "--color", "-k", "false", NULL};
    run_t r = run_boxes(args, b.s, b.n);
    int no = 0;
    if (bad) no = r.rc != 1 || r.out.n;
    else {
        size_t n = split_rows(r.out.s, r.out.n, "\n", got, 20, &open);
        no = r.rc != 0 || n != (size_t) nl || open;
        for (size_t i = 0; i < n && !no; i++) {
            want = t;
            r_cp(&want, ' ');
            r_row(&want, in + i);
            row_t w = r_visible(&want), g = r_visible(got + i);
            r_rtrim(&w);
            r_rtrim(&g);
            if (!r_eq(&w, &g)) { no = 1; fprintf(stderr, "line %d differs\n", (int) i + 1); }
        }
    }
    if (no) show_run(NULL, args, b.s, b.n, &r);
    CHECK(!no, "the text stands left of every line");
    run_free(&r);
    b_free(&a);
    b_free(&b);
}
#else
static const char *areas[] = {"all", "horizontal", "vertical", "top", "right", "left", "bottom"};
static const int amask[] = {15, 10, 5, 1, 2, 8, 4};        /* top right bottom left */
static const char *auth[] = {"A. U. Thor", "J\xc3\xbcrgen", "x \"q\" y", "back\\slash", "o'neil", "<me@x.org>"};
void harness(void)
{
    static def_t f;
    char cf[300];
    buf_t c = {0}, w = {0}, rules[2][3] = {{{0}}};
    int style = in_int(0, 2);
    gen_def(&f, "test", in_int(0, 2) ? 0 : 1, style);
    ASSUME(f.ok);
    int na = in_int(0, 2), a = in_int(-1, 5), d = in_int(-1, 5), nr[2] = {in_int(0, 2), in_int(0, 2)}, pad[4] = {0}, nt = in_int(0, 3);
    const char *ind = in_int(0, 1) ? NULL : (char *[]) {"box", "text", "none"}[in_int(0, 2)];
    b_puts(&c, "BOX test");
    for (int i = 0; i < na; i++) b_fmt(&c, ", al-%d", i);
    b_puts(&c, "\n");
    if (f.esc != '\\' || f.quo != '"') b_fmt(&c, "delim %c%c\n", f.esc, f.quo);
    if (a >= 0) { word(&c, "author"); b_puts(&c, " "); cstr(&f, &c, auth[a]); b_puts(&c, "\n"); }
    if (d >= 0) { word(&c, "designer"); b_puts(&c, " "); cstr(&f, &c, auth[d]); b_puts(&c, "\n"); }
    if (ind) { word(&c, "indent"); b_puts(&c, " "); b_add(&c, &f.quo, 1); word(&c, ind); b_add(&c, &f.quo, 1); b_puts(&c, "\n"); }
    if (nt) { word(&c, "tags"); b_puts(&c, " ("); for (int i = 0; i < nt; i++) { if (i) b_puts(&c, ", "); char t[10]; snprintf(t, 10, "t%c-%d", 'z' - i, i); cstr(&f, &c, t); } b_puts(&c, ")\n"); }
    int po = in_int(0, 1);
    b_sample(&f, &c);
    for (int pass = 0; pass < 2; pass++) {
        if (pass == po) { b_shapes(&f, &c); b_elastic(&f, &c); continue; }
        for (int q = 0; q < 2; q++) for (int i = 0; i < nr[q]; i++) {
            char s[20], t[20];
            int once = in_int(0, 2);
            snprintf(s, 20, "s%d%s", i, (char *[]) {"", "\"", "'+", "[a/]"}[in_int(0, 3)]);
            snprintf(t, 20, "%s%d", (char *[]) {"", "\"", "'", "~!"}[in_int(0, 3)], i);
            word(&c, q ? "reverse" : "replace");
            b_puts(&c, " ");
            if (once < 2) word(&c, once ? "once" : "global");
            b_puts(&c, " ");
            cstr(&f, &c, s);
            b_puts(&c, " ");
            word(&c, q ? "to" : "with");
            b_puts(&c, " ");
            cstr(&f, &c, t);
            b_puts(&c, "\n");
            b_fmt(&rules[q][i], "(%s) \"%s\" %s \"%s\"", once == 1 ? "once" : "glob", s, q ? "TO" : "WITH", t);
        }
        if (in_int(0, 1)) {
            word(&c, "padding");
            b_puts(&c, " {");
            for (int n = in_int(1, 4); n > 0; n--) {
                int k = in_int(0, 6), v = in_int(0, 3) ? in_int(0, 12) : -in_int(1, 3);
                char s[20];
                snprintf(s, 20, "%.*s", in_int(1, (int) strlen(areas[k])), areas[k]);
                if (strcmp(s, "to") == 0) s[1] = 0;      /* a word of the grammar */
                if (in_int(0, 7) == 0) { strcat(s, "x"); k = -1; }
                b_puts(&c, " ");
                word(&c, s);
                b_fmt(&c, in_int(0, 3) || v < 0 ? " %d" : " +%d", v);
                if (v >= 0 && k >= 0) for (int i = 0; i < 4; i++) if (amask[k] >> i & 1) pad[i] = v;
            }
            b_puts(&c, " }\n");
        }
    }
    b_puts(&c, "END test\n");
    snprintf(cf, sizeof cf, "%s/d.cfg", scratch());
    put_file(cf, c.s, c.n);
    int qn = na ? in_int(0, na) : 0, und = in_int(0, 5) == 0, color = in_int(0, 1);
    char dn[10] = "test";
    if (qn) snprintf(dn, 10, "al-%d", qn - 1);

    b_puts(&w, "Complete Design Information for \"test\":\n---------------------------------------\nAlias Names:            ");
    for (int i = 0; i < na; i++) b_fmt(&w, "%sal-%d", i ? ", " : "", i);
    b_fmt(&w, "%s\nAuthor:                 %s\nOriginal Designer:      %s\nConfiguration File:     %s\n", na ? "" : "none", a >= 0 ? auth[a] : "(unknown author)", d >= 0 ? auth[d] : "(unknown artist)", cf);
    b_fmt(&w, "Indentation Mode:       %s\n", !ind || *ind == 'b' ? "box (indent box)" : *ind == 't' ? "text (retain indentation inside of box)" : "none (discard indentation)");
    for (int q = 0; q < 2; q++) {
        b_puts(&w, q ? "Reversion Rules:        " : "Replacement Rules:      ");
        if (!nr[q]) b_puts(&w, "none\n");
        for (int i = 0; i < nr[q]; i++) b_fmt(&w, "%s%d. %s\n", i ? "                        " : "", i + 1, rules[q][i].s);
    }
    size_t mw = 0, mh = 0;
    int blank[4];
    for (int q = 0; q < 4; q++) {
        size_t t = 0;
        blank[q] = 1;
        for (int i = 0; i < 5; i++) {
            int s = dsides[q][i];
            t += q % 2 ? f.H[s] : f.W[s];
            if (f.d.s[s].given && !f.form[s] && !shape_blank(f.d.s + s)) blank[q] = 0;
        }
        if (q % 2 ? t > mh : t > mw) *(q % 2 ? &mh : &mw) = t;
    }
    b_fmt(&w, "Minimum Box Dimensions: %d x %d  (width x height)\nDefault Padding:        ", (int) mw, (int) mh);
    static const int po4[4] = {3, 0, 1, 2};
    static const char *pn[4] = {"top", "right", "bottom", "left"};
    int k = 0;
    for (int i = 0; i < 4; i++) if (pad[po4[i]]) b_fmt(&w, "%s%s %d", k++ ? ", " : "", pn[po4[i]], pad[po4[i]]);
    b_fmt(&w, "%s\nDefault Killblank:      %s\nTags:                   ", k ? "" : "none", blank[0] && blank[2] ? "no" : "yes");
    for (int i = 0; i < nt; i++) b_fmt(&w, "%st%c-%d", i ? ", " : "", 'z' - i, i);
    b_fmt(&w, "%s\nElastic Shapes:         ", nt ? "" : "none");
    k = 0;
    for (int i = 0; i < 16; i++) if (f.el[i]) { b_fmt(&w, "%s%s", k++ ? ", " : "", (char *[]) {"NW", "NNW", "N", "NNE", "NE", "ENE", "E", "ESE", "SE", "SSE", "S", "SSW", "SW", "WSW", "W", "WNW"}[i]); }
    b_puts(&w, "\n");
    k = 0;
    if (und) b_puts(&w, "Sample:\n  smp-test\n\n");
    else for (int i = 0; i < 16; i++) {
        const shp_t *s = f.d.s + i;
        if (!f.ex[i] || !s->given || f.form[i] || shape_blank(s)) continue;
        for (size_t r = 0; r < s->h; r++) {
            b_fmt(&w, "%-24s%3s%c \"", !k && !r ? "Defined Shapes:" : "", r ? "" : (char *[]) {"NW", "NNW", "N", "NNE", "NE", "ENE", "E", "ESE", "SE", "SSE", "S", "SSW", "SW", "WSW", "W", "WNW"}[i], r ? ' ' : ':');
            row_t v = color ? s->row[r] : r_visible(s->row + r);
            for (size_t x = 0; x < v.n; x++) { if (v.c[x] == '"' || v.c[x] == '\\') b_puts(&w, "\\"); b_cp(&w, v.c[x]); }
            b_fmt(&w, "\"%c\n", r + 1 < s->h ? ',' : ' ');
        }
        k = 1;
    }
    char *args[] = {"-f", cf, "-l", "-d", dn, color ? "--color" : "--no-color", und ? "-x" : NULL, "(undoc)", NULL};
    run_t r = run_boxes(args, "", 0);
    int bad = r.rc != 0 || r.out.n != w.n || memcmp(r.out.s, w.s, w.n);
    if (bad) { fprintf(stderr, "expected:\n%s\n", w.s); show_run(c.s, args, "", 0, &r); }
    CHECK(!bad, "the details shown are those of the definition");
    run_free(&r);
    b_free(&c);
    b_free(&w);
}
#endif
