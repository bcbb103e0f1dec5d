//@title selecting and listing designs, whole program: names, aliases, parents, tags, list order (bounded)
//@variants names query list
//@src -
//@mode bounded
//@prop.names C10
//@prop.query C11 C18 C10
//@prop.list C18 C10
//@prop C10
//@funcs main parse_config_files yyparse action_add_alias action_add_design query_by_tag parse_query filter_by_tag list_designs
//@native 100000
//@secs 6
//@bound up to 3 configuration files with up to 4 designs each, up to 2 aliases and 3 tags per design, queries of up to 4 terms; the real program is run in a child process
#include "e2e.h"
#include <strings.h>
#include <ctype.h>
typedef struct { char nm[3][12]; int na; char tag[3][12]; int nt; uint32_t ch; int bad; } de_t;      /* nm[0] = name, then aliases */
static de_t de[3][4];
static int nd[3], nf;
static const char *pool[] = {"alpha", "beta", "b", "gamma-1", "Delta_2", "eps", "zeta", "eta"};
static const char *tags[] = {"box", "comment", "fun", "a1", "x-y"};
static void rcase(char *o, const char *s)
{
    int k = in_int(0, 2);
    for (; *s; s++) *o++ = (char) (k == 0 ? *s : k == 1 ? toupper((unsigned char) *s) : in_int(0, 1) ? toupper((unsigned char) *s) : tolower((unsigned char) *s));
    *o = 0;
}
typedef struct { de_t *d; char al[3][12]; int na; } acc_t;
static acc_t acc[12];
static int nacc;
static int has(de_t *d, const char *n) { for (int i = 0; i <= d->na; i++) if (strcasecmp(d->nm[i], n) == 0) return 1; return 0; }
static int hasacc(acc_t *a, const char *n, int aliases_only)
{
    if (!aliases_only && strcasecmp(a->d->nm[0], n) == 0) return 1;
    for (int i = 0; i < a->na; i++) if (strcasecmp(a->al[i], n) == 0) return 1;
    return 0;
}
static int cmpacc(const void *a, const void *b) { return strcasecmp(((const acc_t *) a)->d->nm[0], ((const acc_t *) b)->d->nm[0]); }
static int hastag(de_t *d, const char *t) { for (int i = 0; i < d->nt; i++) if (strcasecmp(d->tag[i], t) == 0) return 1; return 0; }

void harness(void)
{
    char cf[3][300], arg[8][100], *args[20];
    buf_t conf[3] = {{0}};
    nf = in_int(0, 2) ? 1 : in_int(2, 3);
    int cyc = nf > 1 && in_int(0, 3) == 0, withbad = in_int(0, 3) == 0;
    uint32_t ch = 'A';
    for (int f = 0; f < 3; f++) snprintf(cf[f], 300, "%s/c%d.cfg", scratch(), f);
    for (int f = 0; f < nf; f++) {
        int pos = in_int(0, 1);
        if (f + 1 < nf && !pos) b_fmt(conf + f, "parent %s\n", cf[f + 1]);
        nd[f] = in_int(1, 4);
        for (int i = 0; i < nd[f]; i++) {
            de_t *d = &de[f][i];
            d->na = in_int(0, 2) ? in_int(0, 2) : 0;
            for (int k = 0; k <= d->na; k++) {
                const char *w = pool[in_int(0, 7)];
                int again = 0;
                for (int q = 0; q < k; q++) if (strcasecmp(d->nm[q], w) == 0) again = 1;
                if (again) { d->na = k - 1; break; }
                rcase(d->nm[k], w);
            }
            d->bad = withbad ? in_int(0, 5) : 0;      /* 1 = name, 2 = alias with forbidden characters, 3 = other name at the end */
            d->nt = 0;
            for (int k = in_int(0, 3); k > 0; k--) {
                const char *w = tags[in_int(0, 4)];
                if (!hastag(d, w)) strcpy(d->tag[d->nt++], w);
            }
            d->ch = ch++;
            b_fmt(conf + f, "BOX %s%s", d->bad == 1 ? "n\xc3\xa4" : "", d->nm[0]);
            for (int k = 1; k <= d->na; k++) b_fmt(conf + f, ", %s", d->nm[k]);
            if (d->bad == 2) b_puts(conf + f, ", x\xc3\xa4x");
            b_fmt(conf + f, "\nauthor \"me %c\"\n", (int) d->ch);
            if (d->nt) {
                int form = in_int(0, 2);
                b_puts(conf + f, form ? "tags (" : "tags \"");
                for (int k = 0; k < d->nt; k++) {
                    if (form) b_fmt(conf + f, "%s\"%s\"", k ? ", " : "", d->tag[k]); else b_fmt(conf + f, "%s%s", k ? ", " : "", d->tag[k]);
                    if (form == 2 && in_int(0, 3) == 0) b_fmt(conf + f, ", \"%s\"", in_int(0, 1) ? d->tag[in_int(0, k)] : in_int(0, 1) ? "UPPER" : "with blank");      /* refused: duplicate, invalid */
                }
                b_puts(conf + f, form ? ")\n" : "\"\n");
            }
            b_fmt(conf + f, "sample\n  sample %c\nends\nshapes { w (\"%c\") }\nelastic (w, n, e, s)\nEND %s%s\n\n", (int) d->ch, (int) d->ch, d->nm[0], d->bad == 3 ? "x" : "");
        }
        if (f + 1 < nf && pos) b_fmt(conf + f, "parent %s\n", cf[f + 1]);
        if (f > 0 && cyc) b_fmt(conf + f, "parent %s\n", cf[in_int(0, f)]);
        put_file(cf[f], conf[f].s, conf[f].n);
    }
    /* a cycle leads to files that were already read: their designs are known */
    int na = 0, bad = 0;
    args[na++] = "-f"; args[na++] = cf[0];
#if defined(V_names)
    /* the first design in reading order which has the name, designs that are refused do not count */
    rcase(arg[0], pool[in_int(0, 7)]);
    int r0 = in_int(0, 7);
    if (r0 == 0) strcpy(arg[0], "nosuch");
    if (r0 == 1) arg[0][strlen(arg[0]) - 1] = 0;      /* part of a name is no name (or another name) */
    args[na++] = "-d"; args[na++] = arg[0]; args[na] = NULL;
    de_t *hit = NULL;
    for (int f = 0; f < nf && !hit; f++) for (int i = 0; i < nd[f] && !hit; i++) {
        de_t *d = &de[f][i];
        if (d->bad >= 1 && d->bad <= 3) continue;
        if (has(d, arg[0])) hit = d;
    }
    run_t r = run_boxes(args, "12\n", 3);
    char want[20];
    if (hit) snprintf(want, sizeof want, "%c12\n", (int) hit->ch);
    bad = hit ? r.rc != 0 || strcmp(r.out.s, want) : arg[0][0] && (r.rc == 0 || r.rc > 100 || r.out.n || !strstr(r.err.s, "unknown box design"));
    if (bad) fprintf(stderr, "expected: %s\n", hit ? want : "an error");
    if (bad) { for (int f = 1; f < nf; f++) fprintf(stderr, "%s:\n%s", cf[f], conf[f].s); show_run(conf[0].s, args, "12\n", 3, &r); }
    CHECK(!bad, "the design is the first one with this name or alias");
#else
    nacc = 0;
    for (int f = 0; f < nf; f++) {
        int first = nacc;
        acc_t mine[4];
        int nm = 0;
        for (int i = 0; i < nd[f]; i++) {
            de_t *d = &de[f][i];
            int ok = d->bad < 1 || d->bad > 3;
            for (int k = 0; k <= d->na && ok; k++) for (int q = 0; q < nm; q++) if (hasacc(mine + q, d->nm[k], 0)) ok = 0;
            if (!ok) continue;
            acc_t *a = mine + nm;
            a->d = d;
            a->na = 0;
            for (int k = 1; k <= d->na; k++) {
                int child = 0;
                for (int q = 0; q < first; q++) if (hasacc(acc + q, d->nm[k], 1)) child = 1;
                if (!child) strcpy(a->al[a->na++], d->nm[k]);
            }
            nm++;
        }
        for (int q = 0; q < nm; q++) {
            int known = 0;
            for (int p = 0; p < first; p++) if (strcasecmp(acc[p].d->nm[0], mine[q].d->nm[0]) == 0) known = 1;
            if (!known) acc[nacc++] = mine[q];
        }
    }
    /* two of a file can only share a name by case; names are unique now */
    qsort(acc, (size_t) nacc, sizeof *acc, cmpacc);
    buf_t want = {0};
    if (nacc == 0) goto out;
#if defined(V_query)
    char q[100] = "";
    struct { int sign; char t[12]; } te[4];
    int nt = in_int(1, 4), npos = 0, err = 0, plus = 0;
    for (int i = 0; i < nt; i++) {
        te[i].sign = "n+-"[in_int(0, 2)];
        int k = in_int(0, 11);
        if (k == 0) strcpy(te[i].t, "(all)");
        else if (k == 1) strcpy(te[i].t, "-x");
        else if (k == 2) strcpy(te[i].t, "ABC");
        else strcpy(te[i].t, tags[in_int(0, 4)]);
        if (k == 1 || k == 2 || (te[i].sign != 'n' && k == 0)) err |= k != 0;
        if (te[i].sign != '-') npos = 1;
        if (te[i].sign == '+') plus = 1;
        for (int p = 0; p < i; p++) if (strcasecmp(te[p].t, te[i].t) == 0) err = 1;
        if (te[i].sign == 'n' && k == 1) { err = 0; nt = i + 1; strcpy(te[i].t, "x-y"); te[i].sign = '-'; npos = npos && i > 0 ? npos : 0; for (int p = 0; p < i; p++) if (strcmp(te[p].t, "x-y") == 0) err = 1; npos = 0; for (int p = 0; p < i; p++) npos |= te[p].sign != '-'; }
        snprintf(q + strlen(q), 40, "%s%s%s%s%s", i ? "," : "", in_int(0, 5) ? "" : " ", te[i].sign == 'n' ? "" : te[i].sign == '+' ? "+" : "-", te[i].t, in_int(0, 5) ? "" : " ");
        if (err) nt = i + 1;
        if (in_int(0, 9) == 0) strcat(q, ",");
    }
    for (int i = 0; i < nt; i++) if (te[i].sign != 'n' && strcmp(te[i].t, "(all)") == 0) goto out;      /* not documented */
    if (in_int(0, 30) == 0) { strcpy(q, in_int(0, 1) ? " , " : ","); err = 1; }
    args[na++] = "-q"; args[na++] = q; args[na] = NULL;
    if (!err) for (int i = 0; i < nacc; i++) {
        de_t *d = acc[i].d;
        int ok = 1, any = !npos;
        for (int k = 0; k < nt; k++) {
            if (te[k].sign == '+' && !hastag(d, te[k].t)) ok = 0;
            if (te[k].sign == '-' && hastag(d, te[k].t)) ok = 0;
            if (te[k].sign == '+' || (te[k].sign == 'n' && (hastag(d, te[k].t) || strcmp(te[k].t, "(all)") == 0))) any = 1;
        }
        if (!ok || !any) continue;
        b_fmt(&want, "%s\n", d->nm[0]);
        for (int k = 0; k < acc[i].na; k++) b_fmt(&want, "%s (alias)\n", acc[i].al[k]);
    }
    (void) plus;
    run_t r = run_boxes(args, "", 0);
    bad = err ? r.rc == 0 || r.rc > 100 || r.out.n : r.rc != 0 || r.out.n != want.n || (want.n && strcmp(r.out.s, want.s));
    if (bad) fprintf(stderr, "expected: %s\n%s", err ? "an error" : "", want.s ? want.s : "");
    if (bad) { for (int f = 1; f < nf; f++) fprintf(stderr, "%s:\n%s", cf[f], conf[f].s); show_run(conf[0].s, args, "", 0, &r); }
    CHECK(!bad, "the query selects exactly the designs its terms describe, once each, in name order");
#else
    args[na++] = "-l"; args[na] = NULL;
    run_t r = run_boxes(args, "", 0);
    /* the list proper comes after the header's blank line */
    for (int i = 0; i < nacc; i++) {
        b_fmt(&want, "%s%s", acc[i].d->nm[0], acc[i].na ? " alias " : "");
        for (int k = 0; k < acc[i].na; k++) b_fmt(&want, "%s%s", k ? ", " : "", acc[i].al[k]);
        b_fmt(&want, "\nunknown artist, coded by me %c:\n\n  sample %c\n\n\n", (int) acc[i].d->ch, (int) acc[i].d->ch);
    }
    int first = 1;
    for (int k = 0; k < 5; k++) {      /* in alphabetical order: a1 box comment fun x-y */
        static const int order[5] = {3, 0, 1, 2, 4};
        int c = 0;
        for (int i = 0; i < nacc; i++) c += hastag(acc[i].d, tags[order[k]]);
        if (c) { b_fmt(&want, "%s%s (%d)", first ? "" : " | ", tags[order[k]], c); first = 0; }
    }
    if (!first) b_puts(&want, "\n");
    char head[30];
    snprintf(head, sizeof head, "%d Available Style%s", nacc, nacc == 1 ? "" : "s");
    bad = r.rc != 0 || r.out.n < want.n || strcmp(r.out.s + r.out.n - want.n, want.s) || strncmp(r.out.s, head, strlen(head));
    if (!bad) {      /* nothing else in between */
        char *e = r.out.s + r.out.n - want.n;
        *e = 0;
        int blank = 0;
        for (char *p = strtok(r.out.s, "\n"); p; p = strtok(NULL, "\n")) if (strncmp(p, head, strlen(head)) && strspn(p, "-") != strlen(p) && strncmp(p, "    - ", 6) && strcmp(p, "Configuration Files:")) blank = 1;
        if (blank) bad = 1;
    }
    if (bad) fprintf(stderr, "expected: %s\n", want.s);
    if (bad) { for (int f = 1; f < nf; f++) fprintf(stderr, "%s:\n%s", cf[f], conf[f].s); show_run(conf[0].s, args, "", 0, &r); }
    CHECK(!bad, "the list has every design once, in name order, with its own aliases and data, and counts every tag");
#endif
    run_free(&r);
out:
    b_free(&want);
#endif
    for (int f = 0; f < 3; f++) b_free(conf + f);
}
