//@title tag queries: which designs a query selects, what is printed for them, which queries are accepted
//@variants filter print parse
//@src query.c
//@prop C11
//@nonative.print the whole program is run by e2e_config.query
//@funcs.filter filter_by_tag
//@funcs.print query_by_tag
//@funcs.parse parse_query validate_tag tag_is_valid
//@loops.filter filter_by_tag:1
//@loops.print query_by_tag:0 query_by_tag:1
//@replace.filter array_contains0=contains_c is_debug_logging=debug_c
//@replace.print sort_designs_by_name=sort_c filter_by_tag=filter_c fprintf=print_c
//@assume.filter array_contains0 by its contract (unit utils.contains0)
//@assume.print sort_designs_by_name and filter_by_tag by their contracts (units list_parts.sort, tag_query.filter)
//@mode.parse bounded
//@bound.parse queries of up to 4 terms of up to 8 characters (strtok and the regular expression engine are outside the verifier's reach)
//@noeffect log_debug log_debug_cont bx_fprintf perror
//@unwind 6
#include "common.h"
#include "texts.h"
#include "boxes.h"
#include "query.h"
#include <strings.h>
#include <ctype.h>
static size_t g_n, g_w, g_m;
static int g_all, g_any, g_i, g_k, g_num;
static char *g_qt, *g_at;
static char **g_tags;
static design_t *g_ds;
static char **g_al;
#ifdef GVC
static unsigned char *g_has, *g_sel;
#define HAS(k) (g_has[k] != 0)
#define FIRST(k) (g_qt[2 * (k)])
int contains_c(char **array, const char *s)
{
    if (array == opt.query) {
        CHECK(s[0] == '(' && s[1] == 'a' && s[2] == 'l' && s[3] == 'l' && s[4] == ')' && s[5] == 0, "the tag for all designs");
        return g_all;
    }
    CHECK(array == g_tags, "the tags of the design");
    CHECK(__CPROVER_POINTER_OBJECT(s) == __CPROVER_POINTER_OBJECT(g_qt), "a term of the query");
    size_t o = (size_t) (s - g_qt), k = o / 2;
    CHECK((o % 2 == 1) == (FIRST(k) == '+' || FIRST(k) == '-'), "the sign is not part of the tag");
    return HAS(k);
}
int debug_c(int a) { return 0; }
static design_t **g_list;
design_t **sort_c(void) { return g_list; }
/* the design in hand is designs + g_p; its name is text g_at + g_p, its aliases are g_qt + 0.. */
static design_t *g_cur;
int filter_c(char **tags) { CHECK(tags == g_cur->tags, "the tags of the design in hand"); g_k = 0; return g_sel[g_i] != 0; }
int print_c(FILE *f, const char *fmt, const char *a, const char *e)
{
    CHECK(g_sel[g_i] != 0, "only selected designs are printed");
    CHECK(f == opt.outfile && e == opt.eol, "one per line");
    CHECK(fmt[0] == '%' && fmt[1] == 's', "the name comes first");
    if (g_k == 0) CHECK(a == g_cur->name && fmt[2] == '%' && fmt[3] == 's' && fmt[4] == 0, "first its name");
    else CHECK(a == g_cur->aliases[g_k - 1] && fmt[2] == ' ' && fmt[3] == '(', "then its aliases in order");
    g_k++;
    return 0;
}
#endif
#define POS(k) (FIRST(k) == '+' || (FIRST(k) != '-' && HAS(k)))
#define LOOP_filter_by_tag_1 vc_inv(1, qidx <= g_n && ALL(k_, 0, qidx, (FIRST(k_) != '+' || HAS(k_)) && (FIRST(k_) != '-' || !HAS(k_))) \
    && (g_any == 0 || g_any == 1) && (result != 0) == (g_all != 0 || g_any != 0) && (g_any != 0 || ALL(k_, 0, qidx, !POS(k_))) && (g_any == 0 || (g_w < qidx && POS(g_w))))
#define BODY_filter_by_tag_1 ASSUME(opt.query[qidx] == g_qt + 2 * qidx); if (POS(qidx)) { g_any = 1; g_w = qidx; }
#define LOOP_query_by_tag_0 vc_inv(0, i >= 0 && i <= g_num && (i == 0 || g_k == (g_sel[i - 1] != 0 ? (int) g_m + 1 : 0)))
#define BODY_query_by_tag_0 g_i = i; ASSUME(list[i] == g_ds + i); g_cur = g_ds + i; ASSUME(g_cur->aliases == g_al)
#define LOOP_query_by_tag_1 vc_inv(1, aidx <= g_m && g_k == (int) aidx + 1)
#include VC_SRC
#ifdef GVC
opt_t opt; input_t input; int num_designs; design_t *designs; int color_output_enabled;
#else
/* the reference for queries: the documented syntax */
static int okchar(int c) { return (c >= 'a' && c <= 'z') || (c >= '0' && c <= '9') || c == '-'; }
static int oktag(const char *t)
{
    size_t n = strlen(t);
    if (strcmp(t, "(all)") == 0) return 1;
    if (n == 0 || !(t[0] >= 'a' && t[0] <= 'z') || t[n - 1] == '-' || strstr(t, "--") || strncmp(t, "none", 4) == 0) return 0;
    for (size_t i = 0; i < n; i++) if (!okchar((unsigned char) t[i])) return 0;
    return 1;
}
static void parse_check(void)
{
    static const char *w[] = {"a", "b", "tag", "ta-g", "a1", "x--y", "(all)", "A", "tag-", "none", "", " ", "nonet", "b2", "-", "+", "1a", "a_b", "a\n", "b2\n", "a\nb"};
    char q[400] = "", *terms[8];
    int n = in_int(1, 5), cnt = 0, bad = 0, pos = 0;
    for (int i = 0; i < n; i++) {
        char t[80];
        const char *word = w[in_int(0, 3) ? in_int(0, 6) : in_int(0, 20)], *sign = in_int(0, 1) ? "" : in_int(0, 1) ? "+" : "-";
        sprintf(t, "%s%s", sign, word);
        if (i) strcat(q, ",");
        if (in_int(0, 4) == 0) strcat(q, in_int(0, 1) ? " " : "\t");
        strcat(q, t);
        if (in_int(0, 4) == 0) strcat(q, "  ");
        char *s = strdup(t), *e;
        while (*s == ' ' || *s == '\t') s++;
        e = s + strlen(s);
        while (e > s && (e[-1] == ' ' || e[-1] == '\t')) *--e = 0;
        if (*s == 0 || bad) continue;
        /* the first character is the sign */
        const char *raw = *s == '+' || *s == '-' ? s + 1 : s;
        if (!oktag(raw)) { bad = 1; continue; }
        for (int k = 0; k < cnt; k++) { const char *o = terms[k]; if (*o == '+' || *o == '-') o++; if (strcasecmp(o, raw) == 0) bad = 1; }
        if (*s != '-') pos = 1;
        terms[cnt++] = s;
    }
    char **r = parse_query(q);
    COVER("parse");
    CHECK((r == NULL) == (bad || cnt == 0), "refused exactly for invalid, duplicate or no tags");
    if (r) {
        int k = 0;
        for (; k < cnt; k++) CHECK(r[k] && strcmp(r[k], terms[k]) == 0, "the terms in order");
        if (!pos) { CHECK(r[k] && strcmp(r[k], "(all)") == 0, "excluding alone means all others"); k++; }
        CHECK(r[k] == NULL, "and nothing else");
    }
}
#endif

void harness(void)
{
#if defined(V_filter)
#ifdef GVC
    size_t n = in_size(0, 1UL << 20);
    vc_havoc_obj(&opt);
    g_n = n; g_any = 0;
    char **q = malloc((n + 1) * sizeof(char *));
    g_qt = malloc(2 * n + 2); g_has = malloc(n + 1); g_tags = malloc(8); g_tags[0] = NULL;
    ASSUME(ALL(k_, 0, n, q[k_] != NULL));
    q[n] = NULL;
    opt.query = q;
    g_all = in_int(0, 1);
    int r = filter_by_tag(g_tags);
    COVER("filter");
    int plus = ALL(k_, 0, n, FIRST(k_) != '+' || HAS(k_)), minus = ALL(k_, 0, n, FIRST(k_) != '-' || !HAS(k_)), some = !ALL(k_, 0, n, !POS(k_));
#else
    static char *w[] = {"a", "b", "c", "(all)", "+a", "-a", "+b", "-b", "+c", "A", "-(all)"}, *tg[] = {"a", "b", "c", "A", "(none)"};
    char *q[6] = {NULL}, *tags[4] = {NULL};
    size_t n = in_size(0, 4), m = in_size(0, 3);
    for (size_t k = 0; k < n; k++) q[k] = w[in_int(0, 10)];
    for (size_t k = 0; k < m; k++) tags[k] = tg[in_int(0, 4)];
    opt.query = q;
    int r = filter_by_tag(tags), plus = 1, minus = 1, some = 0, g_all = 0;
    COVER("filter");
    for (size_t k = 0; k < n; k++) {
        int has = 0;
        for (size_t j = 0; j < m; j++) has |= strcasecmp(tags[j], q[k] + (*q[k] == '+' || *q[k] == '-')) == 0;
        if (*q[k] == '+') { plus &= has; some = 1; }
        else if (*q[k] == '-') minus &= !has;
        else some |= has;
        g_all |= strcmp(q[k], "(all)") == 0;
    }
    opt.query = NULL;
#endif
    CHECK((r != 0) == (plus && minus && (some || g_all)), "selected exactly if no excluded tag, every required tag and one of the others or all are there");
#elif defined(V_print)
#ifdef GVC
    vc_havoc_obj(&opt);
    int n = in_int(0, 1000000);
    g_num = num_designs = n;
    g_list = malloc(((size_t) n + 1) * sizeof(design_t *));
    g_sel = malloc((size_t) n + 1);
    g_ds = malloc(((size_t) n + 1) * sizeof(design_t));
    g_m = in_size(0, 1UL << 30);
    g_al = malloc((g_m + 1) * sizeof(char *));
    ASSUME(ALL(k_, 0, g_m, g_al[k_] != NULL));
    g_al[g_m] = NULL;
    int r = query_by_tag();
    COVER("print");
    CHECK(r == 0 && (n == 0 || g_k == (g_sel[n - 1] != 0 ? (int) g_m + 1 : 0)), "every selected design is printed with all its names");
#endif
#else
#ifndef GVC
    parse_check();
#endif
#endif
}
