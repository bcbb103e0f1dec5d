//@title listings: order, names, tag counts, escaping of shape texts
//@variants sort style tagsort count escape names
//@src list.c
//@link unicode.c
//@prop C18
//@prop.sort C18 C11
//@funcs.sort sort_designs_by_name
//@funcs.style style_sort
//@funcs.tagsort tagstats_sort
//@funcs.count count_tag
//@funcs.escape escape
//@funcs.names names analyze_names
//@loops.sort sort_designs_by_name:0
//@loops.count count_tag:0
//@loops.escape escape:0
//@loops.names analyze_names:0 names:0
//@replace.names strlen=slen_c strcpy=scopy_c
//@assume.names strlen, strcpy as documented in C; all names together shorter than 2^40; prefix sums of lengths are monotone
//@replace.sort qsort=qsort_c
//@replace.style strcasecmp=strcasecmp_o
//@replace.tagsort strcasecmp=strcasecmp_o
//@replace.escape bxs_is_visible_char=visible_c bxs_from_unicode=from_c
//@assume.sort qsort sorts by the comparison function
//@assume.escape bxs_is_visible_char and bxs_from_unicode by their contracts (units bxs_query.isvis, bxs_from_unicode)
//@noeffect log_debug log_debug_cont is_debug_logging bx_fprintf perror
#include "common.h"
#include "texts.h"
#include "boxes.h"
#include "list.h"
#include <strings.h>
static char *g_txt, *g_name;
static size_t g_n, g_w, g_t, g_p, g_p1, g_len, g_done;
static uint32_t *g_mem;
static char *g_tj; static size_t g_cj;
static design_t *g_da, *g_db;
static int g_r;
static bxstr_t *g_org;
#ifdef GVC
static size_t *g_ln, *g_ps, g_nl, g_pos, g_k;
static int g_last;
size_t slen_c(const char *s)
{
    if (s == g_name) return g_nl;
    CHECK(__CPROVER_POINTER_OBJECT(s) == __CPROVER_POINTER_OBJECT(g_txt) && s - g_txt < (long) g_n, "the length of the name or an alias");
    return g_ln[s - g_txt];
}
#define TOTAL (g_n ? g_ps[g_n] - 2 : g_nl)
char *scopy_c(char *d, const char *s)
{
    size_t l;
    if (s == g_name) { CHECK(g_last == 0, "the name comes first"); g_last = 1; l = g_nl; }
    else if (__CPROVER_POINTER_OBJECT(s) == __CPROVER_POINTER_OBJECT(g_txt)) {
        CHECK(s - g_txt == (long) g_k && g_k < g_n && g_last == (g_k ? 4 : 2), "every alias once, in order");
        l = g_ln[s - g_txt];
        g_last = 3; g_k++;
    }
    else if (g_last == 1) {
        CHECK(s[0] == ' ' && s[1] == 'a' && s[2] == 'l' && s[3] == 'i' && s[4] == 'a' && s[5] == 's' && s[6] == ' ' && s[7] == 0, "then the word alias");
        g_last = 2; l = 7;
    }
    else {
        CHECK(g_last == 3 && s[0] == ',' && s[1] == ' ' && s[2] == 0, "aliases are separated by commas");
        g_last = 4; l = 2;
    }
    CHECK(__CPROVER_POINTER_OFFSET(d) == g_pos, "right behind the part before");
    if (g_n) {      /* instances of what is known of the sums */
        CHECK(g_ps[g_n] == g_ps[g_n - 1] + g_ln[g_n - 1] + 2, "last alias");
        if (g_k) CHECK(g_ps[g_k] == g_ps[g_k - 1] + g_ln[g_k - 1] + 2 && g_ps[g_k] <= g_ps[g_n], "this alias");
        if (g_k < g_n) CHECK(g_ps[g_k] <= g_ps[g_n - 1], "another alias");
    }
    CHECK(g_pos + l < __CPROVER_OBJECT_SIZE(d), "the part and its terminator fit");
    g_pos += l;
    return d;
}
#ifdef V_names
#define LOOP_analyze_names_0 vc_inv(0, num_aliases <= g_n && siz == (num_aliases ? g_ps[num_aliases] - 9 : g_nl))
#define LOOP_names_0 vc_inv(0, aidx <= g_n && g_k == aidx && p == result + g_pos && g_pos == (aidx == g_n ? TOTAL : g_ps[aidx]) && g_last == (aidx == 0 ? 2 : aidx == g_n ? 3 : 4))
#endif
static unsigned char *g_same, *g_vis;
#define SAMEK(k) (g_same[k] != 0)
#define TXT(k) (g_txt + (k))
int strcasecmp(const char *a, const char *b)
{
    CHECK((a == g_name) != (b == g_name), "compared with the tag to be counted");
    const char *o = a == g_name ? b : a;
    CHECK(__CPROVER_POINTER_OBJECT(o) == __CPROVER_POINTER_OBJECT(g_txt), "a tag counted so far");
    size_t k = (size_t) (o - g_txt);
    int r = nondet_int();
    ASSUME((r == 0) == SAMEK(k));
    return r;
}
int strcasecmp_o(const char *a, const char *b) { CHECK(a == TXT(0) && b == TXT(1), "the names in the order given"); return g_r; }
void qsort_c(void *base, size_t n, size_t size, int (*cmp)(const void *, const void *))
{
    design_t **r = base;
    CHECK(n == g_n && size == sizeof(design_t *), "all designs are sorted");
    CHECK(ALL(k_, 0, g_n, r[k_] == designs + k_), "every design exactly once");
    g_done = 1;
}
#define VIS(k) (g_vis[k] != 0)
int visible_c(bxstr_t *s, size_t idx) { CHECK(s == g_org && idx < g_n, "a character of the text"); return VIS(idx); }
static uint32_t *g_out; static size_t g_res; static bxstr_t g_back;
#define ESC(k) ((g_mem[k] == '\\' || g_mem[k] == '"') && VIS(k) ? 1UL : 0UL)
bxstr_t *from_c(uint32_t *p)
{
    if (g_n) {
        CHECK(p[g_p] == g_mem[g_t], "every character is kept");
        CHECK(IMPLIES(ESC(g_t), g_p > 0 && p[g_p - 1] == '\\'), "backslashes and quotes follow a backslash");
        CHECK(IMPLIES(g_t == 0, g_p == ESC(0)), "the text begins at the beginning");
        if (g_t + 1 < g_n) CHECK(g_p1 == g_p + 1 + ESC(g_t + 1), "nothing else is inserted");
        else CHECK(p[g_p + 1] == 0, "and it ends after the last character");
    }
    else CHECK(p[0] == 0, "an empty text stays empty");
    return &g_back;
}
#else
#define VIS(k) 0
static char *g_nm[8];
static char *rndname(void)
{
    static char *w[] = {"a", "A", "box", "Box", "boxx", "b", "my-box", "My-Box", "c1", "abcdefghijkl", "z"};
    return strdup(w[in_int(0, 10)]);
}
#define SAMEK(k) (strcasecmp(g_nm[k], g_name) == 0)
#endif
#define LOOP_sort_designs_by_name_0 vc_w(0, result), vc_inv(0, i >= 0 && (size_t) i <= g_n && ALL(k_, 0, (size_t) i, result[k_] == designs + k_))
#define LOOP_count_tag_0 vc_w(0, *tagstats), vc_inv(0, i <= g_n && ALL(k_, 0, i, !SAMEK(k_)) && (g_n == 0 || ((*tagstats)[g_t].tag == g_tj && (*tagstats)[g_t].count == g_cj)))
#define BODY_count_tag_0 ASSUME((*tagstats)[i].tag == TXT(i)); g_w = i; ASSUME((*tagstats)[i].count < (1UL << 60))
#define LOOP_escape_0 vc_w(0, temp), vc_inv(0, orgIdx <= g_n && resultIdx >= orgIdx && resultIdx <= 2 * orgIdx && (orgIdx > 0 || resultIdx == 0) \
    && (orgIdx <= g_t || (g_p < resultIdx && temp[g_p] == g_mem[g_t] && (ESC(g_t) == 0 || (g_p > 0 && temp[g_p - 1] == '\\')) && (g_t > 0 || g_p == ESC(0)))) \
    && (orgIdx != g_t + 1 || resultIdx == g_p + 1) && (orgIdx <= g_t + 1 || g_p1 == g_p + 1 + ESC(g_t + 1)))
#define BODY_escape_0 if (orgIdx == g_t) g_p = resultIdx + ESC(orgIdx); if (orgIdx == g_t + 1) g_p1 = resultIdx + ESC(orgIdx)
#include VC_SRC
#ifdef GVC
opt_t opt; input_t input; int num_designs; design_t *designs; int color_output_enabled;
#endif

void harness(void)
{
#if defined(V_sort)
#ifdef GVC
    int n = in_int(0, 1 << 20);
#else
    int n = in_int(0, 6);
#endif
    g_n = (size_t) n;
    design_t *d = malloc((g_n + 1) * sizeof(design_t));
#ifndef GVC
    for (int k = 0; k < n; k++) d[k].name = rndname();
#endif
    designs = d; num_designs = n;
    design_t **r = sort_designs_by_name();
    COVER("sort");
#ifdef GVC
    CHECK(r == NULL || g_done == 1, "the list is sorted");
#else
    int seen[8] = {0};
    for (int k = 0; k < n; k++) { int q = (int) (r[k] - d); CHECK(q >= 0 && q < n && !seen[q], "every design exactly once"); seen[q] = 1; CHECK(k == 0 || strcasecmp(r[k - 1]->name, r[k]->name) <= 0, "in the order of their names"); }
#endif
#elif defined(V_style) || defined(V_tagsort)
#ifdef GVC
    g_txt = malloc(2);
    g_r = in_int(-1000, 1000);
    char *a = TXT(0), *b = TXT(1);
#else
    char *a = rndname(), *b = rndname();
    int g_r = strcasecmp(a, b);
#endif
#ifdef V_style
    design_t x, y, *px = &x, *py = &y;
    x.name = a; y.name = b;
    int r = style_sort(&px, &py);
    COVER("style");
#else
    tagstats_t x, y;
    x.tag = a; y.tag = b;
    int r = tagstats_sort(&x, &y);
    COVER("tagsort");
#endif
    CHECK((r < 0) == (g_r < 0) && (r == 0) == (g_r == 0), "ordered by name, ignoring case");
#elif defined(V_count)
#ifdef GVC
    size_t n = in_size(0, 1UL << 20);
    g_same = malloc(n + 1); g_txt = malloc(n + 1); g_name = malloc(1);
#else
    size_t n = in_size(0, 5);
    g_name = rndname();
#endif
    g_n = n;
    tagstats_t *ts = n ? malloc(n * sizeof(tagstats_t)) : NULL;
#ifndef GVC
    for (size_t k = 0; k < n; k++) {
        ts[k].tag = g_nm[k] = rndname(); ts[k].count = in_size(0, 9);
        for (size_t q = 0; q < k; q++) ASSUME(strcasecmp(g_nm[q], g_nm[k]) != 0);
    }
#endif
    size_t num = n, j = in_size(0, 1UL << 20);
#ifndef GVC
    j %= 6;
#endif
    ASSUME(n == 0 || j < n);
    size_t cj = n ? ts[j].count : 0; char *tj = n ? ts[j].tag : NULL;
    g_w = 0; g_t = j; g_tj = tj; g_cj = cj;
    count_tag(g_name, &ts, &num);
    COVER("count");
    int known = n > 0 && !ALL(k_, 0, n, !SAMEK(k_));
    if (num == n) {
        CHECK(known, "a new tag is added");
        CHECK(ts[j].tag == tj, "tags are kept");
#ifdef GVC
        CHECK(g_w < n && SAMEK(g_w) && ts[j].count == cj + (j == g_w ? 1 : 0), "exactly the count of this tag is raised");
#else
        CHECK(ts[j].count == cj + (SAMEK(j) ? 1 : 0), "exactly the count of this tag is raised");
#endif
    }
    else {
        CHECK(num == n + 1 && !known, "a known tag is not added again");
        CHECK(ts[n].tag == g_name && ts[n].count == 1, "a new tag is counted once");
        if (n) CHECK(ts[j].tag == tj && ts[j].count == cj, "the others stay as they are");
    }
#elif defined(V_escape)
#ifdef GVC
    size_t n = in_size(0, 1UL << 28);
    bxstr_t s;
    g_mem = malloc((n + 1) * 4); g_vis = malloc(n + 1);
    s.memory = g_mem; s.num_chars = n;
    g_org = &s; g_n = n;
    g_t = in_size(0, 1UL << 28);
    ASSUME(n == 0 || g_t < n);
    bxstr_t *r = escape(&s);
    COVER("escape");
    CHECK(r == &g_back, "the escaped text is the result");
#else
    encoding = "UTF-8";
    uint32_t m[24];
    size_t n = in_size(0, 20);
    for (size_t k = 0; k < n; k++) m[k] = in_int(0, 2) ? (uint32_t) "ab\\\"\\ x\"" [in_int(0, 7)] : in_u32(0x21, 0x17f);
    m[n] = 0;
    for (size_t k = 0; k < n; k++) if (m[k] >= 0x7f && m[k] < 0xa0) m[k] = 'y';
    bxstr_t *s = bxs_from_unicode(m), *r = escape(s);
    COVER("escape");
    size_t o = 0;
    for (size_t k = 0; k < n; k++) {
        if (m[k] == '\\' || m[k] == '"') { CHECK(r->memory[o] == '\\', "backslashes and quotes follow a backslash"); o++; }
        CHECK(r->memory[o] == m[k], "every character is kept"); o++;
    }
    CHECK(r->memory[o] == 0 && r->num_chars == o, "and nothing else");
#endif
#else
#ifdef GVC
    design_t d;
    g_n = in_size(0, 1UL << 30); g_nl = in_size(0, 1UL << 38);
    g_txt = malloc(g_n); g_name = malloc(1);
    g_ln = in_sizearr(g_n + 1); g_ps = in_sizearr(g_n + 1);
    char **al = malloc((g_n + 1) * sizeof(char *));
    ASSUME(ALL(q_, 0, g_n, al[q_] == g_txt + q_) && al[g_n] == NULL);
    ASSUME(g_ps[0] == g_nl + 7 && ALL(q_, 0, g_n, g_ln[q_] < (1UL << 39) && g_ps[q_ + 1] == g_ps[q_] + g_ln[q_] + 2));
    ASSUME(ALL(q_, 0, g_n + 1, g_ps[q_] <= g_ps[g_n] && g_ps[q_] >= g_ps[0]) && IMPLIES(g_n > 0, ALL(q_, 0, g_n, g_ps[q_] <= g_ps[g_n - 1])) && g_ps[g_n] < (1UL << 40));
    d.name = g_name; d.aliases = al;
    char *r = names(&d);
    COVER("names");
    if (r == NULL) return;
    CHECK(g_k == g_n && g_last == (g_n ? 3 : 1) && g_pos == TOTAL && __CPROVER_POINTER_OFFSET(r) == 0, "the name followed by all aliases");
    CHECK(__CPROVER_OBJECT_SIZE(r) == TOTAL + 1, "in a buffer of exactly that length");
#else
    design_t d;
    size_t n = in_size(0, 4);
    char *al[6] = {NULL}, want[200];
    d.name = rndname(); d.aliases = al;
    strcpy(want, d.name);
    for (size_t k = 0; k < n; k++) { al[k] = rndname(); strcat(want, k ? ", " : " alias "); strcat(want, al[k]); }
    char *r = names(&d);
    COVER("names");
    CHECK(strcmp(r, want) == 0, "the name followed by all aliases");
#endif
#endif
}
