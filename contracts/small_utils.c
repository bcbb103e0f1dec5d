//@title small helpers: comparison of texts, membership, empty lines, the longest line, output with and without colours
//@variants strcmp member toout
//@src bxstring.c
//@src.member tools.c
//@link.strcmp unicode.c
//@link.toout unicode.c
//@prop.strcmp C19
//@prop.member C19 C13
//@prop.toout C16 C19
//@prop C19
//@funcs.strcmp bxs_strcmp
//@funcs.member array_contains_bxs empty_line analyze_line_ascii
//@funcs.toout bxs_to_output
//@loops.member array_contains_bxs:0
//@replace.strcmp u32_strcmp=ucmp_c
//@replace.member bxs_strcmp=cmp_c bxs_is_blank=blank_c
//@replace.toout bxs_filter_visible=visible_c u32_strconv_to_output=conv_c strdup=dup_c free=free_c
//@assume.strcmp u32_strcmp (libunistring)
//@assume.member bxs_strcmp and bxs_is_blank by their contracts (units small_utils.strcmp, bxs_query)
//@assume.toout bxs_filter_visible by its contract (unit bxs_build.filter); conversion to the output encoding (libunistring)
//@noeffect bx_fprintf log_debug is_debug_logging
#include "common.h"
#include "texts.h"
#include "boxes.h"
#include "bxstring.h"
#include "tools.h"
#ifdef GVC
static size_t g_n;
static unsigned char *g_same;
static bxstr_t *g_pool, *g_s;
static int g_r, g_freed;
static uint32_t *g_vis, *g_mem;
static char *g_out, *g_null;
int ucmp_c(const uint32_t *a, const uint32_t *b) { CHECK(a == g_pool[0].memory && b == g_pool[1].memory, "the texts in the order given"); return g_r; }
int cmp_c(bxstr_t *a, bxstr_t *b)
{
    CHECK((a == g_s) != (b == g_s), "compared with the text asked for");
    size_t k = (size_t) ((a == g_s ? b : a) - g_pool);
    CHECK(k < g_n, "an element of the array");
    int r = nondet_int();
    ASSUME((r == 0) == (g_same[k] != 0));
    return r;
}
int blank_c(bxstr_t *s) { CHECK(s == g_s, "the text of the line"); return g_r; }
uint32_t *visible_c(bxstr_t *s) { CHECK(s == g_s && !color_output_enabled, "without colours"); return g_vis; }
char *conv_c(const uint32_t *s) { CHECK(s == (color_output_enabled ? g_mem : g_vis) && !g_freed, "escape sequences are kept exactly if colours are on"); return g_out; }
char *dup_c(const char *s) { return g_null; }
void free_c(void *p) { CHECK(p == (void *) g_vis, "only the temporary text is freed"); g_freed = 1; }
#define LOOP_array_contains_bxs_0 vc_inv(0, i <= g_n && result == 0 && ALL(q_, 0, i, g_same[q_] == 0))
#endif
#include VC_SRC
#ifdef GVC
opt_t opt; input_t input; int num_designs; design_t *designs; 
#ifdef V_member
int color_output_enabled;
#endif
#endif
void harness(void)
{
#ifdef GVC
#if defined(V_strcmp)
    bxstr_t p[2];
    g_pool = p;
    g_r = in_int(-1, 1);
    COVER("strcmp");
    CHECK(bxs_strcmp(p, p + 1) == g_r, "as the texts compare");
    CHECK(bxs_strcmp(NULL, NULL) == 0, "absent texts are equal");
    CHECK(bxs_strcmp(NULL, p) != 0 && bxs_strcmp(p, NULL) != 0 && (bxs_strcmp(NULL, p) > 0) == (bxs_strcmp(p, NULL) < 0), "an absent text differs from every other");
#elif defined(V_member)
    g_n = in_size(0, 1UL << 30);
    g_pool = malloc(g_n * sizeof(bxstr_t)); g_same = malloc(g_n); g_s = malloc(sizeof(bxstr_t));
    bxstr_t **arr = malloc(g_n * sizeof(bxstr_t *));
    ASSUME(ALL(q_, 0, g_n, arr[q_] == g_pool + q_));
    int r = array_contains_bxs(arr, g_n, g_s);
    COVER("member");
    CHECK((r != 0) == !ALL(q_, 0, g_n, g_same[q_] == 0), "exactly if an element equals the text");
    CHECK(array_contains_bxs(NULL, g_n, g_s) == 0, "absent array");
    line_t l;
    l.text = g_s;
    g_r = in_int(0, 1);
    CHECK((empty_line(&l) != 0) == (g_r != 0) && empty_line(NULL) != 0, "a line is empty exactly if its text is blank or it is absent");
    input_t in;
    size_t m = in_size(0, 1UL << 40), w = in_size(0, 1UL << 40);
    in.maxline = m; g_s->num_columns = w;
    analyze_line_ascii(&in, &l);
    CHECK(in.maxline == (w > m ? w : m), "the width of the widest line so far");
#else
    bxstr_t s;
    g_s = &s;
    g_mem = malloc(4); g_vis = malloc(4); g_out = malloc(1); g_null = malloc(1);
    s.memory = g_mem;
    color_output_enabled = in_int(0, 1);
    char *r = bxs_to_output(&s);
    COVER("toout");
    CHECK(r == g_out && g_freed == !color_output_enabled, "the converted text is returned");
    CHECK(bxs_to_output(NULL) != NULL, "an absent text is no failure");
#endif
#else
    static uint32_t t[4][8];
    encoding = "UTF-8";
    bxstr_t *b[4];
    for (int i = 0; i < 4; i++) {
        size_t l = in_size(0, 3);
        for (size_t q = 0; q < l; q++) t[i][q] = (uint32_t) "ab  "[in_int(0, 3)];
        t[i][l] = 0;
        b[i] = bxs_from_unicode(t[i]);
    }
#define SGN(x) (((x) > 0) - ((x) < 0))
#if defined(V_strcmp)
    CHECK(SGN(bxs_strcmp(b[0], b[1])) == SGN(u32_strcmp(t[0], t[1])), "as the texts compare");
    CHECK(bxs_strcmp(NULL, NULL) == 0 && bxs_strcmp(NULL, b[0]) > 0 && bxs_strcmp(b[0], NULL) < 0, "absent texts");
#elif defined(V_member)
    size_t n = in_size(0, 3);
    int want = 0;
    for (size_t i = 0; i < n; i++) want |= u32_strcmp(t[i], t[3]) == 0;
    CHECK((array_contains_bxs(b, n, b[3]) != 0) == want && !array_contains_bxs(NULL, n, b[3]), "exactly if an element equals the text");
    line_t l;
    memset(&l, 0, sizeof l);
    l.text = b[0];
    want = 1;
    for (size_t q = 0; t[0][q]; q++) if (t[0][q] != ' ') want = 0;
    CHECK((empty_line(&l) != 0) == want && empty_line(NULL) != 0, "a line is empty exactly if its text is blank");
    input_t in;
    memset(&in, 0, sizeof in);
    in.maxline = in_size(0, 4);
    size_t m = in.maxline;
    analyze_line_ascii(&in, &l);
    CHECK(in.maxline == (b[0]->num_columns > m ? b[0]->num_columns : m), "the width of the widest line so far");
#else
    uint32_t u[20];
    char want[40] = "";
    size_t n = 0, o = 0;
    color_output_enabled = in_int(0, 1);
    for (int i = in_int(0, 3); i > 0; i--) {
        if (in_int(0, 1)) { u[n++] = 0x1b; u[n++] = '['; u[n++] = '1'; u[n++] = 'm'; if (color_output_enabled) { memcpy(want + o, "\033[1m", 4); o += 4; } }
        u[n++] = 'x'; want[o++] = 'x';
    }
    u[n] = 0; want[o] = 0;
    bxstr_t *s = bxs_from_unicode(u);
    char *r = bxs_to_output(s);
    CHECK(strcmp(r, want) == 0, "escape sequences are kept exactly if colours are on");
    free(r);
#endif
#endif
}
