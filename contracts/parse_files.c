//@title designs of several configuration files: the first definition of a name stays, in order
//@variants contain copy
//@src parsing.c
//@prop C10
//@funcs.contain designs_contain
//@funcs.copy copy_designs
//@loops.contain designs_contain:0
//@loops.copy copy_designs:0
//@replace.copy designs_contain=contain_c
//@assume strcasecmp tells equality ignoring case (an arbitrary relation in the proofs)
//@noeffect yyerror log_debug log_debug_cont is_debug_logging bx_fprintf perror
#include "common.h"
#include "texts.h"
#include "boxes.h"
#include "shape.h"
#include "parsecode.h"
#include <strings.h>
static char *g_txt, *g_name;
static size_t g_n, g_w, g_i, g_pi, g_num0, *g_rn, g_last, g_cur, g_o;
static design_t *g_src, **g_res;
static char *g_oname;
#ifdef GVC
static unsigned char *g_same, *g_has;
#define SAMEK(k) (g_same[k] != 0)
#define TXT(k) (g_txt + (k))
int strcasecmp(const char *a, const char *b)
{
    CHECK((a == g_name) != (b == g_name), "compared with the name asked for");
    const char *o = a == g_name ? b : a;
    CHECK(__CPROVER_POINTER_OBJECT(o) == __CPROVER_POINTER_OBJECT(g_txt), "a name of a design");
    size_t k = (size_t) (o - g_txt);
    int r = nondet_int();
    ASSUME((r == 0) == SAMEK(k));
    if (r == 0) g_w = k;
    return r;
}
int contain_c(design_t *designs, size_t num_designs, design_t adesign)
{
    CHECK(designs == *g_res && num_designs == *g_rn, "compared with all designs there are so far");
    CHECK(adesign.name == TXT(g_cur), "each design in turn");
    return g_has[g_cur] != 0;
}
#else
static char *g_nm[16];
#define SAMEK(k) (strcasecmp(g_nm[k], g_name) == 0)
static char *rndname(void)
{
    static char *w[] = {"a", "A", "box", "Box", "boxx", "b", "my-box", "My-Box", "c1", "C1", "z"};
    return strdup(w[in_int(0, 10)]);
}
#endif
#define LOOP_designs_contain_0 vc_inv(0, d <= g_n && result == 0 && ALL(k_, 0, d, !SAMEK(k_)))
#define BODY_designs_contain_0 ASSUME(designs[d].name == TXT(d))
#define LOOP_copy_designs_0 vc_w(0, *r_result), vc_own(0, r_result), vc_w(0, r_result), vc_w(0, r_num_designs), vc_inv(0, d <= g_n && *r_num_designs >= g_num0 && *r_num_designs <= g_num0 + d \
    && __CPROVER_OBJECT_SIZE(*r_result) == *r_num_designs * sizeof(design_t) \
    && (*r_result)[g_o].name == g_oname && (g_i >= d || g_has[g_i] != 0 || (g_pi >= g_num0 && g_pi < *r_num_designs && (*r_result)[g_pi].name == TXT(g_i))) && (g_i < d || g_last <= *r_num_designs))
#define BODY_copy_designs_0 g_cur = d; ASSUME(bison_args->designs[d].name == TXT(d)); if (d == g_i) g_pi = *r_num_designs; if (d < g_i) g_last = *r_num_designs
#include VC_SRC
#ifdef GVC
opt_t opt; input_t input; int num_designs; design_t *designs; int color_output_enabled;
#endif

void harness(void)
{
#ifdef GVC
    size_t n = in_size(0, 1UL << 20);
    g_same = malloc(n + 1); g_txt = malloc(n + 1); g_name = malloc(1);
#else
    size_t n = in_size(0, 5);
    g_name = rndname();
    for (size_t k = 0; k <= n; k++) g_nm[k] = rndname();
#endif
    g_n = n;
#ifdef V_contain
    static design_t a;
    design_t *d = malloc((n + 1) * sizeof(design_t));
    int named = in_int(0, 5) != 0;
    a.name = named ? g_name : NULL;
#ifndef GVC
    for (size_t k = 0; k < n; k++) d[k].name = g_nm[k];
#endif
    int r = designs_contain(d, n, a);
    COVER("contain");
    if (!named) CHECK(r != 0, "a broken record is not copied");
    else if (r == 0) CHECK(ALL(k_, 0, n, !SAMEK(k_)), "no definition of the name is missed");
#ifdef GVC
    else CHECK(g_w < n && SAMEK(g_w), "only a definition of the name");
#else
    else CHECK(!ALL(k_, 0, n, !SAMEK(k_)), "only a definition of the name");
#endif
#else
    pass_to_bison ba;
    memset(&ba, 0, sizeof(ba));
    size_t m = in_size(0, 5), num;
    design_t *res = NULL;
    ba.designs = malloc((n + 1) * sizeof(design_t)); ba.num_designs = (int) n;
#ifdef GVC
    m = in_size(0, 1UL << 20);
    g_has = malloc(n + 1);
#else
    for (size_t k = 0; k < n; k++) { memset(ba.designs + k, 0, sizeof(design_t)); ba.designs[k].name = g_nm[k]; }
#endif
    design_t *d0 = ba.designs;
    num = m;
    if (m) {
        res = malloc(m * sizeof(design_t));
#ifndef GVC
        for (size_t k = 0; k < m; k++) { memset(res + k, 0, sizeof(design_t)); res[k].name = rndname(); }
#endif
        g_o = in_size(0, 1UL << 20);
#ifndef GVC
        g_o %= m;
#endif
        ASSUME(g_o < m);
        g_oname = res[g_o].name;
    }
    g_num0 = m; g_res = &res; g_rn = &num;
    g_i = in_size(0, 1UL << 20);
#ifndef GVC
    char *old[8];
    for (size_t k = 0; k < m; k++) old[k] = res[k].name;
    g_i %= n + 1;
#endif
    ASSUME(g_i < n);
    int r = copy_designs(&ba, &res, &num);
    COVER("copy");
    if (r != 0) return;
    if (m == 0) { CHECK(res == d0 && num == n, "the designs of the first file are taken as they are"); return; }
    CHECK(res[g_o].name == g_oname, "designs known already stay in their places");
    CHECK(num >= m && num <= m + n, "none is lost, none comes from nowhere");
#ifdef GVC
    if (!g_has[g_i]) CHECK(g_pi >= m && g_pi < num && res[g_pi].name == TXT(g_i), "every new design is added");
#else
    size_t at = m;
    for (size_t k = 0; k < n; k++) {
        int known = 0;
        for (size_t q = 0; q < at; q++) known |= strcasecmp(res[q].name, g_nm[k]) == 0;
        if (!known) { CHECK(at < num && res[at].name == g_nm[k], "every new design is added, in order"); at++; }
    }
    CHECK(at == num, "known designs are not added");
    for (size_t k = 0; k < m; k++) CHECK(res[k].name == old[k], "designs known already stay in their places");
#endif
#endif
}
