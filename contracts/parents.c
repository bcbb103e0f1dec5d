//@title parent configuration files: each is parsed once, the designs of the child stay
//@variants record files
//@src parsing.c
//@prop C10
//@funcs.record record_parent_config_files
//@funcs.files parse_config_files
//@loops.record record_parent_config_files:0
//@loops.files parse_config_files:0
//@replace.record realloc=realloc_c array_contains_bxs=contains_c bxs_strcmp=cmp_c free=free_c
//@replace.files parse_config_file=parse_c record_parent_config_files=record_c copy_designs=copy_c is_debug_logging=debug_c fprintf=fprintf_c fflush=fflush_c free=free_c
//@assume callees by their contracts (units utils, parse_files, parents.record); the generated parser is the subject of the whole-program units e2e_config and e2e_design
//@noeffect yyerror log_debug log_debug_cont bx_fprintf perror
//@nonative parents are read by the whole-program unit e2e_config
#include "common.h"
#include "texts.h"
#include "boxes.h"
#include "shape.h"
#include "parsecode.h"
#include <stdio.h>
#ifdef GVC
static size_t g_n, g_num0, g_i, g_pi, g_o, g_cap, g_cur, g_calls, g_cnt, g_w;
static unsigned char *g_has, *g_first;
static bxstr_t **g_pool, *g_tb, *g_ff, *g_old;
static int g_err, g_rc, g_step;
static design_t *g_res; static size_t *g_rn;
int debug_c(int a) { return 0; }
void free_c(void *p) {}
int fprintf_c(FILE *f, const char *fmt, char *a, char *b) { return 0; }
int fflush_c(FILE *f) { return 0; }
static pass_to_bison *g_ba;
#define NEW(k) (!g_has[k] && !g_first[k])
/* parents are recorded from the last to the first; parent g_i is arbitrary */
#define LOOP_record_parent_config_files_0 vc_w(0, g_pool), vc_inv(0, parent_idx >= -1 && parent_idx < (int) g_n && num_parent_configs >= g_num0 && num_parent_configs <= g_num0 + (size_t) ((int) g_n - 1 - parent_idx) && (num_parent_configs == 0 ? parent_configs == NULL : parent_configs == g_pool) \
    && g_cap == num_parent_configs && (g_o >= g_num0 || g_pool[g_o] == g_old) && ((int) g_i <= parent_idx || !NEW(g_i) || (g_pi >= g_num0 && g_pi < num_parent_configs && g_pool[g_pi] == g_tb + g_i)))
#define BODY_record_parent_config_files_0 g_cur = (size_t) parent_idx; ASSUME(bison_args->parent_configs[parent_idx] == g_tb + parent_idx); if (g_cur == g_i) g_pi = num_parent_configs
#define LOOP_parse_config_files_0 vc_w(0, r_num_designs), vc_w(0, &result), vc_inv(0, (g_calls == 0 ? parents_parsed == SIZE_MAX : parents_parsed == g_calls - 1) && (g_calls == 0 ? num_parent_configs == 0 : g_calls <= num_parent_configs) && num_parent_configs <= (1UL << 20) && (num_parent_configs == 0 || parent_configs == g_pool) && *r_num_designs == g_cnt && r_num_designs == g_rn && (g_cnt == 0) == (g_res == NULL) && g_err == 0 && g_step == 0 && result == g_res && config_file == (g_calls == 0 ? g_ff : g_pool[g_calls - 1]))
#include VC_SRC
opt_t opt; input_t input; int num_designs; design_t *designs; int color_output_enabled;
void *realloc_c(void *p, size_t n)
{
    CHECK(p == (g_cap ? (void *) g_pool : NULL) && n == (g_cap + 1) * sizeof(bxstr_t *), "room for one more, the others are kept");
    if (nondet_bool()) { g_err = 1; return NULL; }
    g_cap++;
    return g_pool;
}
int contains_c(bxstr_t **a, const size_t n, bxstr_t *s) { CHECK(a == parent_configs && n == num_parent_configs && s == g_tb + g_cur, "compared with the parents there are so far"); return g_has[g_cur]; }
int cmp_c(bxstr_t *a, bxstr_t *b) { CHECK((a == g_tb + g_cur && b == g_ff) || (b == g_tb + g_cur && a == g_ff), "compared with the first file"); return g_first[g_cur] ? 0 : 1; }
pass_to_bison parse_c(bxstr_t *f, design_t *child, size_t n)
{
    pass_to_bison b;
    vc_havoc_obj(&b);
    CHECK(g_step == 0, "one file after the other");
    CHECK(f == (g_calls == 0 ? g_ff : g_pool[g_calls - 1]), "the first file, then each parent in turn");
    CHECK(child == g_res && n == g_cnt, "what the child configurations define is known");
    b.config_file = f;
    g_calls++; g_step = 1;
    return b;
}
int record_c(pass_to_bison *b)
{
    CHECK(g_step == 1, "the parents of the file just parsed");
    g_step = 2;
    if (nondet_bool()) { g_err = 1; return 1; }
    size_t k = nondet_size_t();
    ASSUME(k >= num_parent_configs && k <= (1UL << 20));
    num_parent_configs = k;
    if (k) parent_configs = g_pool;
    return 0;
}

int copy_c(pass_to_bison *b, design_t **r, size_t *n)
{
    CHECK(g_step == 2 && *r == g_res && n == g_rn && *n == g_cnt, "the designs of the file just parsed are added");
    g_step = 0;
    if (nondet_bool()) { g_err = 1; return 1; }
    size_t k = nondet_size_t();
    ASSUME(k >= g_cnt && k <= (1UL << 20));
    g_cnt = *n = k;
    g_res = k ? (design_t *) g_old : NULL;
    *r = g_res;
    return 0;
}
void harness(void)
{
    vc_havoc_obj(&opt);
    g_n = in_size(0, 1UL << 20); g_i = in_size(0, 1UL << 20); g_o = in_size(0, 1UL << 20);
    g_has = malloc(g_n + 1); g_first = malloc(g_n + 1); g_tb = malloc((g_n + 1) * sizeof(bxstr_t)); g_ff = malloc(sizeof(bxstr_t));
    g_pool = malloc(((1UL << 21) + 8) * sizeof(bxstr_t *));
    g_err = 0; g_calls = 0; g_cnt = 0; g_step = 0;
#if defined(V_record)
    pass_to_bison ba;
    vc_havoc_obj(&ba);
    ba.num_parent_configs = (int) g_n; ba.parent_configs = malloc((g_n + 1) * sizeof(bxstr_t *));
    g_num0 = in_size(0, 1UL << 20);
    num_parent_configs = g_cap = g_num0; parent_configs = g_num0 ? g_pool : NULL; first_config_file = g_ff;
    ASSUME(g_i < g_n);
    g_old = g_pool[g_o];
    int r = record_parent_config_files(&ba);
    if (r) { CHECK(g_err, "no memory"); return; }
    COVER("record");
    CHECK(num_parent_configs >= g_num0 && num_parent_configs <= g_num0 + g_n, "at most one entry for each");
    CHECK(g_o >= g_num0 || parent_configs[g_o] == g_old, "those known already stay");
    if (NEW(g_i)) CHECK(g_pi < num_parent_configs && parent_configs[g_pi] == g_tb + g_i, "every new parent is recorded");
#else
    size_t num = 0;
    g_rn = &num; g_old = malloc(8); g_res = NULL;
    num_parent_configs = 0;
    design_t *r = parse_config_files(g_ff, &num);
    if (g_err) { CHECK(r == NULL, "no designs"); return; }
    COVER("files");
    CHECK(g_calls == 1 + num_parent_configs, "the file and every parent recorded is parsed once");
    CHECK(g_cnt == 0 ? r == NULL : r == g_res && num == g_cnt, "all designs");
#endif
}
#else
#include VC_SRC
void harness(void) { }
#endif
