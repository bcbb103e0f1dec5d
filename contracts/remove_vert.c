//@title removing a box: the shapes of the vertical sides, a fresh start for each comparison, the design to remove
//@variants prep reset detect
//@src remove.c
//@link unicode.c shape.c
//@prop C14
//@prop.detect C14 C15
//@funcs.prep prepare_comp_shapes_vert count_shape_lines
//@funcs.reset reset_body
//@funcs.detect detect_design_if_needed
//@loops.prep prepare_comp_shapes_vert:0 prepare_comp_shapes_vert:2
//@loops.reset reset_body:0
//@unwind 7
//@replace.prep isempty=shempty_c isdeepempty=deep_c prepare_comp_shape=comp_c bxs_from_unicode=from_c calloc=calloc_c free=free_c
//@replace.reset free=free_c memset=memset_c
//@replace.detect autodetect_design=auto_c exit=exit_c
//@assume callees by their contracts (units shapes, detect_parts, bxs_from_unicode); calloc returns zeroed memory, a new object each time; memset and free as documented in C; exit does not return
//@noeffect bx_fprintf log_debug log_debug_cont is_debug_logging fprintf
//@nonative removing is run by the whole-program units e2e_remove and e2e_mend
#include "common.h"
#include "texts.h"
#include "boxes.h"
#include "shape.h"
#include "detect.h"
#include "remove.h"
#ifdef GVC
static design_t g_d;
static int g_se[16], g_de[16], g_ct, g_east, g_got, g_step, g_ended;
static size_t g_tot, g_cnt, g_al, g_w, g_st[16], g_n;
static shape_line_ctx_t **g_arr, *g_pool;
static uint32_t *g_ps;
static bxstr_t *g_tb;
#if defined(V_prep)
#define S0 (g_east ? ENE : WNW)
#define S1 (g_east ? E : W)
#define S2 (g_east ? ESE : WSW)
#define H(s) (g_se[s] ? 0 : g_d.shape[s].height)
#define OWN(w) ((w) < g_st[S1] ? S0 : (w) < g_st[S2] ? S1 : S2)
int shempty_c(const sentry_t *s) { size_t k = (size_t) (s - g_d.shape); CHECK(k < 16, "a shape of the design"); return g_se[k]; }
int deep_c(const sentry_t *s) { size_t k = (size_t) (s - g_d.shape); CHECK(k < 16, "a shape of the design"); return g_de[k]; }
void *calloc_c(size_t n, size_t s)
{
    if (!g_step) { CHECK(n >= g_tot + 1 && s == sizeof(shape_line_ctx_t *), "an entry for every line, and an end mark"); g_step = 1; return g_arr; }
    CHECK(n == 1 && s == sizeof(shape_line_ctx_t) && g_al < g_tot, "one record per line");
    return g_pool + g_al++;
}
void free_c(void *p) { CHECK(p == (void *) g_ps, "only temporary texts are freed"); }
uint32_t *comp_c(design_t *d, shape_t sh, size_t line, comparison_t ct, size_t off, int is_east)
{
    CHECK(d == &g_d && (int) ct == g_ct && off == 0 && is_east == 0, "for this comparison");
    CHECK((sh == S0 || sh == S1 || sh == S2) && !g_se[sh] && line < g_d.shape[sh].height, "a line of a shape of the side");
    CHECK(g_cnt == g_st[sh] + line, "every line once, from top to bottom");
    return g_ps;
}
bxstr_t *from_c(const uint32_t *s) { CHECK(s == g_ps, "the text to compare"); return g_tb + g_cnt++; }
#define LOOP_prepare_comp_shapes_vert_0 vc_w(0, g_arr), vc_inv(0, i <= g_tot && num_shape_lines == g_tot && shape_lines == g_arr && g_al == i && g_step == 1 && ALL(q_, 0, i, g_arr[q_] == g_pool + q_) && g_arr[g_tot] == NULL)
#define LOOP_prepare_comp_shapes_vert_2 vc_w(2, g_pool), vc_inv(2, slno <= g_d.shape[side_shapes[shape_idx]].height && i == g_st[side_shapes[shape_idx]] + slno && g_cnt == i \
    && IMPLIES(g_w < i, g_pool[g_w].text == g_tb + g_w && (g_pool[g_w].empty != 0) == (g_de[OWN(g_w)] != 0) && (g_pool[g_w].elastic != 0) == (g_d.shape[OWN(g_w)].elastic != 0)))
#elif defined(V_reset)
static struct _line_ctx_t *g_b;
static size_t g_size;
static uint32_t *g_use;
void free_c(void *p) { CHECK(!g_step && p == (void *) (g_use + g_cnt), "the text of every line is freed once"); g_cnt++; }
void *memset_c(void *p, int c, size_t n)
{
    CHECK(p == (void *) g_b && c == 0 && n == g_size, "all of the body is reset");
    CHECK(g_cnt == g_n, "after all texts were freed");
    g_step = 1;
    return p;
}
#define LOOP_reset_body_0 vc_w(0, g_b), vc_inv(0, i <= g_n && g_cnt == i && g_step == 0 && ALL(q_, i, g_n, g_b[q_].input_line_used == g_use + q_))
#else
static design_t *g_found;
design_t *auto_c(void) { CHECK(!opt.design_choice_by_user, "only if no design was asked for"); g_step = 1; return g_found; }
void exit_c(int rc) { CHECK(g_step == 1 && g_found == NULL && rc != 0, "it ends only if no design was found"); COVER("detect none"); ASSUME(0); }
#endif
#include VC_SRC
opt_t opt; input_t input; int num_designs; design_t *designs; int color_output_enabled;
void harness(void)
{
    vc_havoc_obj(&opt);
#if defined(V_prep)
    vc_havoc_obj(&g_d);
    opt.design = &g_d;
    g_east = in_int(0, 1); g_ct = in_int(0, 3);
    for (int k = 0; k < 16; k++) { g_se[k] = in_int(0, 1); g_de[k] = in_int(0, 1); g_d.shape[k].height = in_size(0, 1UL << 30); }
    g_st[S0] = 0; g_st[S1] = H(S0); g_st[S2] = H(S0) + H(S1);
    g_tot = H(S0) + H(S1) + H(S2);
    g_arr = malloc((g_tot + 1) * sizeof(shape_line_ctx_t *)); g_pool = malloc(g_tot * sizeof(shape_line_ctx_t));
    g_ps = malloc(4); g_tb = malloc(g_tot * sizeof(bxstr_t));
    ASSUME(g_arr[g_tot] == NULL);
    g_w = in_size(0, 1UL << 32);
    shape_line_ctx_t **r = prepare_comp_shapes_vert(g_east ? BRIG : BLEF, (comparison_t) g_ct);
    COVER("prep");
    CHECK(r == g_arr && g_cnt == g_tot && r[g_tot] == NULL, "all lines of the side and an end mark");
    if (g_w < g_tot) {
        COVER("prep some");
        CHECK(r[g_w] == g_pool + g_w && r[g_w]->text == g_tb + g_w, "with the text to compare, in order");
        CHECK((r[g_w]->empty != 0) == (g_de[OWN(g_w)] != 0) && (r[g_w]->elastic != 0) == (g_d.shape[OWN(g_w)].elastic != 0), "knowing whether their shape is blank or elastic");
    }
#elif defined(V_reset)
    g_n = in_size(0, 1UL << 30);
    g_b = malloc(g_n * sizeof(line_ctx_t)); g_use = malloc(g_n * 4);
    ASSUME(ALL(q_, 0, g_n, g_b[q_].input_line_used == g_use + q_));
    g_size = g_n * sizeof(line_ctx_t);
    remove_ctx_t *g_ctx = malloc(sizeof(remove_ctx_t));
    int none = in_int(0, 1);
    g_ctx->body = none ? NULL : g_b; g_ctx->body_num_lines = g_n;
    reset_body(g_ctx);
    COVER("reset");
    CHECK(none ? g_step == 0 && g_cnt == 0 : g_step == 1, "the body is reset if there is one");
    CHECK(g_ctx->body_num_lines == g_n && g_ctx->body == (none ? NULL : g_b), "its lines stay");
#else
    int by = in_int(0, 1), f = in_int(0, 1);
    opt.design_choice_by_user = by; opt.design = &g_d;
    g_found = f ? malloc(sizeof(design_t)) : NULL;
    detect_design_if_needed();
    COVER("detect");
    CHECK(opt.design == (by ? &g_d : g_found) && g_step == !by, "the design asked for, or the one found");
#endif
}
#else
#include VC_SRC
void harness(void) { }
#endif
