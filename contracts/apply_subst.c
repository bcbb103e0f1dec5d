//@title apply_substitutions: every rule, in order, each on the result of the previous one, on every line; measured afterwards
//@src input.c
//@link unicode.c
//@prop C17
//@funcs apply_substitutions
//@loops apply_substitutions:0 apply_substitutions:1 apply_substitutions:2
//@replace u32_compile_pattern=compile_c u32_regex_replace=replace_c bxs_from_unicode=from_c analyze_line_ascii=measure_c get_indent=get_indent_c bxs_free=bxs_free_c bxs_to_output=bxs_to_output_c u32_strconv_to_output=to_output_c is_debug_logging=debug_c
//@noeffect bx_fprintf log_debug log_debug_cont
//@assume u32_regex_replace (pcre2_substitute) returns the text with the pattern replaced once / globally, or NULL on error
//@budget 300
//@nonative the whole program is run by e2e_rules
#include "common.h"
#include "texts.h"
#include "boxes.h"
static size_t g_compiled, g_n, g_m, g_j, g_k, g_next, g_lines;
static bxstr_t *g_pool, *g_b, *g_sb, *g_rb, *g_cur;
static char *g_mode, *g_progs;
static reprule_t *g_rules;
static uint32_t *g_new;
static int g_ind, g_measured;
/* precondition on rule q, instantiated for the rule in hand */
#define RULE(q) (rules[q].search == g_sb + (q) && rules[q].repstr == g_rb + (q) && rules[q].mode == g_mode[q])
#define SAMEDES(n) vc_keep(n, &opt.design->num_reprules), vc_keep(n, &opt.design->num_revrules), vc_keep(n, &opt.design->reprules), vc_keep(n, &opt.design->revrules), vc_keep(n, &opt.design->indentmode)
#define LOOP_apply_substitutions_0 vc_w(0, rules), vc_w(0, opt.design), SAMEDES(0), \
    vc_inv(0, j <= g_m && (j == 0 || g_compiled == j))
#define BODY_apply_substitutions_0 g_j = j; ASSUME(RULE(j))
#define LOOP_apply_substitutions_1 vc_w(1, g_pool), vc_w(1, result), vc_w(1, result->lines), vc_w(1, opt.design), SAMEDES(1), \
    vc_keep(1, &result->lines), vc_keep(1, &result->num_lines), vc_keep(1, &result->indent), \
    vc_inv(1, k <= g_n && g_lines == k && (k > 0 || result->maxline == 0))
#define BODY_apply_substitutions_1 g_k = k; g_next = 0; ASSUME(result->lines[k].text == g_b + k); g_cur = g_b + k
#define LOOP_apply_substitutions_2 vc_w(2, g_pool), vc_w(2, result->lines), vc_w(2, opt.design), SAMEDES(2), vc_w(2, result), vc_keep(2, &result->lines), vc_keep(2, &result->num_lines), vc_keep(2, &result->indent), vc_keep(2, &result->maxline), \
    vc_inv(2, j <= g_m && g_next == j && result->lines[k].text == (j == 0 ? g_b + k : g_pool + (j - 1)) && g_cur == result->lines[k].text)
#define BODY_apply_substitutions_2 g_j = j; ASSUME(RULE(j)); ASSUME(rules[j].prog == (pcre2_code *) (g_progs + j))
static int the_errno;
int *__errno_location(void) { return &the_errno; }
pcre2_code *compile_c(uint32_t *pattern)
{
    CHECK(pattern == g_sb[g_j].memory, "every search pattern is compiled");
    if (nondet_bool()) return NULL;
    g_compiled = g_j + 1;
    return (pcre2_code *) (g_progs + g_j);
}
uint32_t *replace_c(pcre2_code *search, uint32_t *replace, uint32_t *input, const size_t len, const int global)
{
    CHECK(g_next == g_j, "rules are applied in the order of their definition");
    CHECK(search == (pcre2_code *) (g_progs + g_j) && replace == g_rb[g_j].memory, "with the pattern and the replacement of the rule");
    CHECK(input == g_cur->memory && len == g_cur->num_chars, "to the result of the previous rule");
    CHECK((global != 0) == (g_mode[g_j] == 'g'), "once or globally as the rule says");
    g_next++;
    g_new = NULL;
    if (nondet_bool()) return NULL;
    g_new = malloc(4);
    return g_new;
}
bxstr_t *from_c(uint32_t *p)
{
    CHECK(p == g_new, "the result of the rule becomes the line");
    if (nondet_bool()) return NULL;
    g_cur = g_pool + g_j;
    g_cur->memory = g_new; g_cur->num_chars = nondet_size_t(); g_cur->num_columns = nondet_size_t();
    return g_cur;
}
void bxs_free_c(bxstr_t *s) {}
char *bxs_to_output_c(bxstr_t *s) { return malloc(1); }
char *to_output_c(const uint32_t *s) { return malloc(1); }
void measure_c(input_t *in, line_t *line)
{
    CHECK(g_next == g_m, "a line is measured when all rules have been applied");
    CHECK(line == in->lines + g_k && line->text == g_cur, "the substituted line is measured");
    if (g_k == 0) CHECK(in->maxline == 0, "the text width is that of the substituted lines only");
    g_lines++;
    if (g_cur->num_columns > in->maxline) in->maxline = g_cur->num_columns;
}
int get_indent_c(const line_t *lines, const size_t n)
{
    CHECK(g_lines == g_n && n == g_n, "the indentation is that of the substituted lines");
    g_measured++;
    g_ind = nondet_int();
    return g_ind;
}
int debug_c(int area) { return 0; }
#include VC_SRC
opt_t opt; input_t input; int num_designs; design_t *designs; int color_output_enabled;

void harness(void)
{
    static design_t des;
    input_t in;
    size_t n = in_size(0, 1UL << 30), m = in_size(0, 1UL << 30);
    g_n = n; g_m = m; g_lines = 0;
    line_t *l = malloc((n + 1) * sizeof(line_t));
    g_b = malloc((n + 1) * sizeof(bxstr_t));
    reprule_t *r = malloc((m + 1) * sizeof(reprule_t));
    g_pool = malloc((m + 1) * sizeof(bxstr_t));
    g_sb = malloc((m + 1) * sizeof(bxstr_t)); g_rb = malloc((m + 1) * sizeof(bxstr_t)); g_mode = malloc(m + 1); g_progs = malloc(m + 1);
    int mode = in_int(-1, 2);
    size_t other = in_size(0, 5);
    des.reprules = mode == 0 ? r : NULL; des.num_reprules = mode == 0 ? m : other;
    des.revrules = mode == 1 ? r : NULL; des.num_revrules = mode == 1 ? m : other;
    des.indentmode = in_char(0, 127);
    opt.design = in_int(0, 3) ? &des : NULL;
    in.lines = l; in.num_lines = n;
    in.maxline = in_size(0, 1000); size_t i0 = in_size(0, 1000); in.indent = i0; in.final_newline = in_int(0, 1);
    int rc = apply_substitutions(&in, mode);
    if (opt.design == NULL || (mode != 0 && mode != 1)) {
        CHECK(rc != 0, "no design or no such mode is an error");
        return;
    }
    if (rc == 0) {
        if (n > 2 && m > 2) COVER("apply_subst");
        CHECK(g_lines == n, "every line is processed");
        CHECK((g_measured == 1) == (des.indentmode == 't') && (g_measured ? (int) in.indent == g_ind : in.indent == i0), "the indentation is determined again if it is part of the text");
        CHECK(in.num_lines == n && in.lines == l, "no line is lost");
    }
}
