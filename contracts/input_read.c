//@title reading the input: every line is recorded once, in its order, whatever their number
//@src input.c
//@link unicode.c
//@prop C13 C05
//@funcs read_all_input
//@loops read_all_input:0
//@replace realloc=realloc_c fgets=fgets_c u32_strconv_from_input=conv_c u32_strlen=len_c has_linebreak=nl_c trim_trailing_ws_carefully=trim_c expand_tabs_into=tabs_c bxs_from_unicode=from_c bxs_new_empty_string=empty_c ferror=ferror_c free=free_c
//@assume callees by their contracts (units input_parts, tabs, bxs_from_unicode, bxs_build); fgets delivers one line after the other; realloc keeps what was there (the verifier's one object stands for all of them, the number of bytes asked for is checked at every line)
//@noeffect log_debug log_debug_cont is_debug_logging bx_fprintf perror
//@nonative reading is part of every whole-program unit; e2e_big reads hundreds of lines
#include "common.h"
#include "texts.h"
#include "boxes.h"
#include "input.h"
#include <stdio.h>
#ifdef GVC
static size_t g_n, g_k, g_read, g_len, g_tl;
static int g_step, g_nl, g_err;
static uint32_t *g_raw, *g_exp;
static size_t *g_tp;
static bxstr_t *g_text, *g_emp;
static unsigned char *g_none;           /* g_none[k]: line k is empty */
static char *g_buf;
static char g_fin, g_fk;
void free_c(void *p) {}
/* one object for the lines, of which g_cap bytes may be used */
static line_t *g_lines;
static size_t g_cap;
void *realloc_c(void *p, size_t n)
{
    CHECK(p == (g_cap ? (void *) g_lines : NULL), "the lines so far are kept");
    CHECK(n >= g_cap, "never smaller");
    if (nondet_bool()) { g_err = 1; return NULL; }
    g_cap = n;
    return g_lines;
}
#define ROOM CHECK((g_read + 1) * sizeof(line_t) <= g_cap, "room for the line")
/* the lines: g_n of them */
char *fgets_c(char *b, int n, FILE *f)
{
    CHECK(f == opt.infile && n >= 3, "from the input");
    CHECK(g_step == 0, "the line before was recorded");
    if (g_read == g_n) return NULL;
    g_buf = b; g_step = 1;
    return b;
}
uint32_t *conv_c(const char *b) { ROOM; CHECK(b == g_buf && g_step == 1, "the line read"); g_step = 2; g_len = nondet_size_t(); ASSUME(g_len < (1UL << 30)); return g_raw; }
size_t len_c(const uint32_t *s) { CHECK(s == g_raw && g_step == 2, "the line read"); return g_len; }
bool nl_c(const uint32_t *s, const size_t len) { CHECK(s == g_raw && len == g_len && g_step == 2, "before anything is trimmed"); g_step = 3; g_nl = nondet_bool() ? 1 : 0; return g_nl; }
void trim_c(uint32_t *s, size_t *len)
{
    CHECK(s == g_raw && *len == g_len && g_step == 3, "the line read, as it was");
    size_t n = nondet_size_t();
    ASSUME(n <= g_len && (n == 0) == (g_none[g_read] != 0));
    *len = g_len = n;
    g_step = 4;
}
size_t tabs_c(const uint32_t *b, const int ts, uint32_t **text, size_t **tp, size_t *tl)
{
    CHECK(b == g_raw && ts == opt.tabstop && g_step == 4 && g_len > 0, "the trimmed line, with the tab distance asked for");
    g_step = 5;
    if (nondet_bool()) { g_err = 1; return 0; }
    *text = g_exp; *tp = g_tp + g_read; *tl = g_tl;
    size_t n = nondet_size_t();
    ASSUME(n > 0);
    return n;
}
bxstr_t *from_c(const uint32_t *s)
{
    CHECK(s == g_exp && g_step == 5, "the line with its tabs expanded");
    if (nondet_bool()) { g_err = 1; return NULL; }
    g_step = 0;
    return g_text + g_read++;
}
bxstr_t *empty_c(void) { CHECK(g_step == 4 && g_len == 0, "nothing is left of the line"); g_step = 0; return g_emp + g_read++; }
int ferror_c(FILE *f) { g_err = nondet_bool() ? 1 : 0; return g_err; }
#define CAP(n) (((n) + 99) / 100 * 100)
#define TEXT(k) (g_none[k] ? g_emp + (k) : g_text + (k))
#define LOOP_read_all_input_0 vc_w(0, result), vc_w(0, buf), vc_w(0, g_lines), vc_inv(0, result->num_lines == g_read && g_read <= g_n && input_size == CAP(g_read) && g_step == 0 && g_err == 0 \
    && g_cap == input_size * sizeof(line_t) && (g_read == 0 ? result->lines == NULL && result->final_newline == 0 : result->lines == g_lines && result->final_newline == g_nl) \
    && (g_k >= g_read || (g_lines[g_k].text == TEXT(g_k) && (g_none[g_k] ? g_lines[g_k].tabpos == NULL && g_lines[g_k].tabpos_len == 0 : g_lines[g_k].tabpos == g_tp + g_k))))
#include VC_SRC
opt_t opt; input_t input; int num_designs; design_t *designs; int color_output_enabled;
void harness(void)
{
    vc_havoc_obj(&opt);
    g_n = in_size(0, 1UL << 30); g_k = in_size(0, 1UL << 30);
    g_raw = malloc(4); g_exp = malloc(4); g_tp = malloc((g_n + 1) * sizeof(size_t)); g_text = malloc((g_n + 1) * sizeof(bxstr_t)); g_emp = malloc((g_n + 1) * sizeof(bxstr_t)); g_none = malloc(g_n + 1);
    g_cap = 0; g_lines = malloc((g_n + 200) * sizeof(line_t));
    g_tl = in_size(0, 1000); g_read = 0; g_step = 0; g_err = 0;
    ASSUME(g_k < g_n);
    input_t *r = read_all_input();
    COVER("read");
    if (r == NULL) { CHECK(g_err, "given up only for a reason"); return; }
    CHECK(!g_err && r->num_lines == g_n && g_read == g_n, "every line of the input");
    CHECK(r->lines[g_k].text == TEXT(g_k), "each in its place");
    CHECK(g_none[g_k] || r->lines[g_k].tabpos == g_tp + g_k, "with the places of its tabs");
    CHECK(r->final_newline == g_nl, "the last line says whether the input ends with a line end");
}
#else
#include VC_SRC
void harness(void) { }
#endif
