//@title reading: line breaks, trailing whitespace, common indentation, cutting the indentation
//@variants linebreak indent trim analyze
//@src input.c
//@link unicode.c
//@prop C13
//@funcs.linebreak has_linebreak
//@funcs.indent get_indent
//@funcs.trim trim_trailing_ws_carefully
//@funcs.analyze analyze_input
//@loops.indent get_indent:0
//@loops.analyze analyze_input:0 analyze_input:1
//@replace.trim btrim32=btrim32_c
//@replace.analyze get_indent=get_indent_c apply_substitutions=apply_substitutions_c bxs_cut_front=bxs_cut_front_c bxs_free=bxs_free_c analyze_line_ascii=analyze_line_ascii_c bxs_to_output=bxs_to_output_c
//@noeffect bx_fprintf log_debug is_debug_logging
//@assume.trim btrim32 by its contract (unit btrim32)
//@assume.analyze bxs_cut_front by its contract (unit bxs_sub.cut_front), get_indent by its contract (unit input_parts.indent)
//@budget 300
#include "common.h"
#include "texts.h"
#include "boxes.h"
static size_t g_n, g_i, g_cols;
static bxstr_t *g_b;
#define CAP(x) ((x) < LINE_MAX_BYTES ? (x) : LINE_MAX_BYTES)
#define LOOP_get_indent_0 vc_inv(0, j <= lines_size && res >= 0 && res <= LINE_MAX_BYTES && (nonblank == 0 || nonblank == 1) \
    && ALL(k_, 0, j, IMPLIES(g_b[k_].num_columns > 0, nonblank == 1 && (size_t) res <= g_b[k_].indent)) \
    && IMPLIES(nonblank == 0, res == LINE_MAX_BYTES && ALL(k_, 0, j, g_b[k_].num_columns == 0)) \
    && IMPLIES(nonblank == 1 && res < LINE_MAX_BYTES, g_i < j && g_b[g_i].num_columns > 0 && g_b[g_i].indent == (size_t) res))
#define BODY_get_indent_0 if (g_b[j].num_columns > 0 && g_b[j].indent < (size_t) res) g_i = j;
#define LOOP_analyze_input_0 vc_w(0, result), vc_keep(0, &result->lines), vc_keep(0, &result->num_lines), vc_keep(0, &result->indent), vc_inv(0, i <= result->num_lines)
#define LOOP_analyze_input_1 vc_w(1, result), vc_w(1, result->lines), vc_keep(1, &result->lines), vc_keep(1, &result->num_lines), vc_keep(1, &result->indent), \
    vc_inv(1, i <= result->num_lines && ALL(k_, i, g_n, result->lines[k_].text == g_b + k_) \
      && ALL(k_, 0, i, IMPLIES(g_b[k_].num_columns < result->indent, result->lines[k_].text == g_b + k_)) \
      && ALL(k_, 0, i, IMPLIES(g_b[k_].num_columns > 0 && result->indent > 0, result->lines[k_].text != g_b + k_)))
#ifdef GVC
static size_t g_ind;
static int g_irc, g_subst;
static bxstr_t *g_cut;
/* contract of btrim32 (proved in unit btrim32): shortens the text */
static size_t g_called;
void btrim32_c(uint32_t *text, size_t *len)
{
    g_called++;
    size_t l = nondet_size_t();
    ASSUME(l <= *len);
    text[l] = 0;
    *len = l;
}
int get_indent_c(const line_t *lines, const size_t n)
{
    int r = nondet_int();
    ASSUME(r >= 0 && r <= LINE_MAX_BYTES && ALL(k_, 0, n, IMPLIES(g_b[k_].num_columns > 0, (size_t) r <= g_b[k_].indent)));
    g_ind = (size_t) r;
    return r;
}
bxstr_t *bxs_cut_front_c(bxstr_t *s, size_t n)
{
    CHECK(s == g_b + g_i, "every line is cut once, in order");
    CHECK(n == g_ind && (n <= s->indent || s->num_columns == 0), "only the common blanks in front are cut");
    bxstr_t *r = malloc(sizeof(bxstr_t));
    r->num_columns = nondet_size_t();
    g_cut = r;
    return r;
}
void bxs_free_c(bxstr_t *s) {}
int apply_substitutions_c(input_t *result, const int mode) { CHECK(mode == 0 && g_subst == 0, "the replacement rules are applied"); g_subst++; return 0; }
char *bxs_to_output_c(bxstr_t *s) { return malloc(1); }
void analyze_line_ascii_c(input_t *in, line_t *line)
{
    CHECK(line == in->lines + g_i && (line->text == g_b + g_i || line->text == g_cut), "every line is measured, after it was cut");
    if (line->text->num_columns > in->maxline) in->maxline = line->text->num_columns;
}
#endif
#define BODY_analyze_input_0 g_i = i;
#define BODY_analyze_input_1 g_i = i;
#include VC_SRC
#ifdef GVC
opt_t opt; input_t input; int num_designs; design_t *designs; int color_output_enabled;
#define STRMAX (1UL << 30)
#else
#include "bxsgen.h"
#define STRMAX 40
#endif

static line_t *gen_lines(size_t n)
{
#ifdef GVC
    line_t *l = malloc((n + 1) * sizeof(line_t));
    g_b = malloc(n * sizeof(bxstr_t));
    ASSUME(ALL(k_, 0, n, l[k_].text == g_b + k_));
    ASSUME(ALL(k_, 0, n, g_b[k_].indent <= (1UL << 30) && g_b[k_].indent <= g_b[k_].num_columns));
#else
    line_t *l = calloc(n + 1, sizeof(line_t));
    g_b = calloc(n + 1, sizeof(bxstr_t));
    for (size_t i = 0; i < n; i++) {
        uint32_t t[60];
        size_t k = 0, b = in_int(0, 4) ? in_size(0, 6) : 0, w = in_int(0, 4) ? in_size(1, 6) : 0;
        if (w) for (size_t q = 0; q < b; q++) t[k++] = in_int(0, 8) ? ' ' : 0x3000;
        for (size_t q = 0; q < w; q++) t[k++] = in_int(0, 9) == 0 ? 0x301 : q == 0 || in_int(0, 2) ? 'a' + (uint32_t) q : ' ';
        t[k] = 0;
        l[i].text = bxs_from_unicode(t);
        g_b[i] = *l[i].text;
    }
#endif
    return l;
}

void harness(void)
{
    size_t n = in_size(0, STRMAX);
#ifndef GVC
    encoding = "UTF-8";
#endif
#ifdef V_linebreak
    ASSUME(n < (1UL << 30));
    uint32_t *s = gen_text(n);
#ifndef GVC
    if (n && in_int(0, 2)) s[n - 1] = in_int(0, 1) ? '\n' : '\r';
#endif
    COVER("linebreak");
    CHECK((has_linebreak(s, (int) n) != 0) == (n > 0 && (s[n - 1] == '\n' || s[n - 1] == '\r')), "line break at the end");
    CHECK(has_linebreak(NULL, (int) n) == 0, "absent text");
#endif
#ifdef V_indent
    line_t *l = gen_lines(n);
    g_n = n; g_i = 0;
    int r = get_indent(l, n);
    COVER("indent");
    if (n > 5) COVER("indent with lines");
    CHECK(r >= 0, "indent: lines are no error");
    CHECK(ALL(k_, 0, n, IMPLIES(g_b[k_].num_columns > 0, (size_t) r <= g_b[k_].indent)), "indent: no line is indented less");
#ifndef GVC
    for (size_t k = 0; k < n; k++) if (g_b[k].num_columns > 0 && g_b[k].indent == (size_t) r) g_i = k;
#endif
    CHECK(r == 0 || r == LINE_MAX_BYTES || (g_i < n && g_b[g_i].num_columns > 0 && g_b[g_i].indent == (size_t) r), "indent: some line has exactly this indentation");
    CHECK(get_indent(NULL, n) < 0, "indent: no lines is an error");
#endif
#ifdef V_trim
    uint32_t *s = gen_text(n);
#ifndef GVC
    if (n && in_int(0, 2)) s[n - 1] = in_int(0, 1) ? '\n' : '\r';
    if (n > 1 && in_int(0, 2)) s[n - 2] = in_int(0, 2) ? '\r' : ' ';
    uint32_t *save = malloc((n + 1) * 4);
    memcpy(save, s, (n + 1) * 4);
    size_t g_called = 0;
#else
    uint32_t *save = malloc((n + 1) * sizeof(uint32_t));
    u32_cpy(save, s, n + 1);
    g_called = 0;
#endif
    opt.r = in_int(0, 1);
    size_t len = n;
    trim_trailing_ws_carefully(s, &len);
    COVER("trim");
    if (opt.r) {
        size_t w = n;
        if (w > 0 && save[w - 1] == '\n') w--;
        if (w > 0 && save[w - 1] == '\r') w--;
        CHECK(len == w && s[len] == 0 && ALL(k_, 0, len, s[k_] == save[k_]) && g_called == 0, "removing: exactly the line break is cut");
    }
#ifdef GVC
    else CHECK(g_called == 1 && s[len] == 0 && ALL(k_, 0, len, s[k_] == save[k_]), "drawing: trailing whitespace is cut");
#endif
#endif
#ifdef V_analyze
    static design_t des;
    input_t in;
    n = in_size(1, STRMAX);
    line_t *l = gen_lines(n);
    in.lines = l; in.num_lines = n;
    in.maxline = in_size(0, 1000); in.indent = in_size(0, 1000); in.final_newline = in_int(0, 1);
    opt.design = &des;
    des.indentmode = "btn"[in_int(0, 2)];
    opt.r = in_int(0, 1);
    int cut = des.indentmode != 't' && opt.r == 0;
    g_n = n; g_i = 0;
    int rc = analyze_input(&in);
    COVER("analyze");
    if (n > 5) COVER("analyze with lines");
    CHECK(rc == 0 && in.num_lines == n && in.lines == l, "analyze: lines are kept");
#ifdef GVC
    CHECK(in.indent == g_ind, "analyze: common indentation");
    CHECK(g_subst == (opt.r == 0), "analyze: rules are applied when drawing");
    if (!cut) CHECK(ALL(k_, 0, n, l[k_].text == g_b + k_), "analyze: lines keep their indentation");
    else CHECK(ALL(k_, 0, n, IMPLIES(g_b[k_].num_columns > 0 && g_ind > 0, l[k_].text != g_b + k_)), "analyze: every line with an indentation loses the common one");
#else
    size_t w = 0, m = LINE_MAX_BYTES;
    int any = 0;
    for (size_t i = 0; i < n; i++) if (g_b[i].num_columns > 0) { any = 1; if (g_b[i].indent < m) m = g_b[i].indent; }
    if (!any) m = 0;
    CHECK(in.indent == m, "analyze: common indentation");
    for (size_t i = 0; i < n; i++) {
        size_t d = cut && g_b[i].num_columns > 0 ? m : 0;
        CHECK(l[i].text->num_chars_visible == g_b[i].num_chars_visible - d, "analyze: exactly the common indentation is cut");
        if (l[i].text->num_columns > w) w = l[i].text->num_columns;
    }
    CHECK(in.maxline == w, "analyze: maxline is the width of the longest line");
#endif
#endif
}
