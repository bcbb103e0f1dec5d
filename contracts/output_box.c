//@title output_box: every row of the box is printed once, in order: indentation, left side, top/blank/text/bottom, right side
//@variants indent left centre right
//@src generate.c
//@prop C05 C04
//@funcs output_box
//@loops output_box:0
//@replace justify_line=justify_c tabbify_indent=tabbify_c bxs_cut_front=cut_c u32_nspaces=nspaces_c bxs_concat=concat_c bxs_rtrim=rtrim_c bxs_to_output=to_output_c fprintf=fprintf_c bxs_free=free_c empty_side=empty_side_c new_empty_string32=new_empty_c set_char_at=set_c is_debug_logging=debug_c
//@noeffect bx_fprintf perror log_debug log_debug_cont
//@assume justify_line (unit justify), tabbify_indent (unit tabs.tabbify), bxs_cut_front (unit bxs_sub.cut_front), u32_nspaces (unit u32utils.nspaces), bxs_rtrim (unit bxs_sub.rtrim), empty_side (unit shapes.empty_side) by their contracts; bxs_concat joins its arguments (unit bxs_concat, bounded); debug output off; allocation succeeds
//@nonative the whole program is run by e2e_draw
//@link unicode.c shape.c
//@budget 300
#include "common.h"
#include "texts.h"
#include "boxes.h"
#include "shape.h"
#include "bxstring.h"
static size_t g_ti, g_ht, g_hb, g_nol, g_W, g_M, g_n, g_ind, g_tab, g_j, g_above, g_left, g_start, g_end, g_rows, g_ilen;
static int g_es[4], g_pt, g_pr, g_pb, g_pl, g_shift, g_eolok;
static bxstr_t *g_top, *g_bot, *g_lef, *g_rig, *g_txt;
static bxstr_t *g_obuf, *g_trim, *g_cut;
static char *g_out;
static sentry_t box[4];
static design_t des;
#define SPEC_ABOVE (g_pt + (opt.valign == 'c' ? g_vf / 2 : opt.valign == 'b' ? g_vf : 0))
static size_t g_vf, g_hf;
#define LOOP_output_box_0 vc_w(0, &g_rows), vc_w(0, &g_j), vc_w(0, &g_ti), vc_w(0, &g_shift), vc_w(0, &g_eolok), vc_w(0, &g_obuf), vc_w(0, &g_trim), vc_w(0, &g_cut), vc_w(0, &g_out), \
    vc_inv(0, j >= g_start && j <= g_nol - g_end && g_rows == j - g_start && vfill1 == (j <= g_ht ? g_above : j >= g_ht + g_above ? 0 : g_above - (j - g_ht)))
#define BODY_output_box_0 g_j = j; g_ti = 0; if (BODYROW) { g_ti = j - g_ht - g_above; ASSUME(LINE_OK(g_ti)); } g_obuf = NULL; g_trim = NULL; g_cut = NULL; g_out = NULL; g_eolok = 0;
/* which input line a row shows: its number, or -1 */
#define BODYROW (g_j >= g_ht + g_above && g_j < g_nol - g_hb && g_j - g_ht - g_above < g_n)
#define TI g_ti
/* every line has its text, not wider than the text block.  Instantiated for the line a row shows */
#define LINE_OK(q) (input.lines[q].text == g_txt + (q) && g_txt[q].num_columns <= g_M && g_txt[q].indent <= g_txt[q].num_columns)
int debug_c(int area) { return 0; }
static int is_in(void) { return 1; }
int justify_c(line_t *line, int skew)
{
    CHECK(BODYROW && line == input.lines + TI, "the line of this row is justified");
    CHECK(skew == (int) (g_W - g_M - g_left) - (int) g_left, "by the blanks right and left of the text block");
    int s = nondet_int();
    long at = (long) g_txt[TI].indent + s;
    ASSUME(s == 0 || (at >= 0 && at + (long) (g_txt[TI].num_columns - g_txt[TI].indent) <= (long) g_M));
    g_shift = s;
    return s;
}
uint32_t *tabbify_c(const size_t lineno, uint32_t *indentspc, const size_t len)
{
    CHECK(len == g_ilen, "the indentation of the box");
    CHECK(lineno == (BODYROW ? TI : g_j < g_ht + g_above ? 0 : g_n - 1), "kept tabs are those of the line, or of the first or last line above and below the text");
    if (des.indentmode == 'b') {
        size_t nt = opt.tabexp == 'u' ? g_ind / g_tab : 0;
        CHECK(ALL(q_, 0, nt, indentspc[q_] == '\t') && ALL(q_, nt, g_ilen, indentspc[q_] == ' '), "tabs first, then spaces");
    }
    CHECK(indentspc[g_ilen] == 0, "and nothing else");
    if (opt.tabexp == 'k') return malloc(4);
    return indentspc;
}
bxstr_t *cut_c(bxstr_t *s, size_t n)
{
    CHECK(BODYROW && s == g_txt + TI, "the text of this row");
    CHECK(n == (g_shift < 0 ? (size_t) -g_shift : 0), "loses exactly the blanks justification takes away");
    CHECK(n <= s->indent, "and nothing but blanks");
    g_cut = malloc(sizeof(bxstr_t));
    uint32_t *m = malloc(4);
    g_cut->memory = m;
    return g_cut;
}
/* n spaces: the object has room for exactly n and the end; lengths are read off its size below */
uint32_t *nspaces_c(const size_t n) { CHECK(n <= 1UL << 40, "not negative"); return malloc(n * 4 + 4); }
#define SPC(p) (vc_objsize(p) / 4 - 1)
uint32_t *new_empty_c(void) { uint32_t *r = malloc(4); *r = 0; return r; }
void set_c(uint32_t *s, const size_t idx, const ucs4_t c) { s[idx] = c; }
int empty_side_c(sentry_t *s, const int side) { CHECK(s == des.shape, "sides of the design"); return g_es[side]; }
bxstr_t *concat_c(const size_t n, const uint32_t *a, const uint32_t *b, const uint32_t *c, const uint32_t *d, const uint32_t *e, const uint32_t *f, const uint32_t *g, const uint32_t *h)
{
    CHECK(a != NULL && vc_alive(a), "the indentation comes first");
#ifndef V_indent      /* the rest of the row: other variants */
    CHECK(g_es[BLEF] ? SPC(b) == 0 : b == g_lef[g_j].memory, "then this row of the left side, unless it is left out");
    if (BODYROW) {
        CHECK(n == 8, "text row");
        CHECK(h == g_rig[g_j].memory, "at the end this row of the right side");
        CHECK(ALL(q_, 0, g_left, c[q_] == ' ') && c[g_left] == 0, "blanks left of the text block");
        CHECK(SPC(d) == (g_shift > 0 ? (size_t) g_shift : 0), "blanks added by justification");
        CHECK(g_cut != NULL && e == g_cut->memory, "the text");
        CHECK(ALL(q_, 0, g_W - g_M - g_left, f[q_] == ' ') && f[g_W - g_M - g_left] == 0, "blanks right of the text block");
        CHECK((long) SPC(g) + (long) g_txt[TI].num_columns + g_shift == (long) g_M, "the line is filled up to the width of the text block");
    }
    else {
        CHECK(n == 4, "frame or blank row");
        CHECK(d == g_rig[g_j].memory, "at the end this row of the right side");
        if (g_j < g_ht) CHECK(c == g_top[g_j].memory, "this row of the top");
        else if (g_j >= g_nol - g_hb) CHECK(c == g_bot[g_j - (g_nol - g_hb)].memory, "this row of the bottom");
        else CHECK(SPC(c) == g_W, "blanks over the whole width");
    }
#endif
    g_obuf = malloc(sizeof(bxstr_t));
    return g_obuf;
}
bxstr_t *rtrim_c(bxstr_t *s) { CHECK(s == g_obuf, "the row loses trailing blanks"); g_trim = malloc(sizeof(bxstr_t)); return g_trim; }
char *to_output_c(bxstr_t *s) { CHECK(s == g_trim && s != NULL, "the row is printed"); g_out = malloc(1); return g_out; }
void free_c(bxstr_t *s) {}
int fprintf_c(FILE *f, const char *fmt, const char *s, const char *e)
{
    CHECK(f == opt.outfile && s == g_out && s != NULL, "the row goes to the output");
    CHECK(fmt[0] == '%' && fmt[1] == 's' && fmt[2] == '%' && fmt[3] == 's' && fmt[4] == 0, "row, then line end");
    int last = g_j == g_nol - g_end - 1;
    if (input.final_newline || !last) CHECK(e == opt.eol, "every row ends with the line end");
    else CHECK(e[0] == 0, "the last row only if the input's did");
    g_rows++;
    return 0;
}
#include VC_SRC
opt_t opt; input_t input; int num_designs; design_t *designs; int color_output_enabled;
void harness(void)
{
    vc_havoc_obj(&opt); vc_havoc_obj(&des); vc_havoc_obj(&input);      /* everything arbitrary unless restricted below */
    opt.design = &des;
    size_t ht = in_size(1, MAXDIM), hb = in_size(1, MAXDIM), W = in_size(0, 1UL << 30), M = in_size(0, 1UL << 30), n = in_size(1, 1UL << 30), vf = in_size(0, 1UL << 30), hf = in_size(0, 1UL << 30);
    int pt = in_int(0, 1000), pr = in_int(0, 1000), pb = in_int(0, 1000), pl = in_int(0, 1000);
    des.padding[BTOP] = pt; des.padding[BRIG] = pr; des.padding[BBOT] = pb; des.padding[BLEF] = pl;
    g_pt = pt; g_pr = pr; g_pb = pb; g_pl = pl; g_vf = vf; g_hf = hf; g_ht = ht; g_hb = hb; g_M = M; g_n = n;
    /* what planning guarantees: room for text and padding */
    ASSUME(W == M + hf + (size_t) pl + (size_t) pr);
    g_W = W;
    size_t nol = ht + hb + n + vf + (size_t) pt + (size_t) pb;
    g_nol = nol;
    for (int k = 0; k < 4; k++) g_es[k] = in_int(0, 1);
    g_start = g_es[BTOP] ? des.shape[NW].height : 0;
    g_end = g_es[BBOT] ? des.shape[SW].height : 0;
    ASSUME(des.shape[NW].height == ht && des.shape[SW].height == hb && des.shape[NW].width > 0);
    g_ind = in_size(0, 1UL << 30);
    input.indent = g_ind; input.maxline = M; input.num_lines = n;
    int tb = in_int(1, 100); opt.tabstop = tb; g_tab = (size_t) tb;
#ifdef V_indent
    int im = in_int(0, 2), te = in_int(0, 2), va = 0, ha = 0;
#define NAME "indent"
#else
    int im = 1, te = 0, va = in_int(0, 2);
#ifdef V_left
    int ha = 0;
#define NAME "left"
#elif defined(V_centre)
    int ha = 1;
#define NAME "centre"
#else
    int ha = 2;
#define NAME "right"
#endif
#endif
    des.indentmode = im == 0 ? 'b' : im == 1 ? 't' : 'n';
    opt.tabexp = te == 0 ? 'e' : te == 1 ? 'u' : 'k';
    opt.valign = va == 0 ? 't' : va == 1 ? 'c' : 'b';
    opt.halign = ha == 0 ? 'l' : ha == 1 ? 'c' : 'r';
    g_ilen = im != 0 ? 0 : te == 1 ? g_ind / g_tab + g_ind % g_tab : g_ind;
    ASSUME(g_ilen <= 1UL << 31);
    g_above = (size_t) pt + (va == 1 ? vf / 2 : va == 2 ? vf : 0);
    g_left = (size_t) pl + (ha == 1 ? hf / 2 : ha == 2 ? hf : 0);
    char eol[3];
    opt.eol = eol;
    FILE *fo = malloc(1);
    opt.outfile = fo;
    box[BTOP].width = W; box[BTOP].height = ht; box[BBOT].width = W; box[BBOT].height = hb;
    box[BLEF].height = nol; box[BRIG].height = nol;
    box[BTOP].mbcs = malloc(ht * sizeof(bxstr_t *)); box[BBOT].mbcs = malloc(hb * sizeof(bxstr_t *));
    box[BLEF].mbcs = malloc(nol * sizeof(bxstr_t *)); box[BRIG].mbcs = malloc(nol * sizeof(bxstr_t *));
    g_top = malloc(ht * sizeof(bxstr_t)); g_bot = malloc(hb * sizeof(bxstr_t)); g_lef = malloc(nol * sizeof(bxstr_t)); g_rig = malloc(nol * sizeof(bxstr_t));
    ASSUME(ALL(q_, 0, ht, box[BTOP].mbcs[q_] == g_top + q_) && ALL(q_, 0, hb, box[BBOT].mbcs[q_] == g_bot + q_));
    ASSUME(ALL(q_, 0, nol, box[BLEF].mbcs[q_] == g_lef + q_) && ALL(q_, 0, nol, box[BRIG].mbcs[q_] == g_rig + q_));
    line_t *l = malloc(n * sizeof(line_t));
    g_txt = malloc(n * sizeof(bxstr_t));
    input.lines = l;
    g_rows = 0;
    int rc = output_box(box);
    if (n > 2 && W > 10) COVER(NAME);
    CHECK(rc == 0, "succeeds");
    CHECK(g_rows == nol - g_start - g_end, "every row is printed");
}
