//@title justify_line: each line is shifted to the left edge, the centre or the right edge of the text block
//@variants justify
//@src generate.c
//@prop C05
//@funcs justify_line
//@replace empty_line=empty_line_c bxs_to_output=bxs_to_output_c
//@link tools.c unicode.c bxstring.c
//@noeffect bx_fprintf log_debug log_debug_cont is_debug_logging
//@assume empty_line by its contract (unit bxs_query.isblank)
#include "common.h"
#include "texts.h"
#include "boxes.h"
static int g_blank;
#ifdef GVC
int empty_line_c(const line_t *line) { return g_blank; }
char *bxs_to_output_c(bxstr_t *s) { return malloc(1); }
#endif
#include VC_SRC
#ifdef GVC
opt_t opt; input_t input; int num_designs; design_t *designs; int color_output_enabled;
#endif
void harness(void)
{
    static design_t des;
    GEN_GLOBALS(&des);
    bxstr_t t;
    line_t l;
#ifdef GVC
    size_t maxl = in_size(0, 1UL << 30), ind = in_size(0, 1UL << 30), cols = in_size(0, 1UL << 30), lead = in_size(0, 1UL << 30);
#else
    size_t maxl = in_size(0, 60), ind = in_size(0, maxl), cols = in_size(0, maxl), lead = in_size(0, cols);
#endif
    int textual = in_int(0, 1), blank = in_int(0, 3) == 0;
    char ju = in_char(0, 3);
    int skew0 = in_int(-1000000, 1000000);
    des.indentmode = textual ? 't' : in_int(0, 1) ? 'b' : 'n';
    opt.justify = ju == 0 ? 0 : ju == 1 ? 'l' : ju == 2 ? 'c' : 'r';
    ASSUME(ind <= maxl && lead <= cols && cols <= maxl && (!textual || blank || ind <= lead));
    input.maxline = maxl; input.indent = ind;
    t.num_columns = cols; t.indent = lead; t.num_chars = cols; t.num_chars_invisible = 0; t.num_chars_visible = cols;
    l.text = &t;
#ifdef GVC
    g_blank = blank;
#else
    ASSUME(blank == 0 || cols == 0);
    static uint32_t mem[100]; static char asc[100]; static size_t vis[100];
    for (size_t k = 0; k < cols; k++) { mem[k] = k < lead ? ' ' : 'x'; asc[k] = (char) mem[k]; vis[k] = k; }
    mem[cols] = 0; asc[cols] = 0; vis[cols] = cols;
    t.memory = mem; t.ascii = asc; t.first_char = t.visible_char = vis; t.trailing = 0;
    blank = cols == lead;
    if (blank) { t.indent = cols; }
    if (in_int(0, 3)) { skew0 = (skew0 % 5); if (in_int(0, 1)) skew0 += textual ? (int) ind : 0; }
#endif
    long base = textual ? (long) ind : 0, len = (long) cols - (long) lead, M = (long) maxl;
    int r = justify_line(&l, skew0);
    COVER("justify");
    CHECK(IMPLIES(blank || ju == 0, r == 0), "blank lines and lines without justification stay where they are");
    if (!blank && ju) {
        long at = (long) lead + r;
        CHECK(IMPLIES(ju == 1, at == base), "left edge of the text block");
        CHECK(IMPLIES(ju == 3, at + len == M), "right edge of the text block");
        CHECK(IMPLIES(ju == 2, (at - base) * 2 + len == M - base || (at - base) * 2 + len == M - base - 1 || (at - base) * 2 + len == M - base + 1), "centre of the text block");
        CHECK(IMPLIES(ju == 2, ((at - base) * 2 + len == M - base + 1) == ((M - base - len) % 2 == 1 && (long) skew0 - base == 1)), "an odd remainder goes to the left exactly if the block itself sits one column to the left");
        CHECK(at >= 0 && at + len <= M, "the shifted line stays within the text block");
    }
    CHECK(t.num_columns == cols && t.indent == lead && l.text == &t, "the line itself is unchanged");
}
