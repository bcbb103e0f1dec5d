//@title the course of the program: what is done, in which order, and when it ends
//@variants main cmd config build input draw remove color
//@src boxes.c
//@prop.main C06 C14 C11 C18
//@prop.cmd C08
//@prop.config C10 C12
//@prop.build C09 C08
//@prop.input C13 C14
//@prop.draw C05 C04
//@prop.remove C14 C17
//@prop.color C16
//@prop C05
//@funcs.main main
//@funcs.cmd handle_command_line
//@funcs.config handle_config_parsing
//@funcs.build build_design
//@funcs.input handle_input
//@funcs.draw handle_generate_box
//@funcs.remove handle_remove_box
//@funcs.color check_color_support
//@replace.main handle_command_line=cmd_c handle_config_parsing=config_c apply_expected_size=size_c handle_input=input_c adjust_size_and_padding=adjust_c handle_generate_box=draw_c handle_remove_box=remove_c list_designs=list_c query_by_tag=query_c check_encoding=enc_c check_color_support=color_c locale_charset=locale_c exit=exit_c activateSystemEncoding=nothing_c enable_ansi_mode=nothing_c
//@replace.cmd process_commandline=process_c usage_long=usage_c printf=printf_c exit=exit_c free=free_c
//@replace.config discover_config_file=discover_c parse_config_files=parse_c build_design=build_c exit=exit_c free=free_c
//@replace.build calloc=calloc_c bxs_from_ascii=bfa_c u32_strconv_from_arg=fromarg_c bxs_from_unicode=bfu_c genshape=genshape_c bxs_free=bfree_c strdup=sdup_c free=free_c
//@replace.input read_all_input=read_c analyze_input=analyze_c exit=exit_c free=free_c print_input_lines=nothingp_c
//@replace.draw generate_box=generate_c output_box=output_c exit=exit_c
//@replace.remove remove_box=rbox_c apply_substitutions=subst_c output_input=oinput_c exit=exit_c
//@replace.color terminal_has_colors=term_c
//@assume callees by their contracts (units cmdline, size, input_parts, input_read, gen_glue, output_box, remove_parts, apply_subst, list_parts, tag_query); exit does not return
//@noeffect bx_fprintf log_debug log_debug_cont is_debug_logging perror fprintf
//@nonative every whole-program unit runs main
#include "common.h"
#include "boxes.h"
#include "input.h"
#include "unicode.h"
#ifdef GVC
static opt_t g_o;
static design_t g_d[2];
static int g_cmd, g_conf, g_enc, g_col, g_in, g_adj, g_act, g_rc, g_ended, g_sized, g_mend0, g_step, g_cv, g_q;
static long g_mw, g_mh;
static char *g_ch, *g_loc, *g_qs[2];
static int g_im[2], g_want_exit;
/* what must have happened when the program ends early */
static int g_exit_ok, g_exit_rc;
void exit_c(int rc)
{
    CHECK(g_exit_ok, "the program ends only when it is done or cannot go on");
    CHECK((rc == 0) == (g_exit_rc == 0), "the exit status tells about success");
    COVER("exit");
    ASSUME(0);
}
void free_c(void *p) {}
void nothing_c(void) {}
void nothingp_c(const char *p) {}
#if defined(V_main)
void cmd_c(int argc, char **argv) { CHECK(!g_cmd, "the command line is read first, once"); g_cmd = 1; opt = g_o; }
const char *locale_c(void) { return g_loc; }
const char *enc_c(const char *want, const char *dflt) { CHECK(g_cmd && want == g_o.encoding && dflt == g_loc, "the encoding asked for, or that of the system"); g_enc = 1; return g_ch; }
int color_c(int c) { CHECK(g_cmd && c == g_o.color, "colours as asked for"); g_col = 1; return g_cv; }
void config_c(void)
{
    CHECK(g_cmd && g_enc && !g_conf, "designs are read once, in the effective encoding");
    g_conf = 1;
    opt.design = g_d;
}
#define READY CHECK(g_conf && g_enc && encoding == g_ch && g_col && color_output_enabled == g_cv, "command line, encoding, colours and designs are known")
int list_c(void) { READY; CHECK(g_o.l && !g_in, "designs are listed exactly if asked for"); g_exit_ok = 1; g_rc = nondet_bool() ? 1 : 0; g_exit_rc = g_rc; return g_rc; }
int query_c(void) { READY; CHECK(!g_o.l && g_q && !g_in, "designs are looked for exactly if asked for"); g_exit_ok = 1; g_rc = nondet_bool() ? 1 : 0; g_exit_rc = g_rc; return g_rc; }
void size_c(void)
{
    int k = (int) (opt.design - g_d);
    CHECK(!(g_sized >> k & 1), "the size is asked for once per design");
    g_sized |= 1 << k;
    g_mw = (long) in_size(0, 1000000); g_mh = (long) in_size(0, 1000000);
    g_d[k].minwidth = (size_t) g_mw; g_d[k].minheight = (size_t) g_mh;
}
void input_c(void) { READY; CHECK(!g_o.l && !g_q, "listing and queries read no input"); CHECK(g_in == g_act, "input is looked at before each phase"); CHECK(opt.mend == (g_mend0 ? 1 - g_in : -1), "read anew only in the first phase"); g_in++; }
void adjust_c(void)
{
    int k = (int) (opt.design - g_d);
    CHECK(g_in == g_act + 1 && g_adj == g_act, "padding is seen to once the input is known");
    CHECK((g_sized >> k & 1) && opt.design->minwidth == (size_t) g_mw && opt.design->minheight == (size_t) g_mh, "starting from the size asked for, for the design in use");
    CHECK(opt.design->indentmode == (g_o.indentmode ? g_o.indentmode : (char) g_im[k]), "the indentation asked for is in effect");
    g_adj++;
    opt.design->minwidth = in_size(0, 1000000); opt.design->minheight = in_size(0, 1000000);
}
#define ACT CHECK(g_adj == g_act + 1 && g_in == g_act + 1, "input and size are known")
void draw_c(void) { ACT; CHECK(g_mend0 ? g_act == 1 : !g_o.r && g_act == 0, "a box is drawn unless removal was asked for; when mending, after removing it"); g_act++; }
void remove_c(void)
{
    ACT;
    CHECK(g_act == 0 && (g_mend0 || g_o.r), "the box is removed first, if asked for");
    g_act++;
    if (nondet_bool()) opt.design = g_d + 1;
}
#elif defined(V_cmd)
static opt_t *g_p;
static FILE *g_out;
opt_t *process_c(int argc, char **argv)
{
    CHECK(!g_cmd, "read once");
    g_cmd = 1;
    if (nondet_bool()) { g_exit_ok = 1; g_exit_rc = 1; return NULL; }
    if (g_p->help || g_p->version_requested) { g_exit_ok = 1; g_exit_rc = 0; }
    return g_p;
}
void usage_c(FILE *f) { CHECK(g_p->help, "help is shown exactly if asked for"); }
int printf_c(const char *f, ...) { CHECK(g_p->version_requested && !g_p->help, "the version is shown exactly if asked for"); return 0; }
#elif defined(V_config)
static bxstr_t *g_f;
static design_t *g_ds;
static size_t g_n;
bxstr_t *discover_c(int global)
{
    CHECK(!global && !g_cmd, "the configuration file is looked for once, user directories included");
    g_cmd = 1;
    if (nondet_bool()) { g_exit_ok = 1; g_exit_rc = 1; return NULL; }
    return g_f;
}
design_t *parse_c(bxstr_t *f, size_t *n)
{
    CHECK(f == g_f && opt.cld == NULL && g_cmd, "the designs of the file found");
    if (nondet_bool()) { g_exit_ok = 1; g_exit_rc = 1; return NULL; }
    *n = g_n;
    g_conf = 1;
    return g_ds;
}
int build_c(design_t **d, const char *cld)
{
    CHECK(d == &designs && cld == g_o.cld && cld != NULL, "the design of the command line");
    if (nondet_bool()) { g_exit_ok = 1; g_exit_rc = 1; return 1; }
    g_conf = 2;
    *d = g_ds;
    return 0;
}
#elif defined(V_build)
static design_t g_bd;
static char *g_al[1], *g_tg[2], *g_cl, *g_asc, *g_ch1[NUM_SHAPES], *g_old;
static bxstr_t *g_cw, *g_other, *g_mb1[NUM_SHAPES];
static uint32_t *g_u;
static size_t g_gw[NUM_SHAPES], g_gh[NUM_SHAPES], g_n;
static int g_al_n, g_made, g_bad;
void *calloc_c(size_t n, size_t sz)
{
    if (n == 1 && sz == sizeof(design_t)) return &g_bd;
    if (n == 1) return g_al;
    CHECK(n == 2 && sz == sizeof(char *), "the list of tags");
    return g_tg;
}
bxstr_t *bfa_c(const char *s) { return g_other; }
uint32_t *fromarg_c(const char *s, const char *enc) { CHECK(s == g_cl && enc[0] == 'U' && enc[4] == '8', "the text given, in UTF-8"); return g_u; }
bxstr_t *bfu_c(const uint32_t *u) { CHECK(u == g_u, "the text given"); if (nondet_bool()) { g_bad = 1; return NULL; } return g_cw; }
void bfree_c(bxstr_t *b) { CHECK(b != g_cw && b != g_other, "only the blank lines of the new shape are given back"); }
int genshape_c(const size_t w, const size_t h, char ***c, bxstr_t ***m)
{
    int k = -1;
    for (int i = 0; i < NUM_SHAPES; i++) if (c == &g_bd.shape[i].chars) k = i;
    CHECK(k >= 0 && m == &g_bd.shape[k].mbcs && !(g_made >> k & 1), "each shape is made once");
    g_made |= 1 << k;
    g_gw[k] = w; g_gh[k] = h;
    if (nondet_bool()) { g_bad = 1; return 1; }
    *c = &g_ch1[k]; *m = &g_mb1[k];
    return 0;
}
char *sdup_c(const char *s) { CHECK(s == g_cw->ascii, "the ASCII form of the text given"); return g_asc; }
#elif defined(V_input)
static input_t *g_raw;
static size_t g_n;
input_t *read_c(void)
{
    CHECK(opt.mend != 0 && !g_cmd, "input is read once, unless a removed box is drawn again");
    g_cmd = 1;
    if (nondet_bool()) { g_exit_ok = 1; g_exit_rc = 1; return NULL; }
    return g_raw;
}
int analyze_c(input_t *in)
{
    CHECK(g_cmd == (opt.mend != 0) && in == (g_cmd ? g_raw : &input) && !g_in, "what was read, or what removal left, is analysed");
    g_in = 1;
    in->num_lines = g_n;
    if (nondet_bool()) { g_exit_ok = 1; g_exit_rc = 1; return 1; }
    if (g_n == 0) { g_exit_ok = 1; g_exit_rc = 0; }
    return 0;
}
#elif defined(V_draw)
static sentry_t *g_box;
int generate_c(sentry_t *b)
{
    CHECK(!g_step && b[BTOP].chars == NULL && b[BRIG].chars == NULL && b[BBOT].chars == NULL && b[BLEF].chars == NULL && b[BTOP].width == 0 && b[BLEF].height == 0, "starting from nothing");
    g_step = 1; g_box = b;
    if (nondet_bool()) { g_exit_ok = 1; g_exit_rc = 1; return 1; }
    return 0;
}
int output_c(sentry_t *b) { CHECK(g_step == 1 && b == g_box, "the box that was made is printed"); g_step = 2; return 0; }
#elif defined(V_remove)
int rbox_c(void) { CHECK(!g_step, "first"); g_step = 1; if (nondet_bool()) { g_exit_ok = 1; g_exit_rc = 1; return 1; } return 0; }
int subst_c(input_t *in, const int mode) { CHECK(g_step == 1 && in == &input && mode == 1, "rules that undo substitutions, on what is left"); g_step = 2; if (nondet_bool()) { g_exit_ok = 1; g_exit_rc = 1; return 1; } return 0; }
void oinput_c(const int trim) { CHECK(g_step == 2 && trim == (opt.mend > 0), "lines are only trimmed when they are boxed again"); g_step = 3; }
#else
int term_c(void) { g_step = 1; return g_cv; }
#endif
#endif
#define main boxes_main
#include VC_SRC
#undef main
#ifdef GVC
input_t input;
#endif
void harness(void)
{
#ifdef GVC
#if defined(V_main)
    g_ch = malloc(1); g_loc = malloc(1);
    g_mend0 = in_int(0, 1) ? 2 : 0;
    g_o.mend = g_mend0;
    g_o.r = g_mend0 ? 1 : in_int(0, 1);
    g_o.l = in_int(0, 1);
    int im = in_int(0, 3);
    g_o.indentmode = "\0btn"[im];
    g_q = in_int(0, 1);
    g_qs[0] = malloc(1); g_qs[1] = NULL;
    g_o.query = g_q ? g_qs : NULL;
    for (int k = 0; k < 2; k++) { g_im[k] = in_int(98, 120); g_d[k].indentmode = (char) g_im[k]; }
    g_o.color = in_int(0, 2);
    g_cv = in_int(0, 1);
    int rc = boxes_main(1, NULL);
    COVER("main");
    CHECK(rc == 0 && !g_o.l && !g_q, "success");
    CHECK(g_act == (g_mend0 ? 2 : 1), "every phase is done");
#elif defined(V_cmd)
    g_p = malloc(sizeof(opt_t));
    g_p->help = in_int(0, 1); g_p->version_requested = in_int(0, 1);
    int r = in_int(0, 1), ts = in_int(1, 100), ec = in_int(0, 2);
    long rw = in_int(0, 1000);
    g_p->r = r; g_p->tabstop = ts; g_p->reqwidth = rw; g_p->color = ec;
    int hp = g_p->help, vr = g_p->version_requested;
    handle_command_line(1, NULL);
    COVER("cmd");
    CHECK(g_cmd && !hp && !vr, "goes on unless help or the version were asked for");
    CHECK(opt.r == r && opt.tabstop == ts && opt.reqwidth == rw && (int) opt.color == ec, "with the options given");
#elif defined(V_config)
    g_f = malloc(sizeof(bxstr_t)); g_ds = malloc(sizeof(design_t));
    g_n = in_size(1, 1000000);
    char *cl = malloc(1);
    g_o.cld = in_int(0, 1) ? cl : NULL;
    opt.cld = g_o.cld;
    handle_config_parsing();
    COVER("config");
    CHECK(g_conf == (g_o.cld ? 2 : 1) && designs == g_ds && num_designs == (g_o.cld ? 1 : (int) g_n), "all designs are known");
    CHECK(opt.design == designs, "the first one is in use");
#elif defined(V_build)
    g_cl = malloc(1); g_asc = malloc(1); g_u = malloc(4); g_cw = malloc(sizeof(bxstr_t)); g_other = malloc(sizeof(bxstr_t));
    g_n = in_size(1, 1UL << 40);
    g_cw->num_columns = g_n;
    char *t = malloc(1);
    g_cw->ascii = t;
    design_t *list = NULL;
    int rc = build_design(&list, g_cl);
    if (rc) { COVER("build refused"); CHECK(g_bad, "only a text or shape that cannot be made is refused"); return; }
    COVER("build");
    CHECK(!g_bad && list == &g_bd, "the design is returned");
    CHECK(g_bd.shape[W].mbcs[0] == g_cw && g_bd.shape[W].chars[0] == g_asc && g_bd.shape[W].width == g_n && g_bd.shape[W].height == 1 && g_bd.shape[W].elastic == 1, "the western side is the text given, repeated as needed");
    for (int i = 0; i < NUM_SHAPES; i++) {
        sentry_t *c = g_bd.shape + i;
        int corner = i == NW || i == NE || i == SE || i == SW, side = i == N || i == E || i == S || i == W;
        CHECK((g_made >> i & 1) == (corner || side), "corners and sides exist, nothing else");
        if (!corner && !side) { CHECK(c->chars == NULL && c->mbcs == NULL && c->width == 0 && c->height == 0 && !c->elastic, "the other shapes are empty"); continue; }
        CHECK(c->width == g_gw[i] && c->height == g_gh[i] && g_gh[i] == 1, "made in the size recorded");
        CHECK(c->width == (i == NW || i == SW || i == W ? g_n : 1), "shapes of one side are equally wide");
        CHECK(c->elastic == side && (int) c->name == i, "sides stretch, corners do not");
    }
    CHECK(g_bd.minwidth == g_n + 2 && g_bd.minheight == 3 && g_bd.maxshapeheight == 1, "smallest size");
    CHECK(g_bd.padding[BLEF] == 1 && g_bd.padding[BRIG] == 0 && g_bd.padding[BTOP] == 0 && g_bd.padding[BBOT] == 0 && g_bd.indentmode == DEF_INDENTMODE, "one column of space behind the text given, otherwise defaults");
    CHECK(g_bd.name != NULL && g_bd.aliases == g_al && g_al[0] == NULL && g_bd.tags == g_tg && g_tg[0] != NULL && g_tg[1] == NULL && g_bd.sample == g_other && g_bd.defined_in == g_other, "a complete record");
#elif defined(V_input)
    g_raw = malloc(sizeof(input_t));
    g_n = in_size(0, 1UL << 40);
    size_t mx = in_size(0, 1UL << 40), ind = in_size(0, 1UL << 40);
    opt.mend = in_int(-1, 1);
    line_t *ls = malloc(1);
    g_raw->lines = ls; g_raw->maxline = mx; g_raw->indent = ind;
    input.lines = ls; input.maxline = mx; input.indent = ind;
    handle_input();
    COVER("input");
    CHECK(g_n > 0 && input.num_lines == g_n && input.lines == ls && input.maxline == mx && input.indent == ind, "the input is known");
#elif defined(V_draw)
    handle_generate_box();
    COVER("draw");
    CHECK(g_step == 2, "the box is made and printed");
#elif defined(V_remove)
    opt.mend = in_int(-1, 1);
    handle_remove_box();
    COVER("remove");
    CHECK(g_step == 3, "box removed, substitutions undone, result printed");
#else
    g_cv = in_int(0, 1);
    int c = in_int(0, 2);
    int r = check_color_support(c);
    COVER("color");
    CHECK(r == (c == force_ansi_color ? 1 : c == color_from_terminal ? g_cv : 0), "colours exactly if asked for, or left to a terminal that has them");
#endif
#endif
}
