//@title command line: what each option does, the defaults, and when the command line is refused
//@variants loop defaults design create tags
//@src cmdline.c
//@exclude boxes.c
//@prop C08
//@funcs.loop process_commandline
//@funcs.defaults create_new_opt
//@funcs.design design_choice
//@funcs.create command_line_design
//@funcs.tags query
//@loops.loop process_commandline:1
//@replace.loop getopt_long=getopt_c alignment=align_c command_line_design=cld_c design_choice=design_c eol_override=eol_c indentation_mode=indent_c killblank=kill_c padding=pad_c query=query_c size_of_box=size_c tab_handling=tabs_c undocumented_options=undoc_c input_output_files=files_c print_debug_info=info_c usage_short=usage_c create_new_opt=new_c strcmp=scmp_c strdup=sdup_c free=free_c
//@replace.design strdup=sdup_c free=free_c
//@replace.create strdup=sdup_c strlen=slen_c
//@replace.tags parse_query=parse_c
//@assume getopt_long delivers one option after the other (C library); the handlers of the single options by their contracts (units cmdline, tag_query); memory allocation succeeds
//@noeffect bx_fprintf log_debug is_debug_logging log_debug_cont perror
//@nonative cmdline.opts compares whole command lines with a reference reading of the manual
#include "common.h"
#include "texts.h"
#include <limits.h>
#include <getopt.h>
#include "boxes.h"
#include "cmdline.h"
#ifdef GVC
static char *g_arg, *g_f, *g_enc, *g_dup, **g_av, **g_qs;
static opt_t *g_res;
static int g_code, g_failed, g_stop, g_kb, g_r, g_mend, g_l, g_color, g_hasf, g_hasn, g_usage, g_files, g_q, g_argc, g_todo, g_info;
#if defined(V_loop)
#define TODO(c) CHECK(o == g_res && a == g_arg && g_code == (c) && g_todo, "the argument of the option goes to the setting of that name, once"); g_todo = 0; if (nondet_bool()) { g_failed = 1; return 1; } return 0
opt_t *new_c(void) { return g_res; }
int scmp_c(const char *a, const char *b) { CHECK(a == g_av[1] && b[0] == '-' && b[1] == '?' && b[2] == 0, "only -? is looked for"); return g_q ? 0 : 1; }
int align_c(opt_t *o, char *a) { TODO('a'); }
int cld_c(opt_t *o, char *a) { TODO('c'); }
int design_c(opt_t *o, char *a) { TODO('d'); }
int eol_c(opt_t *o, char *a) { TODO('e'); }
int indent_c(opt_t *o, char *a) { TODO('i'); }
int kill_c(opt_t *o, const char *a)
{
    CHECK(o == g_res && a == g_arg && g_code == 'k' && g_todo, "the argument of the option goes to the setting of that name, once");
    g_todo = 0;
    if (nondet_bool()) { g_failed = 1; return 1; }
    if (o->killblank == -1) { int v = nondet_bool() ? 1 : 0; o->killblank = v; g_kb = v; }
    return 0;
}
int pad_c(opt_t *o, char *a) { TODO('p'); }
int query_c(opt_t *o, char *a) { TODO('q'); }
int size_c(opt_t *o, char *a) { TODO('s'); }
int tabs_c(opt_t *o, char *a) { TODO('t'); }
int undoc_c(opt_t *o, char *a) { TODO('x'); }
char *sdup_c(const char *s)
{
    CHECK(s == g_arg && (g_code == 'f' || g_code == 'n') && g_todo, "the argument of the option");
    g_todo = 0;
    if (g_code == 'f') { g_hasf = 1; return g_f; }
    g_hasn = 1;
    return g_enc;
}
void free_c(void *p) { CHECK(p == (void *) g_res && g_failed, "settings are dropped only when the command line is refused"); }
void usage_c(FILE *f) { CHECK(g_code == '?' || g_code == ':', "an unknown option or a missing argument"); g_usage = 1; }
int files_c(opt_t *o, char **v, int n) { CHECK(o == g_res && v == g_av && g_code == -1 && !g_files, "file names come after all options"); g_files = 1; if (nondet_bool()) { g_failed = 1; return 1; } return 0; }
void info_c(opt_t *o) { CHECK(o == g_res, "the settings"); }
int getopt_c(int argc, char *const *v, const char *s, const struct option *l, int *i)
{
    CHECK(argc == g_argc && v == (char *const *) g_av && !g_stop && !g_failed, "all arguments of the program, as long as nothing is wrong");
    CHECK(!g_todo, "the option before was taken care of");
    g_code = nondet_int();
    optarg = g_arg;
    int c = g_code;
    if (c == 'h' || c == 'v' || c == -1) g_stop = 1;
    else if (c == OPT_COLOR) g_color = force_ansi_color;
    else if (c == OPT_NO_COLOR) g_color = force_monochrome;
    else if (c == OPT_KILLBLANK) { if (g_kb == -1) g_kb = 1; }
    else if (c == OPT_NO_KILLBLANK) { if (g_kb == -1) g_kb = 0; }
    else if (c == 'l') g_l = 1;
    else if (c == 'r') g_r = 1;
    else if (c == 'm') { g_mend = 2; g_r = 1; g_kb = 0; }
    else if (c == 'a' || c == 'c' || c == 'd' || c == 'e' || c == 'f' || c == 'i' || c == 'k' || c == 'n' || c == 'p' || c == 'q' || c == 's' || c == 't' || c == 'x') g_todo = 1;
    else g_failed = 1;
    return c;
}
#define SET(res) ((res)->killblank == g_kb && (res)->r == g_r && (res)->mend == g_mend && (res)->l == g_l && (res)->color == g_color && (g_hasf ? (res)->f == g_f : (res)->f == NULL) && (g_hasn ? (res)->encoding == g_enc : (res)->encoding == NULL))
#define LOOP_process_commandline_1 vc_w(1, g_res), vc_w(1, &option_index), vc_w(1, &optarg), vc_inv(1, result == g_res && !g_stop && !g_failed && !g_todo && !g_usage && !g_files && g_kb >= -1 && g_kb <= 1 && SET(result) && result->help == 0 && result->version_requested == 0 && result->tabstop == 8 && result->tabexp == 'e')
#else
static int g_n;
char *sdup_c(const char *s) { CHECK(s == g_arg, "a copy of the argument"); return g_dup; }
size_t slen_c(const char *s) { CHECK(s == g_arg, "the argument"); return (size_t) g_n; }
void free_c(void *p) {}
char **parse_c(char *a) { CHECK(a == g_arg, "the query given"); return g_qs; }
#endif
#endif
#include VC_SRC
#ifdef GVC
opt_t opt; input_t input; int num_designs; design_t *designs; int color_output_enabled;
void harness(void)
{
    g_arg = malloc(1); g_f = malloc(1); g_enc = malloc(1); g_dup = malloc(1);
    g_res = malloc(sizeof(opt_t));
#if defined(V_loop)
    g_av = malloc(2 * sizeof(char *));
    g_argc = in_int(1, 2);
    g_q = in_int(0, 1);
    g_kb = -1; g_color = color_from_terminal;
    g_res->killblank = -1; g_res->color = color_from_terminal; g_res->r = g_res->mend = g_res->l = g_res->help = g_res->version_requested = 0;
    g_res->f = NULL; g_res->encoding = NULL; g_res->tabstop = 8; g_res->tabexp = 'e';
    int one = g_argc == 2 && g_av[1] != NULL && g_q;
    opt_t *r = process_commandline(g_argc, g_av);
    if (one) { COVER("loop help"); CHECK(r == g_res && r->help == 1, "-? asks for help"); return; }
    if (r == NULL) { COVER("loop refused"); CHECK(g_failed, "only a wrong command line is refused"); return; }
    CHECK(r == g_res && !g_failed, "a wrong command line is refused");
    CHECK((r->help != 0) == (g_code == 'h') && (r->version_requested != 0) == (g_code == 'v'), "help and version exactly if asked for");
    if (g_code == 'h' || g_code == 'v') { COVER("loop info"); return; }
    COVER("loop");
    CHECK(g_files && g_code == -1, "all options were read, then the file names");
    CHECK(SET(r), "every option has the effect documented, and no other");
    CHECK(r->tabstop == 8 && r->tabexp == 'e', "what was not asked for stays as it was");
#elif defined(V_defaults)
    opt_t *r = create_new_opt();
    COVER("defaults");
    CHECK(r->color == color_from_terminal && r->tabstop == 8 && r->tabexp == 'e' && r->killblank == -1 && r->eol[0] == '\n' && r->eol[1] == 0, "defaults as documented");
    CHECK(r->padding[BTOP] == -1 && r->padding[BRIG] == -1 && r->padding[BBOT] == -1 && r->padding[BLEF] == -1, "padding is that of the design");
    CHECK(r->r == 0 && r->mend == 0 && r->l == 0 && r->help == 0 && r->version_requested == 0 && r->reqwidth == 0 && r->reqheight == 0 && r->indentmode == 0 && r->justify == 0 && r->halign == 0 && r->valign == 0 && r->design_choice_by_user == 0, "nothing else is asked for");
    CHECK(r->f == NULL && r->cld == NULL && r->encoding == NULL && r->query == NULL && r->design == NULL, "no names are given");
#elif defined(V_design)
    int had = in_int(0, 1);
    design_t *old = malloc(1);
    g_res->design = had ? old : NULL; g_res->design_choice_by_user = 0;
    int rc = design_choice(g_res, g_arg);
    COVER("design");
    CHECK(rc == 0 && g_res->design_choice_by_user == 1 && (char *) g_res->design == g_dup, "the name of the design is kept, the last one given counts");
#elif defined(V_create)
    g_n = in_int(0, 1000000);
    g_res->design_choice_by_user = 0; g_res->cld = NULL;
    int rc = command_line_design(g_res, g_arg);
    COVER("create");
    CHECK((rc == 0) == (g_n > 0), "an empty design is refused");
    CHECK(rc ? g_res->cld == NULL : g_res->cld == g_dup && g_res->design_choice_by_user == 1, "the design is kept");
#else
    int ok = in_int(0, 1);
    char **q = malloc(8);
    g_qs = ok ? q : NULL;
    int rc = query(g_res, g_arg);
    COVER("tags");
    CHECK((rc == 0) == ok && IMPLIES(rc == 0, g_res->query == g_qs), "a query that cannot be read is refused");
#endif
}
#else
void harness(void) { }
#endif
