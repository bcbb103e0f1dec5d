//@title command line: alignment, padding, size, tabs, indentation, line terminator, blank-line and file arguments
//@variants align pad size tabs indent eol kill files opts
//@src cmdline.c
//@prop C08
//@exclude boxes.c
//@funcs.align alignment
//@funcs.pad padding
//@funcs.size size_of_box
//@funcs.tabs tab_handling
//@funcs.indent indentation_mode
//@funcs.eol eol_override
//@funcs.kill killblank
//@funcs.files input_output_files get_stdout_configured
//@funcs.opts process_commandline create_new_opt alignment padding size_of_box tab_handling indentation_mode eol_override killblank command_line_design design_choice
//@mode.opts bounded
//@bound.opts up to 6 options per command line, each with valid, invalid and random arguments
//@secs.opts 8
//@native.opts 4000000
//@loops.align alignment:0
//@loops.pad padding:0
//@replace.pad strtol=strtol_c
//@replace.size strtol=strtol_c strchr=strchr_c
//@replace.tabs strtol=strtol_c
//@replace.align strchr=strchr_lit
//@replace.kill strisyes=strisyes_c strisno=strisno_c
//@replace.files fopen=fopen_c fclose=fclose_c usage_short=usage_c perror=perror_c
//@noeffect bx_fprintf log_debug is_debug_logging log_debug_cont
//@assume strtol reads blanks, a sign and the longest run of digits, sets errno exactly on overflow, and answers 0 with nothing consumed where there is no number
//@unwind 12
#include "common.h"
#include "texts.h"
#include <limits.h>
#include <errno.h>
#include "boxes.h"
#ifdef GVC
#define STRMAX (1UL << 30)
#else
#define STRMAX 12
#endif
static char *g_t;
#ifdef GVC
#define SAMEO(p, q) (__CPROVER_POINTER_OBJECT(p) == __CPROVER_POINTER_OBJECT(q))
#else
#define SAMEO(p, q) 1
#endif
static size_t g_n;
/* SUF[k]: the text from k on consists of valid groups only.  LAST*[k]: the value the last of those groups gives to the setting, or none.
 * for the verifier: arbitrary tables with exactly the defining clauses, instantiated at the position in hand; natively computed */
static unsigned char *SUF;
static char *LH, *LV, *LJ;
static long *LP;
#define LC(c) ((c) >= 'A' && (c) <= 'Z' ? (c) + 32 : (c))
#define IS_LCR(c) (LC(c) == 'l' || LC(c) == 'c' || LC(c) == 'r')
#define IS_TCB(c) (LC(c) == 't' || LC(c) == 'c' || LC(c) == 'b')
#define A_ONE(k) IS_LCR(g_t[k])
#define A_TWO(k) ((LC(g_t[k]) == 'h' && IS_LCR(g_t[(k) + 1])) || (LC(g_t[k]) == 'v' && IS_TCB(g_t[(k) + 1])) || (LC(g_t[k]) == 'j' && IS_LCR(g_t[(k) + 1])))
#define A_LEN(k) (A_ONE(k) ? 1 : 2)
#define A_OK(k) (A_ONE(k) || A_TWO(k))
#define A_H(k) (A_ONE(k) ? LC(g_t[k]) : LC(g_t[k]) == 'h' ? LC(g_t[(k) + 1]) : 0)
#define A_V(k) (A_ONE(k) ? 'c' : LC(g_t[k]) == 'v' ? LC(g_t[(k) + 1]) : 0)
#define A_J(k) (A_ONE(k) ? LC(g_t[k]) : LC(g_t[k]) == 'j' ? LC(g_t[(k) + 1]) : 0)
#define OR(a, b) ((a) != 0 ? (a) : (b))
#define A_DEF(k) (A_OK(k) ? SUF[k] == SUF[(k) + A_LEN(k)] && LH[k] == OR(LH[(k) + A_LEN(k)], A_H(k)) && LV[k] == OR(LV[(k) + A_LEN(k)], A_V(k)) \
    && LJ[k] == OR(LJ[(k) + A_LEN(k)], A_J(k)) : SUF[k] == 0)
static char g_oh, g_ov, g_oj;
#define LOOP_alignment_0 vc_w(0, result), vc_inv(0, SAMEO(p, g_t) && p >= g_t && (size_t) (p - g_t) <= g_n && SUF[0] == SUF[p - g_t] && errfl == (p == g_t) \
    && OR(LH[0], g_oh) == OR(LH[p - g_t], result->halign) && OR(LV[0], g_ov) == OR(LV[p - g_t], result->valign) && OR(LJ[0], g_oj) == OR(LJ[p - g_t], result->justify))
#define BODY_alignment_0 ASSUME(A_DEF(p - g_t))
/* numbers: VAL[k] = the number at position k, END[k] = where it ends, BIG[k] = it does not fit a long, or an int */
static long *VAL;
static size_t *END;
static unsigned char *BIG;
#define DIG(c) ((c) >= '0' && (c) <= '9')
static size_t g_q;       /* an arbitrary side */
static long g_op;
#define P_COVERS(c) (LC(c) == 'a' || (LC(c) == 'h' && (g_q == BLEF || g_q == BRIG)) || (LC(c) == 'v' && (g_q == BTOP || g_q == BBOT)) || (LC(c) == 't' && g_q == BTOP) \
    || (LC(c) == 'b' && g_q == BBOT) || (LC(c) == 'l' && g_q == BLEF) || (LC(c) == 'r' && g_q == BRIG))
#define P_LET(c) (LC(c) == 'a' || LC(c) == 'h' || LC(c) == 'v' || LC(c) == 't' || LC(c) == 'b' || LC(c) == 'l' || LC(c) == 'r')
#define P_OK(k) (P_LET(g_t[k]) && DIG(g_t[(k) + 1]) && !BIG[(k) + 1])
#define ORP(a, b) ((a) >= 0 ? (a) : (b))
#define P_DEF(k) (P_OK(k) ? SUF[k] == SUF[END[(k) + 1]] && LP[k] == ORP(LP[END[(k) + 1]], P_COVERS(g_t[k]) ? VAL[(k) + 1] : -1) : SUF[k] == 0)
#define LOOP_padding_0 vc_w(0, result), vc_w(0, &g_errno), vc_w(0, &p), vc_inv(0, SAMEO(p, g_t) && p >= g_t && (size_t) (p - g_t) <= g_n && SUF[0] == SUF[p - g_t] && errfl == (p == g_t) \
    && ORP(LP[0], g_op) == ORP(LP[p - g_t], result->padding[g_q]))
#define BODY_padding_0 ASSUME(P_DEF(p - g_t))
#ifdef GVC
static int g_errno;
int *__errno_location(void) { return &g_errno; }
static size_t g_cut;       /* where the text has been cut for the moment */
static size_t g_x;
static int g_has;
long strtol_c(const char *s, char **e, int base)
{
    size_t k = (size_t) (s - g_t);
    CHECK(s == g_t + k && k <= g_n, "a number is read inside the text");
    CHECK(base == 10, "numbers are decimal");
    ASSUME(END[k] >= k && END[k] <= g_n);
    ASSUME(IMPLIES(DIG(g_t[k]), END[k] > k && VAL[k] >= 0));
    ASSUME(IMPLIES(END[k] == k, VAL[k] == 0 && !BIG[k]));
    if (BIG[k]) {
        if (nondet_bool()) { g_errno = 34; ASSUME(VAL[k] == LONG_MAX || VAL[k] == -LONG_MAX - 1); }
        else ASSUME(VAL[k] > INT_MAX || VAL[k] < -INT_MAX - 1L);
    }
    else ASSUME(VAL[k] <= INT_MAX && VAL[k] >= -INT_MAX - 1L);
    if (e) *e = g_t + END[k];
    return VAL[k];
}
/* the first occurrence: an arbitrary one for each of the two letters; a number at the front ends before the letter */
static size_t g_xl, g_xu;
char *strchr_c(const char *s, int c)
{
    CHECK(s == g_t && (c == 'x' || c == 'X'), "the letter is looked for in the whole text");
    size_t k = c == 'x' ? g_xl : g_xu;
    return k < g_n ? g_t + k : NULL;
}
char *strchr_lit(const char *s, int c)
{
    for (size_t i = 0; ; i++) {
        if (s[i] == (char) c) return (char *) s + i;
        if (s[i] == 0) return NULL;
    }
}
int strcasecmp(const char *a, const char *b)
{
    for (size_t i = 0; ; i++) {
        char x = LC(a[i]), y = LC(b[i]);
        if (x != y) return x < y ? -1 : 1;
        if (b[i] == 0) return 0;
    }
}
int strcmp(const char *a, const char *b)
{
    for (size_t i = 0; ; i++) {
        if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1;
        if (b[i] == 0) return 0;
    }
}
int strncasecmp(const char *a, const char *b, size_t n)
{
    for (size_t i = 0; i < n; i++) {
        char x = LC(a[i]), y = LC(b[i]);
        if (x != y) return x < y ? -1 : 1;
        if (a[i] == 0) return 0;
    }
    return 0;
}
static int g_yes, g_no;
int strisyes_c(const char *s) { CHECK(s == g_t, "the value given"); return g_yes; }
int strisno_c(const char *s) { CHECK(s == g_t, "the value given"); return g_no; }
static char *g_in, *g_out;
static FILE *g_fin, *g_fout;
static int g_opened_in, g_opened_out, g_closed_in;
FILE *fopen_c(const char *n, const char *m)
{
    if (m[0] == 'r') { CHECK(n == g_in, "the input file is read"); g_opened_in++; return g_fin; }
    CHECK(n == g_out && m[0] == 'w', "the output file is written");
    g_opened_out++;
    return g_fout;
}
int fclose_c(FILE *f) { CHECK(f == g_fin, "only the input file is closed"); g_closed_in++; return 0; }
void usage_c(FILE *f) {}
void perror_c(const char *s) {}
#endif
/* ----------------------------------------------------------------------------------------------------------------- */
#include VC_SRC
#ifdef GVC
opt_t opt; input_t input; int num_designs; design_t *designs; int color_output_enabled;
#define INIT_OPT(o) do { (o)->halign = in_char(0, 127); (o)->valign = in_char(0, 127); (o)->justify = in_char(0, 127); (o)->reqwidth = in_long(0, LONG_MAX); (o)->reqheight = in_long(0, LONG_MAX); \
    for (int i_ = 0; i_ < NUM_SIDES; i_++) (o)->padding[i_] = in_int(-1, INT_MAX); (o)->tabstop = in_int(1, 16); (o)->tabexp = in_char(0, 127); (o)->indentmode = in_char(0, 127); \
    (o)->killblank = in_int(-1, 1); (o)->eol_overridden = in_int(0, 1); (o)->eol = NULL; (o)->infile = NULL; (o)->outfile = NULL; } while (0)
#else
opt_t opt; input_t input; int num_designs; design_t *designs; int color_output_enabled;
#define vc_inv(k, e) 0
#include <fcntl.h>
#define INIT_OPT(o) do { (o)->halign = in_char(0, 127); (o)->valign = in_char(0, 127); (o)->justify = in_char(0, 127); (o)->reqwidth = in_long(0, 3); (o)->reqheight = in_long(0, 3); \
    for (int i_ = 0; i_ < NUM_SIDES; i_++) (o)->padding[i_] = in_int(-1, 50); (o)->tabstop = in_int(1, 16); (o)->tabexp = in_char(0, 127); (o)->indentmode = in_char(0, 127); \
    (o)->killblank = in_int(-1, 1); (o)->eol_overridden = in_int(0, 1); (o)->eol = NULL; (o)->infile = NULL; (o)->outfile = NULL; } while (0)
/* numbers as strtol reads them, worked out separately */
static void numbers(void)
{
    VAL = calloc(g_n + 2, sizeof(long)); END = calloc(g_n + 2, sizeof(size_t)); BIG = calloc(g_n + 2, 1);
    for (size_t k = 0; k <= g_n; k++) {
        size_t i = k;
        int neg = 0;
        while (g_t[i] == ' ' || (g_t[i] >= 9 && g_t[i] <= 13)) i++;
        if (g_t[i] == '-' || g_t[i] == '+') neg = g_t[i++] == '-';
        size_t s = i;
        __int128 v = 0;
        while (DIG(g_t[i])) { if (v < (__int128) 1 << 100) v = v * 10 + (g_t[i] - '0'); i++; }
        END[k] = i > s ? i : k;
        if (neg) v = -v;
        BIG[k] = v > INT_MAX || v < INT_MIN;
        VAL[k] = v > LONG_MAX ? LONG_MAX : v < LONG_MIN ? LONG_MIN : (long) v;
    }
}
#endif

#if defined(V_opts) && !defined(GVC)
/* a reading of the manual: every option, straightforwardly */
#include <strings.h>
static int num(const char **s, long *v)      /* the longest run of digits */
{
    if (!DIG(**s)) return 0;
    long x = 0;
    while (DIG(**s)) { if (x < 1L << 50) x = x * 10 + (**s - '0'); ++*s; }
    *v = x;
    return 1;
}
static int ref_opt(opt_t *o, int c, const char *a)
{
    long v;
    const char *s = a;
    switch (c) {
        case 'a':
            if (!*s) return 0;
            while (*s) {
                int x = LC(*s), y = *s ? LC(s[1]) : 0;
                if (x == 'l' || x == 'c' || x == 'r') { o->halign = o->justify = (char) x; o->valign = 'c'; s++; continue; }
                if (!y) return 0;
                if (x == 'h' && strchr("lcr", y)) o->halign = (char) y;
                else if (x == 'v' && strchr("tcb", y)) o->valign = (char) y;
                else if (x == 'j' && strchr("lcr", y)) o->justify = (char) y;
                else return 0;
                s += 2;
            }
            return 1;
        case 'p':
            if (!*s) return 0;
            while (*s) {
                int x = LC(*s);
                s++;
                if (!strchr("ahvtblr", x) || !num(&s, &v) || v > INT_MAX) return 0;
                if (strchr("avt", x)) o->padding[BTOP] = (int) v;
                if (strchr("avb", x)) o->padding[BBOT] = (int) v;
                if (strchr("ahl", x)) o->padding[BLEF] = (int) v;
                if (strchr("ahr", x)) o->padding[BRIG] = (int) v;
            }
            return 1;
        case 's': {
            long w = o->reqwidth, h = o->reqheight;
            int any = num(&s, &w);
            if (LC(*s) == 'x') { s++; h = 0; any = num(&s, &h) || any; }
            if (*s || !any || (w == 0 && h == 0)) return 0;
            o->reqwidth = w; o->reqheight = h;
            return 1; }
        case 't':
            if (!num(&s, &v) || v < 1 || v > 16) return 0;
            if (*s) { if (s[1] || !strchr("eku", LC(*s))) return 0; o->tabexp = (char) LC(*s); }
            o->tabstop = (int) v;
            return 1;
        case 'e':
            o->eol_overridden = 1;
            if (!strcasecmp(a, "CRLF")) o->eol = "\r\n"; else if (!strcasecmp(a, "LF")) o->eol = "\n"; else if (!strcasecmp(a, "CR")) o->eol = "\r"; else return 0;
            return 1;
        case 'i': {
            static const char *m[] = {"box", "text", "none"};
            for (int k = 0; k < 3; k++) if (strlen(a) <= strlen(m[k]) && !strncasecmp(a, m[k], strlen(a))) { o->indentmode = m[k][0]; return 1; }
            return 0; }
        case 'k': {
            static const char *y[] = {"on", "yes", "true", "1", "t"}, *n[] = {"off", "no", "false", "0", "f"};
            for (int k = 0; k < 5; k++) {
                if (!strcasecmp(a, y[k])) { if (o->killblank == -1) o->killblank = 1; return 1; }
                if (!strcasecmp(a, n[k])) { if (o->killblank == -1) o->killblank = 0; return 1; }
            }
            return 0; }
        case 'c': if (!*a) return 0; o->cld = (char *) a; o->design_choice_by_user = 1; return 1;
        case 'd': o->design = (design_t *) a; o->design_choice_by_user = 1; return 1;
        case 'f': o->f = (char *) a; return 1;
        case 'n': o->encoding = (char *) a; return 1;
        case 'l': o->l = 1; return 1;
        case 'm': o->mend = 2; o->r = 1; o->killblank = 0; return 1;
        case 'r': o->r = 1; return 1;
        case 1: o->color = force_ansi_color; return 1;
        case 2: o->color = force_monochrome; return 1;
        case 3: if (o->killblank == -1) o->killblank = 1; return 1;
        case 4: if (o->killblank == -1) o->killblank = 0; return 1;
    }
    return 0;
}
static const struct { int c; const char *l; const char *v[22]; } OPTS[] = {
    {'a', "align", {"hl", "hcvb", "vt", "jr", "l", "c", "r", "hljcvc", "CHl", "JRvB", "hl", "hc", "h", "lh", "x", "hlx", "", "vl", "hb", "jt", "c j", "lv"}},
    {'p', "padding", {"a1", "h2v3", "t4", "b5", "l6r7", "A2T0", "a10h2l1", "v2b4", "h0", "r3", "a4", "b1", "a", "ah2", "h2v", "x2", "", "h-1", "2", "a99999999999", "h2 v1", "h2,v1"}},
    {'s', "size", {"10", "10x5", "x5", "20X3", "5x", "1", "x9", "7x7", "30", "40x2", "x1", "X4", "", "x", "0", "0x0", "-4", "3x-2", "ax5", "5x5x5", "10abc", "x5y"}},
    {'t', "tabs", {"4", "8e", "1k", "16u", "4K", "2U", "8", "3E", "12", "5e", "7k", "9u", "0", "17", "-1", "e", "", "4x", "4ee", "4e5", "4294967300", "a"}},
    {'e', "eol", {"CRLF", "LF", "CR", "crlf", "lf", "cr", "CrLf", "Lf", "CRLF", "LF", "CR", "CR", "", "LFCR", "C", "CRL", "L", "x", "CRLFX", "none", "\\n", "0"}},
    {'i', "indent", {"box", "text", "none", "b", "t", "n", "BOX", "Te", "NO", "bo", "tex", "non", "x", "boxes", "textt", "nones", "bt", "nb", "box ", " box", "0", "tx"}},
    {'k', NULL, {"true", "false", "yes", "no", "on", "off", "1", "0", "t", "f", "TRUE", "Off", "", "x", "2", "maybe", "tru", "nope", "yess", "-1", "o", "of"}},
    {'c', "create", {"#", "//", "--", "x", "#", "//", "--", "x", "#", "//", "--", "x", "", "", "", "", "", "", "", "", "", ""}},
    {'d', "design", {"box", "c", "stone", "x", "a b", "", "box", "c", "stone", "x", "a b", "", "box", "c", "stone", "x", "a b", "", "box", "c", "stone", "x"}},
    {'f', "config", {"a", "b/c", "a", "b/c", "a", "b/c", "a", "b/c", "a", "b/c", "a", "b/c", "a", "b/c", "a", "b/c", "a", "b/c", "a", "b/c", "a", "b/c"}},
    {'n', "encoding", {"UTF-8", "latin1", "x", "UTF-8", "latin1", "x", "UTF-8", "latin1", "x", "UTF-8", "latin1", "x", "UTF-8", "latin1", "x", "UTF-8", "latin1", "x", "UTF-8", "latin1", "x", "x"}},
    {'l', "list", {0}}, {'m', "mend", {0}}, {'r', "remove", {0}}, {1, "color", {0}}, {2, "no-color", {0}}, {3, "kill-blank", {0}}, {4, "no-kill-blank", {0}},
};
static int SAMETXT(const char *a, const char *b) { return a == b || (a && b && strcmp(a, b) == 0); }
static int g_err;
static void whole(void)
{
    static char words[24][64], vals[24][64];
    char *argv[26], desc[600] = "";
    int argc = 0, files = 0, ok = 1;
    opt_t e;
    memset(&e, 0, sizeof e);
    e.color = color_from_terminal; e.tabstop = 8; e.eol = "\n"; e.tabexp = 'e'; e.killblank = -1;
    for (int i = 0; i < NUM_SIDES; i++) e.padding[i] = -1;
    argv[argc++] = "boxes";
    int no = in_int(0, 6), bad = in_int(0, 2) == 0;
    for (int k = 0; k < no; k++) {
        int q = in_int(0, 17);
        const char *v0 = OPTS[q].v[0] ? OPTS[q].v[bad ? in_int(0, 21) : in_int(0, 11)] : NULL;
        char *v = NULL;
        if (v0) { strcpy(vals[k], v0); v = vals[k]; }
        int islong = OPTS[q].l && (OPTS[q].c < 10 || in_int(0, 1));
        if (islong) {
            snprintf(words[argc], 64, v && in_int(0, 1) ? "--%s=%s" : "--%s", OPTS[q].l, v ? v : "");
            argv[argc] = words[argc];
            if (v && !strchr(words[argc], '=')) argv[++argc] = v;
            argc++;
        } else {
            int glued = v && *v && in_int(0, 1);
            snprintf(words[argc], 64, "-%c%s", OPTS[q].c, glued ? v : "");
            argv[argc] = words[argc]; argc++;
            if (v && !glued) argv[argc++] = v;
        }
        if (ok) ok = ref_opt(&e, OPTS[q].c, v0 ? v0 : "");
        if (files < 2 && in_int(0, 9) == 0) { argv[argc++] = "-"; files++; }
    }
    argv[argc] = NULL;
    for (int k = 1; k < argc; k++) { strcat(desc, " "); strcat(desc, argv[k]); }
    char *save[26];
    memcpy(save, argv, sizeof argv);
    optind = 0;       /* a fresh start for getopt, as in a new process */
    char *none[2] = {"boxes", NULL};
    getopt(1, none, "");
    opt_t *o = process_commandline(argc, argv);
    if ((o != NULL) != ok) dprintf(g_err, "command line:%s  accepted %d expected %d\n", desc, o != NULL, ok);
    CHECK((o != NULL) == ok, "a command line is accepted exactly if every option and value on it is valid");
    if (o == NULL) return;
    int same = o->valign == e.valign && o->halign == e.halign && o->justify == e.justify && o->color == e.color && o->design_choice_by_user == e.design_choice_by_user
        && o->eol_overridden == e.eol_overridden && o->help == 0 && o->indentmode == e.indentmode && o->killblank == e.killblank && o->l == e.l && o->mend == e.mend && o->r == e.r
        && o->reqwidth == e.reqwidth && o->reqheight == e.reqheight && o->tabstop == e.tabstop && o->tabexp == e.tabexp && SAMETXT(o->eol, e.eol) && SAMETXT(o->cld, e.cld)
        && SAMETXT((char *) o->design, (char *) e.design) && SAMETXT(o->f, e.f) && SAMETXT(o->encoding, e.encoding) && o->query == NULL && o->infile == stdin && o->outfile == stdout;
    for (int i = 0; i < NUM_SIDES; i++) same = same && o->padding[i] == e.padding[i];
    if (!same) dprintf(g_err, "command line:%s  accepted %d expected %d\n", desc, o != NULL, ok);
    CHECK(same, "every setting has the value given last, or its default");
}
#endif

void harness(void)
{
#ifdef GVC
    opt_t *o = &opt;
#else
    opt_t *o = calloc(1, sizeof(opt_t));
    int quiet = open("/dev/null", O_WRONLY), keep = dup(2);
    (void) quiet; (void) keep;
#endif
#ifndef V_opts
    INIT_OPT(o);
#ifdef GVC
    g_n = in_size(0, STRMAX);
    g_t = in_str(g_n);
    VAL = malloc((g_n + 2) * sizeof(long)); END = malloc((g_n + 2) * sizeof(size_t)); BIG = malloc(g_n + 2);
#else
    char buf[100]; buf[0] = 0;
#if defined(V_align)
    for (int k = in_int(0, 4); k > 0; k--) { static const char *w[] = {"hl", "hc", "hr", "vt", "vc", "vb", "jl", "jc", "jr", "l", "c", "r", "Hc", "vB", "JR", "L", "h", "v", "x", "hh", "hb", "vl"}; strcat(buf, w[in_int(0, in_int(0, 2) ? 15 : 21)]); }
#elif defined(V_pad)
    for (int k = in_int(0, 4); k > 0; k--) {
        static const char *w[] = {"a", "h", "v", "t", "b", "l", "r", "A", "H", "V", "T", "B", "L", "R", "x", "aa", ""};
        static const char *v[] = {"0", "1", "2", "17", "305", "2147483647", "", "2147483648", "4294967298", "99999999999999999999", "-3", " 2", "+2"};
        strcat(buf, w[in_int(0, in_int(0, 3) ? 13 : 16)]); strcat(buf, v[in_int(0, in_int(0, 3) ? 4 : 12)]);
    }
#elif defined(V_size) || defined(V_tabs)
    static const char *v[] = {"0", "1", "2", "17", "305", "8", "16", "4", "", "2147483648", "4294967298", "99999999999999999999", "-3", " 2", "+2", "5a", "a"};
    strcat(buf, v[in_int(0, in_int(0, 3) ? 7 : 16)]);
    static const char *w[] = {"e", "k", "u", "E", "K", "U", "", "x", "ee", "e3"};
    static const char *xs[] = {"x", "X", "", "xx", "Xx", "xX"};
#ifdef V_tabs
    strcat(buf, w[in_int(0, 9)]);
#else
    strcat(buf, xs[in_int(0, in_int(0, 3) ? 2 : 5)]); strcat(buf, v[in_int(0, in_int(0, 3) ? 7 : 16)]);
#endif
#elif defined(V_indent)
    static const char *v[] = {"box", "text", "none", "BOX", "TexT", "n", "t", "b", "no", "tex", "boxx", "texts", "nonee", "bx", "", "non", "x"};
    strcat(buf, v[in_int(0, 16)]);
#elif defined(V_eol)
    static const char *v[] = {"CRLF", "LF", "CR", "crlf", "Lf", "cR", "", "LFCR", "C", "CRL", "CRLFX", "L"};
    strcat(buf, v[in_int(0, 11)]);
#elif defined(V_kill)
    static const char *v[] = {"true", "false", "yes", "no", "on", "off", "1", "0", "t", "F", "", "maybe", "-1", "2"};
    strcat(buf, v[in_int(0, 13)]);
#endif
    g_n = strlen(buf);
    g_t = strdup(buf);
    numbers();
    dup2(quiet, 2);
#endif
#endif
#if defined(V_align) || defined(V_pad)
    SUF = malloc(g_n + 2); LH = malloc(g_n + 2); LV = malloc(g_n + 2); LJ = malloc(g_n + 2); LP = malloc((g_n + 2) * sizeof(long));
#ifdef GVC
    ASSUME(SUF[g_n] == 1 && LH[g_n] == 0 && LV[g_n] == 0 && LJ[g_n] == 0 && LP[g_n] == -1);
#else
    SUF[g_n] = 1; LH[g_n] = LV[g_n] = LJ[g_n] = 0; LP[g_n] = -1;
#endif
#endif
#ifdef V_align
    g_oh = o->halign; g_ov = o->valign; g_oj = o->justify;
#ifndef GVC
    for (size_t k = g_n; k-- > 0; ) {
        if (A_OK(k)) { size_t e = k + A_LEN(k); SUF[k] = SUF[e]; LH[k] = OR(LH[e], A_H(k)); LV[k] = OR(LV[e], A_V(k)); LJ[k] = OR(LJ[e], A_J(k)); }
        else SUF[k] = LH[k] = LV[k] = LJ[k] = 0;
    }
#endif
    int r = alignment(o, g_t);
    COVER("align");
    CHECK((r == 0) == (g_n > 0 && SUF[0] == 1), "accepted exactly if the text consists of valid parts");
    CHECK(IMPLIES(r == 0, o->halign == OR(LH[0], g_oh)), "horizontal alignment: the last part naming it, or as before");
    CHECK(IMPLIES(r == 0, o->valign == OR(LV[0], g_ov)), "vertical alignment: the last part naming it, or as before");
    CHECK(IMPLIES(r == 0, o->justify == OR(LJ[0], g_oj)), "justification: the last part naming it, or as before");
#endif
#ifdef V_pad
    g_q = in_size(0, 3);
    g_op = o->padding[g_q];
#ifndef GVC
    for (size_t k = g_n; k-- > 0; ) {
        if (P_OK(k)) { SUF[k] = SUF[END[k + 1]]; LP[k] = ORP(LP[END[k + 1]], P_COVERS(g_t[k]) ? VAL[k + 1] : -1); }
        else { SUF[k] = 0; LP[k] = -1; }
    }
#endif
    int r = padding(o, g_t);
    COVER("pad");
    CHECK((r == 0) == (g_n > 0 && SUF[0] == 1), "accepted exactly if the text consists of a letter and a number, repeatedly");
    CHECK(IMPLIES(r == 0, o->padding[g_q] == ORP(LP[0], g_op)), "padding of a side: the last part naming it, or as before");
#endif
#ifdef V_size
    long ow = o->reqwidth, oh = o->reqheight;
#ifdef GVC
    g_xl = in_size(0, STRMAX); g_xu = in_size(0, STRMAX);
    ASSUME(g_xl <= g_n && g_xu <= g_n);
    ASSUME(ALL(k_, 0, g_xl, g_t[k_] != 'x') && IMPLIES(g_xl < g_n, g_t[g_xl] == 'x'));
    ASSUME(ALL(k_, 0, g_xu, g_t[k_] != 'X') && IMPLIES(g_xu < g_n, g_t[g_xu] == 'X'));
    size_t x = g_xl < g_n ? g_xl : g_xu;
    ASSUME(END[0] <= x);
    size_t h = x < g_n ? x + 1 : g_n;
#else
    size_t x = strcspn(g_t, "x");
    if (x == g_n) x = strcspn(g_t, "X");
    size_t h = x < g_n ? x + 1 : g_n;
#endif
    int r = size_of_box(o, g_t);
    COVER("size");
    long w2 = x > 0 ? VAL[0] : ow, h2 = x < g_n ? VAL[h] : oh;
    int bw = g_n == 0 || (x > 0 && (END[0] != x || END[0] == 0)), bh = x < g_n && (END[h] != g_n || (x == 0 && END[h] == h));
    CHECK(IMPLIES(r == 0, !bw && !bh && w2 >= 0 && h2 >= 0 && (w2 > 0 || h2 > 0)), "accepted only as a number, a number and x, or two numbers with x between, not negative");
    CHECK(IMPLIES(r == 0, o->reqwidth == w2 && o->reqheight == h2), "width and height as given, or as before");
    CHECK(IMPLIES(!bw && !bh && w2 >= 0 && h2 >= 0 && (w2 > 0 || h2 > 0) && w2 < LONG_MAX && h2 < LONG_MAX, r == 0), "every valid size is accepted");
    CHECK(IMPLIES(x < g_n, LC(g_t[x]) == 'x'), "the argument is complete again");
#endif
#ifdef V_tabs
    int ot = o->tabstop; char oe = o->tabexp;
    int r = tab_handling(o, g_t);
    COVER("tabs");
    size_t e = END[0];
#ifdef GVC
    char suf = g_t[e], nx = e < g_n ? g_t[e + 1] : 0;
#else
    char suf = g_t[e], nx = e < g_n ? g_t[e + 1] : 0;
#endif
    int ok = VAL[0] >= 1 && VAL[0] <= 16 && (suf == 0 || ((LC(suf) == 'e' || LC(suf) == 'k' || LC(suf) == 'u') && nx == 0));
    CHECK((r == 0) == ok, "accepted exactly as a distance from 1 to 16 and at most one of e, k, u");
    CHECK(IMPLIES(ok, o->tabstop == VAL[0] && o->tabexp == (suf == 0 ? oe : LC(suf))), "distance and handling as given");
#endif
#ifdef V_indent
    char om = o->indentmode;
    int r = indentation_mode(o, g_t);
    COVER("indent");
    int pb = g_n <= 3, pt = g_n <= 4, pn = g_n <= 4;
    for (size_t k = 0; k < 4; k++) if (k < g_n && g_n <= 4) {
        if (k < 3 && LC(g_t[k]) != "box"[k]) pb = 0;
        if (LC(g_t[k]) != "text"[k]) pt = 0;
        if (LC(g_t[k]) != "none"[k]) pn = 0;
    }
    CHECK((r == 0) == (pb || pt || pn), "accepted exactly if it is an abbreviation of box, text or none");
    CHECK(IMPLIES(r == 0, o->indentmode == (pb ? 'b' : pt ? 't' : 'n')), "the mode named");
    CHECK(IMPLIES(r != 0, o->indentmode == om), "otherwise unchanged");
#endif
#ifdef V_eol
    int r = eol_override(o, g_t);
    COVER("eol");
    int crlf = g_n == 4, lf = g_n == 2, cr = g_n == 2;
    if (g_n == 4) for (size_t k = 0; k < 4; k++) if (LC(g_t[k]) != "crlf"[k]) crlf = 0;
    if (g_n == 2) for (size_t k = 0; k < 2; k++) { if (LC(g_t[k]) != "lf"[k]) lf = 0; if (LC(g_t[k]) != "cr"[k]) cr = 0; }
    CHECK((r == 0) == (crlf || lf || cr), "accepted exactly if it is CRLF, LF or CR");
    CHECK(IMPLIES(r == 0, o->eol_overridden == 1), "the line terminator counts as overridden");
    CHECK(IMPLIES(r == 0 && crlf, o->eol[0] == '\r' && o->eol[1] == '\n' && o->eol[2] == 0), "CRLF");
    CHECK(IMPLIES(r == 0 && lf, o->eol[0] == '\n' && o->eol[1] == 0), "LF");
    CHECK(IMPLIES(r == 0 && cr, o->eol[0] == '\r' && o->eol[1] == 0), "CR");
#endif
#ifdef V_kill
    int ok = o->killblank;
#ifdef GVC
    g_yes = in_int(0, 1); g_no = in_int(0, 1);
    ASSUME(!(g_yes && g_no));
    int y = g_yes, n = g_no;
#else
    int y = !strcasecmp(g_t, "on") || !strcasecmp(g_t, "yes") || !strcasecmp(g_t, "true") || !strcasecmp(g_t, "1") || !strcasecmp(g_t, "t");
    int n = !strcasecmp(g_t, "off") || !strcasecmp(g_t, "no") || !strcasecmp(g_t, "false") || !strcasecmp(g_t, "0") || !strcasecmp(g_t, "f");
#endif
    int r = killblank(o, g_t);
    COVER("kill");
    CHECK((r == 0) == (y || n), "accepted exactly if it is a word for yes or no");
    CHECK(o->killblank == (r == 0 && ok == -1 ? y : ok), "the first setting counts");
#endif
#ifdef V_files
    int na = in_int(0, 4), s1 = in_int(0, 1), s2 = in_int(0, 1);
    char *argv[8];
    int oi = in_int(0, 3);
#ifdef GVC
    char *n1 = in_str(in_size(0, STRMAX)), *n2 = in_str(in_size(0, STRMAX)), *n3 = in_str(in_size(0, STRMAX));
    g_in = n1; g_out = n2;
    FILE *si = malloc(1), *so = malloc(1);
    stdin = si; stdout = so;
    s1 = n1[0] == '-' && n1[1] == 0; s2 = n2[0] == '-' && n2[1] == 0;
    g_fin = nondet_bool() ? NULL : malloc(1); g_fout = nondet_bool() ? NULL : malloc(1);
    int c1 = g_fin != NULL, c2 = g_fout != NULL;
    FILE *sin = si, *sout = so;
#else
    static char f1[300], f2[300];
    const char *td = getenv("TMPDIR") ? getenv("TMPDIR") : "/tmp";
    int c1 = in_int(0, 3) > 0, c2 = in_int(0, 3) > 0;
    snprintf(f1, 300, "%s/%s", td, c1 ? "cmdl-in" : "no/such"); snprintf(f2, 300, "%s/%s", td, c2 ? "cmdl-out" : "no/such/out");
    if (c1) { FILE *f = fopen(f1, "w"); if (f) { fputs("in", f); fclose(f); } }
    char *n1 = s1 ? "-" : f1, *n2 = s2 ? "-" : f2, *n3 = "third";
    FILE *sin = stdin, *sout = stdout;
#endif
    argv[oi] = na > 0 ? n1 : NULL; argv[oi + 1] = na > 1 ? n2 : NULL; argv[oi + 2] = na > 2 ? n3 : NULL; argv[oi + 3] = na > 3 ? n3 : NULL;
    argv[oi + 4] = NULL;
    int r = input_output_files(o, argv, oi);
    COVER("files");
    int ok1 = na < 1 || s1 || c1, ok2 = na < 2 || s2 || c2;
    CHECK((r == 0) == (na <= 2 && ok1 && ok2), "fails exactly for a third file, or a file that cannot be opened");
    CHECK(IMPLIES(na <= 2 && !ok1, r == 9) && IMPLIES(na <= 2 && ok1 && !ok2, r == 10), "with the documented codes");
    CHECK(IMPLIES(r == 0 && (na < 1 || s1), o->infile == sin), "standard input");
    CHECK(IMPLIES(r == 0 && (na < 2 || s2), o->outfile == sout), "standard output");
#ifdef GVC
    CHECK(IMPLIES(r == 0 && na >= 1 && !s1, o->infile == g_fin && g_opened_in == 1), "the input file named");
    CHECK(IMPLIES(r == 0 && na >= 2 && !s2, o->outfile == g_fout && g_opened_out == 1), "the output file named");
    CHECK(IMPLIES(na > 2 || !ok1, g_opened_out == 0), "no output file is touched when the arguments are wrong");
    CHECK(IMPLIES(r == 0, g_closed_in == 0), "the input stays open");
#else
    if (r == 0 && na >= 1 && !s1) { CHECK(o->infile != stdin && fgetc(o->infile) == 'i', "the input file named"); fclose(o->infile); }
    if (r == 0 && na >= 2 && !s2) { CHECK(o->outfile != stdout && fputc('x', o->outfile) == 'x', "the output file named"); fclose(o->outfile); FILE *f = fopen(f2, "r"); CHECK(f && fgetc(f) == 'x', "written"); fclose(f); }
    unlink(f1); if (c2) unlink(f2);
#endif
#endif
#if defined(V_opts) && !defined(GVC)
    dup2(quiet, 2);
    COVER("opts");
    g_err = keep;
    whole();
#endif
#ifndef GVC
    dup2(keep, 2); close(keep); close(quiet);
#endif
}
