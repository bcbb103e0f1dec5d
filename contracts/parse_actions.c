//@title what the parser records: tags, padding areas, keywords, rules, sample, shape lines
//@variants tagadd tagsplit tagrec pad keyword rule nonblank sample first addline
//@src parsecode.c
//@link unicode.c shape.c
//@prop C09
//@prop.tagadd C11
//@prop.tagsplit C11
//@prop.tagrec C11
//@prop.pad C06
//@prop.keyword C18
//@prop.rule C17
//@prop.sample C18 C09
//@prop.nonblank C18
//@funcs.tagadd tag_add
//@funcs.tagsplit tag_split_add
//@funcs.tagrec tag_record
//@funcs.pad action_padding_entry
//@funcs.keyword action_record_keyword
//@funcs.rule action_add_regex_rule
//@funcs.nonblank find_first_nonblank_line
//@funcs.sample action_sample_block
//@funcs.first action_first_shape_line
//@funcs.addline action_add_shape_line
//@loops.tagsplit tag_split_add:0
//@loops.nonblank find_first_nonblank_line:0 find_first_nonblank_line:1
//@replace.tagadd is_ascii_id=id_c array_contains0=has_c array_count0=count_c strdup=strdup_c
//@replace.tagsplit bxs_strchr=strchr_c bxs_trimdup=trimdup_c tag_add=tag_add_c to_utf32=to32_c bxs_free=bfree_c
//@replace.tagrec bxs_strchr=strchr_c bxs_trimdup=trimdup_c tag_add=tag_add_c to_utf32=to32_c tag_split_add=split_c bxs_free=bfree_c
//@replace.pad strncasecmp=prefix_c
//@replace.keyword strcasecmp=word_c bxs_valid_in_kv_string=valid_c bxs_strdup=bdup_c tag_record=record_c is_debug_logging=debug_c
//@replace.rule bxs_strdup=bdup_c yyget_lineno=lineno_c is_debug_logging=debug_c
//@replace.sample find_first_nonblank_line=fnb_c adjust_eols=eols_c bxs_is_empty=isempty_t bxs_valid_in_sample=valid_c
//@replace.first bxs_valid_in_shape=valid_c bxs_strdup=bdup_c strdup=strdup_c
//@replace.addline bxs_valid_in_shape=valid_c bxs_strdup=bdup_c strdup=strdup_c
//@assume callees by their contracts (units bxs_query, bxs_build, utils); strncasecmp and strcasecmp tell equality ignoring case (an arbitrary relation in the proofs); the pattern of a name is that of the regular expression
//@noeffect yyerror log_debug log_debug_cont bx_fprintf perror bxs_to_output
//@nonative what is recorded is compared with what was written by the whole-program units e2e_design, e2e_config, e2e_rules and e2e_draw
#include "common.h"
#include "texts.h"
#include "boxes.h"
#include "shape.h"
#include "parsecode.h"
#include <strings.h>
#ifdef GVC
static design_t *g_d;
static size_t g_n, g_j, g_k, g_p, g_last, g_calls, g_nv;
static int g_ok, g_has, g_w[8], g_rc, g_valid, g_cc, g_bad, g_comma, g_split, g_lino;
static char *g_txt, *g_area, *g_dn, *g_kw, *g_val, *g_aj;
static bxstr_t *g_tag, *g_single, *g_bd, *g_bd2, *g_s1, *g_s2;
static uint32_t *g_mem, *g_pos;
static unsigned char *g_isc;
int debug_c(int a) { return 0; }
void bfree_c(bxstr_t *s) { CHECK(s == g_single, "what was made for the purpose is freed"); }
/* tags */
int id_c(bxstr_t *s, int strict) { CHECK(s == g_tag && strict == 1, "the tag must be a strict name"); return g_ok; }
int has_c(char **a, const char *s) { CHECK(a == g_d->tags && s == g_txt, "the tags of this design"); return g_has; }
size_t count_c(char **a) { CHECK(a == g_d->tags, "the tags of this design"); return g_n; }
char *strdup_c(const char *s) { CHECK(s == g_txt, "the text given"); return g_dn; }
ucs4_t to32_c(const char c) { CHECK(c > 0, "an ASCII character"); return (ucs4_t) c; }
/* the next comma after the cursor; every comma is one of the characters g_isc marks */
uint32_t *strchr_c(bxstr_t *s, ucs4_t c, int *cursor)
{
    CHECK(s == g_tag && c == ',', "commas separate tags");
#ifdef V_tagrec
    CHECK(cursor == NULL, "is there a comma");
    return g_comma ? g_mem : NULL;
#else
    CHECK(*cursor + 1 == (int) g_p, "after the last one");
    size_t k = nondet_size_t();
    ASSUME(k >= g_p && k <= g_nv && ALL(i_, g_p, k, g_isc[i_] == 0));
    if (k == g_nv) return NULL;
    ASSUME(g_isc[k] != 0);
    *cursor = (int) k;
    return g_mem + k;
#endif
}
bxstr_t *trimdup_c(bxstr_t *s, size_t a, size_t b)
{
    CHECK(s == g_tag, "a part of the tags");
#ifdef V_tagrec
    CHECK(a == 0 && b == g_nv, "the whole text is one tag");
#else
    CHECK(a == g_p && a <= b && b <= g_nv && (b == g_nv || g_isc[b] != 0), "from comma to comma");
    CHECK(ALL(i_, a, b, g_isc[i_] == 0), "without a comma in it");
    if (a <= g_k && g_k <= b) g_calls++;
    g_p = b + 1;
#endif
    return g_single;
}
int tag_add_c(pass_to_bison *b, bxstr_t *t)
{
    CHECK(t == g_single, "the trimmed text is added");
    int r = nondet_int();
    if (r) g_bad = 1;
    g_has = 1;
    return r;
}
int split_c(pass_to_bison *b, bxstr_t *t) { CHECK(t == g_tag && g_comma, "several tags"); g_split = 1; return g_rc; }
#define LOOP_tag_split_add_0 vc_w(0, &cursor), vc_inv(0, vis_start == cursor + 1 && cursor >= -1 && cursor < (int) g_nv && g_p == (size_t) vis_start && (rc != 0) == (g_bad != 0) && (g_calls == 1) == (g_k < g_p) && (g_calls == 0) == (g_k >= g_p))
/* padding: g_w[k]: the area given is the beginning of that word */
enum { W_ALL, W_HOR, W_VER, W_TOP, W_RIGHT, W_LEFT, W_BOT };
static size_t g_len;
int prefix_c(const char *w, const char *a, size_t n)
{
    CHECK(a == g_area && n == g_len, "as many characters as were given");
    int k = w[0] == 'a' ? W_ALL : w[0] == 'h' ? W_HOR : w[0] == 'v' ? W_VER : w[0] == 't' ? W_TOP : w[0] == 'r' ? W_RIGHT : w[0] == 'l' ? W_LEFT : W_BOT;
    size_t full = k == W_ALL || k == W_TOP ? 3 : k == W_HOR ? 10 : k == W_VER ? 8 : k == W_RIGHT ? 5 : k == W_LEFT ? 4 : 6;
    CHECK(n <= full && w[full] == 0 && w[full - 1] != 0, "no longer than the word");
    CHECK(k != W_BOT || w[0] == 'b', "a known area");
    int r = nondet_int();
    ASSUME((r == 0) == (g_w[k] != 0));
    return r;
}
#define AREA(k, l) (g_len <= (l) && g_w[k])
/* keywords: which word the keyword and the value are */
enum { K_AUTHOR, K_DESIGNER, K_TAGS, K_INDENT, K_NONE };
static int g_key, g_ind, g_recs;
int word_c(const char *a, const char *b)
{
    int r = nondet_int();
    if (a == g_kw) {
        int k = b[0] == 'a' ? K_AUTHOR : b[0] == 'd' ? K_DESIGNER : b[0] == 't' ? K_TAGS : K_INDENT;
        CHECK(b[0] == 'a' || b[0] == 'd' || b[0] == 't' || b[0] == 'i', "a known keyword");
        ASSUME((r == 0) == (k == g_key));
    }
    else {
        CHECK(a == g_val && g_key == K_INDENT, "the value");
        int k = b[0] == 't' ? 0 : b[0] == 'b' ? 1 : 2;
        CHECK(b[0] == 't' || b[0] == 'b' || b[0] == 'n', "a known value");
        ASSUME((r == 0) == (k == g_ind));
    }
    return r;
}
int valid_c(bxstr_t *s, size_t *pos) { CHECK(s == g_tag, "the text given is checked"); return g_valid; }
bxstr_t *bdup_c(bxstr_t *s) { CHECK(s == g_tag || s == g_s2, "the text given"); return s == g_tag ? g_bd : g_bd2; }
int record_c(pass_to_bison *b, bxstr_t *s) { CHECK(s == g_tag && g_key == K_TAGS, "the tags"); g_recs++; return nondet_int(); }
/* the C library: ASCII letters */
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int lineno_c(void *l) { return g_lino; }
/* sample */
uint32_t *fnb_c(bxstr_t *s) { CHECK(s == g_s1, "the sample"); return g_mem; }
bxstr_t *eols_c(uint32_t *s) { CHECK(s == g_mem, "from its first line that is not blank"); return nondet_bool() ? NULL : g_tag; }
int isempty_t(bxstr_t *s) { CHECK(s == g_tag, "what is left of the sample"); return g_has; }
#define NBW(c) (BLANKP(c) || (c) == '\r')
/* start of the line in hand: every line before consists of blanks only */
#define LOOP_find_first_nonblank_line_0 vc_inv(0, p == g_mem + (p - g_mem) && p >= g_mem && (size_t) (p - g_mem) <= g_n && result == p && ALL(k_, 0, (size_t) (p - g_mem), NBW(g_mem[k_]) || g_mem[k_] == '\n') && (p == g_mem || p[-1] == '\n'))
#define BODY_find_first_nonblank_line_0 g_p = (size_t) (p - g_mem)
#define LOOP_find_first_nonblank_line_1 vc_inv(1, p == g_mem + (p - g_mem) && p >= g_mem && (size_t) (p - g_mem) >= g_p && (size_t) (p - g_mem) <= g_n && ALL(k_, g_p, (size_t) (p - g_mem), NBW(g_mem[k_])))
#include VC_SRC
opt_t opt; input_t input; int num_designs; design_t *designs; int color_output_enabled;
void harness(void)
{
    pass_to_bison ba;
    vc_havoc_obj(&ba); vc_havoc_obj(&opt);
    size_t idx = in_size(0, 1000);
    design_t *all = malloc((idx + 1) * sizeof(design_t));
    ba.designs = all; ba.design_idx = (int) idx;
    g_d = all + idx;
    g_tag = malloc(sizeof(bxstr_t)); g_single = malloc(sizeof(bxstr_t)); g_bd = malloc(sizeof(bxstr_t)); g_bd2 = malloc(sizeof(bxstr_t)); g_s1 = malloc(sizeof(bxstr_t)); g_s2 = malloc(sizeof(bxstr_t));
    g_txt = malloc(1); g_dn = malloc(1); g_kw = malloc(1); g_val = malloc(1); g_mem = malloc(4);
    g_tag->ascii = g_txt;
    g_nv = in_size(0, 1UL << 30); g_n = in_size(0, 1UL << 30); g_j = in_size(0, 1UL << 30); g_k = in_size(0, 1UL << 30);
    g_tag->num_chars_visible = g_nv;
    g_ok = in_int(0, 1); g_has = in_int(0, 1); g_valid = in_int(0, 1); g_rc = in_int(0, 3); g_comma = in_int(0, 1);
    g_calls = 0; g_p = 0; g_bad = 0; g_split = 0; g_recs = 0;
#if defined(V_tagadd)
    char **tags = malloc((g_n + 1) * sizeof(char *));
    tags[g_n] = NULL;
    g_d->tags = tags;
    ASSUME(g_j < g_n);
    char *tj = tags[g_j];
    int r = tag_add(&ba, g_tag);
    COVER("tagadd");
    CHECK((r == RC_SUCCESS) == (g_ok && !g_has), "a proper name the design does not have yet");
    CHECK(g_d->tags[g_j] == tj, "the tags so far are kept");
    if (r == RC_SUCCESS) CHECK(g_d->tags[g_n] == g_dn && g_d->tags[g_n + 1] == NULL, "the tag is added at the end");
    else CHECK(g_d->tags == tags && tags[g_n] == NULL, "nothing is added");
#elif defined(V_tagsplit)
    g_isc = malloc(g_nv + 1);
    ASSUME(g_k <= g_nv);
    g_has = 0;
    int r = tag_split_add(&ba, g_tag);
    COVER("tagsplit");
    CHECK(g_calls == 1, "every character belongs to one tag or is the comma after it");
    CHECK((r != RC_SUCCESS) == (g_bad != 0), "an improper tag is reported");
#elif defined(V_tagrec)
    g_tag->num_chars_invisible = in_size(0, 3);
    int inv = g_tag->num_chars_invisible > 0;
    g_has = 0;
    int r = tag_record(&ba, g_tag);
    COVER("tagrec");
    if (inv) CHECK(r == RC_ERROR && !g_split && g_has == 0, "escape sequences are refused");
    else if (g_comma) CHECK(g_split && r == g_rc && g_has == 0, "several tags");
    else CHECK(g_has == 1 && (r != 0) == (g_bad != 0), "one tag");
#elif defined(V_pad)
    g_area = malloc((1UL << 30) + 1);
    g_len = in_size(0, 1UL << 30);
    ASSUME(g_area[g_len] == 0 && ALL(k_, 0, g_len, g_area[k_] != 0));
    for (int k = 0; k < 7; k++) g_w[k] = in_int(0, 1);
    int v = nondet_int();
    int t = g_d->padding[BTOP], b = g_d->padding[BBOT], l = g_d->padding[BLEF], rr = g_d->padding[BRIG];
    int a = AREA(W_ALL, 3) ? 4 + 8 + 1 + 2 : AREA(W_HOR, 10) ? 4 + 8 : AREA(W_VER, 8) ? 1 + 2 : AREA(W_TOP, 3) ? 1 : AREA(W_RIGHT, 5) ? 8 : AREA(W_LEFT, 4) ? 4 : AREA(W_BOT, 6) ? 2 : 0;
    if (v < 0) a = 0;
    int r = action_padding_entry(&ba, g_area, v);
    COVER("pad");
    CHECK(r == RC_SUCCESS, "a wrong padding is no error");
    CHECK(g_d->padding[BTOP] == (a & 1 ? v : t) && g_d->padding[BBOT] == (a & 2 ? v : b), "padding above and below as given");
    CHECK(g_d->padding[BLEF] == (a & 4 ? v : l) && g_d->padding[BRIG] == (a & 8 ? v : rr), "padding left and right as given");
#elif defined(V_keyword)
    g_tag->ascii = g_val;
    g_key = in_int(0, 4); g_ind = in_int(0, 3);
    ASSUME(g_ind == 3 || (g_ind == 0 ? g_val[0] == 't' || g_val[0] == 'T' : g_ind == 1 ? g_val[0] == 'b' || g_val[0] == 'B' : g_val[0] == 'n' || g_val[0] == 'N'));
    bxstr_t *au = g_d->author, *de = g_d->designer;
    char im = g_d->indentmode;
    int r = action_record_keyword(&ba, g_kw, g_tag);
    COVER("keyword");
    int ok = g_valid && g_key != K_NONE && (g_key != K_INDENT || g_ind < 3);
    CHECK((r == RC_SUCCESS) == ok, "accepted exactly if keyword and value are known and valid");
    CHECK(g_d->author == (ok && g_key == K_AUTHOR ? g_bd : au), "the author");
    CHECK(g_d->designer == (ok && g_key == K_DESIGNER ? g_bd : de), "the designer");
    CHECK(g_recs == (ok && g_key == K_TAGS ? 1 : 0), "the tags");
    CHECK(g_d->indentmode == (ok && g_key == K_INDENT ? (g_ind == 0 ? 't' : g_ind == 1 ? 'b' : 'n') : im), "the indentation mode");
#elif defined(V_rule)
    size_t n = in_size(0, 1UL << 30);
    ASSUME(g_j < n);
    reprule_t *list = malloc(n * sizeof(reprule_t)), *l2 = list;
    bxstr_t *sj = list[g_j].search, *rj = list[g_j].repstr;
    char mj = list[g_j].mode;
    size_t len = n;
    char mode = nondet_char();
    g_lino = nondet_int();
    int r = action_add_regex_rule(&ba, "rep", &l2, &len, g_tag, g_s2, mode);
    COVER("rule");
    CHECK(r == RC_SUCCESS && len == n + 1, "one more rule");
    CHECK(l2[n].search == g_bd && l2[n].repstr == g_bd2 && l2[n].mode == mode && l2[n].line == g_lino, "with the texts given");
    CHECK(l2[g_j].search == sj && l2[g_j].repstr == rj && l2[g_j].mode == mj, "the rules before are kept");
#elif defined(V_nonblank)
    g_mem = malloc((g_n + 1) * 4);
    g_mem[g_n] = 0;
    ASSUME(ALL(k_, 0, g_n, g_mem[k_] != 0));
    g_tag->memory = g_mem;
    uint32_t *r = find_first_nonblank_line(g_tag);
    COVER("nonblank");
    size_t o = (size_t) (r - g_mem);
    CHECK(r >= g_mem && o <= g_n, "a place in the text");
    CHECK(o == 0 || g_mem[o - 1] == '\n', "the beginning of a line");
    CHECK(ALL(k_, 0, o, NBW(g_mem[k_]) || g_mem[k_] == '\n'), "only blank lines are skipped");
    CHECK(o == g_n || !ALL(k_, o, g_n + 1, NBW(g_mem[k_])), "and there is something after it");
    g_k = in_size(0, 1UL << 30);
    if (o <= g_k && g_k < g_n && g_mem[g_k] == '\n') CHECK(!ALL(k_, o, g_k, NBW(g_mem[k_])), "all of them");
#elif defined(V_sample)
    bxstr_t *old = in_int(0, 1) ? g_bd : NULL;
    g_d->sample = old;
    ba.num_mandatory = in_int(0, 5);
    int m = ba.num_mandatory;
    int r = action_sample_block(&ba, g_s1);
    COVER("sample");
    if (r == RC_SUCCESS) CHECK(old == NULL && !g_has && g_valid && g_d->sample == g_tag && ba.num_mandatory == m + 1, "the one sample, valid and not empty, counts as mandatory");
    else CHECK(g_d->sample == old && ba.num_mandatory == m, "nothing is recorded otherwise");
    if (r == RC_ERROR) CHECK(old != NULL || g_has || !g_valid, "refused only for a reason");
#elif defined(V_first)
    sentry_t sh;
    vc_havoc_obj(&sh);
    g_tag->num_columns = g_n;
    int r = action_first_shape_line(&ba, g_tag, &sh);
    COVER("first");
    CHECK((r == RC_SUCCESS) == (g_valid != 0) || r == RC_ABORT, "a valid line is accepted");
    if (r == RC_SUCCESS) {
        CHECK(sh.width == g_n && sh.height == 1, "one line, as wide as the text");
        CHECK(sh.chars[0] == g_dn && sh.mbcs[0] == g_bd, "its characters");
        CHECK(sh.elastic == 0, "not elastic yet");
    }
#elif defined(V_addline)
    size_t h = in_size(1, 1UL << 30), wd = in_size(0, 1UL << 30);
    sentry_t sh;
    vc_havoc_obj(&sh);
    sh.height = h; sh.width = wd;
    sh.chars = malloc(h * sizeof(char *)); sh.mbcs = malloc(h * sizeof(bxstr_t *));
    ASSUME(g_j < h);
    char *cj = sh.chars[g_j]; bxstr_t *mj = sh.mbcs[g_j];
    int el = sh.elastic;
    g_tag->num_columns = g_n;
    int r = action_add_shape_line(&ba, &sh, g_tag);
    COVER("addline");
    if (r == RC_ABORT) return;
    CHECK((r == RC_SUCCESS) == (g_valid && g_n == wd), "accepted exactly if valid and as wide as the lines before");
    CHECK(sh.chars[g_j] == cj && sh.mbcs[g_j] == mj && sh.width == wd && (sh.elastic != 0) == (el != 0), "the lines before are kept");
    if (r == RC_SUCCESS) CHECK(sh.height == h + 1 && sh.chars[h] == g_dn && sh.mbcs[h] == g_bd, "the line is added at the end");
    else CHECK(sh.height == h, "nothing is added");
#endif
}
#else
#include VC_SRC
void harness(void) { }
#endif
