//@title joining texts, repeating a text, counting invisible characters: the parts in order, in a buffer that holds them
//@variants concat strings repeat invis
//@src bxstring.c
//@src.strings tools.c
//@src.repeat tools.c
//@src.invis tools.c
//@link.invis unicode.c
//@prop.concat C02
//@prop.strings C12 C19
//@prop.repeat C02 C19
//@prop.invis C01
//@prop C02
//@funcs.concat bxs_concat
//@funcs.strings concat_strings_alloc
//@funcs.repeat repeat
//@funcs.invis count_invisible_chars
//@loops.repeat repeat:0
//@loops.invis count_invisible_chars:0
//@replace.concat u32_strlen=len_c repeat=repeat_c u32_vsnprintf=print_c bxs_from_unicode=from_c bxs_from_ascii=ascii_c free=free_c
//@replace.strings strlen=slen_c strcpy=scopy_c strdup=sdup_c
//@replace.repeat strlen=slen_c strcpy=scopy_c
//@replace.invis advance_next32=advance_c u32_strwidth=strwidth_c uc_width=ucw_c strdup=sdup_c
//@assume.concat u32_vsnprintf("%llU" x n) writes the n texts one after the other and a terminator (libunistring); u32_strlen; bxs_from_unicode and repeat by their contracts; up to 8 parts (the calls in the program pass 4 or 8), none of them NULL; total length below 2^40
//@assume.strings strlen, strcpy as documented in C; up to 4 parts (the calls in the program pass 2 or 3); total length below 2^40
//@assume.repeat strlen, strcpy as documented in C; result shorter than 2^40
//@assume.invis advance_next32 by its contract (unit advance_next32); u32_strwidth is the sum of the widths of the characters that have one (libunistring); sums of such widths are monotone; texts shorter than 2^29
//@noeffect bx_fprintf log_debug is_debug_logging
//@bound texts up to 60 characters, up to 8 parts
#include "common.h"
#include "texts.h"
#include "bxs.h"
#include "boxes.h"
#include <stdarg.h>
#ifdef GVC
#if defined(V_concat)
static size_t g_l[8], g_tot;
static uint32_t *g_s[8], *g_buf;
static int g_k, g_step, g_freed;
static char *g_fmt;
static bxstr_t *g_r;
size_t len_c(const uint32_t *s)
{
    for (int i = 0; i < 8; i++) if (s == g_s[i]) return g_l[i];
    CHECK(0, "one of the parts");
    return 0;
}
char *repeat_c(char *s, size_t n)
{
    CHECK(s[0] == '%' && s[1] == 'l' && s[2] == 'l' && s[3] == 'U' && s[4] == 0 && n == (size_t) g_k, "one directive per part");
    return g_fmt;
}
int print_c(uint32_t *b, size_t size, const char *fmt, va_list va)
{
    CHECK(fmt == g_fmt && g_step == 0, "printed once, with that format");
    CHECK(size > g_tot && __CPROVER_OBJECT_SIZE(b) >= size * sizeof(uint32_t) && __CPROVER_POINTER_OFFSET(b) == 0, "the buffer holds all parts and the terminator");
    for (int i = 0; i < g_k; i++) CHECK(va_arg(va, uint32_t *) == g_s[i], "the parts in their order");
    g_buf = b;
    g_step = 1;
    return (int) 0;
}
bxstr_t *from_c(const uint32_t *s) { CHECK(s == g_buf && g_step == 1 && !g_freed, "made from what was printed"); g_step = 2; return g_r; }
bxstr_t *ascii_c(const char *s) { CHECK(s[0] == 0, "nothing to join"); g_step = 3; return g_r; }
void free_c(void *p) { if (p == (void *) g_buf) g_freed++; else CHECK(p == (void *) g_fmt, "only the temporary texts are freed"); }
#elif defined(V_strings) || defined(V_repeat)
static size_t g_l[4], g_pos, g_n, g_tot;
static char *g_s[4], *g_res;
static int g_k, g_step;
size_t slen_c(const char *s)
{
    for (int i = 0; i < 4; i++) if (s == g_s[i]) return g_l[i];
    CHECK(0, "one of the parts");
    return 0;
}
char *sdup_c(const char *s) { CHECK(s[0] == 0, "nothing to join"); g_step = -1; return g_res; }
#ifdef V_repeat
#define LOOP_repeat_0 vc_inv(0, i <= g_tot && g_n == i && g_pos == i * g_l[0] && dest == result + g_pos && IMPLIES(i > 0, g_res == result))
char *scopy_c(char *d, const char *s)
{
    CHECK(s == g_s[0] && IMPLIES(g_n > 0, d == g_res + g_pos) && __CPROVER_POINTER_OFFSET(d) == g_pos, "right behind the copy before");
    CHECK(g_pos + g_l[0] < __CPROVER_OBJECT_SIZE(d), "the copy and its terminator fit");
    if (g_n == 0) g_res = d;
    g_n++; g_pos += g_l[0];
    return d;
}
#else
char *scopy_c(char *d, const char *s)
{
    while (g_step < 4 && g_s[g_step] != s && (g_s[g_step] == NULL || g_l[g_step] == 0)) g_step++;
    CHECK(g_step < g_k && s == g_s[g_step], "the parts in their order");
    CHECK(__CPROVER_POINTER_OFFSET(d) == g_pos && IMPLIES(g_n > 0, d == g_res + g_pos), "right behind the part before");
    CHECK(g_pos + g_l[g_step] < __CPROVER_OBJECT_SIZE(d), "the part and its terminator fit");
    if (g_n == 0) g_res = d;
    g_n++; g_pos += g_l[g_step]; g_step++;
    return d;
}
#endif
#else
#include <uniwidth.h>
static uint32_t *g_t;
static size_t g_n, g_inv, g_esc, g_cols, *g_pw;
static uint32_t *g_wd;
static size_t g_at;
#define LOOP_count_invisible_chars_0 vc_w(0, *ascii), vc_own(0, &map), vc_w(0, num_esc), vc_w(0, &step_invis), vc_keep(0, ascii), \
    vc_inv(0, rest == s + mb_idx && mb_idx <= g_n && c == s[mb_idx] && g_cols <= g_pw[mb_idx] && p == *ascii + g_cols && map_idx == g_cols && invis == g_inv && *num_esc == g_esc && g_inv <= mb_idx && g_esc <= mb_idx \
      && map_size >= 5 && map_size <= 8 * g_n + 5 && map_idx + 3 <= map_size && __CPROVER_OBJECT_SIZE(map) == map_size * 8 \
      && ALL(q_, 0, map_idx, map[q_] < mb_idx && s[map[q_]] != 0x1b) && ALL(q_, 1, map_idx, map[q_ - 1] <= map[q_]) && ALL(q_, 0, g_cols, (*ascii)[q_] != 0) \
      && ALL(q_, 0, map_idx, IMPLIES(s[map[q_]] >= 0x20 && s[map[q_]] < 0x7f, (*ascii)[q_] == (char) s[map[q_]])))
#define BODY_count_invisible_chars_0 g_at = mb_idx; g_cols += (c == 0x1b ? 0 : (size_t) g_wd[mb_idx]);
int strwidth_c(const uint32_t *s, const char *enc) { CHECK(s == g_t, "the width of the whole text"); return (int) g_pw[g_n]; }
int ucw_c(ucs4_t c, const char *enc) { CHECK(c == g_t[g_at], "the width of the character"); int w = (int) g_wd[g_at]; if (w == 0 && nondet_bool()) return -1; return w; }
uint32_t *advance_c(const uint32_t *s, size_t *invis)
{
    CHECK(s == g_t + g_at, "goes on from here");
    if (s[0] != 0x1b) { *invis = 0; return (uint32_t *) s + 1; }
    size_t k = nondet_size_t();
    ASSUME(k >= 1 && k <= g_n - g_at && ALL(q, 0, k, s[q] != 0) && g_pw[g_at + k] >= g_pw[g_at]);
    *invis = k;
    g_inv += k; g_esc++;
    return (uint32_t *) s + k;
}
char *sdup_c(const char *s) { CHECK(s[0] == 0, "nothing to show"); char *r = malloc(1); r[0] = 0; return r; }
#endif
#endif
#include VC_SRC
#ifdef GVC
void harness(void)
{
#if defined(V_concat)
    g_k = in_int(0, 8);
    for (int i = 0; i < 8; i++) {
        g_s[i] = malloc(4);
        g_l[i] = in_size(0, 1UL << 36);
        if (i < g_k) g_tot += g_l[i];
    }
    g_fmt = malloc(1); g_r = malloc(sizeof(bxstr_t));
    bxstr_t *r = bxs_concat((size_t) g_k, g_s[0], g_s[1], g_s[2], g_s[3], g_s[4], g_s[5], g_s[6], g_s[7]);
    COVER("concat");
    CHECK(r == g_r && g_step == (g_k ? 2 : 3), "the joined text is returned");
    if (g_k) { COVER("concat some"); CHECK(g_freed == 1, "the temporary text is freed"); }
#elif defined(V_strings)
    g_k = in_int(0, 4);
    for (int i = 0; i < 4; i++) {
        g_l[i] = in_size(0, 1UL << 36);
        if (nondet_bool()) { g_s[i] = NULL; g_l[i] = 0; }
        else { g_s[i] = malloc(g_l[i] + 1); ASSUME((g_s[i][0] == 0) == (g_l[i] == 0)); }
        if (i < g_k) g_tot += g_l[i];
    }
    g_step = 0;
    char *r = concat_strings_alloc((size_t) g_k, g_s[0], g_s[1], g_s[2], g_s[3]);
    COVER("strings");
    if (g_k == 0) { COVER("strings none"); CHECK(r == g_res && g_step == -1, "nothing to join"); return; }
    CHECK(g_pos == g_tot, "all parts are there");
    CHECK(IMPLIES(g_n > 0, r == g_res) && r[g_tot] == 0, "terminated after the last part");
    CHECK(__CPROVER_OBJECT_SIZE(r) >= g_tot + 1, "in a buffer that holds it");
#elif defined(V_repeat)
    g_l[0] = in_size(0, 1UL << 20); g_s[0] = malloc(g_l[0] + 1);
    g_tot = in_size(0, 1UL << 20);
    char *r = repeat(g_s[0], g_tot);
    COVER("repeat");
    CHECK(g_n == g_tot && IMPLIES(g_n > 0, g_res == r), "as many copies as asked for");
    CHECK(r[g_tot * g_l[0]] == 0, "terminated after the last copy");
    CHECK(repeat(NULL, g_tot) == NULL, "nothing to repeat");
#else
    g_n = in_size(0, 1UL << 29);
    g_t = gen_text(g_n);
    g_wd = in_u32arr(g_n + 1); g_pw = malloc((g_n + 1) * sizeof(size_t));
    ASSUME(ALL(q_, 0, g_n, g_wd[q_] <= 2 && IMPLIES(g_t[q_] >= 0x20 && g_t[q_] < 0x7f, g_wd[q_] == 1)));
    ASSUME(g_pw[0] == 0 && ALL(q_, 0, g_n, g_pw[q_ + 1] == g_pw[q_] + (size_t) g_wd[q_]));
    ASSUME(ALL(q_, 0, g_n + 1, g_pw[q_] <= g_pw[g_n] && g_pw[q_] <= 2 * q_));
    size_t ne = 99, *map;
    char *asc;
    size_t r = count_invisible_chars(g_t, &ne, &asc, &map);
    COVER("invis");
    CHECK(r == g_inv && ne == g_esc, "characters of escape sequences and their number counted exactly");
    CHECK(asc[g_cols] == 0 && ALL(q_, 0, g_cols, asc[q_] != 0), "ASCII form has one byte per column");
    CHECK(ALL(q_, 0, g_cols, map[q_] < g_n && g_t[map[q_]] != 0x1b && IMPLIES(g_t[map[q_]] >= 0x20 && g_t[map[q_]] < 0x7f, asc[q_] == (char) g_t[map[q_]])), "every byte belongs to a visible character, and shows it if it can");
    CHECK(ALL(q_, 1, g_cols, map[q_ - 1] <= map[q_]), "in the order of the text");
#endif
}
#else
#include "bxstring.h"
#include "bxsgen.h"
#include "tools.h"
void harness(void)
{
    encoding = "UTF-8";
#if defined(V_strings) || defined(V_repeat)
    static char parts[4][24], want[400];
    char *p[4];
    for (int i = 0; i < 4; i++) {
        size_t l = in_size(0, 20);
        for (size_t q = 0; q < l; q++) parts[i][q] = (char) in_int(1, 127);
        parts[i][l] = 0;
        p[i] = in_int(0, 4) ? parts[i] : NULL;
    }
    want[0] = 0;
#ifdef V_repeat
    int k = in_int(0, 12);
    if (p[0] == NULL) { CHECK(repeat(NULL, (size_t) k) == NULL, "nothing to repeat"); return; }
    for (int i = 0; i < k; i++) strcat(want, p[0]);
    char *r = repeat(p[0], (size_t) k);
#else
    int k = in_int(0, 4);
    for (int i = 0; i < k; i++) if (p[i]) strcat(want, p[i]);
    char *r = k == 0 ? concat_strings_alloc(0) : k == 1 ? concat_strings_alloc(1, p[0]) : k == 2 ? concat_strings_alloc(2, p[0], p[1]) : k == 3 ? concat_strings_alloc(3, p[0], p[1], p[2]) : concat_strings_alloc(4, p[0], p[1], p[2], p[3]);
#endif
    CHECK(strcmp(r, want) == 0, "the parts in order");
    free(r);
#elif defined(V_concat)
    uint32_t *p[8];
    size_t l[8], tot = 0;
    int k = in_int(0, 8);
    for (int i = 0; i < 8; i++) {
        l[i] = in_size(0, 20);
        p[i] = gen_text(l[i]);
        for (size_t q = 0; q < l[i]; q++) if (!ALLOWEDP(p[i][q]) || (p[i][q] >= 0xd800 && p[i][q] < 0xe000) || p[i][q] > 0x10ffff) p[i][q] = 'u';
        if (i < k) tot += l[i];
    }
    bxstr_t *r = NULL;
    switch (k) {
        case 0: r = bxs_concat(0); break;
        case 1: r = bxs_concat(1, p[0]); break;
        case 2: r = bxs_concat(2, p[0], p[1]); break;
        case 3: r = bxs_concat(3, p[0], p[1], p[2]); break;
        case 4: r = bxs_concat(4, p[0], p[1], p[2], p[3]); break;
        case 5: r = bxs_concat(5, p[0], p[1], p[2], p[3], p[4]); break;
        case 6: r = bxs_concat(6, p[0], p[1], p[2], p[3], p[4], p[5]); break;
        case 7: r = bxs_concat(7, p[0], p[1], p[2], p[3], p[4], p[5], p[6]); break;
        case 8: r = bxs_concat(8, p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7]); break;
    }
    CHECK(r != NULL && r->num_chars == tot && r->memory[tot] == 0, "as long as all parts together");
    size_t o = 0;
    for (int i = 0; i < k; i++) for (size_t q = 0; q < l[i]; q++) CHECK(r->memory[o++] == p[i][q], "the parts in order");
    CHECK(BXS_OK(r, r->memory, r->num_chars_visible, r->num_chars), "result is consistent");
#else
    size_t n = in_size(0, 60);
    uint32_t *t = gen_text(n);
    for (size_t i = 0; i < n; i++) if (uc_width(t[i], encoding) < 0 && t[i] != 0x1b) t[i] = 'w';
    size_t ne = 99, i = 0, inv = 0, esc = 0, cols = 0;
    char *asc;
    size_t *map;
    size_t r = count_invisible_chars(t, &ne, &asc, &map);
    while (i < n) {
        if (t[i] != 0x1b) { cols += uc_width(t[i], encoding) > 0 ? uc_width(t[i], encoding) : 0; i++; continue; }
        size_t a = i++;
        esc++;
        if (i < n && (t[i] == '[' || t[i] == '(')) { i++; while (i < n && !(t[i] >= 0x40 && t[i] <= 0x7e)) i++; if (i < n) i++; }
        else if (i < n && t[i] >= 0x40 && t[i] <= 0x5f) i++;
        inv += i - a;
    }
    CHECK(r == inv && ne == esc, "characters of escape sequences and their number counted exactly");
    CHECK(strlen(asc) == cols, "ASCII form has one byte per column");
#endif
}
#endif
