//@title UTF-32 text utilities: spaces, inserting spaces, blank test, last occurrence, single characters
//@variants nspaces insert blank strnrstr chars
//@src unicode.c
//@prop C19
//@funcs.nspaces u32_nspaces set_char_at
//@funcs.insert u32_insert_space_at
//@funcs.blank u32_is_blank is_blank is_empty is_char_at new_empty_string32
//@funcs.strnrstr u32_strnrstr is_empty
//@funcs.chars is_char_at set_char_at to_utf32 is_ascii_printable is_blank
//@loops.blank u32_is_blank:0
//@loops.strnrstr u32_strnrstr:0
//@noeffect bx_fprintf log_debug is_debug_logging
//@assume.strnrstr needle_len is the length of needle (as at every call)
#include "common.h"
#include "texts.h"
static const uint32_t *g_h;
static uint32_t g_n0;
static unsigned char *g_match;
static size_t g_n;
#define LOOP_u32_is_blank_0 vc_inv(0, __CPROVER_POINTER_OBJECT(c) == __CPROVER_POINTER_OBJECT(text) && text + (c - text) == c && c >= text && (size_t) (c - text) <= g_n && ALL(k_, 0, (size_t) (c - text), BLANKP(text[k_])))
#define LOOP_u32_strnrstr_0 vc_inv(0, __CPROVER_POINTER_OBJECT(p) == __CPROVER_POINTER_OBJECT(haystack) && haystack + (p - haystack) == p && p - haystack >= -1 && p - haystack < (long) g_n && ALL(k_, (size_t) (p - haystack + 1), g_n, !g_match[k_]))
#ifdef GVC
uint32_t *u32_strrchr(const uint32_t *s, ucs4_t c)
{
    size_t k = nondet_size_t(), n = u32_strlen(s);
    if (k < n) {
        ASSUME(s[k] == c && ALL(i_, k + 1, n, s[i_] != c));
        return (uint32_t *) s + k;
    }
    ASSUME(ALL(i_, 0, n, s[i_] != c));
    return NULL;
}
/* g_match[j]: the needle occurs at position j of the haystack (then its first character is there) */
int u32_strncmp(const uint32_t *a, const uint32_t *b, size_t n)
{
    CHECK(a >= g_h && a < g_h + g_n, "compares inside the haystack");
    return g_match[a - g_h] ? 0 : 1;
}
#endif
#include VC_SRC
#ifdef GVC
opt_t opt; input_t input; int num_designs; design_t *designs; int color_output_enabled;
#define STRMAX (1UL << 30)
#else
#define STRMAX 40
#endif

void harness(void)
{
    size_t n = in_size(0, STRMAX);
#ifndef GVC
    encoding = "UTF-8";
#endif
#ifdef V_nspaces
    uint32_t *r = u32_nspaces(n);
    COVER("nspaces");
    CHECK(ALL(i_, 0, n, r[i_] == ' ') && r[n] == 0, "exactly n spaces");
#endif
#ifdef V_insert
    uint32_t *s = gen_text(n);
    uint32_t *o = malloc((n + 1) * sizeof(uint32_t));
    u32_cpy(o, s, n + 1);
    size_t at = in_size(0, STRMAX + 5), cnt = in_size(0, STRMAX);
    size_t x = at > n ? n : at;
    u32_insert_space_at(&s, at, cnt);
    COVER("insert");
    CHECK(ALL(i_, 0, x, s[i_] == o[i_]), "insert: the text in front stays");
    CHECK(ALL(i_, x, x + cnt, s[i_] == ' '), "insert: the spaces, at the end if the position is behind it");
    CHECK(ALL(i_, x + cnt, n + cnt, s[i_] == o[i_ - cnt]) && s[n + cnt] == 0, "insert: the text behind moves up, with its end");
    u32_insert_space_at(NULL, at, cnt);
#endif
#ifdef V_blank
    uint32_t *s = gen_text(n);
#ifndef GVC
    for (size_t i = 0; i < n; i++) if (in_int(0, 6)) s[i] = (uint32_t[]) {' ', '\t', 0x3000, 0x2003}[in_int(0, 3)];
#endif
    g_n = n;
    int r = u32_is_blank(s);
    COVER("blank");
    CHECK((r != 0) == ALL(k_, 0, n, BLANKP(s[k_])), "blank exactly if it holds blanks only");
    CHECK(u32_is_blank(NULL) != 0, "absent text is blank");
    uint32_t *e = new_empty_string32();
    CHECK(e[0] == 0 && is_empty(e) && u32_is_blank(e), "empty text is blank");
#endif
#ifdef V_strnrstr
    size_t m = in_size(0, STRMAX);
    uint32_t *h = gen_text(n), *d = gen_text(m);
#ifdef GVC
    g_match = malloc(n + 1);
    if (m > 0) ASSUME(ALL(k_, 0, n, g_match[k_] <= 1 && IMPLIES(g_match[k_], h[k_] == d[0])));
#else
    m = in_size(0, 3);
    d = calloc(m + 1, 4);
    for (size_t i = 0; i < n; i++) h[i] = 'a' + (uint32_t) in_int(0, 2);
    for (size_t i = 0; i < m; i++) d[i] = 'a' + (uint32_t) in_int(0, 2);
    d[m] = 0;
    g_match = calloc(n + 1, 1);
    for (size_t i = 0; i < n; i++) g_match[i] = i + m <= n && memcmp(h + i, d, m * 4) == 0;
#endif
    g_n = n; g_h = h;
    uint32_t *r = u32_strnrstr(h, d, m);
    COVER("strnrstr");
    if (m == 0) CHECK(r == h, "strnrstr: nothing is found at the start");
    else if (r == NULL) CHECK(ALL(k_, 0, n, !g_match[k_]), "strnrstr: not found means it occurs nowhere");
    else {
        CHECK(r >= h && r < h + n, "strnrstr: position in the text");
        CHECK(ALL(k_, (size_t) (r - h), (size_t) (r - h) + 1, g_match[k_]) && ALL(k_, (size_t) (r - h) + 1, n, !g_match[k_]), "strnrstr: the last occurrence");
    }
#endif
#ifdef V_chars
    uint32_t *s = gen_text(n);
    size_t i = in_size(0, STRMAX);
    ASSUME(i <= n);
    uint32_t c = in_u32(0, 0x10ffff);
    COVER("chars");
    CHECK((is_char_at(s, i, c) != 0) == (s[i] == c), "is_char_at");
    CHECK(!is_char_at(NULL, i, c), "is_char_at: absent text");
    uint32_t *o = malloc((n + 1) * sizeof(uint32_t));
    u32_cpy(o, s, n + 1);
    set_char_at(s, i, c);
    CHECK(s[i] == c && ALL(k_, 0, i, s[k_] == o[k_]) && ALL(k_, i + 1, n + 1, s[k_] == o[k_]), "set_char_at changes one character");
    char a = in_char(-128, 127);
    CHECK(to_utf32(a) == (a >= 32 && a < 127 ? (uint32_t) a : 0), "to_utf32: printable ASCII only");
    CHECK((is_ascii_printable(c) != 0) == (c >= 32 && c < 127), "is_ascii_printable");
    CHECK((is_blank(c) != 0) == (BLANKP(c) != 0), "is_blank");
#endif
}
