//@title bxs_from_unicode: copy, counts, index tables, indentation and trailing space of every text
//@src bxstring.c
//@link unicode.c
//@prop C01
//@funcs bxs_from_unicode bxs_free is_blank is_allowed_anywhere is_ascii_printable
//@loops bxs_from_unicode:0
//@replace advance_next32=advance_next32_c is_csi_reset=is_csi_reset_c
//@noeffect bx_fprintf log_debug is_debug_logging
//@assume texts are shorter than 2^30 characters (candidate index is kept in an int)
//@budget 400
#include "common.h"
#include "texts.h"
#include "bxs.h"
static size_t g_n;
#define IDXR (result)
#define LOOP_bxs_from_unicode_0 vc_w(0, result), vc_w(0, result->ascii), vc_f(0, result->memory), vc_w(0, &step_invis), vc_keep(0, &result->memory), vc_keep(0, &result->ascii), vc_keep(0, &result->num_chars), vc_keep(0, &result->trailing), \
    vc_own(0, &result->first_char), vc_own(0, &result->visible_char), \
    vc_inv(0, rest == pInput + idx && idx <= g_n && c == pInput[idx] && ascii_ptr == result->ascii + result->num_columns && result->num_columns <= 2 * idx \
      && IMPLIES(idx > 0, pInput[idx - 1] != 0) && c == pInput[idx] \
      && result->num_chars_visible + result->num_chars_invisible == idx \
      && map_size >= 5 && map_size <= 4 * g_n + 5 && result->num_chars_visible <= map_size - 2 \
      && __CPROVER_OBJECT_SIZE(result->first_char) == map_size * 8 && __CPROVER_OBJECT_SIZE(result->visible_char) == map_size * 8 \
      && BXS_TABLES(result, pInput, result->num_chars_visible, idx) && BXS_GAPS(result, pInput, result->num_chars_visible, idx) \
      && first_candidate >= -1 && IMPLIES(first_candidate >= 0, (size_t) first_candidate < idx && IS_ESC(pInput[first_candidate]) \
            && IMPLIES(result->num_chars_visible > 0, (size_t) first_candidate > result->visible_char[result->num_chars_visible - 1])) \
      && BXS_INDENT(result, pInput, result->num_chars_visible) && (indent_active == 0 || indent_active == 1) && non_blank_encountered == 1 - indent_active \
      && (indent_active == 1 ? result->indent == result->num_chars_visible && blank_streak == result->num_chars_visible : result->indent < result->num_chars_visible && blank_streak < result->num_chars_visible) \
      && BXS_TRAIL(result, pInput, result->num_chars_visible, blank_streak)\
      && ALL(i_, 0, result->num_chars_visible, ALLOWEDP(VISC(result, pInput, i_))) && ALL(i_, 0, result->num_columns, result->ascii[i_] != 0))

#include VC_SRC

#ifdef GVC
static uint32_t *g_text;
/* proved in unit advance_next32 */
uint32_t *advance_next32_c(const uint32_t *s, size_t *invis)
{
    if (s[0] == 0) return (uint32_t *) s;
    if (s[0] != 0x1b) { *invis = 0; return (uint32_t *) s + 1; }
    size_t k = nondet_size_t(), i = (size_t) (s - g_text);
    ASSUME(k >= 1 && k <= g_n - i && ALL(q, 0, k, s[q] != 0));
    *invis = k;
    return (uint32_t *) s + k;
}
int is_csi_reset_c(const uint32_t *csi) { _Bool b = nondet_bool(); return b; }
#endif

void harness(void)
{
    size_t n = in_size(0, TEXTMAX);
#ifndef GVC
    encoding = "UTF-8";
    ASSUME(n <= MAXLEN);
#endif
    uint32_t *t = gen_text(n);
    g_n = n;
#ifdef GVC
    g_text = t;
#endif
    size_t k = in_size(0, TEXTMAX);
    ASSUME(k < n);
    bxstr_t *r = bxs_from_unicode(t);
    COVER("returns");
    if (r == NULL) {
        COVER("refused");
        CHECK(!ALL(i_, 0, n, ALLOWEDP(t[i_])), "only texts with an illegal character are refused");
        return;
    }
    COVER("accepted");
    size_t V = r->num_chars_visible;
    CHECK(r->num_chars == n && r->num_chars_visible + r->num_chars_invisible == n, "counts add up to the length");
    CHECK(r->memory != t && r->memory[k] == t[k] && r->memory[n] == 0, "the text is copied exactly");
    CHECK(r->visible_char[V] == n && r->first_char[V] == n, "tables end at the terminator");
    CHECK(BXS_TABLES(r, t, V, n), "tables are increasing, in range, and never name an ESC as visible");
    CHECK(BXS_GAPS(r, t, V, n), "every skipped stretch starts with ESC");
    CHECK(BXS_INDENT(r, t, V), "leading blanks counted exactly");
    CHECK(IMPLIES(r->indent == V, r->trailing == 0) && IMPLIES(r->indent != V, BXS_TRAIL(r, t, V, r->trailing)), "trailing blanks counted exactly");
    CHECK(ALL(i_, 0, r->num_columns, r->ascii[i_] != 0) && r->ascii[r->num_columns] == 0, "ASCII form has one byte per column");
    CHECK(ALL(i_, 0, V, ALLOWEDP(VISC(r, t, i_))), "no visible character is illegal");
#ifndef GVC
    /* reference tokenizer and ASCII form */
    size_t v = 0, cols = 0, i = 0;
    while (i < n) {
        if (t[i] == 0x1b) {
            i++;
            if (i < n && (t[i] == '[' || t[i] == '(')) { i++; while (i < n && !(t[i] >= 0x40 && t[i] <= 0x7e)) i++; if (i < n) i++; }
            else if (i < n && t[i] >= 0x40 && t[i] <= 0x5f) i++;
            continue;
        }
        CHECK(v < V && r->visible_char[v] == i, "exactly the characters outside escape sequences are visible");
        int w = t[i] == 9 ? 1 : uc_width(t[i], encoding);
        if (w < 0) w = 0;
        for (int q = 0; q < w; q++) {
            char want = t[i] >= 0x20 && t[i] < 0x7f ? (char) t[i] : BLANKP(t[i]) ? ' ' : 'x';
            CHECK(r->ascii[cols + q] == want, "ASCII form shows the character, a blank, or x");
        }
        cols += w;
        v++; i++;
    }
    CHECK(v == V && cols == r->num_columns, "all visible characters listed, columns added up");
#endif
}
