//@title trimdup, substr, cut_front, trim, rtrim, ltrim: exactly the requested part, argument intact
//@variants trimdup substr cut_front trim rtrim ltrim strdup first_char_ptr ptrs null
//@src bxstring.c
//@link unicode.c
//@prop C02
//@funcs bxs_trimdup bxs_substr bxs_cut_front bxs_trim bxs_rtrim bxs_ltrim bxs_strdup bxs_new_empty_string bxs_first_char_ptr bxs_last_char_ptr bxs_unindent_ptr
//@loops bxs_trimdup:0 bxs_trimdup:1 bxs_ltrim:0
//@replace bxs_from_unicode=bxs_from_unicode_c bxs_from_ascii=bxs_from_ascii_c
//@noeffect bx_fprintf log_debug is_debug_logging
//@assume bxs_from_unicode is used by its contract (proved in its own unit)
//@budget 400
#include "common.h"
#include "texts.h"
static size_t g_s0, g_e0;
#define VB(p, i) BLANKP((p)->memory[(p)->visible_char[i]])
#define LOOP_bxs_trimdup_0 vc_inv(0, start_idx >= g_s0 && start_idx <= end_idx && ALL(i_, g_s0, start_idx, VB(pString, i_)))
#define LOOP_bxs_trimdup_1 vc_inv(1, end_idx >= start_idx && end_idx <= g_e0 && ALL(i_, end_idx, g_e0, VB(pString, i_)))
#define LOOP_bxs_ltrim_0 vc_inv(0, i <= max && i <= pString->num_chars_visible && num_trimmed == (max < pString->num_chars_visible ? max : pString->num_chars_visible) && ALL(i_, 0, i, VB(pString, i_)))
#include VC_SRC
#include "bxsgen.h"

#ifdef GVC
bxstr_t *bxs_from_ascii_c(char *s)
{
    CHECK(s[0] == 0, "only used for the empty string here");
    return mk_bxs(new_empty_string32(), 0);
}
#endif

/* r is the text m[a..b), and nothing else */
#define IS_PART(r, m, a, b) ((r)->num_chars == (b) - (a) && (r)->memory[(b) - (a)] == 0 && ALL(i_, 0, (b) - (a), (r)->memory[i_] == (m)[(a) + i_]))

void harness(void)
{
    size_t n = in_size(0, MAXLEN), V, cols;
#ifndef GVC
    encoding = "UTF-8";
#endif
    bxstr_t *x = gen_bxs(n);
    V = x->num_chars_visible; cols = x->num_columns;
    uint32_t *m = malloc((n + 1) * sizeof(uint32_t));
    u32_cpy(m, x->memory, n + 1);
    const uint32_t *mem0 = x->memory;
    const size_t *fc = x->first_char, *vi = x->visible_char;
    size_t ind = x->indent, tr = x->trailing;
    bxstr_t *r = NULL;
    size_t a = 0, b = 0;
#ifdef V_trimdup
    {
        size_t s = in_size(0, MAXLEN + 2), e = in_size(0, MAXLEN + 2);
        g_s0 = s; g_e0 = e;
        r = bxs_trimdup(x, s, e);
        if (s > V || e > V || e < s) {
            CHECK(r == NULL, "trimdup: positions out of range give no result");
            a = b = 0;
        }
        else {
            COVER("trimdup");
            size_t s1 = s, e1 = e;
            while (vc_inv(0, s1 >= s && s1 <= e && ALL(i_, s, s1, BLANKP(m[vi[i_]]))), (s1 < e && BLANKP(m[vi[s1]]))) s1++;
            while (vc_inv(1, e1 >= s1 && e1 <= e && ALL(i_, e1, e, BLANKP(m[vi[i_]]))), (e1 > s1 && BLANKP(m[vi[e1 - 1]]))) e1--;
            a = fc[s1]; b = fc[e1];
            MONO(x, s1, e1); MONO(x, e1, V);
            if (r == NULL) CHECK(!ALL(i_, a, b, ALLOWEDP(m[i_])), "trimdup: refused only for an illegal character");
            else CHECK(IS_PART(r, m, a, b), "trimdup: the characters between the positions, without blanks around them");
        }
    }
#endif
#ifdef V_substr
    {
        size_t s = in_size(0, MAXLEN + 2), e = in_size(0, MAXLEN + 2);
        r = bxs_substr(x, s, e);
        if (s > n) s = n;
        if (e > n) e = n;
        if (e < s) CHECK(r == NULL, "substr: reversed positions give no result");
        else if (r == NULL) CHECK(!ALL(i_, s, e, ALLOWEDP(m[i_])), "substr: refused only for an illegal character");
        else {
            COVER("substr");
            CHECK(IS_PART(r, m, s, e), "substr: exactly the characters in the range, clipped to the string");
        }
    }
#endif
#ifdef V_cut_front
    {
        size_t k = in_size(0, MAXLEN + 2);
        MONO(x, k, V);
        r = bxs_cut_front(x, k);
        size_t from = k >= V ? n : k == 0 ? 0 : fc[k];
        if (r == NULL) CHECK(!ALL(i_, from, n, ALLOWEDP(m[i_])), "cut_front: refused only for an illegal character");
        else {
            COVER("cut_front");
            CHECK(IS_PART(r, m, from, n), "cut_front: everything from the n-th visible character on");
        }
    }
#endif
#ifdef V_trim
    {
        MONO(x, ind, V - tr);  MONO(x, V - tr, V);
        r = bxs_trim(x);
        size_t from = ind == 0 && tr == 0 ? 0 : fc[ind], to = ind == 0 && tr == 0 ? n : fc[V - tr];
        if (ind + tr == V && V > 0) from = to = 0;
        if (r == NULL) CHECK(!ALL(i_, from, to, ALLOWEDP(m[i_])), "trim: refused only for an illegal character");
        else {
            COVER("trim");
            CHECK(IS_PART(r, m, from, to), "trim: leading and trailing blanks removed, nothing else");
        }
    }
#endif
#ifdef V_rtrim
    {
        MONO(x, V - tr, V);
        r = bxs_rtrim(x);
        size_t to = tr == 0 ? n : fc[V - tr];
        if (r == NULL) CHECK(!ALL(i_, 0, to, ALLOWEDP(m[i_])), "rtrim: refused only for an illegal character");
        else {
            COVER("rtrim");
            CHECK(IS_PART(r, m, 0, to), "rtrim: trailing blanks removed, nothing else");
        }
    }
#endif
#ifdef V_ltrim
    {
        size_t max = in_size(0, MAXLEN + 2);
        uint32_t *u = bxs_ltrim(x, max);
        COVER("ltrim");
        size_t k = 0, lim = max < V ? max : V;
        while (vc_inv(2, k <= lim && ALL(i_, 0, k, BLANKP(m[vi[i_]]))), (k < lim && BLANKP(m[vi[k]]))) k++;
        CHECK(u != mem0 && ALL(i_, 0, n - fc[k] + 1, u[i_] == m[fc[k] + i_]), "ltrim: at most max leading blanks removed, nothing else");
    }
#endif
#ifdef V_strdup
    {
        r = bxs_strdup(x);
        COVER("strdup");
        CHECK(r != NULL && r != x && r->memory != mem0 && r->ascii != x->ascii && r->first_char != fc && r->visible_char != vi, "strdup: shares nothing");
        CHECK(IS_PART(r, m, 0, n) && r->num_chars_visible == V && r->num_chars_invisible == n - V && r->num_columns == cols && r->indent == ind && r->trailing == tr
            && ALL(i_, 0, V + 1, r->first_char[i_] == fc[i_]) && ALL(i_, 0, V + 1, r->visible_char[i_] == vi[i_])
            && ALL(i_, 0, cols + 1, r->ascii[i_] == x->ascii[i_]), "strdup: an exact copy");
    }
#endif
#ifdef V_first_char_ptr
    {
        size_t k = in_size(0, MAXLEN + 2);
        uint32_t *u = bxs_first_char_ptr(x, k);
        COVER("first_char_ptr");
        CHECK(u == mem0 + (k >= V ? n : fc[k]), "first_char_ptr: the character, or the terminator");
    }
#endif
#ifdef V_ptrs
    {
        CHECK(bxs_last_char_ptr(x) == mem0 + n, "last_char_ptr: the terminator");
        CHECK(bxs_unindent_ptr(x) == mem0 + fc[ind], "unindent_ptr: the first non-blank character");
        COVER("ptrs");
    }
#endif
#ifdef V_null
    {
        COVER("null");
        CHECK(bxs_trimdup(NULL, 0, 0) == NULL && bxs_substr(NULL, 0, 0) == NULL && bxs_cut_front(NULL, 1) == NULL && bxs_trim(NULL) == NULL
            && bxs_rtrim(NULL) == NULL && bxs_ltrim(NULL, 1) == NULL && bxs_strdup(NULL) == NULL && bxs_first_char_ptr(NULL, 0) == NULL
            && bxs_last_char_ptr(NULL) == NULL && bxs_unindent_ptr(NULL) == NULL, "an absent string gives an absent result");
    }
#endif
#ifndef GVC
    if (r != NULL) CHECK(BXS_OK(r, r->memory, r->num_chars_visible, r->num_chars), "result is consistent");
#endif
    CHECK(x->memory == mem0 && ALL(i_, 0, n + 1, mem0[i_] == m[i_]), "the text of the argument is unchanged");
    CHECK(x->num_chars == n && x->num_chars_visible == V && x->num_columns == cols && x->indent == ind && x->trailing == tr && x->first_char == fc && x->visible_char == vi, "the bookkeeping of the argument is unchanged");
}
