//@title character search, blank tests and validation of internal strings answer exactly as documented
//@variants strchr isvis isblank valid
//@src bxstring.c
//@link unicode.c
//@prop C02
//@prop.valid C19
//@prop.isblank C02 C19
//@funcs bxs_strchr bxs_is_visible_char bxs_is_blank bxs_is_empty
//@funcs.valid bxs_valid_in_context bxs_valid_anywhere bxs_valid_in_shape bxs_valid_in_sample bxs_valid_in_filename bxs_valid_in_kv_string is_allowed_anywhere is_allowed_in_shape is_allowed_in_sample is_allowed_in_filename is_allowed_in_kv_string
//@loops bxs_strchr:0 bxs_is_visible_char:0 bxs_is_blank:0 bxs_valid_in_context:0
//@noeffect bx_fprintf log_debug is_debug_logging
//@budget 300
#include "common.h"
#include "texts.h"
#include "bxs.h"
#define LOOP_bxs_strchr_0 vc_w(0, cursor), vc_inv(0, IMPLIES(cursor != NULL, *cursor == g_cur) && result == NULL && i >= start_idx && (i <= pString->num_chars_visible || i == start_idx) && ALL(i_, start_idx, i, VISC(pString, pString->memory, i_) != c))
#define LOOP_bxs_is_visible_char_0 vc_inv(0, result == 0 && i <= pString->num_chars_visible && ALL(i_, 0, i, pString->visible_char[i_] < idx))
#define LOOP_bxs_is_blank_0 vc_inv(0, i <= pString->num_chars_visible && ALL(i_, 0, i, VISC(pString, pString->memory, i_) == '\r' || BLANKP(VISC(pString, pString->memory, i_))))
static int g_pred, g_cur;
static size_t g_n, g_ep;
#define CTRLOK(c) ((c) == 9 || (c) == 10 || (c) == 13 || (c) == 27)
#define OKIN(c) (ALLOWEDP(c) && IMPLIES(g_pred == 2, (c) != 13 && (c) != 10) && IMPLIES(g_pred >= 4, (c) != 13 && (c) != 10 && (c) != 27))
#define LOOP_bxs_valid_in_context_0 vc_w(0, error_pos), vc_inv(0, IMPLIES(error_pos != NULL, *error_pos == g_ep) && i <= g_n && ALL(i_, 0, i, OKIN(pString->memory[i_])))
#include VC_SRC
#include "bxsgen.h"

void harness(void)
{
    size_t n = in_size(0, TEXTMAX), V;
#ifndef GVC
    encoding = "UTF-8";
#endif
#ifndef V_valid
    bxstr_t *x = gen_bxs(n);
    const uint32_t *mem = x->memory;
    const size_t *vi = x->visible_char;
    V = x->num_chars_visible;
#endif
#ifdef V_strchr
    ucs4_t c = in_u32(0, 0x10ffff);
    int cur0 = in_int(-1, 1 << 29), cur = cur0;
    int use = in_int(0, 1);
    g_cur = cur0;
    size_t from = use ? (size_t) (cur0 + 1) : 0;
    uint32_t *r;
    if (use) r = bxs_strchr(x, c, &cur);
    else r = bxs_strchr(x, c, NULL);
    COVER("strchr");
    if (r == NULL) {
        CHECK(ALL(i_, from, V, mem[vi[i_]] != c), "strchr: nothing found means there is none");
        CHECK(cur == cur0, "strchr: cursor stays when nothing is found");
    }
    else if (use) {
        CHECK(cur > cur0 && (size_t) cur < V && r == mem + vi[cur] && mem[vi[cur]] == c && ALL(i_, from, (size_t) cur, mem[vi[i_]] != c), "strchr: the first visible occurrence behind the cursor");
    }
    else {
        size_t k = in_size(0, TEXTMAX);
        CHECK(*r == c && r >= mem && r < mem + n, "strchr: points to the character");
        ASSUME(k < V);
        CHECK(IMPLIES(mem[vi[k]] == c, r <= mem + vi[k] || ALL(i_, k, k + 1, vi[i_] >= (size_t) (r - mem))) || k > 0, "strchr: the first one");
    }
    CHECK(bxs_strchr(NULL, c, NULL) == NULL, "strchr: absent string");
#endif
#ifdef V_isvis
    size_t k = in_size(0, TEXTMAX), j = in_size(0, TEXTMAX);
    int r = bxs_is_visible_char(x, k);
    COVER("isvis");
    ASSUME(j < V);
#ifdef GVC
    ASSUME(ALL(i_, 0, V, vi[i_] >= i_));
    ASSUME(ALL(i_, 0, V, ALL(j_, i_, V, vi[i_] <= vi[j_])));  /* lemma_mono.mono */
#endif
    if (r == 0) CHECK(vi[j] != k, "is_visible_char: a listed character is visible");
    else CHECK(!ALL(i_, 0, V, vi[i_] != k), "is_visible_char: only listed characters are visible");
    CHECK(r == 0 || r == 1, "is_visible_char: truth value");
    CHECK(bxs_is_visible_char(NULL, k) == 0, "is_visible_char: absent string");
#endif
#ifdef V_isblank
    int r = bxs_is_blank(x);
    COVER("isblank");
    if (r) CHECK(ALL(i_, 0, V, mem[vi[i_]] == '\r' || BLANKP(mem[vi[i_]])), "is_blank: only blanks visible");
    else CHECK(n > 0 && !ALL(i_, 0, V, mem[vi[i_]] == '\r' || BLANKP(mem[vi[i_]])), "is_blank: something visible");
    CHECK((bxs_is_empty(x) != 0) == (n == 0), "is_empty: no characters");
    CHECK(bxs_is_empty(NULL) && bxs_is_blank(NULL), "absent strings are empty");
#endif
#ifdef V_valid
    uint32_t *t = gen_text(n);
    bxstr_t s;
    g_n = n;
    s.memory = t; s.num_chars = n;
    s.num_chars_visible = in_size(0, TEXTMAX); s.num_chars_invisible = in_size(0, TEXTMAX);
    size_t ep0 = in_size(0, 1000), ep = ep0;
    g_ep = ep0;
    g_pred = in_int(1, 5);
    int usep = in_int(0, 1);
    size_t *pp;
    if (usep) pp = &ep;
    else pp = NULL;
    int r, pre = 1;
    switch (g_pred) {
        case 1: r = bxs_valid_anywhere(&s, pp); break;
        case 2: r = bxs_valid_in_shape(&s, pp); pre = s.num_chars_visible > 0; break;
        case 3: r = bxs_valid_in_sample(&s, pp); pre = s.num_chars_visible > 0; break;
        case 4: r = bxs_valid_in_filename(&s, pp); pre = s.num_chars_visible > 0 && s.num_chars_invisible == 0; break;
        default: r = bxs_valid_in_kv_string(&s, pp); break;
    }
    COVER("valid");
    if (r) CHECK(pre && ALL(i_, 0, n, OKIN(t[i_])) && ep == ep0, "valid: every character is allowed in its place");
    else if (pre && usep) CHECK(ep < n && !OKIN(t[ep]) && ALL(i_, 0, ep, OKIN(t[i_])), "invalid: the position of the first offending character");
    else if (pre) CHECK(!ALL(i_, 0, n, OKIN(t[i_])), "invalid: there is an offending character");
    CHECK(r == 0 || r == 1, "truth value");
    CHECK(bxs_valid_anywhere(NULL, &ep) == 0 && ep == 0 && bxs_valid_in_kv_string(NULL, NULL) == 0, "absent string is invalid");
#endif
}
