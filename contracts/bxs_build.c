//@title prepend/append spaces, concatenation, copy, visible filter: exactly the requested text and consistent bookkeeping
//@variants prepend append append0 strcat filter build_null prepend_null
//@src bxstring.c
//@link unicode.c
//@prop C02
//@prop.filter C02 C16
//@funcs bxs_prepend_spaces bxs_append_spaces bxs_strcat bxs_filter_visible u32_nspaces set_char_at
//@loops bxs_prepend_spaces:0 bxs_prepend_spaces:1 bxs_append_spaces:0 bxs_filter_visible:0
//@replace bxs_from_unicode=bxs_from_unicode_c bxs_from_ascii=bxs_from_ascii_c bxs_strdup=bxs_strdup_c
//@noeffect bx_fprintf log_debug is_debug_logging
//@assume bxs_from_unicode and bxs_strdup are used by their contracts (proved in their own units)
//@budget 400
#include "common.h"
#include "texts.h"
#include "bxs.h"
#define LOOP_bxs_prepend_spaces_0 vc_w(0, result->first_char), vc_w(0, result->visible_char), vc_inv(0, i <= n && ALL(i_, 0, i, result->first_char[i_] == i_ && result->visible_char[i_] == i_))
#define LOOP_bxs_prepend_spaces_1 vc_w(1, result->first_char), vc_w(1, result->visible_char), vc_inv(1, i <= pString->num_chars_visible + 1 \
    && ALL(i_, 0, n, result->first_char[i_] == i_ && result->visible_char[i_] == i_) \
    && ALL(i_, n, n + i, result->first_char[i_] == pString->first_char[i_ - n] + n && result->visible_char[i_] == pString->visible_char[i_ - n] + n))
#define LOOP_bxs_append_spaces_0 vc_w(0, pString->first_char), vc_w(0, pString->visible_char), vc_inv(0, i <= n + 1 \
    && ALL(i_, 0, g_V, pString->first_char[i_] == g_fc[i_] && pString->visible_char[i_] == g_vi[i_]) \
    && ALL(i_, g_V, g_V + i, pString->first_char[i_] == g_n + (i_ - g_V) && pString->visible_char[i_] == g_n + (i_ - g_V)))
#define LOOP_bxs_filter_visible_0 vc_w(0, result), vc_inv(0, i <= pString->num_chars_visible && ALL(i_, 0, i, result[i_] == pString->memory[pString->visible_char[i_]]))
static size_t g_V, g_n, *g_fc, *g_vi;
#include VC_SRC
#include "bxsgen.h"

#ifdef GVC
bxstr_t *bxs_from_ascii_c(char *s)
{
    CHECK(s[0] == 0, "only used for the empty string here");
    return mk_bxs(new_empty_string32(), 0);
}
bxstr_t *bxs_strdup_c(bxstr_t *p)
{
    if (p == NULL) return NULL;
    size_t n = p->num_chars, V = p->num_chars_visible, cols = p->num_columns;
    bxstr_t *r = malloc(sizeof(bxstr_t));
    r->memory = malloc((n + 1) * 4); u32_cpy(r->memory, p->memory, n + 1);
    r->ascii = malloc(cols + 1); memcpy(r->ascii, p->ascii, cols + 1);
    r->first_char = malloc((V + 1) * 8); memcpy(r->first_char, p->first_char, (V + 1) * 8);
    r->visible_char = malloc((V + 1) * 8); memcpy(r->visible_char, p->visible_char, (V + 1) * 8);
    r->num_chars = n; r->num_chars_visible = V; r->num_chars_invisible = n - V; r->num_columns = cols; r->indent = p->indent; r->trailing = p->trailing;
    return r;
}
#endif

void harness(void)
{
    size_t n = in_size(0, TEXTMAX), V, cols;
#ifndef GVC
    encoding = "UTF-8";
#endif
    bxstr_t *x = gen_bxs(n);
    V = x->num_chars_visible; cols = x->num_columns;
    uint32_t *m = malloc((n + 1) * sizeof(uint32_t));
    u32_cpy(m, x->memory, n + 1);
    char *asc = malloc(cols + 1);
    memcpy(asc, x->ascii, cols + 1);
    size_t *fc = malloc((V + 1) * sizeof(size_t)), *vi = malloc((V + 1) * sizeof(size_t));
    memcpy(fc, x->first_char, (V + 1) * sizeof(size_t));
    memcpy(vi, x->visible_char, (V + 1) * sizeof(size_t));
    size_t ind = x->indent, tr = x->trailing;
    size_t k = in_size(0, TEXTMAX);
#ifndef GVC
    ASSUME(k < 200);
#endif
    g_V = V; g_n = n; g_fc = fc; g_vi = vi;
#ifdef V_prepend
    const uint32_t *mem0 = x->memory;
    bxstr_t *r = bxs_prepend_spaces(x, k);
    COVER("prepend");
    CHECK(r != NULL && r != x && r->memory != mem0 && r->first_char != x->first_char && r->ascii != x->ascii, "prepend: shares nothing");
    CHECK(r->num_chars == n + k && r->num_chars_visible == V + k && r->num_chars_invisible == n - V && r->num_columns == cols + k, "prepend: counts");
    CHECK(ALL(i_, 0, k, r->memory[i_] == ' ') && ALL(i_, 0, n + 1, r->memory[k + i_] == m[i_]), "prepend: the spaces, then the text");
    CHECK(ALL(i_, 0, k, r->ascii[i_] == ' ') && ALL(i_, 0, cols + 1, r->ascii[k + i_] == asc[i_]), "prepend: ASCII form");
    CHECK(ALL(i_, 0, k, r->first_char[i_] == i_ && r->visible_char[i_] == i_), "prepend: the spaces are visible characters");
    CHECK(ALL(i_, k, k + V + 1, r->first_char[i_] == fc[i_ - k] + k && r->visible_char[i_] == vi[i_ - k] + k), "prepend: tables shifted");
    CHECK(r->indent == ind + k && r->trailing == tr, "prepend: indentation grows by the spaces");
    CHECK(x->memory == mem0 && ALL(i_, 0, n + 1, mem0[i_] == m[i_]) && x->num_chars == n && x->num_chars_visible == V && x->indent == ind && x->trailing == tr && x->num_columns == cols
        && ALL(i_, 0, V + 1, x->first_char[i_] == fc[i_] && x->visible_char[i_] == vi[i_]), "prepend: argument unchanged");
#endif
#ifdef V_append
    ASSUME(k > 0);
    bxs_append_spaces(x, k);
    COVER("append");
    CHECK(x->num_chars == n + k && x->num_chars_visible == V + k && x->num_chars_invisible == n - V && x->num_columns == cols + k, "append: counts");
    CHECK(ALL(i_, 0, n, x->memory[i_] == m[i_]), "append: the text stays");
    CHECK(ALL(i_, n, n + k, x->memory[i_] == ' ') && x->memory[n + k] == 0, "append: then exactly the spaces");
    CHECK(ALL(i_, 0, cols, x->ascii[i_] == asc[i_]) && ALL(i_, cols, cols + k, x->ascii[i_] == ' ') && x->ascii[cols + k] == 0, "append: ASCII form");
    CHECK(ALL(i_, 0, V, x->first_char[i_] == fc[i_] && x->visible_char[i_] == vi[i_]), "append: tables keep the old entries");
    CHECK(ALL(i_, V, V + k + 1, x->first_char[i_] == n + (i_ - V) && x->visible_char[i_] == n + (i_ - V)), "append: the spaces are visible characters");
    CHECK(x->indent == ind && x->trailing == tr + k, "append: trailing blanks grow by the spaces");
#endif
#ifdef V_append0
    bxs_append_spaces(x, 0);
    bxs_append_spaces(NULL, k);
    COVER("append0");
    CHECK(x->num_chars == n && x->num_chars_visible == V && x->num_columns == cols && x->indent == ind && x->trailing == tr && ALL(i_, 0, n + 1, x->memory[i_] == m[i_]), "append: nothing to append changes nothing");
#endif
#ifdef V_strcat
    size_t an = in_size(0, TEXTMAX);
#ifndef GVC
    ASSUME(an <= MAXLEN);
#endif
    uint32_t *a = gen_text(an);
    const uint32_t *mem0 = x->memory;
    bxstr_t *r = bxs_strcat(x, a);
    COVER("strcat");
    if (r == NULL) CHECK(!(ALL(i_, 0, n, ALLOWEDP(m[i_])) && ALL(i_, 0, an, ALLOWEDP(a[i_]))), "strcat: refused only for an illegal character");
    else {
        CHECK(r->num_chars == n + an && r->memory[n + an] == 0, "strcat: length");
        CHECK(ALL(i_, 0, n, r->memory[i_] == m[i_]), "strcat: first the string");
        CHECK(ALL(i_, 0, an, r->memory[n + i_] == a[i_]), "strcat: then the appended text");
    }
    CHECK(x->memory == mem0 && ALL(i_, 0, n + 1, mem0[i_] == m[i_]) && a[an] == 0, "strcat: arguments unchanged");
#endif
#ifdef V_filter
#ifdef GVC
    ASSUME(ALL(i_, 0, V, n - x->visible_char[i_] >= V - i_));    /* lemma_mono.tabid */
#endif
    uint32_t *u = bxs_filter_visible(x);
    COVER("filter");
    CHECK(u != x->memory, "filter: result is a copy");
    /* (with nothing invisible, the i-th visible character is the i-th character: lemma TABID) */
    CHECK(u[V] == 0, "filter: as long as there are visible characters");
    CHECK(ALL(i_, 0, V, u[i_] == m[vi[i_]]), "filter: exactly the visible characters, in order");
    CHECK(ALL(i_, 0, n + 1, x->memory[i_] == m[i_]), "filter: argument unchanged");
    CHECK(bxs_filter_visible(NULL) == NULL, "filter: absent string");
#endif
#ifdef V_build_null
    size_t an = in_size(1, TEXTMAX);
#ifndef GVC
    ASSUME(an <= MAXLEN);
#endif
    uint32_t *a = gen_text(an);
    bxstr_t *r = bxs_strcat(NULL, a);
    COVER("build_null");
    if (r != NULL) CHECK(r->num_chars == an && ALL(i_, 0, an + 1, r->memory[i_] == a[i_]), "strcat to nothing: the appended text");
    CHECK(bxs_strcat(NULL, NULL) == NULL, "strcat of nothing to nothing");
    bxstr_t *q = bxs_strcat(x, NULL);
    CHECK(q != NULL && q->num_chars == n && ALL(i_, 0, n + 1, q->memory[i_] == m[i_]), "strcat of nothing: a copy");
#endif
#ifdef V_prepend_null
    bxstr_t *r = bxs_prepend_spaces(NULL, k);
    COVER("prepend_null");
    if (k == 0) CHECK(r == NULL, "prepend nothing to nothing");
    else if (r != NULL) CHECK(r->num_chars == k && ALL(i_, 0, k, r->memory[i_] == ' ') && r->memory[k] == 0, "prepend to nothing: only the spaces");
    else CHECK(0, "spaces are never refused");
    bxstr_t *q = bxs_prepend_spaces(x, 0);
    CHECK(q != NULL && q != x && q->num_chars == n && ALL(i_, 0, n + 1, q->memory[i_] == m[i_]) && q->indent == ind && q->trailing == tr, "prepend no spaces: a copy");
#endif
}
