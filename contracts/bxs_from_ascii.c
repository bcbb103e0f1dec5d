//@title bxs_from_ascii: plain ASCII text becomes an internal string with identity tables
//@src bxstring.c
//@link unicode.c
//@prop C01
//@funcs bxs_from_ascii
//@loops bxs_from_ascii:0 bxs_valid_in_context:0
//@replace count_invisible_chars=count_invisible_chars_c u32_strconv_from_arg=u32_strconv_from_arg_c my_strrspn=my_strrspn_c
//@noeffect bx_fprintf log_debug is_debug_logging
//@assume text is printable ASCII (every call in the program passes literals or runs of spaces); u32_strconv_from_arg maps ASCII characters to themselves
#include "common.h"
#include "texts.h"
#include "bxs.h"
#define LOOP_bxs_from_ascii_0 vc_w(0, result->first_char), vc_w(0, result->visible_char), vc_inv(0, i <= g_n + 1 && ALL(i_, 0, i, result->first_char[i_] == i_ && result->visible_char[i_] == i_))
#define LOOP_bxs_valid_in_context_0 vc_w(0, error_pos), vc_inv(0, i <= g_n)
static size_t g_n;
#include VC_SRC
#include "bxsgen.h"
#ifdef GVC
size_t count_invisible_chars_c(const uint32_t *s, size_t *num_esc, char **ascii, size_t **posmap)
{
    *num_esc = 0;
    *ascii = malloc(1);
    *posmap = NULL;
    return 0;
}
uint32_t *u32_strconv_from_arg_c(const char *s, const char *enc)
{
    uint32_t *r = malloc((g_n + 1) * 4);
    ASSUME(ALL(q, 0, g_n + 1, r[q] == (uint32_t) s[q]));
    return r;
}
size_t my_strrspn_c(const char *s, const char *accept)
{
    size_t k = nondet_size_t();
    ASSUME(k <= g_n && ALL(q, g_n - k, g_n, s[q] == ' ') && IMPLIES(k < g_n, s[g_n - k - 1] != ' '));
    return k;
}
size_t strspn(const char *s, const char *accept)
{
    size_t k = nondet_size_t();
    ASSUME(k <= g_n && ALL(q, 0, k, s[q] == ' ') && s[k] != ' ');
    return k;
}
#endif
void harness(void)
{
    size_t n = in_size(0, TEXTMAX);
#ifndef GVC
    ASSUME(n < 200);
    encoding = "UTF-8";
    char *s = in_str(n);
    for (size_t i = 0; i < n; i++) if (s[i] < 0x20 || s[i] > 0x7e) s[i] = ' ';
#else
    char *s = in_str(n);
    ASSUME(ALL(q, 0, n, s[q] >= 0x20 && s[q] < 0x7f));
#endif
    g_n = n;
    bxstr_t *r = bxs_from_ascii(s);
    COVER("from_ascii");
    CHECK(r != NULL && r->num_chars == n && r->num_chars_visible == n && r->num_chars_invisible == 0 && r->num_columns == n, "one visible character and one column per byte");
    CHECK(ALL(i_, 0, n + 1, r->memory[i_] == (uint32_t) s[i_]) && ALL(i_, 0, n + 1, r->ascii[i_] == s[i_]), "the text is copied exactly");
    CHECK(ALL(i_, 0, n + 1, r->first_char[i_] == i_ && r->visible_char[i_] == i_), "identity tables, ending at the terminator");
    CHECK(r->indent <= n && ALL(i_, 0, r->indent, s[i_] == ' ') && s[r->indent] != ' ', "leading blanks counted exactly");
    CHECK(r->trailing <= n && IMPLIES(r->indent == n, r->trailing == 0) && ALL(i_, n - r->trailing, n, s[i_] == ' ')
        && IMPLIES(r->indent < n, s[n - r->trailing - 1] != ' '), "trailing blanks counted exactly");
    CHECK(bxs_from_ascii(NULL) == NULL, "absent text");
}
