//@title btrim32: exactly the trailing whitespace goes, escape sequences in between are no text, one directly after the text stays
//@variants trim null
//@src tools.c
//@link unicode.c
//@prop C13 C19
//@funcs btrim32 set_char_at
//@loops.trim btrim32:0
//@replace.trim advance_next32=advance_next32_c
//@noeffect bx_fprintf log_debug is_debug_logging
//@assume.trim advance_next32 by its contract (unit advance_next32); texts shorter than 2^30 characters (positions are kept in an int); whitespace is what the three libunistring classes say
#include "common.h"
#include "texts.h"
static size_t g_n;
static uint32_t *g_o;
#ifdef GVC
extern unsigned char **vc_uf_ws;
extern unsigned char **vc_uf_inesc;
#define WS(c) (vc_uf_ws[0][c] != 0 || vc_uf_ws[1][c] != 0 || vc_uf_ws[2][c] != 0)
#define INESC(q) (vc_uf_inesc[0][q] != 0)       /* position q belongs to an escape sequence */
bool uc_is_c_whitespace(ucs4_t c) { return vc_uf_ws[0][c] != 0; }
bool uc_is_property_white_space(ucs4_t c) { return vc_uf_ws[1][c] != 0; }
bool uc_is_property_bidi_whitespace(ucs4_t c) { return vc_uf_ws[2][c] != 0; }
#else
static unsigned char g_inesc[100];
#define WS(c) (uc_is_c_whitespace(c) || uc_is_property_white_space(c) || uc_is_property_bidi_whitespace(c))
#define INESC(q) (g_inesc[q])
#endif
/* (the pointer rest moves along text) */
#define LOOP_btrim32_0 vc_w(0, &step_invis), vc_inv(0, rest == text + (rest - text) && rest >= text && (size_t) (rest - text) <= g_n && c == text[rest - text] \
    && last_char_pos >= -1 && last_char_pos < rest - text \
    && IMPLIES(last_char_pos >= 0, !WS(text[last_char_pos]) && !INESC((size_t) last_char_pos) && text[last_char_pos] != 0x1b) \
    && ALL(k_, (size_t) (last_char_pos + 1), (size_t) (rest - text), WS(text[k_]) || INESC(k_)))
#include VC_SRC
#ifdef GVC
opt_t opt; input_t input; int num_designs; design_t *designs; int color_output_enabled; char *encoding;
static uint32_t *g_text;
/* proved in unit advance_next32 */
uint32_t *advance_next32_c(const uint32_t *s, size_t *invis)
{
    size_t i = (size_t) (s - g_text);
    if (s[0] == 0) return (uint32_t *) s;
    if (s[0] != 0x1b) { *invis = 0; ASSUME(!INESC(i)); return (uint32_t *) s + 1; }
    size_t k = nondet_size_t();
    ASSUME(k >= 1 && k <= g_n - i && ALL(q, 0, k, s[q] != 0) && ALL(q, i, i + k, INESC(q)));
    *invis = k;
    return (uint32_t *) s + k;
}
#endif

void harness(void)
{
    size_t n = in_size(0, 1UL << 29);
    size_t len = n;
#ifdef V_null
    size_t len0 = len;
    btrim32(NULL, &len);
    CHECK(len == len0, "absent text");
    ASSUME(n <= MAXLEN);
    uint32_t *s = gen_text(n);
    size_t q = in_size(0, n);
    uint32_t old = s[q];
    btrim32(s, NULL);
    COVER("null");
    CHECK(s[q] == old, "absent length: the text stays");
#else
#ifndef GVC
    ASSUME(n <= MAXLEN);
    encoding = "UTF-8";
#endif
    uint32_t *t = gen_text(n);
#ifdef GVC
    g_o = malloc((n + 1) * sizeof(uint32_t));
    g_text = t;
#else
    static const uint32_t pool[] = {' ', ' ', ' ', '\t', '\r', '\n', 0x3000, 0x2028, 0x200f, 0x0b, 0x85, 0xa0, 0x1c, 'a', 'b', 0x301, 0x200b, 0x1b, 0x1b, 'm', '[', 'A', 0x4e2d};
    for (size_t i = 0; i < n; i++) t[i] = pool[in_size(0, sizeof(pool) / 4 - 1)];
    if (n > 4 && in_int(0, 1)) for (size_t i = n - in_size(1, 4); i < n; i++) t[i] = ' ';
    if (n > 6 && in_int(0, 1)) { size_t e = in_size(0, n - 4); t[e] = 0x1b; t[e + 1] = '['; t[e + 2] = '0'; t[e + 3] = 'm'; }
    g_o = malloc((n + 1) * 4);
#endif
    for (int once_ = 0; once_ < 1; once_++) u32_cpy(g_o, t, n + 1);
    g_n = n;
#ifndef GVC
    long lastvis = -1;
    memset(g_inesc, 0, sizeof(g_inesc));
    for (size_t i = 0; i < n; ) {       /* written from the description of escape sequences, not from the code */
        if (t[i] != 0x1b) { if (!WS(t[i])) lastvis = (long) i; i++; continue; }
        size_t e = i + 1;
        if (e < n && (t[e] == '[' || t[e] == '(')) { e++; while (e < n && !(t[e] >= 0x40 && t[e] <= 0x7e)) e++; if (e < n) e++; }
        else if (e < n && t[e] >= 0x40 && t[e] <= 0x5f) e++;
        for (; i < e; i++) g_inesc[i] = 1;
    }
    size_t want = (size_t) (lastvis + 1);
    if (want > 0 && want < n && t[want] == 0x1b) { size_t e = want + 1;
        if (e < n && (t[e] == '[' || t[e] == '(')) { e++; while (e < n && !(t[e] >= 0x40 && t[e] <= 0x7e)) e++; if (e < n) e++; }
        else if (e < n && t[e] >= 0x40 && t[e] <= 0x5f) e++;
        want = e; }
#endif
    btrim32(t, &len);
    COVER("trim");
    CHECK(len <= n, "never longer");
    CHECK(t[len] == 0, "terminated at the new length");
    CHECK(ALL(k_, 0, len, t[k_] == g_o[k_]), "what stays is unchanged");
    CHECK(ALL(k_, len, n, WS(g_o[k_]) || INESC(k_)), "only whitespace and escape sequences go");
    CHECK(IMPLIES(len > 0, INESC(len - 1) || (!WS(g_o[len - 1]) && g_o[len - 1] != 0x1b)), "all trailing whitespace goes");
    CHECK(IMPLIES(len > 0 && len < n && g_o[len] == 0x1b, INESC(len - 1)), "an escape sequence directly after the text stays");
#ifndef GVC
    CHECK(len == want, "exactly up to the last visible character and the escape sequence directly after it");
#endif
#endif
}
