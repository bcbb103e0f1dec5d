//@title small text utilities: yes/no words, blanks, bounded copies, trimming, spans, counting
//@variants yes no nspaces strndup trimdup strrspn count0 contains0 btrim
//@src tools.c
//@link unicode.c
//@prop C19
//@funcs.yes strisyes
//@funcs.no strisno
//@funcs.nspaces nspaces
//@funcs.strndup bx_strndup
//@funcs.trimdup trimdup
//@replace.trimdup bx_strndup=bx_strndup_c
//@funcs.strrspn my_strrspn
//@funcs.count0 array_count0
//@funcs.contains0 array_contains0
//@funcs.btrim btrim
//@funcs.btrim32 btrim32 set_char_at
//@loops.strrspn my_strrspn:0
//@loops.trimdup trimdup:0 trimdup:1
//@loops.count0 array_count0:0
//@loops.contains0 array_contains0:0
//@loops.btrim btrim:0
//@loops.btrim32 btrim32:0
//@replace.btrim32 advance_next32=advance_next32_c
//@noeffect bx_fprintf log_debug is_debug_logging
//@unwind 12
#include "common.h"
#include "texts.h"
static const char *g_full, *g_s, *g_acc, *g_e;
static size_t g_n, g_m, g_a;
#define INSET(c) (!ALL(q_, 0, g_m + 1, g_acc[q_] != (c)))
#define LOOP_my_strrspn_0 vc_inv(0, i >= -1 && i < (int) g_n && ALL(k_, (size_t) (i + 1), g_n, INSET(s[k_])))
#ifdef GVC
#define SAMEO(p, q) (__CPROVER_POINTER_OBJECT(p) == __CPROVER_POINTER_OBJECT(q))
#else
#define SAMEO(p, q) 1
#endif
#define TB(c) ((c) == ' ' || (c) == '\t')
#define LOOP_trimdup_0 vc_inv(0, SAMEO(s, g_s) && SAMEO(e, g_s) && s >= g_s && s <= e + 1 && ALL(k_, g_a, (size_t) (s - g_full), TB(g_full[k_])))
#define LOOP_trimdup_1 vc_inv(1, SAMEO(s, g_s) && SAMEO(e, g_s) && e <= g_e && e + 1 >= g_s && (e >= s || s == e + 1) && ALL(k_, (size_t) (e - g_full) + 1, (size_t) (g_e - g_full) + 1, TB(g_full[k_])))
static char **g_arr;
#define LOOP_array_count0_0 vc_inv(0, num_elems <= g_n && ALL(k_, 0, num_elems, array[k_] != NULL))
#define LOOP_array_contains0_0 vc_inv(0, i <= g_n && result == 0 && ALL(k_, 0, i, !SAMEIC(k_)))
#define WS4(c) ((c) == '\n' || (c) == '\r' || (c) == '\t' || (c) == ' ')
static char *g_o;
#define LOOP_btrim_0 vc_w(0, text), vc_inv(0, idx >= -1 && idx < (long) g_n && ALL(k_, 0, (size_t) (idx + 1), text[k_] == g_o[k_]) && ALL(k_, (size_t) (idx + 1), g_n, WS4(g_o[k_]) && text[k_] == 0) && text[g_n] == 0)

#ifdef GVC
#include <strings.h>
/* the C library: comparison up to n characters ignoring the case of ASCII letters; as long as only signs differ, any sign */
#define LOW(c) ((c) >= 'A' && (c) <= 'Z' ? (c) + 32 : (c))
int strncasecmp(const char *a, const char *b, size_t n)
{
    for (size_t i = 0; i < n; i++) {
        char x = LOW(a[i]), y = LOW(b[i]);
        if (x != y) return x < y ? -1 : 1;
        if (a[i] == 0) return 0;
    }
    return 0;
}
int strncmp(const char *a, const char *b, size_t n)
{
    for (size_t i = 0; i < n; i++) {
        if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1;
        if (a[i] == 0) return 0;
    }
    return 0;
}
char *strchr(const char *s, int c)
{
    size_t k = nondet_size_t(), n = strlen(s);
    if (k <= n) {
        ASSUME(s[k] == (char) c && ALL(i_, 0, k, s[i_] != (char) c));
        return (char *) s + k;
    }
    ASSUME(ALL(i_, 0, n + 1, s[i_] != (char) c));
    return NULL;
}
/* equality ignoring case: an arbitrary relation between texts */
extern unsigned char *vc_same;
static unsigned char *g_same;
#define SAMEIC(k) (g_same[k] != 0)
int strcasecmp(const char *a, const char *b)
{
    CHECK(b == g_s, "compared with the text asked for");
    int r = nondet_int();
    ASSUME(ALL(i_, 0, g_n, IMPLIES(g_arr[i_] == a, SAMEIC(i_) == (r == 0))));
    return r;
}
/* contract of bx_strndup, proved in utils.strndup: copies from s at most n characters; the harness reads off what was copied */
static size_t g_x, g_len;
static char *g_r;
char *bx_strndup_c(const char *s, size_t n)
{
    CHECK(SAMEO(s, g_full) && s >= g_full, "copies from the text");
    g_x = (size_t) (s - g_full);
    size_t l = strlen(s);
    g_len = n < l ? n : l;
    g_r = malloc(g_len + 1);
    return g_r;
}
#else
#define SAMEIC(k) (strcasecmp(g_arr[k], g_s) == 0)
#endif
/* ----------------------------------------------------------------------------------------------------------------- */
#include VC_SRC
#ifdef GVC
opt_t opt; input_t input; int num_designs; design_t *designs; int color_output_enabled;
#else
#define vc_inv(k, e) 0
#endif

#ifdef GVC
#define STRMAX (1UL << 30)
#else
#define STRMAX 40
#endif
static int word(const char *s, size_t n, const char *w, size_t l)
{
    if (n != l) return 0;
    for (size_t i = 0; i < l; i++) {
        char c = s[i];
        if (c >= 'A' && c <= 'Z') c = (char) (c + 32);
        if (c != w[i]) return 0;
    }
    return 1;
}

void harness(void)
{
    size_t n = in_size(0, STRMAX);
#if defined(V_yes) || defined(V_no)
    char *s = in_str(n);
#ifndef GVC
    static const char *w[] = {"yes", "YES", "on", "True", "1", "T", "no", "off", "FALSE", "f", "0", "Tru", "yess", "fals", "of"};
    int k = in_int(0, 30);
    if (k < 15) { n = strlen(w[k]); s = strdup(w[k]); }
#endif
#ifdef V_yes
    COVER("yes");
    int r = strisyes(s);
    CHECK((r != 0) == (word(s, n, "on", 2) || word(s, n, "yes", 3) || word(s, n, "true", 4) || word(s, n, "1", 1) || word(s, n, "t", 1)), "exactly the words for yes");
    CHECK(strisyes(NULL) == 0, "absent text is no yes");
#else
    COVER("no");
    int r = strisno(s);
    CHECK((r != 0) == (word(s, n, "off", 3) || word(s, n, "no", 2) || word(s, n, "false", 5) || word(s, n, "0", 1) || word(s, n, "f", 1)), "exactly the words for no");
    CHECK(strisno(NULL) == 0, "absent text is no no");
#endif
#endif
#ifdef V_nspaces
    char *r = nspaces(n);
    COVER("nspaces");
    CHECK(ALL(i_, 0, n, r[i_] == ' ') && r[n] == 0, "exactly n spaces");
#endif
#ifdef V_strndup
    char *s = in_str(n);
    size_t m = in_size(0, STRMAX + 10);
    char *r = bx_strndup(s, m);
    size_t l = m < n ? m : n;
    COVER("strndup");
    CHECK(r != s && ALL(i_, 0, l, r[i_] == s[i_]) && r[l] == 0, "the first characters, at most as many as asked for");
    CHECK(bx_strndup(NULL, m) == NULL, "absent text");
#endif
#ifdef V_trimdup
    char *s = in_str(n);
#ifndef GVC
    for (size_t i = 0; i < n; i++) if (in_int(0, 1)) s[i] = in_int(0, 1) ? ' ' : '\t';
#endif
    size_t a = in_size(0, STRMAX), b = in_size(0, STRMAX);
    ASSUME(a <= b && b < n);
    g_s = s + a; g_e = s + b; g_full = s; g_a = a;
    char *r = trimdup(s + a, s + b);
    COVER("trimdup");
#ifdef GVC
    size_t x = g_x, y = g_x + g_len;
    CHECK(r == g_r, "the copy is the result");
#else
    size_t x = a, y = b + 1;
    while (x <= b && TB(s[x])) x++;
    while (y > x && TB(s[y - 1])) y--;
    CHECK(ALL(i_, 0, y - x, r[i_] == s[x + i_]) && r[y - x] == 0, "the part without the blanks around it");
#endif
    CHECK(x >= a && x <= b + 1 && y >= x && y <= b + 1, "a part of what was given");
    CHECK(ALL(i_, a, x, TB(s[i_])) && ALL(i_, y, b + 1, TB(s[i_])), "only blanks are left out");
    CHECK(IMPLIES(y > x, !TB(s[x]) && !TB(s[y - 1])), "all blanks at the ends are left out");
#endif
#ifdef V_strrspn
    size_t m = in_size(0, STRMAX);
    char *s = in_str(n), *acc = in_str(m);
#ifndef GVC
    for (size_t i = 0; i < n && m; i++) if (in_int(0, 3)) s[i] = acc[in_size(0, m - 1)];
#endif
    g_s = s; g_n = n; g_acc = acc; g_m = m;
    size_t r = my_strrspn(s, acc);
    COVER("strrspn");
    CHECK(r <= n && (m > 0 || r == 0), "span lies in the text");
    CHECK(ALL(k_, n - r, n, INSET(s[k_])), "the span holds accepted characters only");
    CHECK(IMPLIES(m > 0 && r < n, !INSET(s[n - r - 1])), "and is as long as possible");
    CHECK(my_strrspn(NULL, acc) == 0 && my_strrspn(s, NULL) == 0, "absent texts");
#endif
#if defined(V_count0) || defined(V_contains0)
#ifdef GVC
    char **arr = malloc((n + 1) * sizeof(char *));
    ASSUME(ALL(i_, 0, n, arr[i_] != NULL) && arr[n] == NULL);
#ifdef V_contains0
    g_same = malloc(n + 1);
    ASSUME(ALL(i_, 0, n, g_same[i_] <= 1));
#endif
#else
    if (n > 8) n = 8;
    char **arr = calloc(n + 1, sizeof(char *));
    static const char *w[] = {"a", "A", "box", "Box", "BOX", "b", ""};
    for (size_t i = 0; i < n; i++) arr[i] = strdup(w[in_int(0, 6)]);
#endif
    g_n = n; g_arr = arr;
#ifdef V_count0
    COVER("count0");
    CHECK(array_count0(arr) == n, "number of entries before the end mark");
    CHECK(array_count0(NULL) == 0, "absent array");
#else
    COVER("contains0");
    char *s = in_str(in_size(0, 3));
    g_s = s;
    int r = array_contains0(arr, s);
    CHECK((r != 0) == !ALL(k_, 0, n, !SAMEIC(k_)), "true exactly if an entry equals the text ignoring case");
    CHECK(array_contains0(NULL, s) == 0, "absent array");
#endif
#endif
#ifdef V_btrim
    char *s = in_str(n);
#ifndef GVC
    for (size_t i = 0; i < n; i++) if (in_int(0, 1)) s[i] = " \t\r\n"[in_int(0, 3)];
#endif
    char *o = malloc(n + 1);
    memcpy(o, s, n + 1);
    g_o = o; g_n = n;
    size_t len = n;
    btrim(s, &len);
    COVER("btrim");
    CHECK(len <= n && ALL(k_, 0, len, s[k_] == o[k_]) && s[len] == 0, "what is left is a prefix of the text");
    CHECK(ALL(k_, len, n, WS4(o[k_])), "only whitespace is removed");
    CHECK(IMPLIES(len > 0, !WS4(o[len - 1])), "all of it");
#endif
}
