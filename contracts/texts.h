/* texts and the (trusted) contracts of the libunistring functions, as models for the verifier.  Native runs use the library itself. */
#ifndef VERIF_STRINGS_H
#define VERIF_STRINGS_H
#include <unistr.h>
#include <unictype.h>
#include <uniwidth.h>

#ifdef GVC
#define MAXLEN (1UL << 40)
#else
#define MAXLEN 60
#endif

/* an arbitrary UTF-32 text of length n: n non-zero elements and a terminator */
static uint32_t *gen_text(size_t n)
{
    uint32_t *s = in_u32arr(n + 1);
    s[n] = 0;
    ASSUME(ALL(q, 0, n, s[q] != 0));
    return s;
}

#ifdef GVC
#define VALIDCP(c) ((c) < 0xd800 || ((c) >= 0xe000 && (c) < 0x110000))
const uint32_t *u32_next(ucs4_t *puc, const uint32_t *s)
{
    uint32_t c = *s;
    if (c == 0) { *puc = 0; return NULL; }
    *puc = VALIDCP(c) ? c : 0xfffd;
    return s + 1;
}
int u32_cmp(const uint32_t *a, const uint32_t *b, size_t n)
{
    for (size_t i = 0; i < n; i++) {
        if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1;
    }
    return 0;
}
char *strdup(const char *s)
{
    size_t n = strlen(s);
    char *r = malloc(n + 1);
    memcpy(r, s, n + 1);
    return r;
}
char *strcpy(char *d, const char *s)
{
    memcpy(d, s, strlen(s) + 1);
    return d;
}
uint32_t *u32_strdup(const uint32_t *s)
{
    size_t n = u32_strlen(s);
    uint32_t *r = malloc((n + 1) * sizeof(uint32_t));
    u32_cpy(r, s, n + 1);
    return r;
}
/* character classes: arbitrary but fixed functions of the character.  uc_is_blank is exact for the characters the code names itself;
 * a control character is no blank except tab (Unicode general categories Cc and Zs are disjoint); widths are -1..2 */
bool __CPROVER_uninterpreted_cntrl(ucs4_t c);
extern unsigned char **vc_uf_blank;
extern unsigned char **vc_uf_cntrl;
extern signed char **vc_uf_width;
#define BLANKP(c) ((c) == ' ' || (c) == '\t' || ((c) >= 0x80 && UFBLANK(c)))
#define UFBLANK(c) (vc_uf_blank[0][c] != 0)
#define UFCNTRL(c) (vc_uf_cntrl[0][c] != 0)
bool uc_is_blank(ucs4_t c) { return BLANKP(c); }
bool uc_is_cntrl(ucs4_t c) { return c < 0x20 || c == 0x7f || (c >= 0x80 && UFCNTRL(c)); }
int uc_width(ucs4_t c, const char *enc)
{
    if (c >= 0x20 && c < 0x7f) return 1;
    int w = vc_uf_width[0][c];
    ASSUME(w >= -1 && w <= 2);
    return w;
}
#else
#define BLANKP(c) ((c) == '\t' || uc_is_blank(c))
#endif
#ifdef GVC
#define ALLOWEDP(c) (((c) >= 0x20 && (c) < 0x7f) || ((c) >= 0x80 && !UFCNTRL(c)) || (c) == 9 || (c) == 10 || (c) == 13 || (c) == 27)
#else
#define ALLOWEDP(c) (!uc_is_cntrl(c) || (c) == 9 || (c) == 10 || (c) == 13 || (c) == 27)
#endif
#define IS_ESC(c) ((c) == 0x1b)
#endif
