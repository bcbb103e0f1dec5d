/* arbitrary internal strings.  Include after VC_SRC */
#ifndef VERIF_BXSGEN_H
#define VERIF_BXSGEN_H
#include "bxs.h"
#ifdef GVC
/* an arbitrary valid internal string over the text t (n characters and a terminator) */
static bxstr_t *mk_bxs(uint32_t *t, size_t n)
{
    bxstr_t *r = malloc(sizeof(bxstr_t));
    size_t V = nondet_size_t(), cols = nondet_size_t();
    ASSUME(V <= n && cols <= 2 * n);
    r->memory = t;
    r->num_chars = n; r->num_chars_visible = V; r->num_chars_invisible = n - V; r->num_columns = cols;
    r->indent = nondet_size_t(); r->trailing = nondet_size_t();
    r->ascii = malloc(cols + 1);
    r->first_char = malloc((V + 1) * sizeof(size_t));
    r->visible_char = malloc((V + 1) * sizeof(size_t));
    ASSUME(BXS_OK(r, t, V, n));
    return r;
}
/* adjacent order of the tables implies order at any distance (proved in unit lemma_mono) */
#define MONO(p, i, j) ASSUME(IMPLIES((i) <= (j) && (j) <= (p)->num_chars_visible, (p)->first_char[i] <= (p)->first_char[j] && (p)->visible_char[i] <= (p)->visible_char[j]))
static bxstr_t *gen_bxs(size_t n) { return mk_bxs(gen_text(n), n); }
/* contract of bxs_from_unicode, proved in units bxs_from_unicode and advance_next32 */
static const uint32_t *g_fu;    /* the last text it was called with */
static size_t g_fun;
bxstr_t *bxs_from_unicode_c(uint32_t *p)
{
    if (p == NULL) return NULL;
    size_t n = u32_strlen(p);
    g_fu = p; g_fun = n;
    if (nondet_bool()) {
        ASSUME(!ALL(i_, 0, n, ALLOWEDP(p[i_])));
        return NULL;
    }
    uint32_t *t = malloc((n + 1) * sizeof(uint32_t));
    u32_cpy(t, p, n + 1);
    /* the bookkeeping of the new string is left arbitrary: nothing here depends on it */
    bxstr_t *r = malloc(sizeof(bxstr_t));
    r->memory = t;
    r->num_chars = n;
    return r;
}
#else
#define vc_inv(k, e) 0
#define MONO(p, i, j)
static bxstr_t *gen_bxs(size_t n)
{
    ASSUME(n <= MAXLEN);
    bxstr_t *r = bxs_from_unicode(gen_text(n));
    ASSUME(r != NULL);
    return r;
}
#endif
#endif
