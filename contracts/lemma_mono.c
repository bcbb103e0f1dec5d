//@title lemma: tables ordered between neighbours are ordered at any distance
//@prop C02
//@variants mono tabid
//@src bxstring.c
//@funcs
//@nonative yes
#include "common.h"
#include "texts.h"
#include VC_SRC
#include "bxsgen.h"
void harness(void)
{
    size_t n = in_size(0, MAXLEN);
    bxstr_t *x = gen_bxs(n);
    size_t V = x->num_chars_visible;
#ifdef V_mono
    size_t i = in_size(0, MAXLEN), j = in_size(0, MAXLEN);
    ASSUME(i <= j && j <= V);
    size_t k = i;
    while (vc_inv(0, k >= i && k <= j && x->first_char[i] <= x->first_char[k] && x->visible_char[i] <= x->visible_char[k]), k < j) k++;
    CHECK(x->first_char[i] <= x->first_char[j] && x->visible_char[i] <= x->visible_char[j], "ordered at any distance");
    COVER("mono");
#else
    /* a table entry leaves room for the entries behind it */
    size_t i = in_size(0, MAXLEN);
    ASSUME(i <= V);
    size_t k = V;
    while (vc_inv(0, k >= i && k <= V && n - x->visible_char[k] >= V - k && x->visible_char[k] <= n), k > i) k--;
    CHECK(n - x->visible_char[i] >= V - i, "room for the entries behind");
    COVER("tabid");
#endif
}
