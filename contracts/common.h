/* shared by contract files: ghost definitions and design well-formedness */
#ifndef VERIF_COMMON_H
#define VERIF_COMMON_H
#include "vc.h"

/* "x is a whole number of w's".  For the verifier: an uninterpreted predicate with exactly the defining clauses that
 * MULT_DEF / MULT_STEP instantiate (mult(0,w) and mult(x,w) => mult(x+w,w)), so it can only mean "multiple of". */
#ifdef GVC
extern unsigned char **vc_uf_mult;
#define MULT(x, w) (vc_uf_mult[x][w] != 0)
#define MULT_DEF(w) ASSUME(MULT(0, w))
#define MULT_STEP(x, w) ASSUME(IMPLIES(MULT(x, w), MULT((x) + (w), w)))
#else
#define MULT(x, w) ((w) == 0 ? (x) == 0 : (x) % (w) == 0)
#define MULT_DEF(w)
#define MULT_STEP(x, w)
#endif

/* every scalar option, input statistic and design attribute is arbitrary unless the contract restricts it afterwards.
 * include after VC_SRC; opt, input and the design are the real globals */
#define GEN_GLOBALS(DES) do { \
    opt.valign = in_char(1, 127); opt.halign = in_char(1, 127); opt.justify = in_char(0, 127); opt.color = in_int(0, 2); \
    opt.design_choice_by_user = in_int(0, 1); opt.eol_overridden = in_int(0, 1); opt.help = in_int(0, 1); opt.indentmode = in_char(0, 127); \
    opt.killblank = in_int(-1, 1); opt.l = in_int(0, 1); opt.mend = in_int(-1, 2); opt.r = in_int(0, 1); \
    for (int gg = 0; gg < NUM_SIDES; gg++) opt.padding[gg] = in_int(-1, 1000); \
    opt.reqwidth = in_long(0, 100000); opt.reqheight = in_long(0, 100000); opt.tabstop = in_int(1, 100); opt.tabexp = in_char(0, 127); \
    opt.version_requested = in_int(0, 1); opt.qundoc = in_int(0, 1); opt.design = (DES); \
    (DES)->indentmode = in_char(0, 127); (DES)->maxshapeheight = in_size(0, 100000); (DES)->minwidth = in_size(0, 100000); (DES)->minheight = in_size(0, 100000); \
    for (int gg = 0; gg < NUM_SIDES; gg++) (DES)->padding[gg] = in_int(0, 1000); \
    input.num_lines = in_size(0, 100000); input.maxline = in_size(0, 100000); input.indent = in_size(0, 100000); input.final_newline = in_int(0, 1); \
  } while (0)

#ifdef GVC
#define MAXDIM 100000
#else
#define MAXDIM 60
#endif

#ifndef GVC
/* native runs only: can the two sides be made equally long at all, beyond both minimum lengths?  (otherwise the search
 * in the code runs for ever; see known findings) */
static int caneq2(const size_t w[3], const int we[3], const size_t e[3], const int ee[3])
{
    static char rl[4096], rr[4096];
    const int N = 4000;
    for (int side = 0; side < 2; side++) {
        char *r = side ? rr : rl;
        const size_t *h = side ? e : w;
        const int *el = side ? ee : we;
        memset(r, 0, 4096);
        size_t base = h[0] + h[1] + h[2];
        if (base >= (size_t) N) return 0;
        r[base] = 1;
        /* elastic shapes are grown in strict alternation */
        size_t cur = base;
        int ne = 0; size_t es[2] = {0, 0};
        for (int i = 0; i < 3; i++) if (el[i] && ne < 2) es[ne++] = h[i];
        if (ne == 0) return 0;
        for (int k = 0; cur < (size_t) N; k = (k + 1) % ne) { r[cur] = 1; if (es[k] == 0) return 0; cur += es[k]; }
    }
    int hits = 0;
    for (int i = N / 2; i < N; i++) hits += rl[i] && rr[i];
    return hits > 0;
}
#define CANEQ(sa, s1, s2, dim) caneq2((size_t[3]) {(sa)[(s1)[1]].dim, (sa)[(s1)[2]].dim, (sa)[(s1)[3]].dim}, \
    (int[3]) {(sa)[(s1)[1]].elastic, (sa)[(s1)[2]].elastic, (sa)[(s1)[3]].elastic}, \
    (size_t[3]) {(sa)[(s2)[1]].dim, (sa)[(s2)[2]].dim, (sa)[(s2)[3]].dim}, \
    (int[3]) {(sa)[(s2)[1]].elastic, (sa)[(s2)[2]].elastic, (sa)[(s2)[3]].elastic})
#endif
#endif
