/* randomly drawn, well-formed designs with a different character in every cell, and their configuration text */
#ifndef VERIF_E2EDES_H
#define VERIF_E2EDES_H
#include "e2e.h"
enum { xNW, xNNW, xN, xNNE, xNE, xENE, xE, xESE, xSE, xSSE, xS, xSSW, xSW, xWSW, xW, xWNW };
static const char *xname[16] = {"nw", "nnw", "n", "nne", "ne", "ene", "e", "ese", "se", "sse", "s", "ssw", "sw", "wsw", "w", "wnw"};
/* left to right / top to bottom */
static const int xtop[5] = {xNW, xNNW, xN, xNNE, xNE}, xbot[5] = {xSW, xSSW, xS, xSSE, xSE};
static const int xlef[5] = {xNW, xWNW, xW, xWSW, xSW}, xrig[5] = {xNE, xENE, xE, xESE, xSE};

typedef struct { int given, el; size_t h, w; row_t row[4]; } shp_t;
typedef struct {
    shp_t s[16];
    int etop, ebot, elef, erig;       /* side is entirely blank */
    int pad[4];                       /* top right bottom left */
    char indent;
    const char *name;
} des_t;
static uint32_t nextcell;
static int keepcells;      /* do not reuse characters of the previous design */
static uint32_t newcell(int wide)
{
    uint32_t k = nextcell++;
    if (wide) return 0x4e00 + k;
    return k < 26 ? 'A' + k : k < 52 ? 'a' + k - 26 : 0x100 + k;
}
/* style: 0 plain, 1 with blanks and wide characters, 2 also escape sequences, 3 escape sequences but no blanks */
static void mk_shape(shp_t *s, size_t h, size_t w, int blank, int style)
{
    s->given = 1;
    s->h = h;
    s->w = w;
    for (size_t r = 0; r < h; r++) {
        row_t *o = s->row + r;
        o->n = 0;
        int esc = !blank && style >= 2 && in_int(0, 2) == 0;
        if (esc) { r_cp(o, 0x1b); r_cp(o, '['); r_cp(o, '3'); r_cp(o, '1'); r_cp(o, 'm'); }
        for (size_t c = 0; c < w; c++) {
            int k = style == 1 || style == 2 ? in_int(0, 7) : 7;
            if (blank || (k == 0 && !(r == 0 && c == 0))) r_cp(o, ' ');
            else if (k == 1 && c + 1 < w) { r_cp(o, newcell(1)); c++; }
            else r_cp(o, newcell(0));
        }
        if (esc) { r_cp(o, 0x1b); r_cp(o, '['); r_cp(o, '0'); r_cp(o, 'm'); }
    }
}
static void synth(shp_t *s, size_t h, size_t w) { mk_shape(s, h, w, 1, 0); s->given = 0; }
static int row_blank(const row_t *r)
{
    row_t v = r_visible(r);
    for (size_t i = 0; i < v.n; i++) if (!isbl(v.c[i])) return 0;
    return 1;
}
static int shape_blank(const shp_t *s)
{
    for (size_t r = 0; r < s->h; r++) if (!row_blank(s->row + r)) return 0;
    return 1;
}
static int side_blank(const des_t *d, const int *side)
{
    for (int i = 0; i < 5; i++) if (!shape_blank(d->s + side[i])) return 0;
    return 1;
}
/* middle shapes of one side: which exist and which are elastic */
static void mk_side(des_t *d, const int *side, int horizontal, size_t across, int blank, int style)
{
    static const int pats[][3] = {{0,2,0}, {0,2,1}, {1,2,0}, {1,2,1}, {2,1,2}, {2,1,0}, {0,1,2}, {2,0,0}, {0,0,2}, {2,1,1}, {1,1,2}, {2,2,2}};
    const int *p = pats[in_int(0, 10)];
    for (int i = 0; i < 3; i++) {
        shp_t *s = d->s + side[i + 1];
        if (!p[i]) continue;
        size_t len = in_size(1, p[i] == 2 ? 2 : 3);
        if (p[i] == 2 && in_int(0, 3)) len = 1;
        mk_shape(s, horizontal ? across : len, horizontal ? len : across, blank, style);
        s->el = p[i] == 2;
    }
}
static size_t side_min(const des_t *d, const int *side, int horizontal)
{
    size_t t = 0;
    for (int i = 1; i < 4; i++) if (d->s[side[i]].h) t += horizontal ? d->s[side[i]].w : d->s[side[i]].h;
    return t;
}
/* number of copies of the up to two elastic shapes for a total length of `len`; variant 0/1 = who gets the odd one. 0 = impossible */
static int side_copies(const des_t *d, const int *side, int horizontal, size_t len, int variant, size_t cnt[3])
{
    size_t fixed = 0, e[2];
    int ei[2], ne = 0;
    for (int i = 0; i < 3; i++) {
        const shp_t *s = d->s + side[i + 1];
        size_t l = horizontal ? s->w : s->h;
        cnt[i] = s->h ? 1 : 0;
        if (!s->h) continue;
        if (s->el) { ei[ne] = i; e[ne++] = l; } else fixed += l;
    }
    if (len < fixed) return 0;
    len -= fixed;
    if (ne == 1) {
        if (variant || len == 0 || len % e[0]) return 0;
        cnt[ei[0]] = len / e[0];
        return 1;
    }
    if (ne != 2) return 0;
    for (size_t a = 1; a * e[0] < len; a++) {
        size_t rest = len - a * e[0];
        if (rest % e[1]) continue;
        size_t b = rest / e[1];
        if (variant == 0 ? a == b : variant == 1 ? a == b + 1 : b == a + 1) { cnt[ei[0]] = a; cnt[ei[1]] = b; return 1; }
    }
    return 0;
}
static int side_possible(const des_t *d, const int *side, int horizontal, size_t len)
{
    size_t c[3];
    return side_copies(d, side, horizontal, len, 0, c) || side_copies(d, side, horizontal, len, 1, c) || side_copies(d, side, horizontal, len, 2, c);
}
static void gen_design(des_t *d, int style)
{
    memset(d, 0, sizeof *d);
    if (!keepcells) nextcell = 0;
    d->name = "test";
    int mask = in_int(0, 3) ? 15 : in_int(1, 15);            /* top right bottom left present */
    int tt = mask & 1, rr = mask >> 1 & 1, bb = mask >> 2 & 1, ll = mask >> 3 & 1;
    size_t ht = tt ? in_size(1, 3) : 1, hb = bb ? in_size(1, 3) : 1, wl = ll ? in_size(1, 3) : 1, wr = rr ? in_size(1, 3) : 1;
    int expl = in_int(0, 3) == 0;       /* absent sides written down as blanks */
    int bl = style == 1 || style == 2 ? in_int(0, 7) : 7;  /* blank middle shapes on one side */
    struct { int c; size_t h, w; int near; } cs[4] = {{xNW, ht, wl, tt && ll}, {xNE, ht, wr, tt && rr}, {xSW, hb, wl, bb && ll}, {xSE, hb, wr, bb && rr}};
    for (int i = 0; i < 4; i++) {
        if (cs[i].near) mk_shape(d->s + cs[i].c, cs[i].h, cs[i].w, 0, style);
        else { synth(d->s + cs[i].c, cs[i].h, cs[i].w); d->s[cs[i].c].given = expl; }
    }
    const int *sd[4] = {xtop, xrig, xbot, xlef};
    int there[4] = {tt, rr, bb, ll};
    size_t across[4] = {ht, wr, hb, wl};
    for (int i = 0; i < 4; i++) {
        if (there[i]) mk_side(d, sd[i], i % 2 == 0, across[i], bl == i, style);
        else {
            shp_t *m = d->s + sd[i][2];
            if (i % 2 == 0) synth(m, across[i], 1); else synth(m, 1, across[i]);
            m->el = 1;
            m->given = expl;
        }
    }
    d->etop = side_blank(d, xtop); d->ebot = side_blank(d, xbot); d->elef = side_blank(d, xlef); d->erig = side_blank(d, xrig);
    ASSUME(!(d->etop && d->ebot && d->elef && d->erig));     /* the parser demands one visible shape */
    for (int i = 0; i < 4; i++) d->pad[i] = in_int(0, 3) ? 0 : in_int(0, 3);
    d->indent = "bbtn"[in_int(0, 3)];
}
static void des_config(const des_t *d, buf_t *b)
{
    b_fmt(b, "BOX %s\nsample\nx\nends\nshapes {\n", d->name);
    for (int i = 0; i < 16; i++) {
        const shp_t *s = d->s + i;
        if (!s->given) continue;
        b_fmt(b, "  %s (", xname[i]);
        for (size_t r = 0; r < s->h; r++) {
            b_puts(b, r ? ", \"" : "\"");
            for (size_t k = 0; k < s->row[r].n; k++) {
                if (s->row[r].c[k] == '"' || s->row[r].c[k] == '\\') b_puts(b, "\\");
                b_cp(b, s->row[r].c[k]);
            }
            b_puts(b, "\"");
        }
        b_puts(b, ")\n");
    }
    b_puts(b, "}\nelastic (");
    int first = 1;
    for (int i = 0; i < 16; i++) if (d->s[i].el) { b_fmt(b, "%s%s", first ? "" : ",", xname[i]); first = 0; }
    b_puts(b, ")\n");
    static const char *pn[4] = {"top", "right", "bottom", "left"};
    if (d->pad[0] || d->pad[1] || d->pad[2] || d->pad[3]) {
        b_puts(b, "padding {");
        for (int i = 0; i < 4; i++) if (d->pad[i]) b_fmt(b, " %s %d", pn[i], d->pad[i]);
        b_puts(b, " }\n");
    }
    if (d->indent != 'b') b_fmt(b, "indent \"%s\"\n", d->indent == 't' ? "text" : "none");
    b_fmt(b, "END %s\n\n", d->name);
}
#endif
