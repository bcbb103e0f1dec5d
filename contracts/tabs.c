//@title tabs: expansion reaches the next stop and keeps every other character; restored indentations expand to the same columns
//@variants expand tabbify tabbify_off stop
//@src tools.c
//@link unicode.c
//@prop C07
//@funcs.expand expand_tabs_into set_char_at
//@funcs.tabbify tabbify_indent set_char_at
//@funcs.tabbify_off tabbify_indent
//@funcs.stop
//@loops.expand expand_tabs_into:0 expand_tabs_into:1
//@loops.tabbify tabbify_indent:0
//@loops.tabbify_off tabbify_indent:0
//@noeffect bx_fprintf log_debug is_debug_logging
//@budget 600
//@assume.expand input lines hold valid code points (they come from a character set conversion)
//@unwind 20
#include "common.h"
#include "texts.h"
static const uint32_t *g_in;
static size_t g_n, g_d0, g_done, g_L, *g_pos, *g_cnt, *g_end, *g_tw;
static int g_k, g_ts;
static uint32_t *g_src;      /* the input character an output position stems from */
#define TABC(i) (g_in[i] == '\t')
#define NEXTSTOP(p, ts) ((p) + ((size_t) (ts) - (p) % (size_t) (ts)))
/* g_pos[i]: the position of input character i in the result; g_cnt[i]: number of tabs in front of it */
#define LOOP_expand_tabs_into_0 vc_w(0, tabpos_len), vc_w(0, &puc), vc_inv(0, rest == input_buffer + g_d0 && g_d0 <= g_n && *tabpos_len == g_cnt[g_d0])
#define BODY_expand_tabs_into_0 g_d0++
#define XI1 (rest == input_buffer + g_done && g_done <= g_n && io == g_pos[g_done] && io <= LINE_MAX_BYTES + 16)
#define LOOP_expand_tabs_into_1 vc_w(1, temp), vc_w(1, &puc), vc_w(1, *tabpos), vc_w(1, g_pos), vc_w(1, g_src), \
    vc_inv(1, rest == input_buffer + g_done && g_done <= g_n && io <= (g_done == 0 ? 0 : LINE_MAX_BYTES + 3) && io == g_pos[g_done] && g_pos[0] == 0 \
        && tabnum == (g_k ? g_cnt[g_done] : 0) && *tabpos_len == (g_k ? g_cnt[g_n] : 0) \
        && ALL(i_, 0, g_done, g_pos[i_ + 1] == (TABC(i_) ? NEXTSTOP(g_pos[i_], tabstop) : g_pos[i_] + 1)) \
        && ALL(q_, 0, io, g_src[q_] < g_done && g_pos[g_src[q_]] <= q_ && q_ < g_pos[g_src[q_] + 1]) \
        && ALL(q_, 0, io, temp[q_] == (TABC(g_src[q_]) ? ' ' : g_in[g_src[q_]])) \
        && IMPLIES(g_k, ALL(i_, 0, g_done, IMPLIES(TABC(i_), (*tabpos)[g_cnt[i_]] == g_pos[i_]))) && ALL(q_, 0, io, temp[q_] != 0) \
)
#define BODY_expand_tabs_into_1 g_pos[g_done + 1] = TABC(g_done) ? NEXTSTOP(io, tabstop) : io + 1; u32_set(g_src + io, g_done, g_pos[g_done + 1] - io); g_done++
/* the first i tabs of the indentation have been restored; g_tw[t]: where tab t stands in the result */
#define LOOP_tabbify_indent_0 vc_w(0, result), vc_w(0, g_tw), \
    vc_inv(0, i <= g_L && g_done == i && result_len <= indentspc_len && result[result_len] == 0 \
        && IMPLIES(i == 0, result_len == indentspc_len && ALL(q_, 0, result_len, result[q_] == ' ')) \
        && IMPLIES(i > 0, g_end[i - 1] <= input.indent && g_end[i - 1] + (result_len - g_tw[i - 1] - 1) == indentspc_len && g_tw[i - 1] < result_len && ALL(q_, g_tw[i - 1] + 1, result_len, result[q_] == ' ')) \
        && ALL(t_, 0, i, result[g_tw[t_]] == '\t' && g_tw[t_] < result_len && g_end[t_] <= input.indent) && IMPLIES(i > 0, g_tw[0] == g_pos[0] && ALL(q_, 0, g_tw[0], result[q_] == ' ')) \
        && ALL(t_, 1, i, g_tw[t_] == g_tw[t_ - 1] + 1 + (g_pos[t_] - g_end[t_ - 1]) && g_tw[t_] <= g_tw[i - 1]) && ALL(t_, 0, i, g_tw[t_] <= g_tw[i - 1]) \
        && ALL(t_, 1, i, ALL(q_, g_tw[t_ - 1] + 1, g_tw[t_], result[q_] == ' ')))
#define BODY_tabbify_indent_0 if (g_end[i] <= input.indent) { g_tw[i] = g_pos[i] - (indentspc_len - result_len); g_done = i + 1; }
#include VC_SRC
#ifdef GVC
opt_t opt; input_t input; int num_designs; design_t *designs; int color_output_enabled;
#define STRMAX (1UL << 20)
#else
#define STRMAX 40
#endif

static int pick_ts(void)
{
    int t = in_int(1, 16);
    switch (t) {      /* every distance the command line accepts, one path each */
        case 1: return 1; case 2: return 2; case 3: return 3; case 4: return 4; case 5: return 5; case 6: return 6; case 7: return 7; case 8: return 8;
        case 9: return 9; case 10: return 10; case 11: return 11; case 12: return 12; case 13: return 13; case 14: return 14; case 15: return 15; default: return 16;
    }
}

void harness(void)
{
#ifdef V_stop
    /* lemma: NEXTSTOP is the first multiple of the tab distance behind a position */
    size_t p = in_size(0, 1UL << 40);
    int t = pick_ts();
    COVER("stop");
    CHECK(NEXTSTOP(p, t) % (size_t) t == 0 && NEXTSTOP(p, t) > p && NEXTSTOP(p, t) - p <= (size_t) t, "NEXTSTOP is the next tab stop");
#endif
#ifdef V_expand
    size_t n = in_size(0, STRMAX);
    uint32_t *in = gen_text(n);
    int k = in_int(0, 2);
#ifndef GVC
    if (in_int(0, 30) == 0) { n = in_size(16360, 16400); in = gen_text(n); }
    for (size_t i = 0; i < n; i++) if (in[i] > 0x10ffff || (in[i] >= 0xd800 && in[i] < 0xe000) || in_int(0, 2) == 0) in[i] = in_int(0, 2) ? '\t' : ' ';
    for (size_t i = 0; i + 20 < n && n > 100; i++) if (in_int(0, 100)) in[i] = 'x';
#else
    ASSUME(ALL(i_, 0, n, VALIDCP(in[i_])));
#endif
    int ts = in_int(1, 16);
    opt.tabexp = k == 0 ? 'k' : k == 1 ? 'e' : 'u';
    g_in = in; g_n = n; g_k = k == 0; g_d0 = 0; g_done = 0; g_ts = ts;
    g_pos = malloc((n + 2) * sizeof(size_t));
    g_cnt = malloc((n + 2) * sizeof(size_t));
    g_src = malloc((LINE_MAX_BYTES + 200) * sizeof(uint32_t));
#ifdef GVC
    g_pos[0] = 0;
    /* definition of the number of tabs in front of a position */
    ASSUME(g_cnt[0] == 0 && ALL(i_, 0, n, g_cnt[i_ + 1] == g_cnt[i_] + (TABC(i_) ? 1 : 0)));
    ASSUME(ALL(i_, 0, n + 1, g_cnt[i_] <= i_));
    ASSUME(ALL(j_, 0, n + 1, ALL(i_, 0, j_, IMPLIES(TABC(i_), g_cnt[i_] < g_cnt[j_]))));        /* lemma_mono */
    ASSUME(ALL(i_, 0, n + 1, g_cnt[i_] <= g_cnt[n]));        /* lemma_mono */
#endif
    uint32_t *text = NULL;
    size_t *tabpos = NULL, tplen = 0;
    size_t r = expand_tabs_into(in, ts, &text, &tabpos, &tplen);
    COVER("expand");
#ifndef GVC
    g_pos[0] = 0; g_cnt[0] = 0;
    for (size_t i = 0; i < n; i++) {
        if (g_pos[i] >= LINE_MAX_BYTES - 12) break;
        g_done = i + 1;
        g_pos[i + 1] = TABC(i) ? NEXTSTOP(g_pos[i], ts) : g_pos[i] + 1;
        for (size_t q = g_pos[i]; q < g_pos[i + 1]; q++) g_src[q] = (uint32_t) i;
    }
    for (size_t i = 0; i < n; i++) g_cnt[i + 1] = g_cnt[i] + TABC(i);
#endif
    CHECK(g_done == n || r >= LINE_MAX_BYTES - 12, "expand: all characters are taken, unless the line is too long");
    CHECK(r == g_pos[g_done] && text[r] == 0, "expand: length of the result");
    CHECK(g_pos[0] == 0 && ALL(i_, 0, g_done, g_pos[i_ + 1] == (TABC(i_) ? NEXTSTOP(g_pos[i_], ts) : g_pos[i_] + 1)), "expand: a tab reaches the next tab stop, any other character takes one place");
    CHECK(ALL(q_, 0, r, g_src[q_] < g_done && g_pos[g_src[q_]] <= q_ && q_ < g_pos[g_src[q_] + 1] && text[q_] == (TABC(g_src[q_]) ? ' ' : in[g_src[q_]])), "expand: every character in its place, spaces for the tabs");
    if (k == 0) {
        CHECK(tplen == g_cnt[g_done], "expand: number of recorded tabs");
        CHECK(ALL(i_, 0, g_done, IMPLIES(TABC(i_), tabpos[g_cnt[i_]] == g_pos[i_])), "expand: the position of every tab is recorded");
    }
    else CHECK(tplen == 0 && tabpos == NULL, "expand: no positions unless asked for");
#endif
#if defined(V_tabbify) || defined(V_tabbify_off)
    size_t nl = in_size(1, 100), ln = in_size(0, 110), L = in_size(0, STRMAX), len = in_size(0, STRMAX);
    int ts = in_int(1, 16);
    input.lines = calloc(nl, sizeof(line_t));
    input.num_lines = nl;
    input.indent = in_size(0, STRMAX);
    opt.tabstop = ts;
    uint32_t *spc = gen_text(len);
#ifdef V_tabbify_off
    opt.tabexp = in_char(0, 127);
    ASSUME(opt.tabexp != 'k');
    COVER("tabbify_off");
    CHECK(tabbify_indent(ln, spc, len) == spc, "tabbify: nothing to do unless tabs are kept");
#else
    opt.tabexp = 'k';
#ifndef GVC
    L = in_size(0, 12);
    len = in_size(0, 80);
    if (ln > 0 && nl > 1) ln %= nl;
    input.indent = len + (in_int(0, 3) ? 0 : in_size(0, 20));
#endif
    /* the tab positions of the line, as recorded by expand_tabs_into */
    size_t *tp = in_sizearr(L);
#ifndef GVC
    for (size_t i = 0; i < L; i++) tp[i] = (i ? NEXTSTOP(tp[i - 1], ts) : 0) + in_size(0, 3) * in_size(0, 1);
#endif
    g_pos = tp; g_L = L; g_done = 0;
    g_tw = malloc((L + 1) * sizeof(size_t));
    g_end = malloc((L + 1) * sizeof(size_t));
#ifdef GVC
    ASSUME(ALL(i_, 0, L, tp[i_] < STRMAX));
    ASSUME(ALL(i_, 0, L, g_end[i_] == NEXTSTOP(tp[i_], ts)));
    ASSUME(ALL(i_, 1, L, tp[i_] >= g_end[i_ - 1]));
#else
    for (size_t i = 0; i < L; i++) g_end[i] = NEXTSTOP(tp[i], ts);
#endif
    /* the restored indentation is the common indentation (callers pass input.indent) or nothing is kept beyond it */
    ASSUME(input.indent <= len);
    ASSUME(ln < nl);
    input.lines[ln].tabpos = tp;
    input.lines[ln].tabpos_len = L;
    uint32_t *r = tabbify_indent(ln, spc, len);
    COVER("tabbify");
#ifndef GVC
    size_t w = 0;
    g_done = 0;
    for (size_t i = 0; i < L && tp[i] < len && g_end[i] <= input.indent; i++) { g_tw[i] = i ? g_tw[i - 1] + 1 + (tp[i] - g_end[i - 1]) : tp[0]; g_done = i + 1; }
    (void) w;
#endif
    size_t T = g_done, e = T ? g_end[T - 1] : 0, w0 = T ? g_tw[T - 1] + 1 : 0;
    if (len == 0) CHECK(r[0] == 0, "tabbify: no indentation");
    else {
        CHECK(T == L || tp[T] >= len || g_end[T] > input.indent, "tabbify: every tab inside the indentation is restored");
        CHECK(ALL(t_, 0, T, r[g_tw[t_]] == '\t' && g_end[t_] <= len), "tabbify: tabs stand at their places");
        CHECK(IMPLIES(T > 0, g_tw[0] == tp[0] && ALL(q_, 0, g_tw[0], r[q_] == ' ')) && ALL(t_, 1, T, g_tw[t_] == g_tw[t_ - 1] + 1 + (tp[t_] - g_end[t_ - 1])), "tabbify: each tab starts at the column of the original one");
        CHECK(ALL(t_, 1, T, ALL(q_, g_tw[t_ - 1] + 1, g_tw[t_], r[q_] == ' ')), "tabbify: spaces between the tabs");
        CHECK(ALL(q_, w0, w0 + (len - e), r[q_] == ' ') && r[w0 + (len - e)] == 0, "tabbify: spaces up to the original width");
    }
#endif
#endif
}
