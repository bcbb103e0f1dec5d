//@title advance_next32: exactly one character, or one whole escape sequence, is skipped
//@src unicode.c
//@prop C01
//@funcs advance_next32 is_empty is_char_at
//@loops advance_next32:0
#include "common.h"

#define ENDS(c) ((c) >= 0x40 && (c) <= 0x7e)
/* (the pointer rest moves along s) */
#define LOOP_advance_next32_0 vc_w(0, &c), vc_w(0, invis), vc_inv(0, rest == s + *invis && ansipos >= 0 && ansipos <= 2 \
    && IMPLIES(ansipos == 0, *invis == 0) && IMPLIES(ansipos == 1, *invis == 1) && IMPLIES(ansipos == 2, *invis >= 2 && (s[1] == '[' || s[1] == '(')) \
    && IMPLIES(*invis > 0, s[0] == 0x1b) && ALL(q, 0, *invis, s[q] != 0) && ALL(q, 2, *invis, !ENDS(s[q])))

#include VC_SRC
#include "texts.h"

void harness(void)
{
    size_t n = in_size(0, MAXLEN);
    uint32_t *t = gen_text(n);
    size_t i = in_size(0, n);
    const uint32_t *s = t + i;
    size_t invis = in_size(0, 1000), invis0 = invis;
    uint32_t *r = advance_next32(s, &invis);
    COVER("returns");
    size_t k = (size_t) (r - s);
    CHECK(r >= s && k <= n - i, "result inside the text");
    if (s[0] == 0) {
        CHECK(k == 0 && invis == invis0, "end of text: no movement");
        return;
    }
    if (s[0] != 0x1b) {
        CHECK(k == 1 && invis == 0, "an ordinary character is one visible character");
        return;
    }
    COVER("escape");
    CHECK(k == invis && k >= 1, "escape sequence: every skipped character is counted");
    if (s[1] == '[' || s[1] == '(') {
        CHECK(k >= 2, "sequence introducer is part of the sequence");
        CHECK(ALL(q, 2, k - 1, !ENDS(s[q])), "sequence ends at its first final character");
        CHECK(s[k] == 0 || (k >= 3 && ENDS(s[k - 1])), "sequence is complete");
    }
    else if (s[1] >= 0x40 && s[1] <= 0x5f) {
        CHECK(k == 2, "two-character escape sequence");
    }
    else {
        CHECK(k == 1, "an ESC that starts no sequence is skipped alone");
    }
}
