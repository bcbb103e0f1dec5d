//@title is_csi_reset: exactly the sequences that end a colour are recognised
//@src tools.c
//@link unicode.c
//@prop C01
//@funcs is_csi_reset
//@noeffect bx_fprintf log_debug is_debug_logging
//@unwind 8
#include "common.h"
#include "texts.h"
#include VC_SRC
#define FIN(c) ((c) >= 0x40 && (c) <= 0x7e)
#ifdef GVC
opt_t opt; input_t input; int num_designs; design_t *designs; int color_output_enabled;
#endif
void harness(void)
{
    size_t n = in_size(0, MAXLEN);
    uint32_t *s = gen_text(n);
#ifndef GVC
    /* more of the interesting ones */
    static const char *pre[] = { "\033[0m", "\033[m", "\033[39m", "\033[10", "\033(B", "\033[59;", "\033[75m", "\033[1", "\033[49x" };
    int k = in_int(0, 20);
    if (k < 9) for (size_t i = 0; pre[k][i] && i < n; i++) s[i] = (uint32_t) pre[k][i];
#endif
    int r = is_csi_reset(s);
    COVER("is_csi_reset");
    int want = 0;
    if (n >= 3 && s[0] == 0x1b && (s[1] == '[' || s[1] == '(')) {
        if (FIN(s[2])) want = 1;
        else if (n >= 4 && s[2] == '0') want = FIN(s[3]);
        else if (n >= 5 && ((s[2] == '1' && s[3] == '0') || (s[2] == '3' && s[3] == '9') || (s[2] == '4' && s[3] == '9') || (s[2] == '5' && s[3] == '9') || (s[2] == '7' && s[3] == '5')))
            want = FIN(s[4]);
    }
    CHECK((r != 0) == (want != 0), "recognised exactly if it resets");
}
