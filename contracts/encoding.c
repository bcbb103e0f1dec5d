//@title conversion from and to the character encoding in effect
//@variants check from to utf8
//@src unicode.c
//@exclude boxes.c
//@prop C13
//@prop.to C16 C14
//@prop.utf8 C18
//@funcs.check check_encoding
//@funcs.from u32_strconv_from_input u32_strconv_from_arg
//@funcs.to u32_strconv_to_output u32_strconv_to_arg is_empty
//@funcs.utf8 to_utf8 is_empty
//@replace.check u32_strconv_from_encoding=from_c free=free_c
//@replace.from u32_strconv_from_encoding=from_c strerror=err_c calloc=calloc_c
//@replace.to u32_strconv_to_encoding=to_c strerror=err_c strdup=sdup_c u32_cmp=cmp_c
//@replace.utf8 u32_strconv_to_encoding=to_c strerror=err_c strdup=sdup_c u32_cmp=cmp_c
//@assume u32_strconv_from_encoding and u32_strconv_to_encoding convert a text between the encoding named and UTF-32 (libunistring); memory allocation succeeds
//@noeffect bx_fprintf fprintf fflush perror log_debug is_debug_logging
//@nonative the conversions of libunistring run in every whole-program unit
#include "common.h"
#include "boxes.h"
#include <uniconv.h>
#include <errno.h>
#ifdef GVC
static const char *g_src, *g_e, *g_enc2;
static const uint32_t *g_u;
static char *g_out, *g_empty;
static uint32_t *g_res, *g_e32;
static int g_errno;
int *__errno_location(void) { return &g_errno; }
int cmp_c(const uint32_t *a, const uint32_t *b, size_t n) { CHECK(n == 1, "one character"); return *a == *b ? 0 : 1; }
static int g_known, g_n, g_calls, g_strict;
void free_c(void *p) { CHECK(p == (void *) g_res, "the trial conversion is dropped"); }
char *err_c(int e) { return g_out; }
void *calloc_c(size_t n, size_t sz) { CHECK(n == 1 && sz == 4, "room for the terminator"); g_e32[0] = 0; return g_e32; }
char *sdup_c(const char *s) { CHECK(s[0] == 0, "the empty text"); return g_empty; }
uint32_t *from_c(const char *s, const char *enc, enum iconv_ilseq_handler h)
{
    CHECK(enc == g_e && !g_calls, "one conversion, from the encoding given");
    if (g_strict) CHECK(h == iconveh_error, "an encoding that is not known is noticed");
    else CHECK(s == g_src && h == iconveh_question_mark, "the text given; what cannot be converted is marked");
    g_calls++;
    return g_known ? g_res : NULL;
}
char *to_c(const uint32_t *s, const char *enc, enum iconv_ilseq_handler h)
{
    CHECK(s == g_u && !g_calls, "the text given is converted, once");
    if (g_strict) CHECK(enc[0] == 'U' && enc[1] == 'T' && enc[2] == 'F' && enc[3] == '-' && enc[4] == '8' && enc[5] == 0, "to UTF-8");
    else CHECK(enc == g_e && h == iconveh_question_mark, "to the encoding in effect; what cannot be converted is marked");
    g_calls++;
    return g_known ? g_out : NULL;
}
#endif
#include VC_SRC
void harness(void)
{
#ifdef GVC
    g_e = malloc(8); g_enc2 = malloc(8); g_out = malloc(1); g_empty = malloc(1); g_res = malloc(4); g_e32 = malloc(4);
    g_known = in_int(0, 1);
    g_n = in_int(0, 1);         /* is there any text? */
    int there = in_int(0, 1), self = in_int(0, 1);
    char *t = malloc(8);
    uint32_t *u = malloc(32);
    if (g_n) { ASSUME(t[0] != 0 && u[0] != 0); } else { t[0] = 0; u[0] = 0; }
    g_src = there ? t : NULL;
    g_u = there ? u : NULL;
    encoding = self ? g_e : g_enc2;
#if defined(V_check)
    g_strict = 1;
    const char *r = check_encoding(there ? g_e : NULL, g_enc2);
    COVER("check");
    CHECK(r == (there && g_known ? g_e : g_enc2), "the encoding asked for, if there is such an encoding, otherwise that of the system");
#elif defined(V_from)
    const uint32_t *r = self ? u32_strconv_from_input(g_src) : u32_strconv_from_arg(g_src, g_e);
    COVER("from");
    if (!there) CHECK(r == NULL, "no text");
    else if (!g_n) CHECK(r == g_e32 && r[0] == 0 && !g_calls, "the empty text stays empty");
    else CHECK(g_calls == 1 && r == (g_known ? g_res : NULL), "the converted text");
#elif defined(V_to)
    const char *r = self ? u32_strconv_to_output(g_u) : u32_strconv_to_arg(g_u, g_e);
    COVER("to");
    if (!there) CHECK(r == NULL, "no text");
    else if (!g_n) CHECK(r == g_empty && !g_calls, "the empty text stays empty");
    else CHECK(g_calls == 1 && r == (g_known ? g_out : NULL), "the converted text");
#else
    g_strict = 1;
    const char *r = to_utf8((uint32_t *) g_u);
    COVER("utf8");
    if (!there) CHECK(r == NULL, "no text");
    else if (!g_n) CHECK(r == g_empty && !g_calls, "the empty text stays empty");
    else CHECK(g_calls == 1 && r == (g_known ? g_out : NULL), "the converted text");
#endif
#endif
}
