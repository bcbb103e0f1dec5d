/* whole-program contracts (native only): runs the real main() of boxes in a child process and compares what it prints with
 * what the property demands.  Nothing internal to boxes is referred to, only its documented inputs and outputs. */
#ifndef VERIF_E2E_H
#define VERIF_E2E_H
#include "vc.h"
#include <unistd.h>
#include <fcntl.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <signal.h>
#include <errno.h>

int boxes_main(int argc, char **argv);

/* ---- growing byte buffer ---- */
typedef struct { char *s; size_t n, cap; } buf_t;
static void b_add(buf_t *b, const char *s, size_t n)
{
    if (b->n + n + 1 > b->cap) { b->cap = (b->n + n + 1) * 2; b->s = realloc(b->s, b->cap); }
    if (n) memcpy(b->s + b->n, s, n);
    b->n += n;
    b->s[b->n] = 0;
}
static void b_puts(buf_t *b, const char *s) { b_add(b, s, strlen(s)); }
static void b_fmt(buf_t *b, const char *f, ...)
{
    char t[2000];
    va_list a;
    va_start(a, f);
    int n = vsnprintf(t, sizeof t, f, a);
    va_end(a);
    b_add(b, t, (size_t) n);
}
static void b_cp(buf_t *b, uint32_t c)
{
    char t[4];
    size_t n = 0;
    if (c < 0x80) t[n++] = (char) c;
    else if (c < 0x800) { t[n++] = (char) (0xc0 | c >> 6); t[n++] = (char) (0x80 | (c & 63)); }
    else if (c < 0x10000) { t[n++] = (char) (0xe0 | c >> 12); t[n++] = (char) (0x80 | (c >> 6 & 63)); t[n++] = (char) (0x80 | (c & 63)); }
    else { t[n++] = (char) (0xf0 | c >> 18); t[n++] = (char) (0x80 | (c >> 12 & 63)); t[n++] = (char) (0x80 | (c >> 6 & 63)); t[n++] = (char) (0x80 | (c & 63)); }
    b_add(b, t, n);
}
static void b_free(buf_t *b) { free(b->s); b->s = NULL; b->n = b->cap = 0; }

/* ---- running the program ---- */
typedef struct { int rc; buf_t out, err; } run_t;
static char e2e_dir[200];          /* scratch directory of this process */
static const char *scratch(void)
{
    if (!e2e_dir[0]) {
        snprintf(e2e_dir, sizeof e2e_dir, "%s/e2e-XXXXXX", getenv("TMPDIR") ? getenv("TMPDIR") : "/tmp");
        if (!mkdtemp(e2e_dir)) { perror("mkdtemp"); _exit(9); }
    }
    return e2e_dir;
}
static void put_file(const char *path, const char *s, size_t n)
{
    FILE *f = fopen(path, "w");
    if (!f) { perror(path); _exit(9); }
    fwrite(s, 1, n, f);
    fclose(f);
}
static void slurp(int fd, buf_t *b)
{
    char t[65536];
    lseek(fd, 0, SEEK_SET);
    ssize_t n;
    while ((n = read(fd, t, sizeof t)) > 0) b_add(b, t, (size_t) n);
    b_add(b, "", 0);
}
static const char *e2e_env[16][2];
static int e2e_nenv;
static const char *e2e_home, *e2e_cwd;
/* argv[0] is added; ends with NULL */
static run_t run_boxes(char **args, const char *in, size_t inlen)
{
    run_t r = {0};
    int fi = memfd_create("in", 0), fo = memfd_create("out", 0), fe = memfd_create("err", 0);
    if (inlen && write(fi, in, inlen) != (ssize_t) inlen) _exit(9);
    lseek(fi, 0, SEEK_SET);
    char *av[64] = {"boxes"};
    int ac = 1;
    while (args[ac - 1]) { av[ac] = args[ac - 1]; ac++; }
    fflush(NULL);
    pid_t p = fork();
    if (p == 0) {
        dup2(fi, 0); dup2(fo, 1); dup2(fe, 2);
        unsetenv("BOXES"); unsetenv("TERM"); unsetenv("XDG_CONFIG_HOME"); unsetenv("XDG_CONFIG_DIRS"); unsetenv("POSIXLY_CORRECT");
        setenv("HOME", e2e_home ? e2e_home : scratch(), 1);
        for (int i = 0; i < e2e_nenv; i++) { if (e2e_env[i][1]) setenv(e2e_env[i][0], e2e_env[i][1], 1); else unsetenv(e2e_env[i][0]); }
        if (chdir(e2e_cwd ? e2e_cwd : scratch())) _exit(98);
        alarm(10);
        exit(boxes_main(ac, av));
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) ;
    r.rc = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
    slurp(fo, &r.out);
    slurp(fe, &r.err);
    close(fi); close(fo); close(fe);
    return r;
}
static void run_free(run_t *r) { b_free(&r->out); b_free(&r->err); }
static void show_run(const char *conf, char **args, const char *in, size_t inlen, const run_t *r)
{
    if (conf) fprintf(stderr, "--- configuration\n%s", conf);
    fprintf(stderr, "--- arguments:");
    for (int i = 0; args[i]; i++) fprintf(stderr, " '%s'", args[i]);
    fprintf(stderr, "\n--- input (control characters escaped)\n");
    for (size_t i = 0; i < inlen; i++) { if (in[i] == '\n') fprintf(stderr, "\\n\n"); else if ((unsigned char) in[i] < 32) fprintf(stderr, "\\x%02x", in[i]); else fputc(in[i], stderr); }
    fprintf(stderr, "\n--- exit %d, output\n%s\n--- stderr\n%.1500s\n", r->rc, r->out.s ? r->out.s : "", r->err.s ? r->err.s : "");
}

/* ---- lines of code points ---- */
typedef struct { uint32_t c[600]; size_t n; } row_t;
static void r_cp(row_t *r, uint32_t c) { if (r->n < 600) r->c[r->n++] = c; }
static void r_fill(row_t *r, uint32_t c, long n) { while (n-- > 0) r_cp(r, c); }
static void r_row(row_t *r, const row_t *s) { for (size_t i = 0; i < s->n; i++) r_cp(r, s->c[i]); }
static int isbl(uint32_t c) { return c == ' ' || c == '\t' || c == '\r' || c == '\n' || c == 0xa0 || c == 0x2002 || c == 0x3000; }
static void r_rtrim(row_t *r) { while (r->n > 0 && isbl(r->c[r->n - 1])) r->n--; }
static int wd(uint32_t c) { return (c >= 0x4e00 && c < 0x9fff) || c == 0x3000 || (c >= 0x1f600 && c < 0x1f650) ? 2 : 1; }
/* visible columns: escape sequences take no room */
static size_t r_cols(const row_t *r)
{
    size_t w = 0;
    for (size_t i = 0; i < r->n; i++) {
        if (r->c[i] == 0x1b) { while (i < r->n && r->c[i] != 'm') i++; continue; }
        w += (size_t) wd(r->c[i]);
    }
    return w;
}
static row_t r_visible(const row_t *r)
{
    static row_t v;
    v.n = 0;
    for (size_t i = 0; i < r->n; i++) {
        if (r->c[i] == 0x1b) { while (i < r->n && r->c[i] != 'm') i++; continue; }
        r_cp(&v, r->c[i]);
    }
    return v;
}
static int r_eq(const row_t *a, const row_t *b) { return a->n == b->n && memcmp(a->c, b->c, a->n * 4) == 0; }
static size_t decode(const char *s, size_t n, uint32_t *out, size_t max)
{
    size_t k = 0;
    for (size_t i = 0; i < n && k < max; ) {
        unsigned char c = (unsigned char) s[i];
        int l = c < 0x80 ? 1 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : 4;
        uint32_t v = l == 1 ? c : c & (0xff >> (l + 1));
        for (int q = 1; q < l && i + (size_t) q < n; q++) v = v << 6 | ((unsigned char) s[i + (size_t) q] & 63);
        out[k++] = v;
        i += (size_t) l;
    }
    return k;
}
/* splits s into rows at `eol`; *last_open = the last row had no line end */
static size_t split_rows(const char *s, size_t n, const char *eol, row_t *rows, size_t max, int *last_open)
{
    size_t k = 0, le = strlen(eol);
    *last_open = 0;
    while (n > 0 && k < max) {
        char *e = memmem(s, n, eol, le);
        size_t l = e ? (size_t) (e - s) : n;
        rows[k].n = decode(s, l, rows[k].c, 600);
        k++;
        if (!e) { *last_open = 1; break; }
        s += l + le;
        n -= l + le;
    }
    return k;
}
static void b_row(buf_t *b, const row_t *r) { for (size_t i = 0; i < r->n; i++) b_cp(b, r->c[i]); }
#endif
