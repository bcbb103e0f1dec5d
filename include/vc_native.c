/* native runtime of the contract files: replay and seeded generation of the in_*() values */
#include "vc.h"
#include <setjmp.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <time.h>

void harness(void);
unsigned long vc_checks, vc_covers;
static jmp_buf env;
static uint64_t rs;

/* shared with the parent: survives any death of the child */
static struct shm {
    unsigned long iter, accepted, checks, covers, distinct;
    char msg[300];
    char sample[4000];
    unsigned char seen[1 << 20];
    size_t len;
    char log[1 << 20];
} *sh;

static FILE *replay;
static long dict[4096];
static int ndict;

static uint64_t rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 2685821657736338717ULL; }

static void logv(const char *fmt, long v)
{
    if (sh->len + 64 < sizeof sh->log) sh->len += (size_t) snprintf(sh->log + sh->len, 60, fmt, v);
}

void vc_assume_fail(void) { longjmp(env, 1); }
void vc_check_fail(const char *msg, const char *file, int line)
{
    snprintf(sh->msg, sizeof sh->msg, "CHECK failed: %s (%s:%d)", msg, file, line);
    _exit(3);
}

static long bias;   /* per-iteration size bias */

static long draw(long lo, long hi)
{
    uint64_t span = (uint64_t) hi - (uint64_t) lo;
    uint64_t m;
    switch (rnd() % 12) {
        case 0: return lo;
        case 1: return rnd() % 3 ? lo + (long) (span < 1 ? span : 1) : hi;
        case 2: if (ndict) { long d = dict[rnd() % (uint64_t) ndict] + (long) (rnd() % 3) - 1; if (d >= lo && d <= hi) return d; } /* fall through */
        case 3: m = 64; break;
        case 4: if (rnd() % 4 == 0) { m = span == UINT64_MAX ? span : span + 1; break; } /* fall through */
        default: m = (uint64_t) bias; break;
    }
    if (span != UINT64_MAX && m > span + 1) m = span + 1;
    long base = (lo < 0 && hi > 0 && rnd() % 4) ? 0 : lo;
    if ((uint64_t) hi - (uint64_t) base < m) base = lo;
    return (long) ((uint64_t) base + (m ? rnd() % m : rnd()));
}

static long scalar(long lo, long hi)
{
    long v;
    if (replay) {
        char c;
        if (fscanf(replay, " %c %ld", &c, &v) != 2 || c != 's') { v = lo; }
        /* values outside the range never satisfied the contract's precondition */
        if (((lo <= hi) && (v < lo || v > hi))) vc_assume_fail();
    }
    else v = draw(lo, hi);
    logv("s %ld\n", v);
    return v;
}

int in_int(int lo, int hi) { if (lo > hi) vc_assume_fail(); return (int) scalar(lo, hi); }
long in_long(long lo, long hi) { if (lo > hi) vc_assume_fail(); return scalar(lo, hi); }
char in_char(char lo, char hi) { return (char) scalar(lo, hi); }
uint32_t in_u32(uint32_t lo, uint32_t hi) { return (uint32_t) scalar(lo, hi); }
size_t in_size(size_t lo, size_t hi)
{
    if (lo > hi) vc_assume_fail();
    if (hi > (size_t) INT64_MAX) hi = (size_t) INT64_MAX;
    return (size_t) scalar((long) lo, (long) hi);
}

static const uint32_t alpha[] = { 'a', 'b', 'Z', '*', '-', ' ', ' ', ' ', '\t', 0x1b, '[', 'm', '0', '3', ';', 'K', '(', 'B',
    0xa0, 0x2002, 0x3000, 0xe9, 0x4e16, 0x1f600, 0x301, 0xad, '\r', '\n', '\\', '"', 0x7f, 0x200b };

static size_t arrlen(size_t n)
{
    if (replay) {
        char c; long v;
        if (fscanf(replay, " %c %ld", &c, &v) != 2 || c != 'a') vc_assume_fail();
        if ((size_t) v != n) vc_assume_fail();
    }
    if (n > (1u << 16)) vc_assume_fail();
    logv("a %ld", (long) n);
    return n;
}

static long elem(long r)
{
    long v = r;
    if (replay && fscanf(replay, " %ld", &v) != 1) vc_assume_fail();
    logv(" %ld", v);
    return v;
}

uint32_t *in_u32arr(size_t n)
{
    n = arrlen(n);
    uint32_t *r = malloc((n + !n) * 4);
    int style = (int) (rnd() % 4);
    for (size_t i = 0; i < n; i++) {
        uint32_t v = style == 0 ? (uint32_t) ('a' + rnd() % 3) : style == 1 ? (rnd() % 3 ? ' ' : 'x')
            : alpha[rnd() % (sizeof alpha / sizeof *alpha)];
        if (rnd() % 64 == 0) v = (uint32_t) (rnd() % 0x2000 + 1);
        if (ndict && rnd() % 32 == 0) { long d = dict[rnd() % (uint64_t) ndict]; if (d > 0 && d < 0x110000) v = (uint32_t) d; }
        r[i] = (uint32_t) elem(v);
    }
    logv("\n", 0);
    return r;
}
size_t *in_sizearr(size_t n)
{
    n = arrlen(n);
    size_t *r = malloc((n + !n) * sizeof *r);
    for (size_t i = 0; i < n; i++) r[i] = (size_t) elem(draw(0, 40));
    logv("\n", 0);
    return r;
}
int *in_intarr(size_t n)
{
    n = arrlen(n);
    int *r = malloc((n + !n) * sizeof *r);
    for (size_t i = 0; i < n; i++) r[i] = (int) elem(draw(-10, 40));
    logv("\n", 0);
    return r;
}
char *in_str(size_t n)
{
    static const char a8[] = "abchvlrtj:;=0123456789-+x \t\\\"ABCDEF(){},|[*._/on";
    n = arrlen(n);
    char *r = malloc(n + 1);
    for (size_t i = 0; i < n; i++) {
        char c = rnd() % 40 == 0 ? (char) (rnd() % 255 + 1) : a8[rnd() % (sizeof a8 - 1)];
        if (ndict && rnd() % 8 == 0) { long d = dict[rnd() % (uint64_t) ndict]; if (d > 0 && d < 128) c = (char) d; }
        r[i] = (char) elem(c);
        if (r[i] == 0) vc_assume_fail();
    }
    r[n] = 0;
    logv("\n", 0);
    return r;
}

int main(int argc, char **argv)
{
    /* prog seed iterations seconds [dictfile]   |   prog replay FILE */
    sh = mmap(NULL, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    int is_replay = argc > 2 && strcmp(argv[1], "replay") == 0;
    unsigned long seed = is_replay ? 1 : strtoul(argv[1], NULL, 10), iters = is_replay ? 1 : strtoul(argv[2], NULL, 10);
    unsigned secs = is_replay ? 20 : (unsigned) atoi(argv[3]);
    if (!is_replay && argc > 4) {
        FILE *d = fopen(argv[4], "r");
        if (d) { while (ndict < 4096 && fscanf(d, "%ld", dict + ndict) == 1) ndict++; fclose(d); }
    }
    fflush(NULL);
    pid_t pid = fork();
    if (pid == 0) {

        long t0 = (long) time(NULL);
        for (unsigned long i = 0; i < iters; i++) {
            if (!is_replay && (i & 15) == 0 && (long) time(NULL) - t0 >= (long) secs) break;
            rs = (seed + 1) * 0x9E3779B97F4A7C15ULL + i * 0xD1B54A32D192ED03ULL;
            if (!rs) rs = 1;
            for (int j = 0; j < 4; j++) rnd();
            bias = i < 64 ? 2 + (long) i / 16 : (long) (1 + rnd() % (rnd() % 8 ? 8 : 40));
            sh->iter = i; sh->len = 0; sh->log[0] = 0; sh->msg[0] = 0;
            if (is_replay) replay = fopen(argv[2], "r");
            alarm(15);
            if (setjmp(env) == 0) {
                unsigned long c0 = vc_checks;
                harness();
                sh->accepted++;
                if (vc_checks > c0) {   /* non-trivial: at least one postcondition was evaluated; distinct: by hash of the inputs */
                    uint64_t h = 14695981039346656037ULL;
                    for (size_t q = 0; q < sh->len; q++) h = (h ^ (unsigned char) sh->log[q]) * 1099511628211ULL;
                    h ^= h >> 29;
                    unsigned char *b = sh->seen + ((h >> 3) & ((1 << 20) - 1)), m = (unsigned char) (1 << (h & 7));
                    if (!(*b & m)) { *b |= m; sh->distinct++; }
                    if (i == 200 || !sh->sample[0]) snprintf(sh->sample, sizeof sh->sample, "%s", sh->log);
                }
            }
            alarm(0);
            sh->checks = vc_checks; sh->covers = vc_covers;
        }
        _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    int bad = 0;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) bad = 0;
    else {
        bad = 1;
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) snprintf(sh->msg, sizeof sh->msg, "no result within 15 s (does not terminate)");
        else if (!sh->msg[0]) {
            if (WIFSIGNALED(st)) snprintf(sh->msg, sizeof sh->msg, "killed by signal %d", WTERMSIG(st));
            else snprintf(sh->msg, sizeof sh->msg, "aborted with exit code %d (see stderr: memory error or exit in the code under test)", WEXITSTATUS(st));
        }
    }
    printf("RESULT %s iter=%lu accepted=%lu checks=%lu covers=%lu distinct=%lu\n", bad ? "FAIL" : "OK", sh->iter, sh->accepted, sh->checks, sh->covers, sh->distinct);
    if (!bad) printf("SAMPLE\n%s", sh->sample);
    if (bad) printf("MSG %s\nINPUTS\n%s", sh->msg, sh->log);
    return bad ? 3 : 0;
}
