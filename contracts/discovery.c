//@title finding the configuration file: readability tests, names in a directory, explicit places, search order
//@variants file dir combine indir fileordir common fromenv order global
//@src discovery.c
//@prop C12
//@exclude boxes.c
//@funcs.file can_read_file
//@funcs.dir can_read_dir
//@funcs.combine combine
//@funcs.indir locate_config_in_dir
//@funcs.fileordir locate_config_file_or_dir
//@funcs.common locate_config_common
//@funcs.fromenv from_env_var
//@funcs.order discover_config_file
//@funcs.global discover_config_file
//@replace.file bx_fopen=fopen_c fclose=fclose_c stat=stat_c
//@replace.dir opendir=opendir_c closedir=closedir_c
//@replace.combine concat_strings_alloc=concat_c
//@replace.indir combine=combine_c can_read_file=readable_c free=free_c
//@replace.fileordir can_read_file=isfile_c can_read_dir=isdir_c strdup=dup_c locate_config_in_dir=indir_c
//@replace.common getenv=getenv_c locate_config_file_or_dir=fod_c
//@replace.fromenv getenv=getenv_c concat_strings_alloc=concat_c
//@replace.order locate_config_common=common_c from_env_var=fromenv_c can_read_dir=isdir_c can_read_file=isfile_c locate_config_in_dir=indir_c utf8_to_bxs=tobxs_c free=free_c is_debug_logging=debug_c bxs_to_output=toout_c
//@replace.global locate_config_common=common_c from_env_var=fromenv_c can_read_dir=isdir_c can_read_file=isfile_c locate_config_in_dir=indir_c utf8_to_bxs=tobxs_c free=free_c is_debug_logging=debug_c bxs_to_output=toout_c
//@noeffect bx_fprintf log_debug log_debug_cont strerror is_debug_logging
//@assume fopen, stat, opendir and getenv answer for the file system and environment as they are; the answers do not change during the search
//@nonative the whole program is run by e2e_discover
//@unwind 26
#include "common.h"
#include "texts.h"
#include <sys/stat.h>
#include <dirent.h>
#include "boxes.h"
#include "logging.h"
#define SAMEO(p, q) (__CPROVER_POINTER_OBJECT(p) == __CPROVER_POINTER_OBJECT(q))
static int the_errno;
int *__errno_location(void) { return &the_errno; }
static int same(const char *a, const char *b)
{
    for (size_t i = 0; ; i++) {
        if (a[i] != b[i]) return 0;
        if (b[i] == 0) return 1;
    }
    return 0;
}
static int g_open, g_stat, g_isdir, g_closed;
static char *g_name;
static FILE *g_file;
FILE *fopen_c(const char *n, const char *m) { CHECK(n == g_name && m[0] == 'r', "the candidate is opened for reading"); return g_open ? g_file : NULL; }
int fclose_c(FILE *f) { CHECK(f == g_file, "the file opened"); g_closed++; return 0; }
int stat_c(const char *n, struct stat *s)
{
    CHECK(n == g_name, "the candidate is looked at");
    if (!g_stat) return -1;
    s->st_mode = nondet_uint();
    ASSUME(((s->st_mode & 0170000) == 0040000) == (g_isdir != 0));
    return 0;
}
static DIR *g_dir;
DIR *opendir_c(const char *n) { CHECK(n == g_name, "the candidate is opened as a directory"); return g_open ? g_dir : NULL; }
int closedir_c(DIR *d) { CHECK(d == g_dir, "the directory opened"); g_closed++; return 0; }
/* concatenation of n texts (contract proved bounded in utils): the harness looks at what was concatenated */
static size_t g_cn;
static const char *g_c1, *g_c2, *g_c3;
static char *g_cat;
char *concat_c(size_t n, const char *a, const char *b, const char *c)
{
    g_cn = n; g_c1 = a; g_c2 = b; g_c3 = n > 2 ? c : NULL;
    return g_cat;
}
/* one file per documented name */
static char *g_pool;       /* pool + i stands for the path of file i in the directory */
static int g_read[4];
static size_t g_asked;
char *combine_c(const char *d, const char *f)
{
    CHECK(d == g_name, "files are looked for in the directory");
    size_t i = same(f, ".boxes") ? 0 : same(f, "box-designs") ? 1 : same(f, "boxes-config") ? 2 : same(f, "boxes") ? 3 : 9;
    CHECK(i < 4, "only under the documented names");
    ASSUME(i < 4);
    return g_pool + i;
}
int readable_c(char *f)
{
    CHECK(f >= g_pool && f < g_pool + 4, "a candidate");
    g_asked++;
    return g_read[f - g_pool];
}
void free_c(void *p) {}
/* places: isfile, isdir, file found in the directory */
static char *g_found;
static int g_f, g_d, g_i;
static char *g_dirs;       /* order: g_dirs + i stands for HOME, XDG_CONFIG_HOME/boxes, HOME/.config/boxes */
static char *g_inpool;     /* files found in place i */
static int g_set[3], g_dok[6], g_iok[6], g_gl;
static int place(const char *n)
{
    if (SAMEO(n, g_dirs)) return (int) (n - g_dirs);
    if (same(n, "/etc/xdg/boxes")) return 3;
    if (same(n, "/usr/local/share/boxes")) return 4;
    if (same(n, "/usr/share/boxes")) return 5;
    CHECK(0, "only documented places are searched");
    ASSUME(0);
    return 0;
}
#if defined(V_order) || defined(V_global)
int isdir_c(const char *n)
{
    if (n == NULL) return 0;
    return g_dok[place(n)];
}
int isfile_c(char *n) { CHECK(same(n, GLOBALCONF), "the global file"); return g_gl; }
char *indir_c(const char *n)
{
    int i = place(n);
    CHECK(g_dok[i], "only readable directories are searched");
    return g_iok[i] ? g_inpool + i : NULL;
}
#else
int isdir_c(const char *n) { CHECK(n == g_name, "the place given"); return g_d; }
int isfile_c(char *n) { CHECK(n == g_name, "the place given"); return g_f; }
char *indir_c(const char *n) { CHECK(n == g_name && g_d, "searched as a directory"); return g_i ? g_found : NULL; }
#endif
char *dup_c(const char *s) { CHECK(s == g_name, "the file given itself"); return g_found; }
static char *g_env, *g_boxes;
static int g_ok;
char *getenv_c(const char *n) {
#ifdef V_common
    CHECK(same(n, "BOXES"), "the BOXES variable is asked for");
#else
    CHECK(n == g_name, "the variable asked for");
#endif
    return g_env; }
char *fod_c(char *p, const char *m) { g_asked++; g_name = p; return g_ok ? g_found : NULL; }
static int g_common;       /* 0 nothing given, 1 found, 2 error reported */
static char *g_cmn;
char *common_c(int *e) { if (g_common == 2) *e = 1; return g_common == 1 ? g_cmn : NULL; }
char *fromenv_c(const char *v, const char *p)
{
    int i = same(v, "HOME") ? (same(p, "") ? 0 : same(p, "/.config/boxes") ? 2 : 9) : same(v, "XDG_CONFIG_HOME") && same(p, "/boxes") ? 1 : 9;
    CHECK(i < 3, "only documented variables are used");
    ASSUME(i < 3);
    return g_set[i] ? g_dirs + i : NULL;
}
static bxstr_t *g_bxs;     /* 0..5: file in place i, 6: global file, 7: the one given explicitly */
bxstr_t *tobxs_c(char *p)
{
    if (p == NULL) return NULL;
    if (p == g_cmn) return g_bxs + 7;
    if (SAMEO(p, g_inpool)) return g_bxs + (p - g_inpool);
    CHECK(same(p, GLOBALCONF), "the global file");
    return g_bxs + 6;
}
int debug_c(const log_area_t a) { return 0; }
char *toout_c(bxstr_t *b) { return NULL; }
/* ----------------------------------------------------------------------------------------------------------------- */
#include VC_SRC
opt_t opt; input_t input; int num_designs; design_t *designs; int color_output_enabled;

void harness(void)
{
    size_t n = in_size(0, 1UL << 30);
    g_name = in_str(n);
#ifdef V_file
    g_open = in_int(0, 1); g_stat = in_int(0, 1); g_isdir = in_int(0, 1);
    g_file = malloc(1);
    int r = can_read_file(g_name);
    COVER("file");
    CHECK((r != 0) == (n > 0 && g_open && g_stat && !g_isdir), "readable exactly if it can be opened and is not a directory");
    CHECK(g_closed == (n > 0 && g_open), "what was opened is closed");
    CHECK(can_read_file(NULL) == 0, "no name");
#endif
#ifdef V_dir
    g_open = in_int(0, 1);
    g_dir = malloc(1);
    int r = can_read_dir(g_name);
    COVER("dir");
    CHECK((r != 0) == (n > 0 && g_open), "readable exactly if it can be opened as a directory");
    CHECK(g_closed == (n > 0 && g_open), "what was opened is closed");
    CHECK(can_read_dir(NULL) == 0, "no name");
#endif
#ifdef V_combine
    ASSUME(n > 0);
    g_cat = malloc(1);
    char *f = in_str(in_size(0, 100));
    char *r = combine(g_name, f);
    COVER("combine");
    CHECK(r == g_cat, "the path put together");
    CHECK(g_c1 == g_name, "begins with the directory");
    if (g_cn == 3 && g_c2[0] == 0) { g_c2 = g_c3; g_cn = 2; }       /* an empty piece adds nothing */
    CHECK(g_name[n - 1] == '/' ? g_cn == 2 && g_c2 == f : g_cn == 3 && same(g_c2, "/") && g_c3 == f, "and ends with the file, with one slash between them");
#endif
#ifdef V_indir
    g_pool = malloc(4);
    for (int i = 0; i < 4; i++) g_read[i] = in_int(0, 1);
    char *r = locate_config_in_dir(g_name);
    COVER("indir");
    CHECK(r == (g_read[0] ? g_pool : g_read[1] ? g_pool + 1 : g_read[2] ? g_pool + 2 : g_read[3] ? g_pool + 3 : NULL), "the first readable of .boxes, box-designs, boxes-config, boxes");
#endif
#ifdef V_fileordir
    g_f = in_int(0, 1); g_d = in_int(0, 1); g_i = in_int(0, 1);
    g_found = malloc(1);
    char *r = locate_config_file_or_dir(g_name, "");
    COVER("fileordir");
    CHECK(r == (g_f || (g_d && g_i) ? g_found : NULL), "the file itself, or the one found in the directory, or none");
#endif
#ifdef V_common
    int hasf = in_int(0, 1), hasb = in_int(0, 1);
    char *f = in_str(in_size(0, 100));
    opt.f = hasf ? f : NULL;
    g_env = hasb ? g_name : NULL;
    char *env = g_name;
    g_ok = in_int(0, 1);
    g_found = malloc(1);
    int err = 0;
    g_name = NULL;
    char *r = locate_config_common(&err);
    COVER("common");
    CHECK(g_asked == (hasf || hasb), "a place is looked at if one is given");
    CHECK(IMPLIES(hasf, g_name == f), "the command line goes first");
    CHECK(IMPLIES(!hasf && hasb, g_name == env), "then the BOXES variable");
    CHECK(r == ((hasf || hasb) && g_ok ? g_found : NULL), "what was found there");
    CHECK(err == ((hasf || hasb) && !g_ok), "not finding it where it was given is an error");
#endif
#ifdef V_fromenv
    g_env = in_int(0, 1) ? in_str(in_size(0, 100)) : NULL;
    char *p = in_str(in_size(0, 100));
    g_cat = malloc(1);
    char *r = from_env_var(g_name, p);
    COVER("fromenv");
    CHECK(r == (g_env ? g_cat : NULL), "nothing if the variable is not set");
    CHECK(IMPLIES(g_env != NULL, g_cn == 2 && g_c1 == g_env && g_c2 == p), "the value of the variable followed by the given text");
#endif
#if defined(V_order) || defined(V_global)
    g_dirs = malloc(3); g_inpool = malloc(6); g_cmn = malloc(1);
    g_bxs = malloc(8 * sizeof(bxstr_t));
    g_common = in_int(0, 2); g_gl = in_int(0, 1);
    for (int i = 0; i < 3; i++) g_set[i] = in_int(0, 1);
    for (int i = 0; i < 6; i++) { g_dok[i] = in_int(0, 1); g_iok[i] = in_int(0, 1); }
    #ifdef V_global
    int gonly = 1;
    bxstr_t *r = discover_config_file(1);
    COVER("global");
#else
    int gonly = 0;
    bxstr_t *r = discover_config_file(0);
    COVER("order");
#endif
    bxstr_t *glob = g_gl ? g_bxs + 6 : g_dok[3] && g_iok[3] ? g_bxs + 3 : g_dok[4] && g_iok[4] ? g_bxs + 4 : g_dok[5] && g_iok[5] ? g_bxs + 5 : NULL;
    bxstr_t *user = g_set[0] && g_dok[0] && g_iok[0] ? g_bxs : g_set[1] && g_dok[1] && g_iok[1] ? g_bxs + 1 : g_set[2] && g_dok[2] && g_iok[2] ? g_bxs + 2 : NULL;
    bxstr_t *want = gonly ? glob : g_common == 1 ? g_bxs + 7 : g_common == 2 ? NULL : user ? user : glob;
    CHECK(r == want, "the first existing candidate in the documented order; none if the one given explicitly is missing");
#endif
}
