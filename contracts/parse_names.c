//@title design names and aliases: lookup, uniqueness, which designs are needed, what is added
//@variants has_alias has_name name_exists alias_child full needed add_alias add_design
//@src parsecode.c
//@link shape.c
//@prop C10
//@funcs.has_alias design_has_alias
//@funcs.has_name design_has_name
//@funcs.name_exists design_name_exists
//@funcs.alias_child alias_exists_in_child_configs
//@funcs.full full_parse_required
//@funcs.needed design_needed
//@funcs.add_alias action_add_alias
//@funcs.add_design action_add_design
//@loops.has_alias design_has_alias:0
//@loops.name_exists design_name_exists:0
//@loops.alias_child alias_exists_in_child_configs:0
//@replace.has_name design_has_alias=has_alias_c
//@replace.name_exists design_has_name=has_name_c
//@replace.alias_child design_has_alias=has_alias_i
//@replace.needed full_parse_required=full_c design_has_name=has_name_n
//@replace.add_alias design_name_exists=exists_c alias_exists_in_child_configs=child_c array_count0=count_c strdup=strdup_c
//@replace.add_design design_name_exists=exists_c full_parse_required=full_c init_design=init_c
//@assume strcasecmp tells equality ignoring case (an arbitrary relation in the proofs)
//@noeffect yyerror log_debug log_debug_cont is_debug_logging bx_fprintf perror
#ifndef GVC
#define yyerror yyerror_n
#endif
#include "common.h"
#include "texts.h"
#include "boxes.h"
#include "shape.h"
#include "parsecode.h"
#include <strings.h>
static char *g_txt, *g_name, *g_dn;     /* all names: the texts g_txt + k */
static size_t g_n, g_w, g_cnt;
static design_t *g_des;
#ifdef GVC
static unsigned char *g_same;           /* g_same[k]: text k equals the name asked for, ignoring case */
#define SAMEK(k) (g_same[k] != 0)
#define TXT(k) (g_txt + (k))
int strcasecmp(const char *a, const char *b)
{
    CHECK((a == g_name) != (b == g_name), "compared with the name asked for");
    const char *o = a == g_name ? b : a;
    CHECK(__CPROVER_POINTER_OBJECT(o) == __CPROVER_POINTER_OBJECT(g_txt), "a name of the design");
    size_t k = (size_t) (o - g_txt);
    int r = nondet_int();
    ASSUME((r == 0) == SAMEK(k));
    if (r == 0) g_w = k;
    return r;
}
static int g_r1, g_r2, g_r3;
int has_alias_c(design_t *design, char *alias) { CHECK(design == g_des && alias == g_name, "of this design"); return g_r1; }
int has_name_c(design_t *design, char *name)
{
    CHECK(name == g_name, "the name asked for");
    size_t k = (size_t) (design - g_des);
    int r = SAMEK(k) ? 1 : 0;
    if (r) g_w = k;
    return r;
}
int has_alias_i(design_t *design, char *name) { return has_name_c(design, name); }
int has_name_n(design_t *design, char *name)
{
    CHECK(design == g_des && name == g_name, "the current design is compared with the design asked for");
    return g_r2;
}
int full_c(void) { return g_r1; }
int exists_c(pass_to_bison *b, char *name) { CHECK(name == g_name, "the name to be added"); return g_r2; }
int child_c(pass_to_bison *b, char *name) { CHECK(name == g_name, "the name to be added"); return g_r3; }
size_t count_c(char **a) { CHECK(a == g_des->aliases, "the aliases of this design"); return g_n; }
char *strdup_c(const char *s) { CHECK(s == g_name, "the name is kept"); return g_dn; }
static design_t *g_ini;
void init_c(pass_to_bison *b, design_t *d) { g_ini = d; g_cnt++; }
#else
#define SAMEK(k) (strcasecmp(g_nm[k], g_name) == 0)
static char *g_nm[16];
int yyerror_n(pass_to_bison *b, const char *fmt, ...) { return 0; }
static char *rndname(void)
{
    static char *w[] = {"a", "A", "box", "Box", "boxx", "b", "my-box", "My-Box", "c1", "C1", "z"};
    return strdup(w[in_int(0, 10)]);
}
#endif
#define LOOP_design_has_alias_0 vc_inv(0, aidx <= g_n && result == 0 && ALL(k_, 0, aidx, !SAMEK(k_)))
#define BODY_design_has_alias_0 ASSUME(design->aliases[aidx] == TXT(aidx))
#define LOOP_design_name_exists_0 vc_inv(0, i >= 0 && (size_t) i <= g_n && result == 0 && ALL(k_, 0, (size_t) i, !SAMEK(k_)))
#define LOOP_alias_exists_in_child_configs_0 vc_inv(0, i <= g_n && result == 0 && ALL(k_, 0, i, !SAMEK(k_)))
#include VC_SRC
#ifdef GVC
opt_t opt; input_t input; int num_designs; design_t *designs; int color_output_enabled;
#endif

void harness(void)
{
    pass_to_bison ba;
    design_t *d;
#ifdef GVC
    vc_havoc_obj(&ba); vc_havoc_obj(&opt);
    size_t n = in_size(0, 1UL << 20);
    g_same = malloc(n + 1); g_txt = malloc(n + 1); g_name = malloc(1);
#else
    memset(&ba, 0, sizeof(ba));
    size_t n = in_size(0, 5);
    g_name = rndname();
    for (size_t k = 0; k <= n; k++) g_nm[k] = rndname();
#endif
    g_n = n;
#if defined(V_has_alias)
    d = malloc(sizeof(design_t));
    char **al = malloc((n + 1) * sizeof(char *));
    d->aliases = al;
#ifdef GVC
    ASSUME(ALL(k_, 0, n, al[k_] != NULL));
#else
    for (size_t k = 0; k < n; k++) al[k] = g_nm[k];
#endif
    al[n] = NULL;
    int r = design_has_alias(d, g_name);
    COVER("has_alias");
    if (r == 0) CHECK(ALL(k_, 0, n, !SAMEK(k_)), "no alias is missed");
#ifdef GVC
    else CHECK(g_w < n && SAMEK(g_w), "only a real alias is found");
#else
    else CHECK(!ALL(k_, 0, n, !SAMEK(k_)), "only a real alias is found");
#endif
#elif defined(V_has_name)
    d = malloc(sizeof(design_t));
    g_des = d;
#ifdef GVC
    d->name = TXT(0);
    g_r1 = in_int(0, 1);
#else
    char *al[3] = {g_nm[1], in_int(0, 1) ? g_nm[2] : NULL, NULL};
    if (n < 2) al[0] = NULL;
    d->name = g_nm[0]; d->aliases = al;
    int g_r1 = design_has_alias(d, g_name);
#endif
    int r = design_has_name(d, g_name);
    COVER("has_name");
    CHECK((r != 0) == (SAMEK(0) || g_r1 != 0), "the name or one of the aliases");
#elif defined(V_name_exists) || defined(V_alias_child)
    d = malloc((n + 1) * sizeof(design_t));
    g_des = d;
#ifndef GVC
    static char *none[1];
    for (size_t k = 0; k <= n; k++) {
        char **al = calloc(2, sizeof(char *)); al[0] = g_nm[k];
        d[k].name = "xyz"; d[k].aliases = al;
#ifdef V_name_exists
        if (in_int(0, 1)) { d[k].name = g_nm[k]; d[k].aliases = none; }
#endif
    }
#endif
#ifdef V_name_exists
    ba.designs = d; ba.design_idx = (int) n;
    int r = design_name_exists(&ba, g_name);
    COVER("name_exists");
#else
    ba.child_configs = d; ba.num_child_configs = n;
    int r = alias_exists_in_child_configs(&ba, g_name);
    COVER("alias_child");
#endif
    if (r == 0) CHECK(ALL(k_, 0, n, !SAMEK(k_)), "no design is missed");
#ifdef GVC
    else CHECK(g_w < n && SAMEK(g_w), "only a design that has it");
#else
    else CHECK(!ALL(k_, 0, n, !SAMEK(k_)), "only a design that has it");
#endif
#elif defined(V_full)
    static char *qq[1];
    opt.design_choice_by_user = in_int(0, 1); opt.r = in_int(0, 1); opt.l = in_int(0, 1); opt.qundoc = in_int(0, 1);
    opt.query = in_int(0, 1) ? qq : NULL;
    int r = full_parse_required();
    COVER("full");
    CHECK((r != 0) == (!opt.design_choice_by_user && (opt.r || opt.l || (opt.query && !opt.qundoc))), "all designs are needed exactly to detect, list or query");
#elif defined(V_needed)
    size_t idx = in_size(0, 3);
    d = malloc(4 * sizeof(design_t));
    g_des = d + idx;
    ba.designs = d; ba.design_idx = (int) idx;
    opt.design_choice_by_user = in_int(0, 1);
#ifdef GVC
    g_r1 = in_int(0, 1); g_r2 = in_int(0, 1);
    opt.design = (design_t *) g_name;
#else
    static char *none[1];
    g_des->name = g_nm[0]; g_des->aliases = none; opt.design = (design_t *) g_name;
    opt.r = in_int(0, 1); opt.l = in_int(0, 1); opt.query = NULL;
    int g_r1 = full_parse_required(), g_r2 = design_has_name(g_des, g_name);
#endif
    int r = design_needed(&ba);
    COVER("needed");
    CHECK((r != 0) == (opt.design_choice_by_user ? g_r2 != 0 : (g_r1 != 0 || idx == 0)), "the design asked for, else all or the first");
    opt.design = NULL;
#elif defined(V_add_alias)
    size_t idx = in_size(0, 3);
    d = malloc(4 * sizeof(design_t));
    g_des = d + idx;
    ba.designs = d; ba.design_idx = (int) idx;
    char **al = malloc((n + 1) * sizeof(char *));
    size_t j = in_size(0, 1UL << 20);
#ifdef GVC
    g_r2 = in_int(0, 1); g_r3 = in_int(0, 1); g_dn = malloc(1);
#else
    j %= 6;
    static char *none[1];
    for (size_t k = 0; k < n; k++) al[k] = g_nm[k];
    char *cal[2] = {in_int(0, 1) ? rndname() : NULL, NULL};
    for (size_t k = 0; k < idx; k++) { d[k].name = rndname(); d[k].aliases = none; }
    design_t *ch = malloc(sizeof(design_t));
    ch->name = rndname(); ch->aliases = cal;
    ba.child_configs = ch; ba.num_child_configs = 1;
    int g_r2 = design_name_exists(&ba, g_name), g_r3 = alias_exists_in_child_configs(&ba, g_name);
#endif
    al[n] = NULL;
    g_des->aliases = al;
    ASSUME(j < n);
    char *aj = al[j];
    int r = action_add_alias(&ba, g_name);
    COVER("add_alias");
    CHECK((r == RC_ERROR) == (g_r2 != 0), "an alias in use in the same file is an error");
    CHECK(g_des->aliases[j] == aj, "the aliases so far are kept");
    if (r == RC_SUCCESS && !g_r3) {
#ifdef GVC
        CHECK(g_des->aliases[n] == g_dn && g_des->aliases[n + 1] == NULL, "the alias is added at the end");
#else
        CHECK(strcmp(g_des->aliases[n], g_name) == 0 && g_des->aliases[n + 1] == NULL, "the alias is added at the end");
#endif
    }
    else CHECK(g_des->aliases[n] == NULL, "an alias that another design has is not added");
#elif defined(V_add_design)
    size_t idx = in_size(0, 3);
    d = malloc((idx + 1) * sizeof(design_t));
    ba.designs = d; ba.design_idx = (int) idx;
    ba.num_mandatory = in_int(0, 4); ba.num_designs = in_int(0, 9); ba.num_shapespec = in_int(0, 9); ba.time_for_se_check = in_int(0, 3);
    int mand = ba.num_mandatory;
    static bxstr_t sample;
    int nosample = in_int(0, 3) == 0;
#ifdef GVC
    g_r1 = in_int(0, 1); g_r2 = in_int(0, 1); g_cnt = 0;
    char *endname = g_txt;
#else
    static char *none[1];
    for (size_t k = 0; k < idx + 1; k++) { memset(d + k, 0, sizeof(*d)); d[k].name = rndname(); d[k].aliases = none; }
    opt.design_choice_by_user = in_int(0, 1); opt.l = in_int(0, 1); opt.r = 0; opt.query = NULL;
    char *endname = in_int(0, 2) ? g_name : rndname();
    g_nm[0] = endname;
    int g_r1 = full_parse_required(), g_r2 = design_name_exists(&ba, g_name);
#endif
    d[idx].sample = nosample ? NULL : &sample;
    int r = action_add_design(&ba, g_name, endname);
    COVER("add_design");
    int bad = !SAMEK(0) || mand < 3 || nosample || g_r2 != 0;
    CHECK((r == RC_ERROR) == bad, "refused exactly for a wrong end, missing entries or a name in use");
    if (bad) CHECK(ba.design_idx == (int) idx && ba.designs == d && ba.num_mandatory == mand, "nothing is added then");
    else if (r == RC_ACCEPT) CHECK(g_r1 == 0 && ba.num_designs == (int) idx + 1 && ba.design_idx == (int) idx, "parsing ends with the design needed");
    else if (r == RC_SUCCESS) {
        CHECK(g_r1 != 0 && ba.design_idx == (int) idx + 1, "the design is kept, the next one follows it");
        CHECK(ba.num_mandatory == 0 && ba.time_for_se_check == 0 && ba.num_shapespec == 0, "and starts from nothing");
#ifdef GVC
        CHECK(g_cnt == 1 && g_ini == ba.designs + idx + 1 && vc_objsize(ba.designs) == (idx + 2) * sizeof(design_t), "in memory of its own");
#endif
    }
#endif
}
