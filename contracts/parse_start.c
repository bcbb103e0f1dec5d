//@title the start of a design and the way out of a wrong one: nothing of a design that was given up stays behind
//@variants begin start recover
//@src parsecode.c
//@link unicode.c shape.c
//@prop C09 C10
//@funcs.begin action_init_parser init_design
//@funcs.start action_start_parsing_design
//@funcs.recover recover init_design
//@replace calloc=calloc_c free=free_c strdup=sdup_c design_needed=needed_c
//@assume the rule whether a design is needed by its contract (unit parse_names); memory allocation succeeds
//@noeffect yyerror log_debug log_debug_cont bx_fprintf perror is_debug_logging
//@nonative faulty designs among good ones run in the whole-program unit e2e_design
#include "common.h"
#include "boxes.h"
#include "parsecode.h"
#ifdef GVC
static design_t *g_d;
static char *g_name, *g_dn, *g_l[2];
static int g_nl, g_need, g_all, g_rd;
void *calloc_c(size_t n, size_t sz)
{
    CHECK(n == 1, "one entry");
    if (sz == sizeof(design_t)) { CHECK(!g_all, "once"); g_all = 1; return g_d; }
    CHECK(sz == sizeof(char *) && g_nl < 2, "the end of a list of names");
    g_l[g_nl] = NULL;
    return &g_l[g_nl++];
}
void free_c(void *p) {}
char *sdup_c(const char *s) { CHECK(s == g_name, "the name written"); return g_dn; }
int needed_c(pass_to_bison *b) { CHECK(b->designs[b->design_idx].name == g_dn, "asked about the design by its name"); g_rd++; return g_need; }
#endif
#include VC_SRC
#ifdef GVC
opt_t opt; design_t *designs; int num_designs; input_t input;
#define EMPTY(d) CHECK((d)->name == NULL && (d)->author == NULL && (d)->designer == NULL && (d)->sample == NULL && (d)->minwidth == 0 && (d)->minheight == 0 && (d)->maxshapeheight == 0, "nothing is known of the new design"); \
    CHECK((d)->padding[BTOP] == 0 && (d)->padding[BRIG] == 0 && (d)->padding[BBOT] == 0 && (d)->padding[BLEF] == 0, "it has no padding yet"); \
    CHECK((d)->num_reprules == 0 && (d)->num_revrules == 0 && (d)->reprules == NULL && (d)->revrules == NULL && (d)->current_rule == NULL, "it has no rules yet"); \
    for (int i = 0; i < NUM_SHAPES; i++) CHECK((d)->shape[i].chars == NULL && (d)->shape[i].mbcs == NULL && (d)->shape[i].height == 0 && (d)->shape[i].width == 0 && !(d)->shape[i].elastic, "it has no shapes yet"); \
    CHECK((d)->indentmode == DEF_INDENTMODE && (d)->defined_in == cf, "defaults, and the file it is from"); \
    CHECK((d)->aliases != (d)->tags && (d)->aliases[0] == NULL && (d)->tags[0] == NULL, "it has no aliases and no tags yet")
#endif
void harness(void)
{
#ifdef GVC
    pass_to_bison b;
    bxstr_t *cf = malloc(sizeof(bxstr_t));
    g_name = malloc(1); g_dn = malloc(1);
    g_d = malloc(2 * sizeof(design_t));
    b.config_file = cf;
#if defined(V_begin)
    b.design_idx = 0;
    int rc = action_init_parser(&b);
    COVER("begin");
    CHECK(rc == RC_SUCCESS && b.designs == g_d && b.num_designs == 1, "one design to begin with");
    EMPTY(g_d);
#elif defined(V_start)
    int k = in_int(0, 1);
    b.designs = g_d; b.design_idx = k; b.num_designs = 2;
    g_need = in_int(0, 1);
    b.speeding = in_int(0, 1); b.skipping = in_int(0, 1);
    int rc = action_start_parsing_design(&b, g_name);
    COVER("start");
    CHECK(g_d[k].name == g_dn && b.design_idx == k && b.designs == g_d && b.num_designs == 2, "the design in progress gets the name");
    CHECK(g_rd == 1 && b.skipping == 0 && (b.speeding != 0) == !g_need && (rc == RC_SUCCESS) == g_need, "a design that is not needed is passed over, and only such a design");
#else
    int k = in_int(0, 1);
    b.designs = g_d; b.design_idx = k; b.num_designs = 2;
    char *on = malloc(1);
    size_t ow = in_size(0, 1000);
    g_d[1 - k].name = on; g_d[1 - k].minwidth = ow;
    b.num_mandatory = in_int(0, 9); b.num_shapespec = in_int(0, 16); b.time_for_se_check = in_int(0, 1);
    recover(&b);
    COVER("recover");
    CHECK(b.num_mandatory == 0 && b.time_for_se_check == 0 && b.num_shapespec == 0 && b.design_idx == k && b.designs == g_d && b.num_designs == 2, "counting begins anew");
    EMPTY(g_d + k);
    CHECK(g_d[1 - k].name == on && g_d[1 - k].minwidth == ow, "the designs accepted before stay");
#endif
#endif
}
