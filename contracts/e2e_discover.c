//@title finding the configuration file, whole program (bounded)
//@src -
//@mode bounded
//@prop C12
//@funcs main discover_config_file locate_config_common locate_config_file_or_dir locate_config_in_dir can_read_file can_read_dir combine from_env_var
//@native 100000
//@secs 8
//@bound five places (option, BOXES, HOME, XDG_CONFIG_HOME/boxes, HOME/.config/boxes), each with any of the documented and some other file names, present or not, file or directory; system-wide places are as they are on this machine
#include "e2e.h"
#include <dirent.h>
static const char *NM[] = {".boxes", "box-designs", "boxes-config", "boxes", "boxes.cfg", "config", ".boxesrc", "box-designs.cfg", "Boxes"};
static void clear(const char *d)
{
    char p[600];
    for (int i = 0; i < 9; i++) { snprintf(p, 600, "%s/%s", d, NM[i]); if (strcmp(NM[i], "boxes") != 0 || !strstr(d, "/cfg0")) { unlink(p); rmdir(p); } }
}
static void fill(const char *d, char base, int *have)      /* have[i]: file i is readable */
{
    char p[600], c[300];
    for (int i = 0; i < 9; i++) {
        int k = in_int(0, i < 4 ? 5 : 7);
        if (i < 4) have[i] = 0;
        snprintf(p, 600, "%s/%s", d, NM[i]);
        if (k == 0) { if (mkdir(p, 0755) && errno != EEXIST) _exit(9); }
        else if (k == 1 || k == 2) {
            snprintf(c, 300, "BOX d\nsample\n  s\nends\nshapes { w (\"%c%d\") }\nelastic (w, n, e, s)\nEND d\n", base, i);
            put_file(p, c, strlen(c));
            if (i < 4) have[i] = 1;
        }
    }
}
void harness(void)
{
    static char dir[5][400], up[400], where[2][600], want[40], envb[700];
    char *args[8];
    int have[5][4], na = 0;
    const char *sc = scratch();
    snprintf(up, 400, "%s/home/.config", sc);
    snprintf(dir[0], 400, "%s/F", sc); snprintf(dir[1], 400, "%s/B", sc); snprintf(dir[2], 400, "%s/home", sc);
    snprintf(dir[3], 400, "%s/xdg/boxes", sc); snprintf(dir[4], 400, "%s/home/.config/boxes", sc);
    char t[400];
    snprintf(t, 400, "%s/xdg", sc);
    mkdir(t, 0755); mkdir(dir[2], 0755); mkdir(up, 0755);
    for (int i = 0; i < 5; i++) { mkdir(dir[i], 0755); clear(dir[i]); }
    int exists[5];
    for (int i = 0; i < 5; i++) {
        exists[i] = in_int(0, 5) > 0;
        if (!exists[i] && i != 2) { rmdir(dir[i]); for (int k = 0; k < 4; k++) have[i][k] = 0; }
        else fill(dir[i], (char) ('A' + i), have[i]);
    }
    int given[2];
    want[0] = 0;
    int hit = -1, name = -1, decided = 0;
    for (int i = 0; i < 2; i++) {
        given[i] = in_int(0, 2) == 0;
        where[i][0] = 0;
        if (!given[i]) continue;
        int k = in_int(0, 6), w = -1;
        if (k <= 3) {                       /* a file of any name, perhaps missing, perhaps a directory */
            int q = in_int(0, 8);
            snprintf(where[i], 600, "%s/%s", dir[i], NM[q]);
            struct stat s;
            if (stat(where[i], &s) == 0 && S_ISREG(s.st_mode)) w = q;
        } else {
            snprintf(where[i], 600, k == 4 ? "%s/" : "%s", dir[i]);
            for (int q = 3; q >= 0; q--) if (have[i][q]) w = q;
        }
        if (!decided) { decided = 1; hit = w >= 0 ? i : -1; name = w; }
    }
    if (in_int(0, 20) == 0 && given[1]) { where[1][0] = 0; if (!given[0]) hit = -1; }
    int home = in_int(0, 9) > 0, xdg = in_int(0, 3) > 0;
    e2e_nenv = 0;
    e2e_env[e2e_nenv][0] = "HOME"; e2e_env[e2e_nenv++][1] = home ? dir[2] : NULL;
    if (xdg) { e2e_env[e2e_nenv][0] = "XDG_CONFIG_HOME"; e2e_env[e2e_nenv++][1] = t; }
    snprintf(envb, sizeof envb, "%s", where[1]);
    if (given[1]) { e2e_env[e2e_nenv][0] = "BOXES"; e2e_env[e2e_nenv++][1] = envb; }
    if (!decided) for (int i = 4; i >= 2; i--) for (int q = 3; q >= 0; q--) if (have[i][q] && (i == 3 ? xdg : home)) { hit = i; name = q; }
    if (given[0]) { args[na++] = "-f"; args[na++] = where[0]; }
    args[na] = NULL;
    run_t r = run_boxes(args, "x\n", 2);
    if (hit >= 0) snprintf(want, 40, "%c%dx\n", 'A' + hit, name);
    int bad;
    if (hit >= 0) bad = r.rc != 0 || strcmp(r.out.s, want);
    else if (decided) bad = r.rc == 0 || r.rc > 100 || r.out.n || !strstr(r.err.s, "Couldn't find config file");
    else {                                   /* a system-wide file, or none: none of ours */
        bad = r.rc > 100 || (r.out.n == 4 && r.out.s[0] >= 'A' && r.out.s[0] <= 'E' && r.out.s[2] == 'x');
    }
    if (bad) {
        fprintf(stderr, "-f %s BOXES=%s HOME=%s XDG_CONFIG_HOME=%s\n", given[0] ? where[0] : "not given", given[1] ? envb : "not set", home ? dir[2] : "not set", xdg ? t : "not set");
        for (int i = 0; i < 5; i++) { fprintf(stderr, "%s:", dir[i]); for (int q = 0; q < 4; q++) if (have[i][q]) fprintf(stderr, " %s", NM[q]); fprintf(stderr, "\n"); }
        fprintf(stderr, "expected: %s\n", hit >= 0 ? want : decided ? "an error" : "none of these");
        show_run(NULL, args, "x\n", 2, &r);
    }
    CHECK(!bad, "the first configuration file in the documented order is used, a missing one that was asked for is an error");
    run_free(&r);
    e2e_nenv = 0;
}
