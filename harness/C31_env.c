/* C31: environment objects and the process's environment, against maps. */
#include "vh.h"
#include <libcork/core.h>
#include <libcork/os.h>

extern char **environ;
#define NE 4
#define NN 24
/* slot 0 is the process's own environment (NULL) */
static struct cork_env *env[NE]; static char *val[NE][NN]; static char *names[NN];

static char *text(struct vh_rng *r, bool name)
{
    size_t n = name ? (vh_chance(r, 1, 12) ? 300 + vh_below(r, 3000) : 1 + vh_below(r, 12)) : vh_chance(r, 1, 6) ? 0 : vh_chance(r, 1, 40) ? vh_below(r, 100000) : vh_size(r, 200);
    char *s = malloc(n + 1); int st = vh_below(r, 3);
    for (size_t i = 0; i < n; i++) { char c = st == 0 ? 'A' + vh_below(r, 3) : st == 1 ? "aA_0"[vh_below(r, 4)] : 1 + vh_below(r, 255); if (name && c == '=') c = '-'; s[i] = c; }
    s[n] = 0; return s;
}
static char *copyz(const char *s) { char *c = malloc(strlen(s) + 1); return strcpy(c, s); }
static void junk(char *s) { memset(s, 'J', strlen(s)); free(s); }
static void check_one(int e, int k, const char *what)
{
    char *n = copyz(names[k]); const char *g = cork_env_get(env[e], n);
    if (!val[e][k]) VH_CHECK(g == NULL, "present", "%s: \"%.60s\" is \"%.60s\" in environment %d, expected to be absent", what, names[k], g, e);
    else { VH_CHECK(g != NULL, "absent", "%s: \"%.60s\" is not in environment %d", what, names[k], e); VH_CHECK(!strcmp(g, val[e][k]), "value", "%s: \"%.60s\" is \"%.60s\" in environment %d, expected \"%.60s\"", what, names[k], g, e, val[e][k]); }
    junk(n); vh_evals(1);
}
static void check_all(const char *what)
{
    for (int e = 0; e < NE; e++) if (e == 0 || env[e]) for (int k = 0; k < NN; k++) check_one(e, k, what);
    /* the process: exactly these */
    int n = 0, m = 0; for (char **c = environ; c && *c; c++) n++;
    for (int k = 0; k < NN; k++) if (val[0][k]) { m++; const char *g = getenv(names[k]); VH_CHECK(g && !strcmp(g, val[0][k]), "process", "%s: the process's \"%.60s\" is \"%.60s\", expected \"%.60s\"", what, names[k], g ? g : "(unset)", val[0][k]); }
    VH_CHECK(n == m, "process", "%s: the process has %d variables, expected %d", what, n, m);
    VH_CHECK(!cork_error_occurred(), "error", "%s set an error", what);
}
static void set_val(int e, int k, const char *v) { free(val[e][k]); val[e][k] = v ? copyz(v) : NULL; }
static void drop(int e) { for (int k = 0; k < NN; k++) set_val(e, k, NULL); }
static void vadd(struct cork_env *e, const char *name, const char *f, ...) { va_list a; va_start(a, f); cork_env_add_vprintf(e, name, f, a); va_end(a); }

void vh_setup(void) { vh_alloc_install(); VH_WARM_ERRORS(); }
void vh_case(struct vh_rng *r, uint64_t index)
{
    uint64_t serial = vh_alloc_serial(); clearenv();
    for (int k = 0; k < NN; k++) for (bool again = true; again;) { names[k] = text(r, true); again = false; for (int i = 0; i < k; i++) if (!strcmp(names[i], names[k])) again = true; if (again) free(names[k]); }
    int ops = 1 + vh_below(r, 120), kinds = 0;
    for (int o = 0; o < ops; o++) {
        int e = vh_below(r, NE), k = vh_below(r, vh_chance(r, 1, 2) ? 4 : NN); const char *what = "?"; int op = vh_below(r, 16);
        if (e && !env[e]) {
            if (vh_chance(r, 1, 3)) { env[e] = cork_env_clone_current(); for (int i = 0; i < NN; i++) set_val(e, i, val[0][i]); what = "clone"; vh_count("environments cloned", 1); }
            else { env[e] = cork_env_new(); what = "new"; vh_count("environments created", 1); }
        } else switch (op) {
        case 0: case 1: case 2: case 3: { char *n = copyz(names[k]), *v = text(r, false); cork_env_add(env[e], n, v); vh_count(val[e][k] ? "overwrites" : "adds", 1); set_val(e, k, v); junk(n); junk(v); what = "add"; break; }
        case 4: case 5: { char *n = copyz(names[k]), *v = text(r, false); int x = vh_below(r, 1000); char *w; if (asprintf(&w, "%s:%d%%%s", v, x, v) < 0) vh_broken("asprintf");
            if (vh_chance(r, 1, 10)) { free(w); w = copyz(""); if (op == 4) cork_env_add_printf(env[e], n, "%s", ""); else vadd(env[e], n, "%s", ""); }
            else if (op == 4) cork_env_add_printf(env[e], n, "%s:%d%%%s", v, x, v); else vadd(env[e], n, "%s:%d%%%s", v, x, v);
            set_val(e, k, w); junk(n); junk(v); junk(w); what = "formatted add"; vh_count("formatted adds", 1); break; }
        case 6: { const char *v = cork_env_get(env[e], names[k]); if (!v) continue; int k2 = vh_chance(r, 1, 2) ? k : (int) vh_below(r, NN); char *copy = copyz(v); cork_env_add(env[e], names[k2], v); set_val(e, k2, copy); free(copy); what = "add of a looked-up value"; vh_count("adds of the environment's own value", 1); break; }
        case 7: { const char *v = cork_env_get(env[e], names[k]); if (!v) continue; char *w; if (asprintf(&w, "%s+", v) < 0) vh_broken("asprintf"); cork_env_add_printf(env[e], names[k], "%s+", v); set_val(e, k, w); free(w); what = "formatted add of a looked-up value"; vh_count("adds of the environment's own value", 1); break; }
        case 8: case 9: case 10: { char *n = copyz(names[k]); vh_count(val[e][k] ? "removals" : "removals of absent names", 1); cork_env_remove(env[e], n); junk(n); set_val(e, k, NULL); what = "remove"; break; }
        case 11: { int b = vh_below(r, NE); const char *v = env[b] || b == 0 ? cork_env_get(env[b], names[k]) : NULL; if (!v || b == e) continue; cork_env_add(env[e], names[k], v); set_val(e, k, val[b][k]); what = "copy between environments"; break; }
        case 12: if (!e) continue; cork_env_free(env[e]); env[e] = NULL; drop(e); what = "free"; break;
        case 13: if (!e) { if (vh_chance(r, 1, 2)) { char *v = text(r, false); setenv(names[k], v, 1); set_val(0, k, v); free(v); } else { unsetenv(names[k]); set_val(0, k, NULL); } what = "outside change"; break; }
            cork_env_replace_current(env[e]); for (int i = 0; i < NN; i++) set_val(0, i, val[e][i]); what = "replace"; vh_count("replacements", 1); break;
        case 14: { if (!e) continue; /* many other names, so that the map grows and shrinks */ int n = vh_below(r, 150); char b[40]; for (int i = 0; i < n; i++) { sprintf(b, "extra=%d", i); cork_env_add_printf(env[e], b, "%d", i * 7); } for (int i = 0; i < n; i++) { char w[20]; sprintf(b, "extra=%d", i); sprintf(w, "%d", i * 7); const char *g = cork_env_get(env[e], b); VH_CHECK(g && !strcmp(g, w), "value", "variable %d of %d is \"%.40s\"", i, n, g ? g : "(absent)"); cork_env_remove(env[e], b); VH_CHECK(!cork_env_get(env[e], b), "present", "a removed variable is still there"); } what = "many"; break; }
        case 15: if (index % 4 == 0 && e == 0) { /* a process environment without any variable, or built by hand */ static char *none[] = { NULL }; static char bad[] = "noequals"; static char *odd[] = { bad, NULL }; environ = vh_chance(r, 1, 2) ? none : odd; drop(0); struct cork_env *c = cork_env_clone_current(); for (int i = 0; i < NN; i++) VH_CHECK(!cork_env_get(c, names[i]), "present", "a clone of nothing holds \"%.60s\"", names[i]); cork_env_free(c); environ = none; clearenv(); what = "empty"; vh_count("clones of empty environments", 1); } else continue; break;
        }
        vh_trace("%s %d \"%.40s\"", what, e, names[k]); kinds |= 1 << op; vh_sig(op * NE + e); vh_sig(k);
        check_all(what);
    }
    for (int e = 1; e < NE; e++) if (env[e]) { cork_env_free(env[e]); env[e] = NULL; }
    vh_alloc_expect_balanced(serial, "leak");
    for (int e = 0; e < NE; e++) drop(e);
    for (int k = 0; k < NN; k++) free(names[k]);
    if (ops > 4) vh_nontrivial();
    if (vh_want_sample()) vh_sample("%d operations of %d kinds", ops, __builtin_popcount(kinds));
}
