/* C28: path algebra, path lists and standard paths, against string models. */
#include "vh.h"
#include <libcork/core.h>
#include <libcork/os.h>
#include <sys/stat.h>
#include <fcntl.h>

#define NP 5
static struct cork_path *path[NP]; static struct vstr model[NP];
static void check_path(const struct cork_path *p, const struct vstr *m, const char *what)
{
    const char *g = cork_path_get(p);
    VH_CHECK(g != NULL, "null", "%s: path is NULL", what);
    VH_CHECK(strlen(g) == m->n && !memcmp(g, m->p ? (char *) m->p : "", m->n), "path", "%s gave \"%.200s\", expected \"%.*s\"", what, g, (int) (m->n > 200 ? 200 : m->n), m->p ? (char *) m->p : "");
    vh_evals(1);
}
static void copy(struct vstr *d, const struct vstr *s) { d->n = 0; vstr_add(d, s->p, s->n); }
static void m_join(struct vstr *m, const char *more)
{
    if (!more || !*more) return;
    if (*more == '/') m->n = 0; else if (m->n && m->p[m->n - 1] != '/') vstr_addc(m, '/');
    vstr_adds(m, more);
}
static void m_base(struct vstr *m) { size_t k = m->n; while (k && m->p[k - 1] != '/') k--; memmove(m->p, m->p + k, m->n - k); m->n -= k; }
static void m_dir(struct vstr *m) { size_t k = m->n; while (k && m->p[k - 1] != '/') k--; m->n = k == 1 ? 1 : k ? k - 1 : 0; }
/* a random path string in its own block; NULL now and then */
static char *word(struct vh_rng *r, bool null)
{
    struct vstr w; vstr_init(&w);
    if (null && vh_chance(r, 1, 15)) return NULL;
    size_t n = vh_chance(r, 1, 40) ? vh_below(r, 6000) : vh_chance(r, 1, 8) ? 0 : vh_size(r, 30);
    int style = vh_below(r, 4);
    for (size_t i = 0; i < n; i++) vstr_addc(&w, style == 0 ? "a/"[vh_below(r, 2)] : style == 1 ? "ab./"[vh_below(r, 4)] : vh_chance(r, 1, 6) ? '/' : style == 2 ? 'a' + vh_below(r, 26) : 1 + vh_below(r, 255));
    char *s = malloc(w.n + 1); if (w.n) memcpy(s, w.p, w.n); s[w.n] = 0; vstr_done(&w); return s;
}
static char cwd[8192]; static int homefd; static bool cwd_gone;
static void go(struct vh_rng *r)
{
    cwd_gone = false;
    switch (vh_below(r, 5)) {
    case 0: if (chdir("/")) vh_broken("chdir"); strcpy(cwd, "/"); break;
    case 1: case 2: { char d[400]; snprintf(d, sizeof d, "%s/w", vh.scratch); mkdir(d, 0755); if (chdir(d)) vh_broken("chdir");
        for (int k = vh_below(r, 12); k > 0; k--) { char n[260]; size_t l = 1 + vh_below(r, vh_chance(r, 1, 4) ? 250 : 8); for (size_t i = 0; i < l; i++) n[i] = vh_chance(r, 1, 8) ? " \n%:\xc3\xa9"[vh_below(r, 6)] : 'a' + vh_below(r, 3); n[l] = 0; if ((mkdir(n, 0755) && errno != EEXIST) || chdir(n)) vh_broken("chdir"); }
        if (!getcwd(cwd, sizeof cwd)) vh_broken("getcwd"); break; }
    case 3: if (chdir(vh.scratch)) vh_broken("chdir"); if (!getcwd(cwd, sizeof cwd)) vh_broken("getcwd"); break;
    case 4: { char d[400]; snprintf(d, sizeof d, "%s/gone", vh.scratch); if (mkdir(d, 0755) || chdir(d) || rmdir(d)) vh_broken("gone"); cwd_gone = true; break; }
    }
}
void vh_setup(void) { vh_alloc_install(); VH_WARM_ERRORS(); for (int i = 0; i < 3; i++) { cork_error_set_printf(1, "%3000s", "x"); cork_error_prefix_string("y"); } cork_error_clear(); for (int i = 0; i < NP; i++) vstr_init(&model[i]); }
static void no_error(const char *what) { VH_CHECK(!cork_error_occurred(), "error", "%s set an error", what); }
static void has_error(const char *what, unsigned long code) { VH_CHECK(cork_error_occurred(), "no-error", "%s failed without an error", what); if (code) VH_CHECK(cork_error_code() == code, "error-code", "%s set the error %lx", what, (unsigned long) cork_error_code()); cork_error_clear(); }
static void algebra(struct vh_rng *r)
{
    for (int i = 0; i < NP; i++) { char *s = word(r, true); path[i] = cork_path_new(s); model[i].n = 0; if (s) vstr_adds(&model[i], s); if (s) memset(s, 'X', strlen(s)); free(s); check_path(path[i], &model[i], "new"); }
    int ops = 1 + vh_below(r, 60); struct vstr t; vstr_init(&t);
    for (int k = 0; k < ops; k++) {
        int i = vh_below(r, NP), j = vh_below(r, NP); struct cork_path *q = NULL; char *s = NULL; const char *what; int dest = i; bool fresh = true;
        if (model[i].n > 20000) { cork_path_set(path[i], "x"); model[i].n = 0; vstr_addc(&model[i], 'x'); }
        copy(&t, &model[i]);
        int op = vh_below(r, 14);
        switch (op) {
        case 0: what = "clone"; q = cork_path_clone(path[i]); break;
        case 1: what = "set"; s = word(r, true); cork_path_set(path[i], s); t.n = 0; if (s) vstr_adds(&t, s); fresh = false; break;
        case 2: case 3: what = "append"; s = word(r, true); cork_path_append(path[i], s); m_join(&t, s); fresh = false; break;
        case 4: case 5: what = "join"; s = word(r, true); q = cork_path_join(path[i], s); m_join(&t, s); break;
        case 6: what = "append_path"; { char *c = strndup((char *) vstr_z(&model[j]), model[j].n); m_join(&t, c); free(c); } cork_path_append_path(path[i], path[j]); if (i == j) vh_count("paths appended to themselves", 1); fresh = false; break;
        case 7: what = "join_path"; { char *c = strndup((char *) vstr_z(&model[j]), model[j].n); m_join(&t, c); free(c); } q = cork_path_join_path(path[i], path[j]); break;
        case 8: what = "set_basename"; cork_path_set_basename(path[i]); m_base(&t); fresh = false; break;
        case 9: what = "basename"; q = cork_path_basename(path[i]); m_base(&t); break;
        case 10: what = "set_dirname"; cork_path_set_dirname(path[i]); m_dir(&t); fresh = false; break;
        case 11: what = "dirname"; q = cork_path_dirname(path[i]); m_dir(&t); break;
        case 12: case 13: {
            bool abs = model[i].n && model[i].p[0] == '/';
            what = op == 12 ? "absolute" : "set_absolute"; fresh = op == 12;
            if (!abs && !cwd_gone) { t.n = 0; vstr_adds(&t, cwd); if (t.p[t.n - 1] != '/') vstr_addc(&t, '/'); vstr_add(&t, model[i].p, model[i].n); }
            int rc = 0; if (op == 12) q = cork_path_absolute(path[i]); else rc = cork_path_set_absolute(path[i]);
            if (cwd_gone && !abs) { VH_CHECK(op == 12 ? q == NULL : rc == -1, "cwd-gone", "%s succeeded in a directory that does not exist", what); has_error(what, ENOENT); copy(&t, &model[i]); fresh = false; vh_count("missing current directory", 1); }
            else { VH_CHECK(op == 12 ? q != NULL : rc == 0, "absolute", "%s failed", what); vh_count(abs ? "absolute paths" : "relative paths", 1); }
            break; }
        default: what = ""; break;
        }
        vh_trace("%s %d %d \"%.60s\"", what, i, j, s ? s : "(null)");
        no_error(what);
        if (s) { memset(s, 'Y', strlen(s)); free(s); }
        if (fresh) { check_path(q, &t, what); check_path(path[i], &model[i], "the operand"); VH_CHECK(q != path[i], "alias", "%s returned its operand", what); dest = j; cork_path_free(path[j]); path[j] = q; }
        copy(&model[dest], &t);
        for (int x = 0; x < NP; x++) check_path(path[x], &model[x], what);
        vh_sig(op * 8 + i); vh_count("path operations", 1);
    }
    for (int i = 0; i < NP; i++) cork_path_free(path[i]);
    if (!cwd_gone) { struct cork_path *p = cork_path_cwd(); VH_CHECK(p && !strcmp(cork_path_get(p), cwd), "cwd", "cwd is \"%s\", expected \"%s\"", p ? cork_path_get(p) : "(null)", cwd); cork_path_set(p, "zz"); VH_CHECK(cork_path_set_cwd(p) == 0 && !strcmp(cork_path_get(p), cwd), "cwd", "set_cwd gave \"%s\"", cork_path_get(p)); cork_path_append(p, "q"); VH_CHECK(strlen(cork_path_get(p)) == strlen(cwd) + 1 + (strcmp(cwd, "/") != 0), "cwd", "appending to the current directory gave \"%s\"", cork_path_get(p)); cork_path_free(p); no_error("cwd"); }
    else { VH_CHECK(cork_path_cwd() == NULL, "cwd-gone", "cwd of a missing directory"); has_error("cwd", ENOENT); struct cork_path *p = cork_path_new("a"); VH_CHECK(cork_path_set_cwd(p) == -1, "cwd-gone", "set_cwd in a missing directory"); has_error("set_cwd", ENOENT); cork_path_set(p, "b"); VH_CHECK(!strcmp(cork_path_get(p), "b"), "cwd-gone", "path unusable after an error"); cork_path_free(p); }
    vstr_done(&t);
}
static struct vstr elems[300]; static int nel;
static void check_list(struct cork_path_list *l, const char *what)
{
    struct vstr w; vstr_init(&w);
    VH_CHECK(cork_path_list_size(l) == (size_t) nel, "list-size", "%s: %zu elements, expected %d", what, cork_path_list_size(l), nel);
    for (int i = 0; i < nel; i++) { check_path(cork_path_list_get(l, i), &elems[i], what); if (i) vstr_addc(&w, ':'); vstr_add(&w, elems[i].p, elems[i].n); }
    const char *s = cork_path_list_to_string(l); VH_CHECK(s != NULL, "list-string", "%s: no string for a list of %d", what, nel);
    VH_CHECK(strlen(s) == w.n && !memcmp(s, w.p ? (char *) w.p : "", w.n), "list-string", "%s: list prints as \"%.200s\", expected \"%.200s\"", what, s, vstr_z(&w));
    vstr_done(&w);
}
static void el(const char *s, size_t n) { if (nel >= 300) vh_broken("elements"); elems[nel].n = 0; vstr_add(&elems[nel], s, n); nel++; }
static void split(const char *s) { for (;;) { const char *c = strchr(s, ':'); el(s, c ? (size_t) (c - s) : strlen(s)); if (!c) break; s = c + 1; } }
static void lists(struct vh_rng *r)
{
    struct cork_path_list *l; nel = 0;
    if (vh_chance(r, 1, 4)) { l = cork_path_list_new_empty(); check_list(l, "new empty list"); vh_count("empty lists", 1); }
    else {
        struct vstr w; vstr_init(&w); int n = vh_below(r, 4);
        for (size_t k = vh_size(r, 80); k > 0; k--) vstr_addc(&w, vh_chance(r, 1, 3) ? ':' : n == 0 ? "a/:"[vh_below(r, 3)] : n == 1 ? 'a' + vh_below(r, 26) : 1 + vh_below(r, 255));
        char *s = malloc(w.n + 1); memcpy(s, vstr_z(&w), w.n + 1); vstr_done(&w);
        l = cork_path_list_new(s); split(s); vh_trace("list \"%s\"", s); memset(s, 'X', strlen(s)); free(s); check_list(l, "new list");
    }
    for (int k = vh_below(r, 20); k > 0; k--) { char *s = word(r, true); for (char *c = s; c && *c; c++) if (*c == ':') *c = ';'; struct cork_path *p = cork_path_new(s); cork_path_list_add(l, p); el(s ? s : "", s ? strlen(s) : 0); VH_CHECK(cork_path_list_get(l, nel - 1) == p, "list-add", "the list does not hold the path itself"); free(s); check_list(l, "add"); }
    vh_count("path lists", 1); cork_path_list_free(l);
}
static void setvar(struct vh_rng *r, const char *name, char *val, bool list)
{
    struct vstr w; vstr_init(&w);
    switch (vh_below(r, 4)) {
    case 0: unsetenv(name); val[0] = 0; return;
    case 1: setenv(name, "", 1); val[0] = 0; return;
    default:
        for (int k = list ? 1 + vh_below(r, 5) : 1; k > 0; k--) { if (w.n) vstr_addc(&w, ':'); vstr_addc(&w, '/'); for (size_t n = vh_size(r, 30); n > 0; n--) vstr_addc(&w, vh_chance(r, 1, 5) ? '/' : "abc .%$~"[vh_below(r, 8)]); }
        strcpy(val, vstr_z(&w)); vstr_done(&w); setenv(name, val, 1);
    }
}
static void join_el(const char *a, const char *b) { el(a, strlen(a)); m_join(&elems[nel - 1], b); }
static void standard(struct vh_rng *r)
{
    static char home[400], ch[400], cd[2000], dh[400], dd[2000], cache[400], run[400];
    setvar(r, "HOME", home, false); setvar(r, "XDG_CONFIG_HOME", ch, false); setvar(r, "XDG_CONFIG_DIRS", cd, true); setvar(r, "XDG_DATA_HOME", dh, false); setvar(r, "XDG_DATA_DIRS", dd, true); setvar(r, "XDG_CACHE_HOME", cache, false); setvar(r, "XDG_RUNTIME_DIR", run, false);
    vh_trace("HOME=%s CONFIG %s | %s DATA %s | %s CACHE %s RUNTIME %s", home, ch, cd, dh, dd, cache, run);
    struct vstr t; vstr_init(&t); struct cork_path *p; struct cork_path_list *l;
#define ONE(call, cond, what) do { p = call; if (cond) { VH_CHECK(p != NULL, what, what " not found"); check_path(p, &t, what); no_error(what); cork_path_free(p); vh_count("standard paths", 1); } else { VH_CHECK(p == NULL, what, what " found without its variables"); has_error(what, CORK_UNDEFINED); vh_count("undefined standard paths", 1); } } while (0)
    vstr_adds(&t, home); ONE(cork_path_home(), *home, "home");
    t.n = 0; vstr_adds(&t, *cache ? cache : home); if (!*cache) m_join(&t, ".cache"); ONE(cork_path_user_cache_path(), *cache || *home, "cache");
    t.n = 0; vstr_adds(&t, run); ONE(cork_path_user_runtime_path(), *run, "runtime");
    for (int k = 0; k < 2; k++) {
        const char *first = k ? dh : ch, *rest = k ? dd : cd, *what = k ? "data" : "config";
        l = k ? cork_path_data_paths() : cork_path_config_paths(); nel = 0;
        if (!*first && !*home) { VH_CHECK(l == NULL, what, "%s paths found without their variables", what); has_error(what, CORK_UNDEFINED); vh_count("undefined standard paths", 1); continue; }
        VH_CHECK(l != NULL, what, "%s paths not found", what); no_error(what);
        if (*first) el(first, strlen(first)); else join_el(home, k ? ".local/share" : ".config");
        split(*rest ? rest : k ? "/usr/local/share:/usr/share" : "/etc/xdg");
        check_list(l, what); cork_path_list_free(l); vh_count("standard path lists", 1);
    }
    vstr_done(&t);
}
void vh_case(struct vh_rng *r, uint64_t index)
{
    uint64_t serial = vh_alloc_serial();
    go(r); int fds = vh_open_fds();
    algebra(r); for (int k = 0; k < 3; k++) lists(r); for (int k = 0; k < 3; k++) standard(r);
    VH_CHECK(vh_open_fds() == fds, "descriptors", "descriptors left open");
    vh_alloc_expect_balanced(serial, "leak");
    if (chdir(vh.scratch)) vh_broken("chdir back");
    vh_rm_rf(vh_fmt("%s/w", vh.scratch)); vh_nontrivial();
    if (vh_want_sample()) vh_sample("from \"%.100s\"", cwd_gone ? "(gone)" : cwd);
}
