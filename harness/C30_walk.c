/* C30: directory walks over random trees; every callback is checked against an
 * independent traversal and against the nesting rule. */
#include "vh.h"
#include <libcork/core.h>
#include <libcork/os.h>
#include <sys/resource.h>
#include "tree.h"

static bool in_lib; static int fail_readdir = -1, intr_open, hits;
struct dirent *__real_readdir(DIR *); DIR *__real_opendir(const char *);
/* a file that others create and remove while the directory is being read */
static struct vh_rng *pass_rng; static int passing, passed, pass_n; static char pass_path[64][PATH_MAX];
static bool pass_name(const char *base) { return !strncmp(base, "passing-", 8); }
static bool searchable(DIR *d) { int e = errno; bool y = faccessat(dirfd(d), ".", X_OK, AT_EACCESS) == 0; errno = e; return y; }
static struct dirent *pass_entry(DIR *d)
{
    static struct dirent de; int e = errno; char link[40]; ssize_t n;
    memset(&de, 0, sizeof de); de.d_ino = 4711; de.d_type = DT_UNKNOWN; de.d_reclen = sizeof de; snprintf(de.d_name, sizeof de.d_name, "passing-%d", passed++);
    snprintf(link, sizeof link, "/proc/self/fd/%d", dirfd(d));
    if (pass_n < 64 && vh_chance(pass_rng, 2, 3) && (n = readlink(link, pass_path[pass_n], PATH_MAX - 40)) > 0) {
        sprintf(pass_path[pass_n] + n, "/%s", de.d_name); int fd = open(pass_path[pass_n], O_CREAT | O_WRONLY | O_CLOEXEC, 0644); if (fd >= 0) { close(fd); pass_n++; }
    }
    passing--; errno = e; return &de;
}
int __real_stat(const char *, struct stat *);
int __wrap_stat(const char *p, struct stat *st)
{
    int rc = __real_stat(p, st), e = errno; const char *sl = strrchr(p, '/');
    if (in_lib && pass_name(sl ? sl + 1 : p)) unlink(p);
    errno = e; return rc;
}
struct dirent *__wrap_readdir(DIR *d) { if (in_lib && passing > 0 && vh_chance(pass_rng, 1, 3) && searchable(d)) return pass_entry(d); if (in_lib && fail_readdir >= 0 && fail_readdir-- == 0) { hits++; errno = EIO; return NULL; } return __real_readdir(d); }
DIR *__wrap_opendir(const char *p) { if (in_lib && intr_open > 0) { intr_open--; errno = EINTR; return NULL; } return __real_opendir(p); }

static struct tree T; static char A[500];
/* expected entries */
#define MAXX 700
static struct xent { char *rel; bool dir, skip, problem, maybe; int seen, left; } X[MAXX]; static int nx; static bool overflow;
static int level;
/* unlink what makes a directory its own descendant */
static struct { dev_t d; ino_t i; } anc[64];
static void prune(const char *dir, int depth)
{
    struct stat st; struct dirent *de; DIR *d;
    if (depth > 40 || stat(dir, &st)) return;
    anc[depth].d = st.st_dev; anc[depth].i = st.st_ino;
    mode_t m = st.st_mode & 07777; if ((m & 0700) != 0700) chmod(dir, 0700);
    if ((d = opendir(dir))) {
        while ((de = readdir(d))) {
            char p[PATH_MAX * 2]; struct stat ls, s2; if (!strcmp(de->d_name, ".") || !strcmp(de->d_name, "..")) continue;
            snprintf(p, sizeof p, "%s/%s", dir, de->d_name); if (lstat(p, &ls)) continue;
            if (S_ISLNK(ls.st_mode)) {
                if (stat(p, &s2)) { if (errno != ENOENT && errno != ELOOP) unlink(p); continue; }
                if (!S_ISDIR(s2.st_mode)) continue;
                bool cyc = false; for (int i = 0; i <= depth; i++) if (anc[i].d == s2.st_dev && anc[i].i == s2.st_ino) cyc = true;
                if (cyc) { unlink(p); continue; }
            } else if (!S_ISDIR(ls.st_mode)) continue;
            prune(p, depth + 1);
        }
        closedir(d);
    }
    chmod(dir, m);
}
static void expect(const char *dir, const char *rel, int parent, bool *problem, bool *maybe)
{
    DIR *d = opendir(dir); struct dirent *de; if (!d) { *problem = true; return; }
    if (++level > 60) { overflow = true; closedir(d); level--; return; }
    while ((de = readdir(d)) && !overflow) {
        char p[PATH_MAX * 2], q[PATH_MAX * 2]; struct stat st; if (!strcmp(de->d_name, ".") || !strcmp(de->d_name, "..")) continue;
        snprintf(p, sizeof p, "%s/%s", dir, de->d_name); snprintf(q, sizeof q, "%s%s%s", rel, *rel ? "/" : "", de->d_name);
        if (stat(p, &st)) { struct stat ls; if (errno == ENOENT) continue; if (errno == ELOOP && lstat(p, &ls) == 0) { *maybe = true; continue; } *problem = true; continue; }
        if (!S_ISDIR(st.st_mode) && !S_ISREG(st.st_mode)) continue;
        if (nx >= MAXX) { overflow = true; break; }
        struct xent *x = &X[nx++]; memset(x, 0, sizeof *x); x->rel = strdup(q); x->dir = S_ISDIR(st.st_mode);
        if (x->dir) expect(p, q, nx - 1, &x->problem, &x->maybe);
    }
    closedir(d); level--;
}
struct walker { struct cork_dir_walker w; const char *root; int stack[80], depth, calls, stop_at, result, skips; bool destroy, nest, done, stopped_in_enter; struct vh_rng *r; int skip_one_in; };
static void collapse(char *d, const char *s) { char *o = d; for (; *s; s++) if (!(*s == '/' && o > d && o[-1] == '/')) *o++ = *s; *o = 0; }
static int none(struct cork_dir_walker *w, const char *f, const char *r, const char *b) { (void) w; (void) f; (void) r; (void) b; return 0; }
/* common checks; returns the entry */
static struct xent *common(struct walker *w, const char *what, const char *full, const char *rel, const char *base, bool leave)
{
    if (pass_name(base)) return NULL;
    VH_CHECK(!w->done, "after-failure", "%s called for \"%.200s\" after a callback had failed", what, rel);
    struct xent *x = NULL; for (int i = 0; i < nx; i++) if (!strcmp(X[i].rel, rel)) x = &X[i];
    VH_CHECK(x, "unknown", "%s reported \"%.300s\", which is not an entry", what, rel);
    char a[PATH_MAX * 3], b[PATH_MAX * 3], c[PATH_MAX * 3]; snprintf(c, sizeof c, "%s/%s", w->root, rel); collapse(a, c); collapse(b, full);
    VH_CHECK(!strcmp(a, b), "full-name", "%s: the full name of \"%.200s\" is \"%.300s\"", what, rel, full);
    const char *sl = strrchr(rel, '/'); VH_CHECK(!strcmp(base, sl ? sl + 1 : rel), "base-name", "%s: the base name of \"%.200s\" is \"%.200s\"", what, rel, base);
    if (!leave) {
        const char *up = w->depth ? X[w->stack[w->depth - 1]].rel : ""; size_t n = sl ? (size_t) (sl - rel) : 0;
        VH_CHECK(strlen(up) == n && !strncmp(up, rel, n), "nesting", "%s reported \"%.200s\" inside of \"%.200s\"", what, rel, up);
        VH_CHECK(x->seen++ == 0, "twice", "\"%.200s\" was reported twice", rel);
    }
    w->calls++; vh_evals(5); return x;
}
static int ret(struct walker *w) { errno = vh_errno_noise(); if (w->calls - 1 == w->stop_at) { w->done = true; return w->result; } return 0; }
static int enter(struct cork_dir_walker *cw, const char *full, const char *rel, const char *base)
{
    struct walker *w = (struct walker *) cw; in_lib = false; struct xent *x = common(w, "enter_directory", full, rel, base, false); if (!x) { in_lib = true; return 0; }
    VH_CHECK(x->dir, "kind", "\"%.200s\" was entered but is not a directory", rel);
    int rc = ret(w); if (w->done) { if (rc == CORK_SKIP_DIRECTORY) { w->done = false; w->stop_at = -1; } else { in_lib = true; return rc; } }
    if (rc == CORK_SKIP_DIRECTORY || (w->skip_one_in && vh_below(w->r, w->skip_one_in) == 0)) { x->skip = true; w->skips++; in_lib = true; return CORK_SKIP_DIRECTORY; }
    w->stack[w->depth++] = x - X; in_lib = true; return 0;
}
static int file(struct cork_dir_walker *cw, const char *full, const char *rel, const char *base)
{
    struct walker *w = (struct walker *) cw; in_lib = false; struct xent *x = common(w, "file", full, rel, base, false); if (!x) { in_lib = true; return 0; }
    VH_CHECK(!x->dir, "kind", "the directory \"%.200s\" was reported as a file", rel);
    if (w->destroy) unlink(full);
    if (w->nest) { struct cork_dir_walker n = { none, none, none }; char *d = strdup(full); *strrchr(d, '/') = 0; if (*d && cork_walk_directory(d, &n)) cork_error_clear(); free(d); }
    in_lib = true; return ret(w);
}
static int leave(struct cork_dir_walker *cw, const char *full, const char *rel, const char *base)
{
    struct walker *w = (struct walker *) cw; in_lib = false; struct xent *x = common(w, "leave_directory", full, rel, base, true); if (!x) vh_fail("kind", "a file was left"); 
    VH_CHECK(w->depth && w->stack[w->depth - 1] == x - X, "nesting", "\"%.200s\" was left but \"%.200s\" was entered last", rel, w->depth ? X[w->stack[w->depth - 1]].rel : "nothing");
    w->depth--; x->left++; if (w->destroy) rmdir(full);
    in_lib = true; return ret(w);
}
static bool skipped(int i) { for (int k = 0; k < nx; k++) if (X[k].skip && k != i && under(X[i].rel, X[k].rel)) return true; return false; }
static void walk(struct vh_rng *r, const char *path, bool destroy)
{
    char root[PATH_MAX * 3]; strcpy(root, path); for (size_t n = strlen(root); n > 1 && root[n - 1] == '/'; n--) root[n - 1] = 0;
    for (int i = 0; i < nx; i++) free(X[i].rel);
    nx = 0; overflow = false; level = 0; bool top_problem = false, top_maybe = false;
    DIR *d = opendir(path); int err = d ? 0 : errno; if (d) closedir(d); if (!err) expect(path, "", -1, &top_problem, &top_maybe);
    if (overflow) { vh_count("trees too large for the oracle", 1); return; }
    struct walker w; memset(&w, 0, sizeof w); w.w = (struct cork_dir_walker) { enter, file, leave }; w.root = root; w.r = r; w.stop_at = -1; w.destroy = destroy;
    if (vh_chance(r, 1, 3)) { w.stop_at = vh_below(r, 2 * nx + 2); w.result = (int[]){ -1, 1, 2, 42, INT_MIN, INT_MAX }[vh_below(r, 6)]; }
    if (vh_chance(r, 1, 3)) w.skip_one_in = 1 + vh_below(r, 6);
    if (!destroy && nx < 30 && vh_chance(r, 1, 8)) w.nest = true;
    hits = 0; fail_readdir = !destroy && vh_chance(r, 1, 8) ? (int) vh_below(r, 2 * nx + 3) : -1; intr_open = vh_chance(r, 1, 8) ? 1 + vh_below(r, 3) : 0;
    int fds = vh_open_fds(); struct rlimit old, lim; bool limited = false; getrlimit(RLIMIT_NOFILE, &old);
    if (!w.nest && vh_chance(r, 1, 10)) { lim = old; lim.rlim_cur = fds + vh_below(r, 5); limited = setrlimit(RLIMIT_NOFILE, &lim) == 0; }
    vh_trace("walk \"%.300s\" (%d entries) stop %d result %d skip 1/%d destroy %d fail %d limited %d", path, nx, w.stop_at, w.result, w.skip_one_in, destroy, fail_readdir, limited);
    pass_rng = r; passed = pass_n = 0; passing = !destroy && vh_chance(r, 1, 4) ? 1 + vh_below(r, 5) : 0;
    in_lib = true; char *arg = strdup(path); int rc = cork_walk_directory(arg, &w.w); free(arg); in_lib = false; fail_readdir = -1; intr_open = 0; passing = 0;
    for (int i = 0; i < pass_n; i++) unlink(pass_path[i]);
    if (passed) vh_count("files that vanish during the walk", passed);
    setrlimit(RLIMIT_NOFILE, &old);
    VH_CHECK(vh_open_fds() == fds, "descriptors", "%d descriptors before the walk, %d after it", fds, vh_open_fds());
    bool error = cork_error_occurred(); unsigned code = error ? cork_error_code() : 0; cork_error_clear();
    if (err) { VH_CHECK(rc == -1 && error && w.calls == 0, "root", "walking \"%.200s\" (%s) returned %d, error %d, %d calls", path, strerror(err), rc, error, w.calls); if (!limited) VH_CHECK(code == (unsigned) err, "root", "error %u, expected %d", code, err); vh_count("roots that cannot be read", 1); return; }
    if (w.done) { VH_CHECK(rc == w.result, "result", "a callback returned %d, the walk %d", w.result, rc); vh_count("walks stopped by a callback", 1); return; }
    bool problem = top_problem, maybe = top_maybe;
    for (int i = 0; i < nx; i++) if (!X[i].skip && !skipped(i)) { problem |= X[i].problem; maybe |= X[i].maybe; }
    bool links = false; for (int i = 0; i < T.n; i++) links |= T.e[i].type == 'l';
    if (destroy) maybe |= problem;
    if (hits) { VH_CHECK(rc == -1 && error, "fault", "the walk returned %d although a directory could not be read", rc); vh_count("read errors injected", 1); return; }
    if (rc != 0) { VH_CHECK(rc == -1 && error, "error", "the walk returned %d, error %d, but no callback did", rc, error); VH_CHECK(problem || maybe || limited, "failed", "the walk of \"%.200s\" failed: error %u", path, code); vh_count(limited ? "walks without enough descriptors" : problem ? "walks of unreadable directories" : "walks into link loops", 1); return; }
    VH_CHECK(!error, "error", "a successful walk set error %u", code);
    VH_CHECK(!problem || destroy, "problem", "the walk succeeded although a directory is unreadable");
    VH_CHECK(w.depth == 0, "nesting", "%d directories were not left", w.depth);
    for (int i = 0; i < nx; i++) {
        int want = !skipped(i); if (destroy && links && !X[i].seen) continue;       /* its target may have been removed before */
        VH_CHECK(X[i].seen == want, want ? "missed" : "skipped", "\"%.300s\" was reported %d times", X[i].rel, X[i].seen);
        VH_CHECK(X[i].left == (want && X[i].dir && !X[i].skip), "leave", "\"%.300s\" was left %d times", X[i].rel, X[i].left);
        vh_count(!want ? "entries below skipped directories" : X[i].dir ? "directories walked" : "files walked", 1); vh_sig(X[i].seen * 2 + X[i].dir);
    }
    vh_count("complete walks", 1); if (destroy) vh_count("trees destroyed by their walk", 1); if (w.skips) vh_count("directories skipped", w.skips);
}
/* the root directory, of which only the first level is looked at */
static struct { char names[200][256]; int seen[200], n; } top;
static int on_top(const char *full, const char *rel, const char *base)
{
    char b[PATH_MAX]; collapse(b, full); VH_CHECK(b[0] == '/' && !strcmp(b + 1, rel) && !strcmp(rel, base), "root-directory", "\"%s\" \"%s\" \"%s\" below /", full, rel, base);
    for (int i = 0; i < top.n; i++) if (!strcmp(top.names[i], rel)) { VH_CHECK(top.seen[i]++ == 0, "twice", "/%s reported twice", rel); }
    return 0;
}
static int top_enter(struct cork_dir_walker *w, const char *f, const char *r, const char *b) { (void) w; on_top(f, r, b); return CORK_SKIP_DIRECTORY; }
static int top_file(struct cork_dir_walker *w, const char *f, const char *r, const char *b) { (void) w; return on_top(f, r, b); }
static int top_leave(struct cork_dir_walker *w, const char *f, const char *r, const char *b) { (void) w; (void) f; (void) r; (void) b; vh_fail("skipped", "a skipped directory was left"); }
static void walk_root(const char *path)
{
    DIR *d = opendir("/"); struct dirent *de; struct stat st; bool problem = false; memset(&top, 0, sizeof top); if (!d) return;
    while ((de = readdir(d)) && top.n < 200) { char p[300]; snprintf(p, sizeof p, "/%s", de->d_name); if (!strcmp(de->d_name, ".") || !strcmp(de->d_name, "..")) continue; if (stat(p, &st)) { problem |= errno != ENOENT; continue; } if (S_ISDIR(st.st_mode) || S_ISREG(st.st_mode)) strcpy(top.names[top.n++], de->d_name); }
    closedir(d); if (problem || top.n >= 200) return;
    struct cork_dir_walker w = { top_enter, top_file, top_leave }; vh_trace("walk \"%s\"", path); int rc = cork_walk_directory(path, &w);
    VH_CHECK(rc == 0 && !cork_error_occurred(), "root-directory", "walking / returned %d", rc);
    for (int i = 0; i < top.n; i++) { char p[300]; snprintf(p, sizeof p, "/%s", top.names[i]); VH_CHECK(top.seen[i] == 1 || lstat(p, &st), "missed", "/%s was not reported", top.names[i]); }
    vh_count("walks of the root directory", 1);
}
void vh_setup(void)
{
    vh_crowd = 20; vh_bare = 20;
    if (!vh_drop_privileges()) vh_broken("cannot become an unprivileged user");
    vh_alloc_install(); VH_WARM_ERRORS();
}
void vh_case(struct vh_rng *r, uint64_t index)
{
    static char real[PATH_MAX]; if (!real[0] && !realpath(vh.scratch, real)) vh_broken("scratch");
    snprintf(A, sizeof A, "%s/A", real); umask(0); tree_gen(&T, r, 4 + vh_below(r, 56), vh_chance(r, 1, 4));
    /* links to ancestors make no finite tree: they are taken out afterwards */
    tree_build(&T, A); if (chdir(A)) vh_broken("chdir"); prune("o", 0); prune("r", 0);
    char deep[PATH_MAX] = "r"; if (vh_chance(r, 1, 6)) for (int k = vh_below(r, 50); k > 0; k--) { strcat(deep, vh_chance(r, 1, 8) ? "/deeeeeeeeeeeeeeeeeeeeeeeeeeeeep" : "/d"); if (mkdir(deep, 0755) && errno != EEXIST) break; if (vh_chance(r, 1, 3)) { char f[PATH_MAX + 4]; sprintf(f, "%s/f", deep); close(open(f, O_CREAT | O_WRONLY | O_CLOEXEC, 0644)); } }
    uint64_t serial = vh_alloc_serial(); struct snap *S = snap_take(A);
    bool absolute = vh_chance(r, 1, 3), inside = vh_chance(r, 1, 3);
    for (int k = 1 + vh_below(r, 4); k > 0; k--) {
        char p[PATH_MAX * 2]; struct ent *e = &T.e[vh_chance(r, 1, 2) ? 0 : vh_below(r, T.n)];
        if (inside && !absolute) { if (chdir("r")) vh_broken("chdir"); strcpy(p, under(e->path, "r") && e->path[1] ? e->path + 2 : "."); }
        else if (absolute) snprintf(p, sizeof p, "%s/%s", A, e->path); else strcpy(p, e->path);
        if (vh_chance(r, 1, 4)) strcat(p, (const char *[]){ "/", "//", "/.", "///" }[vh_below(r, 4)]);
        if (vh_chance(r, 1, 30)) strcpy(p, (const char *[]){ "", "missing", "missing/" }[vh_below(r, 3)]);
        walk(r, p, false); if (chdir(A)) vh_broken("chdir");
    }
    if (index % 20 == 0) walk_root(index % 40 ? "/" : "///");
    struct snap *S1 = snap_take(A); VH_CHECK(S1->n == S->n, "changed", "walking changed the tree"); for (int i = 0; i < S->n; i++) VH_CHECK(!strcmp(S->e[i].path, S1->e[i].path) && !strcmp(S->e[i].what, S1->e[i].what), "changed", "walking changed \"%.200s\"", S->e[i].path);
    snap_free(S); snap_free(S1);
    if (vh_chance(r, 1, 4)) walk(r, absolute ? vh_fmt("%s/r", A) : "r", true);
    vh_alloc_expect_balanced(serial, "leak");
    if (chdir(real)) vh_broken("chdir"); vh_rm_rf(vh_fmt("%s/A", vh.scratch));
    for (int i = 0; i < T.n; i++) vh_sig(T.e[i].type + 256 * T.e[i].mode);
    if (T.n > 4) vh_nontrivial();
    if (vh_want_sample()) vh_sample("%d entries in the tree", T.n);
}
