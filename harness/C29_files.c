/* C29: file operations, on random trees of which a twin is changed by a
 * reference implementation, with snapshots before and after every call. */
#include "vh.h"
#include <libcork/core.h>
#include <libcork/os.h>
#include <pthread.h>
#include "tree.h"

/*------------------------------------------------------- faults and events */
static __thread int inject; enum { NONE, RACE_MKDIR, FAIL_MKDIR, FAIL_UNLINK, FAIL_RMDIR, FAIL_READDIR, EINTR_ALL };
static __thread int inject_at, inject_hits; static __thread const char *race_done;
static __thread bool in_lib;
int __real_mkdir(const char *, mode_t); int __real_unlink(const char *); int __real_rmdir(const char *); struct dirent *__real_readdir(DIR *); DIR *__real_opendir(const char *);
static bool hit(int what) { return in_lib && inject == what && inject_at-- == 0 && ++inject_hits; }
static bool intr(void) { if (in_lib && inject == EINTR_ALL && inject_at > 0) { inject_at--; inject_hits++; errno = EINTR; return true; } return false; }
int __wrap_mkdir(const char *p, mode_t m)
{
    if (intr()) return -1;
    if (hit(FAIL_MKDIR)) { errno = EIO; return -1; }
    if (hit(RACE_MKDIR)) __real_mkdir(p, m);
    return __real_mkdir(p, m);
}
int __wrap_unlink(const char *p) { if (intr()) return -1; if (hit(FAIL_UNLINK)) { errno = EIO; return -1; } return __real_unlink(p); }
int __wrap_rmdir(const char *p) { if (intr()) return -1; if (hit(FAIL_RMDIR)) { errno = EIO; return -1; } return __real_rmdir(p); }
struct dirent *__wrap_readdir(DIR *d) { if (hit(FAIL_READDIR)) { errno = EIO; return NULL; } return __real_readdir(d); }
DIR *__wrap_opendir(const char *p) { if (intr()) return NULL; return __real_opendir(p); }

/*--------------------------------------------------- reference implementation */
static bool is_dir(const char *p) { struct stat st; return stat(p, &st) == 0 && S_ISDIR(st.st_mode); }
static bool special(const char *p) { const char *b = strrchr(p, '/'); b = b ? b + 1 : p; return !*b || !strcmp(b, ".") || !strcmp(b, ".."); }
static int ref_mkdir(const char *path, unsigned mode, unsigned flags)
{
    struct stat st; char p[PATH_MAX * 2];
    if (stat(path, &st) == 0) return S_ISDIR(st.st_mode) && (flags & CORK_FILE_PERMISSIVE) ? 0 : -1;
    if (errno != ENOENT && errno != ENOTDIR) return -1;
    if (flags & CORK_FILE_RECURSIVE) {
        strcpy(p, path);
        for (char *c = p + 1; *p && *c; c++)
            if (*c == '/') { *c = 0; if (!is_dir(p) && mkdir(p, mode) && !(errno == EEXIST && is_dir(p))) return -1; *c = '/'; }
        if (special(path) && is_dir(path)) return 0;
    }
    if (mkdir(path, mode) == 0) return 0;
    return errno == EEXIST && (flags & CORK_FILE_PERMISSIVE) && is_dir(path) ? 0 : -1;
}
static int ref_remove(const char *path, unsigned flags)
{
    struct stat st;
    if (lstat(path, &st)) return (errno == ENOENT || errno == ENOTDIR) && (flags & CORK_FILE_PERMISSIVE) ? 0 : -1;
    if (!S_ISDIR(st.st_mode)) return unlink(path);
    if (flags & CORK_FILE_RECURSIVE) {
        DIR *d = opendir(path); struct dirent *de; int rc = 0; if (!d) return -1;
        while ((de = readdir(d))) if (strcmp(de->d_name, ".") && strcmp(de->d_name, "..")) { char p[PATH_MAX * 2]; snprintf(p, sizeof p, "%s/%s", path, de->d_name); if (ref_remove(p, flags)) rc = -1; }
        closedir(d); if (rc) return rc;
    }
    return rmdir(path);
}

/*------------------------------------------------------------------ paths */
static struct tree T; static char A[500], B[500], base_rel[600];
static void in(const char *tree) { char p[600]; snprintf(p, sizeof p, "%s/r", tree); if (chdir(p)) vh_broken("chdir %s: %s", p, strerror(errno)); }
/* where does the directory part really lie, relative to A?  NULL if outside or missing */
static char *real_in(const char *p)
{
    char *q = realpath(p, NULL); static char out[PATH_MAX]; char *res = NULL;
    if (q) { if (!strcmp(q, A)) { out[0] = 0; res = out; } else if (under(q, A)) { strcpy(out, q + strlen(A) + 1); res = out; } free(q); }
    return res;
}
/* does the path only touch the tree?  (nearest existing ancestor) */
static bool contained(const char *path)
{
    char p[PATH_MAX * 2]; strcpy(p, path);
    for (;;) {
        char *q = realpath(p, NULL); bool ok;
        if (q) { ok = under(q, A) && strcmp(q, A) != 0; free(q); return ok; }
        char *s = strrchr(p, '/'); if (!s) return true;
        if (s == p) return false;
        *s = 0;
    }
}
/* a path relative to A/r, without the absolute prefix */
static void rnd_path(struct vh_rng *r, char *out, bool tail)
{
    struct vstr w; vstr_init(&w);
    if (vh_chance(r, 2, 3)) { struct ent *e = &T.e[vh_below(r, T.n)]; if (under(e->path, "r")) vstr_adds(&w, e->path[1] ? e->path + 2 : "."); else { vstr_adds(&w, "../"); vstr_adds(&w, e->path); } }
    int more = w.n ? (vh_chance(r, 1, 2) ? 0 : vh_below(r, 4)) : 1 + vh_below(r, 5);
    if (tail && vh_chance(r, 1, 200)) more = 60;
    for (int i = 0; i < more; i++) {
        if (w.n) vstr_adds(&w, vh_chance(r, 1, 10) ? "//" : "/");
        if (vh_chance(r, 1, 14)) vstr_adds(&w, "."); else if (vh_chance(r, 1, 25)) vstr_adds(&w, "..");
        else if (vh_chance(r, 1, 80)) for (int k = 0; k < 300; k++) vstr_addc(&w, 'q');
        else vstr_adds(&w, rnd_name(r));
    }
    if (tail && vh_chance(r, 1, 6)) vstr_adds(&w, (const char *[]){ "/", "//", "/.", "/..", "/./", "/../" }[vh_below(r, 6)]);
    if (w.n > 4500) w.n = 4500;
    memcpy(out, vstr_z(&w), w.n + 1); vstr_done(&w);
}
static char *absol(struct vh_rng *r, const char *rel, const char *tree, bool abs) { static char b[2][PATH_MAX * 3]; static int k; char *s = b[k ^= 1]; if (abs) snprintf(s, sizeof b[0], "%s/r/%s", tree, rel); else strcpy(s, rel); return s; }

static void no_error(const char *what) { VH_CHECK(!cork_error_occurred(), "error-set", "%s succeeded but set an error: %s", what, cork_error_message()); }
static void has_error(const char *what, int code)
{
    VH_CHECK(cork_error_occurred(), "no-error", "%s failed without setting an error", what);
    VH_CHECK(cork_error_code() != 0, "no-error", "%s failed with the error code 0", what);
    if (code) VH_CHECK(cork_error_code() == (cork_error) code, "error-code", "%s set the error %u (%s), expected %s", what, (unsigned) cork_error_code(), cork_error_message(), strerror(code));
    cork_error_clear();
}
/* query against the kernel */
static void check_query(struct cork_file *f, const char *path, const char *when)
{
    struct stat st, ls; int rc = stat(path, &st), err = rc ? errno : 0; int lrc = lstat(path, &ls); bool link = lrc == 0 && S_ISLNK(ls.st_mode);
    bool ex = true; enum cork_file_type ty = 99; bool type_first = strlen(path) & 1;
    int r1, r2; in_lib = true;
    if (type_first) { r2 = cork_file_type(f, &ty); if (r2) has_error("type", link ? 0 : err); r1 = cork_file_exists(f, &ex); if (r1) has_error("exists", link ? 0 : err); }
    else { r1 = cork_file_exists(f, &ex); if (r1) has_error("exists", link ? 0 : err); r2 = cork_file_type(f, &ty); if (r2) has_error("type", link ? 0 : err); }
    in_lib = false;
    VH_CHECK((r1 == 0 || r1 == -1) && r1 == r2, "query-result", "%s: exists returned %d, type %d for \"%.200s\"", when, r1, r2, path);
    if (r1 == 0) { no_error("query"); VH_CHECK(ex == (ty != CORK_FILE_MISSING), "query", "%s: \"%.200s\" exists: %d but its type is %d", when, path, ex, ty); }
    enum cork_file_type want = rc == 0 ? S_ISREG(st.st_mode) ? CORK_FILE_REGULAR : S_ISDIR(st.st_mode) ? CORK_FILE_DIRECTORY : CORK_FILE_UNKNOWN : CORK_FILE_MISSING;
    if (rc == 0) { VH_CHECK(r1 == 0, "query", "%s: query of \"%.200s\" failed", when, path); VH_CHECK(ex, "query", "%s: \"%.200s\" is reported missing", when, path); VH_CHECK(ty == want || (link && ty == CORK_FILE_SYMLINK), "type", "%s: the type of \"%.200s\" is %d, expected %d", when, path, ty, want); }
    else if (link) VH_CHECK(r1 != 0 || ty == CORK_FILE_MISSING || ty == CORK_FILE_SYMLINK, "type", "%s: the link \"%.200s\" leads nowhere but has type %d", when, path, ty);
    else if (err == ENOENT || err == ENOTDIR) VH_CHECK(r1 == 0 && !ex, "query", "%s: \"%.200s\" does not exist but the query %s", when, path, r1 ? "failed" : "found it");
    else VH_CHECK(r1 == -1, "query", "%s: \"%.200s\" cannot be inspected (%s) but the query gave exists %d", when, path, strerror(err), ex);
    vh_count(rc == 0 ? "queries of existing files" : link ? "queries of dangling links" : err == ENOENT || err == ENOTDIR ? "queries of missing files" : "queries that fail", 1);
    vh_evals(2);
}

static struct snap *S;          /* of A, current */
static bool over;
static const char *what_of(struct snap *s, const char *p) { for (int i = 0; i < s->n; i++) if (!strcmp(s->e[i].path, p)) return s->e[i].what; return NULL; }
static void same(struct snap *a, struct snap *b, const char *key, const char *what)
{
    for (int i = 0; i < a->n || i < b->n; i++) {
        int c = i >= a->n ? 1 : i >= b->n ? -1 : strcmp(a->e[i].path, b->e[i].path);
        if (c < 0) vh_fail(key, "%s: \"%.300s\" (%s) should not be there", what, a->e[i].path, a->e[i].what);
        if (c > 0) vh_fail(key, "%s: \"%.300s\" (%s) is missing", what, b->e[i].path, b->e[i].what);
        VH_CHECK(!strcmp(a->e[i].what, b->e[i].what), key, "%s: \"%.300s\" is \"%.100s\", expected \"%.100s\"", what, a->e[i].path, a->e[i].what, b->e[i].what);
    }
    vh_evals(a->n);
}
static void rnd_inject(struct vh_rng *r, const int *kinds, int n)
{
    inject = NONE; inject_hits = 0; inject_at = 0;
    if (vh_chance(r, 1, 5)) { inject = kinds[vh_below(r, n)]; inject_at = inject == EINTR_ALL ? 1 + vh_below(r, 4) : vh_below(r, 4); }
}
static struct cork_file *keep[4]; static char keep_path[4][PATH_MAX * 3];
/* an object for the path: fresh, or an old one that has been used before */
static struct cork_file *object(struct vh_rng *r, char *path, int *slot)
{
    int k = vh_below(r, 4); *slot = -1;
    if (keep[k] && vh_chance(r, 1, 2)) { *slot = k; strcpy(path, keep_path[k]); vh_count("calls through used objects", 1); return keep[k]; }
    struct cork_file *f;
    if (vh_chance(r, 1, 2)) { char *c = strdup(path); f = cork_file_new(c); memset(c, 'x', strlen(c)); free(c); } else f = cork_file_new_from_path(cork_path_new(path));
    VH_CHECK(f && !strcmp(cork_path_get(cork_file_path(f)), path), "path", "a file's path is not what it was created with");
    if (vh_chance(r, 1, 3)) check_query(f, path, "before");       /* fills any cache */
    if (vh_chance(r, 1, 2)) { if (keep[k]) cork_file_free(keep[k]); keep[k] = f; strcpy(keep_path[k], path); *slot = k; }
    return f;
}
static char *twin(const char *path) { static char b[PATH_MAX * 3]; if (*path == '/') snprintf(b, sizeof b, "%s%s", B, path + strlen(A)); else strcpy(b, path); return b; }

static void do_mkdir(struct vh_rng *r)
{
    char rel[PATH_MAX * 3], path[PATH_MAX * 3]; int slot; unsigned flags = vh_below(r, 4) | (vh_chance(r, 1, 8) ? 0 : 0);
    unsigned mode = (unsigned[]){ 0755, 0700, 0777, 0711, 0750, 0500, 0, 01777, 0300 }[vh_chance(r, 2, 3) ? vh_below(r, 3) : vh_below(r, 9)];
    rnd_path(r, rel, true); strcpy(path, absol(r, rel, A, vh_chance(r, 1, 3)));
    if (!contained(path)) return;
    struct cork_file *f = object(r, path, &slot); if (!contained(path)) { if (slot < 0) cork_file_free(f); return; }
    static const int kinds[] = { RACE_MKDIR, FAIL_MKDIR, EINTR_ALL }; rnd_inject(r, kinds, 3);
    struct stat st; int before = stat(path, &st) ? errno : 0; struct snap *S0 = S;
    vh_trace("mkdir \"%.300s\" %o flags %x inject %d at %d", path, mode, flags, inject, inject_at); int inj = inject;
    in_lib = true; int rc = cork_file_mkdir(f, mode, flags); in_lib = false; inject = NONE;
    VH_CHECK(rc == 0 || rc == -1, "mkdir-result", "mkdir returned %d", rc);
    if (rc == 0) no_error("mkdir"); else has_error("mkdir", before == 0 ? EEXIST : 0);
    S = snap_take(A);
    if (inj == FAIL_MKDIR && inject_hits) {
        VH_CHECK(rc == -1, "mkdir-fault", "mkdir succeeded although the system failed"); vh_count("faults injected", 1);
        for (int i = 0; i < S0->n; i++) { const char *w = what_of(S, S0->e[i].path); VH_CHECK(w && !strcmp(w, S0->e[i].what), "mkdir-fault", "a failed mkdir changed \"%.300s\"", S0->e[i].path); }
        over = true;
    } else {
        bool raced = inj == RACE_MKDIR && inject_hits; if (raced) vh_count("races injected", 1); if (inj == EINTR_ALL && inject_hits) vh_count("interruptions injected", 1);
        in(B); int want = ref_mkdir(twin(path), mode, flags); in(A); struct snap *SB = snap_take(B);
        /* a competitor that makes the directory itself: with or without an error, unless permissive */
        if (rc != want && !(raced && !(flags & CORK_FILE_PERMISSIVE))) vh_fail("mkdir", "mkdir \"%.300s\" (%s) flags %x %s, the reference %s", path, before == 0 ? "exists" : strerror(before), flags, rc ? "failed" : "succeeded", want ? "failed" : "succeeded");
        same(S, SB, "mkdir-tree", vh_fmt("after mkdir \"%.300s\" flags %x", path, flags)); snap_free(SB);
        vh_count(rc ? "mkdirs refused" : S->n > S0->n ? S->n > S0->n + 1 ? "directories made with parents" : "directories made" : "existing directories accepted", 1);
    }
    snap_free(S0);
    if (vh_chance(r, 2, 3)) check_query(f, path, "after mkdir");
    if (slot < 0) cork_file_free(f);
    vh_sig(rc * 7 + flags * 3 + before);
}
static void do_remove(struct vh_rng *r)
{
    char rel[PATH_MAX * 3], path[PATH_MAX * 3], dir[PATH_MAX * 3]; int slot; unsigned flags = vh_below(r, 4);
    rnd_path(r, rel, false); strcpy(path, absol(r, rel, A, vh_chance(r, 1, 3))); if (special(path) || !contained(path)) return;
    struct cork_file *f = object(r, path, &slot); if (special(path) || !contained(path)) { if (slot < 0) cork_file_free(f); return; }
    /* the entry that is named */
    char target[PATH_MAX * 2] = "?"; char *s = strrchr(path, '/'), *d; strcpy(dir, path); if (s) dir[s - path] = 0; else strcpy(dir, ".");
    d = real_in(*dir ? dir : "/"); if (d) snprintf(target, sizeof target, "%s%s%s", d, *d ? "/" : "", s ? s + 1 : path);
    if (under("r", target) || !strcmp(target, "o")) { if (slot < 0) cork_file_free(f); return; }             /* our own directories */
    static const int kinds[] = { FAIL_UNLINK, FAIL_RMDIR, FAIL_READDIR, EINTR_ALL }; rnd_inject(r, kinds, 4);
    struct stat st; int before = lstat(path, &st) ? errno : 0; bool link = before == 0 && S_ISLNK(st.st_mode), isdir = before == 0 && S_ISDIR(st.st_mode); struct snap *S0 = S;
    vh_trace("remove \"%.300s\" flags %x inject %d at %d", path, flags, inject, inject_at); int inj = inject;
    in_lib = true; int rc = cork_file_remove(f, flags); in_lib = false; inject = NONE;
    VH_CHECK(rc == 0 || rc == -1, "remove-result", "remove returned %d", rc);
    if (rc == 0) no_error("remove"); else has_error("remove", before == ENOENT ? ENOENT : 0);
    S = snap_take(A); int removed = 0;
    for (int i = 0; i < S0->n; i++) {
        const char *w = what_of(S, S0->e[i].path); bool inside = under(S0->e[i].path, target);
        if (w) { VH_CHECK(!strcmp(w, S0->e[i].what), "remove-changed", "remove \"%.300s\" changed \"%.300s\" from %s to %s", path, S0->e[i].path, S0->e[i].what, w); VH_CHECK(!(inside && rc == 0), "remove-left", "remove \"%.300s\" succeeded but \"%.300s\" is still there", path, S0->e[i].path); }
        else { removed++; VH_CHECK(inside, "remove-outside", "remove \"%.300s\" also removed \"%.300s\"%s", path, S0->e[i].path, link ? " (it is a symbolic link)" : ""); VH_CHECK(rc == 0 || ((flags & CORK_FILE_RECURSIVE) && isdir && strcmp(S0->e[i].path, target)), "remove-failed", "a failed remove removed \"%.300s\"", S0->e[i].path); }
    }
    for (int i = 0; i < S->n; i++) VH_CHECK(what_of(S0, S->e[i].path), "remove-created", "remove created \"%.300s\"", S->e[i].path);
    if (removed > 1) VH_CHECK(flags & CORK_FILE_RECURSIVE, "remove-flag", "a non-recursive remove removed %d entries", removed);
    if (rc == 0 && before) VH_CHECK((before == ENOENT || before == ENOTDIR) && (flags & CORK_FILE_PERMISSIVE), "remove-missing", "removing the missing \"%.300s\" (%s) with flags %x succeeded", path, strerror(before), flags);
    if (inj != NONE && inj != EINTR_ALL && inject_hits) { VH_CHECK(rc == -1, "remove-fault", "remove succeeded although the system failed (%d)", inj); vh_count("faults injected", 1); over = true; }
    else {
        if (inj == EINTR_ALL && inject_hits) vh_count("interruptions injected", 1);
        in(B); int want = ref_remove(twin(path), flags); in(A);
        VH_CHECK(!(rc == -1 && want == 0), "remove", "remove \"%.300s\" flags %x failed, the reference succeeded", path, flags);
        if (rc) over = over || removed || want == 0; else if (want) over = true; else { struct snap *SB = snap_take(B); same(S, SB, "remove-tree", vh_fmt("after remove \"%.300s\" flags %x", path, flags)); snap_free(SB); }
        if (isdir && rc && (flags & CORK_FILE_RECURSIVE)) over = true;     /* the twins may have lost different entries */
        vh_count(rc ? before ? "missing files refused" : isdir ? "directories not removed" : "files not removed" : before ? "missing files accepted" : link ? "symbolic links removed" : isdir ? removed > 1 ? "trees removed" : "directories removed" : "files removed", 1);
    }
    snap_free(S0);
    if (vh_chance(r, 2, 3)) check_query(f, path, "after remove");
    if (slot < 0) cork_file_free(f);
    vh_sig(rc * 7 + flags * 3 + before + removed * 64);
}
/*------------------------------------------------------------- iteration */
struct iter { char *names[300]; int n, stop_at, result, nest; const char *dir; bool bad, done; };
static int count_iter(struct cork_file *c, const char *n, void *ud) { (void) c; (void) n; ++*(int *) ud; return 0; }
static int on_child(struct cork_file *child, const char *name, void *ud)
{
    struct iter *it = ud; char want[PATH_MAX * 3]; bool lib = in_lib; in_lib = false;
    VH_CHECK(!it->done, "iterate-after", "the iterator was called again after its result was not zero");
    size_t n = strlen(it->dir); snprintf(want, sizeof want, "%s%s%s", it->dir, n && it->dir[n - 1] == '/' ? "" : "/", name);
    VH_CHECK(!strcmp(cork_path_get(cork_file_path(child)), want), "iterate-path", "the child \"%.200s\" has the path \"%.300s\"", name, cork_path_get(cork_file_path(child)));
    if (it->n < 300) it->names[it->n] = strdup(name);
    it->n++;
    int inj = inject; inject = NONE; check_query(child, want, "child"); inject = inj;
    if (it->nest == it->n) { int k = 0; struct stat st; int fds = vh_open_fds(); if (stat(want, &st) == 0 && S_ISDIR(st.st_mode)) { struct cork_file *f = cork_file_new(want); inj = inject; inject = NONE; if (cork_file_iterate_directory(f, count_iter, &k)) { has_error("nested iteration", 0); } inject = inj; cork_file_free(f); } VH_CHECK(vh_open_fds() == fds, "descriptors", "a nested iteration left descriptors"); }
    errno = vh_errno_noise();        /* the iterator may leave any errno */
    in_lib = lib;
    if (it->n - 1 == it->stop_at) { it->done = true; return it->result; }
    return 0;
}
static int pcmp(const void *a, const void *b) { return strcmp(*(char *const *) a, *(char *const *) b); }
static void do_iterate(struct vh_rng *r)
{
    char rel[PATH_MAX * 3], path[PATH_MAX * 3]; int slot; rnd_path(r, rel, true); strcpy(path, absol(r, rel, A, vh_chance(r, 1, 3)));
    struct cork_file *f = object(r, path, &slot); DIR *d = opendir(path); int err = d ? 0 : errno; char *names[300]; int n = 0; struct dirent *de;
    if (d) { while ((de = readdir(d)) && n < 300) if (strcmp(de->d_name, ".") && strcmp(de->d_name, "..")) names[n++] = strdup(de->d_name); closedir(d); }
    struct iter it = { .dir = path, .stop_at = vh_chance(r, 1, 3) ? (int) vh_below(r, n + 2) : -1, .result = (int[]){ -1, 1, 7, INT_MIN, INT_MAX, -2 }[vh_below(r, 6)], .nest = vh_below(r, 8) };
    static const int kinds[] = { FAIL_READDIR, EINTR_ALL }; rnd_inject(r, kinds, 2); int inj = inject, fds = vh_open_fds();
    vh_trace("iterate \"%.300s\" (%d entries) stop %d result %d inject %d at %d", path, n, it.stop_at, it.result, inject, inject_at);
    in_lib = true; int rc = cork_file_iterate_directory(f, on_child, &it); in_lib = false; inject = NONE;
    VH_CHECK(vh_open_fds() == fds, "descriptors", "iterating left descriptors open");
    if (err) { VH_CHECK(rc == -1 && it.n == 0, "iterate-error", "iterating \"%.300s\" gave %d although it cannot be opened (%s)", path, rc, strerror(err)); has_error("iterate", err); vh_count("directories that cannot be read", 1); }
    else if (inj == FAIL_READDIR && inject_hits && !it.done) { VH_CHECK(rc == -1, "iterate-fault", "iterating succeeded although reading the directory failed"); has_error("iterate", EIO); vh_count("faults injected", 1); }
    else if (it.stop_at >= 0 && it.stop_at < n) { VH_CHECK(rc == it.result, "iterate-result", "iterating returned %d, the iterator %d", rc, it.result); VH_CHECK(it.n == it.stop_at + 1, "iterate-stop", "%d calls, stopped in call %d", it.n, it.stop_at); vh_count("iterations stopped", 1); cork_error_clear(); }
    else {
        VH_CHECK(rc == 0, "iterate", "iterating \"%.300s\" returned %d: %s", path, rc, cork_error_occurred() ? cork_error_message() : "no error"); no_error("iterate"); VH_CHECK(it.n == n, "iterate-count", "iterated over %d entries, expected %d", it.n, n);
        qsort(names, n, sizeof *names, pcmp); qsort(it.names, n, sizeof *names, pcmp); for (int i = 0; i < n; i++) VH_CHECK(!strcmp(names[i], it.names[i]), "iterate-names", "entry \"%.200s\", expected \"%.200s\"", it.names[i], names[i]);
        vh_count("directories iterated", 1); vh_count("entries iterated", n);
    }
    for (int i = 0; i < n; i++) free(names[i]);
    for (int i = 0; i < it.n && i < 300; i++) free(it.names[i]);
    struct snap *S1 = snap_take(A); same(S1, S, "iterate-tree", "after iterating"); snap_free(S1);
    if (slot < 0) cork_file_free(f); vh_sig((unsigned) rc + n * 3u);
}
/*------------------------------------------------------------- searching */
static void do_find(struct vh_rng *r)
{
    int n = vh_below(r, 6); static char dirs[6][PATH_MAX * 3]; static char full[6][PATH_MAX * 4]; int state[6], why[6]; char rel[PATH_MAX * 3];
    struct cork_path_list *l = cork_path_list_new_empty();
    if (vh_chance(r, 1, 2)) strcpy(rel, rnd_name(r)); else rnd_path(r, rel, false);
    for (int i = 0; i < n; i++) {
        rnd_path(r, dirs[i], false); strcpy(dirs[i], absol(r, dirs[i], A, vh_chance(r, 1, 3))); if (strchr(dirs[i], ':')) strcpy(dirs[i], "a");
        cork_path_list_add(l, cork_path_new(dirs[i]));
        struct cork_path *p = cork_path_join(cork_path_list_get(l, i), rel); strcpy(full[i], cork_path_get(p)); cork_path_free(p);
        struct stat st, ls; bool link = lstat(full[i], &ls) == 0 && S_ISLNK(ls.st_mode); errno = 0;
        /* 0 missing, 1 there, 2 either, 3 cannot tell: an error, or a link that may count as there (4) */
        state[i] = stat(full[i], &st) == 0 ? 1 : errno == ENOENT || errno == ENOTDIR ? link ? 2 : 0 : link ? 4 : 3; why[i] = errno;
    }
    vh_trace("find \"%.100s\" in \"%.600s\"", rel, cork_path_list_to_string(l)); int fds = vh_open_fds();
    in_lib = true; struct cork_file *f = cork_path_list_find_file(l, rel); in_lib = false; int err = 0;
    if (f) { no_error("find"); } else { VH_CHECK(cork_error_occurred(), "no-error", "find failed without an error"); err = cork_error_code(); cork_error_clear(); }
    bool ok = false;
    for (int i = 0; i <= n; i++) {
        if (i == n) { if (!f && err == ENOENT) ok = true; break; }
        if (f && state[i] && state[i] != 3 && !strcmp(full[i], cork_path_get(cork_file_path(f)))) { ok = true; break; }
        if (!f && state[i] >= 3 && err == why[i]) { ok = true; vh_count("searches that meet what cannot be examined", 1); break; }
        if (state[i] == 1 || state[i] == 3) break;      /* it cannot have gone on */
    }
    VH_CHECK(ok, "find", "searching \"%.100s\" in \"%.600s\" gave \"%.300s\" (error %d)", rel, cork_path_list_to_string(l), f ? cork_path_get(cork_file_path(f)) : "nothing", err);
    if (f) { check_query(f, cork_path_get(cork_file_path(f)), "found"); cork_file_free(f); }
    in_lib = true; struct cork_file_list *fl = cork_path_list_find_files(l, rel); in_lib = false; bool may_fail = false, must_fail = false; for (int i = 0; i < n; i++) { may_fail |= state[i] >= 3; must_fail |= state[i] == 3; }
    if (!fl) { VH_CHECK(may_fail, "find-all", "searching all files failed"); has_error("find_files", 0); }
    else if (must_fail) { VH_CHECK(0, "find-all", "searching all files succeeded although not every place can be examined"); }
    else {
        size_t k = 0; no_error("find_files");
        for (int i = 0; i < n; i++) {
            bool here = k < cork_file_list_size(fl) && !strcmp(cork_path_get(cork_file_path(cork_file_list_get(fl, k))), full[i]);
            if (state[i] == 1) VH_CHECK(here, "find-all", "\"%.300s\" was not found", full[i]);
            if (here && state[i] != 0 && state[i] != 3) k++;
        }
        VH_CHECK(k == cork_file_list_size(fl), "find-all", "%zu files found, expected %zu", cork_file_list_size(fl), k);
        vh_count("files found", k);
        struct cork_file *x = cork_file_new("zz"); cork_file_list_add(fl, x); VH_CHECK(cork_file_list_size(fl) == k + 1 && cork_file_list_get(fl, k) == x, "list-add", "an added file is not in the list");
        cork_file_list_free(fl);
    }
    fl = cork_file_list_new(l); VH_CHECK(cork_file_list_size(fl) == (size_t) n, "list", "a list of %d paths has %zu files", n, cork_file_list_size(fl));
    for (int i = 0; i < n; i++) { struct cork_file *g = cork_file_list_get(fl, i); VH_CHECK(!strcmp(cork_path_get(cork_file_path(g)), dirs[i]), "list", "file %d is \"%.200s\"", i, cork_path_get(cork_file_path(g))); if (vh_chance(r, 1, 4)) check_query(g, dirs[i], "listed"); }
    cork_file_list_free(fl); cork_path_list_free(l); VH_CHECK(vh_open_fds() == fds, "descriptors", "searching left descriptors open");
    vh_count("searches", 1);
}
/*--------------------------------------------------------------- threads */
struct job { pthread_t t; struct vh_rng r; char paths[8][200]; unsigned flags; int ok[8]; pthread_barrier_t *b; bool err; };
static void *worker(void *p)
{
    struct job *j = p; pthread_barrier_wait(j->b);
    for (int i = 0; i < 8; i++) {
        struct cork_file *f = cork_file_new(j->paths[i]); inject = NONE; int rc = cork_file_mkdir(f, 0755, j->flags); j->ok[i] = rc == 0;
        if (rc == 0 ? cork_error_occurred() : !cork_error_occurred()) j->err = true;
        cork_error_clear(); cork_file_free(f);
    }
    cork_error_clear(); return NULL;
}
static void do_threads(struct vh_rng *r)
{
    int n = 2 + vh_below(r, 4); struct job *j = calloc(n, sizeof *j); pthread_barrier_t b; pthread_barrier_init(&b, NULL, n); bool perm = vh_chance(r, 2, 3);
    char paths[8][200]; for (int k = 0; k < 8; k++) { strcpy(paths[k], "thr"); for (int d = 1 + vh_below(r, 6); d > 0; d--) sprintf(paths[k] + strlen(paths[k]), "/%c", 'a' + (int) vh_below(r, 3)); }
    if (mkdir("thr", 0755)) { free(j); return; }
    vh_trace("%d threads make directories, flags %s", n, perm ? "permissive" : "");
    for (int i = 0; i < n; i++) { int o = vh_below(r, 2) * vh_below(r, 8); for (int k = 0; k < 8; k++) strcpy(j[i].paths[k], paths[(k + o) % 8]); j[i].flags = CORK_FILE_RECURSIVE | (perm ? CORK_FILE_PERMISSIVE : 0); j[i].b = &b; }
    for (int i = 0; i < n; i++) pthread_create(&j[i].t, NULL, worker, &j[i]);
    for (int i = 0; i < n; i++) pthread_join(j[i].t, NULL);
    for (int k = 0; k < 8; k++) VH_CHECK(is_dir(paths[k]), "concurrent", "\"%s\" was not created", paths[k]);
    for (int i = 0; i < n; i++) { VH_CHECK(!j[i].err, "concurrent", "a thread's error state does not agree with its result"); if (perm) for (int k = 0; k < 8; k++) VH_CHECK(j[i].ok[k], "concurrent", "thread %d could not create \"%s\" although it was told to accept existing directories", i, j[i].paths[k]); }
    /* without PERMISSIVE nobody may create a directory twice */
    if (!perm) for (int k = 0; k < 8; k++) { int wins = 0; for (int i = 0; i < n; i++) for (int m = 0; m < 8; m++) wins += j[i].ok[m] && !strcmp(j[i].paths[m], paths[k]); VH_CHECK(wins <= 1, "concurrent", "%d threads created \"%s\"", wins, paths[k]); }
    vh_count("concurrent mkdirs", n * 8); pthread_barrier_destroy(&b); free(j);
    struct cork_file *f = cork_file_new("thr"); VH_CHECK(cork_file_remove(f, CORK_FILE_RECURSIVE) == 0 && !is_dir("thr"), "concurrent", "the directories could not be removed"); cork_file_free(f);
}
void vh_setup(void)
{
    vh_crowd = 20; vh_bare = 20;
    if (!vh_drop_privileges()) vh_broken("cannot become an unprivileged user");
    vh_alloc_threadsafe = true; vh_alloc_install(); VH_WARM_ERRORS();
    for (int i = 0; i < 3; i++) { cork_error_set_printf(1, "%5000s", "x"); cork_error_prefix_string("y"); cork_error_set_printf(1, "%9000s", "x"); } cork_error_clear();
}
void vh_case(struct vh_rng *r, uint64_t index)
{
    static char real[PATH_MAX]; if (!real[0] && !realpath(vh.scratch, real)) vh_broken("scratch");
    snprintf(A, sizeof A, "%s/A", real); snprintf(B, sizeof B, "%s/B", real);
    umask(0); tree_gen(&T, r, 4 + vh_below(r, 50), vh_chance(r, 1, 2)); tree_build(&T, A); tree_build(&T, B);
    umask((int[]){ 0, 022, 077, 027 }[vh_below(r, 4)]); in(A);
    uint64_t serial = vh_alloc_serial(); int fds = vh_open_fds(); over = false; S = snap_take(A);
    int ops = 1 + vh_below(r, 30);
    for (int k = 0; k < ops && !over; k++) {
        switch (vh_below(r, 10)) {
        case 0: case 1: case 2: do_mkdir(r); break;
        case 3: case 4: case 5: do_remove(r); break;
        case 6: do_iterate(r); break;
        case 7: case 8: { char rel[PATH_MAX * 3], *p; rnd_path(r, rel, true); p = absol(r, rel, A, vh_chance(r, 1, 3)); struct cork_file *f = cork_file_new(p); vh_trace("query \"%.300s\"", p); check_query(f, p, "fresh"); cork_file_free(f); break; }
        case 9: do_find(r); break;
        }
        VH_CHECK(vh_open_fds() == fds, "descriptors", "descriptors left open");
    }
    for (int i = 0; i < 4; i++) if (keep[i]) { cork_file_free(keep[i]); keep[i] = NULL; }
    if (index % 64 == 0) { const char *dev[] = { "/dev/null", "/", "/proc/self/exe", "" }; for (int i = 0; i < 4; i++) { struct cork_file *f = cork_file_new(dev[i]); check_query(f, dev[i], "fixed"); cork_file_free(f); } }
    snap_free(S); vh_alloc_expect_balanced(serial, "leak");
    if (vh_chance(r, 1, 10)) do_threads(r);         /* every thread keeps an error state */
    if (chdir(real)) vh_broken("chdir"); vh_rm_rf(vh_fmt("%s/A", vh.scratch)); vh_rm_rf(vh_fmt("%s/B", vh.scratch));
    if (ops > 2) vh_nontrivial();
    if (vh_want_sample()) vh_sample("%d entries, %d operations", T.n, ops);
}
