/* Random file trees, built twice (once for the library, once for a reference
 * implementation), and snapshots of them.  Everything is below vh.scratch and
 * the process is unprivileged. */
#include <dirent.h>
#include <fcntl.h>
#include <limits.h>
#include <sys/stat.h>

#define MAXE 60
struct ent { char path[1500]; char type; char target[300]; int mode; int size; };    /* d f l p */
struct tree { struct ent e[MAXE]; int n; };

static const char *rnd_name(struct vh_rng *r)
{
    static char b[4][260]; static int k; char *s = b[k = (k + 1) & 3];
    static const char *const n[] = { "a", "b", "c", "d e", ".hid", "...", "..x", "\n", "\xff\xfe", "-rf", "*", "~", "a:b", "%s", "A", "x.y" };
    if (vh_chance(r, 1, 25)) { int l = vh_chance(r, 1, 2) ? 255 : 1 + vh_below(r, 255); for (int i = 0; i < l; i++) s[i] = "long"[i & 3]; s[l] = 0; return s; }
    if (vh_chance(r, 1, 2)) return n[vh_below(r, 3)];
    return n[vh_below(r, sizeof n / sizeof *n)];
}
/* roots "r" (operated on) and "o" (reached by links only) */
static void tree_gen(struct tree *t, struct vh_rng *r, int n, bool perms)
{
    t->n = 0;
    for (int i = 0; i < 2; i++) { struct ent *e = &t->e[t->n++]; memset(e, 0, sizeof *e); strcpy(e->path, i ? "o" : "r"); e->type = 'd'; e->mode = 0755; }
    for (int tries = 0; tries < n && t->n < MAXE; tries++) {
        struct ent *e = &t->e[t->n]; memset(e, 0, sizeof *e);
        int up; do up = vh_chance(r, 1, 3) ? (int) vh_below(r, t->n) : vh_chance(r, 1, 4) ? 1 : vh_chance(r, 1, 2) ? t->n - 1 : 0; while (t->e[up].type != 'd');
        if (strlen(t->e[up].path) > 1000) continue;
        sprintf(e->path, "%s/%s", t->e[up].path, rnd_name(r));
        bool dup = false; for (int i = 0; i < t->n; i++) if (!strcmp(t->e[i].path, e->path)) dup = true;
        if (dup) continue;
        int k = vh_below(r, 20);
        e->type = k < 9 ? 'd' : k < 14 ? 'f' : k < 19 ? 'l' : 'p'; e->mode = e->type == 'd' ? 0755 : 0644;
        if (e->type == 'd' && perms && vh_chance(r, 1, 6)) e->mode = (int[]){ 0500, 0300, 0, 0100, 0400, 0700, 0777 }[vh_below(r, 7)];
        if (e->type == 'f') { e->size = vh_below(r, 100); if (vh_chance(r, 1, 6)) e->mode = (int[]){ 0, 0400, 0755, 0200 }[vh_below(r, 4)]; }
        if (e->type == 'l') {
            /* relative to the link's directory: up to the top, then down */
            char tg[3000] = ""; int depth = 0; for (char *c = e->path; *c; c++) depth += *c == '/';
            switch (vh_below(r, 8)) {
            case 0: strcpy(tg, rnd_name(r)); break;                                 /* sibling, possibly itself or missing */
            case 1: strcpy(tg, vh_chance(r, 1, 2) ? "." : depth > 1 ? ".." : "."); break;
            case 2: strcpy(tg, strrchr(e->path, '/') + 1); break;                   /* loop */
            case 3: strcpy(tg, "missing/x"); break;
            default: { for (int i = 0; i < depth; i++) strcat(tg, "../"); strcat(tg, t->e[vh_below(r, t->n)].path); if (vh_chance(r, 1, 8)) strcat(tg, "/"); break; }
            }
            if (strlen(tg) >= sizeof e->target) strcpy(tg, "missing");
            strcpy(e->target, tg);
        }
        t->n++;
    }
}
static void tree_build(const struct tree *t, const char *base)
{
    if (mkdir(base, 0755)) vh_broken("mkdir %s: %s", base, strerror(errno));
    int b = open(base, O_DIRECTORY | O_CLOEXEC); if (b < 0) vh_broken("open %s", base);
    for (int i = 0; i < t->n; i++) {
        const struct ent *e = &t->e[i]; int rc = 0;
        switch (e->type) {
        case 'd': rc = mkdirat(b, e->path, 0755); break;
        case 'f': { int fd = openat(b, e->path, O_WRONLY | O_CREAT | O_EXCL | O_CLOEXEC, 0600); rc = fd < 0 ? -1 : 0; char c[100]; memset(c, 'a' + i % 26, sizeof c); if (rc == 0 && write(fd, c, e->size) != e->size) rc = -1; if (fd >= 0) { fchmod(fd, e->mode); close(fd); } break; }
        case 'l': rc = symlinkat(e->target, b, e->path); break;
        case 'p': rc = mkfifoat(b, e->path, 0644); break;
        }
        if (rc) vh_broken("cannot create %s: %s", e->path, strerror(errno));
        struct timespec ts[2] = { { 1000, 0 }, { 2000 + i, 0 } }; if (e->type == 'f') utimensat(b, e->path, ts, 0);
    }
    for (int i = t->n - 1; i >= 0; i--) if (t->e[i].type == 'd' && fchmodat(b, t->e[i].path, t->e[i].mode, 0)) vh_broken("chmod");
    close(b);
}
/* a snapshot: sorted lines "path\0type mode detail" */
struct snap { struct { char *path; char *what; } e[600]; int n; };
static int snap_cmp(const void *a, const void *b) { return strcmp(*(char *const *) a, *(char *const *) b); }
static void snap_at(struct snap *s, int dirfd, const char *rel)
{
    int fd = openat(dirfd, ".", O_DIRECTORY | O_CLOEXEC); DIR *d = fd < 0 ? NULL : fdopendir(fd); struct dirent *de;
    if (!d) vh_broken("snapshot of %s: %s", rel, strerror(errno));
    while ((de = readdir(d))) {
        if (!strcmp(de->d_name, ".") || !strcmp(de->d_name, "..")) continue;
        struct stat st; char p[PATH_MAX * 2]; struct vstr w; vstr_init(&w);
        if (fstatat(dirfd, de->d_name, &st, AT_SYMLINK_NOFOLLOW)) vh_broken("snapshot: %s", strerror(errno));
        snprintf(p, sizeof p, "%s%s%s", rel, *rel ? "/" : "", de->d_name);
        vstr_addf(&w, "%o ", st.st_mode);
        if (S_ISREG(st.st_mode)) {
            vstr_addf(&w, "%ld %ld ", (long) st.st_size, (long) st.st_mtime);
            if (!(st.st_mode & 0400)) fchmodat(dirfd, de->d_name, st.st_mode | 0400, 0);
            int f = openat(dirfd, de->d_name, O_RDONLY | O_CLOEXEC | O_NOFOLLOW); char c[4096]; ssize_t k = f < 0 ? -1 : read(f, c, sizeof c);
            if (k < 0) vh_broken("snapshot: cannot read %s: %s", p, strerror(errno));
            vstr_addf(&w, "%016" PRIx64, vh_hash64(c, k)); close(f);
            if (!(st.st_mode & 0400)) fchmodat(dirfd, de->d_name, st.st_mode, 0);
        } else if (S_ISLNK(st.st_mode)) { char c[PATH_MAX]; ssize_t k = readlinkat(dirfd, de->d_name, c, sizeof c); if (k < 0) vh_broken("readlink"); vstr_add(&w, c, k); }
        if (s->n >= 600) vh_broken("snapshot too large");
        s->e[s->n].path = strdup(p); s->e[s->n].what = strdup(vstr_z(&w)); s->n++; vstr_done(&w);
        if (S_ISDIR(st.st_mode)) {
            if ((st.st_mode & 0700) != 0700) fchmodat(dirfd, de->d_name, st.st_mode | 0700, 0);
            int sub = openat(dirfd, de->d_name, O_DIRECTORY | O_CLOEXEC | O_NOFOLLOW); if (sub < 0) vh_broken("snapshot: cannot open %s: %s", p, strerror(errno));
            snap_at(s, sub, p); close(sub);
            if ((st.st_mode & 0700) != 0700) fchmodat(dirfd, de->d_name, st.st_mode & 07777, 0);
        }
    }
    closedir(d);
}
static struct snap *snap_take(const char *base)
{
    struct snap *s = calloc(1, sizeof *s); int fd = open(base, O_DIRECTORY | O_CLOEXEC); if (fd < 0) vh_broken("snapshot %s", base);
    snap_at(s, fd, ""); close(fd); qsort(s->e, s->n, sizeof s->e[0], snap_cmp); return s;
}
static void snap_free(struct snap *s) { for (int i = 0; i < s->n; i++) { free(s->e[i].path); free(s->e[i].what); } free(s); }
static bool under(const char *p, const char *top) { size_t n = strlen(top); return !strncmp(p, top, n) && (p[n] == 0 || p[n] == '/'); }
