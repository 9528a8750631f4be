/* C15: every byte goes through the chosen allocator and is freed with its true
 * size.  Library code runs with in_lib set; direct calls of the C allocator
 * from it are intercepted and refused.  MINIMAL: the application's allocator
 * has only the two mandatory methods. */
/* This file is also "a library" with an allocator of its own, if lib2 is set. */
struct cork_alloc;
static const struct cork_alloc *lib2;
#define cork_current_allocator() (lib2 ? lib2 : cork_allocator)
#include "vh.h"
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <libcork/core.h>
#include <libcork/ds.h>
#include <libcork/os.h>
#include <libcork/threads.h>
#include <libcork/helpers/gc.h>

static __thread int in_lib, in_alloc;
static uint64_t through; static long held;  /* blocks obtained from the application's allocator */
#define HELD(d) __atomic_add_fetch(&held, d, __ATOMIC_SEQ_CST)
#define LIB(x) do { in_lib++; x; in_lib--; } while (0)
#define INTERCEPT(name) \
    if (in_lib > 0 && in_alloc == 0) { in_lib = -1000000; vh_fail("bypass", "library code called %s() directly instead of the application's allocator", name); }
void *__real_malloc(size_t); void *__wrap_malloc(size_t n) { INTERCEPT("malloc") return __real_malloc(n); }
void *__real_calloc(size_t, size_t); void *__wrap_calloc(size_t a, size_t b) { INTERCEPT("calloc") return __real_calloc(a, b); }
void *__real_realloc(void *, size_t); void *__wrap_realloc(void *p, size_t n) { INTERCEPT("realloc") return __real_realloc(p, n); }
void __real_free(void *); void __wrap_free(void *p) { if (p) { INTERCEPT("free") } __real_free(p); }
char *__real_strdup(const char *); char *__wrap_strdup(const char *s) { INTERCEPT("strdup") return __real_strdup(s); }
char *__real_strndup(const char *, size_t); char *__wrap_strndup(const char *s, size_t n) { INTERCEPT("strndup") return __real_strndup(s, n); }
int __real_vasprintf(char **, const char *, va_list); int __wrap_vasprintf(char **o, const char *f, va_list a) { INTERCEPT("vasprintf") return __real_vasprintf(o, f, a); }
int __real_posix_memalign(void **, size_t, size_t); int __wrap_posix_memalign(void **o, size_t a, size_t n) { INTERCEPT("posix_memalign") return __real_posix_memalign(o, a, n); }
void *__real_aligned_alloc(size_t, size_t); void *__wrap_aligned_alloc(size_t a, size_t n) { INTERCEPT("aligned_alloc") return __real_aligned_alloc(a, n); }

/*------------------------------------------- the application's allocator */
static void *t_xmalloc(const struct cork_alloc *a, size_t n) { in_alloc++; through++; void *p = cork_alloc_xmalloc(a->parent, n); if (p) { memset(p, 0xa5, n); HELD(1); } in_alloc--; return p; }
static void t_free(const struct cork_alloc *a, void *p, size_t n) { in_alloc++; through++; HELD(-1); cork_alloc_free(a->parent, p, n); in_alloc--; }
static void *t_malloc(const struct cork_alloc *a, size_t n) { return t_xmalloc(a, n); }
static void *t_calloc(const struct cork_alloc *a, size_t c, size_t n) { in_alloc++; through++; void *p = cork_alloc_xcalloc(a->parent, c, n); if (p) HELD(1); in_alloc--; return p; }
static void *t_realloc(const struct cork_alloc *a, void *p, size_t o, size_t n) { in_alloc++; through++; bool fresh = p == NULL; p = cork_alloc_xrealloc(a->parent, p, o, n); if (p && fresh) HELD(1); in_alloc--; return p; }
static struct cork_alloc *monitor, *app;
static int ud_dummy;

/*--------------------------------------------------------------- the tour */
static char *rname(struct vh_rng *r)
{
    static char b[4][300]; static int k; char *s = b[k++ & 3]; size_t n = 1 + (vh_chance(r, 1, 8) ? vh_below(r, 280) : vh_below(r, 12));
    for (size_t i = 0; i < n; i++) s[i] = "abcdefgh_XYZ019"[vh_below(r, 15)];
    s[n] = 0; return s;
}
static void no_free(void *p) { (void) p; }
static int ok_cb(void *v) { (void) v; return 0; }
static struct cork_dir_walker walker;
static int walk_cb(struct cork_dir_walker *w, const char *a, const char *b, const char *c) { return 0; }
static int iter_cb(struct cork_file *c, const char *n, void *u) { bool e; return cork_file_exists(c, &e); }
struct cell { struct cell *next; };
_recurse_(cell) { recurse(gc, ((struct cell *) obj)->next, ud); }
_gc_no_free_(cell)

static void tour(struct vh_rng *r, int what)
{
    size_t n = vh_chance(r, 1, 4) ? vh_below(r, 300) : vh_below(r, 20);
    switch (what) {
    case 0: { cork_array(int) a; struct cork_raw_array raw; LIB(cork_array_init(&a)); for (size_t i = 0; i < n; i++) LIB(cork_array_append(&a, i)); LIB(cork_array_done(&a));
              LIB(cork_raw_array_init(&raw, 1 + n)); for (size_t i = 0; i < n; i++) LIB((void) cork_raw_array_append(&raw)); LIB(cork_raw_array_done(&raw));
              break; }
    case 1: { cork_array(const char *) a, b; LIB(cork_string_array_init(&a)); LIB(cork_string_array_init(&b));
              for (size_t i = 0; i < n; i++) { char *s = rname(r); LIB(cork_string_array_append(&a, s)); }
              LIB(cork_string_array_copy(&b, &a)); LIB(cork_array_clear(&a)); LIB(cork_array_done(&a)); LIB(cork_array_done(&b)); break; }
    case 2: { struct cork_buffer *b; LIB(b = cork_buffer_new()); for (size_t i = 0; i < n; i++) { char *s = rname(r); LIB(cork_buffer_append_printf(b, "%s %d", s, (int) i)); }
              if (vh_chance(r, 1, 2)) { struct cork_managed_buffer *m; LIB(m = cork_buffer_to_managed_buffer(b)); LIB(cork_managed_buffer_unref(m)); }
              else if (vh_chance(r, 1, 2)) { struct cork_slice s; LIB(cork_buffer_to_slice(b, &s)); LIB(cork_slice_finish(&s)); }
              else { struct cork_stream_consumer *c; LIB(c = cork_buffer_to_stream_consumer(b)); LIB(cork_stream_consumer_data(c, "xyz", 3, true)); LIB(cork_stream_consumer_free(c)); LIB(cork_buffer_free(b)); }
              break; }
    case 3: { struct cork_hash_table *t; LIB(t = vh_chance(r, 1, 2) ? cork_string_hash_table_new(n, 0) : cork_pointer_hash_table_new(n, 0));
              static char keys[320][8]; for (size_t i = 0; i < n; i++) { snprintf(keys[i], 8, "k%d", (int) i); LIB(cork_hash_table_put(t, keys[i], keys[i], NULL, NULL, NULL)); }
              for (size_t i = 0; i < n; i += 2) LIB(cork_hash_table_delete(t, keys[i], NULL, NULL));
              if (vh_chance(r, 1, 2)) LIB(cork_hash_table_clear(t)); if (vh_chance(r, 1, 2)) LIB(cork_hash_table_ensure_size(t, 3 * n)); LIB(cork_hash_table_free(t)); break; }
    case 4: { struct cork_managed_buffer *m; struct cork_slice s, c; char *z = rname(r); LIB(m = cork_managed_buffer_new_copy(z, strlen(z))); LIB(cork_managed_buffer_slice(&s, m, 0, 1)); LIB(cork_managed_buffer_unref(m)); LIB(cork_slice_copy(&c, &s, 0, 1)); LIB(cork_slice_finish(&s)); LIB(cork_slice_finish(&c));
              LIB(cork_slice_init_copy_once(&s, z, strlen(z))); LIB(cork_slice_copy(&c, &s, 0, strlen(z))); LIB(cork_slice_finish(&s)); LIB(cork_slice_finish(&c)); break; }
    case 5: { struct cork_mempool *p; size_t es = vh_below(r, 100); void *o[310]; LIB(p = cork_mempool_new_size_ex(es, es + 16 + vh_below(r, 500))); for (size_t i = 0; i < n; i++) LIB(o[i] = cork_mempool_new_object(p)); for (size_t i = 0; i < n; i++) LIB(cork_mempool_free_object(p, o[i])); LIB(cork_mempool_free(p)); break; }
    case 6: { struct cork_ring_buffer *b; LIB(b = cork_ring_buffer_new(n)); LIB(cork_ring_buffer_add(b, b)); LIB(cork_ring_buffer_free(b));
              struct cork_bitset *s; LIB(s = cork_bitset_new(n)); LIB(cork_bitset_clear(s)); LIB(cork_bitset_free(s)); break; }
    case 7: { struct cork_path *p, *q, *j; char *a = rname(r), *b = rname(r); LIB(p = cork_path_new(a)); LIB(q = cork_path_clone(p)); LIB(cork_path_append(q, b)); LIB(j = cork_path_join_path(p, q)); LIB(cork_path_free(p)); LIB(p = cork_path_basename(j)); LIB(cork_path_set_absolute(q)); LIB(cork_path_set_dirname(q)); LIB(cork_path_set(j, "/"));
              LIB(cork_path_free(p)); LIB(cork_path_free(q)); LIB(cork_path_free(j)); LIB(p = cork_path_cwd()); LIB(cork_path_free(p)); LIB(p = cork_path_home()); if (p) LIB(cork_path_free(p)); break; }
    case 8: { struct cork_path_list *l; struct cork_file_list *fl; LIB(l = cork_path_list_new("/tmp:/usr/x:/nonexistent")); struct cork_path *p; char *a = rname(r); LIB(p = cork_path_new(a)); LIB(cork_path_list_add(l, p)); LIB((void) cork_path_list_to_string(l)); LIB(fl = cork_path_list_find_files(l, "nope")); if (fl) LIB(cork_file_list_free(fl)); LIB(cork_error_clear()); LIB(cork_path_list_free(l));
              LIB(l = cork_path_config_paths()); if (l) LIB(cork_path_list_free(l)); LIB(l = cork_path_data_paths()); if (l) LIB(cork_path_list_free(l)); LIB(cork_error_clear()); break; }
    case 9: { struct cork_env *e; LIB(e = vh_chance(r, 1, 2) ? cork_env_new() : cork_env_clone_current()); for (size_t i = 0; i < n; i++) { char *k = rname(r), *v = rname(r); LIB(cork_env_add(e, k, v)); if (vh_chance(r, 1, 2)) LIB(cork_env_add_printf(e, k, "<%s>", v)); if (vh_chance(r, 1, 3)) LIB(cork_env_remove(e, k)); }
              if (vh_chance(r, 1, 2)) { LIB(cork_env_free(e)); break; }
              struct cork_exec *x; LIB(x = cork_exec_new_with_params("prog", "a", "b", NULL)); for (size_t i = 0; i < n; i++) { char *v = rname(r); LIB(cork_exec_add_param(x, v)); } LIB(cork_exec_set_cwd(x, "/x")); if (vh_chance(r, 1, 2)) LIB(cork_exec_set_cwd(x, "/yy")); LIB(cork_exec_set_env(x, e));
              if (vh_chance(r, 1, 2)) { LIB(e = cork_env_new()); LIB(cork_exec_set_env(x, e)); }
              if (vh_chance(r, 1, 2)) { LIB(cork_exec_free(x)); break; }
              struct cork_subprocess *s; LIB(s = cork_subprocess_new_exec(x, NULL, NULL, NULL)); struct cork_subprocess_group *g; LIB(g = cork_subprocess_group_new()); LIB(cork_subprocess_group_add(g, s)); LIB(cork_subprocess_group_free(g)); break; }
    case 10: { struct cork_subprocess *s; LIB(s = cork_subprocess_new(&ud_dummy, no_free, ok_cb, NULL, NULL, NULL)); LIB(cork_subprocess_free(s)); break; }
    case 11: { struct cell *c = NULL, *d; for (size_t i = 0; i < n; i++) { LIB(d = cork_gc_new(cell)); d->next = c; c = d; } if (c && vh_chance(r, 1, 2)) { d = c; while (d->next) d = d->next; d->next = cork_gc_incref(c); } LIB(cork_gc_decref(c)); LIB(cork_gc_done()); break; }
    case 12: { struct cork_file *f; char p[700]; snprintf(p, sizeof p, "%s/a/%s/%s", vh.scratch, rname(r), rname(r)); bool e; LIB(f = cork_file_new(p)); LIB(cork_file_mkdir(f, 0755, CORK_FILE_RECURSIVE | CORK_FILE_PERMISSIVE)); LIB(cork_file_exists(f, &e)); LIB((void) cork_file_path(f)); LIB(cork_file_free(f));
               LIB(cork_walk_directory(vh.scratch, &walker)); LIB(f = cork_file_new(vh.scratch)); LIB(cork_file_iterate_directory(f, iter_cb, NULL)); LIB(cork_file_free(f)); LIB(cork_error_clear());
               snprintf(p, sizeof p, "%s/a", vh.scratch); vh_rm_rf(p); break; }
    case 13: { const char *s, *t; char *a = rname(r); LIB(s = cork_strdup(a)); LIB(t = cork_strndup(a, strlen(a) / 2)); VH_CHECK(!strcmp(s, a) && strlen(t) == strlen(a) / 2, "strdup", "string copies are wrong"); LIB(cork_strfree(s)); LIB(cork_strfree(t)); LIB(s = cork_xstrdup(a)); LIB(cork_strfree(s)); break; }
    case 14: { struct cork_stream_consumer *c; char p[600]; snprintf(p, sizeof p, "%s/f", vh.scratch); LIB(c = cork_file_from_path_consumer_new(p, O_WRONLY | O_CREAT)); if (c) { LIB(cork_stream_consumer_data(c, "abc", 3, true)); LIB(cork_stream_consumer_eof(c)); LIB(cork_stream_consumer_free(c)); } LIB(c = cork_fd_consumer_new(1)); LIB(cork_stream_consumer_free(c)); LIB(c = cork_file_consumer_new(stdout)); LIB(cork_stream_consumer_free(c)); break; }
    case 15: { for (size_t i = 0; i < n; i++) { LIB(cork_error_set_printf(7, "%*d", (int) i, 5)); LIB(cork_error_prefix_printf("%d: ", (int) i)); } LIB(cork_error_clear()); break; }
    case 16: { struct cork_thread *t; LIB(t = cork_thread_new("name", &ud_dummy, no_free, ok_cb)); LIB(cork_thread_free(t)); break; }
    }
    static const char *names[] = { "arrays", "string arrays", "buffers", "hash tables", "slices", "pools", "rings and bit sets", "paths", "path lists", "environments", "subprocess objects", "collected objects", "files", "strings", "file consumers", "errors", "threads" };
    vh_count(vh_fmt("toured %s", names[what]), 1);
}

/*---------------------------------------------- defaults of two-method allocators */
struct two { const struct cork_alloc *self; int budget; size_t asked, freed_size; void *freed; int mallocs, frees; } two;
static bool zero_ok;
static void *two_xmalloc(const struct cork_alloc *a, size_t n)
{
    struct two *t = a->user_data;
    VH_CHECK(t == &two, "user-data", "allocator method sees other user data");
    in_alloc++; t->mallocs++; t->asked = n;
    void *p = t->budget-- == 0 || n > ((size_t) 1 << 40) ? NULL : cork_alloc_xmalloc(a->parent, n);
    if (p) memset(p, 0xa5, n);
    in_alloc--; return p;
}
static void two_free(const struct cork_alloc *a, void *p, size_t n) { struct two *t = a->user_data; in_alloc++; t->frees++; t->freed = p; t->freed_size = n; cork_alloc_free(a->parent, p, n); in_alloc--; }
static void pat(unsigned char *p, size_t n, unsigned k) { for (size_t i = 0; i < n; i++) p[i] = (unsigned char) (i * 13 + k); }
static void chk(const unsigned char *p, size_t n, unsigned k, const char *key) { for (size_t i = 0; i < n; i++) if (p[i] != (unsigned char) (i * 13 + k)) vh_fail(key, "byte %zu of %zu not preserved", i, n); }

/* run something in a child that has to abort */
static int child(void (*fn)(const struct cork_alloc *, int), const struct cork_alloc *a, int how)
{
    fflush(NULL);
    pid_t p = fork();
    if (p < 0) vh_broken("fork");
    if (p == 0) { signal(SIGABRT, SIG_DFL); int fd = open("/dev/null", O_WRONLY); dup2(fd, 2); fn(a, how); _exit(7); }
    int st; while (waitpid(p, &st, 0) < 0) if (errno != EINTR) vh_broken("waitpid");
    return st;
}
static void abort_call(const struct cork_alloc *a, int how)
{
    void *p = cork_alloc_malloc(a, 10);
    two.budget = 0;
    switch (how) {
    case 0: cork_alloc_malloc(a, 100); break;
    case 1: cork_alloc_calloc(a, 10, 10); break;
    case 2: cork_alloc_realloc(a, p, 10, 100); break;
    case 3: cork_alloc_strdup(a, "abc"); break;
    }
}
static void debug_bad_free(const struct cork_alloc *a, int how)
{
    void *p = cork_alloc_malloc(a, 10);
    cork_alloc_free(a, p, how);
}
/* sizes that nobody can serve: recoverable forms fail, the others abort */
static const struct cork_alloc *stdlib_alloc; static size_t huge_n, huge_c, huge_s;
static void huge_call(const struct cork_alloc *a, int how)
{
    void *p = cork_alloc_malloc(a, 10);
    switch (how) {
    case 0: p = cork_alloc_malloc(a, huge_n); _exit(9);
    case 1: p = cork_alloc_calloc(a, huge_c, huge_s); _exit(9);
    case 2: p = cork_alloc_realloc(a, p, 10, huge_n); _exit(9);
    default: p = cork_alloc_xcalloc(a, huge_c, huge_s); _exit(p ? 9 : 7);
    }
}
static void huge(struct vh_rng *r, const struct cork_alloc *a, const char *name)
{
    huge_n = vh_chance(r, 1, 2) ? SIZE_MAX - vh_below(r, 40) : ((size_t) 1 << (45 + vh_below(r, 18))) + vh_below(r, 100);
    size_t n = 1 + vh_below(r, 200); unsigned char *q = cork_alloc_malloc(a, n); pat(q, n, 9);
    void *p = cork_alloc_xmalloc(a, huge_n); VH_CHECK(!p, "huge", "%s: xmalloc of %zu bytes succeeded", name, huge_n);
    p = cork_alloc_xrealloc(a, q, n, huge_n); VH_CHECK(!p, "huge", "%s: xrealloc to %zu bytes succeeded", name, huge_n); chk(q, n, 9, "huge");
    if (vh_chance(r, 1, 2)) { p = cork_alloc_xreallocf(a, q, n, huge_n); VH_CHECK(!p, "huge", "%s: xreallocf to %zu bytes succeeded", name, huge_n); } else cork_alloc_free(a, q, n);
    vh_count("impossible sizes", 3);
    if (vh_chance(r, 1, 8)) {
        huge_s = 2 + vh_below(r, 100); huge_c = SIZE_MAX / huge_s + 1 + vh_below(r, 30); int how = vh_below(r, 4), st = child(huge_call, a, how);
        VH_CHECK(how == 3 ? WIFEXITED(st) && WEXITSTATUS(st) == 7 : WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT, "huge", "%s: form %d of %zu bytes or %zu*%zu did not fail (status %x)", name, how, huge_n, huge_c, huge_s, st);
        vh_count("impossible sizes in a child", 1);
    }
}
static struct cork_alloc *mk_two(const struct cork_alloc *parent)
{
    struct cork_alloc *a = cork_alloc_new_alloc(parent);
    VH_CHECK(a->parent == parent, "parent", "new allocator has another parent");
    cork_alloc_set_xmalloc(a, two_xmalloc); cork_alloc_set_free(a, two_free); cork_alloc_set_user_data(a, &two, NULL);
    return a;
}
static struct cork_alloc *shared_two, *shared_debug;
static void defaults(struct vh_rng *r)
{
    const struct cork_alloc *a = shared_two; uint64_t serial = vh_alloc_serial();
    memset(&two, 0, sizeof two); two.budget = -1;
    size_t n = vh_size(r, 3000), m = vh_size(r, 3000), c = vh_below(r, 40), s = vh_below(r, 60); unsigned k = vh_below(r, 256); unsigned char *p, *q;
    if (vh_chance(r, 1, 2)) { zero_ok = true; if (vh_chance(r, 1, 4)) c = 0; if (vh_chance(r, 1, 4)) s = 0; } else { c++; s++; }
    bool dbg = vh_chance(r, 1, 4); if (dbg) a = shared_debug;
    vh_trace("n %zu m %zu calloc %zu*%zu debug %d", n, m, c, s, dbg);
    size_t extra = dbg ? sizeof(size_t) : 0;
    bool x = vh_chance(r, 1, 2);
    p = x ? cork_alloc_xmalloc(a, n) : cork_alloc_malloc(a, n);
    VH_CHECK(p && two.asked == n + extra, "size", "malloc of %zu asked for %zu", n, two.asked);
    pat(p, n, k); int f0 = two.frees;
    q = vh_chance(r, 1, 2) ? cork_alloc_xrealloc(a, p, n, m) : cork_alloc_realloc(a, p, n, m);
    VH_CHECK(q && two.asked == m + extra, "size", "realloc to %zu asked for %zu", m, two.asked);
    chk(q, n < m ? n : m, k, "realloc");
    VH_CHECK(two.frees == f0 + 1 && two.freed_size == n + extra, "realloc", "the old block was released %d times, with size %zu instead of %zu", two.frees - f0, two.freed_size, n);
    if (vh_chance(r, 1, 2)) {           /* recoverable failure */
        pat(q, m, k + 1); two.budget = 0; f0 = two.frees; bool rf = vh_chance(r, 1, 2); size_t big = m + vh_below(r, 3) * 100 ;
        void *z = rf ? cork_alloc_xreallocf(a, q, m, big) : cork_alloc_xrealloc(a, q, m, big);
        VH_CHECK(z == NULL, "recoverable", "failed reallocation returned %p", z);
        two.budget = -1;
        if (rf) VH_CHECK(two.frees == f0 + 1, "recoverable", "xreallocf did not release the block");
        else { VH_CHECK(two.frees == f0, "recoverable", "failed xrealloc released the block"); chk(q, m, k + 1, "recoverable"); cork_alloc_free(a, q, m); }
        two.budget = 0; VH_CHECK(cork_alloc_xmalloc(a, n) == NULL, "recoverable", "failed xmalloc returned something");
        two.budget = 0; VH_CHECK(cork_alloc_xcalloc(a, 3, 4) == NULL, "recoverable", "failed xcalloc returned something");
        two.budget = 0; VH_CHECK(cork_alloc_xstrdup(a, "abc") == NULL, "recoverable", "failed xstrdup returned something");
        two.budget = 0; VH_CHECK(cork_alloc_xstrndup(a, "abc", 2) == NULL, "recoverable", "failed xstrndup returned something");
        two.budget = 0; VH_CHECK(cork_alloc_xrealloc(a, NULL, 0, 10) == NULL, "recoverable", "failed xrealloc of NULL returned something");
        two.budget = -1; vh_count("recoverable failures", 1);
    } else cork_alloc_free(a, q, m);
    if (vh_chance(r, 1, 2)) { q = cork_alloc_xrealloc(a, NULL, 0, m); VH_CHECK(q && two.asked == m + extra, "realloc", "realloc of NULL"); memset(q, 1, m); cork_alloc_free(a, q, m); }
    p = vh_chance(r, 1, 2) ? cork_alloc_calloc(a, c, s) : cork_alloc_xcalloc(a, c, s);
    VH_CHECK(p && two.asked == c * s + extra, "size", "calloc of %zu*%zu asked for %zu", c, s, two.asked);
    for (size_t i = 0; i < c * s; i++) VH_CHECK(p[i] == 0, "calloc", "byte %zu of calloc memory is 0x%02x", i, p[i]);
    memset(p, 7, c * s);
    cork_alloc_cfree(a, p, c, s);
    VH_CHECK(two.freed_size == c * s + extra, "size", "cfree(%zu,%zu) released %zu bytes", c, s, two.freed_size);
    /* strings */
    char src[400]; size_t len = vh_below(r, 390); vh_fill(r, src, len, 1); src[len] = 0; size_t cut = vh_below(r, len + 1);
    if (vh_chance(r, 1, 4) && cut) src[vh_below(r, cut)] = 0;   /* exact size, even over a NUL */
    size_t zlen = strlen(src);
    char *exact = malloc(cut + !cut); memcpy(exact, src, cut);
    const char *d1 = vh_chance(r, 1, 2) ? cork_alloc_strdup(a, src) : cork_alloc_xstrdup(a, src), *d2 = vh_chance(r, 1, 2) ? cork_alloc_strndup(a, exact, cut) : cork_alloc_xstrndup(a, exact, cut);
    VH_CHECK(d1 && d2 && !memcmp(d1, src, zlen + 1) && cork_strlen(d1) == zlen, "strdup", "copy of a %zu-character string", zlen);
    VH_CHECK(!memcmp(d2, exact, cut) && d2[cut] == 0 && cork_strlen(d2) == cut, "strdup", "copy of exactly %zu characters", cut);
    cork_alloc_strfree(a, d1); cork_alloc_strfree(a, d2); free(exact);
    vh_count("default-method allocations", 10);
    vh_alloc_expect_balanced(serial, "leak");
    if (vh_chance(r, 1, 10)) { int w = vh_below(r, 3); huge(r, w == 0 ? stdlib_alloc : w == 1 ? shared_two : shared_debug, w == 0 ? "standard allocator" : w == 1 ? "two-method allocator" : "debugging allocator"); vh_alloc_expect_balanced(serial, "leak"); }
    if (vh_chance(r, 1, 40)) {
        int how = vh_below(r, 4), st = child(abort_call, a, how);
        VH_CHECK(WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT, "guaranteed", "guaranteed form %d did not abort when out of memory (status %x)", how, st);
        vh_count("aborts on failure", 1);
        static const int bad[] = { 9, 11, 0, 18 };
        st = child(debug_bad_free, shared_debug, bad[how]);
        VH_CHECK(WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT, "debug", "the debugging allocator accepted a release with the wrong size (status %x)", st);
    }
}

/*------------------------------------- allocators with some of the methods */
enum { M_MALLOC, M_CALLOC, M_REALLOC, M_XCALLOC, M_XREALLOC, M_OPT };
static struct cork_alloc *some[1 << M_OPT]; static int some_ud[2], ud_released[2], met[M_OPT], some_gen;
static void some_ud_free(void *u) { ud_released[(int *) u - some_ud]++; }
static void saw(const struct cork_alloc *a, int m) { VH_CHECK((int *) a->user_data == &some_ud[some_gen], "user-data", "allocator method sees other user data"); met[m]++; in_alloc++; }
static void *s_malloc(const struct cork_alloc *a, size_t n) { saw(a, M_MALLOC); void *p = cork_alloc_malloc(a->parent, n); in_alloc--; return p; }
static void *s_calloc(const struct cork_alloc *a, size_t c, size_t n) { saw(a, M_CALLOC); void *p = cork_alloc_calloc(a->parent, c, n); in_alloc--; return p; }
static void *s_realloc(const struct cork_alloc *a, void *p, size_t o, size_t n) { saw(a, M_REALLOC); p = cork_alloc_realloc(a->parent, p, o, n); in_alloc--; return p; }
static void *s_xcalloc(const struct cork_alloc *a, size_t c, size_t n) { saw(a, M_XCALLOC); void *p = cork_alloc_xcalloc(a->parent, c, n); in_alloc--; return p; }
static void *s_xrealloc(const struct cork_alloc *a, void *p, size_t o, size_t n) { saw(a, M_XREALLOC); p = cork_alloc_xrealloc(a->parent, p, o, n); in_alloc--; return p; }
static void *s_xmalloc(const struct cork_alloc *a, size_t n) { in_alloc++; void *p = cork_alloc_xmalloc(a->parent, n); if (p) memset(p, 0xa5, n); in_alloc--; return p; }
static void s_free(const struct cork_alloc *a, void *p, size_t n) { in_alloc++; cork_alloc_free(a->parent, p, n); in_alloc--; }
static void mk_some(void)
{
    for (int m = 0; m < 1 << M_OPT; m++) {
        struct cork_alloc *a = some[m] = cork_alloc_new_alloc(monitor);
        cork_alloc_set_xmalloc(a, s_xmalloc); cork_alloc_set_free(a, s_free);
        if (m >> M_MALLOC & 1) cork_alloc_set_malloc(a, s_malloc);
        if (m >> M_CALLOC & 1) cork_alloc_set_calloc(a, s_calloc);
        if (m >> M_REALLOC & 1) cork_alloc_set_realloc(a, s_realloc);
        if (m >> M_XCALLOC & 1) cork_alloc_set_xcalloc(a, s_xcalloc);
        if (m >> M_XREALLOC & 1) cork_alloc_set_xrealloc(a, s_xrealloc);
    }
}
/* the allocator the library starts with */
static void standard(struct vh_rng *r)
{
    const struct cork_alloc *a = stdlib_alloc; size_t n = 1 + vh_below(r, 3000), k = 1 + vh_below(r, 3000), c = 1 + vh_below(r, 40); unsigned seed = vh_below(r, 256); bool x = vh_chance(r, 1, 2);
    unsigned char *p = x ? cork_alloc_xmalloc(a, n) : cork_alloc_malloc(a, n);
    VH_CHECK(p, "standard", "no block of %zu bytes", n); pat(p, n, seed);
    p = vh_chance(r, 1, 2) ? cork_alloc_xrealloc(a, p, n, k) : cork_alloc_realloc(a, p, n, k);
    VH_CHECK(p, "standard", "no block of %zu bytes", k); chk(p, n < k ? n : k, seed, "standard");
    if (vh_chance(r, 1, 2)) { p = cork_alloc_xreallocf(a, p, k, n); VH_CHECK(p, "standard", "no block of %zu bytes", n); chk(p, n < k ? n : k, seed, "standard"); k = n; }
    cork_alloc_free(a, p, k);
    p = x ? cork_alloc_calloc(a, c, k) : cork_alloc_xcalloc(a, c, k);
    VH_CHECK(p, "standard", "no block of %zu*%zu bytes", c, k);
    for (size_t i = 0; i < c * k; i++) VH_CHECK(p[i] == 0, "calloc", "byte %zu of calloc memory is 0x%02x", i, p[i]);
    memset(p, 1, c * k); cork_alloc_cfree(a, p, c, k);
    p = x ? cork_alloc_malloc(a, n) : cork_alloc_calloc(a, 1, n); VH_CHECK(p, "standard", "no block"); memset(p, 2, n); cork_alloc_free(a, p, n);
    vh_count("calls of the standard allocator", 6);
}
/* the allocation functions in a library that aliases cork_current_allocator */
struct lib2_thing { char c[37]; };
static void own_allocator(struct vh_rng *r)
{
    uint64_t serial = vh_alloc_serial(), t0 = through; memset(&two, 0, sizeof two); two.budget = -1; lib2 = shared_two;
    size_t n = 1 + vh_below(r, 3000), m = 1 + vh_below(r, 3000), c = 1 + vh_below(r, 40), s = 1 + vh_below(r, 60); unsigned char *p; unsigned seed = vh_below(r, 256); bool x = vh_chance(r, 1, 2);
    char str[200]; size_t len = vh_below(r, 190); vh_fill(r, str, len, 1); str[len] = 0; size_t cut = vh_below(r, len + 1);
#define ASKED(k, what) do { VH_CHECK(two.asked == (size_t) (k), "own-allocator", "%s of %zu bytes asked the library's allocator for %zu", what, (size_t) (k), two.asked); two.asked = (size_t) -9; } while (0)
#define FREED(k, what) do { VH_CHECK(two.frees == 1 && two.freed_size == (size_t) (k), "own-allocator", "%s of %zu bytes released %d blocks, %zu bytes", what, (size_t) (k), two.frees, two.freed_size); two.frees = 0; } while (0)
    p = x ? cork_malloc(n) : cork_xmalloc(n); ASKED(n, "malloc"); pat(p, n, seed);
    switch (vh_below(r, 3)) { case 0: p = cork_realloc(p, n, m); break; case 1: p = cork_xrealloc(p, n, m); break; default: p = cork_xreallocf(p, n, m); }
    ASKED(m, "realloc"); FREED(n, "realloc"); chk(p, n < m ? n : m, seed, "own-allocator");
    cork_free(p, m); FREED(m, "free");
    p = x ? cork_calloc(c, s) : cork_xcalloc(c, s); ASKED(c * s, "calloc");
    for (size_t i = 0; i < c * s; i++) VH_CHECK(p[i] == 0, "calloc", "byte %zu of calloc memory is 0x%02x", i, p[i]);
    memset(p, 1, c * s); cork_cfree(p, c, s); FREED(c * s, "cfree");
    struct lib2_thing *t = x ? cork_new(struct lib2_thing) : cork_xnew(struct lib2_thing); ASKED(sizeof *t, "new"); memset(t, 1, sizeof *t); cork_delete(struct lib2_thing, t); FREED(sizeof *t, "delete");
    two.asked = 0; const char *d = x ? cork_strdup(str) : cork_xstrdup(str); VH_CHECK(two.asked > len && !strcmp(d, str) && cork_strlen(d) == len, "own-allocator", "strdup of %zu characters", len); two.asked = 0; cork_strfree(d); VH_CHECK(two.frees == 1, "own-allocator", "strfree released %d blocks", two.frees);
    d = x ? cork_strndup(str, cut) : cork_xstrndup(str, cut); VH_CHECK(two.asked > cut && !memcmp(d, str, cut) && d[cut] == 0 && cork_strlen(d) == cut, "own-allocator", "strndup of %zu characters", cut); cork_strfree(d); VH_CHECK(two.frees == 2, "own-allocator", "strfree released %d blocks", two.frees);
    if (vh_chance(r, 1, 3)) {   /* the forms that can fail do */
        two.budget = 0; VH_CHECK(!cork_xmalloc(n), "own-allocator", "failed xmalloc returned something");
        two.budget = 0; { void *z = cork_xcalloc(c, s); VH_CHECK(!z, "own-allocator", "failed xcalloc of %zu*%zu returned %p, budget %d", c, s, z, two.budget); }
        two.budget = 0; VH_CHECK(!cork_xstrdup(str), "own-allocator", "failed xstrdup returned something");
        two.budget = 0; VH_CHECK(!cork_xstrndup(str, cut), "own-allocator", "failed xstrndup returned something");
        two.budget = 0; VH_CHECK(!cork_xnew(struct lib2_thing), "own-allocator", "failed xnew returned something");
        two.budget = -1;
        p = cork_malloc(n); pat(p, n, seed); two.frees = 0; two.budget = 0;
        void *z = cork_xrealloc(p, n, n + m); VH_CHECK(!z && two.frees == 0, "own-allocator", "failed xrealloc returned something or released the block"); chk(p, n, seed, "own-allocator");
        two.budget = 0; z = cork_xreallocf(p, n, n + m); VH_CHECK(!z && two.frees == 1 && two.freed_size == n, "own-allocator", "failed xreallocf released %d blocks, %zu bytes instead of %zu", two.frees, two.freed_size, n);
        two.budget = -1;
    }
    lib2 = NULL;
    VH_CHECK(through == t0, "own-allocator", "another library's allocations used libcork's allocator");
    vh_alloc_expect_balanced(serial, "leak"); vh_count("allocations of a library with its own allocator", 5);
}
static void methods(struct vh_rng *r)
{
    int m = vh_below(r, 1 << M_OPT); struct cork_alloc *a = some[m]; uint64_t serial = vh_alloc_serial();
    size_t n = 1 + vh_below(r, 300), c = 1 + vh_below(r, 20), k = 1 + vh_below(r, 300); unsigned char *p; unsigned seed = vh_below(r, 256);
    some_gen = 0; memset(ud_released, 0, sizeof ud_released);
    cork_alloc_set_user_data(a, &some_ud[0], some_ud_free);
#define USED(w, what) VH_CHECK(met[w] == (m >> w & 1), "method", "%s called the allocator's own method %d times, it has %d", what, met[w], m >> w & 1)
#define CALL(x) do { memset(met, 0, sizeof met); x; } while (0)
    CALL(p = cork_alloc_malloc(a, n)); USED(M_MALLOC, "cork_alloc_malloc"); VH_CHECK(p, "method", "no block"); pat(p, n, seed);
    bool rec = vh_chance(r, 1, 2);
    if (rec) { CALL(p = cork_alloc_xrealloc(a, p, n, k)); USED(M_XREALLOC, "cork_alloc_xrealloc"); }
    else { CALL(p = cork_alloc_realloc(a, p, n, k)); USED(M_REALLOC, "cork_alloc_realloc"); }
    VH_CHECK(p, "method", "no block"); chk(p, n < k ? n : k, seed, "realloc"); cork_alloc_free(a, p, k);
    if (vh_chance(r, 1, 2)) {   /* other user data for the rest */
        cork_alloc_set_user_data(a, &some_ud[1], some_ud_free); some_gen = 1;
        VH_CHECK(ud_released[0] == 1 && !ud_released[1], "user-data", "user data released %d times when it was replaced", ud_released[0]);
    }
    if (vh_chance(r, 1, 2)) { CALL(p = cork_alloc_calloc(a, c, n)); USED(M_CALLOC, "cork_alloc_calloc"); }
    else { CALL(p = cork_alloc_xcalloc(a, c, n)); USED(M_XCALLOC, "cork_alloc_xcalloc"); }
    VH_CHECK(p, "method", "no block");
    for (size_t i = 0; i < c * n; i++) VH_CHECK(p[i] == 0, "calloc", "byte %zu of calloc memory is 0x%02x", i, p[i]);
    cork_alloc_cfree(a, p, c, n);
    int b = ud_released[some_gen]; cork_alloc_set_user_data(a, NULL, NULL);
    VH_CHECK(ud_released[some_gen] == b + 1, "user-data", "user data released %d times when it was taken away", ud_released[some_gen] - b);
    vh_alloc_expect_balanced(serial, "leak"); vh_count("calls of allocators with some methods", 4);
}

/*-------------------------------------------------------- release at exit */
static int log_fd; static const struct cork_alloc *made[12]; static int nmade;
static void ud_freed(void *u) { char b[2] = { 'U', 'a' + (int) (intptr_t) u }; if (write(log_fd, b, 2) != 2) _exit(99); }
static void *log_xmalloc(const struct cork_alloc *a, size_t n) { return cork_alloc_xmalloc(a->parent, n); }
static void log_free(const struct cork_alloc *a, void *p, size_t n)
{
    static int depth;       /* the parents' free functions log too */
    if (depth++ == 0) for (int i = 0; i < nmade; i++) if (made[i] == p) { char b[2] = { 'F', 'a' + i }; if (write(log_fd, b, 2) != 2) _exit(99); }
    cork_alloc_free(a->parent, p, n); depth--;
}
static void exit_order(struct vh_rng *r)
{
    int fd[2], n = 1 + vh_below(r, 10); bool has_ud[12];
    int par[12]; for (int i = 0; i < n; i++) { par[i] = (int) vh_below(r, i + 1) - 1; has_ud[i] = vh_chance(r, 2, 3); }
    if (pipe(fd)) vh_broken("pipe");
    fflush(NULL);
    pid_t p = fork();
    if (p < 0) vh_broken("fork");
    if (p == 0) {
        log_fd = fd[1]; close(fd[0]);
        /* a first allocator of our own, whose free function logs too */
        struct cork_alloc *root = cork_alloc_new_alloc(monitor);
        cork_alloc_set_xmalloc(root, log_xmalloc); cork_alloc_set_free(root, log_free);
        for (int i = 0; i < n; i++) {
            struct cork_alloc *a = cork_alloc_new_alloc(par[i] < 0 ? root : made[par[i]]);
            cork_alloc_set_xmalloc(a, log_xmalloc); cork_alloc_set_free(a, log_free);
            if (has_ud[i]) cork_alloc_set_user_data(a, (void *) (intptr_t) i, ud_freed);
            made[i] = a; nmade = i + 1;
        }
        exit(0);
    }
    close(fd[1]);
    char b[200]; size_t got = 0; ssize_t k;
    while (got < sizeof b && (k = read(fd[0], b + got, sizeof b - got)) != 0) { if (k < 0) { if (errno == EINTR) continue; break; } got += k; }
    close(fd[0]);
    int st; while (waitpid(p, &st, 0) < 0) if (errno != EINTR) vh_broken("waitpid");
    VH_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "exit", "process with %d allocators ended with status %x", n, st);
    size_t pos = 0;
    for (int i = n - 1; i >= 0; i--) {
        if (has_ud[i]) { VH_CHECK(pos + 2 <= got && b[pos] == 'U' && b[pos + 1] == 'a' + i, "exit-order", "event %zu at exit: user data of allocator %d expected, got %.2s", pos / 2, i, pos + 2 <= got ? b + pos : "--"); pos += 2; }
        VH_CHECK(pos + 2 <= got && b[pos] == 'F' && b[pos + 1] == 'a' + i, "exit-order", "event %zu at exit: allocator %d expected, got %.2s", pos / 2, i, pos + 2 <= got ? b + pos : "--"); pos += 2;
    }
    VH_CHECK(pos == got, "exit-order", "%zu releases too many at exit", (got - pos) / 2);
    vh_count("exits observed", 1);
}

/*------------------------- what the library keeps for itself goes at exit */
static void app_gone(void *u) { (void) u; char b[40]; int n = snprintf(b, sizeof b, "%ld", __atomic_load_n(&held, __ATOMIC_SEQ_CST)); if (write(log_fd, b, n + 1) != n + 1) _exit(99); }
static void *busy_thread(void *v)
{
    struct vh_rng r; vh_seed(&r, (uintptr_t) v, 3);
    for (int k = vh_below(&r, 5); k > 0; k--) switch (vh_below(&r, 5)) {
        case 0: cork_error_set_printf(9, "%*d", (int) vh_below(&r, 5000), 1); break;
        case 1: cork_error_prefix_string("before "); break;
        case 2: (void) cork_current_thread_get_id(); break;
        case 3: cork_gc_init(); break;
        case 4: { struct cell *c = cork_gc_new(cell); c->next = NULL; if (vh_chance(&r, 1, 2)) c->next = cork_gc_incref(c); cork_gc_decref(c); cork_gc_done(); break; }
    }
    return NULL;
}
static int failing_body(void *v) { busy_thread(v); cork_error_set_printf(77, "%*d", (int) ((uintptr_t) v % 3000), 1); return -1; }
static int fine_body(void *v) { busy_thread(v); return 0; }
static void cleaner_a(void) { cork_error_set_string(3, "cleaning up"); }
static void cleaner_b(void) { }
static void exit_balance(struct vh_rng *r)
{
    int fd[2]; if (pipe(fd)) vh_broken("pipe");
    uint64_t seed = vh_u64(r); fflush(NULL);
    pid_t p = fork();
    if (p < 0) vh_broken("fork");
    if (p == 0) {
        struct vh_rng q; vh_seed(&q, seed, 1); close(fd[0]); log_fd = fd[1];
        cork_alloc_set_user_data(app, NULL, NULL); cork_alloc_set_user_data(app, &log_fd, app_gone);
        for (int k = vh_below(&q, 4); k > 0; k--) {
            int n = 1 + vh_below(&q, 4); pthread_t t[4];
            switch (vh_below(&q, 4)) {
            case 0: for (int i = 0; i < n; i++) if (pthread_create(&t[i], NULL, busy_thread, (void *) (uintptr_t) vh_u64(&q))) _exit(98); for (int i = 0; i < n; i++) pthread_join(t[i], NULL); break;
            case 1: { struct cork_thread *c = cork_thread_new("exit", (void *) (uintptr_t) vh_u64(&q), no_free, vh_chance(&q, 1, 2) ? failing_body : fine_body); if (cork_thread_start(c)) _exit(98); cork_thread_join(c); break; }
            case 2: if (vh_chance(&q, 1, 2)) cork_cleanup_at_exit(-1 - (int) vh_below(&q, 50), cleaner_a); else cork_cleanup_at_exit_named("b", 3, cleaner_b); break;
            case 3: cork_error_set_printf(1, "%*d", (int) vh_below(&q, 5000), 1); if (vh_chance(&q, 1, 2)) cork_error_clear(); break;
            }
        }
        exit(0);
    }
    close(fd[1]);
    char b[60]; size_t got = 0; ssize_t k;
    while (got < sizeof b && (k = read(fd[0], b + got, sizeof b - got)) != 0) { if (k < 0) { if (errno == EINTR) continue; break; } got += k; }
    close(fd[0]);
    int st; while (waitpid(p, &st, 0) < 0) if (errno != EINTR) vh_broken("waitpid");
    VH_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "exit", "process ended with status %x", st);
    VH_CHECK(got > 0 && b[got - 1] == 0, "exit-order", "the application's allocator was not released at exit");
    VH_CHECK(!strcmp(b, "0"), "kept-at-exit", "%s blocks of the application's allocator were not released at exit", b);
    vh_count("exits with everything released", 1);
}

void vh_setup(void)
{
    stdlib_alloc = cork_allocator; monitor = vh_alloc_create();
    app = cork_alloc_new_alloc(monitor);
    cork_alloc_set_xmalloc(app, t_xmalloc); cork_alloc_set_free(app, t_free);
    if (!MINIMAL) {
        cork_alloc_set_malloc(app, t_malloc); cork_alloc_set_calloc(app, t_calloc); cork_alloc_set_xcalloc(app, t_calloc);
        cork_alloc_set_realloc(app, t_realloc); cork_alloc_set_xrealloc(app, t_realloc);
    }
    cork_set_allocator(app);
    VH_CHECK(cork_allocator == app, "set", "cork_set_allocator had no effect");
    two.budget = -1; shared_two = mk_two(monitor); shared_debug = cork_debug_alloc_new(shared_two);
    mk_some();
    walker.enter_directory = walk_cb; walker.file = walk_cb; walker.leave_directory = walk_cb;
    setenv("HOME", "/home/nobody", 1);
    cork_error_set_printf(1, "%4000s", "x"); cork_error_prefix_string("y"); cork_error_clear();
    cork_gc_init(); (void) cork_current_thread_get_id();
}
void vh_case(struct vh_rng *r, uint64_t index)
{
    uint64_t serial = vh_alloc_serial(), t0 = through; int steps = 1 + vh_below(r, 12);
    in_lib = in_alloc = 0;
    for (int k = 0; k < steps; k++) { int w = vh_below(r, 17); vh_sig(w); vh_trace("tour %d", w); tour(r, w); }
    vh_alloc_expect_balanced(serial, "leak");
    vh_count("calls of the application's allocator", through - t0); vh_evals(through - t0);
    defaults(r); methods(r); standard(r); own_allocator(r);
    if (vh_chance(r, 1, 30)) exit_order(r);
    /* (The main thread's pthread keys are never destroyed.) */
    if (CORK_CONFIG_HAVE_THREAD_STORAGE_CLASS && vh_chance(r, 1, 30)) exit_balance(r);
    vh_sig(through - t0);
    if (through - t0 > 10) vh_nontrivial();
    if (vh_want_sample()) vh_sample("%d library components used, %" PRIu64 " allocator calls", steps, through - t0);
}
