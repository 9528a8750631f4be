#include "vh.h"
#include <sys/resource.h>
#include <fcntl.h>
#include <dirent.h>
#include <grp.h>
#include <pthread.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <time.h>
#include <libcork/core.h>

#if defined(__has_feature)
#if __has_feature(address_sanitizer) || __has_feature(memory_sanitizer) || __has_feature(thread_sanitizer)
#define VH_SAN 1
#endif
#endif
#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
#define VH_SAN 1
#endif
#ifdef VH_SAN
void __sanitizer_set_death_callback(void (*cb)(void));
#endif

struct vh_opts vh;
unsigned vh_case_timeout = 60;

/*------------------------------------------------------------------ PRNG */
static uint64_t splitmix(uint64_t *x)
{
    uint64_t z = (*x += UINT64_C(0x9e3779b97f4a7c15));
    z = (z ^ (z >> 30)) * UINT64_C(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)) * UINT64_C(0x94d049bb133111eb);
    return z ^ (z >> 31);
}
void vh_seed(struct vh_rng *r, uint64_t a, uint64_t b)
{
    uint64_t x = a * UINT64_C(0x2545F4914F6CDD1D) + 0x1234567;
    x ^= splitmix(&b);
    for (int i = 0; i < 4; i++) r->s[i] = splitmix(&x);
}
static inline uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
#ifdef VH_FUZZ
static const unsigned char *fuzz_p;
static size_t fuzz_n;
static bool fuzz_take(unsigned k, uint64_t *out)
{
    uint64_t v = 0;
    if (fuzz_n < k) return false;
    for (unsigned i = 0; i < k; i++) v = v << 8 | fuzz_p[i];
    fuzz_p += k; fuzz_n -= k;
    *out = v;
    return true;
}
#endif
uint64_t vh_u64(struct vh_rng *r)
{
#ifdef VH_FUZZ
    uint64_t fv;
    if (fuzz_take(8, &fv)) return fv;
#endif
    uint64_t *s = r->s, res = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
    s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3];
    s[2] ^= t; s[3] = rotl(s[3], 45);
    return res;
}
uint64_t vh_below(struct vh_rng *r, uint64_t n)
{
    if (n == 0) return 0;
#ifdef VH_FUZZ
    uint64_t fv;
    if (fuzz_take(n <= 256 ? 1 : n <= 65536 ? 2 : 8, &fv)) return fv % n;
#endif
    return vh_u64(r) % n;
}
int64_t vh_range(struct vh_rng *r, int64_t lo, int64_t hi)
{
    return lo + (int64_t) vh_below(r, (uint64_t) (hi - lo) + 1);
}
size_t vh_size(struct vh_rng *r, size_t max)
{
    size_t v;
    switch (vh_below(r, 6)) {
    case 0: v = vh_below(r, 4); break;
    case 1: case 2: v = vh_below(r, 20); break;
    case 3: v = vh_below(r, 200); break;
    case 4: {
        unsigned k = (unsigned) vh_below(r, 20);
        v = ((size_t) 1 << k) + (size_t) vh_range(r, -2, 2);
        if ((int64_t) v < 0) v = 0;
        break;
    }
    default: v = vh_below(r, (uint64_t) max + 1); break;
    }
    return v > max ? (max == 0 ? 0 : v % (max + 1)) : v;
}
uint64_t vh_interesting64(struct vh_rng *r)
{
    switch (vh_below(r, 8)) {
    case 0: return vh_below(r, 16);
    case 1: return UINT64_MAX - vh_below(r, 16);
    case 2: return (UINT64_C(1) << vh_below(r, 64)) + (uint64_t) vh_range(r, -2, 2);
    case 3: return ~((UINT64_C(1) << vh_below(r, 64)) + (uint64_t) vh_range(r, -2, 2));
    case 4: { uint64_t b = vh_u64(r) & 0xff; return b * UINT64_C(0x0101010101010101); }
    case 5: return vh_u64(r) & vh_u64(r) & vh_u64(r);
    case 6: return vh_u64(r) >> vh_below(r, 64);
    default: return vh_u64(r);
    }
}
void vh_fill(struct vh_rng *r, void *buf, size_t len, int mode)
{
    unsigned char *p = buf;
    for (size_t i = 0; i < len; i++) {
        uint64_t v = vh_u64(r);
        switch (mode) {
        case 1: p[i] = 0x20 + v % 95; break;
        case 2: p[i] = (v % 16 == 0) ? '\n' : (v % 16 == 1) ? (v >> 8) % 32 : 0x20 + (v >> 8) % 95; break;
        case 3: p[i] = "ab\n\0\x7f\xff\"\\"[v % 8]; break;
        default: p[i] = v; break;
        }
    }
}
uint64_t vh_hash64(const void *p, size_t n)
{
    const unsigned char *c = p;
    uint64_t h = UINT64_C(1469598103934665603);
    for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= UINT64_C(1099511628211); }
    return h;
}

/*--------------------------------------------------------------- tracing */
#define TRACE_MAX (256 * 1024)
static char *trace_buf;
static size_t trace_len;
static bool trace_cut;
static pthread_mutex_t trace_mu = PTHREAD_MUTEX_INITIALIZER;
void vh_trace(const char *fmt, ...)
{
    va_list ap;
    char line[1024];
    int n;
    va_start(ap, fmt);
    n = vsnprintf(line, sizeof line - 1, fmt, ap);
    va_end(ap);
    if (n < 0) return;
    if (n > (int) sizeof line - 2) n = sizeof line - 2;
    line[n++] = '\n';
    pthread_mutex_lock(&trace_mu);
    if (trace_len + n > TRACE_MAX) {        /* keep the tail */
        size_t keep = TRACE_MAX / 2;
        memmove(trace_buf, trace_buf + trace_len - keep, keep);
        trace_len = keep;
        trace_cut = true;
    }
    memcpy(trace_buf + trace_len, line, n);
    trace_len += n;
    pthread_mutex_unlock(&trace_mu);
    errno = vh_errno_noise();       /* whatever comes next does not rely on it */
}
/* Some cases run with some of the descriptors 0, 1 and 2 closed. */
unsigned vh_bare = 0;
int vh_bare_mask;
static int bare_saved[3];
static void bare_begin(struct vh_rng *r)
{
    if (!vh_bare || !vh_chance(r, 1, vh_bare)) return;
    fflush(NULL);
    int mask = vh_chance(r, 1, 3) ? 7 : 1 + (int) vh_below(r, 7);
    for (int i = 0; i < 3; i++) if (mask >> i & 1) {
        bare_saved[i] = fcntl(i, F_DUPFD_CLOEXEC, 900);
        if (bare_saved[i] < 0) { mask &= ~(1 << i); continue; }
        close(i);
    }
    vh_bare_mask = mask;
    if (mask) vh_count("cases without standard descriptors", 1);
}
static void bare_end(void)
{
    for (int i = 0; i < 3; i++) if (vh_bare_mask >> i & 1) dup2(bare_saved[i], i);
    for (int i = 0; i < 3; i++) if (vh_bare_mask >> i & 1) close(bare_saved[i]);
    vh_bare_mask = 0;
}
static void dump_trace(void)
{
    bare_end();
    static const char head[] = "--- trace of the failing case (last part) ---\n";
    size_t from = trace_len > 16384 ? trace_len - 16384 : 0;
    if (trace_len == 0) return;
    if (write(2, head, sizeof head - 1)) {}
    for (int tries = 0; from < trace_len && tries < 10000; tries++) {
        ssize_t k = write(2, trace_buf + from, trace_len - from);
        if (k > 0) from += k;
    }
}
#ifdef VH_FUZZ
void __sanitizer_print_stack_trace(void);
#endif
static void die(int code)
{
    fflush(stderr);
#ifdef VH_FUZZ
    if (code == VH_EXIT_VIOLATION) abort();     /* let libFuzzer keep the input */
#endif
    _exit(code);
}
void vh_fail(const char *key, const char *fmt, ...)
{
    va_list ap;
    char msg[4096];
    va_start(ap, fmt);
    vsnprintf(msg, sizeof msg, fmt, ap);
    va_end(ap);
    bare_end();
    fprintf(stderr, "\nORACLE key=%s case=%" PRIu64 " : %s\n", key, vh.cur, msg);
    fflush(stderr);
    dump_trace();
    die(VH_EXIT_VIOLATION);
}
void vh_broken(const char *fmt, ...)
{
    va_list ap;
    int err = errno;
    bare_end();
    errno = err;
    fprintf(stderr, "\nHARNESS-BROKEN case=%" PRIu64 " errno=%d: ", vh.cur, errno);
    va_start(ap, fmt);
    vfprintf(stderr, fmt, ap);
    va_end(ap);
    fputc('\n', stderr);
    die(VH_EXIT_BROKEN);
}

/*-------------------------------------------------------------- coverage */
#define MAX_COUNTERS 256
static struct { const char *name; uint64_t n; } counters[MAX_COUNTERS];
static int ncounters;
static pthread_mutex_t cov_mu = PTHREAD_MUTEX_INITIALIZER;
static uint64_t case_sig;
static bool case_nontrivial;
static uint64_t n_cases, n_nontrivial, n_evals;
#define SIG_CAP (1u << 20)
static uint64_t *sigs;
static size_t nsigs;
#define MAX_SAMPLES 6
static char *samples[MAX_SAMPLES];
static int nsamples;

void vh_count(const char *name, uint64_t n)
{
    int i;
    pthread_mutex_lock(&cov_mu);
    for (i = 0; i < ncounters; i++)
        if (counters[i].name == name || strcmp(counters[i].name, name) == 0) break;
    if (i == ncounters) {
        if (ncounters == MAX_COUNTERS) abort();
        counters[ncounters].name = strdup(name);
        counters[ncounters++].n = 0;
    }
    counters[i].n += n;
    pthread_mutex_unlock(&cov_mu);
}
void vh_sig(uint64_t v)
{
    case_sig ^= v + UINT64_C(0x9e3779b97f4a7c15) + (case_sig << 12) + (case_sig >> 4);
    case_sig *= UINT64_C(0xff51afd7ed558ccd);
    case_sig ^= case_sig >> 33;
}
void vh_sig_bytes(const void *p, size_t n) { vh_sig(vh_hash64(p, n)); }
void vh_nontrivial(void) { case_nontrivial = true; }
void vh_evals(uint64_t n) { n_evals += n; }
bool vh_want_sample(void) { return nsamples < MAX_SAMPLES; }
void vh_sample(const char *fmt, ...)
{
    va_list ap;
    char buf[2048];
    if (nsamples >= MAX_SAMPLES) return;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    samples[nsamples++] = strdup(buf);
}
static void json_str(FILE *f, const char *s)
{
    fputc('"', f);
    for (; *s; s++) {
        unsigned char c = *s;
        if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
        else if (c < 0x20 || c >= 0x7f) fprintf(f, "\\u%04x", c);
        else fputc(c, f);
    }
    fputc('"', f);
}

/*------------------------------------------------------- allocator monitor */
struct blk { void *p; size_t size; uint64_t serial; };
static struct blk *blks;
static size_t blk_cap, blk_used, blk_tomb;
static size_t live_blocks, live_bytes;
static uint64_t alloc_serial;
static uint64_t fail_at;
bool vh_alloc_threadsafe = false;
static pthread_mutex_t alloc_mu = PTHREAD_MUTEX_INITIALIZER;
#define TOMB ((void *) 1)

static size_t ptr_hash(const void *p) {
    uint64_t x = (uint64_t) (uintptr_t) p;
    x ^= x >> 33; x *= UINT64_C(0xff51afd7ed558ccd); x ^= x >> 33;
    return (size_t) x;
}
static void blk_insert_raw(void *p, size_t size, uint64_t serial)
{
    size_t i = ptr_hash(p) & (blk_cap - 1);
    while (blks[i].p != NULL && blks[i].p != TOMB) i = (i + 1) & (blk_cap - 1);
    if (blks[i].p == TOMB) blk_tomb--;
    blks[i].p = p; blks[i].size = size; blks[i].serial = serial;
    blk_used++;
}
static void blk_add(void *p, size_t size)
{
    if ((blk_used + blk_tomb + 1) * 2 > blk_cap) {
        struct blk *old = blks; size_t oc = blk_cap;
        blk_cap = blk_used * 4 < 1024 ? 1024 : blk_cap;
        while ((blk_used + 1) * 3 > blk_cap) blk_cap *= 2;
        blks = calloc(blk_cap, sizeof *blks);
        if (!blks) abort();
        blk_used = blk_tomb = 0;
        for (size_t i = 0; i < oc; i++)
            if (old[i].p != NULL && old[i].p != TOMB)
                blk_insert_raw(old[i].p, old[i].size, old[i].serial);
        free(old);
    }
    blk_insert_raw(p, size, ++alloc_serial);
    live_blocks++; live_bytes += size;
}
static struct blk *blk_find(const void *p)
{
    if (blk_cap == 0) return NULL;
    size_t i = ptr_hash(p) & (blk_cap - 1);
    while (blks[i].p != NULL) {
        if (blks[i].p == p) return &blks[i];
        i = (i + 1) & (blk_cap - 1);
    }
    return NULL;
}
static void blk_del(struct blk *b)
{
    live_blocks--; live_bytes -= b->size;
    b->p = TOMB; blk_used--; blk_tomb++;
}
#define RUNAWAY ((size_t) 1 << 30)
static void *mon_new(size_t size, bool zero, bool recoverable)
{
    void *p;
    pthread_mutex_lock(&alloc_mu);
    if (recoverable && fail_at != 0 && --fail_at == 0) {
        pthread_mutex_unlock(&alloc_mu);
        return NULL;
    }
    /* no case needs nearly this much: end a runaway before the system does */
    if (recoverable && size > RUNAWAY) { pthread_mutex_unlock(&alloc_mu); return NULL; }
    if (size > RUNAWAY || live_bytes + size > RUNAWAY) {
        size_t held = live_bytes;
        pthread_mutex_unlock(&alloc_mu);
        vh_fail("memory-runaway", "the library asks for %zu bytes, with %zu in use", size, held);
    }
    p = zero ? calloc(1, size == 0 ? 1 : size) : malloc(size == 0 ? 1 : size);
    if (p == NULL) { pthread_mutex_unlock(&alloc_mu);
        if (recoverable) return NULL;
        vh_broken("out of memory asking for %zu bytes", size); }
    blk_add(p, size);
    pthread_mutex_unlock(&alloc_mu);
    return p;
}
static void mon_free(const struct cork_alloc *a, void *p, size_t size)
{
    (void) a;
    if (p == NULL && size == 0) return;
    pthread_mutex_lock(&alloc_mu);
    struct blk *b = blk_find(p);
    if (b == NULL) {
        pthread_mutex_unlock(&alloc_mu);
        vh_fail("alloc-free-unknown", "free(%p, %zu): not a live block of this allocator "
                "(double free or foreign pointer)", p, size);
    }
    if (b->size != size) {
        size_t real = b->size;
        pthread_mutex_unlock(&alloc_mu);
        vh_fail("alloc-free-size", "block of %zu bytes released with size %zu", real, size);
    }
    blk_del(b);
    pthread_mutex_unlock(&alloc_mu);
    free(p);
}
static void *mon_calloc(const struct cork_alloc *a, size_t n, size_t s)
{
    (void) a;
    if (s != 0 && n > SIZE_MAX / s) vh_fail("alloc-overflow", "calloc(%zu,%zu) overflows", n, s);
    return mon_new(n * s, true, false);
}
static void *mon_malloc(const struct cork_alloc *a, size_t s) { (void) a; return mon_new(s, false, false); }
static void *mon_xcalloc(const struct cork_alloc *a, size_t n, size_t s)
{
    (void) a;
    if (s != 0 && n > SIZE_MAX / s) return NULL;
    return mon_new(n * s, true, true);
}
static void *mon_xmalloc(const struct cork_alloc *a, size_t s) { (void) a; return mon_new(s, false, true); }
static void *mon_realloc_int(void *p, size_t os, size_t ns, bool rec)
{
    void *q;
    if (p != NULL) {
        pthread_mutex_lock(&alloc_mu);
        struct blk *b = blk_find(p);
        size_t real = b ? b->size : 0;
        pthread_mutex_unlock(&alloc_mu);
        if (b == NULL) vh_fail("alloc-realloc-unknown", "realloc of %p which is not a live block", p);
        if (real != os) vh_fail("alloc-realloc-size", "block of %zu bytes reallocated with old size %zu", real, os);
    } else if (os != 0) {
        vh_fail("alloc-realloc-size", "realloc(NULL) with old size %zu", os);
    }
    q = mon_new(ns, false, rec);
    if (q == NULL) return NULL;
    if (p != NULL) {
        memcpy(q, p, os < ns ? os : ns);
        mon_free(NULL, p, os);
    }
    return q;
}
static void *mon_realloc(const struct cork_alloc *a, void *p, size_t os, size_t ns)
{ (void) a; return mon_realloc_int(p, os, ns, false); }
static void *mon_xrealloc(const struct cork_alloc *a, void *p, size_t os, size_t ns)
{ (void) a; return mon_realloc_int(p, os, ns, true); }

void *vh_alloc_create(void)
{
    struct cork_alloc *a = cork_alloc_new_alloc(cork_allocator);
    cork_alloc_set_calloc(a, mon_calloc);
    cork_alloc_set_malloc(a, mon_malloc);
    cork_alloc_set_realloc(a, mon_realloc);
    cork_alloc_set_xcalloc(a, mon_xcalloc);
    cork_alloc_set_xmalloc(a, mon_xmalloc);
    cork_alloc_set_xrealloc(a, mon_xrealloc);
    cork_alloc_set_free(a, mon_free);
    return a;
}
void vh_alloc_install(void) { cork_set_allocator(vh_alloc_create()); }
size_t vh_alloc_live_blocks(void)
{
    pthread_mutex_lock(&alloc_mu);
    size_t n = live_blocks;
    pthread_mutex_unlock(&alloc_mu);
    return n;
}
size_t vh_alloc_live_bytes(void)
{
    pthread_mutex_lock(&alloc_mu);
    size_t n = live_bytes;
    pthread_mutex_unlock(&alloc_mu);
    return n;
}
uint64_t vh_alloc_serial(void)
{
    pthread_mutex_lock(&alloc_mu);
    uint64_t n = alloc_serial;
    pthread_mutex_unlock(&alloc_mu);
    return n;
}
void vh_alloc_fail_at(uint64_t n)
{
    pthread_mutex_lock(&alloc_mu);
    fail_at = n;
    pthread_mutex_unlock(&alloc_mu);
}
bool vh_alloc_find(const void *p, size_t *size)
{
    pthread_mutex_lock(&alloc_mu);
    struct blk *b = blk_find(p);
    if (b && size) *size = b->size;
    pthread_mutex_unlock(&alloc_mu);
    return b != NULL;
}
void vh_alloc_expect_balanced(uint64_t serial, const char *key)
{
    size_t n = 0, bytes = 0; uint64_t first = 0; size_t fsize = 0;
    pthread_mutex_lock(&alloc_mu);
    if (live_blocks != 0)
        for (size_t i = 0; i < blk_cap; i++)
            if (blks[i].p != NULL && blks[i].p != TOMB && blks[i].serial > serial) {
                n++; bytes += blks[i].size;
                if (first == 0 || blks[i].serial < first) { first = blks[i].serial; fsize = blks[i].size; }
            }
    pthread_mutex_unlock(&alloc_mu);
    if (n != 0)
        vh_fail(key, "%zu block(s), %zu bytes not released after everything was freed "
                "(first: allocation #%" PRIu64 " of the case, %zu bytes)",
                n, bytes, first - serial, fsize);
}

/*--------------------------------------------------------------- helpers */
/* Some cases run with many descriptors in use, so that new ones are large. */
#define CROWD_TOP 1400
unsigned vh_crowd = 0;
int vh_crowd_gap_lo = 0, vh_crowd_gap_hi = 0;
static bool crowd_on;
static unsigned char crowd_fd[CROWD_TOP];
static void crowd_begin(struct vh_rng *r)
{
    static const int to[] = { 70, 300, 1030, 1200 };
    int top, base, pass = 0;
    if (!vh_crowd || !vh_chance(r, 1, vh_crowd)) return;
    top = to[vh_below(r, 4)];
    struct rlimit l;
    if (getrlimit(RLIMIT_NOFILE, &l)) return;
    if (l.rlim_cur < CROWD_TOP + 100) {
        l.rlim_cur = l.rlim_max < CROWD_TOP + 100 ? l.rlim_max : CROWD_TOP + 100;
        setrlimit(RLIMIT_NOFILE, &l);
        if (l.rlim_cur < CROWD_TOP + 100) return;
    }
    memset(crowd_fd, 0, sizeof crowd_fd);
    base = open("/dev/null", O_RDWR | O_CLOEXEC);
    if (base < 0) vh_broken("/dev/null");
    for (;; ) {
        int fd = fcntl(base, F_DUPFD_CLOEXEC, pass);
        if (fd < 0) vh_broken("crowd: %s", strerror(errno));
        if (fd >= top) { close(fd); break; }
        if (fd >= vh_crowd_gap_lo && fd < vh_crowd_gap_hi) { close(fd); pass = vh_crowd_gap_hi; continue; }
        crowd_fd[fd] = 1; pass = fd + 1;
    }
    if (base < top) crowd_fd[base] = 1; else close(base);
    crowd_on = true;
    vh_count("cases with many open descriptors", 1);
}
static void crowd_end(void)
{
    if (!crowd_on) return;
    for (int fd = 0; fd < CROWD_TOP; fd++) if (crowd_fd[fd]) close(fd);
    crowd_on = false;
}
int vh_open_fds(void)
{
    int n = 0;
    for (int fd = 0; fd < (crowd_on ? CROWD_TOP : 1024); fd++)
        if (fcntl(fd, F_GETFD) != -1) n++;
    return n;
}
static void rm_rf_at(int dfd, const char *name, int depth)
{
    struct stat st;
    if (fstatat(dfd, name, &st, AT_SYMLINK_NOFOLLOW) != 0) return;
    if (S_ISDIR(st.st_mode)) {
        int fd;
        fchmodat(dfd, name, 0700, 0);
        fd = openat(dfd, name, O_RDONLY | O_DIRECTORY | O_NOFOLLOW | O_CLOEXEC);
        if (fd >= 0) {
            DIR *d = fdopendir(fd);
            if (d) {
                struct dirent *e;
                while ((e = readdir(d)) != NULL) {
                    if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
                    rm_rf_at(fd, e->d_name, depth + 1);
                    rewinddir(d);
                }
                closedir(d);
            } else close(fd);
        }
        unlinkat(dfd, name, AT_REMOVEDIR);
    } else {
        unlinkat(dfd, name, 0);
    }
}
void vh_rm_rf(const char *path)
{
    size_t n = strlen(vh.scratch);
    if (strncmp(path, vh.scratch, n) != 0 || path[n] != '/' || strstr(path, "/..") != NULL)
        vh_broken("refusing to remove %s", path);
    rm_rf_at(AT_FDCWD, path, 0);
}
int vh_errno_noise(void)
{
    static const int e[] = { 0, EINTR, EAGAIN, EEXIST, ENOENT, 0, EIO, EINVAL, ENOTDIR, ERANGE, EPIPE };
    static __thread unsigned k;
    return e[(k++ * 7 + vh.cur) % (sizeof e / sizeof *e)];
}
char *vh_hex(const void *p, size_t n)
{
    static char bufs[4][520];
    static int k;
    char *b = bufs[k = (k + 1) & 3];
    size_t m = n > 250 ? 250 : n;
    for (size_t i = 0; i < m; i++) sprintf(b + 2 * i, "%02x", ((const unsigned char *) p)[i]);
    b[2 * m] = 0;
    if (m < n) strcpy(b + 2 * m, "...");
    return b;
}
char *vh_fmt(const char *fmt, ...)
{
    static char bufs[8][4096];
    static int k;
    va_list ap;
    char *b = bufs[k = (k + 1) & 7];
    va_start(ap, fmt);
    vsnprintf(b, sizeof bufs[0], fmt, ap);
    va_end(ap);
    return b;
}
void *vh_xmalloc(size_t n)
{
    void *p = malloc(n ? n : 1);
    if (!p) vh_broken("out of memory");
    return p;
}
bool vh_drop_privileges(void)
{
    if (geteuid() != 0) return true;
    if (vh.scratch && chown(vh.scratch, 65534, 65534) != 0) return false;
    if (setgroups(0, NULL) != 0) { /* tolerated */ }
    if (setgid(65534) != 0) return false;
    if (setuid(65534) != 0) return false;
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    return geteuid() != 0;
}

void vstr_init(struct vstr *s) { s->p = NULL; s->n = s->cap = 0; }
void vstr_done(struct vstr *s) { free(s->p); vstr_init(s); }
static void vstr_room(struct vstr *s, size_t n)
{
    if (s->n + n + 1 > s->cap) {
        s->cap = (s->n + n + 1) * 2;
        s->p = realloc(s->p, s->cap);
        if (!s->p) vh_broken("out of memory");
    }
}
void vstr_add(struct vstr *s, const void *p, size_t n)
{
    vstr_room(s, n);
    if (n) memmove(s->p + s->n, p, n);
    s->n += n;
}
void vstr_set(struct vstr *s, const void *p, size_t n) { s->n = 0; vstr_add(s, p, n); }
void vstr_adds(struct vstr *s, const char *z) { vstr_add(s, z, strlen(z)); }
void vstr_addc(struct vstr *s, unsigned char c) { vstr_add(s, &c, 1); }
void vstr_addf(struct vstr *s, const char *fmt, ...)
{
    va_list ap;
    char *t = NULL;
    va_start(ap, fmt);
    int n = vasprintf(&t, fmt, ap);
    if (n < 0) vh_broken("vasprintf");
    va_end(ap);
    vstr_add(s, t, n);
    free(t);
}
char *vstr_z(struct vstr *s) { vstr_room(s, 0); s->p[s->n] = 0; return (char *) s->p; }
bool vstr_eq(const struct vstr *s, const void *p, size_t n)
{
    return s->n == n && (n == 0 || memcmp(s->p, p, n) == 0);
}

/*------------------------------------------------------------------ main */
static volatile uint64_t *status;
static void on_alarm(int sig)
{
    static const char m[] = "\nWATCHDOG: the case did not finish in time\n";
    (void) sig;
    bare_end();
    if (write(2, m, sizeof m - 1)) {}
    dump_trace();
    _exit(VH_EXIT_HANG);
}
#ifdef VH_SAN
static void on_death(void) { dump_trace(); }
#endif
static void on_abort(int sig)
{
    /* an assertion inside the library or a crash without sanitizer */
    dump_trace();
    signal(sig, SIG_DFL);
    raise(sig);
}

__attribute__((weak)) void vh_setup(void) {}
__attribute__((weak)) void vh_teardown(void) {}

#ifdef VH_FUZZ
int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size)
{
    static bool ready;
    struct vh_rng r;
    if (!ready) {
        ready = true;
        vh.seed = 1;
        vh.scratch = getenv("VH_SCRATCH") ? getenv("VH_SCRATCH") : "/nonexistent";
        vh.exe_dir = getenv("VH_EXE_DIR");
        trace_buf = mmap(NULL, TRACE_MAX + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        sigs = malloc(SIG_CAP * sizeof *sigs);
        vh_setup();
    }
    trace_len = 0;
    nsigs = 0;
    vh_seed(&r, 1, 1);
    fuzz_p = data; fuzz_n = size;
    vh_case(&r, vh.cur++);
    return 0;
}
int vh_main_unused(int argc, char **argv)
#else
int main(int argc, char **argv)
#endif
{
    const char *stats = NULL, *stat_path = NULL;
    vh.seed = 1; vh.count = 1;
    for (int i = 1; i + 1 < argc; i += 2) {
        if (!strcmp(argv[i], "--seed")) vh.seed = strtoull(argv[i + 1], NULL, 0);
        else if (!strcmp(argv[i], "--start")) vh.start = strtoull(argv[i + 1], NULL, 0);
        else if (!strcmp(argv[i], "--count")) vh.count = strtoull(argv[i + 1], NULL, 0);
        else if (!strcmp(argv[i], "--stats")) stats = argv[i + 1];
        else if (!strcmp(argv[i], "--status")) stat_path = argv[i + 1];
        else if (!strcmp(argv[i], "--scratch")) vh.scratch = argv[i + 1];
        else if (!strcmp(argv[i], "--exe-dir")) vh.exe_dir = argv[i + 1];
        else if (!strcmp(argv[i], "--tier")) vh.tier = atoi(argv[i + 1]);
        else { fprintf(stderr, "unknown option %s\n", argv[i]); return VH_EXIT_BROKEN; }
    }
    if (!vh.scratch) vh.scratch = "/nonexistent";
    trace_buf = mmap(NULL, TRACE_MAX + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    sigs = malloc(SIG_CAP * sizeof *sigs);
    FILE *sf = NULL;
    if (stats) { sf = fopen(stats, "wb"); if (!sf) vh_broken("cannot write %s", stats);
        fcntl(fileno(sf), F_SETFD, FD_CLOEXEC); }
    int sigfd = -1;
    if (stats) {
        char p[4096];
        snprintf(p, sizeof p, "%s.sig", stats);
        sigfd = open(p, O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0644);
        if (sigfd < 0) vh_broken("cannot write %s", p);
    }
    if (stat_path) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);       /* do not outlive check.py */
        int fd = open(stat_path, O_RDWR | O_CREAT | O_CLOEXEC, 0644);
        if (fd < 0 || ftruncate(fd, 4096) != 0) vh_broken("status file");
        status = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (status == MAP_FAILED) vh_broken("status mmap");
        close(fd);
    }
#ifdef VH_SAN
    __sanitizer_set_death_callback(on_death);
#else
    signal(SIGSEGV, on_abort);
    signal(SIGBUS, on_abort);
#endif
    signal(SIGABRT, on_abort);
    signal(SIGALRM, on_alarm);
    vh_setup();
    for (uint64_t c = vh.start; c < vh.start + vh.count; c++) {
        struct vh_rng r;
        vh.cur = c;
        if (status) { status[0] = c; status[1] = 1; }
        trace_len = 0;
        case_sig = 0; case_nontrivial = false;
        vh_seed(&r, vh.seed, c);
        alarm(vh_case_timeout);
        { struct vh_rng cr; vh_seed(&cr, vh.seed ^ 0x63726f7764, c); crowd_begin(&cr); bare_begin(&cr); }
        vh_case(&r, c);
        bare_end();
        crowd_end();
        alarm(0);
        n_cases++;
        if (case_nontrivial) {
            n_nontrivial++;
            if (nsigs < SIG_CAP) sigs[nsigs++] = case_sig;
        }
    }
    if (status) status[1] = 2;
    alarm(vh_case_timeout);
    vh_teardown();
    alarm(0);
    if (sf) {
        fprintf(sf, "{\"cases\":%" PRIu64 ",\"nontrivial\":%" PRIu64 ",\"evals\":%" PRIu64 ",\"counters\":{",
                n_cases, n_nontrivial, n_evals);
        for (int i = 0; i < ncounters; i++) {
            if (i) fputc(',', sf);
            json_str(sf, counters[i].name);
            fprintf(sf, ":%" PRIu64, counters[i].n);
        }
        fprintf(sf, "},\"samples\":[");
        for (int i = 0; i < nsamples; i++) {
            if (i) fputc(',', sf);
            json_str(sf, samples[i]);
        }
        fprintf(sf, "]}\n");
        fclose(sf);
        size_t off = 0, tot = nsigs * sizeof *sigs;
        while (off < tot) {
            ssize_t w = write(sigfd, (char *) sigs + off, tot - off);
            if (w <= 0) break;
            off += w;
        }
        close(sigfd);
    }
    if (status) status[1] = 3;
    return 0;
}

/* Volatile reads are the library's relaxed atomics (list head of the error
 * states, id counter): not races by themselves, but they order nothing.
 * Volatile writes are writes: two of them, or one and an atomic update, lose
 * updates. */
#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define V(n) void __tsan_write##n(void *p); \
             void __tsan_volatile_read##n(void *p) { } \
             void __tsan_volatile_write##n(void *p) { __tsan_write##n(p); } \
             void __tsan_unaligned_volatile_read##n(void *p) { } \
             void __tsan_unaligned_volatile_write##n(void *p) { __tsan_write##n(p); }
V(1) V(2) V(4) V(8) V(16)
#endif
#endif
