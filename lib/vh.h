/* Harness runtime: deterministic cases, violation reporting, coverage
 * counters, an allocator monitor for libcork, and helpers. */
#ifndef VH_H
#define VH_H

#ifndef _GNU_SOURCE
#define _GNU_SOURCE 1
#endif
#include <inttypes.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <assert.h>
#include <errno.h>
#include <unistd.h>

/* exit codes understood by the driver */
#define VH_EXIT_BROKEN     3    /* harness trouble: neither held nor violated */
#define VH_EXIT_HANG      97    /* per-case watchdog fired */
#define VH_EXIT_VIOLATION 98    /* an oracle refuted the property */
#define VH_EXIT_SAN       99    /* a sanitizer reported */

/*------------------------------------------------------------------ PRNG */
struct vh_rng { uint64_t s[4]; };
void vh_seed(struct vh_rng *r, uint64_t a, uint64_t b);
uint64_t vh_u64(struct vh_rng *r);
/* uniform in [0,n) ; n may be 0 (returns 0) */
uint64_t vh_below(struct vh_rng *r, uint64_t n);
/* uniform in [lo,hi] */
int64_t vh_range(struct vh_rng *r, int64_t lo, int64_t hi);
#define vh_chance(r, num, den)  (vh_below((r), (den)) < (uint64_t) (num))
/* a size that is often small, sometimes around powers of two, up to max */
size_t vh_size(struct vh_rng *r, size_t max);
/* a 64-bit value biased to interesting patterns */
uint64_t vh_interesting64(struct vh_rng *r);
/* fill with bytes; mode: 0 random, 1 printable, 2 mixed text, 3 few symbols */
void vh_fill(struct vh_rng *r, void *buf, size_t len, int mode);

/*------------------------------------------------------------- reporting */
void vh_fail(const char *key, const char *fmt, ...)
    __attribute__((noreturn, format(printf, 2, 3)));
void vh_broken(const char *fmt, ...)
    __attribute__((noreturn, format(printf, 1, 2)));
/* a note in the trace of the current case; printed if the case fails */
void vh_trace(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
#define VH_CHECK(cond, key, ...) \
    do { if (!(cond)) vh_fail((key), __VA_ARGS__); } while (0)

/*-------------------------------------------------------------- coverage */
/* count an observed event by name */
void vh_count(const char *name, uint64_t n);
/* fold something into the signature of the current case */
void vh_sig(uint64_t v);
void vh_sig_bytes(const void *p, size_t n);
/* mark the current case as non-trivial */
void vh_nontrivial(void);
/* record a sample (only the first few are kept) */
void vh_sample(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
bool vh_want_sample(void);
/* extra checks performed inside one case */
void vh_evals(uint64_t n);

/*------------------------------------------------------- allocator monitor */
/* Installs a monitored allocator (call before any other libcork use).  It
 * fails the case on: free with a wrong size, free of an unknown block, double
 * free.  realloc always moves. */
void vh_alloc_install(void);
void *vh_alloc_create(void);        /* the same, without registering it */
size_t vh_alloc_live_blocks(void);
size_t vh_alloc_live_bytes(void);
uint64_t vh_alloc_serial(void);     /* number of allocations so far */
/* report blocks allocated after `serial` that are still live, as violation */
void vh_alloc_expect_balanced(uint64_t serial, const char *key);
/* is this pointer a live block (exact start)? size in *size */
bool vh_alloc_find(const void *p, size_t *size);
/* what the error functions allocate once per thread is allocated now */
#define VH_WARM_ERRORS() \
    do { \
        for (int i_ = 0; i_ < 4; i_++) { cork_error_set_printf(1, "%5000s", "x"); cork_error_prefix_string("y"); } \
        cork_error_clear(); \
    } while (0)
/* let the next n-th x-allocation fail (0 = never) */
void vh_alloc_fail_at(uint64_t n);
/* do not check these (e.g. thread-local, process-lifetime) blocks */
extern bool vh_alloc_threadsafe;

/*------------------------------------------------------------------ main */
struct vh_opts {
    uint64_t  seed;
    uint64_t  start, count;
    const char  *scratch;       /* a private existing directory */
    const char  *exe_dir;       /* where the helper programs are */
    int  tier;                  /* 0 quick, 1 thorough */
    uint64_t  cur;              /* current case */
};
extern struct vh_opts vh;

/* provided by the harness */
void vh_setup(void);
void vh_case(struct vh_rng *r, uint64_t index);
void vh_teardown(void);
extern unsigned vh_case_timeout;    /* seconds; default 60 */
/* one case in vh_crowd runs with hundreds of descriptors in use (0: none);
 * the gap is left alone */
extern unsigned vh_crowd;
extern int vh_crowd_gap_lo, vh_crowd_gap_hi;
/* one case in vh_bare runs with some of the descriptors 0-2 closed */
extern unsigned vh_bare;
extern int vh_bare_mask;

/* misc helpers */
int vh_errno_noise(void);           /* some value to leave in errno */
int vh_open_fds(void);              /* number of open descriptors */
void vh_rm_rf(const char *path);    /* own implementation, refuses paths
                                       outside the scratch directory */
char *vh_hex(const void *p, size_t n);  /* rotating static buffers */
char *vh_fmt(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void *vh_xmalloc(size_t n);
bool vh_drop_privileges(void);      /* become nobody; false if not possible */

/* growable byte string for models */
struct vstr { unsigned char *p; size_t n, cap; };
void vstr_init(struct vstr *s);
void vstr_done(struct vstr *s);
void vstr_set(struct vstr *s, const void *p, size_t n);
void vstr_add(struct vstr *s, const void *p, size_t n);
void vstr_adds(struct vstr *s, const char *z);
void vstr_addc(struct vstr *s, unsigned char c);
void vstr_addf(struct vstr *s, const char *fmt, ...)
    __attribute__((format(printf, 2, 3)));
char *vstr_z(struct vstr *s);       /* NUL-terminated view */
bool vstr_eq(const struct vstr *s, const void *p, size_t n);

/* data that arrives from code MemorySanitizer cannot see */
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define VH_KNOWN(p, n)  __msan_unpoison((p), (n))
#endif
#endif
#ifndef VH_KNOWN
#define VH_KNOWN(p, n)  ((void) 0)
#endif

uint64_t vh_hash64(const void *p, size_t n);

#endif
