/* C37: version numbers, aborts, start-up and shut-down functions, and the
 * helpers for expressions and structures. */
#include "vh.h"
#include <errno.h>
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>
#include <libcork/core.h>
#include <libcork/ds.h>

/*------------------------------------------------ start-up and shut-down */
static int inits, inits2, done_fd = -1; static cork_array(int) early;
CORK_INITIALIZER(first_init) { inits++; cork_array_init(&early); cork_array_append(&early, 17); }
CORK_INITIALIZER(second_init) { inits2++; }
CORK_FINALIZER(first_done) { if (done_fd >= 0) { char c = cork_array_size(&early) >= 1 && cork_array_at(&early, 0) == 17 ? 'f' : 'x'; if (write(done_fd, &c, 1) != 1) abort(); } cork_array_done(&early); }
CORK_FINALIZER(second_done) { if (done_fd >= 0) { if (write(done_fd, "s", 1) != 1) abort(); } }

static int run_child(void (*fn)(int), int arg, char *out, size_t cap, bool to_stderr)
{
    int fd[2]; size_t got = 0; ssize_t k; int st;
    if (pipe(fd)) vh_broken("pipe");
    fflush(NULL);
    pid_t p = fork();
    if (p < 0) vh_broken("fork");
    if (p == 0) {
        close(fd[0]); signal(SIGABRT, SIG_DFL);
        if (to_stderr) dup2(fd[1], 2); else done_fd = fd[1];
        fn(arg);
    }
    close(fd[1]);
    while (got + 1 < cap && (k = read(fd[0], out + got, cap - 1 - got)) != 0) { if (k < 0) { if (errno == EINTR) continue; break; } got += k; }
    out[got] = 0; close(fd[0]);
    while (waitpid(p, &st, 0) < 0) if (errno != EINTR) vh_broken("waitpid");
    return st;
}
static void leave(int how) { for (int i = 0; i < how; i++) cork_array_append(&early, i); exit(how); }
static void exits(struct vh_rng *r)
{
    char out[64]; int code = vh_below(r, 100), st = run_child(leave, code, out, sizeof out, false), f = 0, s = 0;
    for (char *c = out; *c; c++) if (*c == 'f') f++; else if (*c == 's') s++; else vh_fail("finalizer", "a shut-down function does not see what the program left");
    VH_CHECK(f == 1 && s == 1, "finalizer", "the shut-down functions ran %d and %d times", f, s);
    VH_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == code, "finalizer", "status %x instead of exit code %d", st, code);
    vh_count("exits", 1);
}

/*------------------------------------------------------------------ aborts */
static char msg[600]; static int num; static volatile int reached;
static void aborting_function_with_a_name_that_is_rather_longer_than_the_names_of_most_functions(int how)
{
    static char thing;
    switch (how) {
    case 0: cork_abort("%s", msg); break;
    case 1: cork_abort("<%s> is %d", msg, num); break;
    case 2: cork_abort_if_null(num == 12345678 ? &thing : NULL, msg); break;
    default: cork_unreachable(); break;
    }
    _exit(9);
}
static void aborts(struct vh_rng *r)
{
    char out[2000], want[800]; int how = vh_below(r, 4); size_t n = vh_below(r, 500); vh_fill(r, msg, n, 1); msg[n] = 0; num = (int) vh_below(r, 10000) - 5000;
    int st = run_child(aborting_function_with_a_name_that_is_rather_longer_than_the_names_of_most_functions, how, out, sizeof out, true);
    VH_CHECK(WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT, "abort", "form %d: status %x instead of an abort", how, st);
    if (how == 1) snprintf(want, sizeof want, "<%s> is %d", msg, num); else snprintf(want, sizeof want, "%s", how == 3 ? "" : msg);
    VH_CHECK(strstr(out, want), "abort-message", "form %d: the output '%.300s' lacks the message '%.300s'", how, out, want);
    VH_CHECK(strstr(out + (how == 3 ? 0 : strstr(out, want) - out), "aborting_function_with_a_name_that_is_rather_longer_than_the_names_of_most_functions") && strstr(out, "C37_base.c"), "abort-place", "form %d: the output does not say where", how);
    char *p = malloc(1 + vh_below(r, 50)); VH_CHECK(cork_abort_if_null(p, "no") == p, "abort-null", "cork_abort_if_null returned another pointer"); free(p);
    vh_count("aborts", 1);
}

/*---------------------------------------------------------------- versions */
#if CORK_VERSION == CORK_MAKE_VERSION(CORK_VERSION_MAJOR, CORK_VERSION_MINOR, CORK_VERSION_PATCH) && CORK_VERSION >= CORK_MAKE_VERSION(0, 0, 0) && CORK_VERSION < CORK_MAKE_VERSION(CORK_VERSION_MAJOR + 1, 0, 0) && CORK_VERSION < CORK_MAKE_VERSION(CORK_VERSION_MAJOR, CORK_VERSION_MINOR + 1, 0)
#define PREPROCESSED 1
#else
#define PREPROCESSED 0
#endif
struct ver { int a, b, c; };
static long num_of(struct ver v) { return v.a * 1000000l + v.b * 1000l + v.c; }
static int cmp3(struct ver x, struct ver y) { return x.a != y.a ? (x.a > y.a) - (x.a < y.a) : x.b != y.b ? (x.b > y.b) - (x.b < y.b) : (x.c > y.c) - (x.c < y.c); }
static struct ver some_version(struct vh_rng *r)
{
    struct ver v = { vh_chance(r, 1, 2) ? vh_below(r, 4) : vh_below(r, 2147), vh_chance(r, 1, 2) ? vh_below(r, 4) : vh_chance(r, 1, 4) ? 999 : vh_below(r, 1000), vh_chance(r, 1, 2) ? vh_below(r, 4) : vh_chance(r, 1, 4) ? 999 : vh_below(r, 1000) };
    return v;
}
static void versions(struct vh_rng *r)
{
    VH_CHECK(PREPROCESSED, "version", "the version macros do not work in the preprocessor");
    for (int i = 0; i < 50; i++) {
        struct ver x = some_version(r), y = vh_chance(r, 1, 3) ? x : some_version(r); long got[8]; int one = 1;
        if (vh_chance(r, 1, 2)) switch (vh_below(r, 3)) { case 0: y.a = x.a; break; case 1: y.a = x.a; y.b = x.b; break; default: y.c = x.c; }
        long vx = CORK_MAKE_VERSION(x.a, x.b, x.c), vy = CORK_MAKE_VERSION(y.a, y.b, y.c);
        VH_CHECK(vx == num_of(x), "make-version", "%d.%d.%d is %ld", x.a, x.b, x.c, vx);
        VH_CHECK(cmp3(x, y) == (vx > vy) - (vx < vy), "version-order", "%d.%d.%d and %d.%d.%d are %ld and %ld", x.a, x.b, x.c, y.a, y.b, y.c, vx, vy);
        /* parts given by expressions */
        got[0] = CORK_MAKE_VERSION(x.a - one + 1, x.b - one + 1, x.c - one + 1);
        got[1] = CORK_MAKE_VERSION(one ? x.a : y.a, one ? x.b : y.b, one ? x.c : y.c);
        got[2] = CORK_MAKE_VERSION(x.a | 0, x.b | 0, x.c | 0);
        got[3] = CORK_MAKE_VERSION(x.a << 0, x.b << 0, x.c << 0);
        got[4] = CORK_MAKE_VERSION((int) (long) x.a, (int) (long) x.b, (int) (long) x.c);
        got[5] = CORK_MAKE_VERSION(x.a ^ 0, x.b & 4095, x.c & 4095);
        got[6] = 2 * CORK_MAKE_VERSION(x.a / 4, x.b, x.c) / 2;
        got[7] = -CORK_MAKE_VERSION(x.a, x.b, x.c);
        for (int k = 0; k < 6; k++) VH_CHECK(got[k] == num_of(x), "make-version-expression", "form %d of %d.%d.%d is %ld", k, x.a, x.b, x.c, got[k]);
        struct ver h = { x.a / 4, x.b, x.c };
        VH_CHECK(got[6] == num_of(h) && got[7] == -num_of(x), "make-version-expression", "the number of %d.%d.%d does not stay whole in an expression", x.a, x.b, x.c);
        vh_evals(10);
    }
    struct ver own = { CORK_VERSION_MAJOR, CORK_VERSION_MINOR, CORK_VERSION_PATCH }; char s[64]; int n;
    VH_CHECK(CORK_VERSION == num_of(own), "version", "CORK_VERSION is %ld, its parts are %d.%d.%d", (long) CORK_VERSION, own.a, own.b, own.c);
    n = snprintf(s, sizeof s, "%d.%d.%d", own.a, own.b, own.c);
    VH_CHECK(!strncmp(cork_version_string(), s, n) && !(cork_version_string()[n] >= '0' && cork_version_string()[n] <= '9'), "version-string", "the version is %s, its parts are %s", cork_version_string(), s);
    VH_CHECK(!strcmp(cork_version_string(), CORK_CONFIG_VERSION_STRING) && !strcmp(cork_revision_string(), CORK_CONFIG_REVISION), "version-string", "version %s, revision %s", cork_version_string(), cork_revision_string());
    vh_count("versions", 50);
}

/*----------------------------------------------------------------- helpers */
struct outer { char c; short s; int i; long l; struct { char x[3]; double d; } in; char tail[5]; int v[6]; };
static void helpers(struct vh_rng *r)
{
    int calls = 0; uint64_t v = vh_chance(r, 1, 2) ? (uint64_t) 1 << vh_below(r, 64) : vh_chance(r, 1, 3) ? 0 : vh_u64(r); int32_t w = (int32_t) v; void *p = vh_chance(r, 1, 2) ? &v : NULL;
    if (CORK_LIKELY(v) != (v != 0) && (v == 0) == !!CORK_LIKELY(v)) vh_fail("likely", "0x%" PRIx64 " is likely the other way", v);
    if (CORK_UNLIKELY(v)) { VH_CHECK(v != 0, "likely", "zero counts as true"); } else VH_CHECK(v == 0, "likely", "0x%" PRIx64 " counts as false", v);
    if (CORK_LIKELY(v)) { VH_CHECK(v != 0, "likely", "zero counts as true"); } else VH_CHECK(v == 0, "likely", "0x%" PRIx64 " counts as false", v);
    if (CORK_LIKELY(w < 0 || p == NULL)) { VH_CHECK(w < 0 || !p, "likely", "wrong branch"); } else VH_CHECK(w >= 0 && p, "likely", "wrong branch");
    if (CORK_UNLIKELY(w == 0 ? p == NULL : p != NULL)) { VH_CHECK(w == 0 ? !p : !!p, "likely", "wrong branch"); } else VH_CHECK(w == 0 ? !!p : !p, "likely", "wrong branch");
    VH_CHECK(!CORK_LIKELY(v != 0) == (v == 0) && CORK_LIKELY(w == 5) + 1 == (w == 5) + 1 && CORK_UNLIKELY(w != 5) * 2 == (w != 5) * 2, "likely", "a comparison's value changed");
    if (CORK_LIKELY((calls++, v))) { } if (CORK_UNLIKELY((calls++, v))) { }
    VH_CHECK(calls == 2, "likely", "expressions were evaluated %d times", calls);
    struct outer *o = malloc(4 * sizeof *o); int k = vh_below(r, 4);
    VH_CHECK(cork_container_of(&o[k].c, struct outer, c) == o + k && cork_container_of(&o[k].s, struct outer, s) == o + k && cork_container_of(&o[k].i, struct outer, i) == o + k && cork_container_of(&o[k].l, struct outer, l) == o + k &&
             cork_container_of(&o[k].in, struct outer, in) == o + k && cork_container_of(&o[k].in.d, struct outer, in.d) == o + k && cork_container_of(o[k].tail, struct outer, tail) == o + k, "container-of", "a field's structure is another one");
    int j = vh_below(r, 6), *at = &o[k].v[j], m = vh_below(r, 7); struct outer *end = o + 4;
    VH_CHECK(cork_container_of(at - j, struct outer, v) == o + k && cork_container_of(at + (m - j), struct outer, v[m]) == o + k && cork_container_of(m < 3 ? &end[-1].i : &o->i, struct outer, i) == (m < 3 ? o + 3 : o) && cork_container_of(&o[k].s, struct outer, s)->tail == o[k].tail && cork_container_of(&end[-1].l, struct outer, l) - 3 == o, "container-of", "an expression's structure is another one");
    free(o);
    VH_CHECK(CORK_SIZEOF_SHORT == sizeof(short) && CORK_SIZEOF_INT == sizeof(int) && CORK_SIZEOF_LONG == sizeof(long) && CORK_SIZEOF_POINTER == sizeof(void *), "sizeof", "a size is wrong");
    vh_evals(20); vh_count("expressions", 8); vh_sig(v);
}
void vh_setup(void) { }
void vh_case(struct vh_rng *r, uint64_t index)
{
    VH_CHECK(inits == 1 && inits2 == 1 && cork_array_size(&early) == 1, "initializer", "the start-up functions ran %d and %d times", inits, inits2);
    versions(r); for (int i = 0; i < 20; i++) helpers(r);
    if (vh_chance(r, 1, 8)) exits(r);
    if (vh_chance(r, 1, 8)) aborts(r);
    vh_nontrivial();
    if (vh_want_sample()) vh_sample("50 pairs of versions, 20 of expressions");
}
