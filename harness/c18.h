/* C18: once-barriers, atomics and thread-local storage. */
#include "vh.h"
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <libcork/core.h>
#include <libcork/threads.h>

#define MAXT 8
static struct shared { uint64_t passes, execs, reentries, waits; } *sh;

/*------------------------------------------------------------------- once */
struct bar { int execs; int done; uint64_t data[4]; int inside; pthread_t who; };
static struct bar B[24];
static int init_delay, want_depth, nest_other;
static void enter(int k, int depth);
static __thread int ran[24];
static void init(int k, int depth)
{
    struct bar *b = &B[k];
    int n = __atomic_add_fetch(&b->execs, 1, __ATOMIC_RELAXED);
    VH_CHECK(n == 1, "once", "barrier %d executed %d times", k, n);
    b->who = pthread_self();
    for (int i = 0; i < init_delay; i++) { if (i % 3 == 0) sched_yield(); }
    if (init_delay > 200) usleep(init_delay - 200);
    if (k % 2 && depth < want_depth) { enter(k, depth + 1); __atomic_add_fetch(&sh->reentries, 1, __ATOMIC_RELAXED); }
    if (nest_other && k + 2 < 24 && depth == 0) enter(k + 2, 0);
    for (int i = 0; i < 4; i++) b->data[i] = 0x1234567 * (k + 1) + i;
    ran[k] = 1;
    __atomic_store_n(&b->done, 1, __ATOMIC_RELAXED);
    __atomic_add_fetch(&sh->execs, 1, __ATOMIC_RELAXED);
}
/* (The statement uses variables of the caller, whatever they are called.) */
static void kept(int k, int result) { VH_CHECK(result == 5 || !ran[k], "once-statement", "what barrier %d's statement assigned is lost", k); }
#define ONE(k) cork_once_barrier(plain_##k) cork_once_barrier(rec_##k) \
    static void p_##k(int d) { int prior_state = d, result = 0; ran[2 * k] = 0; cork_once(plain_##k, (init(2 * k, prior_state), result = 5)); kept(2 * k, result); } \
    static void r_##k(int d) { int prior_state = d, result = 0; ran[2 * k + 1] = 0; cork_once_recursive(rec_##k, (init(2 * k + 1, prior_state), result = 5)); kept(2 * k + 1, result); }
ONE(0) ONE(1) ONE(2) ONE(3) ONE(4) ONE(5) ONE(6) ONE(7) ONE(8) ONE(9) ONE(10) ONE(11)
static void (*const FN[24])(int) = { p_0, r_0, p_1, r_1, p_2, r_2, p_3, r_3, p_4, r_4, p_5, r_5, p_6, r_6, p_7, r_7, p_8, r_8, p_9, r_9, p_10, r_10, p_11, r_11 };
static void enter(int k, int depth)
{
    FN[k](depth);
    struct bar *b = &B[k];
    if (depth > 0) return;              /* re-entered: initialisation is still going on */
    VH_CHECK(__atomic_load_n(&b->done, __ATOMIC_RELAXED), "once-early", "a caller passed barrier %d before its execution had completed", k);
    for (int i = 0; i < 4; i++) VH_CHECK(b->data[i] == (uint64_t) 0x1234567 * (k + 1) + i, "once-data", "a caller that passed barrier %d does not see what it wrote", k);
    __atomic_add_fetch(&sh->passes, 1, __ATOMIC_RELAXED);
}
struct ow { pthread_barrier_t *bar; struct vh_rng r; int start; bool id_first; };
static void *once_worker(void *v)
{
    struct ow *w = v;
    if (w->id_first) (void) cork_current_thread_get_id();
    for (int j = 0; j < 24; j++) {
        int k = (j / 4) * 4 + (j + w->start) % 4;     /* all in roughly the same order */
        if (j % 4 == 0) pthread_barrier_wait(w->bar);
        if (vh_chance(&w->r, 1, 3)) for (volatile int i = 0, n = vh_below(&w->r, 300); i < n; i++);
        enter(k, 0);
        if (vh_chance(&w->r, 1, 3)) enter(k, 0);
    }
    return NULL;
}
static void once_child(struct vh_rng *r, int nt)
{
    pthread_barrier_t bar; pthread_t th[MAXT]; struct ow w[MAXT];
    pthread_barrier_init(&bar, NULL, nt);
    for (int t = 0; t < nt; t++) { w[t].bar = &bar; vh_seed(&w[t].r, vh_u64(r), t); w[t].start = nest_other ? 0 : vh_below(r, 4); w[t].id_first = vh_chance(r, 1, 2); if (pthread_create(&th[t], NULL, once_worker, &w[t])) vh_broken("pthread_create"); }
    for (int t = 0; t < nt; t++) pthread_join(th[t], NULL);
    for (int k = 0; k < 24; k++) VH_CHECK(B[k].execs == 1, "once", "barrier %d executed %d times", k, B[k].execs);
}
static void once_case(struct vh_rng *r)
{
    int nt = vh_chance(r, 1, 8) ? 1 + vh_below(r, MAXT) : 2 + vh_below(r, 2);
    init_delay = vh_chance(r, 1, 2) ? 0 : vh_below(r, vh_chance(r, 1, 4) ? 300 : 30); want_depth = vh_below(r, 4); nest_other = vh_chance(r, 1, 4);
    struct shared before = *sh;
    vh_trace("once: %d threads, delay %d, recursion %d, nesting %d", nt, init_delay, want_depth, nest_other);
    fflush(NULL);
    pid_t p = fork();           /* barriers cannot be reset */
    if (p < 0) vh_broken("fork");
    if (p == 0) { once_child(r, nt); _exit(0); }
    int st; while (waitpid(p, &st, 0) < 0) if (errno != EINTR) vh_broken("waitpid");
    if (WIFSIGNALED(st)) { if (WTERMSIG(st) == SIGKILL) vh_broken("child killed"); vh_fail("once-crash", "a process using barriers died of signal %d", WTERMSIG(st)); }
    if (WEXITSTATUS(st)) { fflush(NULL); _exit(WEXITSTATUS(st)); }
    vh_count("barriers executed", sh->execs - before.execs); vh_count("barrier passes", sh->passes - before.passes); vh_count("barrier re-entries", sh->reentries - before.reentries);
    vh_evals(sh->passes - before.passes); vh_sig(nt * 1000 + init_delay * 16 + want_depth * 2 + nest_other);
    if (nt > 1) vh_nontrivial();
    if (vh_want_sample()) vh_sample("24 once-barriers raced for by %d threads", nt);
}

/*---------------------------------------------------------------- atomics */
static volatile int vi; static volatile unsigned vu; static volatile size_t vz; static void * volatile vp;
struct ev { uint64_t old, new; bool fail; uint64_t seen; };
struct aw { struct vh_rng r; pthread_barrier_t *bar; int type, mode, n, self, cnt; struct ev *e; };
static uint64_t mask(int type) { return type < 2 ? 0xffffffffu : ~UINT64_C(0); }
static void *atomic_worker(void *v)
{
    struct aw *w = v; struct vh_rng *r = &w->r; uint64_t m = mask(w->type);
    uint64_t last = 0; unsigned uniq = 0;
    pthread_barrier_wait(w->bar);
    for (int k = 0; k < w->n; k++) {
        struct ev *e = &w->e[w->cnt];
        int op = w->mode == 0 ? vh_below(r, 2) : w->mode == 1 ? 2 + vh_below(r, 2) : w->mode == 2 ? vh_below(r, 4) : w->mode == 3 ? 4 : vh_below(r, 5);
        if (w->type == 3) op = 4;
        uint64_t d = w->mode < 2 ? 1 + vh_below(r, 50) : vh_chance(r, 1, 8) ? vh_u64(r) & m : 1 + vh_below(r, 9), got;
        e->fail = false;
        if (op < 4) {
            switch (w->type * 4 + op) {
            case 0: got = (unsigned) cork_int_atomic_add(&vi, (int) d); break;
            case 1: got = (unsigned) cork_int_atomic_pre_add(&vi, (int) d); break;
            case 2: got = (unsigned) cork_int_atomic_sub(&vi, (int) d); break;
            case 3: got = (unsigned) cork_int_atomic_pre_sub(&vi, (int) d); break;
            case 4: got = cork_uint_atomic_add(&vu, (unsigned) d); break;
            case 5: got = cork_uint_atomic_pre_add(&vu, (unsigned) d); break;
            case 6: got = cork_uint_atomic_sub(&vu, (unsigned) d); break;
            case 7: got = cork_uint_atomic_pre_sub(&vu, (unsigned) d); break;
            case 8: got = cork_size_atomic_add(&vz, d); break;
            case 9: got = cork_size_atomic_pre_add(&vz, d); break;
            case 10: got = cork_size_atomic_sub(&vz, d); break;
            default: got = cork_size_atomic_pre_sub(&vz, d); break;
            }
            uint64_t delta = op < 2 ? d : -d;
            if (op % 2) { e->old = got; e->new = (got + delta) & m; } else { e->new = got; e->old = (got - delta) & m; }
        } else {
            uint64_t old = last, new = ((uint64_t) (w->self + 1) << 24 | ++uniq << 4) & m;
            if (vh_chance(r, 1, 3)) { old = w->type == 0 ? (unsigned) vi : w->type == 1 ? vu : w->type == 2 ? vz : (uintptr_t) vp; }
            switch (w->type) {
            case 0: got = (unsigned) cork_int_cas(&vi, (int) old, (int) new); break;
            case 1: got = cork_uint_cas(&vu, (unsigned) old, (unsigned) new); break;
            case 2: got = cork_size_cas(&vz, old, new); break;
            default: got = (uintptr_t) cork_ptr_cas(&vp, (void *) (uintptr_t) old, (void *) (uintptr_t) new); break;
            }
            e->old = old; e->new = new; e->fail = got != old; e->seen = got;
            last = e->fail ? got : new;
        }
        w->cnt++;
        if (vh_chance(r, 1, 32)) sched_yield();
    }
    return NULL;
}
static int cmp_old(const void *a, const void *b) { const struct ev *x = a, *y = b; return x->old < y->old ? -1 : x->old > y->old; }
static int cmp_u64(const void *a, const void *b) { uint64_t x = *(const uint64_t *) a, y = *(const uint64_t *) b; return x < y ? -1 : x > y; }
static void atomic_case(struct vh_rng *r)
{
    int nt = 1 + vh_below(r, MAXT), type = vh_below(r, 4), mode = type == 3 ? 3 : vh_below(r, 5), n = 1 + vh_below(r, 400); uint64_t m = mask(type);
    uint64_t start = vh_chance(r, 1, 2) ? vh_below(r, 1000) : vh_chance(r, 1, 2) ? (m - vh_below(r, 2000)) & m : (m / 2 - 500 + vh_below(r, 1000)) & m;
    vi = (int) start; vu = (unsigned) start; vz = start; vp = (void *) (uintptr_t) start;
    vh_trace("atomics: %d threads x %d operations, type %d, mode %d, from %" PRIx64, nt, n, type, mode, start);
    pthread_barrier_t bar; pthread_t th[MAXT]; struct aw w[MAXT]; struct ev *all = calloc(nt * n, sizeof *all);
    pthread_barrier_init(&bar, NULL, nt);
    for (int t = 0; t < nt; t++) {
        memset(&w[t], 0, sizeof w[t]); vh_seed(&w[t].r, vh_u64(r), t); w[t].bar = &bar; w[t].type = type; w[t].mode = mode; w[t].n = n; w[t].self = t; w[t].e = all + t * n;
        if (pthread_create(&th[t], NULL, atomic_worker, &w[t])) vh_broken("pthread_create");
    }
    for (int t = 0; t < nt; t++) pthread_join(th[t], NULL);
    pthread_barrier_destroy(&bar);
    uint64_t fin = type == 0 ? (unsigned) vi : type == 1 ? vu : type == 2 ? vz : (uintptr_t) vp, nfail = 0;
    /* the successful operations are steps old->new; they have to form one path
     * from the first to the final value using each step once */
    size_t ne = 0, nn = 0; struct ev *s = malloc(nt * n * sizeof *s); uint64_t *nodes = malloc((2 * nt * n + 2) * sizeof *nodes), *seen = malloc(nt * n * sizeof *seen), ns = 0;
    nodes[nn++] = start; nodes[nn++] = fin;
    for (int i = 0; i < nt * n; i++) { if (all[i].fail) { nfail++; seen[ns++] = all[i].seen; } else { s[ne++] = all[i]; nodes[nn++] = all[i].old; nodes[nn++] = all[i].new; } }
    qsort(nodes, nn, sizeof *nodes, cmp_u64);
    size_t u = 0; for (size_t i = 0; i < nn; i++) if (!i || nodes[i] != nodes[u - 1]) nodes[u++] = nodes[i];
    long *bal = calloc(u, sizeof *bal); int *uf = malloc(u * sizeof *uf); for (size_t i = 0; i < u; i++) uf[i] = i;
#define IDX(v) ((uint64_t *) bsearch(&(uint64_t){v}, nodes, u, sizeof *nodes, cmp_u64) - nodes)
#define FIND(x) ({ int _x = (x); while (uf[_x] != _x) { uf[_x] = uf[uf[_x]]; _x = uf[_x]; } _x; })
    for (size_t i = 0; i < ne; i++) { size_t a = IDX(s[i].old), b = IDX(s[i].new); bal[a]++; bal[b]--; int x = FIND((int) a), y = FIND((int) b); uf[x] = y; }
    bal[IDX(start)]--; bal[IDX(fin)]++;
    int root = FIND((int) IDX(start));
    for (size_t i = 0; i < u; i++) {
        VH_CHECK(bal[i] == 0, "atomic", "value %" PRIx64 " was left %s often than reached: an update was lost or returned a wrong value (type %d, mode %d)", nodes[i], bal[i] > 0 ? "more" : "less", type, mode);
        VH_CHECK(FIND((int) i) == root, "atomic", "value %" PRIx64 " was never reached from the first one", nodes[i]);
    }
    if (mode < 2 && type < 3) {      /* only one direction: values are met in strict order */
        uint64_t sum = 0; for (size_t i = 0; i < ne; i++) { sum += mode == 0 ? (s[i].new - s[i].old) & m : (s[i].old - s[i].new) & m; s[i].old = mode == 0 ? (s[i].old - start) & m : (start - s[i].old) & m; }
        qsort(s, ne, sizeof *s, cmp_old);
        for (size_t i = 1; i < ne; i++) VH_CHECK(s[i].old != s[i - 1].old, "atomic", "two updates saw the same value");
        VH_CHECK(((mode == 0 ? fin - start : start - fin) & m) == (sum & m), "atomic", "final value is off");
    }
    for (size_t i = 0; i < ns; i++) VH_CHECK(bsearch(&seen[i], nodes, u, sizeof *nodes, cmp_u64), "cas", "a failed compare-and-swap returned %" PRIx64 ", which was never stored", seen[i]);
    vh_count("atomic updates", ne); vh_count("failed compare-and-swaps", nfail); vh_evals(ne + nfail);
    vh_sig(start * 31 + n * 8 + type); vh_sig(ne); if (nt > 1 && n > 5) vh_nontrivial();
    if (vh_want_sample()) vh_sample("%zu atomic updates and %" PRIu64 " failed swaps by %d threads", ne, nfail, nt);
    free(all); free(s); free(nodes); free(seen); free(bal); free(uf);
}

/*-------------------------------------------------------------------- TLS */
struct big { char c; uint64_t a[5]; void *p; };
static int allocs, deallocs;
static int *tw_alloc(void) { __atomic_add_fetch(&allocs, 1, __ATOMIC_RELAXED); return calloc(1, sizeof(int)); }
static void tw_free(void *p) { __atomic_add_fetch(&deallocs, 1, __ATOMIC_RELAXED); free(p); }
cork_tls(int, tls_int)
cork_tls(struct big, tls_big)
cork_tls(void *, tls_ptr)
cork_tls_with_alloc(int, tls_alloc, tw_alloc, tw_free)
struct tw { pthread_barrier_t *bar; struct vh_rng r; int self; bool lib; int used; };
static void tls_run(struct tw *w, bool fresh)
{
    struct vh_rng *r = &w->r;
    if (fresh) {
        struct big *b = tls_big_get();
        bool z = *tls_int_get() == 0 && b->c == 0 && b->p == NULL && *tls_ptr_get() == NULL;
        for (int i = 0; i < 5; i++) z = z && b->a[i] == 0;
        VH_CHECK(z, "tls-zero", "a thread-local variable is not zero in a new thread");
    }
    int x = vh_u64(r); uint64_t y = vh_u64(r); int al = 0; bool have = false;
    *tls_int_get() = x; tls_big_get()->a[3] = y; tls_big_get()->c = (char) x; *tls_ptr_get() = w;
    int *pi = tls_int_get();
    for (int k = 0, n = vh_below(r, 30); k < n; k++) {
        VH_CHECK(*tls_int_get() == x && tls_big_get()->a[3] == y && tls_big_get()->c == (char) x && *tls_ptr_get() == w && tls_int_get() == pi, "tls", "a thread-local variable changed under its thread");
        if (have) VH_CHECK(*tls_alloc_get() == al, "tls", "a thread-local variable changed under its thread");
        if (vh_chance(r, 1, 3)) { x = vh_u64(r); *tls_int_get() = x; tls_big_get()->c = (char) x; }
        if (vh_chance(r, 1, 4)) { if (!have) { VH_CHECK(!fresh || *tls_alloc_get() == 0, "tls-zero", "a thread-local variable is not zero in a new thread"); w->used = 1; } have = true; al = vh_u64(r); *tls_alloc_get() = al; }
        if (vh_chance(r, 1, 3)) sched_yield();
    }
}
static void *tls_worker(void *v) { struct tw *w = v; pthread_barrier_wait(w->bar); tls_run(w, true); return NULL; }
static int tls_body(void *v) { tls_worker(v); return 0; }
static void tls_case(struct vh_rng *r)
{
    int nt = 1 + vh_below(r, MAXT); pthread_t th[MAXT]; struct cork_thread *ct[MAXT]; struct tw w[MAXT], self; pthread_barrier_t bar;
    int a0 = allocs, d0 = deallocs, used = 0;
    pthread_barrier_init(&bar, NULL, nt);
    memset(&self, 0, sizeof self); vh_seed(&self.r, vh_u64(r), 99); self.self = -1;
    for (int t = 0; t < nt; t++) {
        memset(&w[t], 0, sizeof w[t]); w[t].bar = &bar; w[t].self = t; vh_seed(&w[t].r, vh_u64(r), t); w[t].lib = vh_chance(r, 1, 2);
        if (w[t].lib) { ct[t] = cork_thread_new("t", &w[t], NULL, tls_body); VH_CHECK(cork_thread_start(ct[t]) == 0, "thread-start", "cannot start a thread: %s", cork_error_message()); }
        else if (pthread_create(&th[t], NULL, tls_worker, &w[t])) vh_broken("pthread_create");
    }
#if !PTHREAD_TLS
    tls_run(&self, false);
#endif
    for (int t = 0; t < nt; t++) { if (w[t].lib) { if (cork_thread_join(ct[t])) vh_fail("tls", "join failed"); } else pthread_join(th[t], NULL); used += w[t].used; }
    pthread_barrier_destroy(&bar);
#if PTHREAD_TLS
    VH_CHECK(allocs - a0 == used && deallocs - d0 == used, "tls-alloc", "%d threads used an allocated variable, which was allocated %d and released %d times", used, allocs - a0, deallocs - d0);
#endif
    (void) a0; (void) d0; (void) used;
    vh_count("threads with thread-local variables", nt); vh_sig(vh_u64(r)); if (nt > 1) vh_nontrivial();
    if (vh_want_sample()) vh_sample("%d threads with four thread-local variables each", nt);
}

void vh_setup(void) { sh = mmap(NULL, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (sh == MAP_FAILED) vh_broken("mmap"); }
void vh_case(struct vh_rng *r, uint64_t index)
{
#if PTHREAD_TLS
    tls_case(r);
#else
    switch (vh_below(r, 8)) { case 0: case 1: once_case(r); break; case 2: case 3: case 4: case 5: atomic_case(r); break; default: tls_case(r); }
#endif
}
