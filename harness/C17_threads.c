/* C17: threads run once, have unique ids, and joining returns their outcome. */
#include "vh.h"
#include <pthread.h>
#include <sched.h>
#include <libcork/core.h>
#include <libcork/threads.h>

static __thread int fail_create;      /* errno for the next pthread_create from library code */
int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *x)
{ if (fail_create) { int e = fail_create; fail_create = 0; return e; } return __real_pthread_create(t, a, f, x); }

static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static unsigned *seen; static size_t seen_cap, nseen;    /* an open hash set; ids may be any numbers */
static volatile int touched;
static uint64_t n_ok, n_fail, n_never, n_nested, n_inject, n_plain_threads, n_unk, n_names;
static int names_work;              /* does this platform let one thread name another? */
static void id_new(unsigned id, const char *who)
{
    VH_CHECK(id != CORK_THREAD_NONE, "id", "%s has the id of no thread", who);
    pthread_mutex_lock(&mu);
    if (nseen * 2 >= seen_cap) {
        unsigned *old = seen; size_t c = seen_cap; seen_cap = c ? c * 2 : 4096; seen = calloc(seen_cap, sizeof *seen);
        for (size_t k = 0; k < c; k++) if (old[k]) { size_t h = old[k] * 2654435761u & (seen_cap - 1); while (seen[h]) h = (h + 1) & (seen_cap - 1); seen[h] = old[k]; }
        free(old);
    }
    size_t h = id * 2654435761u & (seen_cap - 1); while (seen[h] && seen[h] != id) h = (h + 1) & (seen_cap - 1);
    bool dup = seen[h] == id; if (!dup) { seen[h] = id; nseen++; }
    pthread_mutex_unlock(&mu);
    VH_CHECK(!dup, "id-unique", "%s has id %u, which another thread has", who, id);
}
#define COUNT(c) __atomic_add_fetch(&(c), 1, __ATOMIC_RELAXED)

struct rec { struct vh_rng r; int depth; struct cork_thread *t; char *name; unsigned id; bool has_free, started;
             int runs, finished, freed; int rc; bool sets, mark; cork_error code; char *msg; int spins; int hold, go; };
static void spawn(struct vh_rng *r, int depth, int n);

static void rec_free(void *v)
{
    struct rec *c = v;
    VH_CHECK(++c->freed == 1, "user-data", "user data released %d times", c->freed);
    VH_CHECK(!c->started || c->finished, "user-data-early", "user data released before the body finished");
}
static int body(void *v)
{
    struct rec *c = v; struct vh_rng *r = &c->r;
    VH_CHECK(++c->runs == 1, "runs", "body run %d times", c->runs);
    VH_CHECK(c->freed == 0, "user-data-early", "user data released before the body ran");
    VH_CHECK(cork_current_thread_get() == c->t, "current", "current thread is not the running one");
    VH_CHECK(cork_current_thread_get_id() == c->id, "id-inside", "id inside is %u, the thread's is %u", cork_current_thread_get_id(), c->id);
    VH_CHECK(!strcmp(cork_thread_get_name(cork_current_thread_get()), c->name), "name", "name inside differs");
    if (c->hold) {
        /* start has returned: by now tools that look at the process see the name */
        char got[64] = "";
        while (!__atomic_load_n(&c->go, __ATOMIC_ACQUIRE)) sched_yield();
        if (pthread_getname_np(pthread_self(), got, sizeof got) == 0) {
            VH_CHECK(!strncmp(got, c->name, 15) && strlen(got) <= 15, "name-outside", "the thread is called '%.20s' outside, its name is '%.40s'", got, c->name);
            COUNT(n_names);
        }
    }
    for (int i = 0; i < c->spins; i++) sched_yield();
    if (c->depth > 0 && vh_chance(r, 1, 3)) { COUNT(n_nested); spawn(r, c->depth - 1, 1 + vh_below(r, 3)); if (c->rc && !c->sets) cork_error_clear(); }
    if (c->sets) cork_error_set_string(c->code, c->msg);
    VH_CHECK(cork_current_thread_get() == c->t && cork_current_thread_get_id() == c->id, "id-stable", "current thread or id changed");
    c->finished = 1;
    return c->rc;
}
static void do_join(struct rec *c)
{
    cork_error before = 0; bool mark = c->mark;
    if (mark) { before = 0xabc1; cork_error_set_string(before, "mine"); }
    int rc = cork_thread_join(c->t);
    VH_CHECK(c->runs == 1 && c->finished, "join-early", "join returned %s the body", c->runs ? "in the middle of" : "before");
    VH_CHECK(!c->has_free || c->freed == 1, "user-data", "user data not released when join returned");
    if (c->rc == 0) {
        VH_CHECK(rc == 0, "join-outcome", "joining a successful thread failed");
        if (mark) VH_CHECK(cork_error_code() == before && !strcmp(cork_error_message(), "mine"), "join-error", "joining a successful thread changed the error");
        COUNT(n_ok);
    } else if (c->sets) {
        VH_CHECK(rc != 0, "join-outcome", "joining a failed thread succeeded");
        const char *m = cork_error_message(); size_t ml = strlen(m), bl = strlen(c->msg);
        VH_CHECK(cork_error_code() == c->code, "join-code", "join failed with code 0x%x, the body's is 0x%x", cork_error_code(), c->code);
        VH_CHECK(ml >= bl && !memcmp(m + ml - bl, c->msg, bl), "join-message", "join's message '%.150s' does not end with the body's '%.150s'", m, c->msg);
        COUNT(n_fail);
    } else {
        VH_CHECK(rc != 0, "join-outcome", "joining a thread that failed without an error succeeded");
        VH_CHECK(cork_error_occurred(), "join-code", "joining a thread that failed without an error reports none");
        COUNT(n_unk);
    }
    free(c->name); free(c->msg); free(c);
}
static void *joiner(void *v) { id_new(cork_current_thread_get_id(), "a joining thread"); VH_CHECK(cork_current_thread_get() == NULL, "current", "a foreign thread has a current thread"); do_join(v); return NULL; }
static void spawn(struct vh_rng *r, int depth, int n)
{
    struct rec *c[16]; int k = 0;
    for (int i = 0; i < n; i++) {
        struct rec *x = calloc(1, sizeof *x); size_t nl = vh_chance(r, 1, 4) ? vh_below(r, 200) : vh_below(r, 18);
        vh_seed(&x->r, vh_u64(r), i); x->depth = depth; x->name = malloc(nl + 1); vh_fill(r, x->name, nl, 1); x->name[nl] = 0;
        x->has_free = vh_chance(r, 2, 3); x->mark = touched && vh_chance(r, 1, 2); x->spins = vh_chance(r, 1, 2) ? 0 : vh_below(r, 20); x->hold = names_work && vh_chance(r, 1, 6);
        if (touched && vh_chance(r, 1, 2)) {
            x->rc = vh_chance(r, 3, 4) ? (vh_chance(r, 1, 2) ? -1 : (int) vh_range(r, 1, 100)) : 0; x->sets = vh_chance(r, 3, 4);
            x->code = 1 + (cork_error) vh_below(r, 1u << 31); size_t ml = vh_chance(r, 1, 6) ? vh_below(r, 6000) : vh_below(r, 60);
            x->msg = malloc(ml + 1); vh_fill(r, x->msg, ml, 1); x->msg[ml] = 0;
        }
        char *tmp = strdup(x->name);
        x->t = cork_thread_new(tmp, x, x->has_free ? rec_free : NULL, body);
        memset(tmp, '!', nl); free(tmp);
        x->id = cork_thread_get_id(x->t); id_new(x->id, "a new thread");
        VH_CHECK(!strcmp(cork_thread_get_name(x->t), x->name), "name", "thread name is '%s'", cork_thread_get_name(x->t));
        if (touched && vh_chance(r, 1, 10)) {
            int e = vh_chance(r, 1, 2) ? EAGAIN : EPERM; fail_create = e;
            int rc = cork_thread_start(x->t);
            if (fail_create) fail_create = 0;       /* another way of creating threads */
            else {
                VH_CHECK(rc != 0, "start-error", "start succeeded although no thread could be created");
                VH_CHECK(cork_error_code() == (cork_error) e, "start-error", "start failed with code %u instead of %d", cork_error_code(), e);
                VH_CHECK(x->runs == 0 && x->freed == 0, "start-error", "failed start ran the body or released the data");
                COUNT(n_inject);
                if (vh_chance(r, 1, 2)) { cork_thread_free(x->t); VH_CHECK(!x->has_free || x->freed == 1, "user-data", "user data of a never started thread not released"); free(x->name); free(x->msg); free(x); continue; }
                rc = -2;
            }
            if (rc == 0) { x->started = true; __atomic_store_n(&x->go, 1, __ATOMIC_RELEASE); c[k++] = x; continue; }
        }
        if (vh_chance(r, 1, 10)) {
            cork_thread_free(x->t);
            VH_CHECK(x->runs == 0 && (!x->has_free || x->freed == 1), "user-data", "user data of a never started thread released %d times", x->freed);
            free(x->name); free(x->msg); free(x); COUNT(n_never); continue;
        }
        x->started = true;
        VH_CHECK(cork_thread_start(x->t) == 0, "start", "start failed: %s", cork_error_message());
        __atomic_store_n(&x->go, 1, __ATOMIC_RELEASE);
        if (vh_chance(r, 1, 4)) do_join(x); else c[k++] = x;
    }
    while (k > 0) {
        int j = vh_below(r, k); struct rec *x = c[j]; c[j] = c[--k];
        if (vh_chance(r, 1, 5)) { pthread_t t; if (__real_pthread_create(&t, NULL, joiner, x)) vh_broken("pthread_create"); pthread_join(t, NULL); COUNT(n_plain_threads); }
        else do_join(x);
    }
}
struct drv { struct vh_rng r; int n, depth; };
static void *driver(void *v)
{
    struct drv *d = v;
    VH_CHECK(cork_current_thread_get() == NULL, "current", "a foreign thread has a current thread");
    bool early = vh_chance(&d->r, 1, 2); unsigned id = 0;
    if (early) id_new(id = cork_current_thread_get_id(), "a foreign thread");
    spawn(&d->r, d->depth, d->n);
    if (!early) id_new(id = cork_current_thread_get_id(), "a foreign thread");
    VH_CHECK(cork_current_thread_get_id() == id, "id-stable", "a foreign thread's id changed");
    VH_CHECK(cork_current_thread_get() == NULL, "current", "a foreign thread has a current thread");
    COUNT(n_plain_threads);
    return NULL;
}
static unsigned main_id;
static void *probed(void *v) { while (!__atomic_load_n((int *) v, __ATOMIC_ACQUIRE)) sched_yield(); return NULL; }
void vh_setup(void)
{
    pthread_t t; int go = 0; char got[64] = "";
    if (__real_pthread_create(&t, NULL, probed, &go)) vh_broken("pthread_create");
    names_work = pthread_setname_np(t, "a probe") == 0 && pthread_getname_np(t, got, sizeof got) == 0 && !strcmp(got, "a probe");
    __atomic_store_n(&go, 1, __ATOMIC_RELEASE); pthread_join(t, NULL);
#ifdef VH_MON
    vh_alloc_install(); VH_WARM_ERRORS();
#endif
    cork_error_set_printf(1, "%9000s", "x"); cork_error_prefix_string("y"); cork_error_set_printf(1, "%9000s", "x"); cork_error_clear(); id_new(main_id = cork_current_thread_get_id(), "the main thread"); }
void vh_case(struct vh_rng *r, uint64_t index)
{
    uint64_t serial = vh_alloc_serial(), a = n_ok, b = n_fail, c = n_never, d = n_nested, e = n_inject, f = n_plain_threads, g = n_unk, h = n_names;
    touched = vh_chance(r, 2, 3);       /* error states of dead threads are kept until exit */
    VH_CHECK(cork_current_thread_get() == NULL && cork_current_thread_get_id() == main_id, "id-stable", "the main thread's id changed");
    int nd = vh_chance(r, 1, 2) ? 0 : 1 + vh_below(r, 5);
    struct drv dr[8]; pthread_t th[8];
    for (int i = 0; i < nd; i++) { vh_seed(&dr[i].r, vh_u64(r), i); dr[i].n = 1 + vh_below(r, 6); dr[i].depth = vh_below(r, 2); if (__real_pthread_create(&th[i], NULL, driver, &dr[i])) vh_broken("pthread_create"); }
    spawn(r, vh_below(r, 3), vh_below(r, nd ? 5 : 12));
    for (int i = 0; i < nd; i++) pthread_join(th[i], NULL);
    cork_error_clear();
    if (!touched) vh_alloc_expect_balanced(serial, "leak");
    vh_count("successful threads", n_ok - a); vh_count("failed threads", n_fail - b); vh_count("threads failed without an error", n_unk - g); vh_count("never started threads", n_never - c);
    vh_count("nested creations", n_nested - d); vh_count("failed starts", n_inject - e); vh_count("foreign threads", n_plain_threads - f); vh_count("names seen from outside", n_names - h);
    uint64_t n = n_ok + n_fail - a - b; vh_evals(n * 10); vh_sig(vh_u64(r)); if (n > 1) vh_nontrivial();
    if (vh_want_sample()) vh_sample("%d foreign threads; %" PRIu64 " threads joined, %" PRIu64 " failed", nd, n, n_fail - b);
}
