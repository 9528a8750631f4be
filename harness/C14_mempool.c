/* C14: memory pools hand out distinct usable objects and run lifecycle hooks
 * once.  Every byte of every live object carries a pattern; free objects keep
 * the pattern they were freed with. */
#include "vh.h"
#include <libcork/core.h>

#define MAXO 3000
struct slot { unsigned char *p; bool live; uint32_t tag; bool done; };
static struct slot S[MAXO]; static size_t ns, live;
static size_t es; static void *ud; static int ud_frees, inits, dones, released_early;
static struct { unsigned char *p; bool taken; } fresh[20000]; static size_t nfresh;
static bool has_init, has_done, freeing;

static void fill(unsigned char *p, uint32_t tag) { for (size_t i = 0; i < es; i++) p[i] = (unsigned char) (tag * 31 + i * 7 + 1); }
static void verify(unsigned char *p, uint32_t tag, const char *key, const char *when)
{
    for (size_t i = 0; i < es; i++)
        if (p[i] != (unsigned char) (tag * 31 + i * 7 + 1)) vh_fail(key, "byte %zu of %zu of an object changed %s", i, es, when);
}
static size_t align_of(size_t n)
{
    if (n == 0) return 1;
    size_t a = n & -n;
    return a > 16 ? 16 : a;
}
static void check_place(unsigned char *p)
{
    VH_CHECK((uintptr_t) p % align_of(es) == 0, "alignment", "a %zu-byte object at %p is not aligned to %zu", es, p, align_of(es));
}
static void init_cb(void *u, void *v)
{
    VH_CHECK(u == ud, "user-data", "init callback got other user data");
    VH_CHECK(!ud_frees, "user-data", "init callback after the user data was released");
    inits++;
    check_place(v);
    if (nfresh < 20000) { fresh[nfresh].p = v; fresh[nfresh++].taken = false; }
    fill(v, 0xabcd);
}
static void done_cb(void *u, void *v)
{
    VH_CHECK(u == ud, "user-data", "done callback got other user data");
    VH_CHECK(!ud_frees, "user-data", "done callback after the user data was released");
    VH_CHECK(freeing, "done-early", "done callback before the pool is freed");
    dones++;
    bool known = false;
    for (size_t i = 0; i < ns; i++) if (S[i].p == v) {
        VH_CHECK(!S[i].done, "done-twice", "done callback twice for one object");
        S[i].done = true; known = true;
        verify(v, S[i].tag, "kept", "before the done callback");
        break;
    }
    if (!known && has_init) {
        for (size_t i = 0; i < nfresh; i++) if (fresh[i].p == v) { VH_CHECK(!fresh[i].taken, "done-twice", "done callback twice for one slot"); fresh[i].taken = true; known = true; break; }
        VH_CHECK(known || nfresh >= 20000, "done-unknown", "done callback for an object that was never initialised");
        verify(v, 0xabcd, "kept", "between the init and done callbacks");
    }
}
static void ud_free(void *u) { VH_CHECK(u == ud, "user-data", "release of other user data"); ud_frees++; }

void vh_setup(void) { vh_alloc_install(); VH_WARM_ERRORS(); }
void vh_case(struct vh_rng *r, uint64_t index)
{
    uint64_t serial = vh_alloc_serial();
    es = vh_chance(r, 1, 3) ? 1u << vh_below(r, 9) : vh_chance(r, 1, 2) ? vh_below(r, 40) : vh_below(r, 1500);
    /* Now and then objects that do not fit in 16 bits of size. */
    bool huge = vh_chance(r, 1, 60);
    if (huge) es = 60000 + vh_below(r, 140000);
    size_t min = 2 * sizeof(void *) + es, bs;
    bool def = !huge && vh_chance(r, 1, 3);
    if (def) bs = 4096;
    else bs = vh_chance(r, 1, 4) ? min + vh_below(r, 16) : min + vh_below(r, 3000);
    if (huge) bs = min + vh_below(r, 2 * es);
    ns = live = nfresh = 0; ud_frees = inits = dones = 0; freeing = false; ud = (void *) (uintptr_t) (0x1000 + vh_below(r, 1000) * 16);
    struct cork_mempool *mp = def ? cork_mempool_new_size(es) : cork_mempool_new_size_ex(es, bs);
    VH_CHECK(mp != NULL, "new", "no pool");
    has_init = vh_chance(r, 2, 3); has_done = vh_chance(r, 2, 3);
    bool has_ud = vh_chance(r, 2, 3);
    if (vh_chance(r, 1, 4)) cork_mempool_set_callbacks(mp, has_ud ? ud : NULL, has_ud ? ud_free : NULL, has_init ? init_cb : NULL, has_done ? done_cb : NULL);
    else {
        if (has_ud) {
            if (vh_chance(r, 1, 4)) {   /* replaced: the first is released at once */
                void *second = ud; ud = (void *) ((uintptr_t) ud + 8);
                cork_mempool_set_user_data(mp, ud, ud_free);
                int b = ud_frees;
                cork_mempool_set_user_data(mp, second, ud_free);
                VH_CHECK(ud_frees == b + 1, "user-data", "replaced user data released %d times", ud_frees - b);
                ud = second; ud_frees = 0;
            } else cork_mempool_set_user_data(mp, ud, ud_free);
        }
        if (has_init) cork_mempool_set_init_object(mp, init_cb);
        if (has_done) cork_mempool_set_done_object(mp, done_cb);
    }
    if (!has_ud) ud = NULL;
    size_t ops = vh_chance(r, 1, 3) ? vh_below(r, 2000) : vh_below(r, 150); if (huge) ops = vh_below(r, 40); unsigned bias = 60; uint64_t reused = 0, allocs = 0;
    vh_trace("element size %zu, block size %zu, init %d done %d", es, bs, has_init, has_done);
    for (size_t k = 0; k < ops; k++) {
        if (vh_chance(r, 1, 40)) bias = vh_below(r, 101);
        if (vh_chance(r, bias, 100) && live < MAXO - 1 && ns < MAXO - 1) {
            unsigned char *p = cork_mempool_new_object(mp); size_t j; allocs++;
            VH_CHECK(p != NULL, "new", "no object");
            check_place(p);
            /* overlap with anything alive? */
            for (j = 0; j < ns; j++) if (S[j].live) {
                size_t w = es ? es : 1;
                VH_CHECK(!(p < S[j].p + w && S[j].p < p + w), "overlap", "object at %p overlaps a live one at %p (%zu bytes)", p, S[j].p, es);
            }
            for (j = 0; j < ns && S[j].p != p; j++) ;
            if (j < ns) { reused++; verify(p, S[j].tag, "kept", "between free and reuse"); }
            else {
                S[ns].p = p; S[ns].done = false; ns++;
                if (has_init) {
                    size_t f;
                    for (f = 0; f < nfresh && !(fresh[f].p == p && !fresh[f].taken); f++) ;
                    VH_CHECK(f < nfresh || nfresh >= 20000, "no-init", "an object was handed out without having been initialised");
                    if (f < nfresh) fresh[f].taken = true;
                    verify(p, 0xabcd, "kept", "between init and first use");
                }
            }
            S[j].live = true; S[j].tag = vh_u64(r); live++;
            fill(p, S[j].tag);
        } else if (live) {
            size_t j = vh_below(r, ns);
            while (!S[j].live) j = (j + 1) % ns;
            verify(S[j].p, S[j].tag, "clobbered", "while it was allocated");
            if (vh_chance(r, 1, 4)) { S[j].tag = vh_u64(r); fill(S[j].p, S[j].tag); }
            cork_mempool_free_object(mp, S[j].p);
            S[j].live = false; live--;
        }
        if (vh_chance(r, 1, 50)) for (size_t j = 0; j < ns; j++) if (S[j].live) verify(S[j].p, S[j].tag, "clobbered", "while it was allocated");
        VH_CHECK(dones == 0, "done-early", "done callback before the pool is freed");
        VH_CHECK(!ud_frees, "user-data", "user data released before the pool is freed");
    }
    for (size_t j = 0; j < ns; j++) if (S[j].live) { verify(S[j].p, S[j].tag, "clobbered", "while it was allocated"); cork_mempool_free_object(mp, S[j].p); S[j].live = false; }
    freeing = true;
    cork_mempool_free(mp);
    if (has_init && has_done) VH_CHECK(inits == dones, "done-count", "%d slots initialised, %d finalised", inits, dones);
    if (has_done) for (size_t j = 0; j < ns; j++) VH_CHECK(S[j].done, "done-count", "an object was never finalised");
    VH_CHECK(ud_frees == (has_ud ? 1 : 0), "user-data", "user data released %d times", ud_frees);
    vh_alloc_expect_balanced(serial, "leak");
    vh_count("objects allocated", allocs); vh_count("objects reused", reused); vh_count("slots initialised", inits); vh_count("slots finalised", dones); vh_count("user data released", ud_frees);
    vh_evals(ops); vh_sig(es); vh_sig(bs); vh_sig(allocs); vh_sig(reused);
    if (allocs > 3) vh_nontrivial();
    if (vh_want_sample()) vh_sample("element size %zu, block size %zu: %" PRIu64 " allocations in %zu places", es, bs, allocs, ns);
}
