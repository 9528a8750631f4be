/* C07: a managed buffer is freed exactly once, when its last reference goes,
 * whichever threads hold the references.  Every holder checks the bytes it can
 * see; the free callback poisons them. */
#include "vh.h"
#include <pthread.h>
#include <sched.h>
#include <libcork/core.h>
#include <libcork/ds.h>

#define MAXB 4
#define MAXT 8
struct mb { unsigned char *mem; size_t size; unsigned char fill; int freed; struct cork_managed_buffer *mb; int custom; };
static struct mb b[MAXB]; static int nb;
static int frees;           /* atomic */

static void fr(void *buf, size_t size)
{
    for (int i = 0; i < nb; i++)
        if (b[i].mem == buf) {
            VH_CHECK(size == b[i].size, "free-size", "free callback got size %zu, expected %zu", size, b[i].size);
            int n = __atomic_add_fetch(&b[i].freed, 1, __ATOMIC_SEQ_CST);
            VH_CHECK(n == 1, "free-twice", "free callback of a buffer ran %d times", n);
            memset(buf, 0xdd, size);
            __atomic_add_fetch(&frees, 1, __ATOMIC_SEQ_CST);
            return;
        }
    vh_fail("free-foreign", "free callback got an unknown pointer");
}
struct custom { struct cork_managed_buffer parent; int idx; };
static void custom_free(struct cork_managed_buffer *self)
{
    struct custom *c = cork_container_of(self, struct custom, parent);
    fr(b[c->idx].mem, b[c->idx].size);
    free(c);
}
static struct cork_managed_buffer_iface custom_iface = { custom_free };

static void look(struct mb *x, const void *p, size_t n)
{
    const unsigned char *c = p;
    VH_CHECK(!__atomic_load_n(&x->freed, __ATOMIC_SEQ_CST), "freed-live", "buffer freed while a reference is live");
    if (n) VH_CHECK(c[0] == x->fill && c[n - 1] == x->fill, "bytes", "a live slice shows wrong bytes");
}
struct work { struct vh_rng r; size_t ops; struct cork_managed_buffer *ref[MAXB]; struct cork_slice s[MAXB]; int has_slice[MAXB]; pthread_barrier_t *bar; uint64_t done; int yields; };
static void *worker(void *v)
{
    struct work *w = v; struct vh_rng *r = &w->r;
    struct { int i; struct cork_slice s; } hold[16]; int nh = 0;
    struct { int i; struct cork_managed_buffer *m; } refs[16]; int nr = 0;
    if (w->bar) pthread_barrier_wait(w->bar);
    for (int i = 0; i < nb; i++) {
        if (w->ref[i]) { refs[nr].i = i; refs[nr++].m = w->ref[i]; }
        if (w->has_slice[i]) { hold[nh].i = i; hold[nh++].s = w->s[i]; }
    }
    for (size_t k = 0; k < w->ops; k++) {
        unsigned op = vh_below(r, 8);
        if (op < 2 && nr > 0 && nr < 16) {
            int j = vh_below(r, nr);
            look(&b[refs[j].i], refs[j].m->buf, refs[j].m->size);
            refs[nr].i = refs[j].i; refs[nr].m = cork_managed_buffer_ref(refs[j].m);
            VH_CHECK(refs[nr].m == refs[j].m, "ref", "ref returned another object"); nr++;
        } else if (op == 2 && nr > 0 && nh < 16) {
            int j = vh_below(r, nr), i = refs[j].i;
            size_t off = vh_below(r, b[i].size + 1);
            if (cork_managed_buffer_slice_offset(&hold[nh].s, refs[j].m, off) != 0) vh_fail("refused", "valid slice refused");
            look(&b[i], hold[nh].s.buf, hold[nh].s.size);
            hold[nh++].i = i;
        } else if (op == 3 && nh > 0 && nh < 16) {
            int j = vh_below(r, nh);
            struct cork_slice *s = &hold[j].s;
            size_t off = vh_below(r, s->size + 1);
            if (vh_chance(r, 1, 2) ? cork_slice_copy(&hold[nh].s, s, off, s->size - off) : cork_slice_light_copy_offset(&hold[nh].s, s, off)) vh_fail("refused", "valid copy refused");
            look(&b[hold[j].i], hold[nh].s.buf, hold[nh].s.size);
            hold[nh].i = hold[j].i; nh++;
        } else if (op < 6 && nr > 0 && (nr + nh > 1)) {
            int j = vh_below(r, nr);
            look(&b[refs[j].i], refs[j].m->buf, refs[j].m->size);
            struct cork_managed_buffer *m = refs[j].m;
            refs[j] = refs[--nr];
            cork_managed_buffer_unref(m);
        } else if (nh > 0 && nr + nh > 1) {
            int j = vh_below(r, nh);
            look(&b[hold[j].i], hold[j].s.buf, hold[j].s.size);
            struct cork_slice s = hold[j].s;
            hold[j] = hold[--nh];
            cork_slice_finish(&s);
        }
        if (w->yields && vh_chance(r, 1, 16)) sched_yield();
        w->done++;
    }
    while (nr > 0 || nh > 0) {
        if (nr > 0) { nr--; look(&b[refs[nr].i], refs[nr].m->buf, refs[nr].m->size); cork_managed_buffer_unref(refs[nr].m); }
        if (nh > 0) { nh--; look(&b[hold[nh].i], hold[nh].s.buf, hold[nh].s.size); cork_slice_finish(&hold[nh].s); }
    }
    return NULL;
}

static void copy_once_case(struct vh_rng *r)
{
    /* copies survive the original and its memory */
    size_t n = 1 + vh_below(r, 300), k = 1 + vh_below(r, 6);
    unsigned char *mem = malloc(n), *ref = malloc(n);
    struct cork_slice s, light, c[8]; size_t off[8], len[8];
    vh_fill(r, mem, n, 0); memcpy(ref, mem, n);
    cork_slice_init_copy_once(&s, mem, n);
    bool have_light = vh_chance(r, 1, 2);
    if (have_light) VH_CHECK(cork_slice_light_copy(&light, &s, n / 2, n - n / 2) == 0, "refused", "light copy refused");
    for (size_t i = 0; i < k; i++) {
        struct cork_slice *from = i > 0 && vh_chance(r, 1, 3) ? &c[vh_below(r, i)] : have_light && vh_chance(r, 1, 3) ? &light : &s;
        size_t base = from == &s ? 0 : from == &light ? n / 2 : off[from - c];
        off[i] = vh_below(r, from->size + 1); len[i] = vh_below(r, from->size - off[i] + 1);
        VH_CHECK(cork_slice_copy(&c[i], from, off[i], len[i]) == 0, "refused", "copy of a copy-once slice refused");
        off[i] += base;
        VH_CHECK(s.size == n && !memcmp(s.buf, ref, n), "bytes", "original changed by being copied");
    }
    if (have_light) { VH_CHECK(!memcmp(light.buf, ref + n / 2, n - n / 2), "bytes", "light copy differs"); cork_slice_finish(&light); }
    if (vh_chance(r, 1, 2)) { memset(mem, 0xee, n); free(mem); mem = NULL; cork_slice_finish(&s); }
    else { cork_slice_finish(&s); memset(mem, 0xee, n); free(mem); }
    for (size_t i = 0; i < k; i++) {
        VH_CHECK(c[i].size == len[i] && (len[i] == 0 || !memcmp(c[i].buf, ref + off[i], len[i])), "copy-once", "copy %zu differs after the original is gone", i);
        cork_slice_finish(&c[i]);
    }
    free(ref);
    vh_count("copy-once copies", k); vh_nontrivial(); vh_sig(n * 8 + k);
}

static void copied_case(struct vh_rng *r)
{
    /* a copied buffer has its own bytes, of any number */
    size_t n = vh_chance(r, 1, 10) ? ((size_t) 1 << vh_range(r, 12, 24)) - 1 + vh_below(r, 3) : vh_size(r, 3000);
    unsigned char *mem = malloc(n + 1), fill = vh_below(r, 256);
    memset(mem, fill, n + 1); vh_fill(r, mem, n < 200 ? n : 200, 0); if (n > 200) vh_fill(r, mem + n - 100, 100, 0);
    unsigned char *ref = malloc(n + 1); memcpy(ref, mem, n + 1);
    struct cork_managed_buffer *m = cork_managed_buffer_new_copy(mem, n);
    struct cork_slice s[6]; int k = vh_below(r, 6); size_t off[6];
    memset(mem, ~fill, n); free(mem);
    VH_CHECK(m->size == n, "new", "copied buffer has %zu bytes instead of %zu", m->size, n);
    VH_CHECK(n == 0 || !memcmp(m->buf, ref, n), "copied", "copied buffer of %zu bytes differs from its source", n);
    for (int i = 0; i < k; i++) {
        off[i] = vh_chance(r, 1, 4) ? n : vh_below(r, n + 1);
        if (cork_managed_buffer_slice_offset(&s[i], m, off[i])) vh_fail("refused", "valid slice refused");
    }
    cork_managed_buffer_unref(m);
    for (int i = 0; i < k; i++) {
        VH_CHECK(s[i].size == n - off[i] && (n == off[i] || !memcmp(s[i].buf, ref + off[i], n - off[i])), "bytes", "a slice of a copied buffer shows wrong bytes");
        cork_slice_finish(&s[i]);
    }
    free(ref);
    vh_count("copied buffers", 1); vh_nontrivial(); vh_sig(n * 8 + k);
}

#ifdef VH_MON
void vh_setup(void) { vh_alloc_install(); VH_WARM_ERRORS(); cork_error_set_string(1, "x"); cork_error_clear(); }
#endif
void vh_case(struct vh_rng *r, uint64_t index)
{
    uint64_t serial = vh_alloc_serial();
    int nt = vh_chance(r, 1, 4) ? 1 : 2 + vh_below(r, MAXT - 1);
    struct work w[MAXT]; pthread_t th[MAXT]; pthread_barrier_t bar;
    if (vh_chance(r, 1, 16)) { copied_case(r); vh_alloc_expect_balanced(serial, "leak"); return; }
    if (vh_chance(r, 1, 8)) { copy_once_case(r); vh_alloc_expect_balanced(serial, "leak"); return; }
    nb = 1 + vh_below(r, MAXB); frees = 0;
    memset(w, 0, sizeof w);
    for (int i = 0; i < nb; i++) {
        b[i].size = vh_chance(r, 1, 10) ? 0 : 1 + vh_below(r, 64); b[i].fill = 1 + vh_below(r, 200); b[i].freed = 0;
        b[i].mem = malloc(b[i].size + 1); memset(b[i].mem, b[i].fill, b[i].size);
        b[i].custom = vh_chance(r, 1, 4);
        if (b[i].custom) {
            struct custom *c = malloc(sizeof *c);
            c->idx = i; c->parent.buf = b[i].mem; c->parent.size = b[i].size; c->parent.ref_count = 1; c->parent.iface = &custom_iface;
            b[i].mb = &c->parent;
        } else b[i].mb = cork_managed_buffer_new(b[i].mem, b[i].size, fr);
        VH_CHECK(b[i].mb->buf == b[i].mem && b[i].mb->size == b[i].size, "new", "new managed buffer is wrong");
        for (int t = 0; t < nt; t++) {
            int give = vh_below(r, 4);
            if (give & 1) w[t].ref[i] = cork_managed_buffer_ref(b[i].mb);
            if (give & 2) { w[t].has_slice[i] = 1; if (cork_managed_buffer_slice(&w[t].s[i], b[i].mb, 0, b[i].size)) vh_fail("refused", "valid slice refused"); }
        }
        vh_trace("buffer %d: %zu bytes", i, b[i].size);
    }
    pthread_barrier_init(&bar, NULL, nt);
    for (int t = 0; t < nt; t++) {
        w[t].r = *r; vh_seed(&w[t].r, vh_u64(r), t);
        w[t].ops = vh_below(r, vh_chance(r, 1, 3) ? 2000 : 60); w[t].bar = nt > 1 ? &bar : NULL; w[t].yields = vh_chance(r, 1, 2);
        vh_sig(w[t].ops);
    }
    bool own_early = vh_chance(r, 1, 2);
    for (int t = 0; t < nt; t++) {
        if (nt == 1) worker(&w[t]);
        else if (pthread_create(&th[t], NULL, worker, &w[t])) vh_broken("pthread_create");
    }
    if (own_early) for (int i = 0; i < nb; i++) cork_managed_buffer_unref(b[i].mb);
    if (nt > 1) for (int t = 0; t < nt; t++) pthread_join(th[t], NULL);
    pthread_barrier_destroy(&bar);
    if (!own_early) {
        VH_CHECK(frees == 0, "freed-live", "%d buffers freed although the first reference is live", frees);
        for (int i = 0; i < nb; i++) { look(&b[i], b[i].mb->buf, b[i].mb->size); cork_managed_buffer_unref(b[i].mb); VH_CHECK(b[i].freed == 1, "not-freed", "buffer not freed with its last reference"); }
    }
    for (int i = 0; i < nb; i++) { VH_CHECK(b[i].freed == 1, "not-freed", "free callback ran %d times after the last reference went", b[i].freed); free(b[i].mem); }
    uint64_t tot = 0;
    for (int t = 0; t < nt; t++) tot += w[t].done;
    vh_count("reference operations", tot); vh_evals(tot);
    vh_count(nt > 1 ? "multi-threaded histories" : "single-threaded histories", 1);
    if (tot > 10) vh_nontrivial();
    if (vh_want_sample()) vh_sample("%d buffers shared by %d threads, %" PRIu64 " reference operations", nb, nt, tot);
    vh_alloc_expect_balanced(serial, "leak");
}
