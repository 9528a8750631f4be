/* C10: ring buffers are bounded FIFO queues. */
#include "vh.h"
#include <libcork/core.h>
#include <libcork/ds.h>
void vh_setup(void) { vh_alloc_install(); VH_WARM_ERRORS(); }
void vh_case(struct vh_rng *r, uint64_t index)
{
    size_t cap = vh_chance(r, 1, 2) ? vh_below(r, 9) : vh_chance(r, 1, 2) ? vh_below(r, 70) : vh_below(r, 5000);
    size_t ops = 1 + vh_below(r, vh_chance(r, 1, 4) ? 6 * cap + 200 : 300);
    uint64_t serial = vh_alloc_serial();
    struct cork_ring_buffer st, *b;
    bool heap = vh_chance(r, 1, 2);
    if (heap) b = cork_ring_buffer_new(cap);
    else { memset(&st, 0x77, sizeof st); b = &st; int rc = cork_ring_buffer_init(b, cap); VH_CHECK(rc == 0, "init", "init returned %d", rc); }
    uintptr_t *q = malloc((cap + 1) * sizeof *q); size_t head = 0, n = 0; uintptr_t next = 1;
    uint64_t wraps = 0, in = 0; unsigned bias = 50;
    for (size_t k = 0; k < ops; k++) {
        VH_CHECK(!!cork_ring_buffer_is_empty(b) == (n == 0), "empty", "empty predicate with %zu of %zu", n, cap);
        VH_CHECK(!!cork_ring_buffer_is_full(b) == (n == cap), "full", "full predicate with %zu of %zu", n, cap);
        if (vh_chance(r, 1, 20)) bias = vh_below(r, 101);
        uintptr_t want = n ? q[head] : 0;
        if (vh_chance(r, 1, 4)) {
            uintptr_t g = (uintptr_t) cork_ring_buffer_peek(b);
            VH_CHECK(g == want, "peek", "peek gave %zx, expected %zx (%zu of %zu)", (size_t) g, (size_t) want, n, cap);
            vh_count("peeks", 1);
        } else if (vh_chance(r, bias, 100)) {
            uintptr_t v = vh_chance(r, 1, 12) ? 0 : vh_chance(r, 1, 8) ? vh_u64(r) | 1 : next; next++;
            if (v == 0) vh_count("NULL elements", 1);
            int rc = cork_ring_buffer_add(b, (void *) v);
            vh_trace("add %zx -> %d", (size_t) v, rc);
            if (n == cap) { VH_CHECK(rc != 0, "add-full", "add to a full buffer (%zu) succeeded", cap); vh_count("adds refused", 1); }
            else { VH_CHECK(rc == 0, "add", "add refused with %zu of %zu", n, cap); q[(head + n) % cap] = v; n++; in++; vh_count("adds", 1); }
        } else {
            uintptr_t g = (uintptr_t) cork_ring_buffer_pop(b);
            vh_trace("pop -> %zx", (size_t) g);
            VH_CHECK(g == want, "pop", "pop gave %zx, expected %zx (%zu of %zu)", (size_t) g, (size_t) want, n, cap);
            if (n) { head = (head + 1) % cap; n--; if (head == 0) wraps++; vh_count("pops", 1); } else vh_count("pops of an empty buffer", 1);
        }
        vh_evals(1);
    }
    while (n) { uintptr_t g = (uintptr_t) cork_ring_buffer_pop(b); VH_CHECK(g == q[head], "pop", "final pops out of order"); head = (head + 1) % cap; n--; }
    VH_CHECK(cork_ring_buffer_pop(b) == NULL && cork_ring_buffer_peek(b) == NULL && cork_ring_buffer_is_empty(b), "empty", "drained buffer is not empty");
    if (heap) cork_ring_buffer_free(b); else cork_ring_buffer_done(b);
    vh_alloc_expect_balanced(serial, "leak");
    vh_count("wrap-arounds", wraps); vh_sig(cap); vh_sig(in); vh_sig(wraps); vh_sig(ops);
    if (cap > 0 && ops > 5) vh_nontrivial();
    if (vh_want_sample()) vh_sample("capacity %zu, %zu operations, %" PRIu64 " added, %" PRIu64 " wrap-arounds", cap, ops, in, wraps);
    free(q);
}
