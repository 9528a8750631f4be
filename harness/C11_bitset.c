/* C11: bit sets read back exactly the bits that were set. */
#include "vh.h"
#include <libcork/core.h>
#include <libcork/ds.h>
void vh_setup(void) { vh_alloc_install(); VH_WARM_ERRORS(); }
static void all(struct cork_bitset *b, const unsigned char *m, size_t n, const char *key)
{
    for (size_t i = 0; i < n; i++)
        if (!!cork_bitset_get(b, i) != m[i]) vh_fail(key, "bit %zu of %zu reads %d, expected %d", i, n, !m[i], m[i]);
    vh_evals(n);
}
void vh_case(struct vh_rng *r, uint64_t index)
{
    size_t n = index % 128 == 33 ? ((size_t) 1 << vh_range(r, 16, 24)) - 2 + vh_below(r, 5) : index % 4 == 0 ? (index / 4) % 300 : vh_chance(r, 1, 2) ? vh_below(r, 130) : vh_chance(r, 1, 10) ? vh_below(r, 100000) : vh_below(r, 3000);
    uint64_t serial = vh_alloc_serial();
    bool heap = vh_chance(r, 1, 2); struct cork_bitset st, *b;
    if (heap) b = cork_bitset_new(n); else { memset(&st, 0x77, sizeof st); b = &st; cork_bitset_init(b, n); }
    VH_CHECK(b->bit_count == n, "count", "bit count is %zu, not %zu", b->bit_count, n);
    unsigned char *m = calloc(n + 1, 1);
    all(b, m, n, "initial");
    size_t ops = n ? 1 + vh_below(r, vh_chance(r, 1, 2) ? 40 : 2 * (n < 3000 ? n : 3000)) : 1;
    for (size_t k = 0; k < ops; k++) {
        if (vh_chance(r, 1, n > 200000 ? 600 : 60)) { cork_bitset_clear(b); memset(m, 0, n); vh_count("clears", 1); all(b, m, n, "clear"); continue; }
        if (!n) break;
        size_t i = vh_chance(r, 1, 4) ? n - 1 - vh_below(r, n < 10 ? n : 10) : vh_below(r, n);
        if (vh_chance(r, 1, 8)) {       /* a run, up or down */
            size_t c = vh_below(r, 40); bool v = vh_chance(r, 1, 2);
            for (size_t j = i; j < n && j < i + c; j++) { cork_bitset_set(b, j, v); m[j] = v; }
        } else {
            switch (vh_below(r, 7)) {
            case 0: { bool v = vh_chance(r, 1, 2); cork_bitset_set(b, i, v); m[i] = v; break; }
            case 1: { int v = vh_chance(r, 1, 2) ? 0 : 1 << vh_below(r, 31); cork_bitset_set(b, i, v); m[i] = v != 0; break; }
            case 2: { uint64_t v = vh_u64(r), w = vh_u64(r); cork_bitset_set(b, i, v & w & 0xf00000000ull); m[i] = (v & w & 0xf00000000ull) != 0; break; }
            /* Macro arguments may be any expression. */
            case 3: { size_t x = i / 2, y = i - x; bool v = vh_chance(r, 1, 2); struct cork_bitset *bs[2] = { NULL, b };
                      cork_bitset_set(bs[0] ? bs[0] : bs[1], x + y, v); m[i] = v; vh_count("expressions as arguments", 1);
                      if (!!cork_bitset_get(*(bs + 1), x + y) != v) vh_fail("expression", "bit %zu, given as a sum, reads %d", i, !v);
                      if (!!cork_bitset_get(b, i ^ 0) != v) vh_fail("expression", "bit %zu reads %d", i, !v); break; }
            case 4: { bool v = vh_chance(r, 1, 2), w = !v; cork_bitset_set(b, w ? i : i, v ? true : false); m[i] = v; break; }
            case 5: { int v = 0; cork_bitset_set(b, i | 0, v |= 4); m[i] = 1; break; }
            default: { cork_bitset_set(b, i, !cork_bitset_get(b, i)); m[i] = !m[i]; break; }
            }
        }
        vh_count("bit updates", 1);
        /* neighbours now, everything now and then */
        for (size_t j = i > 70 ? i - 70 : 0; j < n && j < i + 70; j++)
            if (!!cork_bitset_get(b, j) != m[j]) vh_fail("neighbour", "bit %zu of %zu changed when bit %zu was set to %d", j, n, i, m[i]);
        if (vh_chance(r, 1, n > 200000 ? 2000 : 16)) all(b, m, n, "contents");
    }
    all(b, m, n, "contents");
    if (heap) cork_bitset_free(b); else cork_bitset_done(b);
    vh_alloc_expect_balanced(serial, "leak");
    vh_sig(n); vh_sig_bytes(m, n);
    if (n > 1) vh_nontrivial();
    if (vh_want_sample()) vh_sample("%zu bits, %zu operations", n, ops);
    free(m);
}
