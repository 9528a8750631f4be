/* C36: the cost of an operation does not grow with what the container holds.
 * The library is built with a callback on every edge of its control flow; the
 * monitor counts those edges, the bytes handed to memcpy and friends, the
 * calls and bytes asked of the allocator, and the key comparisons, none of
 * which depend on the machine or its load. */
#include "vh.h"
#include <libcork/core.h>
#include <libcork/ds.h>
#include <libcork/os.h>
#include <libcork/helpers/gc.h>

#define NOCOV __attribute__((no_sanitize("coverage")))

static bool on;
static uint64_t steps, moved, calls, asked, biggest, compares;

NOCOV void __sanitizer_cov_trace_pc_guard(uint32_t *g) { (void) g; if (on) steps++; }
NOCOV void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) { (void) a; (void) b; }

void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
int __real_memcmp(const void *, const void *, size_t);
size_t __real_strlen(const char *);
int __real_strcmp(const char *, const char *);
NOCOV void *__wrap_memcpy(void *d, const void *s, size_t n) { if (on) moved += n; return __real_memcpy(d, s, n); }
NOCOV void *__wrap_memmove(void *d, const void *s, size_t n) { if (on) moved += n; return __real_memmove(d, s, n); }
NOCOV void *__wrap_memset(void *d, int c, size_t n) { if (on) moved += n; return __real_memset(d, c, n); }
NOCOV int __wrap_memcmp(const void *d, const void *s, size_t n) { if (on) moved += n; return __real_memcmp(d, s, n); }
NOCOV size_t __wrap_strlen(const char *s) { size_t n = __real_strlen(s); if (on) moved += n; return n; }
NOCOV int __wrap_strcmp(const char *a, const char *b)
{
    if (on) { compares++; for (const char *p = a, *q = b; *p && *p == *q; p++, q++) moved++; }
    return __real_strcmp(a, b);
}

/* an allocator that counts; its own work is not the library's */
static NOCOV void note(size_t n) { if (on) { calls++; asked += n; if (n > biggest) biggest = n; } }
static NOCOV void *lim(void *p, size_t n)
{
    if (n > (1u << 30)) vh_fail("memory-runaway", "a request for %zu bytes", n);
    if (p == NULL && n > 0) vh_fail("memory-runaway", "all memory is used up");
    return p;
}
static NOCOV void *a_calloc(const struct cork_alloc *a, size_t n, size_t s) { (void) a; note(n * s); if (s && n > (1u << 30) / s) lim(NULL, SIZE_MAX); return lim(calloc(n, s ? s : 1), n * s); }
static NOCOV void *a_malloc(const struct cork_alloc *a, size_t s) { (void) a; note(s); if (s > (1u << 30)) lim(NULL, s); return lim(malloc(s ? s : 1), s); }
static NOCOV void *a_realloc(const struct cork_alloc *a, void *p, size_t os, size_t ns)
{ (void) a; (void) os; note(ns); if (ns > (1u << 30)) lim(NULL, ns); return lim(realloc(p, ns ? ns : 1), ns); }
static NOCOV void a_free(const struct cork_alloc *a, void *p, size_t s) { (void) a; (void) s; free(p); }

static void begin(void) { steps = moved = calls = asked = biggest = compares = 0; on = true; }
static void end(void) { on = false; }
static uint64_t work(void) { return steps + moved / 16 + calls * 8 + asked / 16; }
static uint64_t lg(uint64_t n) { uint64_t k = 0; while (n) { k++; n >>= 1; } return k; }

/* `count` operations on something that holds `n`; `per` is what one may cost */
static void expect(const char *what, size_t n, uint64_t count, uint64_t per, uint64_t extra)
{
    end();
    uint64_t w = work();
    vh_evals(1); vh_sig(w / (count ? count : 1));
    vh_count("operations measured", count); vh_count("steps observed", steps);
    vh_trace("%s: %" PRIu64 " operations on %zu: work %" PRIu64 " (steps %" PRIu64 ", moved %" PRIu64 ", allocator %" PRIu64 "/%" PRIu64 ", comparisons %" PRIu64 ")",
             what, count, n, w, steps, moved, calls, asked, compares);
    if (getenv("VH_COST")) fprintf(stderr, "COST %-32s n=%-8zu per=%-8.1f bound=%" PRIu64 " cmp/op=%.2f allocs=%" PRIu64 "\n", what, n, (double) w / (count ? count : 1), per, (double) compares / (count ? count : 1), calls);
    VH_CHECK(w <= count * per + extra, "cost", "%s: %" PRIu64 " operations with %zu held took %" PRIu64 " units of work (%" PRIu64 " steps, %" PRIu64
             " bytes moved, %" PRIu64 " allocations of %" PRIu64 " bytes), more than %" PRIu64 " each", what, count, n, w, steps, moved, calls, asked, per);
}
static size_t pick_n(struct vh_rng *r) { size_t b[] = { 64, 512, 4096, 16384, 24576 }; size_t m = b[vh_below(r, 5)]; return m + vh_below(r, m); }

/*-------------------------------------------------------------- hash tables */
static uint64_t salt;
static uint32_t mix(uint64_t x) { x ^= salt; x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ull; x ^= x >> 33; return (uint32_t) x; }
struct key { uint64_t id; };
static cork_hash k_hash(void *ud, const void *k) { (void) ud; return mix(((const struct key *) k)->id); }
static bool k_eq(void *ud, const void *a, const void *b) { (void) ud; compares++; return ((const struct key *) a)->id == ((const struct key *) b)->id; }
static enum cork_hash_table_map_result m_count(void *ud, struct cork_hash_table_entry *e) { (void) e; ++*(size_t *) ud; return CORK_HASH_TABLE_MAP_CONTINUE; }
static enum cork_hash_table_map_result m_drop(void *ud, struct cork_hash_table_entry *e) { (void) e; ++*(size_t *) ud; return CORK_HASH_TABLE_MAP_DELETE; }

static void put1(struct cork_hash_table *t, void *k, int api, bool own)
{
    bool n; void *ok, *ov;
    switch (own ? api & 3 : api & 1) {
        case 0: cork_hash_table_put(t, k, k, &n, &ok, &ov); break;
        case 1: cork_hash_table_get_or_create(t, k, &n)->value = k; break;
        case 2: cork_hash_table_put_hash(t, k_hash(NULL, k), k, k, &n, &ok, &ov); break;
        case 3: cork_hash_table_get_or_create_hash(t, k_hash(NULL, k), k, &n)->value = k; break;
    }
}
static void hash_case(struct vh_rng *r)
{
    size_t n = pick_n(r);
    int kind = vh_below(r, 3);          /* 0 structs, 1 strings, 2 pointers */
    int presize = vh_below(r, 4);       /* 0 default, 1 small, 2 new(n), 3 ensure_size(n) */
    size_t init = presize == 0 ? 0 : presize == 1 ? vh_below(r, vh_chance(r, 1, 3) ? n / 2 : 40) : presize == 2 ? n : 0;
    bool sized = presize >= 2;
    /* room for the whole keys, twice as many as go in */
    char (*s)[24] = vh_xmalloc(2 * n * sizeof *s);
    struct key *k = vh_xmalloc(2 * n * sizeof *k);
    void **key = vh_xmalloc(2 * n * sizeof *key);
    salt = vh_u64(r);
    uintptr_t base = 4096 + (vh_u64(r) & 0xffffffff);
    for (size_t i = 0; i < 2 * n; i++) {
        k[i].id = i; snprintf(s[i], sizeof s[i], "k%zu-%x", i, mix(i));
        key[i] = kind == 0 ? (void *) &k[i] : kind == 1 ? (void *) s[i] : (void *) (base + i);
    }
    struct cork_hash_table *t;
    if (kind == 0) { t = cork_hash_table_new(init, 0); cork_hash_table_set_hash(t, k_hash); cork_hash_table_set_equals(t, k_eq); }
    else t = kind == 1 ? cork_string_hash_table_new(init, 0) : cork_pointer_hash_table_new(init, 0);
    size_t early = presize == 3 && vh_chance(r, 1, 2) ? vh_below(r, n / 4) : 0;
    for (size_t i = 0; i < early; i++) put1(t, key[i], (int) i, kind == 0);
    if (presize == 3) { cork_hash_table_ensure_size(t, n); if (vh_chance(r, 1, 2)) cork_hash_table_ensure_size(t, vh_below(r, n)); }
    int api = vh_below(r, 4); bool mixed = vh_chance(r, 1, 2);
    vh_trace("hash table of kind %d, %zu keys, presize %d, api %d mixed %d", kind, n, presize, api, mixed);
    begin();
    for (size_t i = early; i < n; i++) put1(t, key[i], mixed ? (int) (i * 7 + i / 3) : api, kind == 0);
    expect("insertions into a hash table", n, n, 400, 20000);
    if (kind != 2) VH_CHECK(compares <= n * 12 + 2000, "insertion-comparisons", "%zu insertions made %" PRIu64 " key comparisons", n, compares);
    if (sized && n >= 1024) {
        VH_CHECK(biggest <= 2048, "presized-reallocation", "a table with room for %zu entries asked for a block of %" PRIu64 " bytes while they were added", n, biggest);
        vh_count("tables filled without growing", 1);
    }
    size_t q = 2000 + vh_below(r, 2000);
    for (int pass = 0; pass < 2; pass++) {
        begin();
        for (size_t i = 0; i < q; i++) {
            size_t j = mix(i + 77) % n;
            if (i & 1) (void) cork_hash_table_get(t, key[j + (pass ? n : 0)]);
            else (void) cork_hash_table_get_entry(t, key[j + (pass ? n : 0)]);
        }
        expect(pass ? "lookups of absent keys" : "lookups", n, q, 250, 2000);
        if (kind != 2) VH_CHECK(compares <= q * (sized ? 6 : pass ? 14 : 10) + 1000, "lookup-comparisons", "%zu lookups among %zu entries made %" PRIu64 " key comparisons", q, n, compares);
    }
    begin();
    for (size_t i = 0; i < q; i++) put1(t, key[mix(i + 5) % n], (int) i, kind == 0);
    expect("overwrites", n, q, 300, 2000);
    /* churn: as many leave as arrive */
    begin();
    for (size_t i = 0; i < n; i++) { void *dk, *dv; cork_hash_table_delete(t, key[i], &dk, &dv); put1(t, key[n + i], (int) i, kind == 0); }
    expect("deletions and insertions", n, 2 * n, 400, 20000);
    size_t seen = 0;
    begin();
    if (vh_chance(r, 1, 2)) cork_hash_table_map(t, &seen, m_count);
    else { struct cork_hash_table_iterator it; cork_hash_table_iterator_init(t, &it); while (cork_hash_table_iterator_next(&it) != NULL) seen++; }
    expect("iteration", n, n, 60, 2000);
    VH_CHECK(seen == n, "iteration-count", "%zu of %zu entries visited", seen, n);
    /* few left in a table that was big: iterating costs what is left */
    for (size_t i = 0; i + 20 < n; i++) { void *dk, *dv; cork_hash_table_delete(t, key[n + i], &dk, &dv); }
    seen = 0;
    begin();
    cork_hash_table_map(t, &seen, m_count);
    expect("iteration over the few entries left", n, 20, 60, 400);
    begin();
    if (vh_chance(r, 1, 2)) cork_hash_table_clear(t); else cork_hash_table_map(t, &seen, m_drop);
    expect("emptying", n, n, 60, 2000);
    begin();
    for (size_t i = 0; i < n; i++) put1(t, key[i], (int) (i / 5), kind == 0);
    for (size_t i = 0; i < q; i++) (void) cork_hash_table_get(t, key[mix(i + 3) % (2 * n)]);
    expect("refilling an emptied table", n, n + q, 300, 20000);
    if (kind != 2) VH_CHECK(compares <= (n + q) * 12 + 2000, "refill-comparisons", "%zu insertions and %zu lookups made %" PRIu64 " key comparisons", n, q, compares);
    VH_CHECK(cork_hash_table_size(t) == n, "refill-size", "%zu of %zu", cork_hash_table_size(t), n);
    cork_hash_table_free(t);
    free(s); free(k); free(key);
    vh_count("hash tables", 1); vh_sig(n * 16 + kind * 4 + presize); vh_nontrivial();
}

/*-------------------------------------------------------------------- lists */
static void l_count(struct cork_dllist_item *i, void *ud) { (void) i; ++*(size_t *) ud; }
static void list_case(struct vh_rng *r)
{
    size_t n = pick_n(r);
    struct cork_dllist a, b;
    struct cork_dllist_item *it = vh_xmalloc((n + 64) * sizeof *it), *x = it + n;
    cork_dllist_init(&a); cork_dllist_init(&b);
    begin();
    for (size_t i = 0; i < n; i++) { if (i & 1) cork_dllist_add_to_head(&a, &it[i]); else cork_dllist_add(&a, &it[i]); }
    expect("additions to a list", n, n, 12, 100);
    begin();
    for (size_t i = 0; i < 16; i++) {
        cork_dllist_add_after(&it[mix(i) % n], &x[i]); cork_dllist_add_before(&it[mix(i + 9) % n], &x[16 + i]);
        cork_dllist_remove(&x[i]); cork_dllist_remove(&x[16 + i]);
        (void) cork_dllist_head(&a); (void) cork_dllist_tail(&a); (void) cork_dllist_is_empty(&a);
    }
    expect("changes in the middle of a list", n, 16, 100, 100);
    for (size_t i = 0; i < 32; i++) cork_dllist_add(&b, &x[i]);
    begin();
    for (size_t i = 0; i < 8; i++) {
        if (i & 1) cork_dllist_add_list_to_head(&b, &a); else cork_dllist_add_list_to_tail(&b, &a);
        if (i & 2) cork_dllist_add_list_to_head(&a, &b); else cork_dllist_add_list_to_tail(&a, &b);
    }
    expect("moving a list into another", n, 16, 100, 100);
    size_t c = 0;
    begin();
    cork_dllist_map(&a, l_count, &c); c = cork_dllist_size(&a);
    expect("walking and measuring a list", n, n + 32, 30, 200);
    VH_CHECK(c == n + 32, "list-size", "%zu of %zu", c, n + 32);
    free(it);
    vh_count("lists", 1); vh_sig(n); vh_nontrivial();
}

/*------------------------------------------------------------------- arrays */
static void e_init(void *ud, void *p) { ++*(size_t *) ud; memset(p, 0, 1); }
static void e_done(void *ud, void *p) { ++*(size_t *) ud; (void) p; }
static void array_case(struct vh_rng *r)
{
    size_t n = pick_n(r), es = 1 + vh_below(r, 40), cb = 0;
    struct cork_raw_array a, c;
    bool cbs = vh_chance(r, 1, 3);
    cork_raw_array_init(&a, es);
    if (cbs) {
        cork_raw_array_set_callback_data(&a, &cb, NULL);
        cork_raw_array_set_init(&a, e_init); cork_raw_array_set_done(&a, e_done);
        cork_raw_array_set_reuse(&a, e_init); cork_raw_array_set_remove(&a, e_done);
    }
    bool sized = vh_chance(r, 1, 2);
    if (sized) cork_raw_array_ensure_size(&a, n);
    begin();
    for (size_t i = 0; i < n; i++) memset(cork_raw_array_append(&a), (int) i, es);
    expect("additions to an array", n, n, 60 + es, 2000);
    if (sized) VH_CHECK(calls == 0, "array-presized", "an array with room for %zu elements made %" PRIu64 " allocations while they were added", n, calls);
    else VH_CHECK(calls <= 8 + 3 * lg(n * es), "array-reallocations", "adding %zu elements of %zu bytes made %" PRIu64 " allocations", n, es, calls);
    VH_CHECK(asked <= 16 * (uint64_t) n * es + 4096, "array-memory", "adding %zu elements of %zu bytes asked for %" PRIu64 " bytes", n, es, asked);
    /* shrinking and growing again reuses the storage */
    begin();
    for (int k = 0; k < 3; k++) {
        if (k == 1) cork_raw_array_remove_range(&a, 0, cork_raw_array_size(&a)); else cork_raw_array_clear(&a);
        for (size_t i = 0; i < n; i++) (void) cork_raw_array_append(&a);
    }
    expect("emptying and refilling an array", n, 3 * n, 100, 2000);
    VH_CHECK(calls == 0, "array-refill", "refilling an array of %zu elements made %" PRIu64 " allocations", n, calls);
    begin();
    for (size_t i = 0; i < 32; i++) cork_raw_array_remove(&a, cork_raw_array_size(&a) - 1);
    expect("removing the last element", n, 32, 60 + es, 200);
    begin();
    for (size_t i = 0; i < 32; i++) { (void) cork_raw_array_at(&a, mix(i) % cork_raw_array_size(&a)); (void) cork_raw_array_size(&a); cork_raw_array_ensure_size(&a, i); }
    expect("reading an array", n, 32, 40, 100);
    cork_raw_array_init(&c, es);
    begin();
    VH_CHECK(cork_raw_array_copy(&c, &a, NULL, NULL) == 0, "array-copy", "copy failed");
    expect("copying an array", n, n, 20 + es, 1000);
    cork_raw_array_done(&c);
    cork_raw_array_done(&a);
    struct cork_string_array sa;
    cork_string_array_init(&sa);
    begin();
    for (size_t i = 0; i < n; i++) cork_string_array_append(&sa, "element");
    expect("additions to a string array", n, n, 150, 2000);
    VH_CHECK(calls <= n + 8 + 3 * lg(n * sizeof(char *)), "array-reallocations", "adding %zu strings made %" PRIu64 " allocations", n, calls);
    cork_array_done(&sa);
    vh_count("arrays", 1); vh_sig(n * 64 + es); vh_nontrivial();
}

/*------------------------------------------------------------------ buffers */
static void buffer_case(struct vh_rng *r)
{
    size_t n = pick_n(r) * 4, piece = 1 + vh_below(r, 24);
    struct cork_buffer b; char text[32];
    memset(text, 'q', sizeof text); text[piece] = 0;
    cork_buffer_init(&b);
    int api = vh_below(r, 5), sized = vh_chance(r, 1, 2);
    size_t k = n / piece + 1;
    if (sized) cork_buffer_ensure_size(&b, k * piece + 1);
    struct cork_stream_consumer *sc = api == 4 ? cork_buffer_to_stream_consumer(&b) : NULL;
    struct cork_buffer one; cork_buffer_init(&one); cork_buffer_set(&one, text, piece);
    begin();
    for (size_t i = 0; i < k; i++)
        switch (api) {
            case 0: cork_buffer_append(&b, text, piece); break;
            case 1: cork_buffer_append_string(&b, text); break;
            case 2: cork_buffer_append_copy(&b, &one); break;
            case 3: cork_buffer_append_printf(&b, "%s", text); break;
            case 4: (void) cork_stream_consumer_data(sc, text, piece, i == 0); break;
        }
    expect("additions to a buffer", n, k, 100 + piece, 4000);
    VH_CHECK(b.size == k * piece, "buffer-size", "%zu", b.size);
    if (sized) VH_CHECK(calls == 0, "buffer-presized", "a buffer with room for %zu bytes made %" PRIu64 " allocations while they were added (way %d)", k * piece, calls, api);
    else VH_CHECK(calls <= 8 + 3 * lg(k * piece), "buffer-reallocations", "adding %zu bytes in pieces of %zu made %" PRIu64 " allocations (way %d)", k * piece, piece, calls, api);
    VH_CHECK(asked <= 16 * (uint64_t) k * piece + 4096, "buffer-memory", "adding %zu bytes asked for %" PRIu64 " bytes", k * piece, asked);
    begin();
    for (size_t i = 0; i < 32; i++) { cork_buffer_truncate(&b, b.size - 1); cork_buffer_ensure_size(&b, b.size); cork_buffer_clear(&b); cork_buffer_set_string(&b, text); cork_buffer_append_literal(&b, "literal"); }
    expect("resetting a buffer", n, 32 * 5, 60 + piece, 400);
    VH_CHECK(calls == 0, "buffer-reuse", "reusing a buffer of %zu bytes made %" PRIu64 " allocations", n, calls);
    if (sc) cork_stream_consumer_free(sc);
    /* formatted output costs what it writes */
    size_t m = 200 + vh_below(r, 20000);
    unsigned char *d = vh_xmalloc(m);
    vh_fill(r, d, m, vh_below(r, 3));
    cork_buffer_clear(&b);
    begin();
    switch (vh_below(r, 4)) {
        case 0: { d[m - 1] = 0; for (size_t i = 0; i + 1 < m; i++) if (!d[i]) d[i] = 1; cork_buffer_append_c_string(&b, (char *) d, m - 1); break; }
        case 1: cork_buffer_append_hex_dump(&b, 2, (char *) d, m); break;
        case 2: cork_buffer_append_binary(&b, 2, (char *) d, m); break;
        case 3: cork_buffer_append_multiline(&b, 2, (char *) d, m); break;
    }
    expect("printing bytes", m, m, 400, 4000);
    free(d);
    cork_buffer_done(&b); cork_buffer_done(&one);
    vh_count("buffers", 1); vh_sig(n * 8 + api); vh_nontrivial();
}

/*------------------------------------------------- ring buffers and bit sets */
static void ring_case(struct vh_rng *r)
{
    size_t n = pick_n(r);
    struct cork_ring_buffer q; struct cork_bitset *s;
    cork_ring_buffer_init(&q, n);
    begin();
    for (size_t i = 0; i < 3 * n; i++) {
        (void) cork_ring_buffer_add(&q, (void *) (i + 1)); (void) cork_ring_buffer_peek(&q);
        if (i % 3 == 2) (void) cork_ring_buffer_pop(&q);
    }
    expect("ring buffer operations", n, 3 * n, 60, 100);
    VH_CHECK(calls == 0, "ring-allocations", "a ring buffer made %" PRIu64 " allocations after it was made", calls);
    cork_ring_buffer_done(&q);
    s = cork_bitset_new(n);
    begin();
    for (size_t i = 0; i < n; i++) { size_t j = mix(i) % n; cork_bitset_set(s, j, i & 1); (void) cork_bitset_get(s, j); }
    expect("bit set operations", n, n, 60, 100);
    cork_bitset_free(s);
    vh_count("ring buffers and bit sets", 1); vh_sig(n); vh_nontrivial();
}

/*------------------------------------------------------------- memory pools */
static void pool_case(struct vh_rng *r)
{
    size_t n = pick_n(r), es = 1 + vh_below(r, 100), bs = 4096;
    if (vh_chance(r, 1, 3)) bs = 2048 << vh_below(r, 6);
    struct cork_mempool *mp = vh_chance(r, 1, 3) ? cork_mempool_new_size(es) : cork_mempool_new_size_ex(es, bs);
    void **o = vh_xmalloc(n * sizeof *o);
    begin();
    for (size_t i = 0; i < n; i++) o[i] = cork_mempool_new_object(mp);
    expect("objects from a pool", n, n, 80 + es, 65536 / 4);
    VH_CHECK(asked <= 4 * (uint64_t) n * (es + 32) + 2 * 65536, "pool-memory", "%zu objects of %zu bytes took %" PRIu64 " bytes", n, es, asked);
    for (int pass = 0; pass < 3; pass++) {
        for (size_t i = n; i > 1; i--) { size_t j = vh_below(r, i); void *x = o[j]; o[j] = o[i - 1]; o[i - 1] = x; }
        size_t part = 1 + vh_below(r, n);
        begin();
        for (size_t i = 0; i < part; i++) cork_mempool_free_object(mp, o[i]);
        for (size_t i = 0; i < part; i++) o[i] = cork_mempool_new_object(mp);
        expect("objects returned to a pool and taken again", n, 2 * part, 60, 200);
        VH_CHECK(calls == 0, "pool-reuse", "taking %zu returned objects again made %" PRIu64 " allocations", part, calls);
    }
    for (size_t i = 0; i < n; i++) cork_mempool_free_object(mp, o[i]);
    begin();
    cork_mempool_free(mp);
    expect("freeing a pool", n, n, 60, 2000);
    free(o);
    vh_count("memory pools", 1); vh_sig(n * 128 + es); vh_nontrivial();
}

/*------------------------------------------------- managed buffers and slices */
static void slice_case(struct vh_rng *r)
{
    size_t n = pick_n(r) * 4;
    unsigned char *d = vh_xmalloc(n);
    vh_fill(r, d, n, 0);
    struct cork_managed_buffer *m = cork_managed_buffer_new_copy(d, n);
    struct cork_slice s, t[40];
    begin();
    VH_CHECK(cork_managed_buffer_slice(&s, m, 0, n) == 0, "slice", "refused");
    for (int i = 0; i < 40; i++) {
        size_t off = vh_below(r, n / 2);
        if (i & 1) VH_CHECK(cork_slice_copy(&t[i], &s, off, n - off) == 0, "slice", "refused");
        else VH_CHECK(cork_slice_light_copy(&t[i], &s, off, n - off) == 0, "slice", "refused");
        cork_slice_slice(&t[i], 1, t[i].size - 1); cork_slice_advance(&t[i], 1);
        cork_managed_buffer_ref(m); cork_managed_buffer_unref(m);
    }
    expect("slices of a managed buffer", n, 200, 150, 1000);
    begin();
    for (int i = 0; i < 40; i++) cork_slice_finish(&t[i]);
    cork_slice_finish(&s);
    expect("finishing slices", n, 41, 100, 100);
    cork_managed_buffer_unref(m);
    /* the content is copied once for however many copies there are */
    cork_slice_init_copy_once(&s, d, n);
    begin();
    for (int i = 0; i < 40; i++) VH_CHECK(cork_slice_copy(&t[i], &s, 0, n) == 0, "slice", "refused");
    expect("copies of a copy-once slice", n, 40, 200, 1000 + n / 4);
    VH_CHECK(asked <= n + 40 * 256 && moved <= 2 * n + 4096, "copied-once", "40 copies of a copy-once slice of %zu bytes took %" PRIu64 " bytes and moved %" PRIu64, n, asked, moved);
    for (int i = 0; i < 40; i++) cork_slice_finish(&t[i]);
    cork_slice_finish(&s);
    cork_slice_init_copy_once(&s, d, n);
    begin();
    for (int i = 0; i < 40; i++) VH_CHECK(cork_slice_copy(&t[i], &s, vh_below(r, n / 2), vh_below(r, n / 2)) == 0, "slice", "refused");
    expect("partial copies of a copy-once slice", n, 40, 200, 1000 + n / 4);
    VH_CHECK(asked <= n + 40 * 256 && moved <= 2 * n + 4096, "copied-once", "40 partial copies of a copy-once slice of %zu bytes took %" PRIu64 " bytes and moved %" PRIu64, n, asked, moved);
    for (int i = 0; i < 40; i++) cork_slice_finish(&t[i]);
    cork_slice_finish(&s);
    /* no copy is made of bytes that never move */
    cork_slice_init_static(&s, d, n);
    begin();
    for (int i = 0; i < 40; i++) VH_CHECK(cork_slice_copy(&t[i], &s, 0, n) == 0, "slice", "refused");
    expect("copies of a static slice", n, 40, 100, 100);
    for (int i = 0; i < 40; i++) cork_slice_finish(&t[i]);
    cork_slice_finish(&s);
    free(d);
    vh_count("managed buffers", 1); vh_sig(n); vh_nontrivial();
}

/*------------------------------------------------------------------ garbage */
struct node { struct node *next, *other; };
_free_(node) { (void) obj; }
_recurse_(node) { struct node *self = obj; recurse(gc, self->next, ud); recurse(gc, self->other, ud); }
_gc_(node);
static void gc_case(struct vh_rng *r)
{
    size_t n = pick_n(r);
    cork_gc_init();
    begin();
    struct node *top = NULL;
    for (size_t i = 0; i < n; i++) {
        struct node *x = cork_gc_new(node);
        x->next = top; x->other = NULL; top = x;
    }
    expect("garbage collected objects made", n, n, 150, 2000);
    /* little objects come and go while the others stay */
    begin();
    for (size_t i = 0; i < n; i++) {
        struct node *x = cork_gc_new(node);
        x->next = x->other = NULL;
        cork_gc_decref(x);
    }
    expect("short-lived objects among many", n, n, 250, 20000);
    begin();
    for (size_t i = 0; i < 64; i++) { cork_gc_incref(top); cork_gc_decref(top); }
    expect("references taken and dropped", n, 64, 60, 40 * n + 20000);
    begin();
    /* let go of one at a time: a long chain would otherwise recurse */
    while (top != NULL) { struct node *x = top->next; if (x) cork_gc_incref(x); top->next = NULL; if (x) cork_gc_decref(x); cork_gc_decref(top); top = x; }
    cork_gc_done();
    expect("objects released", n, n, 600, 20000);
    vh_count("garbage collectors", 1); vh_sig(n); vh_nontrivial();
}

/*-------------------------------------------- environments, paths, the rest */
static void env_case(struct vh_rng *r)
{
    size_t n = pick_n(r) / 4 + 8;
    char name[32];
    struct cork_env *e = cork_env_new();
    begin();
    for (size_t i = 0; i < n; i++) { on = false; snprintf(name, sizeof name, "V%zu", i); on = true; cork_env_add(e, name, "value"); }
    expect("variables set", n, n, 900, 20000);
    begin();
    for (size_t i = 0; i < 500; i++) {
        on = false; snprintf(name, sizeof name, "V%zu", (size_t) (mix(i) % (2 * n))); on = true;
        (void) cork_env_get(e, name);
        if (i & 1) cork_env_add(e, name, "other");
        if (i % 5 == 0) cork_env_remove(e, name);
    }
    expect("variables read and changed", n, 500, 1500, 20000);
    cork_env_free(e);
    /* path lists */
    struct vstr s; vstr_init(&s);
    for (size_t i = 0; i < n; i++) vstr_addf(&s, "%s/usr/local/d%zu", i ? ":" : "", i);
    begin();
    struct cork_path_list *l = cork_path_list_new(vstr_z(&s));
    expect("reading a path list", n, n, 600, 20000);
    VH_CHECK(cork_path_list_size(l) == n, "path-list-size", "%zu of %zu", cork_path_list_size(l), n);
    begin();
    (void) cork_path_list_to_string(l);
    for (size_t i = 0; i < 50; i++) (void) cork_path_list_get(l, mix(i) % n);
    expect("reading from a path list", n, 50, 40, 400);
    cork_path_list_free(l);
    begin();
    struct cork_path *p = cork_path_new("/");
    for (size_t i = 0; i < n; i++) cork_path_append(p, "x");
    expect("components added to a path", n, n, 200, 4000);
    cork_path_free(p);
    /* hashing costs what it reads */
    begin();
    cork_hash h = cork_hash_buffer(0, vstr_z(&s), s.n);
    cork_big_hash bh = CORK_BIG_HASH_INIT();
    bh = cork_big_hash_buffer(bh, vstr_z(&s), s.n);
    vh_sig(h ^ cork_u128_be64(bh.u128, 0));
    expect("hashing bytes", s.n, s.n, 12, 400);
    vstr_done(&s);
    /* errors replace each other */
    begin();
    for (size_t i = 0; i < n; i++) { cork_error_set_printf(1, "problem %zu", i); if (i % 3 == 0) cork_error_prefix_printf("while %zu: ", i); if (i % 7 == 0) cork_error_clear(); }
    expect("errors reported", n, n, 400, 30000);
    cork_error_clear();
    vh_count("environments and path lists", 1); vh_sig(n); vh_nontrivial();
}

void vh_setup(void)
{
    struct cork_alloc *a = cork_alloc_new_alloc(cork_allocator);
    cork_alloc_set_calloc(a, a_calloc); cork_alloc_set_malloc(a, a_malloc); cork_alloc_set_realloc(a, a_realloc);
    cork_alloc_set_xcalloc(a, a_calloc); cork_alloc_set_xmalloc(a, a_malloc); cork_alloc_set_xrealloc(a, a_realloc);
    cork_alloc_set_free(a, a_free);
    cork_set_allocator(a);
}
void vh_case(struct vh_rng *r, uint64_t index)
{
    switch (index % 11) {
        case 0: case 1: case 2: hash_case(r); break;
        case 3: list_case(r); break;
        case 4: array_case(r); break;
        case 5: buffer_case(r); break;
        case 6: ring_case(r); break;
        case 7: pool_case(r); break;
        case 8: slice_case(r); break;
        case 9: gc_case(r); break;
        case 10: env_case(r); break;
    }
}
void vh_teardown(void) {}
