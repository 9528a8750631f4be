/* C01: a hash table behaves as a map iterated in insertion order.
 * Oracle: an ordered-list model compared after every operation. */
#include "vh.h"
#include <libcork/core.h>
#include <libcork/ds.h>

struct key { uint64_t id; uint32_t salt; uint32_t magic; };
struct ment { uint64_t id; void *key; void *value; };

static int kind;                /* 0 struct keys, 1 strings, 2 raw pointers */
static int hash_mode;
static uint32_t hash_param;
static bool no_hash_calls;
static uint64_t n_hash_calls, n_eq_calls;
static char ud_token;
static bool with_ud;

static uint32_t mixid(uint64_t id)
{
    switch (hash_mode) {
    case 0: return (uint32_t) id;
    case 1: return (uint32_t) (id % hash_param);
    case 2: return hash_param;                               /* all collide */
    case 3: return (uint32_t) (id * UINT32_C(2654435761));
    case 4: return (uint32_t) (id << 28);                    /* high bits only */
    default: return (uint32_t) vh_hash64(&id, sizeof id);
    }
}
static cork_hash k_hash(void *ud, const void *k)
{
    const struct key *key = k;
    if (no_hash_calls) vh_fail("hash-called", "hash callback called by a _hash variant");
    VH_CHECK(ud == (with_ud ? &ud_token : NULL), "user-data", "hash callback got user data %p", ud);
    VH_CHECK(key->magic == 0xfeedf00d, "foreign-key", "hash callback got a key nobody passed");
    n_hash_calls++;
    return mixid(key->id);
}
static bool k_equals(void *ud, const void *a, const void *b)
{
    const struct key *ka = a, *kb = b;
    VH_CHECK(ud == (with_ud ? &ud_token : NULL), "user-data", "equals callback got user data %p", ud);
    VH_CHECK(ka->magic == 0xfeedf00d && kb->magic == 0xfeedf00d, "foreign-key",
             "equals callback got a key nobody passed");
    n_eq_calls++;
    return ka->id == kb->id;
}

#define MAXID 600
static struct key *keyobj[MAXID][3];
static char *strobj[MAXID][3];
static size_t str_before, str_after;  /* lengths of what all string keys of a case share */
static void **arena; static size_t n_arena, cap_arena;
static void keep(void *p)
{
    if (n_arena == cap_arena) { cap_arena = cap_arena ? cap_arena * 2 : 256;
        arena = realloc(arena, cap_arena * sizeof *arena); }
    arena[n_arena++] = p;
}
/* returns some key object equal to id */
static void *mkkey(struct vh_rng *r, uint64_t id)
{
    unsigned v = vh_below(r, 3);
    if (kind == 0) {
        if (!keyobj[id][v]) {
            struct key *k = malloc(sizeof *k);
            k->id = id; k->salt = v; k->magic = 0xfeedf00d;
            keyobj[id][v] = k; keep(k);
        }
        return keyobj[id][v];
    } else if (kind == 1) {
        if (!strobj[id][v]) {
            char b[128];
            int n = sprintf(b, "%s", id % 7 == 0 ? "" : id % 7 == 1 ? "prefix-" : "k");
            if (id >= 7) n += sprintf(b + n, "%" PRIx64, id / 7);
            /* ids 0..6 : "", "prefix-", "k", then distinct suffixes below */
            if (id < 7 && id > 2) n += sprintf(b + n, "~%d", (int) id);
            if (id % 11 == 5) { memset(b + n, 'z', 40); b[n + 40] = 0; n += 40; }
            if (id % 13 == 3) { b[n] = (char) 0xff; b[n + 1] = (char) 0x80; b[n + 2] = 0; n += 2; }
            if (id >= 7) n += sprintf(b + n, ".%d", (int) (id % 7));
            /* exact size: redzone right after */
            char *s = strobj[id][v] = malloc(str_before + n + str_after + 1);
            memset(s, 'b', str_before);
            memcpy(s + str_before, b, n);
            memset(s + str_before + n, 'a', str_after);
            s[str_before + n + str_after] = 0;
            keep(strobj[id][v]);
        }
        return strobj[id][v];
    } else {
        static char base[MAXID * 64];
        /* keys that differ only in high or low bits */
        return id % 2 ? (void *) &base[id * 64] : (void *) (uintptr_t) (id << (id % 5 == 0 ? 33 : 0));
    }
}
static cork_hash hash_of(const void *key, uint64_t id)
{
    if (kind == 0) return mixid(id);
    if (kind == 1) return cork_hash_buffer(0, key, strlen(key));
    return (cork_hash) (uintptr_t) key;
}

static struct ment *m; static size_t nm, capm;
static void m_add(uint64_t id, void *k, void *v)
{
    if (nm == capm) { capm = capm ? capm * 2 : 64; m = realloc(m, capm * sizeof *m); }
    m[nm].id = id; m[nm].key = k; m[nm].value = v; nm++;
}
static struct ment *m_find(uint64_t id)
{
    for (size_t i = 0; i < nm; i++) if (m[i].id == id) return &m[i];
    return NULL;
}
static void m_del(struct ment *e)
{
    size_t i = e - m;
    memmove(m + i, m + i + 1, (nm - i - 1) * sizeof *m);
    nm--;
}

struct mapctx { size_t i; size_t stop_at; uint64_t del_mask_seed; bool deleting; struct vh_rng r;
    unsigned char *del; void *ud; };
static enum cork_hash_table_map_result mapper(void *ud, struct cork_hash_table_entry *e)
{
    struct mapctx *c = ud;
    VH_CHECK(c->i < nm, "map-extra", "map visited more than the %zu entries", nm);
    VH_CHECK(e->key == m[c->i].key && e->value == m[c->i].value, "map-order",
             "map visit #%zu: entry (%p,%p), expected (%p,%p)", c->i, e->key, e->value,
             m[c->i].key, m[c->i].value);
    if (c->i == c->stop_at) { c->i++; return CORK_HASH_TABLE_MAP_ABORT; }
    if (c->deleting && vh_chance(&c->r, 1, 3)) {
        c->del[c->i++] = 1;
        return CORK_HASH_TABLE_MAP_DELETE;
    }
    c->i++;
    return CORK_HASH_TABLE_MAP_CONTINUE;
}

static void check_all(struct cork_hash_table *t)
{
    struct cork_hash_table_iterator it;
    struct cork_hash_table_entry *e;
    size_t i = 0;
    VH_CHECK(cork_hash_table_size(t) == nm, "size", "size is %zu, expected %zu",
             cork_hash_table_size(t), nm);
    cork_hash_table_iterator_init(t, &it);
    while ((e = cork_hash_table_iterator_next(&it)) != NULL) {
        VH_CHECK(i < nm, "iter-extra", "iteration gives more than the %zu entries", nm);
        VH_CHECK(e->key == m[i].key && e->value == m[i].value, "iter-order",
                 "iteration #%zu: entry (%p,%p), expected id %" PRIu64 " (%p,%p)", i, e->key, e->value,
                 m[i].id, m[i].key, m[i].value);
        VH_CHECK(e->hash == hash_of(e->key, m[i].id), "entry-hash",
                 "entry #%zu has hash %08x, expected %08x", i, e->hash, hash_of(e->key, m[i].id));
        i++;
    }
    VH_CHECK(i == nm, "iter-missing", "iteration gave %zu of %zu entries", i, nm);
    VH_CHECK(cork_hash_table_iterator_next(&it) == NULL, "iter-end", "iterator restarted after its end");
    vh_count("full iterations compared", 1);
}
static void check_get(struct vh_rng *r, struct cork_hash_table *t, uint64_t id)
{
    void *k = mkkey(r, id);
    struct ment *e = m_find(id);
    struct cork_hash_table_entry *te;
    void *v;
    cork_hash h = hash_of(k, id);
    bool hv = vh_chance(r, 1, 2);
    if (hv && kind == 0) no_hash_calls = true;
    v = hv ? cork_hash_table_get_hash(t, h, k) : cork_hash_table_get(t, k);
    VH_CHECK(v == (e ? e->value : NULL), "get", "get(id %" PRIu64 ") = %p, expected %p", id, v,
             e ? e->value : NULL);
    te = hv ? cork_hash_table_get_entry_hash(t, h, k) : cork_hash_table_get_entry(t, k);
    no_hash_calls = false;
    if (e == NULL) {
        VH_CHECK(te == NULL, "get-entry", "get_entry(id %" PRIu64 ") found an absent key", id);
        vh_count("lookups of absent keys", 1);
    } else {
        VH_CHECK(te != NULL, "get-entry", "get_entry(id %" PRIu64 ") missed a present key", id);
        VH_CHECK(te->key == e->key && te->value == e->value, "get-entry",
                 "get_entry(id %" PRIu64 ") = (%p,%p), expected (%p,%p)", id, te->key, te->value, e->key, e->value);
        vh_count("lookups of present keys", 1);
    }
    vh_evals(2);
}

void vh_setup(void) { vh_alloc_install(); VH_WARM_ERRORS(); }

void vh_case(struct vh_rng *r, uint64_t index)
{
    struct cork_hash_table *t;
    uint64_t ids;
    size_t ops, i;
    size_t init;
    uintptr_t nextval = 0x1000;
    int del_bias;
    uint64_t serial = vh_alloc_serial();
    bool growing = false, deletes = false, overw = false;

    memset(keyobj, 0, sizeof keyobj);
    memset(strobj, 0, sizeof strobj);
    n_arena = 0; nm = 0; no_hash_calls = false;
    kind = vh_below(r, 4); if (kind == 3) kind = 0;
    hash_mode = vh_below(r, 6);
    hash_param = 1 + vh_below(r, 40);
    with_ud = vh_chance(r, 1, 2);
    ids = vh_chance(r, 1, 3) ? 2 + vh_below(r, 12) : vh_chance(r, 1, 2) ? 60 : MAXID;
    ops = vh_chance(r, 1, 4) ? 1 + vh_below(r, 20) : vh_chance(r, 1, 8) ? 2500 : 50 + vh_below(r, 400);
    del_bias = vh_below(r, 4);
    init = vh_size(r, 5000);
    if (kind == 0) {
        t = cork_hash_table_new(init, 0);
        if (vh_chance(r, 1, 2)) { cork_hash_table_set_hash(t, k_hash); cork_hash_table_set_equals(t, k_equals); }
        else { cork_hash_table_set_equals(t, k_equals); cork_hash_table_set_hash(t, k_hash); }
        if (with_ud) cork_hash_table_set_user_data(t, &ud_token, NULL);
    } else if (kind == 1) {
        t = cork_string_hash_table_new(init, 0);
        str_before = str_after = 0;
        if (vh_chance(r, 1, 3)) {
            str_before = vh_size(r, 600); str_after = vh_chance(r, 1, 2) ? vh_size(r, 600) : 0;
            vh_count("tables of string keys with a long part in common", str_before + str_after > 64);
        }
    } else {
        t = cork_pointer_hash_table_new(init, 0);
    }
    vh_trace("kind=%d hash_mode=%d param=%u initial=%zu ids=%" PRIu64 " ops=%zu", kind, hash_mode, hash_param,
             init, ids, ops);
    for (i = 0; i < ops; i++) {
        unsigned op = vh_below(r, 20);
        uint64_t id = vh_below(r, ids);
        void *k = mkkey(r, id);
        cork_hash h = hash_of(k, id);
        bool hv = vh_chance(r, 1, 3);
        struct ment *e = m_find(id);
        void *nv = vh_chance(r, 1, 10) ? NULL : (void *) (nextval += 8);
        if (op >= 20 - (unsigned) del_bias * 2) op = 12;
        if (kind == 0 && hv) no_hash_calls = true;
        if (op < 8) {
            bool is_new = !vh_chance(r, 1, 2); void *ok = (void *) 1, *ov = (void *) 1;
            bool pass_new = vh_chance(r, 3, 4), pass_k = vh_chance(r, 3, 4), pass_v = vh_chance(r, 3, 4);
            vh_trace("put id=%" PRIu64 " key=%p val=%p", id, k, nv);
            if (hv) cork_hash_table_put_hash(t, h, k, nv, pass_new ? &is_new : NULL, pass_k ? &ok : NULL, pass_v ? &ov : NULL);
            else cork_hash_table_put(t, k, nv, pass_new ? &is_new : NULL, pass_k ? &ok : NULL, pass_v ? &ov : NULL);
            no_hash_calls = false;
            if (pass_new) VH_CHECK(is_new == (e == NULL), "put-new", "put: is_new=%d, key was %s", is_new, e ? "present" : "absent");
            if (pass_k) VH_CHECK(ok == (e ? e->key : NULL), "put-old", "put: old_key=%p, expected %p", ok, e ? e->key : NULL);
            if (pass_v) VH_CHECK(ov == (e ? e->value : NULL), "put-old", "put: old_value=%p, expected %p", ov, e ? e->value : NULL);
            if (e) { e->key = k; e->value = nv; overw = true; vh_count("overwrites", 1); }
            else { m_add(id, k, nv); growing = true; vh_count("insertions", 1); }
        } else if (op < 12) {
            bool is_new = !vh_chance(r, 1, 2);
            struct cork_hash_table_entry *te;
            vh_trace("get_or_create id=%" PRIu64 " key=%p", id, k);
            te = hv ? cork_hash_table_get_or_create_hash(t, h, k, &is_new)
                    : cork_hash_table_get_or_create(t, k, &is_new);
            no_hash_calls = false;
            VH_CHECK(te != NULL, "goc", "get_or_create returned NULL");
            VH_CHECK(is_new == (e == NULL), "goc-new", "get_or_create: is_new=%d, key was %s", is_new, e ? "present" : "absent");
            if (e) VH_CHECK(te->key == e->key && te->value == e->value, "goc-entry", "get_or_create returned another entry");
            else {
                VH_CHECK(te->key == k && te->value == NULL, "goc-entry", "new entry is (%p,%p), expected (%p,NULL)", te->key, te->value, k);
                m_add(id, k, NULL); e = &m[nm - 1];
                vh_count("insertions", 1);
            }
            if (vh_chance(r, 1, 2)) { te->value = nv; e->value = nv; }
            if (vh_chance(r, 1, 4)) { void *k2 = mkkey(r, id); te->key = k2; e->key = k2; }
        } else if (op == 12 || op == 13) {
            void *dk = (void *) 1, *dv = (void *) 1;
            bool pk = vh_chance(r, 3, 4), pv = vh_chance(r, 3, 4), res;
            vh_trace("delete id=%" PRIu64, id);
            res = hv ? cork_hash_table_delete_hash(t, h, k, pk ? &dk : NULL, pv ? &dv : NULL)
                     : cork_hash_table_delete(t, k, pk ? &dk : NULL, pv ? &dv : NULL);
            no_hash_calls = false;
            VH_CHECK(res == (e != NULL), "delete-result", "delete returned %d, key was %s", res, e ? "present" : "absent");
            if (e) {
                if (pk) VH_CHECK(dk == e->key, "delete-out", "deleted_key %p, expected %p", dk, e->key);
                if (pv) VH_CHECK(dv == e->value, "delete-out", "deleted_value %p, expected %p", dv, e->value);
                m_del(e); deletes = true; vh_count("deletions", 1);
            }
        } else if (op == 14) {
            no_hash_calls = false;
            if (e) {
                struct cork_hash_table_entry *te = cork_hash_table_get_entry(t, k);
                VH_CHECK(te != NULL, "get-entry", "get_entry missed a present key");
                vh_trace("delete_entry id=%" PRIu64, id);
                cork_hash_table_delete_entry(t, te);
                m_del(e); deletes = true; vh_count("deletions", 1);
            }
        } else if (op == 15) {
            struct mapctx c;
            no_hash_calls = false;
            memset(&c, 0, sizeof c);
            c.deleting = vh_chance(r, 1, 2);
            c.stop_at = vh_chance(r, 1, 3) && nm > 0 ? vh_below(r, nm) : SIZE_MAX;
            c.del = calloc(nm + 1, 1);
            c.r = *r; vh_u64(r);
            size_t expect = c.stop_at == SIZE_MAX ? nm : c.stop_at + 1;
            vh_trace("map stop_at=%zd deleting=%d", (ssize_t) c.stop_at, c.deleting);
            cork_hash_table_map(t, &c, mapper);
            VH_CHECK(c.i == expect, "map-count", "map visited %zu entries, expected %zu", c.i, expect);
            size_t o = 0;
            for (size_t j = 0; j < nm; j++) if (!c.del[j]) m[o++] = m[j]; else { deletes = true; vh_count("map deletions", 1); }
            nm = o;
            free(c.del);
            if (c.stop_at != SIZE_MAX) vh_count("map aborts", 1);
            vh_count("maps", 1);
            check_all(t);
        } else if (op == 16 && vh_chance(r, 1, 6)) {
            no_hash_calls = false;
            vh_trace("clear");
            cork_hash_table_clear(t);
            nm = 0;
            vh_count("clears", 1);
        } else if (op == 17 && vh_chance(r, 1, 3)) {
            size_t want = vh_size(r, 4000);
            no_hash_calls = false;
            vh_trace("ensure_size %zu", want);
            cork_hash_table_ensure_size(t, want);
            vh_count("ensure_size", 1);
            check_all(t);
        } else {
            no_hash_calls = false;
            for (int j = 0; j < 4; j++) check_get(r, t, vh_below(r, ids));
        }
        no_hash_calls = false;
        VH_CHECK(cork_hash_table_size(t) == nm, "size", "size is %zu, expected %zu", cork_hash_table_size(t), nm);
        check_get(r, t, id);
        if (vh_chance(r, 1, 8)) check_all(t);
        vh_sig(op * 8 + (e != NULL) * 4 + hv);
    }
    check_all(t);
    for (uint64_t id = 0; id < ids; id++) check_get(r, t, id);
    vh_count("operations", ops);
    if (growing && deletes && overw) vh_nontrivial();
    vh_sig(nm);
    if (vh_want_sample() && ops > 30)
        vh_sample("kind %d, hash mode %d, initial size %zu: %zu operations over %" PRIu64 " keys, %zu entries at the end",
                  kind, hash_mode, init, ops, ids, nm);
    cork_hash_table_free(t);
    vh_alloc_expect_balanced(serial, "leak");
    for (i = 0; i < n_arena; i++) free(arena[i]);
}
