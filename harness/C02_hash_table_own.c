/* C02: hash tables free what they own exactly once, at the documented moment. */
#include "vh.h"
#include <libcork/core.h>
#include <libcork/ds.h>

struct obj { uint32_t magic; unsigned id; int state; /* 0 outside, 1 in table, 2 freed */
    bool is_key, is_both; unsigned frees; struct obj *next_all; };
static struct obj *all;
static bool own_keys, own_values, same_callback, in_call;
static bool table_freeing, ud_freed, with_ud, any_call_after;
static size_t n_key_frees, n_value_frees;
static unsigned *ud;            /* heap block: ASan sees a use after its release */
static unsigned *ud_releasing;  /* the one that may be released now */
/* A key may be NULL; it stands for id 0. */
static unsigned idof(const void *k) { return k ? ((const struct obj *) k)->id : 0; }

static struct obj *mk(unsigned id, bool is_key)
{
    struct obj *o = malloc(sizeof *o);
    o->magic = 0xabad1dea; o->id = id; o->state = 0; o->is_key = is_key; o->is_both = false; o->frees = 0;
    o->next_all = all; all = o;
    return o;
}
static cork_hash k_hash(void *u, const void *k)
{
    if (with_ud) VH_CHECK(u == ud && *ud == 0x5eed, "user-data", "hash got user data %p", u);
    return (cork_hash) (idof(k) / 3);
}
static bool k_equals(void *u, const void *a, const void *b)
{
    if (with_ud) VH_CHECK(u == ud && *ud == 0x5eed, "user-data", "equals got user data %p", u);
    return idof(a) == idof(b);
}
static void free_any(void *p, bool is_key)
{
    struct obj *o = p;
    if (o == NULL) {                   /* NULL is a key or value like any other */
        VH_CHECK(in_call, "free-outside", "free callback outside a table call");
        VH_CHECK(!ud_freed, "free-order", "free callback after the user data was released");
        if (is_key) n_key_frees++; else n_value_frees++;
        return;
    }
    VH_CHECK(o->magic == 0xabad1dea && (o->is_key == is_key || o->is_both || same_callback), "free-wrong", "%s callback got something else", is_key ? "free_key" : "free_value");
    VH_CHECK(in_call, "free-outside", "free callback outside a table call");
    VH_CHECK(o->state != 2, "double-free", "%s %u passed to its free callback twice", is_key ? "key" : "value", o->id);
    VH_CHECK(o->state == 1, "free-foreign", "%s %u is not in the table but was passed to its free callback", is_key ? "key" : "value", o->id);
    VH_CHECK(!ud_freed, "free-order", "free callback after the user data was released");
    /* An object that is the key and the value of its entry is owned twice. */
    if (++o->frees == (o->is_both && own_keys && own_values ? 2u : 1u)) o->state = 2;
    if (is_key) n_key_frees++; else n_value_frees++;
}
static void free_key(void *p) { free_any(p, true); }
static void free_value(void *p) { free_any(p, false); }
static void free_same(void *p) { free_any(p, p == NULL || ((struct obj *) p)->is_key); }
static void free_ud(void *p)
{
    VH_CHECK(p == ud, "ud-free", "free_user_data got %p instead of %p", p, (void *) ud);
    VH_CHECK(ud_releasing == ud, "ud-early", "user data released while the table is alive and uses it");
    VH_CHECK(!ud_freed, "ud-twice", "user data released twice");
    ud_freed = true;
    *ud = 0;
    free(ud);
}
struct ent { struct obj *k, *v; unsigned id; };
static struct ent m[256]; static size_t nm;
static struct ent *find(unsigned id) { for (size_t i = 0; i < nm; i++) if (m[i].id == id) return &m[i]; return NULL; }
static void gone(struct ent *e, const char *how)
{
    /* the entry has left the table by a freeing operation */
    if (e->k) {
        if (own_keys || (e->v == e->k && own_values))
            VH_CHECK(e->k->state == 2, "key-not-freed", "%s: key %u was not passed to its free callback", how, e->id);
        else { VH_CHECK(e->k->state == 1, "freed-unowned", "%s: key freed without a callback", how); e->k->state = 0; }
    }
    if (e->v && e->v != e->k) {
        if (own_values) VH_CHECK(e->v->state == 2, "value-not-freed", "%s: value of %u was not passed to free_value", how, e->id);
        else { VH_CHECK(e->v->state == 1, "freed-unowned", "%s: value freed without a callback", how); e->v->state = 0; }
    }
}
static void still(void)
{
    for (size_t i = 0; i < nm; i++) {
        if (m[i].k) VH_CHECK(m[i].k->state == 1, "live-freed", "key %u is still in the table but was freed", m[i].id);
        if (m[i].v) VH_CHECK(m[i].v->state == 1, "live-freed", "value of %u is still in the table but was freed", m[i].id);
    }
    vh_evals(nm);
}
struct mc { struct vh_rng r; unsigned char del[256]; size_t i, stop; };
static enum cork_hash_table_map_result mapper(void *u, struct cork_hash_table_entry *e)
{
    struct mc *c = u;
    VH_CHECK(c->i < nm && e->key == m[c->i].k, "map-order", "unexpected entry in map");
    VH_CHECK(e->key == NULL || ((struct obj *) e->key)->state == 1, "map-freed", "map shows a freed key");
    if (c->i == c->stop) { c->i++; return CORK_HASH_TABLE_MAP_ABORT; }
    if (vh_chance(&c->r, 1, 2)) { c->del[c->i++] = 1; return CORK_HASH_TABLE_MAP_DELETE; }
    c->i++;
    return CORK_HASH_TABLE_MAP_CONTINUE;
}

void vh_setup(void) { vh_alloc_install(); VH_WARM_ERRORS(); }

void vh_case(struct vh_rng *r, uint64_t index)
{
    uint64_t serial = vh_alloc_serial();
    struct cork_hash_table *t = cork_hash_table_new(vh_size(r, 300), 0);
    unsigned nids = 2 + vh_below(r, 120);
    size_t ops = 1 + vh_below(r, 200), del = 0;
    bool ud_has_free;
    all = NULL; nm = 0; in_call = false; table_freeing = false; ud_freed = false;
    own_keys = vh_chance(r, 2, 3); own_values = vh_chance(r, 2, 3);
    with_ud = vh_chance(r, 2, 3); ud_has_free = with_ud && vh_chance(r, 3, 4);
    n_key_frees = n_value_frees = 0;
    cork_hash_table_set_hash(t, k_hash);
    cork_hash_table_set_equals(t, k_equals);
    same_callback = own_keys && own_values && vh_chance(r, 1, 3);
    if (same_callback) {
        cork_hash_table_set_free_key(t, free_same);
        cork_hash_table_set_free_value(t, free_same);
        vh_count("tables with one callback for keys and values", 1);
    } else {
        if (own_keys) cork_hash_table_set_free_key(t, free_key);
        if (own_values) cork_hash_table_set_free_value(t, free_value);
    }
    ud = NULL; ud_releasing = NULL;
    if (with_ud) { ud = malloc(sizeof *ud); *ud = 0x5eed; cork_hash_table_set_user_data(t, ud, ud_has_free ? free_ud : NULL); }
    vh_trace("own_keys=%d own_values=%d ud=%d ud_free=%d", own_keys, own_values, with_ud, ud_has_free);
    in_call = true;
    for (size_t i = 0; i < ops; i++) {
        unsigned id = vh_below(r, nids), op = vh_below(r, 12);
        struct ent *e = find(id);
        size_t kf = n_key_frees, vf = n_value_frees;
        struct obj probe = { 0xabad1dea, id, 0, true, false, 0, NULL };
        bool null_key = id == 0 && vh_chance(r, 1, 2);
        if (with_ud && vh_chance(r, 1, 24)) {
            /* Replacing the user data releases the old one, there and then. */
            unsigned *old = ud, *fresh = malloc(sizeof *fresh);
            bool fresh_free = vh_chance(r, 1, 2);
            *fresh = 0x5eed;
            vh_trace("set_user_data (old release %d, new release %d)", ud_has_free, fresh_free);
            ud_releasing = ud;
            cork_hash_table_set_user_data(t, fresh, fresh_free ? free_ud : NULL);
            ud_releasing = NULL;
            if (ud_has_free) VH_CHECK(ud_freed, "ud-not-freed", "user data not released when it was replaced");
            else { VH_CHECK(!ud_freed, "ud-freed", "user data released without a callback"); free(old); }
            vh_count("user data replaced", 1);
            ud = fresh; ud_freed = false; ud_has_free = fresh_free;
        }
        if (op < 5) {
            struct obj *k = null_key ? NULL : mk(id, true), *v;
            void *ok, *ov; bool is_new;
            if (k && vh_chance(r, 1, 4)) {
                k->is_both = true; v = k;            /* a set: the value is the key */
                vh_count(own_keys && own_values ? "values that are their key, owned twice" : "values that are their key", 1);
            } else v = vh_chance(r, 1, 8) ? NULL : mk(id, false);
            if (!k) vh_count("NULL keys", 1);
            vh_trace("put %u", id);
            cork_hash_table_put(t, k, v, &is_new, &ok, &ov);
            if (k) k->state = 1; if (v) v->state = 1;
            VH_CHECK(kf == n_key_frees && vf == n_value_frees, "put-freed", "put called a free callback");
            if (e) {
                VH_CHECK(ok == e->k && ov == e->v, "put-old", "overwritten pair not returned");
                if (e->k) e->k->state = 0; if (e->v) e->v->state = 0;    /* ours again */
                e->k = k; e->v = v;
                vh_count("overwrites", 1);
            } else { m[nm].id = id; m[nm].k = k; m[nm++].v = v; }
        } else if (op < 7) {
            bool is_new;
            struct obj *k = null_key ? NULL : mk(id, true);
            vh_trace("get_or_create %u", id);
            struct cork_hash_table_entry *te = cork_hash_table_get_or_create(t, k, &is_new);
            VH_CHECK(is_new == (e == NULL), "goc", "is_new wrong");
            if (is_new) {
                struct obj *v = mk(id, false);
                if (k) k->state = 1; v->state = 1; te->value = v;
                m[nm].id = id; m[nm].k = k; m[nm++].v = v;
            }
            VH_CHECK(kf == n_key_frees && vf == n_value_frees, "goc-freed", "get_or_create called a free callback");
        } else if (op < 9) {
            vh_trace("delete %u", id);
            bool res = cork_hash_table_delete(t, vh_chance(r, 1, 3) && e ? e->k : &probe, NULL, NULL);
            VH_CHECK(res == (e != NULL), "delete", "result %d", res);
            VH_CHECK(same_callback ? n_key_frees - kf + n_value_frees - vf == (e ? 2 : 0)
                                   : n_key_frees - kf == (e && own_keys) && n_value_frees - vf == (e && own_values), "delete-frees",
                     "delete made %zu key and %zu value frees", n_key_frees - kf, n_value_frees - vf);
            if (e) { gone(e, "delete"); *e = m[nm - 1]; /* order restored below */
                nm--; del++;
                /* keep insertion order in the model */
                if (e != &m[nm]) { struct ent last = *e; memmove(e, e + 1, (size_t) ((m + nm) - (e + 1)) * sizeof *e); m[nm - 1] = last; }
                vh_count("entries deleted", 1); }
        } else if (op == 9) {
            if (e) {
                struct cork_hash_table_entry *te = cork_hash_table_get_entry(t, &probe);
                vh_trace("delete_entry %u", id);
                cork_hash_table_delete_entry(t, te);
                gone(e, "delete_entry");
                memmove(e, e + 1, (size_t) ((m + nm) - (e + 1)) * sizeof *e); nm--; del++;
                vh_count("entries deleted", 1);
            }
        } else if (op == 10 && vh_chance(r, 1, 2)) {
            struct mc c; memset(&c, 0, sizeof c); c.r = *r; vh_u64(r);
            c.stop = vh_chance(r, 1, 3) ? vh_below(r, nm + 1) : SIZE_MAX;
            vh_trace("map");
            cork_hash_table_map(t, &c, mapper);
            size_t o = 0;
            for (size_t j = 0; j < nm; j++) {
                if (c.del[j]) { gone(&m[j], "map delete"); vh_count("entries deleted by map", 1); del++; }
                else m[o++] = m[j];
            }
            nm = o;
        } else if (op == 11 && vh_chance(r, 1, 5)) {
            vh_trace("clear");
            cork_hash_table_clear(t);
            for (size_t j = 0; j < nm; j++) gone(&m[j], "clear");
            VH_CHECK(same_callback ? n_key_frees - kf + n_value_frees - vf == 2 * nm
                                   : n_key_frees - kf == (own_keys ? nm : 0), "clear-frees", "clear freed %zu keys of %zu", n_key_frees - kf, nm);
            vh_count("entries cleared", nm);
            nm = 0;
        }
        still();
        VH_CHECK(!ud_freed, "ud-early", "user data released early");
        vh_sig(op * 2 + (e != NULL));
    }
    vh_sig(own_keys | own_values << 1 | with_ud << 2 | ud_has_free << 3);
    vh_trace("free with %zu entries", nm);
    table_freeing = true; ud_releasing = ud;
    cork_hash_table_free(t);
    for (size_t j = 0; j < nm; j++) gone(&m[j], "free");
    vh_count("entries freed with the table", nm);
    if (ud_has_free) { VH_CHECK(ud_freed, "ud-not-freed", "user data not released when the table was freed"); vh_count("user data released", 1); }
    else { VH_CHECK(!ud_freed, "ud-freed", "user data released without a callback"); free(ud); }
    vh_alloc_expect_balanced(serial, "leak");
    if ((own_keys || own_values) && del > 0) vh_nontrivial();
    if (vh_want_sample()) vh_sample("%zu operations, owned keys %d values %d, user data %d (with release %d): %zu key frees, %zu value frees",
        ops, own_keys, own_values, with_ud, ud_has_free, n_key_frees, n_value_frees);
    while (all) { struct obj *n = all->next_all; free(all); all = n; }
}
