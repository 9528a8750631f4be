/* C03: resizable arrays keep their elements and run element callbacks in pairs. */
#include "vh.h"
#include <limits.h>
#include <libcork/core.h>
#include <libcork/ds.h>

/* --- flavour A: raw arrays of any element size, no callbacks --- */
static void plain_case(struct vh_rng *r)
{
    struct cork_raw_array a, b;
    size_t es = (size_t[]){1, 2, 3, 4, 8, 12, 24, 100, 256}[vh_below(r, 9)];
    size_t ops = 1 + vh_below(r, 300);
    struct vstr ma, mb; vstr_init(&ma); vstr_init(&mb);
    cork_raw_array_init(&a, es); cork_raw_array_init(&b, es);
    VH_CHECK(cork_raw_array_element_size(&a) == es, "element-size", "element size");
    for (size_t i = 0; i < ops; i++) {
        bool useb = vh_chance(r, 1, 3);
        struct cork_raw_array *x = useb ? &b : &a, *y = useb ? &a : &b;
        struct vstr *mx = useb ? &mb : &ma, *my = useb ? &ma : &mb;
        size_t n = mx->n / es;
        unsigned op = vh_below(r, 12);
        if (op < 6) {
            size_t k = vh_chance(r, 1, 6) ? 1 + vh_below(r, 40) : 1;
            while (k--) {
                unsigned char tmp[256];
                vh_fill(r, tmp, es, 0);
                void *e = cork_raw_array_append(x);
                VH_CHECK(e == (char *) x->items + (mx->n / es) * es, "append-addr", "append returned a wrong address");
                memcpy(e, tmp, es);
                vstr_add(mx, tmp, es);
            }
            vh_trace("append -> %zu", mx->n / es);
        } else if (op < 9) {
            if (n > 0) {
                size_t at = vh_below(r, n + 1), cnt = vh_below(r, n - at + 1);
                vh_trace("remove_range %zu+%zu of %zu", at, cnt, n);
                if (cnt == 1 && vh_chance(r, 1, 2)) cork_raw_array_remove(x, at); else cork_raw_array_remove_range(x, at, cnt);
                memmove(mx->p + at * es, mx->p + (at + cnt) * es, (n - at - cnt) * es);
                mx->n -= cnt * es;
                vh_count("removals", cnt);
            }
        } else if (op == 9) {
            if (vh_chance(r, 1, 4)) { vh_trace("clear"); cork_raw_array_clear(x); mx->n = 0; }
        } else if (op == 10) {
            size_t w = vh_size(r, 500);
            vh_trace("ensure_size %zu", w);
            cork_raw_array_ensure_size(x, w);
            if (w > 0) memset((char *) x->items + mx->n, 0x55, w * es > mx->n ? w * es - mx->n : 0); /* room is real */
        } else if (vh_chance(r, 1, 2)) {
            vh_trace("copy %zu", my->n / es);
            int rc = cork_raw_array_copy(x, y, NULL, NULL);
            VH_CHECK(rc == 0, "copy", "copy failed");
            vstr_set(mx, my->p, my->n);
            vh_count("copies", 1);
        }
        for (int k = 0; k < 2; k++) {
            struct cork_raw_array *z = k ? &b : &a; struct vstr *mz = k ? &mb : &ma;
            VH_CHECK(cork_raw_array_size(z) * es == mz->n, "size", "size %zu, expected %zu", cork_raw_array_size(z), mz->n / es);
            VH_CHECK(cork_raw_array_is_empty(z) == (mz->n == 0), "empty", "is_empty wrong");
            if (mz->n) VH_CHECK(memcmp(cork_raw_array_elements(z), mz->p, mz->n) == 0, "contents", "contents differ from the model");
            if (mz->n) { size_t j = vh_below(r, mz->n / es);
                VH_CHECK((char *) cork_raw_array_at(z, j) == (char *) cork_raw_array_elements(z) + j * es, "at", "at(%zu) wrong", j); }
        }
        vh_sig(op); vh_evals(1);
    }
    vh_sig(es);
    vh_nontrivial();
    cork_raw_array_done(&a); cork_raw_array_done(&b);
    vstr_done(&ma); vstr_done(&mb);
    vh_count("plain histories", 1);
}

/* --- flavour B: element callbacks; every slot carries a token --- */
enum { FRESH, LIVE, REMOVED, DONE };
struct token { int state; struct token *next; unsigned magic; };
struct elem { struct token *tok; uint64_t id; unsigned pad; };
static struct token *tokens; static size_t ntokens;
static bool cb_init, cb_done, cb_reuse, cb_remove;
static size_t c_init, c_done, c_reuse, c_remove;
static unsigned *udata; static bool ud_freed, finalising;
static void chk_ud(void *ud) { VH_CHECK(ud == udata && *udata == 77, "callback-data", "callback got wrong user data"); }
static void e_init(void *ud, void *v)
{
    struct elem *e = v; chk_ud(ud);
    struct token *t = malloc(sizeof *t);
    t->state = LIVE; t->magic = 0x70ce; t->next = tokens; tokens = t; ntokens++;
    e->tok = t; c_init++;
}
static void e_reuse(void *ud, void *v)
{
    struct elem *e = v; chk_ud(ud);
    if (cb_init) {
        VH_CHECK(e->tok->magic == 0x70ce, "slot-corrupt", "reuse on a slot that was never initialised");
        if (cb_remove) VH_CHECK(e->tok->state == REMOVED, "reuse-pair", "reuse on a slot in state %d (not removed)", e->tok->state);
        VH_CHECK(e->tok->state != DONE, "reuse-done", "reuse on a finalised slot");
        e->tok->state = LIVE;
    }
    c_reuse++;
}
static void e_remove(void *ud, void *v)
{
    struct elem *e = v; chk_ud(ud);
    if (cb_init) {
        VH_CHECK(e->tok->magic == 0x70ce, "slot-corrupt", "remove on a slot that was never initialised");
        if (cb_reuse) VH_CHECK(e->tok->state == LIVE, "remove-pair", "remove on a slot in state %d (not live): id %" PRIu64, e->tok->state, e->id);
        e->tok->state = REMOVED;
    }
    c_remove++;
}
static void e_done(void *ud, void *v)
{
    struct elem *e = v; chk_ud(ud);
    VH_CHECK(finalising, "done-early", "done called while the array is in use");
    if (cb_init) {
        VH_CHECK(e->tok->magic == 0x70ce, "slot-corrupt", "done on a slot that was never initialised");
        VH_CHECK(e->tok->state != DONE, "double-done", "done called twice for one element");
        e->tok->state = DONE;
    }
    c_done++;
}
static void e_free_ud(void *ud)
{
    VH_CHECK(ud == udata && !ud_freed && finalising, "callback-data-free", "callback data released wrongly");
    ud_freed = true; *udata = 0; free(ud);
}
static int copy_fail_at;
static int e_copy(void *ud, void *dest, const void *src)
{
    struct elem *d = dest; const struct elem *s = src;
    VH_CHECK(*(int *) ud == 99, "copy-data", "copy got wrong user data");
    if (copy_fail_at >= 0 && copy_fail_at-- == 0) return -1;
    d->id = s->id;
    return 0;
}
static void callbacks_case(struct vh_rng *r)
{
    cork_array(struct elem) a;
    cork_array(struct elem) src;
    uint64_t *m = malloc(8 * 4000), nextid = 1; size_t nm = 0, hw = 0, removed = 0, appended = 0;
    size_t ops = 1 + vh_below(r, 150);
    struct token *t;
    tokens = NULL; ntokens = 0; c_init = c_done = c_reuse = c_remove = 0;
    unsigned mode = vh_below(r, 3) == 0 ? vh_below(r, 16) : 15;
    cb_init = mode & 1; cb_done = mode & 2; cb_reuse = mode & 4; cb_remove = mode & 8;
    udata = malloc(sizeof *udata); *udata = 77; ud_freed = false; finalising = false;
    cork_array_init(&a); cork_array_init(&src);
    cork_array_set_callback_data(&a, udata, e_free_ud);
    if (cb_init) cork_array_set_init(&a, e_init);
    if (cb_done) cork_array_set_done(&a, e_done);
    if (cb_reuse) cork_array_set_reuse(&a, e_reuse);
    if (cb_remove) cork_array_set_remove(&a, e_remove);
    vh_trace("callbacks: init %d done %d reuse %d remove %d", cb_init, cb_done, cb_reuse, cb_remove);
    for (size_t i = 0; i < ops; i++) {
        unsigned op = vh_below(r, 12);
        size_t reuse0 = c_reuse, rem0 = c_remove, init0 = c_init, expect_rem = 0, expect_new = 0;
        if (op < 6) {
            size_t k = vh_chance(r, 1, 5) ? 1 + vh_below(r, 25) : 1;
            if (nm + k > 3000) k = 0;
            expect_new = k;
            while (k--) {
                struct elem *e = cork_array_append_get(&a);
                e->id = nextid; m[nm++] = nextid++;
            }
            vh_trace("append -> %zu", nm);
        } else if (op < 9) {
            if (nm > 0) {
                size_t at = vh_below(r, nm), cnt = vh_chance(r, 1, 2) ? 1 : vh_below(r, nm - at + 1);
                vh_trace("remove_range %zu+%zu of %zu", at, cnt, nm);
                if (cnt == 1) cork_array_remove(&a, at); else cork_array_remove_range(&a, at, cnt);
                memmove(m + at, m + at + cnt, (nm - at - cnt) * 8); nm -= cnt; expect_rem = cnt;
                vh_count("removals with callbacks", cnt);
            }
        } else if (op == 9) {
            vh_trace("clear %zu", nm);
            cork_array_clear(&a); expect_rem = nm; nm = 0;
        } else if (op == 10) {
            size_t w = vh_below(r, 100);
            vh_trace("ensure_size %zu", w);
            cork_array_ensure_size(&a, w);
        } else {
            int ud = 99; size_t k = vh_below(r, 30); int rc;
            cork_array_clear(&src);
            for (size_t j = 0; j < k; j++) { struct elem e; memset(&e, 0, sizeof e); e.id = nextid++; cork_array_append(&src, e); }
            copy_fail_at = vh_chance(r, 1, 4) && k > 0 ? (int) vh_below(r, k) : -1;
            bool failing = copy_fail_at >= 0;
            vh_trace("copy %zu elements%s", k, failing ? " (copy callback fails)" : "");
            rc = cork_array_copy(&a, &src, e_copy, &ud);
            VH_CHECK((rc != 0) == failing, "copy-result", "copy returned %d", rc);
            expect_rem = nm; expect_new = k; nm = 0;
            if (failing) {
                VH_CHECK(cork_array_size(&a) == 0, "copy-fail-size", "size %zu after a failed copy", cork_array_size(&a));
                expect_rem = (size_t) -1;
                if (k > hw) hw = k;
                vh_count("failed copies", 1);
            } else {
                for (size_t j = 0; j < k; j++) m[nm++] = cork_array_at(&src, j).id;
                vh_count("copies with callbacks", 1);
            }
        }
        if (nm > hw) hw = nm;
        if (cb_remove && expect_rem != (size_t) -1)
            VH_CHECK(c_remove - rem0 == expect_rem, "remove-count", "remove ran %zu times for %zu leaving elements", c_remove - rem0, expect_rem);
        if (cb_init) VH_CHECK(c_init == hw, "init-count", "%zu slots initialised, most elements ever is %zu", c_init, hw);
        if (cb_init && cb_reuse) VH_CHECK(c_init - init0 + c_reuse - reuse0 == expect_new, "reuse-count",
            "%zu new elements got %zu init and %zu reuse calls", expect_new, c_init - init0, c_reuse - reuse0);
        VH_CHECK(c_done == 0, "done-early", "done called early");
        VH_CHECK(cork_array_size(&a) == nm && cork_array_is_empty(&a) == (nm == 0), "size", "size %zu, expected %zu", cork_array_size(&a), nm);
        for (size_t j = 0; j < nm; j++) {
            VH_CHECK(cork_array_at(&a, j).id == m[j], "contents", "element %zu is %" PRIu64 ", expected %" PRIu64, j, cork_array_at(&a, j).id, m[j]);
            if (cb_init) VH_CHECK(cork_array_at(&a, j).tok->state != DONE && (!cb_remove || !cb_reuse || cork_array_at(&a, j).tok->state == LIVE), "live-removed",
                "element %zu of the array is in state %d", j, cork_array_at(&a, j).tok->state);
        }
        /* tokens distinct: no slot content was duplicated or lost */
        if (cb_init && nm > 1) {
            for (size_t j = 0; j < nm; j++) cork_array_at(&a, j).pad = 0;
            for (size_t j = 0; j < nm; j++) { struct token *tk = cork_array_at(&a, j).tok;
                VH_CHECK(tk->magic == 0x70ce, "slot-dup", "two elements share one initialised slot content"); tk->magic = 0x70cf; }
            for (size_t j = 0; j < nm; j++) cork_array_at(&a, j).tok->magic = 0x70ce;
        }
        vh_sig(op * 4 + (expect_rem > 0) * 2 + (expect_new > 0)); vh_evals(nm);
        removed += expect_rem != (size_t) -1 ? expect_rem : 0; appended += expect_new;
    }
    vh_sig(mode);
    finalising = true;
    cork_array_done(&a);
    cork_array_done(&src);
    VH_CHECK(ud_freed, "callback-data-free", "callback data not released");
    if (cb_done) {
        VH_CHECK(c_done == hw, "done-count", "done ran %zu times for %zu initialised elements", c_done, hw);
        if (cb_init) for (t = tokens; t; t = t->next) VH_CHECK(t->state == DONE, "not-done", "an initialised element was never finalised");
    }
    while (tokens) { t = tokens->next; free(tokens); tokens = t; }
    free(m);
    if (removed && c_reuse + c_init > hw) vh_nontrivial();
    vh_count("callback histories", 1);
    if (vh_want_sample()) vh_sample("callbacks init/done/reuse/remove %d%d%d%d: %zu appended, %zu removed, %zu slots ever used", cb_init, cb_done, cb_reuse, cb_remove, appended, removed, hw);
}

/* --- flavour C: pointer and string arrays --- */
static size_t p_freed; static struct pobj { int freed; unsigned id; } *pobjs; static size_t npobjs;
static void p_free(void *p)
{
    struct pobj *o = p;
    VH_CHECK(o >= pobjs && o < pobjs + npobjs, "pointer-foreign", "free callback got a pointer nobody added");
    VH_CHECK(!o->freed, "pointer-double-free", "pointer %u freed twice", o->id);
    o->freed = 1; p_freed++;
}
#define NONE UINT_MAX
static void pointer_case(struct vh_rng *r)
{
    cork_array(struct pobj *) a;
    size_t ops = 1 + vh_below(r, 120), nm = 0;
    unsigned *m = malloc(4 * 8000);
    pobjs = calloc(8000, sizeof *pobjs); npobjs = 0; p_freed = 0;
    cork_pointer_array_init(&a, p_free);
    for (size_t i = 0; i < ops; i++) {
        unsigned op = vh_below(r, 8);
        if (op < 5) {
            size_t k = 1 + vh_below(r, vh_chance(r, 1, 8) ? 40 : 2);
            while (k--) {
                if (vh_chance(r, 1, 8)) {       /* nothing there: not freed */
                    if (vh_chance(r, 1, 2)) cork_array_append(&a, NULL);
                    else { struct pobj **at = cork_array_append_get(&a); VH_CHECK(*at == NULL, "pointer-initial", "a new pointer element is %p", (void *) *at); if (vh_chance(r, 1, 2)) { struct pobj *o = &pobjs[npobjs]; o->id = npobjs++; *at = o; m[nm++] = o->id; continue; } }
                    m[nm++] = NONE; vh_count("missing pointers", 1); continue;
                }
                struct pobj *o = &pobjs[npobjs]; o->id = npobjs++; cork_array_append(&a, o); m[nm++] = o->id;
            }
        } else if (op < 7) {
            if (nm) { size_t at = vh_below(r, nm), cnt = vh_below(r, nm - at + 1);
                cork_array_remove_range(&a, at, cnt);
                for (size_t j = at; j < at + cnt; j++) VH_CHECK(m[j] == NONE || pobjs[m[j]].freed, "pointer-not-freed", "removed pointer %u not freed", m[j]);
                memmove(m + at, m + at + cnt, (nm - at - cnt) * sizeof *m); nm -= cnt; vh_count("pointers removed", cnt); }
        } else if (vh_chance(r, 1, 3)) {
            cork_array_clear(&a);
            for (size_t j = 0; j < nm; j++) VH_CHECK(m[j] == NONE || pobjs[m[j]].freed, "pointer-not-freed", "cleared pointer %u not freed", m[j]);
            nm = 0;
        }
        VH_CHECK(cork_array_size(&a) == nm, "size", "size %zu, expected %zu", cork_array_size(&a), nm);
        for (size_t j = 0; j < nm; j++) {
            if (m[j] == NONE) { VH_CHECK(cork_array_at(&a, j) == NULL, "contents", "element %zu is not NULL", j); continue; }
            VH_CHECK(cork_array_at(&a, j) == &pobjs[m[j]], "contents", "element %zu differs", j);
            VH_CHECK(!pobjs[m[j]].freed, "pointer-freed-live", "pointer %u freed while in the array", m[j]);
        }
        vh_sig(op * 2 + (nm > 0)); vh_evals(nm);
    }
    cork_array_done(&a);
    VH_CHECK(p_freed == npobjs, "pointer-leak", "%zu of %zu owned pointers freed", p_freed, npobjs);
    vh_nontrivial(); vh_sig(0x99);
    free(pobjs); free(m);
    vh_count("pointer arrays", 1);
}
static void string_case(struct vh_rng *r)
{
    struct cork_string_array a[2];
    struct vstr *m[2]; size_t nm[2] = {0, 0};
    size_t ops = 1 + vh_below(r, 80);
    for (int k = 0; k < 2; k++) { cork_string_array_init(&a[k]); m[k] = calloc(4000, sizeof(struct vstr)); }
    for (size_t i = 0; i < ops; i++) {
        int k = vh_below(r, 2);
        unsigned op = vh_below(r, 10);
        if (op < 5) {
            size_t len = vh_size(r, 300);
            char *s = malloc(len + 1);
            vh_fill(r, s, len, 1); s[len] = 0;
            cork_string_array_append(&a[k], s);
            vstr_set(&m[k][nm[k]++], s, len);
            memset(s, 'X', len); free(s);         /* the array has its own copy */
            if (vh_chance(r, 1, 10)) { const char **at = cork_array_append_get(&a[k]); VH_CHECK(*at == NULL, "string-initial", "a new string element is %p", (const void *) *at); if (vh_chance(r, 1, 2)) { *at = cork_strdup("later"); vstr_set(&m[k][nm[k]++], "later", 5); } else { cork_array_remove(&a[k], nm[k]); vh_count("missing strings removed", 1); } }
            else if (vh_chance(r, 1, 300)) { (void) cork_array_append_get(&a[k]); break; }
        } else if (op < 7) {
            if (nm[k]) { size_t at = vh_below(r, nm[k]);
                cork_array_remove(&a[k], at);
                struct vstr del = m[k][at];
                memmove(m[k] + at, m[k] + at + 1, (nm[k] - at - 1) * sizeof del); nm[k]--; m[k][nm[k]] = del; }
        } else if (op == 7) {
            if (vh_chance(r, 1, 3)) { cork_array_clear(&a[k]); nm[k] = 0; }
        } else {
            cork_string_array_copy(&a[k], &a[1 - k]);
            for (size_t j = 0; j < nm[1 - k]; j++) vstr_set(&m[k][j], m[1 - k][j].p, m[1 - k][j].n);
            nm[k] = nm[1 - k];
            for (size_t j = 0; j < nm[k]; j++) VH_CHECK(cork_array_at(&a[k], j) != cork_array_at(&a[1 - k], j), "string-shared", "copied string %zu shared with its source", j);
            vh_count("string array copies", 1);
        }
        for (int q = 0; q < 2; q++) {
            VH_CHECK(cork_array_size(&a[q]) == nm[q], "size", "string array size");
            for (size_t j = 0; j < nm[q]; j++)
                VH_CHECK(strlen(cork_array_at(&a[q], j)) == m[q][j].n && memcmp(cork_array_at(&a[q], j), m[q][j].p, m[q][j].n) == 0,
                         "string-contents", "string %zu is \"%.60s\", expected \"%.60s\"", j, cork_array_at(&a[q], j), vstr_z(&m[q][j]));
            vh_evals(nm[q]);
        }
        vh_sig(op * 2 + k);
    }
    vh_nontrivial(); vh_sig(0x57);
    for (int k = 0; k < 2; k++) {
        cork_array_done(&a[k]);
        for (size_t j = 0; j < 4000; j++) vstr_done(&m[k][j]);
        free(m[k]);
    }
    vh_count("string arrays", 1);
}

void vh_setup(void) { vh_alloc_install(); VH_WARM_ERRORS(); }
/* --- flavour E: elements by value, given by expressions that read the array --- */
struct triple { unsigned char c[3]; };
static void poison(void *ud, void *v) { (void) ud; memset(v, 0xee, 3); }
#if defined(CORK_CONFIG_HAVE_GCC_STATEMENT_EXPRS) && !CORK_CONFIG_HAVE_GCC_STATEMENT_EXPRS
/* (the portable macros evaluate the element afterwards) */
#define APPEND(arr, element) do { __typeof__((arr)->items[0]) e_ = (element); cork_array_append(arr, e_); } while (0)
#else
#define APPEND cork_array_append
#endif
static void typed_case(struct vh_rng *r)
{
    cork_array(uint64_t) a; cork_array(struct triple) b; uint64_t m[600]; size_t n = 0, ops = 1 + vh_below(r, 500);
    cork_array_init(&a); cork_array_init(&b); bool p = vh_chance(r, 1, 2); if (p) { cork_array_set_init(&b, poison); cork_array_set_reuse(&b, poison); cork_array_set_init(&a, poison); cork_array_set_reuse(&a, poison); }
    for (size_t i = 0; i < ops; i++) {
        switch (vh_below(r, 9)) {
        case 0: case 1: m[n] = vh_below(r, 1u << 24); APPEND(&a, m[n]); { struct triple t = { { m[n], m[n] >> 8, m[n] >> 16 } }; APPEND(&b, t); } n++; break;
        case 2: case 3: if (!n) break; m[n] = m[n - 1]; APPEND(&a, cork_array_at(&a, cork_array_size(&a) - 1)); APPEND(&b, cork_array_at(&b, cork_array_size(&b) - 1)); n++; vh_count("elements appended again", 1); break;
        case 4: case 5: { if (!n) break; size_t at = vh_below(r, n); m[n] = m[at]; APPEND(&a, cork_array_at(&a, at)); APPEND(&b, cork_array_elements(&b)[at]); n++; break; }
        case 6: m[n] = n; APPEND(&a, cork_array_size(&a)); { struct triple t = { { n, n >> 8 } }; APPEND(&b, t); } n++; break;
        case 7: { if (!n) break; size_t at = vh_below(r, n); cork_array_remove(&a, at); cork_array_remove(&b, at); memmove(m + at, m + at + 1, (n - at - 1) * sizeof *m); n--; break; }
        default: if (vh_chance(r, 1, 20)) { cork_array_clear(&a); cork_array_clear(&b); n = 0; }
        }
        VH_CHECK(cork_array_size(&a) == n && cork_array_size(&b) == n, "typed-size", "sizes are %zu and %zu, expected %zu", cork_array_size(&a), cork_array_size(&b), n);
        for (size_t j = n < 4 ? 0 : n - 4; j < n; j++) { const struct triple *t = &cork_array_at(&b, j); VH_CHECK(cork_array_at(&a, j) == m[j], "typed-element", "element %zu of %zu is %" PRIu64 ", expected %" PRIu64, j, n, cork_array_at(&a, j), m[j]); VH_CHECK((t->c[0] | t->c[1] << 8 | t->c[2] << 16) == (int) m[j], "typed-element", "structure %zu of %zu differs", j, n); }
        vh_evals(1);
    }
    for (size_t j = 0; j < n; j++) VH_CHECK(cork_array_at(&a, j) == m[j], "typed-element", "element %zu of %zu differs", j, n);
    vh_sig(n); vh_nontrivial(); cork_array_done(&a); cork_array_done(&b);
}
void vh_case(struct vh_rng *r, uint64_t index)
{
    uint64_t serial = vh_alloc_serial();
    switch (vh_below(r, 7)) {
    case 0: plain_case(r); break;
    case 5: typed_case(r); break;
    case 1: case 2: case 3: callbacks_case(r); break;
    case 4: pointer_case(r); break;
    default: string_case(r); break;
    }
    vh_alloc_expect_balanced(serial, "leak");
}
