/* C12/C13: random object graphs driven through the collector, with an
 * independent reachability model.  GC_MODE 12 judges that nothing reachable is
 * finalised or damaged, 13 that everything dropped is finalised, once, in time. */
#include "vh.h"
#include <pthread.h>
#include <libcork/core.h>
#include <libcork/helpers/gc.h>

#define LIVE12(cond, key, ...) do { if (GC_MODE == 12) VH_CHECK(cond, key, __VA_ARGS__); } while (0)
#define FIN13(cond, key, ...) do { if (GC_MODE == 13) VH_CHECK(cond, key, __VA_ARGS__); } while (0)

enum { K_FULL, K_NOFREE, K_LEAF, K_BARE, NKIND };
struct world;
struct onode {                          /* the garbage-collected object */
    struct world *w; uint32_t idx; uint32_t pad;
    struct onode **kids; size_t nkids;  /* kids is the harness's own memory */
    unsigned char body[1];
};
struct mnode {                          /* what the model knows about it */
    struct onode *o; int kind; size_t blen; unsigned char fill;
    uint32_t ext; uint32_t rc; int finals; bool clean, must; bool reach;
    struct onode **kids; uint32_t *kidx; size_t nkids;
};
struct world {
    struct vh_rng r; struct mnode *n; uint32_t nn, cap; bool reach_ok; uint64_t finals, ops, decrefs, collects, live_seen;
    uint32_t max_nodes; uint64_t claims, hoards;
    uint32_t *stack; uint64_t sig;
};

static void compute_reach(struct world *w)
{
    uint32_t sp = 0;
    for (uint32_t i = 0; i < w->nn; i++) {
        w->n[i].reach = w->n[i].ext > 0;
        if (w->n[i].reach) w->stack[sp++] = i;
    }
    while (sp) {
        struct mnode *m = &w->n[w->stack[--sp]];
        for (size_t k = 0; k < m->nkids; k++)
            if (!w->n[m->kidx[k]].reach) { w->n[m->kidx[k]].reach = true; w->stack[sp++] = m->kidx[k]; }
    }
    w->reach_ok = true;
}
static void check_body(struct world *w, uint32_t i)
{
    struct mnode *m = &w->n[i]; struct onode *o = m->o;
    LIVE12(o->w == w && o->idx == i && o->kids == m->kids && o->nkids == m->nkids, "contents", "header fields of object %u changed", i);
    for (size_t k = 0; k < m->blen; k++) if (o->body[k] != m->fill) LIVE12(false, "contents", "byte %zu of live object %u changed", k, i);
    for (size_t k = 0; k < m->nkids; k++) LIVE12(o->kids[k] == w->n[m->kidx[k]].o, "contents", "child pointer %zu of object %u changed", k, i);
    w->live_seen++;
}
static void finalise(void *obj)
{
    struct onode *o = obj; struct world *w = o->w; uint32_t i = o->idx;
    VH_CHECK(i < w->nn && w->n[i].o == o, GC_MODE == 12 ? "wrong-object" : "wrong-finaliser", "finaliser called with a pointer that is no object");
    struct mnode *m = &w->n[i];
    m->finals++; w->finals++;
    FIN13(m->finals == 1, "finalised-twice", "object %u finalised %d times", i, m->finals);
    FIN13(m->kind == K_FULL || m->kind == K_LEAF, "wrong-finaliser", "object %u has no finaliser", i);
    if (!w->reach_ok) compute_reach(w);
    LIVE12(!m->reach, "finalised-live", "object %u finalised while it can still be reached (%u program references)", i, m->ext);
    for (size_t k = 0; k < m->blen; k++) LIVE12(o->body[k] == m->fill, "contents", "object %u damaged before its finaliser ran", i);
}
/* the two classes get a different function each, to see the right one is used */
static void node__free(void *obj) { finalise(obj); struct onode *o = obj; FIN13(o->w->n[o->idx].kind == K_FULL, "wrong-finaliser", "finaliser of another class called"); }
static void leaf__free(void *obj) { finalise(obj); struct onode *o = obj; FIN13(o->w->n[o->idx].kind == K_LEAF, "wrong-finaliser", "finaliser of another class called"); }
_recurse_(node) { struct onode *o = obj; for (size_t k = 0; k < o->nkids; k++) recurse(gc, o->kids[k], ud); }
_recurse_(nofree) { struct onode *o = obj; recurse(gc, NULL, ud); for (size_t k = o->nkids; k-- > 0; ) recurse(gc, o->kids[k], ud); }
_gc_(node)
_gc_no_free_(nofree)
_gc_no_recurse_(leaf)
_gc_leaf_(bare)

static uint32_t mk(struct world *w, int kind)
{
    struct vh_rng *r = &w->r; uint32_t i = w->nn++; struct mnode *m = &w->n[i];
    static struct cork_gc_obj_iface *ifaces[] = { &node__gc, &nofree__gc, &leaf__gc, &bare__gc };
    memset(m, 0, sizeof *m);
    m->kind = kind; m->blen = 1 + (vh_chance(r, 1, 8) ? vh_below(r, 200) : vh_below(r, 12)); m->fill = 1 + vh_below(r, 250);
    m->o = cork_gc_alloc(offsetof(struct onode, body) + m->blen, ifaces[kind]);
    VH_CHECK(m->o != NULL, GC_MODE == 12 ? "alloc" : "alloc13", "allocation returned NULL");
    m->o->w = w; m->o->idx = i; m->o->kids = NULL; m->o->nkids = 0; memset(m->o->body, m->fill, m->blen);
    m->ext = 1; m->rc = 1; m->clean = true; w->reach_ok = false;
    return i;
}
static bool can_hold(struct mnode *m) { return m->kind == K_FULL || m->kind == K_NOFREE; }
static void link_to(struct world *w, uint32_t a, uint32_t b)    /* a holds b */
{
    struct mnode *m = &w->n[a];
    if ((m->nkids & (m->nkids + 1)) == 0 || m->kids == NULL) {
        size_t c = m->nkids ? m->nkids * 2 + 2 : 2;
        m->kids = realloc(m->kids, c * sizeof *m->kids); m->kidx = realloc(m->kidx, c * sizeof *m->kidx);
    }
    void *g = cork_gc_incref(w->n[b].o);
    LIVE12(g == w->n[b].o, "incref", "incref returned something else");
    m->kids[m->nkids] = w->n[b].o; m->kidx[m->nkids++] = b;
    m->o->kids = m->kids; m->o->nkids = m->nkids;
    w->n[b].rc++; w->reach_ok = false;
}
static void unclean(struct world *w, uint32_t i)
{
    uint32_t sp = 0; w->stack[sp++] = i; w->n[i].clean = false;
    while (sp) {
        struct mnode *m = &w->n[w->stack[--sp]];
        for (size_t k = 0; k < m->nkids; k++)
            if (w->n[m->kidx[k]].clean) { w->n[m->kidx[k]].clean = false; w->stack[sp++] = m->kidx[k]; }
    }
}
/* the model's view of one reference to i going away; sets `must` on objects
 * that have to be finalised at once */
static void m_drop(struct world *w, uint32_t i)
{
    struct mnode *m = &w->n[i];
    if (--m->rc > 0) { m->clean = false; return; }
    if (!m->clean) { unclean(w, i); return; }
    m->must = true;
    for (size_t k = 0; k < m->nkids; k++) m_drop(w, m->kidx[k]);
}
static void check_must(struct world *w)
{
    for (uint32_t i = 0; i < w->nn; i++) if (w->n[i].must) {
        struct mnode *m = &w->n[i];
        if (m->kind == K_FULL || m->kind == K_LEAF) { FIN13(m->finals == 1, "late", "object %u, in no cycle and never a candidate, not finalised when its last reference went", i); w->claims++; }
        m->must = false; m->clean = false;
    }
}
static void drop_ext(struct world *w, uint32_t i)
{
    w->n[i].ext--; w->reach_ok = false; m_drop(w, i); w->decrefs++;
    cork_gc_decref(w->n[i].o);
    check_must(w);
}
static void drop_edge(struct world *w, uint32_t a, size_t k)
{
    struct mnode *m = &w->n[a]; uint32_t b = m->kidx[k];
    m->nkids--; m->kidx[k] = m->kidx[m->nkids]; m->kids[k] = m->kids[m->nkids];
    m->o->nkids = m->nkids; w->reach_ok = false; w->decrefs++;
    m_drop(w, b);
    cork_gc_decref(w->n[b].o);
    check_must(w);
}
static void collect(struct world *w, bool init)
{
    cork_gc_done(); w->collects++;
    if (init) cork_gc_init();
    compute_reach(w);
    for (uint32_t i = 0; i < w->nn; i++) {
        struct mnode *m = &w->n[i];
        if (m->reach) LIVE12(m->finals == 0, "finalised-live", "object %u finalised although reachable", i);
        else if (m->kind == K_FULL || m->kind == K_LEAF) FIN13(m->finals == 1, "not-finalised", "object %u is unreachable but was finalised %d times when the collector was shut down", i, m->finals);
    }
}
static void check_live(struct world *w)
{
    if (!w->reach_ok) compute_reach(w);
    for (uint32_t i = 0; i < w->nn; i++) if (w->n[i].reach) check_body(w, i);
}
/* pick an object the program can use: externally referenced, or found by
 * following children from one that is */
static int pick(struct world *w, bool follow)
{
    struct vh_rng *r = &w->r;
    for (int t = 0; t < 30 && w->nn; t++) {
        uint32_t i = vh_chance(r, 1, 2) ? vh_below(r, w->nn) : w->nn - 1 - vh_below(r, w->nn < 20 ? w->nn : 20);
        if (!w->n[i].ext) continue;
        if (follow) while (w->n[i].nkids && vh_chance(r, 2, 3)) i = w->n[i].kidx[vh_below(r, w->n[i].nkids)];
        return i;
    }
    return -1;
}
static uint32_t room(struct world *w) { return w->max_nodes - w->nn; }
/* many references to one object, around a power of two */
static void hoard(struct world *w, uint32_t i)
{
    struct vh_rng *r = &w->r; uint32_t bits = vh_chance(r, 1, 20) ? 16 : 4 + vh_below(r, 7);
    if (bits > 10 && w->max_nodes > 300) bits = 10;
    uint32_t n = (1u << bits) - 1 + vh_below(r, 3), have = w->n[i].rc;
    if (vh_chance(r, 1, 2) && n > have) n -= have;
    for (uint32_t k = 0; k < n; k++) cork_gc_incref(w->n[i].o);
    w->n[i].ext += n; w->n[i].rc += n; w->reach_ok = false;
    if (vh_chance(r, 1, 2)) drop_ext(w, i);
    w->hoards++;
}
static int rkind(struct vh_rng *r) { return vh_chance(r, 4, 5) ? K_FULL : (int) vh_below(r, NKIND); }
/* build a shape out of fresh objects; maybe drop the program's references */
static void shape(struct world *w)
{
    struct vh_rng *r = &w->r; uint32_t base = w->nn, n = 2 + vh_below(r, vh_chance(r, 1, 6) ? 300 : 10);
    if (n > room(w)) n = room(w);
    if (n < 2) return;
    for (uint32_t i = 0; i < n; i++) mk(w, vh_chance(r, 6, 7) ? K_FULL : K_NOFREE);
    int what = vh_below(r, 7);
    for (uint32_t i = 0; i < n; i++) switch (what) {
        case 0: link_to(w, base + i, base + (i + 1) % n); break;                             /* ring */
        case 1: if (i + 1 < n) link_to(w, base + i, base + i + 1); break;                  /* chain */
        case 2: link_to(w, base + i, base + (i + 1) % n); link_to(w, base + (i + 1) % n, base + i); break;  /* doubly linked ring */
        case 3: if (i) { link_to(w, base + (i - 1) / 2, base + i); link_to(w, base + i, base + (i - 1) / 2); } break; /* tree with parent links */
        case 4: link_to(w, base + i, base + i); if (i) link_to(w, base + i - 1, base + i); break; /* chain of self-loops */
        case 5: for (int k = 0; k < 3; k++) link_to(w, base + i, base + vh_below(r, n)); break;  /* random */
        case 6: if (i) { link_to(w, base, base + i); link_to(w, base + i, base + (i == n - 1 ? 0 : n - 1)); } break; /* fan-out and fan-in, a diamond */
    }
    if (vh_chance(r, 1, 3)) {           /* tie it to something older */
        int o = pick(w, true);
        if (o >= 0 && can_hold(&w->n[o])) link_to(w, o, base + vh_below(r, n));
        if (o >= 0) link_to(w, base + vh_below(r, n), o);
    }
    w->sig = w->sig * 31 + what * 1000 + n;
    if (vh_chance(r, 3, 4)) {
        unsigned keep = vh_chance(r, 1, 2) ? 0 : vh_below(r, 60);
        bool rev = vh_chance(r, 1, 2);
        for (uint32_t j = 0; j < n; j++) { uint32_t i = base + (rev ? n - 1 - j : j); if (!vh_chance(r, keep, 100)) drop_ext(w, i); }
    }
}
/* more candidates than the collector's buffer holds, in one release */
static void flood(struct world *w)
{
    struct vh_rng *r = &w->r; uint32_t n = 900 + vh_below(r, 800), how = vh_below(r, 4);
    if (room(w) < n + 4) return;
    uint32_t p = mk(w, K_FULL), q = mk(w, K_FULL), base = w->nn;
    if (how == 3) link_to(w, p, p);
    for (uint32_t i = 0; i < n; i++) {
        uint32_t x = mk(w, how == 2 ? K_FULL : rkind(r));
        link_to(w, p, x);
        if (how != 1) link_to(w, q, x);
        if (can_hold(&w->n[x])) {
            if (how == 2) link_to(w, x, vh_chance(r, 1, 3) ? p : vh_chance(r, 1, 2) ? x : base + vh_below(r, i + 1));
            else if (vh_chance(r, 1, 3)) link_to(w, x, x);
        }
    }
    if (vh_chance(r, 1, 2)) for (uint32_t i = 0; i < n; i++) drop_ext(w, base + i);
    else for (uint32_t i = 0; i < n; i++) if (vh_chance(r, 1, 2)) drop_ext(w, base + i);
    vh_count("floods of candidates", 1);
    if (vh_chance(r, 1, 2)) { drop_ext(w, p); drop_ext(w, q); } else if (vh_chance(r, 1, 2)) { drop_ext(w, q); drop_ext(w, p); } else drop_ext(w, p);
    w->sig = w->sig * 31 + how * 1000 + n;
}
static void run_world(struct world *w, size_t ops, bool floods)
{
    struct vh_rng *r = &w->r; int a, b;
    if (vh_chance(r, 1, 2)) cork_gc_init();
    VH_CHECK(cork_gc_incref(NULL) == NULL, GC_MODE == 12 ? "null" : "null13", "incref of NULL"); cork_gc_decref(NULL);
    for (size_t k = 0; k < ops; k++) {
        unsigned op = vh_below(r, 100);
        w->ops++; w->sig = w->sig * 33 + op;
        if (op < 20) { if (room(w)) mk(w, rkind(r)); }
        else if (op < 45) { a = pick(w, true); b = pick(w, true); if (a >= 0 && b >= 0 && can_hold(&w->n[a])) link_to(w, a, b); }
        else if (op < 60) { a = pick(w, true); if (a >= 0 && w->n[a].nkids) drop_edge(w, a, vh_below(r, w->n[a].nkids)); }
        else if (op < 70) { a = pick(w, true); if (a >= 0 && vh_chance(r, 1, 30)) hoard(w, a); else if (a >= 0) { cork_gc_incref(w->n[a].o); w->n[a].ext++; w->n[a].rc++; w->reach_ok = false; } }
        else if (op < 85) { a = pick(w, false); if (a >= 0) drop_ext(w, a); }
        else if (op < 94) shape(w);
        else if (op < 96) { if (floods) flood(w); }
        else if (op < 98) check_live(w);
        else if (op < 99 && vh_chance(r, 1, 4)) collect(w, true);
    }
    check_live(w);
    /* drop everything, in random order */
    bool rev = vh_chance(r, 1, 2);
    for (uint32_t j = 0; j < w->nn; j++) { uint32_t i = rev ? w->nn - 1 - j : j; while (w->n[i].ext) drop_ext(w, i); }
    collect(w, false);
}
static void *thread_main(void *v) { struct world *w = v; run_world(w, w->ops, w->ops > 20); return NULL; }

#if GC_MODE == 13
/* A program that keeps dropping small garbage cycles and never shuts the
 * collector down: what waits for collection must not grow with the number of
 * cycles dropped. */
struct pnode { struct pnode *a, *b; };
static uint64_t p_made, p_final, p_worst;
static void pnode__free(void *obj) { struct pnode *p = obj; FIN13(p->a != (void *) 1, "finalised-twice", "object of a dropped cycle finalised twice"); p_final++; }
_recurse_(pnode) { struct pnode *p = obj; recurse(gc, p->a, ud); recurse(gc, p->b, ud); }
_gc_(pnode)
static void pile(struct vh_rng *r)
{
    enum { BOUND = 24000 };
    struct pnode *keep[64] = { NULL }, *x[6]; size_t n = 0, total = 30000 + vh_below(r, 40000), nkeep = vh_below(r, 65); unsigned max = 1 + vh_below(r, 6), hold = vh_below(r, 2);
    p_made = p_final = p_worst = 0;
    cork_gc_init();
    for (size_t i = 0; i < nkeep; i++) { keep[i] = cork_gc_new(pnode); keep[i]->a = i ? cork_gc_incref(keep[i - 1]) : NULL; keep[i]->b = NULL; }
    while (p_made < total) {
        unsigned k = 1 + vh_below(r, max);
        for (unsigned i = 0; i < k; i++) { x[i] = cork_gc_new(pnode); x[i]->a = x[i]->b = NULL; p_made++; }
        for (unsigned i = 0; i < k; i++) x[i]->a = cork_gc_incref(x[(i + 1) % k]);
        if (hold && nkeep) x[0]->b = cork_gc_incref(keep[vh_below(r, nkeep)]);
        for (unsigned i = 0; i < k; i++) cork_gc_decref(x[i]);
        n++;
        if (p_made - p_final > p_worst) p_worst = p_made - p_final;
        FIN13(p_made - p_final <= BOUND, "piles-up", "%zu dropped cycles of up to %u objects: %" PRIu64 " dead objects were not collected", n, max, p_made - p_final);
    }
    for (size_t i = 0; i < nkeep; i++) cork_gc_decref(keep[i]);
    cork_gc_done();
    FIN13(p_final == p_made + nkeep, "not-finalised", "%" PRIu64 " of %" PRIu64 " objects finalised when the collector was shut down", p_final, p_made + nkeep);
    vh_count("long runs dropping cycles", 1); if (vh_want_sample()) vh_sample("%zu cycles dropped, at most %" PRIu64 " dead objects waited", n, p_worst);
    vh_evals(n);
}
#endif

#ifdef VH_MON
void vh_setup(void) { vh_alloc_install(); VH_WARM_ERRORS(); cork_error_set_string(1, "x"); cork_error_clear(); cork_gc_init(); }
#endif
void vh_case(struct vh_rng *r, uint64_t index)
{
    int nt = vh_chance(r, 1, 5) ? 2 + vh_below(r, 3) : 1;
    struct world w[4]; pthread_t th[4]; size_t ops[4]; uint64_t serial = vh_alloc_serial(); size_t nodes = 0; uint64_t fin = 0;
    for (int t = 0; t < nt; t++) {
        memset(&w[t], 0, sizeof w[t]);
        vh_seed(&w[t].r, vh_u64(r), t);
        ops[t] = w[t].ops = vh_below(r, vh_chance(r, 1, 4) ? 300 : 60) + 3;
        w[t].max_nodes = vh_chance(r, 1, 2) ? 4000 : 300;
        w[t].n = calloc(w[t].max_nodes + 4, sizeof *w[t].n); w[t].stack = calloc(w[t].max_nodes + 4, sizeof(uint32_t));
    }
    if (nt == 1) thread_main(&w[0]);
    else {
        for (int t = 0; t < nt; t++) if (pthread_create(&th[t], NULL, thread_main, &w[t])) vh_broken("pthread_create");
        for (int t = 0; t < nt; t++) pthread_join(th[t], NULL);
        vh_count("multi-threaded histories", 1);
    }
    for (int t = 0; t < nt; t++) {
        nodes += w[t].nn; fin += w[t].finals;
        vh_count("objects", w[t].nn); vh_count("finalisations", w[t].finals); vh_count("references dropped", w[t].decrefs);
        vh_count("shut-downs", w[t].collects); vh_count("live objects inspected", w[t].live_seen); vh_count("immediate finalisations due", w[t].claims); vh_count("objects with hundreds of references", w[t].hoards);
        vh_sig(w[t].sig); vh_evals(w[t].ops);
        for (uint32_t i = 0; i < w[t].nn; i++) { free(w[t].n[i].kids); free(w[t].n[i].kidx); }
        free(w[t].n); free(w[t].stack);
    }
    if (nodes > 10 && fin > 5) vh_nontrivial();
    if (vh_want_sample()) vh_sample("%d thread(s), %zu operations, %zu objects, %" PRIu64 " finalised", nt, ops[0], nodes, fin);
#if GC_MODE == 13
    if (nt == 1 && vh_chance(r, 1, 60)) pile(r);
#endif
    if (GC_MODE == 13 && nt == 1) vh_alloc_expect_balanced(serial, "leak");
}
