/* C09: intrusive lists stay well formed.  Several lists of individually
 * allocated elements, compared with a sequence model after every operation. */
#include "vh.h"
#include <libcork/core.h>
#include <libcork/ds.h>

#define NL 4
#define MAXE 200
struct elem { uint32_t id; struct cork_dllist_item item; };
static struct cork_dllist L[NL];
static struct { struct elem *e[MAXE]; size_t n; } M[NL];
static uint32_t next_id;
/* the linkable form of the initialiser, kept for older binaries, is hidden by a
 * macro of the same name */
extern void (cork_dllist_init)(struct cork_dllist *list);

static struct elem *mk(void) { struct elem *e = malloc(sizeof *e); memset(e, 0xa5, sizeof *e); e->id = next_id++; return e; }
static void m_ins(int l, size_t at, struct elem *e)
{
    memmove(&M[l].e[at + 1], &M[l].e[at], (M[l].n - at) * sizeof e); M[l].e[at] = e; M[l].n++;
}
static struct elem *m_del(int l, size_t at)
{
    struct elem *e = M[l].e[at];
    memmove(&M[l].e[at], &M[l].e[at + 1], (M[l].n - at - 1) * sizeof e); M[l].n--;
    return e;
}
static struct elem *of(struct cork_dllist_item *i) { return cork_container_of(i, struct elem, item); }
static void compare(int l)
{
    struct cork_dllist *p = &L[l]; size_t i = 0; struct cork_dllist_item *c;
    for (c = cork_dllist_start(p); !cork_dllist_is_end(p, c); c = c->next, i++) {
        VH_CHECK(i < M[l].n, "forward", "list %d: more than %zu elements forwards", l, M[l].n);
        VH_CHECK(c == &M[l].e[i]->item, "forward", "list %d: element %zu is wrong", l, i);
    }
    VH_CHECK(i == M[l].n, "forward", "list %d: %zu of %zu elements forwards", l, i, M[l].n);
    for (c = cork_dllist_end(p); !cork_dllist_is_start(p, c); c = c->prev) {
        VH_CHECK(i > 0, "backward", "list %d: too many elements backwards", l);
        VH_CHECK(c == &M[l].e[--i]->item, "backward", "list %d: element %zu is wrong backwards", l, i);
    }
    VH_CHECK(i == 0, "backward", "list %d: %zu elements missing backwards", l, i);
    VH_CHECK(cork_dllist_size(p) == M[l].n, "size", "list %d: size %zu, expected %zu", l, cork_dllist_size(p), M[l].n);
    VH_CHECK(!!cork_dllist_is_empty(p) == (M[l].n == 0), "empty", "list %d: emptiness", l);
    struct cork_dllist_item *h = cork_dllist_head(p), *t = cork_dllist_tail(p);
    VH_CHECK(h == (M[l].n ? &M[l].e[0]->item : NULL), "head", "list %d: head", l);
    VH_CHECK(t == (M[l].n ? &M[l].e[M[l].n - 1]->item : NULL), "tail", "list %d: tail", l);
    vh_evals(1);
}
/* an iteration in which elements may vanish; returns what it should do */
struct walk { struct vh_rng *r; int l; size_t seen, removed; unsigned p_remove; int stop_at, rc; struct elem *order[MAXE]; size_t n; int to; };
static int step(struct walk *w, struct cork_dllist_item *i)
{
    struct elem *e = of(i);
    VH_CHECK(w->seen < w->n, "visit-extra", "more than %zu elements visited", w->n);
    VH_CHECK(e == w->order[w->seen], "visit-order", "visit %zu sees the wrong element", w->seen);
    w->seen++;
    size_t pos = w->seen - 1 - w->removed;
    VH_CHECK(M[w->l].e[pos] == e, "visit-order", "visit out of order");
    if (vh_chance(w->r, w->p_remove, 100)) {
        m_del(w->l, pos); w->removed++;
        cork_dllist_remove(i);
        if (w->to >= 0 && M[w->to].n < MAXE - 1) { cork_dllist_add_to_tail(&L[w->to], i); m_ins(w->to, M[w->to].n, e); }
        else { memset(e, 0xdd, sizeof *e); free(e); }
        vh_count("elements removed while visited", 1);
    }
    if (w->stop_at >= 0 && (int) w->seen > w->stop_at) return w->rc;
    return 0;
}
static int visitor(void *ud, struct cork_dllist_item *i) { return step(ud, i); }
static void mapper(struct cork_dllist_item *i, void *ud) { struct walk *w = ud; w->stop_at = -1; step(w, i); }

void vh_case(struct vh_rng *r, uint64_t index)
{
    size_t ops = vh_chance(r, 1, 3) ? 1 + vh_below(r, 400) : 1 + vh_below(r, 60);
    next_id = 0;
    static struct cork_dllist st = CORK_DLLIST_INIT(st);
    VH_CHECK(cork_dllist_is_empty(&st) && cork_dllist_size(&st) == 0, "static", "statically initialised list is not empty");
    for (int i = 0; i < NL; i++) { memset(&L[i], 0x5a, sizeof L[i]); if ((index + i) & 1) (cork_dllist_init)(&L[i]); else cork_dllist_init(&L[i]); M[i].n = 0; compare(i); }
    for (size_t k = 0; k < ops; k++) {
        int l = vh_below(r, NL), l2 = vh_below(r, NL), op = vh_below(r, 14);
        size_t n = M[l].n;
        vh_trace("op %d on list %d (%zu elements), other %d (%zu)", op, l, n, l2, M[l2].n);
        vh_sig(op * 16 + l);
        if (n >= MAXE - 2 && op < 7) op = 9;
        switch (op) {
        case 0: case 1: { struct elem *e = mk(); cork_dllist_add_to_head(&L[l], &e->item); m_ins(l, 0, e); vh_count("added at head", 1); break; }
        case 2: { struct elem *e = mk(); cork_dllist_add_to_tail(&L[l], &e->item); m_ins(l, n, e); vh_count("added at tail", 1); break; }
        case 3: { struct elem *e = mk(); cork_dllist_add(&L[l], &e->item); m_ins(l, n, e); break; }
        case 4: case 5: {
            struct elem *e = mk(); if (!n) { cork_dllist_add_to_tail(&L[l], &e->item); m_ins(l, 0, e); break; }
            size_t at = vh_below(r, n);
            if (at == 0 && vh_chance(r, 1, 2)) { cork_dllist_add_before(cork_dllist_start(&L[l]), &e->item); vh_count("arguments read from the list", 1); } else if (at + 1 == n && vh_chance(r, 1, 2)) cork_dllist_add_before(cork_dllist_end(&L[l]), &e->item); else if (at == 1 && vh_chance(r, 1, 2)) cork_dllist_add_before(L[l].head.next->next, &e->item); else cork_dllist_add_before(&M[l].e[at]->item, &e->item); m_ins(l, at, e); vh_count("added before", 1); break; }
        case 6: {
            struct elem *e = mk(); if (!n) { cork_dllist_add_to_head(&L[l], &e->item); m_ins(l, 0, e); break; }
            size_t at = vh_below(r, n);
            if (at + 1 == n && vh_chance(r, 1, 2)) { cork_dllist_add_after(cork_dllist_end(&L[l]), &e->item); vh_count("arguments read from the list", 1); } else if (at == 0 && vh_chance(r, 1, 2)) cork_dllist_add_after(cork_dllist_head(&L[l]), &e->item); else cork_dllist_add_after(&M[l].e[at]->item, &e->item); m_ins(l, at + 1, e); vh_count("added after", 1); break; }
        case 7: case 8: case 9: {
            if (!n) break;
            size_t at = vh_chance(r, 1, 3) ? 0 : vh_chance(r, 1, 3) ? n - 1 : vh_below(r, n);
            struct elem *e = m_del(l, at);
            if (at == 0 && vh_chance(r, 1, 2)) { cork_dllist_remove(cork_dllist_start(&L[l])); vh_count("arguments read from the list", 1); } else if (at + 1 == n && vh_chance(r, 1, 2)) cork_dllist_remove(cork_dllist_tail(&L[l])); else if (at == 1 && vh_chance(r, 1, 2)) cork_dllist_remove(cork_dllist_start(&L[l])->next); else cork_dllist_remove(&e->item);
            vh_count("removed", 1);
            if (vh_chance(r, 1, 3) && M[l2].n < MAXE - 1) { cork_dllist_add_to_head(&L[l2], &e->item); m_ins(l2, 0, e); }
            else { memset(e, 0xdd, sizeof *e); free(e); }
            break; }
        case 10: case 11: {
            if (l == l2 || M[l].n + M[l2].n >= MAXE - 2) break;
            bool head = op == 10;
            if (head) cork_dllist_add_list_to_head(&L[l], &L[l2]); else cork_dllist_add_list_to_tail(&L[l], &L[l2]);
            for (size_t i = 0; i < M[l2].n; i++) m_ins(l, head ? i : n + i, M[l2].e[i]);
            vh_count(M[l2].n && n ? "whole lists moved" : "empty lists moved", 1);
            M[l2].n = 0;
            compare(l2);
            break; }
        default: {
            struct walk w; memset(&w, 0, sizeof w);
            w.r = r; w.l = l; w.p_remove = vh_chance(r, 1, 2) ? 0 : vh_below(r, 101); w.n = n; memcpy(w.order, M[l].e, n * sizeof w.order[0]);
            w.stop_at = vh_chance(r, 1, 2) ? (int) vh_below(r, n + 2) : -1; w.rc = vh_chance(r, 1, 2) ? -1 : (int) vh_range(r, 1, 1000);
            if (vh_chance(r, 1, 8)) w.rc = INT32_MIN;
            w.to = l != l2 && vh_chance(r, 1, 2) ? l2 : -1;
            int how = vh_below(r, 4), rc = 0; struct cork_dllist_item *c, *nx; struct elem *e;
            if (how == 0) rc = cork_dllist_visit(&L[l], &w, visitor);
            else if (how == 1) { cork_dllist_map(&L[l], mapper, &w); w.stop_at = -1; }
            else if (how == 2) { cork_dllist_foreach_void(&L[l], c, nx) { if ((rc = step(&w, c)) != 0) break; } }
            else { cork_dllist_foreach(&L[l], c, nx, struct elem, e, item) {
                       VH_CHECK(&e->item == c, "foreach-element", "foreach element does not contain the item");
                       if ((rc = step(&w, c)) != 0) break; } }
            size_t want = w.stop_at >= 0 && (size_t) w.stop_at < n ? (size_t) w.stop_at + 1 : n;
            VH_CHECK(w.seen == want, "visit-count", "%zu of %zu elements visited", w.seen, want);
            VH_CHECK(rc == (want < n || (w.stop_at >= 0 && (size_t) w.stop_at < n) ? w.rc : 0), "visit-result", "visit returned %d, expected %d", rc, w.rc);
            if (how == 0) vh_count("visits", 1); else if (how == 1) vh_count("maps", 1); else vh_count("foreach loops", 1);
            break; }
        }
        compare(l); compare(l2);
    }
    if (ops > 5) vh_nontrivial();
    if (vh_want_sample()) vh_sample("%zu operations on %d lists, final sizes %zu %zu %zu %zu", ops, NL, M[0].n, M[1].n, M[2].n, M[3].n);
    for (int i = 0; i < NL; i++) { compare(i); for (size_t k = 0; k < M[i].n; k++) free(M[i].e[k]); }
}
