/* C06: slices never reach outside their source and always show the right bytes. */
#include "vh.h"
#include <libcork/core.h>
#include <libcork/ds.h>

#define MAXS 60
struct sl { struct cork_slice s; int used; bool indep; int src; size_t off, len; int light_of; };
struct source {
    int kind;               /* 0 copied managed, 1 wrapped managed, 2 buffer, 3, 5 static, 4 copy-once, 6 written by the application */
    unsigned char *mem; size_t size; int freed; unsigned char *ref;
    struct cork_managed_buffer *mb;
};
static struct sl sl[MAXS];
static struct source src[4]; static int nsrc;
static struct source *cur_wrapped[4];

static void wfree(void *buf, size_t size)
{
    for (int i = 0; i < nsrc; i++)
        if (src[i].kind == 1 && src[i].mem == buf) {
            VH_CHECK(src[i].size == size, "free-size", "free callback got size %zu, expected %zu", size, src[i].size);
            VH_CHECK(!src[i].freed, "free-twice", "free callback ran twice");
            src[i].freed = 1;
            memset(buf, 0xdd, size);
            free(buf);
            return;
        }
    vh_fail("free-foreign", "free callback got an unknown pointer");
}
/* A slice implementation of the application's own.  Every slice has its own
 * block of exactly its bytes; light copies point into the block. */
#define CUSTOM_ERROR 0x0c06fa11u
static int c_copies, c_lights, c_slices, c_frees, c_live, c_fail, c_failed; static size_t c_off, c_len; static const struct cork_slice *c_self;
static struct cork_slice_iface custom, custom_light;
static int c_enter(const struct cork_slice *self, size_t off, size_t len, int *count)
{
    (*count)++; c_self = self; c_off = off; c_len = len;
    VH_CHECK(off <= self->size && len <= self->size - off, "callback-range", "the slice's implementation is asked for %zu+%zu of %zu bytes", off, len, self->size);
    if (c_fail) { c_fail = 0; c_failed = 1; cork_error_set_printf(CUSTOM_ERROR, "not now"); return -7; }
    return 0;
}
static void c_make(struct cork_slice *d, const void *from, size_t len) { unsigned char *b = malloc(len ? len : 1); if (len) memcpy(b, from, len); d->buf = b; d->size = len; d->iface = &custom; d->user_data = b; c_live++; }
static int c_copy(struct cork_slice *d, const struct cork_slice *self, size_t off, size_t len) { int rc = c_enter(self, off, len, &c_copies); if (rc) { cork_slice_clear(d); return rc; } c_make(d, (const char *) self->buf + off, len); return 0; }
static int c_light(struct cork_slice *d, const struct cork_slice *self, size_t off, size_t len) { int rc = c_enter(self, off, len, &c_lights); if (rc) { cork_slice_clear(d); return rc; } d->buf = (const char *) self->buf + off; d->size = len; d->iface = &custom_light; d->user_data = self->user_data; return 0; }
static int c_slice(struct cork_slice *self, size_t off, size_t len)
{
    int rc = c_enter(self, off, len, &c_slices); if (rc) return rc;
    void *old = self->user_data; c_make(self, (const char *) self->buf + off, len); free(old); c_live--; return 0;
}
static void c_free(struct cork_slice *self) { c_frees++; VH_CHECK(self->iface == &custom, "callback-free", "free of another slice"); free(self->user_data); c_live--; }
static struct cork_slice_iface custom = { c_free, c_copy, c_light, c_slice }, custom_light = { NULL, c_copy, c_light, NULL };
/* what one call of libcork made of the application's methods */
static bool c_result(const struct cork_slice *self, const struct cork_slice *dest, bool valid, int calls, const char *what, int rc, size_t off, size_t len)
{
    VH_CHECK(calls == (valid ? 1 : 0), "callback-calls", "%s: the slice's own method was called %d times for %s request", what, calls, valid ? "a valid" : "an invalid");
    if (valid) VH_CHECK(c_self == self && c_off == off && c_len == len, "callback-arguments", "%s of %zu+%zu asked the slice's implementation for %zu+%zu", what, off, len, c_off, c_len);
    if (!c_failed) return false;
    c_failed = 0; VH_CHECK(rc != 0, "callback-error", "%s: the slice's own method failed, but the call succeeded", what);
    VH_CHECK(cork_error_code() == CUSTOM_ERROR, "callback-error", "%s: the slice's own method failed, the error is %08x", what, (unsigned) cork_error_code()); cork_error_clear();
    (void) dest; vh_count("failing slice methods", 1); return true;
}
static void check_slice(struct sl *x, const char *what)
{
    struct source *s = &src[x->src];
    VH_CHECK(x->s.size == x->len, "slice-size", "%s: slice has %zu bytes, expected %zu", what, x->s.size, x->len);
    VH_CHECK(x->len == 0 || memcmp(x->s.buf, s->ref + x->off, x->len) == 0, "slice-bytes", "%s: slice shows wrong bytes", what);
    if (s->kind != 4 && s->kind != 0 && s->kind != 2 && s->kind != 6 && x->len > 0)
        VH_CHECK((const unsigned char *) x->s.buf == s->mem + x->off, "slice-where", "%s: slice points elsewhere", what);
    vh_evals(1);
}
static int newslot(void) { for (int i = 0; i < MAXS; i++) if (!sl[i].used) return i; return -1; }
static void finish(int i)
{
    for (int j = 0; j < MAXS; j++) if (sl[j].used && sl[j].light_of == i) finish(j);
    int f = c_frees, own = sl[i].s.iface == &custom;
    cork_slice_finish(&sl[i].s);
    VH_CHECK(c_frees == f + own, "callback-free", "finishing called the free method %d times", c_frees - f);
    VH_CHECK(cork_slice_is_empty(&sl[i].s), "finish-empty", "a finished slice is not empty");
    cork_slice_finish(&sl[i].s);        /* finishing an empty slice is harmless */
    sl[i].used = 0;
}
/* a request relative to a slice of n bytes; returns whether it is valid */
static bool request(struct vh_rng *r, size_t n, size_t *off, size_t *len)
{
    switch (vh_below(r, 10)) {
    case 0: *off = vh_below(r, n + 1); *len = n - *off; break;
    case 1: *off = vh_below(r, n + 1); *len = n - *off + 1; break;
    case 2: *off = n + 1 + vh_below(r, 3); *len = 0; break;
    case 3: *off = vh_below(r, n + 1); *len = SIZE_MAX - vh_below(r, n + 2); break;
    case 4: *off = vh_below(r, n + 1); *len = (size_t) 0 - *off + vh_below(r, n + 1); break;    /* wraps into range */
    case 5: *off = vh_interesting64(r); *len = vh_interesting64(r); break;
    case 6: *off = SIZE_MAX - vh_below(r, 4); *len = vh_below(r, n + 4); break;
    default: *off = vh_below(r, n + 1); *len = vh_below(r, n - *off + 1); break;
    }
    return *off <= n && *len <= n - *off;
}
static void want_error(int rc, struct cork_slice *dest, const char *what, size_t n, size_t off, size_t len)
{
    VH_CHECK(rc != 0, "bounds", "%s: %zu+%zu of a %zu-byte source succeeded", what, off, len, n);
    VH_CHECK(cork_error_occurred(), "no-error", "%s: failed without setting an error", what);
    cork_error_clear();
    if (dest) cork_slice_finish(dest);
    vh_count("out-of-range requests refused", 1);
}

void vh_setup(void) { vh_alloc_install(); VH_WARM_ERRORS(); }
void vh_case(struct vh_rng *r, uint64_t index)
{
    /* the per-thread error state allocates once per thread; settle it first */
    uint64_t serial;
    size_t ops = 1 + vh_below(r, 120), ok = 0, bad = 0;
    cork_error_set_printf(1, "%0800d", 1); cork_error_clear();
    serial = vh_alloc_serial();
    memset(sl, 0, sizeof sl);
    nsrc = 1 + vh_below(r, 4);
    for (int i = 0; i < nsrc; i++) {
        struct source *s = &src[i];
        memset(s, 0, sizeof *s);
        s->kind = vh_below(r, 7);
        s->size = vh_chance(r, 1, 10) ? 0 : vh_size(r, 400);
        s->mem = malloc(s->size ? s->size : 1);
        s->ref = malloc(s->size ? s->size : 1);
        vh_fill(r, s->mem, s->size, vh_chance(r, 1, 2) ? 0 : 3);
        memcpy(s->ref, s->mem, s->size);
        int k = newslot();
        struct sl *x = &sl[k];
        x->src = i; x->off = 0; x->len = s->size; x->light_of = -1; x->used = 1;
        int rc = 0;
        vh_trace("source %d kind %d size %zu", i, s->kind, s->size);
        switch (s->kind) {
        case 0: s->mb = cork_managed_buffer_new_copy(s->mem, s->size); free(s->mem); s->mem = NULL; break;
        case 1: s->mb = cork_managed_buffer_new(s->mem, s->size, wfree); break;
        case 2: { struct cork_buffer *b = cork_buffer_new(); cork_buffer_set(b, s->mem, s->size); free(s->mem); s->mem = NULL;
                  rc = cork_buffer_to_slice(b, &x->s); break; }
        case 3: case 5: cork_slice_init_static(&x->s, s->mem, s->size); break;
        case 4: cork_slice_init_copy_once(&x->s, s->mem, s->size); break;
        case 6: c_make(&x->s, s->mem, s->size); vh_count("slices of the application's own kind", 1); break;
        }
        if (s->mb) {
            size_t off, len;
            for (int t = 0; t < 4; t++) {
                struct cork_slice tmp;
                bool valid = request(r, s->size, &off, &len);
                bool use_off = vh_chance(r, 1, 3);
                if (use_off) { valid = off <= s->size; len = valid ? s->size - off : 0; }
                memset(&tmp, 0x5a, sizeof tmp);
                vh_trace("managed slice %zu+%zu%s", off, len, use_off ? " (offset form)" : "");
                rc = use_off ? cork_managed_buffer_slice_offset(&tmp, s->mb, off) : cork_managed_buffer_slice(&tmp, s->mb, off, len);
                if (!valid) { want_error(rc, &tmp, "managed_buffer_slice", s->size, off, len); bad++; }
                else {
                    VH_CHECK(rc == 0, "refused", "valid slice %zu+%zu of %zu refused", off, len, s->size);
                    VH_CHECK(tmp.size == len && (len == 0 || !memcmp(tmp.buf, s->ref + off, len)), "slice-bytes", "managed slice shows wrong bytes");
                    cork_slice_finish(&tmp); ok++;
                }
            }
            rc = vh_chance(r, 1, 2) ? cork_managed_buffer_slice(&x->s, s->mb, 0, s->size) : cork_managed_buffer_slice_offset(&x->s, s->mb, 0);
            if (vh_chance(r, 1, 2)) { cork_managed_buffer_unref(s->mb); s->mb = NULL; }
        }
        VH_CHECK(rc == 0, "refused", "slice of the whole source refused");
        check_slice(x, "initial");
    }
    for (size_t i = 0; i < ops; i++) {
        int k = vh_below(r, MAXS), d;
        struct sl *x = NULL;
        for (int j = 0; j < MAXS; j++) if (sl[(k + j) % MAXS].used) { k = (k + j) % MAXS; x = &sl[k]; break; }
        if (!x) break;
        unsigned op = vh_below(r, 14);
        size_t off, len; bool valid = request(r, x->len, &off, &len), use_off = vh_chance(r, 1, 3);
        bool fast, light;
        if (use_off) { valid = off <= x->len; len = valid ? x->len - off : 0; }
        fast = valid && vh_chance(r, 1, 3);
        d = newslot();
        bool lights = false;
        for (int j = 0; j < MAXS; j++) if (sl[j].used && sl[j].light_of == k) lights = true;
        if (op < 6) {
            struct cork_slice tmp; int rc;
            light = op >= 3;
            if (d < 0) continue;
            memset(&tmp, 0x5a, sizeof tmp);
            vh_trace("%scopy%s%s of slice %d (source %d, %zu bytes): %zu+%zu -> %d", light ? "light " : "", use_off ? " offset" : "", fast ? " fast" : "", k, x->src, x->len, off, len, d);
            bool own = src[x->src].kind == 6; int calls = light ? c_lights : c_copies; c_fail = own && valid && vh_chance(r, 1, 6); c_failed = 0;
            if (light) rc = use_off ? (fast ? cork_slice_light_copy_offset_fast(&tmp, &x->s, off) : cork_slice_light_copy_offset(&tmp, &x->s, off))
                                    : (fast ? cork_slice_light_copy_fast(&tmp, &x->s, off, len) : cork_slice_light_copy(&tmp, &x->s, off, len));
            else rc = use_off ? (fast ? cork_slice_copy_offset_fast(&tmp, &x->s, off) : cork_slice_copy_offset(&tmp, &x->s, off))
                              : (fast ? cork_slice_copy_fast(&tmp, &x->s, off, len) : cork_slice_copy(&tmp, &x->s, off, len));
            c_fail = 0; if (own && c_result(&x->s, &tmp, valid, (light ? c_lights : c_copies) - calls, light ? "light copy" : "copy", rc, off, len)) { cork_slice_finish(&tmp); check_slice(x, "source of a failed copy"); continue; }
            if (!valid) { want_error(rc, &tmp, light ? "light_copy" : "copy", x->len, off, len); bad++; }
            else {
                VH_CHECK(rc == 0, "refused", "valid copy %zu+%zu of %zu refused", off, len, x->len);
                sl[d].s = tmp; sl[d].used = 1; sl[d].src = x->src; sl[d].off = x->off + off; sl[d].len = len;
                /* light copies die with their slice; static slices' memory is ours */
                sl[d].light_of = light ? k : -1;
                /* a full copy of a copy-once slice no longer needs the caller's bytes */
                sl[d].indep = light ? x->indep : true;
                check_slice(&sl[d], "copy"); ok++;
                vh_count(light ? "light copies" : "copies", 1);
            }
            check_slice(x, "source of a copy");
        } else if (op < 9) {
            int rc;
            /* a slice with light copies keeps its identity: leave it alone */
            if (lights) continue;
            vh_trace("slice%s%s of slice %d (%zu bytes): %zu+%zu", use_off ? " offset" : "", fast ? " fast" : "", k, x->len, off, len);
            bool own = x->s.iface == &custom; int calls = c_slices; c_fail = own && valid && vh_chance(r, 1, 6); c_failed = 0;
            rc = use_off ? (fast ? cork_slice_slice_offset_fast(&x->s, off) : cork_slice_slice_offset(&x->s, off))
                         : (fast ? cork_slice_slice_fast(&x->s, off, len) : cork_slice_slice(&x->s, off, len));
            c_fail = 0; if (own && c_result(&x->s, NULL, valid, c_slices - calls, "slice", rc, off, len)) { check_slice(x, "failed re-slice"); continue; }
            if (!valid) { want_error(rc, NULL, "slice", x->len, off, len); bad++; }
            else { VH_CHECK(rc == 0, "refused", "valid re-slice refused"); x->off += off; x->len = len; ok++; vh_count("re-slices", 1); }
            check_slice(x, "re-slice");
        } else if (op < 11) {
            const void *before = x->s.buf, *res;
            if (lights) continue;
            valid = off <= x->len;
            vh_trace("advance of slice %d (%zu bytes) by %zu", k, x->len, off);
            bool own = x->s.iface == &custom; int calls = c_slices; size_t rest = x->len - off; c_fail = own && valid && vh_chance(r, 1, 6); c_failed = 0;
            if (valid && vh_chance(r, 1, 2)) res = cork_slice_advance(&x->s, off);
            else res = cork_slice_advance_checked(&x->s, off);
            c_fail = 0; if (own) { if (c_result(&x->s, NULL, valid, c_slices - calls, "advance", res == NULL, off, rest)) { check_slice(x, "failed advance"); continue; } if (valid) { VH_CHECK(res != NULL, "advance", "advance failed"); before = res; } }
            if (!valid) { VH_CHECK(res == NULL, "bounds", "advance by %zu of %zu succeeded", off, x->len);
                VH_CHECK(cork_error_occurred(), "no-error", "advance failed without an error"); cork_error_clear(); bad++; }
            else { VH_CHECK(res == before, "advance", "advance did not return the old position"); x->off += off; x->len -= off; ok++; vh_count("advances", 1); }
            check_slice(x, "advance");
        } else if (op == 11) {
            int k2 = vh_below(r, MAXS);
            for (int j = 0; j < MAXS; j++) if (sl[(k2 + j) % MAXS].used) { k2 = (k2 + j) % MAXS; break; }
            struct sl *y = &sl[k2];
            bool want = x->len == y->len && (x->len == 0 || !memcmp(src[x->src].ref + x->off, src[y->src].ref + y->off, x->len));
            VH_CHECK(cork_slice_equal(&x->s, &y->s) == want, "equal", "slice_equal is %d, expected %d", !want, want);
            VH_CHECK(cork_slice_equal(&x->s, &x->s), "equal", "a slice differs from itself");
            if (x->len) { /* a copy with one byte changed */
                unsigned char *c = malloc(x->len); memcpy(c, src[x->src].ref + x->off, x->len);
                struct cork_slice t; cork_slice_init_static(&t, c, x->len);
                VH_CHECK(cork_slice_equal(&x->s, &t), "equal", "equal contents compare different");
                c[vh_below(r, x->len)] ^= 1 + vh_below(r, 255);
                VH_CHECK(!cork_slice_equal(&x->s, &t), "equal", "different contents compare equal");
                cork_slice_finish(&t); free(c);
            }
            vh_count("equality checks", 1);
        } else if (op == 12) {
            struct cork_slice t; memset(&t, 0x5a, sizeof t);
            switch (vh_below(r, 9)) {
            case 6: want_error(cork_slice_slice_offset(NULL, off), NULL, "slice_offset(NULL)", 0, off, len); break;
            case 7: want_error(cork_slice_advance_checked(NULL, off) == NULL ? -1 : 0, NULL, "advance_checked(NULL)", 0, off, len); break;
            case 8: want_error(cork_slice_slice(NULL, off, len), NULL, "slice(NULL)", 0, off, len); break;
            case 0: want_error(cork_slice_copy(&t, NULL, off, len), &t, "copy(NULL)", 0, off, len); break;
            case 1: want_error(cork_slice_copy_offset(&t, NULL, off), &t, "copy_offset(NULL)", 0, off, len); break;
            case 2: want_error(cork_slice_light_copy(&t, NULL, off, len), &t, "light_copy(NULL)", 0, off, len); break;
            case 3: want_error(cork_managed_buffer_slice(&t, NULL, off, len), &t, "managed_buffer_slice(NULL)", 0, off, len); break;
            case 4: want_error(cork_managed_buffer_slice_offset(&t, NULL, off), &t, "managed_buffer_slice_offset(NULL)", 0, off, len); break;
            default: want_error(cork_slice_light_copy_offset(&t, NULL, off), &t, "light_copy_offset(NULL)", 0, off, len); break;
            }
        } else {
            vh_trace("finish slice %d", k);
            finish(k);
            vh_count("finishes", 1);
        }
        vh_sig(op * 4 + valid * 2 + fast);
        for (int j = 0; j < MAXS; j++) if (sl[j].used && vh_chance(r, 1, 4)) check_slice(&sl[j], "bystander");
    }
    if (ok > 3 && bad > 1) vh_nontrivial();
    if (vh_want_sample() && ok > 5) vh_sample("%d sources (first kind %d, %zu bytes): %zu valid and %zu invalid requests", nsrc, src[0].kind, src[0].size, ok, bad);
    for (int i = 0; i < nsrc; i++) {
        int left = 0;
        if (src[i].kind != 4) continue;
        for (int j = 0; j < MAXS; j++) if (sl[j].used && sl[j].src == i && !sl[j].indep) finish(j);
        for (int j = 0; j < MAXS; j++) if (sl[j].used && sl[j].src == i) left++;
        if (left == 0) continue;
        vh_trace("the bytes of copy-once source %d go away", i);
        memset(src[i].mem, 0xee, src[i].size); free(src[i].mem); src[i].mem = NULL;
        for (int j = 0; j < MAXS; j++) if (sl[j].used && sl[j].src == i) check_slice(&sl[j], "copy after the source is gone");
        vh_count("copy-once copies outliving their source", left);
    }
    for (int j = 0; j < MAXS; j++) if (sl[j].used) finish(j);
    for (int i = 0; i < nsrc; i++) {
        if (src[i].mb) cork_managed_buffer_unref(src[i].mb);
        if (src[i].kind == 1) VH_CHECK(src[i].freed, "not-freed", "managed buffer never freed");
        else free(src[i].mem);
        free(src[i].ref);
    }
    VH_CHECK(c_live == 0, "callback-free", "%d slices of the application's own kind were not freed", c_live);
    vh_alloc_expect_balanced(serial, "leak");
}
