/* C04: byte buffers hold exactly the bytes written, always NUL-terminated. */
#include "vh.h"
#include <wchar.h>
#include <libcork/core.h>
#include <libcork/ds.h>

static void check(struct cork_buffer *b, struct vstr *m, bool given, const char *op)
{
    VH_CHECK(b->size == m->n, "size", "%s: size %zu, expected %zu", op, b->size, m->n);
    if (m->n) VH_CHECK(memcmp(b->buf, m->p, m->n) == 0, "contents", "%s: contents differ from the model (%zu bytes)", op, m->n);
    if (given) VH_CHECK(b->buf != NULL && ((char *) b->buf)[b->size] == 0, "nul", "%s: no NUL after the %zu bytes", op, b->size);
    if (m->n) {
        size_t k = m->n - 1;
        VH_CHECK(cork_buffer_byte(b, k) == m->p[k] && cork_buffer_char(b, k) == (char) m->p[k], "byte", "%s: byte accessor", op);
    }
    vh_evals(1);
}
static void vp(struct cork_buffer *b, bool append, const char *fmt, ...)
{
    va_list ap; va_start(ap, fmt);
    if (append) cork_buffer_append_vprintf(b, fmt, ap); else cork_buffer_vprintf(b, fmt, ap);
    va_end(ap);
}
#define EMIT(fmt, ...) do { \
        if (how == 0) cork_buffer_printf(b, fmt, __VA_ARGS__); \
        else if (how == 1) cork_buffer_append_printf(b, fmt, __VA_ARGS__); \
        else if (how == 2) vp(b, false, fmt, __VA_ARGS__); \
        else vp(b, true, fmt, __VA_ARGS__); \
        if (how == 0 || how == 2) m->n = 0; \
        vstr_addf(m, fmt, __VA_ARGS__); } while (0)
static void do_printf(struct vh_rng *r, struct cork_buffer *b, struct vstr *m)
{
    int how = vh_below(r, 4);
    size_t start = (how & 1) ? b->size : 0;
    size_t room = b->allocated_size > start ? b->allocated_size - start : 0;
    /* aim at the edges of the free room, or anything */
    size_t len = vh_chance(r, 1, 2) ? room + (size_t) vh_range(r, -3, 3) : vh_size(r, vh_chance(r, 1, 30) ? 300000 : 3000);
    if (len > 1u << 20) len = 0;
    char *s = malloc(len + 1);
    vh_fill(r, s, len, 1); s[len] = 0;
    vh_trace("printf how=%d len=%zu room=%zu", how, len, room);
    switch (vh_below(r, 10)) {
    case 8: EMIT("%s%cb%s", s, 0, s); vh_count("formatted texts with NULs", 1); break;
    case 9: EMIT("%c%s%c%c", 0, s, (int) (len % 2) * 'z', 0); vh_count("formatted texts with NULs", 1); break;
    case 0: EMIT("%s", s); break;
    case 1: EMIT("%*s", (int) len, ""); break;
    case 2: { unsigned long long v = vh_u64(r); EMIT("%llu-%s|%c%%", v, s, 'q'); break; }
    case 3: EMIT("%.*s", (int) (len / 2), s); break;
    case 4: { int v = (int) vh_u64(r); EMIT("%d %x %08X %5.2f %s", v, (unsigned) v, (unsigned) v, v / 7.0, s); break; }
    case 5: EMIT("%0*d", (int) len, -5); break;
    case 6: EMIT("%s%s", "", ""); break;
    default: { long v = (long) vh_u64(r); EMIT("%p%s%ld%-*d|", (void *) s, s, v, (int) (len % 300), 7); break; }
    }
    if (b->size - start >= room) vh_count("printf needing more room", 1);
    vh_count("printf calls", 1);
    free(s);
}

void vh_setup(void) { vh_alloc_install(); VH_WARM_ERRORS(); }

void vh_case(struct vh_rng *r, uint64_t index)
{
    uint64_t serial = vh_alloc_serial();
    struct cork_buffer sb[2] = { CORK_BUFFER_INIT(), CORK_BUFFER_INIT() };
    struct cork_buffer *b[3];
    struct vstr m[3]; bool given[3] = { false, false, false };
    size_t ops = 1 + vh_below(r, 120), seen = 0;
    struct cork_stream_consumer *cons[3] = { NULL, NULL, NULL };
    b[0] = &sb[0]; b[1] = &sb[1]; b[2] = cork_buffer_new();
    cork_buffer_init(&sb[1]);
    for (int i = 0; i < 3; i++) vstr_init(&m[i]);
    for (size_t i = 0; i < ops; i++) {
        int k = vh_below(r, 3), o = (k + 1 + vh_below(r, 2)) % 3;
        unsigned op = vh_below(r, 18);
        size_t len = vh_size(r, vh_chance(r, 1, 60) ? 300000 : 5000);
        unsigned char *s = malloc(len ? len : 1);           /* exact size */
        vh_fill(r, s, len, vh_below(r, 4));
        const char *name = "?";
        switch (op) {
        case 0: name = "set"; vh_trace("set %zu", len);
            cork_buffer_set(b[k], s, len); vstr_set(&m[k], s, len); given[k] = true; break;
        case 1: case 2: name = "append"; vh_trace("append %zu", len);
            cork_buffer_append(b[k], s, len); vstr_add(&m[k], s, len); given[k] = true; break;
        case 3: name = "copy"; vh_trace("copy %zu", m[o].n);
            cork_buffer_copy(b[k], b[o]); vstr_set(&m[k], m[o].p, m[o].n); given[k] = true; break;
        case 4: name = "append_copy"; vh_trace("append_copy %zu", m[o].n);
    if (m[k].n + m[o].n < 2000000) { cork_buffer_append_copy(b[k], b[o]); vstr_add(&m[k], m[o].p, m[o].n); given[k] = true; } break;
        case 5: case 6: { name = "string";
            char *z = malloc(len + 1);
            for (size_t j = 0; j < len; j++) z[j] = s[j] ? s[j] : 'n';
            z[len] = 0;
            vh_trace("%s_string %zu", op == 5 ? "set" : "append", len);
            if (op == 5) { cork_buffer_set_string(b[k], z); vstr_set(&m[k], z, len); }
            else { cork_buffer_append_string(b[k], z); vstr_add(&m[k], z, len); }
            given[k] = true; free(z); break; }
        case 7: name = "set_literal"; vh_trace("set_literal");
            cork_buffer_set_literal(b[k], "lit\0eral"); vstr_set(&m[k], "lit\0eral", 8); given[k] = true; break;
        case 8: name = "append_literal"; vh_trace("append_literal");
            cork_buffer_append_literal(b[k], "x\0y"); vstr_add(&m[k], "x\0y", 3); given[k] = true; break;
        case 9: case 10: case 11: name = "printf"; do_printf(r, b[k], &m[k]); given[k] = true; break;
        case 12: { name = "truncate";
            size_t t = vh_chance(r, 1, 2) ? vh_below(r, m[k].n + 3) : vh_interesting64(r);
            vh_trace("truncate %zu", t);
            cork_buffer_truncate(b[k], t); if (t < m[k].n) m[k].n = t; break; }
        case 13: name = "clear"; vh_trace("clear"); cork_buffer_clear(b[k]); m[k].n = 0; break;
        case 14: { name = "ensure_size"; size_t t = vh_size(r, 20000);
            vh_trace("ensure_size %zu", t);
            cork_buffer_ensure_size(b[k], t);
            VH_CHECK(b[k]->allocated_size >= t, "ensure-size", "allocated %zu < %zu", b[k]->allocated_size, t);
            if (t > m[k].n + 1) { memset((char *) b[k]->buf + m[k].n + 1, 0xee, t - m[k].n - 1); }
            break; }
        case 15: { name = "indent"; size_t t = vh_below(r, 60); vh_trace("indent %zu", t);
            cork_buffer_append_indent(b[k], t); for (size_t j = 0; j < t; j++) vstr_addc(&m[k], ' '); given[k] = true; break; }
        case 16: { name = "stream";
            if (!cons[k]) cons[k] = cork_buffer_to_stream_consumer(b[k]);
            vh_trace("consume %zu", len);
            int rc = cork_stream_consumer_data(cons[k], s, len, seen == 0);
            VH_CHECK(rc == 0, "consumer", "buffer consumer failed"); seen++;
            VH_CHECK(cork_stream_consumer_eof(cons[k]) == 0, "consumer", "buffer consumer eof failed");
            vstr_add(&m[k], s, len); given[k] = true; break; }
        default:
            /* a format the C library rejects must not damage the contents */
            if (vh_chance(r, 1, 4)) {
                static const wchar_t bad[] = { 0x110fff, 0 };
                char probe[64];
                name = "failing printf"; vh_trace("failing printf");
                if (snprintf(probe, sizeof probe, "ab%ls", bad) < 0) {
                    cork_buffer_append_printf(b[k], "ab%ls", bad);
                    vh_count("printf calls the C library rejected", 1);
                }
            }
            break;
        }
        if (vh_chance(r, 1, 6)) { /* equality against an equal, a shorter and a one-byte-off copy */
            struct cork_buffer q = CORK_BUFFER_INIT();
            cork_buffer_set(&q, m[k].p, m[k].n);
            VH_CHECK(cork_buffer_equal(b[k], &q) && cork_buffer_equal(&q, b[k]) && cork_buffer_equal(&q, &q), "equal", "equal contents compare different");
            if (m[k].n) {
                size_t at = vh_below(r, m[k].n);
                ((unsigned char *) q.buf)[at] ^= 1 + vh_below(r, 255);
                VH_CHECK(!cork_buffer_equal(b[k], &q), "equal", "contents differing at byte %zu compare equal", at);
                cork_buffer_set(&q, m[k].p, m[k].n - 1);
                VH_CHECK(!cork_buffer_equal(b[k], &q), "equal", "prefix compares equal");
            }
            cork_buffer_done(&q);
            vh_count("equality checks", 1);
        }
        bool want = m[k].n == b[o]->size && (m[k].n == 0 || memcmp(m[k].p, m[o].p, m[k].n) == 0);
        VH_CHECK(cork_buffer_equal(b[k], b[o]) == want, "equal", "cork_buffer_equal is %d, expected %d", !want, want);
        check(b[k], &m[k], given[k], name);
        check(b[o], &m[o], given[o], "bystander");
        free(s);
        vh_sig(op * 4096 + (b[k]->allocated_size & 4095));
    }
    vh_count("operations", ops);
    if (ops > 5) vh_nontrivial();
    if (vh_want_sample()) vh_sample("%zu operations on three buffers ending with %zu, %zu and %zu bytes", ops, m[0].n, m[1].n, m[2].n);
    for (int k = 0; k < 3; k++) if (cons[k]) cork_stream_consumer_free(cons[k]);
    /* hand the heap buffer over */
    switch (vh_below(r, 4)) {
    case 0: cork_buffer_free(b[2]); break;
    case 1: {
        struct cork_managed_buffer *mb = cork_buffer_to_managed_buffer(b[2]), *mb2;
        VH_CHECK(mb->size == m[2].n && (m[2].n == 0 || memcmp(mb->buf, m[2].p, m[2].n) == 0), "managed", "managed buffer contents differ");
        mb2 = cork_managed_buffer_ref(mb);
        cork_managed_buffer_unref(mb);
        VH_CHECK(m[2].n == 0 || memcmp(mb2->buf, m[2].p, m[2].n) == 0, "managed", "managed buffer contents differ");
        cork_managed_buffer_unref(mb2);
        vh_count("handed to managed buffers", 1); break; }
    default: {
        struct cork_slice s, s2;
        int rc = cork_buffer_to_slice(b[2], &s);
        VH_CHECK(rc == 0 && s.size == m[2].n && (m[2].n == 0 || memcmp(s.buf, m[2].p, m[2].n) == 0), "slice", "slice contents differ");
        size_t at = vh_below(r, m[2].n + 1);
        VH_CHECK(cork_slice_copy_offset(&s2, &s, at) == 0, "slice", "copy of the slice failed");
        cork_slice_finish(&s);
        VH_CHECK(s2.size == m[2].n - at && (s2.size == 0 || memcmp(s2.buf, m[2].p + at, s2.size) == 0), "slice", "copied slice contents differ");
        cork_slice_finish(&s2);
        vh_count("handed to slices", 1); break; }
    }
    for (int k = 0; k < 2; k++) {
        cork_buffer_done(b[k]);
        VH_CHECK(b[k]->size == 0, "done", "size after done");
        if (vh_chance(r, 1, 3)) {       /* a finished buffer may be used again */
            cork_buffer_set_string(b[k], "again");
            VH_CHECK(b[k]->size == 5 && !strcmp(b[k]->buf, "again"), "reuse", "buffer unusable after done");
            cork_buffer_done(b[k]);
        }
    }
    for (int k = 0; k < 3; k++) vstr_done(&m[k]);
    vh_alloc_expect_balanced(serial, "leak");
}
