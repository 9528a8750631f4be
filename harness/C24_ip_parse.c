/* C24: IP address parsing against a parser written from the grammar (and inet_pton). */
#include "vh.h"
#include <libcork/core.h>
#include <arpa/inet.h>

/* 1 accepted, 0 rejected, 2 either (unusual leading zeroes inside an IPv6 address) */
static int ref4(const char *s, size_t n, unsigned char *out, bool *zeroes)
{
    size_t i = 0;
    for (int o = 0; o < 4; o++) {
        size_t st = i; unsigned v = 0;
        while (i < n && s[i] >= '0' && s[i] <= '9') { v = v * 10 + (s[i] - '0'); if (v > 255) return 0; i++; }
        if (i == st) return 0;
        if (i - st > 1 && s[st] == '0') *zeroes = true;
        out[o] = (unsigned char) v;
        if (o < 3) { if (i >= n || s[i] != '.') return 0; i++; }
    }
    return i == n;
}
/* groups between single colons; -1 if malformed; an empty range has none */
static int groups(const char *s, size_t n, bool last, unsigned char *out, bool *either)
{
    int g = 0; size_t i = 0;
    if (n == 0) return 0;
    for (;;) {
        size_t e = i; while (e < n && s[e] != ':') e++;
        if (e == i || g >= 9) return -1;
        if (e == n && last && memchr(s + i, '.', n - i)) {
            bool z = false; size_t d = 0; unsigned char q[4];
            while (i + d < n && s[i + d] != '.') d++;
            if (!ref4(s + i, n - i, q, &z)) return -1;
            if (z) *either = d > 4;     /* a first number of more than four digits */
            memcpy(out + 2 * g, q, 4); return g + 2;
        }
        if (e - i > 4) return -1;
        unsigned v = 0;
        for (size_t k = i; k < e; k++) {
            int c = s[k], d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;
            if (d < 0) return -1;
            v = v * 16 + d;
        }
        out[2 * g] = v >> 8; out[2 * g + 1] = v & 255; g++;
        if (e == n) return g;
        i = e + 1;
    }
}
static int ref6(const char *s, size_t n, unsigned char *out)
{
    unsigned char a[40], b[40]; bool either = false; int x, y = 0;
    const char *dc = n >= 2 ? memmem(s, n, "::", 2) : NULL;
    memset(out, 0, 16);
    if (!dc) { x = groups(s, n, true, a, &either); if (x != 8) return 0; memcpy(out, a, 16); return either ? 2 : 1; }
    x = groups(s, dc - s, false, a, &either);
    y = groups(dc + 2, n - (dc + 2 - s), true, b, &either);
    if (x < 0 || y < 0 || x + y > 7) return 0;
    memcpy(out, a, 2 * x); memcpy(out + 16 - 2 * y, b, 2 * y);
    return either ? 2 : 1;
}
static void gen4(struct vh_rng *r, struct vstr *t)
{
    int n = vh_chance(r, 9, 10) ? 4 : (int) vh_below(r, 7);
    for (int i = 0; i < n; i++) {
        if (i) vstr_addc(t, '.');
        if (vh_chance(r, 1, 30)) continue;
        for (int z = vh_chance(r, 1, 8) ? vh_below(r, vh_chance(r, 1, 9) ? 300 : 5) : 0; z > 0; z--) vstr_addc(t, '0');
        vstr_addf(t, "%u", (unsigned) (vh_chance(r, 1, 30) ? vh_below(r, 3000) : vh_chance(r, 1, 4) ? 250 + vh_below(r, 8 - 2 * vh_chance(r, 5, 6)) : vh_below(r, 256)));
    }
    if (vh_chance(r, 1, 40)) vstr_addc(t, '.');
}
static void hextets(struct vh_rng *r, struct vstr *t, int n, bool lead)
{
    for (int i = 0; i < n; i++) {
        if (i || lead) vstr_addc(t, ':');
        unsigned v = vh_chance(r, 1, 3) ? 0 : vh_below(r, vh_chance(r, 1, 2) ? 0x10000 : 0x100);
        const char *f[] = { "%x", "%X", "%04x", "%03x", "%02X" };
        vstr_addf(t, f[vh_chance(r, 2, 3) ? 0 : vh_below(r, 5)], v);
        if (vh_chance(r, 1, 60)) vstr_addc(t, "0aFg "[vh_below(r, 5)]);
    }
}
static void gen6(struct vh_rng *r, struct vstr *t)
{
    bool dc = vh_chance(r, 2, 3), quad = vh_chance(r, 1, 3);
    int total = 8 - 2 * quad, x, y = 0;
    if (vh_chance(r, 1, 8)) total += (int) vh_below(r, 5) - 2;
    if (total < 0) total = 0;
    if (!dc) x = total; else { int both = vh_chance(r, 1, 6) ? total : (int) vh_below(r, total + 1); x = vh_below(r, both + 1); y = both - x; }
    hextets(r, t, x, false);
    if (dc) vstr_adds(t, "::");
    hextets(r, t, y, false);
    if (quad) { if (t->n && t->p[t->n - 1] != ':') vstr_addc(t, ':'); gen4(r, t); }
    if (dc && vh_chance(r, 1, 25)) { vstr_adds(t, "::"); hextets(r, t, vh_below(r, 3), false); }
}
static void edit(struct vh_rng *r, struct vstr *t)
{
    static const char alpha[] = "0123456789abcdefABCDEF..::::gG -+x/%\n\t\x01\x80\xff,;";
    size_t k = vh_below(r, t->n + 1); unsigned char *p = t->p, c = alpha[vh_below(r, sizeof alpha - 1)];
    switch (vh_below(r, 4)) {
    case 0: vstr_addc(t, 0); p = t->p; memmove(p + k + 1, p + k, t->n - 1 - k); p[k] = c; break;
    case 1: if (k < t->n) { memmove(p + k, p + k + 1, t->n - k - 1); t->n--; } break;
    case 2: if (k < t->n) p[k] = c; break;
    case 3: if (k < t->n) { vstr_addc(t, 0); p = t->p; memmove(p + k + 1, p + k, t->n - 1 - k); } break;   /* double a character */
    }
}
static bool parse_error(void) { bool e = cork_error_occurred() && cork_error_code() == CORK_PARSE_ERROR && cork_error_message() && *cork_error_message(); cork_error_clear(); return e; }
void vh_setup(void)
{
    vh_alloc_install(); VH_WARM_ERRORS();
    for (int i = 0; i < 3; i++) { cork_error_set_printf(1, "%3000s", "x"); cork_error_prefix_string("y"); }
    cork_error_clear();
}
void vh_case(struct vh_rng *r, uint64_t index)
{
    struct vstr t; vstr_init(&t); uint64_t serial = vh_alloc_serial(); bool big = false;
    for (int k = 0; k < 20; k++) {
        t.n = 0;
        switch (vh_below(r, 12)) {
        case 0: case 1: case 2: case 3: gen4(r, &t); break;
        case 4: { static const char a[] = "0123456789abcdefABCDEF::..:"; for (size_t n = vh_below(r, 24); n; n--) vstr_addc(&t, a[vh_below(r, sizeof a - 1)]); break; }
        case 5: { static const char a[] = "01:."; for (size_t n = vh_below(r, 18); n; n--) vstr_addc(&t, a[vh_below(r, 4)]); break; }
        case 6: if (vh_chance(r, 1, 10)) { size_t n = 1 + vh_below(r, 20000); const char *w = ((const char *[]) { "0", "1", ":", ".", "0:", "1.", "::", "ab" })[vh_below(r, 8)]; while (t.n < n) vstr_adds(&t, w); big = true; if (vh_chance(r, 1, 2)) gen6(r, &t); break; }
            /* fall through */
        default: gen6(r, &t); break;
        }
        for (int e = vh_chance(r, 1, 3) ? 1 + (int) vh_below(r, 3) : 0; e > 0; e--) edit(r, &t);
        for (size_t i = 0; i < t.n; i++) if (!t.p[i]) t.p[i] = '0';
        /* a block of exactly its size, freed afterwards: anything kept or read beyond shows */
        char *s = malloc(t.n + 1); memcpy(s, t.p, t.n); s[t.n] = 0;
        unsigned char b4[4], b6[16], n4[4], n6[16]; bool z = false;
        int w4 = ref4(s, t.n, b4, &z), w6 = ref6(s, t.n, b6);
        if (inet_pton(AF_INET, s, n4) == 1 && (w4 != 1 || memcmp(n4, b4, 4))) vh_broken("IPv4 reference disagrees with inet_pton on %s", s);
        if (!z && w4 == 1 && inet_pton(AF_INET, s, n4) != 1) vh_broken("IPv4 reference accepts %s", s);
        if (inet_pton(AF_INET6, s, n6) == 1 && (w6 == 0 || memcmp(n6, b6, 16))) vh_broken("IPv6 reference disagrees with inet_pton on %s", s);
        vh_trace("\"%.200s\" (%zu): IPv4 %d IPv6 %d", s, t.n, w4, w6);
        struct cork_ipv4 *a4 = malloc(sizeof *a4), o4; struct cork_ipv6 *a6 = malloc(sizeof *a6), o6; struct cork_ip *a = malloc(sizeof *a), o;
        memset(a4, 0x5a, sizeof *a4); o4 = *a4; memset(a6, 0x5a, sizeof *a6); o6 = *a6; memset(a, 0x5a, sizeof *a); a->version = vh_chance(r, 1, 2) ? 4 : 6; memcpy(&o, a, sizeof o);
        int rc = cork_ipv4_init(a4, s); bool err = cork_error_occurred();
        if (rc == 0) { VH_CHECK(!err, "v4-error", "accepting \"%.100s\" set an error", s); VH_CHECK(w4, "v4-accepts", "accepted as IPv4: \"%.100s\"", s); VH_CHECK(!memcmp(a4, b4, 4), "v4-value", "\"%.100s\" parsed as %s", s, vh_hex(a4, 4)); vh_count("IPv4 accepted", 1); }
        else { VH_CHECK(!w4, "v4-rejects", "rejected as IPv4: \"%.100s\"", s); VH_CHECK(rc == -1 && parse_error(), "v4-error", "rejecting \"%.100s\" gave %d, no parse error", s, rc); VH_CHECK(!memcmp(a4, &o4, sizeof o4), "v4-dest", "rejecting \"%.100s\" changed the destination", s); vh_count("IPv4 rejected", 1); }
        rc = cork_ipv6_init(a6, s); err = cork_error_occurred(); bool acc6 = rc == 0;
        if (acc6) { VH_CHECK(!err, "v6-error", "accepting \"%.100s\" set an error", s); VH_CHECK(w6, "v6-accepts", "accepted as IPv6: \"%.100s\"", s); VH_CHECK(!memcmp(a6, b6, 16), "v6-value", "\"%.100s\" parsed as %s", s, vh_hex(a6, 16)); vh_count("IPv6 accepted", 1); vh_count("IPv6 with embedded quad", strchr(s, '.') != NULL); }
        else { VH_CHECK(w6 != 1, "v6-rejects", "rejected as IPv6: \"%.100s\"", s); VH_CHECK(rc == -1 && parse_error(), "v6-error", "rejecting \"%.100s\" gave %d, no parse error", s, rc); VH_CHECK(!memcmp(a6, &o6, sizeof o6), "v6-dest", "rejecting \"%.100s\" changed the destination", s); vh_count("IPv6 rejected", 1); }
        rc = cork_ip_init(a, s); err = cork_error_occurred();
        if (rc == 0) {
            VH_CHECK(!err, "ip-error", "accepting \"%.100s\" left an error", s); VH_CHECK(w4 || acc6, "ip-accepts", "accepted as an address: \"%.100s\"", s);
            VH_CHECK(a->version == (w4 ? 4u : 6u), "ip-version", "\"%.100s\" parsed as version %u", s, a->version);
            VH_CHECK(w4 ? !memcmp(&a->ip.v4, b4, 4) : !memcmp(&a->ip.v6, b6, 16), "ip-value", "\"%.100s\" parsed as %s", s, vh_hex(&a->ip, 16)); vh_count("generic accepted", 1);
        } else { VH_CHECK(!w4 && !acc6, "ip-rejects", "rejected as an address: \"%.100s\"", s); VH_CHECK(rc == -1 && parse_error(), "ip-error", "rejecting \"%.100s\" gave %d, no parse error", s, rc); VH_CHECK(!memcmp(a, &o, sizeof o), "ip-dest", "rejecting \"%.100s\" changed the destination", s); vh_count("generic rejected", 1); }
        VH_CHECK(strlen(s) == t.n && !memcmp(s, t.p, t.n), "string", "the string changed");
        if (w4 || w6) vh_nontrivial();
        vh_sig_bytes(s, t.n);
        if (vh_want_sample()) vh_sample("\"%.60s\": IPv4 %d, IPv6 %d", s, w4, w6);
        free(a4); free(a6); free(a); free(s); vh_evals(9);
    }
    if (!big) vh_alloc_expect_balanced(serial, "leak");
    vstr_done(&t);
}
