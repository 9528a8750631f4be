/* C25: IP addresses print canonically and round-trip; CIDR checks. */
#include "vh.h"
#include <libcork/core.h>
#include <arpa/inet.h>
static int plen(const char *what, const char *s, size_t cap) { size_t n = strnlen(s, cap); VH_CHECK(n < cap, what, "no terminator within %zu bytes", cap); return (int) n; }
static bool bits_zero(const unsigned char *p, int n, unsigned prefix)
{ if (prefix > 8u * n) return false; for (unsigned i = prefix; i < 8u * n; i++) if (p[i / 8] >> (7 - i % 8) & 1) return false; return true; }
static void canon6(const unsigned char *p, char *out)
{
    int w[8], best = -1, blen = 1; for (int i = 0; i < 8; i++) w[i] = p[2 * i] << 8 | p[2 * i + 1];
    for (int i = 0; i < 8; ) { int j = i; while (j < 8 && !w[j]) j++; if (j - i > blen) { best = i; blen = j - i; } i = j + 1; }
    char *q = out; bool quad = best == 0 && (blen == 6 || (blen == 5 && w[5] == 0xffff)); int end = quad ? 6 : 8; bool sep = false;
    for (int i = 0; i < end; ) { if (i == best) { q += sprintf(q, "::"); i += blen; sep = false; continue; } q += sprintf(q, "%s%x", sep ? ":" : "", w[i]); sep = true; i++; }
    if (quad) sprintf(q, "%s%d.%d.%d.%d", sep ? ":" : "", p[12], p[13], p[14], p[15]);
}
static void gen(struct vh_rng *r, unsigned char *p, int n)
{
    switch (vh_below(r, 6)) {
    case 0: for (int i = 0; i < n; i++) p[i] = vh_u64(r); break;
    case 1: { uint64_t m = vh_u64(r); for (int i = 0; i < n; i += 2) { bool z = m >> i & 1; p[i] = z ? 0 : vh_chance(r, 1, 2) ? vh_u64(r) : 0; p[i + 1] = z ? 0 : vh_u64(r); } break; }
    case 2: { unsigned pre = vh_below(r, 8 * n + 1); for (int i = 0; i < n; i++) p[i] = vh_chance(r, 1, 2) ? vh_u64(r) : 0xff; for (unsigned i = pre; i < 8u * n; i++) p[i / 8] &= ~(0x80 >> i % 8); break; }   /* a network */
    case 3: memset(p, 0, n); { int bit = vh_below(r, 8 * n); p[bit / 8] = 0x80 >> bit % 8; } break;
    case 4: memset(p, 0, n); for (int i = n >= 16 ? 10 : 0; i < n; i++) p[i] = vh_chance(r, 1, 3) ? 0xff : vh_u64(r); if (n >= 16 && vh_chance(r, 1, 2)) p[10] = p[11] = vh_chance(r, 1, 2) ? 0xff : 0; if (n >= 16 && vh_chance(r, 1, 3)) p[12] = p[13] = 0; break;
    default: memset(p, 0, n); for (int i = 0; i < n; i++) if (vh_chance(r, 1, 4)) p[i] = vh_below(r, vh_chance(r, 1, 2) ? 256 : 3); break;
    }
}
void vh_setup(void) { vh_alloc_install(); VH_WARM_ERRORS(); }
void vh_case(struct vh_rng *r, uint64_t index)
{
    for (int k = 0; k < 40; k++) {
        unsigned char q[4], p[16], q2[4], p2[16]; char want4[64], want6[64], ref[64];
        gen(r, q, 4); gen(r, p, 16); memcpy(q2, q, 4); memcpy(p2, p, 16);
        if (index < 256 && k == 0) { memset(p, 0, 16); for (int i = 0; i < 8; i++) if (index >> i & 1) p[2 * i + 1] = 1 + i; memcpy(p2, p, 16); }   /* every pattern of zero groups */
        if (vh_chance(r, 3, 4)) q2[vh_below(r, 4)] ^= 1 << vh_below(r, 8);
        if (vh_chance(r, 3, 4)) p2[vh_below(r, 16)] ^= 1 << vh_below(r, 8);
        sprintf(want4, "%d.%d.%d.%d", q[0], q[1], q[2], q[3]); canon6(p, want6);
        if (!inet_ntop(AF_INET6, p, ref, sizeof ref) || strcmp(ref, want6)) vh_broken("canonical form %s, inet_ntop %s", want6, ref);
        struct cork_ipv4 a, a2, b; struct cork_ipv6 c, c2, d; struct cork_ip g4, g6, h4, h6, e;
        cork_ipv4_copy(&a, q); cork_ipv4_copy(&a2, q2); cork_ipv6_copy(&c, p); cork_ipv6_copy(&c2, p2);
        memset(&g4, 0xa5, sizeof g4); memset(&h4, 0x5a, sizeof h4); memset(&g6, 0xa5, sizeof g6); memset(&h6, 0x5a, sizeof h6);
        cork_ip_from_ipv4(&g4, q); cork_ip_from_ipv6(&g6, p); cork_ip_from_ipv4(&h4, &a2); cork_ip_from_ipv6(&h6, &c2);
        VH_CHECK(!memcmp(&a, q, 4) && !memcmp(&c, p, 16), "copy", "copying changed the bytes");
        VH_CHECK(g4.version == 4 && !memcmp(&g4.ip.v4, q, 4) && g6.version == 6 && !memcmp(&g6.ip.v6, p, 16), "generic", "the generic forms do not hold version and bytes");
        bool s4 = !memcmp(q, q2, 4), s6 = !memcmp(p, p2, 16);
        VH_CHECK(!!cork_ipv4_equal(&a, &a2) == s4 && !!cork_ipv4_equal_(&a2, &a) == s4, "equal4", "equality of %s and %s", vh_hex(q, 4), vh_hex(q2, 4));
        VH_CHECK(!!cork_ipv6_equal(&c, &c2) == s6 && !!cork_ipv6_equal_(&c2, &c) == s6, "equal6", "equality of %s and %s", vh_hex(p, 16), vh_hex(p2, 16));
        VH_CHECK(!!cork_ip_equal(&g4, &h4) == s4, "equal", "generic equality of %s and %s", vh_hex(q, 4), vh_hex(q2, 4));
        VH_CHECK(!!cork_ip_equal(&g6, &h6) == s6, "equal", "generic equality of %s and %s", vh_hex(p, 16), vh_hex(p2, 16));
        struct cork_ip mix = g6; memcpy(&mix.ip.v4, q, 4); VH_CHECK(!cork_ip_equal(&g4, &mix) && !cork_ip_equal(&mix, &g4), "equal", "addresses of different versions are equal");
        char *o4 = malloc(CORK_IPV4_STRING_LENGTH), *o6 = malloc(CORK_IPV6_STRING_LENGTH), *og = malloc(CORK_IP_STRING_LENGTH);
#define OUT(o, cap, call, want, key) do { memset(o, 'Z', cap); call; plen(key, o, cap); VH_CHECK(!strcmp(o, want), key, "printed \"%s\", expected \"%s\"", o, want); } while (0)
        OUT(o4, CORK_IPV4_STRING_LENGTH, cork_ipv4_to_raw_string(&a, o4), want4, "print4");
        OUT(o6, CORK_IPV6_STRING_LENGTH, cork_ipv6_to_raw_string(&c, o6), want6, "print6");
        OUT(og, CORK_IP_STRING_LENGTH, cork_ip_to_raw_string(&g4, og), want4, "print");
        OUT(og, CORK_IP_STRING_LENGTH, cork_ip_to_raw_string(&g6, og), want6, "print");
        VH_CHECK(!memcmp(&a, q, 4) && !memcmp(&c, p, 16), "changed", "printing changed the address");
        memset(&b, 0xee, sizeof b); memset(&d, 0xee, sizeof d); memset(&e, 0xee, sizeof e);
        VH_CHECK(cork_ipv4_init(&b, o4) == 0 && cork_ipv4_equal(&a, &b), "round-trip", "%s does not read back", o4);
        VH_CHECK(cork_ipv6_init(&d, o6) == 0 && cork_ipv6_equal(&c, &d), "round-trip", "%s does not read back", o6);
        VH_CHECK(cork_ip_init(&e, o4) == 0 && cork_ip_equal(&e, &g4), "round-trip", "%s does not read back", o4);
        VH_CHECK(cork_ip_init(&e, o6) == 0 && cork_ip_equal(&e, &g6), "round-trip", "%s does not read back", o6);
        VH_CHECK(!cork_error_occurred(), "error", "an error was set");
        for (unsigned pre = 0; pre <= 34; pre++) { bool w = bits_zero(q, 4, pre); VH_CHECK(!!cork_ipv4_is_valid_network(&a, pre) == w && !!cork_ip_is_valid_network(&g4, pre) == w, "network4", "%s/%u is %sa network", o4, pre, w ? "" : "not "); if (w) vh_count("networks", 1); else vh_count("not networks", 1); }
        for (unsigned pre = 0; pre <= 130; pre++) { bool w = bits_zero(p, 16, pre); VH_CHECK(!!cork_ipv6_is_valid_network(&c, pre) == w && !!cork_ip_is_valid_network(&g6, pre) == w, "network6", "%s/%u is %sa network", o6, pre, w ? "" : "not "); }
        { unsigned pre = (unsigned) vh_interesting64(r); if (pre > 128) VH_CHECK(!cork_ipv6_is_valid_network(&c, pre) && !cork_ipv4_is_valid_network(&a, pre), "network-range", "prefix %u accepted", pre); }
        free(o4); free(o6); free(og); vh_evals(350); vh_count("addresses", 2); vh_count("addresses with an embedded quad", strchr(want6, '.') != NULL); vh_sig_bytes(p, 16); vh_sig_bytes(q, 4);
        if (vh_want_sample()) vh_sample("%s and %s", want4, want6);
    }
    vh_nontrivial();
}
