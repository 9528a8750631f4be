/* C23: byte order conversions. */
#include "vh.h"
#include <libcork/core.h>
typedef unsigned __int128 W;
static unsigned char be[16], le[16];
static void bytes(W v, int n) { for (int i = 0; i < n; i++) { be[n - 1 - i] = (unsigned char) (v >> 8 * i); le[i] = (unsigned char) (v >> 8 * i); } }
static W from_be(const unsigned char *p, int n) { W v = 0; for (int i = 0; i < n; i++) v = v << 8 | p[i]; return v; }
static uint64_t q;
#define CHECKS(T, B, v) do { \
    const T x = (v); T y, z; W rev; int n = B / 8; bytes(x, n); rev = from_be(le, n); \
    y = CORK_SWAP_UINT##B(x); VH_CHECK(y == (T) rev, "swap" #B, "swapping %llx gave %llx", (long long) x, (long long) y); \
    { W wide = (W) CORK_SWAP_UINT##B(x); VH_CHECK(wide == rev, "wide" #B, "swapping %llx in a wider expression gave %llx", (long long) x, (long long) wide); \
      wide = (W) CORK_UINT##B##_HOST_TO_BIG(x); VH_CHECK(wide == (W) (T) wide, "wide" #B, "converting %llx in a wider expression gave %llx", (long long) x, (long long) wide); } \
    VH_CHECK((T) CORK_SWAP_UINT##B(y) == x, "swap" #B, "swapping %llx twice", (long long) x); \
    y = CORK_UINT##B##_HOST_TO_BIG(x); VH_CHECK(!memcmp(&y, be, n), "big" #B, "%llx to big-endian gave %s", (long long) x, vh_hex(&y, n)); \
    z = CORK_UINT##B##_BIG_TO_HOST(y); VH_CHECK(z == x, "big" #B, "%llx to big-endian and back gave %llx", (long long) x, (long long) z); \
    z = y; CORK_UINT##B##_BIG_TO_HOST_IN_PLACE(z); VH_CHECK(z == x, "big" #B, "in place from big-endian %llx", (long long) x); \
    z = x; CORK_UINT##B##_HOST_TO_BIG_IN_PLACE(z); VH_CHECK(z == y, "big" #B, "in place to big-endian %llx", (long long) x); \
    y = CORK_UINT##B##_HOST_TO_LITTLE(x); VH_CHECK(!memcmp(&y, le, n), "little" #B, "%llx to little-endian gave %s", (long long) x, vh_hex(&y, n)); \
    z = CORK_UINT##B##_LITTLE_TO_HOST(y); VH_CHECK(z == x, "little" #B, "%llx to little-endian and back gave %llx", (long long) x, (long long) z); \
    z = y; CORK_UINT##B##_LITTLE_TO_HOST_IN_PLACE(z); VH_CHECK(z == x, "little" #B, "in place from little-endian %llx", (long long) x); \
    z = x; CORK_UINT##B##_HOST_TO_LITTLE_IN_PLACE(z); VH_CHECK(z == y, "little" #B, "in place to little-endian %llx", (long long) x); \
    z = x; CORK_SWAP_IN_PLACE_UINT##B(z); VH_CHECK(z == (T) rev, "swap" #B, "swapping %llx in place", (long long) x); \
    q++; \
} while (0)
/* any arbitrary expression may be given */
#define EXPR(T, B, X, e) do { T want = (T) (e), y, z; int n = B / 8; bytes(want, n); W rev = from_be(le, n); \
    y = CORK_SWAP_UINT##B(e); VH_CHECK(y == (T) rev, "expression" #B, "CORK_SWAP_UINT" #B "(" #e ") gave %llx, expected %llx", (long long) y, (long long) rev); \
    { W wide = (W) CORK_SWAP_UINT##B(e); VH_CHECK(wide == rev, "wide" #B, "CORK_SWAP_UINT" #B "(" #e ") in a wider expression gave %llx", (long long) wide); } \
    y = CORK_UINT##B##_HOST_TO_BIG(e); VH_CHECK(!memcmp(&y, be, n), "expression" #B, "CORK_UINT" #B "_HOST_TO_BIG(" #e ") gave %s", vh_hex(&y, n)); \
    z = CORK_UINT##B##_BIG_TO_HOST(e); VH_CHECK(z == y, "expression" #B, "CORK_UINT" #B "_BIG_TO_HOST(" #e ")"); \
    y = CORK_UINT##B##_HOST_TO_LITTLE(e); VH_CHECK(!memcmp(&y, le, n), "expression" #B, "CORK_UINT" #B "_HOST_TO_LITTLE(" #e ") gave %s", vh_hex(&y, n)); \
    z = CORK_UINT##B##_LITTLE_TO_HOST(e); VH_CHECK(z == y, "expression" #B, "CORK_UINT" #B "_LITTLE_TO_HOST(" #e ")"); \
    q++; } while (0)
#define EXPRS(T, B) do { \
    EXPR(T, B, X, a + b); EXPR(T, B, X, a - b); EXPR(T, B, X, a ^ b); EXPR(T, B, X, a | b); EXPR(T, B, X, a & b); EXPR(T, B, X, c ? a : b); EXPR(T, B, X, a >> s); \
    EXPR(T, B, X, a << s); EXPR(T, B, X, u / (v | 1)); EXPR(T, B, X, u % (v | 1)); EXPR(T, B, X, u * v); EXPR(T, B, X, ~u); EXPR(T, B, X, u + v); EXPR(T, B, X, u >> (s & 31)); EXPR(T, B, X, -(int64_t) u); \
    EXPR(T, B, X, a >= b ? u : v); EXPR(T, B, X, arr[c]); EXPR(T, B, X, *(arr + 1)); EXPR(T, B, X, w); EXPR(T, B, X, (uint16_t) u + (uint16_t) v); } while (0)
static cork_u128 mk(W w) { return cork_u128_from_64((uint64_t) (w >> 64), (uint64_t) w); }
static W un(cork_u128 v) { return (W) cork_u128_be64(v, 0) << 64 | cork_u128_be64(v, 1); }
/* the macros do not care what the caller's variables are called */
#define NAMED(n) do { uint16_t a##n = (uint16_t) x, w16; uint32_t b##n = (uint32_t) x, w32; uint64_t c##n = x, w64; \
    { uint16_t n = a##n; CORK_SWAP_IN_PLACE_UINT16(n); w16 = n; VH_CHECK(n == (uint16_t) (a##n >> 8 | a##n << 8), "names", "a variable called " #n " swapped in place"); CORK_UINT16_HOST_TO_BIG_IN_PLACE(n); VH_CHECK(n == CORK_UINT16_HOST_TO_BIG(w16) && CORK_SWAP_UINT16(n) == (uint16_t) (n >> 8 | n << 8), "names", "a variable called " #n); } \
    { uint32_t n = b##n; CORK_SWAP_IN_PLACE_UINT32(n); w32 = n; VH_CHECK(n == __builtin_bswap32(b##n), "names", "a variable called " #n " swapped in place"); CORK_UINT32_HOST_TO_BIG_IN_PLACE(n); VH_CHECK(n == CORK_UINT32_HOST_TO_BIG(w32) && CORK_SWAP_UINT32(n) == __builtin_bswap32(n), "names", "a variable called " #n); } \
    { uint64_t n = c##n; CORK_SWAP_IN_PLACE_UINT64(n); w64 = n; VH_CHECK(n == __builtin_bswap64(c##n), "names", "a variable called " #n " swapped in place"); CORK_UINT64_HOST_TO_BIG_IN_PLACE(n); VH_CHECK(n == CORK_UINT64_HOST_TO_BIG(w64) && CORK_SWAP_UINT64(n) == __builtin_bswap64(n), "names", "a variable called " #n); } } while (0);
static void names(uint64_t x)
{
    NAMED(tmp) NAMED(temp) NAMED(t) NAMED(value) NAMED(val) NAMED(v) NAMED(result) NAMED(res) NAMED(r) NAMED(ret) NAMED(swapped) NAMED(swap) NAMED(u) NAMED(u16) NAMED(u32) NAMED(u64) NAMED(n) NAMED(i) NAMED(src) NAMED(dest) NAMED(in) NAMED(out) NAMED(orig) NAMED(old) NAMED(p) NAMED(ptr) NAMED(bytes) NAMED(b) NAMED(hi) NAMED(lo) NAMED(_v) NAMED(_x) NAMED(_tmp)
    vh_count("names of variables", 33);
}
void vh_case(struct vh_rng *r, uint64_t index)
{
    names(vh_interesting64(r));
    q = 0;
    if (index < 16) { for (unsigned i = 0; i < 4096; i++) CHECKS(uint16_t, 16, index * 4096 + i); vh_count("16-bit values (of 65536)", 4096); }
    for (int k = 0; k < 200; k++) {
        uint64_t a = vh_interesting64(r), b = vh_interesting64(r), arr[2] = { a, b }; uint32_t u = (uint32_t) a, v = (uint32_t) b; int32_t w = (int32_t) vh_u64(r); bool c = vh_chance(r, 1, 2); unsigned s = vh_below(r, 64);
        CHECKS(uint16_t, 16, a); CHECKS(uint32_t, 32, a); CHECKS(uint64_t, 64, a);
        EXPRS(uint16_t, 16); EXPRS(uint32_t, 32); EXPRS(uint64_t, 64);
        W W1 = (W) a << 64 | b; cork_u128 x = mk(W1), y, z; bytes(W1, 16); W rev = from_be(le, 16);
        y = CORK_SWAP_UINT128(x); VH_CHECK(un(y) == rev, "swap128", "swapping %s", vh_hex(be, 16)); y = CORK_SWAP_UINT128(y); VH_CHECK(un(y) == W1, "swap128", "swapping %s twice", vh_hex(be, 16));
        z = x; CORK_SWAP_IN_PLACE_UINT128(z); VH_CHECK(un(z) == rev, "swap128", "swapping %s in place", vh_hex(be, 16));
#define S128(kind, buf) y = CORK_UINT128_HOST_TO_##kind(x); VH_CHECK(!memcmp(&y, buf, 16), #kind "128", "%s converted to " #kind " is %s", vh_hex(be, 16), vh_hex(&y, 16)); \
        z = CORK_UINT128_##kind##_TO_HOST(y); VH_CHECK(un(z) == W1, #kind "128", "%s to " #kind " and back", vh_hex(be, 16)); \
        z = y; CORK_UINT128_##kind##_TO_HOST_IN_PLACE(z); VH_CHECK(un(z) == W1, #kind "128", "%s from " #kind " in place", vh_hex(be, 16)); \
        z = x; CORK_UINT128_HOST_TO_##kind##_IN_PLACE(z); VH_CHECK(!memcmp(&z, buf, 16), #kind "128", "%s to " #kind " in place", vh_hex(be, 16));
        S128(BIG, be) S128(LITTLE, le)
        VH_CHECK(un(x) == W1, "operand", "an operand changed");
        y = CORK_SWAP_UINT128(cork_u128_add(x, mk(1))); bytes(W1 + 1, 16); VH_CHECK(un(y) == from_be(le, 16), "swap128", "swapping a sum");
        vh_sig(a); vh_sig(b);
    }
#if CORK_HOST_ENDIANNESS == CORK_LITTLE_ENDIAN
    uint16_t one = 1; VH_CHECK(*(unsigned char *) &one == 1 && !strcmp(CORK_HOST_ENDIANNESS_NAME, "little") && CORK_OTHER_ENDIANNESS == CORK_BIG_ENDIAN, "endianness", "host endianness is wrong");
#else
    uint16_t one = 1; VH_CHECK(*(unsigned char *) &one == 0 && !strcmp(CORK_HOST_ENDIANNESS_NAME, "big") && CORK_OTHER_ENDIANNESS == CORK_LITTLE_ENDIAN, "endianness", "host endianness is wrong");
#endif
    vh_evals(q * 5); vh_count(CONFIG_NAME " values and expressions converted", q); vh_nontrivial();
    if (vh_want_sample()) vh_sample("%" PRIu64 " values and expressions converted", q);
}
