/* C20: 128-bit arithmetic, comparison, pieces; the oracle is the compiler's __int128. */
#include "vh.h"
#include <libcork/core.h>
typedef unsigned __int128 W;
static W operand(struct vh_rng *r, W other)
{
    switch (vh_below(r, 14)) {
    case 0: return vh_below(r, 1000);
    case 1: return ~(W) vh_below(r, 1000);
    case 2: return (W) 1 << vh_below(r, 128);
    case 3: return ((W) 1 << vh_below(r, 128)) - 1;
    case 4: return (W) vh_interesting64(r) << 64 | vh_interesting64(r);
    case 5: return other;
    case 6: return other + vh_below(r, 3) - 1;
    case 7: return -other;                              /* sums to zero */
    case 8: return (other & ((W) ~UINT64_C(0) << 64)) | vh_interesting64(r);    /* same high half */
    case 9: return (other & ~UINT64_C(0)) | (W) vh_interesting64(r) << 64;      /* same low half */
    case 10: return (W) ~UINT64_C(0) - (other & ~UINT64_C(0)) + vh_below(r, 2) + ((W) vh_u64(r) << 64);   /* carry boundary */
    case 11: return other >> 64 | other << 64;
    default: return (W) vh_u64(r) << 64 | vh_u64(r);
    }
}
static cork_u128 mk(W w) { return cork_u128_from_64((uint64_t) (w >> 64), (uint64_t) w); }
static W un(cork_u128 v) { return (W) cork_u128_be64(v, 0) << 64 | cork_u128_be64(v, 1); }
#define S(w) vh_fmt("%016" PRIx64 "%016" PRIx64, (uint64_t) ((w) >> 64), (uint64_t) (w))
void vh_case(struct vh_rng *r, uint64_t index)
{
    W last = vh_u64(r);
    for (int k = 0; k < 400; k++) {
        W a = operand(r, last), b = operand(r, a); last = b;
        cork_u128 x = mk(a), y = mk(b); W g;
        VH_CHECK(un(x) == a, "pieces", "from_64 of %s reads back %s", S(a), S(un(x)));
        VH_CHECK((g = un(cork_u128_add(x, y))) == (W) (a + b), "add", "%s + %s gave %s", S(a), S(b), S(g));
        VH_CHECK((g = un(cork_u128_sub(x, y))) == (W) (a - b), "sub", "%s - %s gave %s", S(a), S(b), S(g));
#define C(op, f) VH_CHECK(f(x, y) == (a op b), #f, #f " of %s and %s is %d", S(a), S(b), f(x, y))
        C(==, cork_u128_eq); C(!=, cork_u128_ne); C(<, cork_u128_lt); C(<=, cork_u128_le); C(>, cork_u128_gt); C(>=, cork_u128_ge);
        unsigned sh = vh_below(r, 128);
        VH_CHECK((g = un(cork_u128_shl(x, sh))) == (W) (a << sh), "shl", "%s << %u gave %s", S(a), sh, S(g));
        VH_CHECK((g = un(cork_u128_shr(x, sh))) == a >> sh, "shr", "%s >> %u gave %s", S(a), sh, S(g));
        VH_CHECK((g = un(cork_u128_from_32((uint32_t) (a >> 96), (uint32_t) (a >> 64), (uint32_t) (a >> 32), (uint32_t) a))) == a, "from32", "from_32 of %s gave %s", S(a), S(g));
        for (int i = 0; i < 16; i++) VH_CHECK(cork_u128_be8(x, i) == (uint8_t) (a >> (120 - 8 * i)), "be8", "byte %d of %s is %02x", i, S(a), cork_u128_be8(x, i));
        for (int i = 0; i < 8; i++) VH_CHECK(cork_u128_be16(x, i) == (uint16_t) (a >> (112 - 16 * i)), "be16", "16-bit piece %d of %s is %04x", i, S(a), cork_u128_be16(x, i));
        for (int i = 0; i < 4; i++) VH_CHECK(cork_u128_be32(x, i) == (uint32_t) (a >> (96 - 32 * i)), "be32", "32-bit piece %d of %s is %08x", i, S(a), cork_u128_be32(x, i));
        /* the index and the value may be any expression */
        for (int i = 1; i <= 16; i++) {
            bool odd = i & 1;
            VH_CHECK(cork_u128_be8(x, i - 1) == (uint8_t) (a >> (120 - 8 * (i - 1))) && cork_u128_be8(y, 16 - i) == (uint8_t) (b >> (120 - 8 * (16 - i))) && cork_u128_be8(odd ? x : y, odd ? 15 : 0) == (uint8_t) (odd ? a : b >> 120) && cork_u128_be8(x, i & 15) == (uint8_t) (a >> (120 - 8 * (i & 15))), "be8", "bytes of %s at index expressions", S(a));
            if (i <= 8) VH_CHECK(cork_u128_be16(x, i - 1) == (uint16_t) (a >> (112 - 16 * (i - 1))) && cork_u128_be16(y, 8 - i) == (uint16_t) (b >> (112 - 16 * (8 - i))) && cork_u128_be16(odd ? x : y, odd ? 7 : 0) == (uint16_t) (odd ? a : b >> 112) && cork_u128_be16(x, i & 7) == (uint16_t) (a >> (112 - 16 * (i & 7))), "be16", "16-bit pieces of %s at index expressions", S(a));
            if (i <= 4) VH_CHECK(cork_u128_be32(x, i - 1) == (uint32_t) (a >> (96 - 32 * (i - 1))) && cork_u128_be32(y, 4 - i) == (uint32_t) (b >> (96 - 32 * (4 - i))) && cork_u128_be32(odd ? x : y, odd ? 3 : 0) == (uint32_t) (odd ? a : b >> 96) && cork_u128_be32(x, i & 3) == (uint32_t) (a >> (96 - 32 * (i & 3))), "be32", "32-bit pieces of %s at index expressions", S(a));
            if (i <= 2) VH_CHECK(cork_u128_be64(x, i - 1) == (uint64_t) (a >> (64 - 64 * (i - 1))) && cork_u128_be64(y, 2 - i) == (uint64_t) (b >> (64 - 64 * (2 - i))) && cork_u128_be64(odd ? x : y, odd ? 1 : 0) == (uint64_t) (odd ? a : b >> 64) && cork_u128_be64(x, i & 1) == (uint64_t) (a >> (64 - 64 * (i & 1))), "be64", "64-bit pieces of %s at index expressions", S(a));
        }
        int ix = 0;
        VH_CHECK(cork_u128_be64(x, ix + 1) == (uint64_t) a && cork_u128_be64(x, ix) == (uint64_t) (a >> 64), "be64", "64-bit pieces of %s", S(a));
        VH_CHECK(un(x) == a && un(y) == b, "operands", "an operand changed");
        vh_sig((uint64_t) a * 31 + (uint64_t) (b >> 64));
    }
    VH_CHECK(un(cork_u128_zero()) == 0, "zero", "zero is not zero");
    vh_evals(400 * 40); vh_count(CONFIG_NAME " operand pairs", 400); vh_nontrivial();
    if (vh_want_sample()) vh_sample("%s: 400 operand pairs, the last %s", CONFIG_NAME, S(last));
}
