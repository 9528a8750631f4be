/* C21: 128-bit integers print exactly, inside the documented buffer. */
#include "vh.h"
#include <libcork/core.h>
typedef unsigned __int128 W;
static W value(struct vh_rng *r)
{
    W p10 = 1; 
    switch (vh_below(r, 10)) {
    case 0: return vh_below(r, 1000);
    case 1: return ~(W) vh_below(r, 1000);
    case 2: return ((W) 1 << vh_below(r, 128)) - vh_below(r, 2);
    case 3: for (int i = vh_below(r, 39); i > 0; i--) p10 *= 10; return p10 - vh_below(r, 2);
    case 4: for (int i = vh_below(r, 38); i > 0; i--) p10 *= 10; return p10 * (1 + vh_below(r, 9)) + vh_below(r, 3) - 1;
    case 5: for (int i = vh_below(r, 36); i > 0; i--) p10 *= 10; return p10 * vh_below(r, 1000) ;
    case 6: return (W) vh_interesting64(r) << 64 | vh_interesting64(r);
    case 7: return (W) (vh_u64(r) >> vh_below(r, 64)) << 64 | (vh_chance(r, 1, 3) ? 0 : vh_u64(r) >> vh_below(r, 64));
    default: return ((W) vh_u64(r) << 64 | vh_u64(r)) >> vh_below(r, 128);
    }
}
static const char *ref(W v, unsigned base, int pad) { static char b[64]; char *p = b + 63; *p = 0; int n = 0; while (v || n < (pad ? pad : 1)) { *--p = "0123456789abcdef"[v % base]; v /= base; n++; } return p; }
#define NAME(k) ((k) == 0 ? "decimal" : (k) == 1 ? "hexadecimal" : "padded hexadecimal")
void vh_case(struct vh_rng *r, uint64_t index)
{
    for (int k = 0; k < 60; k++) {
        W v = value(r); vh_sig((uint64_t) v ^ (uint64_t) (v >> 64) * 31);
        cork_u128 u = cork_u128_from_64((uint64_t) (v >> 64), (uint64_t) v);
        for (int how = 0; how < 3; how++) {
            size_t n = how == 0 ? CORK_U128_DECIMAL_LENGTH : CORK_U128_HEX_LENGTH;
            unsigned char fill = vh_u64(r), *mem = malloc(n + 64); memset(mem, fill, n + 64);
            char *exact = malloc(n); memset(exact, fill, n);        /* red zones right behind */
            char *b[2] = { (char *) mem + 32, exact };
            for (int j = 0; j < 2; j++) {
                const char *s = how == 0 ? cork_u128_to_decimal(b[j], u) : how == 1 ? cork_u128_to_hex(b[j], u) : cork_u128_to_padded_hex(b[j], u);
                const char *want = ref(v, how == 0 ? 10 : 16, how == 2 ? 32 : 0);
                VH_CHECK(s >= b[j] && s < b[j] + n, "inside", "%s text lies outside the buffer", NAME(how));
                VH_CHECK(memchr(s, 0, b[j] + n - s), "nul", "%s text is not terminated inside the buffer", NAME(how));
                VH_CHECK(!strcmp(s, want), how == 0 ? "decimal" : how == 1 ? "hex" : "padded", "%s of %s is '%s'", NAME(how), ref(v, 16, 0), s);
            }
            for (int j = 0; j < 32; j++) VH_CHECK(mem[j] == fill && mem[32 + n + j] == fill, "guard", "%s rendering wrote outside its buffer", NAME(how));
            free(mem); free(exact);
        }
    }
    vh_evals(60 * 3); vh_count("values printed", 60); vh_nontrivial();
    if (vh_want_sample()) vh_sample("60 values in three renderings");
}
