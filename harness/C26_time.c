/* C26: timestamps and their fractions; the current time (also under a substituted clock). */
#include "vh.h"
#include <libcork/core.h>
#include <sys/time.h>
#include <time.h>
typedef unsigned __int128 W;
/* a clock of the harness's own behind gettimeofday, clock_gettime and time */
static bool fake; static uint64_t now_ns; static uint64_t tick;
int __real_gettimeofday(struct timeval *tv, void *tz);
int __wrap_gettimeofday(struct timeval *tv, void *tz) { if (!fake) return __real_gettimeofday(tv, tz); tv->tv_sec = now_ns / 1000000000; tv->tv_usec = now_ns % 1000000000 / 1000; now_ns += tick; return 0; }
int __real_clock_gettime(clockid_t c, struct timespec *ts);
int __wrap_clock_gettime(clockid_t c, struct timespec *ts) { if (!fake || c != CLOCK_REALTIME) return __real_clock_gettime(c, ts); ts->tv_sec = now_ns / 1000000000; ts->tv_nsec = now_ns % 1000000000; now_ns += tick; return 0; }
time_t __real_time(time_t *t);
time_t __wrap_time(time_t *t) { if (!fake) return __real_time(t); time_t v = now_ns / 1000000000; now_ns += tick; if (t) *t = v; return v; }
static uint64_t clock_us(void) { struct timeval tv; if (fake) return now_ns / 1000; __real_gettimeofday(&tv, NULL); return (uint64_t) tv.tv_sec * 1000000 + tv.tv_usec; }

static const uint64_t DEN[3] = { 1000, 1000000, 1000000000 };
static const char *const UNIT[3] = { "msec", "usec", "nsec" };
static uint64_t get(int u, cork_timestamp t) { return u == 0 ? cork_timestamp_msec(t) : u == 1 ? cork_timestamp_usec(t) : cork_timestamp_nsec(t); }
static void set(int u, cork_timestamp *t, uint64_t s, uint64_t f) { if (u == 0) cork_timestamp_init_msec(t, s, f); else if (u == 1) cork_timestamp_init_usec(t, s, f); else cork_timestamp_init_nsec(t, s, f); }
static void check_units(cork_timestamp t)
{
    uint32_t g = (uint32_t) t;
    for (int u = 0; u < 3; u++) {
        uint64_t v = get(u, t), d = DEN[u];
        VH_CHECK(v < d, UNIT[u], "%" PRIu64 " %s in a second (fraction %08x)", v, UNIT[u], g);
        /* |v - g*d/2^32| in hundredths of a unit */
        __int128 diff = ((__int128) v << 32) - (__int128) g * d; if (diff < 0) diff = -diff;
        __int128 limit = ((__int128) 6 << 32) / 10;
        if (v == d - 1) limit = (__int128) 1 << 32;        /* nothing larger in range */
        VH_CHECK(diff <= limit, UNIT[u], "fraction %08x read as %" PRIu64 " %s", g, v, UNIT[u]);
    }
}
static uint64_t fraction(struct vh_rng *r, uint64_t d) { switch (vh_below(r, 6)) { case 0: return vh_below(r, d < 50 ? d : 50); case 1: return d - 1 - vh_below(r, 50); case 2: return d / 2 - 25 + vh_below(r, 50); case 3: { uint64_t p = 1; while (p * 10 < d && vh_chance(r, 3, 4)) p *= 10; return p * vh_below(r, 10) % d; } default: return vh_below(r, d); } }
static uint32_t seconds(struct vh_rng *r) { switch (vh_below(r, 5)) { case 0: return vh_below(r, 10); case 1: return ~(uint32_t) vh_below(r, 10); case 2: return 0x7fffffffu + vh_below(r, 3); default: return (uint32_t) vh_u64(r); } }
void vh_setup(void) { vh_alloc_install(); VH_WARM_ERRORS(); }
void vh_case(struct vh_rng *r, uint64_t index)
{
    cork_timestamp prev = 0; uint64_t ps = 0; W pinst = 0; bool have = false; uint64_t n = 0;
    if (index < 10) { for (uint64_t f = index * 100; f < index * 100 + 100; f++) { cork_timestamp t; cork_timestamp_init_msec(&t, 7, f); VH_CHECK(cork_timestamp_msec(t) == f && cork_timestamp_sec(t) == 7, "msec", "%" PRIu64 " ms read back as %" PRIu64, f, cork_timestamp_msec(t)); check_units(t); } vh_count("millisecond values (of 1000)", 100); }
    if (vh_chance(r, 1, 10)) { uint64_t f0 = vh_below(r, 1000) * 1000; for (uint64_t f = f0; f < f0 + 1000; f++) { cork_timestamp t; cork_timestamp_init_usec(&t, 1, f); VH_CHECK(cork_timestamp_usec(t) == f, "usec", "%" PRIu64 " us read back as %" PRIu64, f, cork_timestamp_usec(t)); } vh_count("runs of microsecond values", 1); }
    for (int k = 0; k < 100; k++) {
        uint32_t s = seconds(r); cork_timestamp t = vh_u64(r); W inst;
        int u = vh_below(r, 5);
        if (u < 3) {
            uint64_t f = fraction(r, DEN[u]); set(u, &t, s, f);
            VH_CHECK(cork_timestamp_sec(t) == s, "seconds", "%u s %" PRIu64 " %s has %u s", s, f, UNIT[u], cork_timestamp_sec(t));
            VH_CHECK(get(u, t) == f, UNIT[u], "%" PRIu64 " %s read back as %" PRIu64, f, UNIT[u], get(u, t));
            __int128 diff = (__int128) (uint32_t) t * DEN[u] - ((__int128) f << 32); if (diff < 0) diff = -diff;
            VH_CHECK(diff <= (__int128) DEN[u], "fraction", "%" PRIu64 " %s became the fraction %08x", f, UNIT[u], cork_timestamp_gsec(t));
            inst = (W) s * UINT64_C(1000000000000) + (W) f * (UINT64_C(1000000000000) / DEN[u]);
        } else if (u == 3) {
            uint32_t g = (uint32_t) vh_interesting64(r); cork_timestamp_init_gsec(&t, s, g);
            VH_CHECK(cork_timestamp_sec(t) == s && cork_timestamp_gsec(t) == g, "gsec", "%u s %08x became %u s %08x", s, g, cork_timestamp_sec(t), cork_timestamp_gsec(t));
            inst = (W) s * UINT64_C(1000000000000) + (((W) g * UINT64_C(1000000000000)) >> 32);
        } else {
            cork_timestamp_init_sec(&t, s); VH_CHECK(cork_timestamp_sec(t) == s && cork_timestamp_gsec(t) == 0, "sec", "%u s became %u s %08x", s, cork_timestamp_sec(t), cork_timestamp_gsec(t));
            inst = (W) s * UINT64_C(1000000000000);
        }
        VH_CHECK(cork_timestamp_gsec(t) == (uint32_t) t && cork_timestamp_sec(t) == (uint32_t) (t >> 32), "representation", "a timestamp's halves are not seconds and fraction");
        check_units(t);
        if (have) {     /* instants more than the resolution apart order the same way */
            if (inst > pinst + 1000) VH_CHECK(t > prev, "order", "%016" PRIx64 " and %016" PRIx64, prev, t);
            if (pinst > inst + 1000) VH_CHECK(t < prev, "order", "%016" PRIx64 " and %016" PRIx64, prev, t);
            if (inst == pinst && ps == 0) VH_CHECK(t + 1 >= prev && prev + 1 >= t, "order", "the same instant as %016" PRIx64 " and %016" PRIx64, prev, t);
        }
        prev = t; pinst = inst; have = true; n++; vh_sig(t);
        /* a neighbour of the same instant, built from another unit */
        if (u < 2) { cork_timestamp t2; uint64_t f = get(u, t) * (DEN[u + 1] / DEN[u]); set(u + 1, &t2, s, f); VH_CHECK(t2 == t || t2 + 1 == t || t2 == t + 1, "units-agree", "%" PRIu64 " %s and %" PRIu64 " %s differ", get(u, t), UNIT[u], f, UNIT[u + 1]); }
    }
    for (int k = 0; k < 10; k++) {
        fake = vh_chance(r, 3, 4);
        now_ns = (uint64_t) seconds(r) * 1000000000 + fraction(r, 1000000000); if (now_ns > UINT64_C(4294967290000000000)) now_ns = UINT64_C(4294967290000000000); tick = vh_chance(r, 1, 2) ? 0 : vh_below(r, 3000000000u);
        if (fake && vh_chance(r, 1, 3)) { now_ns -= now_ns % 1000000000; now_ns += 999999000 + vh_below(r, 1000); }
        uint64_t a = clock_us(); cork_timestamp t = vh_u64(r); cork_timestamp_init_now(&t); uint64_t b = clock_us();
        uint64_t v = (uint64_t) cork_timestamp_sec(t) * 1000000 + cork_timestamp_usec(t);
        if (a <= b) { VH_CHECK(v >= a && v <= b + 1, "now", "current time %" PRIu64 ".%06" PRIu64 ", the clock said %" PRIu64 " before and %" PRIu64 " us after", v / 1000000, v % 1000000, a, b); vh_count(fake ? "current times of a substituted clock" : "current times", 1); }
        fake = false;
    }
    vh_count("timestamps", n); vh_evals(n * 8); vh_nontrivial();
    if (vh_want_sample()) vh_sample("%" PRIu64 " timestamps, the last %016" PRIx64, n, prev);
}
