/* C27: timestamp formatting. */
#include "vh.h"
#include <libcork/core.h>
#include <libcork/ds.h>
#include <time.h>
static const char *const TZS[] = { "UTC0", "XST-5:30", "XST+9:30", "EST5EDT,M3.2.0,M11.1.0", "NZST-12NZDT,M9.5.0,M4.1.0/3", "XYZ-14", "XYZ12", "<+0545>-5:45" };
static const int OFF[] = { 0, 19800, -34200, 1, 1, 50400, -43200, 20700 };     /* 1: by the C library */
struct fields { long Y; int m, d, H, M, S; };
/* civil date from a day count, without the C library */
static struct fields civil(int64_t t)
{
    struct fields f; int64_t day = t / 86400, sec = t % 86400; if (sec < 0) { sec += 86400; day--; }
    f.H = sec / 3600; f.M = sec / 60 % 60; f.S = sec % 60; f.Y = 1970;
    while (day < 0) { f.Y--; day += 365 + ((f.Y % 4 == 0 && f.Y % 100) || f.Y % 400 == 0); }
    for (;;) { int len = 365 + ((f.Y % 4 == 0 && f.Y % 100) || f.Y % 400 == 0); if (day < len) break; day -= len; f.Y++; }
    static const int ML[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 };
    for (f.m = 0; ; f.m++) { int len = ML[f.m] + (f.m == 1 && ((f.Y % 4 == 0 && f.Y % 100) || f.Y % 400 == 0)); if (day < len) break; day -= len; }
    f.m++; f.d = day + 1; return f;
}
static uint32_t secs(struct vh_rng *r)
{
    switch (vh_below(r, 6)) {
    case 0: return vh_below(r, 200000);
    case 1: return ~(uint32_t) vh_below(r, 200000);
    case 2: { uint32_t day = vh_below(r, 49710); return day * 86400u + (vh_chance(r, 1, 2) ? 86399 : 0); }
    case 3: { static const uint32_t x[] = { 951782400, 951868799, 951868800, 4107542399u, 4107542400u, 2147483647u, 2147483648u, 1078012800, 978307199, 978307200, 1230768000, 1735689599 }; return x[vh_below(r, 12)] + vh_below(r, 3) - 1; }
    case 4: { uint32_t y = vh_below(r, 136); struct fields f; uint32_t t = y * 31556952u; f = civil(t); return t - (f.d - 1) * 86400u - vh_below(r, 2); }
    default: return (uint32_t) vh_u64(r);
    }
}
void vh_setup(void) { vh_alloc_install(); VH_WARM_ERRORS(); for (int i = 0; i < 3; i++) { cork_error_set_printf(1, "%3000s", "x"); cork_error_prefix_string("y"); } cork_error_clear(); setenv("TZ", "UTC0", 1); tzset(); struct cork_buffer b = CORK_BUFFER_INIT(); cork_timestamp_format_local(0, "%Y", &b); cork_buffer_done(&b); }
enum { EXACT, EITHER_FRAC, EITHER, ERROR };
void vh_case(struct vh_rng *r, uint64_t index)
{
    struct vstr fmt; vstr_init(&fmt);
    int z = vh_below(r, sizeof TZS / sizeof *TZS); setenv("TZ", TZS[z], 1); tzset();
    uint64_t serial = vh_alloc_serial();
    for (int k = 0; k < 12; k++) {
        uint32_t s = secs(r), g = vh_chance(r, 1, 3) ? 0xffffffffu - vh_below(r, vh_chance(r, 1, 2) ? 10 : 500000000) : vh_chance(r, 1, 4) ? vh_below(r, 50) : (uint32_t) vh_interesting64(r);
        cork_timestamp ts; cork_timestamp_init_gsec(&ts, s, g);
        bool local = vh_chance(r, 1, 2); struct fields f;
        if (!local) f = civil(s);
        else if (OFF[z] != 1) f = civil((int64_t) s + OFF[z]);
        else { time_t c = s; struct tm tm; localtime_r(&c, &tm); VH_KNOWN(&tm, sizeof tm); f = (struct fields) { tm.tm_year + 1900L, tm.tm_mon + 1, tm.tm_mday, tm.tm_hour, tm.tm_min, tm.tm_sec }; }
        fmt.n = 0; bool bad = false, dontcare = false;
        struct { int kind; unsigned width; size_t len; char text[40]; } part[80]; int np = 0;
        int pieces = vh_below(r, vh_chance(r, 1, 6) ? 60 : 8);
        for (int i = 0; i < pieces; i++) {
            int kind = vh_below(r, 22);
            part[np].kind = EXACT; part[np].text[0] = 0;
#define P(...) do { sprintf(part[np].text, __VA_ARGS__); } while (0)
            switch (kind) {
            case 0: vstr_adds(&fmt, "%Y"); P("%04ld", f.Y); break;
            case 1: vstr_adds(&fmt, "%m"); P("%02d", f.m); break;
            case 2: vstr_adds(&fmt, "%d"); P("%02d", f.d); break;
            case 3: vstr_adds(&fmt, "%H"); P("%02d", f.H); break;
            case 4: vstr_adds(&fmt, "%M"); P("%02d", f.M); break;
            case 5: vstr_adds(&fmt, "%S"); P("%02d", f.S); break;
            case 6: vstr_adds(&fmt, "%s"); P("%u", s); break;
            case 7: vstr_adds(&fmt, "%%"); P("%%"); break;
            case 8: case 9: case 10: case 11: {
                unsigned w = vh_chance(r, 1, 12) ? vh_below(r, 14) : 1 + vh_below(r, 9); int zeros = vh_chance(r, 1, 8) ? vh_below(r, 12) : 0;
                vstr_addc(&fmt, '%'); for (int q = 0; q < zeros; q++) vstr_addc(&fmt, '0');
                vstr_addf(&fmt, "%uf", w); if (w < 1 || w > 9) bad = true; part[np].kind = EITHER_FRAC; part[np].width = w; break; }
            case 12: if (vh_chance(r, 1, 6)) { vstr_adds(&fmt, "%f"); bad = true; } break;
            case 13: if (vh_chance(r, 1, 6)) { static const char u[] = "aAbBcCDeFgGhIjklnNpPrRtTuUVwWxXyzZ+- .:?\xff\x80\x01" "EO_^#"; vstr_addc(&fmt, '%'); vstr_addc(&fmt, u[vh_below(r, sizeof u - 1)]); bad = true; } break;
            case 14: if (vh_chance(r, 1, 8)) { /* a width that is enormous, also one that wraps around */
                static const char *const w[] = { "4294967297", "4294967305", "18446744073709551617", "100", "99999999999999999999999999", "8589934593", "0000000000004294967299", "2147483649", "65537", "257", "34359738369" };
                vstr_addf(&fmt, "%%%sf", w[vh_below(r, sizeof w / sizeof *w)]); bad = true; } break;
            case 15: if (vh_chance(r, 1, 12)) { vstr_addf(&fmt, "%%%u%c", (unsigned) vh_below(r, 20), "YmdHMSs%"[vh_below(r, 8)]); dontcare = true; } break;
            default: { size_t n = vh_size(r, 30); for (size_t q = 0; q < n && q < 38; q++) { char c = vh_chance(r, 1, 2) ? "fYmdHMSs0123456789 -:%T"[vh_below(r, 23)] : (char) (1 + vh_below(r, 255)); if (c == '%') c = '.'; part[np].text[q] = c; part[np].text[q + 1] = 0; } vstr_adds(&fmt, part[np].text); break; }
            }
            part[np].len = strlen(part[np].text); np++;
        }
        if (vh_chance(r, 1, 15)) { vstr_addc(&fmt, '%'); if (vh_chance(r, 1, 3)) vstr_addf(&fmt, "%u", (unsigned) vh_below(r, 20)); bad = true; }
        char *fs = malloc(fmt.n + 1); memcpy(fs, fmt.p, fmt.n); fs[fmt.n] = 0;
        struct cork_buffer b = CORK_BUFFER_INIT(); size_t pre = vh_size(r, 40); char *had = malloc(pre + 1); vh_fill(r, had, pre, 2); if (pre) cork_buffer_append(&b, had, pre);
        int rc = local ? cork_timestamp_format_local(ts, fs, &b) : cork_timestamp_format_utc(ts, fs, &b);
        vh_trace("%s %s \"%s\" of %u.%08x -> %d \"%.*s\"", local ? "local" : "utc", TZS[z], fs, s, g, rc, (int) b.size, b.buf ? (char *) b.buf : "");
        VH_CHECK(b.size >= pre && (pre == 0 || !memcmp(b.buf, had, pre)), "kept", "the buffer's earlier contents changed");
        if (bad) {
            VH_CHECK(rc == -1, "bad-accepted", "format \"%s\" accepted", fs);
            VH_CHECK(cork_error_occurred() && cork_error_message() && *cork_error_message(), "bad-error", "format \"%s\" rejected without an error", fs); cork_error_clear(); vh_count("formats rejected", 1);
        } else if (dontcare) { cork_error_clear(); vh_count("widths on other specifiers", 1); }
        else {
            VH_CHECK(rc == 0, "good-rejected", "format \"%s\" rejected (%d)", fs, rc); VH_CHECK(!cork_error_occurred(), "good-error", "format \"%s\" set an error", fs);
            size_t pos = pre; const char *o = (const char *) b.buf;
            if (b.size) VH_CHECK(o[b.size] == 0, "terminator", "the buffer is not terminated");
            for (int i = 0; i < np; i++) {
                if (part[i].kind == EITHER_FRAC) {
                    unsigned w = part[i].width; uint64_t v = 0, d = 1; 
                    VH_CHECK(pos + w <= b.size, "fraction", "\"%s\": fraction of %u digits is missing", fs, w);
                    for (unsigned q = 0; q < w; q++) { VH_CHECK(o[pos + q] >= '0' && o[pos + q] <= '9', "fraction", "\"%s\" of %u.%08x: %.*s is no fraction of %u digits", fs, s, g, (int) (b.size - pre), o + pre, w); v = v * 10 + (o[pos + q] - '0'); d *= 10; }
                    __int128 diff = ((__int128) v << 32) - (__int128) g * d; if (diff < 0) diff = -diff;
                    VH_CHECK(diff <= (v == d - 1 ? (__int128) 1 << 32 : ((__int128) 6 << 32) / 10), "fraction", "\"%s\": fraction %08x printed as %.*s", fs, g, (int) w, o + pos);
                    pos += w; vh_count("fractions", 1);
                } else {
                    VH_CHECK(pos + part[i].len <= b.size && !memcmp(o + pos, part[i].text, part[i].len), "text", "\"%s\" of %u (%s) gave \"%.*s\", expected \"%s\" at %zu", fs, s, local ? TZS[z] : "UTC", (int) (b.size - pre), o ? o + pre : "", part[i].text, pos - pre);
                    pos += part[i].len;
                }
            }
            VH_CHECK(pos == b.size, "text", "\"%s\" gave \"%.*s\": %zu characters too many", fs, (int) (b.size - pre), o ? o + pre : "", b.size - pos);
            vh_count(local ? "formatted in local time" : "formatted in UTC", 1);
        }
        VH_CHECK(!memcmp(fs, fmt.n ? (char *) fmt.p : "", fmt.n) && fs[fmt.n] == 0, "format-changed", "the format string changed");
        if (pieces > 1) vh_nontrivial();
        vh_sig_bytes(fs, fmt.n); vh_sig(ts); vh_evals(pieces);
        if (vh_want_sample()) vh_sample("\"%.40s\" of %u.%08x: %d \"%.*s\"", fs, s, g, rc, (int) (b.size > 60 ? 60 : b.size), b.size ? (char *) b.buf : "");
        cork_buffer_done(&b); free(had); free(fs);
    }
    vh_alloc_expect_balanced(serial, "leak");
    vstr_done(&fmt);
}
