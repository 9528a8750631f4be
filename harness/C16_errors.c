/* C16: each thread's error state is the last error it reported. */
#include "vh.h"
#include <pthread.h>
#include <sched.h>
#include <libcork/core.h>
#include <libcork/helpers/errors.h>
#include <libcork/helpers/posix.h>

#define MAXT 8
struct st { struct vh_rng r; int nt, self, ops; bool yields; pthread_barrier_t *bar; uint64_t done, macros, checks;
            cork_error code; bool known; struct vstr msg; };

static void check(struct st *s, const char *what)
{
    VH_CHECK(cork_error_code() == s->code, "code", "after %s: code 0x%x, expected 0x%x", what, cork_error_code(), s->code);
    VH_CHECK(cork_error_occurred() == (s->code != CORK_ERROR_NONE), "occurred", "after %s: occurred is %d, code is 0x%x", what, cork_error_occurred(), s->code);
    if (s->known) {
        const char *m = cork_error_message();
        VH_CHECK(m != NULL, "message", "after %s: no message", what);
        VH_CHECK(strlen(m) == s->msg.n && !memcmp(m, s->msg.p, s->msg.n), "message", "after %s: message is '%.200s', expected '%.200s' (%zu characters)", what, m, vstr_z(&s->msg), s->msg.n);
    }
    s->checks++;
}
static void va_set(cork_error c, const char *f, ...) { va_list a; va_start(a, f); cork_error_set_vprintf(c, f, a); va_end(a); }
static void va_pre(const char *f, ...) { va_list a; va_start(a, f); cork_error_prefix_vprintf(f, a); va_end(a); }

/* checked calls */
static struct st *cur_unused;
static __thread struct { int calls, fail, eintr, err; struct st *s; } ck;
static int call_i(void) { ck.calls++; if (ck.fail) { cork_error_set_printf(0x51u + ck.fail, "failed %d", ck.fail); return ck.fail; } return 0; }
static void *call_p(void) { ck.calls++; if (ck.fail) { cork_error_set_printf(0x51u + ck.fail, "failed %d", ck.fail); return NULL; } return &ck; }
static int posix_i(void) { ck.calls++; if (ck.eintr > 0) { ck.eintr--; errno = EINTR; return -1; } if (ck.fail) { errno = ck.err; return -1; } return ck.calls == 1 ? 0 : 7; }
static void *posix_p(void) { ck.calls++; if (ck.eintr > 0) { ck.eintr--; errno = EINTR; return NULL; } if (ck.fail) { errno = ck.err; return NULL; } return &ck; }
static int m_ee(void) { ee_check(call_i()); return 0; error: return -99; }
static int m_ei(void) { ei_check(call_i()); return 0; error: return -99; }
static int m_ep(void) { ep_check(call_p()); return 0; error: return -99; }
static int m_rie(void) { rie_check(call_i()); return 0; }
static int m_rii(void) { rii_check(call_i()); return 0; }
static int m_rip(void) { rip_check(call_p()); return 0; }
static void *m_rpe(void) { rpe_check(call_i()); return &ck; }
static void *m_rpi(void) { rpi_check(call_i()); return &ck; }
static void *m_rpp(void) { rpp_check(call_p()); return &ck; }
static int m_xe(void) { xe_check(-42, call_i()); return 0; }
static int m_xi(void) { xi_check(-42, call_i()); return 0; }
static int m_xp(void) { xp_check(-42, call_p()); return 0; }
static int p_ei(void) { ei_check_posix(posix_i()); return 0; error: return -99; }
static int p_rii(void) { rii_check_posix(posix_i()); return 0; }
static void *p_rpi(void) { rpi_check_posix(posix_i()); return &ck; }
static int p_ep(void) { ep_check_posix(posix_p()); return 0; error: return -99; }
static int p_rip(void) { rip_check_posix(posix_p()); return 0; }
static void *p_rpp(void) { rpp_check_posix(posix_p()); return &ck; }
static int x_int(void) { int v; xi_check_posix(v = posix_i(), return -99); return v == 0 || v == 7 ? 0 : 1; }
static int x_ptr(void) { void *v; xp_check_posix(v = posix_p(), return -99); return v == &ck ? 0 : 1; }

static void macros(struct st *s)
{
    struct vh_rng *r = &s->r;
    ck.calls = 0; ck.fail = vh_chance(r, 1, 2) ? 1 + vh_below(r, 100) : 0; ck.eintr = 0;
    static const int errs[] = { ENOENT, EACCES, EIO, EAGAIN, ENOMEM, EINVAL, EPIPE, 5000 };
    ck.err = errs[vh_below(r, 8)];
    int which = vh_below(r, 20), want, got = 0, calls = 1;
    if (which >= 12) { ck.eintr = vh_chance(r, 1, 2) ? vh_below(r, 6) : 0; calls = ck.eintr + 1; }
    if (which == 0 || which == 3 || which == 6 || which == 9 || vh_chance(r, 1, 2)) { cork_error_clear(); s->code = 0; s->known = false; }
    bool ptr = false;
    switch (which) {
    case 0: want = ck.fail ? -99 : 0; got = m_ee(); break;
    case 1: want = ck.fail ? -99 : 0; got = m_ei(); break;
    case 2: want = ck.fail ? -99 : 0; got = m_ep(); break;
    case 3: want = ck.fail ? -1 : 0; got = m_rie(); break;
    case 4: want = ck.fail; got = m_rii(); break;
    case 5: want = ck.fail ? -1 : 0; got = m_rip(); break;
    case 6: want = ck.fail ? 0 : 1; got = m_rpe() != NULL; break;
    case 7: want = ck.fail ? 0 : 1; got = m_rpi() != NULL; break;
    case 8: want = ck.fail ? 0 : 1; got = m_rpp() != NULL; break;
    case 9: want = ck.fail ? -42 : 0; got = m_xe(); break;
    case 10: want = ck.fail ? -42 : 0; got = m_xi(); break;
    case 11: want = ck.fail ? -42 : 0; got = m_xp(); break;
    case 12: want = ck.fail ? -99 : 0; got = p_ei(); break;
    case 13: want = ck.fail ? -1 : 0; got = p_rii(); break;
    case 14: want = ck.fail ? 0 : 1; got = p_rpi() != NULL; break;
    case 15: want = ck.fail ? -99 : 0; got = p_ep(); break;
    case 16: want = ck.fail ? -1 : 0; got = p_rip(); break;
    case 17: want = ck.fail ? 0 : 1; got = p_rpp() != NULL; break;
    case 18: want = ck.fail ? -99 : 0; got = x_int(); break;
    default: want = ck.fail ? -99 : 0; got = x_ptr(); break;
    }
    (void) ptr;
    VH_CHECK(got == want, "macro", "checking macro %d with a call that %s gave %d, expected %d", which, ck.fail ? "fails" : "succeeds", got, want);
    VH_CHECK(ck.calls == calls, "macro-calls", "checking macro %d called %d times, expected %d", which, ck.calls, calls);
    if (ck.fail && which < 12) { s->code = 0x51u + ck.fail; s->msg.n = 0; vstr_addf(&s->msg, "failed %d", ck.fail); s->known = true; }
    else if (ck.fail) { s->code = ck.err; s->msg.n = 0; vstr_adds(&s->msg, strerror(ck.err)); s->known = true; }
    s->macros++;
}

static void *worker(void *v)
{
    struct st *s = v; struct vh_rng *r = &s->r;
    vstr_init(&s->msg); s->code = CORK_ERROR_NONE; s->known = false;
    if (s->bar) pthread_barrier_wait(s->bar);
    if (s->self >= 0 && s->nt > 1) { /* a new thread starts out without an error */ check(s, "thread start"); }
    else cork_error_clear();
    char *text = malloc(9000), *fmt = malloc(9000);
    for (int k = 0; k < s->ops; k++) {
        size_t len = vh_chance(r, 1, 8) ? vh_size(r, 8000) : vh_below(r, 80);
        vh_fill(r, text, len, vh_chance(r, 1, 2) ? 1 : 2); text[len] = 0;
        for (size_t i = 0; i < len; i++) if (!text[i]) text[i] = '%';
        cork_error code = vh_chance(r, 1, 20) ? CORK_ERROR_NONE : vh_chance(r, 1, 2) ? (cork_error) vh_u64(r) : (cork_error) vh_below(r, 200);
        int num = (int) vh_range(r, -100000, 100000), op = vh_below(r, 19);
        struct vstr n; const char *what = "?"; bool pre = false;
        vstr_init(&n);
        switch (op) {
        case 0: what = "set_string"; vstr_adds(&n, text); cork_error_set_string(code, text); break;
        case 1: what = "set_printf"; vstr_addf(&n, "%s<%d>%x", text, num, num); cork_error_set_printf(code, "%s<%d>%x", text, num, num); break;
        case 2: what = "set_vprintf"; vstr_addf(&n, "<%*d>%s", 20, num, text); va_set(code, "<%*d>%s", 20, num, text); break;
        case 3: what = "deprecated set"; { uint32_t cl = vh_u64(r); unsigned ec = vh_below(r, 100); code = cl + ec; vstr_addf(&n, "%s|%d", text, num); cork_error_set(cl, ec, "%s|%d", text, num); break; }
        case 4: what = "prefix_string"; pre = true; vstr_adds(&n, text); break;
        case 5: what = "prefix_printf"; pre = true; vstr_addf(&n, "[%d] %s: ", num, text); break;
        case 6: what = "prefix_vprintf"; pre = true; vstr_addf(&n, "%s=%d ", text, num); break;
        case 7: what = "deprecated prefix"; pre = true; vstr_addf(&n, "%d %s", num, text); break;
        case 8: what = "clear"; cork_error_clear(); s->code = 0; s->known = false; check(s, what); s->done++; vstr_done(&n); continue;
        case 9: { int e = vh_below(r, 140); what = "system_error_set_explicit"; code = e; cork_system_error_set_explicit(e); vstr_adds(&n, strerror(e)); break; }
        case 10: { int e = vh_chance(r, 1, 10) ? (int) vh_below(r, 10000) : (int) vh_below(r, 140); what = "system_error_set"; code = e; errno = e; cork_system_error_set(); vstr_adds(&n, strerror(e)); break; }
        case 11: what = "unknown_error"; code = CORK_UNKNOWN_ERROR; cork_unknown_error(); vstr_addf(&n, "Unknown error in %s", __func__); break;
        case 12: what = "parse_error"; code = CORK_PARSE_ERROR; cork_parse_error("P %s", text); vstr_addf(&n, "P %s", text); break;
        case 13: what = "redefined"; code = CORK_REDEFINED; cork_redefined("R %d", num); vstr_addf(&n, "R %d", num); break;
        case 14: what = "undefined"; code = CORK_UNDEFINED; cork_undefined("U %d %s", num, text); vstr_addf(&n, "U %d %s", num, text); break;
        case 15: if (!s->known || s->msg.n > 20000) { vstr_done(&n); continue; }
            what = "set built from the current message"; vstr_addf(&n, "because: %s (%d)", vstr_z(&s->msg), num);
            if (vh_chance(r, 1, 2)) cork_error_set_printf(code, "because: %s (%d)", cork_error_message(), num); else va_set(code, "because: %s (%d)", cork_error_message(), num); break;
        case 16: if (!s->known) { vstr_done(&n); continue; }
            { what = "set_string of part of the current message"; size_t off = vh_below(r, s->msg.n + 1); vstr_adds(&n, vstr_z(&s->msg) + off); cork_error_set_string(code, cork_error_message() + off); break; }
        case 17: if (!s->known || s->msg.n > 10000) { vstr_done(&n); continue; }
            what = "prefix built from the current message"; pre = true; vstr_addf(&n, "(%s)", vstr_z(&s->msg)); break;
        default: macros(s); vstr_done(&n); check(s, "a checking macro"); s->done++; continue;
        }
        if (pre) {
            if (!s->known || s->msg.n > 20000) { vstr_done(&n); continue; }
            switch (op) {
            case 4: cork_error_prefix_string(text); break;
            case 5: cork_error_prefix_printf("[%d] %s: ", num, text); break;
            case 6: va_pre("%s=%d ", text, num); break;
            case 7: cork_error_prefix("%d %s", num, text); break;
            default: cork_error_prefix_printf("(%s)", cork_error_message()); break;
            }
            vstr_add(&n, s->msg.p, s->msg.n);
        } else s->code = code;
        vstr_done(&s->msg); s->msg = n; s->known = true;
        check(s, what);
        if (s->yields && vh_chance(r, 1, 8)) { sched_yield(); check(s, "other threads ran"); }
        s->done++;
    }
    free(text); free(fmt); vstr_done(&s->msg);
    if (s->nt == 1) cork_error_clear();
    return NULL;
}

void vh_case(struct vh_rng *r, uint64_t index)
{
    (void) cur_unused;
    int nt = vh_chance(r, 1, 2) ? 1 : 2 + vh_below(r, MAXT - 1);
    struct st s[MAXT]; pthread_t th[MAXT]; pthread_barrier_t bar;
    memset(s, 0, sizeof s);
    pthread_barrier_init(&bar, NULL, nt);
    for (int t = 0; t < nt; t++) { vh_seed(&s[t].r, vh_u64(r), t); s[t].nt = nt; s[t].self = t; s[t].ops = 1 + vh_below(r, nt > 1 ? 60 : 150); s[t].yields = nt > 1 && vh_chance(r, 1, 2); s[t].bar = nt > 1 ? &bar : NULL; vh_sig(vh_u64(r)); }
    for (int t = 0; t < nt; t++) { if (nt == 1) worker(&s[t]); else if (pthread_create(&th[t], NULL, worker, &s[t])) vh_broken("pthread_create"); }
    if (nt > 1) for (int t = 0; t < nt; t++) pthread_join(th[t], NULL);
    pthread_barrier_destroy(&bar);
    uint64_t done = 0, macros = 0, checks = 0;
    for (int t = 0; t < nt; t++) { done += s[t].done; macros += s[t].macros; checks += s[t].checks; }
    vh_count("error operations", done); vh_count("checking macros", macros); vh_evals(checks);
    vh_count(nt > 1 ? "multi-threaded histories" : "single-threaded histories", 1);
    if (done > 5) vh_nontrivial();
    if (vh_want_sample()) vh_sample("%d threads, %" PRIu64 " error operations", nt, done);
}
