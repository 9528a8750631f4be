/* C19: exit cleanups all run exactly once, lowest priority first. */
#include "vh.h"
#include <pthread.h>
#include <signal.h>
#include <sys/wait.h>
#include <libcork/core.h>
#include <libcork/os.h>

#define NF 24
struct plan { int n; struct { int f, prio; } add[4]; bool error, last_error; } plan[NF];
static int log_fd, ncalls[NF], total;
static void ev(char what, int f, int prio) { int32_t b[3] = { what, f, prio }; if (write(log_fd, b, sizeof b) != sizeof b) _exit(90); }
static void reg(int f, int prio);
static void ran(int f)
{
    ev('C', f, 0);
    struct plan *p = &plan[f];
    if (++ncalls[f] == 1) for (int i = 0; i < p->n && total < 120; i++) reg(p->add[i].f, p->add[i].prio);
    if (p->error) {
        cork_error_set_printf(4711 + f, "cleanup %d", f); cork_error_prefix_string("in ");
        char want[40]; snprintf(want, sizeof want, "in cleanup %d", f);
        if (cork_error_code() != (cork_error) (4711 + f) || strcmp(cork_error_message(), want)) _exit(91);
    }
}
#define F(n) static void f_##n(void) { ran(n); }
F(0) F(1) F(2) F(3) F(4) F(5) F(6) F(7) F(8) F(9) F(10) F(11) F(12) F(13) F(14) F(15) F(16) F(17) F(18) F(19) F(20) F(21) F(22) F(23)
static void (*const FN[NF])(void) = { f_0, f_1, f_2, f_3, f_4, f_5, f_6, f_7, f_8, f_9, f_10, f_11, f_12, f_13, f_14, f_15, f_16, f_17, f_18, f_19, f_20, f_21, f_22, f_23 };
static void reg(int f, int prio)
{
    total++; ev('R', f, prio);
    if (f % 2) { char *name = strdup("some name"); cork_cleanup_at_exit_named(name, prio, FN[f]); memset(name, '!', 9); free(name); }
    else cork_cleanup_at_exit(prio, FN[f]);
}
static int late_f, late_prio; static bool late_on;
static void late(void) { if (late_on) reg(late_f, late_prio); }
static void *failing_thread(void *v) { cork_error_set_string(5, "in a thread"); return NULL; }
static int rprio(struct vh_rng *r) { switch (vh_below(r, 8)) { case 0: return INT32_MIN + (int) vh_below(r, 2); case 1: return INT32_MAX - (int) vh_below(r, 2); case 2: return (int) vh_u64(r); case 3: return -(int) vh_below(r, 5); default: return vh_below(r, 6) * 10; } }

void vh_case(struct vh_rng *r, uint64_t index)
{
    int fd[2], n0 = vh_chance(r, 1, 5) ? vh_below(r, 3) : vh_below(r, 40), code = vh_below(r, 200), threads = vh_chance(r, 1, 4) ? vh_below(r, 4) : 0;
    struct { int f, prio; } first[40]; bool early_error = vh_chance(r, 1, 2);
    for (int i = 0; i < n0; i++) { first[i].f = vh_below(r, NF); first[i].prio = rprio(r); vh_sig((uint64_t) first[i].f * 7919 + (unsigned) first[i].prio); }
    bool nested = vh_chance(r, 1, 2), errs = vh_chance(r, 1, 2);
    for (int f = 0; f < NF; f++) { plan[f].n = nested && vh_chance(r, 1, 3) ? vh_below(r, 4) : 0; for (int i = 0; i < plan[f].n; i++) { plan[f].add[i].f = vh_below(r, NF); plan[f].add[i].prio = rprio(r); } plan[f].error = errs && vh_chance(r, 1, 3); }
    late_on = vh_chance(r, 1, 6); late_f = vh_below(r, NF); late_prio = rprio(r);
    if (pipe(fd)) vh_broken("pipe");
    fflush(NULL);
    pid_t p = fork();
    if (p < 0) vh_broken("fork");
    if (p == 0) {
        signal(SIGABRT, SIG_DFL);
        close(fd[0]); log_fd = fd[1];
        if (late_on) atexit(late);
        for (int i = 0; i < threads; i++) { pthread_t t; if (pthread_create(&t, NULL, failing_thread, NULL)) _exit(3); pthread_join(t, NULL); }
        for (int i = 0; i < n0; i++) { if (early_error && i == n0 / 2) cork_error_set_string(3, "x"); reg(first[i].f, first[i].prio); }
        exit(code);
    }
    close(fd[1]);
    static int32_t b[3 * 600]; size_t got = 0; ssize_t k;
    while (got < sizeof b && (k = read(fd[0], (char *) b + got, sizeof b - got)) != 0) { if (k < 0) { if (errno == EINTR) continue; break; } got += k; }
    close(fd[0]);
    int st; while (waitpid(p, &st, 0) < 0) if (errno != EINTR) vh_broken("waitpid");
    size_t nev = got / sizeof(b[0]) / 3;
    struct { int f, prio; } pend[200]; int np = 0; uint64_t calls = 0, in_exit = 0;
    for (size_t i = 0; i < nev; i++) {
        int f = b[3 * i + 1], prio = b[3 * i + 2];
        if (b[3 * i] == 'R') { vh_trace("register %d at %d", f, prio); if (np < 200) { pend[np].f = f; pend[np++].prio = prio; } if (calls) in_exit++; continue; }
        vh_trace("called %d", f);
        int best = -1; for (int j = 0; j < np; j++) if (best < 0 || pend[j].prio < pend[best].prio) best = j;
        int hit = -1; for (int j = 0; j < np; j++) if (pend[j].f == f && pend[j].prio == pend[best].prio) hit = j;
        if (hit < 0) {
            bool any = false; for (int j = 0; j < np; j++) any |= pend[j].f == f;
            if (any) vh_fail("order", "cleanup %d called although one of priority %d is pending", f, pend[best].prio);
            vh_fail("twice", "cleanup %d called more often than it was registered", f);
        }
        pend[hit] = pend[--np]; calls++;
    }
    if (WIFSIGNALED(st)) { if (WTERMSIG(st) == SIGKILL) vh_broken("child killed"); vh_fail("crash", "exiting process died of signal %d", WTERMSIG(st)); }
    if (WEXITSTATUS(st) != code || code == 99) { int e = WEXITSTATUS(st); if (e == 99 && code != 99) { fflush(NULL); _exit(99); } if (e == 91 && code != 91) vh_fail("error-in-cleanup", "the error set by a cleanup function is not what it reads back"); VH_CHECK(e == code, "exit-code", "exit code %d became %d", code, e); }
    VH_CHECK(np == 0, "missed", "%d registered cleanup functions never called, the first at priority %d", np, pend[0].prio);
    vh_count("cleanups called", calls); vh_count("registered during exit", in_exit); vh_count("processes exited", 1); vh_evals(calls);
    if (late_on) vh_count("registered after the others had run", 1);
    if (errs) vh_count("processes with errors in cleanups", 1);
    if (calls > 1) vh_nontrivial();
    if (vh_want_sample()) vh_sample("%" PRIu64 " cleanups, %" PRIu64 " of them registered during exit", calls, in_exit);
}
