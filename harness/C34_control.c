/* C34: waiting, draining, aborting and failing; what is left behind. */
#include "subproc.h"
#include <sys/resource.h>

#define MAXM 5
#define READY 140
#define GATE 150
#define GATE2 170
struct member {
    bool exec, has_code, gated, daemon, blocked, closed[3]; char script[2000]; size_t sn; struct cons out, err; int code, want; struct body body; struct cork_subprocess *sub;
    uint64_t pre[2];
};
static struct member m[MAXM]; static int nm, nready, ndaemons, ready_r, gate_w[MAXM], gate2_w[MAXM];
static struct cork_subprocess_group *g;

static void op(struct member *x, const char *fmt, ...) { va_list ap; va_start(ap, fmt); x->sn += vsnprintf(x->script + x->sn, sizeof x->script - x->sn, fmt, ap); va_end(ap); if (x->sn >= sizeof x->script) vh_broken("script"); }
static void move(int *fd, int to) { if (*fd != to) { if (dup2(*fd, to) < 0) vh_broken("dup2"); close(*fd); } *fd = to; }
static void outputs(struct member *x, struct vh_rng *r, int n, uint64_t max, bool o, bool e)
{
    uint64_t left[2] = { max, max };
    for (int i = 0; i < n; i++) {
        bool k = vh_chance(r, 1, 2); if (k ? !e : !o) continue; uint64_t v = 1 + vh_below(r, vh_chance(r, 1, 4) ? max : 2000), seed = vh_u64(r) >> 8; if (v > left[k]) v = left[k]; if (!v) continue; left[k] -= v;
        op(x, "%c%" PRIu64 ",%d,%" PRIu64 " ", k ? 'e' : 'o', v, vh_chance(r, 1, 2) ? 200 + (int) vh_below(r, 1000) : 70000, seed); cons_expect(k ? &x->err : &x->out, v, seed, 0);
    }
}
static uint64_t pipe_room(void) { int p[2], n; if (__real_pipe(p)) vh_broken("pipe"); n = __real_fcntl(p[0], F_GETPIPE_SZ); close(p[0]); close(p[1]); return n < 4096 ? 1000 : n < 65536 ? n / 3 : 50000; }
static void plan(struct member *x, int i, struct vh_rng *r)
{
    memset(x, 0, sizeof *x); x->exec = vh_chance(r, 1, 2); x->has_code = vh_chance(r, 7, 8); x->code = 0x5a5a5a; cons_init(&x->out, i, 1); cons_init(&x->err, i, 2);
    int kind = vh_below(r, 10); x->gated = kind < 7; x->blocked = kind == 7; x->daemon = vh_chance(r, 1, 5);
    bool o = true, e = true;
    if (x->gated) {
        if (vh_chance(r, 2, 3)) outputs(x, r, vh_below(r, 6), pipe_room(), true, true);
        x->pre[0] = x->out.total; x->pre[1] = x->err.total;
        if (vh_chance(r, 1, 3)) { int which = 1 + vh_below(r, 7); for (int k = 0; k < 3; k++) if (which >> k & 1) { x->closed[k] = true; op(x, "c%d ", k); } o = !x->closed[1]; e = !x->closed[2]; }
        if (x->daemon) op(x, "d%d ", GATE2 + i);
        op(x, "b%d g%d ", READY, GATE + i); nready++;
        outputs(x, r, vh_below(r, 5), vh_chance(r, 1, 3) ? 400000 : 5000, o, e);
        if (vh_chance(r, 1, 4)) { if (o && vh_chance(r, 1, 2)) op(x, "c1 "); if (e && vh_chance(r, 1, 2)) op(x, "c2 "); op(x, "s%d ", (int) vh_below(r, 2000)); }
    } else if (x->blocked) {
        int k = vh_below(r, 2); op(x, "b%d ", READY); nready++; uint64_t seed = vh_u64(r) >> 8; op(x, "%c300000,70000,%" PRIu64 " ", k ? 'e' : 'o', seed); cons_expect(k ? &x->err : &x->out, 300000, seed, 0); if (x->daemon) op(x, "d%d ", GATE2 + i);
    } else { outputs(x, r, vh_below(r, 4), pipe_room(), true, true); if (x->daemon) op(x, "d%d ", GATE2 + i); }
    if (vh_chance(r, 1, 2)) { do x->want = vh_below(r, 256); while (x->want >= 90 && x->want <= 99); op(x, "x%d", x->want); }
    x->body.script = x->script;
}
static void make(struct member *x)
{
    int *code = x->has_code ? &x->code : NULL;
    if (x->exec) x->sub = cork_subprocess_new_exec(cork_exec_new_with_params(child_program, x->script, NULL), &x->out.c, &x->err.c, code);
    else x->sub = cork_subprocess_new(&x->body, body_free, body_run, &x->out.c, &x->err.c, code);
}
static void release(int *w) { if (*w >= 0) { sub_put(*w, (const unsigned char *) "!", 1); close(*w); *w = -1; } }
static void wait_ready(void) { unsigned char b; for (int i = 0; i < nready; i++) { ssize_t k; do k = __real_read(ready_r, &b, 1); while (k < 0 && errno == EINTR); if (k == 0) vh_fail("not-run", "a subprocess ended before it had done anything"); if (k != 1) vh_broken("ready: %s", strerror(errno)); } }
static bool alive(int i) { siginfo_t si; memset(&si, 0, sizeof si); return waitid(P_PID, forked[i], &si, WEXITED | WNOHANG | WNOWAIT) == 0 && si.si_pid == 0; }

/* after everything is over: nothing more happens */
static void quiet(const char *when)
{
    int codes[MAXM]; uint64_t ev = cons_events; for (int i = 0; i < nm; i++) codes[i] = m[i].code;
    for (int k = 0; k < 2; k++) {
        if (g) {
            VH_CHECK(cork_subprocess_group_is_finished(g), "not-finished", "%s: the group is not finished", when); VH_CHECK(cork_subprocess_group_wait(g) == 0, "wait", "%s: waiting again failed: %s", when, cork_error_message());
            VH_CHECK(!cork_subprocess_group_drain(g), "progress", "%s: draining a finished group made progress", when); VH_CHECK(cork_subprocess_group_abort(g) == 0, "abort", "%s: aborting a finished group failed: %s", when, cork_error_message());
        }
        for (int i = 0; i < nm; i++) {
            struct cork_subprocess *s = m[i].sub; VH_CHECK(cork_subprocess_is_finished(s), "not-finished", "%s: subprocess %d is not finished", when, i); VH_CHECK(cork_subprocess_wait(s) == 0, "wait", "%s: waiting again failed: %s", when, cork_error_message());
            VH_CHECK(!cork_subprocess_drain(s), "progress", "%s: draining a finished subprocess made progress", when); VH_CHECK(cork_subprocess_abort(s) == 0, "abort", "%s: aborting a finished subprocess failed: %s", when, cork_error_message());
        }
    }
    VH_CHECK(ev == cons_events, "after-end", "%s: consumers were called again", when); for (int i = 0; i < nm; i++) VH_CHECK(codes[i] == m[i].code, "exit-code", "%s: exit code %d changed from %d to %d", when, i, codes[i], m[i].code);
    VH_CHECK(!cork_error_occurred(), "stray-error", "%s: an error was set: %s", when, cork_error_message()); vh_evals(4 * nm); vh_count("finished objects left alone", 1);
}
static void destroy(struct vh_rng *r)
{
    if (g) cork_subprocess_group_free(g); else { int o = vh_below(r, nm ? nm : 1); for (int i = 0; i < nm; i++) cork_subprocess_free(m[(i + o) % nm].sub); } g = NULL;
    for (int i = 0; i < nm; i++) { if (!m[i].exec) VH_CHECK(m[i].body.frees == 1, "user-data", "the user data of subprocess %d was freed %d times", i, m[i].body.frees); VH_CHECK(!m[i].out.frees && !m[i].err.frees, "consumer-freed", "a consumer was freed"); }
}
static void ended(struct member *x, int i) /* by itself */
{
    cons_complete(&x->out); cons_complete(&x->err); if (x->has_code) VH_CHECK(x->code == x->want, "exit-code", "subprocess %d exited with %d, reported as %d", i, x->want, x->code);
}
static void cut(struct member *x, int i, const char *how) /* terminated */
{
    VH_CHECK(!x->has_code || (x->code != 0x5a5a5a && (x->code != 0 || (x->want == 0 && !x->gated))), "exit-code", "subprocess %d was terminated %s, its exit code is %d", i, how, x->code);
}

static void idle(struct vh_rng *r)
{
    for (int i = 0; i < nm; i++) { plan(&m[i], i, r); make(&m[i]); if (g) cork_subprocess_group_add(g, m[i].sub); }
    quiet("never started"); for (int i = 0; i < nm; i++) VH_CHECK(m[i].code == 0x5a5a5a, "exit-code", "an exit code was set without a subprocess");
    int fds = vh_open_fds(); if (vh_chance(r, 1, 2)) for (int i = 0; i < nm; i++) VH_CHECK(cork_stream_consumer_eof(cork_subprocess_stdin(m[i].sub)) == 0, "stdin", "ending stdin before the start failed");
    VH_CHECK(fds == vh_open_fds(), "descriptor-leak", "descriptors changed without a subprocess"); destroy(r); vh_count("objects never started", nm + 1);
}
static void limited(struct vh_rng *r)
{
    /* too few descriptors or processes */
    struct rlimit old, lim; bool proc = vh_chance(r, 1, 4); int which = proc ? RLIMIT_NPROC : RLIMIT_NOFILE, before = vh_open_fds(); ndaemons = nready = 0;
    for (int i = 0; i < nm; i++) { do { nready = 0; plan(&m[i], i, r); } while (m[i].daemon); make(&m[i]); if (g) cork_subprocess_group_add(g, m[i].sub); }
    if (getrlimit(which, &old)) vh_broken("getrlimit"); lim = old;
    int lowest[16], nl = 0, k = proc ? 0 : vh_below(r, 7 * nm); if (!proc) { /* the limit is on the number, not the count */ for (; nl <= k && nl < 16; nl++) { lowest[nl] = __real_fcntl(ready_r, F_DUPFD, 0); if (lowest[nl] < 0) vh_broken("dup"); } lim.rlim_cur = lowest[nl - 1]; for (int i = 0; i < nl; i++) close(lowest[i]); }
    else lim.rlim_cur = 0;
    if (setrlimit(which, &lim)) vh_broken("setrlimit"); inj = r; inj_eintr = inj_short = false;
    int rc, failed = -1; if (g) rc = cork_subprocess_group_start(g); else { rc = 0; for (int i = 0; i < nm && rc == 0; i++) { int b = before; before = vh_open_fds(); (void) b; rc = cork_subprocess_start(m[i].sub); if (rc) failed = i; } }
    inj = NULL; setrlimit(which, &old);
    if (rc == 0) vh_count("starts within the limit", 1);
    else {
        VH_CHECK(cork_error_occurred() && cork_error_code() == (cork_error) (proc ? EAGAIN : EMFILE), "start-error", "a failed start set error %u: %s", (unsigned) cork_error_code(), cork_error_occurred() ? cork_error_message() : "(none)"); cork_error_clear();
        vh_count(proc ? "starts without processes" : "starts without descriptors", 1);
        if (g) { no_children("after a failed start"); vh_trace("%d of %d were started", n_forked, nm); if (n_forked) vh_count("starts that failed half-way", 1); VH_CHECK(cork_subprocess_group_abort(g) == 0, "abort", "aborting after a failed start: %s", cork_error_message()); for (int i = 0; i < n_forked && i < nm; i++) cut(&m[i], i, "after a failed start"); goto end; }
        VH_CHECK(vh_open_fds() == before, "descriptor-leak", "a failed start changed the number of descriptors from %d to %d", before, vh_open_fds()); VH_CHECK(cork_subprocess_is_finished(m[failed].sub), "not-finished", "a subprocess that could not be started is not finished");
        /* and now it works */
        if (vh_chance(r, 1, 2)) { for (int i = 0; i < nm; i++) VH_CHECK(cork_subprocess_abort(m[i].sub) == 0, "abort", "abort: %s", cork_error_message()); goto end; }
        inj = r; for (int i = failed; i < nm; i++) VH_CHECK(cork_subprocess_start(m[i].sub) == 0, "start", "starting again failed: %s", cork_error_message()); inj = NULL; vh_count("starts after a failed one", 1);
    }
    for (int i = 0; i < nm; i++) release(&gate_w[i]);
    if (g) VH_CHECK(cork_subprocess_group_wait(g) == 0, "wait", "%s", cork_error_message()); else for (int i = 0; i < nm; i++) VH_CHECK(cork_subprocess_wait(m[i].sub) == 0, "wait", "%s", cork_error_message());
    for (int i = 0; i < nm; i++) ended(&m[i], i); quiet("after a limited start");
end:
    no_children("after a limited start"); destroy(r);
}
/* the end of one subprocess's stdin does not depend on the others */
static void independent(struct vh_rng *r)
{
    nm = 2; for (int i = 0; i < 2; i++) { memset(&m[i], 0, sizeof m[i]); m[i].exec = i || vh_chance(r, 1, 2); m[i].has_code = true; m[i].code = 0x5a5a5a; cons_init(&m[i].out, i, 1); cons_init(&m[i].err, i, 2); m[i].body.script = m[i].script; }
    uint64_t seed = vh_u64(r) >> 8; int n = vh_below(r, 1000); op(&m[0], "I%d,0,%" PRIu64 " o10,10,%" PRIu64 " x5", n, seed, seed); cons_expect(&m[0].out, 10, seed, 0); m[0].want = 5; op(&m[1], "b%d g%d o5,5,%" PRIu64, READY, GATE + 1, seed); cons_expect(&m[1].out, 5, seed, 0); nready = 1;
    vh_trace("0: %s; 1: %s", m[0].script, m[1].script); inj = r;
    for (int i = 0; i < 2; i++) { make(&m[i]); VH_CHECK(cork_subprocess_start(m[i].sub) == 0, "start", "%s", cork_error_message()); } inj = NULL; wait_ready();
    unsigned char b[1000]; for (int i = 0; i < n; i++) b[i] = sub_byte(seed, i); VH_CHECK(cork_stream_consumer_data(cork_subprocess_stdin(m[0].sub), b, n, true) == 0 && cork_stream_consumer_eof(cork_subprocess_stdin(m[0].sub)) == 0, "stdin", "%s", cork_error_message());
    VH_CHECK(cork_subprocess_wait(m[0].sub) == 0, "wait", "%s", cork_error_message()); ended(&m[0], 0); VH_CHECK(alive(1) && !cork_subprocess_is_finished(m[1].sub), "other-ended", "the other subprocess ended");
    release(&gate_w[1]); VH_CHECK(cork_subprocess_wait(m[1].sub) == 0, "wait", "%s", cork_error_message()); ended(&m[1], 1); quiet("independent"); no_children("independent"); destroy(r); vh_count("subprocesses waited for while others run", 1);
}

/* a group of many */
#define CROWD 90
static struct { char script[100]; struct body body; struct cons out; bool piped, gated; int code, want; struct cork_subprocess *sub; } z[CROWD];
static void crowd(struct vh_rng *r)
{
    nm = 0; int n = 1 + vh_below(r, vh_chance(r, 1, 3) ? CROWD : 40), style = vh_below(r, 4), gated = 0, one = vh_below(r, n); unsigned char go[CROWD]; memset(go, '!', sizeof go);
    for (int i = 0; i < n; i++) {
        memset(&z[i], 0, sizeof z[i]); cons_init(&z[i].out, i, 1); z[i].piped = vh_chance(r, 1, 4); z[i].gated = style == 0 ? i == n - 1 : style == 1 ? i == one : style == 2 ? i >= one : vh_chance(r, 1, 2); gated += z[i].gated; z[i].code = 0x5a5a5a; z[i].want = vh_below(r, 90);
        uint64_t seed = vh_u64(r) >> 8; int w = snprintf(z[i].script, sizeof z[i].script, "%s", z[i].gated ? "g150 " : ""); if (z[i].piped) { int k = 1 + vh_below(r, 50); w += snprintf(z[i].script + w, sizeof z[i].script - w, "o%d,70000,%" PRIu64 " ", k, seed); cons_expect(&z[i].out, k, seed, 0); }
        snprintf(z[i].script + w, sizeof z[i].script - w, "x%d", z[i].want); z[i].body.script = z[i].script;
        z[i].sub = cork_subprocess_new(&z[i].body, body_free, body_run, z[i].piped ? &z[i].out.c : NULL, NULL, &z[i].code); cork_subprocess_group_add(g, z[i].sub);
    }
    vh_trace("a group of %d, %d at the gate (style %d, %d)", n, gated, style, one); inj = r; inj_eintr = inj_short = false;
    VH_CHECK(cork_subprocess_group_start(g) == 0, "start", "%s", cork_error_message()); VH_CHECK(n_forked == n, "start", "%d of %d subprocesses were started", n_forked, n);
    bool abort = vh_chance(r, 1, 3);
    if (gated) {
        /* until only those at the gate are left */
        for (bool others = true; others; ) { cork_subprocess_group_drain(g); VH_CHECK(!cork_error_occurred(), "stray-error", "%s", cork_error_message()); VH_CHECK(!cork_subprocess_group_is_finished(g), "finished-early", "a group of %d is said to be finished, %d still run", n, gated); others = false; for (int i = 0; i < n; i++) others |= !z[i].gated && !cork_subprocess_is_finished(z[i].sub); if (others) usleep(200); }
        for (int i = 0; i < n; i++) if (z[i].gated) VH_CHECK(alive(i) && !cork_subprocess_is_finished(z[i].sub) && z[i].code == 0x5a5a5a, "finished-early", "member %d of %d, which still runs, is said to be finished", i, n);
        VH_CHECK(!cork_subprocess_group_drain(g), "progress", "draining a group that does nothing made progress");
    }
    if (abort) { VH_CHECK(cork_subprocess_group_abort(g) == 0, "abort", "%s", cork_error_message()); vh_count("crowds aborted", 1); }
    else { if (gated && __real_write(gate_w[0], go, gated) != gated) vh_broken("gate"); VH_CHECK(cork_subprocess_group_wait(g) == 0, "wait", "%s", cork_error_message()); }
    no_children(abort ? "after abort" : "after waiting"); inj = NULL;
    for (int i = 0; i < n; i++) {
        if (!abort || (gated && !z[i].gated)) VH_CHECK(z[i].code == z[i].want, "exit-code", "member %d of %d exited with %d, reported as %d", i, n, z[i].want, z[i].code);
        else VH_CHECK(z[i].code != 0x5a5a5a && (z[i].code || !z[i].gated), "exit-code", "member %d of %d was terminated, its exit code is %d", i, n, z[i].code);
        if (!abort) { VH_CHECK(cork_subprocess_is_finished(z[i].sub), "not-finished", "member %d of %d is not finished", i, n); if (z[i].piped) cons_complete(&z[i].out); }
    }
    if (!abort) VH_CHECK(cork_subprocess_group_is_finished(g), "not-finished", "the group is not finished");
    cork_subprocess_group_free(g); g = NULL; for (int i = 0; i < n; i++) VH_CHECK(z[i].body.frees == 1, "user-data", "the user data of member %d of %d was freed %d times", i, n, z[i].body.frees);
    vh_count("members of large groups", n); vh_sig(n * 4 + style); if (n > 33) vh_count("groups of more than 33", 1);
}

static void general(struct vh_rng *r)
{
    bool all_gated = true, any = false, daemons = false; 
    for (int i = 0; i < nm; i++) { plan(&m[i], i, r); make(&m[i]); if (g) cork_subprocess_group_add(g, m[i].sub); if (m[i].daemon) daemons = true; if (!m[i].gated) all_gated = false; any |= m[i].gated; vh_trace("subprocess %d (%s): %s", i, m[i].exec ? "program" : "function", m[i].script); vh_sig_bytes(m[i].script, m[i].sn); }
    inj = r; inj_eintr = inj_short = false; if (g) VH_CHECK(cork_subprocess_group_start(g) == 0, "start", "%s", cork_error_message()); else for (int i = 0; i < nm; i++) VH_CHECK(cork_subprocess_start(m[i].sub) == 0, "start", "%s", cork_error_message()); inj = NULL;
    wait_ready(); for (int i = 0; i < nm; i++) if (m[i].daemon) { }
    /* everybody who is gated has printed what it prints first, and does nothing */
    if (vh_chance(r, 3, 4)) {
        uint64_t ev = cons_events; bool p = false; uint64_t rounds = 1 + vh_below(r, 3);
        if (g && vh_chance(r, 2, 3)) p = cork_subprocess_group_drain(g); else for (int i = 0; i < nm; i++) { uint64_t e0 = cons_events, d0 = m[i].out.got + m[i].err.got; bool q = cork_subprocess_drain(m[i].sub); p = p || q; VH_CHECK(q || e0 == cons_events || d0 == m[i].out.got + m[i].err.got, "progress", "draining subprocess %d delivered data and returned false", i); }
        for (int i = 0; i < nm; i++) if (m[i].gated) for (int k = 0; k < 2; k++) { struct cons *c = k ? &m[i].err : &m[i].out; VH_CHECK(c->got == m[i].pre[k], "not-drained", "after a drain only %" PRIu64 " of the %" PRIu64 " bytes that subprocess %d had printed on %s arrived", c->got, m[i].pre[k], i, k ? "stderr" : "stdout"); }
        (void) ev; vh_count("drains", 1);
        for (uint64_t k = 0; k < rounds; k++) { if (g) cork_subprocess_group_drain(g); else for (int i = 0; i < nm; i++) cork_subprocess_drain(m[i].sub); }
        for (int i = 0; i < nm; i++) if (m[i].gated) {
            for (int k = 0; k < 2; k++) { struct cons *c = k ? &m[i].err : &m[i].out; VH_CHECK(c->eofs == m[i].closed[1 + k], "end", "subprocess %d %s its %s, its end was signalled %d times", i, m[i].closed[1 + k] ? "closed" : "did not close", k ? "stderr" : "stdout", c->eofs); if (c->eofs) vh_count("streams that ended early", 1); }
            VH_CHECK(!cork_subprocess_is_finished(m[i].sub), "finished-early", "subprocess %d still runs, but is said to be finished", i); VH_CHECK(alive(i), "ended-early", "subprocess %d was ended", i);
            uint64_t e0 = cons_events; VH_CHECK(!cork_subprocess_drain(m[i].sub), "progress", "draining a subprocess that does nothing made progress"); VH_CHECK(e0 == cons_events, "progress", "draining called a consumer without reason"); vh_count("drains of subprocesses that do nothing", 1);
            if (m[i].closed[0] && !m[i].daemon) { VH_CHECK(cork_stream_consumer_data(cork_subprocess_stdin(m[i].sub), "x", 1, true) == -1 && cork_error_occurred(), "closed-stdin", "writing to a closed stdin succeeded"); VH_CHECK(cork_error_code() == EPIPE, "closed-stdin", "writing to a closed stdin: %s", cork_error_message()); cork_error_clear(); vh_count("writes to a closed stdin", 1); }
        }
        if (g && any) VH_CHECK(!cork_subprocess_group_is_finished(g), "finished-early", "the group is said to be finished");
        if (g && all_gated) VH_CHECK(!cork_subprocess_group_drain(g), "progress", "draining a group that does nothing made progress");
        VH_CHECK(!cork_error_occurred(), "stray-error", "%s", cork_error_message());
    }
    int ending = vh_below(r, 6), releaser = 0; vh_sig(ending); vh_trace("ending %d", ending);
    if (ending <= 2) {
        /* let them go, now or while we wait */
        if (vh_chance(r, 1, 2)) { uint64_t s = vh_u64(r); fflush(NULL); pid_t p = __real_fork(); if (p < 0) vh_broken("fork"); if (p == 0) { struct vh_rng q; vh_seed(&q, s, 0); prctl(PR_SET_PDEATHSIG, SIGKILL); for (int i = 0; i < nm; i++) { usleep(vh_below(&q, vh_chance(&q, 1, 4) ? 8000 : 300)); release(&gate_w[i]); } _exit(0); } releaser = 1; for (int i = 0; i < nm; i++) { close(gate_w[i]); gate_w[i] = -1; } }
        else { int o = vh_below(r, nm); for (int i = 0; i < nm; i++) release(&gate_w[(i + o) % nm]); }
        inj = r; inj_eintr = vh_chance(r, 1, 3);
        if (ending == 0 || !vh_chance(r, 1, 2)) { if (g) VH_CHECK(cork_subprocess_group_wait(g) == 0, "wait", "%s", cork_error_message()); else { int o = vh_below(r, nm); for (int i = 0; i < nm; i++) VH_CHECK(cork_subprocess_wait(m[(i + o) % nm].sub) == 0, "wait", "%s", cork_error_message()); } vh_count("waits", 1); }
        else for (;;) {
            bool fin = true; if (g) fin = cork_subprocess_group_is_finished(g); else for (int i = 0; i < nm; i++) fin = fin && cork_subprocess_is_finished(m[i].sub); if (fin) break;
            if (g) cork_subprocess_group_drain(g); else for (int i = 0; i < nm; i++) cork_subprocess_drain(m[i].sub); VH_CHECK(!cork_error_occurred(), "stray-error", "%s", cork_error_message()); usleep(vh_below(r, 200));
        }
        inj = NULL; no_children("after waiting"); for (int i = 0; i < nm; i++) { ended(&m[i], i); if (m[i].daemon) vh_count("descendants left running", 1); } quiet("after waiting");
    } else if (ending <= 4) {
        bool done[MAXM] = { false };
        if (g && nm > 1 && vh_chance(r, 1, 6)) {        /* someone else has waited for one of them: the others are terminated all the same */
            int v = vh_below(r, nm), st; if (alive(v)) __real_kill(forked[v], SIGKILL); if (__real_waitpid(forked[v], &st, 0) != forked[v] && errno != ECHILD) vh_broken("waitpid");
            int rc = cork_subprocess_group_abort(g); VH_CHECK((rc == 0) == !cork_error_occurred(), "abort", "abort returned %d, error %s", rc, cork_error_occurred() ? cork_error_message() : "(none)"); cork_error_clear(); no_children("after an abort with a member that is gone"); vh_count("aborts with a member that is gone", 1); goto end;
        }
        if (!g && nm > 1 && vh_chance(r, 1, 2)) {       /* only some of them */
            for (int i = 0; i < nm; i++) if (vh_chance(r, 1, 2)) { VH_CHECK(cork_subprocess_abort(m[i].sub) == 0, "abort", "%s", cork_error_message()); done[i] = true; int st; VH_CHECK(__real_waitpid(forked[i], &st, WNOHANG) == -1 && errno == ECHILD, "process-left", "after abort the process is still there"); cut(&m[i], i, "by abort"); }
            for (int i = 0; i < nm; i++) if (!done[i] && m[i].gated) VH_CHECK(alive(i), "other-ended", "subprocess %d was ended by another's abort", i);
            for (int i = 0; i < nm; i++) if (!done[i]) { release(&gate_w[i]); VH_CHECK(cork_subprocess_wait(m[i].sub) == 0, "wait", "%s", cork_error_message()); ended(&m[i], i); }
            vh_count("aborts of some", 1);
        } else {
            for (int k = 0; k < 2; k++) { if (g && vh_chance(r, 4, 5)) VH_CHECK(cork_subprocess_group_abort(g) == 0, "abort", "%s", cork_error_message()); else for (int i = 0; i < nm; i++) VH_CHECK(cork_subprocess_abort(m[i].sub) == 0, "abort", "%s", cork_error_message()); if (k == 0) { no_children("after abort"); for (int i = 0; i < nm; i++) cut(&m[i], i, "by abort"); } }
            vh_count("aborts", 1);
        }
        /* what they had written can still be read - once their descendants are gone, until its end */
        if (vh_chance(r, 1, 2)) {
            for (int i = 0; i < nm; i++) release(&gate2_w[i]);
            if (g) VH_CHECK(cork_subprocess_group_wait(g) == 0, "wait", "%s", cork_error_message()); else for (int i = 0; i < nm; i++) VH_CHECK(cork_subprocess_wait(m[i].sub) == 0, "wait", "%s", cork_error_message());
            for (int i = 0; i < nm; i++) { VH_CHECK(m[i].out.eofs == 1 && m[i].err.eofs == 1, "end", "after abort and wait the streams have not ended"); if (m[i].gated) VH_CHECK(m[i].out.got >= m[i].pre[0] && m[i].err.got >= m[i].pre[1], "lost-data", "what subprocess %d had printed was lost by abort", i); }
            quiet("after abort");
        }
    } else {
        /* reading fails: everybody is terminated */
        int v = vh_below(r, nm); bool by_read = false; struct cons *c = vh_chance(r, 1, 2) ? &m[v].out : &m[v].err; if (vh_chance(r, 1, 3)) by_read = true; else { c->fail_at = c->calls + 1; c->fail_eof = true; if (c->eofs) c = NULL; }
        if (!c) { for (int i = 0; i < nm; i++) VH_CHECK(cork_subprocess_abort(m[i].sub) == 0, "abort", "%s", cork_error_message()); goto end; }
        release(&gate_w[v]); cons_failed = NULL; fail_read = by_read ? 1 + vh_below(r, 4) : 0; read_failed = 0; inj = r; inj_eintr = false; int rc = 0;
        /* it fails sooner or later, unless the failing read is never reached */
        if (vh_chance(r, 1, 2) && !by_read) rc = g ? cork_subprocess_group_wait(g) : cork_subprocess_wait(m[v].sub);
        else for (;;) { bool p = g ? cork_subprocess_group_drain(g) : cork_subprocess_drain(m[v].sub); if (cork_error_occurred()) { VH_CHECK(!p, "progress", "a failing drain returned true"); rc = -1; break; } if (cork_subprocess_is_finished(m[v].sub)) break; usleep(100); }
        inj = NULL; fail_read = 0;
        if (by_read && !read_failed) { VH_CHECK(rc == 0, "wait", "%s", cork_error_message()); for (int i = 0; i < nm; i++) VH_CHECK(cork_subprocess_abort(m[i].sub) == 0, "abort", "%s", cork_error_message()); goto end; }
        VH_CHECK(by_read || cons_failed, "not-called", "the consumer was not called"); VH_CHECK(rc == -1, "error-lost", "%s failed, but the result is %d", by_read ? "reading" : "a consumer", rc);
        VH_CHECK(cork_error_occurred() && cork_error_code() == (by_read ? (cork_error) EIO : CONS_ERROR), "error-changed", "the error is %u: %s", (unsigned) cork_error_code(), cork_error_occurred() ? cork_error_message() : "(none)"); cork_error_clear();
        if (g) no_children("after a failure"); else { int st; VH_CHECK(__real_waitpid(forked[v], &st, WNOHANG) == -1 && errno == ECHILD, "process-left", "after a failure the process is still there"); for (int i = 0; i < nm; i++) if (i != v && m[i].gated) VH_CHECK(alive(i), "other-ended", "subprocess %d was ended by another's failure", i); for (int i = 0; i < nm; i++) VH_CHECK(cork_subprocess_abort(m[i].sub) == 0, "abort", "%s", cork_error_message()); }
        vh_count(by_read ? "read errors injected" : "consumers that failed", 1);
        for (int i = 0; i < nm; i++) if (g) VH_CHECK(m[i].code != 0x5a5a5a || !m[i].has_code, "exit-code", "no exit code after termination");
    }
end:
    no_children("at the end"); destroy(r); for (int i = 0; i < nm; i++) release(&gate2_w[i]);
    /* descendants become our children; how many there are depends on how far their parents came */
    if (ending <= 2) { int n = releaser; for (int i = 0; i < nm; i++) if (m[i].daemon) n++; reap_all(n); } else { int st; while (__real_waitpid(-1, &st, 0) > 0) {} }
    (void) daemons;
}

void vh_setup(void) { sub_setup(); vh_crowd = 20; vh_bare = 20; vh_crowd_gap_lo = READY - 2; vh_crowd_gap_hi = 190; }
void vh_case(struct vh_rng *r, uint64_t index)
{
    uint64_t serial = vh_alloc_serial(); int fds0 = vh_open_fds(), p[2], ready_w; n_forked = 0; cons_failed = NULL; fail_read = 0; cork_error_clear(); nready = ndaemons = 0;
    nm = vh_chance(r, 1, 3) ? 1 : 1 + vh_below(r, MAXM); bool group = vh_chance(r, 3, 5); int kind = vh_below(r, 10); if (kind == 9) group = false; bool many = vh_chance(r, 1, 25); if (many) group = true;
    if (__real_pipe(p)) vh_broken("pipe"); ready_r = p[0]; ready_w = p[1]; move(&ready_w, READY); __real_fcntl(ready_r, F_SETFD, FD_CLOEXEC); move(&ready_r, READY + 1); __real_fcntl(ready_r, F_SETFD, FD_CLOEXEC);
    for (int i = 0; i < MAXM; i++) for (int k = 0; k < 2; k++) { if (__real_pipe(p)) vh_broken("pipe"); __real_fcntl(p[0], F_SETPIPE_SZ, 4096); move(&p[0], (k ? GATE2 : GATE) + i); move(&p[1], (k ? GATE2 : GATE) + 10 + i); __real_fcntl(p[1], F_SETFD, FD_CLOEXEC); (k ? gate2_w : gate_w)[i] = p[1]; }
    int fds = vh_open_fds(); g = group ? cork_subprocess_group_new() : NULL;
    if (many) crowd(r); else if (kind == 0 && vh_chance(r, 1, 3)) { if (vh_chance(r, 1, 4)) nm = 0; idle(r); } else if (kind <= 1) limited(r); else if (kind == 9) independent(r); else general(r);
    int open = 0; for (int i = 0; i < MAXM; i++) for (int k = 0; k < 2; k++) { int *w = &(k ? gate2_w : gate_w)[i]; if (*w < 0) open++; }
    VH_CHECK(vh_open_fds() == fds - open, "descriptor-leak", "%d descriptors left open", vh_open_fds() - (fds - open)); vh_alloc_expect_balanced(serial, "leak");
    for (int i = 0; i < MAXM; i++) { for (int k = 0; k < 2; k++) { int *w = &(k ? gate2_w : gate_w)[i]; if (*w >= 0) close(*w); close((k ? GATE2 : GATE) + i); } } close(ready_w); close(ready_r);
    reap_all(0); VH_CHECK(vh_open_fds() == fds0, "descriptor-leak", "%d descriptors too many are open after everything was freed", vh_open_fds() - fds0); vh_count("interruptions injected", n_eintr); n_eintr = 0;
    vh_sig(kind * 100 + nm * 2 + group); if (nm > 0) vh_nontrivial(); if (vh_want_sample() && nm) vh_sample("%d subprocesses, kind %d, the first (%s): %.150s", nm, kind, m[0].exec ? "program" : "function", m[0].script);
}
