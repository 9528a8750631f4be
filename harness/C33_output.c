/* C33: what subprocesses print and read, and their exit codes. */
#include "subproc.h"

#define MAXM 6
struct member {
    bool exec, own_out, own_err, has_code; char script[2000]; size_t sn; struct cons out, err; int code, want, sig; struct body body; struct cork_subprocess *sub; struct cork_exec *x;
    uint64_t feed, fed, feed_seed; int feed_kind, echo_seg; bool feed_eof; size_t inline_first; int reads;
    char *inherit[2];
};
enum { FEED_NONE, FEED_FIRST, FEED_BIG, FEED_ECHO };
static struct member m[MAXM]; static int nm;

static void op(struct member *x, const char *fmt, ...) { va_list ap; va_start(ap, fmt); x->sn += vsnprintf(x->script + x->sn, sizeof x->script - x->sn, fmt, ap); va_end(ap); if (x->sn >= sizeof x->script) vh_broken("script"); }
/* what certainly fits into a pipe (less than usual if this user has many) */
static uint64_t pipe_room(void) { int p[2], n; if (__real_pipe(p)) vh_broken("pipe"); n = __real_fcntl(p[0], F_GETPIPE_SZ); close(p[0]); close(p[1]); return n < 4096 ? 1000 : n < 65536 ? n / 3 : 30000; }
static uint64_t volume(struct vh_rng *r) { switch (vh_below(r, 8)) { case 0: return 1; case 1: return 4095 + vh_below(r, 3); case 2: return 65535 + vh_below(r, 3); case 3: return vh_below(r, 300000); case 4: return vh_chance(r, 1, vh.tier ? 4 : 20) ? vh_below(r, 3000000) : vh_below(r, 100000); default: return vh_below(r, 5000); } }
/* what a member does; its streams' expectations */
static void plan(struct member *x, int who, struct vh_rng *r)
{
    x->sn = 0; x->script[0] = 0; x->want = 0; x->sig = 0; x->feed = x->fed = 0; x->feed_kind = vh_chance(r, 1, 2) ? FEED_NONE : 1 + vh_below(r, 3); x->feed_eof = false; x->feed_seed = vh_u64(r) >> 8; x->reads = 0;
    bool done = false; int n = vh_below(r, vh_chance(r, 1, 8) ? 20 : 7), when = vh_below(r, n + 1);
    if (x->feed_kind == FEED_BIG) { x->feed = vh_below(r, 500000); when = 0; }
    if (x->feed_kind == FEED_FIRST) x->feed = vh_below(r, pipe_room());
    if (x->feed_kind == FEED_ECHO) { x->feed = volume(r); if (x->own_out) x->feed_kind = FEED_NONE, x->feed = 0; }
    for (int i = 0; i <= n && !done; i++) {
        if (i == when && x->feed_kind) {
            x->feed_eof = true;
            if (x->feed_kind == FEED_ECHO) { op(x, "E%" PRIu64 " ", x->feed); x->echo_seg = x->out.nseg; cons_expect(&x->out, x->feed, x->feed_seed, 0); if (vh_chance(r, 1, 2)) op(x, "I0,%" PRIu64 ",%" PRIu64 " ", x->feed, x->feed_seed); }
            else { uint64_t a = vh_chance(r, 1, 2) ? 0 : vh_below(r, x->feed + 1); if (a) op(x, "n%" PRIu64 ",0,%" PRIu64 " ", a, x->feed_seed); op(x, "I%" PRIu64 ",%" PRIu64 ",%" PRIu64 " ", x->feed - a, a, x->feed_seed); }
        }
        switch (vh_below(r, 10)) {
        case 0: case 1: case 2: case 3: { uint64_t k = volume(r), seed = vh_u64(r) >> 8, ch = vh_chance(r, 1, 3) ? 1 + vh_below(r, 100) : 1 + vh_below(r, 70000); if (ch < 16 && k > 2000) k = 2000; op(x, "o%" PRIu64 ",%" PRIu64 ",%" PRIu64 " ", k, ch, seed); cons_expect(&x->out, k, seed, 0); break; }
        case 4: case 5: case 6: { uint64_t k = volume(r), seed = vh_u64(r) >> 8, ch = vh_chance(r, 1, 3) ? 1 + vh_below(r, 100) : 1 + vh_below(r, 70000); if (ch < 16 && k > 2000) k = 2000; op(x, "e%" PRIu64 ",%" PRIu64 ",%" PRIu64 " ", k, ch, seed); cons_expect(&x->err, k, seed, 0); break; }
        case 7: case 8: op(x, "s%d ", vh_chance(r, 1, 10) ? (int) vh_below(r, 20000) : (int) vh_below(r, 500)); break;
        default: if (vh_chance(r, 1, 3) && i > 0 && i > when) { int k = vh_below(r, 3); if (k != 1) { op(x, "c2 "); } if (k != 0) op(x, "c1 "); op(x, "s%d ", (int) vh_below(r, 3000)); done = true; }
        }
    }
    if (when > n || (done && x->feed_kind && !x->feed_eof)) vh_broken("plan");
    int e = vh_below(r, 8);
    if (e == 0) { static const int sg[] = { SIGKILL, SIGTERM, SIGUSR2, SIGHUP, SIGUSR1, SIGALRM, SIGPIPE, SIGABRT, SIGINT }; x->sig = sg[vh_below(r, 9)]; op(x, "k%d", x->sig); }
    else if (e < 4) { do x->want = 1 + vh_below(r, 255); while (x->want >= 90 && x->want <= 99); op(x, "x%d", x->want); }
    else if (e == 5 && !x->exec) { static const int res[] = { 256, 512, 65536, -256, INT_MIN, 300, -1, -2, 511, INT_MAX, 769 }; int k = res[vh_below(r, 11)]; x->want = k & 255; if (x->want == 0) x->want = -1; op(x, "x%d", k); vh_count("functions with results beyond 8 bits", 1); }
    else if (e == 4) op(x, "x0");
    x->body.set_error = vh_chance(r, 1, 3); x->body.script = x->script;
    x->err.lenient = !x->exec && x->want && x->body.set_error;      /* the message is printed as well */
    (void) who;
}
static void make(struct member *x)
{
    struct cork_stream_consumer *o = x->own_out ? NULL : &x->out.c, *e = x->own_err ? NULL : &x->err.c; int *code = x->has_code ? &x->code : NULL;
    if (x->exec) { struct cork_exec *ex = cork_exec_new_with_params(child_program, x->script, NULL); x->sub = cork_subprocess_new_exec(ex, o, e, code); x->x = ex; }
    else { x->body.frees = 0; x->sub = cork_subprocess_new(&x->body, body_free, body_run, o, e, code); }
    VH_CHECK(x->sub, "new", "no subprocess");
}
/* runs with the harness's own stdout and stderr replaced by files */
static int saved[2] = { -1, -1 };
static void redirect(struct member *x, int who)
{
    fflush(NULL);
    for (int k = 0; k < 2; k++) if (k ? x->own_err : x->own_out) {
        char p[PATH_MAX]; snprintf(p, sizeof p, "%s/inherit%d.%d", vh.scratch, who, k); free(x->inherit[k]); x->inherit[k] = strdup(p); int f = open(p, O_CREAT | O_TRUNC | O_WRONLY | O_APPEND | O_CLOEXEC, 0600); if (f < 0) vh_broken("open %s", p);
        if (saved[k] < 0) saved[k] = fcntl(1 + k, F_DUPFD_CLOEXEC, 200); dup2(f, 1 + k); close(f);
    }
}
static void restore(void) { fflush(NULL); for (int k = 0; k < 2; k++) if (saved[k] >= 0) { dup2(saved[k], 1 + k); close(saved[k]); saved[k] = -1; } }

static void feed_data(struct member *x, struct vh_rng *r, uint64_t n, bool whole)
{
    static unsigned char b[500000]; struct cork_stream_consumer *c = cork_subprocess_stdin(x->sub);
    while (n) {
        size_t k = whole ? n : 1 + vh_below(r, n < 20000 ? n : 20000); for (size_t i = 0; i < k; i++) b[i] = sub_byte(x->feed_seed, x->fed + i);
        VH_CHECK(cork_stream_consumer_data(c, b, k, x->fed == 0) == 0, "stdin", "writing %zu bytes to a subprocess failed: %s", k, cork_error_message());
        x->fed += k; n -= k; vh_count("bytes written to stdin", k);
    }
}
static void end_stdin(struct member *x) { VH_CHECK(cork_stream_consumer_eof(cork_subprocess_stdin(x->sub)) == 0, "stdin", "closing stdin failed: %s", cork_error_message()); }
/* true if echo members still have something to send */
static bool feed_more(struct vh_rng *r)
{
    bool more = false; uint64_t room0 = pipe_room();
    for (int i = 0; i < nm; i++) {
        struct member *x = &m[i]; if (x->feed_kind != FEED_ECHO || x->fed == x->feed) continue;
        uint64_t back = x->out.at > x->echo_seg ? x->feed : x->out.at == x->echo_seg ? x->out.off : 0, room = x->fed - back < room0 ? room0 - (x->fed - back) : 0, n = x->feed - x->fed;
        if (n > room) n = room; if (n) n = 1 + vh_below(r, n); feed_data(x, r, n, false);
        if (x->fed == x->feed && (x->feed_eof || vh_chance(r, 1, 2))) end_stdin(x);
        if (x->fed < x->feed) more = true;
    }
    return more;
}
static void finished(struct member *x, int i)
{
    VH_CHECK(cork_subprocess_is_finished(x->sub), "not-finished", "subprocess %d is not finished", i);
    if (x->has_code) {
        if (x->sig) VH_CHECK(x->code != 0 && x->code != 0x5a5a5a, "exit-code", "subprocess %d was killed by signal %d, its exit code is %d", i, x->sig, x->code);
        else if (x->want < 0) VH_CHECK(x->code != 0 && x->code != 0x5a5a5a, "exit-code", "subprocess %d is a function whose result is not zero (though a multiple of 256), its exit code is %d", i, x->code);
        else VH_CHECK(x->code == x->want, "exit-code", "subprocess %d (%s) exited with %d, reported as %d", i, x->exec ? "program" : "function", x->want, x->code);
        vh_count("exit codes compared", 1); if (x->sig) vh_count("subprocesses killed by a signal", 1);
    }
    for (int k = 0; k < 2; k++) {
        struct cons *c = k ? &x->err : &x->out;
        if (!(k ? x->own_err : x->own_out)) { cons_complete(c); vh_count("streams complete", 1); vh_count("bytes received", c->got); if (c->total > 65536) vh_count("streams larger than a pipe", 1); }
        else { FILE *f = fopen(x->inherit[k], "rb"); if (!f) vh_broken("inherit"); static unsigned char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) cons_data(&c->c, b, n, c->calls == 0); fclose(f); c->eofs++; cons_complete(c); vh_count("inherited streams", 1); }
    }
    vh_count(x->exec ? "programs" : "functions", 1);
}
static void held_by_function(void)
{
    /* Known finding: a function subprocess keeps the other subprocesses' stdin open. */
    int p[2]; if (__real_pipe(p)) vh_broken("pipe"); int before = vh_open_fds(); main_pid = getpid(); int code[2] = { -1, -1 }; char script[40] = ""; struct body b = { .script = script };
    struct cork_exec *ex = cork_exec_new_with_params(child_program, "I0", NULL);
    struct cork_subprocess *a = cork_subprocess_new_exec(ex, NULL, NULL, &code[0]);
    /* a's stdin: the lowest free descriptors */
    int lo[3], free_fd[3]; for (int i = 0; i < 3; i++) lo[i] = __real_fcntl(0, F_DUPFD, 3); for (int i = 0; i < 3; i++) { free_fd[i] = lo[i]; close(lo[i]); }
    VH_CHECK(cork_subprocess_start(a) == 0, "start", "cannot start: %s", cork_error_message());
    int w = -1; for (int i = 0; i < 3; i++) if (__real_fcntl(free_fd[i], F_GETFD) != -1 && (__real_fcntl(free_fd[i], F_GETFL) & O_ACCMODE) == O_WRONLY) w = free_fd[i];
    VH_CHECK(w >= 0, "stdin-closed", "a subprocess's standard input is not open in its parent");
    snprintf(script, sizeof script, "l%d", w);
    struct cork_subprocess *f = cork_subprocess_new(&b, body_free, body_run, NULL, NULL, &code[1]);
    VH_CHECK(cork_subprocess_start(f) == 0, "start", "cannot start: %s", cork_error_message());
    VH_CHECK(cork_stream_consumer_eof(cork_subprocess_stdin(a)) == 0, "stdin", "eof"); VH_CHECK(cork_subprocess_wait(f) == 0, "wait", "wait"); VH_CHECK(cork_subprocess_wait(a) == 0 && code[0] == 0, "wait", "wait: code %d", code[0]);
    cork_subprocess_free(a); cork_subprocess_free(f); VH_CHECK(vh_open_fds() == before, "descriptor-leak", "descriptors"); close(p[0]); close(p[1]);
    if (code[1] == 92) vh_fail("stdin-held-by-function", "a function subprocess started later holds the write end of an earlier subprocess's stdin, which does not end before both are closed");
    VH_CHECK(code[1] == 0, "exit-code", "function: code %d", code[1]);
}

void vh_setup(void) { sub_setup(); vh_crowd = 20; vh_bare = 20; }
void vh_case(struct vh_rng *r, uint64_t index)
{
    uint64_t serial = vh_alloc_serial(); if (index == 0) { held_by_function(); vh_alloc_expect_balanced(serial, "leak"); return; }
    int fds = vh_open_fds(); struct vh_rng ir; vh_seed(&ir, vh_u64(r), 1); bool group = vh_chance(r, 2, 3), failing = vh_chance(r, 1, 6); n_forked = 0; cons_failed = NULL; cork_error_clear();
    nm = vh_chance(r, 1, 3) ? 1 : 1 + vh_below(r, MAXM); bool used[2] = { false }, all_exec = true, early_eof = false; struct cork_subprocess_group *g = group ? cork_subprocess_group_new() : NULL;
    inj_short = vh_chance(r, 1, 3); inj_eintr = vh_chance(r, 1, 3);
    for (int i = 0; i < nm; i++) {
        struct member *x = &m[i]; x->exec = vh_chance(r, 1, 2); x->own_out = vh_chance(r, 1, 8) && !used[0] && !vh_bare_mask; x->own_err = vh_chance(r, 1, 8) && !used[1] && !vh_bare_mask; used[0] |= x->own_out; used[1] |= x->own_err; x->has_code = vh_chance(r, 7, 8); x->code = 0x5a5a5a;
        cons_init(&x->out, i, 1); cons_init(&x->err, i, 2); plan(x, i, r); all_exec = all_exec && x->exec; if (x->feed_kind == FEED_ECHO || x->feed_eof) early_eof = true;
        vh_trace("subprocess %d (%s): %s%s%s feed %" PRIu64 " kind %d", i, x->exec ? "program" : "function", x->script, x->own_out ? " (inherits stdout)" : "", x->own_err ? " (inherits stderr)" : "", x->feed, x->feed_kind);
        vh_sig_bytes(x->script, x->sn); make(x); if (group) cork_subprocess_group_add(g, x->sub);
        if (failing && vh_chance(r, 1, 2)) { bool k = vh_chance(r, 1, 2); struct cons *c = k ? &x->out : &x->err; if (k ? x->own_out : x->own_err) continue; if (vh_chance(r, 1, 4)) c->fail_eof = true; else c->fail_at = 1 + vh_below(r, 6); }
    }
    int rounds = vh_chance(r, 1, 6) ? 2 : 1;
    for (int round = 0; round < rounds; round++) {
        if (round) {    /* run them again; every stdin was ended */
            for (int i = 0; i < nm; i++) { struct member *x = &m[i]; cons_restart(&x->out); cons_restart(&x->err); x->fed = 0; x->code = 0x5a5a5a; end_stdin(x);
                /* the same script: expect the same again */
                const char *s = x->script; while (*s) { char o = *s; uint64_t v[3] = { 0 }; char *e; s++; for (int q = 0; q < 3; q++) { v[q] = strtoull(s, &e, 10); s = e; if (*s != ',') break; s++; } if (o == 'o') cons_expect(&x->out, v[0], v[2], 0); if (o == 'e') cons_expect(&x->err, v[0], v[2], 0); if (o == 'E') cons_expect(&x->out, v[0], x->feed_seed, 0); while (*s == ' ') s++; }
            }
            vh_count("subprocesses run again", nm);
        }
        inj = NULL; for (int i = 0; i < nm; i++) redirect(&m[i], i);
        inj = &ir;
        int rc = 0;
        if (group) rc = cork_subprocess_group_start(g); else for (int i = 0; i < nm && rc == 0; i++) rc = cork_subprocess_start(m[i].sub);
        inj = NULL; restore(); VH_CHECK(rc == 0, "start", "cannot start: %s", cork_error_message()); inj = &ir;
        /* standard input */
        for (int i = 0; i < nm; i++) {
            struct member *x = &m[i]; inj = &ir;
            if (x->feed_kind == FEED_FIRST) feed_data(x, r, x->feed, vh_chance(r, 1, 2)); if (x->feed_kind == FEED_BIG) feed_data(x, r, x->feed, vh_chance(r, 1, 2));
            if (x->feed_kind == FEED_FIRST || x->feed_kind == FEED_BIG || (x->feed_kind == FEED_NONE && vh_chance(r, 1, 2))) { end_stdin(x); if (vh_chance(r, 1, 8)) end_stdin(x); }
        }
        bool all = true; for (int i = 0; i < nm; i++) if (m[i].feed_kind == FEED_ECHO) { all = false; if (m[i].feed == 0) end_stdin(&m[i]); }
        int drive = vh_below(r, 3), turns = 0; rc = 0;
        bool separately = !group && (all_exec || !early_eof) && all && vh_chance(r, 1, 2);
        vh_trace("%s, %s", group ? "group" : separately ? "one after the other" : "together", drive == 0 && all ? "wait" : drive == 1 ? "drain" : "drain, then wait");
        if (separately) {
            int order[MAXM]; for (int i = 0; i < nm; i++) order[i] = i; for (int i = nm - 1; i > 0; i--) { int k = vh_below(r, i + 1), t = order[i]; order[i] = order[k]; order[k] = t; }
            for (int i = 0; i < nm && rc == 0; i++) { struct member *x = &m[order[i]]; rc = cork_subprocess_wait(x->sub); }
        } else for (;;) {
            bool more = feed_more(r), fin = true;
            if (group) fin = cork_subprocess_group_is_finished(g); else for (int i = 0; i < nm; i++) fin = fin && cork_subprocess_is_finished(m[i].sub);
            if (fin) { VH_CHECK(!more, "early", "finished before everything was fed"); break; }
            if (!more && all && drive != 1 && turns >= (drive == 0 ? 0 : 3)) {
                if (group) rc = cork_subprocess_group_wait(g); else { /* each alone could wait for one that is not drained */ for (int i = 0; i < nm && rc == 0; i++) if (nm == 1) rc = cork_subprocess_wait(m[i].sub); else break; }
                if (rc != 0) break; if (group || nm == 1) continue;
            }
            uint64_t ev = cons_events; bool p = false;
            if (group) p = cork_subprocess_group_drain(g); else for (int i = 0; i < nm; i++) { bool q = cork_subprocess_drain(m[i].sub); p = p || q; if (cork_error_occurred()) break; }
            turns++; if (cork_error_occurred()) { VH_CHECK(!p || !group, "progress", "a failing drain returned true: %s", cork_error_message()); rc = -2; break; }
            if (ev != cons_events) vh_count("drains with data", 1); if (!p) usleep(vh_below(r, 300));
            if (!more && !all) { bool now = true; for (int i = 0; i < nm; i++) if (m[i].feed_kind == FEED_ECHO && m[i].fed < m[i].feed) now = false; if (now) all = true; }
        }
        inj = NULL;
        if (cons_failed) {
            VH_CHECK(rc != 0, "consumer-error-lost", "a consumer failed, but waiting succeeded"); VH_CHECK(cork_error_code() == CONS_ERROR, "consumer-error-changed", "a consumer failed with its own error, reported is %u: %s", (unsigned) cork_error_code(), cork_error_message());
            vh_count("consumers that failed", 1); cork_error_clear(); if (!group) for (int i = 0; i < nm; i++) VH_CHECK(cork_subprocess_abort(m[i].sub) == 0, "abort", "abort failed");
            for (int i = 0; i < nm; i++) if (m[i].has_code) { VH_CHECK(m[i].code != 0x5a5a5a && (m[i].code || !(m[i].sig || m[i].want)), "exit-code", "subprocess %d was terminated after a failure or exited with %d, its exit code is %d", i, m[i].want, m[i].code); vh_count("exit codes after a failure", 1); }
            break;
        }
        VH_CHECK(rc == 0, "wait", "waiting failed: %s", cork_error_message()); VH_CHECK(!cork_error_occurred(), "stray-error", "an error was set: %s", cork_error_message());
        for (int i = 0; i < nm; i++) finished(&m[i], i);
        if (group) VH_CHECK(cork_subprocess_group_is_finished(g), "not-finished", "the group is not finished");
        if (round + 1 < rounds) for (int i = 0; i < nm; i++) if (!m[i].feed_kind) end_stdin(&m[i]);
        vh_count(group ? "groups" : "runs without a group", 1);
    }
    inj = NULL; no_children("at the end");
    if (group) cork_subprocess_group_free(g); else for (int i = 0; i < nm; i++) cork_subprocess_free(m[i].sub);
    for (int i = 0; i < nm; i++) { if (!m[i].exec) VH_CHECK(m[i].body.frees == 1, "user-data", "the user data was freed %d times", m[i].body.frees); for (int k = 0; k < 2; k++) { if (m[i].inherit[k]) { unlink(m[i].inherit[k]); free(m[i].inherit[k]); m[i].inherit[k] = NULL; } } }
    reap_all(0); VH_CHECK(vh_open_fds() == fds, "descriptor-leak", "%d descriptors open before, %d after", fds, vh_open_fds()); vh_alloc_expect_balanced(serial, "leak");
    vh_count("short transfers injected", n_short); vh_count("interruptions injected", n_eintr); n_short = n_eintr = 0;
    if (nm > 1 || m[0].out.total + m[0].err.total > 0) vh_nontrivial();
    if (vh_want_sample()) vh_sample("%d subprocesses, the first (%s): %.200s", nm, m[0].exec ? "program" : "function", m[0].script);
}
