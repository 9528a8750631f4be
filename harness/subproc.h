/* What C33 and C34 share: consumers that know what to expect, interposed
 * system calls, and a record of the processes that libcork forked. */
#include "vh.h"
#include <libcork/core.h>
#include <libcork/ds.h>
#include <libcork/os.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/wait.h>

pid_t __real_fork(void); ssize_t __real_read(int, void *, size_t); ssize_t __real_write(int, const void *, size_t); pid_t __real_waitpid(pid_t, int *, int); int __real_pipe(int *); int __real_fcntl(int, int, ...); int __real_kill(pid_t, int);
#define SUB_READ __real_read
#define SUB_WRITE __real_write
#define SUB_FORK __real_fork
#include "subscript.h"

static pid_t main_pid; static struct vh_rng *inj; static bool inj_short, inj_eintr; static uint64_t n_short, n_eintr;
static int fail_fork, fail_pipe, fail_fcntl, fail_read, read_failed;   /* fail the n-th call */
#define MAX_FORKED 256
static pid_t forked[MAX_FORKED]; static bool reaped[MAX_FORKED]; static int n_forked;
static bool mine(void) { return inj && getpid() == main_pid; }
pid_t __wrap_fork(void)
{
    if (mine() && fail_fork && --fail_fork == 0) { errno = EAGAIN; return -1; }
    pid_t p = __real_fork(); if (p > 0 && mine() && n_forked < MAX_FORKED) { reaped[n_forked] = false; forked[n_forked++] = p; } return p;
}
int __wrap_pipe(int *fds) { if (mine() && fail_pipe && --fail_pipe == 0) { errno = EMFILE; return -1; } return __real_pipe(fds); }
int __wrap_fcntl(int fd, int cmd, long arg) { if (mine() && fail_fcntl && --fail_fcntl == 0) { errno = ENOMEM; return -1; } return __real_fcntl(fd, cmd, arg); }
ssize_t __wrap_read(int fd, void *p, size_t n)
{
    if (!mine()) return __real_read(fd, p, n);
    if (inj_eintr && vh_chance(inj, 1, 8)) { n_eintr++; errno = EINTR; return -1; }
    if (fail_read) { int fl = __real_fcntl(fd, F_GETFL); if (fl >= 0 && (fl & O_NONBLOCK) && --fail_read == 0) { read_failed++; errno = EIO; return -1; } }
    if (inj_short && n > 1 && vh_chance(inj, 1, 4)) { n_short++; n = 1 + vh_below(inj, vh_chance(inj, 1, 2) ? n : n < 10 ? n : 10); }
    return __real_read(fd, p, n);
}
ssize_t __wrap_write(int fd, const void *p, size_t n)
{
    if (!mine()) return __real_write(fd, p, n);
    if (inj_eintr && vh_chance(inj, 1, 8)) { n_eintr++; errno = EINTR; return -1; }
    if (inj_short && n > 1 && vh_chance(inj, 1, 4)) { n_short++; n = 1 + vh_below(inj, vh_chance(inj, 1, 2) ? n : n < 10 ? n : 10); }
    return __real_write(fd, p, n);
}
pid_t __wrap_waitpid(pid_t pid, int *st, int fl)
{
    if (mine() && inj_eintr && vh_chance(inj, 1, 4)) { n_eintr++; errno = EINTR; return -1; }
    int status = 0; pid_t p = __real_waitpid(pid, &status, fl); if (st) *st = status;
    if (p > 0 && getpid() == main_pid && (WIFEXITED(status) || WIFSIGNALED(status))) for (int i = 0; i < n_forked; i++) if (forked[i] == p) reaped[i] = true;
    return p;
}
/* libcork signals only processes that it has forked and not yet reaped; nothing else is ever hit */
int __wrap_kill(pid_t pid, int sig)
{
    if (getpid() != main_pid || sig == 0) return __real_kill(pid, sig);
    pid_t t = pid < -1 ? -pid : pid; bool ours = false; for (int i = 0; i < n_forked; i++) if (forked[i] == t && !reaped[i]) ours = true;
    VH_CHECK(ours, "kill-target", "signal %d was sent to %d, which is not a running subprocess", sig, (int) pid);
    vh_count("signals sent by libcork", 1); return __real_kill(pid, sig);
}

struct seg { uint64_t n, seed, off; };
struct cons {
    struct cork_stream_consumer c; int who, stream; struct seg seg[24]; int nseg, at; uint64_t off, got, total; int calls, eofs, frees, fail_at; bool fail_eof, failed, lenient; uint64_t all_calls;
};
static uint64_t cons_events;      /* data, eof on any consumer */
static struct cons *cons_failed;
#define CONS_ERROR 0x5bad0001u
static void cons_expect(struct cons *c, uint64_t n, uint64_t seed, uint64_t off) { if (!n) return; if (c->nseg >= 24) vh_broken("segments"); c->seg[c->nseg++] = (struct seg) { n, seed, off }; c->total += n; }
static int cons_data(struct cork_stream_consumer *cc, const void *buf, size_t size, bool first)
{
    struct cons *c = cork_container_of(cc, struct cons, c); const unsigned char *p = buf; const char *nm = c->stream == 1 ? "stdout" : "stderr"; cons_events++; c->all_calls++;
    VH_CHECK(getpid() == main_pid, "consumer-in-child", "a consumer was called in the subprocess");
    VH_CHECK(!c->eofs, "data-after-end", "subprocess %d %s: %zu bytes after the end of the stream", c->who, nm, size);
    VH_CHECK(size > 0, "empty-data", "subprocess %d %s: no bytes", c->who, nm);
    VH_CHECK(first == (c->calls == 0), "first", "subprocess %d %s: call %d has is_first_chunk = %d", c->who, nm, c->calls, first);
    c->calls++;
    for (size_t i = 0; i < size; ) {
        if (c->at == c->nseg) { VH_CHECK(c->lenient, "extra-data", "subprocess %d %s: %zu more bytes than the %" PRIu64 " it printed: %s", c->who, nm, size - i, c->total, vh_hex(p + i, size - i < 40 ? size - i : 40)); break; }
        struct seg *s = &c->seg[c->at];
        unsigned char w = sub_byte(s->seed, s->off + c->off);
        VH_CHECK(p[i] == w, "wrong-data", "subprocess %d %s: byte %" PRIu64 " of %" PRIu64 " is %02x, expected %02x", c->who, nm, c->got, c->total, p[i], w);
        i++; c->got++; if (++c->off == s->n) { c->at++; c->off = 0; }
    }
    vh_evals(1); errno = vh_errno_noise();
    if (c->fail_at && c->calls == c->fail_at && !c->failed) { c->failed = true; cons_failed = c; cork_error_set_printf(CONS_ERROR, "consumer %d failed", c->who); return -1; }
    return 0;
}
static int cons_eof(struct cork_stream_consumer *cc)
{
    struct cons *c = cork_container_of(cc, struct cons, c); cons_events++;
    VH_CHECK(!c->eofs, "second-end", "subprocess %d stream %d: a second end of the stream", c->who, c->stream); c->eofs++; errno = vh_errno_noise();
    if (c->fail_eof && !c->failed) { c->failed = true; cons_failed = c; cork_error_set_printf(CONS_ERROR, "consumer %d failed at the end", c->who); return -1; }
    return 0;
}
static void cons_free(struct cork_stream_consumer *cc) { cork_container_of(cc, struct cons, c)->frees++; }
static void cons_init(struct cons *c, int who, int stream) { memset(c, 0, sizeof *c); c->c.data = cons_data; c->c.eof = cons_eof; c->c.free = cons_free; c->who = who; c->stream = stream; }
/* everything that was printed has arrived */
static void cons_complete(struct cons *c)
{
    VH_CHECK(c->at == c->nseg, "lost-data", "subprocess %d %s: only %" PRIu64 " of %" PRIu64 " bytes arrived", c->who, c->stream == 1 ? "stdout" : "stderr", c->got, c->total);
    VH_CHECK(c->eofs == 1, "no-end", "subprocess %d %s: the end of the stream was signalled %d times", c->who, c->stream == 1 ? "stdout" : "stderr", c->eofs);
    VH_CHECK(!c->frees, "consumer-freed", "the caller's consumer was freed");
}
static void cons_restart(struct cons *c) { c->nseg = c->at = 0; c->off = c->got = c->total = 0; c->calls = c->eofs = 0; }

struct body { char *script; int frees; bool set_error; };
static int body_run(void *v)
{
    struct body *b = v; int rc = sub_run(b->script); inj = NULL;
    if (rc && b->set_error) { cork_error_set_printf(1, "it failed"); }
    return rc;
}
static void body_free(void *v) { struct body *b = v; VH_CHECK(getpid() == main_pid, "freed-in-child", "the user data was freed in the subprocess"); b->frees++; }

static char child_program[PATH_MAX];
static void sub_setup(void)
{
    char name[PATH_MAX], dir[PATH_MAX];
    snprintf(name, sizeof name, "%s/plain/c33_child", vh.exe_dir); snprintf(dir, sizeof dir, "%s/bin", vh.scratch); if (mkdir(dir, 0755)) vh_broken("mkdir"); snprintf(child_program, sizeof child_program, "%s/c33_child", dir);
    int in = open(name, O_RDONLY | O_CLOEXEC), out = open(child_program, O_WRONLY | O_CREAT | O_CLOEXEC, 0755); static char b[65536]; ssize_t k; if (in < 0 || out < 0) vh_broken("helper %s", name);
    while ((k = __real_read(in, b, sizeof b)) > 0) if (__real_write(out, b, k) != k) vh_broken("copy"); close(in); close(out); chmod(child_program, 0755);
    if (!vh_drop_privileges()) vh_broken("cannot become an unprivileged user");
    main_pid = getpid(); signal(SIGPIPE, SIG_IGN); prctl(PR_SET_CHILD_SUBREAPER, 1); vh_case_timeout = 40;
    vh_alloc_install(); VH_WARM_ERRORS();
}
/* none of the processes libcork forked is still there, not even as a zombie */
static void no_children(const char *when)
{
    for (int i = 0; i < n_forked; i++) {
        int st; pid_t p = __real_waitpid(forked[i], &st, WNOHANG);
        VH_CHECK(p == -1 && errno == ECHILD, "process-left", "%s: process %d (of %d) %s", when, i, n_forked, p == 0 ? "is still running" : "was not reaped");
    }
    vh_evals(1);
}
static void reap_all(int expected)
{
    int n = 0, st; while (__real_waitpid(-1, &st, 0) > 0) n++;
    VH_CHECK(n == expected, "process-left", "%d processes left behind", n - expected);
}
