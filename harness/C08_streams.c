/* C08: streams deliver every byte exactly once, in order, or report the error.
 * read() and write() are intercepted to split, interrupt and fail them; FILE
 * streams sit on cookies that do the same. */
#include "vh.h"
#include <fcntl.h>
#include <sys/stat.h>
#include <libcork/core.h>
#include <libcork/ds.h>

/*---------------------------------------------------------- hostile kernel */
static struct vh_rng *R;
static struct {
    int on, fd; unsigned eintr, shortp; int64_t fail_at; int fail_errno; size_t pos; unsigned run, eintrs; int hit;
} in, out;
static void plan(struct vh_rng *r, void *v, int fd, size_t len)
{
    __typeof__(&in) p = v;
    p->on = 1; p->fd = fd; p->pos = 0; p->run = 0; p->hit = 0; p->eintrs = 0;
    p->eintr = vh_chance(r, 1, 2) ? vh_below(r, 80) : 0;
    p->shortp = vh_chance(r, 2, 3) ? vh_below(r, 101) : 0;
    p->fail_at = vh_chance(r, 1, 4) ? (int64_t) vh_below(r, len + 1) : -1;
    static const int errs[] = { EIO, EBADF, EINVAL, ENOSPC, EAGAIN, EPIPE, ECONNRESET };
    p->fail_errno = errs[vh_below(r, 7)];
}
/* how many bytes may this call move; -1: fail with errno */
static ssize_t gate(void *v, size_t n)
{
    __typeof__(&in) p = v;
    if (p->run < 20 && vh_chance(R, p->eintr, 100)) { p->run++; p->eintrs++; errno = EINTR; vh_count("interruptions injected", 1); return -1; }
    p->run = 0;
    if (p->fail_at >= 0) {
        if (p->pos >= (size_t) p->fail_at) { errno = p->fail_errno; p->hit++; vh_count("I/O errors injected", 1); return -1; }
        if (n > p->fail_at - p->pos) n = p->fail_at - p->pos;
    }
    if (n > 1 && vh_chance(R, p->shortp, 100)) { n = 1 + (vh_chance(R, 1, 2) ? vh_below(R, n) : vh_below(R, n < 8 ? n : 8)); vh_count("short transfers injected", 1); }
    return n;
}
ssize_t __real_read(int, void *, size_t);
ssize_t __wrap_read(int fd, void *b, size_t n)
{
    if (!in.on || fd != in.fd || n == 0) return __real_read(fd, b, n);
    ssize_t k = gate(&in, n);
    if (k < 0) return -1;
    k = __real_read(fd, b, k);
    if (k > 0) in.pos += k;
    return k;
}
ssize_t __real_write(int, const void *, size_t);
ssize_t __wrap_write(int fd, const void *b, size_t n)
{
    if (!out.on || fd != out.fd || n == 0) return __real_write(fd, b, n);
    ssize_t k = gate(&out, n);
    if (k < 0) return -1;
    k = __real_write(fd, b, k);
    if (k > 0) out.pos += k;
    return k;
}
/* open() by the library: learn the descriptor so that it is attacked too */
static int learn; static int last_opened = -1;
int __real_open(const char *, int, ...);
int __wrap_open(const char *path, int flags, ...)
{
    va_list ap; va_start(ap, flags);
    int mode = (flags & O_CREAT) ? va_arg(ap, int) : 0;
    va_end(ap);
    int fd = __real_open(path, flags, mode);
    if (learn && fd >= 0) { last_opened = fd; if (learn & 1) in.fd = fd; if (learn & 2) out.fd = fd; }
    return fd;
}
struct cookie { const unsigned char *src; size_t len, pos; struct vstr got; };
static ssize_t ck_read(void *c, char *b, size_t n)
{
    VH_KNOWN(&c, sizeof c); VH_KNOWN(&b, sizeof b); VH_KNOWN(&n, sizeof n);
    struct cookie *k = c; ssize_t m = gate(&in, n);
    if (m < 0) return -1;
    if ((size_t) m > k->len - k->pos) m = k->len - k->pos;
    memcpy(b, k->src + k->pos, m); k->pos += m; in.pos += m;
    return m;
}
static ssize_t ck_write(void *c, const char *b, size_t n)
{
    VH_KNOWN(&c, sizeof c); VH_KNOWN(&b, sizeof b); VH_KNOWN(&n, sizeof n); VH_KNOWN(b, n);
    /* glibc takes a short write of a cookie as an error */
    struct cookie *k = c; size_t done = 0;
    while (done < n) {
        ssize_t m = gate(&out, n - done);
        if (m < 0) return done;
        vstr_add(&k->got, b + done, m); out.pos += m; done += m;
    }
    return done;
}
/* what the C library told the library about each fwrite */
static unsigned short_fwrites;
size_t __real_fwrite(const void *, size_t, size_t, FILE *);
size_t __wrap_fwrite(const void *b, size_t sz, size_t n, FILE *fp)
{
    size_t k = __real_fwrite(b, sz, n, fp);
    if (out.on && k < n) short_fwrites++;
    return k;
}
static FILE *mkfile(struct vh_rng *r, struct cookie *k, const char *mode)
{
    cookie_io_functions_t f = { ck_read, ck_write, NULL, NULL };
    FILE *fp = fopencookie(k, mode, f);
    if (!fp) vh_broken("fopencookie");
    switch (vh_below(r, 4)) {
    case 0: setvbuf(fp, NULL, _IONBF, 0); break;
    case 1: setvbuf(fp, NULL, _IOFBF, 1 + vh_below(r, 6000)); break;
    case 2: setvbuf(fp, NULL, _IOLBF, 1 + vh_below(r, 300)); break;
    }
    return fp;
}

/*------------------------------------------------------ recording consumer */
struct rec {
    struct cork_stream_consumer parent;
    struct vstr got; unsigned datas, eofs, frees; int64_t fail_data; bool fail_eof; int rc; bool failed;
    struct cork_stream_consumer *next;
};
static int rec_data(struct cork_stream_consumer *c, const void *buf, size_t size, bool first)
{
    struct rec *s = cork_container_of(c, struct rec, parent);
    VH_CHECK(!s->failed, "after-failure", "consumer called again after it had failed");
    VH_CHECK(!s->eofs, "data-after-eof", "data after the end of stream");
    VH_CHECK(first == (s->datas == 0), "first-flag", "chunk %u has first-chunk flag %d", s->datas, first);
    s->datas++; vh_evals(3); errno = vh_errno_noise();
    vstr_add(&s->got, buf, size);
    if (s->next) { int rc = cork_stream_consumer_data(s->next, buf, size, first); if (rc) s->failed = true; return rc; }
    if (s->fail_data >= 0 && s->datas > s->fail_data) {
        s->failed = true; cork_error_set_string(0x51515151, "consumer trouble"); return s->rc;
    }
    return 0;
}
static int rec_eof(struct cork_stream_consumer *c)
{
    struct rec *s = cork_container_of(c, struct rec, parent);
    VH_CHECK(!s->failed, "after-failure", "end of stream signalled after the consumer had failed");
    VH_CHECK(++s->eofs == 1, "eof-twice", "end of stream signalled twice"); errno = vh_errno_noise();
    if (s->next) return cork_stream_consumer_eof(s->next);
    if (s->fail_eof) { s->failed = true; cork_error_set_string(0x51515152, "consumer eof trouble"); return s->rc; }
    return 0;
}
static void rec_free(struct cork_stream_consumer *c) { cork_container_of(c, struct rec, parent)->frees++; }
static void rec_init(struct rec *s)
{
    memset(s, 0, sizeof *s);
    s->parent.data = rec_data; s->parent.eof = rec_eof; s->parent.free = rec_free;
    s->fail_data = -1; s->rc = -1; vstr_init(&s->got);
}

static char path_in[600], path_out[600];
static void put_file(const char *p, const void *b, size_t n)
{
    int fd = __real_open(p, O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd < 0) vh_broken("cannot create %s: %s", p, strerror(errno));
    for (size_t k = 0; k < n; ) { ssize_t rc = __real_write(fd, (const char *) b + k, n - k); if (rc <= 0) vh_broken("write"); k += rc; }
    close(fd);
}
static void get_file(const char *p, struct vstr *s)
{
    char b[8192]; ssize_t k; int fd = __real_open(p, O_RDONLY, 0);
    if (fd < 0) vh_broken("cannot read %s: %s", p, strerror(errno));
    while ((k = __real_read(fd, b, sizeof b)) > 0) vstr_add(s, b, k);
    close(fd);
}
static void check_prefix(const struct vstr *g, const unsigned char *d, size_t n, bool whole, const char *key)
{
    VH_CHECK(g->n <= n, key, "%zu bytes arrived, only %zu were sent", g->n, n);
    for (size_t i = 0; i < g->n; i++)
        if (g->p[i] != d[i]) vh_fail(key, "byte %zu of %zu differs: 0x%02x, sent 0x%02x", i, n, g->p[i], d[i]);
    if (whole) VH_CHECK(g->n == n, key, "%zu of %zu bytes arrived", g->n, n);
    vh_evals(g->n + 1);
}
static size_t pick_len(struct vh_rng *r)
{
    switch (vh_below(r, 5)) {
    case 0: return vh_below(r, 4);
    case 1: return 4096 * vh_below(r, 5);
    case 2: return 4096 * (1 + vh_below(r, 4)) + vh_range(r, -2, 2);
    case 3: return vh_below(r, 300);
    default: return vh_below(r, 30000);
    }
}

/*-------------------------------------------------------------- producers */
static void producer_case(struct vh_rng *r)
{
    size_t n = pick_len(r); unsigned char *d = malloc(n + 1); vh_fill(r, d, n, 3);
    int kind = vh_below(r, 3), rc; struct rec s; rec_init(&s);
    struct vstr sink; vstr_init(&sink);
    struct cork_buffer cb; cork_buffer_init(&cb);
    bool via_buffer = vh_chance(r, 1, 4);
    if (!via_buffer) {
        if (vh_chance(r, 1, 4)) s.fail_data = vh_below(r, vh_chance(r, 1, 2) ? 3 : 12);
        s.fail_eof = vh_chance(r, 1, 8);
        s.rc = vh_chance(r, 2, 3) ? -1 : (int) vh_range(r, 1, 5);
    } else s.next = cork_buffer_to_stream_consumer(&cb);
    int fds; FILE *fp = NULL; struct cookie k = { d, n, 0 }; int fd = -1; off_t before = 0;
    vh_trace("producer kind %d, %zu bytes, consumer fails at chunk %" PRId64 "%s", kind, n, s.fail_data, s.fail_eof ? " and at eof" : "");
    cork_error_clear();
    bool noent = false;
    if (kind == 0) {
        put_file(path_in, d, n);
        fd = __real_open(path_in, O_RDONLY, 0); (void) before;
        plan(r, &in, fd, n); fds = vh_open_fds();
        rc = cork_consume_fd(&s.parent, fd);
    } else if (kind == 1) {
        plan(r, &in, -1, n);
        if (in.fail_errno == EAGAIN) in.fail_errno = EIO;
        fp = mkfile(r, &k, "r"); fds = vh_open_fds();
        rc = cork_consume_file(&s.parent, fp);
    } else {
        put_file(path_in, d, n);
        noent = vh_chance(r, 1, 16);
        plan(r, &in, -1, n); learn = 1; fds = vh_open_fds(); last_opened = -1;
        rc = cork_consume_file_from_path(&s.parent, noent ? "/nonexistent/file" : path_in, O_RDONLY);
        learn = 0;
    }
    in.on = 0;
    bool io_fail = in.hit && !s.failed && !noent;
    if (noent) {
        VH_CHECK(rc != 0, "open-error", "a file that cannot be opened is not reported");
        VH_CHECK(s.datas == 0 && s.eofs == 0, "open-error", "consumer called although the file cannot be opened");
        VH_CHECK(cork_error_code() == (cork_error) ENOENT, "open-error", "error code %x", (unsigned) cork_error_code());
        vh_count("open errors", 1);
    } else if (s.failed) {
        VH_CHECK(rc != 0, "consumer-error", "consumer failure is not returned");
        VH_CHECK(cork_error_code() == (s.eofs ? 0x51515152u : 0x51515151u), "consumer-error", "the consumer's error is gone: code %x", (unsigned) cork_error_code());
        vh_count("consumer failures", 1);
    } else if (io_fail) {
        VH_CHECK(rc != 0, "read-error", "read error %d at byte %" PRId64 " of %zu is not reported", in.fail_errno, in.fail_at, n);
        VH_CHECK(s.eofs == 0, "read-error", "end of stream signalled although reading failed");
        VH_CHECK(cork_error_code() == (cork_error) in.fail_errno, "read-error", "error code %x instead of errno %d", (unsigned) cork_error_code(), in.fail_errno);
        vh_count("read errors", 1);
    } else {
        VH_CHECK(rc == 0, "spurious-error", "producer failed: %s", cork_error_message());
        VH_CHECK(s.eofs == 1, "no-eof", "end of stream signalled %u times", s.eofs);
        vh_count("complete streams", 1);
    }
    check_prefix(&s.got, d, n, rc == 0 || s.eofs, "delivery");
    if (io_fail && kind != 1) VH_CHECK(s.got.n == (size_t) in.fail_at, "delivery", "%zu bytes delivered, %" PRId64 " were read before the error", s.got.n, in.fail_at);
    VH_CHECK(s.frees == 0, "freed", "the producer freed the consumer");
    int now = vh_open_fds();
    VH_CHECK(now == fds, "descriptors", "%d descriptors open, %d before", now, fds);
    if (fd >= 0) { VH_CHECK(fcntl(fd, F_GETFD) >= 0, "descriptors", "the caller's descriptor was closed"); close(fd); }
    if (fp) fclose(fp);
    if (via_buffer) {
        VH_CHECK(cb.size == s.got.n && (cb.size == 0 || !memcmp(cb.buf, s.got.p, cb.size)), "buffer", "buffer consumer holds something else");
        cork_stream_consumer_free(s.next);
    }
    cork_buffer_done(&cb);
    vh_sig(n); vh_sig(kind); vh_sig(s.datas); vh_sig(in.fail_at);
    if (s.datas > 1) vh_nontrivial();
    if (vh_want_sample()) vh_sample("producer %d: %zu bytes in %u chunks, result %d", kind, n, s.datas, rc);
    vstr_done(&s.got); vstr_done(&sink); free(d);
}

/*-------------------------------------------------------------- consumers */
static void consumer_case(struct vh_rng *r)
{
    size_t n = pick_len(r); unsigned char *d = malloc(n + 1); vh_fill(r, d, n, 3);
    int kind = vh_below(r, 3), fd = -1; struct cork_stream_consumer *c; FILE *fp = NULL; struct cookie k = { NULL, 0, 0 };
    struct vstr pre, got; vstr_init(&pre); vstr_init(&got); vstr_init(&k.got);
    int fds = vh_open_fds(); bool bad = false; int flags = 0;
    cork_error_clear();
    if (vh_chance(r, 1, 3)) { unsigned char pb[50]; size_t m = vh_below(r, 50); vh_fill(r, pb, m, 3); vstr_add(&pre, pb, m); }
    unlink(path_out);
    if (kind == 0) {
        put_file(path_out, pre.p, pre.n);
        fd = __real_open(path_out, O_WRONLY | O_APPEND, 0);
        plan(r, &out, fd, n); c = cork_fd_consumer_new(fd);
    } else if (kind == 1) {
        plan(r, &out, -1, n); if (vh_chance(r, 1, 2)) out.eintr = 0; fp = mkfile(r, &k, "w"); c = cork_file_consumer_new(fp); vstr_set(&pre, "", 0);
    } else {
        int how = vh_below(r, 4);
        if (how == 0) { vstr_set(&pre, "", 0); flags = O_WRONLY | O_CREAT; if (vh_chance(r, 1, 2)) flags |= O_EXCL; }
        else if (how == 1) { put_file(path_out, pre.p, pre.n); flags = O_WRONLY | O_APPEND; }
        else if (how == 2) { put_file(path_out, pre.p, pre.n); flags = O_WRONLY | O_TRUNC; vstr_set(&pre, "", 0); }
        else { bad = true; flags = O_WRONLY; }
        plan(r, &out, -1, n); learn = 2; last_opened = -1;
        c = cork_file_from_path_consumer_new(bad ? "/nonexistent/file" : path_out, flags);
        learn = 0;
        if (bad) {
            VH_CHECK(c == NULL && cork_error_code() == (cork_error) ENOENT, "open-error", "a path that cannot be opened gives consumer %p, error %x", c, (unsigned) cork_error_code());
            vh_count("open errors", 1); free(d); out.on = 0; return;
        }
        if (flags & O_CREAT) {
            struct stat st;
            if (stat(path_out, &st) != 0) vh_fail("create", "O_CREAT did not create the file");
            VH_CHECK((st.st_mode & 0600) == 0600 && !(st.st_mode & 07111), "create", "file created with mode %o", st.st_mode & 07777);
        }
    }
    VH_CHECK(c != NULL, "new", "no consumer: %s", cork_error_message());
    vh_trace("consumer kind %d, %zu bytes, write fails at %" PRId64 " with %d, eintr %u%%", kind, n, out.fail_at, out.fail_errno, out.eintr);
    size_t pos = 0; unsigned chunks = 0; int rc = 0; short_fwrites = 0;
    while (pos < n || vh_chance(r, 1, 5)) {
        size_t m = n - pos;
        if (vh_chance(r, 7, 8)) { m = vh_chance(r, 1, 3) ? vh_below(r, 4200) : vh_below(r, 900); if (m > n - pos) m = n - pos; }
        /* exact-size copy: reading outside it is a sanitizer report */
        unsigned char *ex = malloc(m ? m : 1); memcpy(ex, d + pos, m);
        rc = cork_stream_consumer_data(c, ex, m, chunks == 0);
        VH_CHECK(!memcmp(ex, d + pos, m), "source", "consumer changed the caller's data");
        free(ex);
        chunks++;
        if (kind == 1 && short_fwrites) VH_CHECK(rc != 0, "write-error", "the C library wrote only part of a chunk, but the consumer reported success");
        if (rc) break;
        pos += m;
    }
    bool failed = rc != 0, with_eof = !failed || vh_chance(r, 1, 4);
    if (failed) {
        VH_CHECK(out.hit || (kind == 1 && out.eintrs), "spurious-error", "consumer failed without cause: %s", cork_error_message());
        VH_CHECK(cork_error_occurred(), "write-error", "no error set by a failing consumer");
        if (kind != 1) VH_CHECK(cork_error_code() == (cork_error) out.fail_errno, "write-error", "error code %x instead of errno %d", (unsigned) cork_error_code(), out.fail_errno);
        vh_count("write errors", 1);
        if (with_eof && vh_chance(r, 1, 2)) with_eof = false;
    } else if (vh_chance(r, 1, 4)) with_eof = false;
    if (with_eof) {
        rc = cork_stream_consumer_eof(c);
        if (rc) vh_fail("eof", "end of stream failed: %s", cork_error_message());
    }
    if (fd >= 0) VH_CHECK(fcntl(fd, F_GETFD) >= 0, "descriptors", "the caller's descriptor was closed");
    cork_stream_consumer_free(c);
    bool flushed = true;
    if (fp) { flushed = fflush(fp) == 0; for (int i = 0; i < 200 && !flushed && errno == EINTR; i++) flushed = fflush(fp) == 0; }
    out.on = 0;
    int now = vh_open_fds();
    VH_CHECK(now == fds + (fd >= 0), "descriptors", "%d descriptors open, %d expected (end of stream %s)", now, fds + (fd >= 0), with_eof ? "signalled" : "not signalled");
    if (fd >= 0) { VH_CHECK(fcntl(fd, F_GETFD) >= 0, "descriptors", "the caller's descriptor was closed"); close(fd); }
    if (kind == 1) vstr_add(&got, k.got.p, k.got.n); else get_file(path_out, &got);
    VH_CHECK(got.n >= pre.n && (pre.n == 0 || !memcmp(got.p, pre.p, pre.n)), "previous", "earlier contents of the file are gone");
    struct vstr tail; vstr_init(&tail); vstr_add(&tail, got.p + pre.n, got.n - pre.n);
    /* glibc discards buffered bytes when a flush fails half-way, so after a
     * failure only the reporting of a FILE consumer is judged */
    if (kind != 1 || (!out.hit && !out.eintrs)) check_prefix(&tail, d, n, !failed && flushed, "written");
    if (!failed && kind != 1) VH_CHECK(!out.hit, "write-error", "write error at byte %" PRId64 " was not reported", out.fail_at);
    if (failed && kind != 1) VH_CHECK(tail.n == (size_t) out.fail_at, "written", "%zu bytes written, %" PRId64 " were possible", tail.n, out.fail_at);
    if (fp) { out.on = 0; out.fail_at = -1; out.eintr = 0; fclose(fp); }
    if (!failed) vh_count("complete writes", 1);
    vh_sig(n); vh_sig(kind + 10); vh_sig(chunks); vh_sig(out.pos);
    if (chunks > 1) vh_nontrivial();
    if (vh_want_sample()) vh_sample("consumer %d: %zu bytes in %u chunks%s", kind, n, chunks, failed ? ", write error" : "");
    vstr_done(&tail); vstr_done(&got); vstr_done(&pre); vstr_done(&k.got); free(d);
}

void vh_setup(void)
{
    vh_crowd = 20; vh_bare = 20;
    vh_alloc_install(); VH_WARM_ERRORS();
    cork_error_set_printf(1, "%2000s", "x"); cork_error_prefix_string("y"); cork_error_clear();
    snprintf(path_in, sizeof path_in, "%s/in", vh.scratch);
    snprintf(path_out, sizeof path_out, "%s/out", vh.scratch);
}
void vh_case(struct vh_rng *r, uint64_t index)
{
    R = r; memset(&in, 0, sizeof in); memset(&out, 0, sizeof out);
    uint64_t serial = vh_alloc_serial();
    if (vh_chance(r, 1, 2)) producer_case(r); else consumer_case(r);
    cork_error_clear();
    vh_alloc_expect_balanced(serial, "leak");
}
