/* C32: executed programs report what they were given. */
#include "vh.h"
#include <libcork/core.h>
#include <libcork/os.h>
#include <fcntl.h>
#include <limits.h>
#include <sys/stat.h>
#include <sys/wait.h>

extern char **environ;
static char helper[PATH_MAX], dirs[4][PATH_MAX], bin[PATH_MAX];
#define MAXP 60
static char *param[MAXP]; static int np;
static char *ename[30], *evalue[30]; static int ne;

static char *text(struct vh_rng *r, size_t max)
{
    size_t n = vh_chance(r, 1, 6) ? 0 : vh_chance(r, 1, 30) ? vh_below(r, max) : vh_size(r, 100); char *s = malloc(n + 1); int st = vh_below(r, 3);
    for (size_t i = 0; i < n; i++) s[i] = st == 0 ? 'a' + vh_below(r, 26) : st == 1 ? " \"'$\\*\n\t;%"[vh_below(r, 10)] : 1 + vh_below(r, 255);
    s[n] = 0; return s;
}
static void junk(char *s) { memset(s, 'J', strlen(s)); free(s); }
static char *copyz(const char *s) { char *c = malloc(strlen(s) + 1); return strcpy(c, s); }
static void check_spec(struct cork_exec *x, const char *program, struct cork_env *env, const char *cwd, const char *when)
{
    VH_CHECK(!strcmp(cork_exec_program(x), program), "accessor", "%s: the program is \"%.200s\", expected \"%.200s\"", when, cork_exec_program(x), program);
    VH_CHECK(cork_exec_param_count(x) == (size_t) np, "accessor", "%s: %zu parameters, expected %d", when, cork_exec_param_count(x), np);
    for (int i = 0; i < np; i++) { const char *p = cork_exec_param(x, i); VH_CHECK(p && !strcmp(p, param[i]), "accessor", "%s: parameter %d is \"%.100s\", expected \"%.100s\"", when, i, p ? p : "(null)", param[i]); }
    VH_CHECK(cork_exec_env(x) == env, "accessor", "%s: a different environment", when);
    VH_CHECK(cwd ? cork_exec_cwd(x) && !strcmp(cork_exec_cwd(x), cwd) : !cork_exec_cwd(x), "accessor", "%s: the directory is \"%.100s\", expected \"%.100s\"", when, cork_exec_cwd(x) ? cork_exec_cwd(x) : "(none)", cwd ? cwd : "(none)");
    struct vstr d; vstr_init(&d); vstr_adds(&d, program); for (int i = 1; i < np; i++) { vstr_addc(&d, ' '); vstr_adds(&d, param[i]); }
    VH_CHECK(!strcmp(cork_exec_description(x), vstr_z(&d)), "accessor", "%s: the description is \"%.200s\", expected \"%.200s\"", when, cork_exec_description(x), vstr_z(&d));
    vstr_done(&d); vh_evals(5);
}
static void add(struct cork_exec *x, struct vh_rng *r) { if (np >= MAXP) return; char *s = text(r, 20000), *c = copyz(s); cork_exec_add_param(x, c); junk(c); param[np++] = s; }
static struct cork_env *make_env(struct vh_rng *r, bool path)
{
    struct cork_env *e = cork_env_new(); ne = 0; int n = vh_below(r, 25);
    for (int i = 0; i < n; i++) {
        char b[40]; sprintf(b, "V%c%d", 'A' + (int) vh_below(r, 26), i); ename[ne] = copyz(b); evalue[ne] = text(r, 20000); cork_env_add(e, b, evalue[ne]);
        if (vh_chance(r, 1, 6)) { cork_env_remove(e, b); free(ename[ne]); free(evalue[ne]); } else ne++;
    }
    if (path) { ename[ne] = copyz("PATH"); evalue[ne] = copyz(vh_fmt("/nonexistent:%s:/bin", bin)); cork_env_add(e, "PATH", evalue[ne]); ne++; }
    return e;
}
static void forget(void) { for (int i = 0; i < np; i++) free(param[i]); np = 0; for (int i = 0; i < ne; i++) { free(ename[i]); free(evalue[i]); } ne = 0; }

static unsigned char *got; static size_t got_n, got_at;
static uint64_t get_n(void) { uint64_t v; VH_CHECK(got_at + 8 <= got_n, "report", "the program's report is incomplete"); memcpy(&v, got + got_at, 8); got_at += 8; return v; }
static char *get_s(void) { uint64_t n = get_n(); VH_CHECK(got_at + n <= got_n, "report", "the program's report is incomplete"); char *s = malloc(n + 1); memcpy(s, got + got_at, n); s[n] = 0; got_at += n; return s; }

void vh_setup(void)
{
    vh_crowd = 20; vh_bare = 20;
    struct stat st; char name[PATH_MAX];
    /* a copy, so that it can be found by an unprivileged user */
    snprintf(name, sizeof name, "%s/plain/c32_child", vh.exe_dir); snprintf(bin, sizeof bin, "%s/bin", vh.scratch); if (mkdir(bin, 0755)) vh_broken("mkdir"); snprintf(helper, sizeof helper, "%s/c32_child", bin);
    int in = open(name, O_RDONLY | O_CLOEXEC), out = open(helper, O_WRONLY | O_CREAT | O_CLOEXEC, 0755); char b[65536]; ssize_t k; if (in < 0 || out < 0) vh_broken("helper %s", name);
    while ((k = read(in, b, sizeof b)) > 0) if (write(out, b, k) != k) vh_broken("copy"); close(in); close(out); chmod(helper, 0755);
    if (!vh_drop_privileges()) vh_broken("cannot become an unprivileged user");
    const char *const n[] = { "plain", "with space\n", "\xc3\xa9%s", "d\x01" "e" };
    for (int i = 0; i < 4; i++) { snprintf(dirs[i], sizeof dirs[i], "%s/%s", vh.scratch, n[i]); if (mkdir(dirs[i], 0755) && stat(dirs[i], &st)) vh_broken("mkdir"); char *q = realpath(dirs[i], NULL); strcpy(dirs[i], q); free(q); }
    snprintf(name, sizeof name, "%s/locked", vh.scratch); mkdir(name, 0); snprintf(name, sizeof name, "%s/noexec", vh.scratch); close(open(name, O_CREAT | O_WRONLY | O_CLOEXEC, 0644));
    vh_alloc_install(); VH_WARM_ERRORS();
}
void vh_case(struct vh_rng *r, uint64_t index)
{
    uint64_t serial = vh_alloc_serial(); bool search = vh_chance(r, 1, 4); const char *program = search ? "c32_child" : helper; char *pc = copyz(program);
    struct cork_exec *x; struct cork_env *env = NULL; char *cwd = NULL; np = ne = 0; int ctor = vh_below(r, 3), here = vh_below(r, 4);
    /* the caller's own environment and directory */
    clearenv(); setenv("PATH", vh_fmt("/nonexistent:%s:/bin", bin), 1); for (int i = vh_below(r, 10); i > 0; i--) { char b[30]; sprintf(b, "OWN%d", i); char *v = text(r, 3000); setenv(b, v, 1); free(v); }
    if (chdir(dirs[here])) vh_broken("chdir");
    if (ctor == 0) x = cork_exec_new(pc);
    else if (ctor == 1) {
        int n = vh_below(r, 6); char *t[6]; for (int i = 0; i < n; i++) t[i] = text(r, 2000);
        switch (n) {
        case 0: x = cork_exec_new_with_params(pc, NULL); break;
        case 1: x = cork_exec_new_with_params(pc, t[0], NULL); break;
        case 2: x = cork_exec_new_with_params(pc, t[0], t[1], NULL); break;
        case 3: x = cork_exec_new_with_params(pc, t[0], t[1], t[2], NULL); break;
        case 4: x = cork_exec_new_with_params(pc, t[0], t[1], t[2], t[3], NULL); break;
        default: x = cork_exec_new_with_params(pc, t[0], t[1], t[2], t[3], t[4], NULL); break;
        }
        param[np++] = copyz(program); for (int i = 0; i < n; i++) { param[np++] = copyz(t[i]); junk(t[i]); }
    } else {
        int n = vh_below(r, 30); char **a = malloc((n + 1) * sizeof *a); for (int i = 0; i < n; i++) a[i] = text(r, 2000); a[n] = NULL;
        x = cork_exec_new_with_param_array(pc, a); for (int i = 0; i < n; i++) { param[np++] = copyz(a[i]); junk(a[i]); } free(a);
    }
    junk(pc);
    /* an execution that fails first, now and then */
    int fail = vh_chance(r, 1, 3) ? 1 + (int) vh_below(r, 7) : 0; bool rerun = vh_chance(r, 1, 2); struct cork_exec *bad = x;
    for (int i = 0, n = vh_below(r, 4) ? vh_below(r, 8) : vh_below(r, 25); i < n; i++) add(x, r);
    if (vh_chance(r, 1, 2)) { for (int i = 0; i < 2; i++) { struct cork_env *first = env; for (int k = 0; first && k < ne; k++) { free(ename[k]); free(evalue[k]); } env = make_env(r, true); cork_exec_set_env(x, env); if (vh_chance(r, 2, 3)) break; } if (vh_chance(r, 1, 3)) { evalue[ne] = text(r, 100); ename[ne] = copyz("LATE"); cork_env_add(cork_exec_env(x), "LATE", evalue[ne]); ne++; } }
    if (vh_chance(r, 1, 2)) for (int i = 0; i < 2; i++) { char *d = vh_chance(r, 1, 3) ? copyz(i ? ".." : ".") : copyz(dirs[vh_below(r, 4)]); cork_exec_set_cwd(x, d); free(cwd); cwd = copyz(d); junk(d); if (vh_chance(r, 2, 3)) break; }
    /* The directory may be given as the specification holds it. */
    if (cwd && vh_chance(r, 1, 4)) { const char *own = cork_exec_cwd(x); cork_exec_set_cwd(x, own); vh_count("directories taken from the specification itself", 1); }
    check_spec(x, program, env, cwd, "after building");
    vh_trace("program %s, %d parameters, environment of %d%s, directory %s, failure %d", program, np, ne, env ? "" : " (own)", cwd ? cwd : "(own)", fail);
    int pp[2]; if (pipe2(pp, O_CLOEXEC)) vh_broken("pipe"); fflush(NULL);
    pid_t pid = fork(); if (pid < 0) vh_broken("fork");
    if (pid == 0) {
        alarm(30); if (dup2(pp[1], 100) < 0) _exit(112); close(pp[0]); close(pp[1]);
        if (fail) {
            char p[PATH_MAX]; int want = 0; bool use_cwd = false; struct cork_exec *y;
            switch (fail) {
            case 1: strcpy(p, "/nonexistent/prog"); want = ENOENT; break;
            case 2: snprintf(p, sizeof p, "%s/noexec", vh.scratch); want = EACCES; break;
            case 3: strcpy(p, dirs[0]); want = EACCES; break;
            case 4: strcpy(p, "no-such-program-anywhere"); want = ENOENT; break;
            case 5: strcpy(p, "missing dir"); want = ENOENT; use_cwd = true; break;
            case 6: snprintf(p, sizeof p, "%s/locked", vh.scratch); want = EACCES; use_cwd = true; break;
            case 7: strcpy(p, helper); want = ENOTDIR; use_cwd = true; break;
            }
            if (use_cwd) y = x; else { y = cork_exec_new(p); for (int i = 0; i < np; i++) cork_exec_add_param(y, param[i]); }
            if (use_cwd) cork_exec_set_cwd(y, p); else if (cwd) cork_exec_set_cwd(y, cwd);
            int rc = cork_exec_run(y);
            VH_CHECK(rc == -1, "failure", "running %s returned %d", p, rc); VH_CHECK(cork_error_occurred(), "failure", "running %s set no error", p); VH_CHECK(cork_error_code() == (cork_error) want, "failure", "running %s set error %u, expected %s", p, (unsigned) cork_error_code(), strerror(want)); cork_error_clear();
            check_spec(y, use_cwd ? program : p, use_cwd ? env : NULL, use_cwd ? p : cwd, "after a failed run");
            if (!use_cwd) cork_exec_free(y);
            if (!rerun) { cork_exec_free(x); vh_alloc_expect_balanced(serial, "leak-after-failure"); _exit(77); }
            /* put right what was wrong, add a parameter, and run it again */
            if (chdir(dirs[here])) _exit(113);
            if (use_cwd) cork_exec_set_cwd(x, cwd ? cwd : dirs[here]);
            cork_exec_add_param(x, "again");
        }
        int rc = cork_exec_run(x); fprintf(stderr, "exec returned %d: %s\n", rc, cork_error_message()); vh_fail("not-run", "the program was not run: %s", cork_error_occurred() ? cork_error_message() : "no error");
    }
    close(pp[1]); got_n = got_at = 0; size_t cap = 0; got = NULL;
    for (;;) { if (got_n == cap) got = realloc(got, cap = cap * 2 + 65536); ssize_t k = read(pp[0], got + got_n, cap - got_n); if (k < 0) { if (errno == EINTR) continue; vh_broken("read"); } if (k == 0) break; VH_KNOWN(got + got_n, k); got_n += k; }
    close(pp[0]); int st; while (waitpid(pid, &st, 0) < 0) if (errno != EINTR) vh_broken("waitpid");
    if (WIFEXITED(st) && (WEXITSTATUS(st) == 98 || WEXITSTATUS(st) == 99)) _exit(WEXITSTATUS(st));
    if (fail && !rerun) { VH_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 77, "failure", "after a failed run the process ended with status %x", st); vh_count("failed runs", 1); }
    else {
        if (fail) { param[np] = copyz("again"); np++; vh_count("runs after a failed run", 1); }
        VH_CHECK(got_n >= 2 && !memcmp(got, "OK", 2), "report", "no report from the program (status %x)", st); got_at = 2;
        uint64_t n = get_n(); VH_CHECK(n == (uint64_t) np || (np == 0 && n == 1), "arguments", "the program has %" PRIu64 " arguments, expected %d", n, np);
        for (uint64_t i = 0; i < n; i++) { char *s = get_s(); if (np) VH_CHECK(!strcmp(s, param[i]), "arguments", "argument %d is \"%.100s\", expected \"%.100s\"", (int) i, s, param[i]); free(s); }
        n = get_n();
        if (env) {
            VH_CHECK(n == (uint64_t) ne, "environment", "the program has %" PRIu64 " variables, expected %d", n, ne); char seen[30] = { 0 };
            for (uint64_t i = 0; i < n; i++) { char *s = get_s(), *eq = strchr(s, '='); VH_CHECK(eq, "environment", "odd entry \"%.100s\"", s); *eq = 0; int k; for (k = 0; k < ne; k++) if (!strcmp(ename[k], s)) break; VH_CHECK(k < ne && !seen[k], "environment", "unexpected variable \"%.60s\"", s); seen[k] = 1; VH_CHECK(!strcmp(evalue[k], eq + 1), "environment", "\"%.60s\" is \"%.60s\", expected \"%.60s\"", s, eq + 1, evalue[k]); free(s); }
            vh_count("programs with an environment of their own", 1);
        } else {
            uint64_t m = 0; for (char **c = environ; *c; c++) m++;
            VH_CHECK(n == m, "environment", "the program has %" PRIu64 " variables, its caller %" PRIu64, n, m);
            for (uint64_t i = 0; i < n; i++) { char *s = get_s(); VH_CHECK(!strcmp(s, environ[i]), "environment", "\"%.100s\" was passed on as \"%.100s\"", environ[i], s); free(s); }
            vh_count("programs with the caller's environment", 1);
        }
        char *d = get_s(), *want = cwd ? NULL : copyz(dirs[here]); if (cwd) want = realpath(cwd, NULL);
        VH_CHECK(want && !strcmp(d, want), "directory", "the program runs in \"%.200s\", expected \"%.200s\"", d, want ? want : "?"); free(d); free(want);
        VH_CHECK(got_at == got_n, "report", "the program reported more than expected");
        int code = np ? strlen(param[np - 1]) % 90 : 0; VH_CHECK(WIFEXITED(st) && (!np || WEXITSTATUS(st) == code), "exit", "status %x, expected exit code %d", st, code);
        vh_count("programs run", 1); vh_count("arguments compared", np); if (cwd) vh_count("programs in a directory of their own", 1); if (search) vh_count("programs found by PATH", 1); if (!np) vh_count("programs without arguments", 1);
    }
    free(got); cork_exec_free(x); vh_alloc_expect_balanced(serial, "leak");
    vh_sig(np); vh_sig(ne); vh_sig(fail * 8 + ctor); for (int i = 0; i < np; i++) vh_sig_bytes(param[i], strlen(param[i]));
    if (np > 1) vh_nontrivial();
    if (vh_want_sample()) vh_sample("%d parameters, %d variables, in %s, failure %d", np, ne, cwd ? cwd : "(own)", fail);
    forget(); free(cwd); if (chdir(vh.scratch)) vh_broken("chdir");
}
