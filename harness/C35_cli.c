/* C35: command lines. */
#include "vh.h"
#include <libcork/cli.h>
#include <libcork/core.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>

#define MAXC 40
struct node { struct cork_command c; struct cork_command *set[12]; int nset, parent, id; char *name, *desc, *suffix, *full; int parser, take, ret; };
/* parser: 0 none; 1 leading options; 2 up to `take` arguments; 3 like 1, but rejects --bad */
/* ret: what a leaf does: -1 return, else exit with it; 300+: show help and exit */
static struct node node[MAXC]; static int nn;

/* what happened, written by the subprocess */
static struct { size_t n; char p[1 << 18]; } *event_log;
static void ev(const char *fmt, ...) { va_list ap; va_start(ap, fmt); int k = vsnprintf(event_log->p + event_log->n, sizeof event_log->p - event_log->n, fmt, ap); va_end(ap); if (k < 0 || (event_log->n += k) >= sizeof event_log->p) vh_fail("runaway", "callbacks are called endlessly"); }
static void ev_args(int argc, char **argv) { ev("%d:", argc); for (int i = 0; i < argc; i++) ev(" %zu=%s", strlen(argv[i]), argv[i]); ev(" %s\n", argv[argc] ? "no NULL" : "NULL"); }
static int consumed(const struct node *x, int argc, char **argv, bool *bad)
{
    int n = 1; *bad = false; if (x->parser == 2) { n += x->take; return n < argc ? n : argc; }
    for (; n < argc && argv[n][0] == '-'; n++) { if (x->parser == 3 && !strcmp(argv[n], "--bad")) { *bad = true; return n; } if (!strcmp(argv[n], "--")) return n + 1; }
    return n;
}
static int parse(int id, int argc, char **argv)
{
    bool bad; ev("parse %d ", id); ev_args(argc, argv); int n = consumed(&node[id], argc, argv, &bad);
    if (bad) { cork_command_show_help(&node[id].c, "Bad option."); exit(EXIT_FAILURE); }
    return n;
}
static void run(int id, int argc, char **argv)
{
    ev("run %d ", id); ev_args(argc, argv); int r = node[id].ret;
    if (r >= 300) { cork_command_show_help(&node[id].c, r % 2 ? "Wrong arguments" : NULL); exit(r - 300); }
    if (r >= 0) exit(r);
}
#define F(n) static int parse_##n(int c, char **v) { return parse(n, c, v); } static void run_##n(int c, char **v) { run(n, c, v); }
#define ALL(X) X(0) X(1) X(2) X(3) X(4) X(5) X(6) X(7) X(8) X(9) X(10) X(11) X(12) X(13) X(14) X(15) X(16) X(17) X(18) X(19) X(20) X(21) X(22) X(23) X(24) X(25) X(26) X(27) X(28) X(29) X(30) X(31) X(32) X(33) X(34) X(35) X(36) X(37) X(38) X(39)
ALL(F)
#define P(n) parse_##n,
#define R(n) run_##n,
static const cork_option_parser parsers[] = { ALL(P) }; static const cork_leaf_command_run runs[] = { ALL(R) };

static char *own(const char *s) { if (!s) return NULL; char *c = malloc(strlen(s) + 1); return strcpy(c, s); }
static char *words(struct vh_rng *r, int max)
{
    static const char *const w[] = { "add", "%s", "an element", "<file>", "[--opt]", "caf\xc3\xa9", "%d%n", "--", "to the set.", "x" }; struct vstr s; vstr_init(&s);
    for (int i = 0, n = 1 + vh_below(r, max); i < n; i++) { if (i) vstr_addc(&s, ' '); vstr_adds(&s, w[vh_below(r, 10)]); } char *c = own(vstr_z(&s)); vstr_done(&s); return c;
}
static char *name(struct vh_rng *r, int parent)
{
    for (;;) {
        char b[300]; int n = vh_chance(r, 1, 30) ? 250 : 1 + vh_below(r, 6); for (int i = 0; i < n; i++) b[i] = "abcde%_-.\xc3"[i == 0 || vh_chance(r, 9, 10) ? vh_below(r, i ? 3 : 2) : vh_below(r, 10)]; b[n] = 0;
        if (vh_chance(r, 1, 20)) strcpy(b, vh_chance(r, 1, 2) ? "helper" : "hel");
        bool dup = false; for (int i = 0; parent >= 0 && i < node[parent].nset; i++) if (!strcmp(node[parent].set[i]->name, b)) dup = true; if (!dup) return own(b);
    }
}
static int make(struct vh_rng *r, int parent, int depth)
{
    int id = nn++; struct node *x = &node[id]; memset(x, 0, sizeof *x); x->id = id; x->parent = parent; x->name = name(r, parent); x->desc = vh_chance(r, 1, 5) ? NULL : words(r, 6); x->parser = vh_chance(r, 1, 2) ? 0 : 1 + vh_below(r, 3); x->take = vh_below(r, 3);
    if (parent >= 0) { node[parent].set[node[parent].nset++] = &x->c; }
    bool set = parent < 0 || (depth < 4 && vh_chance(r, 1, 3));
    if (set) {
        struct cork_command c = cork_command_set(x->name, x->desc, x->parser ? parsers[id] : NULL, x->set); x->c = c;
        for (int k = vh_chance(r, 1, 12) ? 0 : 1 + vh_below(r, depth ? 4 : 8); k > 0 && nn < MAXC; k--) make(r, id, depth + 1); x->set[x->nset] = NULL;
    } else {
        x->suffix = vh_chance(r, 1, 4) ? NULL : words(r, 4);
        if (!vh_chance(r, 1, 4)) { struct vstr s; vstr_init(&s); for (int k = 1 + vh_below(r, 5); k > 0; k--) { char *w = words(r, 10); vstr_adds(&s, w); free(w); vstr_addc(&s, '\n'); if (vh_chance(r, 1, 4)) vstr_adds(&s, "\n  indented\n"); } x->full = own(vstr_z(&s)); vstr_done(&s); }
        x->ret = vh_chance(r, 1, 2) ? -1 : vh_chance(r, 1, 2) ? (int) vh_below(r, 90) : 300 + (int) vh_below(r, 4);
        struct cork_command c = cork_leaf_command(x->name, x->desc, x->suffix, x->full, x->parser ? parsers[id] : NULL, runs[id]); x->c = c;
    }
    return id;
}
static struct node *find(struct node *x, const char *s) { for (int i = 0; i < x->nset; i++) if (!strcmp(x->set[i]->name, s)) return cork_container_of(x->set[i], struct node, c); return NULL; }

static char *line(char **t) { char *l = *t; if (!l) return NULL; char *e = strchr(l, '\n'); if (e) { *e = 0; *t = e + 1; } else *t = NULL; return l; }
/* text is the help of x, reached by path (" root sub ...") */
static void check_help(char *text, struct node *x, const char *path)
{
    char *whole = own(text), *t = text, *l = line(&t); size_t k = strlen(path), column = 0;
    if (x->c.type == CORK_COMMAND_SET || !x->full) VH_CHECK(*whole && whole[strlen(whole) - 1] == '\n', "help-end", "the help text does not end with a line end: \"%.200s\"", whole);
    VH_CHECK(!strncmp(l, "Usage:", 6), "usage", "no usage line: \"%.100s\"", l);
    VH_CHECK(!strncmp(l + 6, path, k), "usage", "the usage line is \"%.200s\", expected the command path \"%.200s\"", l, path);
    if (x->c.type == CORK_COMMAND_SET) {
        VH_CHECK(l[6 + k] == ' ' || l[6 + k] == 0, "usage", "the usage line is \"%.200s\", expected the command path \"%.200s\"", l, path);
        int i = 0; while ((l = line(&t))) {
            if (*l != ' ' && *l != '\t') continue;
            const char *l0 = l; while (*l == ' ' || *l == '\t') l++; VH_CHECK(i < x->nset, "list", "an unexpected subcommand is listed: \"%.100s\"", l);
            struct node *s = cork_container_of(x->set[i], struct node, c); size_t n = strlen(s->name); VH_CHECK(!strncmp(l, s->name, n) && (l[n] == ' ' || l[n] == 0), "list", "entry %d of the list is \"%.100s\", expected \"%.100s\"", i, l, s->name);
            l += n; bool gap = *l == ' '; while (*l == ' ' && !(s->desc && !strcmp(l, s->desc))) l++; if (s->desc && *s->desc && !strchr(l0, '\t')) { VH_CHECK(!column || column == (size_t) (l - l0), "list", "the descriptions of a list are not in one column: \"%.100s\"", l0); column = l - l0; } VH_CHECK(!strcmp(l, s->desc ? s->desc : "") && (gap || !s->desc), "list", "\"%.60s\" is described as \"%.100s\", expected \"%.100s\"", s->name, l, s->desc ? s->desc : ""); i++;
        }
        VH_CHECK(i == x->nset, "list", "%d of %d subcommands are listed", i, x->nset); vh_count("lists of subcommands", 1);
    } else {
        if (x->suffix) VH_CHECK(l[6 + k] == ' ' && !strcmp(l + 6 + k + 1, x->suffix), "usage", "the usage line is \"%.200s\", expected \"%.200s\" after the path", l, x->suffix); else VH_CHECK(l[6 + k] == 0, "usage", "the usage line is \"%.200s\"", l);
        char *rest = whole + strlen(l) + (strchr(whole, '\n') ? 1 : 0); while (*rest == '\n') rest++;
        VH_CHECK(!strcmp(rest, x->full ? x->full : ""), "full-help", "the help text is \"%.200s\", expected \"%.200s\"", rest, x->full ? x->full : ""); vh_count("full help texts", 1);
    }
    free(whole); vh_evals(1);
}

static struct cork_command *root; static int gargc; static char **gargv; static uint64_t serial;
static void balanced(void) { vh_alloc_expect_balanced(serial, "leak"); }
void vh_setup(void)
{
    event_log = mmap(NULL, sizeof *event_log, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (event_log == MAP_FAILED) vh_broken("mmap");
    vh_alloc_install(); VH_WARM_ERRORS();
}
void vh_case(struct vh_rng *r, uint64_t index)
{
    nn = 0; make(r, -1, 0);
    for (int rep = 0; rep < 6; rep++) {
        /* a command line: mostly a path with noise */
        char *arg[30]; int n = 0; struct node *at = &node[0]; int end = vh_below(r, 8); arg[n++] = own(vh_chance(r, 1, 2) ? node[0].name : "/usr/bin/prog"); bool helped = false;
        for (int d = 0; d < 6 && n < 20; d++) {
            for (int k = at->parser == 2 ? (int) vh_below(r, at->take + 2) : at->parser ? (int) vh_below(r, 4) : vh_chance(r, 1, 20); k > 0; k--) { static const char *const o[] = { "-x", "--opt", "--opt=1 2", "-", "--", "--bad", "value", "", "-h", "--help", "--helpx" }; arg[n++] = own(o[vh_below(r, vh_chance(r, 1, 3) ? 11 : at->parser == 2 ? 8 : 3)]); }
            if (at->c.type != CORK_COMMAND_SET || (d && end == 0) || at->nset == 0) break;
            if (!helped && vh_chance(r, 1, 6)) { arg[n++] = own("help"); helped = true; }
            if (vh_chance(r, 1, 12)) { static const char *const o[] = { "unknown", "hel", "", "-h", "--help", "HELP", "helpx" }; if (vh_chance(r, 1, 2)) arg[n++] = own(o[vh_below(r, 7)]); else { /* almost right */ const char *s = at->set[vh_below(r, at->nset)]->name; char b[400]; sprintf(b, vh_chance(r, 1, 2) ? "%.299sa" : "%.299s", s); if (vh_chance(r, 1, 2) && strlen(b) > 1) b[strlen(b) - 1] = 0; arg[n++] = own(b); if (find(at, b)) { at = find(at, b); continue; } } }
            at = cork_container_of(at->set[vh_below(r, at->nset)], struct node, c); arg[n++] = own(at->name);
        }
        if (end < 3) for (int k = vh_below(r, 5); k > 0; k--) { static const char *const o[] = { "-h", "--help", "help", "a", "b", "", "-x", "%s", "--", "a" }; arg[n++] = own(o[vh_below(r, 10)]); }
        gargc = n; gargv = malloc((n + 1) * sizeof *gargv); memcpy(gargv, arg, n * sizeof *gargv); gargv[n] = NULL; root = &node[0].c;
        for (int i = 0; i < n; i++) vh_trace("%s[%s]", i ? " " : "\n", arg[i]);

        /* what should happen */
        struct vstr want, path; vstr_init(&want); vstr_init(&path); struct node *x = &node[0], *help = NULL; int ac = n, code = 0; char **av = gargv; const char *unknown = NULL, *message = NULL; enum { RUN, HELP, NONE, UNKNOWN, BAD } out; 
#define ARGS(c, v) do { vstr_addf(&want, "%d:", (c)); for (int i_ = 0; i_ < (c); i_++) vstr_addf(&want, " %zu=%s", strlen((v)[i_]), (v)[i_]); vstr_adds(&want, " NULL\n"); } while (0)
        for (;;) {
            vstr_addc(&path, ' '); vstr_adds(&path, x->name);
            if (ac >= 2 && (!strcmp(av[1], "--help") || !strcmp(av[1], "-h"))) { out = HELP; help = x; break; }
            int used = 1; bool bad = false; if (x->parser) { vstr_addf(&want, "parse %d ", x->id); ARGS(ac, av); used = consumed(x, ac, av, &bad); }
            if (bad) { out = BAD; help = x; message = "Bad option."; code = 1; break; }
            ac -= used; av += used;
            if (x->c.type == CORK_LEAF_COMMAND) { vstr_addf(&want, "run %d ", x->id); ARGS(ac, av); out = RUN; code = x->ret < 0 ? 0 : x->ret % 300; if (x->ret >= 300) { help = x; if (x->ret % 2) message = "Wrong arguments"; } break; }
            if (ac == 0) { out = NONE; help = x; code = 1; break; }
            if (!strcmp(av[0], "help")) { out = HELP; for (ac--, av++; ac > 0 && x->c.type == CORK_COMMAND_SET; ac--, av++) { struct node *y = find(x, av[0]); if (!y) { out = UNKNOWN; unknown = av[0]; code = 1; break; } x = y; vstr_addc(&path, ' '); vstr_adds(&path, x->name); } help = x; break; }
            struct node *y = find(x, av[0]); if (!y) { out = UNKNOWN; unknown = av[0]; code = 1; break; }
            x = y;
        }

        char file[4200]; snprintf(file, sizeof file, "%s/out", vh.scratch); event_log->n = 0; event_log->p[0] = 0; fflush(NULL); pid_t pid = fork(); if (pid < 0) vh_broken("fork");
        if (pid == 0) {
            int f = open(file, O_CREAT | O_TRUNC | O_WRONLY, 0600); if (f < 0 || dup2(f, 1) < 0) vh_broken("open %s", file); close(f); alarm(30);
            serial = vh_alloc_serial(); atexit(balanced); exit(cork_command_main(root, gargc, gargv));
        }
        int st; while (waitpid(pid, &st, 0) < 0) if (errno != EINTR) vh_broken("waitpid");
        if (WIFSIGNALED(st)) { signal(WTERMSIG(st), SIG_DFL); raise(WTERMSIG(st)); } if (WEXITSTATUS(st) == VH_EXIT_VIOLATION || WEXITSTATUS(st) == VH_EXIT_SAN || WEXITSTATUS(st) == VH_EXIT_HANG) _exit(WEXITSTATUS(st));
        VH_CHECK(!strcmp(event_log->p, vstr_z(&want)), "calls", "calls:\n%.1500s\nexpected:\n%.1500s", event_log->p, vstr_z(&want));
        VH_CHECK(WEXITSTATUS(st) == code, "exit-status", "exit status %d, expected %d", WEXITSTATUS(st), code);
        FILE *f = fopen(file, "rb"); if (!f) vh_broken("output"); char *text = calloc(1, 1 << 17), *t = text; size_t got = fread(text, 1, (1 << 17) - 1, f); fclose(f); VH_CHECK(strlen(text) == got, "output", "NUL in the output"); vh_trace("\n-- output:\n%.2000s", text);
        if (out == RUN && !help) { VH_CHECK(got == 0, "output", "unexpected output: \"%.200s\"", text); vh_count("commands run", 1); }
        else if (out == UNKNOWN) {
            char *l = line(&t); VH_CHECK(l && strstr(l, unknown), "unknown", "an unknown command is reported as \"%.200s\"", l); l = line(&t); VH_CHECK(l && !strncmp(l, "Usage:", 6) && !strncmp(l + 6, vstr_z(&path), path.n) && (l[6 + path.n] == ' ' || l[6 + path.n] == 0), "usage", "the usage line is \"%.200s\", expected the command path \"%.200s\"", l, vstr_z(&path)); vh_count("unknown commands", 1);
        } else {
            if (out == NONE) { char *l = line(&t); VH_CHECK(*l && strncmp(l, "Usage:", 6), "missing", "a missing command is not reported: \"%.100s\"", l); vh_count("missing commands", 1); }
            else if (message) { char *l = line(&t); VH_CHECK(!strcmp(l, message), "message", "the message is \"%.100s\", expected \"%s\"", l, message); vh_count("explicit messages", 1); }
            VH_CHECK(t && *t, "no-help", "no help"); check_help(t, help, vstr_z(&path)); vh_count(out == HELP ? "help asked for" : out == BAD ? "bad options" : out == RUN ? "help shown by commands" : "help without a command", 1);
        }
        free(text); if (want.n) vh_count("callbacks compared", 1); vh_sig_bytes(want.p, want.n); vh_sig_bytes(path.p, path.n); vh_sig(out); if (n > 2) vh_nontrivial();
        if (vh_want_sample() && n > 2) vh_sample("[%.60s] [%.60s] [%.60s] and %d more: path%.200s, outcome %d, exit %d", arg[0], arg[1], arg[2], n - 3, vstr_z(&path), out, code);
        vstr_done(&want); vstr_done(&path); for (int i = 0; i < n; i++) free(arg[i]); free(gargv);
    }
    for (int i = 0; i < nn; i++) { free(node[i].name); free(node[i].desc); free(node[i].suffix); free(node[i].full); }
}
