/* C22: hash values, unique identifiers, the hash tool. */
#include "vh.h"
#include <libcork/core.h>
#include <libcork/os.h>
#include <sys/wait.h>
#include <spawn.h>
#include "c22_uids.h"
extern char **environ;

cork_uid_define(local_a);
cork_uid_define(shared_name);
cork_uid_define_named(local_b, "a name with spaces");
cork_uid_define_named(local_c, "a name with spaces");

/* MurmurHash3_x86_32, from its description, byte by byte */
static uint32_t rot(uint32_t x, int n) { return x << n | x >> (32 - n); }
static uint32_t ref32(uint32_t h, const unsigned char *p, size_t n)
{
    size_t i; uint32_t k;
    for (i = 0; i + 4 <= n; i += 4) {
        k = (uint32_t) p[i] | (uint32_t) p[i + 1] << 8 | (uint32_t) p[i + 2] << 16 | (uint32_t) p[i + 3] << 24;
        k *= 0xcc9e2d51u; k = rot(k, 15); k *= 0x1b873593u; h ^= k; h = rot(h, 13); h = h * 5 + 0xe6546b64u;
    }
    if (n & 3) {
        k = 0; for (size_t j = n; j-- > i; ) k = k << 8 | p[j];
        k *= 0xcc9e2d51u; k = rot(k, 15); k *= 0x1b873593u; h ^= k;
    }
    h ^= (uint32_t) n; h ^= h >> 16; h *= 0x85ebca6bu; h ^= h >> 13; h *= 0xc2b2ae35u; return h ^ h >> 16;
}
/* published verification vectors */
static const struct { const char *s; uint32_t seed, h; } VEC[] = {
    {"", 0, 0}, {"", 1, 0x514e28b7u}, {"", 0xffffffffu, 0x81f16f39u}, {"test", 0, 0xba6bd213u}, {"test", 0x9747b28cu, 0x704b81dcu},
    {"Hello, world!", 0, 0xc0363e43u}, {"Hello, world!", 0x9747b28cu, 0x24884cbau},
    {"The quick brown fox jumps over the lazy dog", 0, 0x2e4ff723u}, {"The quick brown fox jumps over the lazy dog", 0x9747b28cu, 0x2fa826cdu},
};
static cork_big_hash mkbig(uint64_t a, uint64_t b) { cork_big_hash h; h.u128 = cork_u128_from_64(a, b); return h; }
#define HI(h) cork_u128_be64((h).u128, 0)
#define LO(h) cork_u128_be64((h).u128, 1)
static bool same(cork_big_hash a, cork_big_hash b) { return HI(a) == HI(b) && LO(a) == LO(b); }

struct item { cork_uid u; const char *name; };
static struct item uids[64]; static int nuids;
static void add_uid(cork_uid u, const char *n) { uids[nuids].u = u; uids[nuids].name = n; nuids++; }
void vh_setup(void)
{
    vh_alloc_install(); VH_WARM_ERRORS();
    add_uid(local_a, "local_a"); add_uid(shared_name, "shared_name"); add_uid(local_b, "a name with spaces"); add_uid(local_c, "a name with spaces");
    for (int i = 0; i < C22_NUIDS; i++) { add_uid(c22_uids1(i), c22_names(i)); add_uid(c22_uids2(i), c22_names(i)); }
    for (size_t i = 0; i < sizeof VEC / sizeof *VEC; i++) {
        uint32_t g = cork_stable_hash_buffer(VEC[i].seed, VEC[i].s, strlen(VEC[i].s));
        if (ref32(VEC[i].seed, (const void *) VEC[i].s, strlen(VEC[i].s)) != VEC[i].h) vh_broken("reference hash is wrong");
        VH_CHECK(g == VEC[i].h, "vector", "stable hash of \"%s\" with seed %08x is %08x, published %08x", VEC[i].s, VEC[i].seed, g, VEC[i].h);
    }
}
static void uid_case(struct vh_rng *r)
{
    for (int i = 0; i < nuids; i++) {
        cork_uid u = uids[i].u;
        VH_CHECK(u != CORK_UID_NONE && !cork_uid_equal(u, CORK_UID_NONE), "uid-none", "%s equals the null identifier", uids[i].name);
        VH_CHECK(strcmp(cork_uid_name(u), uids[i].name) == 0, "uid-name", "%s is named %s", uids[i].name, cork_uid_name(u));
        cork_hash h = cork_uid_hash(u);
        for (int j = 0; j < nuids; j++) VH_CHECK(cork_uid_equal(u, uids[j].u) == (i == j), "uid-equal", "identifiers %s and %s", uids[i].name, uids[j].name);
        cork_uid c = u; VH_CHECK(cork_uid_equal(c, u) && cork_uid_hash(c) == h, "uid-copy", "a copy of %s is not the same", uids[i].name);
    }
    vh_count("identifier pairs", nuids * nuids); vh_evals(nuids * nuids);
}
static size_t run_tool(char **argv, char *out, size_t cap, int *status)
{
    int p[2]; if (pipe(p)) vh_broken("pipe");
    char *exe = vh_fmt("%s/%s/cork-hash", vh.exe_dir,
#if defined(__SANITIZE_ADDRESS__)
        "asan"
#else
        "plain"
#endif
        );
    posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa);
    posix_spawn_file_actions_adddup2(&fa, p[1], 1); posix_spawn_file_actions_addopen(&fa, 2, "/dev/null", 1, 0);
    posix_spawn_file_actions_addclose(&fa, p[0]); posix_spawn_file_actions_addclose(&fa, p[1]);
    pid_t pid; if (posix_spawn(&pid, exe, &fa, NULL, argv, environ)) vh_broken("cannot run %s", exe);
    posix_spawn_file_actions_destroy(&fa); close(p[1]);
    size_t n = 0; ssize_t k; while (n < cap && (k = read(p[0], out + n, cap - n)) > 0) n += k;
    close(p[0]); while (waitpid(pid, status, 0) < 0) ;
    return n;
}
static void tool_case(struct vh_rng *r)
{
    char s[300]; size_t n = vh_size(r, 200);
    for (size_t i = 0; i < n; i++) s[i] = 1 + vh_below(r, vh_chance(r, 1, 2) ? 255 : 126); s[n] = 0;
    int form = vh_below(r, 8); const char *opt[] = { "-b", "--big", "-f", "--fastest", "-s", "--stable", NULL, NULL };
    char out[256], want[64], *argv[8]; int a = 0, st;
    argv[a++] = "cork-hash"; if (vh_chance(r, 1, 5)) argv[a++] = (char *) opt[vh_below(r, 6)];
    bool other = a > 1; if (opt[form]) argv[a++] = (char *) opt[form]; else if (other) a--;
    argv[a++] = "--";
    int strings = vh_chance(r, 1, 10) ? (vh_chance(r, 1, 2) ? 0 : 2) : 1;
    for (int i = 0; i < strings; i++) argv[a++] = s;
    argv[a] = NULL;
    size_t k = run_tool(argv, out, sizeof out, &st);
    vh_trace("cork-hash %s %d strings, \"%s\"", opt[form] ? opt[form] : "", strings, vh_hex(s, n));
    if (strings != 1) {
        VH_CHECK(WIFEXITED(st) && WEXITSTATUS(st) != 0, "tool-usage", "%d strings: exit status %x", strings, st);
        VH_CHECK(k == 0, "tool-usage", "%d strings: printed on standard output", strings);
        vh_count("usage errors", 1); return;
    }
    VH_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "tool", "cork-hash failed (%x)", st);
    if (opt[form] && form < 2) { cork_big_hash h = CORK_BIG_HASH_INIT(); h = cork_big_hash_buffer(h, s, n); sprintf(want, "%016" PRIx64 "%016" PRIx64 "\n", HI(h), LO(h)); }
    else if (opt[form] && form < 4) sprintf(want, "0x%08x\n", cork_hash_buffer(0, s, n));
    else sprintf(want, "0x%08x\n", ref32(0, (void *) s, n));
    VH_CHECK(k == strlen(want) && memcmp(out, want, k) == 0, "tool", "cork-hash %s printed %.*s, library gives %s", opt[form] ? opt[form] : "", (int) k, out, want);
    vh_count("tool runs", 1);
}
/* placed at any alignment between guard bytes, or in a block of its exact size */
struct place { unsigned char *base, *p; };
static struct place put(struct vh_rng *r, const unsigned char *s, size_t n)
{
    struct place q;
    if (vh_chance(r, 1, 2)) { q.base = q.p = malloc(n); if (n) memcpy(q.p, s, n); }
    else { size_t off = vh_below(r, 17), tail = vh_below(r, 20); q.base = malloc(n + off + tail); memset(q.base, (int) vh_u64(r), n + off + tail); q.p = q.base + off; if (n) memcpy(q.p, s, n);
        vh_count("unaligned strings", ((uintptr_t) q.p & 7) != 0); }
    return q;
}
struct padded { char c; uint64_t v; } __attribute__((packed));
/* the flavour for 32-bit platforms */
static void wide(struct vh_rng *r, cork_big_hash seed, unsigned char *s, size_t n, size_t i, size_t j, unsigned char oi, unsigned char oj)
{
#ifdef cork_murmur_hash_x86_128
    cork_big_hash g, h, k; if (n > 4096) return;
    struct place c = put(r, s, n); cork_murmur_hash_x86_128(seed, c.p, (unsigned) n, &g); free(c.base);
    c = put(r, s, n); cork_murmur_hash_x86_128(seed, c.p, (unsigned) n, &k); free(c.base); VH_CHECK(same(g, k), "x86-place", "32-bit big hash of %zu bytes depends on where they are", n);
    unsigned char ni = s[i], nj = s[j]; s[i] = oi; s[j] = oj; cork_murmur_hash_x86_128(seed, s, (unsigned) n, &h); VH_CHECK(!same(g, h), "x86-pair", "32-bit big hash of %zu bytes does not see bytes %zu and %zu change", n, i, j);
    s[j] = nj; cork_murmur_hash_x86_128(seed, s, (unsigned) n, &h); VH_CHECK(ni == oi || !same(g, h), "x86-byte", "32-bit big hash of %zu bytes ignores byte %zu", n, i);
    s[i] = ni; vh_count("32-bit big hashes", 1);
#endif
}
void vh_case(struct vh_rng *r, uint64_t index)
{
    if (index == 0) uid_case(r);
    if (vh_chance(r, 1, 16)) tool_case(r);
    bool large = index % 128 == 77;
    size_t n = index < 70 ? index : large ? (vh_chance(r, 1, 2) ? (UINT64_C(1) << (18 + vh_below(r, 5))) + vh_range(r, -17, 17) : vh_below(r, 8u << 20)) : vh_chance(r, 1, 30) ? vh_below(r, 70000) : vh_size(r, 600);
    if (large) vh_count("strings of up to 8 MiB", 1);
    unsigned char *s = malloc(n + 1); vh_fill(r, s, n, vh_below(r, 4));
    uint32_t seed = (uint32_t) vh_interesting64(r); cork_big_hash bs = mkbig(vh_interesting64(r), vh_interesting64(r));
    struct place a = put(r, s, n);
    uint32_t f = cork_hash_buffer(seed, a.p, n), st = cork_stable_hash_buffer(seed, a.p, n), want = ref32(seed, s, n);
    cork_big_hash b = cork_big_hash_buffer(bs, a.p, n);
    VH_CHECK(st == want, "stable", "stable hash of %zu bytes with seed %08x is %08x, MurmurHash3 is %08x", n, seed, st, want);
    VH_CHECK(memcmp(a.p, s, n) == 0, "changed", "hashing changed the string");
    for (int k = 0; k < 3; k++) {
        struct place c = put(r, s, n);
        VH_CHECK(cork_stable_hash_buffer(seed, c.p, n) == want, "stable-place", "stable hash of %zu bytes depends on where they are", n);
        VH_CHECK(cork_hash_buffer(seed, c.p, n) == f, "fast-place", "fast hash of %zu bytes depends on where they are", n);
        VH_CHECK(same(cork_big_hash_buffer(bs, c.p, n), b), "big-place", "big hash of %zu bytes depends on where they are", n);
        free(c.base);
    }
    free(a.base);
    /* a hash value built up in steps, the way the documentation shows it */
    { uint32_t h = seed, w = seed; for (int i = 0; i < 3; i++) { h = cork_stable_hash_buffer(h, s, n); w = ref32(w, s, n); } VH_CHECK(h == w, "stable-chain", "chained stable hash of %zu bytes", n); }
    /* every byte, the length and the seed matter: 3 changes that all go unnoticed are no coincidence */
    for (int k = 0; k < 4 && n; k++) {
        size_t i = vh_chance(r, 1, 2) ? vh_below(r, n) : n - 1 - vh_below(r, n < 17 ? n : 17); unsigned char old = s[i]; int fsame = 0;
        for (int j = 0; j < 4; j++) {
            s[i] = old ^ (1 + vh_below(r, 255));
            fsame += cork_hash_buffer(seed, s, n) == f;
            cork_big_hash g = cork_big_hash_buffer(bs, s, n);
            VH_CHECK(!same(g, b) && !cork_big_hash_equal(g, b), "big-byte", "big hash of %zu bytes ignores byte %zu", n, i);
        }
        s[i] = old; VH_CHECK(fsame < 3, "fast-byte", "fast hash of %zu bytes ignores byte %zu", n, i);
    }
    { int fl = 0, fs = 0; for (int j = 1; j <= 4; j++) { if (n >= (size_t) j) { fl += cork_hash_buffer(seed, s, n - j) == f; VH_CHECK(!same(cork_big_hash_buffer(bs, s, n - j), b), "big-length", "big hash of %zu and %zu bytes is the same", n, n - j); }
        fs += cork_hash_buffer(seed ^ (1u << vh_below(r, 32)), s, n) == f; cork_big_hash o = bs;
        o = vh_chance(r, 1, 2) ? mkbig(HI(bs) ^ UINT64_C(1) << vh_below(r, 64), LO(bs)) : mkbig(HI(bs), LO(bs) ^ UINT64_C(1) << vh_below(r, 64));
        VH_CHECK(!same(cork_big_hash_buffer(o, s, n), b), "big-seed", "big hash of %zu bytes ignores part of the seed", n); }
      VH_CHECK(fl < 3, "fast-length", "fast hash ignores the length"); VH_CHECK(fs < 3, "fast-seed", "fast hash ignores the seed"); }
    /* changes of two bytes next to each other (or anywhere in the same 16), and of their order, do not cancel out */
    for (int k = 0; k < 12 && n > 1; k++) {
        size_t i = vh_chance(r, 1, 2) ? vh_below(r, n) : n - 1 - vh_below(r, n < 17 ? n : 17), lo = i & ~(size_t) 15, hi = lo + 16 < n ? lo + 16 : n, j = vh_chance(r, 1, 2) ? i + 1 : lo + vh_below(r, hi - lo); if (j >= hi || j == i) continue;
        unsigned char oi = s[i], oj = s[j];
        switch (vh_below(r, 3)) { case 0: s[i] = oj; s[j] = oi; break; case 1: s[i] ^= 0x80 >> vh_below(r, 8); s[j] ^= 1 << vh_below(r, 8); break; default: s[i] ^= 1 + vh_below(r, 255); s[j] ^= 1 + vh_below(r, 255); }
        if (s[i] != oi || s[j] != oj) { vh_count("pairs of bytes changed", 1); cork_big_hash g = cork_big_hash_buffer(bs, s, n); VH_CHECK(!same(g, b), "big-pair", "big hash of %zu bytes does not see bytes %zu and %zu change", n, i, j); wide(r, bs, s, n, i, j, oi, oj); }
        s[i] = oi; s[j] = oj;
    }
#ifdef cork_murmur_hash_x86_32
    { uint32_t h; struct place c = put(r, s, n); cork_murmur_hash_x86_32(seed, c.p, (unsigned) n, &h); free(c.base); VH_CHECK(h == want, "x86", "the 32-bit fast hash of %zu bytes with seed %08x is %08x, MurmurHash3 is %08x", n, seed, h, want); }
#endif
    /* variables of several types */
#define VAR(T, name) do { T v; memset(&v, 0, sizeof v); vh_fill(r, &v, sizeof v, 0); unsigned char raw[sizeof v]; memcpy(raw, &v, sizeof v); \
        VH_CHECK(cork_stable_hash_variable(seed, v) == ref32(seed, raw, sizeof v), "variable", "stable hash of a " name); \
        VH_CHECK(cork_hash_variable(seed, v) == cork_hash_buffer(seed, raw, sizeof v), "variable", "fast hash of a " name); \
        VH_CHECK(same(cork_big_hash_variable(bs, v), cork_big_hash_buffer(bs, raw, sizeof v)), "variable", "big hash of a " name); } while (0)
    switch (vh_below(r, 7)) {
    case 0: VAR(char, "char"); break; case 1: VAR(short, "short"); break; case 2: VAR(int, "int"); break; case 3: VAR(uint64_t, "uint64_t"); break;
    case 4: VAR(struct padded, "struct of 9 bytes"); break; case 5: VAR(cork_big_hash, "big hash"); break; case 6: { struct s37 { char c[37]; }; VAR(struct s37, "struct of 37 bytes"); break; }
    }
    /* equality of big hashes: exactly all bits */
    { cork_big_hash c = mkbig(HI(b), LO(b)); VH_CHECK(cork_big_hash_equal(b, c), "big-equal", "a big hash does not equal its copy");
      for (int i = 0; i < 128; i++) { c = i < 64 ? mkbig(HI(b), LO(b) ^ UINT64_C(1) << i) : mkbig(HI(b) ^ UINT64_C(1) << (i - 64), LO(b)); VH_CHECK(!cork_big_hash_equal(b, c) && !cork_big_hash_equal(c, b), "big-equal", "big hashes that differ in bit %d are equal", i); }
      cork_big_hash z = CORK_BIG_HASH_INIT(); VH_CHECK(HI(z) == 0 && LO(z) == 0, "big-init", "initial big hash is not zero"); }
    vh_count("strings hashed", 1); vh_count("strings with a partial last block", n % 16 != 0); vh_evals(30); vh_sig(want); vh_sig(n); if (n) vh_nontrivial();
    if (vh_want_sample()) vh_sample("%zu bytes, seed %08x: stable %08x, fast %08x, big %016" PRIx64 "...", n, seed, want, f, HI(b));
    free(s);
}
