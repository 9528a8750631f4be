/* C05: pretty-printed bytes are faithful. The oracle parses the output back. */
#include "vh.h"
#include <libcork/core.h>
#include <libcork/ds.h>

static bool printable(unsigned char c) { return c >= 0x20 && c <= 0x7e; }
static int hexv(int c)
{
    if (c >= '0' && c <= '9') return c - '0';
    if (c >= 'a' && c <= 'f') return c - 'a' + 10;
    if (c >= 'A' && c <= 'F') return c - 'A' + 10;
    return -1;
}
/* decode a C string literal whose \x escapes are exactly two digits wide */
static void check_c_string(const char *out, size_t n, const unsigned char *s, size_t len)
{
    size_t i, j = 0;
    VH_CHECK(n >= 2 && out[0] == '"' && out[n - 1] == '"', "c-quotes", "not enclosed in double quotes");
    for (i = 0; i < n; i++) VH_CHECK(printable(out[i]), "c-printable", "byte 0x%02x in the literal", (unsigned char) out[i]);
    for (i = 1; i < n - 1; j++) {
        unsigned char c = out[i];
        int v;
        VH_CHECK(j < len, "c-extra", "the literal denotes more than the %zu bytes", len);
        if (c == '"') vh_fail("c-escape", "unescaped quote inside the literal");
        if (c != '\\') { v = c; i++; }
        else {
            VH_CHECK(i + 1 < n - 1, "c-escape", "dangling backslash");
            switch (out[i + 1]) {
            case 'n': v = '\n'; i += 2; break;
            case 't': v = '\t'; i += 2; break;
            case 'r': v = '\r'; i += 2; break;
            case 'f': v = '\f'; i += 2; break;
            case 'v': v = '\v'; i += 2; break;
            case 'a': v = '\a'; i += 2; break;
            case 'b': v = '\b'; i += 2; break;
            case '"': case '\\': v = out[i + 1]; i += 2; break;
            case 'x': {
                int h1 = i + 2 < n - 1 ? hexv(out[i + 2]) : -1, h2 = i + 3 < n - 1 ? hexv(out[i + 3]) : -1;
                VH_CHECK(h1 >= 0 && h2 >= 0, "c-escape", "\\x without two digits");
                v = h1 * 16 + h2; i += 4;
                VH_CHECK(!printable(v), "c-needless", "printable byte 0x%02x written in hexadecimal", v);
                VH_CHECK(v == 0 || !strchr("\n\t\r\f\v", v), "c-letter", "byte 0x%02x written in hexadecimal instead of its letter", v);
                break; }
            default: vh_fail("c-escape", "unknown escape \\%c", out[i + 1]);
            }
        }
        VH_CHECK((unsigned char) v == s[j], "c-value", "byte %zu decodes to 0x%02x, was 0x%02x", j, v, s[j]);
    }
    VH_CHECK(j == len, "c-missing", "the literal denotes %zu of %zu bytes", j, len);
}
static void check_hex(const char *out, size_t n, size_t indent, const unsigned char *s, size_t len)
{
    size_t pos = 0, off = 0, line = 0;
    while (off < len) {
        size_t cnt = len - off < 16 ? len - off : 16, k;
        if (line > 0) {
            VH_CHECK(pos < n && out[pos] == '\n', "hex-newline", "line %zu does not start after a newline", line);
            pos++;
            for (k = 0; k < indent; k++, pos++) VH_CHECK(pos < n && out[pos] == ' ', "hex-indent", "line %zu: indentation", line);
        }
        size_t eol = pos;
        while (eol < n && !(out[eol] == '\n')) eol++;
        /* hex part: cnt pairs */
        for (k = 0; k < cnt; k++) {
            while (pos < eol && out[pos] == ' ') {
                VH_CHECK(k > 0, "hex-indent", "line %zu: extra indentation", line);
                pos++;
            }
            VH_CHECK(pos + 1 < eol, "hex-short", "line %zu: only %zu of %zu bytes", line, k, cnt);
            int h1 = hexv(out[pos]), h2 = hexv(out[pos + 1]);
            VH_CHECK(h1 >= 0 && h2 >= 0 && h1 * 16 + h2 == s[off + k], "hex-value", "byte %zu shown as %c%c, was %02x", off + k, out[pos], out[pos + 1], s[off + k]);
            pos += 2;
        }
        while (pos < eol && out[pos] == ' ') pos++;
        VH_CHECK(pos < eol && out[pos] == '|', "hex-extra", "line %zu: junk after the bytes", line);
        pos++;
        for (k = 0; k < cnt; k++, pos++) {
            char want = printable(s[off + k]) ? s[off + k] : '.';
            VH_CHECK(pos < eol && out[pos] == want, "hex-char", "byte %zu shown as character '%c', expected '%c'", off + k, pos < eol ? out[pos] : '?', want);
        }
        VH_CHECK(pos < eol && out[pos] == '|', "hex-bar", "line %zu: no closing bar", line);
        pos++;
        VH_CHECK(pos == eol, "hex-extra", "line %zu: junk at the end", line);
        off += cnt; line++;
    }
    VH_CHECK(pos == n, "hex-trailing", "%zu bytes after the dump", n - pos);
}
static void check_multi(const char *out, size_t n, size_t indent, const unsigned char *s, size_t len)
{
    size_t pos = 0;
    for (size_t i = 0; i < len; i++) {
        VH_CHECK(pos < n && (unsigned char) out[pos] == s[i], "multi-text", "character %zu differs", i);
        pos++;
        if (s[i] == '\n')
            for (size_t k = 0; k < indent; k++, pos++) VH_CHECK(pos < n && out[pos] == ' ', "multi-indent", "missing indentation");
    }
    VH_CHECK(pos == n, "multi-trailing", "%zu bytes too many", n - pos);
}

void vh_setup(void) { vh_alloc_install(); VH_WARM_ERRORS(); }
void vh_case(struct vh_rng *r, uint64_t index)
{
    uint64_t serial = vh_alloc_serial();
    struct cork_buffer b = CORK_BUFFER_INIT();
    size_t len = vh_chance(r, 1, 3) ? vh_below(r, 70) : vh_size(r, 1200);
    size_t indent = vh_chance(r, 1, 3) ? 0 : vh_below(r, 40);
    unsigned char *s = malloc(len ? len : 1);
    struct vstr pre; vstr_init(&pre);
    int mode = vh_below(r, 5);
    if (mode == 4) for (size_t i = 0; i < len; i++) s[i] = "abc \n\t\r\v\fZ~!"[vh_below(r, 12)];
    else vh_fill(r, s, len, mode);
    if (len && vh_chance(r, 1, 4)) s[vh_below(r, len)] = vh_below(r, 256);      /* one odd byte */
    if (vh_chance(r, 1, 2)) { vstr_addf(&pre, "pre%d", (int) vh_below(r, 1000)); cork_buffer_set_string(&b, vstr_z(&pre)); }
    bool has_np = false, has_nl = false;
    for (size_t i = 0; i < len; i++) {
        if (s[i] == '\n') has_nl = true;
        if (!printable(s[i]) && !(s[i] >= 9 && s[i] <= 13)) has_np = true;
    }
#define OUT ((char *) b.buf + pre.n)
#define N (b.size - pre.n)
#define PREFIX() do { VH_CHECK(b.size >= pre.n && (pre.n == 0 || !memcmp(b.buf, pre.p, pre.n)), "prefix", "existing contents were changed"); \
        if (b.size) VH_CHECK(((char *) b.buf)[b.size] == 0, "nul", "no NUL after the output"); } while (0)
    vh_trace("length %zu indent %zu: %s", len, indent, vh_hex(s, len));
    cork_buffer_append_c_string(&b, (char *) s, len); PREFIX();
    check_c_string(OUT, N, s, len);
    if (pre.n) cork_buffer_truncate(&b, pre.n); else cork_buffer_clear(&b);
    cork_buffer_append_hex_dump(&b, indent, (char *) s, len); PREFIX();
    check_hex(OUT, N, indent, s, len);
    if (pre.n) cork_buffer_truncate(&b, pre.n); else cork_buffer_clear(&b);
    cork_buffer_append_multiline(&b, indent, (char *) s, len); PREFIX();
    check_multi(OUT, N, indent, s, len);
    if (pre.n) cork_buffer_truncate(&b, pre.n); else cork_buffer_clear(&b);
    cork_buffer_append_binary(&b, indent, (char *) s, len); PREFIX();
    {
        const char *o = OUT; size_t n = N, k;
        if (has_np || has_nl) {
            const char *tag = has_np ? "(hex)\n" : "(multiline)\n";
            size_t tl = strlen(tag);
            VH_CHECK(n >= tl + indent && !memcmp(o, tag, tl), "binary-form", "binary form chose the wrong rendering (want %.*s)", (int) tl - 1, tag);
            for (k = 0; k < indent; k++) VH_CHECK(o[tl + k] == ' ', "binary-indent", "binary form: indentation of the first line");
            if (has_np) check_hex(o + tl + indent, n - tl - indent, indent, s, len);
            else check_multi(o + tl + indent, n - tl - indent, indent, s, len);
            vh_count(has_np ? "binary as hex dump" : "binary as multi-line", 1);
        } else {
            VH_CHECK(n == len && (n == 0 || !memcmp(o, s, len)), "binary-raw", "binary form changed plain text");
            vh_count("binary as raw text", 1);
        }
    }
    vh_evals(4);
    if (len > 0) vh_nontrivial();
    vh_sig_bytes(s, len); vh_sig(indent);
    if (vh_want_sample() && len && len < 40) vh_sample("bytes %s at indent %zu", vh_hex(s, len), indent);
    cork_buffer_done(&b); vstr_done(&pre); free(s);
    vh_alloc_expect_balanced(serial, "leak");
}
