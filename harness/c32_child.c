/* Writes everything it was given to descriptor 100: argument count, arguments,
 * environment, working directory, and which of descriptors 0-99 are open. */
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <unistd.h>
extern char **environ;
static void put(const void *p, size_t n) { const char *c = p; while (n) { ssize_t k = write(100, c, n); if (k < 0) { if (errno == EINTR) continue; _exit(111); } c += k; n -= k; } }
static void put_n(uint64_t n) { put(&n, sizeof n); }
static void put_s(const char *s) { put_n(strlen(s)); put(s, strlen(s)); }
int main(int argc, char **argv)
{
    char cwd[8192]; int n = 0;
    put("OK", 2); put_n(argc); for (int i = 0; i < argc; i++) put_s(argv[i]);
    for (char **e = environ; e && *e; e++) n++;
    put_n(n); for (int i = 0; i < n; i++) put_s(environ[i]);
    put_s(getcwd(cwd, sizeof cwd) ? cwd : "?");
    return argc > 0 ? (int) (strlen(argv[argc - 1]) % 90) : 0;
}
