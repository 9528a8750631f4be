/* A small language for the behaviour of subprocesses, interpreted either in a
 * forked function or in the program c33_child. */
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/prctl.h>
#include <unistd.h>

static inline unsigned char sub_byte(uint64_t seed, uint64_t at)
{
    uint64_t z = (seed + 1) * UINT64_C(0x9e3779b97f4a7c15) + (at >> 3); z = (z ^ (z >> 30)) * UINT64_C(0xbf58476d1ce4e5b9); z = (z ^ (z >> 27)) * UINT64_C(0x94d049bb133111eb); z ^= z >> 31;
    return z >> (8 * (at & 7));
}
/* These bypass anything the harness has put between libcork and the system. */
#ifndef SUB_READ
#define SUB_READ read
#define SUB_WRITE write
#define SUB_FORK fork
#endif
static void sub_put(int fd, const unsigned char *p, size_t n) { while (n) { ssize_t k = SUB_WRITE(fd, p, n); if (k < 0) { if (errno == EINTR) continue; _exit(94); } p += k; n -= k; } }
/* operations, separated by blanks:
 *   o<n>,<chunk>,<seed>  n bytes to stdout, at most chunk at a time; e: stderr
 *   n<n>,<off>,<seed>    read exactly n bytes of stdin and compare (exit 90)
 *   I<n>,<off>,<seed>    read stdin to its end, expecting n bytes (exit 90/91)
 *   E<n>                 copy n bytes of stdin to stdout
 *   s<us>  c<fd>  g<fd> (wait for a byte)  b<fd> (write a byte)  x<code>  k<signal>
 *   d<fd>  a grandchild without streams, waiting for a byte from fd
 *   l<fd>  exit 92 if fd is open */
static int sub_run(const char *s)
{
    static unsigned char b[65536]; prctl(PR_SET_PDEATHSIG, SIGKILL);
    for (;;) {
        while (*s == ' ') s++;
        if (!*s) return 0;
        char op = *s++, *e; uint64_t v[3] = { 0 };
        for (int i = 0; i < 3; i++) { v[i] = strtoull(s, &e, 10); s = e; if (*s != ',') break; s++; }
        switch (op) {
        case 'o': case 'e':
            for (uint64_t at = 0; at < v[0]; ) { size_t n = v[1] > 1 ? 1 + sub_byte(v[2] ^ 77, at) * v[1] / 256 : 1; if (n > v[0] - at) n = v[0] - at; if (n > sizeof b) n = sizeof b; for (size_t i = 0; i < n; i++) b[i] = sub_byte(v[2], at + i); sub_put(op == 'o' ? 1 : 2, b, n); at += n; }
            break;
        case 'n': case 'I':
            for (uint64_t at = 0; ; ) { if (op == 'n' && at == v[0]) break; ssize_t k = SUB_READ(0, b, op == 'n' && v[0] - at < sizeof b ? v[0] - at : sizeof b); if (k < 0) { if (errno == EINTR) continue; _exit(93); } if (k == 0) { if (at != v[0]) _exit(91); break; }
                for (ssize_t i = 0; i < k; i++) if (at + i >= v[0] || b[i] != sub_byte(v[2], v[1] + at + i)) _exit(90); at += k; }
            break;
        case 'E': for (uint64_t at = 0; at < v[0]; ) { ssize_t k = SUB_READ(0, b, v[0] - at < sizeof b ? v[0] - at : sizeof b); if (k < 0) { if (errno == EINTR) continue; _exit(93); } if (k == 0) _exit(91); sub_put(1, b, k); at += k; } break;
        case 's': usleep(v[0]); break;
        case 'c': close(v[0]); break;
        case 'g': { ssize_t k; do k = SUB_READ(v[0], b, 1); while (k < 0 && errno == EINTR); if (k != 1) _exit(95); break; }
        case 'b': b[0] = '!'; sub_put(v[0], b, 1); break;
        case 'd': { pid_t p = SUB_FORK(); if (p < 0) _exit(96); if (p == 0) { int n = open("/dev/null", O_RDWR); prctl(PR_SET_PDEATHSIG, 0); dup2(n, 0); dup2(n, 1); dup2(n, 2); close(n); ssize_t k; do k = SUB_READ(v[0], b, 1); while (k < 0 && errno == EINTR); _exit(0); } break; }
        case 'l': if (fcntl(v[0], F_GETFD) != -1) return 92; break;
        case 'x': return v[0];
        case 'k': signal(v[0], SIG_DFL); { sigset_t m; sigemptyset(&m); sigaddset(&m, v[0]); sigprocmask(SIG_UNBLOCK, &m, NULL); } kill(getpid(), v[0]); for (;;) pause();
        default: _exit(97);
        }
    }
}
