/* The program that generated local tasks run: pa RECFILE TAG op... [-- arg...].  Every record is one appended line: OP TAG PID MICROSECONDS DATA.
   ops: B | E (begin/end marks)  A (arguments after --, hex)  o:N:S e:N:S (write N bytes, pattern S)  O:HEX X:HEX (write these bytes)
   v:HEX (write to fd 3)  vN:N (N lines of values)  r:FD (read to the end)  r:FD:N (read N bytes)  c:FD (close)  s:MS (sleep)  x:CODE  k:SIG  K:PID I:PID (SIGKILL, SIGINT to the parent)
   i (read stdin to the end)  w:FILE (wait until FILE exists)  t:FILE (touch)  V:NAME (environment)  C (working directory)  G:MS (leave a grandchild that holds
   no descriptors)  H:MS (leave a grandchild that holds stdout)  S (record that SIGTERM is ignored from now on)  q:FD (is FD open?) */
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <time.h>
#include <unistd.h>

static const char *recfile, *tag;
static void rec(const char *fmt, const char *s) {
    size_t n = strlen(fmt) + strlen(tag) + (s ? strlen(s) : 0) + 96;
    char *b = malloc(n);
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    int k = snprintf(b, n, "%s %s %d %lld %s\n", fmt, tag, getpid(), (long long)t.tv_sec * 1000000 + t.tv_nsec / 1000, s ? s : "");
    int fd = open(recfile, O_WRONLY | O_APPEND | O_CREAT | O_CLOEXEC, 0644);
    if (fd < 0 || write(fd, b, k) != k) _exit(97);
    close(fd);
    free(b);
}
static void wr(int fd, const char *p, size_t n) {
    while (n) {
        ssize_t k = write(fd, p, n);
        if (k < 0) { if (errno == EINTR) continue; return; }
        p += k; n -= k;
    }
}
static void pattern(int fd, long n, unsigned s) {
    static const char al[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 \n";
    char *b = malloc(n + 1);
    for (long i = 0; i < n; i++) { s = s * 1103515245u + 12345u; b[i] = al[(s >> 16) % (sizeof al - 1)]; }
    wr(fd, b, n);
    free(b);
}
static char *unhex(const char *h, size_t *n) {
    *n = strlen(h) / 2;
    char *b = malloc(*n + 1);
    for (size_t i = 0; i < *n; i++) { unsigned v; sscanf(h + 2 * i, "%2x", &v); b[i] = v; }
    return b;
}
static char *hex(const char *s, size_t n) {
    char *b = malloc(2 * n + 2);
    b[0] = 0;
    for (size_t i = 0; i < n; i++) sprintf(b + 2 * i, "%02x", (unsigned char)s[i]);
    return b;
}
static void nap(long ms) {
    struct timespec t = {ms / 1000, ms % 1000 * 1000000L};
    while (nanosleep(&t, &t) && errno == EINTR) ;
}
static void grandchild(long ms, int keep) {
    if (fork() == 0) {
        int from = keep ? 2 : 0;
        for (int i = from; i < 64; i++) close(i);
        if (keep) close(0);
        nap(ms);
        _exit(0);
    }
}
int main(int argc, char **argv) {
    recfile = argv[1]; tag = argv[2];
    int dd = argc;
    for (int i = 3; i < argc; i++) if (!strcmp(argv[i], "--")) { dd = i; break; }
    for (int i = 3; i < dd; i++) {
        char *o = argv[i], *p = strchr(o, ':');
        long a = 0; unsigned s = 0; char *q = NULL;
        if (p) { p++; a = atol(p); q = strchr(p, ':'); if (q) s = strtoul(q + 1, 0, 10); }
        size_t n; char *b;
        switch (o[0]) {
        case 'B': rec("B", ""); break;
        case 'E': rec("E", ""); break;
        case 'A': {
            size_t tot = 1;
            for (int j = dd + 1; j < argc; j++) tot += 2 * strlen(argv[j]) + 2;
            char *r = malloc(tot + 1); r[0] = 0; char *e = r;
            for (int j = dd + 1; j < argc; j++) { char *h = hex(argv[j], strlen(argv[j])); e += sprintf(e, "%s;", h); free(h); }
            rec("A", r); free(r); break; }
        case 'o': pattern(1, a, s); break;
        case 'e': pattern(2, a, s); break;
        case 'O': b = unhex(p, &n); wr(1, b, n); free(b); break;
        case 'X': b = unhex(p, &n); wr(2, b, n); free(b); break;
        case 'v':
            if (o[1] == 'N') { for (long j = 0; j < a; j++) { char l[64]; wr(3, l, sprintf(l, "k%ld=%ld\n", j, j * 7)); } }
            else { b = unhex(p, &n); wr(3, b, n); free(b); }
            break;
        case 'r': case 'i': {
            int fd = o[0] == 'i' ? 0 : (int)a; long want = q ? (long)s : -1, got = 0; uint32_t h = ~0u; static char buf[65536];
            int err = 0;
            while (want < 0 || got < want) {
                ssize_t k = read(fd, buf, want < 0 || want - got > (long)sizeof buf ? sizeof buf : (size_t)(want - got));
                if (k < 0) { if (errno == EINTR) continue; err = errno; break; }
                if (k == 0) break;
                for (ssize_t j = 0; j < k; j++) { h ^= (unsigned char)buf[j]; for (int z = 0; z < 8; z++) h = h & 1 ? h >> 1 ^ 0xedb88320u : h >> 1; }
                got += k;
            }
            char l[100]; sprintf(l, "%d %ld %x %d", fd, got, ~h, err); rec("R", l); break; }
        case 'c': close(a); break;
        case 'q': { char l[50]; sprintf(l, "%ld %d", a, fcntl(a, F_GETFD) >= 0); rec("Q", l); break; }
        case 's': nap(a); break;
        case 'x': _exit(a);
        case 'k': signal(a, SIG_DFL); kill(getpid(), a); for (;;) pause();
        case 'K': if (getppid() == a) kill(a, SIGKILL); break;   /* the controller, if it is still there */
        case 'I': if (getppid() == a) kill(a, SIGINT); break;
        case 'w': { struct stat st; while (stat(p, &st)) nap(2); break; }
        case 't': { int fd = open(p, O_WRONLY | O_CREAT, 0644); close(fd); break; }
        case 'V': { char *v = getenv(p); char *h = v ? hex(v, strlen(v)) : strdup("-"); char *l = malloc(strlen(h) + strlen(p) + 3); sprintf(l, "%s %s", p, h); rec("V", l); break; }
        case 'C': { char c[4096]; if (!getcwd(c, sizeof c)) c[0] = 0; rec("C", hex(c, strlen(c))); break; }
        case 'G': grandchild(a, 0); break;
        case 'H': grandchild(a, 1); break;
        case 'S': signal(SIGTERM, SIG_IGN); rec("S", ""); break;
        }
    }
    return 0;
}
