// A process whose life the harness owns.
//   agent SOCK IDX [ignored...]   a local task: reports in over a unix socket and does what it is told
//   .../prov URL                  (named "prov") the provisioner: passes on what it was given, then waits
#include <libgen.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <unistd.h>
static int conn(const char *path) {
    struct sockaddr_un a;
    memset(&a, 0, sizeof a);
    a.sun_family = AF_UNIX;
    strncpy(a.sun_path, path, sizeof a.sun_path - 1);
    int s = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
    if (s < 0 || connect(s, (struct sockaddr *)&a, sizeof a) != 0) exit(98);
    return s;
}
int main(int argc, char **argv) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    char buf[1024];
    size_t l = strlen(argv[0]);
    if (l > 5 && !strcmp(argv[0] + l - 5, "/prov")) {
        char p[512];
        snprintf(p, sizeof p, "%.*s/a.sock", (int)(l - 5), argv[0]);
        int s = conn(p);
        const char *tok = getenv("EXECGRAPH_AUTHORIZATION_TOKEN");
        int n = snprintf(buf, sizeof buf, "P %s %s %d\n", argc > 1 ? argv[1] : "-", tok ? tok : "-", (int)getpid());
        if (write(s, buf, n) != n) return 99;
        for (;;) pause();
    }
    if (argc < 3) return 97;
    int s = conn(argv[1]);
    struct stat st;
    int piped = fstat(1, &st) == 0 && S_ISFIFO(st.st_mode);
    int n = snprintf(buf, sizeof buf, "A %s %d %d\n", argv[2], (int)getpid(), piped ? 0 : 1);
    if (write(s, buf, n) != n) return 99;
    n = 0;
    while (n < 200) {
        int r = read(s, buf + n, 1);
        if (r <= 0) return 96;
        if (buf[n] == '\n') break;
        n++;
    }
    buf[n] = 0;
    int code = atoi(buf + 1);
    if (buf[0] == 's') { signal(code, SIG_DFL); kill(getpid(), code); pause(); }
    return code;
}
