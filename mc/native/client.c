/* A stand-in for a Python interpreter: hands its arguments, directory, environment and standard streams to a
 * pre-started real Python process (see mc/zygote.py), which forks, runs the script, and reports the exit status. */
#include <errno.h>
#include <limits.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <unistd.h>
extern char **environ;
static char *buf; static size_t len, cap;
static void put(const char *s) {
    size_t n = strlen(s) + 1;
    if (len + n > cap) { cap = (len + n) * 2; buf = realloc(buf, cap); }
    memcpy(buf + len, s, n); len += n;
}
int main(int argc, char **argv) {
    char exe[PATH_MAX], cwd[PATH_MAX], tmp[64], spath[PATH_MAX];
    ssize_t r = readlink("/proc/self/exe", exe, sizeof exe - 1);
    if (r < 0) return 120;
    exe[r] = 0;
    if (!getcwd(cwd, sizeof cwd)) strcpy(cwd, "/");
    /* like a real interpreter, go by the name used: the program itself is shared by all environments */
    if (strchr(argv[0], '/')) {
        if (*argv[0] == '/') snprintf(exe, sizeof exe, "%s", argv[0]);
        else snprintf(exe, sizeof exe, "%s/%s", cwd, argv[0]);
    }
    snprintf(spath, sizeof spath, "%s", exe);
    char *slash = strrchr(spath, '/');
    strcpy(slash, "/sock");
    char target[PATH_MAX];
    r = readlink(spath, target, sizeof target - 1);   /* a symlink naming the socket */
    if (r < 0) return 121;
    target[r] = 0;
    int fd = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
    struct sockaddr_un sa = {.sun_family = AF_UNIX};
    snprintf(sa.sun_path, sizeof sa.sun_path, "%s", target);
    if (connect(fd, (struct sockaddr *)&sa, sizeof sa)) { perror("connect"); return 122; }
    put(exe); put(cwd);
    snprintf(tmp, sizeof tmp, "%d", argc); put(tmp);
    for (int i = 0; i < argc; i++) put(argv[i]);
    for (char **e = environ; *e; e++) put(*e);
    unsigned n = len;
    struct iovec iov = {&n, sizeof n};
    char cbuf[CMSG_SPACE(3 * sizeof(int))];
    memset(cbuf, 0, sizeof cbuf);
    struct msghdr mh = {.msg_iov = &iov, .msg_iovlen = 1, .msg_control = cbuf, .msg_controllen = sizeof cbuf};
    struct cmsghdr *c = CMSG_FIRSTHDR(&mh);
    c->cmsg_level = SOL_SOCKET; c->cmsg_type = SCM_RIGHTS; c->cmsg_len = CMSG_LEN(3 * sizeof(int));
    int fds[3] = {0, 1, 2};
    memcpy(CMSG_DATA(c), fds, sizeof fds);
    if (sendmsg(fd, &mh, 0) != sizeof n) return 123;
    for (size_t off = 0; off < len;) {
        ssize_t w = write(fd, buf + off, len - off);
        if (w <= 0) return 124;
        off += w;
    }
    int status;
    char *p = (char *)&status; size_t got = 0;
    while (got < sizeof status) {
        ssize_t k = read(fd, p + got, sizeof status - got);
        if (k <= 0) return 125;
        got += k;
    }
    if (status < 0) { signal(-status, SIG_DFL); kill(getpid(), -status); pause(); }
    return status;
}
