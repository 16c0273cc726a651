/* Counts the operations a process does on the file system and makes the n-th one fail, or ends the process there.
   Inert until fault_arm() is called. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <limits.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

enum { NONE, KILL, TORN, ENOSPC_ONCE, EIO_ONCE, FULL, EACCES_ONCE, INT, SHORT, BROKEN, READ_EIO, TWO };
struct shared { int count, hits; char log[4000]; };
static struct shared *sh;
static int armed, nth, kind, nth2;

void fault_arm(struct shared *s, int n, int k, int n2) { sh = s; nth = n; kind = k; nth2 = n2; s->count = s->hits = 0; s->log[0] = 0; armed = 1; }
void fault_disarm(void) { armed = 0; }

static void die(void) { syscall(SYS_kill, syscall(SYS_getpid), SIGKILL); for (;;) pause(); }

enum { DATA = 1, CREATE = 2, META = 4, READ = 8 };

/* -> 0 go on, 1 fail with errno set, 2 do half of it, 3 do half of it and die */
static int point(int what, const char *name)
{
    if (!armed)
        return 0;
    if ((kind == READ_EIO) != (what == READ))
        return 0;
    int n = ++sh->count;
    size_t l = strlen(sh->log);
    if (l + strlen(name) + 2 < sizeof sh->log)
        sprintf(sh->log + l, "%s ", name);
    switch (kind) {
    case FULL: /* no space from here on */
        if (n >= nth && (what & (DATA | CREATE))) { sh->hits++; errno = ENOSPC; return 1; }
        return 0;
    case BROKEN: /* nothing works from here on */
        if (n >= nth) { sh->hits++; errno = EIO; return 1; }
        return 0;
    case TWO: /* an error, and the end of the process some steps later */
        if (n == nth) { sh->hits++; errno = EIO; return 1; }
        if (n == nth2) { sh->hits++; die(); }
        return 0;
    }
    if (n != nth)
        return 0;
    sh->hits++;
    switch (kind) {
    case KILL: die();
    case TORN: return 3;
    case ENOSPC_ONCE: errno = ENOSPC; return 1;
    case EIO_ONCE: case READ_EIO: errno = EIO; return 1;
    case EACCES_ONCE: errno = EACCES; return 1;
    case INT: syscall(SYS_tgkill, syscall(SYS_getpid), syscall(SYS_gettid), SIGINT); return 0;
    case SHORT: return (what & DATA) ? 2 : 0;
    }
    return 0;
}

static int regular(int fd) { struct stat st; return fstat(fd, &st) == 0 && S_ISREG(st.st_mode); }

#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__); if (!real) *(void **)&real = dlsym(RTLD_NEXT, name)

#define SIMPLE(ret, fn, what, params, args) \
    ret fn params { REAL(ret, #fn, ); int p = point(what, #fn); if (p == 1) return -1; \
        ret r = ((ret (*) params)real) args; if (p == 3) die(); return r; }

#undef REAL
#define REAL(ret, name, ...) static void *real; if (!real) real = dlsym(RTLD_NEXT, name)

/* directories that are taken for file systems of their own: names cannot be moved or linked across them */
#define MOUNTS 16
static char mounts[MOUNTS][PATH_MAX];
static int nmounts;

void fault_mount(const char *dir) { if (nmounts < MOUNTS && realpath(dir, mounts[nmounts])) nmounts++; }

static int device(int fd, const char *path)
{
    char dir[PATH_MAX], full[PATH_MAX];
    if (fd != AT_FDCWD && *path != '/') {
        char link[64];
        sprintf(link, "/proc/self/fd/%d", fd);
        ssize_t n = readlink(link, full, sizeof full - 1);
        if (n < 0)
            return -1;
        full[n] = 0;
        snprintf(dir, sizeof dir, "%s/%s", full, path);
    } else
        snprintf(dir, sizeof dir, "%s", path);
    char *slash = strrchr(dir, '/');
    if (!slash)
        strcpy(dir, ".");
    else
        slash[slash == dir] = 0;
    if (!realpath(dir, full))
        return -1;
    int best = -1;
    size_t len = 0;
    for (int i = 0; i < nmounts; i++) {
        size_t l = strlen(mounts[i]);
        if (l > len && !strncmp(full, mounts[i], l) && (full[l] == 0 || full[l] == '/')) { best = i; len = l; }
    }
    return best;
}

static int apart(int d, const char *a, int e, const char *b)
{
    int err = errno;
    if (nmounts && device(d, a) != device(e, b)) { errno = EXDEV; return 1; }
    errno = err;
    return 0;
}

#define ACROSS(fn, what, params, args, d, a, e, b) \
    int fn params { REAL(int, #fn, ); if (apart(d, a, e, b)) return -1; int p = point(what, #fn); if (p == 1) return -1; \
        int r = ((int (*) params)real) args; if (p == 3) die(); return r; }

ACROSS(rename, META, (const char *a, const char *b), (a, b), AT_FDCWD, a, AT_FDCWD, b)
ACROSS(renameat, META, (int d, const char *a, int e, const char *b), (d, a, e, b), d, a, e, b)
ACROSS(renameat2, META, (int d, const char *a, int e, const char *b, unsigned f), (d, a, e, b, f), d, a, e, b)
SIMPLE(int, unlink, META, (const char *a), (a))
SIMPLE(int, unlinkat, META, (int d, const char *a, int f), (d, a, f))
SIMPLE(int, remove, META, (const char *a), (a))
SIMPLE(int, rmdir, META, (const char *a), (a))
SIMPLE(int, mkdir, CREATE, (const char *a, mode_t m), (a, m))
SIMPLE(int, mkdirat, CREATE, (int d, const char *a, mode_t m), (d, a, m))
ACROSS(link, CREATE, (const char *a, const char *b), (a, b), AT_FDCWD, a, AT_FDCWD, b)
ACROSS(linkat, CREATE, (int d, const char *a, int e, const char *b, int f), (d, a, e, b, f), d, a, e, b)
SIMPLE(int, symlink, CREATE, (const char *a, const char *b), (a, b))
SIMPLE(int, symlinkat, CREATE, (const char *a, int d, const char *b), (a, d, b))
SIMPLE(int, chmod, META, (const char *a, mode_t m), (a, m))
SIMPLE(int, fchmod, META, (int f, mode_t m), (f, m))
SIMPLE(int, fchmodat, META, (int d, const char *a, mode_t m, int f), (d, a, m, f))
SIMPLE(int, utimensat, META, (int d, const char *a, const struct timespec *t, int f), (d, a, t, f))
SIMPLE(int, futimens, META, (int d, const struct timespec *t), (d, t))
SIMPLE(int, truncate, META, (const char *a, off_t l), (a, l))
SIMPLE(int, truncate64, META, (const char *a, off_t l), (a, l))
SIMPLE(int, ftruncate, META, (int f, off_t l), (f, l))
SIMPLE(int, ftruncate64, META, (int f, off_t l), (f, l))
SIMPLE(int, fsync, META, (int f), (f))
SIMPLE(int, fdatasync, META, (int f), (f))

#define OPEN(fn) \
    int fn(const char *a, int fl, ...) { REAL(int, #fn, ); mode_t m = 0; \
        if (fl & (O_CREAT | O_TMPFILE)) { va_list v; va_start(v, fl); m = va_arg(v, mode_t); va_end(v); } \
        int p = fl & (O_CREAT | O_TRUNC) ? point(CREATE, #fn) : 0; if (p == 1) return -1; \
        int r = ((int (*)(const char *, int, ...))real)(a, fl, m); if (p == 3) die(); return r; }
#define OPENAT(fn) \
    int fn(int d, const char *a, int fl, ...) { REAL(int, #fn, ); mode_t m = 0; \
        if (fl & (O_CREAT | O_TMPFILE)) { va_list v; va_start(v, fl); m = va_arg(v, mode_t); va_end(v); } \
        int p = fl & (O_CREAT | O_TRUNC) ? point(CREATE, #fn) : 0; if (p == 1) return -1; \
        int r = ((int (*)(int, const char *, int, ...))real)(d, a, fl, m); if (p == 3) die(); return r; }
OPEN(open)
OPEN(open64)
OPENAT(openat)
OPENAT(openat64)
SIMPLE(int, creat, CREATE, (const char *a, mode_t m), (a, m))
SIMPLE(int, creat64, CREATE, (const char *a, mode_t m), (a, m))

#define DATAOP(fn, params, fdarg, args, half) \
    ssize_t fn params { REAL(ssize_t, #fn, ); int p = armed && regular(fdarg) ? point(DATA, #fn) : 0; if (p == 1) return -1; \
        if (p && n > 1) n = nth2 == 1 ? 1 : nth2 == 2 ? n - 1 : (half); ssize_t r = ((ssize_t (*) params)real) args; if (p == 3) die(); return r; }
DATAOP(write, (int f, const void *b, size_t n), f, (f, b, n), n / 2)
DATAOP(pwrite, (int f, const void *b, size_t n, off_t o), f, (f, b, n, o), n / 2)
DATAOP(pwrite64, (int f, const void *b, size_t n, off_t o), f, (f, b, n, o), n / 2)
DATAOP(writev, (int f, const struct iovec *b, int n), f, (f, b, n), n / 2)
DATAOP(sendfile, (int f, int g, off_t *o, size_t n), f, (f, g, o, n), (n > 8192 ? 7 : n / 2))
DATAOP(sendfile64, (int f, int g, off_t *o, size_t n), f, (f, g, o, n), (n > 8192 ? 7 : n / 2))
DATAOP(copy_file_range, (int g, off_t *o, int f, off_t *q, size_t n, unsigned fl), f, (g, o, f, q, n, fl), (n > 8192 ? 7 : n / 2))

int close(int f)
{
    REAL(int, "close", );
    int e = errno, p = 0;
    if (armed && (fcntl(f, F_GETFL) & O_ACCMODE) != O_RDONLY && regular(f))
        p = point(DATA, "close");
    else
        errno = e;
    if (p == 1) { e = errno; ((int (*)(int))real)(f); errno = e; return -1; }
    int r = ((int (*)(int))real)(f);
    if (p == 3) die();
    return r;
}

#define READOP(fn, params, fdarg, args) \
    ssize_t fn params { REAL(ssize_t, #fn, ); if (armed && regular(fdarg) && point(READ, #fn) == 1) return -1; return ((ssize_t (*) params)real) args; }
READOP(read, (int f, void *b, size_t n), f, (f, b, n))
READOP(pread, (int f, void *b, size_t n, off_t o), f, (f, b, n, o))
READOP(pread64, (int f, void *b, size_t n, off_t o), f, (f, b, n, o))
