/*
 * Fault injector (LD_PRELOAD): numbers the operations of this process on files and directories below a
 * given directory (create/open, write, truncate, close, mkdir, unlink, rmdir, rename) and lets one of
 * them fail with a given error, or ends the process before it (error -1) or in the middle of a write
 * (error -2). Nothing outside of that directory is affected.
 *
 * With a scheduler (fault_sched), the process stops before operation number k, tells so, and goes on when
 * it is told to, up to the operation it is given then; looking at files (stat, access) is an operation, too.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>
#include <limits.h>

#define NFD 4096
#define NOP 65536
static char prefix[PATH_MAX];
static size_t plen;
static long target = -1, count;
static int err;
static int armed;
static char tracked[NFD];
static char ops[NOP];
static int sched_out = -1, sched_in = -1;       /* pipes to the scheduler, if there is one */

void fault_arm(const char *p, long k, int e)
{
    strncpy(prefix, p, sizeof(prefix) - 1);
    plen = strlen(prefix);
    target = k;
    err = e;
    count = 0;
    memset(tracked, 0, sizeof(tracked));
    armed = 1;
}
void fault_sched(int out, int in) { sched_out = out; sched_in = in; }
long fault_disarm(void) { armed = 0; return count; }
const char *fault_ops(void) { return ops; }

static int below(int dirfd, const char *path)
{
    char buf[PATH_MAX];
    if (!armed || !path) return 0;
    if (path[0] != '/') {
        if (dirfd == AT_FDCWD) {
            if (!getcwd(buf, sizeof(buf))) return 0;
        } else if (dirfd >= 0 && dirfd < NFD && tracked[dirfd]) {
            return 1;
        } else return 0;
        strncat(buf, "/", sizeof(buf) - strlen(buf) - 1);
        strncat(buf, path, sizeof(buf) - strlen(buf) - 1);
        path = buf;
    }
    return strncmp(path, prefix, plen) == 0 && (path[plen] == '/' || path[plen] == 0);
}

/* the operation takes place (0) or fails (1) */
static int op(char kind)
{
    long n = count++;
    if (n < NOP - 1) { ops[n] = kind; ops[n + 1] = 0; }
    if (sched_in >= 0) {
        while (n == target) {
            int saved = errno;
            armed = 0;
            if (write(sched_out, "p", 1) != 1 || read(sched_in, &target, sizeof(target)) != sizeof(target)) _exit(98);
            armed = 1;
            errno = saved;
        }
        return 0;
    }
    if (n == target && err < 0) _exit(99);
    if (n == target) { errno = err; return 1; }
    return 0;
}

#define REAL(ret, name, ...) \
    static ret (*real)(__VA_ARGS__); \
    if (!real) real = (ret (*)(__VA_ARGS__)) dlsym(RTLD_NEXT, name)

static char okind(int flags) { return flags & O_DIRECTORY ? 'd' : (flags & O_ACCMODE) == O_RDONLY ? 'r' : 'o'; }

static int track(int fd, int flags) { if (fd >= 0 && fd < NFD) tracked[fd] = okind(flags) == 'o' ? 2 : 1; return fd; }

#define OPEN(fn) \
int fn(const char *path, int flags, ...) \
{ \
    REAL(int, #fn, const char *, int, ...); \
    mode_t mode = 0; va_list ap; va_start(ap, flags); if (flags & (O_CREAT | O_TMPFILE)) mode = va_arg(ap, mode_t); va_end(ap); \
    if (!below(AT_FDCWD, path)) return real(path, flags, mode); \
    if (op(okind(flags))) return -1; \
    return track(real(path, flags, mode), flags); \
}
OPEN(open)
OPEN(open64)

#define OPENAT(fn) \
int fn(int dirfd, const char *path, int flags, ...) \
{ \
    REAL(int, #fn, int, const char *, int, ...); \
    mode_t mode = 0; va_list ap; va_start(ap, flags); if (flags & (O_CREAT | O_TMPFILE)) mode = va_arg(ap, mode_t); va_end(ap); \
    if (!below(dirfd, path)) return real(dirfd, path, flags, mode); \
    if (op(okind(flags))) return -1; \
    return track(real(dirfd, path, flags, mode), flags); \
}
OPENAT(openat)
OPENAT(openat64)

static int mine(int fd) { return armed && fd >= 0 && fd < NFD && tracked[fd]; }

static int torn(void) { return armed && err == -2 && count == target; }

ssize_t write(int fd, const void *b, size_t n)
{ REAL(ssize_t, "write", int, const void *, size_t); if (mine(fd) && torn()) { real(fd, b, n/2); _exit(99); } if (mine(fd) && op('w')) return -1; return real(fd, b, n); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o)
{ REAL(ssize_t, "pwrite", int, const void *, size_t, off_t); if (mine(fd) && torn()) { real(fd, b, n/2, o); _exit(99); } if (mine(fd) && op('w')) return -1; return real(fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o)
{ REAL(ssize_t, "pwrite64", int, const void *, size_t, off64_t); if (mine(fd) && torn()) { real(fd, b, n/2, o); _exit(99); } if (mine(fd) && op('w')) return -1; return real(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int n)
{ REAL(ssize_t, "writev", int, const struct iovec *, int); if (mine(fd) && op('w')) return -1; return real(fd, v, n); }
int ftruncate(int fd, off_t n)
{ REAL(int, "ftruncate", int, off_t); if (mine(fd) && op('t')) return -1; return real(fd, n); }
int ftruncate64(int fd, off64_t n)
{ REAL(int, "ftruncate64", int, off64_t); if (mine(fd) && op('t')) return -1; return real(fd, n); }
int dup(int fd)
{ REAL(int, "dup", int); int r = real(fd); if (r >= 0 && r < NFD && mine(fd)) tracked[r] = tracked[fd]; return r; }
int close(int fd)
{
    REAL(int, "close", int);
    int written = mine(fd) && tracked[fd] == 2;
    if (fd >= 0 && fd < NFD) tracked[fd] = 0;
    int r = real(fd);
    if (written && op('c')) return -1;      /* the descriptor is gone, but data may be lost */
    return r;
}

int mkdir(const char *p, mode_t m)
{ REAL(int, "mkdir", const char *, mode_t); if (below(AT_FDCWD, p) && op('m')) return -1; return real(p, m); }
int mkdirat(int d, const char *p, mode_t m)
{ REAL(int, "mkdirat", int, const char *, mode_t); if (below(d, p) && op('m')) return -1; return real(d, p, m); }
int unlink(const char *p)
{ REAL(int, "unlink", const char *); if (below(AT_FDCWD, p) && op('u')) return -1; return real(p); }
int unlinkat(int d, const char *p, int f)
{ REAL(int, "unlinkat", int, const char *, int); if (below(d, p) && op('u')) return -1; return real(d, p, f); }
int rmdir(const char *p)
{ REAL(int, "rmdir", const char *); if (below(AT_FDCWD, p) && op('u')) return -1; return real(p); }
int remove(const char *p)
{ REAL(int, "remove", const char *); if (below(AT_FDCWD, p) && op('u')) return -1; return real(p); }
int rename(const char *a, const char *b)
{ REAL(int, "rename", const char *, const char *); if ((below(AT_FDCWD, a) || below(AT_FDCWD, b)) && op('n')) return -1; return real(a, b); }

/* looking at a file is an operation only if there is a scheduler */
static void look(int d, const char *p) { if (sched_in >= 0 && below(d, p)) op('s'); }
struct stat;
int stat(const char *p, struct stat *b)
{ REAL(int, "stat", const char *, struct stat *); look(AT_FDCWD, p); return real(p, b); }
int lstat(const char *p, struct stat *b)
{ REAL(int, "lstat", const char *, struct stat *); look(AT_FDCWD, p); return real(p, b); }
int fstatat(int d, const char *p, struct stat *b, int f)
{ REAL(int, "fstatat", int, const char *, struct stat *, int); look(d, p); return real(d, p, b, f); }
struct stat64;
int stat64(const char *p, struct stat64 *b)
{ REAL(int, "stat64", const char *, struct stat64 *); look(AT_FDCWD, p); return real(p, b); }
int lstat64(const char *p, struct stat64 *b)
{ REAL(int, "lstat64", const char *, struct stat64 *); look(AT_FDCWD, p); return real(p, b); }
int fstatat64(int d, const char *p, struct stat64 *b, int f)
{ REAL(int, "fstatat64", int, const char *, struct stat64 *, int); look(d, p); return real(d, p, b, f); }
int access(const char *p, int m)
{ REAL(int, "access", const char *, int); look(AT_FDCWD, p); return real(p, m); }
typedef struct __dirstream DIR;
DIR *opendir(const char *p)
{ REAL(DIR *, "opendir", const char *); look(AT_FDCWD, p); return real(p); }
