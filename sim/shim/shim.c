/* System call seam for the command line program (LD_PRELOAD).
 *
 * Inactive until armed, by vshim_arm(plan) or by the environment variable
 * VSHIM_PLAN. While armed, every operation on files below the scratch root
 * and on standard output is numbered; the plan decides which of them fail,
 * are interrupted, are cut short, or are the last thing the process does.
 * With `sched`, the process asks the scheduler for permission before every
 * operation, so that the interleaving of several processes is chosen there.
 *
 * Plan: items separated by '\n':
 *   root PATH        files below PATH are simulated (class O)
 *   src PATH         class S       dst PATH     class D
 *   log FD           one line per operation
 *   sched RFD WFD    permission protocol
 *   rlim N           no read returns more than N bytes
 *   wlim N           no write accepts more than N bytes
 *   eintr N          every N-th read/write/open is interrupted first
 *   disk N           only N more bytes can be written to files
 *   kill K           killed before operation K    (killafter K: after it)
 *   fail OP CLS NTH ERRNO   the NTH (from 0) OP on class CLS fails
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

#define MAXFD 4096
#define MAXFAIL 64
#define REAL(ret, name, args) \
    static ret (*real_##name) args; \
    if (!real_##name) real_##name = (ret (*) args) dlsym(RTLD_NEXT, #name)

static int armed;
static char root[4096], srcp[4096], dstp[4096];
static size_t rootlen;
static int logfd = -1, rfd = -1, wfd = -1;
static long rlim, wlim, eintr, disk = -1, kill_at = -1, killafter = -1;
static struct { char op[12]; char cls; long nth; int err; } fails[MAXFAIL];
static int nfails;
static struct { char op[12]; char cls; long n; } counts[64];
static int ncounts;
static char cls_of[MAXFD];
static long opno, eintr_no;

static void slog(const char *fmt, ...)
{
    char b[512];
    va_list ap;
    if (logfd < 0) return;
    va_start(ap, fmt);
    int n = vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    if (n > 0) syscall(SYS_write, logfd, b, (size_t)n);
}

void vshim_arm(const char *plan)
{
    char *p = strdup(plan), *save = NULL;
    for (char *l = strtok_r(p, "\n", &save); l; l = strtok_r(NULL, "\n", &save)) {
        char op[12], c;
        long a, b;
        if (!strncmp(l, "root ", 5)) { strncpy(root, l + 5, sizeof root - 1); rootlen = strlen(root); }
        else if (!strncmp(l, "src ", 4)) strncpy(srcp, l + 4, sizeof srcp - 1);
        else if (!strncmp(l, "dst ", 4)) strncpy(dstp, l + 4, sizeof dstp - 1);
        else if (sscanf(l, "log %d", &logfd) == 1) ;
        else if (sscanf(l, "sched %d %d", &rfd, &wfd) == 2) ;
        else if (sscanf(l, "rlim %ld", &rlim) == 1) ;
        else if (sscanf(l, "wlim %ld", &wlim) == 1) ;
        else if (sscanf(l, "eintr %ld", &eintr) == 1) ;
        else if (sscanf(l, "disk %ld", &disk) == 1) ;
        else if (sscanf(l, "killafter %ld", &killafter) == 1) ;
        else if (sscanf(l, "kill %ld", &kill_at) == 1) ;
        else if (sscanf(l, "fail %11s %c %ld %ld", op, &c, &a, &b) == 4 && nfails < MAXFAIL) {
            strcpy(fails[nfails].op, op);
            fails[nfails].cls = c; fails[nfails].nth = a; fails[nfails].err = (int)b;
            nfails++;
        }
    }
    free(p);
    cls_of[1] = '1';
    armed = 1;
}

__attribute__((constructor)) static void init(void)
{
    char *p = getenv("VSHIM_PLAN");
    if (p) {
        vshim_arm(p);
        unsetenv("VSHIM_PLAN");
        unsetenv("LD_PRELOAD");
    }
}

static char path_class(const char *path)
{
    char full[8192];
    if (!armed || !path) return 0;
    if (path[0] == '/') snprintf(full, sizeof full, "%s", path);
    else {
        char cwd[4096];
        if (!getcwd(cwd, sizeof cwd)) return 0;
        while (!strncmp(path, "./", 2)) path += 2;
        snprintf(full, sizeof full, "%s/%s", cwd, path);
    }
    if (strncmp(full, root, rootlen) || (full[rootlen] != '/' && full[rootlen] != 0)) return 0;
    if (!strcmp(full, srcp)) return 'S';
    if (!strcmp(full, dstp)) return 'D';
    return 'O';
}

static char fd_class(int fd)
{
    return armed && fd >= 0 && fd < MAXFD ? cls_of[fd] : 0;
}

static void die(void)
{
    kill(getpid(), SIGKILL);
    for (;;) pause();
}

/* Begin an operation. Returns the errno it shall fail with, or 0. */
static int begin(const char *op, char c)
{
    long k = opno++, nth = 0;
    int i;
    if (wfd >= 0) {
        char b = 'r';
        syscall(SYS_write, wfd, &b, 1);
        long n;
        do n = syscall(SYS_read, rfd, &b, 1); while (n < 0 && errno == EINTR);
        if (n != 1 || b == 'k') { slog("%ld %s %c killed\n", k, op, c); die(); }
    }
    if (k == kill_at) { slog("%ld %s %c killed\n", k, op, c); die(); }
    for (i = 0; i < ncounts; i++)
        if (counts[i].cls == c && !strcmp(counts[i].op, op)) { nth = ++counts[i].n; break; }
    if (i == ncounts && ncounts < 64) { strcpy(counts[i].op, op); counts[i].cls = c; counts[i].n = 0; ncounts++; }
    for (i = 0; i < nfails; i++)
        if (fails[i].cls == c && fails[i].nth == nth && !strcmp(fails[i].op, op)) {
            slog("%ld %s %c failed %d\n", k, op, c, fails[i].err);
            return fails[i].err;
        }
    if (eintr > 0 && (!strcmp(op, "read") || !strcmp(op, "write") || !strcmp(op, "open"))
        && ++eintr_no % eintr == 0) {
        slog("%ld %s %c interrupted\n", k, op, c);
        return EINTR;
    }
    return 0;
}

static void done(const char *op, char c, long r, long asked)
{
    slog("%ld %s %c ok %ld %ld\n", opno - 1, op, c, r, asked);
    if (opno - 1 == killafter) { slog("%ld %s %c killed\n", opno - 1, op, c); die(); }
}

static int opened(int fd, char c)
{
    if (fd >= 0 && fd < MAXFD) cls_of[fd] = c;
    return fd;
}

#define FAIL(e) do { errno = (e); return -1; } while (0)

static int do_open(int dfd, const char *path, int flags, mode_t mode)
{
    char c = (dfd == AT_FDCWD || (path && path[0] == '/')) ? path_class(path) : 0;
    int e;
    if (!c) {
        int fd = (int)syscall(SYS_openat, dfd, path, flags, mode);
        if (armed && fd >= 0 && fd < MAXFD && fd != 1) cls_of[fd] = 0;
        return fd;
    }
    if (flags & O_DIRECTORY) return (int)syscall(SYS_openat, dfd, path, flags, mode);
    if ((e = begin("open", c))) FAIL(e);
    int fd = (int)syscall(SYS_openat, dfd, path, flags, mode);
    int se = errno;
    done("open", c, fd >= 0 ? 0 : -se, flags & (O_ACCMODE | O_TRUNC | O_APPEND | O_CREAT | O_EXCL));
    errno = se;
    return opened(fd, c);
}

#define GETMODE mode_t mode = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }

int open(const char *path, int flags, ...) { GETMODE return do_open(AT_FDCWD, path, flags, mode); }
int open64(const char *path, int flags, ...) { GETMODE return do_open(AT_FDCWD, path, flags, mode); }
int openat(int d, const char *path, int flags, ...) { GETMODE return do_open(d, path, flags, mode); }
int openat64(int d, const char *path, int flags, ...) { GETMODE return do_open(d, path, flags, mode); }
int creat(const char *path, mode_t mode) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }

ssize_t read(int fd, void *buf, size_t n)
{
    char c = fd_class(fd);
    int e;
    if (!c) return syscall(SYS_read, fd, buf, n);
    if ((e = begin("read", c))) FAIL(e);
    size_t m = rlim > 0 && n > (size_t)rlim ? (size_t)rlim : n;
    ssize_t r = syscall(SYS_read, fd, buf, m);
    int se = errno;
    done("read", c, r < 0 ? -se : r, (long)n);
    errno = se;
    return r;
}

static size_t room(char c, size_t n, int *err)
{
    size_t m = wlim > 0 && n > (size_t)wlim ? (size_t)wlim : n;
    *err = 0;
    if (disk >= 0 && c != '1') {
        if (disk == 0 && m > 0) { *err = ENOSPC; return 0; }
        if (m > (size_t)disk) m = (size_t)disk;
    }
    return m;
}

ssize_t write(int fd, const void *buf, size_t n)
{
    char c = fd_class(fd);
    int e;
    if (!c) return syscall(SYS_write, fd, buf, n);
    if ((e = begin("write", c))) FAIL(e);
    size_t m = room(c, n, &e);
    if (e) { slog("%ld write %c failed %d\n", opno - 1, c, e); FAIL(e); }
    ssize_t r = syscall(SYS_write, fd, buf, m);
    int se = errno;
    if (r > 0 && disk >= 0 && c != '1') disk -= r;
    done("write", c, r < 0 ? -se : r, (long)n);
    errno = se;
    return r;
}

ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t off)
{
    char c = fd_class(fd);
    int e;
    if (!c) return syscall(SYS_pwrite64, fd, buf, n, off);
    if ((e = begin("write", c))) FAIL(e);
    size_t m = room(c, n, &e);
    if (e) { slog("%ld write %c failed %d\n", opno - 1, c, e); FAIL(e); }
    ssize_t r = syscall(SYS_pwrite64, fd, buf, m, off);
    int se = errno;
    if (r > 0 && disk >= 0 && c != '1') disk -= r;
    done("write", c, r < 0 ? -se : r, (long)n);
    errno = se;
    return r;
}
ssize_t pwrite(int fd, const void *buf, size_t n, off_t off) { return pwrite64(fd, buf, n, off); }

ssize_t pread64(int fd, void *buf, size_t n, off64_t off)
{
    char c = fd_class(fd);
    int e;
    if (!c) return syscall(SYS_pread64, fd, buf, n, off);
    if ((e = begin("read", c))) FAIL(e);
    size_t m = rlim > 0 && n > (size_t)rlim ? (size_t)rlim : n;
    ssize_t r = syscall(SYS_pread64, fd, buf, m, off);
    int se = errno;
    done("read", c, r < 0 ? -se : r, (long)n);
    errno = se;
    return r;
}
ssize_t pread(int fd, void *buf, size_t n, off_t off) { return pread64(fd, buf, n, off); }

ssize_t writev(int fd, const struct iovec *v, int n)
{
    char c = fd_class(fd);
    if (!c) return syscall(SYS_writev, fd, v, n);
    for (int i = 0; i < n; i++)
        if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}

ssize_t readv(int fd, const struct iovec *v, int n)
{
    char c = fd_class(fd);
    if (!c) return syscall(SYS_readv, fd, v, n);
    for (int i = 0; i < n; i++)
        if (v[i].iov_len) return read(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}

int close(int fd)
{
    char c = fd_class(fd);
    int e;
    if (!c) return (int)syscall(SYS_close, fd);
    e = begin("close", c);
    cls_of[fd] = 0;
    int r = (int)syscall(SYS_close, fd);
    if (e && e != EINTR) FAIL(e);
    done("close", c, r, 0);
    return r;
}

#define PATHOP1(name, op, sys, decl, p, ...) \
int name decl { \
    char c = path_class(p); int e; \
    if (!c) return (int)syscall(sys, __VA_ARGS__); \
    if ((e = begin(op, c))) FAIL(e); \
    int r = (int)syscall(sys, __VA_ARGS__); int se = errno; \
    done(op, c, r < 0 ? -se : 0, 0); errno = se; return r; }

PATHOP1(unlink, "unlink", SYS_unlinkat, (const char *p), p, AT_FDCWD, p, 0)
PATHOP1(unlinkat, "unlink", SYS_unlinkat, (int d, const char *p, int fl), p, d, p, fl)
PATHOP1(truncate, "truncate", SYS_truncate, (const char *p, off_t n), p, p, n)
PATHOP1(truncate64, "truncate", SYS_truncate, (const char *p, off64_t n), p, p, n)
PATHOP1(mkdir, "mkdir", SYS_mkdirat, (const char *p, mode_t m), p, AT_FDCWD, p, m)
PATHOP1(rename, "rename", SYS_renameat, (const char *o, const char *p), p, AT_FDCWD, o, AT_FDCWD, p)
PATHOP1(renameat, "rename", SYS_renameat, (int d, const char *o, int f, const char *p), p, d, o, f, p)
PATHOP1(link, "link", SYS_linkat, (const char *o, const char *p), p, AT_FDCWD, o, AT_FDCWD, p, 0)
PATHOP1(symlink, "link", SYS_symlinkat, (const char *o, const char *p), p, o, AT_FDCWD, p)

#define FDOP1(name, op, sys, decl, fd, ...) \
int name decl { \
    char c = fd_class(fd); int e; \
    if (!c) return (int)syscall(sys, __VA_ARGS__); \
    if ((e = begin(op, c))) FAIL(e); \
    int r = (int)syscall(sys, __VA_ARGS__); int se = errno; \
    done(op, c, r < 0 ? -se : 0, 0); errno = se; return r; }

FDOP1(ftruncate, "truncate", SYS_ftruncate, (int fd, off_t n), fd, fd, n)
FDOP1(ftruncate64, "truncate", SYS_ftruncate, (int fd, off64_t n), fd, fd, n)
FDOP1(fsync, "fsync", SYS_fsync, (int fd), fd, fd)
FDOP1(fdatasync, "fsync", SYS_fdatasync, (int fd), fd, fd)

static ssize_t do_copy(char c, size_t n, size_t *m)
{
    int e;
    if ((e = begin("write", c))) FAIL(e);
    *m = room(c, n, &e);
    if (e) { slog("%ld write %c failed %d\n", opno - 1, c, e); FAIL(e); }
    return 0;
}

ssize_t sendfile64(int out, int in, off64_t *off, size_t n)
{
    char c = fd_class(out);
    size_t m;
    if (!c) return syscall(SYS_sendfile, out, in, off, n);
    if (do_copy(c, n, &m) < 0) return -1;
    ssize_t r = syscall(SYS_sendfile, out, in, off, m);
    int se = errno;
    if (r > 0 && disk >= 0 && c != '1') disk -= r;
    done("write", c, r < 0 ? -se : r, (long)n);
    errno = se;
    return r;
}
ssize_t sendfile(int out, int in, off_t *off, size_t n) { return sendfile64(out, in, off, n); }

ssize_t copy_file_range(int in, off64_t *oi, int out, off64_t *oo, size_t n, unsigned fl)
{
    char c = fd_class(out);
    size_t m;
    if (!c) return syscall(SYS_copy_file_range, in, oi, out, oo, n, fl);
    if (do_copy(c, n, &m) < 0) return -1;
    ssize_t r = syscall(SYS_copy_file_range, in, oi, out, oo, m, fl);
    int se = errno;
    if (r > 0 && disk >= 0 && c != '1') disk -= r;
    done("write", c, r < 0 ? -se : r, (long)n);
    errno = se;
    return r;
}

static int duped(int from, int to)
{
    if (armed && to >= 0 && to < MAXFD) cls_of[to] = fd_class(from);
    return to;
}
int dup(int fd) { return duped(fd, (int)syscall(SYS_dup, fd)); }
int dup2(int a, int b) { REAL(int, dup2, (int, int)); return duped(a, real_dup2(a, b)); }
int dup3(int a, int b, int f) { return duped(a, (int)syscall(SYS_dup3, a, b, f)); }
int fcntl(int fd, int cmd, ...)
{
    va_list ap;
    va_start(ap, cmd);
    long arg = va_arg(ap, long);
    va_end(ap);
    int r = (int)syscall(SYS_fcntl, fd, cmd, arg);
    return cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC ? duped(fd, r) : r;
}
int fcntl64(int fd, int cmd, ...)
{
    va_list ap;
    va_start(ap, cmd);
    long arg = va_arg(ap, long);
    va_end(ap);
    int r = (int)syscall(SYS_fcntl, fd, cmd, arg);
    return cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC ? duped(fd, r) : r;
}
